import z3
from values import *
from mem import fresh_bv
import mem, engine as E
B64 = z3.BitVecSort(64)
DECLEN = z3.Function('declen', B64, B64, B64)
DECDIG = z3.Function('decdigit', B64, B64, B64, z3.BitVecSort(8))
HEXV = z3.Function('hexval_other', z3.BitVecSort(8), z3.BitVecSort(8), z3.BitVecSort(8))
def cstr(eng, st, p):
    r, i = '', 0
    while True:
        b = mem.read(st.obj(p.obj), add(p.off, i), 1, st)
        if b == 0: return r
        r += chr(b); i += 1

def sprintf(eng, st, ins, a, work, cut):
    """assumed: writes the decimal text (1 to 20 characters, none of them 0) and a terminator"""
    f = cstr(eng, st, a[1])
    kinds = {'%ld': 0, '%lu': 1}
    eng.oblige(st, f in kinds, 'number format %s is that of a 64-bit number' % f, 'contract')
    k, v = kinds.get(f, 9), bv(a[2], 64)
    kk = z3.BitVecVal(k, 64)
    n = DECLEN(kk, v)
    st.assume(z3.And(z3.UGE(n, 1), z3.ULE(n, 20)))
    eng.access(st, a[0], 21, 'sprintf')
    o = st.obj(a[0].obj, True)
    mem.flush(o, st)
    old, off = o.chain, a[0].off
    st.ghost['foralls'] = st.ghost.get('foralls', ()) + (
        lambda j: lor(lnot(ult(j, n)), lnot(eq(DECDIG(kk, v, bv(j, 64)), 0, 8))),)
    def f2(i, prev):
        d = sub(i, off)
        return fold(simp(z3.If(z3.ULT(bv(d, 64), n), DECDIG(kk, v, bv(d, 64)), z3.If(bv(d, 64) == n, z3.BitVecVal(0, 8), bv(mem.read_byte(old, i), 8)))))
    o.chain = mem.Node('ov', f2, prev=old)
    st.ghost['nul'] = st.ghost.get('nul', ()) + (n,)
    return eng.ret(st, ins, trunc(n, 64, 32), work, cut)

FMT = z3.Function('formatted', B64, z3.BitVecSort(8))
def va_start(eng, st, ins, a, work, cut):
    st.ghost['va_list'] = a[0]
    return eng.ret(st, ins, None, work, cut)
def va_end(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, None, work, cut)
def vsnprintf(eng, st, ins, a, work, cut):
    """assumed: negative result, or the formatted text cut to the room given, terminated"""
    v = st.ghost.get('va_list')
    eng.oblige(st, isinstance(v, Ptr) and isinstance(a[3], Ptr) and v.obj == a[3].obj and v.off == a[3].off, 'the arguments of the call are formatted', 'contract')
    f = st.ghost['format']
    eng.oblige(st, a[2].obj == f.obj and a[2].off == f.off, 'the format of the call is used', 'contract')
    room = bv(a[1], 64)
    eng.oblige(st, simp(z3.UGE(room, 1)), 'there is room for the terminator', 'contract')
    eng.access(st, a[0], a[1], 'vsnprintf')
    r = fresh_bv('formatted_length', 32)
    n = z3.If(z3.ULT(z3.ZeroExt(32, r), room), z3.ZeroExt(32, r), room - 1)
    n = simp(n)
    st.ghost['flen'], st.ghost['fres'] = n, z3.SignExt(32, r)
    o = st.obj(a[0].obj, True)
    mem.flush(o, st)
    old, off = o.chain, a[0].off
    st.ghost['foralls'] = st.ghost.get('foralls', ()) + (lambda j: lor(lnot(ult(j, n)), lnot(eq(FMT(bv(j, 64)), 0, 8))),)
    def f2(i, prev):
        d = sub(i, off)
        return fold(simp(z3.If(z3.ULT(bv(d, 64), n), FMT(bv(d, 64)), z3.If(bv(d, 64) == n, z3.BitVecVal(0, 8), bv(mem.read_byte(old, i), 8)))))
    o.chain = mem.Node('ov', f2, prev=old)
    st.ghost['nul'] = st.ghost.get('nul', ()) + (n,)
    return eng.ret(st, ins, r, work, cut)

def hexdigit(c):
    c = bv(c, 8)
    return z3.Or(z3.And(z3.UGE(c, 48), z3.ULE(c, 57)), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))
def nib(c):
    c = bv(c, 8)
    return z3.If(z3.ULE(c, 57), c - 48, z3.If(z3.ULE(c, 70), c - 55, c - 87))
def hexval(a, b):
    a, b = bv(a, 8), bv(b, 8)
    return z3.If(z3.And(hexdigit(a), hexdigit(b)), (nib(a) << 4) | nib(b), HEXV(a, b))

def sscanf(eng, st, ins, a, work, cut):
    """assumed: one conversion; 1 and the value written, or another result and nothing written"""
    f = cstr(eng, st, a[1])
    kinds = {'%d': (0, 4), '%ld': (1, 8), '%lu': (2, 8), '%lf': (3, 8), '%lx': (4, 8)}
    eng.oblige(st, f in kinds, 'conversion %s is known' % f, 'contract')
    k, w = kinds.get(f, (9, 1))
    eng.access(st, a[2], w, 'sscanf')
    got = fresh_bv('got', 32)
    if k == 4:
        o = st.obj(a[0].obj)
        c = [mem.read(o, add(a[0].off, i), 1, st) for i in range(3)]
        eng.oblige(st, eq(c[2], 0, 8), 'two characters are converted', 'contract')
        hexa = z3.And(hexdigit(c[0]), hexdigit(c[1]))
        st.assume(z3.Implies(hexa, got == 1))
        val = z3.ZeroExt(56, hexval(c[0], c[1]))
    else:
        val = fresh_bv('scanned', 8 * w)
        b = st.ghost.get('buffer')
        eng.oblige(st, isinstance(b, Ptr) and a[0].obj == b.obj and a[0].off == b.off, 'the whole text is converted', 'contract')
        st.ghost['kind'], st.ghost['scanned'], st.ghost['got'] = k, zext(val, 8 * w, 64), zext(got, 32, 64)
    for ok in (1, 0):
        s = st.clone() if ok else st
        c = simp(got == 1) if ok else simp(got != 1)
        if not eng.feasible(s, c): continue
        s.assume(c)
        if ok:
            mem.write(s.obj(a[2].obj, True), a[2].off, w, val, s)
            eng.ret(s, ins, 1, work, cut)
            work.append(s)
        else:
            if k == 4: s.ghost['bad'] = 1
            return eng.ret(s, ins, got, work, cut)
    raise E.PathEnd('infeasible')

def snap(v, h, i):
    node, off = v.st.ghost['snaps'][h - 1]
    return mem.read_byte(node, add(off, simp(i)))

def loop_inv(lc, view, ranges):
    g = lc.ghost
    inv, kb, content = [], [], {}
    ks = [k for k, x in view.ints(32)]
    if 'append_hex' in lc.dem:
        n8 = [k for k, x in view.ints(64)]
        def f(v, i, old):
            i = bv(i, 64)
            x = z3.LShR(i, 1)
            val = bv(snap(v, g['bs'], x), 8)
            nb = z3.If((i & 1) == 1, val & 15, z3.LShR(val, 4))
            return (z3.ULT(x, v.K()), z3.If(z3.ULE(nb, 9), nb + 48, nb + 55))
        content['rec'] = f
        return {'content': content}
    if 'extract' in lc.dem:
        ts, at = g['ts'], bv(g['at'], 64)
        def f(v, i, old):
            i = bv(i, 64)
            return (z3.ULT(i, v.K()), hexval(snap(v, ts, at + 2 * i), snap(v, ts, at + 2 * i + 1)))
        content['bytes'] = f
        return {'content': content}
    return {}

def config(cfg):
    cfg.loop_inv = loop_inv
    cfg.contracts = {r'mgexception::mgexception\(int, char const\*, int\)$': 'vcc_exc', r'mgexception::~mgexception\(\)$': 'vcc_exc_dtor'}
    cfg.models = {r'^sprintf$': sprintf, r'sscanf$': sscanf, r'^vsnprintf$': vsnprintf, r'^llvm.va_start': va_start, r'^llvm.va_end': va_end}
    cfg.spec = {'formatted': lambda eng, st, j: z3.ZeroExt(56, FMT(bv(j, 64))),
                'declen': lambda eng, st, k, v: DECLEN(bv(k, 64), bv(v, 64)),
                'decdigit': lambda eng, st, k, v, j: z3.ZeroExt(56, DECDIG(bv(k, 64), bv(v, 64), bv(j, 64))),
                'hexchar': lambda eng, st, n: simp(z3.If(z3.ULE(bv(n, 64), 9), bv(n, 64) + 48, bv(n, 64) + 55)),
                'hexval': lambda eng, st, a, b: simp(z3.ZeroExt(56, hexval(z3.Extract(7, 0, bv(a, 64)), z3.Extract(7, 0, bv(b, 64)))))}
def per_harness(h, cfg):
    if h == 'h_hex':
        cfg.contracts[r'CstringT<char>::operator\+=\(char const\*\)$'] = 'vcc_append'
