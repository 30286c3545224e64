"""Semantics of the verification primitives (vc_*), of LLVM intrinsics, and assumed contracts of
library functions that have no body in the extracted code (listed in the evidence)."""
import re
import z3
from values import *
import mem
from mem import fresh_bv, node_array, node_zero, Node
import engine as E

EXACT, PATTERNS = {}, []

def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d

def pattern(rx, decl_only=True):
    def d(f):
        PATTERNS.append((re.compile(rx), f, decl_only))
        return f
    return d

def lookup(name, dem, decl):
    if name in EXACT:
        return EXACT[name]
    for rx, f, d in PATTERNS:
        if (decl or not d) and (rx.search(name) or rx.search(dem)):
            return f
    return None

def cstring(eng, st, p):
    """concrete C string (names of clauses)"""
    out = bytearray()
    o = st.obj(p.obj)
    i = p.off
    while True:
        b = mem.read(o, i, 1, st)
        if b == 0:
            return out.decode('latin1')
        out.append(b)
        i += 1

# ------------------------------------------------------------------ verification primitives
@model('vc_nd')
def _(eng, st, ins, a, work, cut):
    n = cstring(eng, st, a[0])
    v = fresh_bv(n, 64)
    st.nds.append((n, v))
    return eng.ret(st, ins, v, work, cut)

@model('vc_ndw')
def _(eng, st, ins, a, work, cut):
    n = cstring(eng, st, a[0])
    v = z3.ZeroExt(64 - a[1], fresh_bv(n, a[1]))
    st.nds.append((n, v))
    return eng.ret(st, ins, v, work, cut)

@model('vc_fp')
def _(eng, st, ins, a, work, cut):
    n = cstring(eng, st, a[0])
    b = fresh_bv(n, 64)
    st.nds.append((n, b))
    return eng.ret(st, ins, z3.fpBVToFP(b, z3.Float64()), work, cut)

@model('vc_assume')
def _(eng, st, ins, a, work, cut):
    c = a[0]
    if is_c(c):
        if not c:
            raise E.PathEnd('infeasible')
    else:
        c = c if isinstance(c, z3.BoolRef) else simp(c != 0)
        if not eng.feasible(st, c):
            raise E.PathEnd('infeasible')
        st.assume(c)
    return eng.ret(st, ins, None, work, cut)

@model('vc_assert')
def _(eng, st, ins, a, work, cut):
    c = a[0]
    if not is_c(c) and not isinstance(c, z3.BoolRef):
        c = simp(c != 0)
    eng.oblige(st, bool(c) if is_c(c) else c, cstring(eng, st, a[1]), 'contract')
    return eng.ret(st, ins, None, work, cut)

@model('vc_cover')
def _(eng, st, ins, a, work, cut):
    n = cstring(eng, st, a[0])
    if (eng.harness, n) not in eng.covers and not st.quiet:
        r, m = eng.check(st, [], 20000)
        if r == 'sat':
            eng.covers.add((eng.harness, n))
    return eng.ret(st, ins, None, work, cut)

@model('vc_alloc')
def _(eng, st, ins, a, work, cut):
    n = cstring(eng, st, a[1])
    o = st.new(n, a[0], 'heap')
    o.tag = 'harness'
    st.nds.append((n, ('buf', o.id, a[0], o.chain)))
    return eng.ret(st, ins, Ptr(o.id, 0), work, cut)

@model('vc_free')
def _(eng, st, ins, a, work, cut):
    st.obj(a[0].obj, True).alive = False
    return eng.ret(st, ins, None, work, cut)

@model('vc_cstr')          # (len, name): NUL-terminated string of exactly len non-NUL bytes
def _(eng, st, ins, a, work, cut):
    n = cstring(eng, st, a[1])
    L = a[0]
    A = mem.fresh_array(n)
    def f(i):
        b = A[i]
        nz = z3.If(b == 0, z3.BitVecVal(1, 8), b)
        return simp(z3.If(z3.ULT(bv(i, 64), bv(L, 64)), nz, z3.BitVecVal(0, 8)))
    o = st.new(n, add(L, 1), 'heap', Node('fn', f))
    o.nul = (L,)
    o.tag = 'harness'
    st.nds.append((n, ('buf', o.id, L, o.chain)))
    return eng.ret(st, ins, Ptr(o.id, 0), work, cut)

@model('vc_havoc')
def _(eng, st, ins, a, work, cut):
    p, n = a[0], a[1]
    o = eng.access(st, p, n, 'havoc', True)
    src = node_array('havoc')
    if st.log is not None:
        st.log.append((p.obj, p.off, n))
    if is_c(p.off) and is_c(n):
        for c in list(o.cells):
            if c < p.off + n and p.off < c + o.cells[c][0]:
                if p.off <= c and c + o.cells[c][0] <= p.off + n:
                    del o.cells[c]
                else:
                    mem._spill(o, c, st)
    else:
        mem.flush(o, st)
    o.chain = Node('cp', p.off, n, src, 0, prev=o.chain)
    return eng.ret(st, ins, None, work, cut)

@model('vc_snap')
def _(eng, st, ins, a, work, cut):
    p = a[0]
    o = st.obj(p.obj, True)
    mem.flush(o, st)
    h = len(st.ghost.setdefault('snaps', ())) + 1
    st.ghost['snaps'] = st.ghost['snaps'] + ((o.chain, p.off),)
    return eng.ret(st, ins, h, work, cut)

@model('vc_at')
def _(eng, st, ins, a, work, cut):
    node, off = st.ghost['snaps'][a[0] - 1]
    return eng.ret(st, ins, mem.read_byte(node, add(off, a[1])), work, cut)

@model('vc_peek')
def _(eng, st, ins, a, work, cut):
    o = st.obj(a[0].obj)
    return eng.ret(st, ins, mem.peek(o, add(a[0].off, a[1]), st), work, cut)

@model('vc_size')
def _(eng, st, ins, a, work, cut):
    if a[0].obj is None:
        return eng.ret(st, ins, 0, work, cut)
    return eng.ret(st, ins, sub(st.obj(a[0].obj).size, a[0].off), work, cut)

@model('vc_live')
def _(eng, st, ins, a, work, cut):
    if a[0].obj is None:
        return eng.ret(st, ins, False, work, cut)
    return eng.ret(st, ins, st.obj(a[0].obj).alive, work, cut)

@model('vc_same')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, a[0].obj == a[1].obj, work, cut)

@model('vc_leaks')         # number of live heap objects allocated by the code under proof
def _(eng, st, ins, a, work, cut):
    n = sum(1 for o in st.mem.values() if o.alive and o.kind in ('new', 'new[]', 'malloc'))
    return eng.ret(st, ins, n, work, cut)

@model('vc_inst')          # instantiate logged universal facts at an index
def _(eng, st, ins, a, work, cut):
    for f in st.ghost.get('foralls', ()):
        st.assume(simp(f(a[0])))
    return eng.ret(st, ins, None, work, cut)

@model('vc_words')        # fresh memory: any content, seen as 64-bit words
def _(eng, st, ins, a, work, cut):
    o = st.obj(a[0].obj, True)
    W = z3.Function(mem.fresh_name(cstring(eng, st, a[1])), z3.BitVecSort(64), z3.BitVecSort(64))
    o.cells, o.chain = {}, mem.Node('fn', lambda j: mem.word_byte(W, j))
    st.ghost['words:' + cstring(eng, st, a[1])] = W
    return eng.ret(st, ins, None, work, cut)

@model('vc_tag')
def _(eng, st, ins, a, work, cut):
    st.obj(a[0].obj, True).name = cstring(eng, st, a[1])
    return eng.ret(st, ins, None, work, cut)

@model('vc_set', 'vc_setp')           # ghost variable
def _(eng, st, ins, a, work, cut):
    st.ghost[cstring(eng, st, a[0])] = a[1]
    return eng.ret(st, ins, None, work, cut)

@model('vc_get')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, st.ghost.get(cstring(eng, st, a[0]), 0), work, cut)

@model('vc_may_throw')
def _(eng, st, ins, a, work, cut):
    st.ghost['may_throw'] = True
    return eng.ret(st, ins, None, work, cut)

@model('vc_or')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, _b(lor(_t(a[0]), _t(a[1]))), work, cut)

@model('vc_and')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, _b(land(_t(a[0]), _t(a[1]))), work, cut)

@model('vc_implies')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, _b(lor(lnot(_t(a[0])), _t(a[1]))), work, cut)

@model('vc_ite')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, ite(_t(a[0]), a[1], a[2], 64), work, cut)

def _t(c):
    if is_c(c):
        return bool(c)
    return c if isinstance(c, z3.BoolRef) else simp(c != 0)

def _b(c):
    return bool(c) if is_c(c) else simp(c)

# vc_spec("name", ...): specification function supplied by the contract's plugin
def _spec(eng, st, ins, a, work, cut):
    n = cstring(eng, st, a[0])
    f = eng.cfg.spec[n]
    r = f(eng, st, *a[1:])
    if isinstance(r, z3.BoolRef):
        r = z3.If(r, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    if isinstance(r, bool):
        r = int(r)
    if not is_c(r) and r.size() < 64:
        r = z3.ZeroExt(64 - r.size(), r)
    return eng.ret(st, ins, r, work, cut)
for i in range(1, 8):
    EXACT['vc_spec%d' % i] = _spec
EXACT['vc_spec'] = EXACT['vc_specf'] = _spec

# ------------------------------------------------------------------ allocation
def _new(kind):
    def f(eng, st, ins, a, work, cut):
        o = st.new('block allocated in ' + eng.where(st), a[0], kind)
        nm = st.ghost.get('next_alloc_name')
        if nm:
            o.name = nm
        return eng.ret(st, ins, Ptr(o.id, 0), work, cut)
    return f
EXACT['_Znwm'] = _new('new')
EXACT['_Znam'] = _new('new[]')
EXACT['_ZnwmRKSt9nothrow_t'] = _new('new')
EXACT['_ZnamRKSt9nothrow_t'] = _new('new[]')
EXACT['malloc'] = _new('malloc')

@model('calloc')
def _(eng, st, ins, a, work, cut):
    o = st.new('calloc', mul(a[0], a[1]), 'malloc', node_zero())
    return eng.ret(st, ins, Ptr(o.id, 0), work, cut)

def _del(kinds, what):
    def f(eng, st, ins, a, work, cut):
        p = a[0]
        if p.obj is None:
            eng.oblige(st, eq(p.off, 0), '%s of a valid pointer' % what, 'memory')
            return eng.ret(st, ins, None, work, cut)
        o = st.obj(p.obj, True)
        ok = o.alive and o.kind in kinds
        if not ok:
            eng.oblige(st, False, '%s of %s (%s)' % (what, o.name, 'already freed' if not o.alive else o.kind), 'memory')
        eng.oblige(st, eq(p.off, 0), '%s of the start of a block' % what, 'memory')
        o.alive = False
        return eng.ret(st, ins, None, work, cut)
    return f
EXACT['_ZdlPv'] = EXACT['_ZdlPvm'] = _del(('new',), 'delete')
EXACT['_ZdaPv'] = EXACT['_ZdaPvm'] = _del(('new[]',), 'delete[]')
EXACT['free'] = _del(('malloc',), 'free')

# ------------------------------------------------------------------ memory intrinsics / libc
@pattern(r'^llvm\.mem(cpy|move)')
def _(eng, st, ins, a, work, cut):
    eng.memcpy(st, a[0], a[1], a[2])
    return eng.ret(st, ins, None, work, cut)

@model('memcpy', 'memmove')
def _(eng, st, ins, a, work, cut):
    eng.memcpy(st, a[0], a[1], a[2])
    return eng.ret(st, ins, a[0], work, cut)

@pattern(r'^llvm\.memset')
def _(eng, st, ins, a, work, cut):
    eng.memset(st, a[0], trunc(a[1], 8, 8), a[2])
    return eng.ret(st, ins, None, work, cut)

@model('memset')
def _(eng, st, ins, a, work, cut):
    eng.memset(st, a[0], trunc(a[1], 32, 8), a[2])
    return eng.ret(st, ins, a[0], work, cut)

def str_len(eng, st, p):
    """length of the NUL-terminated string at p; the terminator is proved to be in bounds"""
    if p.obj is None:
        eng.oblige(st, False, 'strlen of a null pointer', 'memory')
    o = eng.access(st, p, 1, 'string read')
    # concrete scan
    if is_c(p.off) and is_c(o.size):
        i = p.off
        while i < o.size:
            b = mem.read(o, i, 1, st)
            if not is_c(b):
                break
            if b == 0:
                return i - p.off
            i += 1
    # hinted terminators
    hints = list(o.nul) + list(st.ghost.get('nul', ()))
    if is_c(p.off) and is_c(o.size) and o.size - p.off <= 4096:
        for i in range(p.off, o.size):
            if eq(mem.read(o, i, 1, st), 0, 8) is True:
                hints.append(i)
                break
    for L in hints:
        z = eq(mem.peek(o, L, st), 0, 8)
        j = fresh_bv('sj', 64)
        inside = land(ule(p.off, L), ult(L, o.size))
        c = land(inside, z, lor(lnot(land(ule(p.off, j), ult(j, L))), lnot(eq(mem.peek(o, j, st), 0, 8))))
        if is_c(c):
            if c:
                return sub(L, p.off)
            continue
        r, _ = eng.check(st, [z3.Not(c)] + [bl(f(simp(bv(sub(j, p.off), 64)))) for f in st.ghost.get('foralls', ())], 10000)
        if r == 'unsat':
            return sub(L, p.off)
    # first zero at an unknown place: needs a terminator inside the object
    n = fresh_bv('strlen', 64)
    ok = None
    for L in hints:
        c = land(ule(p.off, L), ult(L, o.size), eq(mem.peek(o, L, st), 0, 8))
        if is_c(c) and c:
            ok = L
        elif not is_c(c) and eng.check(st, [z3.Not(c)], 10000)[0] == 'unsat':
            ok = L
        if ok is not None:
            break
    if ok is None:
        raise Unsupported('no terminator known for string in %s' % o.name)
    st.assume(ule(n, sub(ok, p.off)))
    st.assume(eq(mem.peek(o, add(p.off, n), st), 0, 8))
    snap = o.chain if not o.cells else None
    if snap is None:
        mem.flush(o, st)
        snap = o.chain
    off = p.off
    st.ghost['foralls'] = st.ghost.get('foralls', ()) + (
        lambda j, snap=snap, off=off, n=n: lor(lnot(ult(j, n)), lnot(eq(mem.read_byte(snap, add(off, j)), 0, 8))),)
    return n

@model('strlen')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, str_len(eng, st, a[0]), work, cut)

@model('vc_nul')           # hint: strings end at this offset of their object (proved where used)
def _(eng, st, ins, a, work, cut):
    st.ghost['nul'] = st.ghost.get('nul', ()) + (a[0],)
    return eng.ret(st, ins, None, work, cut)

@model('strcmp')
def _(eng, st, ins, a, work, cut):
    la, lb = str_len(eng, st, a[0]), str_len(eng, st, a[1])
    oa, ob = st.obj(a[0].obj, True), st.obj(a[1].obj, True)
    mem.flush(oa, st)
    mem.flush(ob, st)
    r = fresh_bv('strcmp', 32)
    d = fresh_bv('differ', 64)
    ca, cb, fa, fb = oa.chain, ob.chain, a[0].off, a[1].off
    x, y = mem.read_byte(ca, add(fa, d)), mem.read_byte(cb, add(fb, d))
    m = ite(ult(la, lb), la, lb, 64)
    st.assume(simp(z3.If(r == 0, bl(eq(la, lb)), bl(land(ule(d, m), lnot(eq(x, y, 8)), z3.If(bl(ult(x, y, 8)), r < 0, r > 0))))))
    st.ghost['differ'] = d
    st.ghost['foralls'] = st.ghost.get('foralls', ()) + (
        lambda j, ca=ca, cb=cb, fa=fa, fb=fb, r=r, d=d, la=la: z3.Implies(
            z3.ULT(bv(j, 64), z3.If(r == 0, bv(la, 64), d)),
            bl(eq(mem.read_byte(ca, add(fa, j)), mem.read_byte(cb, add(fb, j)), 8))),)
    return eng.ret(st, ins, r, work, cut)

def _cmp_bytes(eng, st, pa, pb, n):
    """sign of memcmp for concrete n"""
    oa = eng.access(st, pa, n, 'compare read')
    ob = eng.access(st, pb, n, 'compare read')
    r = 0
    for i in reversed(range(n)):
        x = mem.read(oa, add(pa.off, i), 1, st)
        y = mem.read(ob, add(pb.off, i), 1, st)
        r = ite(eq(x, y, 8), r, ite(ult(x, y, 8), mask(32), 1, 32), 32)
    return r

@model('memcmp', 'bcmp')
def _(eng, st, ins, a, work, cut):
    n = a[2]
    if is_c(n):
        if n == 0:
            return eng.ret(st, ins, 0, work, cut)
        return eng.ret(st, ins, _cmp_bytes(eng, st, a[0], a[1], n), work, cut)
    for L in st.ghost.get('memcmp_len', ()):
        pass
    oa = eng.access(st, a[0], n, 'compare read')
    ob = eng.access(st, a[1], n, 'compare read')
    mem.flush(oa, st)
    mem.flush(ob, st)
    r = fresh_bv('memcmp', 32)
    d = fresh_bv('differ', 64)
    ca, cb, fa, fb = oa.chain, ob.chain, a[0].off, a[1].off
    x, y = mem.read_byte(ca, add(fa, d)), mem.read_byte(cb, add(fb, d))
    st.assume(simp(z3.Implies(r != 0, bl(land(ult(d, n), lnot(eq(x, y, 8)),
              z3.If(bl(ult(x, y, 8)), r < 0, r > 0))))))
    st.ghost['foralls'] = st.ghost.get('foralls', ()) + (
        lambda j, ca=ca, cb=cb, fa=fa, fb=fb, n=n, r=r, d=d: z3.Implies(
            z3.ULT(bv(j, 64), z3.If(r == 0, bv(n, 64), d)),
            bl(eq(mem.read_byte(ca, add(fa, j)), mem.read_byte(cb, add(fb, j)), 8))),)
    for j in st.ghost.get('skolem', ()):
        st.assume(simp(st.ghost['foralls'][-1](j)))
    return eng.ret(st, ins, r, work, cut)

@model('abort', '_ZSt9terminatev', '__assert_fail', '__clang_call_terminate')
def _(eng, st, ins, a, work, cut):
    eng.oblige(st, False, 'the process does not abort', 'control')
    raise E.PathEnd('failed')

# ------------------------------------------------------------------ LLVM intrinsics
@pattern(r'^llvm\.(lifetime|dbg|invariant|assume|experimental\.noalias|stackrestore|prefetch|donothing|var\.annotation)')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, None, work, cut)

@pattern(r'^llvm\.stacksave')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, NULL, work, cut)

@pattern(r'^llvm\.(expect|launder|strip|ptr\.annotation|annotation)')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, a[0], work, cut)

@pattern(r'^llvm\.(threadlocal\.address)')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, a[0], work, cut)

@pattern(r'^llvm\.(smax|smin|umax|umin)\.')
def _(eng, st, ins, a, work, cut):
    n = eng.m.fns and ins['f'][1]
    w = eng.m.types[ins['t']]['w']
    k = n.split('.')[1]
    c = (slt if k[0] == 's' else ult)(a[0], a[1], w)
    r = ite(c, a[1], a[0], w) if k.endswith('max') else ite(c, a[0], a[1], w)
    return eng.ret(st, ins, r, work, cut)

@pattern(r'^llvm\.abs\.')
def _(eng, st, ins, a, work, cut):
    w = eng.m.types[ins['t']]['w']
    return eng.ret(st, ins, ite(slt(a[0], 0, w), sub(0, a[0], w), a[0], w), work, cut)

@pattern(r'^llvm\.(u|s)(add|sub|mul)\.with\.overflow')
def _(eng, st, ins, a, work, cut):
    n = ins['f'][1].split('.')[1]
    w = eng.m.types[eng.m.types[ins['t']]['elems'][0]]['w']
    s, o = n[0] == 's', n[1:]
    ext = (lambda x: sext(x, w, 2 * w)) if s else (lambda x: zext(x, w, 2 * w))
    wide = eng.arith(o, ext(a[0]), ext(a[1]), 2 * w)
    r = trunc(wide, 2 * w, w)
    return eng.ret(st, ins, [r, lnot(eq(ext(r), wide, 2 * w))], work, cut)

@pattern(r'^llvm\.bswap')
def _(eng, st, ins, a, work, cut):
    w = eng.m.types[ins['t']]['w']
    return eng.ret(st, ins, from_bytes(list(reversed(bytes_of(a[0], w // 8)))), work, cut)

@pattern(r'^llvm\.fsh[lr]')
def _(eng, st, ins, a, work, cut):
    w = eng.m.types[ins['t']]['w']
    s = eng.arith('urem', a[2], w, w)
    x = z3.Concat(bv(a[0], w), bv(a[1], w))
    s2 = bv(zext(s, w, 2 * w), 2 * w)
    if 'fshl' in ins['f'][1]:
        r = z3.Extract(2 * w - 1, w, x << s2)
    else:
        r = z3.Extract(w - 1, 0, z3.LShR(x, s2))
    return eng.ret(st, ins, simp(r), work, cut)

@pattern(r'^llvm\.is\.constant')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, False, work, cut)

@pattern(r'^llvm\.objectsize')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, mask(eng.m.types[ins['t']]['w']), work, cut)

@pattern(r'^llvm\.eh\.typeid\.for')
def _(eng, st, ins, a, work, cut):
    o = st.obj(a[0].obj)
    return eng.ret(st, ins, eng.typeid(o.name[1:]), work, cut)

@pattern(r'^llvm\.trap')
def _(eng, st, ins, a, work, cut):
    eng.oblige(st, False, 'no trap', 'control')
    raise E.PathEnd('failed')

@pattern(r'^llvm\.(fabs|floor|ceil|trunc|round)\.f')
def _(eng, st, ins, a, work, cut):
    n = ins['f'][1].split('.')[1]
    r = {'fabs': lambda x: z3.fpAbs(x), 'floor': lambda x: z3.fpRoundToIntegral(z3.RTN(), x),
         'ceil': lambda x: z3.fpRoundToIntegral(z3.RTP(), x), 'trunc': lambda x: z3.fpRoundToIntegral(z3.RTZ(), x),
         'round': lambda x: z3.fpRoundToIntegral(z3.RNA(), x)}[n](a[0])
    return eng.ret(st, ins, z3.simplify(r), work, cut)

@pattern(r'^llvm\.va_(start|end|copy)')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, None, work, cut)

# ------------------------------------------------------------------ C++ runtime
@model('__cxa_allocate_exception')
def _(eng, st, ins, a, work, cut):
    o = st.new('exception', a[0], 'exc')
    return eng.ret(st, ins, Ptr(o.id, 0), work, cut)

@model('__cxa_free_exception')
def _(eng, st, ins, a, work, cut):
    st.obj(a[0].obj, True).alive = False
    return eng.ret(st, ins, None, work, cut)

@model('__cxa_throw')
def _(eng, st, ins, a, work, cut):
    return eng.throw_here(st, a[0], st.obj(a[1].obj).name[1:], work, cut, ins)

@model('__cxa_begin_catch')
def _(eng, st, ins, a, work, cut):
    st.caught.append(st.exc)
    return eng.ret(st, ins, a[0], work, cut)

@model('__cxa_end_catch')
def _(eng, st, ins, a, work, cut):
    st.caught.pop()
    return eng.ret(st, ins, None, work, cut)

@model('__cxa_rethrow')
def _(eng, st, ins, a, work, cut):
    obj, ti = st.caught[-1]
    return eng.throw_here(st, obj, ti, work, cut, ins)

@model('__cxa_get_exception_ptr')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, a[0], work, cut)

@model('__cxa_guard_acquire')
def _(eng, st, ins, a, work, cut):
    v = mem.read(st.obj(a[0].obj), a[0].off, 1, st)
    return eng.ret(st, ins, 0 if v else 1, work, cut)

@model('__cxa_guard_release')
def _(eng, st, ins, a, work, cut):
    mem.write(st.obj(a[0].obj, True), a[0].off, 1, 1, st)
    return eng.ret(st, ins, None, work, cut)

@model('__cxa_atexit', '__cxa_guard_abort')
def _(eng, st, ins, a, work, cut):
    return eng.ret(st, ins, 0, work, cut)

@model('__cxa_pure_virtual')
def _(eng, st, ins, a, work, cut):
    eng.oblige(st, False, 'no pure virtual call', 'control')
    raise E.PathEnd('failed')

@pattern(r'^_ZSt\d+__throw_')
def _(eng, st, ins, a, work, cut):
    n = ins['f'][1]
    k = {'length_error': '_ZTISt12length_error', 'out_of_range': '_ZTISt12out_of_range', 'logic_error': '_ZTISt11logic_error',
         'bad_alloc': '_ZTISt9bad_alloc', 'bad_function_call': '_ZTISt17bad_function_call', 'system_error': '_ZTISt12system_error',
         'bad_array_new_length': '_ZTISt20bad_array_new_length', 'bad_cast': '_ZTISt8bad_cast'}
    ti = next((v for s, v in k.items() if s in n), '_ZTISt9exception')
    o = st.new('exception', 16, 'exc')
    return eng.throw_here(st, Ptr(o.id, 0), ti, work, cut, ins)

# std::exception has no state that matters here
@model('_ZNSt9exceptionD2Ev', '_ZNSt9exceptionC2Ev', '_ZNSt9exceptionD1Ev', '_ZNKSt9exception4whatEv',
       '_ZNSt11logic_errorD1Ev', '_ZNSt13runtime_errorD1Ev')
def _(eng, st, ins, a, work, cut):
    eng.assumed.add('std::exception constructor/destructor: no effect')
    return eng.ret(st, ins, a[0] if 'id' in ins else None, work, cut)

# threads: sequential semantics (lock operations succeed and change nothing else)
@pattern(r'^pthread_(mutex|cond|key|once|rwlock)|^pthread_self|__gthr|^uv_(mutex|cond)')
def _(eng, st, ins, a, work, cut):
    eng.assumed.add('%s: succeeds, no effect on program data (sequential execution)' % ins['f'][1] if ins['f'][0] == 'g' else 'pthread')
    return eng.ret(st, ins, 0 if 'id' in ins else None, work, cut)

# output
@pattern(r'^(printf|puts|putchar|fprintf|fputs|vprintf|vfprintf|fflush|perror|fputc)$')
def _(eng, st, ins, a, work, cut):
    eng.assumed.add('%s: no effect on program data' % ins['f'][1])
    return eng.ret(st, ins, fresh_bv('printed', 32), work, cut)

@pattern(r'^_ZNSolsE|^_ZStlsI|^_ZNSo(3put|5write|5flush|9_M_insert)|^_ZSt4endl|^_ZSt16__ostream_insert|^_ZNSo9_M_insert|^_ZNKSt9basic_ios|^_ZNKSt5ctype|^_ZNSt8ios_base')
def _(eng, st, ins, a, work, cut):
    eng.assumed.add('std::ostream output: no effect on program data')
    if 'id' not in ins:
        return eng.ret(st, ins, None, work, cut)
    return eng.ret(st, ins, a[0], work, cut)

@model('__errno_location')
def _(eng, st, ins, a, work, cut):
    i = st.ghost.get('errno_obj')
    if i is None:
        o = st.new('errno', 4, 'ext')
        o.kind = 'heap'
        i = o.id
        st.ghost['errno_obj'] = i
    return eng.ret(st, ins, Ptr(i, 0), work, cut)
