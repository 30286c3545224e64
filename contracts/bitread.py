import z3, mem
from values import *

def bits_of(rd, p, n):
    """n bits from bit p of the byte sequence rd, most significant first"""
    p, n = bv(p, 64), bv(n, 64)
    q, r = z3.LShR(p, 3), p & 7
    x = bv(0, 64)
    for i in range(5):
        x = x << 8 | z3.ZeroExt(56, bv(rd(simp(q + i)), 8))
    x = z3.LShR(x, 40 - r - n)
    return simp(x & ((z3.BitVecVal(1, 64) << n) - 1))

def _bits(eng, st, h, p, n):
    node, off = st.ghost['snaps'][h - 1]
    return bits_of(lambda i: mem.read_byte(node, add(off, i)), p, n)

def sext_bits(eng, st, x, n):
    x, n = bv(x, 64), bv(n, 64)
    neg = z3.And(z3.UGT(n, 1), z3.LShR(x, n - 1) & 1 == 1)
    return simp(z3.If(neg, (x | ~((z3.BitVecVal(1, 64) << n) - 1)) & mask(32), x))

def little(eng, st, h, p, n):
    node, off = st.ghost['snaps'][h - 1]
    rd = lambda i: mem.read_byte(node, add(off, i))
    p, n = bv(p, 64), bv(n, 64)
    full, left = z3.LShR(n, 3), n & 7
    r = bv(0, 64)
    for i in range(5):
        b = bits_of(rd, p + 8 * i, z3.If(full == i, left, bv(8, 64)))
        r = r | z3.If(z3.ULE(bv(i, 64), full), b << (8 * i), bv(0, 64))
    return simp(r)

FILL = {r'::fill_buf\(\)$': 'vcc_fill'}
NEXT = {r'::_nextbits\(int\)$': 'vcc_nextbits'}
SKIP = {r'::_skipbits\(unsigned short\)$': 'vcc_skip'}
EXC = {r'mgexception::mgexception\(int, char const\*, int\)$': 'vcc_exc', r'mgexception::~mgexception\(\)$': 'vcc_exc_dtor'}

def loop_inv(lc, view, ranges):
    g = lc.ghost
    if 'cur' not in g:
        return {}
    L, B, S, p0 = bv(g['L'], 64), bv(g['B'], 64), g['S'], bv(g['p0'], 64)
    node, off = lc.entry.ghost['snaps'][S - 1]
    rd = lambda i: bv(mem.read_byte(node, add(off, i)), 8)
    def vals(v):
        bl, sl = z3.ZeroExt(32, v.at('bl', 4)), z3.ZeroExt(32, v.at('sl', 4))
        return v.at('cur', 8), v.at('tot', 8), bl, sl, v.at('E', 8)
    def ok(v):
        cur, tot, bl, sl, E = vals(v)
        k = E - bl - sl
        return z3.And(z3.ULE(bl, B), z3.ULE(sl, B), z3.Or(z3.ULE(E, L), z3.And(bl == 0, sl == 0)),
                      z3.Or(sl == B, z3.UGE(E, L)), z3.Or(sl == 0, bl == B), z3.ULE(cur, 8 * bl), 8 * k + cur == tot, z3.ULT(E, 1 << 42), v.at('signed', 1) != 0)
    inv = [('buffers, storage position and bit position agree', ok), ('the position never moves back', lambda v: z3.UGE(v.at('tot', 8), p0)),
           ('the position never passes the end', lambda v: z3.Or(z3.ULE(v.at('tot', 8), 8 * L), z3.And(v.at('tot', 8) == p0, z3.UGE(p0, 8 * L))))]
    cand = []
    kb = [lambda v: z3.ULE(v.K(), v.at('tot', 8) - p0 + 1)]
    def buf(v, j, old):
        cur, tot, bl, sl, E = vals(v)
        return z3.ULT(bv(j, 64), bl), rd(simp(E - bl - sl + j))
    def shadow(v, j, old):
        cur, tot, bl, sl, E = vals(v)
        return z3.ULT(bv(j, 64), sl), rd(simp(E - sl + j))
    if 'nbits' in g:
        n, j, code = bv(g['nbits'], 64), bv(g['j'], 64), bv(g['code'], 64)
        inv.append(('no earlier position holds the code', lambda v: z3.Implies(z3.ULT(p0 + j, v.at('tot', 8)), bits_of(rd, p0 + j, n) != code)))
        for key, x in view.ints(32):
            cand.append(lambda v, key=key: bv(v.vals[key], 32) == z3.Extract(31, 0, v.at('tot', 8) - p0))
    if 'q' in g:
        cand.append(lambda v: z3.ULE(v.at('tot', 8), bv(g['q'], 64)))
        cand.append(lambda v: v.at('tot', 8) & 7 == 0)
        for key, x in view.ints(32):
            cand.append(lambda v, key=key: z3.ZeroExt(32, bv(v.vals[key], 32)) == v.at('tot', 8) - p0)
    content = {'buffer': buf, 'shadow': shadow}
    if 'out' in g:
        n = bv(g['nbytes'], 64)
        cand += [lambda v: v.at('tot', 8) & 7 == 0, lambda v: z3.ULE(v.at('tot', 8), p0 + 8 * n)]
        for key, x in view.ints(32):
            cand.append(lambda v, key=key: z3.ZeroExt(32, bv(v.vals[key], 32)) == z3.LShR(v.at('tot', 8) - p0, 3))
            cand.append(lambda v, key=key: z3.ZeroExt(32, bv(v.vals[key], 32)) == n - z3.LShR(v.at('tot', 8) - p0, 3))
        inv.append(('output cursors follow the position', lambda v: z3.And(*[o == z3.LShR(v.at('tot', 8) - p0, 3) for o in v.ptrs('out')])))
        content['out'] = lambda v, j, old: (z3.ULT(bv(j, 64), z3.LShR(v.at('tot', 8) - p0, 3)), rd(simp(z3.LShR(p0, 3) + j)))
    if 'n' in g:
        for key, x in view.ints(64):
            cand.append(lambda v, key=key: v.at('tot', 8) + bv(v.vals[key], 64) == p0 + bv(g['n'], 64))
            cand.append(lambda v, key=key: z3.ULE(bv(v.vals[key], 64), bv(g['n'], 64)))
    cand.append(lambda v: z3.Or(v.K() == 0, z3.ULT(v.at('cur', 8), 8 * z3.ZeroExt(32, v.at('bl', 4)))))
    return {'inv': inv, 'cand': cand, 'kbound': kb, 'content': content}

def config(cfg):
    cfg.spec = {'bits': _bits, 'little': little, 'sext': sext_bits}
    cfg.auto_cands = False
    cfg.loop_inv = loop_inv

def per_harness(h, cfg):
    c = dict(EXC)
    f = h[2:h.rindex('_')]
    if f not in ('fill', 'create'):
        c.update(FILL)
    if f not in ('fill', 'create', 'nextbits'):
        c.update(NEXT)
    if h.startswith('h_align') or f == 'nextcode':
        c.update(SKIP)
    cfg.contracts = c
    if f == 'little':
        cfg.unroll = ['']
