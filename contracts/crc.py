import z3, mem
from values import *
POLY = 0x04C11DB7

def table_entry(i):
    c = i << 24
    for _ in range(8):
        c = ((c << 1) ^ (POLY if c >> 31 else 0)) & 0xffffffff
    return c
def bswap(x):
    return int.from_bytes(x.to_bytes(4, 'little'), 'big')
# slicing tables of the byte-swapped register: T0[i] = bswap(table(i)), Tj+1[i] = Tj[i]>>8 ^ T0[Tj[i]&255]
T = [[bswap(table_entry(i)) for i in range(256)]]
for j in range(3):
    T.append([(x >> 8) ^ T[0][x & 255] for x in T[j]])

def table_ok(eng, st, p):
    p = eng.int2ptr(p)
    o = st.obj(p.obj)
    for j in range(4):
        for i in range(256):
            if mem.read(o, add(p.off, 4 * (256 * j + i)), 4, st) != T[j][i]:
                return 0
    return 1

F = z3.Function('F', z3.BitVecSort(64), z3.BitVecSort(32))

def step(reg, byte):
    """byte-swapped register after one more byte: bit-serial polynomial division"""
    r = bv(reg, 32)
    r = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, r) for i in range(4)])     # to MSB-first
    r = r ^ (z3.ZeroExt(24, bv(byte, 8)) << 24)
    for _ in range(8):
        r = z3.If(z3.Extract(31, 31, r) == 1, (r << 1) ^ POLY, r << 1)
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, r) for i in range(4)])

def lin_step(reg, byte):
    """the same function as an XOR of basis vectors (GF(2)-linear; see lemma 'step is linear')"""
    x = z3.Extract(7, 0, bv(reg, 32)) ^ bv(byte, 8)
    r = z3.LShR(bv(reg, 32), 8)
    for b in range(8):
        r = r ^ z3.If(z3.Extract(b, b, x) == 1, z3.BitVecVal(T[0][1 << b], 32), z3.BitVecVal(0, 32))
    return r

def spec_F(eng, st, i):
    if is_c(i) and i == 0:
        return start(st)
    e = F(bv(i, 64))
    return z3.If(bv(i, 64) == 0, bv(start(st), 32), e)

def start(st):
    return trunc(st.ghost['start'], 64, 32)

def byte(st, i):
    p = st.ghost['buf']
    return mem.peek(st.obj(p.obj), add(st.ghost['align'], i), st)

def begin(eng, st, _):
    st.assume(F(z3.BitVecVal(0, 64)) == bv(start(st), 32))
    return 0

def same_buffer(eng, st, p, n):
    p = eng.int2ptr(p)
    b = st.ghost['buf']
    return land(p.obj == b.obj, eq(p.off, st.ghost['align']), eq(n, st.ghost['len']))

def loop_defs(lc, view):
    """definition of F unfolded at the cursor"""
    ps = view.ptrs('buffer')
    if not ps:
        return []
    i = ps[0] - bv(lc.ghost['align'], 64)
    return [F(i + j + 1) == lin_step(F(i + j), byte(view.st, simp(i + j))) for j in range(4)]

def loop_inv(lc, view, ranges):
    g = lc.ghost
    if 'buf' not in g:
        return {}
    al, n = bv(g['align'], 64), bv(g['len'], 64)
    if not view.ptrs('buffer'):
        return {}
    pos = lambda view: view.ptrs('buffer')[0] - al
    inv = [('cursor inside the buffer', lambda view: z3.ULE(pos(view), n))]
    cand = []
    for key, v in view.ints(32):
        cand.append(lambda view, key=key: bv(view.vals[key], 32) == F(pos(view)))
    return {'inv': inv, 'cand': cand}

def bounds(st):
    g = st.ghost
    return [g['len'], add(g['align'], g['len'])] if 'len' in g else []

def config(cfg):
    cfg.spec = {'F': spec_F, 'table_ok': table_ok, 'begin': begin, 'same_buffer': same_buffer}
    cfg.loop_inv = loop_inv
    cfg.loop_defs = loop_defs
    cfg.bounds = bounds
    cfg.contracts = {r'^av_crc\(': 'vcc_av_crc'}
    cfg.max_unroll = 3000
    cfg.table_lin = True

def per_harness(h, cfg):
    if h in ('h_av_crc',):
        cfg.contracts = {}

def lemmas():
    b, r = z3.BitVec('b', 8), z3.BitVec('r', 32)
    return [('bit-serial division step equals its linear form', step(r, b) == lin_step(r, b))]
