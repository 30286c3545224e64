import z3, mem
from values import *
B64 = z3.BitVecSort(64)
CNT = z3.Function('cnt', B64, B64)

def rd(st, i):
    node, off = st.ghost['snaps'][st.ghost['S'] - 1]
    return bv(mem.read_byte(node, add(off, simp(bv(i, 64)))), 8)
def isdrop(st, k):
    k = bv(k, 64)
    return z3.And(z3.UGE(k, 3), z3.ULT(k, bv(st.ghost['N'], 64)), rd(st, k) == 3, rd(st, k - 1) == 0, rd(st, k - 2) == 0)
def define(st, k):
    """the definition of cnt at k: cnt(k+1) = cnt(k) + (byte k is kept)"""
    return CNT(simp(bv(k, 64) + 1)) == CNT(simp(bv(k, 64))) + z3.If(isdrop(st, k), z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))
def begin(eng, st, _):
    st.assume(CNT(z3.BitVecVal(0, 64)) == 0)
    st.assume(define(st, 0)); st.assume(define(st, st.ghost['k']))
    return 0
def spec_drop(eng, st, k):
    return z3.If(isdrop(st, k), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
def spec_cnt(eng, st, k):
    return CNT(simp(bv(k, 64)))

def num(v):
    return z3.ZeroExt(32, v.at('num', 4))
def loop_defs(lc, view):
    if 'at' not in view.st.ghost:
        return []
    a = view.at('at', 8)
    return [define(view.st, a + i) for i in range(3)]
def loop_inv(lc, view, ranges):
    g = lc.ghost
    if 'at' not in lc.entry.ghost:
        return {}
    N, k = bv(g['N'], 64), bv(g['k'], 64)
    at = lambda v: v.at('at', 8)
    kept = lambda v: z3.And(z3.ULT(k, at(v)), z3.Not(isdrop(v.st, k)))
    inv = [('the reader stands at a byte of the unit or its end', lambda v: z3.And(z3.ULE(1, at(v)), z3.ULE(at(v), N), v.at('bit', 8) == 0)),
           ('bytes kept so far', lambda v: z3.And(num(v) == CNT(at(v)), z3.ULE(num(v), at(v)), z3.ULE(1, num(v)))),
           ('no emulation prevention byte begins at the cursor', lambda v: z3.And(z3.Not(isdrop(v.st, at(v))), z3.Not(isdrop(v.st, at(v) + 1)))),
           ('a byte kept stands among those kept', lambda v: z3.Implies(kept(v), z3.ULT(CNT(k), num(v))))]
    cand = []
    for key, x in view.ints(32):
        cand.append(lambda v, key=key: z3.ZeroExt(32, bv(v.vals[key], 32)) + 1 == at(v))
        cand.append(lambda v, key=key: z3.ZeroExt(32, bv(v.vals[key], 32)) == at(v))
        cand.append(lambda v, key=key: z3.ZeroExt(32, bv(v.vals[key], 32)) + at(v) == N)
    kb = [lambda v: z3.And(z3.ULE(v.K(), at(v)), z3.ULE(at(v), N))]
    def out(v, j, old):
        j = bv(j, 64)
        return z3.And(kept(v), j == CNT(k)), rd(v.st, k)
    def both(v, j, old):
        j = bv(j, 64)
        return z3.And(z3.ULT(j, N), z3.Or(z3.UGE(j, at(v)), z3.And(kept(v), j == CNT(k)))), z3.If(z3.UGE(j, at(v)), rd(v.st, j), rd(v.st, k))
    return {'inv': inv, 'cand': cand, 'kbound': kb, 'content': {'unit': both, 'result': out}}

def config(cfg):
    cfg.auto_cands = False
    cfg.unroll = [r"^Source::"]
    cfg.spec = {'begin': begin, 'drop': spec_drop, 'cnt': spec_cnt}
    cfg.contracts = {r'mgexception::mgexception\(int, char const\*, int\)$': 'vcc_exc', r'mgexception::~mgexception\(\)$': 'vcc_exc_dtor',
        r'fixed_memory_bitstream::fixed_memory_bitstream\(unsigned char const\*, unsigned long\)$': 'vcc_source', r'fixed_memory_bitstream::~fixed_memory_bitstream\(\)$': 'vcc_source_dtor'}
    cfg.loop_inv, cfg.loop_defs = loop_inv, loop_defs
