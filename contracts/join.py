import z3, mem
from values import *
B64 = z3.BitVecSort(64)
DI = z3.Function('diff', B64, B64)
ME, MS = z3.Function('me', B64, B64), z3.Function('ms', B64, B64)

def e(st, i): return st.ghost['words:ends'](simp(bv(i, 64)))
def s(st, i): return st.ghost['words:starts'](simp(bv(i, 64)))
def spec_end(eng, st, i): return e(st, i)
def spec_start(eng, st, i): return s(st, i)
def valid(st, i):
    """times lie in 0 .. 2^60"""
    L = z3.BitVecVal(1 << 60, 64)
    return z3.And(z3.ULE(e(st, i), L), z3.ULE(s(st, i), L))
def defs(st, i):
    """latest end (from 0 on) and earliest start among the first i+1 streams"""
    i = simp(bv(i, 64))
    j = simp(i + 1)
    return [valid(st, i), diff_def(st, i), ME(j) == z3.If(ME(i) < e(st, i), e(st, i), ME(i)), MS(j) == z3.If(MS(i) > s(st, i), s(st, i), MS(i))]
def diff_def(st, i):
    N = bv(st.ghost['N'], 64)
    return DI(i) == (e(st, i) - ME(N)) + (MS(N) - s(st, i))
def spec_diff(eng, st, i):
    i = simp(bv(i, 64))
    st.assume(diff_def(st, i))
    return DI(i)
def begin(eng, st, _):
    st.assume(ME(z3.BitVecVal(0, 64)) == 0)
    st.assume(MS(z3.BitVecVal(0, 64)) == z3.BitVecVal((1 << 63) - 1, 64))
    st.assume(diff_def(st, z3.BitVecVal(0, 64)))
    for k in ('s', 't'):
        st.assume(diff_def(st, simp(bv(st.ghost[k], 64))))
        st.assume(valid(st, st.ghost[k]))
    return 0
def spec_valid(eng, st, i):
    st.assume(valid(st, i))
    st.assume(diff_def(st, simp(bv(i, 64))))
    return 0
def loop_defs(lc, view):
    if 'N' not in view.st.ghost:
        return []
    return defs(view.st, view.K())
def loop_inv(lc, view, ranges):
    g = lc.ghost
    if 'N' not in lc.entry.ghost:
        return {}
    N = bv(g['N'], 64)
    inv, cand = [], []
    top = z3.BitVecVal((1 << 63) - 1, 64)
    idx = lambda v: v.K()
    for key, x in view.ints(64):
        val = lambda v, key=key: bv(v.vals[key], 64)
        cand.append(lambda v, val=val: val(v) == ME(idx(v)))
        cand.append(lambda v, val=val: val(v) == MS(idx(v)))
    for key, x in view.ints(32):
        cand.append(lambda v, key=key: z3.ZeroExt(32, bv(v.vals[key], 32)) == idx(v))
    L = z3.BitVecVal(1 << 60, 64)
    cand.append(lambda v: z3.ULE(ME(idx(v)), L))
    cand.append(lambda v: z3.Or(idx(v) == 0, z3.ULE(MS(idx(v)), L)))
    def diffs(v, j, old):
        raw = v.st.ghost['words:diffs']
        return mem.word_byte(lambda w: z3.If(z3.ULT(w, idx(v)), DI(w), raw(w)), j)
    kb = [lambda v: z3.ULE(v.K(), N)]
    return {'inv': inv, 'cand': cand, 'kbound': kb, 'content': {'diffs': diffs} if 'diffs' in ranges else {}}

def config(cfg):
    cfg.auto_cands = False
    cfg.kwidth = 32
    cfg.cut = [r'::Compute']
    cfg.spec = {'diff': spec_diff, 'begin': begin, 'valid': spec_valid, 'end': spec_end, 'start': spec_start, 'me': lambda eng, st, i: ME(bv(i, 64)), 'ms': lambda eng, st, i: MS(bv(i, 64))}
    cfg.loop_inv, cfg.loop_defs = loop_inv, loop_defs
    v = r'std::vector<long, std::allocator<long> ?>::'
    cfg.contracts = {v + r'vector\(\)$': 'vcc_vec', v + r'~vector\(\)$': 'vcc_vec_dtor', v + r'push_back\(long( const)?&&?\)$': 'vcc_push', r'max_element<': 'vcc_max'}
