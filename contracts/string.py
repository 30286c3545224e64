import z3
from values import *
F = z3.Function('first_occurrence', z3.BitVecSort(64), z3.BitVecSort(64))
def loop_inv(lc, view, ranges):
    g = lc.ghost
    cand, kb = [], []
    if 'b0' in g:
        b, L = bv(g['b0'], 64), bv(g['L'], 64)
        ks = [k for k, x in view.ints(32)]
        w = lambda v, k: z3.ZeroExt(32, bv(v.vals[k], 32))
        for x in ks:
            cand.append(lambda v, x=x: z3.And(z3.ULE(b, w(v, x)), z3.ULE(w(v, x), L)))
            kb.append(lambda v, x=x: z3.ULE(b + v.K(), w(v, x)))
            for y in ks:
                if x != y:
                    cand.append(lambda v, x=x, y=y: z3.Or(z3.And(bv(v.vals[y], 32) == mask(32), w(v, x) == b),
                        z3.And(w(v, x) == w(v, y) + 1, F(w(v, y)) == w(v, y), z3.ULE(b, w(v, y)), z3.ULT(w(v, y), L))))
    return {'cand': cand, 'kbound': kb[:1]}

def config(cfg):
    cfg.loop_inv = loop_inv
    cfg.auto_cands = False
    cfg.cut = [r'::rfind']
    cfg.contracts = {r'mgexception::mgexception\(int, char const\*, int\)$': 'vcc_exc', r'mgexception::~mgexception\(\)$': 'vcc_exc_dtor', r'^strstr$': 'vcc_strstr'}
    cfg.spec = {'first': lambda eng, st, b: F(bv(b, 64))}
