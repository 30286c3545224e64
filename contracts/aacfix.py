import z3
F = z3.Float64()
def val(x): return z3.fpToFP(z3.RNE(), z3.RealVal(x), F)
Z = val(0)
def within(x, n): return z3.And(z3.fpLEQ(val(-2 ** n), x), z3.fpLEQ(x, val(2 ** n)))
def facts(k, a, b, r):
    """r is the sum or difference of a and b"""
    near = z3.And(within(a, 62), within(b, 62))
    size = [z3.Implies(z3.And(within(a, n), within(b, n)), within(r, n + 1)) for n in (60, 61, 62)]
    if k == 'add':
        return size + [z3.Implies(z3.And(near, z3.fpGEQ(b, Z)), z3.fpGEQ(r, a)), z3.Implies(z3.And(near, z3.fpGEQ(a, Z)), z3.fpGEQ(r, b))]
    return size + [z3.Implies(z3.And(near, z3.fpGEQ(a, b)), z3.fpGEQ(r, Z)), z3.Implies(z3.And(near, z3.fpLEQ(a, b)), z3.fpLEQ(r, Z))]
def lemma(eng, st, sub, i):
    """the facts hold of floating point addition and subtraction"""
    a, b = z3.FP('a', F), z3.FP('b', F)
    k = 'sub' if sub else 'add'
    return facts(k, a, b, (z3.fpSub if sub else z3.fpAdd)(z3.RNE(), a, b))[i]
def config(cfg):
    cfg.timeout = 120000
    cfg.spec = {'lemma': lemma}
def per_harness(h, cfg):
    cfg.fp_lemmas = facts if h.startswith('h_next') else None
