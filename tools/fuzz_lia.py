"""dev: compare vc/lia.py with the bit-vector solver on random conjunctions (it must never say unsat for a satisfiable one)"""
import sys, random, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vc'))
import z3, lia
R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 300
W = [3, 5, 8]
vs = {w: [z3.BitVec('v%d_%d' % (w, i), w) for i in range(3)] for w in W}
F = z3.Function('F', z3.BitVecSort(8), z3.BitVecSort(8))
def term(w, d):
    if d == 0 or R.random() < .15:
        if R.random() < .3: return z3.BitVecVal(R.choice([0, 1, 2, 3, (1 << w) - 1, R.randrange(1 << w)]), w)
        return R.choice(vs[w])
    k = R.randrange(16)
    t = lambda ww=w: term(ww, d - 1)
    if k < 4: return t() + t()
    if k == 4: return t() - t()
    if k == 5: return z3.BitVecVal(R.randrange(1 << w), w) * t()
    if k == 6: return -t()
    if k == 7: return ~t()
    if k == 8: return z3.If(form(d - 1), t(), t())
    if k == 9: return z3.LShR(t(), R.randrange(w + 1)) if R.random() < .5 else t() << R.randrange(w + 1)
    if k == 10: return t() & ((1 << R.randrange(w + 1)) - 1)
    if k == 11 and w == 8: return F(t())
    if k == 12:
        if w == 8: return R.choice([z3.Concat(t(3), t(5)), z3.ZeroExt(3, t(5)), z3.SignExt(5, t(3)), z3.ZeroExt(5, t(3))])
        if w == 5: return z3.SignExt(2, t(3)) if R.random() < .5 else z3.ZeroExt(2, t(3))
    if k == 13:
        if w < 8:
            lo = R.randrange(8 - w + 1); return z3.Extract(lo + w - 1, lo, t(8))
    if k == 14: return z3.URem(t(), z3.BitVecVal(R.randrange(1, 1 << w), w))
    if k == 15: return z3.UDiv(t(), z3.BitVecVal(R.randrange(1, 1 << w), w))
    return t() * t()
def form(d):
    w = R.choice(W)
    k = R.randrange(9)
    if k == 0 and d > 0: return z3.Not(form(d - 1))
    if k == 1 and d > 0: return z3.And(form(d - 1), form(d - 1))
    if k == 2 and d > 0: return z3.Or(form(d - 1), form(d - 1))
    if k == 3: return z3.ULE(term(w, 1), R.randrange(1 << w))
    a, b = term(w, d), term(w, d)
    return R.choice([lambda: z3.ULE(a, b), lambda: z3.ULT(a, b), lambda: a == b, lambda: a <= b, lambda: a < b, lambda: z3.UGT(a, b)])()
bad = un = tot = 0
for i in range(N):
    fs = [form(R.choice([1, 2, 3])) for _ in range(R.randrange(2, 9))]
    if R.random() < .7: fs = [z3.simplify(f) for f in fs]
    s = z3.Solver(); s.set('timeout', 5000); s.add(*fs); r = s.check()
    u = lia.unsat(fs, 3000)
    tot += r == z3.unsat; un += bool(u) and r == z3.unsat
    if u and r == z3.sat:
        bad += 1; print('WRONG', fs, s.model())
print('unsat %d, shown %d, wrong %d' % (tot, un, bad)); sys.exit(bad > 0)
