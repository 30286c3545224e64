import z3, mem
from values import *
B8, B64 = z3.BitVecSort(8), z3.BitVecSort(64)
CNT = z3.Function('cnt', B64, B64)
SX6 = z3.Function('sx', B64, z3.BitVecSort(6))
BT = z3.Function('bt', B64, B8)
def sx(t):
    return z3.Concat(z3.BitVecVal(0, 2), SX6(simp(t)))
def rng(c, a, b):
    return z3.And(z3.UGE(c, a), z3.ULE(c, b))
def isdigit(c):
    return z3.Or(rng(c, 65, 90), rng(c, 97, 122), rng(c, 48, 57), c == 43, c == 47)
def digitval(c):
    return z3.If(rng(c, 65, 90), c - 65, z3.If(rng(c, 97, 122), c - 71, z3.If(rng(c, 48, 57), c + 4, z3.If(c == 43, z3.BitVecVal(62, 8), z3.BitVecVal(63, 8)))))
def low8(c):
    return z3.Extract(7, 0, bv(c, 64))
def partial_val(t):
    l = sx(bv(t, 64) - 1)
    x = z3.Extract(1, 0, bv(t, 64))
    return x, z3.If(x == 1, l << 2, z3.If(x == 2, l << 4, l << 6))
def partial(eng, st, t, c):
    x, v = partial_val(t)
    return z3.If(z3.Or(x == 0, v == low8(c)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
def dx(x):
    return z3.If(x == 0, z3.BitVecVal(0, 64), z3.ZeroExt(62, x) - 1)

def pos(view):
    return view.ptrs('code')[0]
def q(view):
    return view.ptrs('plain')[0]
def tt(lc, view):
    return bv(lc.ghost['s'], 64) + CNT(simp(pos(view)))
def relation(t, J):
    x = z3.Extract(1, 0, t)
    return 3 * (t - z3.ZeroExt(62, x)) == 4 * (J - dx(x))

def loop_defs(lc, view):
    if not view.ptrs('code'):
        return []
    p = pos(view)
    c = bv(view.byte('code', simp(p)), 8)
    t = simp(tt(lc, view))
    x = z3.Extract(1, 0, t)
    defs = [CNT(simp(p + 1)) == CNT(simp(p)) + z3.If(isdigit(c), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)),
            z3.Implies(isdigit(c), sx(t) == digitval(c))]
    # definition of bt at the byte the digit completes, at every output position the code holds
    for qq in outs(view):
        J = simp(qq + lc.ghost['d'])
        defs.append(z3.Implies(relation(t, bv(J, 64)), z3.And(
                z3.Implies(x == 1, BT(bv(J, 64)) == (sx(t - 1) << 2 | z3.LShR(sx(t), 4))),
                z3.Implies(x == 2, BT(bv(J, 64)) == (sx(t - 1) << 4 | z3.LShR(sx(t), 2))),
                z3.Implies(x == 3, BT(bv(J, 64)) == (sx(t - 1) << 6 | sx(t))))))
    return defs

def outs(view):
    r = {}
    for v in list(view.vals.values()) + list(view.st.fr.regs.values()):
        if isinstance(v, Ptr) and v.obj is not None and view.st.obj(v.obj).name == 'plain':
            o = bv(v.off, 64)
            r[o.get_id()] = o
    return list(r.values())

def loop_inv(lc, view, ranges):
    g = lc.ghost
    n = bv(g['n'], 64)
    inv = [('cursor inside the text', lambda view: z3.ULE(pos(view), n)),
           ('digits counted', lambda view: z3.ULE(CNT(simp(pos(view))), pos(view)))]
    cand = [lambda view, i=i: z3.Extract(1, 0, tt(lc, view)) == i for i in range(4)]
    kb = [lambda view: z3.And(z3.ULE(view.K(), pos(view)), z3.ULE(pos(view), n))]
    if not view.ptrs('plain'):
        # only the text cursor moves: the characters skipped are no digits
        p0 = simp(bv(next(v.off for v in lc.v0.values() if isinstance(v, Ptr) and lc.entry.obj(v.obj).name == 'code'), 64))
        inv.append(('only other characters skipped', lambda view: CNT(simp(pos(view))) == CNT(bv(p0, 64))))
        return {'inv': inv, 'kbound': kb}
    inv += [('bytes completed so far', lambda view: relation(tt(lc, view), q(view) + g['d'])),
           ('output position', lambda view: z3.ULE(q(view), pos(view)))]
    def content(view, j, old):
        x, v = partial_val(tt(lc, view))
        j = bv(j, 64)
        here = j == q(view)
        return (z3.Not(z3.And(here, x == 0)),
                z3.If(z3.ULT(j, q(view)), BT(simp(j + g['d'])), z3.If(here, v, bv(old(j), 8))))
    return {'inv': inv, 'cand': cand, 'content': {'plain': content},
            'kbound': kb}

def begin(eng, st, _):
    st.assume(CNT(z3.BitVecVal(0, 64)) == 0)
    return 0

def bounds(st):
    return [st.ghost['n']]

def config(cfg):
    cfg.spec = {'isdigit': lambda eng, st, c: z3.If(isdigit(low8(c)), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)),
                'digitval': lambda eng, st, c: z3.ZeroExt(56, digitval(low8(c))),
                'cnt': lambda eng, st, i: CNT(simp(bv(i, 64))), 'bt': lambda eng, st, j: z3.ZeroExt(56, BT(simp(bv(j, 64)))),
                'partial': partial, 'begin': begin}
    cfg.loop_inv, cfg.loop_defs, cfg.bounds = loop_inv, loop_defs, bounds
    cfg.auto_cands = False
    cfg.contracts = {r'^base64_decode_value\(': 'vcc_decode_value'}
def per_harness(h, cfg):
    if h == 'h_value':
        cfg.contracts = {}
