import z3, mem
from values import *

def alpha(v):
    v = bv(v, 64)
    B = lambda x: z3.BitVecVal(x, 64)
    lt = z3.ULT
    return z3.If(lt(v, B(26)), v + 65, z3.If(lt(v, B(52)), v + 71, z3.If(lt(v, B(62)), v - 4, z3.If(v == 62, B(43), B(47)))))

def sextet_of(rd, t):
    """sextet t of the bit string formed by the bytes rd(0), rd(1), ..."""
    t = bv(t, 64)
    g3 = z3.LShR(t, 2) * 3
    ph = z3.simplify(z3.Extract(1, 0, t))
    b = [z3.ZeroExt(56, bv(rd(simp(g3 + i)), 8)) for i in range(3)]
    v = [z3.LShR(b[0], 2), ((b[0] & 3) << 4) | z3.LShR(b[1], 4), ((b[1] & 15) << 2) | z3.LShR(b[2], 6), b[2] & 63]
    return z3.If(ph == 0, v[0], z3.If(ph == 1, v[1], z3.If(ph == 2, v[2], v[3])))

def _sextet(eng, st, h, t):
    node, off = st.ghost['snaps'][h - 1]
    return sextet_of(lambda i: mem.read_byte(node, add(off, i)), t)

def loop_inv(lc, view, ranges):
    g = lc.ghost
    P, T, n = bv(g['P'], 64), bv(g['T'], 64), bv(g['n'], 64)
    node, off = g['snaps'][g['S'] - 1]
    rd = lambda i: mem.read_byte(node, i)
    def q(view):
        return view.ptrs('code')[0]
    def p(view):
        return view.ptrs('stream')[0]          # absolute position in the stream
    def pend(view):
        # pending bits are those of the last byte read
        left = (p(view) * 8) - (T + q(view)) * 6
        last = bv(rd(p(view) - 1), 8)
        return left, last
    cand = []
    for key, v in view.ints(8):
        def f(view, key=key):
            left, last = pend(view)
            x = bv(view.vals[key], 8)
            return z3.And(z3.Implies(left == 2, x == ((last & 3) << 4)), z3.Implies(left == 4, x == ((last & 15) << 2)))
        cand.append(f)
    def sc(view):
        c = view.at('stepcount', 4)
        return z3.And(c >= 0, c < 25000)
    inv = [('line counter', sc), ('complete sextets', lambda view: z3.Or(*[(p(view) * 8) - (T + q(view)) * 6 == x for x in (0, 2, 4)])),
           ('inside the block', lambda view: z3.And(z3.ULE(P, p(view)), z3.ULE(p(view), P + n)))]
    content = {'code': lambda view, j, old: z3.If(z3.ULT(bv(j, 64), q(view)),
               z3.Extract(7, 0, alpha(sextet_of(rd, T + bv(j, 64)))), bv(old(j), 8))}
    return {'inv': inv, 'cand': cand, 'content': content}

def bounds(st):
    return [st.ghost['n'], add(st.ghost['P'], st.ghost['n'])]

def config(cfg):
    cfg.spec = {'alpha': lambda eng, st, v: alpha(v), 'sextet': _sextet}
    cfg.loop_inv = loop_inv
    cfg.bounds = bounds
