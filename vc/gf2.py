"""Decision procedure for goals that are equalities of GF(2)-affine bit-vector terms: both sides
are brought to the canonical affine form over their atoms' bits, defining equations of the path
condition being used as rewrite rules.  Complete for this fragment; anything else is an atom."""
import z3

K = z3
class NF:
    def __init__(self, pc):
        self.rules = {}
        self.keep = []
        self.atoms = {}
        self.memo = {}
        self.busy = set()
        self.canon_memo = {}
        self.parent = {}
        todo = list(pc)
        while todo:
            c = todo.pop()
            if not z3.is_expr(c):
                continue
            if z3.is_and(c):
                todo += c.children()
            elif z3.is_eq(c) and z3.is_bv(c.arg(0)):
                a, b = c.arg(0), c.arg(1)
                if self.is_leaf(a) and self.is_leaf(b):
                    self.union(self.canon(a), self.canon(b))
                    continue
                for l, r in ((a, b), (b, a)):
                    if z3.is_app(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        l = self.canon(l)
                        # a definition may not make its own symbol reappear below itself
                        self.rules.setdefault(l.get_id(), []).append(r)
                        self.keep.append(l)

        rules, self.rules = self.rules, {}
        for k, v in rules.items():
            self.rules.setdefault(self.find(k), []).extend(v)

    def is_leaf(self, t):
        return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED

    def find(self, k):
        while k in self.parent:
            k = self.parent[k]
        return k

    def union(self, a, b):
        x, y = self.find(a.get_id()), self.find(b.get_id())
        if x != y:
            self.parent[x] = y

    def canon(self, t):
        """application with simplified arguments"""
        k = t.get_id()
        if k not in self.canon_memo:
            r = t
            if t.num_args():
                r = t.decl()(*[z3.simplify(a, som=True) for a in t.children()])
            self.canon_memo[k] = r
            self.keep += [t, r]
        return self.canon_memo[k]

    def atom(self, t):
        k = self.find(t.get_id())
        if k not in self.atoms:
            self.atoms[k] = len(self.atoms)
            self.keep.append(t)
        # one 64-bit slot per atom
        base = 1 + 64 * self.atoms[k]
        return [1 << (base + i) for i in range(t.size())]

    def bits(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self._bits(t)
        if not self.busy:
            self.memo[k] = r
            self.keep.append(t)
        return r

    def const(self, f):
        return all(x in (0, 1) for x in f)

    def _bits(self, t):
        d = t.decl().kind()
        n = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return [v >> i & 1 for i in range(n)]
        ch = t.children()
        if d == z3.Z3_OP_BXOR:
            r = [0] * n
            for c in ch:
                r = [a ^ b for a, b in zip(r, self.bits(c))]
            return r
        if d == z3.Z3_OP_BNOT:
            return [a ^ 1 for a in self.bits(ch[0])]
        if d == z3.Z3_OP_CONCAT:
            r = []
            for c in reversed(ch):
                r += self.bits(c)
            return r
        if d == z3.Z3_OP_EXTRACT:
            hi, lo = t.params()
            return self.bits(ch[0])[lo:hi + 1]
        if d == z3.Z3_OP_ZERO_EXT:
            f = self.bits(ch[0])
            return f + [0] * (n - len(f))
        if d == z3.Z3_OP_SIGN_EXT:
            f = self.bits(ch[0])
            return f + [f[-1]] * (n - len(f))
        if d in (z3.Z3_OP_BAND, z3.Z3_OP_BOR):
            r = self.bits(ch[0])
            for c in ch[1:]:
                f = self.bits(c)
                o = []
                for a, b in zip(r, f):
                    if a > 1 and b <= 1:
                        a, b = b, a
                    if a <= 1:
                        o.append((b if a else 0) if d == z3.Z3_OP_BAND else (1 if a else b))
                    elif a == b:
                        o.append(a)
                    else:
                        return self.leaf(t)
                r = o
            return r
        if d in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(ch[1]):
            s = min(ch[1].as_long(), n)
            f = self.bits(ch[0])
            return [0] * s + f[:n - s] if d == z3.Z3_OP_BSHL else f[s:] + [0] * s
        if d == z3.Z3_OP_ITE:
            c = self.cond(ch[0])
            if c is not None:
                a, b = self.bits(ch[1]), self.bits(ch[2])
                r = []
                for x, y in zip(a, b):
                    if x ^ y == 0:
                        r.append(x)
                    elif x ^ y == 1:
                        r.append(y ^ c)
                    elif c in (0, 1):
                        r.append(x if c else y)
                    else:
                        return self.leaf(t)
                return r
            return self.leaf(t)
        return self.leaf(t)

    def cond(self, c):
        """a condition on one bit, as an affine form"""
        if z3.is_true(c):
            return 1
        if z3.is_false(c):
            return 0
        if z3.is_not(c):
            x = self.cond(c.arg(0))
            return None if x is None else x ^ 1
        if z3.is_eq(c) and z3.is_bool(c.arg(0)) or c.decl().kind() == z3.Z3_OP_XOR:
            a, b = self.cond(c.arg(0)), self.cond(c.arg(1))
            if a is None or b is None:
                return None
            return a ^ b ^ (1 if z3.is_eq(c) else 0)
        if z3.is_eq(c) and z3.is_bv(c.arg(0)):
            a, b = self.bits(c.arg(0)), self.bits(c.arg(1))
            acc = [x ^ y for x, y in zip(a, b) if x ^ y]
            if not acc:
                return 1
            if len(acc) == 1:
                return acc[0] ^ 1
        return None

    def leaf(self, t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            t = self.canon(t)
            k = self.find(t.get_id())
            if k not in self.busy and k in self.rules:
                best = None
                self.busy.add(k)
                for r in self.rules[k]:
                    best = self.bits(r)
                    break
                self.busy.discard(k)
                if best is not None:
                    return best
        return self.atom(t)

def prove(pc, goal):
    """True when goal (an equality, or a conjunction of them) follows by affine normal forms"""
    if not z3.is_expr(goal):
        return bool(goal)
    if z3.is_and(goal):
        return all(prove(pc, c) for c in goal.children())
    if not (z3.is_eq(goal) and z3.is_bv(goal.arg(0)) and goal.arg(0).size() <= 64):
        return False
    nf = NF(pc)
    try:
        return nf.bits(goal.arg(0)) == nf.bits(goal.arg(1))
    except RecursionError:
        return False
