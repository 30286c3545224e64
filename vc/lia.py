"""Second back end for layout arithmetic: translate a conjunction of bit-vector facts to integers.
Sums whose range provably stays inside the word become plain linear sums, everything else gets an
explicit carry; operations without a linear meaning become unconstrained values.  The translation
only ever adds models, so `unsat` carries over to the original."""
import z3

K = {k: getattr(z3, 'Z3_OP_' + k) for k in (
    'BNUM', 'CONCAT', 'EXTRACT', 'BADD', 'BSUB', 'BMUL', 'BNEG', 'BNOT', 'BAND', 'BSHL', 'BLSHR', 'ZERO_EXT', 'SIGN_EXT', 'ITE',
    'ULEQ', 'ULT', 'UGEQ', 'UGT', 'SLEQ', 'SLT', 'SGEQ', 'SGT', 'EQ', 'DISTINCT', 'AND', 'OR', 'NOT', 'IMPLIES', 'XOR', 'TRUE', 'FALSE',
    'UNINTERPRETED', 'BUREM', 'BUREM_I', 'BUDIV', 'BUDIV_I', 'BOR')}

class Lia:
    def __init__(self):
        self.side = []
        self.m = {}
        self.keep = []
        self.bnd = {}
        self.n = 0
        self.fns = {}
        self.div = {}
        self.bm = {}
    def fresh(self, lo, hi):
        self.n += 1
        v = z3.Int('i!%d' % self.n)
        self.side += [v >= lo, v <= hi]
        return v
    # -- bounds known from the conjunction itself
    def note(self, c):
        if not z3.is_app(c):
            return
        k = c.decl().kind()
        a = c.children()
        neg = False
        if k == K['AND']:
            for x in a:
                self.note(x)
            return
        if k == K['NOT']:
            neg = True
            c = a[0]
            k = c.decl().kind()
            a = c.children()
        if k in (K['ULEQ'], K['ULT'], K['UGEQ'], K['UGT']):
            if k in (K['UGEQ'], K['UGT']):
                a = a[::-1]
                k = K['ULEQ'] if k == K['UGEQ'] else K['ULT']
            x, y = a
            if neg:                # not x <= y: y < x ; not x < y: y <= x
                x, y = y, x
                k = K['ULT'] if k == K['ULEQ'] else K['ULEQ']
            s = 1 if k == K['ULT'] else 0
            if z3.is_bv_value(y):
                self.setb(x, None, y.as_long() - s)
            if z3.is_bv_value(x):
                self.setb(y, x.as_long() + s, None)
        elif k == K['EQ'] and not neg and z3.is_bv(a[0]):
            x, y = a
            if z3.is_bv_value(x):
                x, y = y, x
            if z3.is_bv_value(y):
                self.setb(x, y.as_long(), y.as_long())
                if y.as_long() == 0 and x.decl().kind() == K['EXTRACT']:
                    hi, lo = x.params()
                    z = x.arg(0)
                    if hi == z.size() - 1:
                        self.setb(z, None, (1 << lo) - 1)
    def setb(self, e, lo, hi):
        o = self.bnd.get(e.get_id(), (0, (1 << e.size()) - 1))
        self.keep.append(e)
        self.bnd[e.get_id()] = (o[0] if lo is None else max(o[0], lo), o[1] if hi is None else min(o[1], hi))
        if e.decl().kind() == K['CONCAT'] and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0 and e.num_args() == 2:
            self.setb(e.arg(1), lo, hi)
    # -- terms: (int expression, lo, hi)
    def t(self, e):
        k = e.get_id()
        r = self.m.get(k)
        if r is None:
            self.keep.append(e)
            v, lo, hi = self.t0(e)
            b = self.bnd.get(k)
            if b:
                lo, hi = max(lo, b[0]), min(hi, b[1])
                if lo > hi:        # contradictory facts: the query is unsat, and asserted as it stands
                    lo = hi = b[0]
            r = self.m[k] = (v, lo, hi)
        return r
    def wrap(self, v, lo, hi, w):
        M = 1 << w
        if lo >= 0 and hi < M:
            return v, lo, hi
        kl, kh = lo // M, hi // M
        if kl == kh:
            return v - kl * M, lo - kl * M, hi - kl * M
        k = self.fresh(kl, kh)
        r = v - k * M
        self.side += [r >= 0, r < M]
        return r, 0, M - 1
    def D(self, e, lo):
        """floor(e / 2^lo)"""
        v, l, h = self.t(e)
        if lo == 0:
            return v, l, h
        key = (e.get_id(), lo)
        d = self.div.get(key)
        if d is None:
            l, h = l >> lo, h >> lo
            if l == h:
                d = (z3.IntVal(l), l, h)
            else:
                x = self.fresh(l, h)
                self.side += [v - x * (1 << lo) >= 0, v - x * (1 << lo) < (1 << lo)]
                d = (x, l, h)
            self.div[key] = d
        return d
    def ext(self, e, hi, lo):
        # structural: through concatenations and multiples
        k = e.decl().kind() if z3.is_app(e) else None
        if k == K['CONCAT']:
            at = e.size()
            parts = []
            for c in e.children():
                at -= c.size()
                a, b = max(lo, at), min(hi, at + c.size() - 1)
                if a <= b:
                    parts.append((c, b - at, a - at, a - lo))
            if len(parts) < e.num_args() or (lo, hi) != (0, e.size() - 1):
                v, l, h = 0, 0, 0
                for c, b, a, s in parts:
                    x, xl, xh = self.ext(c, b, a)
                    v = x * (1 << s) + v
                    l += xl << s
                    h += xh << s
                return v, l, h
        if (lo, hi) == (0, e.size() - 1):
            return self.t(e)
        d, dl, dh = self.D(e, lo)
        n = hi - lo + 1
        if dh < (1 << n):
            return d, dl, dh
        u, ul, uh = self.D(e, hi + 1)
        if ul == uh:
            return d - ul * (1 << n), max(0, dl - (ul << n)), min((1 << n) - 1, dh - (ul << n))
        return d - u * (1 << n), 0, (1 << n) - 1
    def t0(self, e):
        w = e.size()
        M = 1 << w
        if z3.is_bv_value(e):
            n = e.as_long()
            return z3.IntVal(n), n, n
        k = e.decl().kind()
        a = e.children()
        if k == K['UNINTERPRETED']:
            if not a:
                b = self.bnd.get(e.get_id(), (0, M - 1))
                v = z3.Int('v!' + e.decl().name())
                self.side += [v >= 0, v < M]
                return v, b[0], b[1]
            if all(z3.is_bv(x) for x in a):
                n = e.decl().name()
                f = self.fns.get(n)
                if f is None:
                    f = self.fns[n] = z3.Function('f!' + n, *([z3.IntSort()] * (len(a) + 1)))
                v = f(*[self.t(x)[0] for x in a])
                self.side += [v >= 0, v < M]
                return v, 0, M - 1
        if k == K['CONCAT']:
            v, l, h, s = 0, 0, 0, 0
            for c in reversed(a):
                x, xl, xh = self.t(c)
                v = x * (1 << s) + v
                l += xl << s
                h += xh << s
                s += c.size()
            return v, l, h
        if k == K['EXTRACT']:
            hi, lo = e.params()
            return self.ext(a[0], hi, lo)
        if k == K['ZERO_EXT']:
            return self.t(a[0])
        if k == K['BADD']:
            v, l, h = 0, 0, 0
            for c in a:
                x, xl, xh = self.lin(c)
                v = v + x
                l += xl
                h += xh
            return self.wrap(v, l, h, w)
        if k == K['BSUB'] and len(a) == 2:
            x, y = self.t(a[0]), self.t(a[1])
            return self.wrap(x[0] - y[0], x[1] - y[2], x[2] - y[1], w)
        if k in (K['BMUL'], K['BNEG']):
            x = self.lin(e)
            if x is not None:
                return self.wrap(*x, w)
        if k == K['BNOT']:
            x, l, h = self.t(a[0])
            return M - 1 - x, M - 1 - h, M - 1 - l
        if k in (K['BSHL'], K['BLSHR']) and z3.is_bv_value(a[1]):
            n = a[1].as_long()
            if n >= w:
                return z3.IntVal(0), 0, 0
            if k == K['BLSHR']:
                return self.D(a[0], n)
            x, l, h = self.ext(a[0], w - 1 - n, 0)
            return x * (1 << n), l << n, h << n
        if k == K['BAND'] and len(a) == 2 and (z3.is_bv_value(a[0]) or z3.is_bv_value(a[1])):
            c, x = (a[0].as_long(), a[1]) if z3.is_bv_value(a[0]) else (a[1].as_long(), a[0])
            if c & (c + 1) == 0:
                return self.ext(x, c.bit_length() - 1, 0) if c else (z3.IntVal(0), 0, 0)
        if k == K['SIGN_EXT']:
            x, l, h = self.t(a[0])
            s = 1 << (a[0].size() - 1)
            if h < s:
                return x, l, h
            return z3.If(x >= s, x + (M - 2 * s), x), 0, M - 1
        if k == K['ITE']:
            c = self.b(a[0])
            x, y = self.t(a[1]), self.t(a[2])
            return z3.If(c, x[0], y[0]), min(x[1], y[1]), max(x[2], y[2])
        if k in (K['BUREM'], K['BUREM_I'], K['BUDIV'], K['BUDIV_I']) and z3.is_bv_value(a[1]) and a[1].as_long() > 0:
            n = a[1].as_long()
            x, l, h = self.t(a[0])
            key = (a[0].get_id(), 'q', n)
            q = self.div.get(key)
            if q is None:
                q = self.fresh(l // n, h // n)
                self.side += [x - q * n >= 0, x - q * n < n]
                self.div[key] = q
            if k in (K['BUDIV'], K['BUDIV_I']):
                return q, l // n, h // n
            return x - q * n, 0, n - 1
        v = self.fresh(0, M - 1)
        return v, 0, M - 1
    def lin(self, e):
        """summand without wrapping (value may be negative): constants are read as signed"""
        w = e.size()
        M = 1 << w
        sg = lambda n: n - M if n >= M >> 1 else n
        if z3.is_bv_value(e):
            n = sg(e.as_long())
            return z3.IntVal(n), n, n
        k = e.decl().kind()
        a = e.children()
        if k == K['BNEG']:
            x, l, h = self.t(a[0])
            return -x, -h, -l
        if k == K['BMUL']:
            if len(a) == 2 and (z3.is_bv_value(a[0]) or z3.is_bv_value(a[1])):
                c, x = (a[0], a[1]) if z3.is_bv_value(a[0]) else (a[1], a[0])
                n = sg(c.as_long())
                x, l, h = self.t(x)
                return x * n, min(l * n, h * n), max(l * n, h * n)
            if e.get_id() in self.m:
                return self.m[e.get_id()]
            r = (self.fresh(0, M - 1), 0, M - 1)
            self.keep.append(e)
            self.m[e.get_id()] = r
            return r
        return self.t(e)
    def signed(self, e):
        x, l, h = self.t(e)
        M = 1 << e.size()
        if h < M >> 1:
            return x
        if l >= M >> 1:
            return x - M
        return z3.If(x >= M >> 1, x - M, x)
    # -- formulas
    def b(self, e):
        k = e.get_id()
        r = self.bm.get(k)
        if r is None:
            self.keep.append(e)
            r = self.bm[k] = self.b0(e)
        return r
    def b0(self, e):
        k = e.decl().kind()
        a = e.children()
        if k in (K['TRUE'], K['FALSE']):
            return e
        if k == K['AND']:
            return z3.And(*[self.b(x) for x in a])
        if k == K['OR']:
            return z3.Or(*[self.b(x) for x in a])
        if k == K['NOT']:
            return z3.Not(self.b(a[0]))
        if k == K['IMPLIES']:
            return z3.Implies(self.b(a[0]), self.b(a[1]))
        if k == K['XOR']:
            return z3.Xor(self.b(a[0]), self.b(a[1]))
        if k == K['ITE']:
            return z3.If(self.b(a[0]), self.b(a[1]), self.b(a[2]))
        if k in (K['EQ'], K['DISTINCT']) and len(a) == 2:
            if z3.is_bool(a[0]):
                r = self.b(a[0]) == self.b(a[1])
                return r if k == K['EQ'] else z3.Not(r)
            if z3.is_bv(a[0]):
                r = self.t(a[0])[0] == self.t(a[1])[0]
                return r if k == K['EQ'] else z3.Not(r)
        if k in (K['ULEQ'], K['ULT'], K['UGEQ'], K['UGT']):
            x, y = self.t(a[0])[0], self.t(a[1])[0]
            return x <= y if k == K['ULEQ'] else x < y if k == K['ULT'] else x >= y if k == K['UGEQ'] else x > y
        if k in (K['SLEQ'], K['SLT'], K['SGEQ'], K['SGT']):
            x, y = self.signed(a[0]), self.signed(a[1])
            return x <= y if k == K['SLEQ'] else x < y if k == K['SLT'] else x >= y if k == K['SGEQ'] else x > y
        if k == K['UNINTERPRETED'] and not a:
            return z3.Bool('b!' + e.decl().name())
        self.n += 1
        return z3.Bool('o!%d' % self.n)

def unsat(facts, timeout):
    """True when the integer reading of the conjunction is unsatisfiable"""
    L = Lia()
    fs = [f for f in facts if z3.is_expr(f)]
    for f in fs:
        L.note(f)
    s = z3.SimpleSolver()
    s.set('timeout', timeout)
    for f in fs:
        s.add(L.b(f))
    for c in L.side:
        s.add(c)
    return guarded(lambda: s.check() == z3.unsat, timeout / 1000 + 0.5)

def guarded(f, secs):
    """f() in a child process: the integer solver does not always honour its own time limit"""
    import os, select, signal
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            code = 1 if f() else 0
        except BaseException:
            code = 0
        try:
            os.write(w, b'1' if code else b'0')
        finally:
            os._exit(0)
    os.close(w)
    try:
        ok, _, _ = select.select([r], [], [], secs)
        res = bool(ok) and os.read(r, 1) == b'1'
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    return res


def resolve(facts, goal, budget=20.0):
    """simplify the goal under the facts: decide its case splits, merge equal reads of uninterpreted content"""
    import time
    end = time.time() + budget
    facts = [f for f in facts if z3.is_expr(f)]
    L = Lia()
    for f in facts:
        L.note(f)
    s = z3.SimpleSolver()
    s.set('timeout', 1500)
    base = [L.b(f) for f in facts]
    for c in base:
        s.add(c)
    done = [0]
    def flush():
        for c in L.side[done[0]:]:
            s.add(c)
        done[0] = len(L.side)
    def shown(c):
        e = L.b(c)
        flush()
        s.push()
        s.add(z3.Not(e))
        r = s.check()
        s.pop()
        return r == z3.unsat
    known = {}
    for rnd in range(12):
        conds, apps, seen, st = [], {}, set(), [goal]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if not z3.is_app(x):
                continue
            k = x.decl().kind()
            if k == K['ITE'] and x.arg(0).get_id() not in known:
                conds.append(x.arg(0))
            if k == K['UNINTERPRETED'] and x.num_args():
                apps.setdefault(x.decl().name(), []).append(x)
            st.extend(x.children())
        # innermost conditions first: those without a further case split inside
        def plain(c):
            seen, st = set(), [c]
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind() == K['ITE']:
                    return False
                st.extend(x.children())
            return True
        sub = []
        for c in conds:
            if time.time() > end:
                return goal
            if not plain(c):
                continue
            known[c.get_id()] = c
            if shown(c):
                sub.append((c, z3.BoolVal(True)))
            elif shown(z3.Not(c)):
                sub.append((c, z3.BoolVal(False)))
        for n, xs in apps.items():
            if len(xs) > 40:
                continue
            reps = []
            for x in xs:
                for y in reps:
                    if time.time() > end:
                        return goal
                    k = (x.get_id(), y.get_id())
                    if k in known:
                        continue
                    known[k] = (x, y)
                    if shown(z3.And(*[x.arg(i) == y.arg(i) for i in range(x.num_args())])):
                        sub.append((x, y))
                        break
                else:
                    reps.append(x)
        if not sub:
            return goal
        goal = z3.simplify(z3.substitute(goal, *sub))
        if z3.is_true(goal) or z3.is_false(goal):
            return goal
    return goal
