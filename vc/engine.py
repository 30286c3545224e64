"""Verification-condition generator: forward symbolic execution of LLVM IR produced from the
current /repo sources, with loop cuts at invariants and callee contracts.  Every check of a
contract clause, memory access or invariant is an obligation handed to the solver."""
import json, re, sys, time
import z3
from values import *
import mem
from mem import MObj, Node, fresh_bv, fresh_name, node_array, node_zero, node_bytes

sys.setrecursionlimit(20000)

class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.fns = {f['name']: f for f in d['functions']}
        self.globals = {g['name']: g for g in d['globals']}
        self.fns['__event'] = EVENT_FN
        self.loops_cache = {}

    def loops(self, fname):
        """header block -> set of body blocks (SCC of the header once outer headers are cut)"""
        if fname in self.loops_cache:
            return self.loops_cache[fname]
        f = self.fns[fname]
        succ = [self.succs(b) for b in f['blocks']]
        n = len(succ)
        # nested strongly connected components, each with its first-visited block as header
        # (Bourdoncle); irreducible regions are cut at that block as well
        order, stack = {0: 0}, [(0, iter(succ[0]))]
        while stack:
            u, it = stack[-1]
            for v in it:
                if v not in order:
                    order[v] = len(order)
                    stack.append((v, iter(succ[v])))
                    break
            else:
                stack.pop()
        res = {}
        def comps(nodes):
            idx, low, onst, st, out = {}, {}, set(), [], []
            for root in sorted(nodes, key=lambda x: order[x]):
                if root in idx:
                    continue
                work = [(root, iter(succ[root]))]
                idx[root] = low[root] = len(idx); st.append(root); onst.add(root)
                while work:
                    u, it = work[-1]
                    for v in it:
                        if v not in nodes:
                            continue
                        if v not in idx:
                            idx[v] = low[v] = len(idx); st.append(v); onst.add(v)
                            work.append((v, iter(succ[v])))
                            break
                        if v in onst:
                            low[u] = min(low[u], idx[v])
                    else:
                        work.pop()
                        if work:
                            low[work[-1][0]] = min(low[work[-1][0]], low[u])
                        if low[u] == idx[u]:
                            c = set()
                            while True:
                                x = st.pop(); onst.discard(x); c.add(x)
                                if x == u:
                                    break
                            if len(c) > 1 or u in succ[u]:
                                out.append(c)
            return out
        def nest(nodes):
            for c in comps(nodes):
                h = min(c, key=lambda x: order[x])
                res[h] = c
                nest(c - {h})
        nest(set(order))
        self.loops_cache[fname] = res
        return res

    def succs(self, b):
        t = b[-1]
        op = t['op']
        if op == 'br':
            return [t['bt'], t['bf']] if 'c' in t else [t['b']]
        if op == 'switch':
            return [c[1] for c in t['cases']] + [t['def']]
        if op == 'invoke':
            return [t['nd'], t['ud']]
        return []

class Frame:
    __slots__ = ('fn', 'regs', 'bb', 'prev', 'pc', 'allocas', 'uid', 'call', 'loops', 'retto', 'onret')
    _uid = [0]
    def __init__(self, fn):
        self.fn, self.regs, self.bb, self.prev, self.pc = fn, {}, 0, None, 0
        self.allocas = []
        Frame._uid[0] += 1
        self.uid = Frame._uid[0]
        self.call = None        # the call instruction in the frame below
        self.loops = {}         # header -> LoopAct
        self.onret = None
    def clone(self):
        f = Frame.__new__(Frame)
        f.fn, f.bb, f.prev, f.pc, f.uid, f.call, f.onret = self.fn, self.bb, self.prev, self.pc, self.uid, self.call, self.onret
        f.regs = dict(self.regs)
        f.allocas = list(self.allocas)
        f.loops = dict(self.loops)
        return f

class LoopAct:
    """activation of a loop header in a frame"""
    __slots__ = ('mode', 'count', 'entry', 'cut', 'exitdec')
    def __init__(self, mode):
        self.mode, self.count, self.entry, self.cut = mode, 0, None, None
    def clone(self):
        a = LoopAct(self.mode)
        a.count, a.entry, a.cut = self.count, self.entry, self.cut
        return a

class State:
    def __init__(self, eng):
        self.eng = eng
        self.frames = []
        self.mem = {}
        self.owned = set()
        self.pc = []
        self.models = ()            # assignments known to satisfy pc
        self.ghost = {}
        self.exc = None
        self.caught = []
        self.log = None         # write log (loop discovery)
        self.trace = []
        self.nds = []
        self.forks = 0
        self.quiet = False      # obligations off (loop discovery passes)
    def clone(self):
        s = State(self.eng)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem)
        s.owned = set()
        self.owned = set()
        s.pc = list(self.pc)
        s.models = self.models
        s.ghost = dict(self.ghost)
        s.exc, s.caught = self.exc, list(self.caught)
        s.log = self.log
        s.trace = list(self.trace)
        s.nds = list(self.nds)
        s.forks = self.forks
        s.quiet = self.quiet
        return s
    @property
    def fr(self):
        return self.frames[-1]
    def obj(self, i, w=False):
        o = self.mem.get(i)
        if o is None:
            o = self.eng.global_obj(i)
            if o is None:
                raise Unsupported('no object %s' % i)
            o = o.clone()
            self.mem[i] = o
            self.owned.add(i)
        if w and i not in self.owned:
            o = o.clone()
            self.mem[i] = o
            self.owned.add(i)
        return o
    def new(self, name, size, kind, chain=None, ro=False):
        eng = self.eng
        eng.nobj += 1
        i = eng.nobj
        o = MObj(i, name, size, kind, chain if chain is not None else node_array(name.replace(' ', '_')), ro)
        self.mem[i] = o
        self.owned.add(i)
        return o
    def assume(self, c):
        if isinstance(c, int):
            if not c:
                self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(c)
        if self.models:
            self.models = tuple(m for m in self.models if z3.is_true(m.eval(c, model_completion=True)))

class PathEnd(Exception):
    def __init__(self, kind, info=None):
        self.kind, self.info = kind, info

class Fork(Exception):
    """raised by an instruction to split: list of (cond, action(state))"""
    def __init__(self, alts):
        self.alts = alts

class LoopRestart(Exception):
    def __init__(self, act):
        self.act = act

class Obl:
    __slots__ = ('name', 'kind', 'loc', 'status', 'time', 'backend', 'model', 'note', 'harness')

class Config:
    def __init__(self):
        self.timeout = 60000
        self.max_unroll = 5000
        self.sym_unroll = 40
        self.max_paths = 4000
        self.max_steps = 3_000_000
        self.max_fail = 4
        self.cut = []              # function regexes whose loops are cut at once
        self.unroll = []           # function regexes whose loops are unrolled even on symbolic exits
        self.models = {}           # name regex -> handler
        self.contracts = {}        # demangled regex -> harness function implementing the callee contract
        self.loop_inv = None       # callback(LoopCtx) -> list of (name, fn(view))
        self.bounds = None         # callback(state) -> list of 64-bit bounds for Houdini candidates
        self.check_mem = True
        self.nonneg = False
        self.table_lin = False
        self.auto_cands = True     # try automatic bound candidates for every loop variable
        self.deadline = None
        self.termination = True
        self.solver = 'simple'
        self.dump = None
        self.fp_lemmas = None     # facts used for floating point sums instead of their definition
        self.kwidth = None        # width of iteration counters (64 bit unless set; proved to suffice)

class Engine:
    def __init__(self, module, cfg):
        self.m = module
        self.cfg = cfg
        self.nobj = 0
        self.gids = {}
        self.gobj = {}
        self.bases = {}
        self.base_of = {}
        self.typeids = {}
        self.obls = []
        self.covers = set()
        self.paths = 0
        self.steps = 0
        self.solver_time = 0.0
        self.queries = 0
        self.harness = ''
        self.unsupported = []
        self.lia_wins = 0
        self.axioms = []           # side facts about bases
        self.fails = 0
        self.assumed = set()
        self.inlined = set()
        self.loops_cut = {}
        self.loops_unrolled = set()
        self.used_contracts = set()
        self.nterm = set()
        self.mc = {}
        self.symcache = {}
        import models
        self.models = models

    # ---------------------------------------------------------------- objects
    def global_obj(self, i):
        return self.gobj.get(i)

    def gptr(self, name, off=0):
        i = self.gids.get(name)
        if i is None:
            self.nobj += 1
            i = self.nobj
            self.gids[name] = i
            if name in self.m.fns:
                o = MObj(i, '@' + name, 0, 'fn', node_zero(), True)
                o.fn = name
                self.gobj[i] = o
            else:
                g = self.m.globals[name]
                o = MObj(i, '@' + name, g['size'], 'global', node_zero(), bool(g['const']))
                if 'init' not in g:
                    o.chain = node_array(name)
                    o.kind = 'ext'
                self.gobj[i] = o
                if 'init' in g:
                    self.init_const(o, 0, g['init'], g['t'])
        return Ptr(i, off)

    def init_const(self, o, off, c, t):
        k = c[0]
        ty = self.m.types[t]
        if k in ('z', 'u', 'n'):
            if k == 'n':
                o.cells[off] = (8, NULL)
            return
        if k == 'b':
            bs = bytes.fromhex(c[2])
            if off == 0 and o.chain.k == 'fn' and not o.cells and len(bs) == o.size:
                o.chain = node_bytes(bs)
            else:
                for j, x in enumerate(bs):
                    o.cells[off + j] = (1, x)
            return
        if k == 'a':
            if ty['k'] == 'struct':
                for e, et, eo in zip(c[2], ty['elems'], ty['offs']):
                    self.init_const(o, off + eo, e, et)
            else:
                es = self.m.types[ty['elem']]['size']
                for j, e in enumerate(c[2]):
                    self.init_const(o, off + j * es, e, ty['elem'])
            return
        v = self.const(c)
        o.cells[off] = (ty['size'], v)

    def base(self, oid):
        b = self.bases.get(oid)
        if b is None:
            b = z3.BitVec('base!%d' % oid, 64)
            self.bases[oid] = b
            self.base_of[b.get_id()] = oid
            # allocation addresses: 16-aligned, away from 0 and from the top of the address space
            self.axioms.append(z3.And(z3.UGE(b, 0x10000), z3.ULE(b, 1 << 62), z3.Extract(3, 0, b) == 0))
        return b

    def ptr2int(self, p):
        if p.obj is None:
            return p.off
        return add(self.base(p.obj), p.off)

    def int2ptr(self, v):
        if isinstance(v, Ptr):
            return v
        if is_c(v):
            return Ptr(None, v)
        v = z3.simplify(v)
        seen, found, st = set(), set(), [v]
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if e.get_id() in self.base_of:
                found.add(self.base_of[e.get_id()])
            st.extend(e.children())
        if len(found) == 1:
            oid = found.pop()
            d = simp(v - self.bases[oid])
            if not self._mentions_base(d):
                return Ptr(oid, d)
        return Ptr(None, v)

    def _mentions_base(self, d):
        if is_c(d):
            return False
        seen, st = set(), [d]
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if e.get_id() in self.base_of:
                return True
            st.extend(e.children())
        return False

    # ---------------------------------------------------------------- constants / operands
    def const(self, c):
        k = c[0]
        if k == 'i':
            v = int(c[2])
            return bool(v) if c[1] == 1 else v
        if k == 'n':
            return NULL
        if k == 'g':
            return self.gptr(c[1])
        if k == 'u':
            return self.undef(c[1])
        if k == 'z':
            return self.zero(c[1])
        if k == 'f':
            bits = int(c[2])
            if c[1] == 64:
                return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 64), z3.Float64()))
            if c[1] == 32:
                return z3.simplify(z3.fpBVToFP(z3.BitVecVal(bits, 32), z3.Float32()))
            raise Unsupported('fp width %d' % c[1])
        if k == 'ce':
            if c[1] == 'add':
                p = self.const(c[2])
                return Ptr(p.obj, add(p.off, c[3] & M64))
            v = self.const(c[2])
            if c[1] == 'ptrtoint':
                return self.ptr2int(v)
            if c[1] == 'inttoptr':
                return self.int2ptr(v)
            return v
        if k == 'a':
            return [self.const(e) for e in c[2]]
        if k == 'b':
            return list(bytes.fromhex(c[2]))
        if k == 'ce2':
            vs = [self.const(e) for e in c[3]]
            if c[1] == 'icmp':
                raise Unsupported('constant icmp')
            if c[1] in ('sub', 'add'):
                w = self.m.types[c[2]]['w']
                return (sub if c[1] == 'sub' else add)(vs[0], vs[1], w)
            raise Unsupported('constant expr %s' % c[1])
        raise Unsupported('constant %s' % k)

    def undef(self, t):
        ty = self.m.types[t]
        if ty['k'] == 'int':
            return fresh_bv('undef', ty['w']) if ty['w'] > 1 else z3.Bool(fresh_name('undef'))
        if ty['k'] == 'ptr':
            return Ptr(None, fresh_bv('undefp', 64))
        if ty['k'] == 'struct':
            return [self.undef(e) for e in ty['elems']]
        if ty['k'] in ('array', 'vec'):
            return [self.undef(ty['elem']) for _ in range(ty['n'])]
        if ty['k'] == 'fp':
            return z3.FP(fresh_name('undef'), z3.Float64() if ty['w'] == 64 else z3.Float32())
        raise Unsupported('undef')

    def zero(self, t):
        ty = self.m.types[t]
        if ty['k'] == 'int':
            return False if ty['w'] == 1 else 0
        if ty['k'] == 'ptr':
            return NULL
        if ty['k'] == 'struct':
            return [self.zero(e) for e in ty['elems']]
        if ty['k'] in ('array', 'vec'):
            return [self.zero(ty['elem']) for _ in range(ty['n'])]
        if ty['k'] == 'fp':
            return z3.FPVal(0.0, z3.Float64() if ty['w'] == 64 else z3.Float32())
        raise Unsupported('zero')

    def op(self, st, o):
        if o[0] == 'r':
            return st.fr.regs[o[1]]
        if o[0] == 'md':
            return None
        return self.const(o)

    # ---------------------------------------------------------------- solving
    def check(self, st, extra, timeout=None, goal=None):
        """sat/unsat/unknown of pc and extra"""
        t = time.time()
        full = timeout or self.cfg.timeout
        facts = list(self.axioms) + list(self.extra_axioms(st)) + list(st.pc) + [bl(c) for c in extra]
        early = self.lia_wins > 1
        if early:
            # bit-level solving kept timing out on this harness where the integer view succeeded
            import lia
            try:
                u = lia.unsat(facts, 2000)
            except RecursionError:
                u = False
            self.lia_wins += 1 if u else -1
            self.lia_wins = min(self.lia_wins, 4)
            if u:
                self.solver_time += time.time() - t
                self.queries += 1
                self.backend = 'z3-int'
                return 'unsat', None
        s = z3.SimpleSolver()
        s.set('timeout', min(full, 400))
        for a in facts:
            s.add(a)
        r = s.check()
        self.backend = 'z3'
        if r == z3.unknown:
            import lia
            try:
                u = lia.unsat(facts, min(full, 10000))
            except RecursionError:
                u = False
            if u:
                self.solver_time += time.time() - t
                self.queries += 1
                self.lia_wins += 1
                self.backend = 'z3-int'
                return 'unsat', s
            if goal is not None:
                try:
                    g = lia.resolve(facts[:-1], goal)
                except RecursionError:
                    g = goal
                if not g.eq(goal):
                    for some in (False, True):
                        s = z3.SimpleSolver()
                        s.set('timeout', 3000 if not some else 10000)
                        if some:
                            for a in facts[:-1]:
                                s.add(a)
                        s.add(z3.Not(g))
                        if s.check() == z3.unsat:
                            self.solver_time += time.time() - t
                            self.queries += 1
                            self.backend = 'z3'
                            return 'unsat', s
            if full > 400:
                s = z3.SimpleSolver()
                s.set('timeout', full)
                for a in facts:
                    s.add(a)
                r = s.check()
        dt = time.time() - t
        self.solver_time += dt
        if dt > 1 and self.cfg.dump:
            import traceback
            fs = traceback.extract_stack()[-4:-1]
            print('slow query %.1fs %s %s' % (dt, r, ' < '.join('%s:%d' % (f.name, f.lineno) for f in reversed(fs))), flush=True)
            open('%s/q%d_%s.smt2' % (self.cfg.dump, self.queries, r), 'w').write(s.to_smt2())
        self.queries += 1
        if r == z3.sat:
            return 'sat', s.model()
        return ('unsat' if r == z3.unsat else 'unknown'), s

    def syms(self, e):
        """uninterpreted symbols of a term"""
        k = e.get_id()
        r = self.symcache.get(k)
        if r is not None:
            return r[0]
        out, seen, st = set(), set(), [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(x.decl().name())
                st += x.children()
        self.symcache[k] = (out, e)
        return out

    def quick_unsat(self, st, neg):
        """first try with the hypotheses that talk about the goal's own symbols only"""
        g = self.syms(neg)
        sub = [c for c in st.pc if z3.is_expr(c) and (lambda s: s <= g or (s & g and len(s) <= 3))(self.syms(c))]
        if len(sub) > 0.8 * len(st.pc):
            return False
        s = z3.SimpleSolver()
        s.set('timeout', 400)
        for c in self.axioms:
            if self.syms(c) & g:
                s.add(c)
        for c in sub:
            s.add(c)
        s.add(neg)
        t = time.time()
        r = s.check()
        self.solver_time += time.time() - t
        self.queries += 1
        return r == z3.unsat

    def gf2(self, st, c):
        import gf2
        t = time.time()
        r = gf2.prove(st.pc, c)
        self.solver_time += time.time() - t
        self.queries += 1
        return r

    def extra_axioms(self, st):
        return st.ghost.get('axioms', ())

    def feasible(self, st, c):
        """is pc && c satisfiable (unknown counts as yes)"""
        if isinstance(c, int):
            return bool(c)
        for m in st.models:
            if z3.is_true(m.eval(c, model_completion=True)):
                return True
        r, m = self.check(st, [c], 20000)
        if r == 'sat':
            st.models = (m,) + st.models[:7]
        return r != 'unsat'

    def decide(self, st, c):
        """(can be true, can be false)"""
        if isinstance(c, int):
            return bool(c), not c
        if self.cfg.deadline and time.time() > self.cfg.deadline:
            raise Unsupported('time budget exhausted')
        t = f = None
        for m in st.models:
            v = m.eval(c, model_completion=True)
            if z3.is_true(v):
                t = True
            elif z3.is_false(v):
                f = True
        if t is None:
            t = self.feasible(st, c)
        if not t:
            f = True
        if f is None:
            f = self.feasible(st, z3.Not(c))
        return t, f

    def loc(self, st):
        for fr in reversed(st.frames):
            fn = self.m.fns[fr.fn]
            ins = fn['blocks'][fr.bb][min(fr.pc, len(fn['blocks'][fr.bb]) - 1)]
            if 'ln' in ins and ins['ln']:
                return '%s:%d' % (ins.get('fl', '?'), ins['ln'])
        return '?'

    def where(self, st):
        for fr in reversed(st.frames):
            d = self.m.fns[fr.fn]['dem']
            return d.split('(')[0]
        return '?'

    def oblige(self, st, cond, name, kind):
        """generate and discharge one obligation, then assume it"""
        if st.quiet:
            st.assume(cond)
            return
        if self.cfg.deadline and time.time() > self.cfg.deadline:
            raise Unsupported('time budget exhausted')
        o = Obl()
        o.name, o.kind, o.loc, o.harness = name, kind, self.loc(st), self.harness
        o.model = None
        o.note = ''
        t = time.time()
        if isinstance(cond, int):
            if cond:
                o.status, o.backend, o.time = 'discharged', 'fold', 0.0
                self.obls.append(o)
                return
            r, m = self.check(st, [True])
            neg = z3.BoolVal(True)
        else:
            neg = z3.Not(cond)
            if self.cfg.table_lin and self.gf2(st, cond):
                o.status, o.backend, o.time = 'discharged', 'gf2', time.time() - t
                self.obls.append(o)
                st.assume(cond)
                return
            if self.quick_unsat(st, neg):
                o.status, o.backend, o.time = 'discharged', 'z3', time.time() - t
                self.obls.append(o)
                st.assume(cond)
                return
            r, m = self.check(st, [neg], goal=cond)
        o.backend = self.backend
        if r == 'unknown':
            r2 = self.cvc5(m)
            if r2 == 'unsat':
                r = 'unsat'
                o.backend = 'cvc5'
        o.time = time.time() - t
        if r == 'unsat':
            o.status = 'discharged'
        elif r == 'sat':
            o.status = 'failed'
            o.model = self.cex(st, m)
            self.fails += 1
        else:
            o.status = 'unknown'
            o.note = 'solver gave up'
            self.fails += 1
        self.obls.append(o)
        if o.status != 'discharged':
            if self.fails >= self.cfg.max_fail:
                raise PathEnd('abort')
        if isinstance(cond, int):
            raise PathEnd('failed')
        st.assume(cond)

    def cvc5(self, solver):
        try:
            import subprocess, tempfile, os
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write('(set-logic ALL)\n' + solver.to_smt2())
            r = 'unknown'
            for opt in (['--solve-bv-as-int=sum'], []):
                p = subprocess.run(['cvc5', '--tlimit=%d' % (self.cfg.timeout // 2)] + opt + [f.name], capture_output=True,
                                   text=True, timeout=self.cfg.timeout / 2000 + 10)
                r = p.stdout.strip().split('\n')[0]
                if r in ('sat', 'unsat'):
                    break
            os.unlink(f.name)
            return r
        except Exception:
            return 'unknown'

    def cex(self, st, m):
        out = {'nd': [], 'trace': list(st.trace)[-30:]}
        for name, v in st.nds:
            if isinstance(v, tuple):      # ('buf', name, objid, size)
                _, oid, size, chain = v
                sz = size if is_c(size) else m.eval(size, model_completion=True).as_long()
                bs = []
                for i in range(min(sz, 64)):
                    b = mem.read_byte(chain, i)
                    bs.append(b if is_c(b) else m.eval(b, model_completion=True).as_long())
                out['nd'].append([name, {'size': sz, 'bytes': bs}])
            else:
                out['nd'].append([name, v if is_c(v) else self._mval(m, v)])
        return out

    def _mval(self, m, v):
        e = m.eval(v, model_completion=True)
        if z3.is_bv_value(e):
            return e.as_long()
        if z3.is_true(e) or z3.is_false(e):
            return 1 if z3.is_true(e) else 0
        return str(e)

    # ---------------------------------------------------------------- memory access
    def access(self, st, p, n, what, w=False):
        """object of pointer p after proving that [p, p+n) lies inside it"""
        if not isinstance(p, Ptr):
            p = self.int2ptr(p)
        if p.obj is None:
            self.oblige(st, False, '%s through a null or wild pointer (%s)' % (what, p.off), 'memory')
            raise PathEnd('failed')
        o = st.obj(p.obj, w)
        if not o.alive:
            self.oblige(st, False, '%s of freed object %s' % (what, o.name), 'memory')
            raise PathEnd('failed')
        if o.kind == 'fn':
            self.oblige(st, False, '%s of code' % what, 'memory')
            raise PathEnd('failed')
        if w and o.ro:
            self.oblige(st, False, 'write to constant %s' % o.name, 'memory')
            raise PathEnd('failed')
        if o.kind == 'ext':
            return o
        if self.cfg.check_mem:
            if is_c(p.off) and is_c(n) and is_c(o.size):
                ok = p.off + n <= o.size
                if ok:
                    return o
            else:
                ok = ult(p.off, o.size) if is_c(n) and n == 1 else \
                    land(ule(p.off, add(p.off, n)), ule(add(p.off, n), o.size)) if is_c(n) else \
                    land(ule(p.off, o.size), ule(n, sub(o.size, p.off)))
            self.oblige(st, ok, '%s of %s stays inside %s' % (what, n if is_c(n) else 'n bytes', o.name), 'memory')
        return o

    def load(self, st, p, t):
        ty = self.m.types[t]
        if not isinstance(p, Ptr):
            p = self.int2ptr(p)
        if ty['k'] in ('struct', 'array', 'vec'):
            if ty['k'] == 'struct':
                return [self.load(st, Ptr(p.obj, add(p.off, o)), e) for e, o in zip(ty['elems'], ty['offs'])]
            es = self.m.types[ty['elem']]['size']
            return [self.load(st, Ptr(p.obj, add(p.off, es * i)), ty['elem']) for i in range(ty['n'])]
        n = (ty['w'] + 7) // 8 if ty['k'] == 'int' else ty['size']
        o = self.access(st, p, n, 'read')
        v = mem.read(o, p.off, n, st)
        return self.retype(v, ty, n)

    def retype(self, v, ty, n):
        if ty['k'] == 'int':
            if isinstance(v, Ptr):
                v = self.ptr2int(v)
            elif z3.is_expr(v) and z3.is_fp(v):
                v = z3.fpToIEEEBV(v)
            if ty['w'] == 1:
                if isinstance(v, bool):
                    return v
                return trunc(v, n * 8, 1) if not isinstance(v, z3.BoolRef) else v
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, z3.BoolRef):
                v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            if not is_c(v) and v.size() < ty['w']:
                v = z3.ZeroExt(ty['w'] - v.size(), v)
            if not is_c(v) and v.size() > ty['w']:
                v = simp(z3.Extract(ty['w'] - 1, 0, v))
            return v
        if ty['k'] == 'ptr':
            return v if isinstance(v, Ptr) else self.int2ptr(v)
        if ty['k'] == 'fp':
            if z3.is_expr(v) and z3.is_fp(v):
                return v
            so = z3.Float64() if ty['w'] == 64 else z3.Float32()
            return z3.simplify(z3.fpBVToFP(bv(v, ty['w']), so))
        raise Unsupported('load type')

    def store(self, st, p, v, t):
        ty = self.m.types[t]
        if not isinstance(p, Ptr):
            p = self.int2ptr(p)
        if ty['k'] in ('struct', 'array', 'vec'):
            if ty['k'] == 'struct':
                for x, e, o in zip(v, ty['elems'], ty['offs']):
                    self.store(st, Ptr(p.obj, add(p.off, o)), x, e)
            else:
                es = self.m.types[ty['elem']]['size']
                for i, x in enumerate(v):
                    self.store(st, Ptr(p.obj, add(p.off, es * i)), x, ty['elem'])
            return
        n = (ty['w'] + 7) // 8 if ty['k'] == 'int' else ty['size']
        o = self.access(st, p, n, 'write', True)
        if isinstance(v, bool):
            v = int(v)
        elif isinstance(v, z3.BoolRef):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        if st.log is not None:
            st.log.append((p.obj, p.off, n))
        mem.write(o, p.off, n, v, st)

    def memcpy(self, st, d, s, n):
        if is_c(n) and n == 0:
            return
        if not is_c(n) and not self.feasible(st, n != 0):
            return
        # a zero length touches nothing, so null pointers are fine then
        if (d.obj is None or s.obj is None) and not is_c(n):
            self.oblige(st, eq(n, 0), 'copy through a null pointer copies nothing', 'memory')
            return
        so = self.access(st, s, n, 'copy source read')
        do = self.access(st, d, n, 'copy destination write', True)
        if st.log is not None:
            st.log.append((d.obj, d.off, n))
        if so.id == do.id:
            so = do
        mem.copy(do, d.off, so, s.off, n, st)

    def memset(self, st, d, b, n):
        if is_c(n) and n == 0:
            return
        if d.obj is None and not is_c(n):
            self.oblige(st, eq(n, 0), 'fill through a null pointer fills nothing', 'memory')
            return
        do = self.access(st, d, n, 'fill', True)
        if st.log is not None:
            st.log.append((d.obj, d.off, n))
        mem.fill(do, d.off, n, b, st)

    # ---------------------------------------------------------------- running
    def run_harness(self, name, plugin_state=None):
        self.harness = name
        st = State(self)
        fr = Frame(name)
        st.frames.append(fr)
        if plugin_state:
            plugin_state(st)
        ends = {}
        try:
            for kind, s in self.explore([st]):
                ends[kind] = ends.get(kind, 0) + 1
        except PathEnd as e:
            ends[e.kind] = ends.get(e.kind, 0) + 1
        return ends

    def cover_names(self, h):
        """cover points in the text of a harness"""
        names, seen, todo = set(), set(), [h]
        while todo:
            f = todo.pop()
            if f in seen or f not in self.m.fns or self.m.fns[f]['decl']:
                continue
            seen.add(f)
            for b in self.m.fns[f]['blocks']:
                for i in b:
                    if i['op'] in ('call', 'invoke'):
                        c = i['f'][1] if i['f'][0] == 'g' else None
                        g = self.m.fns.get(c)
                        if g and not g['decl'] and any('contracts/' in (x.get('fl') or '') for x in g['blocks'][0][:6]):
                            todo.append(c)
                        if c == 'vc_cover':
                            a = i['args'][0]
                            if a[0] == 'g':
                                g = self.m.globals[a[1]]
                                if 'init' in g and g['init'][0] == 'b':
                                    names.add(bytes.fromhex(g['init'][2]).split(b'\0')[0].decode())
        return names

    def explore(self, work, cut=None):
        """run states to their events: ('end', s), ('backedge', s), ('exit', s), ..."""
        while work:
            st = work.pop()
            try:
                while True:
                    ev = self.step(st, work, cut)
                    if ev is not None:
                        break
                self.paths += 1
                if self.paths > self.cfg.max_paths:
                    raise Unsupported('more than %d paths' % self.cfg.max_paths)
                yield ev, st
            except PathEnd as e:
                self.paths += 1
                if e.kind == 'abort':
                    raise
                yield e.kind, st
            except Unsupported as e:
                where = ''
                try:
                    where = ' in %s at %s' % (self.where(st), self.loc(st))
                except Exception:
                    pass
                msg = str(e) + where
                if not st.quiet or True:
                    o = Obl()
                    o.name, o.kind, o.loc, o.harness = 'reach of the verifier: ' + msg, 'unsupported', '?', self.harness
                    o.status, o.backend, o.time, o.model, o.note = 'unknown', '-', 0, None, msg
                    self.obls.append(o)
                    self.unsupported.append(msg)
                    self.fails += 1
                    raise PathEnd('abort')
            except LoopRestart as e:
                # the loop's exit turned out to depend on symbolic data: cut it with an invariant
                s = e.act.entry.clone()
                hdr = s.fr.bb
                act = LoopAct('inv')
                s.fr.loops[hdr] = act
                self.cut_loop(s, hdr, work, cut)

    def split(self, st, work, alts):
        """alts: list of (cond, fn(state)); continues in st with the first feasible one"""
        feas = []
        for c, fn in alts:
            if isinstance(c, int):
                if c:
                    feas.append((c, fn))
                continue
            if self.feasible(st, c):
                feas.append((c, fn))
        if not feas:
            raise PathEnd('infeasible')
        for c, fn in feas[1:]:
            s = st.clone()
            s.forks += 1
            s.assume(c)
            fn(s)
            work.append(s)
        c, fn = feas[0]
        st.forks += len(feas) > 1
        st.assume(c)
        fn(st)

    def jump(self, st, b, work, cut):
        fr = st.fr
        fr.prev = fr.bb
        fr.bb = b
        fr.pc = 0
        loops = self.m.loops(fr.fn)
        exited = False
        for h in list(fr.loops):
            if b not in loops[h]:
                a = fr.loops.pop(h)
                if cut is not None and a.cut is cut:
                    exited = True
        if b in loops:
            act = fr.loops.get(b)
            if act is None:
                act = LoopAct('try')
                act.entry = st.clone()       # before phis are evaluated
                fr.loops[b] = act
                if self.cfg.cut and any(re.search(r, self.m.fns[fr.fn]['dem']) for r in self.cfg.cut):
                    raise LoopRestart(act)
            elif act.mode == 'inv':
                if exited:                   # left an inner loop straight to an outer header
                    st.ghost['event'] = 'backedge'
                    st.frames.append(EventFrame)
                    return 'exit'
                return 'backedge'
            else:
                a2 = act.clone()
                a2.count += 1
                a2.entry = act.entry
                fr.loops[b] = a2
                if a2.count >= 24 and a2.mode == 'try' and a2.count <= st.forks - act.entry.forks \
                        and not any(re.search(r, self.m.fns[fr.fn]['dem']) for r in self.cfg.unroll):
                    raise LoopRestart(a2)    # every iteration splits: not a loop over known data
                if a2.count > self.cfg.max_unroll:
                    raise Unsupported('loop unrolled %d times' % a2.count)
        self.phis(st)
        return 'exit' if exited else None

    def phis(self, st):
        fr = st.fr
        blk = self.m.fns[fr.fn]['blocks'][fr.bb]
        vals = []
        i = 0
        for ins in blk:
            if ins['op'] != 'phi':
                break
            for b, v in ins['in']:
                if b == fr.prev:
                    vals.append((ins['id'], self.op(st, v)))
                    break
            else:
                raise Unsupported('phi')
            i += 1
        for r, v in vals:
            fr.regs[r] = v
        fr.pc = i

    def step(self, st, work, cut):
        fr = st.fr
        fn = self.m.fns[fr.fn]
        ins = fn['blocks'][fr.bb][fr.pc]
        self.steps += 1
        if self.steps > self.cfg.max_steps:
            raise Unsupported('more than %d steps' % self.cfg.max_steps)
        op = ins['op']
        h = getattr(self, 'i_' + op, None)
        if h is None:
            h = self.binop if op in BIN else self.cast if op in CASTS else None
            if h is None:
                raise Unsupported('instruction ' + op)
        return h(st, ins, work, cut)

    def setr(self, st, ins, v):
        st.fr.regs[ins['id']] = v
        st.fr.pc += 1

    # ---------------------------------------------------------------- instructions
    def i_alloca(self, st, ins, work, cut):
        n = self.op(st, ins['ops'][0])
        size = mul(n if is_c(n) else zext(n, n.size(), 64), ins['sz'])
        o = st.new('local of ' + self.where(st), size, 'stack')
        st.fr.allocas.append(o.id)
        self.setr(st, ins, Ptr(o.id, 0))

    def i_load(self, st, ins, work, cut):
        self.setr(st, ins, self.load(st, self.op(st, ins['ops'][0]), ins['t']))

    def i_store(self, st, ins, work, cut):
        self.store(st, self.op(st, ins['ops'][1]), self.op(st, ins['ops'][0]), ins['vt'])
        st.fr.pc += 1

    def i_getelementptr(self, st, ins, work, cut):
        p = self.op(st, ins['base'])
        if not isinstance(p, Ptr):
            p = self.int2ptr(p)
        off = add(p.off, ins['off'] & M64)
        for v, w, s in ins['var']:
            x = self.op(st, v)
            if isinstance(x, Ptr):
                x = self.ptr2int(x)
            off = add(off, mul(sext(x, w, 64), s & M64))
        self.setr(st, ins, Ptr(p.obj, off))

    def i_icmp(self, st, ins, work, cut):
        a, b = self.op(st, ins['ops'][0]), self.op(st, ins['ops'][1])
        ty = self.m.types[ins['ot']]
        p = ins['p']
        if ty['k'] == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            self.setr(st, ins, self.ptrcmp(st, p, a, b))
            return
        w = ty['w']
        if w == 1:
            a, b = bl(a), bl(b)
            if p == 'eq':
                r = simp(a == b)
            elif p == 'ne':
                r = simp(a != b)
            else:
                a, b = zext(simp(a), 1, 8), zext(simp(b), 1, 8)
                r = self.icmp(p, a, b, 8)
            self.setr(st, ins, r)
            return
        self.setr(st, ins, self.icmp(p, a, b, w))

    def icmp(self, p, a, b, w):
        if p == 'eq':
            return eq(a, b, w)
        if p == 'ne':
            return lnot(eq(a, b, w))
        if p == 'ult':
            return ult(a, b, w)
        if p == 'ule':
            return ule(a, b, w)
        if p == 'ugt':
            return ult(b, a, w)
        if p == 'uge':
            return ule(b, a, w)
        if p == 'slt':
            return slt(a, b, w)
        if p == 'sle':
            return sle(a, b, w)
        if p == 'sgt':
            return slt(b, a, w)
        if p == 'sge':
            return sle(b, a, w)
        raise Unsupported('icmp ' + p)

    def disjoint(self, st, x, y):
        """order of two distinct live objects: neither overlaps the other nor wraps around"""
        k = ('disjoint', min(x, y), max(x, y))
        if st.ghost.get(k):
            return
        st.ghost[k] = True
        ox, oy = st.obj(x), st.obj(y)
        if not (ox.alive and oy.alive):
            return
        bx, by = bv(self.ptr2int(Ptr(x, 0)), 64), bv(self.ptr2int(Ptr(y, 0)), 64)
        sx, sy = bv(ox.size, 64), bv(oy.size, 64)
        st.assume(simp(z3.And(z3.ULE(bx, bx + sx), z3.ULE(by, by + sy), z3.ULE(bx, (1 << 63) - 1), z3.ULE(by, (1 << 63) - 1), z3.Or(z3.ULE(bx + sx, by), z3.ULE(by + sy, bx)))))
        self.assumed.add('distinct live objects do not overlap in the address space')

    def ptrcmp(self, st, p, a, b):
        if not isinstance(a, Ptr):
            a = self.int2ptr(a)
        if not isinstance(b, Ptr):
            b = self.int2ptr(b)
        if a.obj == b.obj:
            # same object: compare offsets as signed displacements from its base
            if a.obj is not None and p in ('ult', 'ule', 'ugt', 'uge'):
                p = 's' + p[1:]
            return self.icmp(p, a.off, b.off, 64)
        if a.obj is not None and b.obj is not None:
            if p == 'eq':
                return False
            if p == 'ne':
                return True
            self.disjoint(st, a.obj, b.obj)
            return self.icmp(p, self.ptr2int(a), self.ptr2int(b), 64)
        raw = a if a.obj is None else b
        if is_c(raw.off) and raw.off == 0 or True:
            if p == 'eq':
                return False if is_c(raw.off) else self.icmp(p, self.ptr2int(a), self.ptr2int(b), 64)
            if p == 'ne':
                return True if is_c(raw.off) else self.icmp(p, self.ptr2int(a), self.ptr2int(b), 64)
        return self.icmp(p, self.ptr2int(a), self.ptr2int(b), 64)

    def binop(self, st, ins, work, cut):
        a, b = self.op(st, ins['ops'][0]), self.op(st, ins['ops'][1])
        ty = self.m.types[ins['t']]
        if ty['k'] != 'int':
            raise Unsupported('vector arithmetic')
        w = ty['w']
        if isinstance(a, Ptr):
            a = self.ptr2int(a)
        if isinstance(b, Ptr):
            b = self.ptr2int(b)
        op = ins['op']
        if w == 1:
            if op == 'and':
                r = land(a, b)
            elif op == 'or':
                r = lor(a, b)
            elif op in ('xor', 'add', 'sub'):
                r = (a != b) if is_c(a) and is_c(b) else simp(z3.Xor(bl(a), bl(b)))
            else:
                raise Unsupported('i1 ' + op)
            if not isinstance(r, int):
                r = simp(r)
            else:
                r = bool(r)
            self.setr(st, ins, r)
            return
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.oblige(st, lnot(eq(b, 0, w)), 'division by zero does not happen', 'arith')
            if op in ('sdiv', 'srem'):
                ok = lnot(land(eq(a, 1 << (w - 1), w), eq(b, mask(w), w)))
                self.oblige(st, ok, 'signed division does not overflow', 'arith')
                if is_c(b) and 0 < b < 1 << (w - 1) and not is_c(a) and not self.feasible(st, simp(a < 0)):
                    op = 'u' + op[1:]        # the dividend is not negative here
        if op in ('shl', 'lshr', 'ashr') and not (is_c(b) and b < w):
            self.oblige(st, ult(b, w, w), 'shift amount is below the width', 'arith')
        self.setr(st, ins, self.arith(op, a, b, w))

    def arith(self, op, a, b, w):
        m = mask(w)
        if is_c(a) and is_c(b):
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sgn(a, w) >> min(b, w - 1)) & m
            if b == 0:
                return fresh_bv('div0', w)
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv': return q & m
            if op == 'srem': return (sa - q * sb) & m
        A, B = bv(a, w), bv(b, w)
        if op in ('udiv', 'sdiv') and is_c(b) and 0 < b < 1 << (w - 1):
            q = div_exact(A, b, w)
            if q is not None:
                return q
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        elif op == 'udiv': r = z3.UDiv(A, B)
        elif op == 'urem': r = z3.URem(A, B)
        elif op == 'sdiv': r = A / B
        elif op == 'srem': r = z3.SRem(A, B)
        else: raise Unsupported(op)
        return simp(r)

    def cast(self, st, ins, work, cut):
        v = self.op(st, ins['ops'][0])
        s, d = self.m.types[ins['st']], self.m.types[ins['t']]
        op = ins['op']
        if op == 'zext':
            r = zext(v, s['w'], d['w'])
        elif op == 'sext':
            r = sext(v, s['w'], d['w'])
        elif op == 'trunc':
            if isinstance(v, Ptr):
                v = self.ptr2int(v)
            r = trunc(v, s['w'], d['w'])
        elif op == 'ptrtoint':
            r = self.ptr2int(v)
            if d['w'] < 64:
                r = trunc(r, 64, d['w'])
        elif op == 'inttoptr':
            if s['w'] < 64:
                v = zext(v, s['w'], 64)
            r = self.int2ptr(v)
        elif op == 'bitcast':
            if s['k'] == 'ptr' and d['k'] == 'ptr':
                r = v
            elif s['k'] == 'int' and d['k'] == 'int':
                r = v
            elif s['k'] == 'fp' and d['k'] == 'int':
                r = z3.fpToIEEEBV(v)
            elif s['k'] == 'int' and d['k'] == 'fp':
                r = z3.simplify(z3.fpBVToFP(bv(v, s['w']), self.fsort(d)))
            else:
                raise Unsupported('bitcast')
        elif op == 'addrspacecast':
            r = v
        else:
            RM, RZ = z3.RNE(), z3.RTZ()
            if op == 'uitofp':
                r = z3.simplify(z3.fpUnsignedToFP(RM, bv(v, s['w']), self.fsort(d)))
            elif op == 'sitofp':
                r = z3.simplify(z3.fpSignedToFP(RM, bv(v, s['w']), self.fsort(d)))
            elif op in ('fptoui', 'fptosi'):
                lo, hi = (0, 2 ** d['w']) if op == 'fptoui' else (-2 ** (d['w'] - 1), 2 ** (d['w'] - 1))
                so = self.fsort(s)
                ok = z3.And(z3.Not(z3.fpIsNaN(v)),
                            z3.fpGT(v, z3.FPVal(lo - 1, so)) if lo > -2 ** 53 else z3.fpGEQ(v, z3.FPVal(lo, so)),
                            z3.fpLT(v, z3.FPVal(hi, so)))
                self.oblige(st, simp(ok), 'float to integer conversion is in range', 'arith')
                r = (z3.fpToUBV if op == 'fptoui' else z3.fpToSBV)(RZ, v, z3.BitVecSort(d['w']))
                r = simp(r)
            elif op in ('fpext', 'fptrunc'):
                r = z3.simplify(z3.fpFPToFP(RM, v, self.fsort(d)))
            else:
                raise Unsupported(op)
        self.setr(st, ins, r)

    def fsort(self, t):
        if t['w'] == 64:
            return z3.Float64()
        if t['w'] == 32:
            return z3.Float32()
        raise Unsupported('fp width')

    def _fbin(self, st, ins, f):
        a, b = self.op(st, ins['ops'][0]), self.op(st, ins['ops'][1])
        self.setr(st, ins, z3.simplify(f(a, b)))
    def i_fadd(self, st, ins, work, cut): self._fsum(st, ins, 'add')
    def i_fsub(self, st, ins, work, cut): self._fsum(st, ins, 'sub')
    def _fsum(self, st, ins, k):
        f = z3.fpAdd if k == 'add' else z3.fpSub
        if not self.cfg.fp_lemmas:
            return self._fbin(st, ins, lambda a, b: f(z3.RNE(), a, b))
        # the sum is left uninterpreted; what is known of it are the lemmas (proved by their own harness)
        a, b = self.op(st, ins['ops'][0]), self.op(st, ins['ops'][1])
        if k == 'add' and b.get_id() < a.get_id():
            a, b = b, a                 # commutative
        r = z3.Function('fp' + k, a.sort(), a.sort(), a.sort())(a, b)
        for l in self.cfg.fp_lemmas(k, a, b, r):
            st.assume(l)
        self.setr(st, ins, r)
    def i_fmul(self, st, ins, work, cut): self._fbin(st, ins, lambda a, b: z3.fpMul(z3.RNE(), a, b))
    def i_fdiv(self, st, ins, work, cut): self._fbin(st, ins, lambda a, b: z3.fpDiv(z3.RNE(), a, b))
    def i_fneg(self, st, ins, work, cut):
        self.setr(st, ins, z3.simplify(z3.fpNeg(self.op(st, ins['ops'][0]))))

    def i_fcmp(self, st, ins, work, cut):
        a, b = self.op(st, ins['ops'][0]), self.op(st, ins['ops'][1])
        p = ins['p']
        f = {'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'eq': z3.fpEQ, 'ne': lambda x, y: z3.Not(z3.fpEQ(x, y))}
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == 'ord':
            r = z3.Not(nan)
        elif p == 'uno':
            r = nan
        elif p[0] == 'o':
            r = z3.And(z3.Not(nan), f[p[1:]](a, b))
        else:
            r = z3.Or(nan, f[p[1:]](a, b))
        self.setr(st, ins, simp(r))

    def i_select(self, st, ins, work, cut):
        c, a, b = [self.op(st, o) for o in ins['ops']]
        if is_c(c):
            self.setr(st, ins, a if c else b)
            return
        ty = self.m.types[ins['t']]
        if ty['k'] == 'int':
            self.setr(st, ins, ite(c, a, b, ty['w']))
            return
        if ty['k'] == 'ptr' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            self.setr(st, ins, Ptr(a.obj, ite(c, a.off, b.off, 64)))
            return
        self.split(st, work, [(c, lambda s: self.setr(s, ins, a)), (lnot(c), lambda s: self.setr(s, ins, b))])

    def i_freeze(self, st, ins, work, cut):
        self.setr(st, ins, self.op(st, ins['ops'][0]))

    def i_extractvalue(self, st, ins, work, cut):
        v = self.op(st, ins['ops'][0])
        for i in ins['ix']:
            v = v[i]
        self.setr(st, ins, v)

    def i_insertvalue(self, st, ins, work, cut):
        v = self.op(st, ins['ops'][0])
        x = self.op(st, ins['ops'][1])
        def put(agg, ix):
            agg = list(agg)
            agg[ix[0]] = x if len(ix) == 1 else put(agg[ix[0]], ix[1:])
            return agg
        self.setr(st, ins, put(v, ins['ix']))

    def i_fence(self, st, ins, work, cut):
        st.fr.pc += 1

    def i_atomicrmw(self, st, ins, work, cut):
        p, v = self.op(st, ins['ops'][0]), self.op(st, ins['ops'][1])
        old = self.load(st, p, ins['t'])
        w = self.m.types[ins['t']].get('w')
        rm = ins['rm']
        if rm == 'xchg':
            new = v
        elif rm in ('add', 'sub', 'and', 'or', 'xor'):
            new = self.arith(rm, old, v, w)
        else:
            raise Unsupported('atomicrmw ' + rm)
        self.store(st, p, new, ins['t'])
        self.setr(st, ins, old)

    def i_cmpxchg(self, st, ins, work, cut):
        p, e, n = [self.op(st, o) for o in ins['ops']]
        t = self.m.types[ins['t']]['elems'][0]
        old = self.load(st, p, t)
        w = self.m.types[t].get('w', 64)
        c = eq(old, e, w)
        def yes(s):
            self.store(s, p, n, t)
            self.setr(s, ins, [old, True])
        self.split(st, work, [(c, yes), (lnot(c), lambda s: self.setr(s, ins, [old, False]))])

    # control
    def i_br(self, st, ins, work, cut):
        if 'c' not in ins:
            return self.jump(st, ins['b'], work, cut)
        c = self.op(st, ins['c'])
        if is_c(c):
            return self.jump(st, ins['bt'] if c else ins['bf'], work, cut)
        t, f = self.decide(st, c)
        if t and f:
            self.loop_exit_hook(st, [ins['bt'], ins['bf']])
            s = st.clone()
            s.assume(lnot(c))
            ev = self.jump(s, ins['bf'], work, cut)
            self._pending(s, ev, work)
            st.assume(c)
            return self.jump(st, ins['bt'], work, cut)
        if t:
            return self.jump(st, ins['bt'], work, cut)
        if f:
            return self.jump(st, ins['bf'], work, cut)
        raise PathEnd('infeasible')

    def _pending(self, s, ev, work):
        if ev is not None:
            s.ghost['event'] = ev
            s.frames.append(EventFrame)
        work.append(s)

    def i_event(self, st, ins, work, cut):
        st.frames.pop()
        return st.ghost.pop('event')

    def loop_exit_hook(self, st, targets):
        """an undecided branch inside a tentatively unrolled loop, one side leaving it"""
        fr = st.fr
        loops = self.m.loops(fr.fn)
        for h in sorted(fr.loops, key=lambda h: -len(loops[h])):
            a = fr.loops[h]
            if a.mode != 'try':
                continue
            body = loops[h]
            out = [t for t in targets if t not in body]
            if not out:
                continue
            dem = self.m.fns[fr.fn]['dem']
            if any(re.search(r, dem) for r in self.cfg.unroll):
                self.loops_unrolled.add(dem.split('(')[0])
                if a.count > self.cfg.sym_unroll:
                    raise Unsupported('loop unrolled %d times on symbolic data' % a.count)
                continue
            raise LoopRestart(a)

    def i_switch(self, st, ins, work, cut):
        c = self.op(st, ins['c'])
        if is_c(c):
            for v, b in ins['cases']:
                if int(v) == c:
                    return self.jump(st, b, work, cut)
            return self.jump(st, ins['def'], work, cut)
        w = ins['w']
        alts, none = [], []
        for v, b in ins['cases']:
            alts.append((simp(c == z3.BitVecVal(int(v), w)), b))
            none.append(c != z3.BitVecVal(int(v), w))
        alts.append((z3.And(*none) if none else True, ins['def']))
        feas = [(x, b) for x, b in alts if self.feasible(st, x)]
        if len(feas) > 1:
            self.loop_exit_hook(st, [b for x, b in feas])
        for x, b in feas[1:]:
            s = st.clone()
            s.assume(x)
            ev = self.jump(s, b, work, cut)
            self._pending(s, ev, work)
        if not feas:
            raise PathEnd('infeasible')
        st.assume(feas[0][0])
        return self.jump(st, feas[0][1], work, cut)

    def i_unreachable(self, st, ins, work, cut):
        self.oblige(st, False, 'unreachable code is not reached', 'control')
        raise PathEnd('failed')

    def pop_frame(self, st):
        fr = st.frames.pop()
        for a in fr.allocas:
            st.obj(a, True).alive = False
        return fr

    def i_ret(self, st, ins, work, cut):
        v = self.op(st, ins['ops'][0]) if ins['ops'] else None
        uid = st.fr.uid
        fr = self.pop_frame(st)
        if not st.frames:
            return 'end'
        ex = cut is not None and uid == cut['uid']
        if fr.onret is not None:
            v = fr.onret(st, v)
        ci = fr.call
        if 'id' in ci:
            st.fr.regs[ci['id']] = v
        if ci['op'] == 'invoke':
            ev = self.jump(st, ci['nd'], work, cut)
            if ev is not None:
                return ev
        else:
            st.fr.pc += 1
        if ex:
            return 'exit'
        return None

    # calls
    def i_call(self, st, ins, work, cut):
        return self.do_call(st, ins, work, cut)
    def i_invoke(self, st, ins, work, cut):
        return self.do_call(st, ins, work, cut)

    def ret(self, st, ins, v, work, cut):
        """return of a modelled call"""
        if 'id' in ins:
            st.fr.regs[ins['id']] = v
        if ins['op'] == 'invoke':
            return self.jump(st, ins['nd'], work, cut)
        st.fr.pc += 1
        return None

    def do_call(self, st, ins, work, cut):
        f = self.op(st, ins['f']) if ins['f'][0] != 'asm' else None
        if f is None:
            return self.ret(st, ins, None, work, cut)
        if f.obj is None:
            self.oblige(st, False, 'call through a null or wild function pointer', 'memory')
            raise PathEnd('failed')
        o = st.obj(f.obj)
        if o.kind != 'fn':
            if o.kind == 'ext':
                raise Unsupported('call into external object %s' % o.name)
            self.oblige(st, False, 'call through a bad function pointer (%s)' % o.name, 'memory')
            raise PathEnd('failed')
        name = o.fn
        args = [self.op(st, a) if t >= 0 else None for a, t in zip(ins['args'], ins['at'])]
        return self.call_fn(st, ins, name, args, work, cut)

    def model_for(self, name, dem):
        h = self.mc.get(name, 0)
        if h != 0:
            return h
        h = None
        for r, x in self.cfg.models.items():
            if re.search(r, name) or re.search(r, dem):
                h = x
                break
        if h is None:
            h = self.models.lookup(name, dem, self.m.fns[name]['decl'])
        self.mc[name] = h
        return h

    def call_fn(self, st, ins, name, args, work, cut):
        fn = self.m.fns[name]
        dem = fn['dem']
        for r, target in self.cfg.contracts.items():
            if re.search(r, dem) and not name.startswith('vcc_') and not any(f.fn == target for f in st.frames if isinstance(f, Frame)) :
                if name != st.ghost.get('under_proof'):
                    self.used_contracts.add(dem)
                    name = target
                    fn = self.m.fns[name]
                    break
        h = self.model_for(name, dem)
        if h is not None:
            return h(self, st, ins, args, work, cut)
        if fn['decl']:
            raise Unsupported('external function %s' % dem)
        if len(st.frames) > 120:
            raise Unsupported('recursion')
        self.inlined.add(dem)
        fr = Frame(name)
        fr.call = ins
        bvs = ins.get('bv')
        for i, a in enumerate(args[:len(fn['args'])]):
            if bvs and bvs[i]:
                o = st.new('byval', bvs[i], 'stack')
                fr.allocas.append(o.id)
                src = st.obj(a.obj)
                mem.copy(o, 0, src, a.off, bvs[i], st)
                a = Ptr(o.id, 0)
            fr.regs[i] = a
        st.frames.append(fr)
        return None

    # exceptions
    def throw(self, st, obj, ti, work, cut):
        st.exc = (obj, ti)
        return self.unwind(st, work, cut)

    def typeid(self, g):
        if g not in self.typeids:
            self.typeids[g] = len(self.typeids) + 2
        return self.typeids[g]

    def bases_of(self, ti):
        """type infos a thrown type converts to"""
        res, todo = [], [ti]
        while todo:
            t = todo.pop()
            if t in res:
                continue
            res.append(t)
            g = self.m.globals.get(t)
            if g and 'init' in g and g['init'][0] == 'a':
                for e in g['init'][2][2:]:
                    if e[0] == 'g' and e[1].startswith('_ZTI'):
                        todo.append(e[1])
        return res

    def unwind(self, st, work, cut):
        """propagate st.exc to the nearest handler"""
        obj, ti = st.exc
        cutleft = False
        while True:
            fr = self.pop_frame(st)
            if cut is not None and fr.uid == cut['uid']:
                cutleft = True
            if not st.frames:
                self.last_uncaught = ti
                if st.ghost.get('may_throw'):
                    return 'end'
                st.frames.append(fr)
                self.oblige(st, False, 'no uncaught exception (%s)' % ti, 'exception')
                raise PathEnd('failed')
            ci = fr.call
            if ci is None or ci['op'] != 'invoke':
                continue
            ub = ci['ud']
            blk = self.m.fns[st.fr.fn]['blocks'][ub]
            lp = next((i for i in blk if i['op'] == 'landingpad'), None)
            if lp is None:
                continue
            if not lp['cleanup'] and self.selector(lp, ti) is None:
                continue
            ev = self.jump(st, ub, work, cut)
            if ev is not None:
                return ev
            return 'exit' if cutleft else None

    def throw_here(self, st, obj, ti, work, cut, ins):
        """exception raised by the call instruction `ins` of the current frame"""
        st.exc = (obj, ti)
        if ins['op'] == 'invoke':
            ub = ins['ud']
            blk = self.m.fns[st.fr.fn]['blocks'][ub]
            lp = next((i for i in blk if i['op'] == 'landingpad'), None)
            if lp is not None and (lp['cleanup'] or self.selector(lp, ti) is not None):
                return self.jump(st, ub, work, cut)
        return self.unwind(st, work, cut)

    def selector(self, lp, ti):
        bs = self.bases_of(ti) if ti else []
        for k, c in lp['cl']:
            if k != 'catch':
                continue
            if c[0] == 'n':
                return 1
            if c[0] == 'g' and c[1] in bs:
                return self.typeid(c[1])
        return None

    def i_landingpad(self, st, ins, work, cut):
        obj, ti = st.exc
        s = self.selector(ins, ti)
        self.setr(st, ins, [obj, s if s is not None else 0])

    def i_resume(self, st, ins, work, cut):
        return self.unwind(st, work, cut)

    # ---------------------------------------------------------------- loops
    def cut_loop(self, st, hdr, work, cut):
        import loops
        return loops.cut_loop(self, st, hdr, work, cut)

class _EF:
    """pseudo frame carrying a pending event"""
    fn = '__event'
    bb = 0
    pc = 0
    uid = -1
    allocas = ()
    loops = {}
    call = None
    def clone(self):
        return self
EventFrame = _EF()

def ubound(e):
    """syntactic upper bound of a bit-vector term (unsigned)"""
    top = (1 << e.size()) - 1
    if z3.is_bv_value(e):
        return e.as_long()
    k = e.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        hi = e.arg(0)
        if z3.is_bv_value(hi) and hi.as_long() == 0:
            return min(top, (1 << (e.size() - hi.size())) - 1)
    elif k == z3.Z3_OP_ZERO_EXT:
        return ubound(e.arg(0))
    elif k == z3.Z3_OP_BMUL:
        p = 1
        for i in range(e.num_args()):
            p *= ubound(e.arg(i))
        return min(top, p)
    elif k == z3.Z3_OP_BADD:
        return min(top, sum(ubound(e.arg(i)) for i in range(e.num_args())))
    elif k == z3.Z3_OP_ITE:
        return max(ubound(e.arg(1)), ubound(e.arg(2)))
    return top

def div_exact(A, b, w):
    """(c * b * x) / b where the product cannot wrap"""
    if A.decl().kind() != z3.Z3_OP_BMUL or A.num_args() != 2 or not z3.is_bv_value(A.arg(0)):
        return None
    c, x = A.arg(0).as_long(), A.arg(1)
    if c % b or c * ubound(x) >= 1 << (w - 1):
        return None
    return simp(z3.BitVecVal(c // b, w) * x)

BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fpext', 'fptrunc'}
EVENT_FN = {'name': '__event', 'dem': '__event', 'blocks': [[{'op': 'event'}]], 'decl': False, 'args': [], 'ret': 0, 'nreg': 0}
