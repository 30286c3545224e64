"""Loop cuts: a loop whose exit depends on symbolic data is verified with an inductive invariant.
The invariant has three parts: induction variables found automatically (each is verified, not
assumed), bound candidates filtered Houdini-style, and the contract's own invariant clauses."""
import z3
from values import *
import mem
from mem import fresh_bv, fresh_name, node_array, Node
from engine import PathEnd, Unsupported, LoopAct, EventFrame

class View:
    """one loop-head state as seen by an invariant clause"""
    def __init__(self, eng, st, vals, k, lc):
        self.eng, self.st, self.vals, self.k, self.lc = eng, st, vals, k, lc
    def K(self):
        return bv(self.k, 64)
    def ptrs(self, objname):
        """offsets of the loop's pointer variables into the object with that name"""
        r = []
        for key, v in self.vals.items():
            if isinstance(v, Ptr) and v.obj is not None and self.eng_obj(v.obj).name == objname:
                r.append(bv(v.off, 64))
        return r
    def eng_obj(self, i):
        return self.st.obj(i)
    def ints(self, w=None):
        r = []
        for key, v in self.vals.items():
            if not isinstance(v, Ptr) and (is_c(v) or z3.is_bv(v)):
                ww = self.lc.widths.get(key)
                if w is None or ww == w:
                    r.append((key, bv(v, ww)))
        return r
    def at(self, ghost, n):
        p = self.st.ghost[ghost]
        v = mem.read(self.st.obj(p.obj), p.off, n, self.st)
        return v if isinstance(v, Ptr) else bv(v, 8 * n)
    def byte(self, objname, i):
        o = self.lc.find(self.st, objname)
        return bv(mem.peek(o, i, self.st), 8)
    def word(self, objname, off, n):
        o = self.lc.find(self.st, objname)
        return bv(mem.read(o, off, n, self.st), 8 * n)

class LoopCtx:
    def __init__(self, eng, entry, fn, hdr):
        self.eng, self.entry, self.fn, self.hdr = eng, entry, fn, hdr
        self.dem = eng.m.fns[fn]['dem']
        self.widths = {}
        self.defs = []
        self.ghost = entry.ghost
    def find(self, st, name):
        for i in list(st.mem):
            if st.mem[i].name == name and st.mem[i].alive:
                return st.obj(i)
        return None

def _rep_value(eng, key, rep, v0, k, w):
    """value at iteration k under a representation"""
    kind = rep[0]
    if kind == 'const':
        return v0
    if isinstance(v0, Ptr):
        if kind == 'aff':
            return Ptr(v0.obj, add(v0.off, mul(k, rep[1])))
        if rep[1] is None:
            rep[1] = fresh_bv('lp', 64)
        return Ptr(v0.obj, rep[1])
    if kind == 'aff':
        kk = trunc(k, 64, w) if w < 64 else k
        return add(v0, mul(kk, rep[1], w), w)
    if rep[1] is None:
        if w == 'fp':
            rep[1] = z3.FP(fresh_name('lv'), v0.sort())
        else:
            rep[1] = fresh_bv('lv', w) if w > 1 else z3.Bool(fresh_name('lv'))
    return rep[1]

def ceq(want, have):
    """content clause: exact value, or (condition, value) leaving the byte free otherwise"""
    if isinstance(want, tuple):
        e = eq(want[1], have, 8)
        return simp(z3.Implies(want[0], bl(e)))
    return eq(want, have, 8)

def _width(v, w=None):
    if isinstance(v, Ptr):
        return 'ptr'
    if w is not None:
        return w
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return 1
    if z3.is_expr(v) and z3.is_fp(v):
        return 'fp'
    return v.size()

def cut_loop(eng, entry, hdr, work, outer):
    fr = entry.fr
    fn = fr.fn
    fnd = eng.m.fns[fn]
    blk = fnd['blocks'][hdr]
    phis = [i for i in blk if i['op'] == 'phi']
    lc = LoopCtx(eng, entry, fn, hdr)
    e0 = entry.clone()
    eng.phis(e0)
    v0, reps = {}, {}
    lc.v0 = v0
    def width_of(ins):
        ty = eng.m.types[ins['t']]
        return ty['w'] if ty['k'] == 'int' else 'ptr' if ty['k'] == 'ptr' else 'fp'
    for p in phis:
        key = ('phi', p['id'])
        v0[key] = e0.fr.regs[p['id']]
        lc.widths[key] = width_of(p)
        if lc.widths[key] == 'ptr' and not isinstance(v0[key], Ptr):
            v0[key] = eng.int2ptr(v0[key])
        reps[key] = ['probe', None]
    ranges = {}          # object id -> content callback or None (free)
    kw = eng.cfg.kwidth
    k = fresh_bv('k', 64) if kw is None else z3.ZeroExt(64 - kw, fresh_bv('k', kw))
    uid = fr.uid
    line = next((i.get('ln') for i in blk if i.get('ln')), None)
    dem = fnd['dem'].split('(')[0]
    eng.loops_cut[(dem, hdr)] = True
    known = set(entry.mem)

    def set_vals(s, kk, rr):
        vals = {}
        for key in reps:
            v = _rep_value(eng, key, rr[key], v0[key], kk, lc.widths[key])
            vals[key] = v
        return vals

    def make(kk):
        s = entry.clone()
        s.fr.pc = len(phis)
        vals = set_vals(s, kk, reps)
        for key, v in vals.items():
            if key[0] == 'phi':
                s.fr.regs[key[1]] = v
            elif reps[key][0] != 'const':
                o = s.obj(key[1], True)
                mem.write(o, key[2], key[3], v, s)
        for oid, content in ranges.items():
            o = s.obj(oid, True)
            if content is None:
                o.cells = {}
                o.chain = node_array('havoc_' + o.name.replace(' ', '_'))
        view = View(eng, s.clone(), vals, kk, lc)
        for oid, content in ranges.items():
            if content is not None:
                o = s.obj(oid, True)
                mem.flush(o, s)
                old = o.chain
                free = node_array('free_' + o.name.replace(' ', '_'))
                def ov(i, prev, c=content, v=view, old=old, free=free):
                    r = c(v, i, lambda j: mem.read_byte(old, j))
                    if isinstance(r, tuple):
                        r = simp(z3.If(r[0], bv(r[1], 8), bv(mem.read_byte(free, i), 8)))
                    return fold(r)
                o.chain = Node('ov', ov, prev=old)
        # later cells must survive: rewrite scalar cells on top of the havocked content
        for key, v in vals.items():
            if key[0] == 'cell' and key[1] in ranges:
                mem.write(s.obj(key[1], True), key[2], key[3], v, s)
        return s, view

    def after(s):
        """values of the loop locations at the back edge"""
        eng.phis(s)
        vals = {}
        for key in reps:
            if key[0] == 'phi':
                v = s.fr.regs[key[1]]
                if lc.widths[key] == 'ptr' and not isinstance(v, Ptr):
                    v = eng.int2ptr(v)
            else:
                o = s.obj(key[1])
                v = mem.read(o, key[2], key[3], s)
                if lc.widths[key] == 'ptr' and not isinstance(v, Ptr):
                    v = eng.int2ptr(v)
                elif isinstance(v, Ptr) and lc.widths[key] != 'ptr':
                    v = eng.ptr2int(v)
            vals[key] = v
        return vals

    def same(a, b, w):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                return False
            return eq(a.off, b.off)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return False
        if w == 1:
            return (bool(a) == bool(b)) if is_c(a) and is_c(b) else simp(bl(a) == bl(b))
        if w == 'fp':
            return simp(a == b)
        return eq(a, b, w)

    def delta(a, b, w):
        if isinstance(a, Ptr):
            if not isinstance(b, Ptr) or a.obj != b.obj:
                return None
            return sub(a.off, b.off)
        if w in (1, 'fp'):
            return None
        return sub(a, b, w)

    cut = {'uid': uid, 'hdr': hdr}
    # invariant clauses of the contract and bound candidates
    clauses, cands = [], None
    def bounds():
        bs = []
        if eng.cfg.bounds:
            bs += list(eng.cfg.bounds(entry))
        for key, v in v0.items():
            if isinstance(v, Ptr):
                if v.obj is not None:
                    bs.append(entry.obj(v.obj).size)
            elif lc.widths[key] in (32, 64):
                bs.append(zext(v, lc.widths[key], 64))
        for key in fr.regs:
            v = fr.regs[key]
            if not isinstance(v, (Ptr, list, tuple)) and v is not None and not is_c(v) and z3.is_bv(v) and v.size() in (32, 64):
                bs.append(zext(v, v.size(), 64))
            elif isinstance(v, Ptr) and v.obj is not None and not is_c(v.off):
                bs.append(v.off)
        uniq, seen = [], set()
        for b in bs:
            b = simp(b) if not is_c(b) else b
            kk = b if is_c(b) else b.get_id()
            if kk not in seen:
                seen.add(kk)
                uniq.append(b)
        return uniq[:14]

    def mk_cands():
        out = []
        if not eng.cfg.auto_cands:
            return out
        bs = bounds()
        for key in [('k',)] + list(reps):
            if key != ('k',) and reps[key][0] == 'const':
                continue
            w = 64 if key == ('k',) else lc.widths[key]
            if w in (1, 'fp') or (w != 'ptr' and w < 8):
                continue
            for b in bs:
                for rel in ('ule', 'uge') if key == ('k',) or w != 'ptr' else ('ule', 'uge', 'sle'):
                    if key == ('k',) and rel != 'ule':
                        continue
                    def f(view, key=key, b=b, rel=rel, w=w):
                        v = view.k if key == ('k',) else view.vals[key]
                        if isinstance(v, Ptr):
                            v = v.off
                        elif w != 64 and key != ('k',):
                            v = zext(v, w, 64)
                        return {'ule': ule, 'sle': sle, 'uge': lambda a, b: ule(b, a)}[rel](v, b)
                    out.append((key, f))
        return out

    def entails(s, c):
        if isinstance(c, int):
            return bool(c)
        if eng.cfg.table_lin and eng.gf2(s, c):
            return True
        r, _ = eng.check(s, [z3.Not(c)], 10000)
        return r == 'unsat'

    def entry_view():
        s = entry.clone()
        s.fr.pc = len(phis)
        for key in v0:
            if key[0] == 'phi':
                s.fr.regs[key[1]] = v0[key]
        return View(eng, s, dict(v0), 0, lc), s

    user = None
    for rnd in range(40):
        changed = False
        # filter new candidates at the entry
        if cands is None:
            ev, es = entry_view()
            cands = [(key, f) for key, f in mk_cands() if entails(es, f(ev))]
        s, view = make(k)
        s.quiet = True
        s.log = []
        log = s.log
        s.fr.loops = dict(s.fr.loops)
        act = LoopAct('inv')
        act.cut = cut
        s.fr.loops[hdr] = act
        for d in lc.defs:
            s.assume(d)
        for key, f in cands:
            s.assume(f(view))
        if user:
            for nm, f in user:
                s.assume(f(view))
        if user is not None:
            for d in (eng.cfg.loop_defs(lc, view) if getattr(eng.cfg, 'loop_defs', None) else []):
                s.assume(d)
        backs = []
        for evn, t in eng.explore([s], cut):
            if evn == 'backedge':
                backs.append(t)
        # memory written by the body
        for oid, off, n in log:
            if oid is None or (oid not in known and oid not in eng.gobj):
                continue
            o = entry.obj(oid)
            if oid in ranges:
                continue
            if is_c(off) and is_c(n) and n <= 16 and n in (1, 2, 4, 8):
                key = ('cell', oid, off, n)
                if key in reps:
                    continue
                over = [x for x in reps if x[0] == 'cell' and x[1] == oid and x[2] < off + n and off < x[2] + x[3]]
                if over:
                    for x in over:
                        del reps[x], v0[x]
                    ranges[oid] = None
                else:
                    v = mem.read(entry.obj(oid, True), off, n, entry)
                    v0[key] = v
                    if isinstance(v, bool):
                        v0[key] = int(v)
                    lc.widths[key] = 'ptr' if isinstance(v, Ptr) else 'fp' if (z3.is_expr(v) and z3.is_fp(v)) else n * 8
                    reps[key] = ['probe', None]
                changed = True
            else:
                ranges[oid] = None
                for x in [x for x in reps if x[0] == 'cell' and x[1] == oid]:
                    pass
                changed = True
        if changed:
            cands = None
            continue
        avs = [(t, after(t)) for t in backs]
        # induction variables
        for key in list(reps):
            rep, w = reps[key], lc.widths[key]
            cur = view.vals[key]
            if rep[0] == 'const':
                bad = False
                for t, av in avs:
                    c = same(av[key], cur, w)
                    if c is True or (c is not False and entails(t, c)):
                        continue
                    bad = True
                if bad:
                    if w == 'ptr' and any(not isinstance(av[key], Ptr) or av[key].obj != v0[key].obj for t, av in avs):
                        raise Unsupported('loop pointer changes object in ' + dem)
                    ds = []
                    for t, av in avs:
                        d = delta(av[key], cur, w)
                        ds.append(d)
                    reps[key] = ['probe', None]
                    changed = True
            elif rep[0] == 'probe':
                ds = []
                for t, av in avs:
                    if w == 'ptr' and (not isinstance(av[key], Ptr) or av[key].obj != v0[key].obj):
                        raise Unsupported('loop pointer changes object in ' + dem)
                    ds.append(delta(av[key], cur, w))
                if ds and all(d is not None and is_c(d) and d == ds[0] for d in ds):
                    reps[key] = ['aff', ds[0]] if ds[0] else ['const']
                elif not ds:
                    reps[key] = ['const']
                else:
                    reps[key] = ['free', None]
                changed = True
            elif rep[0] == 'aff':
                ww = 64 if w == 'ptr' else w
                nxt = _rep_value(eng, key, rep, v0[key], add(k, 1), w)
                for t, av in avs:
                    c = same(av[key], nxt, w)
                    if not (c is True or (c is not False and entails(t, c))):
                        reps[key] = ['free', None]
                        changed = True
                        break
        if changed:
            # reps became weaker: fresh symbols, candidates are rebuilt
            for key in reps:
                if reps[key][0] in ('free', 'probe'):
                    reps[key][1] = None
            cands = None
            user = None
            continue
        # the contract's clauses, once the shape of the loop is known
        if user is None:
            user = []
            if eng.cfg.loop_inv:
                got = eng.cfg.loop_inv(lc, view, sorted(entry.obj(o).name for o in ranges)) or {}
                user = got.get('inv', [])
                ev, es = entry_view()
                cands += [(('user',), f) for f in got.get('cand', []) if entails(es, simp(f(ev)))]
                cands += [(('k',), f) for f in got.get('kbound', []) if entails(es, simp(f(ev)))]
                for oid in list(ranges):
                    f = got.get('content', {}).get(entry.obj(oid).name)
                    if f is not None:
                        ranges[oid] = f
                        for x in [x for x in reps if x[0] == 'cell' and x[1] == oid and lc.widths[x] != 'ptr' and reps[x][0] == 'free']:
                            del reps[x], v0[x]      # the clause speaks for these bytes
                            cands = [c for c in cands if c[0] != x]
                changed = any(got.get(x) for x in ('inv', 'cand', 'content', 'kbound'))
            if changed:
                for key in reps:
                    if reps[key][0] == 'free':
                        reps[key][1] = None
                continue
        # Houdini on the bound candidates: each model drops every candidate it falsifies
        drop = set()
        for t, av in avs:
            va = View(eng, t, av, add(k, 1), lc)
            live = []
            for i, (key, f) in enumerate(cands):
                if i in drop:
                    continue
                c = f(va)
                if isinstance(c, int):
                    if not c:
                        drop.add(i)
                elif not (eng.cfg.table_lin and key == ('user',) and eng.gf2(t, c)):
                    live.append((i, c))
            while live:
                r, m = eng.check(t, [z3.Or(*[z3.Not(c) for i, c in live])], 10000)
                if r == 'unsat':
                    break
                if r == 'sat':
                    bad = {i for i, c in live if not z3.is_true(m.eval(c, model_completion=True))}
                    drop |= bad
                    live = [x for x in live if x[0] not in bad]
                    if not bad:
                        r = 'unknown'
                if r != 'sat':
                    drop |= {i for i, c in live if not entails(t, c)}
                    break
        if drop:
            if eng.cfg.dump: print("DROP", [(i, cands[i][0], str(simp(cands[i][1](av)))[:300]) for i in drop])
            cands = [c for i, c in enumerate(cands) if i not in drop]
            continue
        break
    else:
        raise Unsupported('no inductive loop invariant shape for ' + dem)

    if eng.cfg.dump: print('LOOP', dem, hdr, {k: r[0] for k, r in reps.items()}, 'cands', [(key) for key, f in cands], 'ranges', list(ranges))
    # obligations: the invariant holds on entry ...
    tag = '%s loop' % dem
    ev, es = entry_view()
    es.quiet = entry.quiet
    if user:
        for nm, f in user:
            eng.oblige(es, simp(f(ev)), '%s: invariant "%s" holds on entry' % (tag, nm), 'loop-entry')
    for oid, content in ranges.items():
        if content is not None:
            o = es.obj(oid, True)
            mem.flush(o, es)
            old = o.chain
            j = fresh_bv('j', 64)
            es2 = es.clone()
            es2.assume(z3.ULT(j, bv(o.size, 64)))
            c = ceq(content(ev, j, lambda x: mem.read_byte(old, x)), mem.read_byte(old, j))
            eng.oblige(es2, c, '%s: content of %s on entry' % (tag, o.name), 'loop-entry')
    if eng.cfg.termination and not any(key == ('k',) for key, f in cands) and backs:
        eng.nterm.add(dem)
        if not entry.quiet:
            eng.oblige(es, False, '%s: iteration count has a bound (termination)' % tag, 'termination')
    # ... and is preserved
    s, view = make(k)
    s.quiet = entry.quiet
    s.log = entry.log
    act = LoopAct('inv')
    act.cut = cut
    s.fr.loops = dict(s.fr.loops)
    s.fr.loops[hdr] = act
    for d in lc.defs:
        s.assume(d)
    for key, f in cands:
        s.assume(f(view))
    for nm, f in user:
        s.assume(f(view))
    for d in (eng.cfg.loop_defs(lc, view) if getattr(eng.cfg, 'loop_defs', None) else []):
        s.assume(d)
    oldchains = {}
    entryold = {}
    for oid, content in ranges.items():
        if content is not None:
            o = entry.obj(oid, True)
            mem.flush(o, entry)
            entryold[oid] = o.chain
    # writes of the loop count as writes of an enclosing loop
    if entry.log is not None:
        for oid in ranges:
            entry.log.append((oid, fresh_bv('any', 64), 1))
        for key in reps:
            if key[0] == 'cell':
                entry.log.append((key[1], key[2], key[3]))
    for evn, t in eng.explore([s], cut):
        if evn == 'backedge':
            av = after(t)
            va = View(eng, t, av, add(k, 1), lc)
            for key in reps:
                if reps[key][0] in ('const', 'aff'):
                    nxt = _rep_value(eng, key, reps[key], v0[key], add(k, 1), lc.widths[key])
                    c = same(av[key], nxt, lc.widths[key])
                    eng.oblige(t, c, '%s: induction variable advances as stated' % tag, 'loop-step')
            for key, f in cands:
                eng.oblige(t, f(va), '%s: bound is preserved' % tag, 'loop-step')
            if kw is not None:
                eng.oblige(t, ult(add(k, 1), 1 << kw), '%s: iteration count fits its width' % tag, 'loop-step')
            for nm, f in user:
                eng.oblige(t, simp(f(va)), '%s: invariant "%s" is preserved' % (tag, nm), 'loop-step')
            for oid, content in ranges.items():
                if content is None:
                    continue
                o = t.obj(oid, True)
                mem.flush(o, t)
                old = lambda x, oid=oid: mem.read_byte(entryold[oid], x)
                # every byte the iteration wrote, then every byte it did not write
                offs, node, plain = [], o.chain, True
                while node.k != 'ov':
                    if node.k != 'st':
                        plain = False
                        break
                    offs += [add(node.a, b) for b in range(node.b)]
                    node = node.prev
                j = fresh_bv('j', 64)
                if plain:
                    for x in offs:
                        c = ceq(content(va, x, old), mem.read_byte(o.chain, x))
                        eng.oblige(t, c, '%s: byte written to %s is as stated' % (tag, o.name), 'loop-step')
                    t2 = t.clone()
                    t2.assume(z3.ULT(j, bv(o.size, 64)))
                    for x in offs:
                        t2.assume(j != bv(x, 64))
                    c = ceq(content(va, j, old), mem.read_byte(node, j))
                    eng.oblige(t2, c, '%s: rest of %s is as stated' % (tag, o.name), 'loop-step')
                else:
                    t2 = t.clone()
                    t2.assume(z3.ULT(j, bv(o.size, 64)))
                    c = ceq(content(va, j, old), mem.read_byte(o.chain, j))
                    eng.oblige(t2, c, '%s: content of %s is as stated' % (tag, o.name), 'loop-step')
            for oid in known:
                if entry.mem[oid].alive and not t.mem[oid].alive:
                    raise Unsupported('object freed inside a loop')
        elif evn in ('exit', 'end', 'stray'):
            t.log = entry.log
            if evn == 'end':
                t.ghost['event'] = 'end'
                t.frames.append(EventFrame)
            elif outer is not None and t.frames[-1] is not EventFrame and _exited(t, outer):
                t.ghost['event'] = 'exit'
                t.frames.append(EventFrame)
            work.append(t)

def _exited(t, cut):
    for f in t.frames:
        if f.uid == cut['uid']:
            a = f.loops.get(cut['hdr'])
            return a is None or a.cut is not cut
    return True
