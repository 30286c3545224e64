import os, sys, importlib.util
_s = importlib.util.spec_from_file_location('text_plug', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'text.py'))
text = importlib.util.module_from_spec(_s); _s.loader.exec_module(text)
import z3, mem, engine as E
from values import *

def sprintf(eng, st, ins, a, work, cut):
    """assumed: writes the decimal text of a non-negative number and a terminator; one path for every length"""
    f = text.cstr(eng, st, a[1])
    eng.oblige(st, f in ('%ld', '%lu'), 'number format %s is that of a 64-bit number' % f, 'contract')
    eng.access(st, a[0], 21, 'sprintf')
    v = a[2]
    if f == '%ld':
        eng.oblige(st, bl(lnot(slt0(v))), 'the number is not negative', 'contract')
    alts = []
    for d in range(1, 21):
        lo, hi = (0 if d == 1 else 10 ** (d - 1)), min(10 ** d - 1, M64)
        c = land(ule(lo, v), ule(v, hi))
        if is_c(c) and not c:
            continue
        if not is_c(c) and not eng.feasible(st, simp(c)):
            continue
        alts.append((d, c))
    for n, (d, c) in enumerate(alts):
        s = st.clone() if n + 1 < len(alts) else st
        if not is_c(c):
            s.assume(simp(c))
        o = s.obj(a[0].obj, True)
        for k in range(d):
            mem.write(o, add(a[0].off, d - 1 - k), 1, trunc(add(48, eng.arith('urem', eng.arith('udiv', v, 10 ** k, 64), 10, 64)), 64, 8), s)
        mem.write(o, add(a[0].off, d), 1, 0, s)
        if s is st:
            return eng.ret(s, ins, d, work, cut)
        eng.ret(s, ins, d, work, cut)
        work.append(s)
    raise E.PathEnd('infeasible')
def slt0(v):
    return sgn(v, 64) < 0 if is_c(v) else simp(bv(v, 64) < 0)

def config(cfg):
    cfg.auto_cands = False
    cfg.unroll = ['']
    cfg.contracts = {r'mgexception::mgexception\(int, char const\*, int\)$': 'vcc_exc', r'mgexception::~mgexception\(\)$': 'vcc_exc_dtor'}
    cfg.models = {r'^sprintf$': sprintf}

def per_harness(h, cfg):
    if h == 'h_text':
        cfg.contracts[r'HundredNano::ToString\(\)$'] = 'vcc_tostring'
    if h == 'h_string':
        for f, c in (('H', 'h'), ('M', 'm'), ('S', 's'), ('ML', 'ml')):
            cfg.contracts[r'HundredNano::%s\(\)$' % f] = 'vcc_' + c
