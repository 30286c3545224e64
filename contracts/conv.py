import z3
from values import *
F = z3.Float64()
def nearest(eng, st, d, v):
    """d is the double nearest to the unsigned integer v"""
    return d == z3.fpUnsignedToFP(z3.RNE(), bv(v, 64), F)
def truncates(eng, st, d, r):
    """r is a double exactly, and it is d rounded toward zero"""
    r = bv(r, 64)
    up, dn = z3.fpUnsignedToFP(z3.RTP(), r, F), z3.fpUnsignedToFP(z3.RTN(), r, F)
    return z3.And(z3.fpEQ(up, dn), z3.fpEQ(up, z3.fpRoundToIntegral(z3.RTZ(), d)))
def config(cfg):
    cfg.spec = {'nearest': nearest, 'truncates': truncates}
    cfg.timeout = 60000
