"""Values of the symbolic semantics: machine ints are Python ints or z3 bit-vectors, i1 is
bool or z3 Bool, pointers are (object, offset), doubles are z3 FP terms."""
import z3

class Unsupported(Exception):
    pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off):
        self.obj = obj          # None for a raw address, else object id
        self.off = off          # int (mod 2^64) or BV64
    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

NULL = Ptr(None, 0)
M64 = (1 << 64) - 1

def is_c(x):
    return isinstance(x, int)          # bool is an int as well

def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    return x

def bl(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(bool(x))
    return x

def simp(e):
    """z3 term -> python constant when it folds, otherwise the simplified term"""
    if isinstance(e, (int, Ptr)):
        return e
    e = z3.simplify(e, bv_le2extract=False)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e

def fold(e):
    """cheap fold (no rewriting)"""
    if isinstance(e, int):
        return e
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e

def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x

def mask(w):
    return (1 << w) - 1

def add(a, b, w=64):
    if is_c(a) and is_c(b):
        return (a + b) & mask(w)
    if is_c(b) and b == 0:
        return a
    if is_c(a) and a == 0:
        return b
    return simp(bv(a, w) + bv(b, w))

def sub(a, b, w=64):
    if is_c(a) and is_c(b):
        return (a - b) & mask(w)
    if is_c(b) and b == 0:
        return a
    return simp(bv(a, w) - bv(b, w))

def mul(a, b, w=64):
    if is_c(a) and is_c(b):
        return (a * b) & mask(w)
    if is_c(b) and b == 1:
        return a
    if is_c(a) and a == 1:
        return b
    return simp(bv(a, w) * bv(b, w))

def eq(a, b, w=64):
    if is_c(a) and is_c(b):
        return (a & mask(w)) == (b & mask(w))
    return simp(bv(a, w) == bv(b, w))

def ult(a, b, w=64):
    if is_c(a) and is_c(b):
        return a < b
    return simp(z3.ULT(bv(a, w), bv(b, w)))

def ule(a, b, w=64):
    if is_c(a) and is_c(b):
        return a <= b
    return simp(z3.ULE(bv(a, w), bv(b, w)))

def slt(a, b, w=64):
    if is_c(a) and is_c(b):
        return sgn(a, w) < sgn(b, w)
    return simp(bv(a, w) < bv(b, w))

def sle(a, b, w=64):
    if is_c(a) and is_c(b):
        return sgn(a, w) <= sgn(b, w)
    return simp(bv(a, w) <= bv(b, w))

def land(*xs):
    out = []
    for x in xs:
        if isinstance(x, int):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)

def lor(*xs):
    out = []
    for x in xs:
        if isinstance(x, int):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)

def lnot(x):
    if isinstance(x, int):
        return not x
    return z3.Not(x)

def ite(c, a, b, w):
    if isinstance(c, int):
        return a if c else b
    if w == 1:
        if is_c(a) and is_c(b):
            if bool(a) == bool(b):
                return bool(a)
        return simp(z3.If(c, bl(a), bl(b)))
    if is_c(a) and is_c(b) and a == b:
        return a
    return fold(z3.If(c, bv(a, w), bv(b, w)))

def zext(x, f, t):
    if f == t:
        return x
    if f == 1:
        if is_c(x):
            return 1 if x else 0
        return z3.If(x, z3.BitVecVal(1, t), z3.BitVecVal(0, t))
    if is_c(x):
        return x
    return z3.ZeroExt(t - f, x)

def sext(x, f, t):
    if f == t:
        return x
    if f == 1:
        if is_c(x):
            return mask(t) if x else 0
        return z3.If(x, z3.BitVecVal(mask(t), t), z3.BitVecVal(0, t))
    if is_c(x):
        return sgn(x, f) & mask(t)
    return z3.SignExt(t - f, x)

def trunc(x, f, t):
    if f == t:
        return x
    if t == 1:
        if is_c(x):
            return bool(x & 1)
        return simp(z3.Extract(0, 0, x) == z3.BitVecVal(1, 1))
    if is_c(x):
        return x & mask(t)
    return simp(z3.Extract(t - 1, 0, x))

def bytes_of(val, n, w=None):
    """little-endian list of n byte values of an n*8-bit (or narrower) integer"""
    if isinstance(val, bool):
        val = int(val)
    if is_c(val):
        return [(val >> (8 * i)) & 255 for i in range(n)]
    if isinstance(val, z3.BoolRef):
        val = z3.If(val, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
    sz = val.size()
    if sz < n * 8:
        val = z3.ZeroExt(n * 8 - sz, val)
    return [simp(z3.Extract(8 * i + 7, 8 * i, val)) for i in range(n)]

def from_bytes(bs):
    """little-endian list of byte values -> int of 8*len bits"""
    if all(is_c(b) for b in bs):
        v = 0
        for i, b in enumerate(bs):
            v |= b << (8 * i)
        return v
    if len(bs) == 1:
        return bs[0]
    return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))
