"""Memory objects: byte-addressed, of possibly symbolic size.  An object is a chain of
functional updates (newest first) over a base content function, with a layer of typed cells at
concrete offsets on top (newest of all)."""
import z3
from values import *

_ctr = [0]
def fresh_name(p):
    _ctr[0] += 1
    return '%s!%d' % (p, _ctr[0])

def fresh_bv(p, w):
    return z3.BitVec(fresh_name(p), w)

class Content:
    """arbitrary byte content: an uninterpreted function of the offset"""
    def __init__(self, p):
        self.f = z3.Function(fresh_name(p), z3.BitVecSort(64), z3.BitVecSort(8))
    def __getitem__(self, i):
        return self.f(bv(i, 64))
def fresh_array(p):
    return Content(p)

class Node:
    __slots__ = ('k', 'a', 'b', 'c', 'd', 'prev', 'memo')
    def __init__(self, k, a=None, b=None, c=None, d=None, prev=None):
        self.k, self.a, self.b, self.c, self.d, self.prev = k, a, b, c, d, prev
        self.memo = {}

def node_array(name='mem'):
    A = fresh_array(name)
    return Node('fn', lambda i: A[i])

def node_zero():
    return Node('fn', lambda i: 0)

def node_bytes(bs):
    # concrete content
    bs = bytes(bs)
    box = {}
    def f(i):
        if is_c(i):
            return bs[i] if 0 <= i < len(bs) else 0
        # decision tree over the index bits
        nb = max(1, (len(bs) - 1).bit_length())
        def tree(lo, b):
            if lo >= len(bs):
                return z3.BitVecVal(0, 8)
            if b == 0:
                return z3.BitVecVal(bs[lo], 8)
            t, e = tree(lo + (1 << (b - 1)), b - 1), tree(lo, b - 1)
            if t.eq(e):
                return t
            return z3.If(z3.Extract(b - 1, b - 1, i) == 1, t, e)
        v = tree(0, nb)
        if nb < 64:
            v = z3.If(z3.Extract(63, nb, i) == 0, v, z3.BitVecVal(0, 8))
        return simp(v)
    n = Node('fn', f)
    n.c = bs
    return n

def _key(i):
    return i if is_c(i) else ('e', i.get_id())

def read_byte(node, i):
    """byte at offset i of the content chain `node`"""
    k0 = _key(i)
    hit = node.memo.get(k0)
    if hit is not None:
        return hit[0]
    top = node
    conds = []
    val = None
    while True:
        k = node.k
        if node is not top:
            h = node.memo.get(k0)
            if h is not None:
                val = h[0]
                break
        if k == 'fn':
            val = node.a(i)
            break
        if k == 'st':
            off, n, v = node.a, node.b, node.c
            if n == 1:
                c = eq(i, off)
                if c is True:
                    val = bytes_of(v, 1)[0]
                    break
                if c is not False:
                    conds.append((c, bytes_of(v, 1)[0]))
            else:
                d = sub(i, off)
                if is_c(d):
                    if d < n:
                        val = bytes_of(v, n)[d]
                        break
                else:
                    bs = bytes_of(v, n)
                    for j in range(n):
                        c = eq(d, j)
                        if c is not False:
                            conds.append((c, bs[j]))
        elif k == 'cp':
            dst, n, srcn, so = node.a, node.b, node.c, node.d
            d = sub(i, dst)
            c = ult(d, n)
            if c is True:
                val = read_byte(srcn, add(so, d))
                break
            if c is not False:
                conds.append((c, read_byte(srcn, add(so, d))))
        elif k == 'set':
            d = sub(i, node.a)
            c = ult(d, node.b)
            if c is True:
                val = node.c
                break
            if c is not False:
                conds.append((c, node.c))
        elif k == 'ov':
            prev = node.prev
            val = node.a(i, lambda prev=prev, i=i: read_byte(prev, i))
            break
        node = node.prev
    for c, v in reversed(conds):
        val = ite(c, v, val, 8)
    top.memo[k0] = (val, i)      # keep i alive so that its ast id stays unique
    return val

class MObj:
    __slots__ = ('id', 'name', 'size', 'alive', 'kind', 'cells', 'chain', 'ro', 'tag', 'fn', 'nul')
    def __init__(self, id, name, size, kind, chain, ro=False):
        self.id, self.name, self.size, self.kind, self.chain, self.ro = id, name, size, kind, chain, ro
        self.alive = True
        self.cells = {}
        self.tag = None
        self.fn = None
        self.nul = ()
    def clone(self):
        o = MObj(self.id, self.name, self.size, self.kind, self.chain, self.ro)
        o.alive, o.cells, o.tag, o.fn, o.nul = self.alive, dict(self.cells), self.tag, self.fn, self.nul
        return o

def cell_int(v, n, st):
    """integer image of a cell value"""
    if isinstance(v, Ptr):
        return st.eng.ptr2int(v)
    if z3.is_expr(v) and z3.is_fp(v):
        return z3.fpToIEEEBV(v)
    return v

def flush(o, st):
    """move all cells into the chain"""
    if not o.cells:
        return
    for off in sorted(o.cells):
        n, v = o.cells[off]
        o.chain = Node('st', off, n, cell_int(v, n, st), prev=o.chain)
    o.cells = {}

def _overlaps(o, off, n):
    return [c for c in o.cells if c < off + n and off < c + o.cells[c][0]]

def _spill(o, c, st):
    n, v = o.cells.pop(c)
    o.chain = Node('st', c, n, cell_int(v, n, st), prev=o.chain)

def kbits(e, depth=0):
    """(possible-one mask) of a bit-vector term"""
    w = e.size()
    full = (1 << w) - 1
    if z3.is_bv_value(e):
        return e.as_long()
    if depth > 12:
        return full
    k = e.decl().kind()
    ch = e.children()
    if k == z3.Z3_OP_CONCAT:
        m = 0
        for c in ch:
            m = (m << c.size()) | kbits(c, depth + 1)
        return m
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()
        return (kbits(ch[0], depth + 1) >> lo) & full
    if k == z3.Z3_OP_ZERO_EXT:
        return kbits(ch[0], depth + 1)
    if k == z3.Z3_OP_BAND:
        m = full
        for c in ch:
            m &= kbits(c, depth + 1)
        return m
    if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        m = 0
        for c in ch:
            m |= kbits(c, depth + 1)
        return m
    if k == z3.Z3_OP_ITE:
        return kbits(ch[1], depth + 1) | kbits(ch[2], depth + 1)
    if k == z3.Z3_OP_BADD:
        ms = [kbits(c, depth + 1) for c in ch]
        acc = 0
        for m in ms:
            if acc & m:
                top = max(x.bit_length() for x in ms) + len(ms)
                low = min((x & -x).bit_length() - 1 if x else w for x in ms)
                return min(full, (1 << top) - 1) & ~((1 << low) - 1)
            acc |= m
        return acc
    if k == z3.Z3_OP_BMUL and len(ch) == 2 and z3.is_bv_value(ch[0]):
        c = ch[0].as_long()
        if c and c & (c - 1) == 0:
            return (kbits(ch[1], depth + 1) * c) & full
        if c:
            return full & ~((c & -c) - 1)
    return full

def split_const(t):
    """(bits known to be one, bits that vary) of a 64-bit addend; the two are disjoint"""
    if z3.is_bv_value(t):
        return t.as_long(), 0
    k = t.decl().kind()
    if k == z3.Z3_OP_CONCAT:
        pos = base = var = 0
        for c in reversed(t.children()):
            if z3.is_bv_value(c):
                base |= c.as_long() << pos
            else:
                var |= kbits(c) << pos
            pos += c.size()
        return base, var
    if k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
        f = t.arg(0).as_long()
        if f and f & (f - 1) == 0:
            c, v = split_const(t.arg(1))
            M = (1 << 64) - 1
            return c * f & M, v * f & M
    return 0, kbits(t)

def sum_bit(parts, b):
    p = next(p for p in parts if split_const(p)[1] >> b & 1)
    if p.decl().kind() == z3.Z3_OP_BMUL and z3.is_bv_value(p.arg(0)):
        return z3.Extract(b - p.arg(0).as_long().bit_length() + 1, b - p.arg(0).as_long().bit_length() + 1, p.arg(1))
    return z3.Extract(b, b, p)

def table_read(o, off, n):
    """word read at a symbolic offset of an all-concrete table whose entries are affine over GF(2)
    in the varying offset bits (checked entry by entry here); None when it does not apply"""
    parts = off.children() if off.decl().kind() == z3.Z3_OP_BADD else [off]
    base, m = 0, 0
    for p in parts:
        c, v = split_const(p)
        if m & v:
            return None
        base, m = (base + c) & (1 << 64) - 1, m | v
    if base & m:
        return None
    bits = [i for i in range(64) if m >> i & 1]
    if len(bits) > 10 or not bits:
        return None
    def at(x):
        c = o.cells.get(x)
        if c is not None and c[0] == n and is_c(c[1]):
            return c[1]
        if c is not None:
            return None
        v = read(o, x, n, None)
        return v if is_c(v) else None
    sz = o.size
    t0 = at(base)
    if t0 is None or not is_c(sz):
        return None
    D = []
    for b in bits:
        v = at(base | (1 << b))
        if v is None or (base | (1 << b)) + n > sz:
            return None
        D.append(v ^ t0)
    for x in range(1 << len(bits)):
        e, a = t0, base
        for i, b in enumerate(bits):
            if x >> i & 1:
                e ^= D[i]
                a |= 1 << b
        if a + n > sz or at(a) != e:
            return None
    w = 8 * n
    r = z3.BitVecVal(t0, w)
    for i, b in enumerate(bits):
        bit = z3.simplify(sum_bit(parts, b))
        r = r ^ z3.If(bit == 1, z3.BitVecVal(D[i], w), z3.BitVecVal(0, w))
    return r

def read(o, off, n, st):
    """value of the n bytes at off; Ptr/FP survive when a typed cell matches exactly"""
    if is_c(off):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        if o.cells and _overlaps(o, off, n):
            bs = []
            for i in range(off, off + n):
                for c, (cn, cv) in o.cells.items():
                    if c <= i < c + cn:
                        bs.append(bytes_of(cell_int(cv, cn, st), cn)[i - c])
                        break
                else:
                    bs.append(read_byte(o.chain, i))
            return from_bytes(bs)
        node = o.chain
        while node.k == 'st':        # exact or clearly disjoint stores
            if is_c(node.a):
                if node.a == off and node.b == n:
                    return node.c
                if node.a + node.b <= off or off + n <= node.a:
                    node = node.prev
                    continue
            break
        return from_bytes([read_byte(node, off + i) for i in range(n)])
    if n in (2, 4, 8) and st is not None and st.eng.cfg.table_lin and o.kind == 'global' and is_c(o.size):
        t = table_read(o, off, n)
        if t is not None:
            return t
    flush(o, st)
    node = o.chain
    if node.k == 'st' and node.b == n and eq(node.a, off) is True:
        return node.c
    # a word stored a whole number of words away: the same word or another one
    over = []
    while n in (2, 4, 8) and node.k == 'st' and node.b == n and not isinstance(node.c, Ptr):
        d = sub(off, node.a)
        if is_c(d):
            if d == 0:
                break
            if d % n or d > (1 << 63):
                break
            node = node.prev
            continue
        if kbits(simp(d)) & (n - 1):
            break
        over.append((eq(d, 0), node.c))
        node = node.prev
    if over:
        v = node.c if node.k == 'st' and node.b == n and eq(node.a, off) is True and not isinstance(node.c, Ptr) else from_bytes([read_byte(node, add(off, i)) for i in range(n)])
        for c, x in reversed(over):
            v = ite(c, x, v, 8 * n)
        return v
    return from_bytes([read_byte(node, add(off, i)) for i in range(n)])

def write(o, off, n, v, st):
    if is_c(off):
        if o.cells:
            c = o.cells.get(off)
            if c is not None and c[0] == n:
                o.cells[off] = (n, v)
                return
            for c in sorted(_overlaps(o, off, n)):
                _spill(o, c, st)
        o.cells[off] = (n, v)
        return
    flush(o, st)
    o.chain = Node('st', off, n, cell_int(v, n, st), prev=o.chain)

def copy(d, do, s, so, n, st):
    """memmove semantics (source content is a snapshot)"""
    if is_c(n) and n == 0:
        return
    if is_c(do) and is_c(so) and is_c(n):
        for c in list(s.cells):
            cn = s.cells[c][0]
            if c < so + n and so < c + cn and not (so <= c and c + cn <= so + n):
                _spill(s, c, st)
        moved = [(c - so + do, s.cells[c]) for c in sorted(s.cells) if so <= c and c + s.cells[c][0] <= so + n]
        covered = sum(x[1][0] for x in moved)
        srcchain = s.chain
        for c in list(d.cells):
            cn = d.cells[c][0]
            if c < do + n and do < c + cn:
                if not (do <= c and c + cn <= do + n):
                    _spill(d, c, st)
                else:
                    del d.cells[c]
        if covered < n:
            d.chain = Node('cp', do, n, srcchain, so, prev=d.chain)
        for c, cell in moved:
            d.cells[c] = cell
        return
    flush(s, st)
    src = s.chain
    flush(d, st)
    d.chain = Node('cp', do, n, src, so, prev=d.chain)

def fill(o, off, n, byte, st):
    if is_c(off) and is_c(n):
        for c in list(o.cells):
            cn = o.cells[c][0]
            if c < off + n and off < c + cn:
                if off <= c and c + cn <= off + n:
                    del o.cells[c]
                else:
                    _spill(o, c, st)
    else:
        flush(o, st)
    o.chain = Node('set', off, n, byte, prev=o.chain)

def peek(o, i, st):
    """ghost byte read, no bounds check"""
    if is_c(i):
        return read(o, i, 1, st)
    flush(o, st)
    return read_byte(o.chain, i)

def word_byte(W, j):
    """byte j of memory made of 64-bit words W(0), W(1), ... (least significant byte first)"""
    if is_c(j):
        w = bv(W(z3.BitVecVal(j >> 3, 64)), 64)
        b = j & 7
        return simp(z3.Extract(8 * b + 7, 8 * b, w))
    j = simp(j)
    if not kbits(j) & 7:
        c, x = 0, j
    else:
        c, x = None, None
        if z3.is_app_of(j, z3.Z3_OP_BADD):
            for a in j.children():
                if z3.is_bv_value(a):
                    c = a.as_long() & 7
                    x = simp(j - c)
                    if kbits(x) & 7:
                        c = None
    if c is not None:
        w = bv(W(simp(z3.LShR(x, 3))), 64)
        return simp(z3.Extract(8 * c + 7, 8 * c, w))
    w = bv(W(simp(z3.LShR(j, 3))), 64)
    return simp(z3.Extract(7, 0, z3.LShR(w, (j & 7) << 3)))
