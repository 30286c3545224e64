// Growable buffer, and the memory storage of the bit writer on top of it.
#include "vc.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include "src/mg/core/thread.cpp"
extern "C" void vcc_exc(void *self, int num, const void *, int) { ((MGCORE::mgexceptionbase *)self)->_err = num; }
extern "C" void vcc_exc_dtor(void *) {}

// arbitrary buffer: Z elements allocated, full of them committed
template <class B, class T> struct any {
    B b; uint64_t Z, full, orig, snap;
    any(uint64_t zmax = sizeof(((B *)0)->m_iSize) == 4 ? 30 : 32) : b(1)
    {
        Z = vc_ndw("allocated", zmax); full = vc_ndw("committed", zmax); orig = vc_ndw("initial size", zmax);
        vc_assume(vc_and(full <= Z, vc_and(1 <= orig, orig <= Z)));
        delete[] b.m_p;
        b.m_p = (T *)operator new[](Z * sizeof(T));
        vc_havoc(b.m_p, Z * sizeof(T)); vc_tag(b.m_p, "old");
        b.m_iSize = Z; b.m_iCurrent = full; b.m_iOrigin = orig;
        snap = vc_snap(b.m_p);
    }
};
template <class B, class T> static void inv(B &b)
{
    vc_assert(vc_and(b.m_iCurrent <= b.m_iSize, vc_size(b.m_p) == b.m_iSize * sizeof(T)), "committed part within the allocation");
    vc_assert(vc_live(b.m_p), "the buffer owns live memory");
}
#define BUF CBuffer<T, S>
template <class T, class S> static void create()
{
    S n = (S)vc_ndw("size", 32); vc_assume(n > 0);
    uint64_t l = vc_leaks();
    {
        BUF b(n);
        inv<BUF, T>(b);
        vc_assert(vc_and(b.size() == 0, b.getSize() == n), "a new buffer is empty and has the size asked for");
        vc_assert(b.getFree() == n, "all of it is free");
        uint64_t j = vc_nd("j"); vc_assume(j < (uint64_t)n * sizeof(T));
        vc_assert(vc_peek(b.get(), j) == 0, "a new buffer is clear");
        vc_cover("post");
    }
    vc_assert(vc_leaks() == l, "all memory is released with the buffer");
}
template <class T, class S> static void add()
{
    uint64_t l = vc_leaks();
    {
        any<BUF, T> x; uint64_t n = vc_ndw("size", sizeof(S) == 4 ? 29 : 30);
        T *src = (T *)vc_alloc(n * sizeof(T), "source"); T *p0 = x.b.m_p;
        uint64_t ss = vc_snap(src);
        vc_cover("pre");
        x.b.add(src, (S)n);
        vc_cover("post");
        inv<BUF, T>(x.b);
        vc_assert(x.b.size() == x.full + n, "the elements are appended");
        vc_assert(x.b.getFree() == x.b.getSize() - x.b.getFull(), "free space is what remains");
        uint64_t j = vc_nd("j"), F = x.full * sizeof(T);
        vc_assert(vc_implies(j < F, vc_peek(x.b.m_p, j) == vc_at(x.snap, j)), "what was committed stays");
        vc_assert(vc_implies(j < n * sizeof(T), vc_peek(x.b.m_p, F + j) == vc_at(ss, j)), "the new elements follow");
    }
    vc_assert(vc_leaks() == l, "the old memory is released when the buffer grows");
}
template <class T, class S> static void prepare()
{
    any<BUF, T> x; uint64_t n = vc_ndw("size", sizeof(S) == 4 ? 29 : 30); vc_assume(n > 0);
    x.b.prepare((S)n);
    inv<BUF, T>(x.b);
    vc_assert(vc_and(x.b.size() == x.full, x.b.getFree() > n), "room for more than the size asked for, nothing committed");
    vc_assert(x.b.getCurrent() == x.b.get() + x.full, "the next position is behind the committed part");
    uint64_t j = vc_nd("j"), F = x.full * sizeof(T);
    vc_assert(vc_implies(j < F, vc_peek(x.b.m_p, j) == vc_at(x.snap, j)), "what was committed stays");
    vc_cover("post");
}
template <class T, class S> static void access()
{
    any<BUF, T> x; uint32_t i = (uint32_t)vc_nd("index"); vc_assume(i < x.Z);
    vc_assert(&x.b.getAt(i) == x.b.get() + i, "element i is i elements from the start");
    T v; vc_havoc(&v, sizeof v);
    x.b.WriteAt(i, &v);
    uint64_t j = vc_nd("j"), k = j - i * (uint64_t)sizeof(T); vc_assume(j < x.Z * sizeof(T));
    vc_assert(vc_peek(x.b.m_p, j) == vc_ite(vc_and(j >= i * (uint64_t)sizeof(T), k < sizeof(T)), vc_peek(&v, vc_ite(k < sizeof(T), k, 0)), vc_at(x.snap, j)), "exactly that element is replaced");
    vc_assert(vc_and(x.b.size() == x.full, x.b.getSize() == x.Z), "sizes stay");
    uint64_t n = vc_ndw("more", 32); vc_assume(n <= x.Z - x.full);
    x.b.updatePosition((S)n);
    vc_assert(x.b.size() == x.full + n, "the position moves by the size given");
    inv<BUF, T>(x.b);
    vc_cover("post");
}
template <class T, class S> static void read()
{
    any<BUF, T> x; uint64_t n = vc_ndw("space", 32), pos = vc_ndw("position", sizeof(S) == 4 ? 32 : 40); unsigned long got = vc_nd("garbage");
    T *out = (T *)vc_alloc(n * sizeof(T), "out"); uint64_t os = vc_snap(out);
    vc_cover("pre");
    bool r = x.b.ReadBuffer(out, n, got, (S)pos);
    uint64_t avail = x.full - pos, m = vc_ite(pos <= x.full, vc_ite(n < avail, n, avail), 0), j = vc_nd("j");
    vc_assert(r == (pos <= x.full), "fails exactly when the position is behind the committed part");
    vc_assert(vc_implies(r, got == m), "reads what is available up to the space given");
    vc_assert(vc_implies(vc_and(r, j < m * sizeof(T)), vc_peek(out, j) == vc_at(x.snap, pos * sizeof(T) + j)), "the elements read are those at the position");
    vc_assert(vc_implies(vc_and(j >= m * sizeof(T), j < n * sizeof(T)), vc_peek(out, j) == vc_at(os, j)), "the rest of the space stays");
    vc_cover("post");
}
template <class T, class S> static void append()
{
    any<BUF, T> x(29); any<BUF, T> y(29);
    x.b += y.b;
    inv<BUF, T>(x.b);
    vc_assert(vc_and(x.b.size() == x.full + y.full, y.b.size() == y.full), "sizes add up");
    uint64_t j = vc_nd("j"), F = x.full * sizeof(T);
    vc_assert(vc_implies(j < F, vc_peek(x.b.m_p, j) == vc_at(x.snap, j)), "what was committed stays");
    vc_assert(vc_implies(j < y.full * sizeof(T), vc_peek(x.b.m_p, F + j) == vc_at(y.snap, j)), "the other buffer follows");
    vc_cover("post");
}
template <class T, class S> static void append_self()
{
    any<BUF, T> x(29);
    x.b += x.b;
    inv<BUF, T>(x.b);
    vc_assert(x.b.size() == 2 * x.full, "the size doubles");
    uint64_t j = vc_nd("j"), F = x.full * sizeof(T);
    vc_assert(vc_implies(j < F, vc_and(vc_peek(x.b.m_p, j) == vc_at(x.snap, j), vc_peek(x.b.m_p, F + j) == vc_at(x.snap, j))), "the content follows itself");
    vc_cover("post");
}
template <class T, class S> static void add_own()
{
    any<BUF, T> x(29); uint64_t i = vc_ndw("from", 29), n = vc_ndw("count", 29);
    vc_assume(vc_and(i <= x.full, n <= x.full - i));
    x.b.add(x.b.get() + i, (S)n);
    inv<BUF, T>(x.b);
    vc_assert(x.b.size() == x.full + n, "the elements are appended");
    uint64_t j = vc_nd("j"), F = x.full * sizeof(T);
    vc_assert(vc_implies(j < F, vc_peek(x.b.m_p, j) == vc_at(x.snap, j)), "what was committed stays");
    vc_assert(vc_implies(j < n * sizeof(T), vc_peek(x.b.m_p, F + j) == vc_at(x.snap, i * sizeof(T) + j)), "the part of its own content follows");
    vc_cover("post");
}
template <class T, class S> static void reset()
{
    any<BUF, T> x; ResetBuffer<T, S> r(x.b); uint64_t n = vc_ndw("back", 32), j = vc_nd("j");
    vc_assume(vc_and(n <= x.full, j < x.Z * sizeof(T)));
    uint64_t f = x.full - n;
    if (vc_nd("which") & 1) {
        r.MoveBack((S)n);
        vc_assert(vc_peek(x.b.m_p, j) == vc_at(x.snap, j), "moving back keeps the content");
    } else {
        r.Back((S)n);
        vc_assert(vc_peek(x.b.m_p, j) == vc_ite(vc_and(j >= f * sizeof(T), j < x.full * sizeof(T)), 0, vc_at(x.snap, j)), "what is taken back is cleared");
    }
    vc_assert(x.b.size() == f, "the committed part shrinks by the size given");
    inv<BUF, T>(x.b);
    r.Reset();
    vc_assert(vc_and(x.b.size() == 0, vc_and(x.b.getSize() == x.Z, vc_peek(x.b.m_p, j) == 0)), "a reset buffer is empty and clear");
    inv<BUF, T>(x.b);
    vc_cover("post");
}
struct big { uint32_t a; uint16_t b; uint16_t c; uint32_t d; };
#define ALL(f) HARNESS h_##f##_byte() { f<unsigned char, size_t>(); } HARNESS h_##f##_struct() { f<big, size_t>(); } HARNESS h_##f##_u32() { f<uint16_t, uint32_t>(); }
ALL(create) ALL(add) ALL(prepare) ALL(access) ALL(read) ALL(append) ALL(append_self) ALL(add_own) ALL(reset)
