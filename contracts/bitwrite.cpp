// Bit writer against an arbitrary target byte string G: the ghost of everything written so far and
// still to be written.  Abstract state: bit position p (= _tot_bits); the bytes sent to the storage
// are G[..E), the buffer holds the bits of G from 8E to p and zeros behind them.
#include "vc.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include "src/mg/core/thread.cpp"

extern "C" void vcc_exc(void *self, int num, const void *, int) { ((MGCORE::mgexceptionbase *)self)->_err = num; }
extern "C" void vcc_exc_dtor(void *) {}

// the storage: accepts exactly the bytes of G in order
struct sink : public Ibitstream_storage {
    const unsigned char *G; uint64_t E; bool moved;
    virtual void read(uint32_t, Ibitstream_cb *) { vc_assert(false, "the writer never reads its storage"); }
    virtual void write(const unsigned char *p, uint32_t n, Ibitstream_cb *cb)
    {
        vc_assert(n <= vc_size(p), "the bytes handed to the storage exist");
        uint64_t j = vc_nd("byte sent");
        vc_assert(vc_implies(j < n, vc_peek(p, j) == vc_peek(G, E + j)), "the storage receives the bits put, in order");
        E += n;
        cb->write_cb(n);
    }
    virtual bool eof() { return false; }
    virtual void flush() {}
    virtual uint64_t get_position() const { return E; }
    virtual void set_position(uint64_t q) { E = q; }
};
typedef bitstream<sink> BS;
struct W { unsigned char *G; uint64_t M, E, B, c, r, p; CResource<sink> st; };

static void any_state(BS &bs, W &w)
{
    w.B = vc_ndw("buffer size", 29); vc_assume(w.B >= 5);
    w.E = vc_ndw("bytes sent", 40);
    w.c = vc_ndw("byte in buffer", 29); w.r = vc_ndw("bit in byte", 3);
    vc_assume(vc_or(w.c < w.B, vc_and(w.c == w.B, w.r == 0)));
    w.M = w.E + w.B + (1ull << 33);
    w.G = (unsigned char *)vc_alloc(w.M, "target");
    w.st = CResource<sink>(new sink); w.st->G = w.G; w.st->E = w.E;
    bs.create(w.st, (uint32_t)w.B, false);
    vc_tag(bs._buf, "buffer");
    memcpy(bs._buf, w.G + w.E, w.c);
    if (w.r) bs._buf[w.c] = w.G[w.E + w.c] & (unsigned char)(0xff00u >> w.r);
    bs._cur_bit = w.c << 3 | w.r; w.p = bs._tot_bits = 8 * w.E + (w.c << 3 | w.r);
    vc_setp("cur", &bs._cur_bit); vc_setp("tot", &bs._tot_bits); vc_setp("E", &w.st->E);
    vc_set("B", w.B); vc_set("G", vc_snap(w.G)); vc_set("p0", w.p);
}
static void inv(BS &bs, uint64_t p)
{
    sink &s = *bs._p_cb; uint64_t cur = bs._cur_bit, c = cur >> 3, r = cur & 7, B = bs._buf_size;
    vc_assert(bs._getpos() == p, "the bit position is the expected one");
    vc_assert(vc_and(cur <= 8 * B, 8 * s.E + cur == p), "bits sent and bits pending make up the position");
    uint64_t j = vc_nd("j");
    vc_assert(vc_implies(j < c, vc_peek(bs._buf, j) == vc_peek(s.G, s.E + j)), "pending bytes are those put");
    vc_assert(vc_implies(r != 0, vc_peek(bs._buf, c) == (vc_peek(s.G, s.E + c) & (0xff00u >> r & 0xff))), "the last pending bits are those put");
    vc_assert(vc_implies(vc_and(vc_or(j > c, vc_and(j == c, r == 0)), j < B), vc_peek(bs._buf, j) == 0), "the rest of the buffer is clear");
}
static uint64_t bits(W &w, uint64_t p, uint64_t n) { return vc_spec3("bits", vc_snap(w.G), p, n); }

extern "C" void vcc_put(BS *bs, uint32_t v, short n)
{
    sink &s = *bs->_p_cb; uint64_t p = bs->_tot_bits, B = bs->_buf_size;
    vc_assert(vc_and(n >= 0, n <= 32), "between 0 and 32 bits are put");
    inv(*bs, p);
    vc_assert(vc_spec3("bits", vc_snap(s.G), p, n) == (v & ((1ull << n) - 1)), "the bits put are the next ones of the target");
    uint64_t q = p + n, c = vc_ndw("byte in buffer", 29), r = q & 7;
    vc_assume(vc_or(c < B, vc_and(c == B, r == 0))); vc_assume(c <= q >> 3);
    s.E = (q >> 3) - c;
    vc_havoc(bs->_buf, B);
    memset(bs->_buf, 0, B);
    memcpy(bs->_buf, s.G + s.E, c);
    if (r) bs->_buf[c] = s.G[s.E + c] & (unsigned char)(0xff00u >> r);
    bs->_cur_bit = c << 3 | r; bs->_tot_bits = q;
}
HARNESS h_put()
{
    BS bs; W w; any_state(bs, w);
    uint64_t n = vc_ndw("bits", 6); uint32_t v = (uint32_t)vc_nd("value"); vc_assume(n <= 32);
    vc_assume(bits(w, w.p, n) == (v & ((1ull << n) - 1)));
    vc_cover("pre");
    bs.putbits(v, (short)n);
    vc_cover("post");
    inv(bs, w.p + n);
}
HARNESS h_little_put()
{
    BS bs; W w; any_state(bs, w);
    uint64_t n = vc_ndw("bits", 6); uint32_t v = (uint32_t)vc_nd("value"); vc_assume(n <= 32);
    vc_assume(vc_spec3("little", vc_snap(w.G), w.p, n) == (v & ((1ull << n) - 1)));
    vc_cover("pre");
    bs.little_putbits(v, (int)n);
    vc_cover("post");
    inv(bs, w.p + n);
}
HARNESS h_flush()
{
    BS bs; W w; any_state(bs, w);
    vc_cover("pre");
    bs.flush();
    vc_assert(bs._cur_bit < 8, "all whole bytes are sent");
    vc_cover("post");
    inv(bs, w.p);
}
HARNESS h_write()
{
    BS bs; W w; any_state(bs, w); vc_assume(w.r == 0);
    uint64_t n = vc_ndw("bytes", 32);
    unsigned char *src = (unsigned char *)vc_alloc(n, "source");
    memcpy(src, w.G + (w.p >> 3), n);
    vc_cover("pre");
    bs.write(src, (uint32_t)n);
    vc_cover("post");
    inv(bs, w.p + 8 * n);
}
HARNESS h_set_position()
{
    BS bs; W w; any_state(bs, w); vc_assume(w.r == 0);
    uint64_t q = vc_ndw("position", 40);
    vc_cover("pre");
    bs.set_position(q);
    vc_cover("post");
    vc_assert(bs.get_position() == q, "the byte position is reported");
    vc_assert(bs._cur_bit == 0, "nothing is pending at the new position");
    vc_assert(vc_and(bs._tot_bits == 8 * q, w.st->E == q), "writing continues at the position asked for");
    uint64_t j = vc_nd("j");
    vc_assert(vc_implies(j < w.B, vc_peek(bs._buf, j) == 0), "the buffer is clear");
}
HARNESS h_create()
{
    BS bs; uint64_t B = vc_ndw("buffer size", 29);
    unsigned char *G = (unsigned char *)vc_alloc(100, "target");
    CResource<sink> st(new sink); st->G = G; st->E = 0;
    bs.create(st, (uint32_t)B, false);
    vc_cover("post");
    vc_assert(bs._buf_size == B, "the buffer has the size asked for");
    inv(bs, 0);
}

// the memory storage the bit writer sends its bytes to
typedef fixed_memory_write FW;
struct told : public Ibitstream_cb {
    uint64_t n = 0, calls = 0; const unsigned char *p = 0;
    virtual void read_cb(const unsigned char *q, uint32_t m) { p = q; n = m; calls++; }
    virtual void write_cb(uint32_t m) { n = m; calls++; }
};
struct SW { FW s; uint64_t Z, pos, size, snap; SW() : s(1) {} };
static void any_storage(SW &w)
{
    w.Z = vc_ndw("allocated", 32); w.pos = vc_ndw("position", 32); w.size = vc_ndw("size", 32); uint64_t orig = vc_ndw("initial size", 32);
    vc_assume(vc_and(vc_and(w.pos <= w.Z, w.size <= w.Z), vc_and(1 <= orig, orig <= w.Z)));
    delete[] w.s._buffer.m_p;
    w.s._buffer.m_p = (unsigned char *)operator new[](w.Z);
    vc_havoc(w.s._buffer.m_p, w.Z); vc_tag(w.s._buffer.m_p, "memory");
    w.s._buffer.m_iSize = w.Z; w.s._buffer.m_iCurrent = w.pos; w.s._buffer.m_iOrigin = orig;
    w.s._current_pos = w.pos; w.s._size = w.size;
    w.snap = vc_snap(w.s._buffer.m_p);
}
static void storage_inv(FW &s)
{
    vc_assert(vc_and(s._buffer.m_iCurrent == s._current_pos, s._current_pos <= s._buffer.m_iSize), "the position is inside the memory");
    vc_assert(vc_and(s._size <= s._buffer.m_iSize, vc_size(s._buffer.m_p) == s._buffer.m_iSize), "the data is inside the memory");
    vc_assert(vc_live(s._buffer.m_p), "the memory is live");
}
HARNESS h_storage_create()
{
    uint64_t n = vc_ndw("initial size", 32); vc_assume(n > 0);
    FW s((uint32_t)n);
    storage_inv(s);
    vc_assert(vc_and(vc_and(s.size() == 0, s.get_position() == 0), s.eof()), "new storage is empty");
    vc_cover("post");
}
HARNESS h_storage_write()
{
    SW w; any_storage(w);
    uint64_t n = vc_ndw("bytes", 31); unsigned char *src = (unsigned char *)vc_alloc(n, "source"); uint64_t ss = vc_snap(src); told cb;
    vc_cover("pre");
    w.s.write(src, (uint32_t)n, &cb);
    vc_cover("post");
    storage_inv(w.s);
    uint64_t e = w.pos + n;
    vc_assert(vc_and(w.s.get_position() == e, w.s.size() == vc_ite(e > w.size, e, w.size)), "the position moves behind the bytes written, the size follows");
    uint64_t j = vc_nd("j");
    vc_assert(vc_implies(j < n, vc_peek(w.s.get_buffer(), w.pos + j) == vc_at(ss, j)), "the bytes written are stored at the position");
    vc_assert(vc_implies(vc_or(j < w.pos, vc_and(e <= j, j < w.size)), vc_peek(w.s.get_buffer(), j) == vc_at(w.snap, j)), "all other stored bytes stay");
    vc_assert(vc_and(cb.calls == 1, cb.n == n), "completion is reported once, for all bytes");
}
HARNESS h_storage_read()
{
    SW w; any_storage(w);
    uint64_t n = vc_ndw("bytes", 32); told cb;
    w.s.read((uint32_t)n, &cb);
    vc_cover("post");
    storage_inv(w.s);
    uint64_t left = vc_ite(w.pos < w.size, w.size - w.pos, 0), m = vc_ite(n < left, n, left), j = vc_nd("j");
    vc_assert(vc_and(cb.calls == 1, cb.n == m), "a read gives what is stored at the position, up to the bytes asked for");
    vc_assert(vc_implies(j < m, vc_peek(cb.p, j) == vc_at(w.snap, w.pos + j)), "the bytes read are those stored");
    vc_assert(vc_and(w.s.get_position() == w.pos + m, w.s.size() == w.size), "the position moves behind the bytes read");
    vc_assert(vc_implies(j < w.size, vc_peek(w.s.get_buffer(), j) == vc_at(w.snap, j)), "reading changes nothing stored");
    vc_assert(w.s.eof() == (w.pos + m >= w.size), "the end is announced when nothing is left");
}
HARNESS h_storage_set_position()
{
    SW w; any_storage(w);
    uint64_t q = vc_ndw("position", 32); vc_assume(q < w.Z);
    w.s.set_position(q);
    vc_cover("post");
    storage_inv(w.s);
    uint64_t j = vc_nd("j");
    vc_assert(vc_and(w.s.get_position() == q, w.s.size() == w.size), "only the position changes");
    vc_assert(vc_implies(j < w.size, vc_peek(w.s.get_buffer(), j) == vc_at(w.snap, j)), "moving changes nothing stored");
}
