// Bit reader over a source of L bytes S, through the buffer / shadow buffer pair.
// Abstract state: the bit position p (= _tot_bits); the representation invariant Inv ties the two
// buffers, the storage position and p to S.
#include "vc.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include "src/mg/core/thread.cpp"
typedef bitstream<fixed_memory_read> BS;

extern "C" void vcc_exc(void *self, int num, const void *, int) { ((MGCORE::mgexceptionbase *)self)->_err = num; }
extern "C" void vcc_exc_dtor(void *) {}

struct W { const unsigned char *S; uint64_t L, E, kpos, bl, sl, cur, B; CResource<fixed_memory_read> st; };

static void rebuild(BS &bs, uint64_t k, uint64_t cur, uint64_t bl, uint64_t sl);
// arbitrary state satisfying Inv, by phase:
//  4 any of them; the others split by case:
//  0 past the end, 1 rest of the source in the buffer, 2 rest of it in the shadow buffer, 3 more to come
static void any_state(BS &bs, W &w, int phase)
{
    w.B = vc_ndw("buffer size", 29); w.kpos = vc_ndw("buffer start", 40);
    w.bl = w.sl = 0;
    if (phase == 0) { w.L = vc_ndw("source length", 40); vc_assume(w.L <= w.kpos); vc_assume(vc_or(w.B >= 5, w.L <= w.B)); }
    if (phase == 1) { w.bl = vc_ndw("buffered", 29); vc_assume(w.bl <= w.B); w.L = w.kpos + w.bl; vc_assume(vc_or(w.B >= 5, w.L <= w.B)); }
    if (phase == 2) { vc_assume(w.B >= 5); w.bl = w.B; w.sl = vc_ndw("shadowed", 29); vc_assume(vc_and(w.sl > 0, w.sl <= w.B)); w.L = w.kpos + w.B + w.sl; }
    if (phase == 3) { vc_assume(w.B >= 5); w.bl = w.sl = w.B; uint64_t more = vc_ndw("unread", 40); vc_assume(more > 0); w.L = w.kpos + w.B + w.B + more; }
    if (phase == 4) { w.L = vc_ndw("source length", 41); w.bl = vc_ndw("buffered", 29); w.sl = vc_ndw("shadowed", 29); vc_assume(vc_or(w.B >= 5, w.L <= w.B)); }
    w.E = w.kpos + w.bl + w.sl;
    uint64_t c = vc_ndw("byte in buffer", 29), r = vc_ndw("bit in byte", 3);
    w.cur = c << 3 | r;
    vc_assume(vc_or(c < w.bl, vc_and(c == w.bl, r == 0)));
    w.S = (const unsigned char *)vc_alloc(w.L, "source");
    w.st = CResource<fixed_memory_read>(new fixed_memory_read(w.S, w.L));
    w.st->set_position(w.L);
    bs.create(w.st, (uint32_t)w.B, true);          // allocates the buffers; nothing to read yet
    w.st->_current_pos = w.E;
    vc_tag(bs._buf, "buffer"); vc_tag(bs._shadow_buf, "shadow"); vc_tag(&bs, "stream");
    if (phase == 4) rebuild(bs, w.kpos, w.cur, w.bl, w.sl);
    else memcpy(bs._buf, w.S + w.kpos, w.bl);
    if (phase != 4) memcpy(bs._shadow_buf, w.S + w.kpos + w.bl, w.sl);
    bs._buf_len = (uint32_t)w.bl; bs._shadow_len = (uint32_t)w.sl; bs._cur_bit = w.cur; bs._tot_bits = 8 * w.kpos + w.cur;
    bs._load_shadow = vc_nd("load shadow") & 1;
    vc_setp("cur", &bs._cur_bit); vc_setp("tot", &bs._tot_bits); vc_setp("bl", &bs._buf_len); vc_setp("sl", &bs._shadow_len); vc_setp("E", &w.st->_current_pos); vc_setp("signed", &bs._load_event._signed);
    vc_setp("pending", &bs._pending_read); vc_setp("loadshadow", &bs._load_shadow);
    vc_set("L", w.L); vc_set("B", w.B); vc_set("S", vc_snap(w.S)); vc_set("p0", bs._tot_bits);
}
// Inv again, and the position is p
static void inv(BS &bs, uint64_t p)
{
    fixed_memory_read &m = *bs._p_cb;
    const unsigned char *S = m._buf; uint64_t L = m._buf_len, B = bs._buf_size;
    uint64_t bl = bs._buf_len, sl = bs._shadow_len, cur = bs._cur_bit, E = m.get_position(), k = E - bl - sl;
    vc_assert(bs._getpos() == p, "the bit position is the expected one");
    vc_assert(vc_and(vc_and(bl <= B, sl <= B), E < (1ull << 42)), "buffered lengths within the buffers");
    vc_assert(vc_or(E <= L, vc_and(bl == 0, sl == 0)), "only bytes of the source are buffered");
    vc_assert(vc_and(vc_or(sl == B, E >= L), vc_or(sl == 0, bl == B)), "buffers are as full as the source allows");
    vc_assert(cur <= 8 * bl, "bit pointer inside the buffered bytes");
    vc_assert(8 * k + cur == bs._tot_bits, "bit pointer and position agree");
    vc_assert(bs._load_event._signed, "no read is left pending");
    uint64_t j = vc_nd("j");
    vc_assert(vc_implies(j < bl, vc_peek(bs._buf, j) == vc_peek(S, k + j)), "buffer holds the bytes at the position");
    vc_assert(vc_implies(j < sl, vc_peek(bs._shadow_buf, j) == vc_peek(S, k + bl + j)), "shadow buffer holds the bytes that follow");
}
static void inv(BS &bs, W &w, uint64_t p) { vc_assert(vc_and(bs._buf_size == w.B, vc_same(&*bs._p_cb, &*w.st)), "buffer size and source are kept"); inv(bs, p); }
// state after a call known only by its contract
static void rebuild(BS &bs, uint64_t k, uint64_t cur, uint64_t bl, uint64_t sl)
{
    fixed_memory_read &m = *bs._p_cb;
    const unsigned char *S = m._buf; uint64_t L = m._buf_len, B = bs._buf_size, E = k + bl + sl;
    vc_assume(vc_and(bl <= B, sl <= B)); vc_assume(vc_or(E <= L, vc_and(bl == 0, sl == 0)));
    vc_assume(vc_and(vc_or(sl == B, E >= L), vc_or(sl == 0, bl == B))); vc_assume(cur <= 8 * bl);
    vc_havoc(bs._buf, bl); vc_havoc(bs._shadow_buf, sl);
    k = vc_ite(E <= L, k, 0);                      // nothing is buffered past the end
    memcpy(bs._buf, S + k, bl); memcpy(bs._shadow_buf, S + k + bl, sl);
    bs._buf_len = (uint32_t)bl; bs._shadow_len = (uint32_t)sl; bs._cur_bit = cur; m._current_pos = E;
    bs._load_shadow = vc_nd("load shadow") & 1; bs._pending_read = vc_nd("pending") & 1;
}
extern "C" void vcc_fill(BS *bs)
{
    uint64_t p = bs->_tot_bits, cur = bs->_cur_bit, bl = bs->_buf_len, sl = bs->_shadow_len;
    inv(*bs, p);
    if (sl == 0 && bs->_p_cb->eof()) throw EndOfData(__FILE__, __LINE__);
    uint64_t n = cur >> 3, nbl = bl - n + vc_ite(sl < n, sl, n), L = bs->_p_cb->_buf_len, B = bs->_buf_size, rest = L - (p >> 3) - nbl;
    rebuild(*bs, p >> 3, cur & 7, nbl, vc_ite(rest < B, rest, B));
}
static uint64_t bits_(BS *bs, uint64_t p, uint64_t n);
static bool have_(BS *bs, uint64_t p, uint64_t n) { uint64_t L = bs->_p_cb->_buf_len; return vc_or(n == 0, vc_and(p <= 8 * L, n <= 8 * L - p)); }
extern "C" uint32_t vcc_nextbits(BS *bs, int n)
{
    uint64_t p = bs->_tot_bits;
    inv(*bs, p);
    if (n > 32 || n < 0) throw InvalidInput(__FILE__, __LINE__);
    if (!have_(bs, p, n)) throw EndOfData(__FILE__, __LINE__);
    if (n == 0) return 0;
    uint64_t c = vc_ndw("byte in buffer", 29);
    vc_assume(c <= p >> 3);
    uint64_t cur = c << 3 | (p & 7), bl = vc_ndw("buffered", 29);
    rebuild(*bs, (p >> 3) - c, cur, bl, vc_ndw("shadowed", 29));
    vc_assume(cur + n <= 8 * bl);
    return (uint32_t)bits_(bs, p, n);
}
extern "C" void vcc_skip(BS *bs, uint16_t n)
{
    uint64_t p = bs->_tot_bits, L = bs->_p_cb->_buf_len;
    inv(*bs, p);
    uint64_t q = vc_ite(have_(bs, p, n), p + n, vc_ite(p <= 8 * L, 8 * L, p));
    uint64_t c = vc_ndw("byte in buffer", 29);
    vc_assume(c <= q >> 3);
    rebuild(*bs, (q >> 3) - c, c << 3 | (q & 7), vc_ndw("buffered", 29), vc_ndw("shadowed", 29));
    bs->_tot_bits = q;
}
#define ANY(f) HARNESS h_##f##_any() { f##_(4); }
#define PHASES(f) HARNESS h_##f##_0() { f##_(0); } HARNESS h_##f##_1() { f##_(1); } HARNESS h_##f##_2() { f##_(2); } HARNESS h_##f##_3() { f##_(3); }
static uint64_t bits_(BS *bs, uint64_t p, uint64_t n) { return vc_spec3("bits", vc_snap(bs->_p_cb->_buf), p, n); }
static uint64_t bits(W &w, uint64_t p, uint64_t n) { return vc_spec3("bits", vc_snap(w.S), p, n); }
static bool have(W &w, uint64_t p, uint64_t n) { return vc_or(n == 0, vc_and(p <= 8 * w.L, n <= 8 * w.L - p)); }
static void fill_(int ph)
{
    BS bs; W w; any_state(bs, w, ph);
    uint64_t p = bs._tot_bits, n = w.cur >> 3; bool done = false, eod = false;
    vc_may_throw(); vc_cover("pre");
    try { bs.fill_buf(); done = true; }
    catch (EndOfData &) { eod = true; }
    if (done) {
        vc_assert(vc_or(w.sl > 0, w.E < w.L), "the buffer is only advanced while more is to come");
        vc_assert(bs._buf_len == w.bl - n + vc_ite(w.sl < n, w.sl, n), "the bytes used up are replaced from the shadow buffer");
        vc_assert(bs._cur_bit == (w.cur & 7), "bit pointer moves to the first byte");
    }
    if (eod) vc_assert(vc_and(w.sl == 0, w.E >= w.L), "end of data only when the source is used up");
    inv(bs, w, p);
}
PHASES(fill)

template <class F> static void value(F call, uint64_t n, bool advance, bool sign, int ph)
{
    BS bs; W w; any_state(bs, w, ph);
    uint64_t p = bs._tot_bits; bool done = false, inval = false, eod = false; uint32_t r = 0;
    vc_may_throw(); vc_cover("pre");
    try { r = call(bs); done = true; }
    catch (InvalidInput &) { inval = true; }
    catch (EndOfData &) { eod = true; }
    if (done) {
        vc_cover("value");
        vc_assert(vc_and(n <= 32, have(w, p, n)), "a value is only returned when that many bits remain");
        uint64_t x = bits(w, p, n);
        if (sign) x = (uint32_t)vc_spec2("sext", x, n);
        vc_assert(r == x, "the value is the next bits of the source, most significant first");
        inv(bs, w, advance ? p + n : p);
    }
    if (eod) { vc_cover("end"); vc_assert(!have(w, p, n), "end of data only when fewer bits remain"); inv(bs, w, p); }
    if (inval) { vc_assert(n > 32, "only impossible sizes are refused"); inv(bs, w, p); }
}
static void nextbits_(int ph) { short n = (short)vc_nd("bits"); value([n](BS &b) { return b.nextbits(n); }, (uint64_t)(int64_t)n, false, false, ph); }
PHASES(nextbits)
static void getbits_(int ph) { short n = (short)vc_nd("bits"); value([n](BS &b) { return b.getbits(n); }, (uint64_t)(int64_t)n, true, false, ph); }
ANY(getbits)
static void sgetbits_(int ph) { short n = (short)vc_nd("bits"); value([n](BS &b) { return b.sgetbits(n); }, (uint64_t)(int64_t)n, true, true, ph); }
ANY(sgetbits)
static void next_(int ph) { short n = (short)vc_nd("bits"); value([n](BS &b) { return b.next(n, 1, 0, 0); }, (uint64_t)(int64_t)n, false, false, ph); }
ANY(next)
static void next_sign_(int ph) { short n = (short)vc_nd("bits"); value([n](BS &b) { return b.next(n, 1, 1, 0); }, (uint64_t)(int64_t)n, false, true, ph); }
ANY(next_sign)

static void skip_(int ph)
{
    BS bs; W w; any_state(bs, w, ph);
    uint64_t p = bs._tot_bits; uint16_t n = (uint16_t)vc_nd("bits");
    vc_set("n", n);
    vc_cover("pre");
    bs.skipbits((short)n);
    vc_cover("post");
    inv(bs, w, vc_ite(have(w, p, n), p + n, vc_ite(p <= 8 * w.L, 8 * w.L, p)));
}
ANY(skip)
template <int N> static void align_(int ph)
{
    BS bs; W w; any_state(bs, w, ph);
    uint64_t p = bs._tot_bits, q = p + ((N - (p & (N - 1))) & (N - 1)), r = 0; bool done = false, eod = false;
    vc_set("q", q);
    vc_may_throw(); vc_cover("pre");
    try { r = bs.align(N); done = true; }
    catch (EndOfData &) { eod = true; }
    bool fits = vc_or(q == p, q <= 8 * w.L);
    if (done) { vc_cover("aligned"); vc_assert(fits, "the boundary is only reached inside the source"); vc_assert(r == q - p, "the bits skipped are reported"); inv(bs, w, q); }
    if (eod) { vc_assert(!fits, "end of data only when the boundary lies past the end"); inv(bs, w, vc_ite(p <= 8 * w.L, 8 * w.L, p)); }
}
static void align8_(int ph) { align_<8>(ph); }
static void align16_(int ph) { align_<16>(ph); }
static void align32_(int ph) { align_<32>(ph); }
static void align64_(int ph) { align_<64>(ph); }
ANY(align8)
ANY(align16)
ANY(align32)
ANY(align64)
static void align_odd_(int ph)
{
    BS bs; W w; any_state(bs, w, ph);
    uint64_t p = bs._tot_bits; int n = (int)vc_nd("boundary"); bool done = false, bad = false;
    vc_assume(n % 8 != 0);
    vc_may_throw();
    try { bs.align(n); done = true; }
    catch (InvalidAlignment &) { bad = true; }
    vc_assert(bad, "a boundary that is no multiple of 8 is refused");
    inv(bs, w, p);
}
HARNESS h_align_odd() { align_odd_(3); }
static void read_(int ph)
{
    BS bs; W w; any_state(bs, w, ph);
    uint64_t p = bs._tot_bits, n = vc_ndw("bytes", 29); uint32_t got = 0;
    vc_assume((w.cur & 7) == 0);
    unsigned char *out = (unsigned char *)vc_alloc(n, "out");
    vc_set("nbytes", n); vc_set("out", 1);
    vc_cover("pre");
    bs.read(out, (uint32_t)n, &got);
    vc_cover("post");
    uint64_t rest = vc_ite(p <= 8 * w.L, w.L - (p >> 3), 0), m = vc_ite(n < rest, n, rest);
    vc_assert(got == m, "all bytes that remain, up to the number asked for, are read");
    uint64_t j = vc_nd("j");
    vc_assert(vc_implies(j < m, vc_peek(out, j) == vc_peek(w.S, (p >> 3) + j)), "the bytes read are those at the position");
    inv(bs, w, p + 8 * m);
}
ANY(read)
static void little_(int ph)
{
    BS bs; W w; any_state(bs, w, ph);
    uint64_t p = bs._tot_bits; int n = (int)vc_nd("bits"); bool done = false, eod = false; uint32_t r = 0;
    vc_assume(vc_and(n >= 0, n <= 32));
    vc_may_throw(); vc_cover("pre");
    try { r = bs.little_getbits(n); done = true; }
    catch (EndOfData &) { eod = true; }
    if (done) {
        vc_cover("value");
        vc_assert(have(w, p, n), "a value is only returned when that many bits remain");
        vc_assert(r == vc_spec3("little", vc_snap(w.S), p, n), "the value is the next bytes, least significant first, and the remaining bits on top");
        inv(bs, w, p + n);
    }
    if (eod) { vc_cover("end"); vc_assert(!have(w, p, n), "end of data only when fewer bits remain"); }
}
ANY(little)
static void nextcode_(int ph)
{
    BS bs; W w; any_state(bs, w, ph);
    uint64_t p = bs._tot_bits; bool done = false, eod = false; uint32_t r = 0, code = (uint32_t)vc_nd("code");
    int n = (int)vc_nd("bits"); vc_assume(vc_and(n >= 1, n <= 32));
    uint64_t j = vc_ndw("skipped position", 44);
    vc_set("j", j); vc_set("code", code); vc_set("nbits", n);
    vc_may_throw(); vc_cover("pre");
    try { r = bs.nextcode(code, n, 0); done = true; }
    catch (EndOfData &) { eod = true; }
    uint64_t q = bs._tot_bits;
    inv(bs, w, q);
    if (done) {
        vc_assert((uint32_t)(q - p) == r, "the number of bits skipped is reported");
        vc_assert(have(w, q, n), "the code is found inside the source");
        vc_assert(bits(w, q, n) == code, "the position is that of the code");
    }
    if (eod) vc_assert(vc_and(!have(w, q, n), q <= vc_ite(p < 8 * w.L, 8 * w.L, p)), "end of data only when fewer bits remain");
    vc_assert(vc_implies(vc_and(p + j < q, true), bits(w, p + j, n) != code), "no earlier position holds the code");
}
ANY(nextcode)
static void has_bits_(int ph)
{
    BS bs; W w; any_state(bs, w, ph);
    uint64_t p = bs._tot_bits; int n = (int)vc_nd("bits"); vc_assume(n >= 0);
    vc_cover("pre");
    bool r = bs.has_bits(n);
    vc_assert(vc_implies(have(w, p, (uint64_t)n), r), "bits that remain are announced");
    vc_assert(vc_implies(w.E >= w.L, r == have(w, p, (uint64_t)n)), "once the source is used up the answer is exact");
    bool e = bs.eof();
    vc_assert(e == (p >= 8 * w.L), "at the end exactly when no bit remains");
    inv(bs, w, p);
    vc_cover("post");
}
PHASES(has_bits)
HARNESS h_create()
{
    uint64_t L = vc_nd("source length"), B = vc_nd("buffer size");
    vc_assume(L < (1ull << 41)); vc_assume(B < (1ull << 29)); vc_assume(vc_or(B >= 5, L <= B));
    W w; w.L = L; w.B = B; w.S = (const unsigned char *)vc_alloc(L, "source");
    w.st = CResource<fixed_memory_read>(new fixed_memory_read(w.S, L));
    vc_cover("pre");
    BS bs(w.st, (uint32_t)B);
    vc_cover("post");
    inv(bs, w, 0);
}
HARNESS h_create_memory()
{
    uint64_t L = vc_nd("source length"); vc_assume(L < (1ull << 29));
    W w; w.L = L; w.B = L; w.S = (const unsigned char *)vc_alloc(L, "source");
    fixed_memory_bitstream bs(w.S, L);
    w.st = bs._read;
    inv(bs, w, 0);
    vc_cover("post");
}
static void set_position_(int ph)
{
    BS bs; W w; any_state(bs, w, ph);
    uint64_t q = vc_nd("position"); vc_assume(q < (1ull << 40));
    vc_cover("pre");
    bs.set_position(q);
    vc_cover("post");
    uint64_t p = bs._tot_bits;
    vc_assert(vc_implies(q <= w.L, p == 8 * q), "the position is the one asked for");
    vc_assert(vc_implies(q > w.L, p >= 8 * w.L), "past the end nothing remains");
    vc_assert(bs.get_position() == p >> 3, "the byte position is reported");
    inv(bs, w, p);
}
PHASES(set_position)
