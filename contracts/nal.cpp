// H.264 NAL units: header fields and removal of emulation prevention bytes.
// Ghost functions over the bytes of the unit: drop(k) = byte k is an emulation prevention byte
// (3 behind two zero bytes of the payload), cnt(k) = bytes kept among the first k.
#include "vc.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include "src/mg/core/thread.cpp"
#include <mg/media/h264nal.h>
using namespace MGCORE;
extern "C" void vcc_exc(void *self, int num, const void *, int) { ((MGCORE::mgexceptionbase *)self)->_err = num; }
extern "C" void vcc_exc_dtor(void *) {}
static const unsigned char *P; static uint64_t N, S; static H264Nal *D;
static bool drop(uint64_t k) { return vc_spec1("drop", k) != 0; }
static uint64_t cnt(uint64_t k) { return vc_spec1("cnt", k); }
// contract of a bit reader over a byte source in memory (M05), for the calls made here: bytes that
// were not changed since the reader was made are returned
struct Source : IBitstream
{
    uint64_t at, bit;
    uint8_t byte(uint64_t i)
    {
        vc_assert(i < N, "reads within the unit");
        vc_assert(vc_peek(P, i) == vc_at(S, i), "bytes not yet read are still those of the unit");
        return vc_at(S, i);
    }
    __attribute__((noinline)) uint32_t value(int n) { if (bit == 0) return value(n, 0); return value(n, bit); }
    __attribute__((noinline)) uint32_t value(int n, uint64_t b)
    {
        if (D) vc_tag(D->_last_decoded_nal.m_p, "result");
        vc_assert(vc_and(0 <= n, n <= 32), "width of a read");
        uint64_t v = 0;
        vc_assert(b < 8, "bit within a byte");
        int bytes = 0;
        for (; bytes < 5; bytes++) { if (8 * (uint64_t)bytes >= b + n) break; v = v << 8 | byte(at + bytes); }
        return (uint32_t)(v >> (8 * bytes - b - n) & ((1ull << n) - 1));
    }
    virtual uint32_t nextbits(short n) { return value(n); }
    virtual uint32_t getbits(short n) { uint32_t v = value(n); uint64_t e = bit + n; at += e / 8; bit = e % 8; return v; }
    void no() { vc_assert(false, "no other operation"); }
    virtual void putbits(uint32_t, short) { no(); }
    virtual uint32_t sgetbits(short) { no(); return 0; }
    virtual void flush() { no(); }
    virtual bool eof() { no(); return 0; }
    virtual void skipbits(short) { no(); }
    virtual uint32_t align(int) { no(); return 0; }
    virtual uint64_t getpos(void) { no(); return 0; }
    virtual uint32_t next(int, int, int, int) { no(); return 0; }
    virtual int little_putbits(unsigned int, int) { no(); return 0; }
    virtual uint32_t little_getbits(int) { no(); return 0; }
    virtual uint64_t get_position() const { return 0; }
    virtual void set_position(uint64_t) { no(); }
    virtual void read(unsigned char *, uint32_t, uint32_t *) { no(); }
    virtual void write(const unsigned char *, uint32_t) { no(); }
    virtual uint32_t nextcode(unsigned int, int, int) { no(); return 0; }
};
extern "C" void vcc_source(void *self, const unsigned char *p, uint64_t n)
{
    vc_assert(vc_same(p, P), "the reader reads the unit"); vc_assert(n == N, "all of it");
    Source *s = new (static_cast<IBitstream *>((fixed_memory_bitstream *)self)) Source; s->at = 0; s->bit = 0;
    vc_tag(self, "source"); vc_setp("at", &s->at); vc_setp("bit", &s->bit);
}
extern "C" void vcc_source_dtor(void *) {}
static unsigned char *unit()
{
    N = vc_ndw("size", 31); vc_assume(N >= 1);
    unsigned char *p = (unsigned char *)vc_alloc(N, "unit"); P = p; S = vc_snap(p);
    vc_set("N", N); vc_set("S", S);
    uint64_t k = vc_nd("position"); vc_assume(k < N); vc_set("k", k);
    vc_spec1("begin", 0);
    return p;
}
static void result(const unsigned char *out, uint64_t size, unsigned type, unsigned ref)
{
    uint64_t k = vc_get("k");
    vc_assert(type == (vc_at(S, 0) & 31), "the unit type");
    vc_assert(ref == (vc_at(S, 0) >> 5), "the reference value, behind a zero bit");
    vc_assert(size == cnt(N), "the bytes kept are those that are not emulation prevention bytes");
    vc_assert(vc_implies(!drop(k), cnt(k) < size), "a byte kept lies within the result");
    vc_assert(vc_implies(!drop(k), vc_peek(out, cnt(k)) == vc_at(S, k)), "every byte kept stands behind those kept before it");
}
HARNESS h_decode()
{
    uint64_t l = vc_leaks();
    {
        H264Nal d; CBuffer<unsigned char> &b = d._last_decoded_nal;
        uint64_t Z = vc_ndw("allocated", 31), full = vc_ndw("earlier result", 31), orig = vc_ndw("initial size", 31);
        vc_assume(vc_and(full <= Z, vc_and(1 <= orig, orig <= Z)));
        delete[] b.m_p; b.m_p = new unsigned char[Z]; vc_havoc(b.m_p, Z); b.m_iSize = Z; b.m_iCurrent = full; b.m_iOrigin = orig;
        unsigned char *p = unit();
        D = &d; vc_setp("num", &d._rbsp_bytes);
        vc_cover("pre");
        d.decode_nal((unsigned)N, p);
        vc_cover("post");
        result(d.decoded_rbsp(), d.decoded_rbsp_size(), d.get_decoded_nal_unit_type(), d.get_decoded_nal_ref_idc());
        vc_assert(b.size() == d.decoded_rbsp_size(), "the result is committed");
        uint64_t j = vc_get("k"); vc_assert(vc_peek(p, j) == vc_at(S, j), "the unit is not changed");
        vc_free(p);
    }
    vc_assert(vc_leaks() == l, "all memory is released");
}
HARNESS h_in_place()
{
    H264Nal d; unsigned char *p = unit();
    unsigned ref = 0, type = 0, size = 0;
    D = 0; vc_setp("num", &size);
    vc_cover("pre");
    d.decode_nal_in_place(ref, type, size, (unsigned)N, p);
    vc_cover("post");
    result(p, size, type, ref);
}
