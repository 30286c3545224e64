// Numbers, bytes and key identifiers as text of a string.
#include "vc.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
#include "src/b64/include/cencode.h"
#include <mg/media/TBitstream.h>
#include <vector>
#define BASE64
#define ATL_BASE64_FLAG_NOCRLF 2
#define ATL_BASE64_FLAG_NOPAD 1
#define BLOCK_LEN 16
#include "src/b64/include/cdecode.h"
// stand-ins for declarations of headers that do not compile here; used only by functions not under contract
enum { box_pssh };
struct CMP4WriteMemory { template <class... A> CMP4WriteMemory(A...) {} template <class... A> void open_box(A...) {} template <class... A> void close_box(A...) {} template <class... A> void write_box(A &&...) {} template <class... A> void open(A...) {} template <class... A> void flush(A...) {} unsigned char *get_buffer() { return 0; } uint64_t get_size() { return 0; } };
struct ProtectionSystemSpecificHeaderBox { void set_version(int) {} unsigned KID_count, DataSize; unsigned char SystemID, KID, *_p_data; };
#include "src/mgcli/cenc_provider.h"
using namespace MGCORE;
extern "C" void vcc_exc(void *self, int num, const void *, int) { ((MGCORE::mgexceptionbase *)self)->_err = num; }
extern "C" void vcc_exc_dtor(void *) {}
typedef CBuffer<char> B;
struct str { Cstring s; uint64_t L, Z, t; str() : s((const char *)0) {} };
static void any(str &x, const char *nm, uint64_t lmax = 29)
{
    x.L = vc_ndw(nm, lmax); x.Z = vc_ndw("allocated", 31); uint64_t orig = vc_ndw("initial size", 31);
    vc_assume(vc_and(x.L < x.Z, vc_and(1 <= orig, orig <= x.Z)));
    B *b = new B(1); delete[] b->m_p;
    char *t = vc_cstr(x.L, nm); x.t = vc_snap(t);
    b->m_p = (char *)operator new[](x.Z); vc_tag(b->m_p, nm);
    memset(b->m_p, 0, x.Z); memcpy(b->m_p, t, x.L);
    b->m_iSize = x.Z; b->m_iCurrent = x.L; b->m_iOrigin = orig;
    x.s.m_str = CResource<B>(b);
    vc_nul(x.L);
}
static void inv(Cstring &s, uint64_t L)
{
    B *b = s.m_str;
    vc_assert(b != 0 && vc_live(b) && vc_live(b->m_p), "the string has a live buffer");
    vc_assert(s.size() == L, "the string has the expected length");
    vc_assert(vc_and(L < b->m_iSize, vc_size(b->m_p) == b->m_iSize), "the text and its end fit the buffer");
    uint64_t j = vc_nd("behind");
    vc_assert(vc_implies(vc_and(L <= j, j < b->m_iSize), vc_peek(b->m_p, j) == 0), "zeros follow the text");
}
static void same(Cstring &s, uint64_t n, uint64_t t)
{
    uint64_t j = vc_nd("j");
    vc_assert(vc_implies(j < n, vc_peek(s.m_str->m_p, j) == vc_at(t, j)), "the text before stays");
}
// numbers: kind 0 signed, 1 unsigned, 2 float; decimal length and digits as sprintf defines them
template <class V> static void number(V v, uint64_t kind, uint64_t bits)
{
    str x; any(x, "text");
    x.s += v;
    uint64_t n = vc_spec2("declen", kind, bits), j = vc_nd("digit"); vc_inst(0);
    inv(x.s, x.L + n); same(x.s, x.L, x.t);
    vc_assert(vc_implies(j < n, vc_peek(x.s.m_str->m_p, x.L + j) == vc_spec3("decdigit", kind, bits, j)), "the decimal text of the number follows");
    vc_cover("post");
}
HARNESS h_int() { int v = (int)vc_ndw("v", 32); number(v, 0, (uint64_t)(int64_t)v); }
HARNESS h_i64() { int64_t v = (int64_t)vc_nd("v"); number(v, 0, (uint64_t)v); }
HARNESS h_uint() { unsigned v = (unsigned)vc_ndw("v", 32); number(v, 1, v); }
HARNESS h_u64() { uint64_t v = vc_nd("v"); number(v, 1, v); }
// reading back: sscanf of the whole text with the conversion of the type asked for
template <class V> static void scan(uint64_t kind)
{
    str x; any(x, "text"); vc_set("text", 0); vc_setp("buffer", x.s.m_str->m_p); vc_set("scanned", 0); vc_set("got", 0);
    V v = 0; bool thrown = false;
    try { v = (V)x.s; } catch (mgexceptionbase &) { thrown = true; }
    vc_assert(vc_get("kind") == kind, "read with the conversion of that type");
    uint64_t w = 0; memcpy(&w, &v, sizeof v);
    vc_assert(thrown == (vc_get("got") != 1), "text that is no number is reported");
    vc_assert(vc_implies(!thrown && v == v, w == vc_get("scanned")), "the number read is returned");
    inv(x.s, x.L); same(x.s, x.L, x.t);
    vc_cover("post");
}
HARNESS h_to_int() { scan<int>(0); }
HARNESS h_to_i64() { scan<int64_t>(1); }
HARNESS h_to_u64() { scan<uint64_t>(2); }
HARNESS h_to_double() { scan<double>(3); }
HARNESS h_to_bool()
{
    str x; any(x, "text", 3); vc_assume(x.L < 6);
    bool r = x.s; const char *w[5] = {"1", "true", "yes", "TRUE", "True"}; bool e = false;
    for (int i = 0; i < 5; i++) {
        uint64_t n = 0; while (w[i][n]) n++;
        bool m = x.L == n; for (uint64_t j = 0; j < n; j++) m = vc_and(m, vc_at(x.t, j) == (unsigned char)w[i][j]);
        e = vc_or(e, m);
    }
    for (int j = 0; j < 6; j++) vc_inst(j);
    vc_assert(r == e, "true for the words that mean it and for no other");
    vc_cover("post");
}
HARNESS h_format()
{
    str x; any(x, "text"); char *f = vc_cstr(3, "format"); vc_setp("format", f); vc_set("fres", 0); vc_set("flen", 0);
    bool thrown = false;
    try { x.s.append_format(f, 1, 2); } catch (mgexceptionbase &) { thrown = true; }
    int64_t r = (int64_t)vc_get("fres"); uint64_t n = vc_get("flen"), j = vc_nd("j");
    vc_assert(thrown == (r < 0), "a text that cannot be formatted is reported");
    if (!thrown) {
        inv(x.s, x.L + n);
        vc_assert(vc_implies(j < n, vc_peek(x.s.m_str->m_p, x.L + j) == vc_spec1("formatted", j)), "the formatted text follows");
        vc_assert(vc_implies(r < 2048, n == (uint64_t)r), "all of it, up to 2047 characters");
    } else inv(x.s, x.L);
    same(x.s, x.L, x.t);
    vc_cover("post");
}
// hexadecimal: appending one character at a time, by the contract of += (proved with the string class)
static char *rec; static uint64_t reclen;
extern "C" Cstring *vcc_append(Cstring *self, const char *t)
{
    vc_assert(vc_and(vc_peek(t, 0) != 0, vc_peek(t, 1) == 0), "one character is appended");
    rec[reclen] = t[0]; reclen++;
    return self;
}
static unsigned char hexchar(unsigned char n) { return n < 10 ? '0' + n : 'A' + (n - 10); }
HARNESS h_hex()
{
    uint64_t n = vc_ndw("size", 29); unsigned char *pb = (unsigned char *)vc_alloc(n, "bytes"); uint64_t s = vc_snap(pb);
    rec = (char *)vc_alloc(2 * n, "rec"); reclen = 0;
    Cstring c; vc_set("bs", s);
    vc_cover("pre");
    c.append_hex_buffer(pb, (uint32_t)n);
    vc_assert(reclen == 2 * n, "two characters for every byte");
    uint64_t j = vc_nd("j"); vc_assume(j < n); unsigned char v = vc_at(s, j);
    vc_assert(vc_peek(rec, 2 * j) == vc_spec1("hexchar", v >> 4), "high half first, in upper case");
    vc_assert(vc_peek(rec, 2 * j + 1) == vc_spec1("hexchar", v & 15), "low half second, in upper case");
    vc_assert(vc_peek(pb, j) == v, "the bytes stay");
    vc_cover("post");
}
// and reading it back; sscanf("%lx") of two characters
HARNESS h_unhex()
{
    str x; any(x, "text"); uint64_t n = vc_ndw("size", 28), at = vc_ndw("start", 28); vc_assume(at + 2 * n <= x.L); vc_nul(2);
    unsigned char *pb = (unsigned char *)vc_alloc(n, "bytes"); vc_set("at", at); vc_set("ts", x.t); vc_set("size", n); vc_set("bad", 0);
    uint64_t l = vc_leaks();
    vc_cover("pre");
    bool thrown = false;
    try { x.s.extract_binary_hex(pb, (uint32_t)n, (uint32_t)at); } catch (mgexceptionbase &) { thrown = true; }
    if (!thrown) {
        uint64_t j = vc_nd("j"); vc_assume(j < n);
        vc_assert(vc_peek(pb, j) == vc_spec2("hexval", vc_at(x.t, at + 2 * j), vc_at(x.t, at + 2 * j + 1)), "every byte is the value of its two characters");
        vc_cover("post");
    } else vc_assert(vc_get("bad") == 1, "only text that is not hexadecimal is reported");
    vc_assert(vc_leaks() == l, "all memory is released");
    inv(x.s, x.L); same(x.s, x.L, x.t);
}
HARNESS h_kid()
{
    unsigned char k[16]; vc_havoc(k, 16); uint64_t s = vc_snap(k);
    Cstring t = kid_to_string(k);
    const char *m = "00112233-4455-6677-8899-aabbccddeeff"; uint64_t b = 0;
    inv(t, 36);
    for (int i = 0; i < 36; i++) {
        if (m[i] == '-') { vc_assert(vc_peek(t.m_str->m_p, i) == '-', "a dash between the groups"); continue; }
        unsigned char v = vc_at(s, b / 2);
        vc_assert(vc_peek(t.m_str->m_p, i) == vc_spec1("hexchar", b & 1 ? v & 15 : v >> 4), "the halves of the bytes in order");
        b++;
    }
    vc_cover("post");
}
HARNESS h_kid_binary()
{
    unsigned char k[16], o[16]; vc_havoc(k, 16); vc_havoc(o, 16); uint64_t s = vc_snap(k);
    ((PlayReadyCencProvider *)0)->PlayReadyCencProvider::binary_encode_kid(k, o);
    const int from[16] = {3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15};
    for (int i = 0; i < 16; i++) vc_assert(vc_peek(o, i) == vc_at(s, from[i]), "the first three groups are reversed, the rest kept");
    vc_cover("post");
}
