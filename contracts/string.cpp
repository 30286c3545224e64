// String class (8-bit characters).  Invariant of a string with text t of length L: its buffer holds
// t at the front, L elements are committed, and a zero follows inside the allocation.
#include "vc.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
using namespace MGCORE;
extern "C" void vcc_exc(void *self, int num, const void *, int) { ((MGCORE::mgexceptionbase *)self)->_err = num; }
extern "C" void vcc_exc_dtor(void *) {}
typedef CBuffer<char> B;

struct str { Cstring s; uint64_t L, Z, t; str() : s((const char *)0) {} B *b() { return s.m_str; } };
static void any(str &x, const char *nm, uint64_t lmax = 29)
{
    x.L = vc_ndw(nm, lmax); x.Z = vc_ndw("allocated", 31); uint64_t orig = vc_ndw("initial size", 31);
    vc_assume(vc_and(x.L < x.Z, vc_and(1 <= orig, orig <= x.Z)));
    B *b = new B(1); delete[] b->m_p;
    char *t = vc_cstr(x.L, nm); x.t = vc_snap(t);
    b->m_p = (char *)operator new[](x.Z); vc_tag(b->m_p, nm);
    memset(b->m_p, 0, x.Z); memcpy(b->m_p, t, x.L);
    b->m_iSize = x.Z; b->m_iCurrent = x.L; b->m_iOrigin = orig;
    x.s.m_str = CResource<B>(b);
    vc_nul(x.L);
}
static void inv(Cstring &s, uint64_t L)
{
    B *b = s.m_str;
    vc_assert(b != 0 && vc_live(b) && vc_live(b->m_p), "the string has a live buffer");
    vc_assert(s.size() == L, "the string has the expected length");
    vc_assert(vc_and(L < b->m_iSize, vc_size(b->m_p) == b->m_iSize), "the text and its end fit the buffer");
    uint64_t j = vc_nd("behind");
    vc_assert(vc_implies(vc_and(L <= j, j < b->m_iSize), vc_peek(b->m_p, j) == 0), "zeros follow the text");
    vc_assert((char *)s == b->m_p, "the text is where the string says");
}
// text of s from `at` on, n characters, equals text t from `from` on
static void same(Cstring &s, uint64_t at, uint64_t n, uint64_t t, uint64_t from = 0)
{
    uint64_t j = vc_nd("j");
    vc_assert(vc_implies(j < n, vc_peek(s.m_str->m_p, at + j) == vc_at(t, from + j)), "the text is the expected one");
}
static void untouched(str &x) { inv(x.s, x.L); same(x.s, 0, x.L, x.t); }

HARNESS h_construct()
{
    uint64_t l = vc_leaks();
    {
        Cstring e; inv(e, 0);
        vc_assert(vc_and(!!e, e.len() == 0), "a new string is empty");
        uint32_t n = (uint32_t)vc_ndw("size", 31); vc_assume(n > 0);
        Cstring z(n); inv(z, 0);
        uint64_t L = vc_ndw("length", 30); char *t = vc_cstr(L, "text"); uint64_t ts = vc_snap(t); vc_nul(L);
        Cstring c(t); inv(c, L); same(c, 0, L, ts);
        vc_assert(c.len() == L, "the length is that of the text");
        vc_assert(!vc_same((char *)c, t), "the string has a copy of its own");
        vc_cover("post");
    }
    vc_assert(vc_leaks() == l, "all memory is released");
}
HARNESS h_assign_text()
{
    uint64_t l = vc_leaks();
    {
        str x; any(x, "left");
        uint64_t L = vc_ndw("length", 30); char *t = vc_cstr(L, "text"); uint64_t ts = vc_snap(t); vc_nul(L);
        x.s = t;
        inv(x.s, L); same(x.s, 0, L, ts);
        vc_cover("post");
    }
    vc_assert(vc_leaks() == l, "all memory is released");
}
HARNESS h_assign_part_of_itself()
{
    str x; any(x, "left"); uint64_t k = vc_ndw("from", 30); vc_assume(k <= x.L); vc_nul(x.L - k);
    x.s = (char *)x.s + k;
    inv(x.s, x.L - k); same(x.s, 0, x.L - k, x.t, k);
    vc_cover("post");
}
HARNESS h_share()
{
    str x; any(x, "right"); str y; any(y, "left");
    Cstring c(x.s);
    vc_assert(c.m_str.m_pInternalResource == x.s.m_str.m_pInternalResource, "a copy shares the buffer");
    y.s = x.s;
    vc_assert(y.s.m_str.m_pInternalResource == x.s.m_str.m_pInternalResource, "an assigned string shares the buffer");
    untouched(x); inv(y.s, x.L);
    Cstring d = x.s.clone();
    inv(d, x.L); same(d, 0, x.L, x.t);
    vc_assert(!vc_same((char *)d, (char *)x.s), "a clone has a buffer of its own");
    untouched(x);
    vc_cover("post");
}
HARNESS h_append_text()
{
    uint64_t l = vc_leaks();
    {
        str x; any(x, "left"); uint64_t L = vc_ndw("length", 29); char *t = vc_cstr(L, "text"); uint64_t ts = vc_snap(t); vc_nul(L);
        if (vc_nd("which") & 1) x.s += t; else x.s.append(t);
        inv(x.s, x.L + L); same(x.s, 0, x.L, x.t); same(x.s, x.L, L, ts);
        vc_cover("post");
    }
    vc_assert(vc_leaks() == l, "all memory is released");
}
HARNESS h_append_to_nothing()
{
    Cstring s((const char *)0); vc_assert(!s, "a string without text has no buffer");
    uint64_t L = vc_ndw("length", 29); char *t = vc_cstr(L, "text"); uint64_t ts = vc_snap(t); vc_nul(L);
    s.append(t);
    inv(s, L); same(s, 0, L, ts);
    vc_cover("post");
}
HARNESS h_append_string()
{
    str x; any(x, "left"); str y; any(y, "right");
    x.s += y.s;
    inv(x.s, x.L + y.L); same(x.s, 0, x.L, x.t); same(x.s, x.L, y.L, y.t);
    untouched(y);
    vc_cover("post");
}
HARNESS h_append_itself()
{
    str x; any(x, "text"); uint64_t k = vc_ndw("from", 30); vc_assume(k <= x.L); Cstring c(x.s);
    unsigned w = vc_nd("which") & 3;
    if (w == 0) { vc_assume(k == 0); x.s += x.s; } else if (w == 1) { vc_assume(k == 0); x.s += c; } else if (w == 2) x.s += (char *)x.s + k; else x.s.append((char *)x.s + k);
    inv(x.s, x.L + (x.L - k)); same(x.s, 0, x.L, x.t); same(x.s, x.L, x.L - k, x.t, k);
    vc_cover("post");
}
HARNESS h_plus()
{
    str x; any(x, "left"); str y; any(y, "right");
    unsigned w = vc_nd("which") & 3;
    Cstring r = w == 0 ? x.s + (const char *)y.s : w == 1 ? x.s + y.s : w == 2 ? (const char *)x.s + y.s : x.s + "";
    uint64_t m = w == 3 ? 0 : y.L;
    inv(r, x.L + m); same(r, 0, x.L, x.t); same(r, x.L, m, y.t);
    vc_assert(!vc_same((char *)r, (char *)x.s), "the result has a buffer of its own");
    untouched(x); untouched(y);
    vc_cover("post");
}
HARNESS h_substring()
{
    str x; any(x, "text"); uint64_t b = vc_ndw("begin", 32), n = vc_ndw("count", 32); vc_assume(n < 0xffffffff);
    uint64_t left = b < x.L ? x.L - b : 0, m = n < left ? n : left;
    vc_nul(m);
    Cstring r = x.s.subString(b, n);
    vc_assert(r.len() == m, "as many characters as asked for and available");
    same(r, 0, m, x.t, b);
    vc_assert(vc_and(r.size() <= n, r.size() < r.m_str->m_iSize), "no more than asked for is committed");
    vc_assert(!vc_same((char *)r, (char *)x.s), "the result has a buffer of its own");
    untouched(x);
    vc_cover("post");
}
HARNESS h_length()
{
    str x; any(x, "text");
    vc_assert(vc_and(x.s.size() == x.L, x.s.len() == x.L), "size and length are those of the text");
    x.s.Clear();
    inv(x.s, 0);
    vc_assert(x.s.m_str->m_iSize == x.Z, "clearing keeps the memory");
    vc_cover("post");
}
HARNESS h_compare()
{
    str x; any(x, "left"); str y; any(y, "right"); const char *t = (char *)y.s;
    unsigned w = vc_nd("which"); w %= 6; bool r = w == 0 ? x.s == t : w == 1 ? !(x.s != t) : w == 2 ? Equals(y.s, x.s) : w == 3 ? t == (const Cstring &)x.s : w == 4 ? !(t != (const Cstring &)x.s) : x.s < y.s;
    uint64_t j = vc_nd("j"), d = vc_get("differ"); vc_inst(j);
    bool dif = vc_and(vc_and(d <= x.L, d <= y.L), vc_at(x.t, vc_ite(d <= x.L, d, 0)) != vc_at(y.t, vc_ite(d <= y.L, d, 0)));
    if (w < 5) {
        vc_assert(vc_implies(r, x.L == y.L), "equal strings have the same length");
        vc_assert(vc_implies(vc_and(r, j < x.L), vc_at(x.t, j) == vc_at(y.t, j)), "equal strings have the same text");
        vc_assert(vc_implies(!r, dif), "different strings differ somewhere");
    } else {
        vc_assert(vc_implies(r, vc_and(dif, vc_at(x.t, d) < vc_at(y.t, d))), "the smaller string has the smaller character where they differ first");
        vc_assert(vc_implies(vc_and(r, j < d), vc_at(x.t, j) == vc_at(y.t, j)), "the strings agree before that");
    }
    untouched(x); untouched(y);
    vc_cover("post");
}
// strstr as an assumed contract: F(b) is the position of the first occurrence at or after b
static const char *hay, *needle; static uint64_t hlen, nlen;
#define NONE (~0ull)
static uint64_t F(uint64_t b) { return vc_spec1("first", b); }
static void known(uint64_t b)
{
    uint64_t r = F(b);
    vc_assume(vc_or(r == NONE, vc_and(vc_and(b <= r, r <= hlen), vc_and(r + nlen <= hlen, F(r) == r))));
}
extern "C" const char *vcc_strstr(const char *h, const char *n)
{
    vc_assert(vc_same(h, hay), "the text searched is that of the string");
    uint64_t b = h - hay;
    vc_assert(b <= hlen, "the search starts inside the text");
    vc_assert(vc_and(vc_same(n, needle), n == needle), "the text searched for is the one given");
    known(b);
    uint64_t r = F(b);
    return r == NONE ? 0 : hay + r;
}
static void search(str &x, uint64_t &b)
{
    any(x, "text"); nlen = vc_ndw("needle length", 29); vc_assume(nlen > 0); needle = vc_cstr(nlen, "needle");
    hay = (char *)x.s; hlen = x.L; b = vc_ndw("begin", 30); vc_assume(b <= x.L);
    vc_set("b0", b); vc_set("L", x.L);
}
HARNESS h_find()
{
    str x; uint64_t b; search(x, b);
    int r = x.s.find(needle, (uint32_t)b);
    uint64_t f = F(b);
    vc_assert((uint64_t)(int64_t)r == f, "the first occurrence at or behind the start, or none");
    untouched(x);
    vc_cover("post");
}
HARNESS h_rfind()
{
    str x; uint64_t b; search(x, b);
    vc_cover("pre");
    int r = x.s.rfind(needle, (uint32_t)b);
    vc_assert(vc_implies(r == -1, F(b) == NONE), "none only if there is no occurrence");
    vc_assert(vc_implies(r != -1, vc_and(vc_and(r >= (int64_t)b, F((uint64_t)r) == (uint64_t)r), F((uint64_t)r + 1) == NONE)), "an occurrence behind which there is no other");
    untouched(x);
    vc_cover("post");
}
HARNESS h_direct()
{
    str x; any(x, "text"); uint64_t n = vc_ndw("size", 29); vc_assume(n > 0);
    char *p = x.s.GetBuffer(n, false);
    vc_assert(vc_and(p == (char *)x.s + x.L, vc_size(p) > n), "room for the size asked for and an end behind the text");
    inv(x.s, x.L); same(x.s, 0, x.L, x.t);
    char *t = vc_cstr(n, "new text"); uint64_t ts = vc_snap(t); memcpy(p, t, n);
    x.s.CommitBuffer(n);
    inv(x.s, x.L + n); same(x.s, 0, x.L, x.t); same(x.s, x.L, n, ts);
    vc_cover("post");
}
