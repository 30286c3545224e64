// Times in 100 ns units as text.
#include "vc.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
#include <mg/media/hnano.h>
using namespace MGCORE;
extern "C" void vcc_exc(void *self, int num, const void *, int) { ((MGCORE::mgexceptionbase *)self)->_err = num; }
extern "C" void vcc_exc_dtor(void *) {}
// contracts of H, M, S and ML: the parts of the time (proved of their bodies in h_take_apart)
static int64_t gT, gH, gM, gS, gL;
extern "C" int64_t vcc_h(HundredNano *n) { vc_assert(n->_nano == gT, "the time asked for"); return gH; }
extern "C" int64_t vcc_m(HundredNano *n) { vc_assert(n->_nano == gT, "the time asked for"); return gM; }
extern "C" int64_t vcc_s(HundredNano *n) { vc_assert(n->_nano == gT, "the time asked for"); return gS; }
extern "C" int64_t vcc_ml(HundredNano *n) { vc_assert(n->_nano == gT, "the time asked for"); return gL; }
static uint64_t pw(int k) { uint64_t r = 1; while (k--) r *= 10; return r; }
static int digits(uint64_t v) { int d = 1; while (d < 20 && v >= pw(d)) d++; return d; }
static char *P; static uint64_t at;
static bool ok;
static void put(char c) { ok = vc_and(ok, vc_peek(P, at) == (unsigned char)c); at++; }
static void num(uint64_t v, int width)
{
    int d = digits(v), w = d < width ? width : d;
    for (int k = w - 1; k >= 0; k--) put(k >= d ? '0' : (char)('0' + v / pw(k) % 10));
}
static void any()
{
    gT = vc_nd("time"); vc_assume(gT >= 0);
    gH = vc_ndw("hours", 28); gM = vc_ndw("minutes", 6); gS = vc_ndw("seconds", 6); gL = vc_ndw("milliseconds", 10);
    vc_assume(vc_and(vc_and(gH <= 256204778, gM < 60), vc_and(gS < 60, gL < 1000)));
}
static void text(Cstring &t)
{
    P = t.m_str->m_p; at = 0; ok = true;
    num(gH, 2); put(':'); num(gM, 2); put(':'); num(gS, 2); put('.'); num(gL, 3); put(0);
    vc_assert(ok, "hours, minutes, seconds and milliseconds in decimal");
    vc_assert(t.size() == at - 1, "nothing else");
}
// contract of ToString for its caller: some text of that time, at most 18 characters
static char gText[20]; static uint64_t gLen;
extern "C" void vcc_tostring(Cstring *ret, HundredNano *n)
{
    vc_assert(n->_nano == gT, "the time to write");
    new (ret) Cstring(gText);
}
HARNESS h_text()
{
    uint64_t l = vc_leaks();
    {
        gT = vc_nd("time"); vc_assume(gT >= 0);
        gLen = vc_nd("length"); vc_assume(vc_and(gLen >= 1, gLen <= 18));
        for (uint64_t i = 0; i < 18; i++) { if (i == gLen) break; gText[i] = (char)vc_ndw("character", 8); vc_assume(gText[i] != 0); }
        gText[gLen] = 0;
        bool neg = vc_nd("negative") & 1; vc_assume(vc_implies(neg, gT > 0));
        Cstring t = hns(neg ? -gT : gT);
        P = t.m_str->m_p; at = 0; ok = true;
        if (neg) put('-');
        for (uint64_t i = 0; i < gLen; i++) put(gText[i]);
        put(0);
        vc_assert(ok, "the text of the time, after a minus sign when it is negative");
        vc_assert(t.size() == at - 1, "nothing else");
        vc_cover("post");
    }
    vc_assert(vc_leaks() == l, "all memory is released");
}
HARNESS h_string()
{
    any();
    HundredNano n(gT);
    Cstring t = n.ToString();
    text(t);
    vc_assert((int64_t)n == gT, "the time itself");
    vc_cover("post");
}
HARNESS h_parts()
{
    uint64_t H = vc_ndw("h", 27), M = vc_ndw("m", 20), S = vc_ndw("s", 20), L = vc_ndw("ms", 20);
    HundredNano n(H, M, S, L);
    vc_assert((uint64_t)(int64_t)n == H * 36000000000 + M * 600000000 + S * 10000000 + L * 10000, "a time made of its parts");
    vc_cover("post");
}
HARNESS h_take_apart()
{
    uint64_t T = vc_nd("time"); vc_assume(T < 1ull << 63);
    HundredNano n((int64_t)T);
    vc_assert(vc_and(vc_and(n.H() == T / 600000000 / 60, n.M() == T / 600000000 % 60), vc_and(n.S() == T / 10000000 % 60, n.ML() == T / 10000 % 1000)), "its parts");
    vc_assert(vc_and(vc_and((uint64_t)n.H() <= 256204778, (uint64_t)n.M() < 60), vc_and((uint64_t)n.S() < 60, (uint64_t)n.ML() < 1000)), "the ranges of the parts");
    vc_cover("post");
}
