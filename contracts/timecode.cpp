// Time codes: arithmetic, packed decimal form, and the 80-bit linear time code word.
#include "vc.h"
#include <mgcore.h>
#include <mg/media/WaveParser.h>
using namespace MGCORE;
static uint64_t frames(TC &t, uint64_t n) { return ((t._dwHours * 60ull + t._dwMinutes) * 60 + t._dwSeconds) * n + t._dwFrames; }
static void any(TC &t, uint64_t n)
{
    t._dwFrames = (DWORD)vc_ndw("frames", 8); t._dwSeconds = (DWORD)vc_ndw("seconds", 6); t._dwMinutes = (DWORD)vc_ndw("minutes", 6); t._dwHours = (DWORD)vc_ndw("hours", 5);
    t.set_n_frames((DWORD)n);
    vc_assume(vc_and(vc_and(t._dwFrames < n, t._dwSeconds < 60), vc_and(t._dwMinutes < 60, t._dwHours < 24)));
}
static void is(TC &t, uint64_t f, uint64_t s, uint64_t m, uint64_t h)
{
    vc_assert(vc_and(vc_and(t._dwFrames == f, t._dwSeconds == s), vc_and(t._dwMinutes == m, t._dwHours == h)), "the expected time");
}
static uint64_t rate() { uint64_t n = vc_ndw("rate", 7); vc_assume(vc_and(n >= 1, n <= 120)); return n; }
HARNESS h_valid()
{
    TC t; uint64_t f = vc_nd("f") & 0xffffffff, s = vc_nd("s") & 0xffffffff, m = vc_nd("m") & 0xffffffff, h = vc_nd("h") & 0xffffffff, n = rate();
    t._dwFrames = f; t._dwSeconds = s; t._dwMinutes = m; t._dwHours = h; t.set_n_frames(n);
    vc_assert(t.isValid() == vc_and(vc_and(f < n, s < 60), vc_and(m < 60, h < 24)), "valid within the ranges of its parts");
    vc_assert(t.IsZero() == vc_and(vc_and(f == 0, s == 0), vc_and(m == 0, h == 0)), "zero when every part is");
    TC u(t); is(u, f, s, m, h); TC v(f, s, m, h); is(v, f, s, m, h);
    TC w; any(w, n);
    vc_assert((t == w) == vc_and(vc_and(f == w._dwFrames, s == w._dwSeconds), vc_and(m == w._dwMinutes, h == w._dwHours)), "equal when every part is");
    vc_assert((t != w) == !(t == w), "different when not equal");
    w = t; is(w, f, s, m, h);
    TC z; is(z, 0, 0, 0, 0);
    vc_cover("post");
}
// a sum or difference is checked part by part with the carries it must have
HARNESS h_add()
{
    uint64_t n = rate(); TC a, b; any(a, n); any(b, n); uint64_t af = frames(a, n), bf = frames(b, n);
    TC c = a + b;
    uint64_t cf = a._dwFrames + b._dwFrames >= n, cs = a._dwSeconds + b._dwSeconds + cf >= 60, cm = a._dwMinutes + b._dwMinutes + cs >= 60, ch = a._dwHours + b._dwHours + cm >= 24;
    is(c, a._dwFrames + b._dwFrames - cf * n, a._dwSeconds + b._dwSeconds + cf - cs * 60, a._dwMinutes + b._dwMinutes + cs - cm * 60, a._dwHours + b._dwHours + cm - ch * 24);
    vc_assert(vc_and(vc_and(c._dwFrames < n, c._dwSeconds < 60), vc_and(c._dwMinutes < 60, c._dwHours < 24)), "a sum is a time of day");
    (void)af; (void)bf;
    vc_cover("post");
}
HARNESS h_increment()
{
    TC a; any(a, 25); uint64_t f = a._dwFrames, s = a._dwSeconds, m = a._dwMinutes, h = a._dwHours;
    TC r = ++a;
    uint64_t cf = f == 24, cs = cf & (s == 59), cm = cs & (m == 59), ch = cm & (h == 23);
    is(a, cf ? 0 : f + 1, vc_ite(cs, 0, s + cf), vc_ite(cm, 0, m + cs), vc_ite(ch, 0, h + cm));
    is(r, a._dwFrames, a._dwSeconds, a._dwMinutes, a._dwHours);
    vc_cover("post");
}
HARNESS h_subtract()
{
    uint64_t n = rate(); TC a, b; any(a, n); any(b, n);
    uint64_t bf = a._dwFrames < b._dwFrames, bs = a._dwSeconds < b._dwSeconds + bf, bm = a._dwMinutes < b._dwMinutes + bs;
    vc_assume(a._dwHours >= b._dwHours + bm);                // not before the time subtracted
    TC c = a - b;
    is(c, a._dwFrames + bf * n - b._dwFrames, a._dwSeconds + bs * 60 - b._dwSeconds - bf, a._dwMinutes + bm * 60 - b._dwMinutes - bs, a._dwHours - b._dwHours - bm);
    vc_cover("post");
}
HARNESS h_packed()
{
    TC a; any(a, 100); uint32_t p = a;
    vc_assert(p == (a._dwHours / 10 << 28 | a._dwHours % 10 << 24 | a._dwMinutes / 10 << 20 | a._dwMinutes % 10 << 16 | a._dwSeconds / 10 << 12 | a._dwSeconds % 10 << 8 | a._dwFrames / 10 << 4 | a._dwFrames % 10), "two decimal digits for each part, hours first");
    TC b(p);
    is(b, a._dwFrames, a._dwSeconds, a._dwMinutes, a._dwHours);
    vc_cover("post");
}
HARNESS h_time()
{
    // a time in 100 ns units, below 2^32 seconds
    int64_t t = (int64_t)vc_ndw("time", 56); vc_assume(t < (1ll << 32) * 10000000);
    int64_t ms = t / 10000 % 1000, s = t / 10000000 % 60, m = t / 600000000 % 60, h = t / 600000000 / 60;
    TC c((int64_t)t);
    is(c, ms / 40, s, m, h);
    vc_cover("post");
}
HARNESS h_add_time()
{
    int64_t t = (int64_t)vc_ndw("time", 56); vc_assume(t < (1ll << 32) * 10000000);
    int64_t ms = t / 10000 % 1000, s = t / 10000000 % 60, m = t / 600000000 % 60, h = t / 600000000 / 60;
    TC a; any(a, 25);
    TC e((DWORD)(ms / 40), (DWORD)s, (DWORD)m, (DWORD)h), u = a + e, v = a.SumHnano(t);
    is(v, u._dwFrames, u._dwSeconds, u._dwMinutes, u._dwHours);
    vc_cover("post");
}
HARNESS h_ltc()
{
    CTimeCode c; 
    c.m_time_code.one = vc_nd("one"); c.m_time_code.two = vc_nd("two"); c.m_time_code.check = (unsigned short)vc_nd("check");
    TC a; any(a, 40); vc_assume(a._dwFrames < 40);
    uint8_t d[8] = {(uint8_t)(a._dwFrames % 10), (uint8_t)(a._dwFrames / 10), (uint8_t)(a._dwSeconds % 10), (uint8_t)(a._dwSeconds / 10), (uint8_t)(a._dwMinutes % 10), (uint8_t)(a._dwMinutes / 10), (uint8_t)(a._dwHours % 10), (uint8_t)(a._dwHours / 10)};
    const int width[8] = {4, 2, 4, 3, 4, 3, 4, 2};
    uint64_t free = vc_nd("user bits and flags");
    for (int i = 0; i < 64; i++) {           // each digit starts a group of 8 bits, least significant bit first
        int g = i / 8, k = i % 8;
        c.push(k < width[g] ? d[g] >> k & 1 : free >> i & 1);
    }
    for (int i = 15; i >= 0; i--) c.push(0x3ffd >> i & 1);
    vc_assert(c.IsValid(), "a complete word is recognised by its sync pattern");
    TC t = c.GetTimeCode();
    is(t, a._dwFrames, a._dwSeconds, a._dwMinutes, a._dwHours);
    vc_assert(c.last() == 1, "the last bit received");
    c.ReSet(); vc_assert(!c.IsValid(), "a reset word is not valid");
    vc_cover("post");
}
HARNESS h_sync()
{
    CTimeCode c;
    c.m_time_code.one = vc_nd("one"); c.m_time_code.two = vc_nd("two"); c.m_time_code.check = (unsigned short)vc_nd("check");
    uint64_t v = vc_ndw("last bits", 16);
    for (int i = 15; i >= 0; i--) c.push(v >> i & 1);
    vc_assert(c.IsValid() == (v == 0x3ffd), "a word is recognised exactly when the last 16 bits are the sync pattern");
    vc_cover("post");
}
