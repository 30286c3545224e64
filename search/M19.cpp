// time codes
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
#include <mg/media/WaveParser.h>
using namespace MGCORE;
struct V { int64_t f, s, m, h; };
static std::string show(V v) { return fmt("%lld:%lld:%lld.%lld", (long long)v.h, (long long)v.m, (long long)v.s, (long long)v.f); }
static bool is(const TC &t, V v) { return t._dwFrames == (DWORD)v.f && t._dwSeconds == (DWORD)v.s && t._dwMinutes == (DWORD)v.m && t._dwHours == (DWORD)v.h; }
static int64_t pick(Rng &r, int64_t n) { return r.chance(40) ? (r.chance(50) ? 0 : n - 1) : (int64_t)r.below(n); }
static V any(Rng &r, int64_t n) { V v = {pick(r, n), pick(r, 60), pick(r, 60), pick(r, 24)}; return v; }
struct mk : TC { mk(V v, int64_t n) : TC((DWORD)v.f, (DWORD)v.s, (DWORD)v.m, (DWORD)v.h) { set_n_frames((DWORD)n); } };
static int64_t fr(V v, int64_t n) { return ((v.h * 60 + v.m) * 60 + v.s) * n + v.f; }
static V un(int64_t x, int64_t n) { V v; v.f = x % n; x /= n; v.s = x % 60; x /= 60; v.m = x % 60; v.h = x / 60; return v; }
static std::string run_case(Rng &r, uint64_t i)
{
    int64_t n = i % 7 == 1 || i % 7 == 5 ? 25 : 1 + (int64_t)r.below(120); if (r.chance(50)) n = 25;
    V a = any(r, n), b = any(r, n);
    note(fmt("case %d rate %lld ", (int)(i % 7), (long long)n) + show(a) + " " + show(b));
    switch (i % 7) {
    case 0: { mk x(a, n), y(b, n); TC c = x + y; V e = un(fr(a, n) + fr(b, n), n); e.h %= 24; if (!is(c, e)) return "sum differs"; } break;
    case 1: { a = any(r, 25); note_add(" increment " + show(a)); mk c(a, 25); TC d = ++c; V e = un(fr(a, 25) + 1, 25); e.h %= 24; if (!is(c, e) || !is(d, e)) return "next differs"; } break;
    case 2: { if (fr(a, n) < fr(b, n)) std::swap(a, b); mk x(a, n), y(b, n); TC c = x - y; if (!is(c, un(fr(a, n) - fr(b, n), n))) return "difference differs"; } break;
    case 3: { a.f %= 100; mk t(a, 100); uint32_t p = t; if (fmt("%08x", p) != fmt("%02d%02d%02d%02d", (int)a.h, (int)a.m, (int)a.s, (int)a.f)) return "packed form is " + fmt("%08x", p);
        TC u(p); if (!is(u, a)) return "unpacked time differs"; } break;
    case 4: { int64_t t = (int64_t)(r.word() % ((1ull << 32) * 10000000)); note_add(fmt(" time %lld", (long long)t)); int64_t ms = t / 10000; V e = {ms % 1000 / 40, ms / 1000 % 60, ms / 60000 % 60, ms / 3600000};
        TC c((int64_t)t); if (!is(c, e)) return "time code of a time differs";
        a = any(r, 25); note_add(" added to " + show(a)); mk u(a, 25); TC v = u.SumHnano(t); e.h = e.h; V q = un(fr(a, 25) + fr(e, 25), 25); (void)q;
        mk x(a, 25), y(e, 25); TC w = x + y; if (!(v == w)) return "sum with a time differs"; } break;
    case 5: { mk t(a, n), v(b, n); TC u(t); if (!is(u, a)) return "copy differs"; if ((t == v) != (show(a) == show(b)) || (t != v) != (show(a) != show(b))) return "comparison differs"; if (!t.isValid()) return "valid time code rejected";
        v = t; if (!is(v, a)) return "assignment differs"; if (t.IsZero() != (fr(a, n) == 0)) return "zero test differs";
        u._dwFrames = (DWORD)n; if (u.isValid()) return "invalid time code accepted"; } break;
    case 6: { CTimeCode z; for (uint64_t k = r.below(80); k; k--) z.push((int)r.below(2)); uint64_t v = r.chance(50) ? 0x3ffd ^ (r.chance(80) ? 1u << r.below(16) : 0u) : r.below(65536); for (int k = 15; k >= 0; k--) z.push((int)(v >> k & 1)); if (z.IsValid() != (v == 0x3ffd)) return fmt("sync pattern taken for %04x", (unsigned)v);
        a.f %= 40; note_add(" word"); CTimeCode c; c.ReSet(); for (uint64_t k = r.below(200); k; k--) c.push((int)r.below(2));
        int d[8] = {(int)a.f % 10, (int)a.f / 10, (int)a.s % 10, (int)a.s / 10, (int)a.m % 10, (int)a.m / 10, (int)a.h % 10, (int)a.h / 10}, w[8] = {4, 2, 4, 3, 4, 3, 4, 2};
        for (int g = 0; g < 8; g++) for (int k = 0; k < 8; k++) c.push(k < w[g] ? d[g] >> k & 1 : (int)r.below(2));
        for (int k = 15; k >= 0; k--) c.push(0x3ffd >> k & 1);
        if (!c.IsValid()) return "word not recognised"; TC t = c.GetTimeCode(); if (!is(t, a)) return "time code of a word differs"; c.ReSet(); if (c.IsValid()) return "reset word valid"; } break;
    }
    return "";
}
