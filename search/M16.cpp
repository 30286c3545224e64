// times in 100 ns units as text
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
#include <mg/media/hnano.h>
using namespace MGCORE;
static std::string run_case(Rng &r, uint64_t i)
{
    uint64_t v = r.word(); int64_t t = (int64_t)(v >> 1);
    if (i % 3 == 0) t = (int64_t)(r.below(300) * 36000000000 + r.below(60) * 600000000 + r.below(60) * 10000000 + r.below(1000) * 10000 + r.below(3) - 1);
    if (t < 0) t = 0;
    bool neg = t && r.chance(30);
    note(fmt("time %s%lld", neg ? "-" : "", (long long)t));
    long long ms = t / 10000, s = ms / 1000, m = s / 60, h = m / 60; ms %= 1000; s %= 60; m %= 60;
    std::string e = fmt("%s%02lld:%02lld:%02lld.%03lld", neg ? "-" : "", h, m, s, ms);
    Cstring x = hns(neg ? -t : t);
    if (e != (char *)x || x.size() != e.size()) return "text is '" + std::string((char *)x) + "'";
    HundredNano n(t), p(h, m, s, ms);
    if ((int64_t)n != t || n.H() != h || n.M() != m || n.S() != s || n.ML() != ms) return "parts differ";
    if ((int64_t)p != t - t % 10000) return "time of its parts differs";
    return "";
}
