// joining streams
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
#include <vector>
#include <mg/media/MediaJoin.h>
static std::string run_case(Rng &r, uint64_t i)
{
    int n = 1 + (int)r.below(r.chance(80) ? 5 : 40); uint64_t big = r.chance(50) ? 50 : 1ull << 60;
    CMediaJoin j; std::vector<int64_t> e, s; j.SetStreamCount(n); note(fmt("%d streams", n));
    for (int k = 0; k < n; k++) { e.push_back(r.below(big)); s.push_back(r.below(big)); j.AddStreamEnd(e[k]); j.AddStreamStart(s[k]); note_add(fmt(" %lld/%lld", (long long)e[k], (long long)s[k])); }
    j.Compute();
    int64_t me = 0, ms = s[0]; for (int k = 0; k < n; k++) { me = e[k] > me ? e[k] : me; ms = s[k] < ms ? s[k] : ms; }
    bool one = false;
    for (int k = 0; k < n; k++) {
        if (j.GetStreamDiff(k) != e[k] - me + ms - s[k]) return fmt("difference of stream %d is %lld", k, (long long)j.GetStreamDiff(k));
        int64_t t = j.GetJoinTime(k);
        if (t < e[k]) return fmt("stream %d continues before its end", k);
        if (t == e[k]) one = true;
        if (t - s[k] != j.GetJoinTime(0) - s[0]) return fmt("stream %d does not keep its distance", k);
    }
    if (!one) return "no stream continues at its end";
    return "";
}
