// correction of audio times
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
#define MAX_STREAM 8
#include <mg/media/aac_time_fix.h>
static std::string run_case(Rng &r, uint64_t i)
{
    static const unsigned rates[] = {96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350};
    CAACFix f; struct S { bool on, first; double p, e, mn, mx; } s[MAX_STREAM];
    int n = 1 + (int)r.below(3), base = (int)r.below(MAX_STREAM - 2);
    for (int k = 0; k < MAX_STREAM; k++) s[k].on = false;
    for (int k = 0; k < n; k++) if (!k || r.chance(80)) { unsigned q = rates[r.below(13)]; S &x = s[base + k]; x.on = x.first = true; x.mn = 1024.0 / q * 1e7; x.mx = 1025.0 / q * 1e7; f.set_info(q, base + k); if (r.chance(30)) f.set_info(q, base + k); }
    note(fmt("streams from %d:", base)); double now = r.chance(20) ? 2147483647.0 : (double)r.below(1ull << 40);
    for (int c = 0; c < 60; c++) {
        int id = base + (int)r.below(n); S &x = s[id]; double t = now;
        note_add(fmt(" %d:%.17g", id, t));
        double got = f.fix_audio_frequency_timing(t, id), want;
        if (!x.on) want = t;
        else if (x.first) { x.first = false; x.e = 0; x.p = want = t; }
        else {
            double p = x.p;
            if (t - p >= x.mx) { x.e += (t - p) - x.mx; want = p + x.mx; }
            else { x.e += (t - p) - x.mn; want = p + x.mn; if (x.e >= x.mx - x.mn) { want += x.mx - x.mn; x.e -= x.mx - x.mn; } }
            if (t - want > x.mx) want = t;
            if (got < p) return fmt("the time goes back to %.17g", got);
            x.p = want;
        }
        if (got != want) return fmt("corrected time is %.17g, expected %.17g", got, want);
        double d = x.on ? x.mn : 200000;
        switch (r.below(8)) { case 0: now -= (double)r.below(1000); break; case 1: now += d * 3; break; case 2: now += d * (double)r.below(3); break; case 3: break; default: now += d + (double)r.below(400) - 200; }
    }
    return "";
}
