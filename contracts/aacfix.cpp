// Correction of audio times: each time follows the one before by a short or a long frame.
#include "vc.h"
#include <mgcore.h>
#define MAX_STREAM 8
#include <mg/media/aac_time_fix.h>
static const unsigned rates[] = {96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350};
static bool finite(double x) { return vc_and(x >= -1.7976931348623157e308, x <= 1.7976931348623157e308); }
static bool same(double x, double y) { return vc_or(x == y, vc_and(x != x, y != y)); }
static bool small(double x) { return vc_and(x >= -9e15, x <= 9e15); }
// facts about floating point sums that the proof of h_next* uses instead of their definition
HARNESS h_lemmas_add() { for (int i = 0; i < 5; i++) vc_assert(vc_spec2("lemma", 0, i) != 0, "a fact about sums"); vc_cover("post"); }
HARNESS h_lemmas_sub() { for (int i = 0; i < 5; i++) vc_assert(vc_spec2("lemma", 1, i) != 0, "a fact about differences"); vc_cover("post"); }
static bool durations(CAACFixStream *s) { return vc_and(vc_and(s->_min_frame_duration > 0, s->_min_frame_duration <= s->_max_frame_duration), s->_max_frame_duration < 1e12); }
// setting the rate of a stream: frame durations of 1024 and 1025 samples; no time seen yet
HARNESS h_rate()
{
    uint64_t l = vc_leaks();
    for (unsigned i = 0; i < sizeof(rates) / sizeof(*rates); i++) {
        CAACFix f; int id = (int)(i % MAX_STREAM);
        f.set_info(rates[i], id);
        CAACFixStream *s = f._streams[id];
        vc_assert(durations(s), "short and long frame");
        vc_assert(vc_and(s->_min_frame_duration == 1024.0 / rates[i] * 1e7, s->_max_frame_duration == 1025.0 / rates[i] * 1e7), "1024 and 1025 samples");
        f.set_info(rates[i], id);
        vc_assert(f._streams[id] == s, "setting it again changes nothing");
        double t = vc_fp("first time"); vc_assume(small(t));
        vc_assert(f.fix_audio_frequency_timing(t, id) == t, "the first time is kept");
        double o = vc_fp("other stream"); vc_assume(small(o));
        vc_assert(f.fix_audio_frequency_timing(o, (id + 1) % MAX_STREAM) == o, "a stream without a rate is left alone");
    }
    vc_cover("post");
    vc_assert(vc_leaks() == l, "all memory is released");
}
// any later time
static void next(int id, int other)
{
    CAACFix f; 
    f.set_info(48000, id); f.set_info(44100, other);
    CAACFixStream *s = f._streams[id], *q = f._streams[other];
    s->_min_frame_duration = vc_fp("short"); s->_max_frame_duration = vc_fp("long"); vc_assume(durations(s));
    double p = vc_fp("previous"), a = vc_fp("previous of another"); vc_assume(vc_and(small(p), small(a)));
    vc_assert(f.fix_audio_frequency_timing(p, id) == p, "the first time of a stream is kept");
    vc_assert(f.fix_audio_frequency_timing(a, other) == a, "the first time of another stream is kept");
    s->_error = vc_fp("error"); vc_assume(finite(s->_error));     // whatever times came before
    double e = s->_error, t = vc_fp("time"); vc_assume(small(t));
    double mn = s->_min_frame_duration, mx = s->_max_frame_duration;
    vc_cover("pre");
    double r = f.fix_audio_frequency_timing(t, id);
    vc_cover("post");
    vc_assert(r >= p, "times never go back");
    vc_assert(!(t - r > mx), "no time is more than a long frame behind");
    vc_assert(vc_or(vc_or(r == p + mn, r == p + mx), vc_or(r == p + mn + (mx - mn), r == t)), "a short frame, a long frame or the time given");
    double u = p + mn, v = p + mx, w = u + (mx - mn);
    vc_assert(vc_implies(!vc_or(vc_or(r == u, r == v), r == w), vc_or(t - u > mx, vc_or(t - v > mx, t - w > mx))), "the time given is taken only when it is far ahead");
    vc_assert(vc_implies(t - p >= mx, vc_or(r == v, r == t)), "a long frame when there is time for it");
    vc_assert(vc_implies(!(t - p >= mx), vc_or(r == t, vc_or(r == u, r == w))), "a short frame otherwise");
    double e1 = e + ((t - p) - mn), e2 = e + ((t - p) - mx); bool reset = vc_and(r == t, vc_or(t - u > mx, vc_or(t - v > mx, t - w > mx)));
    vc_assert(vc_implies(t - p >= mx, same(s->_error, e2)), "what is left after a long frame is kept");
    vc_assert(vc_implies(!(t - p >= mx), vc_implies(e1 >= mx - mn, vc_and(same(s->_error, e1 - (mx - mn)), vc_or(reset, r == w)))), "what has accumulated is used up once it makes a long frame");
    vc_assert(vc_implies(!(t - p >= mx), vc_implies(!(e1 >= mx - mn), vc_and(same(s->_error, e1), vc_or(reset, r == u)))), "what has accumulated is kept until it makes a long frame");
    vc_assert(s->_previus == r, "the next time follows this one");
    vc_assert(q->_previus == a, "other streams are not concerned");
}
HARNESS h_next_first() { next(0, 1); }
HARNESS h_next_last() { next(MAX_STREAM - 1, 0); }
