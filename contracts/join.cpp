// Joining streams: where each stream continues.
// Ghost functions over the streams: E, S = end and start of a stream; me(i), ms(i), md(i) = latest end,
// earliest start and largest difference among the first i streams.
#include "vc.h"
#include <mgcore.h>
#include <mg/media/MediaJoin.h>
typedef std::vector<int64_t> V;
static uint64_t N; static V *D;
static int64_t E(uint64_t i) { return (int64_t)vc_spec1("end", i); }
static int64_t S(uint64_t i) { return (int64_t)vc_spec1("start", i); }
static int64_t diff(uint64_t i) { return (int64_t)vc_spec1("diff", i); }
static void set(V &v, int64_t *p, uint64_t n, uint64_t cap) { v._M_impl._M_start = p; v._M_impl._M_finish = p + n; v._M_impl._M_end_of_storage = p + cap; }
// assumed contracts of std::vector: an empty one is made with room for all streams, so that push_back only
// has to append; nothing is promised about the room it has
static V *T1, *T2; static int made;
extern "C" void vcc_vec(V *v) { int64_t *p = (int64_t *)vc_alloc(8 * N, "values"); vc_words(p, "values"); set(*v, p, 0, N); made++; if (made == 4) T1 = v; if (made == 5) T2 = v; }
extern "C" void vcc_vec_dtor(V *v) { vc_free(v->_M_impl._M_start); }
extern "C" void vcc_push(V *v, const int64_t *x)
{
    int64_t *e = v->_M_impl._M_finish;
    vc_assert(e != v->_M_impl._M_end_of_storage, "one value for each stream");
    uint64_t i = e - v->_M_impl._M_start;
    int64_t y = (int64_t)vc_nd("value"); vc_assume(y == *x);        // a name for the value, so that its bytes stay simple terms
    if (v == T1) vc_assert(y == E(i) - (int64_t)vc_spec1("me", N), "how far the stream is from the latest end");
    if (v == T2) vc_assert(y == (int64_t)vc_spec1("ms", N) - S(i), "how far the stream is from the earliest start");
    if (v == D) vc_assert((uint64_t)y == vc_spec1("diff", e - v->_M_impl._M_start), "the difference of the stream");
    *e = y; v->_M_impl._M_finish = e + 1;
}
// assumed contract of std::max_element: a position of the range no element of the range is larger than
extern "C" int64_t *vcc_max(int64_t *a, int64_t *e)
{
    vc_assert(e - a == (int64_t)N && N > 0, "all differences");
    uint64_t m = vc_ndw("largest", 20); vc_assume(m < N); vc_set("m", m);
    for (int k = 0; k < 2; k++) { uint64_t i = vc_get(k ? "t" : "s"); vc_assert(a[i] == diff(i), "the table holds the difference"); if (!k) vc_assert(a[m] == diff(m), "the table holds the largest difference"); vc_assume(diff(i) <= diff(m)); }
    return a + m;
}
HARNESS h_join()
{
    uint64_t l = vc_leaks();
    N = vc_ndw("streams", 20); vc_assume(N >= 1); vc_set("N", N);
    uint64_t s = vc_ndw("s", 20), t = vc_ndw("t", 20); vc_assume(vc_and(s < N, t < N)); vc_set("s", s); vc_set("t", t);
    {
        CMediaJoin j;
        int64_t *e = (int64_t *)vc_alloc(8 * N, "ends"), *b = (int64_t *)vc_alloc(8 * N, "starts");
        vc_words(e, "ends"); vc_words(b, "starts");
        vc_free(j._streams_end._M_impl._M_start); vc_free(j._streams_start._M_impl._M_start);
        set(j._streams_end, e, N, N); set(j._streams_start, b, N, N);
        vc_tag(j._streams_diff._M_impl._M_start, "diffs"); vc_words(j._streams_diff._M_impl._M_start, "diffs");
        D = &j._streams_diff;
        j.SetStreamCount(N);
        vc_assert(j.GetStreamCount() == N, "the number of streams");
        vc_spec1("begin", 0);
        vc_cover("pre");
        j.Compute();
        vc_cover("post");
        uint64_t m = vc_get("m");
        vc_spec1("valid", m);
        vc_assert(j.GetStreamDiff(s) == diff(s), "how far a stream is from the latest end and the earliest start");
        int64_t x = j.GetJoinTime(s), y = j.GetJoinTime(t), z = j.GetJoinTime(m);
        vc_assert(x - S(s) == y - S(t), "all streams keep their distance");
        vc_assert(x >= E(s), "no stream continues before its end");
        vc_assert(z == E(m), "one stream continues at its end");
    }
    vc_assert(vc_leaks() == l, "all memory is released");
}
