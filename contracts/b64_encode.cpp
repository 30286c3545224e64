// Contracts for the incremental base64 encoder, over a ghost stream S: the bytes fed so far are
// S[0..P), the encoder state abstracts exactly that prefix.
#include "vc.h"
#include "src/b64/src/cencode.cpp"

// RFC 4648 alphabet, stated independently of the code's table
static uint8_t alpha(uint64_t v) { return (uint8_t)vc_spec1("alpha", v); }
static uint64_t sextet(const char *S, uint64_t t) { return vc_spec2("sextet", vc_snap(S), t); }

// the state abstracts S[0..P) where P = 3m+ph
static void assume_state(base64_encodestate *st, const char *S, uint64_t P, uint64_t ph)
{
    int sc = (int)vc_nd("stepcount");
    vc_assume(vc_and(sc >= 0, sc < 25000));
    st->stepcount = sc;
    char r = (char)vc_nd("result");
    if (ph == 0) { st->step = step_A; }
    if (ph == 1) { st->step = step_B; vc_assume((uint8_t)r == (uint8_t)((vc_peek(S, P - 1) & 3) << 4)); }
    if (ph == 2) { st->step = step_C; vc_assume((uint8_t)r == (uint8_t)((vc_peek(S, P - 1) & 15) << 2)); }
    st->result = r;
}
static void assert_state(base64_encodestate *st, const char *S, uint64_t P, uint64_t T)
{
    uint64_t left = 8 * P - 6 * T;                 // bits fed but not yet emitted
    uint8_t last = vc_peek(S, P - 1), r = (uint8_t)st->result;
    vc_assert(vc_implies(left == 0, st->step == step_A), "state after a multiple of 3 bytes");
    vc_assert(vc_implies(left == 2, vc_and(st->step == step_B, r == ((last & 3) << 4))), "state keeps the 2 pending bits");
    vc_assert(vc_implies(left == 4, vc_and(st->step == step_C, r == ((last & 15) << 2))), "state keeps the 4 pending bits");
    vc_assert(vc_and(st->stepcount >= 0, st->stepcount < 25000), "line counter in range");
}

static void block(uint64_t ph)
{
    // n bytes follow; ph + n = 3g + r
    uint64_t g = vc_nd("groups"), r3 = vc_nd("rest");
    vc_assume(g < (1ull << 29)); vc_assume(r3 < 3);
    uint64_t P = ph, T = ph;                        // ph bytes of a group yield ph sextets
    uint64_t n = vc_nd("length"), room = 4 * g + r3 - ph;
    vc_assume(n < (1ull << 31)); vc_assume(ph + n == 3 * g + r3);
    char *S = (char *)vc_alloc(P + n, "stream");
    char *out = (char *)vc_alloc(room, "code");
    base64_encodestate st;
    assume_state(&st, S, P, ph);
    vc_set("P", P); vc_set("T", T); vc_set("n", n); vc_set("S", vc_snap(S)); vc_setp("stepcount", &st.stepcount);
    vc_cover("pre");
    int r = base64_encode_block(S + P, (int)n, out, &st);
    vc_cover("post");
    vc_assert((uint64_t)(int64_t)r == room, "returns the number of complete sextets available");
    assert_state(&st, S, P + n, T + room);
    uint64_t j = vc_nd("j");
    vc_assume(j < room);
    vc_assert(vc_peek(out, j) == alpha(sextet(S, T + j)), "emitted character j is the base64 digit of sextet j");
}
HARNESS h_block_A() { block(0); }
HARNESS h_block_B() { block(1); }
HARNESS h_block_C() { block(2); }

HARNESS h_init()
{
    base64_encodestate st;
    base64_init_encodestate(&st);
    vc_cover("post");
    vc_assert(st.step == step_A, "initial state abstracts the empty stream");
    vc_assert(st.stepcount == 0, "initial line counter");
}

static void fin(uint64_t ph)
{
    uint64_t P = ph;
    char *S = (char *)vc_alloc(P, "stream");
    char *out = (char *)vc_alloc(ph == 0 ? 0 : 4 - ph, "code");
    base64_encodestate st;
    assume_state(&st, S, P, ph);
    vc_cover("pre");
    int r = base64_encode_blockend(out, &st);
    vc_cover("post");
    if (ph == 0) { vc_assert(r == 0, "nothing to pad"); return; }
    vc_assert((uint64_t)r == 4 - ph, "final group is completed to 4 characters");
    uint8_t last = vc_peek(S, P - 1);
    vc_assert(vc_peek(out, 0) == alpha(ph == 1 ? (last & 3) << 4 : (last & 15) << 2), "last digit carries the pending bits, zero filled");
    vc_assert(vc_peek(out, 1) == '=', "padding");
    if (ph == 1) vc_assert(vc_peek(out, 2) == '=', "second padding character");
}
HARNESS h_end_A() { fin(0); }
HARNESS h_end_B() { fin(1); }
HARNESS h_end_C() { fin(2); }
