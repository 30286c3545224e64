// Contracts for the incremental base64 decoder.  Ghost functions over the code text of one call:
// cnt(i) = base64 digits among the first i characters, sx(t) = value of digit t (digits of earlier
// calls come first), bt(J) = byte J of the bit string formed by the digits, six bits each.
#include "vc.h"
#include "src/b64/src/cdecode.cpp"

static bool digit(uint8_t c) { return vc_spec1("isdigit", c) != 0; }

// requires nothing; ensures: the digit's value, or negative for any other character
extern "C" int vcc_decode_value(char c)
{
    int v = (int)vc_nd("value");
    vc_assume(vc_ite(digit((uint8_t)c), v == (int)vc_spec1("digitval", (uint8_t)c), vc_and(v < 0, v >= -128)) != 0);
    return v;
}
HARNESS h_value()
{
    char c = (char)vc_nd("character");
    vc_cover("pre");
    int v = base64_decode_value(c);
    vc_cover("post");
    vc_assert(vc_implies(digit((uint8_t)c), v == (int)vc_spec1("digitval", (uint8_t)c)), "value of a base64 digit");
    vc_assert(vc_implies(!digit((uint8_t)c), vc_and(v < 0, v >= -128)), "any other character is reported as no digit");
}
static void block(uint64_t s)
{
    static const uint64_t D[4] = { 0, 0, 1, 2 };
    uint64_t g = vc_nd("groups"), r4 = vc_nd("rest");
    vc_assume(g < (1ull << 29)); vc_assume(r4 < 4);
    uint64_t n = vc_nd("length");
    vc_assume(n < (1ull << 31)); vc_assume(s + n == 4 * g + r4);
    uint64_t room = 3 * g + vc_ite(r4 >= 1, r4 - 1, 0) - D[s] + 1;
    char *code = (char *)vc_alloc(n, "code");
    char *out = (char *)vc_alloc(room, "plain");
    base64_decodestate st;
    uint8_t carry = (uint8_t)vc_nd("carry");
    vc_set("s", s); vc_set("d", D[s]); vc_set("n", n);
    vc_assume(vc_spec2("partial", s, carry));
    st.step = s == 0 ? step_a : s == 1 ? step_b : s == 2 ? step_c : step_d;
    st.plainchar = (char)carry;
    vc_spec1("begin", 0);
    vc_setp("code", code);
    vc_cover("pre");
    uint64_t q = base64_decode_block(code, (int)n, out, &st);
    vc_cover("post");
    uint64_t t = s + vc_spec1("cnt", n), x = t & 3, J = q + D[s];
    vc_assert(vc_and(q < room, 3 * (t - x) == 4 * (J - vc_ite(x >= 1, x - 1, 0))), "number of bytes completed by the digits seen so far");
    vc_assert(vc_implies(x == 0, st.step == step_a), "state after a multiple of four digits");
    vc_assert(vc_implies(x == 1, st.step == step_b), "state after one more digit");
    vc_assert(vc_implies(x == 2, st.step == step_c), "state after two more digits");
    vc_assert(vc_implies(x == 3, st.step == step_d), "state after three more digits");
    vc_assert(vc_spec2("partial", t, (uint8_t)st.plainchar), "state keeps the bits not yet output");
    uint64_t j = vc_nd("j");
    vc_assume(j < q);
    vc_assert(vc_peek(out, j) == (uint8_t)vc_spec1("bt", D[s] + j), "byte j of the output is byte j of the digits' bit string");
}
HARNESS h_block_a() { block(0); }
HARNESS h_block_b() { block(1); }
HARNESS h_block_c() { block(2); }
HARNESS h_block_d() { block(3); }
HARNESS h_init()
{
    base64_decodestate st;
    base64_init_decodestate(&st);
    vc_cover("post");
    vc_assert(st.step == step_a, "initial state abstracts the empty text");
}
