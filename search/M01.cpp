// base64 encoding, fed in arbitrary pieces
#include "search.h"
#include "src/b64/src/cencode.cpp"
static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref(const std::string &s)
{
    std::string r;
    for (size_t i = 0; i < s.size(); i += 3) {
        unsigned n = s.size() - i, v = (uint8_t)s[i] << 16 | (n > 1 ? (uint8_t)s[i + 1] << 8 : 0) | (n > 2 ? (uint8_t)s[i + 2] : 0);
        r += A[v >> 18]; r += A[v >> 12 & 63]; r += n > 1 ? A[v >> 6 & 63] : '='; r += n > 2 ? A[v & 63] : '=';
    }
    return r;
}
static std::string run_case(Rng &r, uint64_t i)
{
    std::string in = r.bytes(i % 50 == 49 ? 60000 + r.below(90000) : r.size(3000)), out, log;
    base64_encodestate st; base64_init_encodestate(&st);
    bool big = r.chance(50);
    for (size_t at = 0; at < in.size() || r.chance(20);) {
        size_t n = big ? r.size(in.size() - at) : r.below(5);
        if (n > in.size() - at) n = in.size() - at;
        if (r.chance(3)) n = in.size() - at;
        char *src = (char *)malloc(n), *buf = (char *)malloc(2 * n + 4);
        memcpy(src, in.data() + at, n);
        log += fmt("%u ", (unsigned)n); note("pieces: " + log.substr(log.size() > 500 ? log.size() - 500 : 0) + "input: " + hex(in));
        int k = base64_encode_block(src, (int)n, buf, &st);
        if (k < 0 || (size_t)k > 2 * n + 4) return fmt("encode returned %d for %u bytes", k, (unsigned)n);
        out.append(buf, k);
        free(src); free(buf); at += n;
    }
    char tail[8]; int k = base64_encode_blockend(tail, &st);
    if (k < 0 || k > 4) return fmt("final block of %d characters", k);
    out.append(tail, k);
    if (out != ref(in)) {
        size_t d = 0; std::string e = ref(in); while (d < out.size() && d < e.size() && out[d] == e[d]) d++;
        return fmt("base64 text differs at character %u of %u (expected length %u)", (unsigned)d, (unsigned)out.size(), (unsigned)e.size());
    }
    return "";
}
