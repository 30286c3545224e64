// base64 decoding, fed in arbitrary pieces, with characters outside the alphabet interspersed
#include "search.h"
#include "src/b64/src/cdecode.cpp"
static int val(uint8_t c)
{
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    return c == '+' ? 62 : c == '/' ? 63 : -1;
}
static std::string run_case(Rng &r, uint64_t i)
{
    for (int c = 0; c < 256; c++) {
        int v = base64_decode_value((char)c);
        if (val(c) >= 0 ? v != val(c) : v >= 0) return fmt("character %d decodes to %d", c, v);
    }
    static const char *A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string in, out, bits; unsigned junk = r.chance(50) ? r.below(60) : 0;
    size_t len = r.size(3000);
    for (size_t k = 0; k < len; k++) in += r.chance(junk) ? (char)r.byte() : r.chance(5) ? "=\n\r {"[r.below(5)] : A[r.below(64)];
    uint64_t acc = 0; int nb = 0; std::string exp;
    for (uint8_t c : in) if (val(c) >= 0) { acc = acc << 6 | val(c); nb += 6; if (nb >= 8) { nb -= 8; exp += (char)(acc >> nb); } }
    base64_decodestate st; base64_init_decodestate(&st);
    bool big = r.chance(50);
    for (size_t at = 0; at < in.size();) {
        size_t n = big ? r.size(in.size() - at) : r.below(5);
        if (n > in.size() - at) n = in.size() - at;
        char *src = (char *)malloc(n), *buf = (char *)malloc(n + 1);
        memcpy(src, in.data() + at, n);
        note_add(fmt("%u ", (unsigned)n));
        size_t k = base64_decode_block(src, (int)n, buf, &st);
        if (k > n) return fmt("decode returned %lu for %lu characters; text %s", (unsigned long)k, (unsigned long)n, hex(in).c_str());
        out.append(buf, k);
        free(src); free(buf); at += n;
    }
    if (out != exp) return "decoded bytes differ from the bits of the text; text (hex) " + hex(in) + " got " + hex(out) + " expected " + hex(exp);
    return "";
}
