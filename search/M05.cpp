// bit reader: random operations against a plain bit string
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include "src/mg/core/thread.cpp"
static uint64_t bits(const std::string &s, uint64_t p, int n) { uint64_t x = 0; for (int i = 0; i < n; i++, p++) x = x << 1 | ((uint8_t)s[p >> 3] >> (7 - (p & 7)) & 1); return x; }
static std::string run_case(Rng &r, uint64_t)
{
    std::string src = r.bytes(r.chance(50) ? r.below(40) : r.below(3000));
    uint64_t L = src.size(), B = r.chance(20) ? L : 5 + (r.chance(60) ? r.below(8) : r.below(200)), E = 8 * L, p = 0;
    if (B < 5 && B < L) B = 5;
    unsigned char *mem = (unsigned char *)malloc(L); memcpy(mem, src.data(), L);
    note(fmt("length %u buffer %u bytes %s ops", (unsigned)L, (unsigned)B, hex(src).c_str()));
    std::string e;
    {
        CResource<fixed_memory_read> st(new fixed_memory_read(mem, L));
        bitstream<fixed_memory_read> a(st, (uint32_t)B);
        bitstream<fixed_memory_read> &b = a;
        for (int k = 0; k < 60 && e.empty(); k++) {
            uint64_t q = p, x = 0, want = 0; bool eod = false, weod = false, inval = false, winval = false; std::string op; bool cmp = true;
            int n = r.chance(10) ? (int)r.below(60) - 10 : (int)r.below(33);
            uint64_t left = p < E ? E - p : 0;
            int w = (int)r.below(12);
            if (w < 5) {
                static const char *N[] = {"getbits", "sgetbits", "nextbits", "next", "next signed"};
                op = fmt("%s(%d)", N[w], n); note_add(" " + op);
                winval = n < 0 || n > 32; weod = !winval && (uint64_t)n > left;
                try { x = w == 0 ? b.getbits(n) : w == 1 ? b.sgetbits(n) : w == 2 ? b.nextbits(n) : w == 3 ? b.next(n, 1, 0, 0) : b.next(n, 1, 1, 0); }
                catch (EndOfData &) { eod = true; } catch (InvalidInput &) { inval = true; }
                if (!weod && !winval) { want = bits(src, p, n); if ((w == 1 || w == 4) && n > 1 && (want >> (n - 1) & 1)) want |= (uint32_t)(~0ull << n); if (w < 2) q = p + n; }
            } else if (w == 5) {
                uint64_t m = r.chance(50) ? r.below(40) : r.below(9) ? r.below(32768) : r.size(32767);
                op = fmt("skipbits(%u)", (unsigned)m); note_add(" " + op);
                b.skipbits((short)m); q = m <= left ? p + m : p < E ? E : p; cmp = false;
            } else if (w == 6) {
                int al = 8 << r.below(4); uint64_t t = (p + al - 1) / al * al;
                op = fmt("align(%d)", al); note_add(" " + op);
                weod = t != p && t > E;
                try { x = b.align(al); } catch (EndOfData &) { eod = true; }
                want = t - p; q = weod ? (p < E ? E : p) : t;
            } else if (w == 7) {
                op = fmt("little_getbits(%d)", n < 0 ? 0 : n > 32 ? 32 : n); note_add(" " + op);
                if (n < 0) n = 0; if (n > 32) n = 32;
                if ((uint64_t)n > left) n = 0;
                x = b.little_getbits(n); int i = 0;
                for (; i < n / 8; i++) want |= bits(src, p + 8 * i, 8) << 8 * i;
                if (n % 8) want |= bits(src, p + 8 * i, n % 8) << 8 * i;
                q = p + n;
            } else if (w == 8) {
                if (p & 7) continue;
                uint64_t m = r.chance(60) ? r.below(30) : r.below(2000), take = m < left / 8 ? m : left / 8;
                op = fmt("read(%u)", (unsigned)m); note_add(" " + op);
                unsigned char *o = (unsigned char *)malloc(m); uint32_t got = 0;
                b.read(o, (uint32_t)m, &got);
                if (got != take) e = fmt("%s at bit %lu returned %u bytes", op.c_str(), (unsigned long)p, got);
                else if (memcmp(o, src.data() + p / 8, take)) e = fmt("%s at bit %lu returned other bytes", op.c_str(), (unsigned long)p);
                free(o); q = p + 8 * take; cmp = false;
            } else if (w == 9) {
                uint64_t t = r.chance(90) ? r.below(L + 1) : r.below(L + 20);
                op = fmt("set_position(%lu)", (unsigned long)t); note_add(" " + op);
                b.set_position(t);
                if (t <= L) q = 8 * t; else { if (b._getpos() < E) e = op + " left the position before the end"; q = b._getpos(); }
                cmp = false;
            } else if (w == 10) {
                op = fmt("has_bits(%d)", n < 0 ? 0 : n); note_add(" " + op);
                bool h = b.has_bits(n < 0 ? 0 : n); want = (uint64_t)(n < 0 ? 0 : n) <= left;
                if (want && !h) e = op + " denies bits that remain";
                if (!want && h && st->eof()) e = op + " announces bits that do not exist";
                if (b.eof() != (p >= E)) e = op + ": eof is wrong";
                cmp = false;
            } else {
                n = 1 + (int)r.below(12); uint32_t code = left > 64 && r.chance(90) ? (uint32_t)bits(src, p + r.below(left - n), n) : (uint32_t)r.below(1u << n);
                op = fmt("nextcode(%u,%d)", code, n); note_add(" " + op);
                uint64_t t = p; while (t + n <= E && bits(src, t, n) != code) t++;
                if (t + n > E) weod = true; 
                try { x = b.nextcode(code, n, 0); } catch (EndOfData &) { eod = true; }
                want = t - p; q = weod ? b._getpos() : t;
                if (weod && p < E && b._getpos() > E) e = op + " moved past the end";
            }
            if (!e.empty()) break;
            if (eod != weod) e = fmt("%s at bit %lu of %lu: %s", op.c_str(), (unsigned long)p, (unsigned long)E, eod ? "end of data although bits remain" : "no end of data");
            else if (inval != winval) e = op + ": invalid input is wrong";
            else if (cmp && !eod && !inval && (uint32_t)x != (uint32_t)want) e = fmt("%s at bit %lu of %lu gives %u, expected %u", op.c_str(), (unsigned long)p, (unsigned long)E, (unsigned)x, (unsigned)want);
            else if (b._getpos() != q) e = fmt("%s at bit %lu of %lu: position becomes %lu, expected %lu", op.c_str(), (unsigned long)p, (unsigned long)E, (unsigned long)b._getpos(), (unsigned long)q);
            p = q;
        }
    }
    free(mem);
    return e;
}
