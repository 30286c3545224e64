// bit writer: random operations against a plain bit string, into memory storage, then read back
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include <mg/media/TBitstream.h>
#include "src/mg/core/thread.cpp"
struct cb : public Ibitstream_cb { std::string got; bool called = false; void read_cb(const unsigned char *p, uint32_t n) override { got.assign((const char *)p, n); called = true; } void write_cb(uint32_t) override { called = true; } };
static std::string storage(Rng &r)
{
    fixed_memory_write s(1 + (uint32_t)r.below(20)); std::string m; uint64_t pos = 0;
    for (int k = 0; k < 30; k++) {
        int w = (int)r.below(4); cb c;
        if (w < 2) {
            std::string b = r.bytes(r.below(30)); note_add(fmt(" write(%u)", (unsigned)b.size()));
            s.write((const unsigned char *)b.data(), (uint32_t)b.size(), &c);
            if (pos + b.size() > m.size()) m.resize(pos + b.size());
            m.replace(pos, b.size(), b); pos += b.size();
        } else if (w == 2) {
            uint64_t n = r.below(30); note_add(fmt(" read(%u)", (unsigned)n));
            s.read((uint32_t)n, &c);
            if (c.got != m.substr(pos, n)) return fmt("storage read at %u gives other bytes", (unsigned)pos);
            pos += c.got.size();
        } else { pos = r.below(m.size() + 1); if (pos) pos--; note_add(fmt(" set_position(%u)", (unsigned)pos)); s.set_position(pos); }
        if (s.get_position() != pos || s.size() != m.size()) return fmt("storage position %u size %u, expected %u %u", (unsigned)s.get_position(), (unsigned)s.size(), (unsigned)pos, (unsigned)m.size());
        if (memcmp(s.get_buffer(), m.data(), m.size())) return "storage content differs";
        if (s.eof() != (pos >= m.size())) return "storage eof is wrong";
    }
    return "";
}
static std::string run_case(Rng &r, uint64_t i)
{
    if (i % 3 == 0) return storage(r);
    uint32_t init = 1 + (uint32_t)r.below(60), B = 5 + (uint32_t)(r.chance(70) ? r.below(8) : r.below(300));
    write_memory_bitstream w(init, B);
    bitstream<fixed_memory_write> &b = w; IBitstream &o = w;
    std::string m; uint64_t p = 0, keep = 0;     // p: bit position; m: all bytes ever written
    note(fmt("initial %u buffer %u ops", init, B));
    auto put = [&](uint64_t v, int n) { for (int k = n - 1; k >= 0; k--, p++) { if ((p >> 3) >= m.size()) m += '\0'; if (!(p & 7)) { m[p >> 3] = 0; } if (v >> k & 1) m[p >> 3] |= (char)(0x80 >> (p & 7)); } };
    std::string e;
    for (int k = 0; k < 80 && e.empty(); k++) {
        int op = (int)r.below(10);
        if (op < 5) { int n = (int)r.below(33); uint32_t v = (uint32_t)r.next(); note_add(fmt(" putbits(%u,%d)", v, n)); o.putbits(v, (short)n); put(v, n); }
        else if (op < 7) {
            int n = (int)r.below(33); uint32_t v = (uint32_t)r.next(); note_add(fmt(" little_putbits(%u,%d)", v, n)); o.little_putbits(v, n);
            int j = 0; for (; j < n / 8; j++) put(v >> (8 * j) & 255, 8);
            if (n % 8) put(v >> (8 * j) & ((1 << n % 8) - 1), n % 8);
        } else if (op == 7) { if (p & 7) continue; std::string s = r.bytes(r.below(40)); note_add(fmt(" write(%u)", (unsigned)s.size())); b.write((const unsigned char *)s.data(), (uint32_t)s.size()); for (unsigned char ch : s) put(ch, 8); }
        else if (op == 8) { note_add(" flush"); b.flush(); if (w.get_size() < p / 8) e = "flush left whole bytes behind"; else if (memcmp(w.get_buffer(), m.data(), p / 8)) e = fmt("stored bytes differ after %lu bits", (unsigned long)p); }
        else { if ((p & 7) || !r.chance(20)) continue; b.flush(); uint64_t q = r.below(p / 8 + 1); note_add(fmt(" set_position(%u)", (unsigned)q)); b.set_position(q); p = 8 * q; }
        if (e.empty() && b._getpos() != p) e = fmt("bit position %lu, expected %lu", (unsigned long)b._getpos(), (unsigned long)p);
    }
    (void)keep;
    if (e.empty()) { while (p & 7) { o.putbits(0, 1); put(0, 1); } b.flush(); if (w.get_size() != m.size()) e = fmt("%u bytes stored, expected %u", (unsigned)w.get_size(), (unsigned)m.size()); else if (memcmp(w.get_buffer(), m.data(), m.size())) e = "stored bytes differ at the end"; }
    return e;
}
