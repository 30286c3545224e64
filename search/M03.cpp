// CRC-32/MPEG-2 of any buffer
#include "search.h"
#include "src/mg/media/wincrc.cpp"
static std::string run_case(Rng &r, uint64_t i)
{
    size_t n = i < 64 ? i : r.size(5000), al = r.below(8);
    uint8_t *p = (uint8_t *)malloc(n + al);
    for (size_t k = 0; k < n; k++) p[al + k] = r.byte();
    note(fmt("alignment %u, bytes %s", (unsigned)al, hex(std::string((char *)p + al, n)).c_str()));
    uint32_t c = 0xffffffffu;
    for (size_t k = 0; k < n; k++) { c ^= (uint32_t)p[al + k] << 24; for (int b = 0; b < 8; b++) c = c & 0x80000000u ? c << 1 ^ 0x04C11DB7u : c << 1; }
    CWinCrc *a = new CWinCrc; uint32_t g = a->crc_32(p + al, (unsigned)n); delete a;
    if (g != c) return fmt("crc of %u bytes is %08x, expected %08x", (unsigned)n, g, c);
    CWinCrc b, d; g = b.crc_32(p + al, (unsigned)n);
    uint32_t h = d.crc_32(p + al, (unsigned)n), h2 = b.crc_32(p + al, (unsigned)n);
    if (g != c || h != c || h2 != c) return fmt("repeated crc of %u bytes is %08x %08x %08x, expected %08x", (unsigned)n, g, h, h2, c);
    free(p);
    return "";
}
