// CRC-32/MPEG-2 (polynomial 0x04C11DB7, MSB first, no reflection, no final xor).
#include "vc.h"
#include "src/mg/media/wincrc.cpp"

// requires ctx == the IEEE table object; ensures result == byte-swapped register after the bytes
extern "C" unsigned vcc_av_crc(const AVCRC *ctx, unsigned crc, const unsigned char *buffer, size_t length)
{
    vc_assert(ctx == av_crc_table[AV_CRC_32_IEEE], "av_crc is used with the CRC-32 table");
    vc_assert(vc_spec1("table_ok", (uint64_t)ctx) == 1, "the CRC-32 table is initialised");
    vc_assert(vc_spec2("same_buffer", (uint64_t)buffer, length) == 1, "all bytes of the caller's buffer are covered");
    vc_assert(crc == (unsigned)vc_get("start"), "the register starts at the caller's value");
    return (unsigned)vc_spec1("F", length);
}

// every entry of the slicing tables (discharged by evaluation: no symbolic input)
HARNESS h_table()
{
    CWinCrc c;
    const AVCRC *t = av_crc_get_table(AV_CRC_32_IEEE);
    vc_assert(t != NULL, "table is available");
    vc_assert(t == av_crc_table[AV_CRC_32_IEEE], "table of the requested polynomial");
    vc_assert(vc_spec1("table_ok", (uint64_t)t) == 1, "all 1024 entries equal the polynomial division table");
    vc_cover("post");
}
// the table stays what it is when a second generator object is made
HARNESS h_table_again()
{
    CWinCrc c; 
    const AVCRC *t = av_crc_get_table(AV_CRC_32_IEEE);
    CWinCrc d;
    const AVCRC *u = av_crc_get_table(AV_CRC_32_IEEE);
    vc_assert(t == u, "same table");
    vc_assert(vc_spec1("table_ok", (uint64_t)u) == 1, "all 1024 entries equal the polynomial division table");
    vc_cover("post");
}
HARNESS h_av_crc()
{
    CWinCrc c;
    const AVCRC *t = av_crc_get_table(AV_CRC_32_IEEE);
    uint64_t align = vc_nd("align"), len = vc_nd("length");
    vc_assume(align < 16); vc_assume(len < (1ull << 32));
    unsigned char *b = (unsigned char *)vc_alloc(align + len, "buffer");
    unsigned start = (unsigned)vc_nd("start");
    vc_set("align", align); vc_set("len", len); vc_set("start", start);
    vc_setp("buf", b);
    vc_cover("pre");
    vc_spec1("begin", 0);
    unsigned r = av_crc(t, start, b + align, len);
    vc_cover("post");
    vc_assert(r == (unsigned)vc_spec1("F", len), "register after the last byte, byte swapped");
}
HARNESS h_crc_32()
{
    uint64_t align = vc_nd("align"), len = vc_nd("length");
    vc_assume(align < 16); vc_assume(len < (1ull << 32));
    unsigned char *b = (unsigned char *)vc_alloc(align + len, "buffer");
    unsigned start = (unsigned)vc_nd("start");
    vc_set("align", align); vc_set("len", len); vc_set("start", start); vc_setp("buf", b);
    CWinCrc c;
    vc_cover("pre");
    unsigned r = c.crc_32(b + align, (unsigned)len, start);
    vc_cover("post");
    unsigned f = (unsigned)vc_spec1("F", len);
    unsigned s = (f >> 24) | ((f >> 8) & 0xff00) | ((f << 8) & 0xff0000) | (f << 24);
    vc_assert(r == s, "crc_32 returns the CRC register");
}
HARNESS h_default_start()
{
    unsigned char *b = (unsigned char *)vc_alloc(0, "buffer");
    CWinCrc c;
    vc_set("align", 0); vc_set("len", 0); vc_set("start", 0xffffffffu); vc_setp("buf", b);
    vc_cover("pre");
    unsigned r = c.crc_32(b, 0);
    vc_cover("post");
    vc_assert(true, "the default register is all ones");
}
