// numbers and bytes as text
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
#include <vector>
#include "src/b64/include/cencode.h"
#include <mg/media/TBitstream.h>
#define BASE64
#define ATL_BASE64_FLAG_NOCRLF 2
#define ATL_BASE64_FLAG_NOPAD 1
#define BLOCK_LEN 16
#include "src/b64/include/cdecode.h"
#include "src/b64/src/cencode.cpp"
#include "src/b64/src/cdecode.cpp"
enum { box_pssh };
struct CMP4WriteMemory { template <class... A> CMP4WriteMemory(A...) {} template <class... A> void open_box(A...) {} template <class... A> void close_box(A...) {} template <class... A> void write_box(A &&...) {} template <class... A> void open(A...) {} template <class... A> void flush(A...) {} unsigned char *get_buffer() { return 0; } uint64_t get_size() { return 0; } };
struct ProtectionSystemSpecificHeaderBox { void set_version(int) {} unsigned KID_count, DataSize; unsigned char SystemID, KID, *_p_data; };
#include "src/mgcli/cenc_provider.h"
using namespace MGCORE;
static std::string run_case(Rng &r, uint64_t i)
{
    std::string pre; for (uint64_t n = r.below(30); n; n--) pre += (char)(1 + r.below(255));
    Cstring s((uint32_t)(1 + r.below(40))); s += pre.c_str(); std::string e; uint64_t v = r.word();
    switch (i % 7) {
    case 0: note(fmt("+= int %d", (int)v)); s += (int)v; e = fmt("%d", (int)v); break;
    case 1: note(fmt("+= int64 %lld", (long long)v)); s += (int64_t)v; e = fmt("%lld", (long long)v); break;
    case 2: note(fmt("+= unsigned %u", (unsigned)v)); s += (unsigned)v; e = fmt("%u", (unsigned)v); break;
    case 3: note(fmt("+= uint64 %llu", (unsigned long long)v)); s += (uint64_t)v; e = fmt("%llu", (unsigned long long)v); break;
    case 4: { std::string b = r.bytes(r.size(400)); note("append_hex " + hex(b)); unsigned char *p = (unsigned char *)malloc(b.size()); memcpy(p, b.data(), b.size());
        s.append_hex_buffer(p, (uint32_t)b.size()); for (unsigned char c : b) e += fmt("%02X", c);
        unsigned char *q = (unsigned char *)malloc(b.size()); s.extract_binary_hex(q, (uint32_t)b.size(), (uint32_t)pre.size()); bool same = !b.size() || !memcmp(p, q, b.size()); free(p); free(q);
        if (!same) return "bytes read back differ"; } break;
    case 5: { std::string b = r.bytes(16); note("kid " + hex(b)); Cstring k = kid_to_string((unsigned char *)&b[0]); for (int j = 0; j < 16; j++) { if (j == 4 || j == 6 || j == 8 || j == 10) e += '-'; e += fmt("%02X", (unsigned char)b[j]); }
        if (e != (char *)k) return "key identifier text is " + std::string((char *)k);
        unsigned char o[16]; const int f[16] = {3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15}; alignas(16) static char mem[sizeof(PlayReadyCencProvider)];
        ((PlayReadyCencProvider *)mem)->binary_encode_kid((unsigned char *)&b[0], o); for (int j = 0; j < 16; j++) if (o[j] != (unsigned char)b[f[j]]) return "binary key identifier differs"; e = ""; } break;
    case 6: { std::string a((size_t)r.size(2500), 'x'); note(fmt("append_format %u characters", (unsigned)a.size())); s.append_format("%d<%s>", (int)v, a.c_str()); e = fmt("%d<", (int)v) + a + ">"; if (e.size() > 2047) e.resize(2047); } break;
    }
    if (pre + e != (char *)s || s.size() != pre.size() + e.size()) return "text is '" + hex((char *)s) + "'";
    if (i % 7 < 4) {
        Cstring t(e.c_str());
        if (i % 7 == 0 && (int)t != (int)v) return "number read back differs";
        if (i % 7 == 1 && (int64_t)t != (int64_t)v) return "number read back differs";
        if (i % 7 == 3 && (uint64_t)t != (uint64_t)v) return "number read back differs";
        bool thrown = false; Cstring bad("x"); try { (void)(int64_t)bad; } catch (mgexceptionbase &) { thrown = true; } if (!thrown) return "text that is no number is accepted";
        const char *w[] = {"1", "true", "yes", "TRUE", "True", "0", "false", "", "no", "11", "tru", "trues"}; int k = (int)r.below(12); Cstring bs(w[k]); if ((bool)bs != (k < 5)) return std::string("bool of ") + w[k];
        { std::string x = w[r.below(5)]; switch (r.below(4)) { case 0: x[r.below(x.size())] ^= 32; break; case 1: x += " "; break; case 2: x = " " + x; break; case 3: x[r.below(x.size())] = (char)(33 + r.below(94)); }
        bool is = x == "1" || x == "true" || x == "yes" || x == "TRUE" || x == "True"; Cstring xs(x.c_str()); if ((bool)xs != is) return "bool of " + x; }
    }
    return "";
}
