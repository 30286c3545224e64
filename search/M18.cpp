// NAL units
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
#include <mg/media/TBitstream.h>
#include <mg/media/h264nal.h>
using namespace MGCORE;
static H264Nal *d;
static std::string run_case(Rng &r, uint64_t i)
{
    std::string u; uint64_t n = 1 + r.size(i % 50 ? 60 : 5000); for (uint64_t k = 0; k < n; k++) u += r.chance(70) ? (char)r.below(4) : (char)r.byte();
    u[0] &= 0x7f; note("unit " + hex(u));
    std::string e = u.substr(0, 1);
    for (uint64_t k = 1; k < n; k++) if (!(k >= 3 && u[k] == 3 && !u[k - 1] && !u[k - 2])) e += u[k];
    if (!d || r.chance(5)) { delete d; d = new H264Nal; }
    unsigned char *p = (unsigned char *)malloc(n); memcpy(p, u.data(), n);
    d->decode_nal((unsigned)n, p);
    if (memcmp(p, u.data(), n)) return "the unit was changed";
    std::string g((const char *)d->decoded_rbsp(), d->decoded_rbsp_size());
    if (g != e) return "decoded bytes are " + hex(g);
    if (d->get_decoded_nal_unit_type() != (unsigned)(u[0] & 31) || d->get_decoded_nal_ref_idc() != (unsigned)(u[0] >> 5)) return "header fields differ";
    unsigned ref, type, size; d->decode_nal_in_place(ref, type, size, (unsigned)n, p);
    g.assign((char *)p, size); free(p);
    if (g != e) return "bytes decoded in place are " + hex(g);
    if (type != (unsigned)(u[0] & 31) || ref != (unsigned)(u[0] >> 5)) return "header fields in place differ";
    return "";
}
