// Checked conversions (core.h): the exact value, or an overflow report.
#include "vc.h"
#include "src/mg/core/core.h"

#define CHECKED(call, fits, same) \
    vc_may_throw(); vc_cover("pre"); \
    bool threw = false; \
    try { auto r = call; vc_cover("returns"); vc_assert(fits, "a value that does not fit is reported, not returned"); vc_assert(same, "the converted value equals the given one"); } \
    catch (MGCORE::mgexceptionbase &e) { threw = true; vc_cover("reports"); vc_assert(e.get_error_number() == E_OVERFLOW, "the report is an overflow"); } \
    if (threw) vc_assert(!(fits), "a value that fits is never refused");

HARNESS h_U64_i64() { uint64_t v = vc_nd("value"); CHECKED(U64_i64(v), v <= 9223372036854775807ull, vc_and(r >= 0, (uint64_t)r == v)) }
HARNESS h_U64_U32() { uint64_t v = vc_nd("value"); CHECKED(U64_U32(v), v <= 0xffffffffull, (uint64_t)r == v) }
HARNESS h_ST_i32()  { uint64_t v = vc_nd("value"); CHECKED(ST_i32(v), v <= 0x7fffffffull, vc_and(r >= 0, (uint64_t)r == v)) }
HARNESS h_ST_u32()  { uint64_t v = vc_nd("value"); CHECKED(ST_u32(v), v <= 0xffffffffull, (uint64_t)r == v) }
HARNESS h_is_u32()  { int64_t v = (int64_t)vc_nd("value"); CHECKED(is_u32(v), vc_and(v >= 0, v <= 0x7fffffffll), (int64_t)(uint64_t)r == v) }
HARNESS h_U64_DBL()
{
    uint64_t v = vc_nd("value");
    vc_cover("pre");
    double r = U64_DBL(v);
    vc_cover("returns");
    vc_assert(vc_specf("nearest", r, v) != 0, "the nearest double");
}
HARNESS h_DBL_U64()
{
    double v = vc_fp("value");
    CHECKED(DBL_U64(v), vc_and(v >= 0, v < 18446744073709551616.0), vc_specf("truncates", v, r) != 0)
}
