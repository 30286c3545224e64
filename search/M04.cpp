// checked conversions
#include "search.h"
#include "src/mg/core/core.h"
template <class R, class F, class A> static std::string one(const char *n, F f, A v, bool fits, R want)
{
    try { R r = f(v); if (!fits) return fmt("%s(%s) returned instead of reporting", n, std::to_string(v).c_str());
          if (r != want) return fmt("%s(%s) returned %s", n, std::to_string(v).c_str(), std::to_string(r).c_str()); }
    catch (MGCORE::mgexceptionbase &e) { if (fits) return fmt("%s(%s) reported overflow", n, std::to_string(v).c_str()); if (e.get_error_number() != E_OVERFLOW) return fmt("%s reported %d", n, e.get_error_number()); }
    return "";
}
static std::string run_case(Rng &r, uint64_t)
{
    uint64_t v = r.word(); std::string e;
    note(fmt("value %llu", (unsigned long long)v));
    if ((e = one<int64_t>("U64_i64", U64_i64, v, v <= INT64_MAX, (int64_t)v)) != "") return e;
    if ((e = one<uint32_t>("U64_U32", U64_U32, v, v <= UINT32_MAX, (uint32_t)v)) != "") return e;
    if ((e = one<int32_t>("ST_i32", ST_i32, (size_t)v, v <= INT32_MAX, (int32_t)v)) != "") return e;
    if ((e = one<uint32_t>("ST_u32", ST_u32, (size_t)v, v <= UINT32_MAX, (uint32_t)v)) != "") return e;
    int64_t s = (int64_t)v;
    if ((e = one<uint32_t>("is_u32", is_u32, s, s >= 0 && s <= INT32_MAX, (uint32_t)s)) != "") return e;
    if ((e = one<double>("U64_DBL", U64_DBL, v, true, (double)v)) != "") return e;
    double d; uint64_t b = r.next();
    switch (r.below(5)) {
    case 0: memcpy(&d, &b, 8); break;
    case 1: d = 0.0 / 0.0; d = __builtin_nan(""); break;
    case 2: d = (double)v; break;
    case 3: { double w = (double)v; memcpy(&b, &w, 8); b += r.below(3) - 1; memcpy(&d, &b, 8); break; }
    default: d = (double)(int64_t)v / 3;
    }
    note(fmt("value %a", d));
    bool fits = d >= 0 && d < 18446744073709551616.0;
    return one<uint64_t>("DBL_U64", DBL_U64, d, fits, fits ? (uint64_t)d : 0);
}
