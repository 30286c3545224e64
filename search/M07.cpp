// growable buffer against a vector
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
using namespace MGCORE;
struct rec { uint32_t a; uint16_t b, c; bool operator==(const rec &o) const { return a == o.a && b == o.b && c == o.c; } };
static void mk(Rng &r, unsigned char &x) { x = r.byte(); }
static void mk(Rng &r, rec &x) { x.a = (uint32_t)r.next(); x.b = (uint16_t)r.next(); x.c = (uint16_t)r.next(); }
template <class T, class S> static std::string go(Rng &r)
{
    S init = (S)(1 + r.below(20)); CBuffer<T, S> b(init), other(3); std::vector<T> v, vo; ResetBuffer<T, S> rs(b);
    note(fmt("initial %u elements of %u", (unsigned)init, (unsigned)sizeof(T)));
    for (int k = 0; k < 40; k++) {
        std::vector<T> in(r.chance(60) ? r.below(6) : r.below(50)); for (T &t : in) mk(r, t);
        switch (r.below(10)) {
        case 0: case 1: note_add(fmt(" add(%u)", (unsigned)in.size())); b.add(in.data(), (S)in.size()); v.insert(v.end(), in.begin(), in.end()); break;
        case 2: if (in.empty()) break; note_add(fmt(" prepare(%u)", (unsigned)in.size())); b.prepare((S)in.size()); if (b.getFree() <= in.size()) return "prepare gave too little room";
            memcpy(b.getCurrent(), in.data(), in.size() * sizeof(T)); b.updatePosition((S)in.size()); v.insert(v.end(), in.begin(), in.end()); break;
        case 3: if (v.empty() || in.empty()) break; { uint32_t i = (uint32_t)r.below(v.size()); note_add(fmt(" WriteAt(%u)", i)); b.WriteAt(i, &in[0]); v[i] = in[0]; if (!(b.getAt(i) == in[0])) return "element differs after WriteAt"; } break;
        case 4: { S pos = (S)r.below(v.size() + 3); unsigned long n = r.below(20), got = 99; T *o = (T *)malloc(n * sizeof(T)); note_add(fmt(" ReadBuffer(%lu,%u)", n, (unsigned)pos));
            bool ok = b.ReadBuffer(o, n, got, pos); std::string e;
            if (ok != (pos <= v.size())) e = "ReadBuffer result is wrong";
            else if (ok) { unsigned long m = v.size() - pos < n ? v.size() - pos : n; if (got != m) e = fmt("ReadBuffer gives %lu elements, expected %lu", got, m); else if (m && memcmp(o, &v[pos], m * sizeof(T))) e = "ReadBuffer gives other elements"; }
            free(o); if (!e.empty()) return e; } break;
        case 5: if (v.size() > 3000) break; note_add(" += self"); b += b; { std::vector<T> c = v; v.insert(v.end(), c.begin(), c.end()); } break;
        case 6: note_add(" += other"); other.add(in.data(), (S)in.size()); vo.insert(vo.end(), in.begin(), in.end()); if (vo.size() > 500) break; b += other; v.insert(v.end(), vo.begin(), vo.end()); break;
        case 7: { size_t n = r.below(v.size() + 1); if (r.chance(50)) n = r.below(n + 1); note_add(fmt(" Back(%u)", (unsigned)n)); if (r.chance(50)) { rs.Back((S)n); const unsigned char *q = (const unsigned char *)(b.get() + (v.size() - n)); for (size_t k = 0; k < n * sizeof(T); k++) if (q[k]) return "Back(n) leaves an element that is not cleared"; } else rs.MoveBack((S)n); v.resize(v.size() - n); } break;
        case 9: { if (v.empty()) break; size_t i = r.below(v.size()), n = r.below(v.size() - i + 1); note_add(fmt(" add(own %u,%u)", (unsigned)i, (unsigned)n)); b.add(b.get() + i, (S)n); std::vector<T> c(v.begin() + i, v.begin() + i + n); v.insert(v.end(), c.begin(), c.end()); } break;
        case 8: if (r.chance(70)) break; note_add(" Reset"); rs.Reset(); v.clear(); break;
        }
        if (b.size() != v.size() || b.getFree() != b.getSize() - v.size()) return fmt("size %u, expected %u", (unsigned)b.size(), (unsigned)v.size());
        if (v.size() && memcmp(b.get(), v.data(), v.size() * sizeof(T))) return "content differs";
    }
    return "";
}
static std::string run_case(Rng &r, uint64_t i) { return i % 3 == 0 ? go<unsigned char, size_t>(r) : i % 3 == 1 ? go<rec, size_t>(r) : go<rec, uint32_t>(r); }
