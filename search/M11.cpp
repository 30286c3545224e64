// string class against std::string
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
using namespace MGCORE;
static std::string word(Rng &r, uint64_t n, bool few = false) { std::string s; for (uint64_t i = 0; i < n; i++) s += few ? (char)('a' + r.below(2)) : (char)(1 + r.below(255)); return s; }
static char *heap(const std::string &s) { char *p = (char *)malloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
static std::string run_case(Rng &r, uint64_t)
{
    const int H = 3; Cstring *c[H]; std::string m[H]; int share[H]; bool few = r.chance(40);
    for (int i = 0; i < H; i++) { c[i] = r.chance(50) ? new Cstring((uint32_t)(1 + r.below(8))) : new Cstring(); share[i] = i; }
    note("ops");
    // buffers are shared after assignment, so a change shows in all sharers
    auto put = [&](int a, const std::string &v) { for (int i = 0; i < H; i++) if (share[i] == share[a]) m[i] = v; };
    static int fresh; auto own = [&](int a) { share[a] = 100 + ++fresh; };
    std::string err;
    for (int k = 0; k < 30 && err.empty(); k++) {
        int a = (int)r.below(H), b = (int)r.below(H); std::string w = word(r, r.chance(70) ? r.below(5) : r.below(60), few); char *t = heap(w);
        if (m[a].size() > 3000) { own(a); m[a] = w; *c[a] = t; free(t); continue; }
        switch (r.below(13)) {
        case 0: note_add(fmt(" s%d=text(%u)", a, (unsigned)w.size())); own(a); m[a] = w; *c[a] = t; break;
        case 1: { size_t f = r.below(m[a].size() + 1); note_add(fmt(" s%d=own+%u", a, (unsigned)f)); std::string v = m[a].substr(f); own(a); m[a] = v; *c[a] = (char *)*c[a] + f; } break;
        case 2: note_add(fmt(" s%d=s%d", a, b)); share[a] = share[b]; m[a] = m[b]; *c[a] = *c[b]; break;
        case 3: note_add(fmt(" s%d+=text(%u)", a, (unsigned)w.size())); put(a, m[a] + w); *c[a] += t; break;
        case 4: note_add(fmt(" s%d.append(%u)", a, (unsigned)w.size())); put(a, m[a] + w); c[a]->append(t); break;
        case 5: note_add(fmt(" s%d+=s%d", a, b)); put(a, m[a] + m[b]); *c[a] += *c[b]; break;
        case 6: { size_t f = r.below(m[a].size() + 1); note_add(fmt(" s%d+=own+%u", a, (unsigned)f)); put(a, m[a] + m[a].substr(f)); if (r.chance(50)) *c[a] += (char *)*c[a] + f; else c[a]->append((char *)*c[a] + f); } break;
        case 7: { note_add(fmt(" s%d+s%d", a, b)); Cstring s = r.chance(50) ? *c[a] + *c[b] : *c[a] + (const char *)*c[b]; if (m[a] + m[b] != (char *)s || s.size() != m[a].size() + m[b].size()) err = "sum differs"; } break;
        case 8: { size_t f = r.below(m[a].size() + 2), n = r.below(m[a].size() + 3); note_add(fmt(" s%d.sub(%u,%u)", a, (unsigned)f, (unsigned)n)); Cstring s = c[a]->subString(f, n); std::string e = f < m[a].size() ? m[a].substr(f, n) : ""; if (e != (char *)s) err = "part differs"; } break;
        case 9: { size_t f = r.below(m[a].size() + 1); if (w.empty()) break; std::string nd = m[a].empty() || r.chance(20) ? w : m[a].substr(r.below(m[a].size()), 1 + r.below(3)); char *x = heap(nd);
            note_add(fmt(" s%d.find(%u,%u)", a, (unsigned)nd.size(), (unsigned)f)); int e = (int)m[a].find(nd, f); if (c[a]->find(x, f) != e) err = "find differs";
            size_t l = m[a].rfind(nd); int el = l == std::string::npos || l < f ? -1 : (int)l; if (c[a]->rfind(x, f) != el) err = "rfind differs"; free(x); } break;
        case 10: { bool e = m[a] == m[b]; note_add(fmt(" s%d==s%d", a, b)); if ((*c[a] == (const char *)*c[b]) != e || (*c[a] != (const char *)*c[b]) == e || (*c[a] < *c[b]) != (strcmp(m[a].c_str(), m[b].c_str()) < 0)) err = "comparison differs"; } break;
        case 11: { if (w.empty()) break; note_add(fmt(" s%d direct %u", a, (unsigned)w.size())); char *p = c[a]->GetBuffer(w.size(), false); memcpy(p, t, w.size()); c[a]->CommitBuffer(w.size()); put(a, m[a] + w); } break;
        case 12: if (r.chance(70)) break; note_add(fmt(" s%d.Clear", a)); put(a, ""); c[a]->Clear(); break;
        }
        free(t);
        for (int i = 0; i < H && err.empty(); i++) if (c[i]->size() != m[i].size() || m[i] != (char *)*c[i] || c[i]->len() != m[i].size()) err = fmt("string %d is not the expected text", i);
    }
    for (auto x : c) delete x;
    return err;
}
