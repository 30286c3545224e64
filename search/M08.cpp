// reference counted handles: random operations on a handful of handles against a plain model
// flags: -luv
#include "search.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
using namespace MGCORE;
static int alive[64], cleaned[64], made; static std::string err;
struct node { int id; CResource<node> next; node() : id(made++) { alive[id]++; } ~node() { if (alive[id] != 1) err = "an object is destroyed twice"; alive[id]--; } };
struct slot { int cur = -1; };
static std::string run_case(Rng &r, uint64_t)
{
    memset(alive, 0, sizeof alive); memset(cleaned, 0, sizeof cleaned); made = 0; err.clear();
    const int H = 4; int cur[H], next[64], total, wantclean[64] = {0}; bool hasclean[64] = {false};
    for (int &c : cur) c = -1; for (int &n : next) n = -1;
    note("ops");
    {
        CResource<node> *h[H]; for (auto &x : h) x = new CResource<node>();
        auto held = [&](int id) { int n = 0; for (int c : cur) n += c == id; for (int i = 0; i < made; i++) if (next[i] == id && alive[i]) n++; return n; };
        for (int k = 0; k < 40 && err.empty() && made < 60; k++) {
            int a = (int)r.below(H), b = (int)r.below(H);
            int op = (int)r.below(9);
            switch (op) {
            case 0: note_add(fmt(" h%d=new", a)); { CResource<node> t(new node); *h[a] = t; cur[a] = made - 1; } break;
            case 1: case 2: note_add(fmt(" h%d=h%d", a, b)); *h[a] = *h[b]; cur[a] = cur[b]; break;
            case 3: note_add(fmt(" h%d=copy h%d", a, b)); { CResource<node> t(*h[b]); if (cur[b] >= 0 && (t.count() != held(cur[b]) + 1)) err = "count of a copy is wrong"; delete h[a]; h[a] = new CResource<node>(t); if (a == b && false) {} cur[a] = cur[b]; } break;
            case 4: if (cur[b] < 0 || cur[a] < 0) break; { int t = cur[a]; while (t >= 0 && t != cur[b]) t = next[t]; if (t >= 0) break; note_add(fmt(" h%d.next=h%d", b, a)); (*h[b])->next = *h[a]; next[cur[b]] = cur[a]; } break;
            case 5: if (cur[a] < 0) break; note_add(fmt(" h%d=h%d.next", a, a)); { int n = next[cur[a]]; *h[a] = (*h[a])->next; cur[a] = n; } break;
            case 6: note_add(fmt(" create h%d", a)); { bool t = false; int m0 = made; try { h[a]->Create(); } catch (mgexceptionbase &) { t = true; } if (t != (cur[a] >= 0)) err = "Create is wrong"; else if (!t) cur[a] = made - 1; else if (made != m0) err = "refused Create makes an object"; } break;
            case 7: if (cur[a] < 0) break; note_add(fmt(" clean h%d", a)); h[a]->add_cleanup_function([](node *p) { if (!alive[p->id]) err = "cleaned after destruction"; cleaned[p->id]++; }); hasclean[cur[a]] = true; break;
            case 8: note_add(fmt(" drop h%d", a)); delete h[a]; h[a] = new CResource<node>(); cur[a] = -1; break;
            }
            if (!err.empty()) return err;
            // objects not reachable from a handle are gone (no cycles are made)
            std::vector<bool> live(64, false);
            for (int c : cur) for (int t = c; t >= 0; t = next[t]) live[t] = true;
            for (int i = 0; i < made; i++) {
                if (alive[i] != (live[i] ? 1 : 0)) return fmt("object %d is %s", i, live[i] ? "gone although held" : "kept although not held");
                if (cleaned[i] != (hasclean[i] && !live[i] ? 1 : 0)) return fmt("object %d cleaned %d times", i, cleaned[i]);
            }
            for (int i = 0; i < H; i++) if (cur[i] >= 0 && ((*h[i])->id != cur[i] || h[i]->count() != held(cur[i]))) return fmt("handle %d has the wrong object or count", i);
        }
        for (auto x : h) delete x;
    }
    for (int i = 0; i < made; i++) if (alive[i]) return fmt("object %d is never destroyed", i);
    (void)total; (void)wantclean;
    return err;
}
