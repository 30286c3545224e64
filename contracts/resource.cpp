// Reference counted handle.  Invariant: the count of a shared object equals the number of handles
// that hold it; ghost counters in the object record deletion and clean-up.
#include "vc.h"
#include <mgcore.h>
#include "src/mg/core/thread.cpp"
using namespace MGCORE;
extern "C" void vcc_exc(void *self, int num, const void *, int) { ((MGCORE::mgexceptionbase *)self)->_err = num; }
extern "C" void vcc_exc_dtor(void *) {}

static uint64_t made, dead, cleaned, order;
struct obj { int id; obj() : id(7) { made++; } ~obj() { vc_assert(id == 7, "an object is destroyed once"); id = 0; dead++; order = order * 10 + 2; } };
typedef CResource<obj> R;
typedef CInternalResource<obj> IR;
struct cleaner { obj **seen; void operator()(obj *p) const { vc_assert(p->id == 7, "the object still exists when it is cleaned up"); *seen = p; cleaned++; order = order * 10 + 1; } };

// a shared object held by n handles, one of which is h; none when n == 0
struct shared { uint64_t n; IR *ir; obj *p; bool cl; obj *seen; };
static void any(shared &s, R &h, const char *nm)
{
    s.n = vc_ndw(nm, 31); s.ir = 0; s.p = 0; s.seen = 0; s.cl = false;
    if (!s.n) return;
    s.p = new obj; made--; h.m_pInternalResource = s.ir = IR::create(s.p);
    s.ir->m_iRefCnt = s.n;
    s.cl = vc_nd("has clean-up") & 1;
    if (s.cl) { cleaner c; c.seen = &s.seen; h.add_cleanup_function(c); }
}
// k handles fewer than before; the object is gone exactly when none is left
static void after(shared &s, uint64_t left, uint64_t dead0, uint64_t cl0)
{
    if (!s.n) return;
    if (left) {
        vc_assert(vc_and(vc_live(s.ir), vc_live(s.p)), "an object that is still held stays");
        vc_assert(vc_and(s.ir->m_iRefCnt == (long)left, s.ir->m_pointer == s.p), "the count is the number of handles");
        vc_assert(s.seen == 0, "no clean-up while the object is held");
    } else {
        vc_assert(vc_and(!vc_live(s.ir), !vc_live(s.p)), "the object is destroyed with its last handle");
        vc_assert(s.seen == (s.cl ? s.p : 0), "the clean-up function gets the object, if there is one");
    }
    (void)dead0; (void)cl0;
}
static void forget(R &h) { h.m_pInternalResource = 0; }

HARNESS h_make()
{
    uint64_t l = vc_leaks();
    {
        R e; vc_assert(vc_and(!e, (obj *)e == 0), "a new handle is empty");
        obj *p = new obj; R h(p);
        vc_assert(vc_and(h.count() == 1, vc_and((obj *)h == p, &h.GetRef() == p)), "the handle owns the object given");
        vc_assert(h.operator->() == p, "and gives access to it");
        R c; c.Create();
        vc_assert(vc_and(c.count() == 1, vc_and((bool)c, made == 2)), "create makes one object");
        vc_assert(dead == 0, "nothing is destroyed while held");
        vc_cover("post");
    }
    vc_assert(dead == 2, "both objects are destroyed once");
    vc_assert(vc_leaks() == l, "all memory is released");
}
HARNESS h_copy()
{
    R h; shared s; any(s, h, "handles");
    {
        R c(h);
        vc_assert(c.m_pInternalResource == h.m_pInternalResource, "a copy shares the object");
        after(s, s.n + 1, 0, 0);
        vc_cover("post");
    }
    after(s, s.n, 0, 0);
    vc_assert(vc_and(dead == 0, cleaned == 0), "nothing is destroyed");
    forget(h);
}
HARNESS h_release()
{
    uint64_t l = vc_leaks(); shared s;
    { R h; any(s, h, "handles"); vc_cover("pre"); }
    vc_cover("post");
    after(s, s.n - 1, 0, 0);
    vc_assert(dead == (s.n == 1), "destroyed exactly when the last handle goes");
    vc_assert(cleaned == (s.n == 1 && s.cl), "cleaned up exactly then");
    if (s.n == 1 && s.cl) vc_assert(order == 12, "clean-up comes before destruction");
    if (s.n <= 1) vc_assert(vc_leaks() == l, "all memory is released");
}
HARNESS h_assign_other()
{
    R x, y; shared a, b; any(a, x, "handles of the left"); any(b, y, "handles of the right");
    vc_cover("pre");
    x = y;
    vc_cover("post");
    vc_assert(x.m_pInternalResource == y.m_pInternalResource && y.m_pInternalResource == b.ir, "both handles hold the right object");
    after(a, a.n - 1, 0, 0);
    after(b, b.n + 1, 0, 0);
    vc_assert(dead == (a.n == 1), "the old object is destroyed exactly when this was its last handle");
    vc_assert(cleaned == (a.n == 1 && a.cl), "cleaned up exactly then");
    forget(x); forget(y);
}
HARNESS h_assign_same()
{
    R x, y; shared a; any(a, x, "handles");
    vc_assume(a.n != 1);
    bool self = vc_nd("self") & 1;
    if (!self) y.m_pInternalResource = x.m_pInternalResource;
    if (self) x = x; else x = y;
    vc_cover("post");
    vc_assert(x.m_pInternalResource == a.ir, "the handle keeps its object");
    after(a, a.n, 0, 0);
    vc_assert(vc_and(dead == 0, cleaned == 0), "nothing is destroyed");
    forget(x); forget(y);
}
HARNESS h_assign_self_last()
{
    R x; shared a; any(a, x, "handles"); vc_assume(a.n == 1);
    x = x;
    vc_cover("post");
    vc_assert(x.m_pInternalResource == a.ir, "the handle keeps its object");
    after(a, 1, 0, 0);
    vc_assert(vc_and(dead == 0, cleaned == 0), "nothing is destroyed");
    forget(x);
}
// list node: the right hand side lives in the object released by the assignment
static uint64_t ndead;
struct node { int id; CResource<node> next; node() : id(3) {} ~node() { vc_assert(id == 3, "a node is destroyed once"); id = 0; ndead++; } };
HARNESS h_assign_inner()
{
    uint64_t l = vc_leaks();
    {
        CResource<node> head(new node), last(new node);
        node *first = &head.GetRef(), *second = &last.GetRef();
        first->next = last;
        uint64_t extra = vc_ndw("further handles", 31);
        head.m_pInternalResource->m_iRefCnt += extra;
        CInternalResource<node> *ir = head.m_pInternalResource;
        head = head->next;
        vc_assert((node *)head == second, "the handle moves to the inner object");
        vc_assert(vc_live(second), "the inner object stays");
        vc_assert(vc_live(first) == (extra != 0), "the outer object goes with its last handle");
        vc_assert(head.count() == (extra ? 3 : 2), "the inner object is held by the handles that remain");
        vc_assert(ndead == (extra == 0), "destroyed at most once");
        if (extra) { vc_assert(ir->m_iRefCnt == (long)extra, "the count is the number of handles"); ir->m_iRefCnt = 1; ir->release(); }
        vc_cover("post");
    }
    vc_assert(ndead == 2, "every object is destroyed once");
    vc_assert(vc_leaks() == l, "all memory is released");
}
HARNESS h_create_twice()
{
    R h; shared s; any(s, h, "handles");
    bool thrown = false;
    try { h.Create(); } catch (mgexceptionbase &) { thrown = true; }
    vc_assert(thrown == (s.n != 0), "creating again is refused");
    if (s.n) { after(s, s.n, 0, 0); vc_assert(h.m_pInternalResource == s.ir, "and changes nothing"); vc_assert(made == 0, "no object is made"); forget(h); }
    else { vc_assert(vc_and(made == 1, h.count() == 1), "an empty handle gets a new object"); }
    vc_cover("post");
}
HARNESS h_empty()
{
    R h; bool thrown = false, thrown2 = false; obj *seen = 0; cleaner c; c.seen = &seen;
    vc_assert(vc_and(h.operator->() == 0, vc_and(!(bool)h, (obj *)h == 0)), "an empty handle gives no object");
    try { h.GetRef(); } catch (mgexceptionbase &) { thrown = true; }
    try { h.add_cleanup_function(c); } catch (mgexceptionbase &) { thrown2 = true; }
    vc_assert(vc_and(thrown, thrown2), "using an empty handle is reported");
    vc_assert(h.m_pInternalResource == 0, "and leaves it empty");
    vc_cover("post");
}
