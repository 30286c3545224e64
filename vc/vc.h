// Contract primitives understood by the VC generator.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint64_t vc_nd(const char *name);                 // arbitrary 64-bit value
uint64_t vc_ndw(const char *name, uint64_t bits); // arbitrary value below 2^bits
double   vc_fp(const char *name);                 // arbitrary double
void     vc_assume(bool);                         // requires
void     vc_assert(bool, const char *clause);     // ensures
void     vc_cover(const char *name);              // must be reachable (vacuity guard)
void    *vc_alloc(uint64_t n, const char *name);  // object of n arbitrary bytes
char    *vc_cstr(uint64_t len, const char *name); // string of len non-NUL bytes
void     vc_free(void *);
void     vc_havoc(void *, uint64_t n);
uint64_t vc_snap(const void *);                   // ghost copy of an object's content
uint8_t  vc_at(uint64_t snap, uint64_t i);
uint8_t  vc_peek(const void *, uint64_t i);       // ghost read
uint64_t vc_size(const void *);                   // bytes from the pointer to the end of its object
bool     vc_live(const void *);
bool     vc_same(const void *, const void *);
uint64_t vc_leaks(void);
void     vc_inst(uint64_t j);
void     vc_nul(uint64_t off);                    // hint: strings end at this offset
void     vc_tag(const void *, const char *name);
void     vc_words(const void *, const char *name);     // fresh memory (any content), seen as 64-bit words of that name
void     vc_set(const char *name, uint64_t v);
void     vc_setp(const char *name, const void *p);
uint64_t vc_get(const char *name);
void     vc_may_throw(void);
bool     vc_or(bool, bool);
bool     vc_and(bool, bool);
bool     vc_implies(bool, bool);
uint64_t vc_ite(bool, uint64_t, uint64_t);
uint64_t vc_spec1(const char *fn, uint64_t);
uint64_t vc_specf(const char *fn, double, uint64_t);
uint64_t vc_spec2(const char *fn, uint64_t, uint64_t);
uint64_t vc_spec3(const char *fn, uint64_t, uint64_t, uint64_t);
uint64_t vc_spec4(const char *fn, uint64_t, uint64_t, uint64_t, uint64_t);
uint64_t vc_spec5(const char *fn, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
}
#define HARNESS extern "C" void
