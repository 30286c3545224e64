// Native search for a concrete failing input, run against the real code (API level only).
// Deterministic: case number + seed reproduce a case.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <string>
#include <vector>
#include <stdexcept>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() { s ^= s >> 12; s ^= s << 25; s ^= s >> 27; return s * 2685821657736338717ull; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned pct) { return below(100) < pct; }
    // lengths and values: mostly small, sometimes near powers of two
    uint64_t size(uint64_t max) {
        uint64_t v;
        switch (below(6)) {
        case 0: v = below(4); break;
        case 1: v = below(20); break;
        case 2: v = below(300); break;
        case 3: { uint64_t p = 1ull << below(17); v = p + below(5) - 2; break; }
        default: v = below(max + 1);
        }
        return v > max ? below(max + 1) : v;
    }
    uint64_t word() {
        switch (below(6)) {
        case 0: return below(16);
        case 1: return (1ull << below(64)) + below(5) - 2;
        case 2: return ~below(16);
        case 3: return next() >> below(64);
        case 4: return (uint64_t)(-(int64_t)(next() >> below(64)));
        default: return next();
        }
    }
    uint8_t byte() { switch (below(5)) { case 0: return 0; case 1: return 255; case 2: return (uint8_t)(below(2) ? 127 : 128); default: return (uint8_t)next(); } }
    std::string bytes(uint64_t n) { std::string r; for (uint64_t i = 0; i < n; i++) r += (char)byte(); return r; }
};

static std::string fmt(const char *f, ...)
{
    char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
static std::string hex(const std::string &s) { std::string r; for (unsigned char c : s) { if (r.size() > 400) return r + "..."; r += fmt("%02x", c); } return r; }

struct Shared { volatile uint64_t at, done; volatile int bad; char what[4096]; char note[8192]; };
static Shared *sh;
// remembered description of the case being run (shown when it crashes or hangs)
static void note(const std::string &s) { strncpy(sh->note, s.c_str(), sizeof sh->note - 1); }
static void note_add(const std::string &s) { size_t n = strlen(sh->note); if (n + s.size() + 1 < sizeof sh->note) strcat(sh->note, s.c_str()); }

// one case; empty string when the property held on it
static std::string run_case(Rng &r, uint64_t index);

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char **argv)
{
    double limit = 10; uint64_t seed = 1, ncases = ~0ull, only = ~0ull, hang = 10;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--time") limit = atof(argv[i + 1]);
        if (a == "--seed") seed = strtoull(argv[i + 1], 0, 10);
        if (a == "--cases") ncases = strtoull(argv[i + 1], 0, 10);
        if (a == "--case") only = strtoull(argv[i + 1], 0, 10);
        if (a == "--hang") hang = strtoull(argv[i + 1], 0, 10);
    }
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    double t0 = now();
    if (only != ~0ull) { sh->at = only; ncases = only + 1; }
    pid_t p = fork();
    if (!p) {
        fclose(stdin);
        for (uint64_t i = sh->at; i < ncases; i++) {
            if (only == ~0ull && now() - t0 > limit) break;
            sh->at = i; sh->note[0] = 0;
            Rng r(seed * 1000003 + i);
            std::string e;
            try { e = run_case(r, i); }
            catch (std::exception &x) { e = std::string("uncaught exception: ") + x.what(); }
            if (!e.empty()) { strncpy(sh->what, e.c_str(), sizeof sh->what - 1); sh->bad = 1; _exit(1); }
            sh->done++;
        }
        _exit(0);
    }
    uint64_t last = ~0ull; double since = now(); int st = 0;
    for (;;) {
        if (waitpid(p, &st, WNOHANG) == p) break;
        if (sh->at + sh->done * 7919 != last) { last = sh->at + sh->done * 7919; since = now(); }
        if (now() - since > hang) {
            kill(p, SIGKILL); waitpid(p, &st, 0);
            sh->bad = 1; strcpy(sh->what, "does not terminate");
            break;
        }
        usleep(20000);
    }
    if (!sh->bad && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        sh->bad = 1;
        snprintf(sh->what, sizeof sh->what, "crash or memory error (status 0x%x)", st);
    }
    if (sh->bad) {
        printf("FOUND seed=%llu case=%llu what=%s\n", (unsigned long long)seed, (unsigned long long)sh->at, sh->what);
        if (sh->note[0]) printf("INPUT %s\n", sh->note);
        return 1;
    }
    printf("NONE cases=%llu\n", (unsigned long long)sh->done);
    return 0;
}
