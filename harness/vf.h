// Shared core of the argtable3 runtime monitors.
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <unordered_set>
#include <functional>
#include "argtable3.h"

typedef std::string str;

// ---------------------------------------------------------------- random choices
struct Src {
    uint64_t s = 0;
    const uint8_t *p = nullptr, *e = nullptr;  // byte mode (libFuzzer)
    bool bytes = false;
    static uint64_t mix(uint64_t z) {
        z += 0x9E3779B97F4A7C15ull;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t raw() {
        if (bytes) {
            uint64_t v = 0;
            for (int i = 0; i < 4; i++) v = v << 8 | (p < e ? *p++ : 0);
            return v;
        }
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    unsigned below(unsigned n) {
        if (n <= 1) return 0;
        if (bytes) {
            unsigned v = 0;
            if (n <= 256) v = (p < e ? *p++ : 0);
            else if (n <= 65536) { for (int i = 0; i < 2; i++) v = v << 8 | (p < e ? *p++ : 0); }
            else v = (unsigned)raw();
            return v % n;
        }
        return (unsigned)((raw() >> 32) * (uint64_t)n >> 32);
    }
    int range(int a, int b) { return a + (int)below((unsigned)(b - a + 1)); }
    bool one(unsigned n) { return below(n) == 0; }              // probability 1/n
    bool pct(unsigned n) { return below(100) < n; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below((unsigned)v.size())]; }
    char pickc(const char* z) { return z[below((unsigned)strlen(z))]; }
    // heavy tailed size, mostly small, at most max; now and then near a number that occurs in the sources
    int size(int max);
    str text(int maxlen);        // arbitrary bytes 1..255, mostly printable, any shape
    str word(int maxlen);        // letters
    int magic();                 // a number from the dictionary (>= 0)
};

// numbers and strings that occur in the library's sources, used only to bias the workload
struct Dict {
    std::vector<int> ints;
    std::vector<str> strs;
    void load(const char* path);
};
extern Dict g_dict;

// ---------------------------------------------------------------- verdicts and evidence
struct Fail { str msg; };
[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)

// a violation with this key; fails unless the known-findings file lists it (passed with --known)
void known(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

struct Cov {
    std::map<str, uint64_t> n;              // named events
    std::unordered_set<uint64_t> sigs;      // signatures of non-trivial cases
    uint64_t cases = 0, evals = 0, calls = 0;   // cases, executions judged, judged in this case
    std::vector<str> samples;
};
extern Cov g_cov;
inline void hit(const char* name, uint64_t k = 1) { g_cov.n[name] += k; }
inline void sig(uint64_t h) { g_cov.sigs.insert(h); g_cov.calls++; }

extern bool g_describe;      // description of the running case is wanted
extern str g_desc;
void say(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // no-op unless g_describe
str q(const str& s);         // quoted, escaped, shortened
str q(const char* s);

struct Hash {
    uint64_t h = 0xcbf29ce484222325ull;
    void u(uint64_t v) { h = Src::mix(h ^ v); }
    void b(const void* p, size_t n) { const uint8_t* c = (const uint8_t*)p; uint64_t x = n; for (size_t i = 0; i < n; i++) x = (x ^ c[i]) * 0x100000001b3ull; u(x); }
    void t(const str& s) { b(s.data(), s.size()); }
    void z(const char* s) { if (s) b(s, strlen(s)); else u(0x77); }
};

// ---------------------------------------------------------------- exact-size heap copies, freed at the end of the case
// or, in some cases, copies in memory that cannot be written to
char* hold(const str& s);                 // malloc(len+1), so that a sanitizer sees every overrun
void* holdmem(size_t n);
void* holdro(const void* p, size_t n);    // a copy that the library may read only
void vf_case(uint64_t h);                 // start of a case: chooses how its texts are kept and what errno holds
int vf_errno();                           // some value errno may hold before a call
#include <cerrno>
#define arg_parse(c, v, t) (errno = vf_errno(), arg_parse((c), (v), (t)))
void release_held();

// ---------------------------------------------------------------- allocation ledger (ledger.c)
extern "C" {
extern long vm_live, vm_total, vm_fail_at, vm_after_fail, vm_failed;
extern long vm_bad;                      // release of something already released
void vm_reset(void);
}

// ---------------------------------------------------------------- private constants and functions (priv.c)
extern "C" {
extern const int K_MINCOUNT, K_MAXCOUNT, K_BADINT, K_OVERFLOW, K_BADDOUBLE, K_BADDATE, K_REGNOMATCH;
typedef void(vf_panicfn)(const char* fmt, ...);
void vf_set_panic(vf_panicfn*);
}

// ---------------------------------------------------------------- properties
typedef void (*CaseFn)(Src&);
struct Prop { const char* id; CaseFn fn; };
extern const Prop g_props[];             // provided by the p_*.cpp that is linked in, ends with id == nullptr
void global_init();

// ---------------------------------------------------------------- helpers
str from_stream(const std::function<void(FILE*)>& f);   // what f writes to a stream
str from_ds(const std::function<void(arg_dstr_t)>& f);  // what f appends to a dynamic string
str from_fd2(const std::function<void()>& f);           // what f writes to stderr
str from_fds(const std::function<void()>& f);           // what f writes to stdout and stderr
#endif
