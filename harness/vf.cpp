#include "vf.h"
#include <cstdarg>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <fstream>

Dict g_dict;
Cov g_cov;
bool g_describe = false;
str g_desc;

void Dict::load(const char* path) {
    std::ifstream f(path);
    str l;
    while (std::getline(f, l)) {
        if (l.size() < 2) continue;
        if (l[0] == 'i') ints.push_back(atoi(l.c_str() + 2));
        else if (l[0] == 's') {
            str t;
            for (size_t i = 2; i + 1 < l.size(); i += 2) t += (char)strtol(l.substr(i, 2).c_str(), nullptr, 16);
            if (t.size()) strs.push_back(t);
        }
    }
    if (ints.empty()) ints = {0, 1, 2, 3, 4, 5, 8, 10, 16, 20, 25, 32, 64, 80, 100, 128, 198, 199, 200, 201, 255, 256, 500, 512};
    if (strs.empty()) strs = {"help", "version"};
}
int Src::magic() {
    int v = g_dict.ints[below((unsigned)g_dict.ints.size())] + range(-1, 1);
    return v < 0 ? 0 : v;
}
int Src::size(int max) {
    if (max <= 0) return 0;
    int v;
    switch (below(16)) {
        case 0: v = 0; break;
        case 1: case 2: case 3: v = 1; break;
        case 4: case 5: v = 2; break;
        case 6: case 7: case 8: v = range(1, 5); break;
        case 9: case 10: v = range(1, 12); break;
        case 11: case 12: v = range(1, 40); break;
        case 13: v = magic(); break;
        case 14: v = range(0, 300); break;
        default: v = range(0, max); break;
    }
    return v > max ? (int)below((unsigned)max + 1) : v;
}
str Src::word(int maxlen) {
    int n = 1 + (maxlen > 1 ? size(maxlen - 1) : 0);
    str t;
    for (int i = 0; i < n; i++) t += pickc("abcdefghijklmnopqrstuvwxyzABCXYZ");
    return t;
}
str Src::text(int maxlen) {
    unsigned k = below(20);
    if (k == 0) return "";
    if (k == 1) { str t = g_dict.strs[below((unsigned)g_dict.strs.size())]; if ((int)t.size() <= maxlen) return t; }
    int n = size(maxlen);
    str t;
    static const char* pools[] = {"abcxyz", "0123456789", "-=,.:/ ", "aA1 .-_/\\%$#@!~^&*()[]{}<>|;:'\"`?+=,", "\t\n\r \v\f", "./", "0x1aAfF+-eE.kKmMgGbB", "%s%d%n%c"};
    unsigned mode = below(10);
    for (int i = 0; i < n; i++) {
        if (mode < 8) t += pickc(pools[mode]);
        else if (mode == 8) t += (char)range(1, 255);
        else t += (char)range(32, 126);
    }
    return t;
}

void fail(const char* fmt, ...) {
    char buf[4096];
    va_list a;
    va_start(a, fmt);
    vsnprintf(buf, sizeof buf, fmt, a);
    va_end(a);
    throw Fail{buf};
}
static str s_known = ",";
void known(const char* key, const char* fmt, ...) {
    if (s_known.find("," + str(key) + ",") != str::npos) { hit(("KNOWN:" + str(key)).c_str()); return; }
    char buf[4096];
    va_list a;
    va_start(a, fmt);
    vsnprintf(buf, sizeof buf, fmt, a);
    va_end(a);
    throw Fail{buf};
}
void say(const char* fmt, ...) {
    if (!g_describe) return;
    char* b = nullptr;
    va_list a;
    va_start(a, fmt);
    if (vasprintf(&b, fmt, a) >= 0) { if (g_desc.size() < 200000) g_desc += b; free(b); }
    va_end(a);
}
str q(const str& s) {
    str r = "\"";
    size_t lim = 300;
    for (size_t i = 0; i < s.size(); i++) {
        if (i == lim) { char z[40]; snprintf(z, sizeof z, "\"...(%zu bytes)", s.size()); return r + z; }
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c < 32 || c > 126) { char z[8]; snprintf(z, sizeof z, "\\x%02x", c); r += z; }
        else r += (char)c;
    }
    return r + "\"";
}
str q(const char* s) { return s ? q(str(s)) : str("NULL"); }

static std::vector<void*> s_held;
// Memory that can only be read, except while something is put there: a case may keep its texts and vectors in it, as a
// program does that uses string constants.
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifdef __SANITIZE_ADDRESS__
#define VF_ASAN 1
#endif
#ifdef VF_ASAN
extern "C" void __asan_poison_memory_region(void const volatile*, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t);
#endif
static bool s_ro = false;
static uint64_t s_errs = 0;
static char* s_arena = nullptr;
static size_t s_used = 0;
static const size_t ARENA = 4u << 20;
void vf_case(uint64_t h) {
    h = Src::mix(h ^ 0x5eed);
    s_ro = h % 6 == 0;
    s_errs = h;
    if (s_ro) hit("cases with texts in read-only memory");
}
int vf_errno() {
    static const int v[] = {0, ERANGE, EINVAL, 0, ENOMEM, EINTR, ERANGE, EDOM};
    return v[(s_errs = Src::mix(s_errs)) % 8];
}
static char* keep(const void* p, size_t n, size_t zeros) {
    size_t room = (n + zeros + 15) / 8 * 8 + 8;
    if (!s_ro || s_used + room > ARENA) {
        char* d = (char*)malloc(n + zeros ? n + zeros : 1);
        if (n) memcpy(d, p, n);
        memset(d + n, 0, zeros);
        s_held.push_back(d);
        return d;
    }
    if (!s_arena) s_arena = (char*)mmap(nullptr, ARENA, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    char* d = s_arena + s_used;
    char *a = s_arena + s_used / 4096 * 4096, *z = s_arena + (s_used + room + 4095) / 4096 * 4096;
    mprotect(a, (size_t)(z - a), PROT_READ | PROT_WRITE);
#ifdef VF_ASAN
    __asan_unpoison_memory_region(d, room);
#endif
    if (n) memcpy(d, p, n);
    memset(d + n, 0, zeros);
    mprotect(a, (size_t)(z - a), PROT_READ);
#ifdef VF_ASAN
    __asan_poison_memory_region(d + n + zeros, room - n - zeros);
#endif
    s_used += room;
    return d;
}
char* hold(const str& s) { return keep(s.data(), s.size(), 1); }
void* holdro(const void* p, size_t n) { return keep(p, n, 0); }
void* holdmem(size_t n) { void* p = malloc(n ? n : 1); s_held.push_back(p); return p; }
void release_held() {
    for (void* p : s_held) free(p);
    s_held.clear();
#ifdef VF_ASAN
    if (s_used) __asan_unpoison_memory_region(s_arena, s_used);
#endif
    s_used = 0;
}

str from_stream(const std::function<void(FILE*)>& f) {
    char* buf = nullptr; size_t n = 0;
    FILE* fp = open_memstream(&buf, &n);
    f(fp);
    fclose(fp);
    str r(buf, n);
    free(buf);
    return r;
}
str from_ds(const std::function<void(arg_dstr_t)>& f) {
    arg_dstr_t ds = arg_dstr_create();
    f(ds);
    str r = arg_dstr_cstr(ds);
    arg_dstr_destroy(ds);
    return r;
}
extern "C" void __sanitizer_set_report_fd(void*) __attribute__((weak));
static str captured(const std::function<void()>& f, bool both) {
    static int mfd = -1, mfd1 = -1;
    if (mfd < 0) mfd = memfd_create("err", MFD_CLOEXEC), mfd1 = memfd_create("out", MFD_CLOEXEC);
    if (ftruncate(mfd, 0) || ftruncate(mfd1, 0)) {}
    lseek(mfd, 0, SEEK_SET);
    lseek(mfd1, 0, SEEK_SET);
    fflush(stderr);
    int save = dup(2), save1 = -1;
    dup2(mfd, 2);
    if (both) { fflush(stdout); save1 = dup(1); dup2(mfd1, 1); }
    if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(intptr_t)save);
    f();
    fflush(stderr);
    dup2(save, 2);
    if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(intptr_t)2);
    close(save);
    if (both) { fflush(stdout); dup2(save1, 1); close(save1); }
    str r;
    for (int fd : {mfd, mfd1}) {
        off_t n = lseek(fd, 0, SEEK_END);
        str x;
        x.resize((size_t)n);
        if (n) { if (pread(fd, &x[0], (size_t)n, 0)) {} }
        r += x;
    }
    return r;
}
str from_fd2(const std::function<void()>& f) { return captured(f, false); }
str from_fds(const std::function<void()>& f) { return captured(f, true); }

// ---------------------------------------------------------------- driver
static volatile uint64_t* s_progress = nullptr;   // [0] = current index + 1, [1] = cases done

static bool s_verbose = false;
static void death() {                       // what was going on when a sanitizer or the watchdog stopped the run
    if (!s_verbose) return;
    static const char m[] = "\nVF-CASE:\n";
    if (write(2, m, sizeof m - 1) && write(2, g_desc.data(), g_desc.size())) {}
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void on_hang(int) {
    static const char m[] = "\nVF-HANG: the case used up its CPU budget\n";
    if (write(2, m, sizeof m - 1)) {}
    death();
    _exit(97);
}
static void arm(double sec) {
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (time_t)sec;
    it.it_value.tv_usec = (suseconds_t)((sec - (double)it.it_value.tv_sec) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}
static str jesc(const str& s) {
    str r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char z[8]; snprintf(z, sizeof z, "\\u%04x", c); r += z; }
        else r += (char)c;
    }
    return r + "\"";
}
static void write_out(const char* path, const char* status, uint64_t idx, const str& msg) {
    if (!path) return;
    FILE* f = fopen(path, "w");
    if (!f) return;
    fprintf(f, "{\"status\":\"%s\",\"idx\":%llu,\"cases\":%llu,\"evals\":%llu,\"msg\":%s,\"desc\":%s,\"counters\":{", status, (unsigned long long)idx,
            (unsigned long long)g_cov.cases, (unsigned long long)g_cov.evals, jesc(msg).c_str(), jesc(g_desc).c_str());
    bool first = true;
    for (auto& k : g_cov.n) { fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(k.first).c_str(), (unsigned long long)k.second); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto& s : g_cov.samples) { fprintf(f, "%s%s", first ? "" : ",", jesc(s.substr(0, 1500)).c_str()); first = false; }
    fprintf(f, "]}\n");
    fclose(f);
    str sp = str(path) + ".sig";
    f = fopen(sp.c_str(), "wb");
    if (f) { for (uint64_t h : g_cov.sigs) fwrite(&h, 8, 1, f); fclose(f); }
}

const Prop* vf_lookup(const char* id) __attribute__((weak));   // of the combined program
void vf_setup(const char* dict, const char* known, bool verbose) {
    g_dict.load(dict ? dict : "/dev/null");
    if (known) s_known = "," + str(known) + ",";
    s_verbose = g_describe = verbose;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
}
#ifndef VF_FUZZ
int main(int argc, char** argv) {
    const char *prop = nullptr, *out = nullptr, *prog = nullptr, *dict = nullptr;
    uint64_t seed = 1, from = 0, to = 100, stride = 1;
    double budget = 40;
    bool verbose = false, lastonly = false;
    double wall = 0;
    for (int i = 1; i < argc; i++) {
        str a = argv[i];
        auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
        if (a == "--seed") seed = strtoull(nx(), nullptr, 10);
        else if (a == "--from") from = strtoull(nx(), nullptr, 10);
        else if (a == "--to") to = strtoull(nx(), nullptr, 10);
        else if (a == "--stride") stride = strtoull(nx(), nullptr, 10);
        else if (a == "--out") out = nx();
        else if (a == "--progress") prog = nx();
        else if (a == "--known") s_known = "," + str(nx()) + ",";
        else if (a == "--dict") dict = nx();
        else if (a == "--budget") budget = atof(nx());
        else if (a == "--wall") wall = atof(nx());
        else if (a == "--verbose") verbose = true;
        else if (a == "--lastonly") lastonly = true;
        else prop = argv[i];
    }
    g_dict.load(dict ? dict : "/dev/null");
    const Prop* P = nullptr;
    for (const Prop* x = g_props; x->id; x++) if (prop && !strcmp(x->id, prop)) P = x;
    if (!P && vf_lookup && prop) P = vf_lookup(prop);
    if (!P) { fprintf(stderr, "unknown property\n"); return 2; }
    if (prog) {
        int fd = open(prog, O_RDWR | O_CREAT, 0600);
        if (ftruncate(fd, 64)) {}
        s_progress = (volatile uint64_t*)mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    signal(SIGPROF, on_hang);
    s_verbose = verbose;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    global_init();
    Hash ph; ph.z(prop); ph.u(seed);
    uint64_t n = 0;
    struct timespec t0, t1;
    const double slow = getenv("VF_SLOW") ? atof(getenv("VF_SLOW")) : 0;      // tuning of the workloads
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for (uint64_t i = from; i < to; i += stride, n++) {
        if (wall > 0 && n % 16 == 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((double)(t1.tv_sec - t0.tv_sec) > wall) { hit("workers that ran out of time"); break; } }
        if (s_progress) { s_progress[0] = i + 1; s_progress[1] = n; }
        Src s;
        s.s = Src::mix(ph.h ^ Src::mix(i * 2 + 1));
        g_describe = (verbose && (!lastonly || i + stride >= to)) || n < 2;
        g_desc.clear();
        vf_case(s.s);
        arm(budget);
        try {
            P->fn(s);
        } catch (Fail& f) {
            if (!g_describe) g_desc = "";
            write_out(out, "fail", i, f.msg);
            fprintf(stderr, "VF-FAIL idx=%llu %s\n", (unsigned long long)i, f.msg.c_str());
            if (verbose) fprintf(stderr, "%s\n", g_desc.c_str());
            _exit(3);
        }
        if (slow > 0) {
            struct itimerval it;
            getitimer(ITIMER_PROF, &it);
            double used = budget - (double)it.it_value.tv_sec - (double)it.it_value.tv_usec / 1e6;
            if (used > slow) { FILE* f = fopen("/tmp/vf.slow", "a"); if (f) { fprintf(f, "%s %llu %.2f\n", prop, (unsigned long long)i, used); fclose(f); } }
        }
        arm(0);
        release_held();
        g_cov.cases++;
        g_cov.evals += g_cov.calls ? g_cov.calls : 1;
        g_cov.calls = 0;
        if (g_describe && g_cov.samples.size() < 2) g_cov.samples.push_back(g_desc);
        if (verbose && (!lastonly || i + stride >= to)) fprintf(stderr, "case %llu ok\n%s\n", (unsigned long long)i, g_desc.c_str());
    }
    if (s_progress) s_progress[0] = 0;
    write_out(out, "ok", 0, "");
    _exit(0);
}
#endif
