// C22: every allocation of a scenario is made to fail once, in a process of its own.
#include "model.h"
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <cerrno>
#include <csignal>

extern "C" void* vm_malloc(size_t);
static int s_err = -1;      // unlinked file that collects the standard error of the children
void global_init() {
    char t[] = "/tmp/vf-oom-XXXXXX";
    s_err = mkstemp(t);
    if (s_err < 0) { perror("mkstemp"); _exit(2); }
    unlink(t);
}
struct Shared { long total; int calls; int nodiag; long after; };
static Shared* sh;
static void handler(const char* fmt, ...) {
    sh->calls++;
    sh->after = vm_after_fail;
    if (!fmt || !*fmt) sh->nodiag = 1;
    _exit(42);
}
static int icmp(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }
static int proc(int, char**, arg_dstr_t, void*) { return 0; }

struct Scen {
    Tab t;
    Argv a;
    int kind;
    std::vector<str> words;
    std::vector<int> nums;
    int hm;
};
static void play(Scen& x) {
    FILE* nul = fopen("/dev/null", "w");
    switch (x.kind) {
        case 0: case 1: case 2: {
            Src* none = nullptr;
            x.t.build(none);
            int n = arg_parse(x.a.argc, x.a.ptr, x.t.arr.data());
            if (x.kind >= 1) {
                arg_print_errors(nul, x.t.end, "p");
                arg_print_syntax(nul, x.t.arr.data(), "\n");
                arg_print_syntaxv(nul, x.t.arr.data(), "\n");
                arg_print_glossary(nul, x.t.arr.data(), nullptr);
                arg_print_glossary_gnu(nul, x.t.arr.data());
            }
            if (x.kind == 2) {
                arg_cmd_init();
                arg_set_module_name("module");
                arg_set_module_version(1, 2, 3, "tag");
                arg_cmd_register("cmd", proc, "text", nullptr);
                arg_dstr_t d = arg_dstr_create();
                int code;
                arg_make_syntax_err_help_msg(d, "cmd", x.hm, n, x.t.arr.data(), x.t.end, &code);
                arg_make_get_help_msg(d);
                arg_dstr_destroy(d);
                arg_cmd_uninit();
            }
            arg_freetable(x.t.arr.data(), x.t.arr.size());
            break;
        }
        case 3: {
            arg_dstr_t d = arg_dstr_create();
            for (auto& w : x.words) {
                switch (w.size() % 5) {
                    case 0: arg_dstr_cat(d, w.c_str()); break;
                    case 1: arg_dstr_catf(d, "%s/%d", w.c_str(), 5); break;
                    case 2: arg_dstr_set(d, (char*)w.c_str(), ARG_DSTR_VOLATILE); break;
                    case 3: arg_dstr_catc(d, 'x'); break;
                    default: if (w.size() > 30) arg_dstr_reset(d); else arg_dstr_catf(d, "%s", w.c_str()); break;
                }
            }
            arg_print_formatted(nul, 5, 40, x.words.empty() ? "" : x.words[0].c_str());
            arg_dstr_destroy(d);
            break;
        }
        case 4: {
            arg_cmd_init();
            for (auto& w : x.words) { str n = w.substr(0, 40); if (w.size() % 6 == 0) arg_cmd_unregister(n.c_str()); else arg_cmd_register(n.c_str(), proc, "d", nullptr); }
            arg_cmd_itr_t i = arg_cmd_itr_create();
            arg_cmd_itr_destroy(i);
            arg_cmd_uninit();
            break;
        }
        default: {
            std::vector<int> v = x.nums;
            if (v.size()) arg_mgsort(v.data(), (int)v.size(), sizeof(int), 0, (int)v.size() - 1, icmp);
        }
    }
    fclose(nul);
}
// status of a child in which allocation number `at` fails (0: none)
static void stale(const char*, ...) { _exit(43); }
static int child(Scen& x, long at, bool own, const char* dump = nullptr) {
    memset(sh, 0, sizeof *sh);
    if (ftruncate(s_err, 0)) {}
    lseek(s_err, 0, SEEK_SET);
    pid_t p = fork();
    if (p < 0) { fprintf(stderr, "fork: %s\n", strerror(errno)); _exit(2); }
    if (p == 0) {
        dup2(s_err, 2);
        alarm(20);
        if (own) { if (at % 3 == 0) vf_set_panic(stale); vf_set_panic(handler); }      // the latest one counts
        if (dump) setenv("EF_DUMPCORE", dump, 1); else unsetenv("EF_DUMPCORE");
        vm_reset();
        vm_fail_at = at;
        play(x);
        sh->total = vm_total;
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
static void c22(Src& s) {
    if (!sh) sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Scen x;
    x.kind = (int)s.below(9);
    if (x.kind > 5) x.kind -= 6;
    x.hm = (int)s.below(2);
    GenOpt g;
    g.maxEntries = 5;
    g.texts = s.one(3);
    g.bigmax = false;
    gen_table(s, x.t, g);
    for (auto& e : x.t.sp) { if (e.sh && !*e.sh) e.sh = nullptr; if (e.k == REX && s.one(5)) e.pat = hold(s.pick<str>({"(", "[a", "a**", ""})); }
    LineOpt l;
    l.maxItems = 8;
    l.validPct = s.one(2) ? 100 : 60;
    x.a.set(gen_line(s, x.t, l));
    int nw = s.range(0, x.kind == 4 ? 60 : 12);
    for (int i = 0; i < nw; i++) x.words.push_back(s.word(s.one(5) ? 300 : 12) + std::to_string(i));
    int nn = s.range(0, 12);
    for (int i = 0; i < nn; i++) x.nums.push_back((int)s.below(100));
    describe(x.t);
    describe(x.a.argc, x.a.ptr);
    say("scenario kind %d, %d words, %d numbers\n", x.kind, nw, nn);
    int st = child(x, 0, false);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { hit("scenarios that do not complete without failures"); return; }
    long total = sh->total;
    hit("scenarios");
    hit("allocations in scenarios", (uint64_t)total);
    long step = total <= 40 ? 1 : total / 40 + 1, off = total <= 40 ? 1 : 1 + (long)s.below((unsigned)step);
    for (long n = off; n <= total; n += step) {
        bool own = s.one(2);
        const char* dump = s.one(6) ? s.one(2) ? "" : "1" : nullptr;            // asks for a core file
        st = child(x, n, own, dump);
        hit("failed allocations");
        const char* k = x.kind == 3 ? "dynamic string" : x.kind == 4 ? "registry" : x.kind == 5 ? "sorting" : "table";
        if (own) {
            CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 42, "allocation %ld of %ld (%s scenario) failed, and the handler was not called: %s %d", n, total, k, WIFEXITED(st) ? "exit status" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
            CHECK(sh->calls == 1 && !sh->nodiag, "allocation %ld of %ld (%s scenario) failed, and the handler got no diagnostic", n, total, k);
            CHECK(sh->after == 0, "allocation %ld of %ld (%s scenario) failed, and %ld more were made before the handler was called", n, total, k, sh->after);
            hit("calls of the program's handler");
        } else {
            bool core = dump && *dump && WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
            CHECK(core || (WIFEXITED(st) && WEXITSTATUS(st) != 0), "allocation %ld of %ld (%s scenario) failed, and the process ended with %s %d", n, total, k, WIFEXITED(st) ? "exit status" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
            off_t z = lseek(s_err, 0, SEEK_END);
            CHECK(z > 0, "allocation %ld of %ld (%s scenario) failed, and nothing was written to standard error", n, total, k);
            hit(core ? "process ends with a diagnostic and a core file" : "process ends with a diagnostic");
        }
        Hash h; h.u((uint64_t)x.kind); h.u((uint64_t)n); h.u((uint64_t)total); h.u(own); for (auto& e : x.t.sp) h.u((uint64_t)e.k); sig(h.h);
    }
}
const Prop g_props[] = {{"C22", c22}, {nullptr, nullptr}};
