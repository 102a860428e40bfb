// C26: the same workload on differently built libraries; each case yields one number, and the numbers are compared.
//   C26   everything a program can observe         (separate sources, single file, other compilers and options)
//   C26P  plain command lines, acceptance and values (bundled and platform option scanner)
#include "model.h"
#include <unistd.h>

static FILE* s_dig;
void global_init() {
    const char* p = getenv("VF_DIGEST");
    s_dig = p ? fopen(p, "wb") : nullptr;
    arg_cmd_init();
}
static void emit(uint64_t h) { if (s_dig) { fwrite(&h, 8, 1, s_dig); fflush(s_dig); } say("digest %016llx\n", (unsigned long long)h); }

static str all_texts(Src& s, Tab& t) {
    void** a = t.arr.data();
    str suf = s.one(2) ? "\n" : s.text(20);
    str r = from_stream([&](FILE* f) {
        arg_print_syntax(f, a, suf.c_str()); fputs("\x01", f);
        arg_print_syntaxv(f, a, suf.c_str()); fputs("\x01", f);
        arg_print_glossary(f, a, nullptr); fputs("\x01", f);
        arg_print_glossary(f, a, "%s|%s\n"); fputs("\x01", f);
        arg_print_glossary_gnu(f, a); fputs("\x01", f);
        arg_print_errors(f, t.end, "prog");
    });
    r += from_ds([&](arg_dstr_t d) {
        arg_print_syntax_ds(d, a, suf.c_str());
        arg_print_syntaxv_ds(d, a, suf.c_str());
        arg_print_glossary_ds(d, a, nullptr);
        arg_print_glossary_gnu_ds(d, a);
        arg_print_errors_ds(d, t.end, "prog");
        int code = -7;
        arg_make_syntax_err_help_msg(d, "cmd", (int)s.below(2), t.end->count, a, t.end, &code);
        arg_dstr_catf(d, "%d", code);
        arg_make_help_msg(d, "cmd", a);
        arg_make_get_help_msg(d);
    });
    return r;
}
static int proc(int c, char**, arg_dstr_t, void*) { return c; }
static int icmp(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }
static void others(Src& s, Hash& h) {
    // dynamic strings
    arg_dstr_t d = arg_dstr_create();
    for (int n = s.range(0, 12); n--;) {
        str w = s.text(s.one(4) ? 400 : 20);
        switch (s.below(6)) {
            case 0: arg_dstr_set(d, hold(w), ARG_DSTR_VOLATILE); break;
            case 1: arg_dstr_set(d, hold(w), ARG_DSTR_STATIC); break;
            case 2: arg_dstr_catc(d, 'q'); break;
            case 3: arg_dstr_catf(d, "%s:%d", w.c_str(), n); break;
            case 4: if (s.one(4)) arg_dstr_reset(d); break;
            default: arg_dstr_cat(d, w.c_str());
        }
        h.z(arg_dstr_cstr(d));
    }
    arg_dstr_destroy(d);
    // registry
    for (int n = s.range(0, 20); n--;) {
        str nm = "c" + std::to_string(s.below(30));
        if (s.one(3)) arg_cmd_unregister(nm.c_str()); else arg_cmd_register(nm.c_str(), proc, s.word(20).c_str(), nullptr);
    }
    h.u(arg_cmd_count());
    if (arg_cmd_count()) {
        arg_cmd_itr_t it = arg_cmd_itr_create();
        uint64_t x = 0;      // the order is not promised
        do { Hash k; k.z(arg_cmd_itr_key(it)); k.z(((arg_cmd_info_t*)arg_cmd_itr_value(it))->description); x += k.h; } while (arg_cmd_itr_advance(it));
        arg_cmd_itr_destroy(it);
        h.u(x);
    }
    for (int i = 0; i < 30; i++) {
        str nm = "c" + std::to_string(i);
        if (arg_cmd_info(nm.c_str())) { h.u((uint64_t)arg_cmd_dispatch(nm.c_str(), i, nullptr, nullptr)); arg_cmd_unregister(nm.c_str()); }
    }
    // sorting and wrapping
    std::vector<int> v;
    for (int n = s.range(1, 30); n--;) v.push_back((int)s.below(50));
    arg_mgsort(v.data(), (int)v.size(), sizeof(int), 0, (int)v.size() - 1, icmp);
    for (int i : v) h.u((uint64_t)i);
    str x = s.text(300);
    unsigned lm = s.below(20), rm = lm + 4 + s.below(60);
    h.t(from_stream([&](FILE* f) { arg_print_formatted(f, lm, rm, x.c_str()); }));
}
static void full(Src& s) {
    Hash h;
    Tab t;
    GenOpt g;
    g.texts = s.one(2);
    gen_table(s, t, g);
    for (auto& e : t.sp) if (e.k == REX && s.one(10)) { e.pat = hold(s.pick<str>({"(", "[", "a**", "", "a{", "[b-a]"})); }
    describe(t);
    h.t(from_fd2([&] { t.build(nullptr); }));
    uint64_t rounds = (uint64_t)s.range(1, 3);
    if (s.one(3)) { arg_set_module_name(s.word(10).c_str()); arg_set_module_version((int)s.below(9), 1, 2, "tag"); }
    for (uint64_t r = 0; r < rounds; r++) {
        LineOpt l;
        l.noisePct = s.one(2) ? 3 : 20;
        Argv a;
        a.set(gen_line(s, t, l));
        describe(a.argc, a.ptr);
        int ret = 0;
        h.t(from_fd2([&] { ret = arg_parse(a.argc, a.ptr, t.arr.data()); }));
        h.u(result_digest(t, ret, false));
        hit(ret ? "failed parses" : "error-free parses");
        h.t(all_texts(s, t));
        hit("renderings");
    }
    if (s.one(3)) { others(s, h); hit("other modules"); }
    emit(h.h);
    sig(h.h);
}
static void plain(Src& s) {
    Hash h;
    Tab t;
    GenOpt g;
    g.plain = true;
    gen_table(s, t, g);
    describe(t);
    t.build(nullptr);
    for (int r = 0; r < 3; r++) {
        LineOpt l;
        l.plain = true;
        l.noisePct = s.one(2) ? 0 : 5;
        l.validPct = s.one(2) ? 100 : 80;
        Argv a;
        a.set(gen_line(s, t, l));
        describe(a.argc, a.ptr);
        // the defaults again, so that an earlier failed parse says nothing
        for (size_t i = 0; i < t.sp.size(); i++) if (t.sp[i].k != REM) for (int j = 0; j < t.sp[i].emx() && j < 8; j++) { Slot z; z.a = z.b = z.c = ""; t.setslot(i, j, z); }
        int ret = arg_parse(a.argc, a.ptr, t.arr.data());
        h.u(ret == 0);
        hit(ret ? "rejected lines" : "accepted lines");
        if (!ret) { h.u(result_digest(t, 0, false)); Hash k; k.u(h.h); sig(k.h); }
    }
    emit(h.h);
}
const Prop g_props[] = {{"C26", full}, {"C26P", plain}, {nullptr, nullptr}};
