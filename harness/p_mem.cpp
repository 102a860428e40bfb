// C01, C23: memory safety under every generator and under hostile extras; reclamation.
#include "model.h"
#include <unistd.h>

// the case functions of the other properties, run here only for the sanitizers to watch
extern const Prop parse_props[], val_props[], text_props[], ds_props[], hash_props[], getopt_props[];
void parse_init(); void val_init(); void text_init(); void ds_init(); void hash_init(); void getopt_init();
void global_init() { parse_init(); val_init(); text_init(); ds_init(); hash_init(); getopt_init(); }
extern const Prop g_props[];
const Prop* vf_lookup(const char* id) {
    for (const Prop* l = g_props; l->id; l++) if (!strcmp(l->id, id)) return l;
    for (const Prop* l : {parse_props, val_props, text_props, ds_props, hash_props, getopt_props}) for (; l->id; l++) if (!strcmp(l->id, id)) return l;
    return nullptr;
}

// ---------------------------------------------------------------- everything a program can print about a table
static size_t print_all(Src& s, Tab& t) {
    size_t n = 0;
    void** a = t.arr.data();
    const char* suf = s.one(4) ? nullptr : hold(s.one(20) ? s.text(600) : "\n");
    n += from_stream([&](FILE* f) { arg_print_syntax(f, a, suf); arg_print_syntaxv(f, a, suf); arg_print_glossary(f, a, nullptr); arg_print_glossary_gnu(f, a); arg_print_errors(f, t.end, "prog"); }).size();
    n += from_ds([&](arg_dstr_t d) { arg_print_syntax_ds(d, a, suf); arg_print_syntaxv_ds(d, a, suf); arg_print_glossary_ds(d, a, "%s %s"); arg_print_glossary_gnu_ds(d, a); arg_print_errors_ds(d, t.end, "prog"); }).size();
    for (auto& e : t.sp) if (s.one(4)) n += from_stream([&](FILE* f) { arg_print_option(f, e.sh, e.lo, e.dt, suf); }).size();
    return n;
}
// ---------------------------------------------------------------- C01
static str soup(Src& s, const char* alphabet, int max) { str r; int n = s.range(0, max); for (int i = 0; i < n; i++) r += s.pickc(alphabet); return r; }
static void hostile_table(Src& s) {
    Tab t;
    GenOpt g;
    g.texts = s.one(2);
    g.customPct = s.one(3) ? 20 : 0;
    g.maxEntries = s.one(30) ? 60 : 10;
    gen_table(s, t, g);
    for (auto& e : t.sp) {
        if (e.k == REM) continue;
        if (s.one(10)) e.sh = hold(soup(s, "abcxyz019_=+.,\x01\x7f\xc3W", s.one(10) ? 260 : 6));
        if (s.one(10)) e.lo = hold(s.one(2) ? soup(s, "ab,=-", 8) : soup(s, "abc,", s.one(6) ? 700 : 20));
        if (s.one(12) && e.k != LIT) e.dt = hold(s.text(s.one(3) ? 500 : 30));
        if (s.one(12)) e.gl = hold(s.text(s.one(5) ? 5000 : 200));
        if (e.k == DATE && s.one(3)) e.pat = hold(s.one(2) ? soup(s, "%EOaAbBcCdDeHIjklmMnprRStTUwWxXyY %z", 14) : s.text(40));
        if (e.k == REX && s.one(3)) { e.pat = hold(s.one(2) ? soup(s, "ab()[]{}|*+?^$.\\-,012:wsdWB", 7) : s.text(8)); e.rflags = s.one(3) ? ARG_REX_ICASE : 0; }
        if (s.one(12) && e.k != CUS) { e.mn = s.range(0, 3); e.mx = s.size(2000); }
    }
    if (s.one(8)) t.cap = s.range(1, 3);
    describe(t);
    from_fd2([&] { t.build(&s); });
    int rounds = s.range(1, 3);
    for (int r = 0; r < rounds; r++) {
        LineOpt l;
        l.validPct = s.range(20, 100);
        l.noisePct = s.range(0, 60);
        l.maxItems = s.one(25) ? 300 : 14;
        std::vector<str> v = gen_line(s, t, l);
        for (auto& x : v) {
            if (s.one(15)) x = s.pick<str>({"-", "--", "---", "-=", "--=", "", "-W", "-Wabc", "-a-", "--a=", "-:", "-?", "-;", "--\xff", "-\x80", "-aaaaaaaaaa", "=", "+a", "\\", "-\x01"});
            if (s.one(40)) x = s.text(s.one(10) ? 9000 : 100);
            if (x.size() > 200) { bool rex = false; for (auto& e : t.sp) rex |= e.k == REX; if (rex) x.resize(s.one(2) ? 200 : 14); }
        }
        // keep backtracking affordable: patterns of the soup see short texts only
        bool rex = false;
        for (auto& e : t.sp) rex |= e.k == REX;
        if (rex) for (auto& x : v) if (x.size() > 24) x.resize(24);
        Argv a;
        a.set(v);
        if (s.one(50)) { a.argc = 0; }
        describe(a.argc, a.ptr);
        int ret = arg_parse(a.argc, a.ptr, t.arr.data());
        hit("hostile parses");
        hit("hostile parse errors", (uint64_t)ret);
        if (s.one(2)) hit("bytes rendered", print_all(s, t));
        // read everything that was stored
        for (size_t i = 0; i < t.sp.size(); i++) {
            Kind k = t.sp[i].k;
            if (k == STR || k == REX || k == FIL) for (int j = 0; j < t.count(i) && j < t.sp[i].emx(); j++) { Slot v2 = t.slot(i, j); if (v2.a) hit("stored bytes read", strlen(v2.a)); if (v2.b) hit("stored bytes read", strlen(v2.b)); if (v2.c) hit("stored bytes read", strlen(v2.c)); }
        }
    }
    CHECK(!arg_nullcheck(t.arr.data()), "null check");
    Hash h; for (auto& e : t.sp) { h.u((uint64_t)e.k); h.z(e.sh); h.z(e.lo); h.z(e.pat); } sig(h.h);
}
static void hostile_values(Src& s) {
    // texts without any structure, and every prefix of structured ones
    static const char* A[] = {"0123456789abcdefxXoObBkKmMgG+-. ", "0123456789eEpPxX.+-infatyNAN()_ ", "0123456789:/- AMPamp,JanFebMonTue%"};
    int k = (int)s.below(3);
    str f = gen_datefmt(s);
    void* e = k == 0 ? (void*)arg_intn("v", "value", nullptr, 0, 3, nullptr) : k == 1 ? (void*)arg_dbln("v", "value", nullptr, 0, 3, nullptr) : (void*)arg_daten("v", "value", hold(f), nullptr, 0, 3, nullptr);
    void* t[] = {e, arg_end(5)};
    str full = k == 0 ? gen_int(s, true) : k == 1 ? gen_dbl(s, true) : gen_date(s, f.c_str(), true);
    for (int r = 0; r < 10; r++) {
        str v = r < 5 ? full.substr(0, s.below((unsigned)full.size() + 1)) : soup(s, A[k], s.one(10) ? 400 : 12);
        char* a[] = {hold("p"), hold("-v"), hold(v), nullptr};
        say("value %s for entry kind %d format %s\n", q(v).c_str(), k, q(f).c_str());
        arg_parse(3, a, t);
        hit("hostile values");
        Hash h; h.t(v); sig(h.h);
    }
    arg_freetable(t, 2);
}
static void hostile_regex(Src& s) {
    str p = s.one(3) ? s.text(7) : soup(s, "ab()[]{}|*+?^$.\\-,012:wsdWBb", s.one(6) ? 12 : 7);
    if (s.one(30)) p = str((size_t)s.range(1, 300), s.pickc("(["));
    if (s.one(30)) { p = ""; int n = s.range(1, 60); for (int i = 0; i < n; i++) p += "("; p += "a"; for (int i = 0; i < n; i++) p += ")"; }
    if (s.one(20)) { p = ""; int n = s.range(1, 300); for (int i = 0; i < n; i++) p += s.pickc("abc."); }
    const char* pat = hold(p);
    say("pattern %s\n", q(p).c_str());
    int fl = s.one(2) ? ARG_REX_ICASE : 0;
    void* e = nullptr;
    from_fd2([&] { e = arg_rexn("v", "value", pat, nullptr, 0, 2, fl, nullptr); });
    void* t[] = {e, arg_end(5)};
    int ml = p.size() > 8 ? 6 : 10;
    for (int r = 0; r < 6; r++) {
        str v = r == 0 ? p.substr(0, 12) : r == 1 ? "" : soup(s, "ab01 -_\n().", ml);
        char* a[] = {hold("p"), hold("-v"), hold(v), nullptr};
        say("text %s\n", q(v).c_str());
        from_fd2([&] { arg_parse(3, a, t); });
        hit("hostile patterns matched");
        Hash h; h.t(p); h.t(v); sig(h.h);
    }
    arg_freetable(t, 2);
}
static void hostile_text(Src& s) {
    for (int r = 0; r < 4; r++) {
        str x = s.one(2) ? soup(s, "ab \n\t.", s.one(10) ? 3000 : 40) : s.text(300);
        unsigned lm = s.below(60);
        if (x.size() * (lm + 1) > 24000) lm = (unsigned)(24000 / x.size());        // the printer's cost grows with the square of its output
        unsigned rm = lm + s.below(60);
        say("margins %u..%u text %s\n", lm, rm, q(x).c_str());
        const char* t = hold(x);
        from_stream([&](FILE* f) { arg_print_formatted(f, lm, rm, t); });
        str sh = s.one(3) ? "" : soup(s, "abc", s.one(5) ? 300 : 5), lo = soup(s, "ab,", s.one(3) ? 500 : 20), dt = s.text(s.one(3) ? 500 : 20);
        const char *a = s.one(3) ? nullptr : hold(sh), *b = s.one(3) ? nullptr : hold(lo), *c = s.one(3) ? nullptr : hold(dt);
        from_stream([&](FILE* f) { arg_print_option(f, a, b, c, "\n"); });
        hit("hostile texts rendered");
        Hash h; h.t(x); h.u(lm); h.u(rm); h.t(sh); h.t(lo); h.t(dt); sig(h.h);
    }
}
static void c01(Src& s) {
    static const char* ids[] = {"C02", "C03", "C04", "C05", "C06", "C12", "C13", "C14", "C24", "C07", "C08", "C09", "C10", "C11", "C15", "C16", "C17", "C18", "C21", "C19", "C20", "C25", "C27", "C28", "C29"};
    unsigned k = s.below(52);
    if (k < 12) { hostile_table(s); return; }
    if (k < 17) { hostile_values(s); return; }
    if (k < 23) { hostile_regex(s); return; }
    if (k < 27) { hostile_text(s); return; }
    const char* id = ids[(k - 27) % 25];
    str name = str("workload of ") + id;
    hit(name.c_str());
    try { vf_lookup(id)->fn(s); } catch (Fail&) { hit("behavioural differences ignored here"); }
    if (!strcmp(id, "C20")) arg_cmd_init();
    Hash h; h.z(id); h.u(s.s); sig(h.h);
}
// ---------------------------------------------------------------- C23
static void registry(Src& s) {
    long base = vm_live;
    arg_cmd_init();
    int n = s.one(10) ? s.range(30, 200) : s.range(0, 12);
    unsigned span = 40;
    if (s.one(40)) { n = s.range(200, 1200); span = 2000; }        // enough names for the registry to grow several times
    for (int i = 0; i < n; i++) {
        str nm = "c" + std::to_string(s.below(span));
        if (s.one(4)) arg_cmd_unregister(nm.c_str()); else arg_cmd_register(nm.c_str(), nullptr, "text", nullptr);
    }
    arg_cmd_itr_t it = arg_cmd_itr_create();
    if (arg_cmd_count()) { while (arg_cmd_itr_advance(it)) {} }
    arg_cmd_itr_destroy(it);
    arg_cmd_uninit();
    CHECK(vm_live == base, "%ld allocations left after shutting down the sub-command registry", vm_live - base);
    hit("registries checked");
    arg_cmd_init();
}
// the module's name and version are kept by the library, but only the latest of each
static void module_texts(Src& s) {
    long base = vm_live;
    int n = s.range(40, 120);
    for (int i = 0; i < n; i++) {
        str w = s.one(8) ? str() : s.word(s.one(5) ? 300 : 20);
        if (s.one(2)) arg_set_module_name(w.c_str());
        else arg_set_module_version(s.one(4) ? (int)s.raw() : s.range(0, 20), s.range(0, 300), s.range(0, 9), w.c_str());
        if (s.one(10)) { arg_dstr_t d = arg_dstr_create(); arg_make_get_help_msg(d); arg_dstr_destroy(d); }
    }
    CHECK(vm_live <= base + 6, "setting the module's name and version %d times left %ld allocations behind", n, vm_live - base);
    hit("module settings checked", (uint64_t)n);
}
static void c23(Src& s) {
    if (s.one(30)) { module_texts(s); Hash h; h.u(s.s); sig(h.h); return; }
    if (s.one(6)) { registry(s); Hash h; h.u(s.s); sig(h.h); return; }
    long base = vm_live;
    Tab t;
    GenOpt g;
    g.texts = s.one(3);
    gen_table(s, t, g);
    for (auto& e : t.sp) if (e.k == REX && s.one(6)) e.pat = hold(s.pick<str>({"(", "[", "a**", "", "a{", "[b-a]", "\\"}));
    describe(t);
    from_fd2([&] { t.build(&s); });
    long built = vm_live;
    CHECK(built - base >= (long)t.sp.size(), "entries without allocations");
    int rounds = s.range(1, 4);
    size_t errs = 0;
    for (int r = 0; r < rounds; r++) {
        LineOpt l;
        l.validPct = s.one(2) ? 60 : 100;
        l.noisePct = s.one(2) ? 0 : 25;
        Argv a;
        a.set(gen_line(s, t, l));
        if (s.one(40)) a.argc = 0;
        describe(a.argc, a.ptr);
        int ret = 0;
        from_fd2([&] { ret = arg_parse(a.argc, a.ptr, t.arr.data()); });
        CHECK(vm_live == built, "a parse with %d errors left %ld allocations behind", ret, vm_live - built);
        errs += (size_t)ret;
        hit(ret ? "failed parses checked" : "error-free parses checked");
        if (s.one(2)) { print_all(s, t); CHECK(vm_live == built, "printing left %ld allocations behind", vm_live - built); hit("printings checked"); }
        if (s.one(3)) {
            arg_dstr_t d = arg_dstr_create();
            int code = 0;
            arg_make_syntax_err_help_msg(d, "cmd", (int)s.below(2), ret, t.arr.data(), t.end, &code);
            arg_make_get_help_msg(d);
            arg_dstr_destroy(d);
            CHECK(vm_live == built, "making messages left %ld allocations behind", vm_live - built);
        }
    }
    // null check
    size_t n = t.sp.size();
    CHECK(arg_nullcheck(t.arr.data()) == 0, "the null check reports a missing entry in a complete table");
    CHECK(arg_nullcheck(nullptr) != 0, "the null check accepts a missing table");
    for (size_t i = 0; i < n; i++) {
        if (n > 12 && !s.one(4)) continue;
        void* keep = t.arr[i];
        t.arr[i] = nullptr;
        CHECK(arg_nullcheck(t.arr.data()) != 0, "the null check does not report the missing entry %zu of %zu", i, n);
        t.arr[i] = keep;
        hit("missing entries reported");
    }
    // release
    std::vector<void*> arr((void**)nullptr, (void**)nullptr);
    for (size_t i = 0; i < t.arr.size(); i++) { arr.push_back(t.arr[i]); if (s.one(6)) arr.push_back(nullptr); }
    bool old = s.one(5);
    if (!old && s.one(4)) {                   // in any order, and with more than one terminator
        for (int k = s.range(0, 3); k--;) arr.push_back(s.one(2) ? (void*)arg_end(s.range(1, 3)) : (void*)arg_lit0("a", NULL, NULL));
        for (size_t i = arr.size(); i > 1; i--) std::swap(arr[i - 1], arr[s.below((unsigned)i)]);
        hit("tables released in another order");
    }
    void** heap = (void**)holdmem(arr.size() * sizeof(void*));
    for (size_t i = 0; i < arr.size(); i++) heap[i] = arr[i];
    t.freed = true;
    if (old) {
        // stops at a missing entry; what lies after that is released the other way
        arg_free(heap);
        for (size_t i = 0; i < arr.size() && arr[i]; i++) CHECK(!heap[i], "entry %zu of the table released by arg_free was not cleared", i);
        arg_freetable(heap, arr.size());
    } else arg_freetable(heap, arr.size());
    for (size_t i = 0; i < arr.size(); i++) CHECK(!heap[i], "entry %zu of the released table was not cleared", i);
    if (!old && s.one(2)) arg_freetable(heap, arr.size());
    long cus = 0;      // entries of the program itself
    CHECK(vm_live == base + cus, "%ld allocations left after releasing the table", vm_live - base);
    hit("tables released");
    Hash h; for (auto& e : t.sp) { h.u((uint64_t)e.k); h.u((uint64_t)e.emx()); } h.u(errs); h.u((uint64_t)rounds); sig(h.h);
}
const Prop g_props[] = {{"C01", c01}, {"C23", c23}, {nullptr, nullptr}};
