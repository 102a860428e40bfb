// C19, C20, C25: dynamic strings, the sub-command registry, sorting.
#include "val.h"
#include <set>
#include <algorithm>

extern "C" void* vm_malloc(size_t);
void global_init() { }

// ---------------------------------------------------------------- C19
struct Given { str content; int released = 0; };
static std::map<char*, Given> g_given;
static void bad_release(const char* why) { fprintf(stderr, "VF-RELEASE: %s\n", why); }
static int g_badrel;
static void rel(char* b, int which) {
    auto it = g_given.find(b);
    if (it == g_given.end()) { g_badrel++; bad_release("release function called for a buffer that was not handed over"); return; }
    if ((it->second.released += 1) > 1) { g_badrel++; bad_release("buffer released twice"); }
    if (it->second.content[0] != (char)('0' + which)) { g_badrel++; bad_release("buffer released by another release function"); }
}
static void rel0(char* b) { rel(b, 0); }
static void rel1(char* b) { rel(b, 1); }

static void c19(Src& s) {
    g_given.clear();
    g_badrel = 0;
    int nds = s.one(4) ? 2 : 1;
    long base = vm_live;
    struct M { arg_dstr_t ds; str v; char* owned = nullptr; std::vector<std::pair<const char*, str>> statics; bool app = false; };
    std::vector<M> ms((size_t)nds);
    for (auto& m : ms) m.ds = arg_dstr_create();
    auto len = [&]() -> int { switch (s.below(6)) { case 0: return 0; case 1: return s.range(1, 20); case 2: return s.range(90, 210); case 3: return s.one(3) ? s.magic() % 3000 + s.range(0, 1) : s.range(0, 8); case 4: return s.one(20) ? s.range(2000, 20000) : s.range(0, 40); default: return s.range(0, 60); } };
    auto text = [&](int n) { str r; r.reserve((size_t)n); char c = s.pickc("abcdexyz%"); for (int i = 0; i < n; i++) r += s.one(9) ? (char)s.range(1, 255) : c; return r; };
    int steps = s.range(1, s.one(10) ? 120 : 18);
    str ops;
    for (int k = 0; k < steps; k++) {
        M& m = ms[s.below((unsigned)nds)];
        bool gone = false;    // an owned buffer has been given up by this step
        bool touched = true;
        switch (s.below(15)) {
            case 0: case 1: case 2: case 3: { str t = text(len()); say("cat %s\n", q(t).c_str()); arg_dstr_cat(m.ds, hold(t)); m.v += t; gone = !t.empty(); if (t.empty()) touched = false; ops += 'a'; break; }
            case 4: case 5: { char c = s.one(30) ? 0 : (char)s.range(1, 255); say("catc %d\n", c); arg_dstr_catc(m.ds, c); if (c) { m.v += c; gone = true; } else touched = false; ops += 'c'; break; }
            case 6: case 7: case 8: {
                // formatted append
                char lit[64] = "";
                str a = text(len()), f, w;
                int n = (int)s.raw();
                switch (s.below(9)) {
                    case 0: arg_dstr_catf(m.ds, "%s", hold(a)); w = a; break;
                    case 1: arg_dstr_catf(m.ds, "%d", n); w = std::to_string(n); break;
                    case 2: { int wd = s.one(8) ? s.range(0, 5000) : s.range(0, 60); arg_dstr_catf(m.ds, "%*d|", wd, n); char* z = nullptr; if (asprintf(&z, "%*d|", wd, n) > 0) w = z; free(z); break; }
                    case 3: { f = text(len()); str g; for (char c : f) { g += c; if (c == '%') g += c; } arg_dstr_catf(m.ds, hold(g)); w = f; break; }
                    case 4: { f = text(s.range(0, 30)); str g; for (char c : f) { g += c; if (c == '%') g += c; } g += "%s<%x>"; arg_dstr_catf(m.ds, hold(g), hold(a), (unsigned)n); snprintf(lit, sizeof lit, "<%x>", (unsigned)n); w = f + a + lit; break; }
                    case 5: { str own = m.v; arg_dstr_catf(m.ds, "[%s]", arg_dstr_cstr(m.ds)); w = "[" + own + "]"; if (m.v.size() > 40000) { } break; }
                    case 6: { int c = s.range(1, 255); arg_dstr_catf(m.ds, "%c%%", c); w = str(1, (char)c) + "%"; break; }
                    case 7: { arg_dstr_catf(m.ds, nullptr); w = ""; break; }
                    default: { double d = (double)n / 7; int pr = s.range(0, 40); arg_dstr_catf(m.ds, "%.*f", pr, d); char* z = nullptr; if (asprintf(&z, "%.*f", pr, d) > 0) w = z; free(z); break; }
                }
                say("catf -> %s\n", q(w).c_str());
                m.v += w;
                gone = !w.empty();
                if (w.empty()) touched = false;
                ops += 'f';
                break;
            }
            case 9: { str t = text(len()); say("set volatile %s\n", q(t).c_str()); char* tmp = (char*)malloc(t.size() + 1); memcpy(tmp, t.c_str(), t.size() + 1); arg_dstr_set(m.ds, tmp, ARG_DSTR_VOLATILE); memset(tmp, '!', t.size()); free(tmp); m.v = t; gone = true; ops += 'v'; break; }
            case 10: { str t = text(len()); say("set static %s\n", q(t).c_str()); char* p = hold(t); arg_dstr_set(m.ds, p, ARG_DSTR_STATIC); m.statics.push_back({p, t}); m.v = t; gone = true; ops += 's'; break; }
            case 11: { str t = text(len()); say("set dynamic %s\n", q(t).c_str()); char* p = (char*)vm_malloc(t.size() + 1); memcpy(p, t.c_str(), t.size() + 1); arg_dstr_set(m.ds, p, ARG_DSTR_DYNAMIC); m.v = t; gone = true; ops += 'd'; break; }
            case 12: {
                int w = (int)s.below(2);
                str t = str(1, (char)('0' + w)) + text(len());
                say("set with release function %d %s\n", w, q(t).c_str());
                char* p = (char*)holdmem(t.size() + 1);
                memcpy(p, t.c_str(), t.size() + 1);
                g_given[p] = Given{t, 0};
                char* old = m.owned;
                arg_dstr_set(m.ds, p, w ? rel1 : rel0);
                m.v = t;
                if (old) CHECK(g_given[old].released == 1, "a buffer with a release function was released %d times when it was replaced", g_given[old].released);
                m.owned = p;
                ops += 'o';
                break;
            }
            case 13:
                if (s.one(2)) { say("reset\n"); if (s.one(5)) arg_dstr_free(m.ds); arg_dstr_reset(m.ds); ops += 'r'; }
                else if (s.one(2)) { say("set NULL\n"); arg_dstr_set(m.ds, nullptr, s.one(2) ? ARG_DSTR_STATIC : ARG_DSTR_VOLATILE); ops += 'n'; }
                else { say("destroy and create\n"); arg_dstr_destroy(m.ds); m.ds = arg_dstr_create(); ops += 'D'; }
                m.v = "";
                gone = true;
                break;
            default: {
                char* c = arg_dstr_cstr(m.ds);
                bool st = false;
                for (auto& x : m.statics) if (c >= x.first && c <= x.first + x.second.size()) st = true;
                if (s.one(2) && !st && m.v.size()) {
                    size_t at = s.below((unsigned)m.v.size() + 1);
                    say("shorten in place to %zu\n", at);
                    c[at] = 0;
                    m.v.resize(at);
                    touched = false;
                    ops += 'x';
                } else {
                    size_t at = s.below((unsigned)m.v.size() + 1);
                    say("set volatile from own text at %zu\n", at);
                    bool inown = m.owned != nullptr && c == m.owned;
                    str t = m.v.substr(at);
                    (void)inown;
                    arg_dstr_set(m.ds, c + at, ARG_DSTR_VOLATILE);
                    m.v = t;
                    gone = true;
                    ops += 'p';
                }
                break;
            }
        }
        (void)touched;
        if (gone && m.owned) {
            CHECK(g_given[m.owned].released == 1, "a buffer with a release function was released %d times when it was replaced, appended to or dropped", g_given[m.owned].released);
            m.owned = nullptr;
            hit("buffers released");
        } else if (m.owned && g_given[m.owned].released == 1 && !gone) {
            // a no-op append may already have copied the text
            CHECK(arg_dstr_cstr(m.ds) != m.owned, "the buffer in use was released");
            m.owned = nullptr;
        }
        CHECK(!g_badrel, "wrong release of a buffer that was handed over");
        for (auto& x : ms) {
            const char* c = arg_dstr_cstr(x.ds);
            CHECK(c && x.v == c, "content is %s, expected %s (%zu bytes)", q(c).c_str(), q(x.v).c_str(), x.v.size());
            for (auto& st : x.statics) CHECK(!strcmp(st.first, st.second.c_str()), "static text %s was changed to %s", q(st.second).c_str(), q(st.first).c_str());
        }
        hit("operations checked");
        if (m.v.size() > 60000) { arg_dstr_reset(m.ds); m.v = ""; if (m.owned) { m.owned = nullptr; } }
    }
    for (auto& m : ms) arg_dstr_destroy(m.ds);
    arg_dstr_destroy(nullptr);
    CHECK(!g_badrel, "wrong release of a buffer that was handed over");
    for (auto& g : g_given) CHECK(g.second.released == 1, "a buffer with a release function was released %d times in all", g.second.released);
    CHECK(vm_live == base, "%ld allocations left after destroying the strings", vm_live - base);
    hit("histories");
    Hash h; h.t(ops); for (auto& m : ms) h.u(m.v.size()); sig(h.h);
}

// ---------------------------------------------------------------- C20
struct Call { int proc; int argc; char** argv; arg_dstr_t res; void* ctx; };
static std::vector<Call> g_calls;
static int g_ret;
template <int N> static int proc(int argc, char** argv, arg_dstr_t res, void* ctx) { g_calls.push_back({N, argc, argv, res, ctx}); return g_ret; }
static arg_cmdfn* const PROCS[] = {proc<0>, proc<1>, proc<2>, proc<3>, proc<4>};
static void c20(Src& s) {
    long base = vm_live;
    struct Ent { str desc; int p; void* ctx; };
    std::map<str, Ent> model;
    arg_cmd_init();
    struct Un { ~Un() { arg_cmd_uninit(); } };
    {
        Un un;
        bool big = s.one(25);
        int steps = big ? s.range(200, 3000) : s.range(1, 80);
        std::vector<str> pool;
        int np = big ? s.range(50, 2500) : s.range(1, 60);
        for (int i = 0; i < np; i++) {
            str n;
            switch (s.below(6)) {
                case 0: n = s.word(3); break;
                case 1: n = "cmd" + std::to_string(i); break;
                case 2: n = s.text(20); break;
                case 3: n = str((size_t)s.range(90, 99), 'n'); n[s.below(90)] = (char)s.range(33, 126); break;
                case 4: n = pool.size() ? s.pick(pool) + s.pickc("ab") : "x"; break;
                default: n = s.word(10); break;
            }
            if (n.size() > 99) n.resize(99);
            pool.push_back(n);
        }
        str ops;
        char ctxs[8];
        int removePct = s.range(0, 45);
        for (int k = 0; k < steps; k++) {
            str n = s.pick(pool);
            auto it = model.find(n);
            if (s.pct((unsigned)removePct)) {
                say("unregister %s\n", q(n).c_str());
                if (it != model.end() && s.one(4)) { arg_cmd_info_t* ci = arg_cmd_info(n.c_str()); CHECK(ci, "registered name %s was not found", q(n).c_str()); arg_cmd_unregister(hold(n)); }
                else arg_cmd_unregister(hold(n));
                if (it != model.end()) { model.erase(it); ops += 'u'; } else { ops += 'U'; hit("removals of unknown names"); }
            } else {
                str d = s.one(6) ? str((size_t)s.range(200, 255), 'd') : s.one(5) ? "" : s.text(40);
                if (d.size() > 255) d.resize(255);
                int p = (int)s.below(5);
                void* c = s.one(5) ? nullptr : (void*)&ctxs[s.below(8)];
                say("register %s\n", q(n).c_str());
                if (it != model.end() && s.one(3)) {
                    // with the registered strings themselves
                    arg_cmd_info_t* ci = arg_cmd_info(n.c_str());
                    CHECK(ci, "registered name %s was not found", q(n).c_str());
                    d = it->second.desc;
                    arg_cmd_register(ci->name, PROCS[p], ci->description, c);
                } else arg_cmd_register(hold(n), PROCS[p], hold(d), c);
                ops += it == model.end() ? 'r' : 'R';
                hit(it == model.end() ? "registrations" : "re-registrations");
                model[n] = Ent{d, p, c};
            }
            CHECK(arg_cmd_count() == model.size(), "%u commands counted, expected %zu", arg_cmd_count(), model.size());
            bool fullcheck = k + 1 == steps || (!big ? s.one(6) : s.one(300));
            auto one = [&](const str& nm) {
                auto f = model.find(nm);
                arg_cmd_info_t* ci = arg_cmd_info(hold(nm));
                CHECK((ci != nullptr) == (f != model.end()), "command %s is %s, expected otherwise", q(nm).c_str(), ci ? "found" : "not found");
                if (!ci) { hit("lookups of unknown names"); return; }
                CHECK(nm == ci->name, "command %s is named %s", q(nm).c_str(), q(ci->name).c_str());
                CHECK(f->second.desc == ci->description, "command %s has description %s, expected %s", q(nm).c_str(), q(ci->description).c_str(), q(f->second.desc).c_str());
                CHECK(ci->proc == PROCS[f->second.p] && ci->ctx == f->second.ctx, "command %s has another procedure or context", q(nm).c_str());
                hit("lookups checked");
            };
            one(s.pick(pool));
            one(n);
            if (s.one(3) && model.size()) {
                auto f = model.find(s.pick(pool));
                if (f != model.end()) {
                    g_calls.clear();
                    g_ret = (int)s.raw();
                    int argc = s.range(0, 5);
                    char** argv = (char**)holdmem(sizeof(char*) * 6);
                    for (int i = 0; i < 6; i++) argv[i] = nullptr;
                    arg_dstr_t ds = s.one(2) ? arg_dstr_create() : nullptr;
                    int r = arg_cmd_dispatch(hold(f->first), argc, argv, ds);
                    if (ds) arg_dstr_destroy(ds);
                    CHECK(g_calls.size() == 1, "dispatch of %s made %zu calls", q(f->first).c_str(), g_calls.size());
                    Call c = g_calls[0];
                    CHECK(c.proc == f->second.p && c.ctx == f->second.ctx, "dispatch of %s called another procedure or context", q(f->first).c_str());
                    CHECK(c.argc == argc && c.argv == argv && c.res == ds, "dispatch of %s passed other arguments", q(f->first).c_str());
                    CHECK(r == g_ret, "dispatch of %s returned %d, the procedure %d", q(f->first).c_str(), r, g_ret);
                    hit("dispatches checked");
                }
            }
            if (fullcheck) {
                for (auto& m : model) one(m.first);
                std::multiset<str> seen;
                arg_cmd_itr_t itr = arg_cmd_itr_create();
                if (model.size()) {
                    do {
                        char* key = arg_cmd_itr_key(itr);
                        arg_cmd_info_t* v = arg_cmd_itr_value(itr);
                        CHECK(key && v, "iterator on nothing after %zu of %zu entries", seen.size(), model.size());
                        auto f = model.find(key);
                        CHECK(f != model.end(), "iterator found %s, which is not registered", q(key).c_str());
                        CHECK(v == arg_cmd_info(key), "iterator value of %s is not its entry", q(key).c_str());
                        seen.insert(key);
                        CHECK(seen.count(key) == 1, "iterator visited %s twice", q(key).c_str());
                    } while (arg_cmd_itr_advance(itr));
                } else CHECK(!arg_cmd_itr_advance(itr), "iterator of an empty registry advanced");
                CHECK(seen.size() == model.size(), "iterator visited %zu of %zu entries", seen.size(), model.size());
                CHECK(!arg_cmd_itr_advance(itr), "iterator advanced past the end");
                arg_cmd_itr_destroy(itr);
                hit("iterations checked");
                itr = arg_cmd_itr_create();
                for (int z = 0; z < 4; z++) {
                    str nm = s.pick(pool);
                    bool in = model.count(nm);
                    str before = model.size() ? arg_cmd_itr_key(itr) : "";
                    int r = arg_cmd_itr_search(itr, hold(nm));
                    CHECK((r != 0) == in, "positioning an iterator on %s returned %d", q(nm).c_str(), r);
                    if (in) { CHECK(nm == arg_cmd_itr_key(itr), "iterator positioned on %s is at %s", q(nm).c_str(), q(arg_cmd_itr_key(itr)).c_str()); CHECK(arg_cmd_itr_value(itr) == arg_cmd_info(nm.c_str()), "iterator positioned on %s has another value", q(nm).c_str()); }
                    hit("iterator searches checked");
                    (void)before;
                }
                if (model.size()) {
                    // walk on from a position: no entry twice, and together with a full walk consistent
                    std::set<str> tail;
                    int ok = 1;
                    do { CHECK(tail.insert(arg_cmd_itr_key(itr)).second, "iterator visited %s twice", q(arg_cmd_itr_key(itr)).c_str()); ok++; } while (arg_cmd_itr_advance(itr));
                    CHECK(tail.size() <= model.size(), "iterator visited too many entries");
                }
                arg_cmd_itr_destroy(itr);
            }
        }
        Hash h; h.t(ops.substr(0, 400)); h.u(model.size()); sig(h.h);
    }
    CHECK(vm_live == base, "%ld allocations left after shutting down the registry", vm_live - base);
}

// ---------------------------------------------------------------- C25
static int c_esize, c_mode, c_key;
static const char *c_lo, *c_hi;
static std::set<str>* c_elems;
static str c_bad;
static int cmp(const void* a, const void* b) {
    for (const void* p : {a, b}) if (c_bad.empty() && c_elems && !c_elems->count(str((const char*)p, (size_t)c_esize))) c_bad = "the comparison was called with something that is not an element of the range";
    int r = memcmp(a, b, (size_t)c_key);
    switch (c_mode) {
        case 0: return r < 0 ? -1 : r > 0 ? 1 : 0;
        case 1: return r < 0 ? INT_MIN : r > 0 ? INT_MAX : 0;
        case 2: return r < 0 ? 1 : r > 0 ? -1 : 0;      // descending
        default: return r;
    }
}
static void c25(Src& s) {
    int esize = s.one(3) ? s.pick<int>({1, 2, 4, 8, 16}) : s.range(1, 60);
    int n = s.one(6) ? s.size(3000) : s.range(0, 40);
    if (s.one(300)) esize = s.range(500, 5000), n = s.range(0, 30);
    if (s.one(5000)) esize = s.pick<int>({32767, 32768, 40000, 65535, 65536, 70000}), n = s.range(2, 8);
    if (s.one(20000)) esize = s.range(1, 4), n = s.range(33000, 140000);
    if (n < 1) n = 1;
    c_esize = esize;
    c_key = s.one(2) ? esize : s.range(1, esize);
    c_mode = (int)s.below(4);
    int i = 0, k = n - 1;
    if (s.one(2)) { i = s.range(0, n - 1); k = s.range(i, n - 1); }
    if (s.one(30)) k = i - 1;                     // empty range
    std::vector<char> a((size_t)n * (size_t)esize);
    int alpha = s.one(3) ? 2 : s.one(2) ? 8 : 256;
    int order = (int)s.below(5);                  // random, ascending, descending, constant, random
    for (int e = 0; e < n; e++) for (int b = 0; b < esize; b++) {
        int v;
        if (order == 1) v = b == 0 ? e * 255 / n : 0;
        else if (order == 2) v = b == 0 ? 255 - e * 255 / n : 0;
        else if (order == 3) v = 7;
        else v = (int)s.below((unsigned)alpha);
        a[(size_t)e * (size_t)esize + (size_t)b] = (char)v;
    }
    say("%d elements of %d bytes, key %d bytes, range %d..%d, order %d, comparison %d\n", n, esize, c_key, i, k, order, c_mode);
    char* d = (char*)holdmem(a.size());
    memcpy(d, a.data(), a.size());
    std::set<str> elems;
    std::multiset<str> before;
    for (int e = i; e <= k; e++) { str x(d + (size_t)e * (size_t)esize, (size_t)esize); elems.insert(x); before.insert(x); }
    c_elems = &elems;
    c_bad.clear();
    long base = vm_live;
    arg_mgsort(d, n, esize, i, k, cmp);
    c_elems = nullptr;
    CHECK(vm_live == base, "sorting left %ld allocations", vm_live - base);
    CHECK(c_bad.empty(), "%s", c_bad.c_str());
    std::multiset<str> after;
    for (int e = i; e <= k; e++) {
        after.insert(str(d + (size_t)e * (size_t)esize, (size_t)esize));
        if (e > i) CHECK(cmp(d + (size_t)(e - 1) * (size_t)esize, d + (size_t)e * (size_t)esize) <= 0, "elements %d and %d are not in order", e - 1, e);
    }
    CHECK(after == before, "the sorted range is not a permutation of what it held");
    CHECK(!memcmp(d, a.data(), (size_t)i * (size_t)esize), "bytes before the range changed");
    size_t z = (size_t)(k + 1) * (size_t)esize;
    CHECK(!memcmp(d + z, a.data() + z, a.size() - z), "bytes after the range changed");
    hit("ranges sorted");
    if (k > i) hit("elements sorted", (uint64_t)(k - i + 1));
    if (k > i) { Hash h; h.b(a.data(), a.size()); h.u((uint64_t)i); h.u((uint64_t)k); h.u((uint64_t)c_mode); sig(h.h); }
}
const Prop g_props[] = {{"C19", c19}, {"C20", c20}, {"C25", c25}, {nullptr, nullptr}};
