// C07-C11: argument values against independent references.
#include "val.h"
#include <cmath>

void global_init() {}

// One entry, several command lines, each delivering some texts to it in some spelling.
struct Form { bool tagged; bool lng; bool att; };
static Form form(Src& s, const str& v, bool tagged) {
    Form f{tagged, s.one(2), s.one(2)};
    if (v.empty()) f.lng = f.att = false;   // an empty value of a long option is also reported as missing
    return f;
}
static void put(std::vector<char*>& av, const Form& f, const str& v) {
    if (!f.tagged) { av.push_back(hold(v)); return; }
    if (f.lng) {
        if (f.att) av.push_back(hold("--value=" + v));
        else { av.push_back(hold("--value")); av.push_back(hold(v)); }
    } else {
        if (f.att) av.push_back(hold("-v" + v));
        else { av.push_back(hold("-v")); av.push_back(hold(v)); }
    }
}
// a command line for the texts vs; positional texts go behind "--"
static char** line(Src& s, const std::vector<str>& vs, bool tagged, int& argc) {
    std::vector<char*> av;
    av.push_back(hold("prog"));
    bool dd = false;
    for (auto& v : vs) if (!v.empty() && v[0] == '-') dd = true;
    if (!tagged && (dd || s.one(4))) av.push_back(hold("--"));
    for (auto& v : vs) put(av, form(s, v, tagged), v);
    argc = (int)av.size();
    char** r = (char**)holdmem((av.size() + 1) * sizeof(char*));
    for (size_t i = 0; i < av.size(); i++) r[i] = av[i];
    r[argc] = nullptr;
    if (g_describe) { say("argv:"); for (auto& a : av) say(" %s", q(a).c_str()); say("\n"); }
    return r;
}
struct TabGuard { void** t; size_t n; ~TabGuard() { arg_freetable(t, n); } };

// ---------------------------------------------------------------- C07
static void c07(Src& s) {
    int mx = s.one(3) ? 1 : s.range(2, 6);
    bool tagged = s.one(2);
    arg_int* e = mx == 1 && s.one(2) ? (s.one(2) ? arg_int0(tagged ? "v" : nullptr, tagged ? "value" : nullptr, nullptr, "") : arg_int1(tagged ? "v" : nullptr, tagged ? "value" : nullptr, nullptr, ""))
                                     : arg_intn(tagged ? "v" : nullptr, tagged ? "value" : nullptr, nullptr, 1, mx, "");
    struct arg_end* end = arg_end(40);
    void* at[] = {e, end};
    TabGuard tg{at, 2};
    for (int r = 0; r < 8; r++) {
        std::vector<str> vs;
        int n = tagged ? s.range(1, mx) : s.one(2) ? mx : 1;   // only the last positional text may be rejected
        for (int i = 0; i < n; i++) vs.push_back(gen_int(s, tagged || i == n - 1 ? s.one(2) : true));
        std::vector<int> want;
        std::vector<int> codes;
        for (size_t i = 0; i < vs.size(); i++) {
            int v;
            IntRes x = ref_int(vs[i].c_str(), v);
            if (x == INT_OK) want.push_back(v);
            else codes.push_back(x == INT_BAD ? K_BADINT : K_OVERFLOW);
            if (x != INT_OK && !tagged) vs.resize(i + 1);
            hit(x == INT_OK ? "integers accepted" : x == INT_BAD ? "malformed integers" : "integer overflows");
            Hash h; h.t(vs[i]); sig(h.h);
        }
        for (int i = 0; i < mx; i++) e->ival[i] = 777000 + i;
        int argc;
        char** argv = line(s, vs, tagged, argc);
        int ret = arg_parse(argc, argv, at);
        str d = "[";
        for (auto& v : vs) d += q(v) + " ";
        d += "]";
        CHECK(e->count == (int)want.size(), "integers %s: %d accepted, expected %zu", d.c_str(), e->count, want.size());
        for (int i = 0; i < mx; i++) {
            int w = i < (int)want.size() ? want[(size_t)i] : 777000 + i;
            CHECK(e->ival[i] == w, "integers %s: value %d is %d, expected %d", d.c_str(), i, e->ival[i], w);
        }
        CHECK((ret == 0) == codes.empty(), "integers %s: %d errors reported, expected %zu", d.c_str(), ret, codes.size());
        if (tagged) {
            CHECK(ret == (int)codes.size(), "integers %s: %d errors reported, expected %zu", d.c_str(), ret, codes.size());
            for (int i = 0; i < ret; i++) CHECK(end->error[i] == codes[(size_t)i] && end->parent[i] == e, "integers %s: error %d has code %d, expected %d", d.c_str(), i, end->error[i], codes[(size_t)i]);
        } else if (ret) CHECK(end->error[0] == codes[0] && end->parent[0] == e, "integers %s: error code %d, expected %d", d.c_str(), end->error[0], codes[0]);
    }
}
// ---------------------------------------------------------------- C08
static void c08(Src& s) {
    int mx = s.one(3) ? 1 : s.range(2, 6);
    bool tagged = s.one(2);
    arg_dbl* e = mx == 1 && s.one(2) ? (s.one(2) ? arg_dbl0(tagged ? "v" : nullptr, tagged ? "value" : nullptr, nullptr, "") : arg_dbl1(tagged ? "v" : nullptr, tagged ? "value" : nullptr, nullptr, ""))
                                     : arg_dbln(tagged ? "v" : nullptr, tagged ? "value" : nullptr, nullptr, 1, mx, "");
    struct arg_end* end = arg_end(40);
    void* at[] = {e, end};
    TabGuard tg{at, 2};
    for (int r = 0; r < 8; r++) {
        std::vector<str> vs;
        int n = tagged ? s.range(1, mx) : s.one(2) ? mx : 1;
        for (int i = 0; i < n; i++) vs.push_back(gen_dbl(s, tagged || i == n - 1 ? s.one(2) : true));
        std::vector<double> want;
        size_t bad = 0;
        for (size_t i = 0; i < vs.size(); i++) {
            double v;
            bool ok = ref_dbl(vs[i].c_str(), v);
            if (ok) want.push_back(v); else bad++;
            if (!ok && !tagged) vs.resize(i + 1);
            hit(ok ? (std::isfinite(v) ? "finite numbers accepted" : "infinities and NaNs accepted") : "texts rejected");
            Hash h; h.t(vs[i]); sig(h.h);
        }
        for (int i = 0; i < mx; i++) e->dval[i] = 1234.5 + i;
        int argc;
        char** argv = line(s, vs, tagged, argc);
        int ret = arg_parse(argc, argv, at);
        str d = "[";
        for (auto& v : vs) d += q(v) + " ";
        d += "]";
        CHECK(e->count == (int)want.size(), "numbers %s: %d accepted, expected %zu", d.c_str(), e->count, want.size());
        for (int i = 0; i < mx; i++) {
            double w = i < (int)want.size() ? want[(size_t)i] : 1234.5 + i;
            double g = e->dval[i];
            CHECK(!memcmp(&g, &w, sizeof g), "numbers %s: value %d is %.17g (%a), expected %.17g (%a)", d.c_str(), i, g, g, w, w);
        }
        CHECK((ret == 0) == (bad == 0), "numbers %s: %d errors reported, expected %zu", d.c_str(), ret, bad);
        if (tagged) CHECK(ret == (int)bad, "numbers %s: %d errors reported, expected %zu", d.c_str(), ret, bad);
        for (int i = 0; i < ret && tagged; i++) CHECK(end->error[i] == K_BADDOUBLE && end->parent[i] == e, "numbers %s: error %d has code %d", d.c_str(), i, end->error[i]);
    }
}
// ---------------------------------------------------------------- C09
static void c09(Src& s) {
    int mx = s.range(1, 5);
    bool tagged = s.one(2), file = s.pct(70);
    const char *sh = tagged ? "v" : nullptr, *lo = tagged ? "value" : nullptr;
    arg_str* es = file ? nullptr : mx == 1 && s.one(2) ? (s.one(2) ? arg_str0(sh, lo, nullptr, "") : arg_str1(sh, lo, nullptr, "")) : arg_strn(sh, lo, nullptr, 0, mx, "");
    arg_file* ef = !file ? nullptr : mx == 1 && s.one(2) ? (s.one(2) ? arg_file0(sh, lo, nullptr, "") : arg_file1(sh, lo, nullptr, "")) : arg_filen(sh, lo, nullptr, 0, mx, "");
    struct arg_end* end = arg_end(40);
    void* at[] = {file ? (void*)ef : (void*)es, end};
    TabGuard tg{at, 2};
    for (int r = 0; r < 6; r++) {
        std::vector<str> vs;
        int n = s.range(1, mx);
        for (int i = 0; i < n; i++) {
            str v = file ? gen_file(s) : s.text(s.one(20) ? 100000 : 300);
            if (s.one(25)) v = str((size_t)s.magic() % 70000, 'x') + v;
            vs.push_back(v);
        }
        int argc;
        char** argv = line(s, vs, tagged, argc);
        int ret = arg_parse(argc, argv, at);
        str d = "[";
        for (auto& v : vs) d += q(v) + " ";
        d += "]";
        CHECK(ret == 0, "%s %s: %d errors", file ? "files" : "strings", d.c_str(), ret);
        int cnt = file ? ef->count : es->count;
        CHECK(cnt == n, "%s %s: %d stored, expected %d", file ? "files" : "strings", d.c_str(), cnt, n);
        for (int i = 0; i < n; i++) {
            const str& v = vs[(size_t)i];
            Hash h; h.u(file); h.t(v); sig(h.h);
            if (!file) {
                CHECK(es->sval[i] && v == es->sval[i], "string %s was stored as %s", q(v).c_str(), q(es->sval[i]).c_str());
                hit("strings checked");
                continue;
            }
            CHECK(ef->filename[i] && v == ef->filename[i], "file name %s was stored as %s", q(v).c_str(), q(ef->filename[i]).c_str());
            size_t b, x;
            ref_file(v.c_str(), b, x);
            const char *p = ef->filename[i], *z = p + v.size();
            CHECK(ef->basename[i] >= p && ef->basename[i] <= z, "base name of %s does not point into the text", q(v).c_str());
            CHECK(ef->extension[i] >= p && ef->extension[i] <= z, "extension of %s does not point into the text", q(v).c_str());
            CHECK(!strcmp(ef->basename[i], v.c_str() + b), "base name of %s is %s, expected %s", q(v).c_str(), q(ef->basename[i]).c_str(), q(v.c_str() + b).c_str());
            CHECK(!strcmp(ef->extension[i], v.c_str() + x), "extension of %s is %s, expected %s", q(v).c_str(), q(ef->extension[i]).c_str(), q(v.c_str() + x).c_str());
            hit("file names checked");
            if (v[b]) hit("non-empty base names");
            if (v[x]) hit("non-empty extensions");
            if (b) hit("file names with a directory part");
        }
    }
}
// ---------------------------------------------------------------- C10
static const char* const BAD_RX[] = {"(", "(a", "a(b", "((a)", "(a|b", "[", "[a", "a[b-", "[]", "[^]", "x[^]", "a{", "a{x}", "a{1,2", "a{1", "a{,2}", "a{1,x}", "\\", "ab\\", "[a\\", "(a\\", "[b-a]", "[z-a]x", "", "a**", "(?a)", "a|", "(a|)", "()", "a{99999}", "a{70000,}", "a{1,70000}", "a{65536}", "a{65536,}", "a{1,65536}", "a{0,99999999999999999999}", "a{131073}", "[\\w-z]", "[9-0]", "a{4294967297}", "(((((", "[abc", "(?:a", "(?:"};
static void c10(Src& s) {
    if (s.one(8)) {
        // malformed patterns
        str p = BAD_RX[s.below(sizeof BAD_RX / sizeof *BAD_RX)];
        bool plain = p.size() && p.find('|') == str::npos;
        if (s.one(2) && plain) { str f; int n = s.range(1, 6); for (int i = 0; i < n; i++) f += s.pickc("abcxyz019 _"); p = f + p; }
        int fl = s.one(2) ? ARG_REX_ICASE : 0;
        bool tagged = s.one(2);
        const char* pat = hold(p);
        say("malformed pattern %s\n", q(p).c_str());
        arg_rex* e = nullptr;
        str diag = from_fd2([&] { e = arg_rexn(tagged ? "v" : nullptr, tagged ? "value" : nullptr, pat, "X", 0, 3, fl, ""); });
        CHECK(e, "no entry for malformed pattern %s", q(p).c_str());
        struct arg_end* end = arg_end(20);
        void* at[] = {e, end};
        TabGuard tg{at, 2};
        CHECK(!diag.empty(), "malformed pattern %s was not diagnosed", q(p).c_str());
        hit("malformed patterns diagnosed");
        for (int r = 0; r < 4; r++) {
            str v = r == 0 ? p : r == 1 ? "" : r == 2 ? "a" : s.text(10);
            int argc;
            char** argv = line(s, {v}, tagged, argc);
            int ret = 0;
            from_fd2([&] { ret = arg_parse(argc, argv, at); });
            CHECK(ret > 0 && e->count == 0, "malformed pattern %s accepted %s", q(p).c_str(), q(v).c_str());
            hit("texts refused by malformed patterns");
        }
        Hash h; h.t(p); h.u((uint64_t)fl); sig(h.h);
        return;
    }
    if (s.one(250)) {
        // one thing repeated a great number of times
        struct { const char *pat, *unit, *other; } U[] = {{"a", "a", "b"}, {"[ab]", "b", "c"}, {".", "x", ""}, {"\\d", "7", "x"}, {"(?:ab)", "ab", "a"}, {"(a)", "a", "b"}};
        auto& u = U[s.below(6)];
        auto big = [&] { return s.one(2) ? (int)s.pick<int>({511, 512, 1000, 1023, 1024, 4095, 4096, 8192, 9999, 10000, 16384, 32767, 32768, 65534}) : s.range(300, s.one(2) ? 5000 : 65534); };
        int lo = big(), hi = s.one(3) ? lo : s.one(2) ? -1 : big();
        if (s.one(4)) { hi = lo; lo = s.range(1, 5); }
        if (hi >= 0 && hi < lo) std::swap(lo, hi);
        str p = str(s.one(2) ? "x" : "") + u.pat + "{" + std::to_string(lo) + (hi == lo && s.one(2) ? "" : "," + (hi < 0 ? str() : std::to_string(hi))) + "}";
        bool pre = p[0] == 'x' && s.one(1);
        if (u.pat[0] == '.' && pre) p = p.substr(1), pre = false;
        const char* pat = hold(p);
        say("pattern %s\n", q(p).c_str());
        arg_rex* e = arg_rexn("v", "value", pat, nullptr, 0, 1, 0, "");
        struct arg_end* end = arg_end(20);
        void* at[] = {e, end};
        TabGuard tg{at, 2};
        for (int r = 0; r < 6; r++) {
            int top = hi < 0 ? lo : hi, n;
            switch (s.below(7)) {
                case 0: n = lo - 1; break;
                case 1: n = lo; break;
                case 2: n = top; break;
                case 3: n = top + 1; break;
                case 4: n = (int)s.below((unsigned)lo); break;
                case 5: n = s.range(lo, top); break;
                default: n = lo & ((1 << s.range(3, 15)) - 1); break;
            }
            str v = pre ? "x" : "";
            for (int i = 0; i < n; i++) v += u.unit;
            bool want = n >= lo && (hi < 0 || n <= hi);
            if (s.one(8)) { v += u.other; want = want && !*u.other; }
            int argc;
            char** argv = line(s, {v}, true, argc);
            int ret = arg_parse(argc, argv, at);
            CHECK((ret == 0) == want, "pattern %s %s %d times its item%s", q(p).c_str(), want ? "rejected" : "accepted", n, want ? "" : ", which is not in its language");
            CHECK(!want || v == e->sval[0], "pattern %s stored another text", q(p).c_str());
            hit(want ? "very long repetitions accepted" : "very long repetitions refused");
            Hash h; h.t(p); h.t(v); sig(h.h);
        }
        return;
    }
    bool det = s.pct(60);
    bool la = s.one(7);
    RxTop x = la ? gen_rxla(s) : gen_rx(s, det, det ? 14 : 8, true);
    const Rx& rx = *x;
    bool tagged = s.one(2);
    const char* pat = hold(rx.pattern);
    say("pattern %s%s%s\n", q(rx.pattern).c_str(), rx.flags ? " (ignoring case)" : "", rx.det ? ", deterministic" : "");
    arg_rex* e = nullptr;
    str diag = from_fd2([&] { e = arg_rexn(tagged ? "v" : nullptr, tagged ? "value" : nullptr, pat, nullptr, 0, 1, rx.flags, ""); });
    CHECK(e, "no entry for pattern %s", q(rx.pattern).c_str());
    struct arg_end* end = arg_end(20);
    void* at[] = {e, end};
    TabGuard tg{at, 2};
    CHECK(diag.empty(), "well-formed pattern %s was diagnosed as malformed: %s", q(rx.pattern).c_str(), q(diag).c_str());
    hit(la ? "patterns with repetitions up to a stop" : rx.det ? "deterministic patterns" : "other patterns");
    for (int r = 0; r < 10; r++) {
        bool groups = rx.pattern.find('(') != str::npos;
        int maxrep = rx.quants <= 1 ? (groups ? 60 : s.one(100) ? 70000 : 300) : rx.quants == 2 ? 40 : 8;
        if (!rx.det && maxrep > 60) maxrep = 60;
        str v;
        bool must = rx.det;
        if (la && s.pct(70) && gen_latext(s, rx, v)) must = true;
        else v = gen_rxtext(s, rx, s.one(2), la ? 20 : maxrep);
        if (!must) {
            // bound the cost of backtracking
            double c = 1;
            for (int i = 0; i < rx.quants + 1; i++) c *= (double)v.size() + 2;
            if (c > 3e5) { size_t k = (size_t)std::pow(3e5, 1.0 / (rx.quants + 1)); if (k < 1) k = 1; v.resize(std::min(v.size(), k)); }
        } else if (!la && v.size() > 1500 && (rx.quants > 1 || groups)) v.resize(1500);
        bool want = ref_rx(rx, v);
        int argc;
        const char* dflt = hold("default");
        e->sval[0] = dflt;
        char** argv = line(s, {v}, tagged, argc);
        int ret = arg_parse(argc, argv, at);
        bool got = ret == 0;
        CHECK(e->count == (got ? 1 : 0), "pattern %s, text %s: count %d with %d errors", q(rx.pattern).c_str(), q(v).c_str(), e->count, ret);
        if (got) {
            CHECK(want, "pattern %s%s accepted %s, which is not in its language", q(rx.pattern).c_str(), rx.flags ? " (ignoring case)" : "", q(v).c_str());
            CHECK(v == e->sval[0], "pattern %s stored %s instead of %s", q(rx.pattern).c_str(), q(e->sval[0]).c_str(), q(v).c_str());
            hit(rx.wb ? "matching texts with word boundaries accepted" : "matching texts accepted");
        } else {
            CHECK(end->error[0] == K_REGNOMATCH && end->parent[0] == e, "pattern %s, text %s: error code %d", q(rx.pattern).c_str(), q(v).c_str(), end->error[0]);
            CHECK(e->sval[0] == dflt, "pattern %s rejected %s but changed the stored value", q(rx.pattern).c_str(), q(v).c_str());
            if (want && must && !(rx.wb && v.empty())) fail("pattern %s%s needs no backtracking and matches %s, but the text was rejected", q(rx.pattern).c_str(), rx.flags ? " (ignoring case)" : "", q(v).c_str());

            hit(want ? "rejected members of patterns that need backtracking (allowed)" : "texts outside the language rejected");
        }
        Hash h; h.t(rx.pattern); h.u((uint64_t)rx.flags); h.t(v); sig(h.h);
    }
}
// ---------------------------------------------------------------- C11
static void c11(Src& s) {
    str f = gen_datefmt(s);
    bool dflt = s.one(12);
    if (dflt) f = "%x";
    int mx = s.range(1, 4);
    bool tagged = s.one(2);
    const char *sh = tagged ? "v" : nullptr, *lo = tagged ? "value" : nullptr, *fm = dflt ? nullptr : hold(f);
    say("format %s\n", q(f).c_str());
    arg_date* e = mx == 1 && s.one(2) ? (s.one(2) ? arg_date0(sh, lo, fm, nullptr, "") : arg_date1(sh, lo, fm, nullptr, "")) : arg_daten(sh, lo, fm, nullptr, 1, mx, "");
    struct arg_end* end = arg_end(40);
    void* at[] = {e, end};
    TabGuard tg{at, 2};
    for (int r = 0; r < 8; r++) {
        std::vector<struct tm> want((size_t)mx);
        for (int i = 0; i < mx; i++) {
            struct tm m;
            memset(&m, 0, sizeof m);
            if (s.one(2)) { m.tm_sec = s.range(0, 61); m.tm_min = s.range(0, 59); m.tm_hour = s.range(0, 23); m.tm_mday = s.range(1, 31); m.tm_mon = s.range(0, 11); m.tm_year = s.range(-300, 300); m.tm_wday = s.range(0, 6); m.tm_yday = s.range(0, 365); m.tm_isdst = s.range(-1, 1); }
            want[(size_t)i] = m;
            e->tmval[i] = m;
        }
        std::vector<str> vs;
        int n = tagged ? s.range(1, mx) : s.one(2) ? mx : 1;
        size_t cnt = 0, bad = 0;
        for (int i = 0; i < n; i++) {
            str v = gen_date(s, f.c_str(), s.pct(60));
            struct tm m = want[cnt < (size_t)mx ? cnt : 0];
            bool ok = cnt < (size_t)mx && ref_date(v.c_str(), f.c_str(), m);
            if (!ok && !tagged && i < n - 1) continue;
            vs.push_back(v);
            if (ok) want[cnt++] = m; else bad++;
            hit(ok ? "dates accepted" : "dates rejected");
            Hash h; h.t(f); h.t(v); sig(h.h);
            if (!ok && !tagged) break;
        }
        int argc;
        char** argv = line(s, vs, tagged, argc);
        int ret = arg_parse(argc, argv, at);
        str d = "format " + q(f) + " dates [";
        for (auto& v : vs) d += q(v) + " ";
        d += "]";
        CHECK(e->count == (int)cnt, "%s: %d accepted, expected %zu", d.c_str(), e->count, cnt);
        for (int i = 0; i < mx; i++) CHECK(tm_eq(e->tmval[i], want[(size_t)i]), "%s: value %d is %s, expected %s", d.c_str(), i, tm_str(e->tmval[i]).c_str(), tm_str(want[(size_t)i]).c_str());
        if (!vs.empty()) CHECK((ret == 0) == (bad == 0 && cnt >= 1), "%s: %d errors, expected %zu", d.c_str(), ret, bad);
        if (tagged) {
            CHECK(ret == (int)bad, "%s: %d errors, expected %zu", d.c_str(), ret, bad);
            for (int i = 0; i < ret; i++) CHECK(end->error[i] == K_BADDATE && end->parent[i] == e, "%s: error %d has code %d", d.c_str(), i, end->error[i]);
        }
    }
}
const Prop g_props[] = {{"C07", c07}, {"C08", c08}, {"C09", c09}, {"C10", c10}, {"C11", c11}, {nullptr, nullptr}};
