// C02-C06, C12-C14, C24: parsing against the reference semantics.
#include "model.h"
#include <set>

void global_init() { unsetenv("POSIXLY_CORRECT"); }

static void events(const Pred& p) {
    hit("parses");
    hit("options seen", (uint64_t)p.nopt);
    hit("positional arguments seen", (uint64_t)p.npos);
    hit("occurrences beyond a maximum", (uint64_t)p.nexcess);
    hit("options after a positional argument", (uint64_t)p.nperm);
    hit("errors recorded", p.errs.size());
    if (p.all.size() > p.errs.size()) hit("parses that overflowed the error record");
    if (p.errs.empty()) hit("error-free parses");
    for (auto& e : p.trace) if (e.ev == 'S') hit("scan callbacks predicted");
}
static uint64_t shape(const Tab& t, const Pred& p) {
    Hash h;
    for (auto& e : t.sp) { h.u((uint64_t)e.k); h.u((uint64_t)(e.sh ? strlen(e.sh) : 0)); h.u(e.names.size()); h.u((uint64_t)e.mn * 1000 + (uint64_t)e.emx()); h.u(e.opt); }
    for (auto& e : p.trace) { h.u((uint64_t)e.ev); h.u((uint64_t)e.entry); h.u((uint64_t)e.ret); h.u(e.val ? strlen(e.val) : 9999999); }
    for (auto& e : p.errs) { h.u((uint64_t)e.entry); h.u((uint64_t)e.code); }
    return h.h;
}
static void prefill(Src& s, Tab& t) {
    for (size_t i = 0; i < t.sp.size(); i++) {
        const Spec& e = t.sp[i];
        for (int j = 0; j < e.emx() && j < 40; j++) {
            if (!s.one(3)) continue;
            Slot v = e.k == LIT || e.k == REM || e.k == CUS ? Slot() : t.slot(i, j);
            switch (e.k) {
                case INTK: v.i = (int)s.raw(); break;
                case DBL: { double d = (double)s.range(-1000, 1000) / 8; memcpy(&v.d, &d, 8); break; }
                case STR: case REX: v.a = hold(s.text(12)); break;
                case FIL: v.a = hold(s.text(12)); v.b = hold("b"); v.c = hold("c"); break;
                case DATE: v.t.tm_hour = s.range(0, 23); v.t.tm_mday = s.range(1, 31); v.t.tm_year = s.range(-100, 200); v.t.tm_isdst = s.range(-1, 1); v.t.tm_mon = s.range(0, 11); v.t.tm_wday = s.range(0, 6); v.t.tm_yday = s.range(0, 365); v.t.tm_sec = s.range(0, 59); v.t.tm_min = s.range(0, 59); break;
                default: continue;
            }
            t.setslot(i, j, v);
        }
    }
}
struct Cfg { GenOpt g; LineOpt l; int mask; const char* trace; int rounds; };
static void run(Src& s, const Cfg& c) {
    Tab t;
    gen_table(s, t, c.g);
    describe(t);
    t.build(&s);
    std::vector<Ev> log;
    if (c.trace) t.trace(&log);
    if (c.mask & A_SLOTS) prefill(s, t);
    int rounds = 1 + (s.one(3) ? (int)s.below((unsigned)c.rounds) : 0);
    for (int r = 0; r < rounds; r++) {
        Argv a;
        a.set(gen_line(s, t, c.l));
        describe(a.argc, a.ptr);
        Pred p = predict(t, a.argc, a.ptr, r == 0);
        Pre pre = snapshot(t);
        log.clear();
        int ret = arg_parse(a.argc, a.ptr, t.arr.data());
        compare(t, p, pre, ret, c.mask);
        if (c.trace) compare_trace(t, log, p, c.trace);
        events(p);
        if (p.nopt + p.npos > 0) sig(shape(t, p));
        say("-> %d errors, as expected\n", ret);
    }
    t.trace(nullptr);
}

// ---------------------------------------------------------------- C02
static void c02(Src& s) {
    Cfg c;
    c.g.taggedPct = 90; c.g.remPct = 2; c.g.customPct = 10;
    c.l.noisePct = 18; c.l.posPct = 15;
    c.mask = A_COUNT | A_VAL | A_ERRN;
    c.trace = "S"; c.rounds = 2;
    run(s, c);
}
// ---------------------------------------------------------------- C03
static void c03(Src& s) {
    Cfg c;
    c.g.maxEntries = s.one(2) ? 2 : 8;
    c.l.maxItems = s.one(2) ? 30 : 14;
    c.l.noisePct = s.one(2) ? 0 : 8;
    c.l.validPct = s.one(2) ? 100 : 85;
    c.g.taggedPct = 70;
    c.mask = A_COUNT | A_VAL | A_ERRN;
    c.trace = nullptr; c.rounds = 3;
    Tab t;
    gen_table(s, t, c.g);
    describe(t);
    t.build(&s);
    prefill(s, t);
    int rounds = 1 + (s.one(3) ? 2 : 0);
    for (int r = 0; r < rounds; r++) {
        Argv a;
        // repeat one entry around its limits
        std::vector<str> line = gen_line(s, t, c.l);
        if (t.sp.size() && line.size() && s.one(2)) {
            size_t i = s.below((unsigned)t.sp.size());
            const Spec& e = t.sp[i];
            int want = e.emx() + s.range(-1, 2);
            if (s.one(2)) line.resize(1);
            for (int k = 0; k < want && k < 400; k++) {
                str v = gen_value(s, e, 97);
                if (e.sh) { line.push_back(str("-") + e.sh[0] + (e.hasval() && !e.opt ? "" : (e.opt && s.one(2) ? v : ""))); if (e.hasval() && !e.opt) line.push_back(v); }
                else if (e.names.size()) line.push_back("--" + e.names[0] + (e.hasval() && !(e.opt && s.one(2)) ? "=" + v : ""));
                else if (e.k != REM) line.push_back(v);
            }
        }
        a.set(line);
        describe(a.argc, a.ptr);
        Pred p = predict(t, a.argc, a.ptr, r == 0);
        Pre pre = snapshot(t);
        int ret = arg_parse(a.argc, a.ptr, t.arr.data());
        compare(t, p, pre, ret, A_COUNT | A_VAL | A_ERRN);
        for (size_t i = 0; i < t.sp.size(); i++) {
            if (t.sp[i].k == REM || t.sp[i].k == CUS) continue;
            CHECK(t.count(i) <= t.hdr(i)->maxcount && t.count(i) >= 0, "entry %zu holds %d values, its maximum is %d", i, t.count(i), t.hdr(i)->maxcount);
            if (ret == 0) CHECK(t.count(i) >= t.sp[i].mn, "error-free parse, but entry %zu (%s) occurred %d times", i, describe_spec(t.sp[i]).c_str(), t.count(i));
        }
        // once per entry, whenever nothing else was wrong
        if (p.all.size() && p.all[0].code == K_MINCOUNT && p.all[0].entry >= 0 && !p.all[0].arg) {
            hit("parses with only missing entries");
            if ((int)p.all.size() <= t.cap) {
                CHECK(ret == (int)p.all.size(), "%zu entries are missing, %d errors reported", p.all.size(), ret);
                for (int k = 0; k < ret; k++)
                    CHECK(t.end->parent[k] == t.arr[(size_t)p.all[(size_t)k].entry] && t.end->error[k] == p.all[(size_t)k].code, "missing entry %d is not reported as such", p.all[(size_t)k].entry);
            }
        }
        // occurrences beyond the maximum are reported as such
        if (p.nexcess && (int)p.all.size() <= t.cap) {
            int want = 0, got = 0;
            for (auto& e : p.all) if (e.entry >= 0 && t.sp[(size_t)e.entry].k != CUS && e.code == K_MAXCOUNT && e.arg != nullptr) want++;
            for (int k = 0; k < ret; k++)
                for (size_t i = 0; i < t.sp.size(); i++)
                    if (t.end->parent[k] == t.arr[i] && t.sp[i].k != CUS && t.end->error[k] == K_MAXCOUNT && t.end->argval[k]) got++;
            CHECK(want == got, "%d occurrences with a value are beyond a maximum, %d are reported", want, got);
        }
        events(p);
        if (p.nopt + p.npos > 0) sig(shape(t, p));
    }
}
// ---------------------------------------------------------------- C04
static void c04(Src& s) {
    Cfg c;
    c.g.customPct = 8;
    c.l.noisePct = s.one(2) ? 40 : 10;
    c.l.validPct = s.one(2) ? 30 : 80;
    c.l.maxItems = 25;
    c.mask = A_ERR;
    c.trace = nullptr; c.rounds = 3;
    run(s, c);
}
// ---------------------------------------------------------------- C05
static void c05(Src& s) {
    GenOpt g; g.taggedPct = 60;
    LineOpt l; l.noisePct = 15; l.maxItems = 25; l.posPct = 50;
    Tab* t = new Tab;
    gen_table(s, *t, g);
    describe(*t);
    t->build(&s);
    int rounds = 1 + (int)s.below(3);
    struct Kept { std::vector<const char*> p; std::vector<str> v; };
    Kept kept;
    for (int r = 0; r < rounds; r++) {
        std::vector<str> line = gen_line(s, *t, l);
        Argv a;
        a.set(line);
        describe(a.argc, a.ptr);
        Pred p = predict(*t, a.argc, a.ptr, r == 0);
        Pre pre = snapshot(*t);
        int ret = arg_parse(a.argc, a.ptr, t->arr.data());
        for (int i = 0; i <= a.argc; i++) CHECK(a.ptr[i] == a.v[(size_t)i], "argv[%d] was replaced by the parse (options and positional arguments reordered?)", i);
        for (int i = 0; i < a.argc; i++) CHECK(line[(size_t)i] == a.ptr[i], "the text of argv[%d] was modified: %s became %s", i, q(line[(size_t)i]).c_str(), q(a.ptr[i]).c_str());
        auto inside = [&](const char* x) { for (int i = 0; i < a.argc; i++) if (x >= a.ptr[i] && x <= a.ptr[i] + line[(size_t)i].size()) return true; return false; };
        for (size_t i = 0; i < t->sp.size(); i++) {
            Kind k = t->sp[i].k;
            if (k != STR && k != REX && k != FIL) continue;
            for (int j = 0; j < t->count(i) && j < (int)p.val[i].size(); j++) {
                Slot v = t->slot(i, j);
                if (j < p.count[i] && p.known[i][(size_t)j] && inside(p.val[i][(size_t)j].a)) {
                    CHECK(inside(v.a), "entry %zu value %d (%s) is not inside the caller's strings", i, j, q(v.a).c_str());
                    if (k == FIL) CHECK(inside(v.b) && inside(v.c), "entry %zu base name or extension %d is not inside the caller's strings", i, j);
                    if (!strcmp(v.a, p.val[i][(size_t)j].a)) CHECK(slot_eq(k, v, p.val[i][(size_t)j], true), "entry %zu value %d points at a different argument with the same text", i, j);
                    kept.p.push_back(v.a); kept.v.push_back(v.a);
                    if (k == FIL) { kept.p.push_back(v.b); kept.v.push_back(v.b); kept.p.push_back(v.c); kept.v.push_back(v.c); }
                    hit("string values checked");
                }
            }
        }
        for (int i = 0; i < ret && i < t->cap; i++) if (t->end->argval[i]) {
            CHECK(inside(t->end->argval[i]), "the argument text of error %d is not inside the caller's strings", i);
            if (i < (int)p.errs.size() && p.errs[(size_t)i].arg && !strcmp(p.errs[(size_t)i].arg, t->end->argval[i]))
                CHECK(p.errs[(size_t)i].arg == t->end->argval[i], "the argument text of error %d points at a different argument with the same text", i);
            kept.p.push_back(t->end->argval[i]); kept.v.push_back(t->end->argval[i]);
            hit("error texts checked");
        }
        events(p);
        if (p.nopt + p.npos > 0) sig(shape(*t, p));
        (void)pre;
    }
    delete t;
    {   // another table in between
        Tab u;
        gen_table(s, u, g);
        u.build(&s);
        Argv a;
        a.set(gen_line(s, u, l));
        arg_parse(a.argc, a.ptr, u.arr.data());
    }
    for (size_t i = 0; i < kept.p.size(); i++) CHECK(kept.v[i] == kept.p[i], "a stored string changed after the table was released: %s became %s", q(kept.v[i]).c_str(), q(kept.p[i]).c_str());
}
// ---------------------------------------------------------------- C06
static void c06(Src& s) {
    GenOpt g; g.maxEntries = 6;
    LineOpt l; l.noisePct = s.one(2) ? 30 : 5; l.maxItems = 8;
    std::vector<GenOpt::Twin> twins;
    if (s.one(3)) g.twins = &twins;
    int nt = s.range(1, 3), nl = s.range(2, 5);
    std::vector<std::unique_ptr<Tab>> tabs;
    std::vector<bool> first;
    struct Line { Argv a; std::vector<str> txt; uint64_t dig = 0; bool seen = false; };
    std::vector<std::vector<std::unique_ptr<Line>>> lines;
    // tables and vectors of a program often live at the same address, one after the other
    bool place = s.one(2);
    std::vector<void*> spot;
    std::vector<char*> vspot;
    for (int i = 0; i < nt; i++) {
        tabs.emplace_back(new Tab);
        gen_table(s, *tabs.back(), g);
        describe(*tabs.back());
        tabs.back()->build(&s);
        first.push_back(true);
        lines.emplace_back();
        spot.resize(std::max(spot.size(), tabs.back()->arr.size()));
        for (int j = 0; j < nl; j++) { lines.back().emplace_back(new Line); auto& L = *lines.back().back(); L.txt = gen_line(s, *tabs.back(), l); L.a.set(L.txt); vspot.resize(std::max(vspot.size(), L.txt.size() + 1)); say("table %d line %d: ", i, j); describe(L.a.argc, L.a.ptr); }
    }
    auto parse = [&](Tab& t, Line& L) {
        if (!place) return arg_parse(L.a.argc, L.a.ptr, t.arr.data());
        std::copy(t.arr.begin(), t.arr.end(), spot.begin());
        std::copy(L.a.ptr, L.a.ptr + L.a.argc + 1, vspot.begin());
        int r = arg_parse(L.a.argc, vspot.data(), spot.data());
        hit("parses of tables and vectors at a reused address");
        return r;
    };
    int steps = s.range(4, 25);
    Hash hs;
    for (int k = 0; k < steps; k++) {
        size_t i = s.below((unsigned)nt), j = s.below((unsigned)nl);
        Tab& t = *tabs[i];
        Line& L = *lines[i][j];
        if (s.one(12) && t.sp.size()) {                       // the program changes the names or limits of an entry between two parses
            size_t e = s.below((unsigned)t.sp.size());
            Spec& x = t.sp[e];
            if (x.tagged() && x.k != REM) {
                switch (s.below(3)) {
                    case 0: if (x.sh) { x.sh = hold(str(1, s.pickc("abcdefghijklmnopqrstuvwxyz"))); t.hdr(e)->shortopts = x.sh; } break;
                    case 1: if (x.lo) { str n = s.word(7); x.names.assign(1, n); x.lo = hold(n); t.hdr(e)->longopts = x.lo; } break;
                    default: if (x.hasval()) { x.opt = !x.opt; t.hdr(e)->flag = (char)(t.hdr(e)->flag ^ ARG_HASOPTVALUE); } break;
                }
                for (auto& o : lines[i]) o->seen = false;
                say("entry %zu of table %zu becomes %s\n", e, i, describe_spec(x).c_str());
                hit("entries changed between parses");
            }
        }
        say("parse table %zu line %zu\n", i, j);
        Pred p = predict(t, L.a.argc, L.a.ptr, first[i]);
        Pre pre = snapshot(t);
        int ret = parse(t, L);
        first[i] = false;
        compare(t, p, pre, ret, A_COUNT | A_VAL | A_ERR);
        // the same line on a table built afresh (date fields the format does not name may legitimately differ)
        bool date = false, keep = false;
        for (auto& e : t.sp) { date |= e.k == DATE; keep |= e.k == CUS && e.noreset; }
        if (!date && !keep) {
            uint64_t d = result_digest(t, ret, false);
            if (L.seen) { CHECK(d == L.dig, "the same line gave a different result when parsed again"); hit("repeated parses compared"); }
            else { L.seen = true; L.dig = d; }
            if (s.one(4)) {
                Tab f;
                f.sp = t.sp; f.cap = t.cap;
                f.build(nullptr);
                int r2 = arg_parse(L.a.argc, L.a.ptr, f.arr.data());
                CHECK(result_digest(f, r2, false) == d, "a fresh table gives a different result than the reused one");
                hit("fresh tables compared");
            }
        }
        if (s.one(6)) { from_ds([&](arg_dstr_t ds) { arg_print_errors_ds(ds, t.end, "p"); arg_print_syntax_ds(ds, t.arr.data(), "\n"); }); }
        hs.u(i * 100 + j);
        hs.u(shape(t, p));
        events(p);
    }
    if (twins.size()) hit("patterns shared by entries with different flags", twins.size());
    sig(hs.h);
}
// ---------------------------------------------------------------- C12
static void c12(Src& s) {
    Cfg c;
    c.g.taggedPct = s.one(3) ? 0 : 35; c.g.customPct = 8; c.g.maxEntries = 7; c.g.remPct = 8;
    c.l.posPct = 80; c.l.noisePct = s.one(2) ? 4 : 15; c.l.maxItems = 16;
    c.l.validPct = s.pick<int>({100, 90, 60});
    c.mask = A_COUNT | A_VAL | A_ERRN;
    Tab t;
    gen_table(s, t, c.g);
    describe(t);
    t.build(&s);
    std::vector<Ev> log;
    t.trace(&log);
    int rounds = 1 + (s.one(3) ? 1 : 0);
    for (int r = 0; r < rounds; r++) {
        Argv a;
        a.set(gen_line(s, t, c.l));
        describe(a.argc, a.ptr);
        Pred p = predict(t, a.argc, a.ptr, r == 0);
        log.clear();
        int ret = arg_parse(a.argc, a.ptr, t.arr.data());
        // only the positional entries
        auto flt = [&](const std::vector<Ev>& v) { std::vector<Ev> o; for (auto& e : v) if (e.ev == 'S' && e.entry >= 0 && !t.sp[(size_t)e.entry].tagged()) o.push_back(e); return o; };
        Pred pp = p;
        pp.trace = flt(p.trace);
        compare_trace(t, flt(log), pp, "S");
        hit("positional offers checked", pp.trace.size());
        for (size_t i = 0; i < t.sp.size(); i++) {
            const Spec& e = t.sp[i];
            if (e.tagged() || e.k == REM || e.noscan) continue;
            CHECK(t.count(i) == p.count[i], "positional entry %zu (%s) took %d arguments, expected %d", i, describe_spec(e).c_str(), t.count(i), p.count[i]);
            for (int j = 0; j < p.count[i] && j < (int)p.val[i].size(); j++)
                if (p.known[i][(size_t)j]) { Slot g = t.slot(i, j); CHECK(slot_eq(e.k, g, p.val[i][(size_t)j], false), "positional entry %zu slot %d holds %s, expected %s", i, j, slot_str(e.k, g).c_str(), slot_str(e.k, p.val[i][(size_t)j]).c_str()); }
        }
        if ((int)p.all.size() <= t.cap) {
            // the complaints about positional arguments, in order
            auto posErr = [&](int entry, int code, const char* arg) { return arg && (entry < 0 ? code == ARG_ENOMATCH : !t.sp[(size_t)entry].tagged()); };
            std::vector<Err> want, got;
            for (auto& e : p.all) if (posErr(e.entry, e.code, e.arg)) want.push_back(e);
            for (int k = 0; k < ret; k++) {
                int en = -2;
                if (t.end->parent[k] == (void*)t.end) en = -1; else for (size_t i = 0; i < t.sp.size(); i++) if (t.arr[i] == t.end->parent[k]) en = (int)i;
                CHECK(en != -2, "error %d is attributed to no entry of the table", k);
                if (posErr(en, t.end->error[k], t.end->argval[k])) got.push_back({en, t.end->error[k], t.end->argval[k]});
            }
            CHECK(got.size() == want.size(), "%zu complaints about positional arguments, expected %zu", got.size(), want.size());
            for (size_t k = 0; k < got.size(); k++) CHECK(got[k].entry == want[k].entry && got[k].code == want[k].code && !strcmp(got[k].arg, want[k].arg), "complaint %zu is about %s (entry %d code %d), expected %s (entry %d code %d)", k, q(got[k].arg).c_str(), got[k].entry, got[k].code, q(want[k].arg).c_str(), want[k].entry, want[k].code);
            hit("positional complaints checked", want.size());
        } else CHECK(ret > 0, "no error reported");
        CHECK((ret == 0) == (p.ret == 0), "parse reported %d errors, expected %d", ret, p.ret);
        events(p);
        if (p.npos > 0) sig(shape(t, p));
    }
    t.trace(nullptr);
}
// ---------------------------------------------------------------- C13
static bool dashed(const str& x) { return x.size() > 1 && x[0] == '-'; }
struct Item { int entry; bool has; str val; };   // entry -1: positional
static std::vector<str> render(Src& s, const Tab& t, const std::vector<Item>& opts, const std::vector<str>& pos, const std::vector<std::vector<str>>& uniq) {
    std::vector<str> o{"prog"};
    bool need = false;
    for (auto& p : pos) need |= dashed(p);
    bool dd = need || s.one(8);
    // options first into groups
    std::vector<std::vector<str>> ot;
    for (size_t k = 0; k < opts.size(); k++) {
        const Item& it = opts[k];
        const Spec& e = t.sp[(size_t)it.entry];
        bool useS = e.sh && (uniq[(size_t)it.entry].empty() || s.one(2));
        if (useS) {
            str c(1, e.sh[s.below((unsigned)strlen(e.sh))]);
            std::vector<str> tk;
            bool grp = ot.size() && ot.back().size() == 1 && ot.back()[0].size() > 1 && ot.back()[0][1] != '-' && opts[k - 1].entry >= 0 && !t.sp[(size_t)opts[k - 1].entry].hasval() && s.one(2);
            // the previous token must be a pure group of valueless letters
            str head = grp ? ot.back()[0] : str("-");
            if (grp) ot.pop_back();
            if (!e.hasval()) tk = {head + c};
            else if (!it.has) tk = {head + c};
            else if (e.opt || (it.val.size() && s.one(2))) tk = {head + c + it.val};
            else tk = {head + c, it.val};
            ot.push_back(tk);
        } else {
            str n = s.pick(uniq[(size_t)it.entry]);
            if (!e.hasval() || !it.has) ot.push_back({"--" + n});
            else if (e.opt || s.one(2)) ot.push_back({"--" + n + "=" + it.val});
            else ot.push_back({"--" + n, it.val});
        }
    }
    if (dd) {
        size_t cut = 0;
        if (!need) cut = s.below((unsigned)pos.size() + 1);
        else { while (cut < pos.size() && !dashed(pos[cut])) cut++; cut = s.below((unsigned)cut + 1); }
        size_t p = 0, q2 = 0;
        while (p < cut || q2 < ot.size()) { if (q2 >= ot.size() || (p < cut && s.one(2))) o.push_back(pos[p++]); else { for (auto& x : ot[q2]) o.push_back(x); q2++; } }
        o.push_back("--");
        for (; p < pos.size(); p++) o.push_back(pos[p]);
    } else {
        size_t p = 0, q2 = 0;
        unsigned mode = s.below(3);
        while (p < pos.size() || q2 < ot.size()) {
            bool takep = q2 >= ot.size() || (p < pos.size() && (mode == 0 ? s.one(2) : mode == 1));
            if (takep) o.push_back(pos[p++]); else { for (auto& x : ot[q2]) o.push_back(x); q2++; }
        }
    }
    return o;
}
static void c13(Src& s) {
    GenOpt g; g.maxEntries = 9; g.taggedPct = 75; g.remPct = 8;
    Tab t;
    gen_table(s, t, g);
    // all names distinct between entries (the first would win), so that every spelling means the same entry
    std::set<char> us; std::set<str> ul;
    for (auto& e : t.sp) {
        if (e.sh) { str k; for (const char* c = e.sh; *c; c++) if (us.insert(*c).second) k += *c; if (k.empty() && !e.lo) { e.sh = nullptr; e.opt = false; if (e.k == LIT) e.k = STR; } else e.sh = k.empty() ? nullptr : hold(k); }
        std::vector<str> nn;
        for (auto& x : e.names) if (ul.insert(x).second) nn.push_back(x);
        e.names = nn;
        if (nn.empty()) { if (e.lo && !e.sh) { e.opt = false; if (e.k == LIT) e.k = STR; } e.lo = nullptr; }
        else { str l; for (size_t i = 0; i < nn.size(); i++) l += (i ? "," : "") + nn[i]; e.lo = hold(l); }
    }
    describe(t);
    // spellings: every long name and every abbreviation of it that no other entry shares
    std::vector<std::vector<str>> uniq(t.sp.size());
    for (size_t i = 0; i < t.sp.size(); i++)
        for (auto& x : t.sp[i].names)
            for (size_t L = 1; L <= x.size(); L++) {
                str a = x.substr(0, L);
                bool own = false, other = false, otherExact = false;
                for (size_t j = 0; j < t.sp.size(); j++) for (auto& y : t.sp[j].names) {
                    if (y == a) { if (j == i) own = true; else otherExact = true; }
                    if (y.compare(0, L, a) == 0 && j != i) other = true;
                }
                if (otherExact || (other && !own)) continue;
                uniq[i].push_back(a);
            }
    std::vector<Item> opts;
    std::vector<str> pos;
    std::vector<size_t> tg, un;
    for (size_t i = 0; i < t.sp.size(); i++) { if (t.sp[i].k == REM) continue; if (t.sp[i].tagged()) { if (t.sp[i].sh || uniq[i].size()) tg.push_back(i); } else un.push_back(i); }
    int n = s.range(0, 12);
    if (s.one(20)) n = s.range(10, 120);
    auto addo = [&](size_t i) {
        Item it{(int)i, false, ""};
        if (t.sp[i].hasval()) {
            it.has = !t.sp[i].opt || s.one(2);
            it.val = gen_value(s, t.sp[i], 92);
            if (it.val.empty()) it.val = "7";
        }
        opts.push_back(it);
    };
    if (s.pct(70)) for (size_t i : tg) for (int k = 0; k < t.sp[i].mn && k < 9; k++) addo(i);
    for (int k = 0; k < n; k++) {
        if (tg.size() && s.pct(60)) addo(s.pick(tg));
        else if (un.size()) { pos.push_back(gen_value(s, t.sp[s.pick(un)], 92)); if (dashed(pos.back()) && !s.one(5)) pos.back() = "9"; }
    }
    if (s.pct(60)) for (size_t i : un) for (int k = 0; k < t.sp[i].mn && k < 9; k++) pos.push_back(gen_value(s, t.sp[i], 100));
    auto parse = [&](Tab& x, const std::vector<str>& line, int& ret) { Argv a; a.set(line); describe(a.argc, a.ptr); ret = arg_parse(a.argc, a.ptr, x.arr.data()); };
    Tab a, b;
    a.sp = t.sp; b.sp = t.sp;
    a.cap = b.cap = t.cap;
    std::vector<int> mapb;
    for (size_t i = 0; i < t.sp.size(); i++) mapb.push_back((int)i);
    bool extra = s.one(2);
    if (extra) {
        // remarks and unused options anywhere in the second table
        int k = s.range(1, 4);
        while (k--) {
            size_t at = s.below((unsigned)b.sp.size() + 1);
            Spec e;
            if (s.one(2)) { e.k = REM; e.mn = e.mx = 1; e.dt = s.one(2) ? hold("x") : nullptr; e.gl = hold("remark"); }
            else {
                e.k = (Kind)s.below(7);
                if (e.k == REX) { e.rx = rx_word(s); e.pat = hold(e.rx->pattern); e.rflags = e.rx->flags; }
                // a name no option of the line starts with
                str nm = "\x01" "unused" + std::to_string(k) + std::to_string(s.below(1000));
                e.lo = hold(nm); e.names = {nm};
                e.mn = 0; e.mx = s.range(0, 3);
            }
            b.sp.insert(b.sp.begin() + (long)at, e);
            for (auto& m : mapb) if (m >= (int)at) m++;
        }
        say("second table with extra entries\n");
    }
    a.build(nullptr);
    b.build(nullptr);
    int ra, rb;
    parse(a, render(s, t, opts, pos, uniq), ra);
    parse(b, render(s, t, opts, pos, uniq), rb);
    CHECK(ra == rb, "two spellings of the same command line give %d and %d errors", ra, rb);
    for (int i = 0; i < ra; i++) {
        auto idx = [&](Tab& x, void* p) { if (p == (void*)x.end) return -1; for (size_t k = 0; k < x.sp.size(); k++) if (x.arr[k] == p) return (int)k; return -2; };
        int ea = idx(a, a.end->parent[i]), eb = idx(b, b.end->parent[i]);
        if (ea >= 0) ea = mapb[(size_t)ea];
        const char *xa = a.end->argval[i], *xb = b.end->argval[i];
        CHECK(ea == eb && a.end->error[i] == b.end->error[i] && (xa && xb ? !strcmp(xa, xb) : xa == xb), "error %d differs between two spellings: entry %d code %d %s / entry %d code %d %s", i, ea, a.end->error[i], q(xa).c_str(), eb, b.end->error[i], q(xb).c_str());
    }
    for (size_t i = 0; i < t.sp.size(); i++) {
        if (t.sp[i].k == REM) continue;
        size_t j = (size_t)mapb[i];
        CHECK(a.count(i) == b.count(j), "entry %zu (%s) has count %d and %d in two spellings of the same line", i, describe_spec(t.sp[i]).c_str(), a.count(i), b.count(j));
        for (int k = 0; k < a.count(i) && k < t.sp[i].emx(); k++) {
            Slot x, y;
            if (t.sp[i].k == LIT) break;
            x = a.slot(i, k); y = b.slot(j, k);
            CHECK(slot_eq(t.sp[i].k, x, y, false), "entry %zu value %d is %s and %s in two spellings of the same line", i, k, slot_str(t.sp[i].k, x).c_str(), slot_str(t.sp[i].k, y).c_str());
            hit("values compared");
        }
    }
    if (ra == 0) {
        // nothing may be lost in either spelling
        size_t total = 0;
        for (size_t i = 0; i < t.sp.size(); i++) if (t.sp[i].k != REM) total += (size_t)a.count(i);
        CHECK(total == opts.size() + pos.size(), "the line has %zu options and %zu positional arguments, %zu were counted", opts.size(), pos.size(), total);
    }
    hit("pairs of spellings");
    if (extra) hit("pairs with extra entries");
    hit(ra ? "pairs with errors" : "pairs without errors");
    Hash h;
    for (auto& e : t.sp) h.u((uint64_t)e.k);
    for (auto& o : opts) { h.u((uint64_t)o.entry); h.t(o.val); }
    for (auto& p : pos) h.t(p);
    if (opts.size() + pos.size() > 1) sig(h.h);
}
// ---------------------------------------------------------------- C14
static void c14(Src& s) {
    GenOpt g; g.customPct = 60; g.maxEntries = 9; g.taggedPct = 65;
    LineOpt l; l.noisePct = s.one(2) ? 0 : 15; l.maxItems = 12;
    Tab t;
    gen_table(s, t, g);
    describe(t);
    t.build(&s);
    std::vector<Ev> log;
    t.trace(&log);
    int rounds = 1 + (int)s.below(3);
    for (int r = 0; r < rounds; r++) {
        Argv a;
        a.set(gen_line(s, t, l));
        describe(a.argc, a.ptr);
        Pred p = predict(t, a.argc, a.ptr, r == 0);
        log.clear();
        int ret = arg_parse(a.argc, a.ptr, t.arr.data());
        // reset: each entry once, before any scan, in any order
        std::map<int, int> resets;
        bool scanned = false, checked = false;
        for (auto& e : log) {
            if (e.ev == 'R') { CHECK(!scanned && !checked, "entry %d is reset after scanning began", e.entry); resets[e.entry]++; }
            if (e.ev == 'S') { scanned = true; CHECK(!checked, "entry %d is scanned after the checks began", e.entry); }
            if (e.ev == 'C') checked = true;
            CHECK(e.ev != 'E', "the error function of entry %d is called during the parse", e.entry);
        }
        for (size_t i = 0; i < t.sp.size(); i++) {
            int want = t.sp[i].k != REM && !t.sp[i].noreset;
            CHECK(resets[(int)i] == want, "entry %zu is reset %d times", i, resets[(int)i]);
        }
        compare_trace(t, log, p, "S");
        compare_trace(t, log, p, "C");
        hit("callback events checked", log.size());
        // results become errors attributed to the entry
        if ((int)p.all.size() <= t.cap) {
            std::vector<std::pair<int, int>> want, got;
            for (auto& e : p.all) if (e.entry >= 0 && t.sp[(size_t)e.entry].k == CUS) want.push_back({e.entry, e.code});
            for (int k = 0; k < ret; k++) for (size_t i = 0; i < t.sp.size(); i++) if (t.arr[i] == t.end->parent[k] && t.sp[i].k == CUS) got.push_back({(int)i, t.end->error[k]});
            CHECK(want == got, "the recorded errors of program-defined entries do not match their results (%zu recorded, %zu expected)", got.size(), want.size());
            hit("errors of program-defined entries", want.size());
        }
        // printing errors
        std::vector<Ev> rec;
        for (int k = 0; k < ret; k++) {
            int en = -1;
            for (size_t i = 0; i < t.sp.size(); i++) if (t.arr[i] == t.end->parent[k]) en = (int)i;
            if (en >= 0 && t.sp[(size_t)en].noerror) continue;
            rec.push_back({'E', en, t.end->argval[k], t.end->error[k]});
        }
        log.clear();
        str pn = s.word(10);
        str out = from_ds([&](arg_dstr_t ds) { arg_print_errors_ds(ds, t.end, pn.c_str()); });
        CHECK(log.size() == rec.size(), "%zu error functions called, %zu errors recorded", log.size(), rec.size());
        for (size_t k = 0; k < log.size(); k++)
            CHECK(log[k].ev == 'E' && log[k].entry == rec[k].entry && log[k].val == rec[k].val && log[k].ret == rec[k].ret, "error function call %zu is for entry %d code %d %s, recorded is entry %d code %d %s", k, log[k].entry, log[k].ret, q(log[k].val).c_str(), rec[k].entry, rec[k].ret, q(rec[k].val).c_str());
        size_t at = 0;
        for (auto& e : rec) if (e.entry >= 0 && t.sp[(size_t)e.entry].k == CUS) {
            char b[64];
            snprintf(b, sizeof b, ": custom %d error %d at \"", e.entry, e.ret);
            str w = pn + b + (e.val ? e.val : "") + "\"\n";
            size_t f = out.find(w, at);
            CHECK(f != str::npos, "the message of entry %d is missing or out of order in the printed errors", e.entry);
            at = f + w.size();
        }
        events(p);
        bool any = false;
        for (auto& e : p.trace) any |= e.ev != 'R' && e.entry >= 0 && t.sp[(size_t)e.entry].k == CUS;
        if (any) sig(shape(t, p));
    }
    t.trace(nullptr);
}
// ---------------------------------------------------------------- C24
static bool same(const char* a, const char* b) { return a == b || (a && b && !strcmp(a, b)); }
static void c24(Src& s) {
    GenOpt g; g.maxEntries = 8; g.texts = s.one(3);
    LineOpt l; l.validPct = s.one(2) ? 60 : 95; l.noisePct = 8; l.maxItems = 10;
    Tab t;
    gen_table(s, t, g);
    for (auto& e : t.sp) { if (!s.one(2)) continue; if (e.k != REM) e.dt = nullptr; }
    describe(t);
    t.build(&s);
    static const char* DT[] = {nullptr, "<int>", "<double>", "<string>", nullptr, "<file>", nullptr, nullptr, nullptr};
    for (size_t i = 0; i < t.sp.size(); i++) {
        const Spec& e = t.sp[i];
        if (e.k == CUS) continue;
        arg_hdr* h = t.hdr(i);
        str d = describe_spec(e);
        CHECK(same(h->shortopts, e.sh) && same(h->longopts, e.lo), "new entry (%s) does not have the names it was given", d.c_str());
        CHECK(same(h->glossary, e.gl), "new entry (%s) does not have the description it was given", d.c_str());
        CHECK(h->mincount == e.mn, "new entry (%s) has minimum %d", d.c_str(), h->mincount);
        CHECK(h->maxcount == e.emx(), "new entry (%s) has maximum %d, expected %d", d.c_str(), h->maxcount, e.emx());
        const char* want = e.k == LIT ? nullptr : e.dt;
        if (!want) { want = DT[e.k]; if (e.k == REX) want = e.pat; if (e.k == DATE) want = e.pat ? e.pat : "%x"; }
        CHECK(want ? h->datatype && !strcmp(h->datatype, want) : !h->datatype, "new entry (%s) has value type %s, expected %s", d.c_str(), q(h->datatype).c_str(), q(want).c_str());
        int fl = h->flag;
        CHECK(!(fl & ARG_TERMINATOR), "new entry (%s) is flagged as the terminator", d.c_str());
        CHECK(((fl & ARG_HASVALUE) != 0) == e.hasval(), "new entry (%s) has wrong value flag", d.c_str());
        if (e.k == REM) continue;
        CHECK(t.count(i) == 0, "new entry (%s) has count %d", d.c_str(), t.count(i));
        struct tm z;
        memset(&z, 0, sizeof z);
        for (int j = 0; j < e.emx(); j++) {
            if (e.k == LIT) break;
            Slot v = t.slot(i, j);
            if (e.k == STR || e.k == REX || e.k == FIL) CHECK(v.a && !*v.a, "new entry (%s) slot %d is %s", d.c_str(), j, q(v.a).c_str());
            if (e.k == FIL) CHECK(v.b && !*v.b && v.c && !*v.c, "new entry (%s) base name or extension %d is not empty", d.c_str(), j);
            if (e.k == DATE) CHECK(tm_eq(v.t, z), "new entry (%s) slot %d is %s", d.c_str(), j, tm_str(v.t).c_str());
        }
        if (e.k == DATE) CHECK(((arg_date*)t.arr[i])->format && !strcmp(((arg_date*)t.arr[i])->format, e.pat ? e.pat : "%x"), "new date entry (%s) has format %s", d.c_str(), q(((arg_date*)t.arr[i])->format).c_str());
        hit("new entries checked");
    }
    CHECK(t.end->hdr.flag & ARG_TERMINATOR, "the terminator is not flagged as such");
    CHECK(t.end->count == 0, "new terminator has %d errors", t.end->count);
    prefill(s, t);
    int rounds = s.one(3) ? s.range(2, 3) : 1;
    for (int r = 0; r < rounds; r++) {
        // strings of an earlier parse are forgotten; everything else is as it was before this parse
        Pre def = snapshot(t);
        std::vector<int> held;
        for (size_t i = 0; i < t.sp.size(); i++) held.push_back(t.sp[i].k == STR ? t.count(i) : 0);
        Argv a;
        a.set(gen_line(s, t, l));
        describe(a.argc, a.ptr);
        Pred p = predict(t, a.argc, a.ptr, true);
        int ret = arg_parse(a.argc, a.ptr, t.arr.data());
        for (size_t i = 0; i < t.sp.size(); i++) {
            const Spec& e = t.sp[i];
            if (e.k == LIT || e.k == REM || e.k == CUS) continue;
            CHECK(t.count(i) == p.count[i], "entry %zu (%s) has count %d, expected %d", i, describe_spec(e).c_str(), t.count(i), p.count[i]);
            for (int j = 0; j < e.emx(); j++) {
                Slot g2 = t.slot(i, j);
                bool filled = !slot_eq(e.k, p.val[i][(size_t)j], def.slots[i][(size_t)j], true);
                if (filled) continue;
                if (j < held[i]) {
                    CHECK(g2.a && !*g2.a, "entry %zu (%s) slot %d was not filled but still holds %s of an earlier parse", i, describe_spec(e).c_str(), j, q(g2.a).c_str());
                    hit("slots of an earlier parse checked");
                    continue;
                }
                hit("default slots checked");
                CHECK(slot_eq(e.k, g2, def.slots[i][(size_t)j], true), "entry %zu (%s) slot %d was not filled but changed from %s to %s", i, describe_spec(e).c_str(), j, slot_str(e.k, def.slots[i][(size_t)j]).c_str(), slot_str(e.k, g2).c_str());
            }
            if (e.opt) hit("entries with optional values");
        }
        (void)ret;
        events(p);
        if (p.nopt + p.npos) sig(shape(t, p));
    }
}

// ---------------------------------------------------------------- C28: the scanning modes
// long names spelled with the letters of short options, so that both readings of one dash are possible
static void mixed_names(Src& s, Tab& t) {
    str letters;
    for (auto& e : t.sp) if (e.sh) for (const char* c = e.sh; *c; c++) if (isalnum((unsigned char)*c)) letters += *c;
    if (letters.empty()) return;
    for (auto& e : t.sp) {
        if (e.k == REM || !e.tagged() || !s.one(3)) continue;
        str n;
        for (int k = s.range(1, 4); k--;) n += letters[s.below((unsigned)letters.size())];
        if (e.names.size() && s.one(3)) n += e.names[0];
        e.names.push_back(n);
        e.lo = hold((e.lo && *e.lo ? str(e.lo) + "," : str()) + n);
    }
}
static void modes(Src& s, bool lo) {
    Tab t;
    GenOpt g;
    g.taggedPct = 75; g.remPct = 2; g.customPct = 10;
    g.maxEntries = s.one(2) ? 4 : 12;
    gen_table(s, t, g);
    if (lo || s.one(4)) mixed_names(s, t);
    describe(t);
    t.build(&s);
    std::vector<Ev> log;
    t.trace(&log);
    prefill(s, t);
    g_longonly = lo;
    for (int r = 0, rounds = s.range(1, 4); r < rounds; r++) {
        LineOpt l;
        l.noisePct = s.one(2) ? 4 : 15;
        l.posPct = lo ? 25 : 45;
        std::vector<str> v = gen_line(s, t, l);
        if (lo) for (size_t i = 1; i < v.size(); i++) {
            if (v[i] == "--" && s.one(2)) break;
            if (v[i].size() > 2 && v[i][0] == '-' && v[i][1] == '-' && v[i][2] != '-' && s.pct(60)) v[i].erase(0, 1);
            else if (v[i].size() > 1 && v[i][0] == '-' && v[i][1] != '-' && s.one(20)) v[i].insert(0, "-");
        }
        Argv a;
        a.set(v);
        g_posix = s.pct(lo ? 20 : 70);
        if (g_posix) setenv("POSIXLY_CORRECT", s.one(2) ? "1" : s.pick<str>({"", "0", "no", "false", "n", " ", "off", "00", "N", "FALSE", "-", "x"}).c_str(), 1); else unsetenv("POSIXLY_CORRECT");
        say("POSIXLY_CORRECT %s\n", g_posix ? "set" : "not set");
        describe(a.argc, a.ptr);
        Pred p = predict(t, a.argc, a.ptr, r == 0);
        Pre pre = snapshot(t);
        log.clear();
        int ret = arg_parse(a.argc, a.ptr, t.arr.data());
        unsetenv("POSIXLY_CORRECT");
        bool px = g_posix;
        g_posix = false;
        compare(t, p, pre, ret, A_COUNT | A_VAL | A_ERRN | A_ERR);
        compare_trace(t, log, p, "S");
        events(p);
        hit(px ? "parses with POSIXLY_CORRECT" : "parses without POSIXLY_CORRECT");
        if (p.nopt + p.npos > 0) { Hash h; h.u(shape(t, p)); h.u(px); sig(h.h); }
    }
    t.trace(nullptr);
    g_longonly = false;
}
static void c28(Src& s) { modes(s, false); }
static void c28l(Src& s) { modes(s, true); }
const Prop g_props[] = {{"C02", c02}, {"C03", c03}, {"C04", c04}, {"C05", c05}, {"C06", c06}, {"C12", c12}, {"C13", c13}, {"C14", c14}, {"C24", c24}, {"C28", c28}, {"C28L", c28l}, {nullptr, nullptr}};
