// C15-C18, C21: rendered texts against independent references.
#include "model.h"

void global_init() { arg_cmd_init(); }

// ---------------------------------------------------------------- reference rendering
static const char* eff_dt(const Spec& e) {
    if (e.k == LIT) return nullptr;
    if (e.dt) return e.dt;
    switch (e.k) {
        case INTK: return "<int>";
        case DBL: return "<double>";
        case STR: return "<string>";
        case FIL: return "<file>";
        case REX: return e.pat;
        case DATE: return e.pat ? e.pat : "%x";
        default: return nullptr;
    }
}
static str val(const char* dt, bool opt) { return opt ? "[" + str(dt) + "]" : str(dt); }
static str brief(const Spec& e) {
    const char* dt = eff_dt(e);
    str r;
    if (e.sh) { r = str("-") + e.sh[0]; if (dt) r += " " + val(dt, e.opt); }
    else if (e.lo) { r = "--" + str(e.lo).substr(0, str(e.lo).find(',')); if (dt) r += "=" + val(dt, e.opt); }
    else if (dt) r = val(dt, e.opt);
    return r;
}
static str full(const char* sh, const char* lo, const char* dt, bool opt, const str& sep) {
    str r;
    if (sh) for (const char* c = sh; *c; c++) { if (c != sh) r += sep; r += '-'; r += *c; }
    if (sh && lo) r += sep;
    if (lo) {
        str l = lo;
        size_t at = 0;
        for (;;) {
            size_t c = l.find(',', at);
            r += "--" + l.substr(at, c == str::npos ? str::npos : c - at);
            if (c == str::npos) break;
            r += sep;
            at = c + 1;
        }
    }
    if (dt) { r += lo ? "=" : sh ? " " : ""; r += val(dt, opt); }
    return r;
}
static str full(const Spec& e, const str& sep) { return full(e.sh, e.lo, eff_dt(e), e.opt, sep); }
static void occur(str& o, const str& x, int mn, int mx) {
    for (int i = 0; i < mn; i++) o += " " + x;
    switch (mx - mn) {
        case 0: break;
        case 1: o += " [" + x + "]"; break;
        case 2: o += " [" + x + "] [" + x + "]"; break;
        default: o += " [" + x + "]...";
    }
}
static bool toolong = false;     // some entry is longer than what is promised to be shown in full
static str lim(const str& x, size_t max = 197) { if (x.size() > max) toolong = true; return x; }
static str ref_syntax(const Tab& t) {
    str o, m, p;
    for (auto& e : t.sp) if (e.sh && !e.hasval()) (e.mn > 0 ? m : p) += e.sh[0];
    if (m.size()) o += " -" + m;
    if (p.size()) o += (m.size() ? "[" : " [-") + p + "]";
    for (auto& e : t.sp) {
        if (e.sh && !e.hasval()) continue;
        str x = lim(brief(e));
        if (x.size()) occur(o, x, e.mn, e.emx());
    }
    return o;
}
static str ref_syntaxv(const Tab& t) {
    str o;
    for (auto& e : t.sp) occur(o, lim(full(e, "|")), e.mn, e.emx());
    return o;
}
static str fmt2(const char* f, const str& a, const str& b) {
    int n = snprintf(nullptr, 0, f, a.c_str(), b.c_str());
    std::vector<char> z((size_t)n + 1);
    snprintf(z.data(), z.size(), f, a.c_str(), b.c_str());
    return z.data();
}
static str ref_glossary(const Tab& t, const char* f) {
    str o;
    for (auto& e : t.sp) if (e.gl) o += fmt2(f, lim(full(e, ", ")), e.gl);
    return o;
}
static bool blank(char c) { return ws(c) && c != '\n'; }
// no blanks before a line break or at the end
static bool clean(const str& t) {
    for (size_t i = 0; i < t.size(); i++) if (blank(t[i]) && (i + 1 == t.size() || t[i + 1] == '\n')) return false;
    return true;
}
static std::vector<str> ref_wrap(const str& text, size_t W) {
    std::vector<str> out;
    size_t at = 0;
    while (at < text.size()) {
        size_t nl = text.find('\n', at);
        str seg = text.substr(at, nl == str::npos ? str::npos : nl - at);
        at = nl == str::npos ? text.size() : nl + 1;
        auto eat = [&] { size_t k = 0; while (k < seg.size() && blank(seg[k])) k++; seg.erase(0, k); };
        eat();
        while (seg.size() > W) {
            size_t p = W;
            while (p > 0 && !blank(seg[p])) p--;
            if (p == 0) { out.push_back(seg.substr(0, W)); seg.erase(0, W); eat(); continue; }
            while (p > 0 && blank(seg[p - 1])) p--;
            out.push_back(seg.substr(0, p));
            seg.erase(0, p);
            eat();
        }
        out.push_back(seg);
    }
    return out;
}
static str join(const std::vector<str>& l, size_t lm) {
    str o;
    for (size_t i = 0; i < l.size(); i++) { if (i) o += str(lm, ' '); o += l[i] + "\n"; }
    return o;
}
static str rtrim(const str& t) {
    str o, l;
    for (char c : t) { if (c == '\n') { while (l.size() && l.back() == ' ') l.pop_back(); o += l + "\n"; l.clear(); } else l += c; }
    return o + l;
}
static void texts(Src& s, Tab& t, int maxe = 8) {
    GenOpt g;
    g.maxEntries = maxe;
    g.texts = true;
    g.remPct = 8;
    g.taggedPct = 70;
    g.bigmax = s.one(8);
    gen_table(s, t, g);
    for (auto& e : t.sp) {
        if (e.sh && !*e.sh) e.sh = nullptr;
        if (e.mn > 12) e.mn = 12;
        if (e.gl && s.one(40)) { str z; int n = s.size(60); for (int i = 0; i < n; i++) z += str((size_t)s.range(1, 100), (char)('a' + i % 26)) + " "; e.gl = hold(z + "z"); }
        // land on interesting rendering lengths
        if (e.dt && e.k != LIT && s.one(10)) {
            size_t have = full(e, ", ").size() - strlen(e.dt);
            int want = s.one(2) ? s.range(20, 30) : s.range(150, 197);
            if ((int)have < want) e.dt = hold(s.word(3) + str((size_t)want - have, 'w').substr(0, (size_t)want - have));
        }
        size_t L = full(e, ", ").size();
        if (L > 193 && !s.one(20)) { e.dt = e.k == LIT ? nullptr : hold("N"); if (full(e, ", ").size() > 193) { e.lo = nullptr; e.names.clear(); } }
    }
    describe(t);
    t.build(&s);
}
static str diff(const str& got, const str& want) {
    size_t i = 0;
    while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
    size_t b = i > 40 ? i - 40 : 0;
    return "at offset " + std::to_string(i) + ": got ..." + q(got.substr(b, 160)) + ", expected ..." + q(want.substr(b, 160));
}
static uint64_t hs(const str& x) { Hash h; h.t(x); return h.h; }

// ---------------------------------------------------------------- C15
static void c15(Src& s) {
    Tab t;
    texts(s, t);
    static const std::vector<str> SUF = {"\n", "", "\n\n", " [more]\n", "%s%d\n"};
    str suf = s.pick(SUF);
    if (s.one(30)) suf = s.text(2000);
    const char* sp = s.one(10) ? nullptr : hold(suf);
    if (!sp) suf = "";
    str head = s.one(3) ? s.word(30) : "";
    toolong = false;
    str w = ref_syntax(t) + suf;
    str f = from_stream([&](FILE* fp) { arg_print_syntax(fp, t.arr.data(), sp); });
    str d = from_ds([&](arg_dstr_t ds) { arg_dstr_cat(ds, hold(head)); arg_print_syntax_ds(ds, t.arr.data(), sp); });
    CHECK(d == head + f, "usage line differs between stream and string %s", diff(d, head + f).c_str());
    if (!toolong) { CHECK(f == w, "usage line differs %s", diff(f, w).c_str()); hit("usage lines compared"); hit("usage bytes compared", f.size()); }
    else { CHECK(f.size() >= suf.size() && f.compare(f.size() - suf.size(), str::npos, suf) == 0, "usage line does not end with its suffix"); hit("usage lines with overlong entries"); }
    toolong = false;
    w = ref_syntaxv(t) + suf;
    f = from_stream([&](FILE* fp) { arg_print_syntaxv(fp, t.arr.data(), sp); });
    d = from_ds([&](arg_dstr_t ds) { arg_dstr_cat(ds, hold(head)); arg_print_syntaxv_ds(ds, t.arr.data(), sp); });
    CHECK(d == head + f, "verbose usage line differs between stream and string %s", diff(d, head + f).c_str());
    if (!toolong) { CHECK(f == w, "verbose usage line differs %s", diff(f, w).c_str()); hit("verbose usage lines compared"); hit("usage bytes compared", f.size()); }
    for (auto& e : t.sp) {
        if (!s.one(3)) continue;
        str x = full(e.sh, e.lo, e.dt, false, "|");
        if (x.size() > 197) continue;
        f = from_stream([&](FILE* fp) { arg_print_option(fp, e.sh, e.lo, e.dt, sp); });
        CHECK(f == x + suf, "option text differs %s", diff(f, x + suf).c_str());
        d = from_ds([&](arg_dstr_t ds) { arg_print_option_ds(ds, e.sh, e.lo, e.dt, sp); });
        CHECK(d == f, "option text differs between stream and string %s", diff(d, f).c_str());
        hit("option texts compared");
    }
    if (t.sp.size()) sig(hs(w));
}
// ---------------------------------------------------------------- C16
static void c16(Src& s) {
    Tab t;
    texts(s, t);
    static const char* F[] = {nullptr, "  %-20s %s\n", "%s|%s\n", "  %-25s %s\n", "%30s: %s\n", "%-10s%s\n", "%s\n\t%s\n\n", "[%-200s] %.300s\n", "%%%s%%%s\n", "", "%s\n", "\n", "%.0s%s\n"};
    const char* fm = F[s.below(sizeof F / sizeof *F)];
    str head = s.one(3) ? s.word(30) : "";
    toolong = false;
    str w = ref_glossary(t, fm ? fm : "  %-20s %s\n");
    str f = from_stream([&](FILE* fp) { arg_print_glossary(fp, t.arr.data(), fm); });
    str d = from_ds([&](arg_dstr_t ds) { arg_dstr_cat(ds, hold(head)); arg_print_glossary_ds(ds, t.arr.data(), fm); });
    CHECK(d == head + f, "glossary differs between stream and string %s", diff(d, head + f).c_str());
    if (!toolong) { CHECK(f == w, "glossary differs %s", diff(f, w).c_str()); hit("glossaries compared"); hit("glossary bytes compared", f.size()); }
    // GNU style
    toolong = false;
    bool allclean = true;
    str g;
    int n = 0;
    for (auto& e : t.sp) {
        if (!e.gl) continue;
        n++;
        str x = (!e.sh && e.lo ? "    " : "") + full(e, ", ");
        lim(x);
        if (!clean(e.gl)) allclean = false;
        if (x.size() > 25) { g += "  " + x + "\n"; x = ""; hit("names on a line of their own"); }
        g += "  " + x + str(25 - x.size(), ' ') + " ";
        str body = join(ref_wrap(e.gl, 52), 28);
        g += body.empty() ? "\n" : body;
        if (strlen(e.gl) > 52) hit("wrapped descriptions");
    }
    f = from_stream([&](FILE* fp) { arg_print_glossary_gnu(fp, t.arr.data()); });
    d = from_ds([&](arg_dstr_t ds) { arg_dstr_cat(ds, hold(head)); arg_print_glossary_gnu_ds(ds, t.arr.data()); });
    CHECK(d == head + f, "GNU glossary differs between stream and string %s", diff(d, head + f).c_str());
    if (!toolong && allclean) { str a = rtrim(f), b = rtrim(g + "\n"); CHECK(a == b, "GNU glossary differs %s", diff(a, b).c_str()); hit("GNU glossaries compared"); hit("glossary bytes compared", f.size()); }
    if (n) sig(hs(w + g));
}
// ---------------------------------------------------------------- C17
static str gen_prose(Src& s, bool cl) {
    str r;
    int n = s.one(10) ? s.size(400) : s.range(0, 30);
    for (int i = 0; i < n; i++) {
        int wl = s.one(10) ? s.size(120) : s.range(1, 12);
        str w;
        for (int k = 0; k < wl; k++) w += s.one(40) ? (char)s.range(128, 255) : (char)s.range(33, 126);
        r += w;
        if (i + 1 < n) {
            if (s.one(8)) { int k = s.one(4) ? s.range(2, 4) : 1; r += str((size_t)k, '\n'); if (s.one(3)) r += " "; }
            else if (s.one(8)) { int k = s.range(2, s.one(8) ? 40 : 5); for (int j = 0; j < k; j++) r += s.one(6) ? s.pickc(cl ? "\t\v\f\r" : "\t\v\f\r\n") : ' '; }
            else r += ' ';
        }
    }
    if (s.one(6)) r = s.pick<str>({" ", "\n", "\n\n", "   ", "\t"}) + r;
    if (s.one(6)) r += s.pick<str>({"\n", "\n\n"});
    if (!cl && s.one(2)) r += s.pick<str>({" ", "  ", " \n", "\t\n\n", "\n ", "\r\n", "\r"});
    if (cl) {
        // remove blanks before line breaks and at the end
        str o;
        for (size_t i = 0; i < r.size(); i++) { if (r[i] == '\n') while (o.size() && blank(o.back())) o.pop_back(); o += r[i]; }
        while (o.size() && blank(o.back())) o.pop_back();
        r = o;
    }
    return r;
}
static void c17(Src& s) {
    for (int r = 0; r < 4; r++) {
        bool cl = !s.one(5);
        str x = gen_prose(s, cl);
        unsigned lm = s.one(6) ? 0 : (unsigned)s.range(0, 40), W = s.one(3) ? (unsigned)s.range(1, 12) : (unsigned)s.range(10, 90);
        if (s.one(40)) lm = (unsigned)s.size(300);
        if (s.one(40)) W = (unsigned)s.size(2000) + 1;
        if (s.one(40)) { if (!lm) lm = 1; W = UINT_MAX - (s.one(2) ? s.below(3) : s.below(400)) - lm + 1; }     // as good as no right margin
        unsigned rm = lm + W - 1;
        if (lm == 0 && W == 0) continue;
        // the printer's cost grows with the square of its output: keep that within reason
        size_t lines = x.size();
        if (W > 12) { lines = 2 * x.size() / W + 1; for (char c : x) lines += c == '\n'; }
        if (s.one(60000)) {                       // a very long text
            W = (unsigned)s.range(50, 400);
            lm = s.below(3);
            x = "";
            for (size_t n = (size_t)s.range(33000, 100000); x.size() < n;) x += (x.size() ? s.one(40) ? "\n" : " " : "") + s.word(20);
            hit("texts of more than 32767 characters");
        } else if (lines * (lm + 1) + x.size() > 24000) lm = std::min(lm, (unsigned)(24000 / (lines + 1)));
        rm = lm + W - 1;
        say("margins %u..%u, text %s\n", lm, rm, q(x).c_str());
        const char* t = hold(x);
        str got = from_stream([&](FILE* fp) { arg_print_formatted(fp, lm, rm, t); });
        if (clean(x)) {
            str want = join(ref_wrap(x, W), lm);
            if (x.empty()) { CHECK(got.empty() || got == "\n", "empty text printed %s", q(got).c_str()); continue; }
            CHECK(got == want, "margins %u..%u, text %s: wrapped text differs %s", lm, rm, q(x).c_str(), diff(got, want).c_str());
            hit("texts compared");
            for (char c : got) if (c == '\n') hit("lines compared");
        } else {
            // every non-blank character in order, no line too long, every later line indented
            str a, b;
            for (char c : x) if (!ws(c)) a += c;
            for (char c : got) if (!ws(c)) b += c;
            CHECK(a == b, "margins %u..%u, text %s: characters lost or changed", lm, rm, q(x).c_str());
            size_t at = 0, ln = 0, nl = 0;
            for (char c : x) nl += c == '\n';
            while (at < got.size()) {
                size_t e = got.find('\n', at);
                CHECK(e != str::npos, "margins %u..%u, text %s: last line is not ended", lm, rm, q(x).c_str());
                str l = got.substr(at, e - at);
                size_t ind = ln ? lm : 0;
                bool bl = l.find_first_not_of(' ') == str::npos;
                CHECK(l.size() <= ind + W, "margins %u..%u, text %s: line %zu has %zu characters", lm, rm, q(x).c_str(), ln, l.size());
                if (!bl) CHECK(l.size() > ind && l.compare(0, ind, str(ind, ' ')) == 0, "margins %u..%u, text %s: line %zu is not indented by %zu", lm, rm, q(x).c_str(), ln, ind);
                at = e + 1;
                ln++;
            }
            CHECK(ln >= nl || x.back() == '\n', "margins %u..%u, text %s: %zu lines for %zu line breaks", lm, rm, q(x).c_str(), ln, nl);
            hit("texts with blanks before line breaks checked");
        }
        Hash h; h.t(x); h.u(lm); h.u(rm); sig(h.h);
    }
}
// ---------------------------------------------------------------- C18
static bool sample_ok(const str& f) {          // formats whose sample is promised to be valid
    bool h = false;
    int p = 0;
    for (size_t i = 0; i < f.size(); i++) if (f[i] == '%') {
        if (++i >= f.size()) return false;
        char alt = 0;
        if (f[i] == 'E' || f[i] == 'O') { alt = f[i]; if (++i >= f.size()) return false; }
        if (alt == 'E' && !strchr("cXxCYy", f[i])) return false;
        if (alt == 'O' && !strchr("deHIMmSUWwy", f[i])) return false;
        if (!strchr("AaBbhdeHIklMmpSUWwjntDRTrXx%cCyY", f[i])) return false;
        if (strchr("HkRTXc", f[i])) h = true;
        if (strchr("pr", f[i])) p++;
    }
    return !(h && p) && p < 2;
}
struct Cur {
    const str& o;
    size_t at = 0;
    void eat(const str& w, const char* what) {
        CHECK(o.compare(at, w.size(), w) == 0, "%s: expected %s, printed %s", what, q(w).c_str(), q(o.substr(at, w.size() + 40)).c_str());
        at += w.size();
    }
    bool opt(const str& w) { if (o.compare(at, w.size(), w)) return false; at += w.size(); return true; }
};
static void errors_text(Tab& t, Cur& c, const str& pn) {
    for (int k = 0; k < t.end->count; k++) {
        int code = t.end->error[k];
        str av = t.end->argval[k] ? t.end->argval[k] : "";
        int en = -1;
        for (size_t i = 0; i < t.sp.size(); i++) if (t.arr[i] == t.end->parent[k]) en = (int)i;
        str p = pn + ": ";
        if (en < 0) {
            CHECK((void*)t.end->parent[k] == (void*)t.end, "recorded error %d belongs to no entry", k);
            if (!t.end->argval[k] && code >= 1 && code <= 5 && !(code == ARG_ELIMIT && k == t.cap - 1)) {
                // an unknown short option whose letter is one of the control characters 1..5
                if (c.opt(p + "invalid option \"-" + str(1, (char)code) + "\"\n")) continue;
                known("short-option-control-1-5", "the message for the unknown short option -\\x%02x does not name it: %s", code, q(c.o.substr(c.at, 60)).c_str());
                const char* m = code == ARG_ELIMIT ? "too many errors to display\n" : code == ARG_EMALLOC ? "insufficient memory\n" : code == ARG_ENOMATCH ? "unexpected argument \"\"\n" : code == ARG_EMISSARG ? "option \"\" requires an argument\n" : "invalid option \"\"\n";
                c.eat(p + m, "message of a control character");
                continue;
            }
            switch (code) {
                case ARG_ELIMIT: c.eat(p + "too many errors to display\n", "overflow message"); break;
                case ARG_ENOMATCH: c.eat(p + "unexpected argument \"" + av + "\"\n", "unexpected argument message"); break;
                case ARG_EMISSARG: c.eat(p + "option \"" + av + "\" requires an argument\n", "missing argument message"); break;
                case ARG_ELONGOPT: c.eat(p + "invalid option \"" + av + "\"\n", "invalid long option message"); break;
                default: c.eat(p + "invalid option \"-" + str(1, (char)code) + "\"\n", "invalid short option message");
            }
            hit("terminator messages checked");
            continue;
        }
        const Spec& e = t.sp[(size_t)en];
        str nm = full(e.sh, e.lo, eff_dt(e), false, "|"), nv = full(e.sh, e.lo, av.c_str(), false, "|");
        auto name = [&](const str& pre, const str& x, const str& post) {
            c.eat(pre, "error message");
            if (x.size() <= 197) { c.eat(x + post, "option in an error message"); return; }
            for (size_t cut = x.size(); cut >= 197; cut--) if (c.opt(x.substr(0, cut) + post)) return;    // the rest may be cut off
            // names and value type over 197 characters are cut off somewhere near the end
            if (!c.o.compare(c.at, 185, x, 0, 185))
                for (size_t z = 199; z >= 185; z--) if (!c.o.compare(c.at + z, post.size(), post)) { c.at += z + post.size(); hit("over-long options cut off"); return; }
            fail("a long option is shown wrongly in an error message: %s", q(c.o.substr(c.at, 300)).c_str());
        };
        if (code == K_MINCOUNT) {
            name(p + "missing option ", nm, "\n");
            if (e.k == LIT) c.opt("\n");
            hit("missing option messages checked");
        } else if (code == K_MAXCOUNT) {
            if (e.k == LIT) name(p + "extraneous option ", nm, "\n"); else name(p + "excess option ", nv, "\n");
            hit("excess option messages checked");
        } else if ((e.k == INTK && code == K_BADINT) || (e.k == DBL && code == K_BADDOUBLE)) {
            name(p + "invalid argument \"" + av + "\" to option ", nm, "\n");
            hit("bad number messages checked");
        } else if (e.k == INTK && code == K_OVERFLOW) {
            name(p + "integer overflow at option ", nm, " ");
            c.eat("(" + av + " is too large)\n", "overflow message");
            hit("overflow messages checked");
        } else if (e.k == REX && code == K_REGNOMATCH) {
            name(p + "illegal value  ", nv, "\n");
            hit("no match messages checked");
        } else if (e.k == DATE && code == K_BADDATE) {
            c.eat(p + "illegal timestamp format \"" + av + "\"\n", "date message");
            c.eat("correct format is \"", "date message");
            str f = e.pat ? e.pat : "%x";
            struct tm z;
            memset(&z, 0, sizeof z);
            z.tm_year = 99; z.tm_mon = 11; z.tm_mday = 31; z.tm_hour = 23; z.tm_min = 59; z.tm_sec = 59;
            char buf[300];
            if (!strftime(buf, 200, f.c_str(), &z)) buf[0] = 0;
            str sample = buf;
            if (!c.opt(sample + "\"\n")) {
                size_t q2 = c.o.find("\"\n", c.at);
                CHECK(q2 != str::npos, "date message: sample is not ended");
                sample = c.o.substr(c.at, q2 - c.at);
                c.at = q2 + 2;
            }
            memset(&z, 0, sizeof z);
            bool ok = ref_date(sample.c_str(), f.c_str(), z);
            if (sample_ok(f)) {
                if (!ok && f.find("%c") != str::npos) known("date-sample-%c", "the sample shown for a date format with %%c is not itself accepted");
                else if (!ok && f.find("%Ec") != str::npos) known("date-sample-%c", "the sample shown for a date format with %%c is not itself accepted");
                else CHECK(ok, "format %s: the sample %s in the message is not valid", q(f).c_str(), q(sample).c_str());
                hit("date samples checked");
            }
        } else fail("error %d of %s has unexpected code %d", k, describe_spec(e).c_str(), code);
        hit("messages checked");
    }
}
static void c18(Src& s) {
    Tab t;
    texts(s, t);
    LineOpt l;
    l.validPct = s.one(2) ? 50 : 85;
    l.noisePct = 25;
    int rounds = s.range(1, 3);
    for (int r = 0; r < rounds; r++) {
        Argv a;
        a.set(gen_line(s, t, l));
        describe(a.argc, a.ptr);
        int ret = 0;
        str noise = from_fds([&] { ret = arg_parse(a.argc, a.ptr, t.arr.data()); });
        CHECK(noise.empty(), "the parse itself wrote %s", q(noise).c_str());
        hit("parses that wrote nothing themselves");
        str pn = s.one(4) ? s.pick<str>({"", "prog", "a b", "%s", "./x/y"}) : s.word(12);
        if (s.one(40)) pn = s.text(500);
        if (pn[0] == '\n') pn[0] = 'n';           // an optional blank line after a message would be ambiguous
        const char* p = hold(pn);
        str f = from_stream([&](FILE* fp) { arg_print_errors(fp, t.end, p); });
        str head = s.one(3) ? s.word(30) : "";
        str d = from_ds([&](arg_dstr_t ds) { arg_dstr_cat(ds, hold(head)); arg_print_errors_ds(ds, t.end, p); });
        CHECK(d == head + f, "error messages differ between stream and string %s", diff(d, head + f).c_str());
        if (ret == 0) { CHECK(f.empty(), "error-free parse, but printed %s", q(f).c_str()); hit("error-free parses print nothing"); continue; }
        Cur c{f};
        errors_text(t, c, pn);
        CHECK(c.at == f.size(), "text after the last error message: %s", q(f.substr(c.at)).c_str());
        sig(hs(f));
    }
}
// ---------------------------------------------------------------- C21
static str m_name = "<name>", m_ver = "0.0.0.0";
static int noproc(int, char**, arg_dstr_t, void*) { return 0; }
static void c21(Src& s) {
    std::vector<str> reg;
    struct Un { std::vector<str>& r; ~Un() { for (auto& n : r) arg_cmd_unregister(n.c_str()); } } un{reg};
    int steps = s.range(1, 4);
    bool hadName = false, hadVer = false;
    int a0 = 0, b0 = 0, c0 = 0;
    str tag;
    for (int k = 0; k < steps; k++) {
        Tab t;
        texts(s, t, 6);
        bool same = hadVer && s.one(2);               // again, and all but alike: same numbers, same lengths
        if (same || s.one(3)) {
            str n = s.one(8) ? "" : s.one(6) ? s.text(300) : s.word(20);
            if (same && hadName && m_name != "<name>") { n = m_name; n[s.below((unsigned)n.size())] = (char)s.range('a', 'z'); }
            char* tmp = strdup(n.c_str());
            arg_set_module_name(tmp);
            memset(tmp, '#', n.size());
            free(tmp);
            m_name = n.empty() ? "<name>" : n;
            hadName = true;
            say("module name %s\n", q(n).c_str());
        }
        if (same || s.one(4)) {
            if (!same) { a0 = s.one(4) ? (int)s.raw() : s.range(0, 20), b0 = s.range(0, 300), c0 = s.one(9) ? INT_MAX : s.range(0, 9); tag = s.one(4) ? s.word(200) : s.one(5) ? "" : s.pick<str>({"abcdef1", "rc1", "0", "%d"}); }
            else if (s.one(3)) { int& w = *s.pick<int*>({&a0, &b0, &c0}); w = s.range(0, 20); }
            else if (tag.size()) tag[s.below((unsigned)tag.size())] = (char)s.range('a', 'z');
            char* tmp = strdup(tag.c_str());
            arg_set_module_version(a0, b0, c0, tmp);
            memset(tmp, '#', tag.size());
            free(tmp);
            m_ver = std::to_string(a0) + "." + std::to_string(b0) + "." + std::to_string(c0) + "." + tag;
            say("module version %s\n", q(m_ver).c_str());
            hadVer = true;
            hit(same ? "module settings changed in one place" : "module settings");
        }
        str nm = s.one(6) ? str((size_t)s.range(60, 99), 'n') : s.word(12), desc = s.one(6) ? str((size_t)s.range(100, 255), 'd') : s.pick<str>({"does things", "", "100% of it", "%s", "ends so\n", " two\nlines ", "dots..."});
        bool isreg = s.pct(65);
        for (auto& r : reg) if (r == nm) nm = "dup" + std::to_string(k);
        if (isreg) { arg_cmd_register(hold(nm), noproc, hold(desc), nullptr); reg.push_back(nm); }
        str head = s.one(3) ? s.word(30) : "";
        // help texts
        str g = from_ds([&](arg_dstr_t ds) { arg_dstr_cat(ds, hold(head)); arg_make_get_help_msg(ds); });
        str w = head + m_name + " v" + m_ver + "\nPlease type '" + m_name + " help' to get more information.\n";
        CHECK(g == w, "get-help message differs %s", diff(g, w).c_str());
        toolong = false;
        str help = (isreg ? nm + ": " + desc + "\n" : "") + "Usage:\n  " + m_name + ref_syntaxv(t) + "\n \nAvailable options:\n" + ref_glossary(t, "  %-23s %s\n") + "\n";
        str usage = "Usage: \n  " + m_name + ref_syntaxv(t) + "\n\n";
        if (toolong) continue;
        g = from_ds([&](arg_dstr_t ds) { arg_dstr_cat(ds, hold(head)); arg_make_help_msg(ds, hold(nm), t.arr.data()); });
        CHECK(g == head + help, "help message differs %s", diff(g, head + help).c_str());
        hit("help messages compared");
        Argv a;
        LineOpt l;
        l.validPct = s.one(2) ? 50 : 95;
        l.noisePct = s.one(2) ? 0 : 15;
        a.set(gen_line(s, t, l));
        describe(a.argc, a.ptr);
        int ret = arg_parse(a.argc, a.ptr, t.arr.data());
        auto synerr = [&](const str& o) {
            CHECK(o.compare(0, head.size(), head) == 0, "earlier text changed");
            str errs = from_ds([&](arg_dstr_t ds) { arg_print_errors_ds(ds, t.end, m_name.c_str()); });
            CHECK(o == head + errs + usage, "syntax error message differs %s", diff(o, head + errs + usage).c_str());
        };
        g = from_ds([&](arg_dstr_t ds) { arg_dstr_cat(ds, hold(head)); arg_make_syntax_err_msg(ds, t.arr.data(), t.end); });
        synerr(g);
        hit("syntax error messages compared");
        for (int hc = 0; hc < 4; hc++) {
            int code = 4711, rc = -1, nh = hc == 2 ? s.range(2, 9) : hc & 1;
            if (hc == 3) { nh = 0; ret = s.one(2) ? 0 : s.one(2) ? 1 : s.range(1, 100000); }     // the caller's own count
            g = from_ds([&](arg_dstr_t ds) { arg_dstr_cat(ds, hold(head)); rc = arg_make_syntax_err_help_msg(ds, hold(nm), nh, ret, t.arr.data(), t.end, &code); });
            if (nh > 0) {
                CHECK(g == head + help, "help message differs %s", diff(g, head + help).c_str());
                CHECK(code == EXIT_SUCCESS && rc != 0, "help: exit status %d, result %d", code, rc);
                hit(ret ? "help over errors" : "help alone");
            } else if (ret > 0) {
                synerr(g);
                CHECK(code == EXIT_FAILURE && rc != 0, "syntax error: exit status %d, result %d", code, rc);
                hit("syntax errors");
            } else {
                CHECK(g == head, "nothing to report, but wrote %s", q(g).c_str());
                CHECK(code == 4711 && rc == 0, "nothing to report: exit status %d, result %d", code, rc);
                hit("nothing to report");
            }
        }
        sig(hs(help + g));
    }
}
const Prop g_props[] = {{"C15", c15}, {"C16", c16}, {"C17", c17}, {"C18", c18}, {"C21", c21}, {nullptr, nullptr}};
