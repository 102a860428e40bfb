#include "model.h"
#include <unordered_map>

const char* const KN[] = {"lit", "int", "dbl", "str", "rex", "file", "date", "rem", "custom"};

// =============================================================== custom entries
static std::vector<Ev>* s_log = nullptr;
static unsigned chash(const char* v) { unsigned h = 7; for (; *v; v++) h = h * 31 + (unsigned char)*v; return h ^ (h >> 7); }
static void log_ev(char ev, int entry, const char* val, int ret) { if (s_log) s_log->push_back({ev, entry, val, ret}); }
static void c_reset(void* p) { Custom* c = (Custom*)p; c->count = 0; log_ev('R', c->index, nullptr, 0); }
static int c_scan(void* p, const char* v) {
    Custom* c = (Custom*)p;
    int r = 0;
    if (c->count >= c->mx) r = c->cerr + 1;
    else if (v && c->cmod && chash(v) % c->cmod == 0) r = c->cerr;
    else c->count++;
    log_ev('S', c->index, v, r);
    return r;
}
static int c_check(void* p) {
    Custom* c = (Custom*)p;
    int r = c->count < c->mn ? c->cchk : 0;
    log_ev('C', c->index, nullptr, r);
    return r;
}
static void c_error(void* p, arg_dstr_t ds, int error, const char* argval, const char* progname) {
    Custom* c = (Custom*)p;
    log_ev('E', c->index, argval, error);
    arg_dstr_catf(ds, "%s: custom %d error %d at \"%s\"\n", progname, c->index, error, argval ? argval : "");
}

// =============================================================== tables
static const char* cdt(Src* s, const Spec& e) { (void)s; return e.dt; }
void Tab::build(Src* s) {
    arr.clear();
    for (size_t i = 0; i < sp.size(); i++) {
        Spec& e = sp[i];
        bool s0 = e.mn == 0 && e.mx == 1 && s && s->one(2), s1 = e.mn == 1 && e.mx == 1 && s && s->one(2);
        void* r = nullptr;
        switch (e.k) {
            case LIT: r = s0 ? arg_lit0(e.sh, e.lo, e.gl) : s1 ? arg_lit1(e.sh, e.lo, e.gl) : arg_litn(e.sh, e.lo, e.mn, e.mx, e.gl); break;
            case INTK: r = s0 ? arg_int0(e.sh, e.lo, cdt(s, e), e.gl) : s1 ? arg_int1(e.sh, e.lo, e.dt, e.gl) : arg_intn(e.sh, e.lo, e.dt, e.mn, e.mx, e.gl); break;
            case DBL: r = s0 ? arg_dbl0(e.sh, e.lo, e.dt, e.gl) : s1 ? arg_dbl1(e.sh, e.lo, e.dt, e.gl) : arg_dbln(e.sh, e.lo, e.dt, e.mn, e.mx, e.gl); break;
            case STR: r = s0 ? arg_str0(e.sh, e.lo, e.dt, e.gl) : s1 ? arg_str1(e.sh, e.lo, e.dt, e.gl) : arg_strn(e.sh, e.lo, e.dt, e.mn, e.mx, e.gl); break;
            case REX: r = s0 ? arg_rex0(e.sh, e.lo, e.pat, e.dt, e.rflags, e.gl) : s1 ? arg_rex1(e.sh, e.lo, e.pat, e.dt, e.rflags, e.gl) : arg_rexn(e.sh, e.lo, e.pat, e.dt, e.mn, e.mx, e.rflags, e.gl); break;
            case FIL: r = s0 ? arg_file0(e.sh, e.lo, e.dt, e.gl) : s1 ? arg_file1(e.sh, e.lo, e.dt, e.gl) : arg_filen(e.sh, e.lo, e.dt, e.mn, e.mx, e.gl); break;
            case DATE: r = s0 ? arg_date0(e.sh, e.lo, e.pat, e.dt, e.gl) : s1 ? arg_date1(e.sh, e.lo, e.pat, e.dt, e.gl) : arg_daten(e.sh, e.lo, e.pat, e.dt, e.mn, e.mx, e.gl); break;
            case REM: r = arg_rem(e.dt, e.gl); break;
            case CUS: {
                Custom* c = (Custom*)malloc(sizeof(Custom));
                memset(c, 0, sizeof *c);
                c->hdr.flag = (char)(e.cval ? ARG_HASVALUE : 0);
                c->hdr.shortopts = e.sh; c->hdr.longopts = e.lo; c->hdr.datatype = e.dt; c->hdr.glossary = e.gl;
                c->hdr.mincount = e.mn; c->hdr.maxcount = e.emx(); c->hdr.parent = c;
                c->hdr.resetfn = e.noreset ? nullptr : c_reset; c->hdr.scanfn = e.noscan ? nullptr : c_scan;
                c->hdr.checkfn = e.nocheck ? nullptr : c_check; c->hdr.errorfn = e.noerror ? nullptr : c_error;
                c->index = (int)i; c->cmod = e.cmod; c->cerr = e.cerr; c->cchk = e.cchk; c->mn = e.mn; c->mx = e.emx();
                r = c;
                break;
            }
        }
        CHECK(r, "constructor of entry %zu (%s) returned NULL", i, KN[e.k]);
        if (e.opt) ((arg_hdr*)r)->flag = (char)(((arg_hdr*)r)->flag | ARG_HASOPTVALUE);
        // int and dbl slots are indeterminate after construction: give them a default, as a program does
        arr.push_back(r);
        if (e.k == INTK) for (int j = 0; j < e.emx(); j++) ((arg_int*)r)->ival[j] = 1000 + j;
        if (e.k == DBL) for (int j = 0; j < e.emx(); j++) ((arg_dbl*)r)->dval[j] = 0.5 + j;
    }
    end = arg_end(cap);
    CHECK(end, "arg_end returned NULL");
    arr.push_back(end);
    freed = false;
}
void Tab::destroy() {
    if (freed || arr.empty()) return;
    arg_freetable(arr.data(), arr.size());
    freed = true;
}
Tab::~Tab() { if (!freed && !arr.empty()) arg_freetable(arr.data(), arr.size()); }

int Tab::count(size_t i) {
    switch (sp[i].k) {
        case LIT: return ((arg_lit*)arr[i])->count;
        case INTK: return ((arg_int*)arr[i])->count;
        case DBL: return ((arg_dbl*)arr[i])->count;
        case STR: return ((arg_str*)arr[i])->count;
        case REX: return ((arg_rex*)arr[i])->count;
        case FIL: return ((arg_file*)arr[i])->count;
        case DATE: return ((arg_date*)arr[i])->count;
        case CUS: return ((Custom*)arr[i])->count;
        default: return 0;
    }
}
Slot Tab::slot(size_t i, int j) {
    Slot v;
    switch (sp[i].k) {
        case INTK: v.i = ((arg_int*)arr[i])->ival[j]; break;
        case DBL: memcpy(&v.d, &((arg_dbl*)arr[i])->dval[j], 8); break;
        case STR: v.a = ((arg_str*)arr[i])->sval[j]; break;
        case REX: v.a = ((arg_rex*)arr[i])->sval[j]; break;
        case FIL: v.a = ((arg_file*)arr[i])->filename[j]; v.b = ((arg_file*)arr[i])->basename[j]; v.c = ((arg_file*)arr[i])->extension[j]; break;
        case DATE: v.t = ((arg_date*)arr[i])->tmval[j]; break;
        default: break;
    }
    return v;
}
void Tab::setslot(size_t i, int j, const Slot& v) {
    switch (sp[i].k) {
        case INTK: ((arg_int*)arr[i])->ival[j] = v.i; break;
        case DBL: memcpy(&((arg_dbl*)arr[i])->dval[j], &v.d, 8); break;
        case STR: ((arg_str*)arr[i])->sval[j] = v.a; break;
        case REX: ((arg_rex*)arr[i])->sval[j] = v.a; break;
        case FIL: ((arg_file*)arr[i])->filename[j] = v.a; ((arg_file*)arr[i])->basename[j] = v.b; ((arg_file*)arr[i])->extension[j] = v.c; break;
        case DATE: ((arg_date*)arr[i])->tmval[j] = v.t; break;
        default: break;
    }
}
// logging trampolines for the built-in types
struct Orig { arg_resetfn* r; arg_scanfn* s; arg_checkfn* c; arg_errorfn* e; int index; };
static std::unordered_map<void*, Orig> s_orig;
static void t_reset(void* p) { Orig& o = s_orig[p]; log_ev('R', o.index, nullptr, 0); o.r(p); }
static int t_scan(void* p, const char* v) { Orig& o = s_orig[p]; int r = o.s(p, v); log_ev('S', o.index, v, r); return r; }
static int t_check(void* p) { Orig& o = s_orig[p]; int r = o.c(p); log_ev('C', o.index, nullptr, r); return r; }
static void t_error(void* p, arg_dstr_t ds, int error, const char* v, const char* pn) { Orig& o = s_orig[p]; log_ev('E', o.index, v, error); o.e(p, ds, error, v, pn); }
void Tab::trace(std::vector<Ev>* log) {
    s_log = log;
    s_orig.clear();
    if (!log) return;
    for (size_t i = 0; i < arr.size(); i++) {
        arg_hdr* h = (arg_hdr*)arr[i];
        if (i < sp.size() && sp[i].k == CUS) continue;
        s_orig[h->parent] = Orig{h->resetfn, h->scanfn, h->checkfn, h->errorfn, i < sp.size() ? (int)i : -1};
        if (h->resetfn) h->resetfn = t_reset;
        if (h->scanfn) h->scanfn = t_scan;
        if (h->checkfn) h->checkfn = t_check;
        if (h->errorfn) h->errorfn = t_error;
    }
}

// =============================================================== generators
static const char* LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static str gen_short(Src& s, const GenOpt& o, str& used) {
    int n = s.pct(80) ? 1 : s.pct(80) ? 2 : s.range(2, 6);
    str r;
    for (int i = 0; i < n; i++) {
        char c = LETTERS[s.below(62)];
        for (int t = 0; t < 8 && used.find(c) != str::npos && !s.one(25); t++) c = LETTERS[s.below(62)];
        if (o.odd && !o.plain && s.one(30)) c = s.pickc("+@%=_,.#!~^&*()[]{}<>|/\\'\"$`\x80\xc3\xa9\xfe");
        if (o.plain && c == 'W') c = 'V';
        if (r.find(c) != str::npos) continue;
        r += c;
        used += c;
    }
    return r;
}
static str gen_name(Src& s, std::vector<str>& pool, bool plain) {
    if (pool.size() && s.one(3)) {
        str b = s.pick(pool);
        switch (s.below(6)) {
            case 0: return b;                                                // duplicate: the first entry wins
            case 1: case 2: return b + s.pickc("abx-_0");                    // extension
            case 3: return b + "-" + s.word(6);
            case 4: if (b.size() > 1) return b.substr(0, 1 + s.below((unsigned)b.size())); return b + "z";
            default: return b.substr(0, 1 + s.below((unsigned)b.size())) + s.word(4);
        }
    }
    if (s.one(8)) { static const std::vector<str> w = {"help", "verbose", "version", "output", "out", "file", "value", "val", "recursive", "rec", "a", "ab", "abc", "no-color", "no-cache"}; return s.pick(w); }
    str r = s.word(s.one(10) ? 150 : 7);
    if (!plain && s.one(15)) { r += s.pickc("-_.:@+ \xc3"); r += s.word(4); }
    return r;
}
static str gen_phrase(Src& s, int maxw) {
    int n = s.range(1, maxw);
    str r;
    for (int i = 0; i < n; i++) { if (i) r += ' '; r += s.word(s.one(12) ? 70 : 9); }
    return r;
}
void gen_table(Src& s, Tab& t, const GenOpt& o) {
    int n = s.pct(4) ? s.range(0, 1) : s.pct(90) ? s.range(1, o.maxEntries) : s.range(1, o.maxEntries * 4);
    if (o.bigmax && s.one(500)) n = s.range(100, 600);
    str used;
    std::vector<str> pool;
    int many = s.one(12);
    for (int i = 0; i < n; i++) {
        Spec e;
        if (s.pct((unsigned)o.customPct)) e.k = CUS;
        else if (s.pct((unsigned)o.remPct)) e.k = REM;
        else e.k = (Kind)s.below(7);
        bool tagged = s.pct((unsigned)o.taggedPct);
        if (e.k == REM) tagged = false;
        if (e.k == LIT && !tagged && !s.one(4)) tagged = true;
        if (tagged) {
            unsigned w = s.below(3);
            if (w != 1) e.sh = hold(gen_short(s, o, used));
            if (w != 0) {
                int m = s.pct(75) ? 1 : s.range(2, many ? 8 : 4);
                str l;
                for (int j = 0; j < m; j++) { str nm = gen_name(s, pool, o.plain); e.names.push_back(nm); pool.push_back(nm); l += (j ? "," : "") + nm; }
                e.lo = hold(l);
            }
            if (!o.texts && !o.plain && s.one(60)) {       // a list of names with nothing in it
                if (s.one(3)) e.sh = hold("");
                else { e.lo = hold(""); e.names.clear(); }
            }
        }
        switch (s.below(8)) {
            case 0: case 1: e.mn = 0; e.mx = 1; break;
            case 2: e.mn = 1; e.mx = 1; break;
            case 3: e.mn = 0; e.mx = s.range(0, 4); break;
            case 4: e.mn = s.range(0, 3); e.mx = e.mn + s.range(0, 4); break;
            case 5: e.mn = 0; e.mx = s.range(2, 20); break;
            case 6: e.mn = 0; e.mx = o.bigmax ? s.size(300) : 6; break;
            default: e.mn = s.range(0, 2); e.mx = s.range(0, 2); break;     // maximum below the minimum is raised
        }
        if (o.bigmax && s.one(3000)) { e.mn = s.range(0, 1); e.mx = s.pick<int>({126, 127, 128, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536, 65537, 131072}); }
        if (o.bigmax && !o.texts && s.one(3000)) { e.mn = s.pick<int>({127, 128, 255, 256, 257, 300}); e.mx = e.mn + s.range(0, 2); }
        if (o.texts && s.one(40)) { e.mn = s.range(3, 40); e.mx = e.mn + s.range(0, 4); }
        if (s.one(3)) e.mn = 0;
        if (e.k == REM) e.mn = e.mx = 1;
        if (s.one(3) || o.texts) {
            e.dt = s.one(3) ? nullptr : hold(s.pick<str>({"<n>", "N", "FILE", "<file>", "", "[x]", "KEY=VALUE", "%s", "<a b>", "\xc3\x84ra", "<\xe9t\xe9>"}));
            if (o.texts && s.one(8)) e.dt = hold(s.word(s.one(4) ? 220 : 60));
        }
        if (!o.texts ? s.one(2) : !s.one(5)) {
            e.gl = hold(o.texts ? (s.one(10) ? str("") : gen_phrase(s, s.one(4) ? 60 : 12)) : str("text"));
            if (o.texts && s.one(30)) {                      // line breaks anywhere, also first and last
                str g = str((size_t)s.below(3), '\n') + gen_phrase(s, 6);
                for (int k = s.range(0, 3); k--;) g += str((size_t)s.range(1, 3), '\n') + gen_phrase(s, 6);
                e.gl = hold(g + str((size_t)s.below(3), '\n'));
            }
            if (o.texts && s.one(12)) { str g = gen_phrase(s, 10); size_t at = g.find(' '); if (at != str::npos) g[at] = '\n'; e.gl = hold(g); }
        }
        if (e.k == REM && !e.gl && !e.dt) e.gl = hold("remark");
        if (e.k == REX) {
            bool again = false;
            if (o.twins && o.twins->size() && s.one(2)) {               // the very same pattern text, with or without ignore-case
                auto& tw = s.pick(*o.twins);
                e.rx = s.one(2) ? tw.a : tw.b;
                e.pat = tw.text;
                again = true;
            } else if (o.twins && s.one(2)) {
                Src c = s;
                GenOpt::Twin tw;
                tw.a = gen_rx(c, true, 4, false, 0);
                tw.b = gen_rx(s, true, 4, false, 1);
                if (tw.a->pattern == tw.b->pattern) {
                    tw.text = hold(tw.a->pattern);
                    o.twins->push_back(tw);
                    e.rx = s.one(2) ? tw.a : tw.b;
                    e.pat = tw.text;
                    again = true;
                }
            }
            if (!again) {
                e.rx = gen_rx(s, true, o.bigRx ? 10 : 4);
                e.pat = hold(e.rx->pattern);
            }
            e.rflags = e.rx->flags;
        }
        if (e.k == DATE) { if (s.one(4)) e.pat = nullptr; else e.pat = hold(gen_datefmt(s)); }
        if (e.k == CUS) {
            e.cval = s.pct(60);
            e.cmod = s.one(2) ? 0 : (unsigned)s.range(2, 4);
            e.cerr = s.range(20, 90);
            e.cchk = s.range(91, 120);
            if (s.one(3)) e.cerr = s.one(2) ? -s.range(2, 300) : s.one(2) ? (int)(s.raw() & 0x7ffffff0u) + 2 : INT_MIN + s.range(0, 5) * 256;
            if (s.one(3)) e.cchk = s.one(2) ? -s.range(1, 300) : s.one(2) ? (int)(s.raw() | 0x10000u) : s.pick<int>({256, 65536, INT_MIN, INT_MAX, -256, 1 << 24});
            if (s.one(12)) e.noreset = true;
            if (s.one(12)) e.nocheck = true;
            if (s.one(12)) e.noerror = true;
            if (s.one(20)) e.noscan = true;
        }
        if (tagged && e.hasval() && s.pct(20)) e.opt = true;
        t.sp.push_back(e);
    }
    t.cap = s.pct(60) ? 20 : s.pct(50) ? s.range(1, 6) : 1 + s.size(150);
    if (s.one(200)) t.cap = s.one(3) ? s.pick<int>({255, 256, 257, 32767, 32768, 65535, 65536, 65537}) : s.range(150, 70000);
}
str gen_value(Src& s, const Spec& e, int validPct) {
    bool ok = s.pct((unsigned)validPct);
    switch (e.k) {
        case INTK: return gen_int(s, ok);
        case DBL: return gen_dbl(s, ok);
        case FIL: return gen_file(s);
        case REX: return gen_rxtext(s, *e.rx, ok, 4);
        case DATE: return gen_date(s, e.pat ? e.pat : "%x", ok);
        default:
            if (s.pct(55)) return s.word(8);
            return s.text(s.one(40) ? (s.one(60) ? 140000 : 3000) : 60);
    }
}
void Argv::set(const std::vector<str>& a) {
    argc = (int)a.size();
    v.clear();
    std::vector<char*> w(a.size());
    Hash h;
    for (size_t i = 0; i < a.size(); i++) {
        // equal arguments are sometimes the same string
        if ((i + a.size()) % 3 == 0) for (size_t j = i; j-- > 0 && i - j < 12;) if (a[j] == a[i]) { w[i] = w[j]; break; }
        if (!w[i]) w[i] = hold(a[i]);
        h.t(a[i]);
    }
    // what follows the arguments: nothing, or (the caller passes the head of a longer vector) more that is none of ours
    if (h.h % 8 == 0) for (const char* x : {"-a", "beyond", "--"}) w.push_back(hold(x));
    w.push_back(nullptr);
    v = w;
    ptr = (char**)holdro(w.data(), w.size() * sizeof(char*));
}
static bool optlike(const str& x) { return x.size() > 1 && x[0] == '-'; }
std::vector<str> gen_line(Src& s, const Tab& t, const LineOpt& o) {
    std::vector<str> a;
    a.push_back(s.one(30) ? s.text(20) : "prog");
    if (s.one(200)) { a.clear(); return a; }
    int n = s.pct(6) ? 0 : s.pct(88) ? s.range(1, o.maxItems) : s.size(o.maxItems * 20);
    size_t cap = 4000;
    if (s.one(2000)) { n = s.range(1000, 70000); cap = 70000; }
    std::vector<size_t> tagged, unt;
    for (size_t i = 0; i < t.sp.size(); i++) { if (t.sp[i].k == REM) continue; (t.sp[i].tagged() ? tagged : unt).push_back(i); }
    size_t focus = tagged.size() ? s.pick(tagged) : 0;
    bool focused = s.one(4);
    bool ended = false;
    // often satisfy the mandatory entries so that a parse can succeed
    std::vector<size_t> must;
    if (s.pct(65)) for (size_t i : tagged) for (int j = 0; j < t.sp[i].mn && j < 20; j++) must.push_back(i);
    std::vector<size_t> mustpos;
    if (s.pct(65)) for (size_t i : unt) for (int j = 0; j < t.sp[i].mn && j < 20; j++) mustpos.push_back(i);
    auto emit_opt = [&](size_t i) {
        const Spec& e = t.sp[i];
        bool hv = e.hasval();
        bool useS = e.sh && *e.sh && (e.names.empty() || s.one(2));
        if (!useS && e.names.empty()) return;
        str v = hv ? gen_value(s, e, o.validPct) : "";
        if (useS) {
            str c = "-";
            // a group: some valueless letters first
            if (s.pct(30))
                for (int z = s.range(1, 4); z--;) {
                    size_t j = s.pick(tagged);
                    const Spec& f = t.sp[j];
                    if (f.sh && *f.sh && !f.hasval()) c += f.sh[s.below((unsigned)strlen(f.sh))];
                }
            c += e.sh[s.below((unsigned)strlen(e.sh))];
            if (!hv) {
                if (s.one(40) && !o.plain) c += s.pickc("-?:abc=");
                a.push_back(c);
            } else if (e.opt) {
                if (s.one(2)) a.push_back(c);
                else a.push_back(c + v);
            } else if (s.one(2) && v.size()) a.push_back(c + v);
            else { a.push_back(c); if (!s.one(60)) a.push_back(v); }
        } else {
            str nm = s.pick(e.names);
            if (s.pct(20)) nm = nm.substr(0, 1 + s.below((unsigned)nm.size()));
            str c = "--" + nm;
            if (!hv) { if (s.one(40)) c += "=" + v; a.push_back(c); }
            else if (e.opt) { if (s.one(2)) a.push_back(c); else a.push_back(c + "=" + v); }
            else if (s.one(2)) a.push_back(c + "=" + v);
            else { a.push_back(c); if (!s.one(60)) a.push_back(v); }
        }
    };
    auto emit_pos = [&](size_t i) {
        str v = gen_value(s, t.sp[i], o.validPct);
        if (!ended && optlike(v)) { if (s.one(3)) { a.push_back("--"); ended = true; } else if (s.one(2)) v = "x" + v; }
        a.push_back(v);
    };
    size_t mi = 0, mp = 0, mark = 1;
    for (int k = 0; k < n || mi < must.size() || mp < mustpos.size(); k++) {
        if (a.size() > cap) break;
        if (a.size() > mark && a.size() - mark <= 2 && a.size() > 1 && s.one(16)) {      // the same again
            std::vector<str> again(a.begin() + (long)mark, a.end());
            for (int z = s.range(1, 2); z--;) a.insert(a.end(), again.begin(), again.end());
        }
        mark = a.size();
        if (s.pct((unsigned)o.noisePct)) {
            switch (s.below(12)) {
                case 0: a.push_back("-"); break;
                case 1: a.push_back(""); break;
                case 2: a.push_back("--"); ended = true; break;
                case 3: a.push_back(o.plain ? "--nosuch" : "--" + s.text(12)); break;
                case 4: a.push_back(str("-") + LETTERS[s.below(62)]); break;
                case 5: a.push_back(o.plain ? str("x") : "-" + s.text(6)); break;
                case 6: if (tagged.size()) { const Spec& e = t.sp[s.pick(tagged)]; if (e.names.size()) a.push_back("--" + s.pick(e.names) + (s.one(2) ? "=" : "x")); } break;
                case 7: a.push_back(s.text(40)); break;
                case 8: if (!o.plain) a.push_back(s.pick<str>({"--=", "--=x", "---", "-=", "--a", "-1", "-0x1", "-.5", "--help", "-h", "--help=1"})); break;
                default: if (t.sp.size()) { a.push_back(gen_value(s, t.sp[s.below((unsigned)t.sp.size())], 90)); } break;
            }
            continue;
        }
        if (mi < must.size() && !ended && s.one(2)) { emit_opt(must[mi++]); continue; }
        if (mp < mustpos.size() && s.one(3)) { emit_pos(mustpos[mp++]); continue; }
        if (k >= n) { if (mi < must.size() && !ended) emit_opt(must[mi++]); else if (mp < mustpos.size()) emit_pos(mustpos[mp++]); else break; continue; }
        if (tagged.size() && (unt.empty() || !s.pct((unsigned)o.posPct)) && (!ended || s.one(4))) emit_opt(focused && s.pct(70) ? focus : s.pick(tagged));
        else if (unt.size()) emit_pos(s.pick(unt));
        else if (s.one(3)) a.push_back(s.text(20));
    }
    return a;
}

// =============================================================== reference semantics
int ref_scan(const Spec& e, int count, const char* val, Slot& v, bool& has, const Slot& before) {
    has = false;
    if (e.k == CUS) {
        if (count >= e.emx()) return e.cerr + 1;
        if (val && e.cmod && chash(val) % e.cmod == 0) return e.cerr;
        return 0;
    }
    if (count >= e.emx()) return K_MAXCOUNT;
    if (e.k == LIT || !val) return 0;
    switch (e.k) {
        case INTK: { IntRes r = ref_int(val, v.i); if (r == INT_BAD) return K_BADINT; if (r == INT_OVER) return K_OVERFLOW; break; }
        case DBL: { double d; if (!ref_dbl(val, d)) return K_BADDOUBLE; memcpy(&v.d, &d, 8); break; }
        case STR: v.a = val; break;
        case REX: if (!ref_rx(*e.rx, val)) return K_REGNOMATCH; v.a = val; break;
        case FIL: { size_t b, x; ref_file(val, b, x); v.a = val; v.b = val + b; v.c = val + x; break; }
        case DATE: { v.t = before.t; if (!ref_date(val, e.pat ? e.pat : "%x", v.t)) return K_BADDATE; break; }
        default: break;
    }
    has = true;
    return 0;
}
Pre snapshot(Tab& t) {
    Pre p;
    for (size_t i = 0; i < t.sp.size(); i++) {
        std::vector<Slot> v;
        if (t.sp[i].k != LIT && t.sp[i].k != REM && t.sp[i].k != CUS)
            for (int j = 0; j < t.sp[i].emx(); j++) v.push_back(t.slot(i, j));
        p.slots.push_back(std::move(v));
    }
    return p;
}
bool g_posix, g_longonly;
Pred predict(Tab& t, int argc, char** argv, bool first) {
    Pred p;
    size_t n = t.sp.size();
    p.count.assign(n, 0);
    p.val.resize(n);
    p.known.resize(n);
    Pre pre = snapshot(t);
    for (size_t i = 0; i < n; i++) {
        p.val[i] = pre.slots[i];
        p.known[i].assign(p.val[i].size(), first ? 1 : 0);
        if (t.sp[i].k == CUS && t.sp[i].noreset) p.count[i] = t.count(i);
        if (t.sp[i].k != REM && !t.sp[i].noreset) p.trace.push_back({'R', (int)i, nullptr, 0});
    }
    p.trace.push_back({'R', -1, nullptr, 0});
    auto scan = [&](int i, const char* val) -> int {
        const Spec& e = t.sp[(size_t)i];
        if (e.noscan || e.k == REM) return 0;
        Slot v, before;
        bool has;
        int c = p.count[(size_t)i];
        bool hs = c < (int)p.val[(size_t)i].size();
        // a date starts from what its slot held, which only the real table knows after earlier parses
        if (hs) before = pre.slots[(size_t)i][(size_t)c];
        int r = ref_scan(e, c, val, v, has, before);
        if (r == 0) {
            if (has && hs) { p.val[(size_t)i][(size_t)c] = v; p.known[(size_t)i][(size_t)c] = 1; }
            p.count[(size_t)i]++;
        } else if (r == K_MAXCOUNT) p.nexcess++;
        p.trace.push_back({'S', i, val, r});
        return r;
    };
    auto err = [&](int entry, int code, const char* arg) { p.all.push_back({entry, code, arg}); };
    std::vector<const char*> pos;
    for (int a = 1; a < argc; a++) {
        const char* tok = argv[a];
        if (!strcmp(tok, "--")) { if (pos.size()) p.nperm++; for (a++; a < argc; a++) pos.push_back(argv[a]); break; }
        if (tok[0] != '-' || !tok[1]) {
            if (g_posix) { for (; a < argc; a++) pos.push_back(argv[a]); break; }
            pos.push_back(tok);
            continue;
        }
        if (pos.size()) p.nperm++;
        p.nopt++;
        bool dd = tok[1] == '-', letter = false, shorts = !dd;
        if (!dd && g_longonly) {
            shorts = false;
            if (tok[1] != ':') for (size_t k = 0; k < n && !letter; k++) letter = t.sp[k].sh && strchr(t.sp[k].sh, tok[1]);
        }
        if (!shorts) {
            const char* nm = tok + (dd ? 2 : 1);
            const char* eq = strchr(nm, '=');
            size_t L = eq ? (size_t)(eq - nm) : strlen(nm);
            int exact = -1, part = -1;
            bool amb = false;
            for (size_t i = 0; i < n && exact < 0; i++)
                for (auto& x : t.sp[i].names) {
                    if (x.size() == L && !strncmp(x.c_str(), nm, L)) { exact = (int)i; break; }
                    if (letter && L == 1) continue;
                    if (x.size() > L && !strncmp(x.c_str(), nm, L)) { if (part < 0) part = (int)i; else if (part != (int)i || g_longonly) amb = true; }
                }
            int i = exact >= 0 ? exact : amb ? -1 : part;
            if (i < 0 && letter && !amb) shorts = true;
            else {
            if (i < 0) { err(-1, ARG_ELONGOPT, tok); continue; }
            const Spec& e = t.sp[(size_t)i];
            const char* val = nullptr;
            if (!e.hasval()) { if (eq) { err(-1, ARG_ELONGOPT, tok); continue; } }
            else if (eq) val = eq + 1;
            else if (!e.opt) {
                if (a + 1 >= argc) { err(-1, ARG_EMISSARG, tok); continue; }
                val = argv[++a];
            }
            if (val && !*val && e.hasval()) err(-1, ARG_EMISSARG, eq ? tok : val);
            int r = scan(i, val);
            if (r) err(i, r, val);
            }
        }
        if (shorts) {
            for (const char* c = tok + 1; *c; c++) {
                int i = -1;
                if (*c != '-' && *c != ':')
                    for (size_t k = 0; k < n && i < 0; k++) if (t.sp[k].sh && strchr(t.sp[k].sh, *c)) i = (int)k;
                if (i < 0) { err(-1, (int)*c, nullptr); continue; }
                const Spec& e = t.sp[(size_t)i];
                const char* val = nullptr;
                bool stop = false;
                if (e.hasval()) {
                    stop = true;
                    if (c[1]) val = c + 1;
                    else if (!e.opt) {
                        if (a + 1 >= argc) { err(-1, ARG_EMISSARG, tok); break; }
                        val = argv[++a];
                    }
                }
                int r = scan(i, val);
                if (r) err(i, r, val);
                if (stop) break;
            }
        }
    }
    p.npos = (int)pos.size();
    if (argc > 0) {
        size_t k = 0, i = 0;
        int last = 0, lastp = -1;
        for (; i < n && k < pos.size();) {
            const Spec& e = t.sp[i];
            if (e.tagged() || e.k == REM || e.noscan) { i++; continue; }
            int r = scan((int)i, pos[k]);
            if (r == 0) { k++; last = 0; } else { last = r; lastp = (int)i; i++; }
        }
        if (k < pos.size()) {
            if (last) { err(lastp, last, pos[k]); k++; }
            for (; k < pos.size(); k++) err(-1, ARG_ENOMATCH, pos[k]);
        }
    }
    if (p.all.empty())
        for (size_t i = 0; i < n; i++) {
            const Spec& e = t.sp[i];
            if (e.k == REM || e.nocheck) continue;
            int r = p.count[i] < e.mn ? (e.k == CUS ? e.cchk : K_MINCOUNT) : 0;
            p.trace.push_back({'C', (int)i, nullptr, r});
            if (r) err((int)i, r, nullptr);
        }
    for (auto& e : p.all) {
        if ((int)p.errs.size() < t.cap) p.errs.push_back(e);
        else p.errs[(size_t)t.cap - 1] = {-1, ARG_ELIMIT, nullptr};
    }
    p.ret = (int)p.errs.size();
    return p;
}

// =============================================================== comparison
static bool seq(const char* a, const char* b) { return a == b || (a && b && !strcmp(a, b)); }
bool slot_eq(Kind k, const Slot& a, const Slot& b, bool ptr) {
    switch (k) {
        case INTK: return a.i == b.i;
        case DBL: return a.d == b.d;
        case STR: case REX: return ptr ? a.a == b.a : seq(a.a, b.a);
        case FIL: return ptr ? a.a == b.a && a.b == b.b && a.c == b.c : seq(a.a, b.a) && seq(a.b, b.b) && seq(a.c, b.c);
        case DATE: return tm_eq(a.t, b.t);
        default: return true;
    }
}
str slot_str(Kind k, const Slot& v) {
    char b[100];
    switch (k) {
        case INTK: snprintf(b, sizeof b, "%d", v.i); return b;
        case DBL: { double d; memcpy(&d, &v.d, 8); snprintf(b, sizeof b, "%.17g (%a)", d, d); return b; }
        case STR: case REX: return q(v.a);
        case FIL: return q(v.a) + " base " + q(v.b) + " ext " + q(v.c);
        case DATE: return tm_str(v.t);
        default: return "";
    }
}
static str err_str(const Tab& t, const Err& e) {
    (void)t;
    char b[64];
    if (e.entry < 0) snprintf(b, sizeof b, "terminator code %d ", e.code);
    else snprintf(b, sizeof b, "entry %d code %d ", e.entry, e.code);
    return b + q(e.arg);
}
void compare(Tab& t, const Pred& p, const Pre& pre, int ret, int mask) {
    size_t n = t.sp.size();
    if (mask & (A_COUNT | A_ERRN | A_ERR)) {
        CHECK(ret == t.end->count, "arg_parse returned %d but %d errors are recorded", ret, t.end->count);
    }
    if (mask & A_ERRN) CHECK((ret == 0) == (p.ret == 0), "parse reported %d errors, expected %d (first expected: %s)", ret, p.ret, p.errs.size() ? err_str(t, p.errs[0]).c_str() : "none");
    if (mask & A_ERR) {
        CHECK(ret == p.ret, "parse reported %d errors, expected %d", ret, p.ret);
        for (int i = 0; i < ret; i++) {
            Err g;
            g.code = t.end->error[i];
            g.arg = t.end->argval[i];
            g.entry = -2;
            if (t.end->parent[i] == (void*)t.end) g.entry = -1;
            else for (size_t k = 0; k < n; k++) if (t.end->parent[i] == t.arr[k]) g.entry = (int)k;
            const Err& w = p.errs[(size_t)i];
            CHECK(g.entry == w.entry && g.code == w.code && seq(g.arg, w.arg), "error %d is (%s), expected (%s)", i, err_str(t, g).c_str(), err_str(t, w).c_str());
        }
    }
    for (size_t i = 0; i < n; i++) {
        const Spec& e = t.sp[i];
        if (e.k == REM || e.noscan) continue;
        int c = t.count(i);
        if (mask & A_COUNT) CHECK(c == p.count[i], "entry %zu (%s) has count %d, expected %d", i, describe_spec(e).c_str(), c, p.count[i]);
        if (mask & (A_VAL | A_SLOTS))
            for (size_t j = 0; j < p.val[i].size(); j++) {
                bool in = (int)j < p.count[i];
                if (!p.known[i][j]) continue;
                if (in ? !(mask & A_VAL) : !(mask & A_SLOTS)) continue;
                Slot g = t.slot(i, (int)j);
                CHECK(slot_eq(e.k, g, p.val[i][j], (mask & A_PTR) != 0), "entry %zu (%s) slot %zu holds %s, expected %s", i, describe_spec(e).c_str(), j, slot_str(e.k, g).c_str(), slot_str(e.k, p.val[i][j]).c_str());
            }
    }
    (void)pre;
}
static str ev_str(const Ev& e) { char b[80]; snprintf(b, sizeof b, "%c(entry %d, ret %d) ", e.ev, e.entry, e.ret); return b + q(e.val); }
void compare_trace(Tab& t, const std::vector<Ev>& got, const Pred& p, const char* which) {
    std::vector<Ev> a, b;
    for (auto& e : got) if (strchr(which, e.ev)) a.push_back(e);
    for (auto& e : p.trace) if (strchr(which, e.ev)) b.push_back(e);
    for (size_t i = 0; i < a.size() || i < b.size(); i++) {
        if (i >= a.size()) fail("callback trace ends after %zu events, expected next %s", i, ev_str(b[i]).c_str());
        if (i >= b.size()) fail("callback trace has an extra event %zu: %s", i, ev_str(a[i]).c_str());
        bool same = a[i].ev == b[i].ev && a[i].entry == b[i].entry && seq(a[i].val, b[i].val) && a[i].ret == b[i].ret;
        CHECK(same, "callback event %zu is %s, expected %s", i, ev_str(a[i]).c_str(), ev_str(b[i]).c_str());
    }
    (void)t;
}
str describe_spec(const Spec& e) {
    str r = KN[e.k];
    r += " short=" + q(e.sh) + " long=" + q(e.lo);
    char b[80];
    snprintf(b, sizeof b, " min=%d max=%d%s%s", e.mn, e.mx, e.opt ? " optional-value" : "", e.k == CUS ? (e.cval ? " value" : " novalue") : "");
    r += b;
    if (e.pat) r += str(" pattern/format=") + q(e.pat);
    if (e.k == REX && e.rflags) r += " icase";
    return r;
}
void describe(const Tab& t) {
    if (!g_describe) return;
    say("table, error capacity %d:\n", t.cap);
    for (size_t i = 0; i < t.sp.size(); i++) { say("  [%zu] %s datatype=%s glossary=%s\n", i, describe_spec(t.sp[i]).c_str(), q(t.sp[i].dt).c_str(), q(t.sp[i].gl).c_str()); if (i > 60) { say("  ...\n"); break; } }
}
void describe(int argc, char** argv) {
    if (!g_describe) return;
    say("argv (%d):", argc);
    for (int i = 0; i < argc; i++) { say(" %s", q(argv[i]).c_str()); if (i > 200) { say(" ..."); break; } }
    say("\n");
}
uint64_t result_digest(Tab& t, int ret, bool withptr) {
    Hash h;
    h.u((uint64_t)ret);
    h.u((uint64_t)t.end->count);
    for (int i = 0; i < t.end->count; i++) {
        int e = -2;
        if (t.end->parent[i] == (void*)t.end) e = -1;
        else for (size_t k = 0; k < t.sp.size(); k++) if (t.end->parent[i] == t.arr[k]) e = (int)k;
        h.u((uint64_t)e);
        h.u((uint64_t)t.end->error[i]);
        if (withptr) h.u((uint64_t)t.end->argval[i]); else h.z(t.end->argval[i]);
    }
    for (size_t i = 0; i < t.sp.size(); i++) {
        const Spec& e = t.sp[i];
        if (e.k == REM) continue;
        int c = t.count(i);
        h.u((uint64_t)c);
        if (e.k == LIT || e.k == CUS || e.opt) continue;
        for (int j = 0; j < c && j < e.emx(); j++) {
            Slot v = t.slot(i, j);
            h.u((uint64_t)v.i); h.u(v.d);
            if (e.k == STR || e.k == REX || e.k == FIL) { h.z(v.a); h.z(v.b); h.z(v.c); }
            if (e.k == DATE) { int f[] = {v.t.tm_sec, v.t.tm_min, v.t.tm_hour, v.t.tm_mday, v.t.tm_mon, v.t.tm_year, v.t.tm_wday, v.t.tm_yday, v.t.tm_isdst}; h.b(f, sizeof f); }
        }
    }
    return h.h;
}
