// C29: the embedded getopt(), getopt_long() and getopt_long_only(), which replace the system's for the whole program.
#include "val.h"
#include <algorithm>
#include <set>
extern "C" {
struct option { const char* name; int has_arg; int* flag; int val; };
int getopt(int, char* const[], const char*);
int getopt_long(int, char* const*, const char*, const struct option*, int*);
int getopt_long_only(int, char* const*, const char*, const struct option*, int*);
extern int optind, opterr, optopt, optreset;
extern char* optarg;
}
void global_init() {}
namespace {
struct Long { str name; int has; int flag; int val; };      // flag: 0 none, 1 or 2: the caller's first or second variable
struct Job {
    int api = 0;                       // 0 getopt, 1 getopt_long, 2 getopt_long_only
    char prefix = 0;                   // '+', '-' or none
    bool quiet = false;                // options start with ':'
    bool w = false;                    // "W;"
    std::vector<std::pair<char, int>> sh;
    std::vector<Long> lo;
    std::vector<str> av;
    bool posix = false;
    str options() const {
        str o;
        if (prefix) o += prefix;
        if (quiet) o += ':';
        for (auto& x : sh) { o += x.first; o += str((size_t)x.second, ':'); }
        if (w) o += "W;";
        return o;
    }
    int kind(char c) const { for (auto& x : sh) if (x.first == c) return x.second; return w && c == 'W' ? 0 : -1; }
};
struct Ev {                            // one call's result
    int ret = -1;
    int ai = -1; size_t off = 0;       // the argument is element ai from offset off; -1: none
    bool judgeOpt = false; int opt = 0;
    int idx = -1;                      // long option reported, -1: none
    int next = 0;                      // element scanned next, before any reordering
    bool err = false; str names;       // what a message has to name
    int kind = 0;
};
// The whole scan from element `at`: results in order, then the elements passed over
struct Plan { std::vector<Ev> ev; std::vector<int> opts, rest; bool dashes = false; int passedAt = INT_MAX; };
Plan plan(const Job& j, int at) {
    Plan p;
    int n = (int)j.av.size();
    int mode = j.prefix == '-' ? 2 : j.api == 0 || j.prefix == '+' || j.posix ? 1 : 0;     // 0 reorder, 1 stop, 2 in order
    int missing = j.quiet ? ':' : '?';
    auto longopt = [&](const str& body, int el, size_t base, int i, bool alsoShort, Ev& e) -> bool {     // i: element after the option's own
        size_t eq = body.find('=');
        str nm = body.substr(0, eq);
        int m = -1;
        bool amb = false;
        for (size_t k = 0; k < j.lo.size() && m < 0; k++) if (j.lo[k].name == nm) m = (int)k;
        if (m < 0) {
            std::vector<int> c;
            for (size_t k = 0; k < j.lo.size(); k++) if (j.lo[k].name.compare(0, nm.size(), nm) == 0 && !(alsoShort && nm.size() == 1)) c.push_back((int)k);
            if (c.size()) m = c[0];
            for (int k : c) if (k != c[0]) { auto &a = j.lo[(size_t)k], &b = j.lo[(size_t)c[0]]; if (j.api == 2 || a.has != b.has || a.val != b.val || a.flag != b.flag) amb = true; }
        }
        e.next = i;
        if (amb) { e.ret = '?'; e.judgeOpt = true; e.opt = 0; e.err = true; e.names = nm; e.kind = 1; return true; }
        if (m < 0) {
            if (alsoShort) return false;
            e.ret = '?'; e.judgeOpt = true; e.opt = 0; e.err = true; e.names = nm; e.kind = 2;
            return true;
        }
        const Long& l = j.lo[(size_t)m];
        int oo = l.flag ? 0 : l.val;
        if (l.has == 0 && eq != str::npos) { e.ret = '?'; e.judgeOpt = true; e.opt = oo; e.err = true; e.names = nm; e.kind = 3; return true; }
        if (l.has && eq != str::npos) { e.ai = el; e.off = base + eq + 1; }
        else if (l.has == 1) {
            if (i >= n) { e.ret = missing; e.judgeOpt = true; e.opt = oo; e.err = true; e.names = nm; e.kind = 4; return true; }
            e.ai = i; e.off = 0; e.next = i + 1;
        }
        e.idx = m;
        e.ret = l.flag ? 0 : l.val;
        e.kind = 5;
        return true;
    };
    int i = at;
    while (i < n) {
        const str& t = j.av[(size_t)i];
        if (t.size() < 2 || t[0] != '-') {
            if (mode == 1) break;
            if (mode == 2) { Ev e; e.ret = 1; e.ai = i; e.next = i + 1; e.kind = 6; p.ev.push_back(e); p.opts.push_back(i); i++; continue; }
            p.passedAt = std::min(p.passedAt, (int)p.ev.size());
            p.rest.push_back(i++);
            continue;
        }
        if (t == "--") { p.opts.push_back(i++); p.dashes = true; break; }
        int from = i;
        bool two = t[1] == '-', done = false;
        if (j.api && (two || j.api == 2)) {
            Ev e;
            bool also = !two && t[1] != ':' && j.options().find(t[1], j.prefix ? 1 : 0) != str::npos;
            if (longopt(t.substr(two ? 2 : 1), i, two ? 2 : 1, i + 1, also, e)) { p.ev.push_back(e); i = e.next; done = true; }
        }
        if (!done) {
            size_t k = 1;
            i++;
            while (k < t.size()) {
                char c = t[k++];
                Ev e;
                e.next = k < t.size() ? from : i;
                int kd = j.kind(c);
                if (kd < 0) { e.ret = '?'; e.judgeOpt = true; e.opt = (int)c; e.err = true; e.names = str(1, c); e.kind = 7; p.ev.push_back(e); continue; }
                if (c == 'W' && j.w && j.api) {
                    if (k < t.size()) longopt(t.substr(k), from, k, i, false, e);
                    else if (i >= n) { e.ret = missing; e.judgeOpt = true; e.opt = 'W'; e.err = true; e.names = "W"; e.next = i; e.kind = 8; }
                    else longopt(j.av[(size_t)i], i, 0, i + 1, false, e);
                    i = e.next;
                    p.ev.push_back(e);
                    break;
                }
                e.ret = (int)c;
                e.kind = 9;
                if (kd == 0) { p.ev.push_back(e); continue; }
                if (k < t.size()) { e.ai = from; e.off = k; }
                else if (kd == 1) {
                    if (i >= n) { e.ret = missing; e.judgeOpt = true; e.opt = (int)c; e.err = true; e.names = str(1, c); e.kind = 8; }
                    else { e.ai = i++; }
                }
                e.next = i;
                p.ev.push_back(e);
                break;
            }
        }
        for (int x = from; x < i; x++) p.opts.push_back(x);
    }
    for (; i < n; i++) p.rest.push_back(i);
    return p;
}
str name(Src& s, const std::vector<Long>& have) {
    if (have.size() && s.one(2)) {
        str b = have[s.below((unsigned)have.size())].name;
        if (s.one(3)) return b.substr(0, s.below((unsigned)b.size()) + 1);
        return b + s.word(3) + (s.one(4) ? "-x" : "");
    }
    str r = s.one(4) ? s.word(12) : str(1, s.pickc("abcxyvf")) + s.word(4);
    if (s.one(8)) r += s.pickc("-_.0 :+");
    return r;
}
str value(Src& s) {
    switch (s.below(8)) {
        case 0: return "";
        case 1: return "-";
        case 2: return "--";
        case 3: return "-a";
        case 4: return s.text(20);
        default: return s.word(6);
    }
}
Job job(Src& s) {
    Job j;
    j.api = s.one(3) ? (int)s.below(3) : 1;
    if (s.one(5)) j.prefix = s.pickc("+-");
    j.quiet = s.one(2);
    std::set<char> used;
    int n = s.range(0, 7);
    for (int i = 0; i < n; i++) {
        char c = s.one(6) ? s.pickc("0189_=.,+#W\x01\x7e") : s.pickc("abcdxyvfABW");
        if (c == 'W' && (j.w || s.one(2))) continue;
        // a first letter that would be read as a mode prefix
        if (j.sh.empty() && !j.prefix && !j.quiet && (c == '+' || c == '-')) continue;
        if (used.insert(c).second) j.sh.push_back({c, s.one(3) ? 2 : s.range(0, 1)});
    }
    j.w = !used.count('W') && s.one(5);
    if (j.api) {
        n = s.one(20) ? s.range(0, 40) : s.range(0, 7);
        for (int i = 0; i < n; i++) {
            Long l;
            l.name = name(s, j.lo);
            l.has = s.range(0, 2);
            l.flag = s.one(3) ? s.range(1, 2) : 0;
            l.val = s.one(3) ? s.pickc("abcxyzvf") : s.range(l.flag ? -5 : 256, 300);
            if (l.val == -1 && !l.flag) l.val = 2;
            if (i && s.one(4)) { l.has = j.lo.back().has; l.flag = j.lo.back().flag; l.val = j.lo.back().val; }
            j.lo.push_back(l);
        }
        if (s.one(20000)) {                      // a long list
            n = s.one(10) ? s.range(32760, 70000) : s.range(120, 600);
            for (int i = 0; i < n; i++) j.lo.push_back({"opt" + std::to_string(i), s.range(0, 2), 0, 300 + i});
            hit("long lists of long options");
        }
    }
    n = s.one(12) ? s.size(120) : s.range(0, 12);
    int plain = s.pick<int>({10, 35, 35, 80});
    j.av.push_back("prog");
    for (int i = 0; i < n; i++) {
        if (s.pct((unsigned)plain)) { j.av.push_back(s.one(8) ? "-" : s.one(8) ? "" : s.word(5)); continue; }
        str t;
        unsigned r = s.below(24);
        if (r == 0) t = "--";
        else if (r == 1) t = s.text(10);
        else if (r == 2) t = "-" + s.text(6);
        else if (r == 3) t = "--" + s.text(6);
        else if (r < 12 && j.lo.size()) {
            const Long& l = s.pick(j.lo);
            str nm = s.one(3) ? l.name.substr(0, s.below((unsigned)l.name.size() + 1)) : l.name;
            if (s.one(10)) nm += 'q';
            t = (j.api == 2 && s.one(2) ? "-" : j.w && s.one(3) ? s.pick<str>({"-W", "-aW", "-W"}) : "--") + nm;
            if (j.w && s.one(6)) { j.av.push_back("-W"); t = nm; }
            if (s.pct(l.has ? 50 : 8)) t += "=" + value(s);
            else if (l.has == 1 && s.pct(90)) { j.av.push_back(t); t = value(s); }
        } else {
            t = "-";
            int m = s.one(3) ? s.range(1, 6) : 1;
            for (int k = 0; k < m; k++) {
                if (j.sh.empty() || s.one(14)) { t += s.one(4) ? s.pickc(":;-?=") : s.pickc("abcqzW"); continue; }
                auto& x = s.pick(j.sh);
                t += x.first;
                if (x.second && s.one(2)) { t += value(s); break; }
                if (x.second == 1 && k == m - 1 && s.pct(90)) { j.av.push_back(t); t = value(s); }
            }
        }
        j.av.push_back(t);
    }
    // ';' belongs to the "W;" marker and is no option letter
    if (j.w) for (size_t i = 1; i < j.av.size(); i++) std::replace(j.av[i].begin(), j.av[i].end(), ';', ',');
    return j;
}
bool s_done = true, s_posix = false;       // the previous scan of this process ran to its end, and its environment
const char* KIND[] = {"", "ambiguous abbreviations", "unknown long options", "unwanted arguments", "long options without their argument", "long options", "elements in order",
                      "unknown letters", "letters without their argument", "letters"};

void c29(Src& s) {
    s_done = false;                        // a case does not depend on the one before it
    int rounds = s.range(1, 4);
    Hash hh;
    for (int r = 0; r < rounds; r++) {
        Job j = job(s);
        int n = (int)j.av.size();
        std::vector<char*> orig((size_t)n + 1, nullptr);
        for (int i = 0; i < n; i++) orig[(size_t)i] = hold(j.av[(size_t)i]);
        char** av = (char**)holdmem(((size_t)n + 1) * sizeof(char*));
        memcpy(av, orig.data(), ((size_t)n + 1) * sizeof(char*));
        const char* so = hold(j.options());
        auto* lo = (struct option*)holdmem((j.lo.size() + 1) * sizeof(struct option));
        int *flag = (int*)holdmem(sizeof(int)), *flag2 = (int*)holdmem(sizeof(int));
        *flag = *flag2 = -77;
        for (size_t i = 0; i < j.lo.size(); i++) lo[i] = {hold(j.lo[i].name), j.lo[i].has, j.lo[i].flag == 1 ? flag : j.lo[i].flag ? flag2 : nullptr, j.lo[i].val};
        lo[j.lo.size()] = {nullptr, 0, nullptr, 0};
        j.posix = s.one(6);
        // three ways to start again
        int how = s.range(0, 2), at = 1;
        if (how == 2 && (!s_done || s_posix != j.posix)) how = 0;
        if (j.posix) setenv("POSIXLY_CORRECT", s.one(2) ? "1" : s.pick<str>({"", "0", "no", "false", "n", " ", "off", "00", "N", "FALSE", "-", "x"}).c_str(), 1); else unsetenv("POSIXLY_CORRECT");
        struct Un { ~Un() { unsetenv("POSIXLY_CORRECT"); } } un;
        if (how == 0) { optind = 0; if (s.one(2)) optreset = 0; }
        else if (how == 1) { at = s.one(3) && n > 1 ? s.range(1, n) : 1; optind = at; optreset = 1; }
        else optind = 1;
        s_posix = j.posix;
        s_done = false;
        opterr = (int)s.below(2);
        bool wantMsg = opterr && !j.quiet;
        if (g_describe) {
            say("%s options %s start %d (%s)%s opterr %d\n", j.api == 0 ? "getopt" : j.api == 1 ? "getopt_long" : "getopt_long_only", q(j.options()).c_str(), at, how == 0 ? "optind=0" : how == 1 ? "optreset" : "optind=1", j.posix ? " POSIXLY_CORRECT" : "", opterr);
            for (auto& l : j.lo) say("  --%s has_arg=%d flag=%d val=%d\n", l.name.c_str(), l.has, l.flag, l.val);
            str a;
            for (auto& x : j.av) a += " " + q(x);
            say(" %s\n", a.c_str());
        }
        Plan p = plan(j, at);
        int stop = s.one(5) ? (int)s.below((unsigned)p.ev.size() + 1) : INT_MAX;       // abandon the scan here
        bool reorder = !(j.prefix == '-' || j.api == 0 || j.prefix == '+' || j.posix);
        bool withIdx = !s.one(4);
        int flagv = -77, flagv2 = -77;
        auto call = [&](int& idx) {
            return j.api == 0 ? getopt(n, av, so) : j.api == 1 ? getopt_long(n, av, so, lo, withIdx ? &idx : nullptr) : getopt_long_only(n, av, so, lo, withIdx ? &idx : nullptr);
        };
        bool watch = opterr && (wantMsg ? s.one(3) : s.one(20));
        size_t k = 0;
        for (;; k++) {
            if ((int)k == stop) break;
            int idx = -99, ret = 0;
            str msg;
            bool cap = watch && k < 4;
            if (cap) msg = from_fds([&] { ret = call(idx); });
            else {
                if (wantMsg && (k < p.ev.size() ? p.ev[k].err : true)) opterr = 0;     // no noise
                ret = call(idx);
                if (wantMsg) opterr = 1;
            }
            bool end = k >= p.ev.size();
            Ev e = end ? Ev() : p.ev[k];
            CHECK(ret == e.ret, "call %zu returned %d, expected %d (%s)", k, ret, e.ret, KIND[e.kind]);
            if (cap) {
                if (!e.err || !wantMsg) CHECK(msg.empty(), "call %zu printed %s", k, q(msg).c_str());
                else {
                    size_t nl = 0;
                    for (char c : e.names) nl += c == '\n';
                    CHECK(msg.size() && msg.back() == '\n', "call %zu: no message for a rejected option", k);
                    CHECK(msg.find(e.names) != str::npos, "call %zu: the message %s does not name %s", k, q(msg).c_str(), q(e.names).c_str());
                    hit("messages checked");
                }
            }
            if (end) break;
            // the argument: a pointer into the caller's own strings
            const char* want = e.ai < 0 ? nullptr : orig[(size_t)e.ai] + e.off;
            if (!e.err) CHECK(optarg == want, "call %zu (%s): argument is %s, expected %s", k, KIND[e.kind], optarg ? q(optarg).c_str() : "none", want ? q(want).c_str() : "none");
            if (e.judgeOpt) CHECK(optopt == e.opt, "call %zu (%s): optopt is %d, expected %d", k, KIND[e.kind], optopt, e.opt);
            if (withIdx) CHECK(idx == (e.idx < 0 ? -99 : e.idx), "call %zu (%s): index %d, expected %d", k, KIND[e.kind], idx, e.idx < 0 ? -99 : e.idx);
            if (e.idx >= 0 && j.lo[(size_t)e.idx].flag) (j.lo[(size_t)e.idx].flag == 1 ? flagv : flagv2) = j.lo[(size_t)e.idx].val;
            CHECK(*flag == flagv && *flag2 == flagv2, "call %zu: the caller's flags are %d and %d, expected %d and %d", k, *flag, *flag2, flagv, flagv2);
            if (!reorder || (int)k < p.passedAt) CHECK(optind == e.next, "call %zu (%s): optind is %d, expected %d", k, KIND[e.kind], optind, e.next);
            hit(KIND[e.kind]);
            hh.u((uint64_t)(unsigned)e.ret); hh.u((uint64_t)e.kind); hh.u((uint64_t)e.ai);
        }
        // the strings are the caller's, and each element is there once
        for (int i = 0; i < n; i++) CHECK(j.av[(size_t)i] == orig[(size_t)i], "string %d of the vector was changed to %s", i, q(orig[(size_t)i]).c_str());
        CHECK(av[n] == nullptr, "the end of the vector was overwritten");
        if ((int)k == stop) {
            std::vector<char*> a(av, av + n), b(orig.begin(), orig.end() - 1);
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            CHECK(a == b, "an abandoned scan lost or doubled elements of the vector");
            hit("scans abandoned");
            hh.u(7);
            if (s.one(3)) {                    // a parse by argtable3 starts afresh
                struct arg_lit *a1 = arg_litn("a", NULL, 0, 3, NULL), *b1 = arg_litn(NULL, "bee", 0, 3, NULL);
                struct arg_str* r1 = arg_strn(NULL, NULL, NULL, 0, 3, NULL);
                struct arg_end* e1 = arg_end(5);
                void* tb[] = {a1, b1, r1, e1};
                char* v[] = {hold("p"), hold("-aa"), hold("one"), hold("--bee"), nullptr};
                if (j.posix) unsetenv("POSIXLY_CORRECT");
                int er = arg_parse(4, v, tb), ok = a1->count == 2 && b1->count == 1 && r1->count == 1 && !strcmp(r1->sval[0], "one");
                arg_freetable(tb, 4);
                CHECK(er == 0 && ok, "a parse after an abandoned scan gave another result");
                hit("parses after an abandoned scan");
            }
            continue;
        }
        s_done = true;
        // where the scan ended and in which order it left the vector
        std::vector<int> order;
        for (int i = 0; i < at; i++) order.push_back(i);
        order.insert(order.end(), p.opts.begin(), p.opts.end());
        order.insert(order.end(), p.rest.begin(), p.rest.end());
        CHECK((int)order.size() == n, "harness: order");
        CHECK(optind == at + (int)p.opts.size(), "the scan ended at %d, expected %d", optind, at + (int)p.opts.size());
        for (int i = 0; i < n; i++) CHECK(av[i] == orig[(size_t)order[(size_t)i]], "element %d is %s after the scan, expected %s", i, q(av[i]).c_str(), q(orig[(size_t)order[(size_t)i]]).c_str());
        bool dash = false;
        for (int i : p.rest) dash = dash || j.av[(size_t)i][0] == '-';
        if (!(dash || (p.rest.size() && j.prefix == '-'))) {
            int idx = -99, ret, at2 = optind;
            ret = call(idx);
            CHECK(ret == -1 && optind == at2, "after the end another call returned %d, optind %d", ret, optind);
        }
        hit("scans checked to the end");
        if (p.passedAt != INT_MAX && p.passedAt < (int)p.ev.size()) hit("scans that reordered the vector");
        hh.u(p.rest.size());
    }
    sig(hh.h);
    optind = 0;
    opterr = 0;
}
}  // namespace
const Prop g_props[] = {{"C29", c29}, {nullptr, nullptr}};
