#include "val.h"
#include <cmath>

// =============================================================== integers
IntRes ref_int(const char* s, int& v) {
    while (ws(*s)) s++;
    bool neg = false;
    if (*s == '+' || *s == '-') neg = *s++ == '-';
    int base = 10;
    if (s[0] == '0') {
        char c = s[1];
        if (c == 'x' || c == 'X') base = 16;
        else if (c == 'o' || c == 'O') base = 8;
        else if (c == 'b' || c == 'B') base = 2;
        if (base != 10) s += 2;
    }
    auto dig = [&](char c) -> int {
        int d = (c >= '0' && c <= '9') ? c - '0' : (c >= 'a' && c <= 'f') ? c - 'a' + 10 : (c >= 'A' && c <= 'F') ? c - 'A' + 10 : 99;
        return d < base ? d : -1;
    };
    if (dig(*s) < 0) return INT_BAD;
    const __int128 BIG = (__int128)1 << 100;
    __int128 m = 0;
    for (; dig(*s) >= 0; s++) if (m < BIG) m = m * base + dig(*s);
    int shift = 0;
    if (*s && (s[1] == 'B' || s[1] == 'b')) {
        char c = *s;
        if (c == 'K' || c == 'k') shift = 10;
        else if (c == 'M' || c == 'm') shift = 20;
        else if (c == 'G' || c == 'g') shift = 30;
        if (shift) s += 2;
    }
    while (ws(*s)) s++;
    if (*s) return INT_BAD;
    if (m >= BIG) return INT_OVER;
    m <<= shift > 20 ? 20 : shift;
    if (shift > 20) { if (m >= BIG) return INT_OVER; m <<= (shift - 20); }
    if (neg) m = -m;
    if (m > INT_MAX || m < INT_MIN) return INT_OVER;
    v = (int)m;
    return INT_OK;
}
static str in_base(unsigned long long m, int base, Src& s) {
    str d;
    do { int k = (int)(m % (unsigned)base); d = str(1, s.one(2) ? "0123456789abcdef"[k] : "0123456789ABCDEF"[k]) + d; m /= (unsigned)base; } while (m);
    return d;
}
str gen_int(Src& s, bool valid) {
    static const char* wss[] = {"", "", "", "", " ", "\t", "  ", "\n", "\v", "\r\f"};
    str t;
    if (s.one(6)) t += wss[s.below(10)];
    unsigned sg = s.below(5);
    if (sg == 0) t += "-"; else if (sg == 1) t += "+";
    int base = 10;
    switch (s.below(8)) { case 0: case 1: base = 16; break; case 2: base = 8; break; case 3: base = 2; break; }
    int sh = 0;
    switch (s.below(8)) { case 0: sh = 10; break; case 1: sh = 20; break; case 2: sh = 30; break; }
    unsigned long long m;
    unsigned long long lim = (1ull << 31) >> sh;
    switch (s.below(9)) {
        case 0: m = lim + (unsigned long long)(long long)s.range(-2, 2); if (lim < 2 && (long long)m < 0) m = 0; break;
        case 1: m = s.raw() >> s.below(64); break;
        case 2: m = s.below(10); break;
        case 3: m = (unsigned)s.magic(); break;
        case 4: m = s.below(1000); break;
        case 5: m = (1ull << s.below(64)) + (unsigned long long)(long long)s.range(-1, 1); break;
        case 6: m = s.raw() % (lim + 1); break;
        default: m = s.raw() % (2 * lim + 2); break;
    }
    if (base == 16) t += s.one(2) ? "0x" : "0X";
    if (base == 8) t += s.one(2) ? "0o" : "0O";
    if (base == 2) t += s.one(2) ? "0b" : "0B";
    if (s.one(6)) t += str((size_t)s.size(s.one(20) ? 5000 : 40), '0');
    // a leading zero would turn 0b.. into a prefix when the base is ten: 00b1 is not, 0b1 is
    t += in_base(m, base, s);
    if (s.one(20)) t += in_base(s.raw(), base, s);
    if (s.one(60)) t += in_base(s.raw(), base, s) + in_base(s.raw(), base, s);
    if (sh) { t += s.one(2) ? "KMG"[sh / 10 - 1] : "kmg"[sh / 10 - 1]; t += s.one(2) ? 'B' : 'b'; }
    if (s.one(6)) t += wss[s.below(10)];
    if (valid) return t;
    // damage it
    int k = s.range(1, 2);
    while (k--) {
        size_t at = t.size() ? s.below((unsigned)t.size() + 1) : 0;
        switch (s.below(7)) {
            case 0: t.insert(at, 1, s.pickc("0123456789abcdefxXoObBkKmMgG+-. \t_,")); break;
            case 1: if (t.size()) t.erase(at % t.size(), 1); break;
            case 2: if (t.size()) t[at % t.size()] = s.pickc("0123456789abcdefxXoObBkKmMgG+-. \t"); break;
            case 3: t += s.pick<str>({"K", "B", "KB", "KBB", "TB", "KBMB", " KB", "kB ", "MB1", "x", ".", ".0", "e3", "L", "u", "gb", "0"}); break;
            case 4: t = s.pick<str>({"", " ", "+", "-", "0x", "0X", "0o", "0b", "0b2", "0o8", "0xg", "--1", "+-1", "- 1", "0x 1", "0x-1", "0x+1", "0x0x1", "0b0b1", "00x1", "KB", "0KB", "0xKB", "0bKB", "x1", "1 2", "\n", "1e3", "1.0"}); break;
            case 5: t = s.text(30); break;
            default: t.insert(at, s.pick<str>({"0x", "0b", "0o", "-", "+", " "})); break;
        }
    }
    return t;
}

// =============================================================== doubles
static bool dgt(char c) { return c >= '0' && c <= '9'; }
static bool xdg(char c) { return dgt(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool ieq(const char*& p, const char* w) {
    const char* x = p;
    for (; *w; w++, x++) if ((*x | 32) != *w || !((*x >= 'a' && *x <= 'z') || (*x >= 'A' && *x <= 'Z'))) return false;
    p = x;
    return true;
}
bool ref_dbl(const char* t, double& v) {
    const char* p = t;
    while (ws(*p)) p++;
    if (*p == '+' || *p == '-') p++;
    if (ieq(p, "infinity") || ieq(p, "inf")) {
    } else if (ieq(p, "nan")) {
        if (*p == '(') {
            const char* x = p + 1;
            while (dgt(*x) || (*x >= 'a' && *x <= 'z') || (*x >= 'A' && *x <= 'Z') || *x == '_') x++;
            if (*x == ')') p = x + 1;
        }
    } else if (p[0] == '0' && (p[1] | 32) == 'x' && (xdg(p[2]) || (p[2] == '.' && xdg(p[3])))) {
        p += 2;
        while (xdg(*p)) p++;
        if (*p == '.') { p++; while (xdg(*p)) p++; }
        if ((*p | 32) == 'p') {
            const char* x = p + 1;
            if (*x == '+' || *x == '-') x++;
            if (dgt(*x)) { while (dgt(*x)) x++; p = x; }
        }
    } else if (dgt(*p) || (*p == '.' && dgt(p[1]))) {
        while (dgt(*p)) p++;
        if (*p == '.') { p++; while (dgt(*p)) p++; }
        if ((*p | 32) == 'e') {
            const char* x = p + 1;
            if (*x == '+' || *x == '-') x++;
            if (dgt(*x)) { while (dgt(*x)) x++; p = x; }
        }
    } else return false;
    if (*p) return false;
    v = strtod(t, nullptr);
    return true;
}
str gen_dbl(Src& s, bool valid) {
    str t;
    if (s.one(6)) t += s.one(20) ? str((size_t)s.size(600), s.pickc(" \t\n")) : s.pick<str>({" ", "\t", "\n ", "\v\f\r"});
    if (s.one(3)) t += s.one(2) ? "-" : "+";
    auto digs = [&](const char* pool, int mx) { int n = s.size(s.one(40) ? 5000 : mx); if (s.one(30)) return str((size_t)n, s.pickc("01")); str r; for (int i = 0; i < n; i++) r += s.pickc(pool); return r; };
    auto ex = [&]() { str r; if (s.one(2)) r += s.one(2) ? "-" : "+"; switch (s.below(4)) { case 0: r += std::to_string(s.below(400)); break; case 1: r += std::to_string(s.range(300, 330)); break; default: r += std::to_string(s.below(30)); } return r; };
    switch (s.below(12)) {
        case 0: t += s.pick<str>({"inf", "INF", "Infinity", "infinity", "nan", "NaN", "nan()", "nan(12)", "nan(0x1f)", "nan(_a9)"}); break;
        case 1: case 2: { str a = digs("0123456789abcdefABCDEF", 20), b = s.one(2) ? "." + digs("0123456789abcdefABCDEF", 20) : ""; if (a.empty() && b.size() < 2) a = "1"; t += (s.one(2) ? "0x" : "0X") + a + b; if (s.one(2)) t += (s.one(2) ? "p" : "P") + ex(); break; }
        case 3: { char b[64]; uint64_t r = s.raw() << 32 ^ s.raw(); double d; memcpy(&d, &r, 8); snprintf(b, sizeof b, s.one(2) ? "%.17g" : "%a", d); t += b[0] == '-' ? b + 1 : b; break; }
        case 4: { char b[400]; snprintf(b, sizeof b, "%.*f", s.range(0, 30), (double)(s.raw() >> 11) / (double)(1ull << s.below(60))); t += b; break; }
        case 5: t += s.pick<str>({"0", "0.0", "1e400", "1e-400", "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623157e308", "1.7976931348623159e308", "9007199254740993", "9007199254740992.5", "0.1", "16777217", "16777216.5", "3.4028236e38", "1e-46"}); break;
        default: { str a = digs("0123456789", 40), b = s.one(2) ? "." + digs("0123456789", 40) : ""; if (a.empty() && b.size() < 2) a = "7"; t += a + b; if (s.one(2)) t += (s.one(2) ? "e" : "E") + ex(); break; }
    }
    if (valid) return t;
    int k = s.range(1, 2);
    while (k--) {
        size_t at = t.size() ? s.below((unsigned)t.size() + 1) : 0;
        switch (s.below(6)) {
            case 0: t.insert(at, 1, s.pickc("0123456789eExXpP.+- \tinfa()_,")); break;
            case 1: if (t.size()) t.erase(at % t.size(), 1); break;
            case 2: t += s.pick<str>({" ", "\n", "f", "L", "e", "e+", ".", "x", "0", ",0", "(", "inity", "KB"}); break;
            case 3: t = s.pick<str>({"", " ", ".", "+", "-", "e5", "0x", "0x.", "0xp1", "1e", "1e+", "in", "na", "nan(", "nan(-)", "infi", "infinit", "- 1", "++1", ".e1", "0x1p", "1..0", "1,5"}); break;
            case 4: t = s.text(30); break;
            default: if (t.size()) t[at % t.size()] = s.pickc("0123456789eExXpP.+- "); break;
        }
    }
    return t;
}

// =============================================================== files
void ref_file(const char* t, size_t& base, size_t& ext) {
    str x = t;
    size_t sl = x.rfind('/');
    base = sl == str::npos ? 0 : sl + 1;
    str b = x.substr(base);
    if (b == "." || b == "..") base = x.size(), b = "";
    size_t d = b.rfind('.');
    if (d == str::npos || d == 0 || d + 1 == b.size()) ext = x.size();
    else ext = base + d;
}
str gen_file(Src& s) {
    if (s.one(6)) return s.text(400);
    str t;
    int n = s.range(0, 8);
    for (int i = 0; i < n; i++) t += s.pick<str>({"/", ".", "..", "foo", "bar.c", "a", ".", "/", "\\", "c:", "tar.gz", " ", "-", "./", "../", "//", "x."});
    if (s.one(30)) t = str((size_t)s.size(3000), s.pickc("./a")) + t;
    return t;
}

// =============================================================== dates
bool tm_eq(const struct tm& a, const struct tm& b) {
    return a.tm_sec == b.tm_sec && a.tm_min == b.tm_min && a.tm_hour == b.tm_hour && a.tm_mday == b.tm_mday && a.tm_mon == b.tm_mon &&
           a.tm_year == b.tm_year && a.tm_wday == b.tm_wday && a.tm_yday == b.tm_yday && a.tm_isdst == b.tm_isdst;
}
str tm_str(const struct tm& t) {
    char b[200];
    snprintf(b, sizeof b, "{sec %d min %d hour %d mday %d mon %d year %d wday %d yday %d isdst %d}", t.tm_sec, t.tm_min, t.tm_hour, t.tm_mday, t.tm_mon,
             t.tm_year, t.tm_wday, t.tm_yday, t.tm_isdst);
    return b;
}
static const char* const DAYS[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
static const char* const MONS[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool pre(const char* t, const str& w) { for (size_t i = 0; i < w.size(); i++) if (low(t[i]) != low(w[i])) return false; return true; }
// a number of at most `nd` digits in lo..hi; digits stop as soon as one more could not stay within hi
static bool num(const char*& t, int lo, int hi, int& v) {
    if (!dgt(*t)) return false;
    int nd = 0;
    for (int h = hi; h; h /= 10) nd++;
    if (!nd) nd = 1;
    int r = 0, n = 0;
    while (dgt(*t) && n < nd) {
        if (n && r * 10 > hi) break;
        r = r * 10 + (*t++ - '0');
        n++;
    }
    if (r < lo || r > hi) return false;
    v = r;
    return true;
}
static bool name(const char*& t, const char* const* list, int n, int& v) {
    for (int i = 0; i < n; i++) {
        str full = list[i];
        if (pre(t, full)) { t += full.size(); v = i; return true; }
        if (pre(t, full.substr(0, 3))) { t += 3; v = i; return true; }
    }
    return false;
}
static bool datei(const char*& t, const char* f, struct tm& m) {
    bool cent = false, yy = false;
    int century = 0, yr = 0;
    for (; *f; f++) {
        if (ws(*f)) { while (ws(*t)) t++; continue; }
        if (*f != '%') { if (*t != *f) return false; t++; continue; }
        f++;
        char alt = 0;
        if (*f == 'E' || *f == 'O') { alt = *f++; if (*f == 'E' || *f == 'O') return false; }
        char c = *f;
        if (!c) return false;
        bool okE = strchr("cXxCYy", c), okO = strchr("deHIMmSUWwy", c);
        if (alt == 'E' && !okE) { if (c != '%') return false; }
        if (alt == 'O' && !okO) { if (c != '%') return false; }
        int v = 0;
        switch (c) {
            case '%': if (*t != '%') return false; t++; break;
            case 'c': if (!datei(t, "%m/%d/%y %H:%M:%S", m)) return false; break;
            case 'D': case 'x': if (!datei(t, "%m/%d/%y", m)) return false; break;
            case 'R': if (!datei(t, "%H:%M", m)) return false; break;
            case 'r': if (!datei(t, "%I:%M:%S %p", m)) return false; break;
            case 'T': case 'X': if (!datei(t, "%H:%M:%S", m)) return false; break;
            case 'A': case 'a': if (!name(t, DAYS, 7, v)) return false; m.tm_wday = v; break;
            case 'B': case 'b': case 'h': if (!name(t, MONS, 12, v)) return false; m.tm_mon = v; break;
            case 'C': if (!num(t, 0, 99, v)) return false; cent = true; century = v; m.tm_year = century * 100 + (yy ? yr : 0) - 1900; break;
            case 'd': case 'e': if (!num(t, 1, 31, v)) return false; m.tm_mday = v; break;
            case 'k': case 'H': if (!num(t, 0, 23, v)) return false; m.tm_hour = v; break;
            case 'l': case 'I': if (!num(t, 1, 12, v)) return false; m.tm_hour = v % 12; break;
            case 'j': if (!num(t, 1, 366, v)) return false; m.tm_yday = v - 1; break;
            case 'M': if (!num(t, 0, 59, v)) return false; m.tm_min = v; break;
            case 'm': if (!num(t, 1, 12, v)) return false; m.tm_mon = v - 1; break;
            case 'p':
                if (pre(t, "AM")) { if (m.tm_hour > 11) return false; }
                else if (pre(t, "PM")) { if (m.tm_hour > 11) return false; m.tm_hour += 12; }
                else return false;
                t += 2;
                break;
            case 'S': if (!num(t, 0, 61, v)) return false; m.tm_sec = v; break;
            case 'U': case 'W': if (!num(t, 0, 53, v)) return false; break;
            case 'w': if (!num(t, 0, 6, v)) return false; m.tm_wday = v; break;
            case 'Y': if (!num(t, 0, 9999, v)) return false; m.tm_year = v - 1900; break;
            case 'y':
                if (!num(t, 0, 99, v)) return false;
                yy = true; yr = v;
                m.tm_year = cent ? century * 100 + v - 1900 : v <= 68 ? v + 100 : v;
                break;
            case 'n': case 't': while (ws(*t)) t++; break;
            default: return false;
        }
    }
    return true;
}
bool ref_date(const char* text, const char* fmt, struct tm& tm) {
    struct tm m = tm;
    if (!datei(text, fmt, m) || *text) return false;
    tm = m;
    return true;
}
// Formats: each of the year-forming conversions at most once (C and y may be combined), everything else free.
str gen_datefmt(Src& s) {
    if (s.one(4)) return s.pick<str>({"%Y-%m-%d", "%H:%M", "%H:%M:%S", "%Y-%m-%d %H:%M:%S", "%x", "%D", "%c", "%r", "%I:%M %p", "%d %b %Y", "%A, %d %B %Y", "%R", "%T", "%C%y", "%y%C", "%j", "%Y%m%d", "%I%p", "%p%I", "%y-%m-%dT%T"});
    static const char* conv = "AaBbhdeHIklMmpSUWwjntDRTrXx%cCyY";
    str f;
    bool year = false, cc = false, y2 = false;
    int n = s.range(1, 7);
    for (int i = 0; i < n; i++) {
        if (i && s.pct(75)) { str z = s.pick<str>({"-", "/", ":", " ", ".", ",", "T", "  ", "\t", "x", ", ", "\n"}); f += z; }
        char c = conv[s.below((unsigned)strlen(conv))];
        if (c == 'Y' || c == 'D' || c == 'x' || c == 'c') { if (year || cc || y2) { c = 'd'; } else year = true; }
        if (c == 'C') { if (year || cc) c = 'M'; else cc = true; }
        if (c == 'y') { if (year || y2) c = 'S'; else y2 = true; }
        f += '%';
        if (s.one(12)) {
            const char *e = "cXxCYy", *o = "deHIMmSUWwy";
            if (strchr(e, c) && s.one(2)) f += 'E';
            else if (strchr(o, c)) f += 'O';
            if (s.one(6)) f += s.one(2) ? 'E' : 'O';
        }
        f += c;
    }
    if (s.one(40)) f += s.pick<str>({"%Q", "%", "%F", "%E", "%EEy", "%N", "%Ez"});
    return f;
}
str gen_date(Src& s, const char* fmt, bool valid) {
    str t;
    auto recase = [&](str w) { int k = (int)s.below(4); for (auto& c : w) { if (k == 1) c = low(c); else if (k == 2) c = (char)toupper(c); else if (k == 3 && s.one(2)) c = s.one(2) ? low(c) : (char)toupper(c); } return w; };
    auto numt = [&](int lo, int hi, int w) {
        int v;
        switch (s.below(8)) { case 0: v = lo; break; case 1: v = hi; break; case 2: v = valid ? lo : lo - 1; break; case 3: v = valid ? hi : hi + 1; break; default: v = s.range(lo, hi); }
        if (v < 0) v = 0;
        char b[32];
        snprintf(b, sizeof b, s.pct(75) ? "%0*d" : "%*.0d", s.pct(75) ? w : 0, v);
        if (!*b) snprintf(b, sizeof b, "%d", v);
        return str(b);
    };
    std::function<void(const char*)> go = [&](const char* f) {
        for (; *f; f++) {
            if (ws(*f)) { if (s.pct(70)) t += *f; else if (s.one(2)) t += s.pick<str>({"", "  ", "\t", " \n "}); continue; }
            if (*f != '%') { t += *f; continue; }
            f++;
            if (*f == 'E' || *f == 'O') f++;
            switch (*f) {
                case '%': t += '%'; break;
                case 'c': go("%m/%d/%y %H:%M:%S"); break;
                case 'D': case 'x': go("%m/%d/%y"); break;
                case 'R': go("%H:%M"); break;
                case 'r': go("%I:%M:%S %p"); break;
                case 'T': case 'X': go("%H:%M:%S"); break;
                case 'A': case 'a': { str w = DAYS[s.below(7)]; if (s.one(2)) w = w.substr(0, 3); t += recase(w); break; }
                case 'B': case 'b': case 'h': { str w = MONS[s.below(12)]; if (s.one(2)) w = w.substr(0, 3); t += recase(w); break; }
                case 'C': case 'y': t += numt(0, 99, 2); break;
                case 'd': case 'e': t += numt(1, 31, 2); break;
                case 'k': case 'H': t += numt(0, 23, 2); break;
                case 'l': case 'I': t += numt(1, 12, 2); break;
                case 'j': t += numt(1, 366, 3); break;
                case 'M': t += numt(0, 59, 2); break;
                case 'm': t += numt(1, 12, 2); break;
                case 'p': t += recase(s.one(2) ? "AM" : "PM"); break;
                case 'S': t += numt(0, 61, 2); break;
                case 'U': case 'W': t += numt(0, 53, 2); break;
                case 'w': t += numt(0, 6, 1); break;
                case 'Y': t += numt(0, 9999, 4); break;
                case 'n': case 't': if (s.one(2)) t += s.pickc(" \t\n"); break;
                case 0: return;
                default: break;
            }
        }
    };
    go(fmt);
    if (valid) return t;
    int k = (int)s.below(3);
    while (k--) {
        size_t at = t.size() ? s.below((unsigned)t.size() + 1) : 0;
        switch (s.below(6)) {
            case 0: t.insert(at, 1, s.pickc("0123456789 :/-apmAPM")); break;
            case 1: if (t.size()) t.erase(at % t.size(), 1); break;
            case 2: if (t.size()) t[at % t.size()] = s.pickc("0123456789 :/-apmJFM"); break;
            case 3: t += s.pick<str>({" ", "0", "x", "Z", " AM", "\n"}); break;
            case 4: t = s.text(30); break;
            default: if (t.size()) t.resize(at % t.size()); break;
        }
    }
    return t;
}

// =============================================================== regular expressions
static CS cc_set(char k) {
    CS r;
    for (int c = 0; c < 128; c++) {
        bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', d = c >= '0' && c <= '9';
        bool v = false;
        switch (k | 32) {
            case 'a': v = up || lo; break;
            case 'w': v = up || lo || d || c == '_'; break;
            case 's': v = ws((char)c); break;
            case 'd': v = d; break;
            case 'x': v = d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); break;
            case 'c': v = c < 32 || c == 127; break;
            case 'p': v = c > 32 && c < 127 && !up && !lo && !d; break;
            case 'l': v = lo; break;
            case 'u': v = up; break;
        }
        r[(size_t)c] = v;
    }
    if (k >= 'A' && k <= 'Z') r.flip();
    r[0] = false;
    return r;
}
static CS fold(CS a) {
    for (int c = 'a'; c <= 'z'; c++) { bool v = a[(size_t)c] || a[(size_t)c - 32]; a[(size_t)c] = v; a[(size_t)c - 32] = v; }
    return a;
}
static const char* ESC = "\\^$.|?*+()[]{}-";
static str lit(Src& s, char c, bool incls) {
    if (c == '\n') return "\\n";
    if (c == '\t') return "\\t";
    if (c == '\r') return "\\r";
    if (c == '\f') return "\\f";
    if (c == '\v') return "\\v";
    if (strchr(ESC, c)) { if (c == '-' && !incls) return "-"; return str("\\") + c; }
    if (s.one(25) && strchr("!@#%&_=~:;'\"<>,/ ", c)) return str("\\") + c;
    return str(1, c);
}
struct RxGen {
    Src& s;
    bool icase;
    int left;      // node budget
    int quants = 0;
    str pool;
    bool anchors;  // word boundaries allowed
    RxP atomset() {
        auto n = std::make_shared<RxNode>();
        unsigned k = s.below(20);
        if (k < 10) {
            char c = s.one(25) ? s.pickc("\n\t\r\f\v") : s.pickc(pool.c_str());
            n->src = lit(s, c, false);
            n->cs[(unsigned char)c] = true;
            if (icase) n->cs = fold(n->cs);
        } else if (k == 10) {
            n->src = ".";
            n->cs.set();
            n->cs[0] = false;
        } else if (k < 13) {
            char c = s.pickc(icase ? "aAwWsSdDxXcCpP" : "aAwWsSdDxXcCpPlu");
            n->src = str("\\") + c;
            n->cs = cc_set(c);
        } else {
            bool neg = s.one(4);
            str b = neg ? "[^" : "[";
            CS set;
            int m = s.range(1, 4);
            if (s.one(12)) { b += "-"; set[(unsigned char)'-'] = true; }                  // and so it is in front
            for (int i = 0; i < m; i++) {
                unsigned z = s.below(5);
                if (z == 0) {
                    char c = s.pickc(icase ? "aAwWsSdDxXpP" : "aAwWsSdDxXpPlu");
                    b += str("\\") + c;
                    set |= cc_set(c);
                    // the next item must not be a '-': ranges after a class are an error by design
                } else if (z == 1) {
                    CS r;
                    if (s.one(3)) {
                        // any two characters, written as they are or escaped
                        static const str all = "\t\n\v\f\r !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
                        size_t x = s.below((unsigned)all.size()), y = s.one(2) ? s.below((unsigned)all.size()) : std::min(all.size() - 1, x + s.below(6));
                        if (x > y) std::swap(x, y);
                        for (int c = (unsigned char)all[x]; c <= (unsigned char)all[y]; c++) r[(size_t)c] = true;
                        if (icase) r = fold(r);
                        b += lit(s, all[x], true) + "-" + lit(s, all[y], true);
                        set |= r;
                        if (s.one(4)) { b += "-"; set[(unsigned char)'-'] = true; }     // after a range a dash is a dash
                        continue;
                    }
                    const char* base = s.pick<const char*>({"abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZ", "0123456789"});
                    int L = (int)strlen(base), x = s.range(0, L - 1), y = s.range(x, L - 1);
                    if (s.one(10)) y = x;
                    b += base[x]; b += '-'; b += base[y];
                    for (int i2 = x; i2 <= y; i2++) r[(unsigned char)base[i2]] = true;
                    if (icase) r = fold(r);
                    set |= r;
                    if (s.one(6)) { b += "-"; set[(unsigned char)'-'] = true; }
                } else {
                    char c = s.one(15) ? s.pickc("\n\t\r\f\v") : s.pickc((pool + "-]^\\").c_str());
                    b += lit(s, c, true);
                    CS r;
                    r[(unsigned char)c] = true;
                    if (icase) r = fold(r);
                    set |= r;
                }
            }
            b += "]";
            n->src = b;
            if (neg) { set.flip(); set[0] = false; }
            n->cs = set;
        }
        return n;
    }
    void quant(RxNode& n) {
        quants++;
        n.quant = true;
        auto num = [&](int v) { return (s.one(20) ? str((size_t)s.range(1, 3), '0') : str()) + std::to_string(v); };
        if (s.one(25)) {
            // unusual bounds: larger ones, none at all, an upper bound below the lower one
            bool one = n.t == RxNode::SET;
            switch (s.below(4)) {
                case 0: n.lo = one ? s.pick<int>({9, 10, 11, 99, 100, 127, 128, 255, 256, 257, 300}) : s.range(8, 12); n.hi = s.one(3) ? -1 : n.lo + (s.one(2) ? 0 : s.range(1, 4)); break;
                case 1: n.lo = s.range(0, 2); n.hi = one ? s.pick<int>({9, 10, 12, 100, 128, 255, 256, 300}) : s.range(8, 12); break;
                case 2: n.lo = n.hi = 0; break;
                default: n.lo = s.range(2, 6); n.hi = s.range(0, n.lo - 1); break;
            }
            n.qsrc = "{" + num(n.lo) + (n.lo == n.hi && s.one(2) ? "" : "," + (n.hi < 0 ? str() : num(n.hi))) + "}";
            return;
        }
        switch (s.below(9)) {
            case 0: case 1: n.lo = 0; n.hi = -1; n.qsrc = "*"; break;
            case 2: case 3: n.lo = 1; n.hi = -1; n.qsrc = "+"; break;
            case 4: n.lo = 0; n.hi = 1; n.qsrc = "?"; break;
            case 5: n.lo = n.hi = s.range(1, 5); n.qsrc = "{" + std::to_string(n.lo) + "}"; break;
            case 6: n.lo = s.range(0, 3); n.hi = n.lo + s.range(0, 3); if (!n.hi) n.hi = 1; n.qsrc = "{" + std::to_string(n.lo) + "," + std::to_string(n.hi) + "}"; break;
            case 7: n.lo = s.range(0, 3); n.hi = -1; n.qsrc = "{" + std::to_string(n.lo) + ",}"; break;
            default: n.lo = 0; n.hi = -1; n.qsrc = "*"; break;
        }
    }
    std::vector<RxP> seq(int depth) {
        std::vector<RxP> v;
        int n = s.range(1, depth == 0 ? 5 : 3);
        for (int i = 0; i < n && left > 0; i++) v.push_back(elem(depth));
        if (v.empty()) { left--; v.push_back(atomset()); }
        return v;
    }
    RxP elem(int depth) {
        left--;
        RxP n;
        if (anchors && s.one(15)) { n = std::make_shared<RxNode>(); n->t = s.one(2) ? RxNode::WB : RxNode::NWB; n->src = n->t == RxNode::WB ? "\\b" : "\\B"; return n; }
        if (depth < 4 && left > 1 && s.one(4)) {
            n = std::make_shared<RxNode>();
            n->t = RxNode::GROUP;
            n->cap = !s.one(3);
            int a = s.one(2) ? 1 : s.range(2, 4);
            for (int i = 0; i < a; i++) n->alts.push_back(seq(depth + 1));
        } else n = atomset();
        if (s.pct(35)) quant(*n);
        return n;
    }
};
static void emit(str& o, const std::vector<std::vector<RxP>>& alts);
static void emit1(str& o, const RxNode& n) {
    switch (n.t) {
        case RxNode::GROUP: o += n.cap ? "(" : "(?:"; emit(o, n.alts); o += ")"; break;
        case RxNode::BOL: o += "^"; break;
        case RxNode::EOL: o += "$"; break;
        default: o += n.src;
    }
    o += n.qsrc;
}
static void emit(str& o, const std::vector<std::vector<RxP>>& alts) {
    for (size_t i = 0; i < alts.size(); i++) {
        if (i) o += "|";
        for (auto& n : alts[i]) emit1(o, *n);
    }
}
// ---- set matcher
typedef std::vector<char> PS;
static PS m_alts(const std::vector<std::vector<RxP>>& alts, const str& t, const PS& in);
static PS m_base(const RxNode& n, const str& t, const PS& in) {
    size_t L = t.size();
    PS o(L + 1, 0);
    switch (n.t) {
        case RxNode::SET: for (size_t i = 0; i < L; i++) if (in[i] && n.cs[(unsigned char)t[i]]) o[i + 1] = 1; break;
        case RxNode::BOL: o[0] = in[0]; break;
        case RxNode::EOL: o[L] = in[L]; break;
        case RxNode::WB: case RxNode::NWB:
            for (size_t i = 0; i <= L; i++) if (in[i]) {
                bool a = i > 0 && !ws(t[i - 1]), b = i < L && !ws(t[i]);
                bool wb;
                if (L == 0) { o[i] = 1; continue; }    // the empty text: either reading is allowed
                wb = a != b;
                if (wb == (n.t == RxNode::WB)) o[i] = 1;
            }
            break;
        case RxNode::GROUP: return m_alts(n.alts, t, in);
    }
    return o;
}
static bool any(const PS& p) { for (char c : p) if (c) return true; return false; }
static PS m_node(const RxNode& n, const str& t, const PS& in) {
    if (!n.quant) return m_base(n, t, in);
    if (n.hi >= 0 && n.hi < n.lo) return PS(in.size(), 0);    // nothing satisfies both bounds
    PS cur = in;
    for (int i = 0; i < n.lo && any(cur); i++) {
        PS nx = m_base(n, t, cur);
        if (nx == cur && i > 0) { cur = nx; break; }
        cur = nx;
    }
    PS acc = cur;
    for (int i = n.lo; n.hi < 0 || i < n.hi; i++) {
        if (!any(cur)) break;
        cur = m_base(n, t, cur);
        bool neu = false;
        for (size_t k = 0; k < acc.size(); k++) if (cur[k] && !acc[k]) { acc[k] = 1; neu = true; } else if (cur[k]) cur[k] = cur[k];
        if (!neu) break;
    }
    return acc;
}
static PS m_alts(const std::vector<std::vector<RxP>>& alts, const str& t, const PS& in) {
    PS o(t.size() + 1, 0);
    for (auto& a : alts) {
        PS c = in;
        for (auto& n : a) { c = m_node(*n, t, c); }
        for (size_t i = 0; i < o.size(); i++) o[i] |= c[i];
    }
    return o;
}
bool ref_rx(const Rx& r, const str& t) {
    PS in(t.size() + 1, 0);
    in[0] = 1;
    return m_alts(r.alts, t, in)[t.size()];
}
// ---- determinism: position automaton of the expression with counted repetitions written out
struct Glu {
    struct F { bool nul; std::vector<int> first, last; };
    std::vector<CS> pos;
    std::vector<std::vector<int>> follow;
    bool ok = true;       // still inside the fragment
    int limit = 400;
    F leaf(const CS& c) { if ((int)pos.size() >= limit) { ok = false; return {false, {}, {}}; } pos.push_back(c); follow.emplace_back(); int p = (int)pos.size() - 1; return {false, {p}, {p}}; }
    void link(const std::vector<int>& a, const std::vector<int>& b) { for (int x : a) for (int y : b) { bool h = false; for (int z : follow[(size_t)x]) h |= z == y; if (!h) follow[(size_t)x].push_back(y); } }
    F cat(F a, F b) {
        link(a.last, b.first);
        F r; r.nul = a.nul && b.nul;
        r.first = a.first; if (a.nul) r.first.insert(r.first.end(), b.first.begin(), b.first.end());
        r.last = b.last; if (b.nul) r.last.insert(r.last.end(), a.last.begin(), a.last.end());
        return r;
    }
    F base(const RxNode& n) {
        if (n.t == RxNode::SET) return leaf(n.cs);
        if (n.t == RxNode::GROUP) return alts(n.alts, true);
        ok = false;
        return {true, {}, {}};
    }
    F node(const RxNode& n) {
        if (!n.quant) return base(n);
        if (n.hi >= 0 && n.hi < n.lo) { ok = false; return {true, {}, {}}; }
        F r{true, {}, {}};
        for (int i = 0; i < n.lo && ok; i++) r = cat(r, base(n));
        if (n.hi < 0) {
            F b = base(n);
            link(b.last, b.first);
            b.nul = true;
            r = cat(r, b);
        } else {
            // (x(x(x)?)?)?
            F t{true, {}, {}};
            for (int i = n.lo; i < n.hi && ok; i++) { t = cat(base(n), t); t.nul = true; }
            r = cat(r, t);
        }
        return r;
    }
    F seq(const std::vector<RxP>& v) {
        F r{true, {}, {}};
        for (auto& n : v) { if (!ok) break; r = cat(r, node(*n)); }
        return r;
    }
    F alts(const std::vector<std::vector<RxP>>& al, bool group) {
        F r{false, {}, {}};
        for (auto& a : al) {
            F x = seq(a);
            if (x.nul && (group || al.size() > 1)) ok = false;   // outside the fragment
            r.nul |= x.nul;
            r.first.insert(r.first.end(), x.first.begin(), x.first.end());
            r.last.insert(r.last.end(), x.last.begin(), x.last.end());
        }
        return r;
    }
    bool distinct(const std::vector<int>& v) {
        CS u;
        for (int x : v) { if ((u & pos[(size_t)x]).any()) return false; u |= pos[(size_t)x]; }
        return true;
    }
    bool det(const std::vector<std::vector<RxP>>& al) {
        F r = alts(al, false);
        if (!ok || !distinct(r.first)) return false;
        for (auto& f : follow) if (!distinct(f)) return false;
        return true;
    }
};
RxTop gen_rx(Src& s, bool want_det, int budget, bool boundaries, int force) {
    for (int tries = 0;; tries++) {
        auto r = std::make_shared<Rx>();
        bool icase = s.one(3);
        if (force >= 0) icase = force != 0;
        r->flags = icase ? ARG_REX_ICASE : 0;
        RxGen g{s, icase, s.range(1, budget), 0, "", !want_det && s.one(4)};
        g.pool = s.one(2) ? "abcdefgxyzABCXYZ0123456789" : s.one(2) ? "ab" : "aAbB01 _-.,:/@#\t\n\\*+?()[]{}|^$";
        bool wb = r->wb = boundaries && want_det && s.one(8);
        if (wb) g.pool = "ab  ";
        int na = !wb && s.one(4) ? s.range(2, 3) : 1;
        for (int i = 0; i < na; i++) r->alts.push_back(g.seq(0));
        r->quants = g.quants;
        std::vector<std::vector<RxP>> core = r->alts;
        if (wb) {
            // boundaries in front, or after a single character: they only look, so the rest stays deterministic
            auto& v = r->alts[0];
            for (size_t i = v.size() + 1; i--;) {
                if (i && (v[i - 1]->t != RxNode::SET || v[i - 1]->quant)) continue;
                if (!s.one(2)) continue;
                auto b = std::make_shared<RxNode>();
                b->t = s.one(2) ? RxNode::WB : RxNode::NWB;
                b->src = b->t == RxNode::WB ? "\\b" : "\\B";
                v.insert(v.begin() + (long)i, b);
            }
        }
        if (na == 1 && s.one(8)) { auto b = std::make_shared<RxNode>(); b->t = RxNode::BOL; r->alts[0].insert(r->alts[0].begin(), b); }
        if (na == 1 && s.one(8)) { auto b = std::make_shared<RxNode>(); b->t = RxNode::EOL; r->alts[0].push_back(b); }
        Glu gl;
        r->det = gl.det(core);
        emit(r->pattern, r->alts);
        if (want_det && !r->det) { if (tries < 25) continue; budget = 2; if (tries < 60) continue;
            // a single character always qualifies
            r = std::make_shared<Rx>(); auto n = std::make_shared<RxNode>(); n->src = "a"; n->cs[(unsigned char)'a'] = true; r->alts.push_back({n}); r->pattern = "a"; r->det = true; return r; }
        return r;
    }
}
static void member(Src& s, const std::vector<std::vector<RxP>>& alts, str& o, int maxrep, const str& pool) {
    auto& a = alts[s.below((unsigned)alts.size())];
    for (auto& n : a) {
        int k = 1;
        if (n->quant) {
            int hi = n->hi < 0 ? n->lo + s.size(maxrep) : n->hi;
            k = n->hi < 0 ? hi : n->hi < n->lo ? (s.one(2) ? n->lo : n->hi) : s.one(3) ? n->lo : s.one(2) ? n->hi : s.range(n->lo, n->hi);
        }
        for (int i = 0; i < k && o.size() < 200000; i++) {
            if (n->t == RxNode::GROUP) member(s, n->alts, o, maxrep > 3 ? maxrep / 3 : 1, pool);
            else if (n->t == RxNode::SET) {
                char c = 0;
                for (int z = 0; z < 12; z++) { char x = s.pickc(pool.c_str()); if (n->cs[(unsigned char)x]) { c = x; break; } }
                if (!c) { unsigned st = s.below(255); for (unsigned z = 0; z < 255; z++) { unsigned x = 1 + (st + z) % 255; if (n->cs[x]) { c = (char)x; break; } } }
                if (c) o += c;
            }
        }
    }
}
str gen_rxtext(Src& s, const Rx& r, bool mem, int maxrep) {
    static const str pool = "abcdefgxyzABCXYZ0123456789ab -_.,:/@#\t\n\r\f\v\\*+?()[]{}|^$";
    str o;
    member(s, r.alts, o, maxrep, pool);
    if (mem) return o;
    int k = s.range(1, 3);
    while (k--) {
        size_t at = o.size() ? s.below((unsigned)o.size() + 1) : 0;
        switch (s.below(7)) {
            case 0: o.insert(at, 1, s.pickc(pool.c_str())); break;
            case 1: if (o.size()) o.erase(at % o.size(), 1); break;
            case 2: if (o.size()) o[at % o.size()] = s.pickc(pool.c_str()); break;
            case 3: if (o.size()) o.resize(at % o.size()); break;
            case 4: if (o.size() < 2000) o += o; break;
            case 5: o = s.text(20); break;
            default: if (o.size()) { char& c = o[at % o.size()]; if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } break;
        }
    }
    return o;
}
// ---- repetitions that end where the item after them first matches, such as ".+@[a-z]+\."
static void addseg(std::vector<RxP>& v, RxP a) { v.push_back(a); }
RxTop gen_rxla(Src& s) {
    auto r = std::make_shared<Rx>();
    bool icase = s.one(4);
    r->flags = icase ? ARG_REX_ICASE : 0;
    RxGen g{s, icase, 10, 0, "", false};
    g.pool = s.one(2) ? "abxyAX01" : "ab-_.,:/@#=\t";
    std::vector<RxP> top;
    int n = s.range(1, 3);
    for (int i = 0; i < n; i++) {
        if (s.one(3)) { LaSeg l; l.stop = g.atomset(); addseg(top, l.stop); r->la.push_back(l); }
        LaSeg l;
        l.rep = g.atomset();
        if (s.one(2)) { l.rep->src = "."; l.rep->cs.set(); l.rep->cs[0] = false; }
        g.quant(*l.rep);
        l.stop = g.atomset();
        auto group = [&](std::vector<RxP> in) { auto x = std::make_shared<RxNode>(); x->t = RxNode::GROUP; x->cap = s.one(2); x->alts.push_back(in); return x; };
        switch (s.below(6)) {
            case 0: addseg(top, group({l.rep})); addseg(top, l.stop); break;
            case 1: addseg(top, group({l.rep})); addseg(top, group({l.stop})); break;
            case 2: addseg(top, group({l.rep, l.stop})); break;
            case 3:
                if (i == n - 1) { auto x = group({l.rep, l.stop}); x->quant = true; x->lo = 1; x->hi = -1; x->qsrc = "+"; l.many = true; addseg(top, x); break; }
                /* fall through */
            default: addseg(top, l.rep); addseg(top, l.stop); break;
        }
        r->la.push_back(l);
    }
    r->quants = g.quants;
    r->alts.push_back(top);
    emit(r->pattern, r->alts);
    return r;
}
bool gen_latext(Src& s, const Rx& r, str& o) {
    static const str pool = "abxyAX01ab-_.,:/@#=\t ";
    auto ch = [&](const CS& c) -> char {
        for (int z = 0; z < 8; z++) { char x = s.pickc(pool.c_str()); if (c[(unsigned char)x]) return x; }
        unsigned st = s.below(255);
        for (unsigned z = 0; z < 255; z++) { unsigned x = 1 + (st + z) % 255; if (c[x]) return (char)x; }
        return 0;
    };
    o.clear();
    for (auto& l : r.la) {
        for (int k = l.many ? s.range(1, 4) : 1; k--;) {
            if (l.rep) {
                if (l.rep->hi == 0 || (l.rep->hi > 0 && l.rep->hi < l.rep->lo)) return false;
                int lo = l.rep->lo < 1 ? 1 : l.rep->lo, hi = l.rep->hi < 0 ? lo + s.size(40) : l.rep->hi;
                if (hi < lo) hi = lo;
                int n = s.range(lo, hi);
                CS in = l.rep->cs, later = in & ~l.stop->cs;
                for (int i = 0; i < n; i++) {
                    char c = i < lo ? ch(in) : later.any() ? ch(later) : 0;
                    if (!c && i < lo) return false;
                    if (!c) break;
                    o += c;
                }
            }
            char c = ch(l.stop->cs);
            if (!c) return false;
            o += c;
        }
    }
    return true;
}
RxTop rx_word(Src& s) { return gen_rx(s, true, 4); }
