// Argument tables, command lines, and the reference semantics of a parse.
#ifndef MODEL_H
#define MODEL_H
#include "val.h"

enum Kind { LIT, INTK, DBL, STR, REX, FIL, DATE, REM, CUS };
extern const char* const KN[];

struct Spec {
    Kind k = LIT;
    const char *sh = nullptr, *lo = nullptr, *dt = nullptr, *gl = nullptr;   // exact-size copies (hold)
    int mn = 0, mx = 1;                 // as given to the constructor; effective maximum is emx()
    bool opt = false;                   // optional value (program sets ARG_HASOPTVALUE)
    const char* pat = nullptr;          // pattern or date format (may be null for a date: default)
    RxTop rx;
    int rflags = 0;
    std::vector<str> names;             // long names
    // custom entries
    bool cval = false;                  // takes a value
    unsigned cmod = 0;                  // rejects values with hash % cmod == 0
    int cerr = 0, cchk = 0;             // its error codes; cchk != 0: own minimum test
    bool noreset = false, noscan = false, nocheck = false, noerror = false;
    int emx() const { return mx < mn ? mn : mx; }
    bool tagged() const { return sh || lo; }
    bool hasval() const { return k != LIT && k != REM && (k != CUS || cval); }
};

struct Slot {
    int i = 0;
    uint64_t d = 0;
    const char *a = nullptr, *b = nullptr, *c = nullptr;
    struct tm t;
    Slot() { memset(&t, 0, sizeof t); }
};
struct Err { int entry; int code; const char* arg; };    // entry -1: the terminator
struct Ev { char ev; int entry; const char* val; int ret; };

struct Custom { struct arg_hdr hdr; int count; int index; unsigned cmod; int cerr, cchk, mn, mx; };

struct Tab {
    std::vector<Spec> sp;
    int cap = 20;
    std::vector<void*> arr;              // entries and terminator
    struct arg_end* end = nullptr;
    bool freed = false;
    void build(Src* s);                  // constructs the entries (s picks between arg_xxx0/1/n)
    void destroy();
    ~Tab();
    arg_hdr* hdr(size_t i) { return (arg_hdr*)arr[i]; }
    int count(size_t i);
    Slot slot(size_t i, int j);
    void setslot(size_t i, int j, const Slot& v);
    void trace(std::vector<Ev>* log);    // replaces the callbacks of every entry by logging ones
};

struct GenOpt {
    int maxEntries = 12;
    int taggedPct = 75;
    int customPct = 0;
    int remPct = 5;
    bool odd = true;                     // odd names and letters
    bool plain = false;                  // restricted to what every option scanner agrees on
    bool texts = false;                  // interesting data types and glossaries
    bool bigmax = true;
    bool badrx = false;
    bool bigRx = false;
    struct Twin { RxTop a, b; const char* text; };
    std::vector<Twin>* twins = nullptr;  // patterns used by several entries, with different flags
};
void gen_table(Src& s, Tab& t, const GenOpt& o);
str gen_value(Src& s, const Spec& e, int validPct);
struct Argv {
    std::vector<char*> v;                // includes the NULL terminator
    int argc = 0;
    char** ptr = nullptr;                // exact-size heap array
    void set(const std::vector<str>& a);
};
struct LineOpt { int maxItems = 14; int validPct = 85; int noisePct = 12; bool plain = false; int posPct = 35; };
std::vector<str> gen_line(Src& s, const Tab& t, const LineOpt& o);

struct Pred {
    int ret = 0;
    std::vector<int> count;
    std::vector<std::vector<Slot>> val;      // first emx() slots
    std::vector<std::vector<char>> known;    // whether the slot is determined
    std::vector<Err> errs;                   // as recorded (capacity applied)
    std::vector<Err> all;                    // every error met
    std::vector<Ev> trace;
    int nopt = 0, npos = 0, nexcess = 0, nperm = 0;
};
// pre: slots before the parse; first: whether slots never parsed into before
Pred predict(Tab& t, int argc, char** argv, bool first);
extern bool g_posix, g_longonly;            // scanning modes the library is run in (see predict)

enum { A_COUNT = 1, A_VAL = 2, A_ERRN = 4, A_ERR = 8, A_SLOTS = 16, A_PTR = 32, A_ALL = 63 };
struct Pre { std::vector<std::vector<Slot>> slots; };
Pre snapshot(Tab& t);
void compare(Tab& t, const Pred& p, const Pre& pre, int ret, int mask);
void compare_trace(Tab& t, const std::vector<Ev>& got, const Pred& p, const char* which);
void describe(const Tab& t);
void describe(int argc, char** argv);
str describe_spec(const Spec& e);
uint64_t result_digest(Tab& t, int ret, bool withptr);

// one entry, one scan: 0 = accepted. Fills v when a value is stored (has = true)
int ref_scan(const Spec& e, int count, const char* val, Slot& v, bool& has, const Slot& before);
bool slot_eq(Kind k, const Slot& a, const Slot& b, bool ptr);
str slot_str(Kind k, const Slot& v);
#endif
