// Independent references for argument values: integers, doubles, file names, dates, regular expressions.
#ifndef VAL_H
#define VAL_H
#include "vf.h"
#include <memory>
#include <bitset>
#include <time.h>

inline bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

// ---- integers
enum IntRes { INT_OK, INT_BAD, INT_OVER };
IntRes ref_int(const char* s, int& v);
str gen_int(Src& s, bool valid);

// ---- doubles
bool ref_dbl(const char* s, double& v);
str gen_dbl(Src& s, bool valid);

// ---- files: offsets into the text
void ref_file(const char* s, size_t& base, size_t& ext);
str gen_file(Src& s);

// ---- dates
bool ref_date(const char* text, const char* fmt, struct tm& tm);   // whole text
str gen_datefmt(Src& s);
str gen_date(Src& s, const char* fmt, bool valid);
bool tm_eq(const struct tm& a, const struct tm& b);
str tm_str(const struct tm& t);

// ---- regular expressions
struct RxNode;
typedef std::shared_ptr<RxNode> RxP;
typedef std::bitset<256> CS;
struct RxNode {
    enum T { SET, GROUP, BOL, EOL, WB, NWB } t = SET;
    CS cs;                                   // SET (case folded already if the flag is on)
    str src;                                 // SET: how it is written
    bool cap = true;                         // GROUP
    std::vector<std::vector<RxP>> alts;      // GROUP
    bool quant = false;
    int lo = 1, hi = 1;                      // hi == -1: unbounded
    str qsrc;
};
struct LaSeg { RxP rep, stop; bool many = false; };   // rep repeated until stop first matches
struct Rx {
    std::vector<LaSeg> la;                   // gen_rxla
    std::vector<std::vector<RxP>> alts;      // top level
    str pattern;
    int flags = 0;
    bool det = false;                        // every text of the language must be accepted
    bool wb = false;                         // looks at word boundaries (which the empty text leaves open)
    int quants = 0;                          // number of quantifiers (cost)
};
typedef std::shared_ptr<Rx> RxTop;
RxTop gen_rx(Src& s, bool want_det, int budget, bool boundaries = false, int force = -1);   // force: without (0) or with (1) ignore-case
bool ref_rx(const Rx& r, const str& text);
str gen_rxtext(Src& s, const Rx& r, bool member, int maxrep);
RxTop gen_rxla(Src& s);
bool gen_latext(Src& s, const Rx& r, str& o);   // o: a text that a greedy, first-stop matcher must accept
RxTop rx_word(Src& s);    // small deterministic pattern for parse tables
#endif
