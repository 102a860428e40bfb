// C27: the hash container behind the sub-command registry.
#include "val.h"
#include <set>
extern "C" {
void* vm_malloc(size_t);
void* vh_create(unsigned n, unsigned (*h)(const void*), int (*eq)(const void*, const void*));
void vh_insert(void* h, void* k, void* v);
void* vh_search(void* h, const void* k);
void vh_remove(void* h, const void* k);
unsigned vh_count(void* h);
int vh_change(void* h, void* k, void* v);
void vh_destroy(void* h, int fv);
void* vh_itr(void* h);
void vh_itr_destroy(void* i);
void* vh_itr_key(void* i);
void* vh_itr_value(void* i);
int vh_itr_advance(void* i);
int vh_itr_remove(void* i);
int vh_itr_search(void* i, void* h, void* k);
}
void global_init() {}
static int h_mode;
static unsigned hashf(const void* k) {
    unsigned v;
    memcpy(&v, k, sizeof v);
    switch (h_mode) {
        case 0: return v * 2654435761u;
        case 1: return v;
        case 2: return 42;                 // everything collides
        case 3: return v & 3;
        case 4: return v << 24;
        default: return v % 53 == 0 ? v : 53 * v;
    }
}
static int eqf(const void* a, const void* b) { return memcmp(a, b, sizeof(unsigned)) == 0; }
static void* box(unsigned v) { unsigned* p = (unsigned*)vm_malloc(sizeof v); *p = v; return p; }

// two containers and one iterator that is moved from one to the other
static void two(Src& s) {
    long base = vm_live;
    void* h[2];
    std::set<unsigned> in[2];
    unsigned span = (unsigned)s.range(2, 200);
    for (int w = 0; w < 2; w++) {
        h[w] = vh_create(s.pick<unsigned>({0, 32, 53, 97, 192}), hashf, eqf);
        for (int n = s.range(1, 120); n--;) { unsigned x = s.below(span); if (in[w].insert(x).second) vh_insert(h[w], box(x), box(x * 7 + (unsigned)w)); }
    }
    int cur = (int)s.below(2);
    void* i = vh_itr(h[cur]);
    for (int k = s.range(1, 40); k--;) {
        int w = (int)s.below(2);
        unsigned x = s.below(span);
        int r = vh_itr_search(i, h[w], &x);
        CHECK((r != 0) == (in[w].count(x) != 0), "positioning on key %u of container %d returned %d", x, w, r);
        if (!r) continue;
        cur = w;
        // from there on: every entry at most once, of that container only
        std::set<unsigned> seen;
        bool more = true;
        for (int m = s.one(3) ? 400 : s.range(0, 6); m-- && more;) {
            unsigned y = *(unsigned*)vh_itr_key(i);
            CHECK(in[w].count(y), "iterator visited key %u, which is not in container %d", y, w);
            CHECK(*(unsigned*)vh_itr_value(i) == y * 7 + (unsigned)w, "iterator has another value for key %u", y);
            CHECK(seen.insert(y).second, "iterator visited key %u twice", y);
            if (s.one(4)) { in[w].erase(y); more = vh_itr_remove(i) != 0; hit("removals through an iterator"); } else more = vh_itr_advance(i) != 0;
            for (int v = 0; v < 2; v++) CHECK(vh_count(h[v]) == in[v].size(), "container %d counts %u, expected %zu", v, vh_count(h[v]), in[v].size());
        }
        hit("iterators moved to another container");
        for (int v = 0; v < 2; v++) for (unsigned y = 0; y < span; y++) {
            unsigned* p = (unsigned*)vh_search(h[v], &y);
            CHECK((p != nullptr) == (in[v].count(y) != 0), "container %d: search of key %u", v, y);
            if (p) CHECK(*p == y * 7 + (unsigned)v, "container %d: value of key %u has changed", v, y);
        }
    }
    Hash hh; hh.u(span); for (int v = 0; v < 2; v++) for (unsigned y : in[v]) hh.u(y); sig(hh.h);
    vh_itr_destroy(i);
    vh_destroy(h[0], 1);
    vh_destroy(h[1], 1);
    CHECK(vm_live == base, "%ld allocations left after destroying the containers", vm_live - base);
}
static void c27(Src& s) {
    if (s.one(12)) { h_mode = (int)s.below(6); two(s); return; }
    h_mode = (int)s.below(6);
    long base = vm_live;
    unsigned mins = s.one(4) ? s.below(400) : s.pick<unsigned>({0, 1, 32, 52, 53, 96, 97, 192});
    void* h = vh_create(mins, hashf, eqf);
    CHECK(h, "no container of size %u", mins);
    std::map<unsigned, std::pair<void*, unsigned>> model;     // key -> value pointer and content
    bool big = s.one(20) && h_mode != 2 && h_mode != 3;
    int steps = big ? s.range(300, 4000) : s.range(1, 120);
    unsigned span = big ? 5000 : (unsigned)s.range(1, 90);
    int remPct = s.range(0, 50);
    if (s.one(4)) remPct = 3;
    say("minimum size %u, hash function %d, %d steps, keys below %u\n", mins, h_mode, steps, span);
    str ops;
    for (int k = 0; k < steps; k++) {
        unsigned key = s.below(span) * (s.one(2) ? 1 : 53);
        auto it = model.find(key);
        unsigned val = (unsigned)s.raw();
        if (s.pct((unsigned)remPct)) {
            vh_remove(h, &key);
            if (it != model.end()) { model.erase(it); hit("removals"); ops += 'r'; } else { hit("removals of unknown keys"); ops += 'R'; }
        } else if (it == model.end()) {
            if (s.one(6)) { unsigned* dummy = (unsigned*)holdmem(sizeof val); *dummy = 1; CHECK(!vh_change(h, &key, dummy), "value of an unknown key changed"); }
            else { void* v = box(val); vh_insert(h, box(key), v); model[key] = {v, val}; hit("insertions"); ops += 'i'; }
        } else {
            void* v = box(val);
            CHECK(vh_change(h, &key, v), "value of key %u could not be changed", key);
            model[key] = {v, val};
            hit("changes");
            ops += 'c';
        }
        auto chk = [&](unsigned x) {
            auto f = model.find(x);
            void* v = vh_search(h, &x);
            CHECK(v == (f == model.end() ? nullptr : f->second.first), "search of key %u found %p, expected %p", x, v, f == model.end() ? nullptr : f->second.first);
            if (v) CHECK(*(unsigned*)v == f->second.second, "value of key %u has changed", x);
            hit("searches checked");
        };
        chk(key);
        chk(s.below(span));
        CHECK(vh_count(h) == model.size(), "count is %u, expected %zu", vh_count(h), model.size());
        bool last = k + 1 == steps;
        if (last || (big ? s.one(300) : s.one(8))) {
            for (auto& m : model) chk(m.first);
            // iteration, removing some of the visited entries on the way
            int rp = s.one(2) ? 0 : s.one(3) ? 100 : s.range(10, 90);
            void* i = vh_itr(h);
            std::set<unsigned> seen;
            size_t total = model.size();
            bool more = total > 0;
            if (s.one(4) && total) {
                // an iterator that is moved about: to keys, onward, and removing where it stands
                std::vector<unsigned> order;
                { void* o = vh_itr(h); do order.push_back(*(unsigned*)vh_itr_key(o)); while (order.size() <= total && vh_itr_advance(o)); vh_itr_destroy(o); }
                CHECK(order.size() == total, "iterator visited %zu of %zu entries", order.size(), total);
                size_t at = 0;
                for (int moves = s.range(1, big ? 3 : 8); moves-- && at < order.size();) {
                    unsigned what = s.below(4);
                    if (what < 2) {
                        unsigned x = s.one(3) ? s.below(span) : order[s.below((unsigned)order.size())];
                        int r = vh_itr_search(i, h, &x);
                        CHECK((r != 0) == (model.count(x) != 0), "positioning on key %u returned %d", x, r);
                        if (r) { at = 0; while (at < order.size() && order[at] != x) at++; }
                        hit("iterator searches checked");
                    } else if (what == 2) {
                        at++;
                        CHECK((vh_itr_advance(i) != 0) == (at < order.size()), "moving on from entry %zu of %zu", at, order.size());
                    } else {
                        model.erase(order[at]);
                        order.erase(order.begin() + (long)at);
                        CHECK((vh_itr_remove(i) != 0) == (at < order.size()), "removing entry %zu, %zu are left", at, order.size());
                        hit("removals through an iterator");
                        ops += 'x';
                        CHECK(vh_count(h) == model.size(), "count is %u, expected %zu", vh_count(h), model.size());
                    }
                    if (at < order.size()) {
                        unsigned x = *(unsigned*)vh_itr_key(i);
                        CHECK(x == order[at], "iterator is at key %u, expected %u", x, order[at]);
                        CHECK(vh_itr_value(i) == model[x].first, "iterator has another value for key %u", x);
                    }
                }
                vh_itr_destroy(i);
                if (!big) for (unsigned x = 0; x < span && x < 200; x++) chk(x);
                i = vh_itr(h);
                total = model.size();
                more = total > 0;
            }
            while (more) {
                unsigned x = *(unsigned*)vh_itr_key(i);
                CHECK(seen.insert(x).second, "iterator visited key %u twice", x);
                auto f = model.find(x);
                CHECK(f != model.end(), "iterator visited key %u, which is not in the container", x);
                CHECK(vh_itr_value(i) == f->second.first, "iterator has another value for key %u", x);
                if (s.pct((unsigned)rp)) { more = vh_itr_remove(i) != 0; model.erase(f); hit("removals through an iterator"); ops += 'x'; }
                else more = vh_itr_advance(i) != 0;
                CHECK(seen.size() <= total, "iterator visits more entries than there are");
            }
            CHECK(seen.size() == total, "iterator visited %zu of %zu entries", seen.size(), total);
            CHECK(!vh_itr_advance(i), "iterator advanced past the end");
            vh_itr_destroy(i);
            CHECK(vh_count(h) == model.size(), "count is %u after iteration, expected %zu", vh_count(h), model.size());
            for (auto& m : model) chk(m.first);
            hit("iterations checked");
        }
        if (!big || last) {
            long want = 2 * (long)model.size();
            CHECK(vm_live - base >= want, "keys or values of live entries were released");
        }
    }
    Hash hh; hh.t(ops.substr(0, 400)); hh.u(model.size()); hh.u((uint64_t)h_mode); sig(hh.h);
    if (s.one(4)) {
        vh_destroy(h, 0);
        CHECK(vm_live - base == (long)model.size(), "destroying without values left %ld allocations, expected the %zu values", vm_live - base, model.size());
        extern void vm_free_(void*);
        for (auto& m : model) vm_free_(m.second.first);
    } else vh_destroy(h, 1);
    CHECK(vm_live == base, "%ld allocations left after destroying the container", vm_live - base);
    hit("histories");
}
extern "C" void vm_free(void*);
void vm_free_(void* p) { vm_free(p); }
const Prop g_props[] = {{"C27", c27}, {nullptr, nullptr}};
