/* Allocation ledger: the library's objects are renamed to call these (objcopy --redefine-sym). */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

long vm_live, vm_total, vm_fail_at, vm_after_fail, vm_failed, vm_bad;

/* open addressing set of live addresses */
static uintptr_t* tab;
static size_t cap, used; /* used counts tombstones too */
#define TOMB ((uintptr_t)1)
static size_t slot(uintptr_t a) { return (size_t)((a >> 4) * 0x9E3779B97F4A7C15ull >> 20) & (cap - 1); }
static void put(uintptr_t a);
static void grow(void) {
    uintptr_t* old = tab;
    size_t oc = cap, i;
    size_t live = 0;
    for (i = 0; i < oc; i++) if (old[i] > TOMB) live++;
    cap = 1024;
    while (cap < live * 4) cap *= 2;
    tab = (uintptr_t*)calloc(cap, sizeof *tab);
    used = 0;
    for (i = 0; i < oc; i++) if (old[i] > TOMB) put(old[i]);
    free(old);
}
static void put(uintptr_t a) {
    size_t i;
    if (!cap || used * 2 >= cap) grow();
    for (i = slot(a); tab[i] > TOMB && tab[i] != a; i = (i + 1) & (cap - 1)) {}
    if (tab[i] == 0) used++;
    tab[i] = a;
}
static int take(uintptr_t a) {
    size_t i;
    if (!cap) return 0;
    for (i = slot(a); tab[i]; i = (i + 1) & (cap - 1))
        if (tab[i] == a) { tab[i] = TOMB; return 1; }
    return 0;
}
void vm_reset(void) { vm_total = 0; vm_fail_at = 0; vm_after_fail = 0; vm_failed = 0; }

static int refuse(void) {
    vm_total++;
    if (vm_failed) { vm_after_fail++; }
    if (vm_fail_at && vm_total == vm_fail_at) { vm_failed = 1; return 1; }
    return 0;
}
static void* note(void* p) { if (p) { put((uintptr_t)p); vm_live++; } return p; }
void* vm_malloc(size_t n) { return refuse() ? NULL : note(malloc(n)); }
void* vm_calloc(size_t a, size_t b) { return refuse() ? NULL : note(calloc(a, b)); }
char* vm_strdup(const char* s) { return refuse() ? NULL : (char*)note(strdup(s)); }
char* vm_strndup(const char* s, size_t n) { return refuse() ? NULL : (char*)note(strndup(s, n)); }
void vm_free(void* p) {
    if (!p) return;
    if (take((uintptr_t)p)) vm_live--;
    free(p); /* not ours: a buffer the program handed over, or a second release, which the sanitizer reports */
}
void* vm_realloc(void* p, size_t n) {
    void* r;
    int was;
    if (refuse()) return NULL;
    was = p ? take((uintptr_t)p) : 0;
    r = realloc(p, n);
    if (was) vm_live--;
    if (r) note(r);
    return r;
}
