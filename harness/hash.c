/* C27: the container of arg_hashtable.c */
#include "argtable3.h"
#include "argtable3_private.h"
void* vh_create(unsigned n, unsigned (*h)(const void*), int (*eq)(const void*, const void*)) { return arg_hashtable_create(n, h, eq); }
void vh_insert(void* h, void* k, void* v) { arg_hashtable_insert((arg_hashtable_t*)h, k, v); }
void* vh_search(void* h, const void* k) { return arg_hashtable_search((arg_hashtable_t*)h, k); }
void vh_remove(void* h, const void* k) { arg_hashtable_remove((arg_hashtable_t*)h, k); }
unsigned vh_count(void* h) { return arg_hashtable_count((arg_hashtable_t*)h); }
int vh_change(void* h, void* k, void* v) { return arg_hashtable_change((arg_hashtable_t*)h, k, v); }
void vh_destroy(void* h, int fv) { arg_hashtable_destroy((arg_hashtable_t*)h, fv); }
void* vh_itr(void* h) { return arg_hashtable_itr_create((arg_hashtable_t*)h); }
void vh_itr_destroy(void* i) { arg_hashtable_itr_destroy((arg_hashtable_itr_t*)i); }
void* vh_itr_key(void* i) { return arg_hashtable_itr_key((arg_hashtable_itr_t*)i); }
void* vh_itr_value(void* i) { return arg_hashtable_itr_value((arg_hashtable_itr_t*)i); }
int vh_itr_advance(void* i) { return arg_hashtable_itr_advance((arg_hashtable_itr_t*)i); }
int vh_itr_remove(void* i) { return arg_hashtable_itr_remove((arg_hashtable_itr_t*)i); }
int vh_itr_search(void* i, void* h, void* k) { return arg_hashtable_itr_search((arg_hashtable_itr_t*)i, (arg_hashtable_t*)h, k); }
