// Coverage-guided driver: the bytes of the fuzzer replace the random choices of a case; the oracles are the same.
#include "vf.h"
const Prop* vf_lookup(const char* id);
void vf_setup(const char* dict, const char* known, bool verbose);
static const Prop* P;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
    vf_setup(getenv("VF_DICT"), getenv("VF_KNOWN"), getenv("VF_VERBOSE") != nullptr);
    const char* id = getenv("VF_PROP");
    P = id ? vf_lookup(id) : nullptr;
    if (!P) { fprintf(stderr, "no such property\n"); exit(2); }
    global_init();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    Src s;
    s.bytes = true;
    s.p = d;
    s.e = d + n;
    Hash h; h.b(d, n);
    s.s = h.h;
    vf_case(h.h);
    g_desc.clear();
    try { P->fn(s); } catch (Fail& f) {
        fprintf(stderr, "VF-FAIL idx=0 %s\nVF-CASE:\n%s\n", f.msg.c_str(), g_desc.c_str());
        abort();
    }
    release_held();
    g_cov.sigs.clear();
    return 0;
}
