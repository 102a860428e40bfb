/* The few private names the monitors need. */
#include "argtable3.h"
#include "argtable3_private.h"
const int K_MINCOUNT = ARG_ERR_MINCOUNT, K_MAXCOUNT = ARG_ERR_MAXCOUNT, K_BADINT = ARG_ERR_BADINT, K_OVERFLOW = ARG_ERR_OVERFLOW,
          K_BADDOUBLE = ARG_ERR_BADDOUBLE, K_BADDATE = ARG_ERR_BADDATE, K_REGNOMATCH = ARG_ERR_REGNOMATCH;
void vf_set_panic(arg_panicfn* f) { arg_set_panic(f); }
