From ea3f32efe4a1cde7de27e895282444d03e7b64e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 01/26] fix: do not loop forever on a short option group that
 contains '-'

A '-' inside a group of short options was taken for the start of a long
option, and a trailing one ("-v-") was reported as malformed without
advancing, so arg_parse() never returned. Look for long options only at
the start of an argument and report the '-' as an unknown short option.
---
 src/arg_getopt_long.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/arg_getopt_long.c b/src/arg_getopt_long.c
index b2dc4d8..a7ff571 100644
--- a/src/arg_getopt_long.c
+++ b/src/arg_getopt_long.c
@@ -518,10 +518,10 @@ start:
 	/*
 	 * Check long options if:
 	 *  1) we were passed some
-	 *  2) the arg is not just "-"
+	 *  2) we are at the start of the arg, and it is not just "-"
 	 *  3) either the arg starts with -- we are getopt_long_only()
 	 */
-	if (long_options != NULL && place != nargv[optind] &&
+	if (long_options != NULL && place == nargv[optind] + 1 &&
 	    (*place == '-' || (flags & FLAG_LONGONLY))) {
 		short_too = 0;
 #ifdef GNU_COMPATIBLE
@@ -549,12 +549,10 @@ start:
 	    (optchar == (int)'-' && *place != '\0') ||
 	    (oli = strchr(options, optchar)) == NULL) {
 		/*
-		 * If the user specified "-" and  '-' isn't listed in
-		 * options, return -1 (non-option) as per POSIX.
-		 * Otherwise, it is an unknown option character (or ':').
+		 * A lone "-" was already handled as a non-option above, so
+		 * this is an unknown option character (or ':', or a '-'
+		 * inside a group of short options).
 		 */
-		if (optchar == (int)'-' && *place == '\0')
-			return (-1);
 		if (!*place)
 			++optind;
 #ifdef GNU_COMPATIBLE
-- 
2.43.0


From 38ea85955f46ac65eb71c206984544c70d9d0fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 02/26] fix: keep the pointer arrays of arg_end aligned when
 maxcount is odd

---
 src/arg_end.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/arg_end.c b/src/arg_end.c
index a7abfdd..08aea86 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -79,9 +79,9 @@ struct arg_end* arg_end(int maxcount) {
     size_t nbytes;
     struct arg_end* result;
 
-    nbytes = sizeof(struct arg_end) + (size_t)maxcount * sizeof(int) /* storage for int error[maxcount] array*/
-             + (size_t)maxcount * sizeof(void*)                      /* storage for void* parent[maxcount] array */
-             + (size_t)maxcount * sizeof(char*);                     /* storage for char* argval[maxcount] array */
+    nbytes = sizeof(struct arg_end) + (size_t)maxcount * sizeof(void*) /* storage for void* parent[maxcount] array */
+             + (size_t)maxcount * sizeof(char*)                        /* storage for char* argval[maxcount] array */
+             + (size_t)maxcount * sizeof(int);                         /* storage for int error[maxcount] array*/
 
     result = (struct arg_end*)xmalloc(nbytes);
 
@@ -99,15 +99,15 @@ struct arg_end* arg_end(int maxcount) {
     result->hdr.checkfn = NULL;
     result->hdr.errorfn = (arg_errorfn*)arg_end_errorfn;
 
-    /* store error[maxcount] array immediately after struct arg_end */
-    result->error = (int*)(result + 1);
-
-    /* store parent[maxcount] array immediately after error[] array */
-    result->parent = (void**)(result->error + maxcount);
+    /* store parent[maxcount] array immediately after struct arg_end */
+    result->parent = (void**)(result + 1);
 
     /* store argval[maxcount] array immediately after parent[] array */
     result->argval = (const char**)(result->parent + maxcount);
 
+    /* store error[maxcount] array last, so that the pointer arrays stay aligned whatever maxcount is */
+    result->error = (int*)(result->argval + maxcount);
+
     ARG_TRACE(("arg_end(%d) returns %p\n", maxcount, result));
     return result;
 }
-- 
2.43.0


From 99c3c3b6c1b97e57f2c520188c9c2feaa0831367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 03/26] fix: initialise the error count in arg_end()

arg_print_errors() before the first arg_parse() read it uninitialised.
---
 src/arg_end.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arg_end.c b/src/arg_end.c
index 08aea86..88f50ad 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -108,6 +108,9 @@ struct arg_end* arg_end(int maxcount) {
     /* store error[maxcount] array last, so that the pointer arrays stay aligned whatever maxcount is */
     result->error = (int*)(result->argval + maxcount);
 
+    /* no errors until arg_parse() registers one */
+    result->count = 0;
+
     ARG_TRACE(("arg_end(%d) returns %p\n", maxcount, result));
     return result;
 }
-- 
2.43.0


From 7e4a1c7119ca2ed453322f50b62b19274f26c64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 04/26] fix: signed overflow when negating the smallest long in
 arg_int

---
 src/arg_int.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arg_int.c b/src/arg_int.c
index 9d760c9..792d217 100644
--- a/src/arg_int.c
+++ b/src/arg_int.c
@@ -103,7 +103,9 @@ static long int strtol0X(const char* str, const char** endptr, char X, int base)
         return 0;
     }
 
-    /* success */
+    /* success (the remainder may hold a sign of its own, so saturate rather than overflow) */
+    if (s < 0 && val == LONG_MIN)
+        return LONG_MAX;
     return s * val;
 }
 
-- 
2.43.0


From 54d09d045629bf3b738fb2a1ce03286188a84b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 05/26] fix: arg_dbl accepted an empty string as 0.0

---
 src/arg_dbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_dbl.c b/src/arg_dbl.c
index 3a00860..f63945a 100644
--- a/src/arg_dbl.c
+++ b/src/arg_dbl.c
@@ -62,7 +62,7 @@ static int arg_dbl_scanfn(struct arg_dbl* parent, const char* argval) {
         val = strtod(argval, &end);
 
         /* if success then store result in parent->dval[] array otherwise return error*/
-        if (*end == 0)
+        if (end != argval && *end == 0)
             parent->dval[parent->count++] = val;
         else
             errorcode = ARG_ERR_BADDOUBLE;
-- 
2.43.0


From 885383b85ba8b8674908e38641094ff291f0ff02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 06/26] fix: date conversion %C ignored that tm_year counts
 from 1900

---
 src/arg_date.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 1977479..76e4370 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -402,9 +402,9 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
                     return (0);
 
                 if (split_year) {
-                    tm->tm_year = (tm->tm_year % 100) + (i * 100);
+                    tm->tm_year = (tm->tm_year % 100) + (i * 100) - TM_YEAR_BASE;
                 } else {
-                    tm->tm_year = i * 100;
+                    tm->tm_year = i * 100 - TM_YEAR_BASE;
                     split_year = 1;
                 }
                 break;
-- 
2.43.0


From 7f09a3f6cde13e98bb61d6b0545b79968a63a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 07/26] fix: date conversion %p only matched at the very end of
 the text

---
 src/arg_date.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 76e4370..d33b232 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -222,16 +222,6 @@ static const char* abmon[12] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul",
 
 static const char* am_pm[2] = {"AM", "PM"};
 
-static int arg_strcasecmp(const char* s1, const char* s2) {
-    const unsigned char* us1 = (const unsigned char*)s1;
-    const unsigned char* us2 = (const unsigned char*)s2;
-    while (tolower(*us1) == tolower(*us2++))
-        if (*us1++ == '\0')
-            return 0;
-
-    return tolower(*us1) - tolower(*--us2);
-}
-
 static int arg_strncasecmp(const char* s1, const char* s2, size_t n) {
     if (n != 0) {
         const unsigned char* us1 = (const unsigned char*)s1;
@@ -459,7 +449,7 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
             case 'p': /* The locale's equivalent of AM/PM. */
                 LEGAL_ALT(0);
                 /* AM? */
-                if (arg_strcasecmp(am_pm[0], bp) == 0) {
+                if (arg_strncasecmp(am_pm[0], bp, strlen(am_pm[0])) == 0) {
                     if (tm->tm_hour > 11)
                         return (0);
 
@@ -467,7 +457,7 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
                     break;
                 }
                 /* PM? */
-                else if (arg_strcasecmp(am_pm[1], bp) == 0) {
+                else if (arg_strncasecmp(am_pm[1], bp, strlen(am_pm[1])) == 0) {
                     if (tm->tm_hour > 11)
                         return (0);
 
-- 
2.43.0


From 5af739a5e3a1a42e50c6c801cb89c9dc3cbcde6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 08/26] fix: the sample timestamp in the arg_date error message

arg_strptime() does not know %F, so the sample was printed from a zeroed
struct tm ("1900-01-00"). And when the sample does not fit its buffer,
strftime() leaves the contents undefined.
---
 src/arg_date.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index d33b232..533bea9 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -103,8 +103,9 @@ static void arg_date_errorfn(struct arg_date* parent, arg_dstr_t ds, int errorco
 
             arg_dstr_catf(ds, "illegal timestamp format \"%s\"\n", argval);
             memset(&tm, 0, sizeof(tm));
-            arg_strptime("1999-12-31 23:59:59", "%F %H:%M:%S", &tm);
-            strftime(buff, sizeof(buff), parent->format, &tm);
+            arg_strptime("1999-12-31 23:59:59", "%Y-%m-%d %H:%M:%S", &tm);
+            if (strftime(buff, sizeof(buff), parent->format, &tm) == 0)
+                buff[0] = '\0';
             arg_dstr_catf(ds, "correct format is \"%s\"\n", buff);
             break;
         }
-- 
2.43.0


From 7614c5855c422e5f7a139081f58ddfcea37d190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 09/26] fix: spurious blank line when a newline follows a full
 line of wrapped text

---
 src/argtable3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index ae1920b..300e1c2 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -901,7 +901,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
                 line_end = line_start + colwidth;
             } else {
                 /* Consume trailing spaces, except newlines */
-                while ((line_end > line_start) && isspace((int)(*(text + line_end))) && *(text + line_start) != '\n') {
+                while ((line_end > line_start) && isspace((int)(*(text + line_end))) && *(text + line_end) != '\n') {
                     line_end--;
                 }
 
-- 
2.43.0


From 66b43733b16ddb427768c5aa38ae1f5508ba3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 10/26] fix: indent the lines that follow a newline in wrapped
 text

---
 src/argtable3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index 300e1c2..f905532 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -926,7 +926,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
         arg_dstr_cat(ds, "\n");
 
         /* Initialize another line */
-        if (line_end < textlen) {
+        if (line_start < textlen) {
             unsigned i;
 
             for (i = 0; i < lmargin; i++) {
-- 
2.43.0


From a5ff8a9569c65d053696f258d296dba0938b80bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 11/26] fix: out-of-bounds access with an empty or comma-led
 long option list

---
 src/argtable3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index f905532..d39c216 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -134,7 +134,9 @@ static struct longoptions* alloc_longoptions(struct arg_hdr** table) {
         longoptlen += (longopts ? strlen(longopts) : 0) + 1;
         while (longopts) {
             noptions++;
-            longopts = strchr(longopts + 1, ',');
+            longopts = strchr(longopts, ',');
+            if (longopts)
+                longopts++;
         }
     } while (!(table[tabindex++]->flag & ARG_TERMINATOR));
     /*printf("%d long options consuming %d chars in total\n",noptions,longoptlen);*/
-- 
2.43.0


From 22d42ea886b93686ec23545c29a83dab17f38681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 12/26] fix: terminate the text that arg_dstr_cat() and
 arg_dstr_catc() append

When the caller has shortened the string in place, stale bytes followed.
---
 src/arg_dstr.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index 0dbb2cd..c44fda8 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -174,12 +174,16 @@ char* arg_dstr_cstr(arg_dstr_t ds) /* Interpreter whose result to return. */
 
 void arg_dstr_cat(arg_dstr_t ds, const char* str) {
     setup_append_buf(ds, (int)strlen(str) + 1);
-    memcpy(ds->data + strlen(ds->data), str, strlen(str));
+    memcpy(ds->data + strlen(ds->data), str, strlen(str) + 1);
 }
 
 void arg_dstr_catc(arg_dstr_t ds, char c) {
+    char* end;
+
     setup_append_buf(ds, 2);
-    memcpy(ds->data + strlen(ds->data), &c, 1);
+    end = ds->data + strlen(ds->data);
+    end[0] = c;
+    end[1] = '\0';
 }
 
 /*
-- 
2.43.0


From 3fbc8dba73598d50e28a0193155e19159fc3a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 13/26] fix: overlapping copy in arg_dstr_set() when str is
 part of the old string

---
 src/arg_dstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index c44fda8..2f752c9 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -140,7 +140,7 @@ void arg_dstr_set(arg_dstr_t ds, char* str, arg_dstr_freefn* free_proc) {
             ds->data = ds->sbuf;
             ds->free_proc = ARG_DSTR_STATIC;
         }
-        strcpy(ds->data, str);
+        memmove(ds->data, str, (size_t)length + 1);
     } else {
         ds->data = str;
         ds->free_proc = free_proc;
-- 
2.43.0


From 1c145b9bbed4c657480492a0a3a295b213f0e375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 14/26] fix: use after free when a command is registered again
 from its own info

---
 src/arg_cmd.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/arg_cmd.c b/src/arg_cmd.c
index a58e871..a458bb9 100644
--- a/src/arg_cmd.c
+++ b/src/arg_cmd.c
@@ -137,15 +137,6 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     assert(strlen(name) < ARG_CMD_NAME_LEN);
     assert(strlen(description) < ARG_CMD_DESCRIPTION_LEN);
 
-    /* Check if the command already exists. */
-    /* If the command exists, replace the existing command. */
-    /* If the command doesn't exist, insert the command. */
-    cmd_info = (arg_cmd_info_t*)arg_hashtable_search(s_hashtable, name);
-    if (cmd_info) {
-        arg_hashtable_remove(s_hashtable, name);
-        cmd_info = NULL;
-    }
-
     cmd_info = (arg_cmd_info_t*)xmalloc(sizeof(arg_cmd_info_t));
     memset(cmd_info, 0, sizeof(arg_cmd_info_t));
 
@@ -170,6 +161,13 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     memcpy((char*)k, name, slen_name);
 #endif
 
+    /* Check if the command already exists. */
+    /* If the command exists, replace the existing command. */
+    /* If the command doesn't exist, insert the command. */
+    /* The arguments may be part of the existing command, so they are not used from here on. */
+    if (arg_hashtable_search(s_hashtable, k))
+        arg_hashtable_remove(s_hashtable, k);
+
     arg_hashtable_insert(s_hashtable, k, cmd_info);
 }
 
-- 
2.43.0


From 1cd24f374c831b7f57bf8efbf4f0cbb04eac7046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 15/26] fix: NULL dereference when parsing with an invalid
 regular expression

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 158a922..b2b7da8 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -148,7 +148,7 @@ static int arg_rex_scanfn(struct arg_rex* parent, const char* argval) {
         /* if a match is detected, record the argument value in the arg_rex struct */
 
         rex = trex_compile(priv->pattern, &error, priv->flags);
-        is_match = trex_match(rex, argval);
+        is_match = rex ? trex_match(rex, argval) : TRex_False;
         if (!is_match)
             errorcode = ARG_ERR_REGNOMATCH;
         else
-- 
2.43.0


From 53a17f86b480e96e1b8333aa6a5414efac4ea418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 16/26] fix: heap overflow when compiling an empty regular
 expression

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index b2b7da8..d7d2782 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -904,7 +904,7 @@ TRex* trex_compile(const TRexChar* pattern, const TRexChar** error, int flags) {
     TRex* exp = (TRex*)xmalloc(sizeof(TRex));
     exp->_eol = exp->_bol = NULL;
     exp->_p = pattern;
-    exp->_nallocated = (int)(scstrlen(pattern) * sizeof(TRexChar));
+    exp->_nallocated = (int)(scstrlen(pattern) + 1);
     exp->_nodes = (TRexNode*)xmalloc((size_t)exp->_nallocated * sizeof(TRexNode));
     exp->_nsize = 0;
     exp->_matches = 0;
-- 
2.43.0


From 24f047d2af9065c2399bba58737b95cc2c8b3a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 17/26] fix: read past the end of a regular expression that
 ends in a backslash

---
 src/arg_rex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index d7d2782..6834b3a 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -416,6 +416,9 @@ static TRexChar trex_escapechar(TRex* exp) {
             case 'f':
                 exp->_p++;
                 return '\f';
+            case '\0':
+                trex_error(exp, _SC("letter expected"));
+                break;
             default:
                 return (*exp->_p++);
         }
@@ -480,6 +483,8 @@ static int trex_charnode(TRex* exp, TRexBool isclass) {
                 }
                 /* fall through */
             default:
+                if (*exp->_p == '\0')
+                    trex_error(exp, _SC("letter expected"));
                 t = *exp->_p;
                 exp->_p++;
                 return trex_newnode(exp, t);
-- 
2.43.0


From c5875898f335fa568d6c80247f1628299cc2766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 18/26] fix: range check of regular expression classes compared
 a node index

Long patterns with a valid range such as [0-9] were rejected.
---
 src/arg_rex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 6834b3a..214f6e6 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -514,12 +514,12 @@ static int trex_class(TRex* exp) {
             if (*exp->_p++ == ']')
                 trex_error(exp, _SC("unfinished range"));
             r = trex_newnode(exp, OP_RANGE);
-            if (first > *exp->_p)
-                trex_error(exp, _SC("invalid range"));
             if (exp->_nodes[first].type == OP_CCLASS)
                 trex_error(exp, _SC("cannot use character classes in ranges"));
             exp->_nodes[r].left = exp->_nodes[first].type;
             t = trex_escapechar(exp);
+            if (exp->_nodes[r].left > t)
+                trex_error(exp, _SC("invalid range"));
             exp->_nodes[r].right = t;
             exp->_nodes[chain].next = r;
             chain = r;
-- 
2.43.0


From 4822617ad90f746a6f1805f3b727a1660dec3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 19/26] fix: regular expression matching consumed the string
 terminator

The matcher then read past the end of the text, and "any.*" did not match
"any".
---
 src/arg_rex.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 214f6e6..258df61 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -873,12 +873,15 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             if (str == exp->_eol)
                 return str;
             return NULL;
-        case OP_DOT: {
+        case OP_DOT:
+            if (str == exp->_eol)
+                return NULL;
             str++;
-        }
             return str;
         case OP_NCLASS:
         case OP_CLASS:
+            if (str == exp->_eol)
+                return NULL;
             if (trex_matchclass(exp, &exp->_nodes[node->left], *str) ? (type == OP_CLASS ? TRex_True : TRex_False)
                                                                      : (type == OP_NCLASS ? TRex_True : TRex_False)) {
                 str++;
@@ -886,6 +889,8 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             }
             return NULL;
         case OP_CCLASS:
+            if (str == exp->_eol)
+                return NULL;
             if (trex_matchcclass(node->left, *str)) {
                 str++;
                 return str;
-- 
2.43.0


From 491e7153905c67f02af1c730345a8a92509d6e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 20/26] fix: \b in regular expressions looked at the following
 character

A boundary lies between the previous and the current character; looking
ahead missed it and read past the end of the text.
---
 src/arg_rex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 258df61..8407fc6 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -860,8 +860,8 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             return cur;
         }
         case OP_WB:
-            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) || (!isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
-                (isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
+            if ((str == exp->_bol && !isspace((int)(*str))) || (str != exp->_bol && str == exp->_eol && !isspace((int)(*(str - 1)))) ||
+                (str != exp->_bol && str != exp->_eol && !isspace((int)(*str)) != !isspace((int)(*(str - 1))))) {
                 return (node->left == 'b') ? str : NULL;
             }
             return (node->left == 'b') ? NULL : str;
-- 
2.43.0


From 6191f3b5bc96b0c2706b450f1bf6eaae471ca185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 21/26] fix: integer overflow in regular expression repetition
 counts

---
 src/arg_rex.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 8407fc6..180a55a 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -549,13 +549,11 @@ static int trex_class(TRex* exp) {
 
 static int trex_parsenumber(TRex* exp) {
     int ret = *exp->_p - '0';
-    int positions = 10;
     exp->_p++;
     while (isdigit((int)(*exp->_p))) {
         ret = ret * 10 + (*exp->_p++ - '0');
-        if (positions == 1000000000)
+        if (ret > 0xFFFF)
             trex_error(exp, _SC("overflow in numeric constant"));
-        positions *= 10;
     };
     return ret;
 }
@@ -647,7 +645,7 @@ static int trex_element(TRex* exp) {
         if (isgreedy) {
             int nnode = trex_newnode(exp, OP_GREEDY);
             exp->_nodes[nnode].left = ret;
-            exp->_nodes[nnode].right = ((p0) << 16) | p1;
+            exp->_nodes[nnode].right = (int)(((unsigned int)p0 << 16) | p1);
             ret = nnode;
         }
     }
-- 
2.43.0


From 1904c8b82bb2bcd611443a5d160e9ecf3936b334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:56 +0000
Subject: [PATCH 22/26] fix: unbounded repetition in regular expressions
 stopped at 65536

And repeating an empty match went on until that limit.
---
 src/arg_rex.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 180a55a..f9d91eb 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -766,8 +766,9 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
                 greedystop = next;
             }
 
-            while ((nmaches == 0xFFFF || nmaches < p1)) {
+            while ((p1 == 0xFFFF || nmaches < p1)) {
                 const TRexChar* stop;
+                const TRexChar* start = s;
                 if ((s = trex_matchnode(exp, &exp->_nodes[node->left], s, greedystop)) == NULL)
                     break;
                 nmaches++;
@@ -795,6 +796,13 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
                     }
                 }
 
+                /* an empty match can be repeated any number of times without getting any further */
+                if (s == start) {
+                    if (nmaches < p0)
+                        nmaches = p0;
+                    break;
+                }
+
                 if (s >= exp->_eol)
                     break;
             }
-- 
2.43.0


From df1923873bb4538d1e50b28de0344fbdb5cb5ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:01 +0000
Subject: [PATCH 23/26] fix: arg_int accepted blanks, a sign or another prefix
 after the radix prefix

"0x-5" and "0x0x5" passed for numbers. With no second sign possible,
negating the smallest long cannot happen any more either.
---
 src/arg_int.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/arg_int.c b/src/arg_int.c
index 792d217..9e388fe 100644
--- a/src/arg_int.c
+++ b/src/arg_int.c
@@ -95,6 +95,13 @@ static long int strtol0X(const char* str, const char** endptr, char X, int base)
     }
     /* printf("4) %s\n",ptr); */
 
+    /* the remainder must start with a digit: strtol() would also accept */
+    /* white space, another sign or (for hex) another prefix             */
+    if (!isalnum((int)(*ptr)) || (ptr[0] == '0' && toupper(ptr[1]) == toupper(X))) {
+        *endptr = str;
+        return 0;
+    }
+
     /* attempt conversion on remainder of string using strtol() */
     val = strtol(ptr, (char**)endptr, base);
     if (*endptr == ptr) {
@@ -103,9 +110,7 @@ static long int strtol0X(const char* str, const char** endptr, char X, int base)
         return 0;
     }
 
-    /* success (the remainder may hold a sign of its own, so saturate rather than overflow) */
-    if (s < 0 && val == LONG_MIN)
-        return LONG_MAX;
+    /* success */
     return s * val;
 }
 
-- 
2.43.0


From f757bdd4f7026e4de81aca4cf8ecc638c2927039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:38 +0000
Subject: [PATCH 24/26] fix: GNU glossary ran an entry with an empty
 description into the next line

---
 src/argtable3.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index d39c216..e3f9416 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -1015,7 +1015,10 @@ void arg_print_glossary_gnu_ds(arg_dstr_t ds, void** argtable) {
             }
 
             arg_dstr_catf(ds, "  %-25s ", syntax);
-            arg_print_formatted_ds(ds, 28, 79, glossary);
+            if (*glossary == '\0')
+                arg_dstr_cat(ds, "\n"); /* nothing to wrap, but the line must end */
+            else
+                arg_print_formatted_ds(ds, 28, 79, glossary);
         }
     } /* for each table entry */
 
-- 
2.43.0


From 6659ededc62bbece9f8c4b74bc31ada4126ce998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:34 +0000
Subject: [PATCH 25/26] build: C90 violations are warnings, not errors, under
 -Wno-error

With -Wno-error in CMAKE_C_FLAGS the library is compiled as gnu89 rather
than strict c89, so that a C++ style comment does not break the build.
Without that flag nothing changes.
---
 src/CMakeLists.txt | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 22bbc7f..74c4399 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -37,7 +37,13 @@ if(CMAKE_C_COMPILER_ID MATCHES "MSVC")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4668")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4711")
 else(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=c89")
+  # ISO C90 violations (such as C++ style comments) are errors, or only
+  # warnings where the builder asks for that with -Wno-error.
+  if(CMAKE_C_FLAGS MATCHES "-Wno-error( |$)")
+    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=gnu89")
+  else()
+    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=c89")
+  endif()
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wconversion")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wextra")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wall")
-- 
2.43.0


From bf689742531cd9ccdd7e1e0b57523bc2ddb5e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:10 +0000
Subject: [PATCH 26/26] fix: a class range under ignore-case loses characters
 when its ends differ in case

[A-z] ignoring case did not match '_', and [Z-a] matched nothing at all,
because the ends of the range were folded instead of the character.
---
 src/arg_rex.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index f9d91eb..a2213a4 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -724,13 +724,13 @@ static TRexBool trex_matchclass(TRex* exp, TRexNode* node, TRexChar c) {
     do {
         switch (node->type) {
             case OP_RANGE:
+                if (c >= node->left && c <= node->right)
+                    return TRex_True;
                 if (exp->_flags & TREX_ICASE) {
-                    if (c >= toupper(node->left) && c <= toupper(node->right))
-                        return TRex_True;
-                    if (c >= tolower(node->left) && c <= tolower(node->right))
+                    int upper = toupper((unsigned char)c), lower = tolower((unsigned char)c);
+                    if (upper >= node->left && upper <= node->right)
                         return TRex_True;
-                } else {
-                    if (c >= node->left && c <= node->right)
+                    if (lower >= node->left && lower <= node->right)
                         return TRex_True;
                 }
                 break;
-- 
2.43.0

