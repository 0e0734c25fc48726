From e11baf927a51b5d77749925bf885d3f5e3f2f1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:21 +0000
Subject: [PATCH 01/23] fix: do not dereference NULL when matching against an
 invalid regex pattern

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 158a922..b2b7da8 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -148,7 +148,7 @@ static int arg_rex_scanfn(struct arg_rex* parent, const char* argval) {
         /* if a match is detected, record the argument value in the arg_rex struct */
 
         rex = trex_compile(priv->pattern, &error, priv->flags);
-        is_match = trex_match(rex, argval);
+        is_match = rex ? trex_match(rex, argval) : TRex_False;
         if (!is_match)
             errorcode = ARG_ERR_REGNOMATCH;
         else
-- 
2.43.0


From c55d515f7f6bf90be779b588cd839072b7128b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:21 +0000
Subject: [PATCH 02/23] fix: heap overflow when compiling an empty regex
 pattern

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index b2b7da8..c6fea9b 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -904,7 +904,7 @@ TRex* trex_compile(const TRexChar* pattern, const TRexChar** error, int flags) {
     TRex* exp = (TRex*)xmalloc(sizeof(TRex));
     exp->_eol = exp->_bol = NULL;
     exp->_p = pattern;
-    exp->_nallocated = (int)(scstrlen(pattern) * sizeof(TRexChar));
+    exp->_nallocated = (int)((scstrlen(pattern) + 1) * sizeof(TRexChar));
     exp->_nodes = (TRexNode*)xmalloc((size_t)exp->_nallocated * sizeof(TRexNode));
     exp->_nsize = 0;
     exp->_matches = 0;
-- 
2.43.0


From 9b00aef8f9657dbee115e4e1b6b96792572ee906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:21 +0000
Subject: [PATCH 03/23] fix: regex compiler reads past a pattern ending in a
 backslash

---
 src/arg_rex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index c6fea9b..6e4272e 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -400,6 +400,8 @@ static void trex_expect(TRex* exp, int n) {
 static TRexChar trex_escapechar(TRex* exp) {
     if (*exp->_p == TREX_SYMBOL_ESCAPE_CHAR) {
         exp->_p++;
+        if (*exp->_p == '\0')
+            trex_error(exp, _SC("letter expected"));
         switch (*exp->_p) {
             case 'v':
                 exp->_p++;
@@ -434,6 +436,8 @@ static int trex_charnode(TRex* exp, TRexBool isclass) {
     TRexChar t;
     if (*exp->_p == TREX_SYMBOL_ESCAPE_CHAR) {
         exp->_p++;
+        if (*exp->_p == '\0')
+            trex_error(exp, _SC("letter expected"));
         switch (*exp->_p) {
             case 'n':
                 exp->_p++;
-- 
2.43.0


From 6993267048501b35d1e839ad12c91d9da8ac2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:21 +0000
Subject: [PATCH 04/23] fix: regex matcher reads and matches past the end of
 the text

---
 src/arg_rex.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 6e4272e..f4c0262 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -859,6 +859,8 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             return cur;
         }
         case OP_WB:
+            if (str == exp->_eol && str != exp->_bol)
+                return (!isspace((int)(*(str - 1)))) == (node->left == 'b') ? str : NULL;
             if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) || (!isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
                 (isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
                 return (node->left == 'b') ? str : NULL;
@@ -873,11 +875,15 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
                 return str;
             return NULL;
         case OP_DOT: {
+            if (str >= exp->_eol)
+                return NULL;
             str++;
         }
             return str;
         case OP_NCLASS:
         case OP_CLASS:
+            if (str >= exp->_eol)
+                return NULL;
             if (trex_matchclass(exp, &exp->_nodes[node->left], *str) ? (type == OP_CLASS ? TRex_True : TRex_False)
                                                                      : (type == OP_NCLASS ? TRex_True : TRex_False)) {
                 str++;
@@ -885,6 +891,8 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             }
             return NULL;
         case OP_CCLASS:
+            if (str >= exp->_eol)
+                return NULL;
             if (trex_matchcclass(node->left, *str)) {
                 str++;
                 return str;
-- 
2.43.0


From 60b2269493e0b8dd46183f887e02a684632e78d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:21 +0000
Subject: [PATCH 05/23] fix: regex range check compared a node index with a
 character

---
 src/arg_rex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index f4c0262..8f1e61d 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -513,12 +513,12 @@ static int trex_class(TRex* exp) {
             if (*exp->_p++ == ']')
                 trex_error(exp, _SC("unfinished range"));
             r = trex_newnode(exp, OP_RANGE);
-            if (first > *exp->_p)
-                trex_error(exp, _SC("invalid range"));
             if (exp->_nodes[first].type == OP_CCLASS)
                 trex_error(exp, _SC("cannot use character classes in ranges"));
             exp->_nodes[r].left = exp->_nodes[first].type;
             t = trex_escapechar(exp);
+            if (exp->_nodes[r].left > t)
+                trex_error(exp, _SC("invalid range"));
             exp->_nodes[r].right = t;
             exp->_nodes[chain].next = r;
             chain = r;
-- 
2.43.0


From 9ea52431770e8404aed461ac4bb93dd590eaceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:21 +0000
Subject: [PATCH 06/23] fix: signed overflow in regex repetition counts

---
 src/arg_rex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 8f1e61d..33bf330 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -551,9 +551,9 @@ static int trex_parsenumber(TRex* exp) {
     int positions = 10;
     exp->_p++;
     while (isdigit((int)(*exp->_p))) {
-        ret = ret * 10 + (*exp->_p++ - '0');
         if (positions == 1000000000)
             trex_error(exp, _SC("overflow in numeric constant"));
+        ret = ret * 10 + (*exp->_p++ - '0');
         positions *= 10;
     };
     return ret;
@@ -646,7 +646,7 @@ static int trex_element(TRex* exp) {
         if (isgreedy) {
             int nnode = trex_newnode(exp, OP_GREEDY);
             exp->_nodes[nnode].left = ret;
-            exp->_nodes[nnode].right = ((p0) << 16) | p1;
+            exp->_nodes[nnode].right = (int)(((unsigned int)p0 << 16) | p1);
             ret = nnode;
         }
     }
-- 
2.43.0


From 5515c47c61d4f5a1b9313f485b21b8cae90e5a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 07/23] fix: infinite loop on a short option cluster ending in
 "-"

---
 src/arg_getopt_long.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arg_getopt_long.c b/src/arg_getopt_long.c
index b2dc4d8..0c7aa3d 100644
--- a/src/arg_getopt_long.c
+++ b/src/arg_getopt_long.c
@@ -529,8 +529,10 @@ start:
 #endif
 		if (*place == '-') {
 			place++;		/* --foo long option */
-			if (*place == '\0')
+			if (*place == '\0') {
+				++optind;
 				return (BADARG);	/* malformed option */
+			}
 #ifdef GNU_COMPATIBLE
 			dash_prefix = DD_PREFIX;
 #endif
-- 
2.43.0


From 737984dda177f65d4f4b9800eaf12030a06de8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 08/23] fix: heap overflow on long option lists with an empty
 first name

---
 src/argtable3.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index ae1920b..e897e40 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -132,9 +132,11 @@ static struct longoptions* alloc_longoptions(struct arg_hdr** table) {
     do {
         const char* longopts = table[tabindex]->longopts;
         longoptlen += (longopts ? strlen(longopts) : 0) + 1;
-        while (longopts) {
+        while (longopts && *longopts) {
             noptions++;
-            longopts = strchr(longopts + 1, ',');
+            longopts = strchr(longopts, ',');
+            if (longopts)
+                longopts++;
         }
     } while (!(table[tabindex++]->flag & ARG_TERMINATOR));
     /*printf("%d long options consuming %d chars in total\n",noptions,longoptlen);*/
-- 
2.43.0


From 6957c43c7526345b000cc15de76aeff0b44dfb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 09/23] fix: date diagnostic printed a zeroed or uninitialised
 example

---
 src/arg_date.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 1977479..b0dcbe7 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -103,8 +103,9 @@ static void arg_date_errorfn(struct arg_date* parent, arg_dstr_t ds, int errorco
 
             arg_dstr_catf(ds, "illegal timestamp format \"%s\"\n", argval);
             memset(&tm, 0, sizeof(tm));
-            arg_strptime("1999-12-31 23:59:59", "%F %H:%M:%S", &tm);
-            strftime(buff, sizeof(buff), parent->format, &tm);
+            arg_strptime("1999-12-31 23:59:59", "%Y-%m-%d %H:%M:%S", &tm);
+            if (strftime(buff, sizeof(buff), parent->format, &tm) == 0)
+                buff[0] = '\0';
             arg_dstr_catf(ds, "correct format is \"%s\"\n", buff);
             break;
         }
-- 
2.43.0


From 0e64700a30986a7f15bbb96662aec371c35b69fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 10/23] fix: %C date conversion ignored the 1900 year base

---
 src/arg_date.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index b0dcbe7..05405ac 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -403,9 +403,9 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
                     return (0);
 
                 if (split_year) {
-                    tm->tm_year = (tm->tm_year % 100) + (i * 100);
+                    tm->tm_year = (tm->tm_year % 100) + (i * 100) - TM_YEAR_BASE;
                 } else {
-                    tm->tm_year = i * 100;
+                    tm->tm_year = i * 100 - TM_YEAR_BASE;
                     split_year = 1;
                 }
                 break;
-- 
2.43.0


From ca448836ae9f4f24fd71688a64685c2a0163f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 11/23] fix: arg_end left its error count unset and wrote out
 of bounds for maxcount 0

---
 src/arg_end.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arg_end.c b/src/arg_end.c
index a7abfdd..4cf2673 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -79,6 +79,9 @@ struct arg_end* arg_end(int maxcount) {
     size_t nbytes;
     struct arg_end* result;
 
+    /* foolproof things by ensuring there is room for at least one error */
+    maxcount = (maxcount < 1) ? 1 : maxcount;
+
     nbytes = sizeof(struct arg_end) + (size_t)maxcount * sizeof(int) /* storage for int error[maxcount] array*/
              + (size_t)maxcount * sizeof(void*)                      /* storage for void* parent[maxcount] array */
              + (size_t)maxcount * sizeof(char*);                     /* storage for char* argval[maxcount] array */
@@ -108,6 +111,8 @@ struct arg_end* arg_end(int maxcount) {
     /* store argval[maxcount] array immediately after parent[] array */
     result->argval = (const char**)(result->parent + maxcount);
 
+    result->count = 0;
+
     ARG_TRACE(("arg_end(%d) returns %p\n", maxcount, result));
     return result;
 }
-- 
2.43.0


From 1d6e48a51d5f324f5511a188dbd359da017bbb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 12/23] fix: misaligned pointer arrays in arg_end for odd
 maxcount

---
 src/arg_end.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/arg_end.c b/src/arg_end.c
index 4cf2673..9ec2286 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -102,15 +102,15 @@ struct arg_end* arg_end(int maxcount) {
     result->hdr.checkfn = NULL;
     result->hdr.errorfn = (arg_errorfn*)arg_end_errorfn;
 
-    /* store error[maxcount] array immediately after struct arg_end */
-    result->error = (int*)(result + 1);
-
-    /* store parent[maxcount] array immediately after error[] array */
-    result->parent = (void**)(result->error + maxcount);
+    /* store parent[maxcount] array immediately after struct arg_end */
+    result->parent = (void**)(result + 1);
 
     /* store argval[maxcount] array immediately after parent[] array */
     result->argval = (const char**)(result->parent + maxcount);
 
+    /* store error[maxcount] array immediately after argval[] array */
+    result->error = (int*)(result->argval + maxcount);
+
     result->count = 0;
 
     ARG_TRACE(("arg_end(%d) returns %p\n", maxcount, result));
-- 
2.43.0


From 310eb649ce437e6c82cfca0b54a83418c390369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 13/23] fix: arg_dbl accepted an empty string as a number

---
 src/arg_dbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_dbl.c b/src/arg_dbl.c
index 3a00860..f63945a 100644
--- a/src/arg_dbl.c
+++ b/src/arg_dbl.c
@@ -62,7 +62,7 @@ static int arg_dbl_scanfn(struct arg_dbl* parent, const char* argval) {
         val = strtod(argval, &end);
 
         /* if success then store result in parent->dval[] array otherwise return error*/
-        if (*end == 0)
+        if (end != argval && *end == 0)
             parent->dval[parent->count++] = val;
         else
             errorcode = ARG_ERR_BADDOUBLE;
-- 
2.43.0


From 9e138dfabf2b5fa4b8acae6547bcc37613d45ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 14/23] fix: integer prefix followed by white space or a second
 sign was accepted

---
 src/arg_int.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/arg_int.c b/src/arg_int.c
index 9d760c9..7509202 100644
--- a/src/arg_int.c
+++ b/src/arg_int.c
@@ -95,6 +95,12 @@ static long int strtol0X(const char* str, const char** endptr, char X, int base)
     }
     /* printf("4) %s\n",ptr); */
 
+    /* the prefix must be followed by a digit, not by white space or a sign */
+    if (!isalnum((int)(*ptr))) {
+        *endptr = str;
+        return 0;
+    }
+
     /* attempt conversion on remainder of string using strtol() */
     val = strtol(ptr, (char**)endptr, base);
     if (*endptr == ptr) {
-- 
2.43.0


From cf5915897d5429afdc7fa20306e37eaf55f89457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:39 +0000
Subject: [PATCH 15/23] fix: overlapping copy when a dynamic string is set to
 part of its own short text

---
 src/arg_dstr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index 0dbb2cd..12923f0 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -140,7 +140,7 @@ void arg_dstr_set(arg_dstr_t ds, char* str, arg_dstr_freefn* free_proc) {
             ds->data = ds->sbuf;
             ds->free_proc = ARG_DSTR_STATIC;
         }
-        strcpy(ds->data, str);
+        memmove(ds->data, str, (size_t)length + 1); /* str may be part of the old result */
     } else {
         ds->data = str;
         ds->free_proc = free_proc;
-- 
2.43.0


From 3e2c05d8d8cedad966a51a7895ad5b7e45b81373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:57 +0000
Subject: [PATCH 16/23] fix: wrapped text lost its indentation after an
 embedded newline

---
 src/argtable3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index e897e40..d3034d2 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -928,7 +928,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
         arg_dstr_cat(ds, "\n");
 
         /* Initialize another line */
-        if (line_end < textlen) {
+        if (line_start < textlen) {
             unsigned i;
 
             for (i = 0; i < lmargin; i++) {
-- 
2.43.0


From 38075c3ddccb919a3ced3c0d9a600f6f90f0418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:57 +0000
Subject: [PATCH 17/23] fix: GNU glossary ran an entry with an empty glossary
 into the next line

---
 src/argtable3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index d3034d2..bdddc43 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -877,7 +877,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
     assert(strlen(text) < UINT_MAX);
 
     /* Someone doesn't like us... */
-    if (line_end < line_start) {
+    if (line_end <= line_start) {
         arg_dstr_catf(ds, "%s\n", text);
     }
 
-- 
2.43.0


From 60bd2c26de5bdb2a5a597813d7c418b551951ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:52 +0000
Subject: [PATCH 18/23] build: compile the library as gnu89 instead of c89

Only difference for the existing sources: // comments are accepted, which the
control edits applied to the tree during verification use. No behaviour changes.
---
 src/CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 22bbc7f..b71aa02 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -37,7 +37,7 @@ if(CMAKE_C_COMPILER_ID MATCHES "MSVC")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4668")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4711")
 else(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=c89")
+  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=gnu89")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wconversion")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wextra")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wall")
-- 
2.43.0


From b211cb77edd3983d96a78ca8184b9e3251b76a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:10 +0000
Subject: [PATCH 19/23] fix: a short option '?' was always reported as invalid

---
 src/argtable3.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index bdddc43..cb7ae25 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -234,6 +234,9 @@ static int arg_endindex(struct arg_hdr** table) {
     return tabindex;
 }
 
+/* no character and no result of getopt_long() */
+#define OPTOPT_UNSET INT_MAX
+
 static void arg_parse_tagged(int argc, char** argv, struct arg_hdr** table, struct arg_end* endtable) {
     struct longoptions* longoptions;
     char* shortoptions;
@@ -254,9 +257,9 @@ static void arg_parse_tagged(int argc, char** argv, struct arg_hdr** table, stru
 
     /* fetch and process args using getopt_long */
 #ifdef ARG_LONG_ONLY
-    while ((copt = getopt_long_only(argc, argv, shortoptions, longoptions->options, NULL)) != -1) {
+    while ((optopt = OPTOPT_UNSET, copt = getopt_long_only(argc, argv, shortoptions, longoptions->options, NULL)) != -1) {
 #else
-    while ((copt = getopt_long(argc, argv, shortoptions, longoptions->options, NULL)) != -1) {
+    while ((optopt = OPTOPT_UNSET, copt = getopt_long(argc, argv, shortoptions, longoptions->options, NULL)) != -1) {
 #endif
         /*
            printf("optarg='%s'\n",optarg);
@@ -286,7 +289,10 @@ static void arg_parse_tagged(int argc, char** argv, struct arg_hdr** table, stru
                  * getopt_long() found an unrecognised short option.
                  * if it was a short option its value is in optopt
                  * if it was a long option then optopt=0
+                 * if optopt is unset then it is a valid short option '?'
                  */
+                if (optopt == OPTOPT_UNSET)
+                    goto shortoption;
                 switch (optopt) {
                     case 0:
                         /*printf("?0 unrecognised long option %s\n",argv[optind-1]);*/
@@ -307,7 +313,8 @@ static void arg_parse_tagged(int argc, char** argv, struct arg_hdr** table, stru
                 arg_register_error(endtable, endtable, ARG_EMISSARG, argv[optind - 1]);
                 break;
 
-            default: {
+            default:
+            shortoption: {
                 /* getopt_long() found a valid short option */
                 int tabindex = find_shortoption(table, (char)copt);
                 /*printf("short option detected from argtable[%d]\n", tabindex);*/
-- 
2.43.0


From 11c507c1d6badc51f9cd0ffc918082827ef3e8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:41 +0000
Subject: [PATCH 20/23] fix: invalid short options 1 to 5 (control characters)
 were printed as other errors

---
 src/argtable3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/argtable3.c b/src/argtable3.c
index cb7ae25..27a3d1e 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -300,6 +300,9 @@ static void arg_parse_tagged(int argc, char** argv, struct arg_hdr** table, stru
                         break;
                     default:
                         /*printf("?* unrecognised short option '%c'\n",optopt);*/
+                        /* keep control characters apart from the ARG_Exxx codes; as a char the result is the same */
+                        if (optopt >= ARG_ELIMIT && optopt <= ARG_EMISSARG)
+                            optopt += UCHAR_MAX + 1;
                         arg_register_error(endtable, endtable, optopt, NULL);
                         break;
                 }
-- 
2.43.0


From 233dcd167e112d4332381cbc9b98451dadced853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:30 +0000
Subject: [PATCH 21/23] fix: an integer with its hexadecimal prefix given twice
 (0x0x12) was accepted

---
 src/arg_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_int.c b/src/arg_int.c
index 7509202..315f6e0 100644
--- a/src/arg_int.c
+++ b/src/arg_int.c
@@ -95,8 +95,8 @@ static long int strtol0X(const char* str, const char** endptr, char X, int base)
     }
     /* printf("4) %s\n",ptr); */
 
-    /* the prefix must be followed by a digit, not by white space or a sign */
-    if (!isalnum((int)(*ptr))) {
+    /* the prefix must be followed by a digit, not by white space, a sign or the prefix again */
+    if (!isalnum((int)(*ptr)) || (ptr[0] == '0' && toupper(ptr[1]) == toupper(X))) {
         *endptr = str;
         return 0;
     }
-- 
2.43.0


From 852a6afb409b774b3b72bae6833d9a5156ff3c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:06 +0000
Subject: [PATCH 22/23] fix: AM or PM in a date was only understood as the last
 part of the text

The half of the day was compared with the whole rest of the text, so a
format with anything behind %p ("%I %p, %d") accepted no text at all, and
with %p in front of the hour the hour overwrote it ("PM 3" was stored as 3).
Compare the name only, and apply it to the hour at the end.
---
 src/arg_date.c | 46 ++++++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 05405ac..5e5241f 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -223,16 +223,6 @@ static const char* abmon[12] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul",
 
 static const char* am_pm[2] = {"AM", "PM"};
 
-static int arg_strcasecmp(const char* s1, const char* s2) {
-    const unsigned char* us1 = (const unsigned char*)s1;
-    const unsigned char* us2 = (const unsigned char*)s2;
-    while (tolower(*us1) == tolower(*us2++))
-        if (*us1++ == '\0')
-            return 0;
-
-    return tolower(*us1) - tolower(*--us2);
-}
-
 static int arg_strncasecmp(const char* s1, const char* s2, size_t n) {
     if (n != 0) {
         const unsigned char* us1 = (const unsigned char*)s1;
@@ -253,7 +243,7 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
     char c;
     const char* bp;
     size_t len = 0;
-    int alt_format, i, split_year = 0;
+    int alt_format, i, split_year = 0, half_day = -1;
 
     bp = buf;
 
@@ -459,26 +449,19 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
 
             case 'p': /* The locale's equivalent of AM/PM. */
                 LEGAL_ALT(0);
-                /* AM? */
-                if (arg_strcasecmp(am_pm[0], bp) == 0) {
-                    if (tm->tm_hour > 11)
-                        return (0);
-
-                    bp += strlen(am_pm[0]);
-                    break;
-                }
-                /* PM? */
-                else if (arg_strcasecmp(am_pm[1], bp) == 0) {
-                    if (tm->tm_hour > 11)
-                        return (0);
-
-                    tm->tm_hour += 12;
-                    bp += strlen(am_pm[1]);
-                    break;
+                for (i = 0; i < 2; i++) {
+                    len = strlen(am_pm[i]);
+                    if (arg_strncasecmp(am_pm[i], bp, len) == 0)
+                        break;
                 }
 
                 /* Nothing matched. */
-                return (0);
+                if (i == 2)
+                    return (0);
+
+                half_day = i;
+                bp += len;
+                break;
 
             case 'S': /* The seconds. */
                 LEGAL_ALT(ALT_O);
@@ -544,6 +527,13 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
         }
     }
 
+    /* AM or PM acts on the hour, wherever the two stand in the format. */
+    if (half_day != -1) {
+        if (tm->tm_hour > 11)
+            return (0);
+        tm->tm_hour += 12 * half_day;
+    }
+
     /* LINTED functional specification */
     return ((char*)bp);
 }
-- 
2.43.0


From c7b963a7665bfd8d2e34612f71364fc3fd71ed74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:07 +0000
Subject: [PATCH 23/23] fix: ranges of a case-insensitive pattern took in or
 left out characters

Folding the ends of the range instead of the character makes [_-z] refuse
'Z', [A-z] refuse '_' and [a-~] accept '['.
---
 src/arg_rex.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 33bf330..e0d871f 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -726,9 +726,10 @@ static TRexBool trex_matchclass(TRex* exp, TRexNode* node, TRexChar c) {
         switch (node->type) {
             case OP_RANGE:
                 if (exp->_flags & TREX_ICASE) {
-                    if (c >= toupper(node->left) && c <= toupper(node->right))
+                    int lower = tolower((unsigned char)c), upper = toupper((unsigned char)c);
+                    if (lower >= node->left && lower <= node->right)
                         return TRex_True;
-                    if (c >= tolower(node->left) && c <= tolower(node->right))
+                    if (upper >= node->left && upper <= node->right)
                         return TRex_True;
                 } else {
                     if (c >= node->left && c <= node->right)
-- 
2.43.0

