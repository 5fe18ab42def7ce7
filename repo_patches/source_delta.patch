From 7274ac4658b330e158b90d92f266a1a52bfd0cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:38 +0000
Subject: [PATCH 01/13] fix: name check indexed its tables with -1 when the
 automaton had no transition (names with 'yy')

---
 bccheck.c | 9 +++++++--
 lex1.c    | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bccheck.c b/bccheck.c
index 5e82a9b..5cdce8b 100644
--- a/bccheck.c
+++ b/bccheck.c
@@ -7,9 +7,7 @@
 /* Copyright (C) Richard P. Curnow  2001 */
 /* LICENCE */
 
-#if defined(TEST)
 #include <stdio.h>
-#endif
 
 #include "bccheck.h"
 
@@ -90,6 +88,13 @@ int is_bad_cmene(char *word, int *split, char **ladoi, char **tail)/*{{{*/
     int mc = mapchar[(unsigned int) *p & 0xff];
     if (mc == TCM) continue;
     ns = bad_cmene_next_state(cs, mc);
+    if (ns < 0) {
+      /* No transition (e.g. 'yy' after a consonant): bad, doesn't split */
+      if (split) *split = 0;
+      if (ladoi) *ladoi = NULL;
+      if (tail) *tail = NULL;
+      return 1;
+    }
     res = bad_cmene_exitval[ns];
     /* Deal with early exit conditions */
     if (res == BC_CMENE_BAD_NOSPLIT || res == BC_CMENE_BAD_SPLIT) {
diff --git a/lex1.c b/lex1.c
index 0042c2b..a311cfc 100644
--- a/lex1.c
+++ b/lex1.c
@@ -184,7 +184,11 @@ process_cmene(char *buf, int start_line, int start_column,
 {
   TreeNode *tok;
 
-  if (is_bad)  {
+  if (is_bad && !ladoi) {
+    fprintf(stderr, "Unrecognizable word '%s' at line %d column %d\n",
+            buf, start_line, start_column);
+    had_bad_tokens = 1;
+  } else if (is_bad)  {
     char prefix[65536], labuf[8];
     char *p, *q;
     int len1, len2;
-- 
2.43.0


From e7a7e97a4b8d32620af50ef82ef15dc3fb219567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:00 +0000
Subject: [PATCH 02/13] fix: an unclosed comment at end of file made the lexer
 loop forever

---
 lex1.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lex1.c b/lex1.c
index a311cfc..fc1778d 100644
--- a/lex1.c
+++ b/lex1.c
@@ -413,6 +413,10 @@ parse_file(FILE *f)
       } else if (c == '\n') {
         line++;
         column=0;
+      } else if (c == EOF) {
+        fprintf(stderr, "Unclosed ( at end of file\n");
+        had_bad_tokens = 1;
+        goto done;
       }
       
     } else {
-- 
2.43.0


From 804047a42963fdfb9d46a5796b9437505fd30a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:00 +0000
Subject: [PATCH 03/13] fix: words after a digit or ':' were given the position
 of that digit

---
 lex1.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lex1.c b/lex1.c
index fc1778d..58e54da 100644
--- a/lex1.c
+++ b/lex1.c
@@ -428,11 +428,13 @@ parse_file(FILE *f)
         SET_START;
         strcpy(buffer, numbers[(int)(c-'0')]);
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else if (c == ':') {
         CLOSE_TOKEN;
         SET_START;
         strcpy(buffer, "pi'e");
         process_word(buffer, start_line, start_column);
+        new_tok = 1;
       } else {               
         switch (c) {
           case ' ':
-- 
2.43.0


From 0b86c89e09ea6a8d60b8ace1aa49442a6d28009a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:00 +0000
Subject: [PATCH 04/13] fix: overlong words and names with many la/lai/doi
 overran the lexer's buffers and stack

---
 lex1.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lex1.c b/lex1.c
index 58e54da..2ba5503 100644
--- a/lex1.c
+++ b/lex1.c
@@ -7,6 +7,7 @@
 /* COPYRIGHT */
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <ctype.h>
 #include <string.h>
 #include <assert.h>
@@ -189,9 +190,11 @@ process_cmene(char *buf, int start_line, int start_column,
             buf, start_line, start_column);
     had_bad_tokens = 1;
   } else if (is_bad)  {
-    char prefix[65536], labuf[8];
+    char *prefix, *labuf;
     char *p, *q;
     int len1, len2;
+    prefix = new_array(char, 1 + (ladoi - buf));
+    labuf = new_array(char, 1 + (tail - ladoi));
     for (p=buf, q=prefix, len1=0; p!=ladoi; len1++) *q++ = *p++;
     *q = 0;
     for (p=ladoi, q=labuf, len2=0; p!=tail; len2++) *q++ = *p++;
@@ -199,6 +202,8 @@ process_cmene(char *buf, int start_line, int start_column,
 
     if (prefix[0]) process_word(prefix, start_line, start_column);
     process_word(labuf, start_line, start_column+len1);
+    Free(prefix);
+    Free(labuf);
     process_word(tail, start_line, start_column+len1+len2);
   } else {
     tok = new_node();
@@ -220,7 +225,7 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
   char **pw;
   char *p, *q;
   int incr;
-  char buf2[65536];
+  static char buf2[65536];
   for (pw=pws; pw<pwe; pw++) {
     incr = 0;
     for (p=*pw, q=buf2; p<*(pw+1);) {
@@ -245,9 +250,11 @@ add_preceding_cmavo(char **pws, char **pwe, int start_line, int *column)
 static int
 process_word(char *buf, int start_line, int start_column)
 {
-  char buf2[65536];
+  /* Static, because this recurses for each la/lai/doi inside a cmene (neither
+     is in use across the recursive call) */
+  static char buf2[65536];
   TreeNode *tok;
-  char *word_starts[65536];
+  static char *word_starts[65536];
   char **pws, **pwe;
   MorfType morf_type;
   struct morf_xtra mx;
@@ -455,6 +462,11 @@ parse_file(FILE *f)
             break;
           default:
             SET_START;
+            if (p == buffer + sizeof(buffer) - 1) {
+              fprintf(stderr, "Word too long at line %d column %d\n",
+                      start_line, start_column);
+              exit(1);
+            }
             *p++ = c;
             break;
         }
-- 
2.43.0


From a6382c0edbfd54faaa4457ee3963aba35668e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:00 +0000
Subject: [PATCH 05/13] fix: zoi delimiters longer than 63 characters overran
 their buffer

---
 lex1.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lex1.c b/lex1.c
index 2ba5503..7e98364 100644
--- a/lex1.c
+++ b/lex1.c
@@ -21,7 +21,7 @@
 
 static char zoi_form[8]; /* la'o or zoi */
 static int  zoi_delim_next;
-static char zoi_delim[64];
+static char *zoi_delim;
 static int zoi_start_line, zoi_start_col;
 static char *zoi_data;
 
@@ -271,7 +271,8 @@ process_word(char *buf, int start_line, int start_column)
       tok->data.zoi.text = zoi_data;
       add_token(tok);
       zoi_data = NULL;
-      zoi_delim[0] = 0;
+      Free(zoi_delim);
+      zoi_delim = NULL;
     } else {
       if (zoi_data[0]) {
         zoi_data = extend_string(zoi_data, " ");
@@ -282,7 +283,7 @@ process_word(char *buf, int start_line, int start_column)
   }
 
   if (zoi_delim_next) {
-    strcpy(zoi_delim, buf);
+    zoi_delim = new_string(buf);
     zoi_data = new_string("");
     zoi_delim_next = 0;
     return 1;
@@ -400,7 +401,7 @@ parse_file(FILE *f)
   int new_tok;
   int paren_depth = 0;
 
-  zoi_delim[0] = 0;
+  zoi_delim = NULL;
   zoi_delim_next = 0;
 
   line = 1;
-- 
2.43.0


From 039c1444cfbc358003cfc6a128fab28bd5da80d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:00 +0000
Subject: [PATCH 06/13] fix: zoi at the end of the text without its delimiter
 was dropped silently

---
 lex1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex1.c b/lex1.c
index 7e98364..a3022c4 100644
--- a/lex1.c
+++ b/lex1.c
@@ -477,7 +477,7 @@ parse_file(FILE *f)
 
 done:
 
-  if (zoi_data) {
+  if (zoi_data || zoi_delim_next) {
     fprintf(stderr, "Unclosed %s construction at end of file\n", zoi_form);
     had_bad_tokens = 1;
   }
-- 
2.43.0


From 672a17c2e12d5ffeac47aa6efe3b1abff259af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:01 +0000
Subject: [PATCH 07/13] fix: an empty lo'u le'u quotation aborted the program

---
 lex2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lex2.c b/lex2.c
index 133f5f4..c13f385 100644
--- a/lex2.c
+++ b/lex2.c
@@ -418,7 +418,8 @@ handle_lohu(void)
       } while (1);
 
       x->type = N_LOhU;
-      x->data.lohu.text = build_string_from_nodes(start, end);
+      x->data.lohu.text = (start == term) ? new_string("")
+                                          : build_string_from_nodes(start, end);
 
       term->next->prev = x;
       x->next = term->next;
-- 
2.43.0


From a1001e7a9232a9686938a6245dc158405ff7bc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:01 +0000
Subject: [PATCH 08/13] fix: bu at the start of the text aborted the program

---
 lex2.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lex2.c b/lex2.c
index c13f385..b02f69f 100644
--- a/lex2.c
+++ b/lex2.c
@@ -586,6 +586,11 @@ handle_bu(void)
     if (x->type == N_CMAVO &&
         x->data.cmavo.selmao == BU) {
       y = x->prev;
+      if (y == &toks) {
+        fprintf(stderr, "Cannot have 'bu' at the start of the text\n");
+        had_bad_tokens = 1; /* flag back to main */
+        continue;
+      }
       x->type = N_BU;
       switch (y->type) {
         case N_CMAVO:
-- 
2.43.0


From c4de01842e1c815ea6fd19b283da3c646c3d5575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:01 +0000
Subject: [PATCH 09/13] fix: a lo'u quotation as part of a zei compound aborted
 the program

---
 lex2.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lex2.c b/lex2.c
index b02f69f..f437513 100644
--- a/lex2.c
+++ b/lex2.c
@@ -228,13 +228,16 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         len += strlen(y->data.zei.sep_with_zei);
         break;
 
+      case N_LOhU:
+        len += 10 + strlen(y->data.lohu.text);
+        break;
+
       case N_BROKEN_ERASURE:
         len += strlen(DEFECTIVE_ERASURE);
         break;
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
@@ -281,13 +284,18 @@ build_string_from_nodes(TreeNode *start, TreeNode *end)
         strcat(result, y->data.zei.sep_with_zei);
         break;
 
+      case N_LOhU:
+        strcat(result, "lo'u ");
+        strcat(result, y->data.lohu.text);
+        strcat(result, " le'u");
+        break;
+
       case N_BROKEN_ERASURE:
         strcat(result, DEFECTIVE_ERASURE);
         break;
      
       case N_NONTERM:
       case N_MARKER:
-      case N_LOhU:
       case N_BU:
         assert(0);
         break;
-- 
2.43.0


From efb6e44eeba757edc72baa429233e72b86a66889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:33 +0000
Subject: [PATCH 10/13] fix: the dictionary builder cut off the last character
 of a file without a final newline, and split overlong lines

---
 smujajgau.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index 2937bcb..65e1d1f 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -517,7 +517,13 @@ do_file(FILE *f)
   char *p, *q, *r;
 
   while (fgets(line, sizeof(line), f)) {
-    line[strlen(line)-1] = 0;
+    char *eol = strchr(line, '\n');
+    if (eol) {
+      *eol = 0;
+    } else if (!feof(f)) {
+      fprintf(stderr, "Line [%.60s...] is too long\n", line);
+      exit(1);
+    }
     p = line;
     while (*p && isspace(*p)) p++;
     if (!*p) {
-- 
2.43.0


From 9e9fb7ce09d1969b6ac5747f676e90bf21227074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:33 +0000
Subject: [PATCH 11/13] fix: keys or texts of more than 255 characters
 corrupted the dictionary image

---
 smujajgau.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smujajgau.c b/smujajgau.c
index 65e1d1f..5d72a74 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -113,10 +113,16 @@ add_defn(char *key, char *val)
 {
   Trans *new_trans;
   Link *new_link;
+
+  /* The lengths are stored in one byte each */
+  if ((strlen(key) > 255) || (strlen(val) > 255)) {
+    fprintf(stderr, "Entry for [%.60s] is too long\n", key);
+    exit(1);
+  }
+
   new_trans = new(Trans);
   new_link = new(Link);
 
-
   new_trans->action = DEFINE;
   new_trans->key = new_string(key);
   new_trans->val = new_string(val);
-- 
2.43.0


From 8d5255143cc952a057fb74f06cf17c537cd35eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:33 +0000
Subject: [PATCH 12/13] fix: the dictionary builder read in front of a key of
 less than two characters

---
 smujajgau.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/smujajgau.c b/smujajgau.c
index 5d72a74..2189944 100644
--- a/smujajgau.c
+++ b/smujajgau.c
@@ -444,8 +444,7 @@ static void
 handle_mapping(char *src, char *dest)
 {
   int len = strlen(src);
-  int defines_place = isdigit(src[len-1]);
-  int specific = isdigit(src[len-2]);
+  int defines_place = (len > 0) && isdigit(src[len-1]);
   char buffer[65536], buffer2[65536], buffer3[65536];
   char *canon;
 
-- 
2.43.0


From ddb366fcd915ea9de00d6107a1cf12b2684a5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 13/13] fix: a text ending in a number or an unfinished tense
 crashed the program

---
 categ.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/categ.c b/categ.c
index 4377bd1..9f66d8b 100644
--- a/categ.c
+++ b/categ.c
@@ -379,9 +379,13 @@ static void categorize_tenses(TreeNode *head)/*{{{*/
     }
     if (y == head) {
       /* Run to end of text */
-      insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
-      insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
-      next_tok = last_ok_token->next->next; /* marker->next */
+      if (last_ok_token) {
+        insert_marker_before(x, PRIVATE_START_TENSE, "PRIVATE_START_TENSE");
+        insert_marker_after(last_ok_token, PRIVATE_END_TENSE, "PRIVATE_END_TENSE");
+        next_tok = last_ok_token->next->next; /* marker->next */
+      } else {
+        next_tok = x->next; /* Start of a tense or number that is never completed */
+      }
     }
 
 next_outer_loop:
-- 
2.43.0

