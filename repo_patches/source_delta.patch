From 6271d73e394780fc1c79ccd21ec73fda16dd0c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 01/40] fix: keep the output stream object alive while it is in
 use

---
 src/hob3l/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 706848f..0d49910 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -743,7 +743,8 @@ int main(int argc, char **argv)
                 opt.out_file_name, strerror(errno));
             exit(EXIT_FAILURE);
         }
-        sout = CP_STREAM_FROM_FILE(fout);
+        /* not CP_STREAM_FROM_FILE(fout): it would only live in this block */
+        sout->data = fout;
 
         if (opt.dump == DUMP_NONE) {
             if (has_suffix(opt.out_file_name, ".stl")) {
-- 
2.43.0


From f6f865fdc1ba642aa529a49407cec640b4ec4581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 02/40] fix: detect short writes of binary output and report
 the actual write error

---
 src/hob3lbase/stream.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hob3lbase/stream.c b/src/hob3lbase/stream.c
index f4fbc38..3b0b428 100644
--- a/src/hob3lbase/stream.c
+++ b/src/hob3lbase/stream.c
@@ -1,6 +1,8 @@
 /* -*- Mode: C -*- */
 /* Copyright (C) 2018-2024 by Henrik Theiling, License: GPLv3, see LICENSE file */
 
+#include <errno.h>
+#include <string.h>
 #include <hob3lbase/stream.h>
 #include <hob3lbase/panic.h>
 
@@ -29,7 +31,7 @@ extern void cp_stream_vfprintf(
     int i = vfprintf(f, form, va);
     if (i < 0) {
         cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
-            strerror(ferror(f)));
+            strerror(errno));
     }
 }
 
@@ -42,8 +44,8 @@ extern void cp_stream_fwrite(
     size_t size)
 {
     size_t i = fwrite(buff, 1, size, f);
-    if (i == 0) {
+    if (i < size) {
         cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
-            strerror(ferror(f)));
+            strerror(errno));
     }
 }
-- 
2.43.0


From 698c2b9b91edbc6a63c1e29289f9f53b57f07d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 03/40] fix: fail when the output on stdout cannot be flushed

---
 src/hob3l/main.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 0d49910..b1d6b72 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -786,9 +786,13 @@ int main(int argc, char **argv)
     if (fout != NULL) {
         if (fclose(fout) != 0) {
             cp_panic(CP_FILE, CP_LINE, "Unable to close output file '%s': %s\n",
-                opt.out_file_name, strerror(ferror(fout)));
+                opt.out_file_name, strerror(errno));
         }
     }
+    else
+    if (fflush(stdout) != 0) {
+        cp_panic(CP_FILE, CP_LINE, "Unable to write output: %s\n", strerror(errno));
+    }
 
     /* print error */
     if (!ok) {
-- 
2.43.0


From 38573823db28aa01c1bb4db0a496026adb78ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 04/40] fix: report out of memory when a string cannot grow

---
 src/hob3lbase/vchar.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/hob3lbase/vchar.c b/src/hob3lbase/vchar.c
index 4cd3448..b4b93e2 100644
--- a/src/hob3lbase/vchar.c
+++ b/src/hob3lbase/vchar.c
@@ -3,6 +3,7 @@
 
 #include <stdio.h>
 #include <hob3lbase/vchar.h>
+#include <hob3lbase/alloc.h>
 
 /**
  * Finalise/discard a vector.
@@ -34,7 +35,12 @@ static void v_grow(
         assert(new_alloc > vec->alloc);
     }
 
-    vec->data = realloc(vec->data, sizeof(vec->data[0]) * new_alloc);
+    char *new_data = realloc(vec->data, sizeof(vec->data[0]) * new_alloc);
+    if (new_data == NULL) {
+        cp_panic(CP_FILE, CP_LINE, "Out of memory: %"CP_FZU" * %"CP_FZU"\n",
+            new_alloc, sizeof(vec->data[0]));
+    }
+    vec->data = new_data;
     vec->alloc = new_alloc;
 }
 
-- 
2.43.0


From 81d8f48e64bafb554820d4b9865986e16f4bc197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 05/40] fix: do not take a file as complete after a read error

---
 src/hob3l/syn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 3ba8d31..c9f2fc4 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -1007,11 +1007,11 @@ static bool read_file(
         size_t cnt = fread(buff, 1, sizeof(buff), f->file);
         assert(cnt <= sizeof(buff));
         if (cnt == 0) {
-            if (feof(f->file)) {
+            if (feof(f->file) && !ferror(f->file)) {
                 break;
             }
             cp_vchar_printf(&err->msg, "File read error: %s.\n",
-                strerror(ferror(f->file)));
+                strerror(errno));
             err->loc = include_loc;
             return false;
         }
-- 
2.43.0


From d4406e0429df33ef5b6e2540007927edd8784985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 06/40] fix: report the right line for a token at the start of
 a line

---
 src/hob3l/syn-msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index d5b62ba..5a1aaf5 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -17,7 +17,7 @@ static int cmp_line(
     /* We know that we can access the next array element,
      * because if we point to the last entry, we know that
      * key == elem[0] as the last line is empty. */
-    if (key > elem[1]) {
+    if (key >= elem[1]) {
         return +1;
     }
     return 0;
-- 
2.43.0


From 228704982b0c98f7e8fac7f177a03f322c32cb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 07/40] sim: guarded hook to run the layer phase under
 simulated workers (HOB3L_SIM)

---
 src/hob3l/main.c | 53 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index b1d6b72..8d9be0c 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -122,6 +122,59 @@ static bool process_stack_csg(
     return true;
 }
 
+#ifdef HOB3L_SIM
+/* Simulation hook (off by default): the simulator runs the layer phase in
+ * several workers, each with its own pool, in an order it decides. */
+typedef bool (*hob3l_sim_stack_fn_t)(
+    cp_opt_t *, cp_pool_t *, cp_err_t *, cp_csg2_tree_t *, cp_csg2_tree_t *,
+    size_t *, size_t);
+
+extern int hob3l_sim_workers(void);
+
+extern bool hob3l_sim_stack(
+    hob3l_sim_stack_fn_t fn,
+    cp_opt_t *opt,
+    cp_pool_t **pool,
+    cp_err_t **err,
+    cp_csg2_tree_t *csg2,
+    cp_csg2_tree_t *csg2b,
+    size_t *zi_p,
+    size_t  zi_count);
+
+static bool process_stack_csg_sim(
+    cp_opt_t *opt,
+    cp_pool_t *pool,
+    cp_err_t *err,
+    cp_csg2_tree_t *csg2,
+    cp_csg2_tree_t *csg2b,
+    size_t *zi_p,
+    size_t  zi_count)
+{
+    cp_pool_t w_pool[16], *w_pool_p[16];
+    cp_err_t w_err[16], *w_err_p[16];
+    int n = hob3l_sim_workers();
+    if ((n <= 0) || (n > 16)) {
+        return process_stack_csg(opt, pool, err, csg2, csg2b, zi_p, zi_count);
+    }
+    for (int k = 0; k < n; k++) {
+        cp_pool_init(&w_pool[k]);
+        CP_ZERO(&w_err[k]);
+        w_pool_p[k] = &w_pool[k];
+        w_err_p[k] = &w_err[k];
+    }
+    bool ok = hob3l_sim_stack(
+        process_stack_csg, opt, w_pool_p, w_err_p, csg2, csg2b, zi_p, zi_count);
+    for (int k = 0; !ok && (k < n); k++) {
+        if (w_err[k].msg.size > 0) {
+            *err = w_err[k];
+            break;
+        }
+    }
+    return ok;
+}
+#define process_stack_csg process_stack_csg_sim
+#endif /* HOB3L_SIM */
+
 #if 0 /* FIXME: diff algo */
 /**
  * Second run through the layer stack: XOR between two layers plus
-- 
2.43.0


From 41648b93e077be387f5605f46e7c4507bf8bd22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:21 +0000
Subject: [PATCH 08/40] fix: do not crash in PS output for a layer without
 content

---
 src/hob3l/csg2-2ps.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/csg2-2ps.c b/src/hob3l/csg2-2ps.c
index 623fd48..9796bef 100644
--- a/src/hob3l/csg2-2ps.c
+++ b/src/hob3l/csg2-2ps.c
@@ -214,6 +214,9 @@ static void layer_put_ps(
     if (zi != r->zi) {
         return;
     }
+    if (cp_csg_add_size(r->root) == 0) {
+        return;
+    }
     v_csg2_put_ps(k, t, zi, &r->root->add);
 }
 
-- 
2.43.0


From 0d4543d1233788d5bef9c882a38c20735ce2790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 09/40] fix: make formatted printing into a string stream use
 its argument list

---
 include/hob3lbase/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hob3lbase/stream.h b/include/hob3lbase/stream.h
index 80f5f41..be587b5 100644
--- a/include/hob3lbase/stream.h
+++ b/include/hob3lbase/stream.h
@@ -25,7 +25,7 @@
 #define CP_STREAM_FROM_VCHAR(vchar) \
     (&(cp_stream_t){ \
         .data = (vchar), \
-        .vprintf = (cp_stream_vprintf_t)cp_vchar_printf, \
+        .vprintf = (cp_stream_vprintf_t)cp_vchar_vprintf, \
         .write = (cp_stream_write_t)cp_vchar_append_arr, \
     })
 
-- 
2.43.0


From ecf79f3589ff66e5210beda74a936603af88644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 10/40] fix: report an unknown colour name instead of crashing

---
 src/hob3l/gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index f2fe110..cc777a7 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -81,6 +81,9 @@ extern bool cp_color_by_name(
 
     /* by name */
     color_value_t const *c = color_find(name, len);
+    if (c == NULL) {
+        return false;
+    }
     rgb->r = (c->rgb >> 16) & 0xff;
     rgb->g = (c->rgb >> 8)  & 0xff;
     rgb->b = (c->rgb)       & 0xff;
-- 
2.43.0


From 026dec90437fe8e2c61aaeb49f52da34f17e5420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:56 +0000
Subject: [PATCH 11/40] fix: keep evaluating the other parameters after an
 unknown one

---
 src/hob3l/scad.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 43078f4..2ce9675 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -741,8 +741,12 @@ static bool get_arg(
                     goto get;
                 }
             }
-            return msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
-                "Unknown parameter name '%s'.", a->key);
+            if (!msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
+                "Unknown parameter name '%s'.", a->key))
+            {
+                return false;
+            }
+            continue;
         }
 
     get:
-- 
2.43.0


From f09481639ca2ee45932c4adda46afaa71d585b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 12/40] fix: do not fail on an intersection whose trailing
 children are empty

---
 src/hob3l/csg3.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 2bf0ac5..f897fbd 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -256,6 +256,12 @@ static bool csg3_from_intersection(
     }
 
     csg3_cut_push_add(&cut, &add);
+    if (cut.size == 1) {
+        /* the trailing children were empty */
+        cp_v_append(r, &cp_v_nth(&cut, 0)->add);
+        cp_v_fini(&cut);
+        return true;
+    }
     assert(cut.size >= 2);
 
     cp_csg_cut_t *o = cp_csg_new(*o, s->loc);
-- 
2.43.0


From 89a356dcd7db61ea1d978b1a8d9134748074d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 13/40] fix: report an XML comment cut off by the end of file
 instead of looping

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 9a60ef5..74b03d3 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -443,6 +443,9 @@ static bool skip_comment(
             TRY(expect(p, "-->"));
             return true;
         }
+        if (p->cur == 0) {
+            ERR(p, p->loc, "Premature end of file inside comment.\n");
+        }
         TRY(lex_next(p));
     }
 }
-- 
2.43.0


From c29f4fae3c9dafeefbeb7182fe794f7155535891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 14/40] fix: report a namespace attribute without value instead
 of crashing

---
 src/hob3l/xml-parse.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 74b03d3..1533556 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -421,6 +421,13 @@ static bool parse_attr_list(
         }
         assert(attr->next == NULL);
 
+        if ((attr->child == NULL) && (
+            ((attr->ns_prefix != NULL) && strequ(attr->ns_prefix, "xmlns")) ||
+            ((attr->ns_prefix == NULL) && strequ(attr->data, "xmlns"))))
+        {
+            ERR(p, attr->loc, "Expected a value for the namespace attribute.\n");
+        }
+
         if ((attr->ns_prefix != NULL) && strequ(attr->ns_prefix, "xmlns")) {
             attr->next = c->ns_map;
             c->ns_map = attr;
-- 
2.43.0


From 41d56becf8f166389cd33342df919c957fb81e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 15/40] fix: accept an SVG path that draws nothing

---
 src/hob3l/svg-parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index c968d0a..85a66c2 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -346,6 +346,10 @@ static void path_fini(
     cp_loc_t loc)
 {
     path_end(p, loc);
+    if (p->poly == NULL) {
+        /* nothing was drawn */
+        return;
+    }
     path_uniquify(p);
 
     if (p->poly->point.size < 3) {
-- 
2.43.0


From aa32e6d8e84c8ff8d9cdc884004c614e0ace0bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 16/40] fix: report the end of a file without trailing newline
 on its last line

---
 src/hob3l/syn-msg.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index 5a1aaf5..edd89de 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -160,6 +160,16 @@ extern bool cp_syn_get_loc(
             assert(loc->line != CP_SIZE_MAX);
             assert(loc->line < f->line.size);
 
+            /* the end of a file that does not end in a newline belongs to
+             * the last line; there is no next line then */
+            size_t off = CP_MONUS(token, f->content.data);
+            if ((loc->line > 0) && (off > 0) &&
+                (off == f->content.size) &&
+                (cp_v_nth(&f->content_orig, off - 1) != '\n'))
+            {
+                loc->line--;
+            }
+
             /* compute line ranges for convenience */
             loc->copy = cp_v_nth(&f->line, loc->line);
             loc->copy_end = loc->copy;
-- 
2.43.0


From 0ac715bc10346f158714c9d505f4289efe2cfcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 17/40] fix: accept include at top level

---
 src/hob3l/syn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index c9f2fc4..1fd2f2c 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -918,7 +918,7 @@ static bool parse_stmt_list(
             }
             break;}
         default:
-            if (p->c.tok.type & _T_KEY) {
+            if ((p->c.tok.type & _T_KEY) && (p->c.tok.type != K_INCLUDE)) {
                 return true;
             }
             if (!parse_item_push_stmt(p, r)) {
-- 
2.43.0


From 4a3e69750b172b7722ab6a38fe8507fea13a9857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:40 +0000
Subject: [PATCH 18/40] fix: accept an end tag directly after an XML comment

---
 src/hob3l/xml-parse.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 1533556..596b3e3 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -472,7 +472,6 @@ static bool parse_content(
 {
     *rp = NULL;
 
-again:
     /* EOF is OK, leaves *rp==NULL */
     if (p->cur == 0) {
         return true;
@@ -480,12 +479,6 @@ again:
 
     if (p->cur == '<') {
         TRY(lex_next(p));
-        /* comment */
-        if  (p->cur == '!') {
-            TRY(expect(p, "!--"));
-            TRY(skip_comment(p));
-            goto again;
-        }
 
         /* element */
         return parse_elem(rp, p, c);
@@ -515,6 +508,12 @@ static bool parse_content_list(
             return true;
         }
 
+        /* comment: may be followed by an end tag */
+        if ((p->cur == '<') && (*p->str_next == '!')) {
+            TRY(lex_next(p) && expect(p, "!--") && skip_comment(p));
+            continue;
+        }
+
         cp_xml_t *cont = NULL;
         TRY(parse_content(&cont, p, c));
         if (cont == NULL) {
-- 
2.43.0


From bb6f4bed632b9fe68244ad102f6278451427f176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 19/40] fix: name the file in the diagnosis of a read error

---
 src/hob3l/syn.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 1fd2f2c..1df78e3 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -1010,8 +1010,8 @@ static bool read_file(
             if (feof(f->file) && !ferror(f->file)) {
                 break;
             }
-            cp_vchar_printf(&err->msg, "File read error: %s.\n",
-                strerror(errno));
+            cp_vchar_printf(&err->msg, "Unable to read '%s': %s.\n",
+                cp_vchar_cstr(&f->filename), strerror(errno));
             err->loc = include_loc;
             return false;
         }
-- 
2.43.0


From 8de2c0050582f7435bf4e31a5a0437a6a8da5654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 20/40] fix: keep the largest extent when a sphere is added to
 the bounding box

The upper bound was compared with the lower one, so a sphere after a
higher one lowered the top of the model and upper layers were lost.
---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index f897fbd..40c7dec 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -480,7 +480,7 @@ static void csg3_sphere_minmax1(
     double l = a - c;
     double h = a + c;
     if (l < bb->min.v[i]) { bb->min.v[i] = l; }
-    if (h > bb->min.v[i]) { bb->max.v[i] = h; }
+    if (h > bb->max.v[i]) { bb->max.v[i] = h; }
 }
 
 static void csg3_sphere_minmax(
-- 
2.43.0


From b7cad0b5ea37d06e5b7f3ad8df2dffafb7f00070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 21/40] fix: reject numbers, transformations and models out of
 range

Numbers and sizes that overflow the floating point range ran into
assertions later on, or silently produced an empty result.
---
 include/hob3ldef/def-float.h |  8 ++++++++
 src/hob3l/csg3.c             | 18 ++++++++++++++++++
 src/hob3l/main.c             | 10 ++++++++++
 src/hob3l/syn.c              |  5 +++++
 4 files changed, 41 insertions(+)

diff --git a/include/hob3ldef/def-float.h b/include/hob3ldef/def-float.h
index a89a555..f0169b5 100644
--- a/include/hob3ldef/def-float.h
+++ b/include/hob3ldef/def-float.h
@@ -5,6 +5,7 @@
 #define CP_FLOAT_H_
 
 #include <stdbool.h>
+#include <float.h>
 #include <math.h>
 
 typedef double cp_f_t;
@@ -28,6 +29,13 @@ typedef double cp_f_t;
  */
 #define CP_DIM_SCALE_DEFAULT  8192
 
+/**
+ * Largest absolute value of a coordinate, or of a number in the input,
+ * that is accepted: what `float` (used in binary STL) can represent.
+ * Products of a few such values still do not overflow `double`.
+ */
+#define CP_COORD_MAX ((double)FLT_MAX)
+
 #define CP_EQ_EPSILON_DEFAULT  0x1p-15
 #define CP_SQR_EPSILON_DEFAULT (CP_EQ_EPSILON_DEFAULT * CP_EQ_EPSILON_DEFAULT)
 
diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 40c7dec..7f259df 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2107,6 +2107,20 @@ static bool csg3_from_rotext(
     return true;
 }
 
+/**
+ * Whether a transformation can be computed with.
+ * This also rejects infinity and NaN. */
+static bool mat_in_range(
+    cp_mat3wi_t const *m)
+{
+    for (cp_arr_each(i, m->n.v)) {
+        if (!(fabs(m->n.v[i]) <= CP_COORD_MAX) || !(fabs(m->i.v[i]) <= CP_COORD_MAX)) {
+            return false;
+        }
+    }
+    return true;
+}
+
 static bool csg3_from_scad(
     bool *no,
     cp_v_obj_p_t *r,
@@ -2121,6 +2135,10 @@ static bool csg3_from_scad(
     assert(m != NULL);
     assert(s != NULL);
 
+    if (!mat_in_range(m->mat)) {
+        return msg(c, CP_ERR_FAIL, s->loc, NULL, "Transformation is out of range.\n");
+    }
+
     /* Found the root already? */
     if ((c->search_root != NULL) && (c->tree->root_xform != NULL)) {
         return true;
diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 8d9be0c..58dd75c 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -290,6 +290,16 @@ static bool do_file(
     cp_vec3_minmax_t full_minmax = CP_VEC3_MINMAX_EMPTY;
     if (csg3->root != NULL) {
         cp_csg3_tree_minmax(&full_minmax, csg3, true);
+        if (cp_vec3_minmax_valid(&full_minmax)) {
+            for (cp_arr_each(i, full_minmax.min.v)) {
+                if (!(full_minmax.min.v[i] >= -CP_COORD_MAX) ||
+                    !(full_minmax.max.v[i] <= +CP_COORD_MAX))
+                {
+                    cp_vchar_printf(&err->msg, "The model is too large.\n");
+                    return false;
+                }
+            }
+        }
 #ifdef PSTRACE
         cp_ps_xform_from_minmax(&cp_debug_ps_xform,
             full_minmax.min.x, full_minmax.min.y,
diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 1df78e3..d3e9a4b 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -516,6 +516,11 @@ static bool parse_float(
 {
     assert(r->type == CP_SYN_VALUE_FLOAT);
     r->value = strtod(p->c.tok.string, NULL);
+    if (!(fabs(r->value) <= CP_COORD_MAX)) {
+        cp_vchar_printf(&p->err->msg, "Number is out of range.\n");
+        p->err->loc = p->c.tok.loc;
+        return false;
+    }
     return expect_err(p, T_FLOAT);
 }
 
-- 
2.43.0


From 3e90398e51167528aed37cad431f335e72654379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:45 +0000
Subject: [PATCH 22/40] fix: insert part of a vector into itself at any
 position

---
 src/hob3lbase/vec.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index f36a21f..ac8ebdb 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -214,7 +214,7 @@ extern void cp_v_copy_arr_(
         /* recompute index pointer if it pointed into the dst vector*/
         if (old_data &&
             (data >= old_data) &&
-            (data <= cp_v_nth_elem_(old_data, old_size, esz)))
+            (data < cp_v_nth_elem_(old_data, old_size, esz)))
         {
             assert(
                 cp_v_nth_elem_(data, size, esz) <=
@@ -303,7 +303,7 @@ extern void *cp_v_insert_arr_(
      * originally contiguous data by the inflation. */
     if ((dst->data != NULL) &&
         (data >= dst->data) &&
-        (data <= cp_v_nth_elem_(dst->data, dst->size, esz)))
+        (data < cp_v_nth_elem_(dst->data, dst->size, esz)))
     {
         assert(cp_v_nth_elem_(data, size, esz) <= cp_v_nth_elem_(dst->data, dst->size, esz));
         size_t src_pos = cp_v_monus_(esz, data, dst->data);
@@ -315,7 +315,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size);
         }
         else
-        if (dst_end <= src_pos) {
+        if (dst_pos <= src_pos) {
             /* completely in last part */
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos+size, size);
         }
@@ -327,7 +327,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size1);
 
             /* second part behind gap */
-            assert(dst_end < src_end);
+            assert(src_end < dst_end);
             size_t size2 = size - size1;
             assert(dst_end + size2 == src_end + size);
             cp_v_copy_(m, dst, esz, dst_pos+size1, dst, dst_end, size2);
-- 
2.43.0


From 57c6892f8b8a376213c0efb121dbdadc2b0c2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 23/40] fix: reject models with too many layers to count

---
 src/hob3l/main.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 58dd75c..85e7ae3 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -343,6 +343,12 @@ static bool do_file(
         z_max = opt->z_max;
     }
 
+    if (((z_max - z_min) / opt->z_step) >= 0x1p52) {
+        cp_vchar_printf(&err->msg, "Too many layers: z=%g..%g, step=%g.\n",
+            z_min, z_max, opt->z_step);
+        return false;
+    }
+
     cp_range_t range;
     cp_range_init(&range, z_min, z_max, opt->z_step);
     if (range.cnt == 0) {
-- 
2.43.0


From c91cac8382da1cd762643d152aaa6db3cb8c206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:46 +0000
Subject: [PATCH 24/40] fix: derive the alignment of a pool object from its
 size if it is 0 as documented

---
 src/hob3lbase/pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3lbase/pool.c b/src/hob3lbase/pool.c
index c1c7428..2a2bde3 100644
--- a/src/hob3lbase/pool.c
+++ b/src/hob3lbase/pool.c
@@ -215,6 +215,10 @@ extern void *cp_pool_calloc(
         return NULL;
     }
 
+    if (align == 0) {
+        align = cp_size_align(size1);
+    }
+
     for (size_t try = 0; try < 3; try++) {
         void *r = try_block_calloc(pool->used.head, nmemb, size1, align);
         if (r != NULL) {
-- 
2.43.0


From bd00ca79d684c8e6f6accd68e6d366477cee915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:58 +0000
Subject: [PATCH 25/40] fix: append a string to itself

---
 src/hob3lbase/vchar.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3lbase/vchar.c b/src/hob3lbase/vchar.c
index b4b93e2..bd4e40e 100644
--- a/src/hob3lbase/vchar.c
+++ b/src/hob3lbase/vchar.c
@@ -63,7 +63,13 @@ extern void cp_vchar_append_arr(
     char const *data,
     size_t size)
 {
+    /* data may be part of v, which may be moved when it grows */
+    bool self = (v->data != NULL) && (data >= v->data) && (data < (v->data + v->size));
+    size_t pos = self ? CP_MONUS(data, v->data) : 0;
     v_grow(v, v->size + size + 1);
+    if (self) {
+        data = v->data + pos;
+    }
     memcpy(v->data + v->size, data, size);
     v->size += size;
     v->data[v->size] = 0;
-- 
2.43.0


From 16d46055a74d09fe747fbb2dc0c0a33a44d22ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 26/40] fix: keep the size of a vector that is made a heap

---
 src/hob3lbase/vec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index ac8ebdb..86cef9d 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -577,6 +577,7 @@ extern void cp_v_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_v_heap_up_(vec, esz, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
-- 
2.43.0


From c2a33156190331592c6c6f3e6f03dca03cdb8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 27/40] fix: reject input nested too deeply instead of
 overflowing the stack

All stages recurse into nested input.  A few thousand levels crashed.
---
 src/hob3l/internal.h  |  5 +++++
 src/hob3l/syn.c       | 37 ++++++++++++++++++++++++++++++++++++-
 src/hob3l/xml-parse.c |  8 ++++++++
 3 files changed, 49 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/internal.h b/src/hob3l/internal.h
index e796b2c..912e753 100644
--- a/src/hob3l/internal.h
+++ b/src/hob3l/internal.h
@@ -24,6 +24,11 @@
 #define FF3  FF" "FF" "FF
 #define FF4  FF" "FF" "FF" "FF
 
+/**
+ * Maximum nesting depth of input: all stages recurse into nested input, so
+ * this keeps the stack from overflowing. */
+#define CP_NEST_MAX 1000
+
 typedef struct {
     char const *func;
     char const *file;
diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index d3e9a4b..9d893fe 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -55,6 +55,8 @@ typedef struct {
     cp_err_t *err;
     cp_syn_input_t *input;
     parse_ctxt_t c;
+    /** current nesting depth of statements, values and includes */
+    unsigned nest;
 } parse_t;
 
 static void tok_next(parse_t *p);
@@ -493,6 +495,24 @@ static bool parse_value(
     parse_t *p,
     cp_syn_value_t **r);
 
+/**
+ * To be called when starting to parse something that may be nested.
+ * In case of success, p->nest must be decremented at its end.
+ */
+static bool nest_begin(
+    parse_t *p,
+    cp_loc_t loc)
+{
+    if (p->nest >= CP_NEST_MAX) {
+        cp_vchar_printf(&p->err->msg, "Nesting is too deep; at most %u levels are supported.\n",
+            CP_NEST_MAX);
+        p->err->loc = loc;
+        return false;
+    }
+    p->nest++;
+    return true;
+}
+
 static bool parse_id(
     parse_t *p,
     char const **string)
@@ -588,11 +608,15 @@ static bool parse_new_range_or_array(
     if (!expect_err(p, '[')) {
         return false;
     }
+    if (!nest_begin(p, loc)) {
+        return false;
+    }
 
     if (expect(p, ']')) {
         /* empty array */
         cp_syn_value_array_t *v = cp_syn_new(*v, loc);
         *rp = cp_syn_cast(**rp, v);
+        p->nest--;
         return true;
     }
 
@@ -636,6 +660,7 @@ static bool parse_new_range_or_array(
         }
     }
 
+    p->nest--;
     return expect_err(p, ']');
 }
 
@@ -844,6 +869,10 @@ static bool parse_include_push_stmt_item(
     cp_v_syn_stmt_item_p_t *r,
     char const *fn)
 {
+    if (!nest_begin(p, p->c.tok.loc)) {
+        return false;
+    }
+
     cp_syn_file_t *file = CP_NEW(*file);
     if (!cp_syn_read(file, p->err, p->input, p->c.tok.loc, fn, NULL)) {
         assert(p->err->msg.size > 0);
@@ -864,6 +893,7 @@ static bool parse_include_push_stmt_item(
     }
 
     end_file(p, &prev);
+    p->nest--;
     return true;
 }
 
@@ -879,9 +909,14 @@ static bool parse_item_push_stmt_item(
         tok_path(p);
         return parse_include_push_stmt_item(p, r, p->c.tok.string);
     }
+    if (!nest_begin(p, p->c.tok.loc)) {
+        return false;
+    }
     cp_syn_stmt_item_t *f = cp_syn_new(*f, p->c.tok.string);
     cp_v_push(r, f);
-    return parse_stmt_item(p, f);
+    bool ok = parse_stmt_item(p, f);
+    p->nest--;
+    return ok;
 }
 
 static bool parse_item_push_stmt(
diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 596b3e3..f0b6c82 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -4,6 +4,7 @@
 #include <hob3lbase/pool.h>
 #include <hob3lbase/utf8.h>
 #include <hob3l/xml-parse.h>
+#include "internal.h"
 
 typedef struct {
     cp_pool_t *tmp;
@@ -30,6 +31,9 @@ struct ctxt {
 
     /** default namespace */
     char const *ns_default;
+
+    /** nesting depth */
+    unsigned nest;
 };
 
 char const cp_xml_any_[] = "--match anything--";
@@ -572,6 +576,9 @@ static bool parse_elem(
     char const *loc = p->loc;
     char const *nsp = NULL;
     char *tag = NULL;
+    if (co->nest >= CP_NEST_MAX) {
+        ERR(p, loc, "Nesting is too deep; at most %u levels are supported.\n", CP_NEST_MAX);
+    }
     TRY(parse_scoped_name(&nsp, &tag, p));
 
     cp_xml_t *r = CP_POOL_NEW(p->tmp, *r);
@@ -586,6 +593,7 @@ static bool parse_elem(
         .bottom = &r->child,
         .ns_default = co->ns_default,
         .ns_map = co->ns_map,
+        .nest = co->nest + 1,
     };
     TRY(parse_attr_list(p, c));
     TRY(resolve_ns(p, c, r));
-- 
2.43.0


From d5fe9b92dfaefd0517a8dde16e5a8659bf5aafc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:23 +0000
Subject: [PATCH 28/40] fix: do not let a file become stderr if it is closed at
 the start

If hob3l was started with stderr closed, the output file was opened as
file descriptor 2, so warnings and info messages were written into it.
---
 src/hob3l/main.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 85e7ae3..e364028 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -3,6 +3,9 @@
 
 #include <stdio.h>
 #include <float.h>
+#if !defined(__WIN32) && !defined(__WIN64)
+#include <fcntl.h>
+#endif
 #include <hob3lbase/base-mat.h>
 #include <hob3lbase/pool.h>
 #include <hob3lbase/alloc.h>
@@ -735,8 +738,30 @@ static bool has_suffix(
     return strequ(haystack + len1 - len2, needle);
 }
 
+/**
+ * Make sure that stdin, stdout, stderr are open.
+ *
+ * Otherwise, a file opened later would become one of them, e.g., messages
+ * would be written into the output file.  This uses the wrong direction so
+ * that using these streams still fails.
+ */
+static void init_std_fd(void)
+{
+#if !defined(__WIN32) && !defined(__WIN64)
+    for (int fd = 0; fd <= 2; fd++) {
+        if ((fcntl(fd, F_GETFD) < 0) &&
+            (open("/dev/null", (fd == 0) ? O_WRONLY : O_RDONLY) != fd))
+        {
+            fprintf(stderr, "Error: Unable to open '/dev/null': %s\n", strerror(errno));
+            exit(EXIT_FAILURE);
+        }
+    }
+#endif
+}
+
 int main(int argc, char **argv)
 {
+    init_std_fd();
     (void)atexit(my_at_exit);
 
     /* init options */
-- 
2.43.0


From fa7ead9e03731e89c0c4b325d7e6774cb0d66996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 29/40] fix: do not take a NUL character as the end of a SCAD
 file

---
 src/hob3l/syn.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 9d893fe..2786596 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -296,6 +296,15 @@ static void tok_next_aux2(parse_t *p)
         return;
     }
 
+    /* a NUL character is not the end of the file */
+    if ((p->c.lex.cur == '\0') && (p->c.lex.string < p->c.lex.end)) {
+        if (!have_err_msg(p)) {
+            cp_vchar_printf(&p->err->msg, "NUL characters are not supported.\n");
+        }
+        p->c.tok.type = T_ERROR;
+        return;
+    }
+
     /* by default, read a single character */
     if (!(p->c.lex.cur == (p->c.lex.cur & 127))) {
         if (!have_err_msg(p)) {
-- 
2.43.0


From e819dba7b55997301e45ac351c7e4773427e8245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:41 +0000
Subject: [PATCH 30/40] fix: do not accept SVG numbers out of range

A number that overflows to infinity in an SVG attribute, e.g.,
transform="rotate(1e400)", ended in an internal assertion.  It is now
handled like any other malformed number there.
---
 src/hob3l/svg-parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 85a66c2..b8c6d26 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -945,6 +945,7 @@ static bool s_double(
     char *ep = NULL;
     double r = strtod(*sp, &ep);
     TRY(ep == se);
+    TRY(fabs(r) <= CP_COORD_MAX);
     *rp = r;
     *sp = se;
     return true;
-- 
2.43.0


From 4b8adbd73ee8c215213a39eed5a0b45c07b5e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 31/40] fix: do not assert if a matrix argument is no array

---
 src/hob3l/scad.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 2ce9675..baecfbe 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -597,8 +597,8 @@ static bool get_mat4(
     /* This also accepts 3x3 matrices and 4x3 matrixes and will
      * add missing columns and rows from the unit matrix */
 
-    cp_syn_value_array_t const *a = cp_syn_cast(*a, v);
-    if ((v->type != CP_SYN_VALUE_ARRAY) ||
+    cp_syn_value_array_t const *a = cp_syn_try_cast(*a, v);
+    if ((a == NULL) ||
         (
             (a->value.size != 2) &&
             (a->value.size != 3) &&
-- 
2.43.0


From c32e58a3d3822c724663ca32a8dd0e879b3decf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 32/40] fix: sine and cosine of large angles lost precision and
 hit an assertion

---
 src/hob3lmat/algo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index af3b6a8..344581a 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -1266,7 +1266,8 @@ extern cp_f_t cp_sin_deg(cp_f_t a)
             return *r;
         }
     }
-    return sin(cp_deg(a));
+    /* fmod() is exact: this keeps the precision for large angles */
+    return sin(cp_deg(fmod(a, 360)));
 }
 
 /**
@@ -1283,7 +1284,7 @@ extern cp_f_t cp_cos_deg(cp_f_t a)
             return *r;
         }
     }
-    return cos(cp_deg(a));
+    return cos(cp_deg(fmod(a, 360)));
 }
 
 /**
-- 
2.43.0


From 2f74f17e4b1120f289c9fbd761f35d4c0f53f0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:19 +0000
Subject: [PATCH 33/40] fix: extrusions, hull and projection outside the '!'
 object hit an assertion with --js-keep-ctxt

---
 include/hob3l/scad_tam.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/hob3l/scad_tam.h b/include/hob3l/scad_tam.h
index d485cc6..a1d6ca9 100644
--- a/include/hob3l/scad_tam.h
+++ b/include/hob3l/scad_tam.h
@@ -57,6 +57,11 @@ typedef enum {
     CP_SCAD_SCALE,
     CP_SCAD_ROTATE,
 
+    CP_SCAD_PROJECTION,
+    CP_SCAD_LINEXT,
+    CP_SCAD_ROTEXT,
+    CP_SCAD_HULL,
+
     CP_SCAD_SPHERE = CP_SCAD_TYPE + 1,
     CP_SCAD_CUBE,
     CP_SCAD_CYLINDER,
@@ -67,13 +72,8 @@ typedef enum {
     CP_SCAD_CIRCLE,
     CP_SCAD_SQUARE,
     CP_SCAD_POLYGON,
-    CP_SCAD_PROJECTION,
     CP_SCAD_TEXT,
 
-    CP_SCAD_LINEXT,
-    CP_SCAD_ROTEXT,
-    CP_SCAD_HULL,
-
     CP_SCAD_COLOR,
 } cp_scad_type_t;
 
-- 
2.43.0


From c1735c4f426f0c868352dd91f2681fe94f00f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 34/40] fix: input files stayed open until exit, so that many
 references ran out of descriptors

---
 include/hob3l/syn_tam.h | 2 +-
 src/hob3l/syn.c         | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/hob3l/syn_tam.h b/include/hob3l/syn_tam.h
index 1a36929..c356758 100644
--- a/include/hob3l/syn_tam.h
+++ b/include/hob3l/syn_tam.h
@@ -203,7 +203,7 @@ typedef struct {
     cp_vchar_t filename;
 
     /**
-     * File pointer
+     * File pointer, NULL once the file is read, unless the caller opened it
      */
     FILE *file;
 
diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 2786596..5fdfde1 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -1034,7 +1034,8 @@ static bool read_file(
     }
 
     cp_vchar_printf(&f->filename, "%s%s", cp_vchar_cstr(&dir), filename);
-    if (file == NULL) {
+    bool opened = (file == NULL);
+    if (opened) {
         (void)cp_vchar_cstr(&f->filename);
         file = fopen(f->filename.data, "rb");
         if (file == NULL) {
@@ -1066,6 +1067,10 @@ static bool read_file(
         }
         cp_vchar_append_arr(&f->content, buff, cnt);
     }
+    if (opened) {
+        (void)fclose(f->file);
+        f->file = NULL;
+    }
     size_t z = f->content.size;
     cp_vchar_push(&f->content, '\0');
     f->content.size = z;
-- 
2.43.0


From 624caa3c0cfa1d951ead90c4f7763c440baa9433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:38 +0000
Subject: [PATCH 35/40] fix: without an input file name, a file called (null)
 was read

---
 src/hob3l/main.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index e364028..5c5802a 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -799,6 +799,11 @@ int main(int argc, char **argv)
         }
     }
 
+    if (in_file_name == NULL) {
+        fprintf(stderr, "Error: Missing input file name.\n");
+        exit(EXIT_FAILURE);
+    }
+
     /* post-process options */
     if (!cp_eq(opt.cq_dim_scale_recip, 0)) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
-- 
2.43.0


From a4883ce5244d0e39853431a55a6d7560fe475ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 36/40] fix: keep the size of a heap that is made out of an
 array

---
 src/hob3lbase/heap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hob3lbase/heap.c b/src/hob3lbase/heap.c
index d89a75d..ff3f094 100644
--- a/src/hob3lbase/heap.c
+++ b/src/hob3lbase/heap.c
@@ -108,6 +108,7 @@ extern void cp_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_heap_up_(vec, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
-- 
2.43.0


From ceea581cdafdc56174f80c793d24cc6033708991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:13 +0000
Subject: [PATCH 37/40] fix: allow a removal where the root is not known, as
 documented

---
 src/hob3lbase/dict.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3lbase/dict.c b/src/hob3lbase/dict.c
index e3ceb2f..34d972a 100644
--- a/src/hob3lbase/dict.c
+++ b/src/hob3lbase/dict.c
@@ -891,8 +891,8 @@ extern void cp_dict_remove_aug(
     cp_dict_aug_t *aug)
 {
     assert(c != NULL);
-    assert((root == NULL) || cp_dict_may_contain(*root, c));
-    assert((root == NULL) || (cp_dict_root(c) == *root));
+    assert((root == NULL) || (*root == NULL) || cp_dict_may_contain(*root, c));
+    assert((root == NULL) || (*root == NULL) || (cp_dict_root(c) == *root));
 
     /* if we remove the root, we remember a child pointer for
      * resetting root if necessary */
-- 
2.43.0


From 02a02680a3e61bb413e85816ec92d48d05077f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:20 +0000
Subject: [PATCH 38/40] fix: end of file inside an XML name looped forever

---
 src/hob3l/xml-parse.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index f0b6c82..b1ad58f 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -188,6 +188,7 @@ static bool is_tag_char(unsigned c)
         return true;
     }
     switch (c) {
+    case 0: /* end of file */
     case '!':  case '"': case '#':  case '$': case '%':  case '&': case '\'': case '(':
     case ')':  case '*': case '+':  case ',': case '/':  case ';': case '<':  case '=':
     case '>':  case '?': case '@':  case '[': case '\\': case ']': case '^':  case '`':
-- 
2.43.0


From 0fd7b2c58ae2e211f98805d3e6fa0531eb760937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:36 +0000
Subject: [PATCH 39/40] fix: an empty XML tag or attribute name looped forever

---
 src/hob3l/xml-parse.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index b1ad58f..8f07d37 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -15,8 +15,6 @@ typedef struct {
     char *loc;
     char *str_next;
     char *str_end;
-
-    char *tok_start;
 } parse_t;
 
 typedef struct ctxt ctxt_t;
@@ -208,8 +206,8 @@ static char *parse_tag(
             TRY(lex_next(p));
         }
     }
-    if (p->tok_start == p->loc) {
-        ERR(p, p->tok_start, "Expected a tag name.\n");
+    if (tok == p->loc) {
+        ERR(p, tok, "Expected a tag name.\n");
     }
 
     /* NUL terminate */
-- 
2.43.0


From 55840fd19da35bd2d20371b0b73a9535517ce608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:14 +0000
Subject: [PATCH 40/40] fix: hob3l-js-copy-aux reported success for an
 incomplete result

Failures of commands were ignored, so that a full disk or a missing template
gave status 0, and names with '&', '@', '\' or with 'LOCAL' in them gave pages
that load another file.
---
 script/hob3l-js-copy-aux.in | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/script/hob3l-js-copy-aux.in b/script/hob3l-js-copy-aux.in
index dd34264..61d4cef 100644
--- a/script/hob3l-js-copy-aux.in
+++ b/script/hob3l-js-copy-aux.in
@@ -1,5 +1,8 @@
 #! /bin/sh
 
+# stop at the first command that fails
+set -e
+
 pkgdatadir=${pkgdatadir-'@pkgdatadir@'}
 
 FILE="$1"
@@ -30,6 +33,9 @@ fi
 DIR=$(dirname "$FILE")
 NAME=$(basename "$FILE" .js)
 
+# the name as the replacement of a sed 's' command
+SNAME=$(printf '%s\n' "$NAME" | sed 's/[\\&@]/\\&/g')
+
 rm -f "$FILE.gz"
 gzip -c "$FILE" > "$FILE.gz"
 
@@ -40,13 +46,13 @@ cp "$pkgdatadir/gl-matrix/mat4.js"   "$DIR/gl-matrix"
 cp "$pkgdatadir/gl-matrix/vec3.js"   "$DIR/gl-matrix"
 
 rm -f "$DIR/$NAME.local.html"
-cat "$pkgdatadir/js-hob3l.local.html" \
-    | sed "s@js-hob3l@$NAME@" \
+sed "s@js-hob3l@$SNAME@" \
+    "$pkgdatadir/js-hob3l.local.html" \
     > "$DIR/$NAME.local.html"
 
 rm -f "$DIR/$NAME.html"
-cat "$pkgdatadir/js-hob3l.local.html" \
-    | sed "s@js-hob3l@$NAME@" \
-    | sed 's@LOCAL.*@-->@' \
-    | sed 's@REMOTE --- \(.*\)-->@-->\1@' \
+sed -e 's@LOCAL.*@-->@' \
+    -e 's@REMOTE --- \(.*\)-->@-->\1@' \
+    -e "s@js-hob3l@$SNAME@" \
+    "$pkgdatadir/js-hob3l.local.html" \
     > "$DIR/$NAME.html"
-- 
2.43.0

