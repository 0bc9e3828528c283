From ee1ca37f2eef6814866d49a32499b21868cc8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 01/76] fix: defined{} checks every listed variable

---
 node_if.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_if.c b/node_if.c
index f1c045e..3a4426a 100644
--- a/node_if.c
+++ b/node_if.c
@@ -9,7 +9,7 @@
 static bool _if_defined_eval(struct node *mn) {
   struct node *n = mn->parent;
   for (struct node *nn = mn->child; nn; nn = nn->next) {
-    const char *val = node_value(mn->child);
+    const char *val = node_value(nn);
     if (val && *val != '\0' && node_env_get(n, val)) {
       return true;
     }
-- 
2.43.0


From 5d4b790bdc84b674de3f3b31ab0680305095886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 02/76] fix: and{} evaluates all of its expressions

---
 node_if.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_if.c b/node_if.c
index 3a4426a..882d1f0 100644
--- a/node_if.c
+++ b/node_if.c
@@ -65,7 +65,7 @@ static bool _if_OR_eval(struct node *n, struct node *mn) {
 }
 
 static bool _if_AND_eval(struct node *n, struct node *mn) {
-  for (struct node *nn = mn->child; nn; nn = nn->child) {
+  for (struct node *nn = mn->child; nn; nn = nn->next) {
     if (!_if_cond_eval(n, nn)) {
       return false;
     }
-- 
2.43.0


From eb369aeb07dfe2fdd89c45bb0b412f123f7beaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 03/76] fix: a list of several elements is truthy even if its
 first element is 0

---
 node_if.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node_if.c b/node_if.c
index 882d1f0..1126f55 100644
--- a/node_if.c
+++ b/node_if.c
@@ -110,8 +110,11 @@ static bool _if_cond_eval(struct node *n, struct node *mn) {
     if (is_vlist(op)) {
       struct vlist_iter iter;
       vlist_iter_init(op, &iter);
-      if (vlist_iter_next(&iter) && !(iter.len == 1 && iter.item[0] == '0')) {
-        eq = iter.len > 0 || vlist_iter_next(&iter);
+      if (vlist_iter_next(&iter)) {
+        eq = iter.len > 0 && !(iter.len == 1 && iter.item[0] == '0');
+        if (!eq) { // Lists with more than one element are always truthy
+          eq = vlist_iter_next(&iter);
+        }
       }
     } else {
       eq = (op && *op != '\0' && !(op[0] == '0' && op[1] == '\0'));
-- 
2.43.0


From 1e597e98358b3d77a532a6436f6c4c096604ffb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 04/76] fix: %{} appends the given extension and ignores dots
 in directory names

---
 node_basename.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_basename.c b/node_basename.c
index 1425fd6..74bf13b 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -23,11 +23,11 @@ static const char* _basename_value(struct node *n) {
     node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "Argument is not set");
   }
   if (n->child->next) {
-    replace_ext = node_value(n->child);
+    replace_ext = node_value(n->child->next);
   }
   struct xstr *xstr = xstr_create_empty();
   const char *dp = strrchr(val, '.');
-  if (dp) {
+  if (dp && !strchr(dp, '/')) { // Dots in directory names are not file extensions
     xstr_cat2(xstr, val, (dp - val));
   } else {
     xstr_cat(xstr, val);
-- 
2.43.0


From 0b450f5576408d38d201f326f73a3f37bef4bae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 05/76] fix: a set which refers to a -D option or other plain
 value keeps that value

---
 node_set.c | 14 ++++++++++++--
 script.h   |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/node_set.c b/node_set.c
index ebd28ab..090bdc6 100644
--- a/node_set.c
+++ b/node_set.c
@@ -43,8 +43,15 @@ static void _set_init_impl(struct node *n) {
   }
   unsigned tag = 0;
   struct node *nn = unit_env_get_node(unit, key, &tag);
-  if (nn && nn != n) {
-    n->recur_next.n = nn;
+  if (nn) {
+    if (nn != n) {
+      n->recur_next.n = nn;
+    }
+  } else {
+    const char *val = unit_env_get_raw(unit, key);
+    if (val) {
+      n->recur_next.val = pool_strdup(g_env.pool, val);
+    }
   }
   unit_env_set_node(unit, key, n, 0);
 }
@@ -82,6 +89,9 @@ static const char* _set_value_get(struct node *n) {
   if (n->recur_next.active && n->recur_next.n) {
     return _set_value_get(n->recur_next.n);
   }
+  if (n->recur_next.active && n->recur_next.val) {
+    return n->recur_next.val;
+  }
   n->recur_next.active = true;
 
   struct node_foreach *fe = node_find_parent_foreach(n);
diff --git a/script.h b/script.h
index b41c80c..7149242 100644
--- a/script.h
+++ b/script.h
@@ -86,6 +86,7 @@ struct node {
   // Recursive set
   struct {
     struct node *n;
+    const char  *val; // Plain value (eg. -D option) the set has replaced
     bool active;
   } recur_next;
 
-- 
2.43.0


From 590a1d39b8c048db631e1c8054c72467896ca3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 06/76] fix: error{} message is not a printf format

---
 node_error.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_error.c b/node_error.c
index 5635d6d..28bf380 100644
--- a/node_error.c
+++ b/node_error.c
@@ -14,7 +14,7 @@ static void _error_setup(struct node *n) {
       xstr_cat(xstr, node_value(nn));
     }
   }
-  node_fatal(AK_ERROR_FAIL, n, xstr_ptr(xstr));
+  node_fatal(AK_ERROR_FAIL, n, "%s", xstr_ptr(xstr));
 }
 
 int node_error_setup(struct node *n) {
-- 
2.43.0


From bf0003b0d0bc0e5a67fa01981707c007e95e1a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 07/76] fix: @{} with an empty command evaluates to an empty
 string

---
 node_subst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_subst.c b/node_subst.c
index 58133b8..2b90805 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -76,7 +76,7 @@ static const char* _subst_value_proc(struct node *n) {
   }
   const char *cmd = node_value(n->child);
   if (cmd == 0 || *cmd == '\0') {
-    return 0;
+    return "";
   }
   struct xstr *xstr = xstr_create_empty();
   struct _subst_ctx ctx = {
-- 
2.43.0


From b45aea45a5fcb6c981bc62d18a7b683819b6a091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:37 +0000
Subject: [PATCH 08/76] fix: self referencing let or set in foreach without a
 previous value does not recurse forever

---
 node_set.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/node_set.c b/node_set.c
index 090bdc6..704c91e 100644
--- a/node_set.c
+++ b/node_set.c
@@ -86,11 +86,15 @@ static void _set_build(struct node *n) {
 }
 
 static const char* _set_value_get(struct node *n) {
-  if (n->recur_next.active && n->recur_next.n) {
-    return _set_value_get(n->recur_next.n);
-  }
-  if (n->recur_next.active && n->recur_next.val) {
-    return n->recur_next.val;
+  if (n->recur_next.active) {
+    struct node *pn = n->recur_next.n;
+    if (!pn) {
+      return n->recur_next.val;
+    }
+    if (pn->type == NODE_TYPE_SET) {
+      return _set_value_get(pn);
+    }
+    return node_is_can_be_value(pn) ? node_value(pn) : 0;
   }
   n->recur_next.active = true;
 
-- 
2.43.0


From bc5f7678bb6e040669a55012251480a80c7aec54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 09/76] fix: an empty command ends the build with an error
 instead of a crash

---
 spawn.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/spawn.c b/spawn.c
index aa25837..c30b15c 100644
--- a/spawn.c
+++ b/spawn.c
@@ -284,6 +284,12 @@ int spawn_do(struct spawn *s) {
   char **args = _args_create(s);
   const char *file = args[0];
 
+  if (!file) {
+    akerror(EINVAL, "No command specified", 0);
+    errno = EINVAL;
+    return errno;
+  }
+
   {
     struct xstr *xstr = xstr_create_empty();
     for (char **a = args; *a; ++a) {
-- 
2.43.0


From f8cd773d6a25d4bc05c22dd58a204aa58d658af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 10/76] fix: set{} keeps literals with a leading dot as plain
 values

---
 node_set.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/node_set.c b/node_set.c
index 704c91e..43c4ea6 100644
--- a/node_set.c
+++ b/node_set.c
@@ -85,6 +85,11 @@ static void _set_build(struct node *n) {
   }
 }
 
+/// Only rules can have the `..` list prefix, `../foo` literal is a plain value.
+static bool _set_is_list_value(struct node *n) {
+  return node_is_rule(n) && n->value[0] == '.' && n->value[1] == '.';
+}
+
 static const char* _set_value_get(struct node *n) {
   if (n->recur_next.active) {
     struct node *pn = n->recur_next.n;
@@ -123,7 +128,7 @@ static const char* _set_value_get(struct node *n) {
     return n->impl;
   }
 
-  if (!nn->next && nn->value[0] != '.') { // Single value
+  if (!nn->next && !_set_is_list_value(nn)) { // Single value
     const char *v = node_value(nn);
     n->impl = xstrdup(v);
     n->recur_next.active = false;
@@ -136,7 +141,7 @@ static const char* _set_value_get(struct node *n) {
     if (!v) {
       v = "";
     }
-    if (nn->value[0] == '.' && nn->value[1] == '.') {
+    if (_set_is_list_value(nn)) {
       utils_split_values_add(v, xstr);
     } else {
       if (!is_vlist(v)) {
-- 
2.43.0


From cc9325038480deb64dffab30e1345b023815db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 11/76] fix: shell{} joins list elements with single spaces

---
 node_run.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_run.c b/node_run.c
index 77cb040..aa4ed55 100644
--- a/node_run.c
+++ b/node_run.c
@@ -44,8 +44,8 @@ static void _run_on_resolve_shell(struct node_resolve *r, struct node *nn_) {
     if (is_vlist(v)) {
       struct vlist_iter iter;
       vlist_iter_init(v, &iter);
-      while (vlist_iter_next(&iter)) {
-        if (xstr_size(xstr)) {
+      for (int i = 0; vlist_iter_next(&iter); ++i) {
+        if (i) {
           xstr_cat2(xstr, " ", 1);
         }
         xstr_cat2(xstr, iter.item, iter.len);
-- 
2.43.0


From fcac8c30d307afa8a029edbf9aeac36e94edc785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:10 +0000
Subject: [PATCH 12/76] fix: S{}, SS{}, C{} and CC{} join all of their
 arguments as path segments

---
 node_dir.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/node_dir.c b/node_dir.c
index a39dcee..f545475 100644
--- a/node_dir.c
+++ b/node_dir.c
@@ -8,6 +8,15 @@
 #include <unistd.h>
 #endif
 
+static void _dir_segment_add(struct xstr *xstr, const char *item, size_t len) {
+  if (xstr_size(xstr) && len) {
+    if (item[0] != '/' && !utils_endswith(xstr_ptr(xstr), "/")) {
+      xstr_cat2(xstr, "/", 1);
+    }
+  }
+  xstr_cat2(xstr, item, len);
+}
+
 static const char* _dir_value(struct node *n) {
   struct node_foreach *fe = node_find_parent_foreach(n);
   if (fe) {
@@ -44,15 +53,10 @@ static const char* _dir_value(struct node *n) {
       struct vlist_iter iter;
       vlist_iter_init(v, &iter);
       while (vlist_iter_next(&iter)) {
-        if (xstr_size(xstr) && iter.len) {
-          if (iter.item[0] != '/' && !utils_endswith(xstr_ptr(xstr), "/")) {
-            xstr_cat2(xstr, "/", 1);
-          }
-        }
-        xstr_cat2(xstr, iter.item, iter.len);
+        _dir_segment_add(xstr, iter.item, iter.len);
       }
-    } else {
-      xstr_cat(xstr, v);
+    } else if (v) {
+      _dir_segment_add(xstr, v, strlen(v));
     }
   }
   if (xstr_size(xstr) == 0) {
-- 
2.43.0


From b9a35b2d5f4d2010c6e3ec0568210d01b960c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 13/76] fix: configure{} accepts a list of files

---
 node_configure.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/node_configure.c b/node_configure.c
index 5c3936b..952d642 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -300,6 +300,7 @@ static void _configure_setup(struct node *n) {
     const char *v = node_value(nn);
     if (is_vlist(v)) {
       struct vlist_iter iter;
+      vlist_iter_init(v, &iter);
       while (vlist_iter_next(&iter)) {
         char buf[iter.len + 1];
         memcpy(buf, iter.item, iter.len);
-- 
2.43.0


From 255790d6904a1f1245ccce6a181647d6278d2a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 14/76] fix: no double free if a compiler cannot be started

---
 node_cc.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index 53672aa..4266d68 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -156,8 +156,7 @@ static void _cc_on_build_source(
   spawn_arg_add(s, obj);
 
   int rc = spawn_do(s);
-  if (rc) {
-    spawn_destroy(s);
+  if (rc) { // Spawn will be destroyed with the task
     node_error(rc, ctx->n, "%s", ctx->cc);
     return;
   }
-- 
2.43.0


From 2f78081811e656047c27c9701cb8c701daf9ea04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 15/76] fix: configure does not duplicate text before an
 unpaired @ at the end of file

---
 node_configure.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/node_configure.c b/node_configure.c
index 952d642..3a51217 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -76,8 +76,10 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
   }
   struct xstr *xstr = xstr_create_empty();
   struct xstr *kstr = xstr_create_empty();
+  bool closed;
 
   do {
+    closed = false;
     xstr_cat2(xstr, s, sp - s);
     xstr_clear(kstr);
     char *p = ++sp;
@@ -102,6 +104,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
             xstr_cat(xstr, val);
           }
         }
+        closed = true;
         s = ++p;
         sp = strchr(s, '@');
         xstr_clear(kstr);
@@ -112,7 +115,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
     }
   } while (sp);
 
-  if (xstr_size(kstr)) {
+  if (!closed) { // Unpaired '@'
     xstr_cat2(xstr, "@", 1);
     xstr_cat(xstr, xstr_ptr(kstr));
   } else {
-- 
2.43.0


From 4d51d22e6947a25f25b783c4fed3ee2aa89d6c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 16/76] fix: configure processes lines longer than 16K as a
 whole

---
 node_configure.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 3a51217..4091e2c 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -146,10 +146,10 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
     node_fatal(errno, n, "Failed to open file for writing: %s", tgt);
   }
 
-  char *line;
-  char buf[16384];
+  char *line = 0;
+  size_t line_cap = 0;
 
-  while ((line = fgets(buf, sizeof(buf), f))) {
+  while (getline(&line, &line_cap, f) != -1) {
     char *rl;
     if (utils_startswith(line, "//autarkdef ")) {
       rl = _line_replace_def(n, deps, line);
@@ -163,6 +163,7 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
       free(rl);
     }
   }
+  free(line);
 
   // Transfer file permissions
   struct stat st;
-- 
2.43.0


From 12d023ec2c89adb1a729e4805eb7eb1b2ee57d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 17/76] fix: //autarkdef string value of a list variable has no
 internal list separators

---
 node_configure.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 4091e2c..aa8c6ca 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -21,6 +21,19 @@ struct _configure_ctx {
   struct ulist sources;  // char*
 };
 
+static void _value_add(struct xstr *xstr, const char *val) {
+  if (is_vlist(val)) {
+    ++val;
+    size_t len = strlen(val);
+    char buf[len + 1];
+    memcpy(buf, val, len + 1);
+    utils_chars_replace(buf, '\1', ' ');
+    xstr_cat(xstr, buf);
+  } else {
+    xstr_cat(xstr, val);
+  }
+}
+
 static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   char key[4096];
   const char *ep = line + AK_LLEN("//autarkdef ");
@@ -38,7 +51,9 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
     deps_add_env(deps, 0, key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
-      xstr_printf(xstr, "#define %s \"%s\"\n", key, val);
+      xstr_printf(xstr, "#define %s \"", key);
+      _value_add(xstr, val);
+      xstr_cat(xstr, "\"\n");
       return xstr_destroy_keep_ptr(xstr);
     }
   } else if (*np >= '0' && *np <= '9') {
@@ -93,16 +108,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
         deps_add_env(deps, 0, key, val ? val : "");
 
         if (val && *val != '\0') {
-          if (is_vlist(val)) {
-            ++val;
-            size_t len = strlen(val);
-            char buf[len + 1];
-            memcpy(buf, val, len + 1);
-            utils_chars_replace(buf, '\1', ' ');
-            xstr_cat(xstr, buf);
-          } else {
-            xstr_cat(xstr, val);
-          }
+          _value_add(xstr, val);
         }
         closed = true;
         s = ++p;
-- 
2.43.0


From c7341843031256f9ef9f07549c2137964eb2a5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 18/76] fix: configure is re-executed if a variable becomes
 defined as empty or undefined

---
 deps.c           | 5 ++++-
 deps.h           | 2 ++
 node_configure.c | 8 ++++----
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/deps.c b/deps.c
index 764cec4..a0dd2cb 100644
--- a/deps.c
+++ b/deps.c
@@ -99,8 +99,11 @@ bool deps_cur_is_outdated(struct node *n, struct deps *d) {
       }
       case DEPS_TYPE_ENV: {
         const char *val = unit_env_get(n, d->alias);
+        if (d->flags == DEPS_FLG_UNDEFINED) {
+          return val != 0;
+        }
         if (!val) {
-          val = "";
+          return true;
         }
         return strcmp(val, d->resource) != 0;
       }
diff --git a/deps.h b/deps.h
index e69a101..60a3913 100644
--- a/deps.h
+++ b/deps.h
@@ -17,6 +17,8 @@
 #define DEPS_TYPE_ALIAS         97  // a
 #define DEPS_TYPE_OUTDATED      120 // o
 
+#define DEPS_FLG_UNDEFINED 117 // u, env variable was not defined
+
 #define DEPS_OPEN_TRUNCATE 0x01U
 #define DEPS_OPEN_READONLY 0x02U
 
diff --git a/node_configure.c b/node_configure.c
index aa8c6ca..0de2a8b 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -48,7 +48,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   if (*np == '\"') {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
     const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    deps_add_env(deps, val ? 0 : DEPS_FLG_UNDEFINED, key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s \"", key);
@@ -59,7 +59,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   } else if (*np >= '0' && *np <= '9') {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
     const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    deps_add_env(deps, val ? 0 : DEPS_FLG_UNDEFINED, key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s %s", key, np);
@@ -72,7 +72,7 @@ static char* _line_replace_def(struct node *n, struct deps *deps, char *line) {
   } else {
     utils_strnncpy(key, sp, ep - sp, sizeof(key));
     const char *val = node_env_get(n, key);
-    deps_add_env(deps, 0, key, val ? val : "");
+    deps_add_env(deps, val ? 0 : DEPS_FLG_UNDEFINED, key, val ? val : "");
     if (val) {
       struct xstr *xstr = xstr_create_empty();
       xstr_printf(xstr, "#define %s\n", key);
@@ -105,7 +105,7 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
         const char *key = xstr_ptr(kstr);
         const char *val = node_env_get(n, key);
 
-        deps_add_env(deps, 0, key, val ? val : "");
+        deps_add_env(deps, val ? 0 : DEPS_FLG_UNDEFINED, key, val ? val : "");
 
         if (val && *val != '\0') {
           _value_add(xstr, val);
-- 
2.43.0


From 933d61b4c1fc8e6a2a37b5075cd74ac7bd76b335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 19/76] fix: numbers are parsed correctly after an unrelated
 ERANGE error

---
 utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils.c b/utils.c
index d9e17ab..60be479 100644
--- a/utils.c
+++ b/utils.c
@@ -126,6 +126,7 @@ int utils_rename_file(const char *src, const char *dst) {
 long int utils_strtol(const char *v, int base, int *rcp) {
   *rcp = 0;
   char *ep = 0;
+  errno = 0;
   long int ret = strtol(v, &ep, base);
   if (*ep != '\0' || errno == ERANGE) {
     *rcp = AK_ERROR_INVALID_ARGS;
@@ -137,6 +138,7 @@ long int utils_strtol(const char *v, int base, int *rcp) {
 long long utils_strtoll(const char *v, int base, int *rcp) {
   *rcp = 0;
   char *ep = 0;
+  errno = 0;
   long long ret = strtoll(v, &ep, base);
   if ((*ep != '\0' && *ep != '\n') || errno == ERANGE) {
     *rcp = AK_ERROR_INVALID_ARGS;
-- 
2.43.0


From 74874e9b08517d9a5ca100b7b7bf6e818d825b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 20/76] fix: absolute paths are normalized at any position of
 empty and dot segments

---
 paths.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/paths.c b/paths.c
index 83fc220..3842e9d 100644
--- a/paths.c
+++ b/paths.c
@@ -83,11 +83,6 @@ char* path_normalize_cwd(const char *path, const char *cwd, char buf[PATH_MAX])
   akassert(cwd);
   if (path[0] == '/') {
     utils_strncpy(buf, path, PATH_MAX);
-    char *p = strchr(buf, '.');
-    if (  p == 0
-       || !(*(p - 1) == '/' && (p[1] == '/' || p[1] == '.' || p[1] == '\0'))) {
-      return buf;
-    }
   } else {
     utils_strncpy(buf, cwd, PATH_MAX);
     size_t len = strlen(buf);
-- 
2.43.0


From 59beac9f9bdb9b3374bcdaf0cda8169f67a7194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 21/76] fix: a directory contains itself and only paths which
 are really below it

---
 paths.c | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/paths.c b/paths.c
index 3842e9d..ed52271 100644
--- a/paths.c
+++ b/paths.c
@@ -428,26 +428,28 @@ char* path_basename(char *path) {
   return path + i;
 }
 
-const char* path_is_prefix_for(const char *prefix, const char *path, const char *cwd) {
-  akassert(path_is_absolute(prefix));
-  char buf[PATH_MAX];
-  if (!path_is_absolute(path)) {
-    char cwdbuf[PATH_MAX];
-    if (!cwd) {
-      cwd = getcwd(cwdbuf, sizeof(cwdbuf));
-    }
-    path = path_normalize_cwd(path, cwd, buf);
+const char* path_is_prefix_for(const char *prefix_, const char *path, const char *cwd) {
+  akassert(path_is_absolute(prefix_));
+  static char buf[PATH_MAX]; // Holds the returned path
+  char prefix[PATH_MAX];
+  char cwdbuf[PATH_MAX];
+  if (!cwd) {
+    cwd = getcwd(cwdbuf, sizeof(cwdbuf));
   }
+  path_normalize_cwd(prefix_, cwd, prefix);
+  path = path_normalize_cwd(path, cwd, buf);
 
   int len = strlen(prefix);
-  if (len < 1 || !utils_startswith(path, prefix)) {
+  if (len == 1) { // Root dir
+    return path + 1;
+  }
+  if (!utils_startswith(path, prefix)) {
     return 0;
   }
   const char *p = path + len;
   if (*p == '/') {
-    while (*p == '/') ++p;
-    return p;
-  } else if (prefix[len - 1] == '/') {
+    return p + 1;
+  } else if (*p == '\0') {
     return p;
   } else {
     return 0;
-- 
2.43.0


From 86f7bede363731f158bc47e6a69c78cc73331682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:31 +0000
Subject: [PATCH 22/76] fix: the rest of a program's output is read after the
 program has exited

---
 spawn.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spawn.c b/spawn.c
index c30b15c..041a27f 100644
--- a/spawn.c
+++ b/spawn.c
@@ -402,6 +402,9 @@ int spawn_do(struct spawn *s) {
       while (c > 0) {
         int ret = poll(fds, sizeof(fds) / sizeof(fds[0]), -1);
         if (ret == -1) {
+          if (errno == EINTR) {
+            continue;
+          }
           break;
         }
         for (int i = 0; i < sizeof(fds) / sizeof(fds[0]); ++i) {
@@ -413,18 +416,17 @@ int spawn_do(struct spawn *s) {
             ssize_t n = read(fds[i].fd, buf, sizeof(buf) - 1);
             if (n > 0) {
               buf[n] = '\0';
-              if (fds[i].fd == pipe_stdout[0]) {
+              if (i == 0) {
                 s->stdout_handler(buf, n, s);
               } else {
                 s->stderr_handler(buf, n, s);
               }
-            } else if (n == -1 && errno != EAGAIN && errno != EWOULDBLOCK) {
+            } else if (n == 0 || (errno != EAGAIN && errno != EWOULDBLOCK && errno != EINTR)) {
               close(fds[i].fd);
               fds[i].fd = -1;
               --c;
             }
-          }
-          if (revents & (POLLERR | POLLHUP | POLLNVAL)) {
+          } else if (revents & (POLLERR | POLLHUP | POLLNVAL)) { // No data left to read
             close(fds[i].fd);
             fds[i].fd = -1;
             --c;
-- 
2.43.0


From a8e55b95d39fc4fd5dfda67303a7593810e631ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 23/76] fix: command output with zero bytes is passed through
 as is

---
 node_check.c | 4 ++--
 node_run.c   | 4 ++--
 node_subst.c | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/node_check.c b/node_check.c
index 8c9856a..fe7fd19 100644
--- a/node_check.c
+++ b/node_check.c
@@ -13,11 +13,11 @@
 #endif
 
 static void _check_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static void _check_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 static void _check_on_env_value(struct node_resolve *nr, const char *key, const char *val) {
diff --git a/node_run.c b/node_run.c
index aa4ed55..c1cb97f 100644
--- a/node_run.c
+++ b/node_run.c
@@ -18,11 +18,11 @@ struct _run_spawn_data {
 };
 
 static void _run_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static void _run_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 struct _run_on_resolve_ctx {
diff --git a/node_subst.c b/node_subst.c
index 2b90805..1bcb7f1 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -61,13 +61,13 @@ struct _subst_ctx {
 };
 
 static void _subst_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
-  fprintf(stderr, "%s", buf);
+  fwrite(buf, 1, buflen, stderr);
 }
 
 static void _subst_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
   struct _subst_ctx *ctx = spawn_user_data(s);
   xstr_cat2(ctx->xstr, buf, buflen);
-  fprintf(stdout, "%s", buf);
+  fwrite(buf, 1, buflen, stdout);
 }
 
 static const char* _subst_value_proc(struct node *n) {
-- 
2.43.0


From 797b73cce885415fa08f4f16248292731437bc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 24/76] fix: output of commands is not lost if the build fails

---
 log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/log.c b/log.c
index 1c49016..f7104d2 100644
--- a/log.c
+++ b/log.c
@@ -129,6 +129,7 @@ void akfatal2(const char *msg) {
     fputs(msg, stderr);
     fputc('\n', stderr);
   }
+  fflush(stdout); // Keep output of executed commands
   _exit(254);
 }
 
-- 
2.43.0


From e7b12a55ee759a7d31b4a5a20cd5c8dfbab16f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 25/76] fix: macro body takes the place of its call, rule
 arguments are substituted whole, wrong calls are errors

---
 node_call.c | 98 +++++++++++++++++++++++++++++++----------------------
 script.c    |  2 +-
 2 files changed, 59 insertions(+), 41 deletions(-)

diff --git a/node_call.c b/node_call.c
index 57cf65b..ba9cf19 100644
--- a/node_call.c
+++ b/node_call.c
@@ -11,7 +11,7 @@ struct _call {
   const char  *key;    ///< Macro name
   struct node *n;      ///< Call Parent node
   struct node *mn;     ///< Macro node
-  struct node *prev;   ///< Call Prev node
+  struct node *prev;   ///< Node before the next macro body node to be inserted
   struct node *cloned; ///< Macro cloned node
   struct ulist nodes;  ///< Nodes stack. struct node*
   struct node *args[MACRO_MAX_ARGS_NUM];
@@ -38,63 +38,81 @@ struct node* call_first_node(struct node *n) {
   }
 }
 
+static struct node* _call_node_add(struct _call *call, struct node *n, struct node *parent) {
+  if (call->nn_idx == -1) {
+    call->nn_idx = n->ctx->nodes.num;
+  }
+  struct node *nn = node_clone_and_register(n);
+  nn->parent = parent;
+
+  if (parent == call->n->parent) { // Macro body takes the place of the call
+    nn->next = call->n->next;
+    if (call->prev) {
+      call->prev->next = nn;
+    } else {
+      parent->child = nn;
+    }
+    call->prev = nn;
+  } else if (!parent->child) {
+    parent->child = nn;
+  } else {
+    struct node *c = parent->child;
+    while (c && c->next) {
+      c = c->next;
+    }
+    c->next = nn;
+  }
+  return nn;
+}
+
+static void _call_arg_add(struct _call *call, struct node *arg, struct node *parent) {
+  struct node *nn = _call_node_add(call, arg, parent);
+  for (struct node *c = arg->child; c; c = c->next) {
+    _call_arg_add(call, c, nn);
+  }
+}
+
 static int _call_macro_visit(struct node *n, int lvl, void *d) {
   struct _call *call = d;
-  int ret = 0;
 
   if (call->mn == n /*skip macro itself */ || call->mn->child == n /* skip macro name */) {
     return 0;
   }
 
+  bool is_arg = n->value[0] == '&' && n->value[1] == '\0';
+
   if (lvl < 0) {
-    ulist_pop(&call->nodes);
+    if (!is_arg) {
+      ulist_pop(&call->nodes);
+    }
     return 0;
   }
 
-  // Macro arg
-  if (n->value[0] == '&' && n->value[1] == '\0') {
-    int idx;
-    int rc = 0;
+  struct node *parent = *(struct node**) ulist_peek(&call->nodes);
 
+  if (is_arg) {
+    int idx;
     if (n->child) {
+      int rc = 0;
       idx = utils_strtol(n->child->value, 10, &rc);
-      if (rc || idx < 1 || idx >= MACRO_MAX_ARGS_NUM) {
-        node_fatal(rc, n, "Invalid macro arg index: %d", idx);
-        return 0;
+      if (rc || idx < 1 || idx > MACRO_MAX_ARGS_NUM) {
+        node_fatal(AK_ERROR_FAIL, n, "Invalid macro arg index: %s", n->child->value);
       }
-      ret = INT_MAX;
       idx--;
     } else {
-      call->arg_idx++;
-      idx = call->arg_idx;
+      idx = call->arg_idx + 1;
     }
-    call->arg_idx = idx;
-    n = call->args[idx];
-    if (!n) {
-      node_fatal(rc, call->n, "Call argument: %d for macro: %s is not set", (idx + 1), call->key);
-      return 0;
+    if (idx >= MACRO_MAX_ARGS_NUM || !call->args[idx]) {
+      node_fatal(AK_ERROR_FAIL, call->n, "Call argument: %d for macro: %s is not set", (idx + 1), call->key);
     }
+    call->arg_idx = idx;
+    _call_arg_add(call, call->args[idx], parent);
+    return NODE_VISIT_CHILD_SKIP;
   }
 
-  struct node *parent = *(struct node**) ulist_peek(&call->nodes);
-  if (call->nn_idx == -1) {
-    call->nn_idx = n->ctx->nodes.num;
-  }
-  struct node *nn = node_clone_and_register(n);
-  nn->parent = parent;
-
-  // Add node to the parent
-  if (!parent->child) {
-    parent->child = nn;
-  } else {
-    struct node *c = parent->child;
-    while (c && c->next) {
-      c = c->next;
-    }
-    c->next = nn;
-  }
+  struct node *nn = _call_node_add(call, n, parent);
   ulist_push(&call->nodes, &nn);
-  return ret;
+  return 0;
 }
 
 static void _call_remove(struct node *n) {
@@ -110,12 +128,12 @@ static void _call_init(struct node *n) {
   struct unit *unit = unit_peek();
   const char *key = node_value(n->child);
   if (!key || key[0] == '\0') {
-    node_warn(n, "No name specified for 'call' directive");
+    node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "No name specified for 'call' directive");
     return;
   }
   struct node *mn = unit_env_get_node(unit, key, 0);
-  if (!mn) {
-    node_fatal(0, n, "Unknown script macro: %s", key);
+  if (!mn || mn->type != NODE_TYPE_MACRO) {
+    node_fatal(AK_ERROR_FAIL, n, "Unknown script macro: %s", key);
     return;
   }
   struct _call *call = xcalloc(1, sizeof(*call));
@@ -133,7 +151,7 @@ static void _call_init(struct node *n) {
   for (struct node *pn = n->child->next; pn; pn = next) {
     next = pn->next;
     if (idx >= MACRO_MAX_ARGS_NUM) {
-      node_fatal(0, n, "Exceeded the maximum number of macro args: " Q_STR(MACRO_MAX_ARGS_NUM));
+      node_fatal(AK_ERROR_FAIL, n, "Exceeded the maximum number of macro args: " Q_STR(MACRO_MAX_ARGS_NUM));
       return;
     }
     pn->next = 0;
diff --git a/script.c b/script.c
index 1858c2f..c3e01de 100644
--- a/script.c
+++ b/script.c
@@ -219,7 +219,7 @@ struct node* node_clone_and_register(struct node *n_) {
   struct xnode *n = (struct xnode*) n_;
   struct xnode *x = pool_calloc(g_env.pool, sizeof(*x));
   *x = *n;
-  x->base.flags = 0;
+  x->base.flags = n->base.flags & NODE_FLG_NEGATE;
   x->base.child = 0;
   x->base.next = 0;
   x->base.parent = 0;
-- 
2.43.0


From 0cf7a3415efa433dcaf4a554357dba1cd1b6c684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:04 +0000
Subject: [PATCH 26/76] fix: saved state of a rule is not taken by another rule
 when a conditional include or macro call appears

---
 node_call.c |  3 +++
 script.c    | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/node_call.c b/node_call.c
index ba9cf19..aa3a57a 100644
--- a/node_call.c
+++ b/node_call.c
@@ -1,5 +1,7 @@
 #ifndef _AMALGAMATE_
 #include "script.h"
+#include "env.h"
+#include "pool.h"
 #include "utils.h"
 #include "alloc.h"
 #include "ulist.h"
@@ -163,6 +165,7 @@ static void _call_init(struct node *n) {
   node_visit(mn, 1, call, _call_macro_visit);
   for (int i = call->nn_idx; i < n->ctx->nodes.num; ++i) {
     struct node *nn = *(struct node**) ulist_get(&n->ctx->nodes, i);
+    nn->vfile = pool_printf(g_env.pool, "%s.%d", n->vfile, i - call->nn_idx);
     node_bind(nn);
   }
 }
diff --git a/script.c b/script.c
index c3e01de..1872205 100644
--- a/script.c
+++ b/script.c
@@ -224,6 +224,7 @@ struct node* node_clone_and_register(struct node *n_) {
   x->base.next = 0;
   x->base.parent = 0;
   x->base.impl = 0;
+  x->base.vfile = 0;
   x->base.value_get = 0;
   x->base.init = 0;
   x->base.setup = 0;
@@ -469,6 +470,35 @@ static void _script_destroy(struct sctx *s) {
   }
 }
 
+// Virtual file of a node does not depend on other scripts of the project,
+// so conditional includes will not mix up saved build state of nodes.
+static const char* _node_vfile(struct node *n) {
+  struct node *sn = n;
+  while (sn && sn->type != NODE_TYPE_SCRIPT) {
+    sn = sn->parent;
+  }
+  if (!sn || sn->index == 0) {
+    return pool_printf(g_env.pool, ".%u", n->index);
+  }
+  if (sn == n) {
+    int num = 0; // How many times the same script was included before
+    for (unsigned i = 0; i < n->index; ++i) {
+      struct node *nn = NODE_AT(&n->ctx->nodes, i);
+      if (nn->type == NODE_TYPE_SCRIPT && strcmp(nn->value, n->value) == 0) {
+        ++num;
+      }
+    }
+    char buf[PATH_MAX];
+    utils_strncpy(buf, n->value, sizeof(buf));
+    if (num) {
+      return pool_printf(g_env.pool, ".%s~%d", path_basename(buf), num);
+    } else {
+      return pool_printf(g_env.pool, ".%s", path_basename(buf));
+    }
+  }
+  return pool_printf(g_env.pool, "%s.%u", sn->vfile, n->index - sn->index);
+}
+
 static int _node_bind(struct node *n) {
   int rc = 0;
   if (!(n->flags & NODE_FLG_BOUND)) {
@@ -480,7 +510,9 @@ static int _node_bind(struct node *n) {
     } else {
       n->name = pool_printf(g_env.pool, "%s     %5s", _node_file(n), "");
     }
-    n->vfile = pool_printf(g_env.pool, ".%u", n->index);
+    if (!n->vfile) {
+      n->vfile = _node_vfile(n);
+    }
 
     switch (n->type) {
       case NODE_TYPE_SCRIPT:
-- 
2.43.0


From b1bdd06ead26666f18ed20bc42b6b58a1fa77aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 27/76] fix: state of a rule is invalidated before its
 execution, stale variables of a check are dropped

---
 script.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/script.c b/script.c
index 1872205..76ab3d7 100644
--- a/script.c
+++ b/script.c
@@ -1210,13 +1210,12 @@ void node_resolve(struct node_resolve *r) {
     if (g_env.check.log && r->n) {
       xstr_printf(g_env.check.log, "%s: resolved outdated outdated=%d\n", r->n->name, r->resolve_outdated.num);
     }
-    r->on_resolve(r);
-    if (access(deps_path_tmp, F_OK) == 0) {
-      rc = utils_rename_file(deps_path_tmp, deps_path);
-      if (rc) {
-        akfatal(rc, "Rename failed of %s to %s", deps_path_tmp, deps_path);
-      }
+    // Previous state is not valid from now on, even if this build will be interrupted
+    unlink(deps_path);
+    if (r->on_env_value) {
+      unlink(env_path);
     }
+    r->on_resolve(r);
     if (r->on_env_value && !access(env_path_tmp, F_OK)) {
       rc = utils_rename_file(env_path_tmp, env_path);
       if (rc) {
@@ -1224,6 +1223,12 @@ void node_resolve(struct node_resolve *r) {
       }
       env_created = true;
     }
+    if (access(deps_path_tmp, F_OK) == 0) {
+      rc = utils_rename_file(deps_path_tmp, deps_path);
+      if (rc) {
+        akfatal(rc, "Rename failed of %s to %s", deps_path_tmp, deps_path);
+      }
+    }
   }
 
   if (r->on_env_value && (r->mode & NODE_RESOLVE_ENV_ALWAYS) && (env_created || !access(env_path, R_OK))) {
-- 
2.43.0


From 7127226f018dfc714073f4e74d4741f2c01dcd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 28/76] fix: variables set by check scripts keep their exact
 values: long, multiline

---
 autark_core.c |  5 ++++-
 script.c      | 13 ++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index d0d23c2..dbcf17c 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -458,7 +458,10 @@ static void _on_command_set(int argc, const char **argv) {
       if (g_env.verbose) {
         akinfo("autark set %s", kv);
       }
-      fprintf(f, "%s\n", kv);
+      for ( ; *kv != '\0'; ++kv) { // Keep record on a single line
+        fputc(*kv == '\n' ? '\2' : *kv, f);
+      }
+      fputc('\n', f);
     }
   }
   fclose(f);
diff --git a/script.c b/script.c
index 76ab3d7..49408a6 100644
--- a/script.c
+++ b/script.c
@@ -1232,20 +1232,23 @@ void node_resolve(struct node_resolve *r) {
   }
 
   if (r->on_env_value && (r->mode & NODE_RESOLVE_ENV_ALWAYS) && (env_created || !access(env_path, R_OK))) {
-    char buf[4096];
+    char *buf = 0;
+    size_t buf_cap = 0;
     FILE *f = fopen(env_path, "r");
     if (f) {
-      while (fgets(buf, sizeof(buf), f)) {
+      for (ssize_t len; (len = getline(&buf, &buf_cap, f)) != -1; ) {
+        if (len > 0 && buf[len - 1] == '\n') {
+          buf[len - 1] = '\0';
+        }
         char *p = strchr(buf, '=');
         if (p) {
           *p = '\0';
           char *val = p + 1;
-          for (int vlen = strlen(val); vlen >= 0 && (val[vlen - 1] == '\n' || val[vlen - 1] == '\r'); --vlen) {
-            val[vlen - 1] = '\0';
-          }
+          utils_chars_replace(val, '\2', '\n');
           r->on_env_value(r, buf, val);
         }
       }
+      free(buf);
       fclose(f);
     } else {
       akfatal(rc, "Failed to open env file: %s", env_path);
-- 
2.43.0


From 7d890be681907d945e0704156cb76dc7245dd716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:44 +0000
Subject: [PATCH 29/76] fix: rules are re-executed if literals, list items,
 consumed files or an implicit compiler have been changed

---
 node_cc.c        | 10 ++++++++++
 node_configure.c |  4 ++++
 node_install.c   |  6 ++++++
 node_run.c       | 32 ++++++++++++++++++++++++++++++++
 node_subst.c     |  4 ++++
 script.c         | 41 +++++++++++++++++++++++++++++++++++++++++
 script.h         | 10 +++++++++-
 7 files changed, 106 insertions(+), 1 deletion(-)

diff --git a/node_cc.c b/node_cc.c
index 4266d68..fa50a97 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -206,6 +206,8 @@ static void _cc_on_resolve(struct node_resolve *r) {
     }
   }
 
+  node_resolve_sign_save(r, &deps);
+
   for (int i = 0; i < ctx->consumes.num; ++i) {
     const char *path = *(const char**) ulist_get(&ctx->consumes, i);
     deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
@@ -320,6 +322,14 @@ static void _cc_on_resolve_init(struct node_resolve *r) {
   if (ctx->n_consumes) {
     node_consumes_resolve(r->n, ctx->n_consumes->child, 0, _cc_on_consumed_resolved, r->n);
   }
+  node_resolve_sign_add(r, ctx->cc);
+  node_resolve_sign_add(r, node_value(ctx->n_cflags));
+  for (int i = 0; i < ctx->sources.num; ++i) {
+    node_resolve_sign_add(r, *(const char**) ulist_get(&ctx->sources, i));
+  }
+  for (int i = 0; i < ctx->consumes.num; ++i) {
+    node_resolve_sign_add(r, *(const char**) ulist_get(&ctx->consumes, i));
+  }
 }
 
 static void _cc_build(struct node *n) {
diff --git a/node_configure.c b/node_configure.c
index 0de2a8b..5851aa5 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -244,6 +244,7 @@ static void _configure_on_resolve(struct node_resolve *r) {
     free(src);
   }
 
+  node_resolve_sign_save(r, &deps);
   for (int i = 0; i < ctx->sources.num; ++i) {
     char *src = *(char**) ulist_get(&ctx->sources, i);
     deps_add(&deps, DEPS_TYPE_FILE, 's', src, 0);
@@ -258,6 +259,9 @@ static void _configure_on_resolve_init(struct node_resolve *r) {
   struct node *n = r->n;
   struct _configure_ctx *ctx = n->impl;
   node_consumes_resolve(n, 0, &ctx->sources, 0, 0);
+  for (int i = 0; i < ctx->sources.num; ++i) {
+    node_resolve_sign_add(r, *(const char**) ulist_get(&ctx->sources, i));
+  }
 }
 
 static void _configure_build(struct node *n) {
diff --git a/node_install.c b/node_install.c
index 91911fc..b21ff1f 100644
--- a/node_install.c
+++ b/node_install.c
@@ -192,6 +192,8 @@ static void _install_on_resolve(struct node_resolve *r) {
     }
   }
 
+  node_resolve_sign_save(r, &deps);
+
   for (int i = 0; i < ctx->consumes.num; ++i) {
     const char *src = *(const char**) ulist_get(&ctx->consumes, i);
     _install_dep_add(&deps, src, target);
@@ -217,6 +219,10 @@ static void _install_on_resolve_init(struct node_resolve *r) {
   if (nn) {
     node_consumes_resolve(r->n, nn, 0, _install_on_consumed_resolved, ctx);
   }
+  node_resolve_sign_add(r, node_value(ctx->n_target));
+  for (int i = 0; i < ctx->consumes.num; ++i) {
+    node_resolve_sign_add(r, *(const char**) ulist_get(&ctx->consumes, i));
+  }
 }
 
 static void _install_post_build(struct node *n) {
diff --git a/node_run.c b/node_run.c
index c1cb97f..2460400 100644
--- a/node_run.c
+++ b/node_run.c
@@ -207,6 +207,8 @@ static void _run_on_resolve(struct node_resolve *r) {
     }
   }
 
+  node_resolve_sign_save(r, &deps);
+
   for (int i = 0; i < ctx->consumes.num; ++i) {
     const char *path = *(const char**) ulist_get(&ctx->consumes, i);
     deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
@@ -308,6 +310,28 @@ static void _run_on_resolve_init(struct node_resolve *r) {
     node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved_foreach, ctx);
     ulist_destroy_keep(&paths);
   }
+
+  for (int i = 0; i < ctx->consumes.num; ++i) {
+    node_resolve_sign_add(r, *(const char**) ulist_get(&ctx->consumes, i));
+  }
+}
+
+static void _run_sign_value(struct node_resolve *r, struct _run_on_resolve_ctx *ctx, struct node *nv) {
+  if (node_is_value(nv) || !ctx->fe) {
+    node_resolve_sign_add(r, node_value(nv));
+    return;
+  }
+  // Value depends on foreach items
+  struct vlist_iter iter;
+  vlist_iter_init(ctx->fe->items, &iter);
+  while (vlist_iter_next(&iter)) {
+    char buf[iter.len + 1];
+    memcpy(buf, iter.item, iter.len);
+    buf[iter.len] = '\0';
+    ctx->fe->value = buf;
+    node_resolve_sign_add(r, node_value(nv));
+    ctx->fe->value = 0;
+  }
 }
 
 static void _run_build(struct node *n) {
@@ -329,11 +353,19 @@ static void _run_build(struct node *n) {
   r.force_outdated = n->post_build != 0
                      || node_find_direct_child(n, NODE_TYPE_VALUE, "always") != 0;
 
+  if (ctx.fe) {
+    node_resolve_sign_add(&r, ctx.fe->items);
+  }
+
   for (struct node *nn = n->child; nn; nn = nn->next) {
     if (strcmp(nn->value, "exec") == 0 || strcmp(nn->value, "shell") == 0) {
+      node_resolve_sign_add(&r, nn->value);
       for (struct node *cn = nn->child; cn; cn = cn->next) {
         if (node_is_value_may_be_dep_saved(cn)) {
+          node_resolve_sign_add(&r, 0);
           ulist_push(&r.node_val_deps, &cn);
+        } else if (node_is_can_be_value(cn)) {
+          _run_sign_value(&r, &ctx, cn);
         }
       }
     }
diff --git a/node_subst.c b/node_subst.c
index 1bcb7f1..be3b47e 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -131,6 +131,7 @@ static void _subst_value_proc_cache_on_resolve(struct node_resolve *r) {
     node_fatal(rc, n, "Failed to open dependency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+  node_resolve_sign_save(r, &deps);
   deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
   deps_close(&deps);
 }
@@ -151,6 +152,9 @@ static const char* _subst_value_proc_cache(struct node *n) {
     if (node_is_value_may_be_dep_saved(cn)) {
       ulist_push(&r.node_val_deps, &cn);
     }
+    if (node_is_can_be_value(cn)) {
+      node_resolve_sign_add(&r, node_value(cn));
+    }
   }
 
   node_resolve(&r);
diff --git a/script.c b/script.c
index 49408a6..e93edbd 100644
--- a/script.c
+++ b/script.c
@@ -1137,6 +1137,28 @@ void node_add_unit_deps(struct node *n, struct deps *deps) {
   }
 }
 
+#define DEPS_SERIAL_SIGN (-1)
+
+static const char* _node_resolve_sign_val(struct node_resolve *r, char buf[32]) {
+  snprintf(buf, 32, "%016" PRIx64, r->sign);
+  return buf;
+}
+
+void node_resolve_sign_add(struct node_resolve *r, const char *input) {
+  if (r->sign == 0) {
+    r->sign = 0xcbf29ce484222325ULL; // FNV-1a
+  }
+  const char *p = input ? input : "\2"; // No value
+  do {
+    r->sign = (r->sign ^ (unsigned char) *p) * 0x100000001b3ULL;
+  } while (*p++ != '\0');
+}
+
+void node_resolve_sign_save(struct node_resolve *r, struct deps *deps) {
+  char buf[32];
+  deps_add(deps, DEPS_TYPE_NODE_VALUE, 0, _node_resolve_sign_val(r, buf), DEPS_SERIAL_SIGN);
+}
+
 void node_resolve(struct node_resolve *r) {
   akassert(r && r->path && r->n);
 
@@ -1166,12 +1188,16 @@ void node_resolve(struct node_resolve *r) {
 
   if (!r->force_outdated && !deps_open(deps_path, DEPS_OPEN_READONLY, &deps)) {
     char *prev_outdated = 0;
+    bool sign_outdated = false;
     while (deps_cur_next(&deps)) {
       ++r->num_deps;
 
       bool outdated = false;
       if (prev_outdated && strcmp(prev_outdated, deps.resource) == 0) {
         outdated = false;
+      } else if (deps.type == DEPS_TYPE_NODE_VALUE && deps.serial == DEPS_SERIAL_SIGN) {
+        char buf[32];
+        sign_outdated = strcmp(_node_resolve_sign_val(r, buf), deps.resource) != 0;
       } else if (deps.type == DEPS_TYPE_NODE_VALUE) {
         if (deps.serial >= 0 && deps.serial < r->node_val_deps.num) {
           struct node *nv = *(struct node**) ulist_get(&r->node_val_deps, (unsigned int) deps.serial);
@@ -1199,6 +1225,21 @@ void node_resolve(struct node_resolve *r) {
         });
       }
     }
+
+    if (sign_outdated) {
+      bool all = false; // Whole node is outdated already
+      for (int i = 0; i < r->resolve_outdated.num && !all; ++i) {
+        struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
+        all = u->flags == ' ';
+      }
+      if (!all) {
+        ulist_push(&r->resolve_outdated, &(struct resolve_outdated) {
+          .type = DEPS_TYPE_NODE_VALUE,
+          .flags = ' ',
+          .path = ""
+        });
+      }
+    }
   }
 
   if (deps.file) {
diff --git a/script.h b/script.h
index 7149242..3348ca1 100644
--- a/script.h
+++ b/script.h
@@ -7,6 +7,7 @@
 #include "deps.h"
 #include "map.h"
 
+#include <inttypes.h>
 #include <stdbool.h>
 #endif
 
@@ -183,7 +184,8 @@ struct node_resolve {
   struct ulist node_val_deps;    // struct node*
   struct pool *pool;
   unsigned     mode;
-  int  num_deps;    // Number of dependencies
+  uint64_t     sign; // Signature of node inputs which are not saved in node_val_deps
+  int  num_deps;     // Number of dependencies
   bool force_outdated;
 };
 
@@ -197,6 +199,12 @@ struct resolve_outdated {
 
 void node_resolve(struct node_resolve*);
 
+// Adds a given input of node to the node signature.
+void node_resolve_sign_add(struct node_resolve*, const char *input);
+
+// Saves node signature. Node is outdated if its signature has been changed.
+void node_resolve_sign_save(struct node_resolve*, struct deps*);
+
 __attribute__((noreturn))
 void node_fatal(int rc, struct node *n, const char *fmt, ...);
 
-- 
2.43.0


From fe3796c0066c9c88a0d16874828a9047a180458e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:25 +0000
Subject: [PATCH 30/76] fix: state of a rule is dropped when the rule does not
 take part in a build

---
 script.c | 60 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/script.c b/script.c
index e93edbd..424a28f 100644
--- a/script.c
+++ b/script.c
@@ -835,10 +835,70 @@ int script_include(struct node *parent, const char *file, struct node **out) {
   return _script_open(parent, file, out);
 }
 
+static int _rules_visitor(struct node *n, int lvl, void *d) {
+  struct map *rules = d;
+  if (lvl < 0) {
+    return 0;
+  }
+  switch (n->type) {
+    case NODE_TYPE_RUN:
+    case NODE_TYPE_CC:
+    case NODE_TYPE_CONFIGURE:
+    case NODE_TYPE_INSTALL: {
+      struct unit *unit = _unit_node_find(n)->unit;
+      map_put_str(rules, pool_printf(g_env.pool, "%s/%s.deps", unit->cache_dir, n->vfile), n);
+    }
+  }
+  return 0;
+}
+
+// Products of rules which do not take part in this build (eg. not taken branches of conditions)
+// can be overwritten by other rules. So drops a saved state of rules known from the previous build
+// and missing in this one.
+static void _script_rules_sync(struct sctx *s) {
+  struct map *rules = map_create_str(map_k_free);
+  const char *path = pool_printf(g_env.pool, "%s/.autark-rules", g_env.project.cache_dir);
+  const char *path_tmp = pool_printf(g_env.pool, "%s.tmp", path);
+  _node_visit(s->root, 1, rules, _rules_visitor);
+
+  FILE *f = fopen(path, "r");
+  if (f) {
+    char *buf = 0;
+    size_t cap = 0;
+    for (ssize_t len; (len = getline(&buf, &cap, f)) != -1; ) {
+      if (len > 0 && buf[len - 1] == '\n') {
+        buf[len - 1] = '\0';
+      }
+      if (!map_get(rules, buf)) {
+        deps_prune_all(buf);
+      }
+    }
+    free(buf);
+    fclose(f);
+  }
+
+  f = fopen(path_tmp, "w");
+  if (!f) {
+    akfatal(errno, "Failed to open file for writing: %s", path_tmp);
+  }
+  struct map_iter iter;
+  map_iter_init(rules, &iter);
+  while (map_iter_next(&iter)) {
+    fprintf(f, "%s\n", (const char*) iter.key);
+  }
+  fclose(f);
+  int rc = utils_rename_file(path_tmp, path);
+  if (rc) {
+    akfatal(rc, "Rename failed of %s to %s", path_tmp, path);
+  }
+  map_destroy(rules);
+}
+
 void script_build(struct sctx *s) {
   akassert(s->root);
   node_init(s->root);
   node_setup(s->root);
+  _script_rules_sync(s);
   node_build(s->root);
   node_post_build(s->root);
 }
-- 
2.43.0


From def0d3b89e0676221cc811fbfe8de7a7e2d7bb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 31/76] fix: check is executed again if its script or arguments
 have been changed

---
 node_check.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/node_check.c b/node_check.c
index fe7fd19..5c9a4bc 100644
--- a/node_check.c
+++ b/node_check.c
@@ -61,6 +61,8 @@ static void _check_on_resolve(struct node_resolve *r) {
     node_fatal(rc, unit->n, "Failed to open depencency file: %s", r->deps_path_tmp);
   }
   node_add_unit_deps(n, &deps);
+  deps_add(&deps, DEPS_TYPE_FILE, 0, path, 0);
+  node_resolve_sign_save(r, &deps);
   deps_close(&deps);
 }
 
@@ -105,6 +107,12 @@ static void _check_script(struct node *n) {
     .on_resolve = _check_on_resolve,
   };
 
+  for (struct node *nn = n->child; nn; nn = nn->next) {
+    if (node_is_can_be_value(nn)) {
+      node_resolve_sign_add(&nr, node_value(nn));
+    }
+  }
+
   node_resolve(&nr);
 
   unit_pop();
-- 
2.43.0


From aab8c472a3e89788f085ddd5fee8d78002fc4ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:31 +0000
Subject: [PATCH 32/76] fix: configure keeps variable dependencies of templates
 which are not processed in a build

---
 node_configure.c | 48 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/node_configure.c b/node_configure.c
index 5851aa5..4677492 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -132,6 +132,32 @@ static char* _line_replace_subs(struct node *n, struct deps *deps, char *line) {
   return xstr_destroy_keep_ptr(xstr);
 }
 
+static char* _process_line(struct node *n, struct deps *deps, char *line) {
+  if (utils_startswith(line, "//autarkdef ")) {
+    return _line_replace_def(n, deps, line);
+  } else {
+    return _line_replace_subs(n, deps, line);
+  }
+}
+
+// Registers variables used by the template
+static void _process_deps(struct node *n, const char *src, struct deps *deps) {
+  FILE *f = fopen(src, "r");
+  if (!f) {
+    node_fatal(errno, n, "Failed to open file: %s", src);
+  }
+  char *line = 0;
+  size_t line_cap = 0;
+  while (getline(&line, &line_cap, f) != -1) {
+    char *rl = _process_line(n, deps, line);
+    if (rl != line) {
+      free(rl);
+    }
+  }
+  free(line);
+  fclose(f);
+}
+
 static void _process_file(struct node *n, const char *src, const char *tgt, struct deps *deps) {
   struct xstr *xstr = 0;
   if (strcmp(src, tgt) == 0) {
@@ -156,12 +182,7 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
   size_t line_cap = 0;
 
   while (getline(&line, &line_cap, f) != -1) {
-    char *rl;
-    if (utils_startswith(line, "//autarkdef ")) {
-      rl = _line_replace_def(n, deps, line);
-    } else {
-      rl = _line_replace_subs(n, deps, line);
-    }
+    char *rl = _process_line(n, deps, line);
     if (rl && fputs(rl, t) == EOF) {
       node_fatal(AK_ERROR_IO, n, "File write fail: %s", tgt);
     }
@@ -244,6 +265,21 @@ static void _configure_on_resolve(struct node_resolve *r) {
     free(src);
   }
 
+  if (slist != &ctx->sources) { // Keep variables of templates which are not touched in this run
+    for (int i = 0; i < ctx->sources.num; ++i) {
+      char buf[PATH_MAX];
+      char *src = *(char**) ulist_get(&ctx->sources, i);
+      path_normalize_cwd(src, unit->cache_dir, buf);
+      bool processed = false;
+      for (int j = 0; j < rlist.num && !processed; ++j) {
+        processed = strcmp(*(char**) ulist_get(&rlist, j), buf) == 0;
+      }
+      if (!processed) {
+        _process_deps(n, buf, &deps);
+      }
+    }
+  }
+
   node_resolve_sign_save(r, &deps);
   for (int i = 0; i < ctx->sources.num; ++i) {
     char *src = *(char**) ulist_get(&ctx->sources, i);
-- 
2.43.0


From cc4e35c98ab2467336fa509561cd2a1b0a993656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 33/76] fix: every prerequisite reported by a compiler is
 tracked: sources, names without extension, escaped names, long lists

---
 node_cc.c | 88 +++++++++++++++++++++++++------------------------------
 1 file changed, 40 insertions(+), 48 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index fa50a97..feaab5e 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -32,75 +32,67 @@ struct _cc_ctx {
 };
 
 static void _cc_deps_MMD_item_add(const char *item, struct node *n, struct deps *deps, const char *src) {
-  char buf[127];
-  char *p = strrchr(item, '.');
-  if (!p || p[1] == '\0') {
-    return;
-  }
-  ++p;
-  char *ext = utils_strncpy(buf, p, sizeof(buf));
-  if (*ext == 'c' || *ext == 'C' || *ext == 'm') {
-    // Skip source files
+  if (strcmp(item, src) == 0) {
+    // Skip source file itself
     return;
   }
   deps_add_alias(deps, 's', src, item);
 }
 
 static void _cc_deps_MMD_add(struct node *n, struct deps *deps, const char *src, const char *obj) {
-  char buf[MAX(2 * PATH_MAX, 8192)];
+  char path[PATH_MAX];
   size_t len = strlen(obj);
-  utils_strncpy(buf, obj, sizeof(buf));
+  utils_strncpy(path, obj, sizeof(path));
 
-  char *p = strrchr(buf, '.');
+  char *p = strrchr(path, '.');
   akassert(p && p[1] != '\0');
   p[1] = 'd';
   p[2] = '\0';
 
-  FILE *f = fopen(buf, "r");
-  if (!f) {
-    node_warn(n, "Failed to open compiler generated (-MMD) dependency file: %s", buf);
+  struct value val = utils_file_as_buf(path, -1);
+  if (val.error) {
+    node_warn(n, "Failed to open compiler generated (-MMD) dependency file: %s", path);
+    value_destroy(&val);
     return;
   }
 
-  bool nl = false;
-
-  while ((p = fgets(buf, sizeof(buf), f))) {
-    if (!nl) {
-      if (!utils_startswith(p, obj)) {
-        continue;
-      }
-      p += len;
-      if (*p++ != ':') {
-        continue;
-      }
-    } else {
-      nl = false;
+  p = val.buf;
+  if (utils_startswith(p, obj) && p[len] == ':') {
+    p += len + 1;
+  } else {
+    // Target name may be escaped
+    while (*p != '\0' && !(*p == ':' && utils_char_is_space(p[1]))) {
+      ++p;
     }
+    if (*p == ':') {
+      ++p;
+    }
+  }
 
-    while (*p != '\0') {
-      while (*p != '\0' && utils_char_is_space(*p)) {
-        ++p;
-      }
-      if (p[0] == '\\' && p[1] == '\n') {
-        nl = true;
+  char *item = xmalloc(val.len + 1);
+  while (*p != '\0' && *p != '\n') {
+    if (p[0] == '\\' && (p[1] == '\n' || p[1] == '\r')) { // Line continuation
+      p += p[1] == '\r' && p[2] == '\n' ? 3 : 2;
+      continue;
+    }
+    if (utils_char_is_space(*p)) {
+      ++p;
+      continue;
+    }
+    char *w = item;
+    while (*p != '\0' && !utils_char_is_space(*p)) {
+      if (p[0] == '\\' && (p[1] == '\n' || p[1] == '\r')) {
         break;
+      } else if ((p[0] == '\\' && (p[1] == ' ' || p[1] == '#')) || (p[0] == '$' && p[1] == '$')) {
+        ++p; // Escaped char
       }
-      char *sp = p;
-      char *ep = sp;
-      while (*p != '\0' && !utils_char_is_space(*p)) {
-        ep = p;
-        ++p;
-      }
-      if (ep > sp) {
-        if (*p != '\0') {
-          *p = '\0';
-          ++p;
-        }
-        _cc_deps_MMD_item_add(sp, n, deps, src);
-      }
+      *w++ = *p++;
     }
+    *w = '\0';
+    _cc_deps_MMD_item_add(item, n, deps, src);
   }
-  fclose(f);
+  free(item);
+  value_destroy(&val);
 }
 
 struct _cc_task {
-- 
2.43.0


From 93cce4a23bef6ffa538f7e312d75ff9a450ff11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 34/76] fix: install replaces a symlink at the place of an
 installed file, it's not written through

---
 node_install.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/node_install.c b/node_install.c
index b21ff1f..511c8aa 100644
--- a/node_install.c
+++ b/node_install.c
@@ -61,6 +61,8 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
   if (in_fd == -1) {
     node_fatal(errno, n, "Error opening file: %s", src);
   }
+  // Installed file must not be written through a symlink
+  unlink(dst);
   int out_fd = open(dst, O_WRONLY | O_CREAT | O_TRUNC, st->st_mode);
   if (out_fd == -1) {
     node_fatal(errno, n, "Error opening file: %s", dst);
-- 
2.43.0


From 84749e2a640070258ee3ced1edf2f42b6900071a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 35/76] fix: retargeted symlink is seen as a changed file,
 installed dangling symlink is not reinstalled by every build

---
 deps.c  |  8 ++++----
 paths.c | 19 +++++++++++++++++++
 paths.h |  4 ++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/deps.c b/deps.c
index a0dd2cb..b0d162f 100644
--- a/deps.c
+++ b/deps.c
@@ -85,14 +85,14 @@ bool deps_cur_is_outdated(struct node *n, struct deps *d) {
     switch (d->type) {
       case DEPS_TYPE_FILE: {
         struct akpath_stat st;
-        if (path_stat(d->resource, &st) || st.ftype == AKPATH_NOT_EXISTS || st.mtime > d->serial) {
+        if (path_stat_link(d->resource, &st) || st.ftype == AKPATH_NOT_EXISTS || st.mtime > d->serial) {
           return true;
         }
         break;
       }
       case DEPS_TYPE_ALIAS: {
         struct akpath_stat st;
-        if (path_stat(d->alias, &st) || st.ftype == AKPATH_NOT_EXISTS || st.mtime > d->serial) {
+        if (path_stat_link(d->alias, &st) || st.ftype == AKPATH_NOT_EXISTS || st.mtime > d->serial) {
           return true;
         }
         break;
@@ -133,7 +133,7 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
     path_normalize(resource, buf[0]);
     resource = buf[0];
     struct akpath_stat st;
-    if (!path_stat(resource, &st) && st.ftype != AKPATH_NOT_EXISTS) {
+    if (!path_stat_link(resource, &st) && st.ftype != AKPATH_NOT_EXISTS) {
       serial = st.mtime;
     }
   } else if (type == DEPS_TYPE_ALIAS) {
@@ -142,7 +142,7 @@ static int _deps_add(struct deps *d, char type, char flags, const char *resource
     resource = buf[0];
     alias = buf[1];
     struct akpath_stat st;
-    if (!path_stat(alias, &st) && st.ftype != AKPATH_NOT_EXISTS) {
+    if (!path_stat_link(alias, &st) && st.ftype != AKPATH_NOT_EXISTS) {
       serial = st.mtime;
     }
   } else if (type == DEPS_TYPE_ENV || type == DEPS_TYPE_NODE_VALUE || type == DEPS_TYPE_SYS_ENV) {
diff --git a/paths.c b/paths.c
index ed52271..5df11eb 100644
--- a/paths.c
+++ b/paths.c
@@ -319,6 +319,25 @@ int path_stat(const char *path, struct akpath_stat *stat) {
   return _stat(path, -1, stat);
 }
 
+int path_stat_link(const char *path, struct akpath_stat *fs) {
+  struct stat st;
+  int rc = _stat(path, -1, fs);
+  if (rc == 0 && lstat(path, &st) == 0 && S_ISLNK(st.st_mode)) {
+#if defined(__APPLE__) || defined(__NetBSD__)
+    uint64_t mtime = _ts_sec_nsec_to_ms(st.st_mtime, st.st_mtimensec);
+#else
+    uint64_t mtime = _ts_sec_nsec_to_ms(st.st_mtim.tv_sec, st.st_mtim.tv_nsec);
+#endif
+    if (fs->ftype == AKPATH_NOT_EXISTS) {
+      fs->ftype = AKPATH_LINK;
+      fs->mtime = mtime;
+    } else if (mtime > fs->mtime) {
+      fs->mtime = mtime;
+    }
+  }
+  return rc;
+}
+
 int path_stat_fd(int fd, struct akpath_stat *stat) {
   return _stat(0, fd, stat);
 }
diff --git a/paths.h b/paths.h
index 5157c14..26fca3d 100644
--- a/paths.h
+++ b/paths.h
@@ -58,6 +58,10 @@ int path_rm_cache(const char *path);
 
 int path_stat(const char *path, struct akpath_stat *stat);
 
+/// Like path_stat() but modification time of a symlink is the latest of link itself and its target.
+/// Dangling symlink is reported as AKPATH_LINK.
+int path_stat_link(const char *path, struct akpath_stat *stat);
+
 int path_stat_fd(int fd, struct akpath_stat *stat);
 
 int path_stat_file(FILE *file, struct akpath_stat *stat);
-- 
2.43.0


From 10c2727fd9beed8e497b5cc2f6bb2f438a6e5902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 36/76] fix: cc sources relative to the cache directory of a
 script (generated sources) as documented

---
 node_cc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/node_cc.c b/node_cc.c
index feaab5e..8be34c5 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -387,6 +387,10 @@ static void _cc_source_add(struct node *n, const char *src) {
 
   if (!path_is_absolute(src)) {
     npath = path_normalize_cwd(src, unit->dir, buf);
+    if (!path_is_exist(npath)) {
+      // Generated source in cache dir
+      npath = path_normalize_cwd(src, unit->cache_dir, buf);
+    }
   }
 
   p = pool_strdup(ctx->pool, npath);
-- 
2.43.0


From bec1066665bdb2f6a6dac9ccc9c1552928c262e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 37/76] fix: rule which generates a source is brought up to
 date before the source is compiled

---
 node_cc.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/node_cc.c b/node_cc.c
index 8be34c5..2bd020f 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -333,13 +333,11 @@ static void _cc_build(struct node *n) {
 
   for (int i = 0; i < ctx->sources.num; ++i) {
     const char *src = *(char**) ulist_get(&ctx->sources, i);
-    if (!path_is_exist(src)) {
-      struct node *pn = node_by_product_raw(n, src);
-      if (pn) {
-        node_build(pn);
-      } else {
-        node_fatal(AK_ERROR_DEPENDENCY_UNRESOLVED, n, "'%s'", src);
-      }
+    struct node *pn = node_by_product_raw(n, src);
+    if (pn) {
+      node_build(pn);
+    } else if (!path_is_exist(src)) {
+      node_fatal(AK_ERROR_DEPENDENCY_UNRESOLVED, n, "'%s'", src);
     }
   }
 
-- 
2.43.0


From c0bb8df0ff82440e0c43cec9b943d53bb788bd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:46 +0000
Subject: [PATCH 38/76] fix: foreach consumes exactly what its consumes
 expressions evaluate to for each item, in the order of items

---
 node_run.c | 164 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 111 insertions(+), 53 deletions(-)

diff --git a/node_run.c b/node_run.c
index 2460400..d18af4c 100644
--- a/node_run.c
+++ b/node_run.c
@@ -25,11 +25,19 @@ static void _run_stderr_handler(char *buf, size_t buflen, struct spawn *s) {
   fwrite(buf, 1, buflen, stderr);
 }
 
+struct _run_fe_consumed {
+  const char *path; // Consumed file
+  const char *item; // Foreach item
+  int  idx;         // Foreach item index
+  bool plain;       // Item itself is consumed
+};
+
 struct _run_on_resolve_ctx {
   struct node_resolve *r;
   struct node_foreach *fe;
   struct ulist consumes;         // sizeof(char*)
-  struct ulist consumes_foreach; // sizeof(char*)
+  struct ulist consumes_foreach; // struct _run_fe_consumed
+  struct _run_fe_consumed fe_current;
   bool fe_consumed;              // Foreach variable is consumed
 };
 
@@ -141,40 +149,49 @@ static void _run_on_resolve(struct node_resolve *r) {
 
   if (ctx->fe) {
     if (ctx->fe_consumed) { // Foreach variable is consumed by run
-      struct ulist flist_ = { .usize = sizeof(char*) };
+      bool all = r->resolve_outdated.num == 0;
+      for (int i = 0; i < r->resolve_outdated.num && !all; ++i) {
+        struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
+        all = u->flags != 'f'; // Fallback to all consumed
+      }
+
+      struct unit *unit = unit_peek();
       struct ulist *flist = &ctx->consumes_foreach;
-      if (r->resolve_outdated.num) {
-        for (int i = 0; i < r->resolve_outdated.num; ++i) {
-          struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
-          if (u->flags != 'f') {
-            flist = &ctx->consumes_foreach; // Fallback to all consumed
+
+      for (int i = 0, j; i < flist->num; i = j) {
+        bool outdated = all;
+        const char *plain = 0;
+        struct _run_fe_consumed *fc = ulist_get(flist, i);
+
+        for (j = i; j < flist->num; ++j) { // Files consumed for the same item
+          struct _run_fe_consumed *c = ulist_get(flist, j);
+          if (c->idx != fc->idx) {
             break;
           }
-          char *path = pool_strdup(r->pool, u->path);
-          ulist_push(&flist_, &path);
-          flist = &flist_;
+          if (c->plain) {
+            plain = c->path;
+          }
+          for (int k = 0; k < r->resolve_outdated.num && !outdated; ++k) {
+            struct resolve_outdated *u = ulist_get(&r->resolve_outdated, k);
+            outdated = strcmp(u->path, c->path) == 0;
+          }
         }
-      }
 
-      struct unit *unit = unit_peek();
-      for (int i = 0; i < flist->num; ++i) {
-        char *p, *fi = *(char**) ulist_get(flist, i);
-        if (n->flags & NODE_FLG_IN_CACHE) {
-          p = path_relativize_cwd(unit->cache_dir, fi, unit->cache_dir);
-        } else if (n->flags & NODE_FLG_IN_SRC) {
-          p = path_relativize_cwd(unit->dir, fi, unit->dir);
-        } else {
-          p = fi;
-        }
-        ctx->fe->value = p;
-        _run_on_resolve_do(r, n);
-        ctx->fe->value = 0;
-        if (p != fi) {
+        if (outdated) {
+          char *p = 0;
+          if (plain) {
+            if (n->flags & NODE_FLG_IN_CACHE) {
+              p = path_relativize_cwd(unit->cache_dir, plain, unit->cache_dir);
+            } else if (n->flags & NODE_FLG_IN_SRC) {
+              p = path_relativize_cwd(unit->dir, plain, unit->dir);
+            }
+          }
+          ctx->fe->value = p ? p : (char*) (plain ? plain : fc->item);
+          _run_on_resolve_do(r, n);
+          ctx->fe->value = 0;
           free(p);
         }
       }
-
-      ulist_destroy_keep(&flist_);
     } else {
       struct vlist_iter iter;
       vlist_iter_init(ctx->fe->items, &iter);
@@ -215,8 +232,8 @@ static void _run_on_resolve(struct node_resolve *r) {
   }
 
   for (int i = 0; i < ctx->consumes_foreach.num; ++i) {
-    const char *path = *(const char**) ulist_get(&ctx->consumes_foreach, i);
-    deps_add(&deps, DEPS_TYPE_FILE, 'f', path, 0);
+    struct _run_fe_consumed *c = ulist_get(&ctx->consumes_foreach, i);
+    deps_add(&deps, DEPS_TYPE_FILE, 'f', c->path, 0);
   }
 
   deps_close(&deps);
@@ -277,38 +294,79 @@ static void _run_on_consumed_resolved(const char *path_, void *d) {
 
 static void _run_on_consumed_resolved_foreach(const char *path_, void *d) {
   struct _run_on_resolve_ctx *ctx = d;
-  const char *path = pool_strdup(ctx->r->pool, path_);
-  ulist_push(&ctx->consumes_foreach, &path);
+  struct _run_fe_consumed c = ctx->fe_current;
+  c.path = pool_strdup(ctx->r->pool, path_);
+  ulist_push(&ctx->consumes_foreach, &c);
 }
 
-static void _run_on_resolve_init(struct node_resolve *r) {
-  struct _run_on_resolve_ctx *ctx = r->user_data;
-  ctx->r = r;
-  struct node *nn = node_find_direct_child(r->n, NODE_TYPE_BAG, "consumes");
+static void _run_consumed_values_add(struct pool *pool, const char *val, struct ulist *list) {
+  if (is_vlist(val)) {
+    struct vlist_iter iter;
+    vlist_iter_init(val, &iter);
+    while (vlist_iter_next(&iter)) {
+      const char *p = pool_strndup(pool, iter.item, iter.len);
+      ulist_push(list, &p);
+    }
+  } else if (val && *val != '\0') {
+    const char *p = pool_strdup(pool, val);
+    ulist_push(list, &p);
+  }
+}
 
-  if (ctx->fe) {
-    ctx->fe->value = 0;
-    ctx->fe->access_cnt = 0;
+static void _run_on_resolve_init_foreach(struct node_resolve *r, struct node *bag) {
+  struct _run_on_resolve_ctx *ctx = r->user_data;
+  struct node_foreach *fe = ctx->fe;
+  struct ulist paths = { .usize = sizeof(char*) };
+
+  // Files consumed by all items
+  for (struct node *nn = bag->child; nn; nn = nn->next) {
+    fe->value = 0;
+    fe->access_cnt = 0;
+    const char *val = node_value(nn);
+    if (fe->access_cnt == 0) {
+      _run_consumed_values_add(r->pool, val, &paths);
+    } else {
+      ctx->fe_consumed = true;
+    }
   }
+  node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved, ctx);
 
-  if (nn && nn->child) {
-    node_consumes_resolve(r->n, nn->child, 0, _run_on_consumed_resolved, ctx);
+  if (ctx->fe_consumed) {
+    struct vlist_iter iter;
+    vlist_iter_init(fe->items, &iter);
+    for (int i = 0; vlist_iter_next(&iter); ++i) {
+      char *item = pool_strndup(r->pool, iter.item, iter.len);
+      ctx->fe_current = (struct _run_fe_consumed) { .item = item, .idx = i };
+
+      for (struct node *nn = bag->child; nn; nn = nn->next) {
+        fe->value = item;
+        fe->access_cnt = 0;
+        const char *val = node_value(nn);
+        if (fe->access_cnt > 0) {
+          ctx->fe_current.plain = val && strcmp(val, item) == 0;
+          ulist_clear(&paths);
+          _run_consumed_values_add(r->pool, val, &paths);
+          fe->value = 0;
+          node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved_foreach, ctx);
+        }
+      }
+      fe->value = 0;
+    }
   }
+  ulist_destroy_keep(&paths);
+}
 
-  if (ctx->fe && ctx->fe->access_cnt > 0) {
-    ctx->fe_consumed = true;
+static void _run_on_resolve_init(struct node_resolve *r) {
+  struct _run_on_resolve_ctx *ctx = r->user_data;
+  ctx->r = r;
+  struct node *nn = node_find_direct_child(r->n, NODE_TYPE_BAG, "consumes");
 
-    struct vlist_iter iter;
-    struct ulist paths = { .usize = sizeof(char*) };
-    vlist_iter_init(ctx->fe->items, &iter);
-    while (vlist_iter_next(&iter)) {
-      char buf[iter.len + 1];
-      memcpy(buf, iter.item, iter.len);
-      char *p = pool_strndup(r->pool, buf, iter.len);
-      ulist_push(&paths, &p);
+  if (nn && nn->child) {
+    if (ctx->fe) {
+      _run_on_resolve_init_foreach(r, nn);
+    } else {
+      node_consumes_resolve(r->n, nn->child, 0, _run_on_consumed_resolved, ctx);
     }
-    node_consumes_resolve(r->n, 0, &paths, _run_on_consumed_resolved_foreach, ctx);
-    ulist_destroy_keep(&paths);
   }
 
   for (int i = 0; i < ctx->consumes.num; ++i) {
@@ -337,7 +395,7 @@ static void _run_sign_value(struct node_resolve *r, struct _run_on_resolve_ctx *
 static void _run_build(struct node *n) {
   struct _run_on_resolve_ctx ctx = {
     .consumes = { .usize = sizeof(char*) },
-    .consumes_foreach = { .usize = sizeof(char*) },
+    .consumes_foreach = { .usize = sizeof(struct _run_fe_consumed) },
     .fe = node_find_parent_foreach(n),
   };
 
-- 
2.43.0


From 4946775776b75764487accd4ca72c6934985bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 39/76] fix: several self referencing lets of the same name do
 not recurse forever

---
 node_set.c | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/node_set.c b/node_set.c
index 43c4ea6..efa77fd 100644
--- a/node_set.c
+++ b/node_set.c
@@ -34,35 +34,39 @@ static struct unit* _unit_for_set(struct node *n, struct node *nn, const char **
   return unit_peek();
 }
 
-static void _set_init_impl(struct node *n) {
+/// `let` takes its name over at every build phase,
+/// the previous definition it may refer to is the one seen at the `init` phase.
+static void _set_init_impl(struct node *n, bool init) {
   const char *key = 0;
   struct unit *unit = n->child ? _unit_for_set(n, n->child, &key) : 0;
   if (!key) {
     node_warn(n, "No name specified for 'set' directive");
     return;
   }
-  unsigned tag = 0;
-  struct node *nn = unit_env_get_node(unit, key, &tag);
-  if (nn) {
-    if (nn != n) {
-      n->recur_next.n = nn;
-    }
-  } else {
-    const char *val = unit_env_get_raw(unit, key);
-    if (val) {
-      n->recur_next.val = pool_strdup(g_env.pool, val);
+  if (init) {
+    unsigned tag = 0;
+    struct node *nn = unit_env_get_node(unit, key, &tag);
+    if (nn) {
+      if (nn != n) {
+        n->recur_next.n = nn;
+      }
+    } else {
+      const char *val = unit_env_get_raw(unit, key);
+      if (val) {
+        n->recur_next.val = pool_strdup(g_env.pool, val);
+      }
     }
   }
   unit_env_set_node(unit, key, n, 0);
 }
 
 static void _set_init(struct node *n) {
-  _set_init_impl(n);
+  _set_init_impl(n, true);
 }
 
 static void _set_setup(struct node *n) {
   if (_set_is_let(n)) {
-    _set_init_impl(n);
+    _set_init_impl(n, false);
   }
   if (n->child && strcmp(n->value, "env") == 0) {
     const char *v = _set_value_get(n);
@@ -81,7 +85,7 @@ static void _set_setup(struct node *n) {
 
 static void _set_build(struct node *n) {
   if (_set_is_let(n)) {
-    _set_init_impl(n);
+    _set_init_impl(n, false);
   }
 }
 
-- 
2.43.0


From 86117677f278980827d8d6cdb58899ae434def46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:43 +0000
Subject: [PATCH 40/76] fix: let of meta keeps the value evaluated at the init
 phase

---
 node_set.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node_set.c b/node_set.c
index efa77fd..fa8fac1 100644
--- a/node_set.c
+++ b/node_set.c
@@ -161,6 +161,9 @@ static const char* _set_value_get(struct node *n) {
 }
 
 int node_set_setup(struct node *n) {
+  if (n->parent && n->parent->type == NODE_TYPE_META) {
+    return 0; // `let` of `meta` is evaluated by the `meta` rule itself
+  }
   n->flags |= NODE_FLG_NO_CWD;
   n->init = _set_init;
   n->setup = _set_setup;
-- 
2.43.0


From 478455817fc7ef82aced58e61c468c385ab836e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 41/76] fix: joins and paths in let are evaluated at each
 access of it as the let itself

---
 node_basename.c |  3 +--
 node_dir.c      |  3 +--
 node_join.c     |  3 +--
 node_set.c      |  3 +--
 script.c        | 10 ++++++++++
 script.h        |  3 +++
 6 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/node_basename.c b/node_basename.c
index 74bf13b..26c9cb9 100644
--- a/node_basename.c
+++ b/node_basename.c
@@ -8,8 +8,7 @@
 #endif
 
 static const char* _basename_value(struct node *n) {
-  struct node_foreach *fe = node_find_parent_foreach(n);
-  if (fe) {
+  if (node_is_value_volatile(n)) {
     free(n->impl);
     n->impl = 0;
   }
diff --git a/node_dir.c b/node_dir.c
index f545475..84340be 100644
--- a/node_dir.c
+++ b/node_dir.c
@@ -18,8 +18,7 @@ static void _dir_segment_add(struct xstr *xstr, const char *item, size_t len) {
 }
 
 static const char* _dir_value(struct node *n) {
-  struct node_foreach *fe = node_find_parent_foreach(n);
-  if (fe) {
+  if (node_is_value_volatile(n)) {
     free(n->impl);
     n->impl = 0;
   }
diff --git a/node_join.c b/node_join.c
index 27dbca4..92b52ab 100644
--- a/node_join.c
+++ b/node_join.c
@@ -6,8 +6,7 @@
 #endif
 
 static const char* _join_value(struct node *n) {
-  struct node_foreach *fe = node_find_parent_foreach(n);
-  if (fe) {
+  if (node_is_value_volatile(n)) {
     free(n->impl);
     n->impl = 0;
   }
diff --git a/node_set.c b/node_set.c
index fa8fac1..603b533 100644
--- a/node_set.c
+++ b/node_set.c
@@ -107,8 +107,7 @@ static const char* _set_value_get(struct node *n) {
   }
   n->recur_next.active = true;
 
-  struct node_foreach *fe = node_find_parent_foreach(n);
-  if (fe || _set_is_let(n)) {
+  if (_set_is_let(n) || node_is_value_volatile(n)) {
     if ((uintptr_t) n->impl != (uintptr_t) -1) {
       free(n->impl);
     }
diff --git a/script.c b/script.c
index 424a28f..e346684 100644
--- a/script.c
+++ b/script.c
@@ -1095,6 +1095,16 @@ struct node_foreach* node_find_parent_foreach(struct node *n) {
   }
 }
 
+bool node_is_value_volatile(struct node *n) {
+  for (struct node *nn = n->parent; nn; nn = nn->parent) {
+    if (  nn->type == NODE_TYPE_FOREACH
+       || (nn->type == NODE_TYPE_SET && strcmp(nn->value, "let") == 0)) {
+      return true;
+    }
+  }
+  return false;
+}
+
 bool node_is_value_may_be_dep_saved(struct node *n) {
   if (!n || n->type == NODE_TYPE_VALUE) { // Hardcoded value
     return false;
diff --git a/script.h b/script.h
index 3348ca1..cd62660 100644
--- a/script.h
+++ b/script.h
@@ -158,6 +158,9 @@ struct node* node_find_prev_sibling(struct node *n);
 
 struct  node* node_find_parent_of_type(struct node *n, int type);
 
+/// Value of a node placed in `foreach` or `let` is evaluated every time it is accessed.
+bool node_is_value_volatile(struct node *n);
+
 struct node_foreach* node_find_parent_foreach(struct node *n);
 
 bool node_is_value_may_be_dep_saved(struct node *n);
-- 
2.43.0


From de63198bb7c091426194c431192e4874f3f9ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:29 +0000
Subject: [PATCH 42/76] fix: unbounded nesting of rules is a syntax error
 instead of a stack overflow

---
 script.c      | 9 +++++++++
 script_impl.h | 6 ++++++
 scriptx.leg   | 2 +-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/script.c b/script.c
index e346684..fe98a4e 100644
--- a/script.c
+++ b/script.c
@@ -296,6 +296,15 @@ static struct xnode* _rule(struct _yycontext *yy, struct xnode *key) {
   return key;
 }
 
+static int _rule_enter(struct _yycontext *yy) {
+  return ++yy->x->xp->depth <= RULE_MAX_DEPTH;
+}
+
+static int _rule_leave(struct _yycontext *yy) {
+  --yy->x->xp->depth;
+  return 1;
+}
+
 static void _finish(struct _yycontext *yy) {
   struct xnode *root = yy->x;
   struct xparse *xp = root->xp;
diff --git a/script_impl.h b/script_impl.h
index 4a30836..b51f402 100644
--- a/script_impl.h
+++ b/script_impl.h
@@ -16,6 +16,9 @@
 #include <errno.h>
 #endif
 
+// Max nesting of script rules
+#define RULE_MAX_DEPTH 4096
+
 #define XNODE(n__)              ((struct xnode*) (n__))
 #define NODE_AT(list__, idx__)  *(struct node**) ulist_get(list__, idx__)
 #define NODE_PEEK(list__)       ((list__)->num ? *(struct node**) ulist_peek(list__) : 0)
@@ -32,6 +35,7 @@ struct xparse {
   struct value       val;
   struct xstr       *xerr;
   int pos;
+  int depth;                // Current nesting of rules
 };
 
 struct xnode {
@@ -68,6 +72,8 @@ static struct xnode* _node_text(struct  _yycontext *yy, const char *text);
 static struct xnode* _node_text_push(struct  _yycontext *yy, const char *text);
 static struct xnode* _node_text_escaped_push(struct  _yycontext *yy, const char *text);
 static struct xnode* _rule(struct _yycontext *yy, struct xnode *x);
+static int _rule_enter(struct _yycontext *yy);
+static int _rule_leave(struct _yycontext *yy);
 static void _finish(struct _yycontext *yy);
 
 #ifndef _AMALGAMATE_
diff --git a/scriptx.leg b/scriptx.leg
index eaa2ce7..f7272a5 100644
--- a/scriptx.leg
+++ b/scriptx.leg
@@ -1,6 +1,6 @@
 RULES = _ (RULE _)* _ EOF                             { _finish(yy); }
 
-RULE = k:STRP _ '{' _ (VALR (__ VALR)*)? _ '}'        { _rule(yy, k); }
+RULE = k:STRP _ '{' &{ _rule_enter(yy) } _ (VALR (__ VALR)*)? _ '}' &{ _rule_leave(yy) } { _rule(yy, k); }
 
 VALR =  STRQ | STRQQ | RULE | STRP
 
-- 
2.43.0


From d69da259b8b47d79c9d8d3245144270b0083ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 43/76] fix: unit_pop does not touch a released stack of units

---
 autark_core.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index dbcf17c..38840ba 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -195,7 +195,7 @@ void unit_push(struct unit *unit, struct node *n) {
 
 struct unit* unit_pop(void) {
   akassert(g_env.stack_units.num > 0);
-  struct unit_ctx *ctx = (struct unit_ctx*) ulist_get(&g_env.stack_units, g_env.stack_units.num - 1);
+  struct unit_ctx ctx = *(struct unit_ctx*) ulist_get(&g_env.stack_units, g_env.stack_units.num - 1);
   ulist_pop(&g_env.stack_units);
   struct unit_ctx peek = unit_peek_ctx();
   if (peek.unit) {
@@ -204,7 +204,7 @@ struct unit* unit_pop(void) {
   } else {
     unsetenv(AUTARK_UNIT);
   }
-  return ctx->unit;
+  return ctx.unit;
 }
 
 struct unit* unit_peek(void) {
-- 
2.43.0


From f32246eb566ec42f03350a723123117698651aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:35 +0000
Subject: [PATCH 44/76] fix: syntax error report does not write beyond the
 parser buffer

---
 script.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/script.c b/script.c
index fe98a4e..d03519c 100644
--- a/script.c
+++ b/script.c
@@ -14,7 +14,6 @@ static void _yyerror(yycontext *yy) {
   }
   if (yy->__pos < yy->__limit) {
     char buf[2] = { 0 };
-    yy->__buf[yy->__limit] = '\0';
     xstr_cat(xerr, "\n");
     while (yy->__pos < yy->__limit) {
       buf[0] = yy->__buf[yy->__pos++];
-- 
2.43.0


From a5b5ddfccca88c6e7b2b6f5013f3e7ba082c1ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:38 +0000
Subject: [PATCH 45/76] fix: scripts and cached program outputs larger than 1Mb
 are not truncated silently

---
 node_subst.c | 2 +-
 utils.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_subst.c b/node_subst.c
index be3b47e..b19bb8b 100644
--- a/node_subst.c
+++ b/node_subst.c
@@ -163,7 +163,7 @@ static const char* _subst_value_proc_cache(struct node *n) {
     struct unit *unit = unit_peek();
     char path[PATH_MAX];
     snprintf(path, sizeof(path), "%s/%s.cache", unit->cache_dir, r.path);
-    struct value val = utils_file_as_buf(path, 1024 * 1024); // 1Mb max
+    struct value val = utils_file_as_buf(path, -1);
     if (val.error) {
       node_fatal(val.error, n, "Failed to read cache file: %s", path);
     }
diff --git a/utils.c b/utils.c
index 60be479..04e45d2 100644
--- a/utils.c
+++ b/utils.c
@@ -21,7 +21,7 @@ struct value utils_file_as_buf(const char *path, ssize_t buflen_max) {
     xstr_destroy(xstr);
     return ret;
   }
-  while (buflen_max != 0 && ret.error == 0) {
+  while (ret.error == 0) {
     ssize_t rb = read(fd, buf, sizeof(buf));
     if (rb > 0) {
       if (buflen_max > -1) {
-- 
2.43.0


From 38441fee8cbccf81cc634de690a559d08f98db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 46/76] fix: zero byte in a script is a syntax error, the rest
 of the script is not dropped silently

---
 script.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/script.c b/script.c
index d03519c..a3133c1 100644
--- a/script.c
+++ b/script.c
@@ -462,6 +462,11 @@ static int _script_from_file(struct node *parent, const char *file, struct node
   if (buf.error) {
     return value_destroy(&buf);
   }
+  if (memchr(buf.buf, 0, buf.len)) {
+    akerror(AK_ERROR_SCRIPT_SYNTAX, "Zero byte in script: %s", file);
+    value_destroy(&buf);
+    return AK_ERROR_SCRIPT_SYNTAX;
+  }
   int ret = _script_from_value(parent, file, &buf, out);
   value_destroy(&buf);
   return ret;
-- 
2.43.0


From 830928de59cc198b99c88cabb1a0ee4efcb78f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 47/76] fix: names of rules in messages are not printf formats

---
 script.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/script.c b/script.c
index a3133c1..755ad68 100644
--- a/script.c
+++ b/script.c
@@ -135,7 +135,7 @@ void node_info(struct node *n, const char *fmt, ...) {
     va_end(ap);
     akinfo("%s: %s", n->name, xstr_ptr(xstr));
   } else {
-    akinfo(n->name, 0);
+    akinfo("%s", n->name);
   }
   xstr_destroy(xstr);
 }
@@ -149,7 +149,7 @@ void node_warn(struct node *n, const char *fmt, ...) {
     va_end(ap);
     akwarn("%s: %s", n->name, xstr_ptr(xstr));
   } else {
-    akinfo(n->name, 0);
+    akwarn("%s", n->name);
   }
   xstr_destroy(xstr);
 }
@@ -163,7 +163,7 @@ void node_fatal(int rc, struct node *n, const char *fmt, ...) {
     va_end(ap);
     akfatal(rc, "%s %s", n->name, xstr_ptr(xstr));
   } else {
-    akfatal(rc, n->name, 0);
+    akfatal(rc, "%s", n->name);
   }
   xstr_destroy(xstr);
 }
-- 
2.43.0


From 8f2470dd0b128bc9c6799c2c009ef1fcf397d261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 48/76] fix: a comment drops only its own line, preceding blank
 lines are not scanned quadratically

---
 script.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script.c b/script.c
index 755ad68..fab1a10 100644
--- a/script.c
+++ b/script.c
@@ -347,7 +347,7 @@ static void _preprocess_script(struct value *v) {
       comment = false;
     } else if (eol) {
       const char *sp = p;
-      while (utils_char_is_space(*sp)) {
+      while (*sp != '\n' && utils_char_is_space(*sp)) {
         ++sp;
       }
       if (*sp == '#') {
-- 
2.43.0


From 6360e7725ac86cbd37b633b2d002b233df8c8fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:28 +0000
Subject: [PATCH 49/76] fix: ulist_clone and ulist_remove_by take the start of
 a shifted list into account

---
 ulist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ulist.c b/ulist.c
index 474a249..ae184ba 100644
--- a/ulist.c
+++ b/ulist.c
@@ -185,7 +185,7 @@ struct ulist* ulist_clone(const struct ulist *list) {
   struct ulist *nlist = xmalloc(sizeof(*nlist));
   unsigned anum = list->num > _ALLOC_UNIT ? list->num : _ALLOC_UNIT;
   nlist->array = xmalloc(anum * list->usize);
-  memcpy(nlist->array, list->array + list->start, list->num * list->usize);
+  memcpy(nlist->array, list->array + (size_t) list->start * list->usize, (size_t) list->num * list->usize);
   nlist->usize = list->usize;
   nlist->num = list->num;
   nlist->anum = anum;
@@ -208,7 +208,7 @@ int ulist_remove_by(struct ulist *list, const void *data) {
     void *ptr = list->array + i * list->usize;
     if (memcmp(data, ptr, list->usize) == 0) {
       ulist_remove(list, i - list->start);
-      return i;
+      return i - list->start;
     }
   }
   return -1;
-- 
2.43.0


From 454405ddd8a840034da3af0e6e5dde4abe147afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 50/76] fix: pool_split_string does not run out of a blank
 token

---
 pool.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pool.c b/pool.c
index e58ac43..794475b 100644
--- a/pool.c
+++ b/pool.c
@@ -154,8 +154,8 @@ const char** pool_split_string(
         ++ep;
       }
       if (ignore_whitespace) {
-        while (utils_char_is_space(*sp)) ++sp;
-        while (utils_char_is_space(*(ep - 1))) --ep;
+        while (sp < ep && utils_char_is_space(*sp)) ++sp;
+        while (ep > sp && utils_char_is_space(*(ep - 1))) --ep;
       }
       if (ep >= sp) {
         char *s = pool_alloc(pool, ep - sp + 1);
-- 
2.43.0


From cfae3fef3a703f2dd150217ea3d8326ce9ca94e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:33 +0000
Subject: [PATCH 51/76] fix: map with 64 bit integer keys does not dereference
 its keys

---
 map.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/map.c b/map.c
index bc75cc3..0adc87a 100644
--- a/map.c
+++ b/map.c
@@ -92,7 +92,11 @@ static inline uint32_t _map_hash_uint64(uint64_t x) {
 
 static inline uint32_t _map_hash_uint64_key(const void *key) {
   uint64_t lv = 0;
-  memcpy(&lv, key, sizeof(void*));
+  if (sizeof(uintptr_t) >= sizeof(uint64_t)) { // Key is stored as a pointer value
+    lv = (uintptr_t) key;
+  } else {
+    memcpy(&lv, key, sizeof(lv));
+  }
   return _map_hash_uint64(lv);
 }
 
-- 
2.43.0


From 165424cc7267aabcab0856dcfa06bd78e487c103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 52/76] fix: ulist_remove_by returns the index of an element
 even if its removal compacts the list

---
 ulist.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ulist.c b/ulist.c
index ae184ba..e379804 100644
--- a/ulist.c
+++ b/ulist.c
@@ -207,8 +207,9 @@ int ulist_remove_by(struct ulist *list, const void *data) {
   for (unsigned i = list->start; i < list->start + list->num; ++i) {
     void *ptr = list->array + i * list->usize;
     if (memcmp(data, ptr, list->usize) == 0) {
-      ulist_remove(list, i - list->start);
-      return i - list->start;
+      i -= list->start;
+      ulist_remove(list, i);
+      return i;
     }
   }
   return -1;
-- 
2.43.0


From 1c5804977bb7630dee92f60eadf21cddf8116f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:05 +0000
Subject: [PATCH 53/76] fix: state of a check script is not shared by different
 build scripts which use it

---
 node_check.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/node_check.c b/node_check.c
index 5c9a4bc..d694a03 100644
--- a/node_check.c
+++ b/node_check.c
@@ -6,10 +6,12 @@
 #include "paths.h"
 #include "spawn.h"
 #include "deps.h"
+#include "xstr.h"
 
 #include <limits.h>
 #include <unistd.h>
 #include <stdio.h>
+#include <stdlib.h>
 #endif
 
 static void _check_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
@@ -82,6 +84,29 @@ static char* _resolve_check_path(struct pool *pool, struct node *n, const char *
   return 0;
 }
 
+// The same check script can be used by different build scripts, each of them has its own saved state.
+static const char* _check_vfile(struct pool *pool, struct node *n, struct unit *parent) {
+  struct unit *unit = unit_peek();
+  if (unit == parent) {
+    return n->vfile;
+  }
+  char *path = path_relativize_cwd(parent->dir, unit->dir, unit->dir);
+  struct xstr *xstr = xstr_create_empty();
+  for (const char *p = path; *p; ++p) {
+    if (*p == '/') {
+      xstr_cat(xstr, "~1");
+    } else if (*p == '~') {
+      xstr_cat(xstr, "~0");
+    } else {
+      xstr_cat2(xstr, p, 1);
+    }
+  }
+  const char *ret = pool_printf(pool, ".%s~1%s", xstr_ptr(xstr), n->vfile + 1);
+  xstr_destroy(xstr);
+  free(path);
+  return ret;
+}
+
 static void _check_script(struct node *n) {
   const char *script = node_value(n);
   if (g_env.verbose) {
@@ -91,7 +116,8 @@ static void _check_script(struct node *n) {
   struct pool *pool = pool_create(on_unit_pool_destroy);
 
   char *path = _resolve_check_path(pool, n, script, &parent);
-  const char *vpath = pool_printf(pool, "%s/.autark/%s", parent->dir, n->vfile);
+  const char *vfile = _check_vfile(pool, n, parent);
+  const char *vpath = pool_printf(pool, "%s/.autark/%s", parent->dir, vfile);
 
   struct unit *unit = unit_create(vpath, 0, pool);
   unit->n = n;
@@ -101,7 +127,7 @@ static void _check_script(struct node *n) {
   struct node_resolve nr = {
     .n = n,
     .mode = NODE_RESOLVE_ENV_ALWAYS,
-    .path = n->vfile,
+    .path = vfile,
     .user_data = unit,
     .on_env_value = _check_on_env_value,
     .on_resolve = _check_on_resolve,
-- 
2.43.0


From df4b99536480cae9954a49dedcb39bba92561726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 54/76] fix: install directory options do not end the parsing
 of command line

---
 autark_core.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 38840ba..b79d0d0 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -677,12 +677,12 @@ void autark_run(int argc, const char **argv) {
     { "prefix", 1, 0, 'R' },
     { "dir", 1, 0, 'C' },
     { "jobs", 1, 0, 'J' },
-    { "bindir", 1, 0, -1 },
-    { "libdir", 1, 0, -2 },
-    { "includedir", 1, 0, -3 },
-    { "pkgconfdir", 1, 0, -4 },
-    { "mandir", 1, 0, -5 },
-    { "datadir", 1, 0, -6 },
+    { "bindir", 1, 0, 0x100 + 1 },
+    { "libdir", 1, 0, 0x100 + 2 },
+    { "includedir", 1, 0, 0x100 + 3 },
+    { "pkgconfdir", 1, 0, 0x100 + 4 },
+    { "mandir", 1, 0, 0x100 + 5 },
+    { "datadir", 1, 0, 0x100 + 6 },
     { 0 }
   };
 
@@ -724,22 +724,22 @@ void autark_run(int argc, const char **argv) {
       case 'C':
         cdir = pool_strdup(g_env.pool, optarg);
         break;
-      case -1:
+      case 0x100 + 1:
         g_env.install.bin_dir = pool_strdup(g_env.pool, optarg);
         break;
-      case -2:
+      case 0x100 + 2:
         g_env.install.lib_dir = pool_strdup(g_env.pool, optarg);
         break;
-      case -3:
+      case 0x100 + 3:
         g_env.install.include_dir = pool_strdup(g_env.pool, optarg);
         break;
-      case -4:
+      case 0x100 + 4:
         g_env.install.pkgconf_dir = pool_strdup(g_env.pool, optarg);
         break;
-      case -5:
+      case 0x100 + 5:
         g_env.install.man_dir = pool_strdup(g_env.pool, optarg);
         break;
-      case -6:
+      case 0x100 + 6:
         g_env.install.data_dir = pool_strdup(g_env.pool, optarg);
         break;
       case 'J': {
-- 
2.43.0


From e9efed304fc493fff498bb96ca4c19b1fc6c7d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:31 +0000
Subject: [PATCH 55/76] fix: saved state of nodes of different scripts is kept
 apart even if they are evaluated in the same dir

---
 node_check.c | 30 ++----------------------------
 script.c     | 14 +++++++++-----
 2 files changed, 11 insertions(+), 33 deletions(-)

diff --git a/node_check.c b/node_check.c
index d694a03..5c9a4bc 100644
--- a/node_check.c
+++ b/node_check.c
@@ -6,12 +6,10 @@
 #include "paths.h"
 #include "spawn.h"
 #include "deps.h"
-#include "xstr.h"
 
 #include <limits.h>
 #include <unistd.h>
 #include <stdio.h>
-#include <stdlib.h>
 #endif
 
 static void _check_stdout_handler(char *buf, size_t buflen, struct spawn *s) {
@@ -84,29 +82,6 @@ static char* _resolve_check_path(struct pool *pool, struct node *n, const char *
   return 0;
 }
 
-// The same check script can be used by different build scripts, each of them has its own saved state.
-static const char* _check_vfile(struct pool *pool, struct node *n, struct unit *parent) {
-  struct unit *unit = unit_peek();
-  if (unit == parent) {
-    return n->vfile;
-  }
-  char *path = path_relativize_cwd(parent->dir, unit->dir, unit->dir);
-  struct xstr *xstr = xstr_create_empty();
-  for (const char *p = path; *p; ++p) {
-    if (*p == '/') {
-      xstr_cat(xstr, "~1");
-    } else if (*p == '~') {
-      xstr_cat(xstr, "~0");
-    } else {
-      xstr_cat2(xstr, p, 1);
-    }
-  }
-  const char *ret = pool_printf(pool, ".%s~1%s", xstr_ptr(xstr), n->vfile + 1);
-  xstr_destroy(xstr);
-  free(path);
-  return ret;
-}
-
 static void _check_script(struct node *n) {
   const char *script = node_value(n);
   if (g_env.verbose) {
@@ -116,8 +91,7 @@ static void _check_script(struct node *n) {
   struct pool *pool = pool_create(on_unit_pool_destroy);
 
   char *path = _resolve_check_path(pool, n, script, &parent);
-  const char *vfile = _check_vfile(pool, n, parent);
-  const char *vpath = pool_printf(pool, "%s/.autark/%s", parent->dir, vfile);
+  const char *vpath = pool_printf(pool, "%s/.autark/%s", parent->dir, n->vfile);
 
   struct unit *unit = unit_create(vpath, 0, pool);
   unit->n = n;
@@ -127,7 +101,7 @@ static void _check_script(struct node *n) {
   struct node_resolve nr = {
     .n = n,
     .mode = NODE_RESOLVE_ENV_ALWAYS,
-    .path = vfile,
+    .path = n->vfile,
     .user_data = unit,
     .on_env_value = _check_on_env_value,
     .on_resolve = _check_on_resolve,
diff --git a/script.c b/script.c
index fab1a10..ee8ac81 100644
--- a/script.c
+++ b/script.c
@@ -501,13 +501,17 @@ static const char* _node_vfile(struct node *n) {
         ++num;
       }
     }
+    // Nodes of different scripts can be evaluated in the same dir
     char buf[PATH_MAX];
-    utils_strncpy(buf, n->value, sizeof(buf));
-    if (num) {
-      return pool_printf(g_env.pool, ".%s~%d", path_basename(buf), num);
-    } else {
-      return pool_printf(g_env.pool, ".%s", path_basename(buf));
+    char *path = path_relativize_cwd(g_env.project.root_dir, n->value, g_env.project.root_dir);
+    uint64_t hash = 14695981039346656037ULL;
+    for (const char *p = path; *p; ++p) {
+      hash = (hash ^ (uint8_t) *p) * 1099511628211ULL;
     }
+    utils_strncpy(buf, path, sizeof(buf));
+    free(path);
+    const char *ret = pool_printf(g_env.pool, ".%s-%016llx", path_basename(buf), (unsigned long long) hash);
+    return num ? pool_printf(g_env.pool, "%s~%d", ret, num) : ret;
   }
   return pool_printf(g_env.pool, "%s.%u", sn->vfile, n->index - sn->index);
 }
-- 
2.43.0


From d1cb4a8329cd8224026b51e926558b826e1859f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 56/76] fix: search of a program in PATH skips directories and
 files which are not executable

---
 spawn.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spawn.c b/spawn.c
index 041a27f..3c90181 100644
--- a/spawn.c
+++ b/spawn.c
@@ -12,6 +12,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 #include <sys/wait.h>
 #include <unistd.h>
 #endif
@@ -145,7 +146,8 @@ static char* _file_resolve_in_path(struct spawn *s, const char *file, char pathb
       } else {
         snprintf(pathbuf, PATH_MAX, "%s%s", buf, file);
       }
-      if (!access(pathbuf, F_OK)) {
+      struct stat st;
+      if (!access(pathbuf, X_OK) && !stat(pathbuf, &st) && S_ISREG(st.st_mode)) {
         return pathbuf;
       }
     }
-- 
2.43.0


From 02531fd555dc3dddbfc9b9e57b1d9c74f6a650da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 57/76] fix: a plain word '&' in the macro body is not an
 argument placeholder

---
 node_call.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_call.c b/node_call.c
index aa3a57a..4a13bad 100644
--- a/node_call.c
+++ b/node_call.c
@@ -81,7 +81,7 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
     return 0;
   }
 
-  bool is_arg = n->value[0] == '&' && n->value[1] == '\0';
+  bool is_arg = n->type != NODE_TYPE_VALUE && n->value[0] == '&' && n->value[1] == '\0';
 
   if (lvl < 0) {
     if (!is_arg) {
-- 
2.43.0


From 0048513b684d5af1e6af3bcf383966cc06a457d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 58/76] fix: too big index of macro argument is not truncated

---
 node_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/node_call.c b/node_call.c
index 4a13bad..ea30ed8 100644
--- a/node_call.c
+++ b/node_call.c
@@ -93,7 +93,7 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
   struct node *parent = *(struct node**) ulist_peek(&call->nodes);
 
   if (is_arg) {
-    int idx;
+    long idx;
     if (n->child) {
       int rc = 0;
       idx = utils_strtol(n->child->value, 10, &rc);
@@ -105,7 +105,7 @@ static int _call_macro_visit(struct node *n, int lvl, void *d) {
       idx = call->arg_idx + 1;
     }
     if (idx >= MACRO_MAX_ARGS_NUM || !call->args[idx]) {
-      node_fatal(AK_ERROR_FAIL, call->n, "Call argument: %d for macro: %s is not set", (idx + 1), call->key);
+      node_fatal(AK_ERROR_FAIL, call->n, "Call argument: %ld for macro: %s is not set", (idx + 1), call->key);
     }
     call->arg_idx = idx;
     _call_arg_add(call, call->args[idx], parent);
-- 
2.43.0


From a058315ddf91c609f0954e39e4bf0bccda2cf839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 59/76] fix: macro called in the in-sources directive works in
 the source directory

---
 node_call.c | 5 +++++
 script.c    | 1 +
 2 files changed, 6 insertions(+)

diff --git a/node_call.c b/node_call.c
index ea30ed8..fbd40a2 100644
--- a/node_call.c
+++ b/node_call.c
@@ -167,6 +167,11 @@ static void _call_init(struct node *n) {
     struct node *nn = *(struct node**) ulist_get(&n->ctx->nodes, i);
     nn->vfile = pool_printf(g_env.pool, "%s.%d", n->vfile, i - call->nn_idx);
     node_bind(nn);
+    if ((n->flags & NODE_FLG_IN_SRC) // Call is placed in the `in-sources` rule
+        && (nn->type == NODE_TYPE_RUN || nn->type == NODE_TYPE_SUBST || nn->type == NODE_TYPE_CALL)) {
+      nn->flags &= ~(NODE_FLG_IN_CACHE);
+      nn->flags |= NODE_FLG_IN_SRC;
+    }
   }
 }
 
diff --git a/script.c b/script.c
index ee8ac81..ffb0365 100644
--- a/script.c
+++ b/script.c
@@ -602,6 +602,7 @@ static int _node_bind(struct node *n) {
 
     switch (n->type) {
       case NODE_TYPE_RUN:
+      case NODE_TYPE_CALL:
       case NODE_TYPE_SUBST: {
         struct node *nn = node_find_parent_of_type(n, NODE_TYPE_IN_SOURCES);
         if (nn) {
-- 
2.43.0


From 75f2ee5a8edd08bdd5e689850da56dd20fa4b70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 60/76] fix: macro call can be used as a condition of 'if' and
 as a path of 'include'

---
 node_if.c      | 4 ++++
 node_include.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/node_if.c b/node_if.c
index 1126f55..2b15e6d 100644
--- a/node_if.c
+++ b/node_if.c
@@ -214,6 +214,10 @@ static void _if_init(struct node *n) {
     node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "'if {...}' must have a condition clause");
   }
   node_init(cn); // Explicitly init conditional node since in script init worflow 'if' initiated first.
+  cn = n->child; // Condition may be replaced on its init ('call', 'if')
+  if (!cn) {
+    node_fatal(AK_ERROR_SCRIPT_SYNTAX, n, "'if {...}' must have a condition clause");
+  }
 
   bool matched = _if_cond_eval(n, cn);
   if (matched) {
diff --git a/node_include.c b/node_include.c
index 75ea17d..53c035d 100644
--- a/node_include.c
+++ b/node_include.c
@@ -34,6 +34,10 @@ static void _include_init(struct node *n) {
     node_fatal(AK_ERROR_SCRIPT, n, "Missing path in 'include {...}' directive");
   }
   node_init(cn); // Explicitly init conditional node since in script init worflow 'include' initiated first.
+  cn = n->child; // Path may be replaced on its init ('call', 'if')
+  if (!cn) {
+    node_fatal(AK_ERROR_SCRIPT, n, "Missing path in 'include {...}' directive");
+  }
   _include(n, cn);
   n->init = 0;
 }
-- 
2.43.0


From 3f1b11a6de66c8d78589158777148efefc772f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 61/76] fix: no crash if a run rule is placed in the list of
 foreach

---
 node_run.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node_run.c b/node_run.c
index d18af4c..cf1c847 100644
--- a/node_run.c
+++ b/node_run.c
@@ -241,7 +241,7 @@ static void _run_on_resolve(struct node_resolve *r) {
 
 static bool _run_setup_foreach(struct node *n) {
   struct node_foreach *fe = node_find_parent_foreach(n);
-  if (!fe) {
+  if (!fe || !fe->items) { // No foreach or rule is a part of its list
     return false;
   }
   struct node *pn = node_find_direct_child(n, NODE_TYPE_BAG, "produces");
-- 
2.43.0


From 6bf3c99535b6671f0883b1c56cb5bb0f8beaf1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:48 +0000
Subject: [PATCH 62/76] fix: objects and configured files of sources outside of
 the project are placed in the cache dir

---
 autark_core.c    | 13 +++++++++++++
 env.h            |  3 +++
 node_cc.c        | 24 +++++-------------------
 node_configure.c | 22 +++++-----------------
 4 files changed, 26 insertions(+), 36 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index b79d0d0..5155a84 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -270,6 +270,19 @@ void unit_ch_src_dir(struct unit *unit, char *prevcwd) {
   akcheck(chdir(unit->dir));
 }
 
+char* unit_product_path(struct unit *unit, const char *src) {
+  char buf[PATH_MAX];
+  const char *dir = path_is_prefix_for(g_env.project.cache_dir, src, unit->dir) ? unit->cache_dir : unit->dir;
+  char *ret = path_relativize_cwd(dir, src, dir);
+  path_normalize_cwd(ret, unit->cache_dir, buf);
+  if (!path_is_prefix_for(g_env.project.cache_dir, buf, unit->dir)) { // Source is outside of the project
+    for (char *p = ret; utils_startswith(p, "../"); p += AK_LLEN("../")) {
+      p[0] = p[1] = '_';
+    }
+  }
+  return ret;
+}
+
 static int _usage_va(const char *err, va_list ap) {
   if (err) {
     fprintf(stderr, "\nError:  ");
diff --git a/env.h b/env.h
index 4cf5a80..cdc9bfd 100644
--- a/env.h
+++ b/env.h
@@ -114,6 +114,9 @@ void unit_ch_cache_dir(struct unit*, char *prevcwd);
 
 void unit_ch_src_dir(struct unit*, char *prevcwd);
 
+// Path of a product of the given source file relative to the unit cache dir.
+char* unit_product_path(struct unit*, const char *src);
+
 void unit_env_set_val(struct unit*, const char *key, const char *val);
 
 void unit_env_set_node(struct unit*, const char *key, struct node *n, unsigned tag);
diff --git a/node_cc.c b/node_cc.c
index 2bd020f..4f4820d 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -210,14 +210,8 @@ static void _cc_on_resolve(struct node_resolve *r) {
       char buf[PATH_MAX];
       char *obj, *src = *(char**) ulist_get(slist, i);
       src = path_normalize_cwd(src, unit->cache_dir, buf);
-      bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
-      if (!incache) {
-        obj = path_relativize_cwd(unit->dir, src, unit->dir);
-        src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
-      } else {
-        obj = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
-        src = xstrdup(obj);
-      }
+      obj = unit_product_path(unit, src);
+      src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
 
       char *p = strrchr(obj, '.');
       akassert(p && p[1] != '\0');
@@ -273,14 +267,8 @@ static void _cc_on_resolve(struct node_resolve *r) {
       char buf[PATH_MAX];
       char *obj, *src = *(char**) ulist_get(&ctx->sources, i);
       src = path_normalize_cwd(src, unit->cache_dir, buf);
-      bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
-      if (!incache) {
-        obj = path_relativize_cwd(unit->dir, src, unit->dir);
-        src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
-      } else {
-        obj = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
-        src = xstrdup(obj);
-      }
+      obj = unit_product_path(unit, src);
+      src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
       char *p = strrchr(obj, '.');
       akassert(p && p[1] != '\0');
       p[1] = 'o';
@@ -394,9 +382,7 @@ static void _cc_source_add(struct node *n, const char *src) {
   p = pool_strdup(ctx->pool, npath);
   ulist_push(&ctx->sources, &p);
 
-  bool incache = path_is_prefix_for(g_env.project.cache_dir, p, unit->dir);
-  const char *dir = incache ? unit->cache_dir : unit->dir;
-  char *obj = path_relativize_cwd(dir, p, dir);
+  char *obj = unit_product_path(unit, p);
 
   p = strrchr(obj, '.');
   akassert(p && p[1] != '\0');
diff --git a/node_configure.c b/node_configure.c
index 4677492..6ce83ef 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -246,14 +246,8 @@ static void _configure_on_resolve(struct node_resolve *r) {
     char buf[PATH_MAX];
     char *tgt, *src = *(char**) ulist_get(slist, i);
     src = path_normalize_cwd(src, unit->cache_dir, buf);
-    bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
-    if (!incache) {
-      tgt = path_relativize_cwd(unit->dir, src, unit->dir);
-      src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
-    } else {
-      tgt = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
-      src = xstrdup(tgt);
-    }
+    tgt = unit_product_path(unit, src);
+    src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
     if (utils_endswith(tgt, ".in")) {
       size_t len = strlen(tgt);
       tgt[len - AK_LLEN(".in")] = '\0';
@@ -322,15 +316,9 @@ static void _setup_item(struct node *n, const char *v) {
   struct _configure_ctx *ctx = n->impl;
   struct unit *unit = unit_peek();
 
-  char *tgt = 0, *src = path_normalize_cwd(v, unit->dir, buf);
-  bool incache = path_is_prefix_for(g_env.project.cache_dir, src, unit->cache_dir);
-  if (!incache) {
-    tgt = path_relativize_cwd(unit->dir, src, unit->dir);
-    src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
-  } else {
-    tgt = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
-    src = xstrdup(tgt);
-  }
+  char *src = path_normalize_cwd(v, unit->dir, buf);
+  char *tgt = unit_product_path(unit, src);
+  src = path_relativize_cwd(unit->cache_dir, src, unit->cache_dir);
   if (utils_endswith(tgt, ".in")) {
     size_t len = strlen(tgt);
     tgt[len - AK_LLEN(".in")] = '\0';
-- 
2.43.0


From ddcb3b7ea8e11fe4ef8ba7ed026642fb2b8ad65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:48 +0000
Subject: [PATCH 63/76] fix: saved state of dropped rules is removed only in
 the cache dir of the current project

---
 script.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/script.c b/script.c
index ffb0365..58a86cc 100644
--- a/script.c
+++ b/script.c
@@ -864,7 +864,11 @@ static int _rules_visitor(struct node *n, int lvl, void *d) {
     case NODE_TYPE_CONFIGURE:
     case NODE_TYPE_INSTALL: {
       struct unit *unit = _unit_node_find(n)->unit;
-      map_put_str(rules, pool_printf(g_env.pool, "%s/%s.deps", unit->cache_dir, n->vfile), n);
+      const char *path = pool_printf(g_env.pool, "%s/%s.deps", unit->cache_dir, n->vfile);
+      const char *key = path_is_prefix_for(g_env.project.cache_dir, path, 0); // A project with its cache may be moved
+      if (key) {
+        map_put_str(rules, key, n);
+      }
     }
   }
   return 0;
@@ -888,7 +892,11 @@ static void _script_rules_sync(struct sctx *s) {
         buf[len - 1] = '\0';
       }
       if (!map_get(rules, buf)) {
-        deps_prune_all(buf);
+        char rule_path[PATH_MAX];
+        path_normalize_cwd(buf, g_env.project.cache_dir, rule_path);
+        if (path_is_prefix_for(g_env.project.cache_dir, rule_path, 0)) {
+          deps_prune_all(rule_path);
+        }
       }
     }
     free(buf);
-- 
2.43.0


From ef24afca05a7c4906f1680cdb42968a50e351e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:48 +0000
Subject: [PATCH 64/76] fix: project and cache dirs accessed by symlinks: cache
 which is a parent of the project is refused, builds work

---
 autark_core.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 5155a84..0d5882d 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -380,11 +380,12 @@ void autark_build_prepare(const char *script_path) {
     akfatal(AK_ERROR_FAIL, "%s is not a directory", root_dir);
   }
 
-  g_env.project.root_dir = root_dir;
-  g_env.cwd = root_dir;
   if (chdir(root_dir)) {
     akfatal(errno, "Failed to change dir to: %s", root_dir);
   }
+  root_dir = path_normalize_pool(".", g_env.pool); // Root dir may be given as a symlink
+  g_env.project.root_dir = root_dir;
+  g_env.cwd = root_dir;
 
   if (!g_env.project.cache_dir) {
     g_env.project.cache_dir = AUTARK_CACHE;
@@ -395,10 +396,17 @@ void autark_build_prepare(const char *script_path) {
     akfatal(errno, "Failed to resolve project CACHE dir: %s", g_env.project.cache_dir);
   }
 
-  if (path_is_prefix_for(g_env.project.cache_dir, g_env.project.root_dir, 0)) {
+  char real_cache[PATH_MAX]; // Cache dir may be a symlink
+  if (  path_is_prefix_for(g_env.project.cache_dir, g_env.project.root_dir, 0)
+     || (path_real(g_env.project.cache_dir, real_cache) && path_is_prefix_for(real_cache, g_env.project.root_dir, 0))) {
     akfatal(AK_ERROR_FAIL, "Project cache dir cannot be parent of project root dir", 0);
   }
 
+  // Paths relative to the cache dir are resolved by its real location
+  if (path_mkdirs(g_env.project.cache_dir) == 0 && path_real(g_env.project.cache_dir, real_cache)) {
+    g_env.project.cache_dir = pool_strdup(g_env.pool, real_cache);
+  }
+
   if (g_env.project.cleanup) {
     if (path_is_dir(g_env.project.cache_dir)) {
       int rc = path_rm_cache(g_env.project.cache_dir);
-- 
2.43.0


From a556882948fa20c89a66766fe39f07fb23b85816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 65/76] fix: options placed after the sources dir or the glob
 patterns are no longer ignored

---
 autark_core.c | 51 ++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 0d5882d..f7c9f94 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -542,14 +542,15 @@ static void _on_command_dep_env(int argc, const char **argv) {
   deps_close(&deps);
 }
 
-static void _on_command_glob(int argc, const char **argv, const char *cdir) {
+static void _on_command_glob(struct ulist *args, const char *cdir) {
   if (cdir) {
     akcheck(chdir(cdir));
   }
+  unsigned idx = 1; // The first one is the command name
   do {
     const char *pattern = "*";
-    if (optind < argc) {
-      pattern = argv[optind];
+    if (idx < args->num) {
+      pattern = *(const char**) ulist_get(args, idx);
     }
     glob_t g;
     int rc = glob(pattern, 0, 0, &g);
@@ -563,7 +564,7 @@ static void _on_command_glob(int argc, const char **argv, const char *cdir) {
     if (rc && rc != GLOB_NOMATCH) {
       exit(1);
     }
-  } while (++optind < argc);
+  } while (++idx < args->num);
 }
 
 #ifdef TESTS
@@ -683,6 +684,10 @@ const char* env_libdir(void) {
 #endif
 }
 
+static bool _is_check_script_command(const char *arg) {
+  return strcmp(arg, "set") == 0 || strcmp(arg, "dep") == 0 || strcmp(arg, "env") == 0;
+}
+
 void autark_run(int argc, const char **argv) {
   akassert(argc > 0 && argv[0]);
   autark_init();
@@ -711,7 +716,24 @@ void autark_run(int argc, const char **argv) {
   const char *cdir = 0;
   struct ulist options = { .usize = sizeof(char*) };
 
-  for (int ch; (ch = getopt_long(argc, (void*) argv, "+H:chVvlR:C:D:J:I", long_options, 0)) != -1; ) {
+  struct ulist args = { .usize = sizeof(char*) }; // Sources dir or the `glob` command with its patterns
+
+  for (int ch; ; ) {
+    ch = getopt_long(argc, (void*) argv, "+H:chVvlR:C:D:J:I", long_options, 0);
+    if (ch == -1) {
+      if (optind >= argc || (args.num == 0 && _is_check_script_command(argv[optind]))) {
+        break;
+      }
+      // Options can be placed after the sources dir
+      bool last = strcmp(argv[optind - 1], "--") == 0;
+      do {
+        ulist_push(&args, &argv[optind++]);
+      } while (last && optind < argc);
+      if (last) {
+        break;
+      }
+      continue;
+    }
     switch (ch) {
       case 'H':
         g_env.project.cache_dir = pool_strdup(g_env.pool, optarg);
@@ -847,19 +869,21 @@ void autark_run(int argc, const char **argv) {
     ++optind;
     if (strcmp(arg, "set") == 0) {
       _on_command_set(argc, argv);
-      return;
     } else if (strcmp(arg, "dep") == 0) {
       _on_command_dep(argc, argv);
-      return;
-    } else if (strcmp(arg, "env") == 0) {
+    } else {
       _on_command_dep_env(argc, argv);
+    }
+    return;
+  }
+
+  if (args.num) {
+    const char *arg = *(const char**) ulist_get(&args, 0);
+    if (strcmp(arg, "glob") == 0) {
+      _on_command_glob(&args, cdir);
       return;
-    } else if (strcmp(arg, "glob") == 0) {
-      _on_command_glob(argc, argv, cdir);
-      return;
-    } else { // Root dir expected
-      g_env.project.root_dir = pool_strdup(g_env.pool, arg);
     }
+    g_env.project.root_dir = pool_strdup(g_env.pool, arg); // Root dir expected
   }
 
   autark_build_prepare(AUTARK_SCRIPT);
@@ -870,5 +894,6 @@ void autark_run(int argc, const char **argv) {
     _build(&options);
   }
 
+  ulist_destroy_keep(&args);
   ulist_destroy_keep(&options);
 }
-- 
2.43.0


From c136c940d5f0f6577b9c13e0166aaf624a238296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 66/76] fix: -J,--jobs refuses negative and empty values, large
 ones are not truncated

---
 autark_core.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index f7c9f94..0721181 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -23,6 +23,7 @@
 #include <string.h>
 #include <stdlib.h>
 #include <stdarg.h>
+#include <limits.h>
 #include <getopt.h>
 #include <unistd.h>
 #include <errno.h>
@@ -787,10 +788,11 @@ void autark_run(int argc, const char **argv) {
         break;
       case 'J': {
         int rc = 0;
-        g_env.max_parallel_jobs = utils_strtol(optarg, 10, &rc);
-        if (rc) {
+        long jobs = utils_strtol(optarg, 10, &rc);
+        if (rc || *optarg == '\0' || jobs < 0) {
           akfatal(AK_ERROR_FAIL, "Command line option -J,--jobs value: %s should be non negative number", optarg);
         }
+        g_env.max_parallel_jobs = MIN(jobs, INT_MAX);
         break;
       }
       case 'h':
-- 
2.43.0


From 2443080452289c6342c4b3fbaf88419a4cb9d355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:26 +0000
Subject: [PATCH 67/76] fix: list of options respects -D values the project
 scripts depend on

---
 autark_core.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/autark_core.c b/autark_core.c
index 0721181..d76f9cd 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -584,12 +584,7 @@ void on_command_dep_env(int argc, const char **argv) {
 
 #endif
 
-static void _build(struct ulist *options) {
-  struct sctx *x;
-  int rc = script_open(AUTARK_SCRIPT, &x);
-  if (rc) {
-    akfatal(rc, "Failed to open script: %s", AUTARK_SCRIPT);
-  }
+static void _options_apply(struct ulist *options) {
   struct unit *root = unit_root();
   for (int i = 0; i < options->num; ++i) {
     const char *opt = *(char**) ulist_get(options, i);
@@ -605,17 +600,27 @@ static void _build(struct ulist *options) {
       unit_env_set_val(root, opt, "");
     }
   }
+}
+
+static void _build(struct ulist *options) {
+  struct sctx *x;
+  int rc = script_open(AUTARK_SCRIPT, &x);
+  if (rc) {
+    akfatal(rc, "Failed to open script: %s", AUTARK_SCRIPT);
+  }
+  _options_apply(options);
   script_build(x);
   script_close(&x);
   akinfo("[%s] Build successful", g_env.project.root_dir);
 }
 
-static void _options(void) {
+static void _options(struct ulist *options) {
   struct sctx *x;
   int rc = script_open(AUTARK_SCRIPT, &x);
   if (rc) {
     akfatal(rc, "Failed to open script: %s", AUTARK_SCRIPT);
   }
+  _options_apply(options);
   node_init(x->root);
   if (xstr_size(g_env.project.options)) {
     fprintf(stderr, "\n%s", xstr_ptr(g_env.project.options));
@@ -891,7 +896,7 @@ void autark_run(int argc, const char **argv) {
   autark_build_prepare(AUTARK_SCRIPT);
 
   if (g_env.project.options) {
-    _options();
+    _options(&options);
   } else {
     _build(&options);
   }
-- 
2.43.0


From 0aea71b8cad51b59dd2ebc213dc24aedc0042c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:02 +0000
Subject: [PATCH 68/76] fix: build.sh passes CFLAGS of the environment to the
 build which follows the compilation of autark

---
 amalgamator.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amalgamator.sh b/amalgamator.sh
index 165672e..e3f0e48 100755
--- a/amalgamator.sh
+++ b/amalgamator.sh
@@ -177,11 +177,12 @@ cat ${F} | sed -E '/^[[:space:]]*$/d' >> ${B}
 echo 'a292effa503b' >> ${B}
 
 cat <<'EOF' >> ${B}
+AUTARK_CFLAGS="${CFLAGS}"
 if grep -E '^ID(_LIKE)?=.*debian' /etc/os-release >/dev/null; then
-  CFLAGS="-DDEBIAN_MULTIARCH"
+  AUTARK_CFLAGS="${AUTARK_CFLAGS} -DDEBIAN_MULTIARCH"
 fi
 
-(set -x; ${COMPILER} ${AUTARK_HOME}/autark.c --std=c99 -O1 -march=native ${CFLAGS} -o ${AUTARK_HOME}/autark)
+(set -x; ${COMPILER} ${AUTARK_HOME}/autark.c --std=c99 -O1 -march=native ${AUTARK_CFLAGS} -o ${AUTARK_HOME}/autark)
 cp $(basename $0) ${AUTARK_HOME}/build.sh
 echo "Done"
 
-- 
2.43.0


From ee8110eb4239806ec7bb588e96e94fc3309893da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:31 +0000
Subject: [PATCH 69/76] fix: build.sh works if its path or the cache directory
 contain blanks

---
 amalgamator.sh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/amalgamator.sh b/amalgamator.sh
index e3f0e48..2026f8c 100755
--- a/amalgamator.sh
+++ b/amalgamator.sh
@@ -147,11 +147,11 @@ for arg in "$@"; do
   esac
 done
 
-export AUTARK_HOME=${AUTARK_HOME:-autark-cache/.autark-dist}
+export AUTARK_HOME="${AUTARK_HOME:-autark-cache/.autark-dist}"
 AUTARK=${AUTARK_HOME}/autark
 
-if [ "${META_VERSION}.${META_REVISION}" = "$(${AUTARK} -v)" ]; then
-  ${AUTARK} "$@"
+if [ "${META_VERSION}.${META_REVISION}" = "$("${AUTARK}" -v)" ]; then
+  "${AUTARK}" "$@"
   exit $?
 fi
 
@@ -169,8 +169,8 @@ else
   exit 1
 fi
 
-mkdir -p ${AUTARK_HOME}
-cat <<'a292effa503b' > ${AUTARK_HOME}/autark.c
+mkdir -p "${AUTARK_HOME}"
+cat <<'a292effa503b' > "${AUTARK_HOME}/autark.c"
 EOF
 
 cat ${F} | sed -E '/^[[:space:]]*$/d' >> ${B}
@@ -182,12 +182,12 @@ if grep -E '^ID(_LIKE)?=.*debian' /etc/os-release >/dev/null; then
   AUTARK_CFLAGS="${AUTARK_CFLAGS} -DDEBIAN_MULTIARCH"
 fi
 
-(set -x; ${COMPILER} ${AUTARK_HOME}/autark.c --std=c99 -O1 -march=native ${AUTARK_CFLAGS} -o ${AUTARK_HOME}/autark)
-cp $(basename $0) ${AUTARK_HOME}/build.sh
+(set -x; "${COMPILER}" "${AUTARK_HOME}/autark.c" --std=c99 -O1 -march=native ${AUTARK_CFLAGS} -o "${AUTARK_HOME}/autark")
+cp "$(basename "$0")" "${AUTARK_HOME}/build.sh"
 echo "Done"
 
 set +e
-${AUTARK} "$@"
+"${AUTARK}" "$@"
 exit $?
 EOF
 
-- 
2.43.0


From 7e3db2ecd7633f249970f6404c383472cdd344a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:09 +0000
Subject: [PATCH 70/76] fix: failed writes of dependency records fail the build

---
 deps.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/deps.c b/deps.c
index b0d162f..ee98865 100644
--- a/deps.c
+++ b/deps.c
@@ -198,7 +198,10 @@ int deps_add_sys_env(struct deps *d, char flags, const char *key, const char *va
 
 void deps_close(struct deps *d) {
   if (d && d->file) {
-    fclose(d->file);
+    bool failed = ferror(d->file);
+    if (fclose(d->file) || failed) {
+      akfatal(AK_ERROR_IO, "Dependencies file I/O error", 0);
+    }
     d->file = 0;
   }
 }
-- 
2.43.0


From d5e52e9ed411491649fd8edccf43c6c9d3c1842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:10 +0000
Subject: [PATCH 71/76] fix: configure fails if its target cannot be written
 completely

---
 node_configure.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/node_configure.c b/node_configure.c
index 6ce83ef..ce79740 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -191,6 +191,9 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
     }
   }
   free(line);
+  if (ferror(f)) {
+    node_fatal(AK_ERROR_IO, n, "File read fail: %s", src);
+  }
 
   // Transfer file permissions
   struct stat st;
@@ -203,7 +206,9 @@ static void _process_file(struct node *n, const char *src, const char *tgt, stru
   }
 
   fclose(f);
-  fclose(t);
+  if (fclose(t)) {
+    node_fatal(AK_ERROR_IO, n, "File write fail: %s", tgt);
+  }
 
   if (xstr) {
     int rc = utils_rename_file(tgt, src);
-- 
2.43.0


From b5746213f7b66658810508677a38ff4429f5cb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:41 +0000
Subject: [PATCH 72/76] fix: autark set fails if the value cannot be written

---
 autark_core.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/autark_core.c b/autark_core.c
index d76f9cd..6121347 100644
--- a/autark_core.c
+++ b/autark_core.c
@@ -486,7 +486,10 @@ static void _on_command_set(int argc, const char **argv) {
       fputc('\n', f);
     }
   }
-  fclose(f);
+  bool failed = ferror(f);
+  if (fclose(f) || failed) {
+    akfatal(AK_ERROR_IO, "Failed to write file: %s", env_path);
+  }
 }
 
 static void _on_command_dep(int argc, const char **argv) {
-- 
2.43.0


From 1c23f71e65f43e89c145f49951dc2abae9bbd974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:50 +0000
Subject: [PATCH 73/76] fix: files read as a whole are closed

---
 utils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils.c b/utils.c
index 04e45d2..abbae35 100644
--- a/utils.c
+++ b/utils.c
@@ -41,6 +41,7 @@ struct value utils_file_as_buf(const char *path, ssize_t buflen_max) {
       break;
     }
   }
+  close(fd);
   ret.len = xstr_size(xstr);
   ret.buf = xstr_destroy_keep_ptr(xstr);
   return ret;
-- 
2.43.0


From 595cc4766bf00b46ae4f5361a41639046da338e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:50 +0000
Subject: [PATCH 74/76] fix: unreadable dependency file of a compiler fails the
 build

---
 node_cc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/node_cc.c b/node_cc.c
index 4f4820d..0965741 100644
--- a/node_cc.c
+++ b/node_cc.c
@@ -51,6 +51,9 @@ static void _cc_deps_MMD_add(struct node *n, struct deps *deps, const char *src,
 
   struct value val = utils_file_as_buf(path, -1);
   if (val.error) {
+    if (val.error != ENOENT) { // Headers of the source are not known
+      node_fatal(val.error, n, "Failed to read compiler generated (-MMD) dependency file: %s", path);
+    }
     node_warn(n, "Failed to open compiler generated (-MMD) dependency file: %s", path);
     value_destroy(&val);
     return;
-- 
2.43.0


From 7c8fe2b5dba671d538f6232afa4dac61e1717366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:45 +0000
Subject: [PATCH 75/76] fix: failure to set mode or time of an installed file
 fails the build

---
 node_install.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/node_install.c b/node_install.c
index 511c8aa..647a5b3 100644
--- a/node_install.c
+++ b/node_install.c
@@ -93,16 +93,22 @@ static void _install_file(struct _install_on_resolve_ctx *ctx, const char *src,
     }
   }
 
-  fchmod(out_fd, st->st_mode);
+  if (fchmod(out_fd, st->st_mode) == -1) {
+    node_fatal(errno, n, "Failed to set permissions of file: %s", dst);
+  }
 #ifdef __APPLE__
   struct timespec times[2] = { st->st_atime, st->st_mtime };
 #else
   struct timespec times[2] = { st->st_atim, st->st_mtim };
 #endif
-  futimens(out_fd, times);
+  if (futimens(out_fd, times) == -1) {
+    node_fatal(errno, n, "Failed to set timestamps of file: %s", dst);
+  }
 
   close(in_fd);
-  close(out_fd);
+  if (close(out_fd) == -1) {
+    node_fatal(errno, n, "Error writing file: %s", dst);
+  }
 }
 
 static void _install_do(struct node_resolve *r, const char *src, const char *target) {
-- 
2.43.0


From 47980f23d45660b9d5f89b8eebdfa67830c899cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:45 +0000
Subject: [PATCH 76/76] fix: read errors of saved state and templates are not
 taken as end of file

---
 node_configure.c | 3 +++
 script.c         | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/node_configure.c b/node_configure.c
index ce79740..3a5b696 100644
--- a/node_configure.c
+++ b/node_configure.c
@@ -155,6 +155,9 @@ static void _process_deps(struct node *n, const char *src, struct deps *deps) {
     }
   }
   free(line);
+  if (ferror(f)) {
+    node_fatal(AK_ERROR_IO, n, "File read fail: %s", src);
+  }
   fclose(f);
 }
 
diff --git a/script.c b/script.c
index 58a86cc..c8a3999 100644
--- a/script.c
+++ b/script.c
@@ -900,6 +900,9 @@ static void _script_rules_sync(struct sctx *s) {
       }
     }
     free(buf);
+    if (ferror(f)) {
+      akfatal(AK_ERROR_IO, "Failed to read file: %s", path);
+    }
     fclose(f);
   }
 
@@ -1322,7 +1325,7 @@ void node_resolve(struct node_resolve *r) {
       }
     }
 
-    if (sign_outdated) {
+    if (sign_outdated || ferror(deps.file)) {
       bool all = false; // Whole node is outdated already
       for (int i = 0; i < r->resolve_outdated.num && !all; ++i) {
         struct resolve_outdated *u = ulist_get(&r->resolve_outdated, i);
@@ -1386,6 +1389,9 @@ void node_resolve(struct node_resolve *r) {
         }
       }
       free(buf);
+      if (ferror(f)) {
+        akfatal(AK_ERROR_IO, "Failed to read env file: %s", env_path);
+      }
       fclose(f);
     } else {
       akfatal(rc, "Failed to open env file: %s", env_path);
-- 
2.43.0

