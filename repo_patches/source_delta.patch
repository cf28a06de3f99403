From 98af03981f9207ff868874bcc8dc59f6e5f42522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 01/45] fix: <- leaked its argument list, and the new pair when
 the symbol is unknown

---
 lib/mnml/std/set.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/std/set.c b/lib/mnml/std/set.c
index 742c6e4..890a4fa 100644
--- a/lib/mnml/std/set.c
+++ b/lib/mnml/std/set.c
@@ -13,6 +13,7 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t sym = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t val = lisp_eval(lisp, C, lisp_car(lisp, cdr));
+  X(lisp, cdr);
   /*
    * Check if sym is a symbol.
    */
@@ -46,7 +47,7 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   /*
    * The symbol was not found.
    */
-  X(lisp, sym, val);
+  X(lisp, elt);
   return lisp_make_nil(lisp);
 }
 
-- 
2.43.0


From a9b7b4f40b370bfa2bb42c9dd4ca29024997970d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 02/45] fix: <- on a global returned the (symbol . value) pair
 instead of the previous value

---
 lib/mnml/std/set.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/std/set.c b/lib/mnml/std/set.c
index 890a4fa..f1774bb 100644
--- a/lib/mnml/std/set.c
+++ b/lib/mnml/std/set.c
@@ -41,7 +41,9 @@ lisp_function_set(const lisp_t lisp, const atom_t closure)
   atom_t elt = lisp_cons(lisp, sym, val);
   atom_t res = lisp_tree_upd(lisp, lisp->globals, elt);
   if (!IS_NULL(res)) {
-    return res;
+    atom_t old = lisp_cdr(lisp, res);
+    X(lisp, res);
+    return old;
   }
   X(lisp, res);
   /*
-- 
2.43.0


From 77f403ff513adefd4bdddd5217882a3f84910e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 03/45] fix: def leaked a name that is not a symbol

---
 lib/mnml/std/def.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mnml/std/def.c b/lib/mnml/std/def.c
index 92be82f..a9879a2 100644
--- a/lib/mnml/std/def.c
+++ b/lib/mnml/std/def.c
@@ -12,6 +12,7 @@ lisp_function_def(const lisp_t lisp, const atom_t closure)
    */
   atom_t symb = lisp_car(lisp, ANY);
   if (!IS_SYMB(symb)) {
+    X(lisp, symb);
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From bae3b5ea4ecafabfb15729f5464cc8213b32f50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 04/45] fix: exec leaked each argument and environment string

---
 lib/mnml/unix/exec.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mnml/unix/exec.c b/lib/mnml/unix/exec.c
index c4f592e..284d159 100644
--- a/lib/mnml/unix/exec.c
+++ b/lib/mnml/unix/exec.c
@@ -32,6 +32,7 @@ lisp_exec_make_strings(const lisp_t lisp, const atom_t cell, char** array,
   atom_t cdr = lisp_cdr(lisp, cell);
   X(lisp, cell);
   lisp_make_cstring(car, buffer, PATH_MAX, 0);
+  X(lisp, car);
   array[idx] = strdup(buffer);
   return lisp_exec_make_strings(lisp, cdr, array, len, idx + 1);
 }
-- 
2.43.0


From 7c1bce6a3b6384123f3a6f7a679d63c3d27cd416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 05/45] fix: loading a broken module leaked the list of
 requested symbols

---
 lib/core/module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core/module.c b/lib/core/module.c
index ad1ef96..42c77c3 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -367,6 +367,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
      */
     handle = module_load_at_path(path, bsym);
     if (handle == NULL) {
+      X(lisp, symbols);
       return lisp_make_nil(lisp);
     }
     /*
@@ -380,6 +381,7 @@ module_load_binary(const char* const path, const lisp_t lisp, const atom_t name,
   const module_entry_t* (*entries)() = dlsym(handle, "lisp_module_entries");
   if (entries == NULL) {
     DLCLOSE(add_to_cache, handle);
+    X(lisp, symbols);
     return lisp_make_nil(lisp);
   }
   /*
-- 
2.43.0


From d4ecc632996908d1444eef08d0badf6a4ff0467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:39 +0000
Subject: [PATCH 06/45] fix: match evaluated its subject in its own environment
 instead of the caller's

---
 lib/mnml/std/match.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mnml/std/match.c b/lib/mnml/std/match.c
index dc05375..b7674f2 100644
--- a/lib/mnml/std/match.c
+++ b/lib/mnml/std/match.c
@@ -64,7 +64,7 @@ static atom_t USED
 lisp_function_match(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
-  atom_t car = lisp_eval(lisp, closure, lisp_car(lisp, ANY));
+  atom_t car = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   return lisp_match(lisp, C, car, cdr);
 }
-- 
2.43.0


From 47875567f0a85e4a2dcfe6c172fe9f3a86a44056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:55 +0000
Subject: [PATCH 07/45] fix: select looked its callbacks up by name in the
 environment of the program's code

---
 lib/mnml/unix/select.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index ab82f0a..99252ab 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -58,7 +58,8 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     if (FD_ISSET(CAR(fds)->number, set) && !IS_NULL(cb)) {
       atom_t fdn = lisp_car(lisp, fds);
       atom_t cn0 = lisp_cons(lisp, fdn, lisp_make_nil(lisp));
-      atom_t cn1 = lisp_cons(lisp, UP(cb), cn0);
+      atom_t qcb = lisp_cons(lisp, lisp_make_quote(lisp), UP(cb));
+      atom_t cn1 = lisp_cons(lisp, qcb, cn0);
       X(lisp, act);
       act = lisp_eval(lisp, closure, cn1);
     }
@@ -100,21 +101,10 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
   }
 }
 
-static atom_t
-process(const lisp_t lisp, const atom_t closure, const atom_t fds,
-        const char* const cb_name, const fd_set* const set)
-{
-  MAKE_SYMBOL_STATIC(cb_s, cb_name);
-  atom_t cbk = lisp_make_symbol(lisp, cb_s);
-  atom_t res = process_r(lisp, closure, fds, cbk, set);
-  X(lisp, cbk);
-  return res;
-}
-
 static atom_t USED
 lisp_function_select(const lisp_t lisp, const atom_t closure)
 {
-  LISP_ARGS(closure, C, FDS);
+  LISP_ARGS(closure, C, FDS, ON_READ, ON_ERROR);
   /*
    * Check that the fds argument is a list.
    */
@@ -139,8 +129,8 @@ lisp_function_select(const lisp_t lisp, const atom_t closure)
   /*
    * Process the events.
    */
-  atom_t rres = process(lisp, C, FDS, "ON_READ", &rset);
-  atom_t eres = process(lisp, C, FDS, "ON_ERROR", &eset);
+  atom_t rres = process_r(lisp, C, FDS, ON_READ, &rset);
+  atom_t eres = process_r(lisp, C, FDS, ON_ERROR, &eset);
   /*
    * Build the result.
    */
-- 
2.43.0


From c692ecc36a6b3fa5aa919d00d813c20d7b6c22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:24 +0000
Subject: [PATCH 08/45] fix: cond evaluated its subject once per clause

---
 lib/mnml/std/cond.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/std/cond.c b/lib/mnml/std/cond.c
index e31f1f3..ce1816c 100644
--- a/lib/mnml/std/cond.c
+++ b/lib/mnml/std/cond.c
@@ -35,7 +35,8 @@ lisp_cond(const lisp_t lisp, const atom_t closure, const atom_t cell,
   /*
    * Build the predicate.
    */
-  atom_t con = lisp_cons(lisp, UP(cell), lisp_make_nil(lisp));
+  atom_t qte = lisp_cons(lisp, lisp_make_quote(lisp), UP(cell));
+  atom_t con = lisp_cons(lisp, qte, lisp_make_nil(lisp));
   atom_t evl = lisp_cons(lisp, args, con);
   /*
    * Evaluate the predicate.
@@ -57,7 +58,7 @@ static atom_t USED
 lisp_function_cond(const lisp_t lisp, const atom_t closure)
 {
   LISP_ARGS(closure, C, ANY);
-  atom_t car = lisp_car(lisp, ANY);
+  atom_t car = lisp_eval(lisp, C, lisp_car(lisp, ANY));
   atom_t cdr = lisp_cdr(lisp, ANY);
   atom_t res = lisp_cond(lisp, C, car, cdr);
   return res;
-- 
2.43.0


From f68230bc8e867f2146656b28306867fed9aae23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:32 +0000
Subject: [PATCH 09/45] fix: division by zero and the overflow of the smallest
 number killed the interpreter

---
 lib/mnml/math/div.c | 20 +++++++++++++++++++-
 lib/mnml/math/mod.c | 20 +++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/math/div.c b/lib/mnml/math/div.c
index e105512..8da81a1 100644
--- a/lib/mnml/math/div.c
+++ b/lib/mnml/math/div.c
@@ -2,7 +2,25 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 
-BINARY_NUMBER_GEN(div, /, X, Y);
+static atom_t
+lisp_function_div(const lisp_t l, const atom_t c)
+{
+  LISP_ARGS(c, C, X, Y);
+  /*
+   * There is no result for a division by zero.
+   */
+  if (Y->number == 0) {
+    return lisp_make_nil(l);
+  }
+  /*
+   * The smallest number has no opposite: avoid the overflow trap.
+   */
+  if (Y->number == -1) {
+    return lisp_make_number(l, (int64_t)(0 - (uint64_t)X->number));
+  }
+  return lisp_make_number(l, X->number / Y->number);
+}
+
 LISP_MODULE_SETUP(div, /, X, Y, NIL)
 
 // vim: tw=80:sw=2:ts=2:sts=2:et
diff --git a/lib/mnml/math/mod.c b/lib/mnml/math/mod.c
index fdea586..6de703c 100644
--- a/lib/mnml/math/mod.c
+++ b/lib/mnml/math/mod.c
@@ -2,7 +2,25 @@
 #include <mnml/module.h>
 #include <mnml/slab.h>
 
-BINARY_NUMBER_GEN(mod, %, X, Y);
+static atom_t
+lisp_function_mod(const lisp_t l, const atom_t c)
+{
+  LISP_ARGS(c, C, X, Y);
+  /*
+   * There is no result for a division by zero.
+   */
+  if (Y->number == 0) {
+    return lisp_make_nil(l);
+  }
+  /*
+   * The smallest number has no opposite: avoid the overflow trap.
+   */
+  if (Y->number == -1) {
+    return lisp_make_number(l, 0);
+  }
+  return lisp_make_number(l, X->number % Y->number);
+}
+
 LISP_MODULE_SETUP(mod, %, X, Y, NIL)
 
 // vim: tw=80:sw=2:ts=2:sts=2:et
-- 
2.43.0


From 1bc1242b9a1409d3cbccf6b0300e48b096192b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:18 +0000
Subject: [PATCH 10/45] fix: readline dropped the last character of a line that
 does not end in a newline

---
 lib/mnml/io/readline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mnml/io/readline.c b/lib/mnml/io/readline.c
index 1cef7fe..fb27856 100644
--- a/lib/mnml/io/readline.c
+++ b/lib/mnml/io/readline.c
@@ -21,7 +21,7 @@ lisp_function_readline(const lisp_t lisp, UNUSED const atom_t closure)
   /*
    * Remove the extra newline character.
    */
-  if (len > 0 && line[len - 1] != 0) {
+  if (len > 0 && line[len - 1] == '\n') {
     line[len - 1] = 0;
     len -= 1;
   }
-- 
2.43.0


From 5b295274764db24884d7161b564bb63111230a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:18 +0000
Subject: [PATCH 11/45] fix: readline leaked its line buffer at the end of the
 input

---
 lib/mnml/io/readline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mnml/io/readline.c b/lib/mnml/io/readline.c
index fb27856..bf3aa68 100644
--- a/lib/mnml/io/readline.c
+++ b/lib/mnml/io/readline.c
@@ -15,6 +15,7 @@ lisp_function_readline(const lisp_t lisp, UNUSED const atom_t closure)
   size_t cap = 0;
   ssize_t len = getline(&line, &cap, handle);
   if (len < 0) {
+    free(line);
     MAKE_SYMBOL_STATIC(eof_s, "EOF");
     return lisp_make_symbol(lisp, eof_s);
   }
-- 
2.43.0


From 44922726dfdbd0c36325fb48c4979777308e2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:31 +0000
Subject: [PATCH 12/45] fix: loading a library that is not a module leaked its
 handle

---
 lib/core/module.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/core/module.c b/lib/core/module.c
index 42c77c3..f9192e6 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -198,6 +198,7 @@ module_load_at_path(const char* const path, const char* const name)
   const char* (*get_name)() = dlsym(handle, "lisp_module_name");
   if (get_name == NULL) {
     ERROR("%s is not a module", path);
+    dlclose(handle);
     return NULL;
   }
   /*
-- 
2.43.0


From a2963821e809d031990f298c64e27b2847c597cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:49 +0000
Subject: [PATCH 13/45] fix: a slab whose first pages cannot be committed
 leaked its reservation

---
 lib/core/slab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/core/slab.c b/lib/core/slab.c
index f48400c..47448b1 100644
--- a/lib/core/slab.c
+++ b/lib/core/slab.c
@@ -63,6 +63,7 @@ slab_new()
   int res = mprotect(slab->entries, size, PROT_READ | PROT_WRITE);
   if (res != 0) {
     ERROR("Cannot allocate %luB of slab pages", size);
+    munmap(slab->entries, SLAB_SIZE);
     free(slab);
     return NULL;
   }
-- 
2.43.0


From 9704cb6ffcc0492cff877ce97b59cf6f968431d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:49 +0000
Subject: [PATCH 14/45] fix: tracing the module load path leaked it

---
 lib/core/module.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index f9192e6..ebd03c1 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -445,7 +445,9 @@ module_init(const lisp_t lisp)
   /*
    * Report the known load path.
    */
-  TRACE_MODL("Module load path: %s", module_paths());
+  char* paths = module_paths();
+  TRACE_MODL("Module load path: %s", paths);
+  free(paths);
   /*
    * Good to go.
    */
-- 
2.43.0


From 575ec6885df90dc2922d8863b608960004c201eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:39 +0000
Subject: [PATCH 15/45] fix: a string as long as its buffer was terminated one
 byte past it

---
 lib/core/utils.c   | 2 +-
 lib/mnml/std/sym.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 8fbdcf1..251c093 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -287,7 +287,7 @@ lisp_make_cstring(const atom_t cell, char* const buffer, const size_t len,
   /*
    * Terminate the string.
    */
-  if (IS_NULL(cell) || idx == len) {
+  if (IS_NULL(cell) || idx + 1 >= len) {
     *buffer = '\0';
     return idx;
   }
diff --git a/lib/mnml/std/sym.c b/lib/mnml/std/sym.c
index aeeb962..cc0eda6 100644
--- a/lib/mnml/std/sym.c
+++ b/lib/mnml/std/sym.c
@@ -17,7 +17,7 @@ lisp_function_sym(const lisp_t lisp, const atom_t closure)
    * Process the string.
    */
   char buffer[17];
-  size_t len = lisp_make_cstring(X, buffer, LISP_SYMBOL_LENGTH, 0);
+  size_t len = lisp_make_cstring(X, buffer, sizeof(buffer), 0);
   if (len == 0) {
     return lisp_make_nil(lisp);
   }
-- 
2.43.0


From e3d7523e2f2d800e512c2a17b3b5d4e12dcbe98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:44 +0000
Subject: [PATCH 16/45] fix: long file names and environment variables overran
 the path buffers

---
 lib/core/utils.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 251c093..7de1736 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -581,6 +581,7 @@ const char*
 lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
                   const char* const filepath, char* const buffer)
 {
+  int len;
   char expn_buf[PATH_MAX];
   char absl_buf[PATH_MAX];
   /*
@@ -588,27 +589,32 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
    */
   if (strncmp(filepath, "@lib", 4) == 0) {
     if (getenv("MNML_SCRIPT_PATH") != NULL) {
-      strcpy(expn_buf, getenv("MNML_SCRIPT_PATH"));
+      len = snprintf(expn_buf, PATH_MAX, "%s%s", getenv("MNML_SCRIPT_PATH"),
+                     &filepath[4]);
     } else {
-      strcpy(expn_buf, lisp_prefix());
-      strcat(expn_buf, "/share/mnml");
+      len = snprintf(expn_buf, PATH_MAX, "%s/share/mnml%s", lisp_prefix(),
+                     &filepath[4]);
     }
-    strcat(expn_buf, &filepath[4]);
   } else if (filepath[0] == '~' && getenv("HOME") != NULL) {
-    strcpy(expn_buf, getenv("HOME"));
-    strcat(expn_buf, &filepath[1]);
+    len = snprintf(expn_buf, PATH_MAX, "%s%s", getenv("HOME"), &filepath[1]);
   } else {
-    strcpy(expn_buf, filepath);
+    len = snprintf(expn_buf, PATH_MAX, "%s", filepath);
+  }
+  if (len < 0 || len >= PATH_MAX) {
+    ERROR("Path too long: %s", filepath);
+    return NULL;
   }
   /*
    * If the expanded path is not absolute, prepend the current CWD.
    */
   if (expn_buf[0] != '/' && !IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, cwd);
-    strcat(absl_buf, "/");
-    strcat(absl_buf, expn_buf);
+    len = snprintf(absl_buf, PATH_MAX, "%s/%s", cwd, expn_buf);
   } else {
-    strcpy(absl_buf, expn_buf);
+    len = snprintf(absl_buf, PATH_MAX, "%s", expn_buf);
+  }
+  if (len < 0 || len >= PATH_MAX) {
+    ERROR("Path too long: %s", filepath);
+    return NULL;
   }
   /*
    * Get the fullpath.
@@ -635,6 +641,10 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   /*
    * Return the full path.
    */
+  if (strlen(buffer) + strlen(last - 1) >= PATH_MAX) {
+    ERROR("Path too long: %s", absl_buf);
+    return NULL;
+  }
   strcat(buffer, (last - 1));
   return path;
 }
-- 
2.43.0


From ade1f45571f364780590f1391aedacfb55931af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:49 +0000
Subject: [PATCH 17/45] fix: a missing file named without a directory wrote in
 front of the path buffer

---
 lib/core/utils.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 7de1736..dca2aaf 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -631,6 +631,10 @@ lisp_get_fullpath(const lisp_t lisp, const char* const cwd,
   while ((p = strstr(last, "/"))) {
     last = p + 1;
   }
+  if (last == absl_buf) {
+    ERROR("Cannot get realpath for %s", absl_buf);
+    return NULL;
+  }
   *(last - 1) = '\0';
   path = realpath(absl_buf, buffer);
   *(last - 1) = '/';
-- 
2.43.0


From d8063bf70cc29754ddd6e8bb408b7c2744cdf5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:11 +0000
Subject: [PATCH 18/45] fix: the module search path overran its buffers

---
 lib/core/module.c | 24 +++++++++++++-----------
 lib/core/utils.c  |  4 ++--
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index ebd03c1..06d75f2 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -30,8 +30,7 @@ lisp_library_prefix()
   static char buffer[PATH_MAX];
   if (!is_set) {
     const char* prefix = lisp_prefix();
-    strcpy(buffer, prefix);
-    strcat(buffer, "/lib/mnml");
+    snprintf(buffer, sizeof(buffer), "%.*s/lib/mnml", PATH_MAX - 16, prefix);
     is_set = true;
   }
   return buffer;
@@ -43,8 +42,8 @@ lisp_usercache_prefix()
   static bool is_set = false;
   static char buffer[PATH_MAX];
   if (!is_set) {
-    strcpy(buffer, getenv("HOME"));
-    strcat(buffer, "/.mnml");
+    snprintf(buffer, sizeof(buffer), "%.*s/.mnml", PATH_MAX - 16,
+             getenv("HOME"));
     is_set = true;
   }
   return buffer;
@@ -54,7 +53,7 @@ static char*
 module_paths()
 {
   static bool is_set = false;
-  static char buffer[8192];
+  static char buffer[4 * PATH_MAX];
   /*
    * Prepare the path if not set.
    */
@@ -72,8 +71,9 @@ module_paths()
      * Append the user-defined variable.
      */
     if (getenv("MNML_MODULE_PATH") != NULL) {
-      strcat(buffer, ":");
-      strcat(buffer, getenv("MNML_MODULE_PATH"));
+      const size_t len = strlen(buffer);
+      snprintf(buffer + len, sizeof(buffer) - len, ":%s",
+               getenv("MNML_MODULE_PATH"));
     }
     /*
      */
@@ -144,10 +144,12 @@ module_find_at_path(const char* const dirpath, const char* const name,
   /*
    * Build the file path.
    */
-  memset(path, 0, PATH_MAX);
-  strcpy(path, dirpath);
-  strcat(path, "/");
-  strcat(path, de->d_name);
+  const int len = snprintf(path, PATH_MAX, "%s/%s", dirpath, de->d_name);
+  if (len < 0 || len >= PATH_MAX) {
+    ERROR("module path too long: %s", dirpath);
+    closedir(dir);
+    return false;
+  }
   /*
    * Return the result.
    */
diff --git a/lib/core/utils.c b/lib/core/utils.c
index dca2aaf..5c646c6 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -63,9 +63,9 @@ lisp_prefix()
     Dl_info dl_info;
     char buffer[PATH_MAX] = { 0 };
     if (dladdr(lisp_prefix, &dl_info)) {
-      strncpy(buffer, dl_info.dli_fname, PATH_MAX);
+      strncpy(buffer, dl_info.dli_fname, PATH_MAX - 1);
     } else {
-      strncpy(buffer, "/usr/local/bin/mnml", PATH_MAX);
+      strncpy(buffer, "/usr/local/bin/mnml", PATH_MAX - 1);
     }
     const char* dname = dirname(dirname(buffer));
     strcpy(prefix, dname);
-- 
2.43.0


From 731d77be8552db92a3e866ec6f4b5dbead38ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:31 +0000
Subject: [PATCH 19/45] fix: without PWD in the environment, loading a file and
 out crashed, and a long one overran their buffers

---
 lib/core/utils.c  | 5 ++++-
 lib/mnml/io/out.c | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 5c646c6..9413a76 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -664,7 +664,10 @@ lisp_load_file(const lisp_t lisp, const char* const filepath)
    * Get CWD.
    */
   if (IS_NULL(lisp->ichan)) {
-    strcpy(absl_buf, getenv("PWD"));
+    if (getcwd(absl_buf, PATH_MAX) == NULL) {
+      ERROR("Cannot get CWD for %s", filepath);
+      return lisp_make_nil(lisp);
+    }
   } else {
     lisp_make_cstring(CAR(CDR(CAR(lisp->ichan))), absl_buf, PATH_MAX, 0);
   }
diff --git a/lib/mnml/io/out.c b/lib/mnml/io/out.c
index d50821a..797be2a 100644
--- a/lib/mnml/io/out.c
+++ b/lib/mnml/io/out.c
@@ -26,7 +26,9 @@ lisp_function_out(const lisp_t lisp, const atom_t closure)
    * Get the current working directory. Output files are expected to be relative
    * to where the program is run, not where the program is located.
    */
-  strcpy(dirn_buf, getenv("PWD"));
+  if (getcwd(dirn_buf, PATH_MAX) == NULL) {
+    return lisp_make_nil(lisp);
+  }
   /*
    * Process the CHAN.
    */
-- 
2.43.0


From 201771bb64554ccceb8186e4d3d0ac68faa5c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:35 +0000
Subject: [PATCH 20/45] fix: without HOME in the environment, loading a module
 crashed

---
 lib/core/module.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index 06d75f2..456e156 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -42,8 +42,9 @@ lisp_usercache_prefix()
   static bool is_set = false;
   static char buffer[PATH_MAX];
   if (!is_set) {
+    const char* home = getenv("HOME");
     snprintf(buffer, sizeof(buffer), "%.*s/.mnml", PATH_MAX - 16,
-             getenv("HOME"));
+             home != NULL ? home : "");
     is_set = true;
   }
   return buffer;
-- 
2.43.0


From 23f95356e7e3844abf2645f2e6d95056a8f601fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:39 +0000
Subject: [PATCH 21/45] fix: select wrote outside its descriptor sets for
 descriptors beyond their size

---
 lib/mnml/unix/select.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index 99252ab..bb6d31f 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -19,7 +19,7 @@ convert(const atom_t fds, fd_set* const rset, fd_set* const eset)
    * Add CAR in the result set if valid.
    */
   if (IS_NUMB(CAR(fds))) {
-    if (CAR(fds)->number >= 0 && CAR(fds)->number < UINT32_MAX) {
+    if (CAR(fds)->number >= 0 && CAR(fds)->number < FD_SETSIZE) {
       FD_SET(CAR(fds)->number, rset);
       FD_SET(CAR(fds)->number, eset);
       cur = CAR(fds)->number;
@@ -55,7 +55,8 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     /*
      * Call the callback if it is set.
      */
-    if (FD_ISSET(CAR(fds)->number, set) && !IS_NULL(cb)) {
+    if (CAR(fds)->number >= 0 && CAR(fds)->number < FD_SETSIZE &&
+        FD_ISSET(CAR(fds)->number, set) && !IS_NULL(cb)) {
       atom_t fdn = lisp_car(lisp, fds);
       atom_t cn0 = lisp_cons(lisp, fdn, lisp_make_nil(lisp));
       atom_t qcb = lisp_cons(lisp, lisp_make_quote(lisp), UP(cb));
-- 
2.43.0


From 2d56d778c96f3bdbecefa4b11c811a9e582d23b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:03 +0000
Subject: [PATCH 22/45] fix: select closed an arbitrary descriptor for an
 element that is not a number

---
 lib/mnml/unix/select.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/mnml/unix/select.c b/lib/mnml/unix/select.c
index bb6d31f..f6dd335 100644
--- a/lib/mnml/unix/select.c
+++ b/lib/mnml/unix/select.c
@@ -90,7 +90,9 @@ process_r(const lisp_t lisp, const atom_t closure, const atom_t fds,
     }
     case T_NIL: {
       X(lisp, act);
-      close(CAR(fds)->number);
+      if (IS_NUMB(CAR(fds))) {
+        close(CAR(fds)->number);
+      }
       return process_r(lisp, closure, CDR(fds), cb, set);
     }
     default: {
-- 
2.43.0


From 45f491b9baadfc46b25cda2a4fcdc529bd1304d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:50 +0000
Subject: [PATCH 23/45] fix: the library name of a module was written one byte
 past its buffer

---
 lib/core/module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/module.c b/lib/core/module.c
index 456e156..03e1ae2 100644
--- a/lib/core/module.c
+++ b/lib/core/module.c
@@ -110,8 +110,8 @@ module_find_at_path(const char* const dirpath, const char* const name,
   /* LIB NAME .DYLIB\0 = 3 + STRLEN(NAME) + 7 */
   const size_t lib_name_len = strlen(name) + 10;
 #else
-  /* LIB NAME .SO\0 = 3 + STRLEN(NAME) + 3 */
-  const size_t lib_name_len = strlen(name) + 6;
+  /* LIB NAME .SO\0 = 3 + STRLEN(NAME) + 4 */
+  const size_t lib_name_len = strlen(name) + 7;
 #endif
   char* const lib_name = alloca(lib_name_len);
   memset(lib_name, 0, lib_name_len);
-- 
2.43.0


From 1f458f2aee35a8a8eb9a418225df7d0fba598bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:22 +0000
Subject: [PATCH 24/45] fix: a token across the end of the read buffer was read
 as two

---
 lib/core/read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/read.c b/lib/core/read.c
index 4dd83f8..ea9a5d5 100644
--- a/lib/core/read.c
+++ b/lib/core/read.c
@@ -65,7 +65,7 @@ lisp_read(const lisp_t lisp, const atom_t cell)
       break;
     }
     size_t len = strlen(p);
-    lexer_parse(lexer, buffer, lexer->rem + len, lexer->rem + len < RBUFLEN);
+    lexer_parse(lexer, buffer, lexer->rem + len, lexer->rem + len < RBUFLEN - 1 || len == 0);
   } while (IS_NULL(CDR(CDR(CAR(lisp->ichan)))) || lexer_pending(lexer));
   /*
    * Grab the result and return it.
-- 
2.43.0


From 252b3964bb48a022b11ed25bb54f112488e002c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:27 +0000
Subject: [PATCH 25/45] fix: iter2 used let without loading it

---
 share/mnml/iter2.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/iter2.l b/share/mnml/iter2.l
index e9de0a5..8393c99 100644
--- a/share/mnml/iter2.l
+++ b/share/mnml/iter2.l
@@ -1,4 +1,4 @@
-(load '(logic and) '(std if car cdr))
+(load '(logic and) '(std let if car cdr))
 
 (def iter2 (fun lst1 lst2)
 	"Iterate over list LST1 and LST1 and call FUN on each pair of item."
-- 
2.43.0


From 0f27833a76e938294640a878a3085bf851fa73bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:31 +0000
Subject: [PATCH 26/45] fix: isort loaded the iterators script as a binary
 module

---
 share/mnml/isort.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/isort.l b/share/mnml/isort.l
index 5d78dac..cf38557 100644
--- a/share/mnml/isort.l
+++ b/share/mnml/isort.l
@@ -1,5 +1,5 @@
 (load
-	'(iterators foldl)
+	"iterators.l"
 	'(logic or)
 	'(std \ car cdr cons if let nil?))
 
-- 
2.43.0


From aafb2892570fd52bd21afe84e1b5c5d3ef651789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:35 +0000
Subject: [PATCH 27/45] fix: http loaded scripts as binary modules

---
 share/mnml/http.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/mnml/http.l b/share/mnml/http.l
index e5ac621..ad007eb 100644
--- a/share/mnml/http.l
+++ b/share/mnml/http.l
@@ -1,12 +1,12 @@
 (load
 	"@lib/append.l"
 	"@lib/iter.l"
+	"@lib/iterators.l"
 	"@lib/join.l"
+	"@lib/manips.l"
 	"@lib/split.l"
 	"@lib/trim.l"
 	'(io in out prinl printl readline)
-	'(iterators foldl)
-	'(manips cadr caddr cddr)
 	'(logic = or)
 	'(math >)
 	'(std \ <- car cons if len let list match nil? prog unless when while)
-- 
2.43.0


From 42d309731a20847a101ba554ef50f203ff48ee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:39 +0000
Subject: [PATCH 28/45] fix: the compiler reported an unsupported type under an
 unbound name

---
 share/mnml/cc.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/share/mnml/cc.l b/share/mnml/cc.l
index 68916f2..1742b49 100644
--- a/share/mnml/cc.l
+++ b/share/mnml/cc.l
@@ -275,7 +275,7 @@
 	(match type
 		(NUMBER . (prinl "{ .number = _" arg "->number };"))
 		(ATOM		. (prinl "{ .atom = UP(_" arg ") };"))
-		(_			. (prinl "{ .number = 0 }; /* Unsupported type " (str atype) " */")))
+		(_			. (prinl "{ .number = 0 }; /* Unsupported type " (str type) " */")))
 	(if x (prinl (o|) "X(lisp, _" arg ");")))
 
 (def cc:gen:x (ARGS kvar ref)
-- 
2.43.0


From 569b242e141e94b9f681a137d6914a0293fb4b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:05 +0000
Subject: [PATCH 29/45] fix: every character was a white space, so trim never
 ended

---
 share/mnml/trim.l | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/share/mnml/trim.l b/share/mnml/trim.l
index 84a6b3c..35e4db4 100644
--- a/share/mnml/trim.l
+++ b/share/mnml/trim.l
@@ -2,11 +2,11 @@
 	"iterators.l"
 	"rev.l"
 	'(logic = or)
-	'(std \ |> car cdr cons if))
+	'(std \ car cdr cons if))
 
 (def whitespace? (chr)
 	"Return T if CHR is a white space."
-	(|> (= chr ^ ) (or (= chr ^\t)) (or (= chr ^\n)) (or (= chr ^\r))))
+	(or (or (= chr ^ ) (= chr ^\t)) (or (= chr ^\n) (= chr ^\r))))
 
 (def triml (strn)
 	"Trim STRN of leading white spaces."
-- 
2.43.0


From fa60c3eb06af3e1bc3bdd6a19e5065146c4cc7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:10 +0000
Subject: [PATCH 30/45] fix: mnmlc loaded map.l, which does not exist

---
 bin/mnmlc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/mnmlc b/bin/mnmlc
index 9f54a16..22ad921 100755
--- a/bin/mnmlc
+++ b/bin/mnmlc
@@ -1,7 +1,7 @@
 #!/usr/bin/env mnml
 
 (load
-  "@lib/args.l" "@lib/cc.l" "@lib/has.l" "@lib/map.l" "@lib/rev.l" "@lib/split.l"
+  "@lib/args.l" "@lib/cc.l" "@lib/has.l" "@lib/iterators.l" "@lib/rev.l" "@lib/split.l"
   '(io prinl)
   '(logic and =)
   '(std |> car cdr setq let if prog sym when))
-- 
2.43.0


From ea8abc2c41dd2c46c6c25d36fd648a6c250a7762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:23 +0000
Subject: [PATCH 31/45] fix: when and unless: only the last expression of the
 body is a tail call

---
 lib/core/utils.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 9413a76..19ec218 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -492,8 +492,19 @@ lisp_collect_tails(const lisp_t lisp, const atom_t cell)
           lisp_symbol_equal(CAR(cell), "when")) {
         atom_t cd0 = lisp_cdr(lisp, cell);
         atom_t cd1 = lisp_cdr(lisp, cd0);
-        res = lisp_collect_tails(lisp, lisp_car(lisp, cd1));
-        X(lisp, cell, cd0, cd1);
+        X(lisp, cell, cd0);
+        if (!IS_PAIR(cd1)) {
+          X(lisp, cd1);
+          res = lisp_make_nil(lisp);
+          break;
+        }
+        FOREACH(cd1, p)
+        {
+          NEXT(p);
+        }
+        atom_t last = UP(p->car);
+        res = lisp_collect_tails(lisp, last);
+        X(lisp, cd1);
         break;
       }
       /*
-- 
2.43.0


From 32146720adaf0925f24756e42d5009ca229706c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:26 +0000
Subject: [PATCH 32/45] fix: a call in the last stage of |> is not a tail call

---
 lib/core/utils.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 19ec218..250aa2e 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -472,10 +472,9 @@ lisp_collect_tails(const lisp_t lisp, const atom_t cell)
         break;
       }
       /*
-       * Check for PROG and STREAM constructs.
+       * Check for PROG constructs.
        */
-      if (lisp_symbol_equal(CAR(cell), "prog") ||
-          lisp_symbol_equal(CAR(cell), "|>")) {
+      if (lisp_symbol_equal(CAR(cell), "prog")) {
         FOREACH(cell, p)
         {
           NEXT(p);
-- 
2.43.0


From 6e2bb2c95f0ed25799ebd291178caa289b495bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:30 +0000
Subject: [PATCH 33/45] fix: no tail call to look for in a function without a
 body

---
 lib/core/utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 250aa2e..80043c9 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -534,6 +534,12 @@ lisp_mark_tail_calls(const lisp_t lisp, const atom_t symb, const atom_t args,
   TRACE_TAIL_SEXP(symb);
   TRACE_TAIL_SEXP(args);
   TRACE_TAIL_SEXP(body);
+  /*
+   * Skip if there is no body.
+   */
+  if (!IS_PAIR(body)) {
+    return;
+  }
   /*
    * Grab the last expression of the body.
    */
-- 
2.43.0


From d3234e92f21ab8c645b3580f154f4be8005cee51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:34 +0000
Subject: [PATCH 34/45] fix: a parameter that shadows its function is not a
 tail call

---
 lib/core/utils.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 80043c9..6f2dc4b 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -527,6 +527,15 @@ lisp_collect_tails(const lisp_t lisp, const atom_t cell)
   return res;
 }
 
+static bool
+lisp_args_bind(const atom_t args, const atom_t symb)
+{
+  if (IS_PAIR(args)) {
+    return lisp_args_bind(CAR(args), symb) || lisp_args_bind(CDR(args), symb);
+  }
+  return lisp_symbol_match(args, &symb->symbol);
+}
+
 void
 lisp_mark_tail_calls(const lisp_t lisp, const atom_t symb, const atom_t args,
                      const atom_t body)
@@ -540,6 +549,12 @@ lisp_mark_tail_calls(const lisp_t lisp, const atom_t symb, const atom_t args,
   if (!IS_PAIR(body)) {
     return;
   }
+  /*
+   * Skip if the arguments shadow the symbol.
+   */
+  if (lisp_args_bind(args, symb)) {
+    return;
+  }
   /*
    * Grab the last expression of the body.
    */
-- 
2.43.0


From b40bd81000b83c50d8e950f062ba09e9dd0a0c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:29 +0000
Subject: [PATCH 35/45] fix: printing NIL inside a list dropped the text before
 it

---
 lib/core/print.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/core/print.c b/lib/core/print.c
index 19ded27..62c3fb3 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -69,7 +69,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
 {
   switch (cell->type) {
     case T_NIL:
-      return s ? lisp_write(handle, buf, idx, "NIL", 3) : 0;
+      return s ? lisp_write(handle, buf, idx, "NIL", 3) : idx;
     case T_TRUE:
       return lisp_write(handle, buf, idx, "T", 1);
     case T_CHAR: {
@@ -123,7 +123,7 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
     case T_WILDCARD:
       return lisp_write(handle, buf, idx, "_", 1);
     default:
-      return 0;
+      return idx;
   }
 }
 
-- 
2.43.0


From 5b0c54944755090f719d1b5f462bd4ff6a4b5f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 36/45] fix: print the backslash character as the escape the
 reader accepts

---
 lib/core/print.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core/print.c b/lib/core/print.c
index 62c3fb3..4d471e0 100644
--- a/lib/core/print.c
+++ b/lib/core/print.c
@@ -89,6 +89,9 @@ lisp_prin_atom(FILE* const handle, char* const buf, const size_t idx,
           case '\t':
             nxt = lisp_write(handle, buf, nxt, "\\t", 2);
             break;
+          case '\\':
+            nxt = lisp_write(handle, buf, nxt, "\\\\", 2);
+            break;
           default:
             nxt = lisp_write(handle, buf, nxt, &c, 1);
             break;
-- 
2.43.0


From 41c667e2369e53e43b9567eb56a1fc553a09758a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:38 +0000
Subject: [PATCH 37/45] fix: ~ before a symbol or a number is not part of it

---
 lib/grammar/lexer.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 7361b6c..8b829cd 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -15,7 +15,7 @@
 #define ts  lexer->ts
 #define te  lexer->te
 
-#define UNPREFIX(_ts) (*(_ts) == '\'' || *(_ts) == '`' ? (_ts) + 1 : (_ts))
+#define UNPREFIX(_ts) (*(_ts) == '\'' || *(_ts) == '`' || *(_ts) == '~' ? (_ts) + 1 : (_ts))
 
 extern void parse_error(const lisp_t lisp);
 
-- 
2.43.0


From 039386d456ca6f0ad7bbb11103684f15a80c4752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 38/45] fix: a string that ends in an escaped backslash ends
 there

---
 lib/grammar/lexer.rl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 8b829cd..5a36fca 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -171,7 +171,7 @@ backt   = '`';
 tilde   = '~';
 number  = '-'? digit+;
 char    = '^' . (print - '\\' | "\\\\" | "\\e" | "\\n" | "\\r" | "\\t") $!parse_error;
-string  = '"' . ([^"] | '\\' '"')* . '"';
+string  = '"' . ([^"\\] | '\\' any)* . '"';
 marks   = [!@$%&*_+\-={}\[\]:;|\\<>?,./];
 symbol  = (alpha | marks) . (alnum | marks){,15} $!parse_error;
 comment = '#' . [^\n]*;
-- 
2.43.0


From e3177bdce885998e7599fdf524166fbb9b492502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:16 +0000
Subject: [PATCH 39/45] fix: a quoted negative number is a number

---
 lib/grammar/lexer.rl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index 5a36fca..f7e7eb8 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -199,18 +199,18 @@ main := |*
   (backt . popen) %tok_backt $!err_prefix => tok_popen;
   (tilde . popen) %tok_tilde $!err_prefix => tok_popen;
   #
-  # Escaped SYMBOL.
-  #
-  (quote . symbol) %tok_quote $!err_prefix => tok_symbol;
-  (backt . symbol) %tok_backt $!err_prefix => tok_symbol;
-  (tilde . symbol) %tok_tilde $!err_prefix => tok_symbol;
-  #
   # Escaped NUMBER.
   #
   (quote . number) %tok_quote $!err_prefix => tok_number;
   (backt . number) %tok_backt $!err_prefix => tok_number;
   (tilde . number) %tok_tilde $!err_prefix => tok_number;
   #
+  # Escaped SYMBOL.
+  #
+  (quote . symbol) %tok_quote $!err_prefix => tok_symbol;
+  (backt . symbol) %tok_backt $!err_prefix => tok_symbol;
+  (tilde . symbol) %tok_tilde $!err_prefix => tok_symbol;
+  #
   # Garbage.
   #
   comment;
-- 
2.43.0


From 33df845d00e6d276412169a059628cbe2c534bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:41 +0000
Subject: [PATCH 40/45] fix: a token longer than the read buffer made the
 reader wait forever

---
 lib/core/read.c      | 15 ++++++++++++---
 lib/grammar/lexer.rl |  7 +++++++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/core/read.c b/lib/core/read.c
index ea9a5d5..1d66171 100644
--- a/lib/core/read.c
+++ b/lib/core/read.c
@@ -58,19 +58,28 @@ lisp_read(const lisp_t lisp, const atom_t cell)
   FILE* handle = (FILE*)hnd->number;
   /*
    */
-  char buffer[RBUFLEN] = { 0 };
+  size_t size = RBUFLEN;
+  char* buffer = (char*)malloc(size);
   do {
-    char* p = fgets(buffer + lexer->rem, RBUFLEN - lexer->rem, handle);
+    /*
+     * Make room when the unfinished token fills the buffer.
+     */
+    if (lexer->rem + 1 >= size) {
+      size *= 2;
+      buffer = (char*)realloc(buffer, size);
+    }
+    char* p = fgets(buffer + lexer->rem, size - lexer->rem, handle);
     if (p == NULL) {
       break;
     }
     size_t len = strlen(p);
-    lexer_parse(lexer, buffer, lexer->rem + len, lexer->rem + len < RBUFLEN - 1 || len == 0);
+    lexer_parse(lexer, buffer, lexer->rem + len, lexer->rem + len < size - 1 || len == 0);
   } while (IS_NULL(CDR(CDR(CAR(lisp->ichan)))) || lexer_pending(lexer));
   /*
    * Grab the result and return it.
    */
   lexer_destroy(lexer);
+  free(buffer);
   return IS_NULL(CDR(CDR(chn))) ? NULL : lisp_read_pop(lisp);
 }
 
diff --git a/lib/grammar/lexer.rl b/lib/grammar/lexer.rl
index f7e7eb8..8d4c664 100644
--- a/lib/grammar/lexer.rl
+++ b/lib/grammar/lexer.rl
@@ -248,6 +248,13 @@ lexer_parse(const lexer_t lexer, char * const str, const size_t len,
   const char* p = str + lexer->rem;
   const char* pe = str + len;
   const char* eof = end ? pe : 0;
+  /*
+   * The prefix may have been moved along with its buffer.
+   */
+  if (ts != 0) {
+    te = str + (te - ts);
+    ts = str;
+  }
   %% write exec;
   /*
    * Update the local state when there is a prefix to save.
-- 
2.43.0


From 8c40b11e7928c36ece84d3e184cf35f5777a6591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:41 +0000
Subject: [PATCH 41/45] fix: a function that returned a symbol marked as a tail
 call crashed

---
 lib/core/eval.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/core/eval.c b/lib/core/eval.c
index 7e243a1..e8d5377 100644
--- a/lib/core/eval.c
+++ b/lib/core/eval.c
@@ -171,7 +171,8 @@ lisp_eval_func(const lisp_t lisp, const atom_t closure, const atom_t symb,
         /*
          * If the result is not a tail call, stop the evaluation.
          */
-        if (!IS_TAIL_CALL(res) || !lisp_symbol_match(CAR(res), &symb->symbol)) {
+        if (!IS_PAIR(res) || !IS_TAIL_CALL(res) ||
+            !lisp_symbol_match(CAR(res), &symb->symbol)) {
           rslt = res;
           break;
         }
-- 
2.43.0


From ccb5bdb9ca5602384335d9874b2970d78e677bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:46 +0000
Subject: [PATCH 42/45] fix: an improper list given as a string was followed
 past its end

---
 lib/core/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core/utils.c b/lib/core/utils.c
index 6f2dc4b..58d9f34 100644
--- a/lib/core/utils.c
+++ b/lib/core/utils.c
@@ -287,7 +287,7 @@ lisp_make_cstring(const atom_t cell, char* const buffer, const size_t len,
   /*
    * Terminate the string.
    */
-  if (IS_NULL(cell) || idx + 1 >= len) {
+  if (!IS_PAIR(cell) || idx + 1 >= len) {
     *buffer = '\0';
     return idx;
   }
-- 
2.43.0


From 98427b069cae047e171e3c609e148883359b539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:26 +0000
Subject: [PATCH 43/45] fix: the interpreter crashed when its cell memory could
 not be reserved

---
 bin/mnml.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/mnml.c b/bin/mnml.c
index a862ae2..d8ba5b1 100644
--- a/bin/mnml.c
+++ b/bin/mnml.c
@@ -302,6 +302,10 @@ main(const int argc, char** const argv)
    * Create a lisp context.
    */
   slab_t slab = slab_new();
+  if (slab == NULL) {
+    fprintf(stderr, "Cannot reserve the cell memory.\n");
+    return __LINE__;
+  }
   lisp_t lisp = lisp_new(slab);
   /*
    * Setup the debug variables.
-- 
2.43.0


From 501e9156666d3b177b4f98d6dfc9334c00e511f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 44/45] fix: pushing the IO context of a library crashed
 without a working directory

---
 lib/stubs/extern.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/stubs/extern.c b/lib/stubs/extern.c
index 9720c67..fb34e6e 100644
--- a/lib/stubs/extern.c
+++ b/lib/stubs/extern.c
@@ -23,7 +23,10 @@ void
 lisp_io_push(const lisp_t lisp)
 {
   char cwd_buf[PATH_MAX];
-  const char* const cwd = getcwd(cwd_buf, PATH_MAX);
+  const char* cwd = getcwd(cwd_buf, PATH_MAX);
+  if (cwd == NULL) {
+    cwd = "/";
+  }
   PUSH_IO_CONTEXT(lisp, lisp->ichan, stdin, cwd);
   PUSH_IO_CONTEXT(lisp, lisp->ochan, stdout, cwd);
 }
-- 
2.43.0


From 30da97ce2d87b79a4ecc30c24eb3a4e45abe13e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:02 +0000
Subject: [PATCH 45/45] fix: a list spliced with ~ was extended by what follows
 it

---
 lib/grammar/parser.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/grammar/parser.y b/lib/grammar/parser.y
index 49b2e72..1109a1d 100644
--- a/lib/grammar/parser.y
+++ b/lib/grammar/parser.y
@@ -59,8 +59,8 @@ items(A) ::= items(B) TILDE prefix(C).
 {
   atom_t nil = lisp_make_nil(lexer->lisp);
   C = lisp_eval(lexer->lisp, nil, C);
-  A = lisp_conc(lexer->lisp, B, C);
-  X(lexer->lisp, nil);
+  A = lisp_conc(lexer->lisp, B, lisp_dup(lexer->lisp, C));
+  X(lexer->lisp, nil, C);
 }
 
 prefix(A) ::= item(B).
-- 
2.43.0

