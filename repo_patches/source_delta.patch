From 0a7143182265507e14e78501abf06e9e2d5fab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:53 +0000
Subject: [PATCH 01/37] fix: raise SysErr when localtime fails (the raise
 result was not returned)

---
 base/runtime/c-libs/smlnj-date/localtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-date/localtime.c b/base/runtime/c-libs/smlnj-date/localtime.c
index cbf0e42..0f84991 100644
--- a/base/runtime/c-libs/smlnj-date/localtime.c
+++ b/base/runtime/c-libs/smlnj-date/localtime.c
@@ -25,7 +25,7 @@ ml_val_t _ml_Date_localtime (ml_state_t *msp, ml_val_t arg)
     struct tm	tmbuf;
 
     if (localtime_r (&t, &tmbuf) == NULL) {
-	RAISE_SYSERR(msp,0);
+	return RAISE_SYSERR(msp,0);
     }
     else {
 	return _ml_alloc_tm (msp, &tmbuf);
-- 
2.43.0


From b57307249ba6296b56a377fad9545f67e35a8ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:53 +0000
Subject: [PATCH 02/37] fix: raise SysErr when lseek fails (the raise result
 was not returned)

---
 base/runtime/c-libs/posix-io/lseek.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/lseek.c b/base/runtime/c-libs/posix-io/lseek.c
index 0b14853..4fbd313 100644
--- a/base/runtime/c-libs/posix-io/lseek.c
+++ b/base/runtime/c-libs/posix-io/lseek.c
@@ -28,7 +28,7 @@ ml_val_t _ml_P_IO_lseek (ml_state_t *msp, ml_val_t arg)
     pos = lseek(fd, offset, whence);
 
     if (pos < 0) {
-	RAISE_SYSERR (msp, (int)pos);
+	return RAISE_SYSERR (msp, (int)pos);
     }
 
     INT64_ALLOC(msp, box_pos, pos);
-- 
2.43.0


From 1de3e0bd72063d231ac24f10e242b090c30f0ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:53 +0000
Subject: [PATCH 03/37] fix: raise SysErr when uname fails (the raise result
 was not returned)

---
 base/runtime/c-libs/posix-procenv/uname.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-procenv/uname.c b/base/runtime/c-libs/posix-procenv/uname.c
index d7a3370..acb7618 100644
--- a/base/runtime/c-libs/posix-procenv/uname.c
+++ b/base/runtime/c-libs/posix-procenv/uname.c
@@ -25,7 +25,7 @@ ml_val_t _ml_P_ProcEnv_uname (ml_state_t *msp, ml_val_t arg)
     sts = uname (&name);
 
     if (sts == -1)
-	RAISE_SYSERR(msp, sts);
+	return RAISE_SYSERR(msp, sts);
 
 /** NOTE: we should do something about possible GC!!! **/
 
-- 
2.43.0


From 2e155df9a092f370f6849bf76350ca6f75c40115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:53 +0000
Subject: [PATCH 04/37] fix: check the sizing call to getgroups

---
 base/runtime/c-libs/posix-procenv/getgroups.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/base/runtime/c-libs/posix-procenv/getgroups.c b/base/runtime/c-libs/posix-procenv/getgroups.c
index 9196b32..151e908 100644
--- a/base/runtime/c-libs/posix-procenv/getgroups.c
+++ b/base/runtime/c-libs/posix-procenv/getgroups.c
@@ -65,6 +65,8 @@ ml_val_t _ml_P_ProcEnv_getgroups (ml_state_t *msp, ml_val_t arg)
 
       /* Find out how many groups there are and allocate enough space. */
 	ngrps = getgroups (0, gidset);
+	if (ngrps == -1)
+	    return RAISE_SYSERR(msp, -1);
 	gp = (gid *)MALLOC(ngrps * (sizeof (gid)));
 	if (gp == 0) {
 	    errno = ENOMEM;
-- 
2.43.0


From e67686c22c0c522876d48b9a1aa594f324111cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:53 +0000
Subject: [PATCH 05/37] fix: raise SysErr when tcgetpgrp fails

---
 base/runtime/c-libs/posix-tty/tcgetpgrp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-tty/tcgetpgrp.c b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
index 9da3719..ee3094c 100644
--- a/base/runtime/c-libs/posix-tty/tcgetpgrp.c
+++ b/base/runtime/c-libs/posix-tty/tcgetpgrp.c
@@ -18,7 +18,10 @@
 ml_val_t _ml_P_TTY_tcgetpgrp (ml_state_t *msp, ml_val_t arg)
 {
     int         fd = INT_MLtoC(arg);
+    int         pgrp;
 
-    return INT_CtoML(tcgetpgrp(fd));
+    pgrp = tcgetpgrp(fd);
+
+    CHK_RETURN(msp, pgrp)
 
 } /* end of _ml_P_TTY_tcgetpgrp */
-- 
2.43.0


From c3842184fbb88a9bede9be57ea15010c7fa88c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 06/37] fix: preserve the literal program across the allocation
 of the saved array

---
 base/runtime/gc/build-literals.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/runtime/gc/build-literals.c b/base/runtime/gc/build-literals.c
index 0eff5db..05fbf89 100644
--- a/base/runtime/gc/build-literals.c
+++ b/base/runtime/gc/build-literals.c
@@ -530,7 +530,14 @@ ml_val_t BuildLiterals (ml_state_t *msp, Byte_t *code, int len)
 #endif
 
     if (maxSaved > 0) {
-	saved = ML_AllocArrayData (msp, maxSaved, ML_nil);
+      /* allocating the array may cause a GC that moves the literal program, so
+       * we use it as the initial value, which is preserved.
+       */
+	saved = ML_AllocArrayData (msp, maxSaved, PTR_CtoML(code));
+	code = PTR_MLtoC(Byte_t, PTR_MLtoC(ml_val_t, saved)[0]);
+	for (ui = 0;  ui < maxSaved;  ui++) {
+	    PTR_MLtoC(ml_val_t, saved)[ui] = ML_nil;
+	}
     }
     else {
 	saved = ML_nil;
-- 
2.43.0


From a53adec01cd7a18589c8abb32a995d998b426622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 07/37] fix: preserve the list across collections in
 ML_CStringList; correct space computations

---
 base/runtime/gc/ml-objects.c | 71 ++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/base/runtime/gc/ml-objects.c b/base/runtime/gc/ml-objects.c
index 806c785..1af34b4 100644
--- a/base/runtime/gc/ml-objects.c
+++ b/base/runtime/gc/ml-objects.c
@@ -41,13 +41,14 @@
 #endif
 
 
-/* ML_CString:
+PVT ml_val_t AllocRaw (ml_state_t *msp, Word_t nwords, ml_val_t *root);
+
+/* CString:
  *
- * Allocate an ML string using a C string as an initializer.  We assume
- * that the string is small and can be allocated in the allocation
- * arena.
+ * Allocate an ML string using a C string as an initializer; if this requires
+ * a GC, then root (which may be NIL) is preserved and updated.
  */
-ml_val_t ML_CString (ml_state_t *msp, const char *v)
+PVT ml_val_t CString (ml_state_t *msp, const char *v, ml_val_t *root)
 {
     int         len = ((v == NIL(char *)) ? 0 : strlen(v));
 
@@ -57,7 +58,7 @@ ml_val_t ML_CString (ml_state_t *msp, const char *v)
         Word_t n = BYTES_TO_WORDS(len+1);  /* count "\0" too */
         ml_val_t res;
 
-        res = ML_AllocRaw (msp, n);
+        res = AllocRaw (msp, n, root);
       /* zero the last word to allow fast (word) string comparisons, and to
        * guarantee 0 termination.
        */
@@ -69,6 +70,18 @@ ml_val_t ML_CString (ml_state_t *msp, const char *v)
         return res;
     }
 
+} /* end of CString */
+
+/* ML_CString:
+ *
+ * Allocate an ML string using a C string as an initializer.  We assume
+ * that the string is small and can be allocated in the allocation
+ * arena.
+ */
+ml_val_t ML_CString (ml_state_t *msp, const char *v)
+{
+    return CString (msp, v, NIL(ml_val_t *));
+
 } /* end of ML_CString */
 
 /* ML_CStringList:
@@ -77,29 +90,21 @@ ml_val_t ML_CString (ml_state_t *msp, const char *v)
  */
 ml_val_t ML_CStringList (ml_state_t *msp, char **strs)
 {
-    int         i, j;
+    int         i;
     ml_val_t    p, s;
-    Word_t      nbytes;
 
     for (i = 0;  strs[i] != NIL(char *);  i++)
         continue;
 
-    /* Make sure we have enough space to allocate the list */
-    nbytes = i * (3 * WORD_SZB);
-    for (j = 0;  j < i;  j++) {
-        size_t len = strlen(strs[j]);
-        Word_t nwords = BYTES_TO_WORDS(len + 1);
-        if (len > 0 && nwords <= SMALL_OBJ_SZW) {
-            nbytes += WORD_SZB * (nwords + 1); /* +1 for the descriptor word */
-        }
-    }
-    if (NeedGC (msp, nbytes)) {
-        InvokeGC (msp, 0);
-    }
-
     p = LIST_nil;
     while (i-- > 0) {
-        s = ML_CString(msp, strs[i]);
+      /* make sure that there is enough space for a small string and the cons cell;
+       * a big string may also cause a GC, so we have to preserve p.
+       */
+        if (NeedGC (msp, WORD_SZB * (SMALL_OBJ_SZW + 8))) {
+            InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
+        }
+        s = CString (msp, strs[i], &p);
         LIST_cons(msp, p, s, p);
     }
 
@@ -132,11 +137,12 @@ ml_val_t ML_AllocString (ml_state_t *msp, Word_t len)
 
 } /* end of ML_AllocString. */
 
-/* ML_AllocRaw:
+/* AllocRaw:
  *
- * Allocate an uninitialized chunk of raw data.
+ * Allocate an uninitialized chunk of raw data; if this requires a GC, then
+ * root (which may be NIL) is preserved and updated.
  */
-ml_val_t ML_AllocRaw (ml_state_t *msp, Word_t nwords)
+PVT ml_val_t AllocRaw (ml_state_t *msp, Word_t nwords, ml_val_t *root)
 {
     ml_val_t    desc = MAKE_DESC(nwords, DTAG_raw);
     ml_val_t    res;
@@ -153,7 +159,7 @@ ml_val_t ML_AllocRaw (ml_state_t *msp, Word_t nwords)
               /* we need to do a GC */
                 ap->reqSizeB += szb;
                 RELEASE_LOCK(MP_GCGenLock);
-                    InvokeGC (msp, 1);
+                    InvokeGCWithRoots (msp, 1, root, NIL(ml_val_t *));
                 ACQUIRE_LOCK(MP_GCGenLock);
                 ap->reqSizeB = 0;
             }
@@ -172,6 +178,16 @@ ml_val_t ML_AllocRaw (ml_state_t *msp, Word_t nwords)
 
     return res;
 
+} /* end of AllocRaw. */
+
+/* ML_AllocRaw:
+ *
+ * Allocate an uninitialized chunk of raw data.
+ */
+ml_val_t ML_AllocRaw (ml_state_t *msp, Word_t nwords)
+{
+    return AllocRaw (msp, nwords, NIL(ml_val_t *));
+
 } /* end of ML_AllocRaw. */
 
 /* ML_ShrinkRaw:
@@ -508,7 +524,8 @@ ml_val_t ML_SysConstList (ml_state_t *msp, sysconst_tbl_t *tbl)
       /* required space for string header+data (4 words + string bytes), pair (3 words),
        * cons (3 words).
        */
-        reqSpace = (4 + 3 + 3) * WORD_SZB + BYTES_TO_WORDS(strlen(tbl->consts[i].name) + 1);
+        reqSpace = (4 + 3 + 3) * WORD_SZB
+                + WORD_SZB * BYTES_TO_WORDS(strlen(tbl->consts[i].name) + 1);
         if (reqSpace >= availSpace) {
             InvokeGCWithRoots (msp, 0, (ml_val_t *)&list, NIL(ml_val_t *));
             availSpace = ((size_t)msp->ml_limitPtr - (size_t)msp->ml_allocPtr);
-- 
2.43.0


From ff92c9ca0400db0168b62bce76547c99bfa825f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 08/37] fix: exec and execp argument strings must not move
 while argv is built

---
 base/runtime/c-libs/posix-process/exec.c  | 14 +++++++++++---
 base/runtime/c-libs/posix-process/execp.c | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/base/runtime/c-libs/posix-process/exec.c b/base/runtime/c-libs/posix-process/exec.c
index fa2bb68..d259c5b 100644
--- a/base/runtime/c-libs/posix-process/exec.c
+++ b/base/runtime/c-libs/posix-process/exec.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_exec : string * string list -> 'a
  *
@@ -16,7 +17,7 @@
  */
 ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
 {
-    int             sts;
+    int             sts, err;
     ml_val_t        path = REC_SEL(arg, 0);
     ml_val_t        arglst = REC_SEL(arg, 1);
     char            **argv;
@@ -28,14 +29,21 @@ ml_val_t _ml_P_Process_exec (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+    /* note that allocating argv in the ML heap might move the strings */
+    argv = cp = NEW_VEC(char *, nArgs + 1);
+    if (argv == NIL(char **)) {
+        return RAISE_ERROR(msp, "out of malloc memory");
+    }
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
     *cp++ = 0;  /* terminate the argv[] */
 
     sts = execv(STR_MLtoC(path), argv);
+    err = errno;
+    FREE (argv);
+    errno = err;
+
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_exec */
diff --git a/base/runtime/c-libs/posix-process/execp.c b/base/runtime/c-libs/posix-process/execp.c
index 355e11c..393e3b8 100644
--- a/base/runtime/c-libs/posix-process/execp.c
+++ b/base/runtime/c-libs/posix-process/execp.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_execp : string * string list -> 'a
  *
@@ -16,7 +17,7 @@
  */
 ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
 {
-    int             sts;
+    int             sts, err;
     ml_val_t        file = REC_SEL(arg, 0);
     ml_val_t        arglst = REC_SEL(arg, 1);
     char            **argv;
@@ -28,8 +29,11 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+    /* note that allocating argv in the ML heap might move the strings */
+    argv = cp = NEW_VEC(char *, nArgs + 1);
+    if (argv == NIL(char **)) {
+        return RAISE_ERROR(msp, "out of malloc memory");
+    }
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
@@ -37,6 +41,10 @@ ml_val_t _ml_P_Process_execp (ml_state_t *msp, ml_val_t arg)
 
     sts = execvp(STR_MLtoC(file), argv);
 
+    err = errno;
+    FREE (argv);
+    errno = err;
+
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_execp */
-- 
2.43.0


From afb6e86399f215b7a0571ab3a76bd27a4d3cb724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 09/37] fix: exece: room for the environment, and strings that
 do not move

---
 base/runtime/c-libs/posix-process/exece.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/base/runtime/c-libs/posix-process/exece.c b/base/runtime/c-libs/posix-process/exece.c
index fb72af0..4c23ba1 100644
--- a/base/runtime/c-libs/posix-process/exece.c
+++ b/base/runtime/c-libs/posix-process/exece.c
@@ -9,6 +9,7 @@
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 #include <unistd.h>
+#include <errno.h>
 
 /* _ml_P_Process_exece : string * string list * string list -> 'a
  *
@@ -16,21 +17,27 @@
  */
 ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
 {
-    int             sts;
+    int             sts, err;
     ml_val_t        path = REC_SEL(arg, 0);
     ml_val_t        arglst = REC_SEL(arg, 1);
     ml_val_t        envlst = REC_SEL(arg, 2);
     char            **argv, **envp;
     ml_val_t        p;
     char            **cp;
-    int             nArgs;
+    int             nArgs, nEnv;
 
     for (nArgs = 0, p = arglst; p != LIST_nil; p = LIST_tl(p)) {
         nArgs++;
     }
 
-    cp = PTR_MLtoC(char *, ML_AllocRaw(msp, BYTES_TO_WORDS((nArgs + 1) * sizeof(char *))));
-    argv = cp;
+    for (nEnv = 0, p = envlst; p != LIST_nil; p = LIST_tl(p)) {
+        nEnv++;
+    }
+    /* note that allocating argv and envp in the ML heap might move the strings */
+    argv = cp = NEW_VEC(char *, nArgs + nEnv + 2);
+    if (argv == NIL(char **)) {
+        return RAISE_ERROR(msp, "out of malloc memory");
+    }
     for (p = arglst;  p != LIST_nil;  p = LIST_tl(p)) {
         *cp++ = STR_MLtoC(LIST_hd(p));
     }
@@ -43,6 +50,10 @@ ml_val_t _ml_P_Process_exece (ml_state_t *msp, ml_val_t arg)
 
     sts = execve(STR_MLtoC(path), argv, envp);
 
+    err = errno;
+    FREE (argv);
+    errno = err;
+
     CHK_RETURN (msp, sts)
 
 } /* end of _ml_P_Process_exece */
-- 
2.43.0


From df09a5a88959f0ef18ebd35c97e1c32159b74c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 10/37] fix: getgrgid/getgrnam kept unrooted references across
 a collection

---
 base/runtime/c-libs/posix-sysdb/getgrgid.c | 3 ++-
 base/runtime/c-libs/posix-sysdb/getgrnam.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-sysdb/getgrgid.c b/base/runtime/c-libs/posix-sysdb/getgrgid.c
index 6eaa30f..e821101 100644
--- a/base/runtime/c-libs/posix-sysdb/getgrgid.c
+++ b/base/runtime/c-libs/posix-sysdb/getgrgid.c
@@ -27,9 +27,10 @@ ml_val_t _ml_P_SysDB_getgrgid (ml_state_t *msp, ml_val_t arg)
     if (info == NIL(struct group *))
         return RAISE_SYSERR(msp, -1);
 
+    /* note that building the list may cause a GC, so we do it first */
+    gr_mem = ML_CStringList(msp, info->gr_mem);
     gr_name = ML_CString (msp, info->gr_name);
     SYSWORD_ALLOC (msp, gr_gid, (SysWord_t)(info->gr_gid));
-    gr_mem = ML_CStringList(msp, info->gr_mem);
 
     REC_ALLOC3(msp, r, gr_name, gr_gid, gr_mem);
 
diff --git a/base/runtime/c-libs/posix-sysdb/getgrnam.c b/base/runtime/c-libs/posix-sysdb/getgrnam.c
index 22a35bc..6101aaf 100644
--- a/base/runtime/c-libs/posix-sysdb/getgrnam.c
+++ b/base/runtime/c-libs/posix-sysdb/getgrnam.c
@@ -27,9 +27,10 @@ ml_val_t _ml_P_SysDB_getgrnam (ml_state_t *msp, ml_val_t arg)
     if (info == NIL(struct group *))
         return RAISE_SYSERR(msp, -1);
 
+    /* note that building the list may cause a GC, so we do it first */
+    gr_mem = ML_CStringList(msp, info->gr_mem);
     gr_name = ML_CString (msp, info->gr_name);
     SYSWORD_ALLOC (msp, gr_gid, (Word_t)(info->gr_gid));
-    gr_mem = ML_CStringList(msp, info->gr_mem);
 
     REC_ALLOC3(msp, r, gr_name, gr_gid, gr_mem);
 
-- 
2.43.0


From 949ee5bdfa4f194d13d68f44461628dd93267b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 11/37] fix: network data-base entries kept unrooted references
 across a collection

---
 base/runtime/c-libs/smlnj-sockets/getprotbyname.c  | 3 ++-
 base/runtime/c-libs/smlnj-sockets/getprotbynum.c   | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mkhostent.c | 8 ++++++--
 base/runtime/c-libs/smlnj-sockets/util-mknetent.c  | 3 ++-
 base/runtime/c-libs/smlnj-sockets/util-mkservent.c | 3 ++-
 5 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getprotbyname.c b/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
index 60696b8..179ccb6 100644
--- a/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
+++ b/base/runtime/c-libs/smlnj-sockets/getprotbyname.c
@@ -24,8 +24,9 @@ ml_val_t _ml_NetDB_getprotbyname (ml_state_t *msp, ml_val_t arg)
     if (pentry == NIL(struct protoent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, pentry->p_name);
+      /* note that building the list may cause a GC, so we do it first */
 	aliases = ML_CStringList (msp, pentry->p_aliases);
+	name = ML_CString (msp, pentry->p_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(pentry->p_proto));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/getprotbynum.c b/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
index 98dff50..3eb98b8 100644
--- a/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
+++ b/base/runtime/c-libs/smlnj-sockets/getprotbynum.c
@@ -24,8 +24,9 @@ ml_val_t _ml_NetDB_getprotbynum (ml_state_t *msp, ml_val_t arg)
     if (pentry == NIL(struct protoent *))
 	return OPTION_NONE;
     else {
-	name = ML_CString (msp, pentry->p_name);
+      /* note that building the list may cause a GC, so we do it first */
 	aliases = ML_CStringList (msp, pentry->p_aliases);
+	name = ML_CString (msp, pentry->p_name);
 	REC_ALLOC3 (msp, res, name, aliases, INT_CtoML(pentry->p_proto));
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
index 4fab8f0..13906e0 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkhostent.c
@@ -8,6 +8,7 @@
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "ml-c.h"
 #include "sock-util.h"
 
@@ -29,17 +30,20 @@ ml_val_t _util_NetDB_mkhostent (ml_state_t *msp, struct hostent *hentry)
 	ml_val_t	name, aliases, af, addr, addrs, res;
 	int		nAddrs, i;
 
-	name = ML_CString(msp, hentry->h_name);
+      /* note that building the list may cause a GC, so we do it first */
 	aliases = ML_CStringList(msp, hentry->h_aliases);
-	af = ML_SysConst (msp, &_Sock_AddrFamily, hentry->h_addrtype);
 	for (nAddrs = 0;  hentry->h_addr_list[nAddrs] != NIL(char *);  nAddrs++)
 	    continue;
 	for (i = nAddrs, addrs = LIST_nil;  --i >= 0;  ) {
+	    if (NeedGC (msp, WORD_SZB * (BYTES_TO_WORDS(hentry->h_length + 1) + 8)))
+		InvokeGCWithRoots (msp, 0, &aliases, &addrs, NIL(ml_val_t *));
 	    addr = ML_AllocString (msp, hentry->h_length);
 	    memcpy (GET_SEQ_DATAPTR(void, addr), hentry->h_addr_list[i],
 		hentry->h_length);
 	    LIST_cons(msp, addrs, addr, addrs);
 	}
+	name = ML_CString(msp, hentry->h_name);
+	af = ML_SysConst (msp, &_Sock_AddrFamily, hentry->h_addrtype);
 	REC_ALLOC4 (msp, res, name, aliases, af, addrs);
 	OPTION_SOME (msp, res, res);
 	return res;
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mknetent.c b/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
index 18f0d5a..9999bc4 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mknetent.c
@@ -25,8 +25,9 @@ ml_val_t _util_NetDB_mknetent (ml_state_t *msp, struct netent *nentry)
       /* build the return result */
 	ml_val_t	name, aliases, af, net, res;
 
-	name = ML_CString(msp, nentry->n_name);
+      /* note that building the list may cause a GC, so we do it first */
 	aliases = ML_CStringList(msp, nentry->n_aliases);
+	name = ML_CString(msp, nentry->n_name);
 	af = ML_SysConst (msp, &_Sock_AddrFamily, nentry->n_addrtype);
 	WORD_ALLOC(msp, net, (Word_t)(nentry->n_net));
 	REC_ALLOC4 (msp, res, name, aliases, af, net);
diff --git a/base/runtime/c-libs/smlnj-sockets/util-mkservent.c b/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
index 1a659e5..3b5e1f0 100644
--- a/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
+++ b/base/runtime/c-libs/smlnj-sockets/util-mkservent.c
@@ -26,8 +26,9 @@ ml_val_t _util_NetDB_mkservent (ml_state_t *msp, struct servent *sentry)
       /* build the return result */
 	ml_val_t	name, aliases, port, proto, res;
 
-	name = ML_CString(msp, sentry->s_name);
+      /* note that building the list may cause a GC, so we do it first */
 	aliases = ML_CStringList(msp, sentry->s_aliases);
+	name = ML_CString(msp, sentry->s_name);
 	port = INT_CtoML(ntohs(sentry->s_port));
 	proto = ML_CString(msp, sentry->s_proto);
 	REC_ALLOC4 (msp, res, name, aliases, port, proto);
-- 
2.43.0


From 552ee33572fbabccfe2b0d4baa66e7578762928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 12/37] fix: getgroups built an unbounded list without checking
 for space

---
 base/runtime/c-libs/posix-procenv/getgroups.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/posix-procenv/getgroups.c b/base/runtime/c-libs/posix-procenv/getgroups.c
index 151e908..1f8ec6e 100644
--- a/base/runtime/c-libs/posix-procenv/getgroups.c
+++ b/base/runtime/c-libs/posix-procenv/getgroups.c
@@ -10,6 +10,7 @@
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "ml-c.h"
 #include "cfun-proto-list.h"
 
@@ -31,10 +32,10 @@ PVT ml_val_t mkList (ml_state_t *msp, int ngrps, gid gidset[])
 {
     ml_val_t    p, w;
 
-/** NOTE: we should do something about possible GC!!! **/
-
     p = LIST_nil;
     while (ngrps-- > 0) {
+	if (NeedGC (msp, 8 * WORD_SZB))
+	    InvokeGCWithRoots (msp, 0, &p, NIL(ml_val_t *));
         WORD_ALLOC (msp, w, (Word_t)(gidset[ngrps]));
 	LIST_cons(msp, p, w, p);
     }
-- 
2.43.0


From bcf33008579c8d9e6aff4c230f84804831efb5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 13/37] fix: poll built an unbounded list without checking for
 space

---
 base/runtime/c-libs/posix-os/poll.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index e207621..8d165a7 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -27,6 +27,7 @@
 #include "ml-c.h"
 #include "ml-values.h"
 #include "ml-objects.h"
+#include "gc.h"
 #include "cfun-proto-list.h"
 
 /* bit masks for polling descriptors (see src/sml-nj/boot/Unix/os-io.sml) */
@@ -122,6 +123,8 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 		    flag |= WR_BIT;
 		if ((fdp->revents & POLL_ERROR) != 0)
 		    flag |= ERR_BIT;
+		if (NeedGC (msp, 8 * WORD_SZB))
+		    InvokeGCWithRoots (msp, 0, &l, NIL(ml_val_t *));
 		REC_ALLOC2(msp, item, INT_CtoML(fdp->fd), INT_CtoML(flag));
 		LIST_cons(msp, l, item, l);
 	    }
-- 
2.43.0


From 9291d31ca16c571edb28b0f9cad5f703ddfd8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 14/37] fix: fcntl_gfl must ask for the status flags (F_GETFL)

---
 base/runtime/c-libs/posix-io/fcntl_gfl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_gfl.c b/base/runtime/c-libs/posix-io/fcntl_gfl.c
index 4d75c7c..4f62fea 100644
--- a/base/runtime/c-libs/posix-io/fcntl_gfl.c
+++ b/base/runtime/c-libs/posix-io/fcntl_gfl.c
@@ -20,7 +20,7 @@ ml_val_t _ml_P_IO_fcntl_gfl (ml_state_t *msp, ml_val_t arg)
     int             flag;
     ml_val_t        flags, mode, obj;
 
-    flag = fcntl(fd, F_GETFD);
+    flag = fcntl(fd, F_GETFL);
 
     if (flag < 0)
 	return RAISE_SYSERR(msp, flag);
-- 
2.43.0


From 656096cdc99e0a1f711e3bc5902955ca2590a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 15/37] fix: swapped descriptor arguments (record of 5 fields)
 in fcntl_l

---
 base/runtime/c-libs/posix-io/fcntl_l.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-io/fcntl_l.c b/base/runtime/c-libs/posix-io/fcntl_l.c
index 96ff7d6..8567513 100644
--- a/base/runtime/c-libs/posix-io/fcntl_l.c
+++ b/base/runtime/c-libs/posix-io/fcntl_l.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_IO_fcntl_l (ml_state_t *msp, ml_val_t arg)
     INT64_ALLOC(msp, start, flock.l_start)
     INT64_ALLOC(msp, length, flock.l_len)
 
-    ML_AllocWrite (msp, 0, MAKE_DESC (DTAG_record, 5));
+    ML_AllocWrite (msp, 0, MAKE_DESC (5, DTAG_record));
     ML_AllocWrite (msp, 1, INT_CtoML(flock.l_type));
     ML_AllocWrite (msp, 2, INT_CtoML(flock.l_whence));
     ML_AllocWrite (msp, 3, start);
-- 
2.43.0


From 7e8cfea9e5e312b9d1da44fa4bb9dda319a34cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 16/37] fix: swapped descriptor arguments (record of 7 fields)
 in tcgetattr

---
 base/runtime/c-libs/posix-tty/tcgetattr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-tty/tcgetattr.c b/base/runtime/c-libs/posix-tty/tcgetattr.c
index 371df11..6e47472 100644
--- a/base/runtime/c-libs/posix-tty/tcgetattr.c
+++ b/base/runtime/c-libs/posix-tty/tcgetattr.c
@@ -45,7 +45,7 @@ ml_val_t _ml_P_TTY_tcgetattr (ml_state_t *msp, ml_val_t arg)
     SYSWORD_ALLOC (msp, ispeed, cfgetispeed (&data));
     SYSWORD_ALLOC (msp, ospeed, cfgetospeed (&data));
 
-    ML_AllocWrite (msp, 0, MAKE_DESC(DTAG_record, 7));
+    ML_AllocWrite (msp, 0, MAKE_DESC(7, DTAG_record));
     ML_AllocWrite (msp, 1, iflag);
     ML_AllocWrite (msp, 2, oflag);
     ML_AllocWrite (msp, 3, cflag);
-- 
2.43.0


From 51e45180799c4b21e2a057d8a8c8eafae5e3721a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 17/37] fix: swapped descriptor arguments (record of 9 fields)
 in date conversion

---
 base/runtime/c-libs/smlnj-date/unix-date.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-date/unix-date.c b/base/runtime/c-libs/smlnj-date/unix-date.c
index e6cafad..1930568 100644
--- a/base/runtime/c-libs/smlnj-date/unix-date.c
+++ b/base/runtime/c-libs/smlnj-date/unix-date.c
@@ -12,7 +12,7 @@
 ml_val_t _ml_alloc_tm (ml_state_t *msp, const struct tm *tm)
 {
 
-    ML_AllocWrite(msp, 0, MAKE_DESC(DTAG_record, 9));
+    ML_AllocWrite(msp, 0, MAKE_DESC(9, DTAG_record));
     ML_AllocWrite(msp, 1, INT_CtoML(tm->tm_sec));
     ML_AllocWrite(msp, 2, INT_CtoML(tm->tm_min));
     ML_AllocWrite(msp, 3, INT_CtoML(tm->tm_hour));
-- 
2.43.0


From a787488aebfeb8fca267860a32864f56d0eb1d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 18/37] fix: waitpid read an undefined status when no child has
 changed state

---
 base/runtime/c-libs/posix-process/waitpid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/posix-process/waitpid.c b/base/runtime/c-libs/posix-process/waitpid.c
index de72cad..561f141 100644
--- a/base/runtime/c-libs/posix-process/waitpid.c
+++ b/base/runtime/c-libs/posix-process/waitpid.c
@@ -21,7 +21,7 @@ ml_val_t _ml_P_Process_waitpid (ml_state_t *msp, ml_val_t arg)
     ml_val_t	ml_options = REC_SEL(arg, 1);
     int		options = SYSWORD_MLtoC(ml_options);
     int		pid;
-    int		status, how, val;
+    int		status = 0, how, val;
     ml_val_t	r;
 
     pid = waitpid(REC_SELINT(arg, 0), &status, options);
-- 
2.43.0


From 2ab22097f6640d22701a87a0de5e2c37b2799f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 19/37] fix: the family of a socket address is in host byte
 order

---
 base/runtime/c-libs/smlnj-sockets/getaddrfamily.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
index a469480..8d8c4dc 100644
--- a/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
+++ b/base/runtime/c-libs/smlnj-sockets/getaddrfamily.c
@@ -20,6 +20,6 @@ ml_val_t _ml_Sock_getaddrfamily (ml_state_t *msp, ml_val_t arg)
 {
     struct sockaddr *addr = GET_SEQ_DATAPTR(struct sockaddr, arg);
 
-    return ML_SysConst (msp, &_Sock_AddrFamily, ntohs(addr->sa_family));
+    return ML_SysConst (msp, &_Sock_AddrFamily, addr->sa_family);
 
 } /* end of _ml_Sock_getaddrfamily */
-- 
2.43.0


From 25338133dd4d49b9c8ed30cd93e480af5f517718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 20/37] fix: getservbyport takes its port in network byte order

---
 base/runtime/c-libs/smlnj-sockets/getservbyport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/getservbyport.c b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
index c3c4af9..84ccee9 100644
--- a/base/runtime/c-libs/smlnj-sockets/getservbyport.c
+++ b/base/runtime/c-libs/smlnj-sockets/getservbyport.c
@@ -25,6 +25,6 @@ ml_val_t _ml_NetDB_getservbyport (ml_state_t *msp, ml_val_t arg)
     else
 	proto = STR_MLtoC(OPTION_get(mlProto));
 
-    return _util_NetDB_mkservent (msp, getservbyport (REC_SELINT(arg, 0), proto));
+    return _util_NetDB_mkservent (msp, getservbyport (htons(REC_SELINT(arg, 0)), proto));
 
 } /* end of _ml_NetDB_getservbyport */
-- 
2.43.0


From 72c68f22140afc24bb0ada6f86ee204e73b14986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 21/37] fix: reject Unix-domain socket paths that do not fit
 the address

---
 base/runtime/c-libs/smlnj-sockets/to-unixaddr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
index 43110c7..4dfa251 100644
--- a/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
+++ b/base/runtime/c-libs/smlnj-sockets/to-unixaddr.c
@@ -8,6 +8,7 @@
 #include INCLUDE_TYPES_H
 #include INCLUDE_SOCKET_H
 #include INCLUDE_UN_H
+#include <errno.h>
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
@@ -26,6 +27,11 @@ ml_val_t _ml_Sock_tounixaddr (ml_state_t *msp, ml_val_t arg)
     int			len;
     ml_val_t		data, res;
 
+    if (strlen(path) >= sizeof(addr.sun_path)) {
+	errno = ENAMETOOLONG;
+	return RAISE_SYSERR(msp, -1);
+    }
+
     memset(&addr, 0, sizeof(struct sockaddr_un));
 
     addr.sun_family = AF_UNIX;
-- 
2.43.0


From 068fbf78e277950fbb86b231aa79f4139e3807a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 22/37] fix: readlink retried into the short buffer

---
 base/runtime/c-libs/posix-filesys/readlink.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/base/runtime/c-libs/posix-filesys/readlink.c b/base/runtime/c-libs/posix-filesys/readlink.c
index f23ff08..57f1827 100644
--- a/base/runtime/c-libs/posix-filesys/readlink.c
+++ b/base/runtime/c-libs/posix-filesys/readlink.c
@@ -8,6 +8,7 @@
 #include <sys/stat.h>
 #include <limits.h>
 #include <sys/param.h>
+#include <errno.h>
 #include "ml-base.h"
 #include "ml-values.h"
 #include "ml-objects.h"
@@ -65,11 +66,17 @@ ml_val_t _ml_P_FileSys_readlink (ml_state_t *msp, ml_val_t arg)
         /* Try the readlink again. Give up on error or if len is still bigger
          * than the buffer size.
          */
-	len = readlink(path, buf, len);
-	if (len < 0)
+	len = readlink(path, nbuf, nlen);
+	if (len < 0) {
+	    int err = errno;
+	    FREE (nbuf);
+	    errno = err;
 	    return RAISE_SYSERR(msp, len);
-	else if (len >= nlen)
+	}
+	else if (len >= nlen) {
+	    FREE (nbuf);
 	    return RAISE_ERROR(msp, "readlink failure");
+	}
 
 	nbuf[len] = '\0';
 	obj = ML_CString (msp, nbuf);
-- 
2.43.0


From 451012a5f8fbc97ef740ce7bfdffe0bf995abb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 23/37] fix: peek/oob and don't_route/oob flags were swapped in
 socket I/O; terminate received strings

---
 base/runtime/c-libs/smlnj-sockets/recv.c      | 12 +++++------
 base/runtime/c-libs/smlnj-sockets/recvbuf.c   |  4 ++--
 .../c-libs/smlnj-sockets/recvbuffrom.c        |  4 ++--
 base/runtime/c-libs/smlnj-sockets/recvfrom.c  | 21 ++++++++++++-------
 base/runtime/c-libs/smlnj-sockets/sendbuf.c   |  4 ++--
 base/runtime/c-libs/smlnj-sockets/sendbufto.c |  4 ++--
 6 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-sockets/recv.c b/base/runtime/c-libs/smlnj-sockets/recv.c
index a3f4180..431efc9 100644
--- a/base/runtime/c-libs/smlnj-sockets/recv.c
+++ b/base/runtime/c-libs/smlnj-sockets/recv.c
@@ -25,11 +25,11 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
     int		m, n;
     char	*s;
 
-    if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
-    if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 2) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 3) == ML_true) flag |= MSG_OOB;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
 
     s = PTR_MLtoC(char, vec);
     n = recv (sock, s, nbytes, flag);
@@ -40,15 +40,15 @@ ml_val_t _ml_Sock_recv (ml_state_t *msp, ml_val_t arg)
 	return ML_string0;
 
   /* pad the last word of the vector with zero bytes so that string pattern
-   * matching on the result will work.
+   * matching on the result will work and the result is 0 terminated.
    */
-    for (m = n;  (m & (WORD_SZB-1)) != 0;  m++) {
+    for (m = n;  m < WORD_SZB * BYTES_TO_WORDS(n+1);  m++) {
 	s[m] = '\0';
     }
 
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
     }
 
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
diff --git a/base/runtime/c-libs/smlnj-sockets/recvbuf.c b/base/runtime/c-libs/smlnj-sockets/recvbuf.c
index 2264c80..d2e8cfb 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvbuf.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvbuf.c
@@ -24,8 +24,8 @@ ml_val_t _ml_Sock_recvbuf (ml_state_t *msp, ml_val_t arg)
     int		flag = 0;
     int		n;
 
-    if (REC_SEL(arg, 4) == ML_true) flag |= MSG_OOB;
-    if (REC_SEL(arg, 5) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 4) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 5) == ML_true) flag |= MSG_OOB;
 
     n = recv (sock, start, nbytes, flag);
 
diff --git a/base/runtime/c-libs/smlnj-sockets/recvbuffrom.c b/base/runtime/c-libs/smlnj-sockets/recvbuffrom.c
index feff4cb..f3d85a8 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvbuffrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvbuffrom.c
@@ -29,8 +29,8 @@ ml_val_t _ml_Sock_recvbuffrom (ml_state_t *msp, ml_val_t arg)
     int		flag = 0;
     int		n;
 
-    if (REC_SEL(arg, 4) == ML_true) flag |= MSG_OOB;
-    if (REC_SEL(arg, 5) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 4) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 5) == ML_true) flag |= MSG_OOB;
 
     n = recvfrom (sock, start, nbytes, flag, (struct sockaddr *)addrBuf, &addrLen);
 
diff --git a/base/runtime/c-libs/smlnj-sockets/recvfrom.c b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
index 585af1d..a6222d3 100644
--- a/base/runtime/c-libs/smlnj-sockets/recvfrom.c
+++ b/base/runtime/c-libs/smlnj-sockets/recvfrom.c
@@ -24,13 +24,13 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     int		nbytes = REC_SELINT(arg, 1);
     int		flag = 0;
     ml_val_t	vec;
-    int		n;
+    int		m, n;
 
-    if (REC_SEL(arg, 2) == ML_true) flag |= MSG_OOB;
-    if (REC_SEL(arg, 3) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 2) == ML_true) flag |= MSG_PEEK;
+    if (REC_SEL(arg, 3) == ML_true) flag |= MSG_OOB;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
 
     n = recvfrom (
 	sock, PTR_MLtoC(char, vec), nbytes, flag,
@@ -39,18 +39,25 @@ ml_val_t _ml_Sock_recvfrom (ml_state_t *msp, ml_val_t arg)
     if (n < 0)
 	return RAISE_SYSERR(msp, sts);
     else {
-	ml_val_t	data = ML_CData (msp, addrBuf, addrLen);
-	ml_val_t	addr, res;
+	ml_val_t	data, addr, res;
 
 	if (n == 0)
 	    res = ML_string0;
 	else {
 	    if (n < nbytes)
 	      /* we need to shrink the vector */
-		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+		ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
+	  /* zero the padding of the last word; the result is a string, so it must be
+	   * 0 terminated.
+	   */
+	    for (m = n;  m < WORD_SZB * BYTES_TO_WORDS(n+1);  m++) {
+		PTR_MLtoC(char, vec)[m] = '\0';
+	    }
 	    SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
 	}
 
+      /* note that the vector has to be shrunk before anything else is allocated */
+	data = ML_CData (msp, addrBuf, addrLen);
 	SEQHDR_ALLOC (msp, addr, DESC_word8vec, data, addrLen);
 	REC_ALLOC2(msp, res, res, addr);
 
diff --git a/base/runtime/c-libs/smlnj-sockets/sendbuf.c b/base/runtime/c-libs/smlnj-sockets/sendbuf.c
index 635531f..960f511 100644
--- a/base/runtime/c-libs/smlnj-sockets/sendbuf.c
+++ b/base/runtime/c-libs/smlnj-sockets/sendbuf.c
@@ -26,8 +26,8 @@ ml_val_t _ml_Sock_sendbuf (ml_state_t *msp, ml_val_t arg)
 
   /* initialize the flags */
     flgs = 0;
-    if (REC_SEL(arg, 4) == ML_true) flgs |= MSG_OOB;
-    if (REC_SEL(arg, 5) == ML_true) flgs |= MSG_DONTROUTE;
+    if (REC_SEL(arg, 4) == ML_true) flgs |= MSG_DONTROUTE;
+    if (REC_SEL(arg, 5) == ML_true) flgs |= MSG_OOB;
 
     n = send (sock, data, nbytes, flgs);
 
diff --git a/base/runtime/c-libs/smlnj-sockets/sendbufto.c b/base/runtime/c-libs/smlnj-sockets/sendbufto.c
index f928b65..96fa456 100644
--- a/base/runtime/c-libs/smlnj-sockets/sendbufto.c
+++ b/base/runtime/c-libs/smlnj-sockets/sendbufto.c
@@ -28,8 +28,8 @@ ml_val_t _ml_Sock_sendbufto (ml_state_t *msp, ml_val_t arg)
 
   /* initialize the flags. */
     flgs = 0;
-    if (REC_SEL(arg, 4) == ML_true) flgs |= MSG_OOB;
-    if (REC_SEL(arg, 5) == ML_true) flgs |= MSG_DONTROUTE;
+    if (REC_SEL(arg, 4) == ML_true) flgs |= MSG_DONTROUTE;
+    if (REC_SEL(arg, 5) == ML_true) flgs |= MSG_OOB;
 
     n = sendto (
 	sock, data, nbytes, flgs,
-- 
2.43.0


From 6a6b75528ec07bfb0aad9165caed50f853bd172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 24/37] fix: data returned by read is a string and must be 0
 terminated

---
 base/runtime/c-libs/posix-io/read.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/base/runtime/c-libs/posix-io/read.c b/base/runtime/c-libs/posix-io/read.c
index f2c3ceb..c983012 100644
--- a/base/runtime/c-libs/posix-io/read.c
+++ b/base/runtime/c-libs/posix-io/read.c
@@ -22,13 +22,13 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
     int		    fd = REC_SELINT(arg, 0);
     int		    nbytes = REC_SELINT(arg, 1);
     ml_val_t	    vec, res;
-    int		    n;
+    int		    m, n;
 
     if (nbytes == 0)
 	return ML_string0;
 
   /* allocate the vector; note that this might cause a GC */
-    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes));
+    vec = ML_AllocRaw (msp, BYTES_TO_WORDS(nbytes+1));
     n = read (fd, PTR_MLtoC(char, vec), nbytes);
     if (n < 0)
 	return RAISE_SYSERR(msp, n);
@@ -37,7 +37,14 @@ ml_val_t _ml_P_IO_read (ml_state_t *msp, ml_val_t arg)
 
     if (n < nbytes) {
       /* we need to shrink the vector */
-	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n));
+	ML_ShrinkRaw (msp, vec, BYTES_TO_WORDS(n+1));
+    }
+
+  /* zero the padding of the last word; the result is a string, so it must be
+   * 0 terminated.
+   */
+    for (m = n;  m < WORD_SZB * BYTES_TO_WORDS(n+1);  m++) {
+	PTR_MLtoC(char, vec)[m] = '\0';
     }
 
     SEQHDR_ALLOC (msp, res, DESC_string, vec, n);
-- 
2.43.0


From d19435f273249e928d5fc144dc04eaa19ff54ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:22 +0000
Subject: [PATCH 25/37] fix: K_SAME_GROUP signals the process group of the
 caller, not every process

---
 base/system/Basis/Implementation/Posix/posix-process.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Posix/posix-process.sml b/base/system/Basis/Implementation/Posix/posix-process.sml
index e92c59c..3681b5b 100644
--- a/base/system/Basis/Implementation/Posix/posix-process.sml
+++ b/base/system/Basis/Implementation/Posix/posix-process.sml
@@ -114,7 +114,7 @@ structure POSIX_Process =
 
     val kill' : s_int * s_int -> unit = cfun "kill"
     fun kill (K_PROC (PID pid),Sig.SIG s) = kill'(pid, s)
-      | kill (K_SAME_GROUP,Sig.SIG s) = kill'(~1, s)
+      | kill (K_SAME_GROUP,Sig.SIG s) = kill'(0, s)
       | kill (K_GROUP (PID pid),Sig.SIG s) = kill'(~pid, s)
 
 (* TODO: generalize to finer-grain sleeping (bug #173); also alarm *)
-- 
2.43.0


From d239ecfbcadca4020ffbaf4fa900b152a10a4643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:45 +0000
Subject: [PATCH 26/37] fix: OS.IO.poll sized its result vector by select's bit
 count and allocated without checking for space

---
 base/runtime/c-libs/posix-os/poll.c | 31 ++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/base/runtime/c-libs/posix-os/poll.c b/base/runtime/c-libs/posix-os/poll.c
index 8d165a7..f59bab0 100644
--- a/base/runtime/c-libs/posix-os/poll.c
+++ b/base/runtime/c-libs/posix-os/poll.c
@@ -12,6 +12,7 @@
  *	(this matters when the same descriptor is covered by multiple items).
  */
 
+#include <errno.h>
 #include "ml-unixdep.h"
 #if defined(HAS_SELECT)
 #  include INCLUDE_TYPES_H
@@ -154,6 +155,10 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	item	= LIST_hd(l);
 	fd	= REC_SELINT(item, 0);
 	flag	= REC_SELINT(item, 1);
+	if ((fd < 0) || (fd >= FD_SETSIZE)) {
+	    errno = EBADF;
+	    return RAISE_SYSERR(msp, -1);
+	}
 	if ((flag & RD_BIT) != 0) {
 	    if (rfds == NIL(fd_set *)) {
 		rfds = &rset;
@@ -185,9 +190,16 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
     else if (sts == 0)
 	return LIST_nil;
     else {
-	ml_val_t	*resVec = NEW_VEC(ml_val_t, sts);
-	int		i, resFlag;
-
+	int		*resVec;
+	int		n, i, resFlag;
+
+      /* record the results outside the heap, since allocation may trigger a GC;
+       * note that "sts" is not the number of ready items: it counts an item once
+       * for each condition and does not count repeated items.
+       */
+	for (n = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l))
+	    n++;
+	resVec = NEW_VEC(int, 2*n);
 	for (i = 0, l = pollList;  l != LIST_nil;  l = LIST_tl(l)) {
 	    item	= LIST_hd(l);
 	    fd		= REC_SELINT(item, 0);
@@ -200,15 +212,16 @@ PVT ml_val_t ML_Poll (ml_state_t *msp, ml_val_t pollList, struct timeval *timeou
 	    if (((flag & ERR_BIT) != 0) && FD_ISSET(fd, efds))
 		resFlag |= ERR_BIT;
 	    if (resFlag != 0) {
-		REC_ALLOC2 (msp, item, INT_CtoML(fd), INT_CtoML(resFlag));
-		resVec[i++] = item;
+		resVec[2*i] = fd;
+		resVec[2*i+1] = resFlag;
+		i++;
 	    }
 	}
 
-	ASSERT(i == sts);
-
-	for (i = sts-1, l = LIST_nil;  i >= 0;  i--) {
-	    item = resVec[i];
+	for (i = i-1, l = LIST_nil;  i >= 0;  i--) {
+	    if (NeedGC (msp, 8 * WORD_SZB))
+		InvokeGCWithRoots (msp, 0, &l, NIL(ml_val_t *));
+	    REC_ALLOC2 (msp, item, INT_CtoML(resVec[2*i]), INT_CtoML(resVec[2*i+1]));
 	    LIST_cons (msp, l, item, l);
 	}
 
-- 
2.43.0


From 139349f0841059a72fd15488cd54eb36a52d7549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 27/37] fix: Time.now truncated the seconds since the epoch to
 32 bits

---
 base/runtime/include/ml-objects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/runtime/include/ml-objects.h b/base/runtime/include/ml-objects.h
index 8babe6f..4f2d69a 100644
--- a/base/runtime/include/ml-objects.h
+++ b/base/runtime/include/ml-objects.h
@@ -266,7 +266,7 @@ STATIC_INLINE void ML_RecordUpdate (ml_state_t *msp, ml_val_t *addr)
 /* allocate a 64-bit integer number of nanoseconds, given seconds and
  * microseconds.
  */
-STATIC_INLINE ml_val_t ML_AllocNanoseconds (ml_state_t *msp, int sec, int usec)
+STATIC_INLINE ml_val_t ML_AllocNanoseconds (ml_state_t *msp, Int64_t sec, Int64_t usec)
 {
     Unsigned64_t t = (NS_PER_SEC * (Unsigned64_t)sec) + (1000 * (Unsigned64_t)usec);
     return ML_AllocWord64(msp, t);
-- 
2.43.0


From 56e6da68c98844cc3ae56a9ab831878dbb7c1496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:42 +0000
Subject: [PATCH 28/37] fix: a long image name overran a fixed buffer in
 exportML, exportFn and @SMLload

---
 base/runtime/c-libs/smlnj-runtime/export-fun.c  | 3 +++
 base/runtime/c-libs/smlnj-runtime/export-heap.c | 3 +++
 base/runtime/gc/import-heap.c                   | 3 ++-
 base/runtime/include/ml-base.h                  | 1 +
 4 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/base/runtime/c-libs/smlnj-runtime/export-fun.c b/base/runtime/c-libs/smlnj-runtime/export-fun.c
index 7dac946..d093051 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-fun.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-fun.c
@@ -27,6 +27,9 @@ ml_val_t _ml_RunT_export_fun (ml_state_t *msp, ml_val_t arg)
     FILE	*file;
     int		sts;
 
+    if (strlen(STR_MLtoC(mlName)) >= sizeof(fname) - MAX_IMAGE_SUFFIX)
+	return RAISE_ERROR(msp, "image file name too long");
+
     QualifyImageName (strcpy(fname, STR_MLtoC(mlName)));
 
     if ((file = fopen(fname, "wb")) == NULL)
diff --git a/base/runtime/c-libs/smlnj-runtime/export-heap.c b/base/runtime/c-libs/smlnj-runtime/export-heap.c
index a854fc7..9c10ee2 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-heap.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-heap.c
@@ -25,6 +25,9 @@ ml_val_t _ml_RunT_export_heap (ml_state_t *msp, ml_val_t arg)
     FILE	*file;
     int		sts;
 
+    if (strlen(STR_MLtoC(arg)) >= sizeof(fname) - MAX_IMAGE_SUFFIX)
+	return RAISE_ERROR(msp, "image file name too long");
+
     QualifyImageName (strcpy(fname, STR_MLtoC(arg)));
 
     if ((file = fopen(fname, "wb")) == NULL)
diff --git a/base/runtime/gc/import-heap.c b/base/runtime/gc/import-heap.c
index 4b8720c..775b06d 100644
--- a/base/runtime/gc/import-heap.c
+++ b/base/runtime/gc/import-heap.c
@@ -94,7 +94,8 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
         else {
             char        buf[1024];
 
-            if (QualifyImageName(strcpy(buf, fname))
+            if ((strlen(fname) < sizeof(buf) - MAX_IMAGE_SUFFIX)
+            && QualifyImageName(strcpy(buf, fname))
             && ((inBuf.file = fopen(buf, "rb")) != NULL)) {
                 if (! SilentLoad) {
                     Say("loading %s ", buf);
diff --git a/base/runtime/include/ml-base.h b/base/runtime/include/ml-base.h
index 3a428e5..eb22e75 100644
--- a/base/runtime/include/ml-base.h
+++ b/base/runtime/include/ml-base.h
@@ -216,6 +216,7 @@ extern void LoadML (const char *loadImage, heap_params_t *params);
 extern void FreeMLState (ml_state_t *msp);
 
 extern bool_t QualifyImageName (char *buf);
+#define MAX_IMAGE_SUFFIX	64	/* upper bound on what QualifyImageName appends */
 extern void InitMLState (ml_state_t *msp);
 extern void SaveCState (ml_state_t *msp, ...);
 extern void RestoreCState (ml_state_t *msp, ...);
-- 
2.43.0


From 7ff06ceb9ba3d66a15e3700e76ab4d27a40a54e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:43 +0000
Subject: [PATCH 29/37] fix: the report of an uncaught exception overran its
 buffer when the argument is a long string

---
 base/runtime/kernel/run-ml.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/runtime/kernel/run-ml.c b/base/runtime/kernel/run-ml.c
index d8488f2..b1ac801 100644
--- a/base/runtime/kernel/run-ml.c
+++ b/base/runtime/kernel/run-ml.c
@@ -316,7 +316,7 @@ PVT void UncaughtExn (ml_val_t e)
     else {
         ml_val_t        desc = OBJ_DESC(val);
         if (desc == DESC_string)
-            sprintf (buf, "\"%.*s\"", (int) GET_SEQ_LEN(val), STR_MLtoC(val));
+            snprintf (buf, sizeof(buf), "\"%.*s\"", (int) GET_SEQ_LEN(val), STR_MLtoC(val));
         else
             sprintf (buf, "<unknown>");
     }
@@ -329,7 +329,7 @@ PVT void UncaughtExn (ml_val_t e)
             next = LIST_tl(traceBack);
         } while (next != LIST_nil);
         val = LIST_hd(traceBack);
-        sprintf (buf+strlen(buf), " raised at %.*s",
+        snprintf (buf+strlen(buf), sizeof(buf)-strlen(buf), " raised at %.*s",
                  (int) GET_SEQ_LEN(val), STR_MLtoC(val));
     }
 
-- 
2.43.0


From b17e3995e02bc20620b8dfc75292c1f10fa5e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:43 +0000
Subject: [PATCH 30/37] fix: an image whose last bytes cannot be written is not
 a successful export

---
 base/runtime/c-libs/smlnj-runtime/export-fun.c  | 3 ++-
 base/runtime/c-libs/smlnj-runtime/export-heap.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/runtime/c-libs/smlnj-runtime/export-fun.c b/base/runtime/c-libs/smlnj-runtime/export-fun.c
index d093051..7e4fe65 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-fun.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-fun.c
@@ -36,7 +36,8 @@ ml_val_t _ml_RunT_export_fun (ml_state_t *msp, ml_val_t arg)
 	return RAISE_ERROR(msp, "unable to open file for writing");
 
     sts = ExportFnImage (msp, funct, file);
-    fclose (file);
+    if (fclose (file) != 0)
+	sts = FAILURE;
 
     if (sts == SUCCESS) {
 	Exit (0);
diff --git a/base/runtime/c-libs/smlnj-runtime/export-heap.c b/base/runtime/c-libs/smlnj-runtime/export-heap.c
index 9c10ee2..596a730 100644
--- a/base/runtime/c-libs/smlnj-runtime/export-heap.c
+++ b/base/runtime/c-libs/smlnj-runtime/export-heap.c
@@ -35,7 +35,8 @@ ml_val_t _ml_RunT_export_heap (ml_state_t *msp, ml_val_t arg)
 
     msp->ml_arg = ML_true;
     sts = ExportHeapImage (msp, file);
-    fclose (file);
+    if (fclose (file) != 0)
+	sts = FAILURE;
 
     if (sts == SUCCESS)
 	return ML_false;
-- 
2.43.0


From adc4993dcf01665ce1b75007a3266fbdd4a5f8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:11 +0000
Subject: [PATCH 31/37] fix: a failed header write left the heap with its
 external references exported

---
 base/runtime/gc/export-heap.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/base/runtime/gc/export-heap.c b/base/runtime/gc/export-heap.c
index d9d74de..74ac6d3 100644
--- a/base/runtime/gc/export-heap.c
+++ b/base/runtime/gc/export-heap.c
@@ -119,9 +119,8 @@ PVT status_t ExportImage (ml_state_t *msp, int kind, FILE *file)
 	HeapIO_WriteImageHeader(wr, kind);
 	WR_Write(wr, &heapHdr, sizeof(heapHdr));
 	if (WR_Error(wr)) {
-            FreeExportTbl(exportTbl);
-	    WR_Free(wr);
-	    return FAILURE;
+	    status = FAILURE;
+	    goto done;
 	}
     }
 
-- 
2.43.0


From 7e68df1ac57492dbbd08e2d5d000d971c19d47c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:31 +0000
Subject: [PATCH 32/37] fix: Socket.Ctl.getRCVBUF and setRCVBUF operated on the
 send buffer

---
 base/system/Basis/Implementation/Sockets/socket.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/system/Basis/Implementation/Sockets/socket.sml b/base/system/Basis/Implementation/Sockets/socket.sml
index 9771ddd..2cb815e 100644
--- a/base/system/Basis/Implementation/Sockets/socket.sml
+++ b/base/system/Basis/Implementation/Sockets/socket.sml
@@ -88,7 +88,7 @@ structure SocketImp : SOCKET =
 	  val ctlSNDBUF    : (sockFD * int option) -> int =
 		sockFn "ctlSNDBUF"
 	  val ctlRCVBUF    : (sockFD * int option) -> int =
-		sockFn "ctlSNDBUF"
+		sockFn "ctlRCVBUF"
 	in
       (* get/set socket options *)
 	fun getDEBUG x = getOpt ctlDEBUG x
-- 
2.43.0


From ae47b78548187093fa4d72055431a4e266907879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:01 +0000
Subject: [PATCH 33/37] fix: CML.recv left the receiver inside the atomic
 region when it had to wait

---
 cml/src/core-cml/channel.sml | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cml/src/core-cml/channel.sml b/cml/src/core-cml/channel.sml
index 2958f36..f678ed8 100644
--- a/cml/src/core-cml/channel.sml
+++ b/cml/src/core-cml/channel.sml
@@ -192,9 +192,15 @@ structure Channel : sig
 		  priority := 1;
 		  throw sendK (myId, recvK)
 		end
-	    | NoItem => (
-		enqueue (inQ, (mkId(), recvK));
-		S.atomicDispatch())
+	    | NoItem => let
+		val msg = callcc (fn recvK => (
+		      enqueue (inQ, (mkId(), recvK));
+		      S.atomicDispatch()))
+		in
+		(* the sender resumes us inside the atomic region *)
+		  S.atomicEnd();
+		  msg
+		end
 	  (* end case *)))
 
     fun recvEvt (CHAN{priority, inQ, outQ}) = let
-- 
2.43.0


From ded758cb186915daa3a1c1479e4bcfef78b9d2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:01 +0000
Subject: [PATCH 34/37] fix: Barrier.resign left the atomic region locked on a
 repeated resignation

---
 cml/src/core-cml/barrier.sml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cml/src/core-cml/barrier.sml b/cml/src/core-cml/barrier.sml
index 3c02d81..4d59438 100644
--- a/cml/src/core-cml/barrier.sml
+++ b/cml/src/core-cml/barrier.sml
@@ -91,7 +91,7 @@ structure Barrier :> BARRIER =
     fun resign (ENROLL{bar, sts}) = (
 	  S.atomicBegin();
 	  case !sts
-	   of RESIGNED => () (* ignore multiple resignations *)
+	   of RESIGNED => S.atomicEnd() (* ignore multiple resignations *)
 	    | WAITING => (S.atomicEnd(); raise Fail "resign while waiting")
 	    | ENROLLED => (sts := RESIGNED; S.atomicEnd()))
 
-- 
2.43.0


From 53c73036cf0fd1a63329e1565f9e654fd9d7ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:30 +0000
Subject: [PATCH 35/37] fix: BlastHeap never freed its writer, ReadImage lost
 the externs table on a short read

---
 base/runtime/gc/blast-in.c  |  1 +
 base/runtime/gc/blast-out.c | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/base/runtime/gc/blast-in.c b/base/runtime/gc/blast-in.c
index aa24ea3..c57b985 100644
--- a/base/runtime/gc/blast-in.c
+++ b/base/runtime/gc/blast-in.c
@@ -105,6 +105,7 @@ PVT status_t ReadImage (ml_state_t *msp, inbuf_t *bp, ml_val_t *objRef)
     arenaHdrsBuf = (heap_arena_hdr_t *) MALLOC (arenaHdrsSize);
     if (HeapIO_ReadBlock (bp, arenaHdrsBuf, arenaHdrsSize) == FAILURE) {
 	FREE (arenaHdrsBuf);
+	FREE (externs);
 	return FAILURE;
     }
     for (i = 0;  i < NUM_OBJ_KINDS;  i++)
diff --git a/base/runtime/gc/blast-out.c b/base/runtime/gc/blast-out.c
index d1fb93e..c07da67 100644
--- a/base/runtime/gc/blast-out.c
+++ b/base/runtime/gc/blast-out.c
@@ -182,6 +182,7 @@ PVT ml_val_t BlastHeap (ml_state_t *msp, ml_val_t obj, blast_res_t *info)
   /* blast out the image header */
     if (HeapIO_WriteImageHeader (wr, BLAST_IMAGE) == FAILURE) {
 	FREE (arenaHdrsBuf);
+	WR_Free (wr);
 	return BLAST_ERROR;
     }
 
@@ -206,6 +207,7 @@ PVT ml_val_t BlastHeap (ml_state_t *msp, ml_val_t obj, blast_res_t *info)
 		if ((p == NIL(embobj_info_t *)) || (p->kind == USED_CODE)) {
 		    Error ("blasting big objects not implemented\n");
 		    FREE (arenaHdrsBuf);
+		    WR_Free (wr);
 		    return BLAST_ERROR;
 		}
 		else
@@ -224,6 +226,7 @@ PVT ml_val_t BlastHeap (ml_state_t *msp, ml_val_t obj, blast_res_t *info)
 	WR_Write(wr, &hdr, sizeof(hdr));
 	if (WR_Error(wr)) {
 	    FREE (arenaHdrsBuf);
+	    WR_Free (wr);
 	    return BLAST_ERROR;
 	}
     }
@@ -231,6 +234,7 @@ PVT ml_val_t BlastHeap (ml_state_t *msp, ml_val_t obj, blast_res_t *info)
   /* blast out the externals table */
     if (HeapIO_WriteExterns(wr, info->exportTbl) == -1) {
 	FREE (arenaHdrsBuf);
+	WR_Free (wr);
 	return BLAST_ERROR;
     }
 
@@ -238,6 +242,7 @@ PVT ml_val_t BlastHeap (ml_state_t *msp, ml_val_t obj, blast_res_t *info)
     WR_Write (wr, arenaHdrsBuf, arenaHdrSz);
     if (WR_Error(wr)) {
 	FREE (arenaHdrsBuf);
+	WR_Free (wr);
 	return BLAST_ERROR;
     }
 
@@ -297,9 +302,12 @@ PVT ml_val_t BlastHeap (ml_state_t *msp, ml_val_t obj, blast_res_t *info)
 
     FREE (arenaHdrsBuf);
 
-    if (WR_Error(wr))
+    if (WR_Error(wr)) {
+	WR_Free (wr);
 	return BLAST_ERROR;
+    }
     else {
+	WR_Free (wr);
 	SEQHDR_ALLOC (msp, blastedObj, DESC_string, blastedObj, totSzB);
 	return blastedObj;
     }
-- 
2.43.0


From 9f2089dfaefb5d2c9eb8e25cafed0435d20dc679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:10 +0000
Subject: [PATCH 36/37] fix: reading a truncated table of external symbols was
 not noticed

---
 base/runtime/gc/blast-in.c     |  2 ++
 base/runtime/gc/heap-in-util.c | 13 ++++++++++---
 base/runtime/gc/import-heap.c  |  3 +++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/base/runtime/gc/blast-in.c b/base/runtime/gc/blast-in.c
index c57b985..04a430f 100644
--- a/base/runtime/gc/blast-in.c
+++ b/base/runtime/gc/blast-in.c
@@ -98,6 +98,8 @@ PVT status_t ReadImage (ml_state_t *msp, inbuf_t *bp, ml_val_t *objRef)
 
   /* read the externals table */
     externs = HeapIO_ReadExterns (bp);
+    if (externs == NIL(ml_val_t *))
+	return FAILURE;
 
   /* read the arena headers. */
     arenaHdrsSize = (blastHdr.numArenas + blastHdr.numBOKinds)
diff --git a/base/runtime/gc/heap-in-util.c b/base/runtime/gc/heap-in-util.c
index f8cca96..0da1986 100644
--- a/base/runtime/gc/heap-in-util.c
+++ b/base/runtime/gc/heap-in-util.c
@@ -24,6 +24,8 @@ PVT status_t ReadBlock (FILE *file, void *blk, size_t len);
 
 
 /* HeapIO_ReadExterns:
+ *
+ * Read the table of external symbols; returns NIL if it cannot be read.
  */
 ml_val_t *HeapIO_ReadExterns (inbuf_t *bp)
 {
@@ -33,13 +35,18 @@ ml_val_t *HeapIO_ReadExterns (inbuf_t *bp)
     int			i;
 
   /* Read the header */
-    HeapIO_ReadBlock(bp, &(hdr), sizeof(hdr));
+    if (HeapIO_ReadBlock(bp, &(hdr), sizeof(hdr)) == FAILURE)
+	return NIL(ml_val_t *);
 
-    externs = NEW_VEC(ml_val_t, hdr.numExterns);
+    externs = NEW_VEC(ml_val_t, hdr.numExterns+1);  /* +1 so that it is never empty */
 
   /* Read in the names of the exported symbols */
     buf = NEW_VEC(Byte_t, hdr.externSzB);
-    HeapIO_ReadBlock (bp, buf, hdr.externSzB);
+    if (HeapIO_ReadBlock (bp, buf, hdr.externSzB) == FAILURE) {
+	FREE (buf);
+	FREE (externs);
+	return NIL(ml_val_t *);
+    }
 
   /* map the names of the external symbols to addresses in the run-time system */
     for (cp = buf, i = 0;  i < hdr.numExterns;  i++) {
diff --git a/base/runtime/gc/import-heap.c b/base/runtime/gc/import-heap.c
index 775b06d..79852dc 100644
--- a/base/runtime/gc/import-heap.c
+++ b/base/runtime/gc/import-heap.c
@@ -157,6 +157,9 @@ ml_state_t *ImportHeapImage (const char *fname, heap_params_t *params)
 
   /* read the externals table */
     externs = HeapIO_ReadExterns (&inBuf);
+    if (externs == NIL(ml_val_t *)) {
+        Die ("failure reading external symbols\n");
+    }
 
   /* read and initialize the ML state info */
     READ(&inBuf, image, "failure reading vproc header");
-- 
2.43.0


From 533baa95f5aebde8cc643f975d5fd4936796aa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:10 +0000
Subject: [PATCH 37/37] fix: blast_in accepted an object whose data is
 truncated

---
 base/runtime/gc/blast-in.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/runtime/gc/blast-in.c b/base/runtime/gc/blast-in.c
index 04a430f..d9792a8 100644
--- a/base/runtime/gc/blast-in.c
+++ b/base/runtime/gc/blast-in.c
@@ -156,7 +156,11 @@ PVT status_t ReadImage (ml_state_t *msp, inbuf_t *bp, ml_val_t *objRef)
 	    if (arenaHdrs[i] != NIL(heap_arena_hdr_t *)) {
 	        arena_t	*ap = gen1->arena[i];
 	        arenaBase[i] = (Addr_t)(ap->nextw);
-	        HeapIO_ReadBlock (bp, (ap->nextw), arenaHdrs[i]->info.o.sizeB);
+	        if (HeapIO_ReadBlock (bp, (ap->nextw), arenaHdrs[i]->info.o.sizeB) == FAILURE) {
+		    FREE (arenaHdrsBuf);
+		    FREE (externs);
+		    return FAILURE;
+		}
 /*SayDebug ("[%2d] Read [%#x..%#x)\n", i+1, ap->nextw,*/
 /*(Addr_t)(ap->nextw)+arenaHdrs[i]->info.o.sizeB);*/
 	    }
-- 
2.43.0

