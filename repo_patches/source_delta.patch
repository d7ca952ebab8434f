From 92886f6db440e41dddce28acb33a85ea6c59676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 01/18] fix: ffi_call must not overwrite the caller's argument
 vector

ffi_call replaced avalue[i] with the address of an alloca'd copy for every
large structure.  The copy dies with the call, so a caller that reuses its
vector passes a dangling pointer next time.  The copy is redundant: ffi_call_int
copies memory-class arguments to the outgoing stack, and ffi_call_efi64 makes
its own copies.
---
 src/x86/ffi64.c | 18 ------------------
 1 file changed, 18 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 1d1b88e..e805998 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -685,24 +685,6 @@ ffi_call_efi64(ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue);
 void
 ffi_call (ffi_cif *cif, void (*fn)(void), void *rvalue, void **avalue)
 {
-  ffi_type **arg_types = cif->arg_types;
-  int i, nargs = cif->nargs;
-  const int max_reg_struct_size = cif->abi == FFI_GNUW64 ? 8 : 16;
-
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
-  for (i = 0; i < nargs; i++)
-    {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > max_reg_struct_size)
-        {
-          char *argcopy = alloca (size);
-          memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
-        }
-    }
-
 #ifndef __ILP32__
   if (cif->abi == FFI_EFI64 || cif->abi == FFI_GNUW64)
     {
-- 
2.43.0


From 7c6453af65f4657dac4ef0f8bfe99ebe3fe5a38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 02/18] fix: win64 by-reference arguments are passed by value

Only structures larger than 8 bytes were copied; structures of 3, 5, 6 or 7
bytes, long double and large complex arguments were passed as the address of
the caller's own object, which the callee is free to modify.  The copies were
also stored into the caller's avalue array, where they dangle after the call.
---
 src/x86/ffiw64.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/x86/ffiw64.c b/src/x86/ffiw64.c
index 2be8b99..258db6c 100644
--- a/src/x86/ffiw64.c
+++ b/src/x86/ffiw64.c
@@ -121,6 +121,7 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 {
   int i, j, n, flags;
   UINT64 *stack;
+  void **avalue_copy;
   size_t rsize;
   struct win64_call_frame *frame;
   ffi_type **arg_types = cif->arg_types;
@@ -128,19 +129,22 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
 
   FFI_ASSERT(cif->abi == FFI_GNUW64 || cif->abi == FFI_WIN64);
 
-  /* If we have any large structure arguments, make a copy so we are passing
-     by value.  */
+  /* Arguments that do not fit a slot are passed by reference.  Pass the
+     address of a copy, so that the callee can not modify the caller's object,
+     and leave the caller's avalue array alone.  */
+  avalue_copy = alloca (nargs * sizeof (void *));
   for (i = 0; i < nargs; i++)
     {
-      ffi_type *at = arg_types[i];
-      int size = at->size;
-      if (at->type == FFI_TYPE_STRUCT && size > 8)
+      size_t size = arg_types[i]->size;
+      avalue_copy[i] = avalue[i];
+      if (size != 1 && size != 2 && size != 4 && size != 8)
         {
           char *argcopy = alloca (size);
           memcpy (argcopy, avalue[i], size);
-          avalue[i] = argcopy;
+          avalue_copy[i] = argcopy;
         }
     }
+  avalue = avalue_copy;
 
   flags = cif->flags;
   rsize = 0;
-- 
2.43.0


From 0c5a593c4828cf658501eb92aaf5d291b23bc660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 03/18] fix: raw closures must find their closure, not their
 code

ffi_prep_raw_closure_loc handed codeloc to the translation hub as the closure.
With static trampolines codeloc is the address of the trampoline, so the hub
fetched fun and user_data from trampoline text and jumped to garbage.
---
 src/java_raw_api.c | 2 +-
 src/raw_api.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/java_raw_api.c b/src/java_raw_api.c
index 114d3e4..1c8f26b 100644
--- a/src/java_raw_api.c
+++ b/src/java_raw_api.c
@@ -345,7 +345,7 @@ ffi_prep_java_raw_closure_loc (ffi_java_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_java_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
diff --git a/src/raw_api.c b/src/raw_api.c
index be15611..43cf975 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -233,7 +233,7 @@ ffi_prep_raw_closure_loc (ffi_raw_closure* cl,
   status = ffi_prep_closure_loc ((ffi_closure*) cl,
 				 cif,
 				 &ffi_translate_args,
-				 codeloc,
+				 cl,
 				 codeloc);
   if (status == FFI_OK)
     {
-- 
2.43.0


From 2468b43621424d4a834ebd13a69138589c25e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 04/18] fix: return struct { long double } in %st0 on x86-64

Its eightbytes are classified X87 and X87UP, so the psABI returns it on the
x87 stack.  It was treated as if returned in %rax:%rdx.
---
 src/x86/ffi64.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index e805998..c16ecfd 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -469,6 +469,11 @@ ffi_prep_cif_machdep (ffi_cif *cif)
 	  /* We don't have to do anything in asm for the return.  */
 	  flags = UNIX64_RET_VOID | UNIX64_FLAG_RET_IN_MEM;
 	}
+#if FFI_TYPE_LONGDOUBLE != FFI_TYPE_DOUBLE
+      else if (classes[0] == X86_64_X87_CLASS)
+	/* A structure holding just a long double is returned in %st0.  */
+	flags = UNIX64_RET_X87;
+#endif
       else
 	{
 	  _Bool sse0 = SSE_CLASS_P (classes[0]);
-- 
2.43.0


From 0ea06e938113815029674d7bf0dc08ac202926f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 05/18] fix: pop discarded long double results off the x87
 stack

With a NULL rvalue the result was left in %st0; eight such calls overflow the
x87 stack and every later long double computation yields NaN.
---
 src/x86/ffi64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index c16ecfd..5b0419f 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -579,11 +579,15 @@ ffi_call_int (ffi_cif *cif, void (*fn)(void), void *rvalue,
   FFI_ASSERT (cif->abi == FFI_UNIX64);
 
   /* If the return value is a struct and we don't have a return value
-     address then we need to make one.  Otherwise we can ignore it.  */
+     address then we need to make one.  A value returned on the x87 stack
+     must be popped, so it needs an address too.  Otherwise we can ignore
+     it.  */
   flags = cif->flags;
   if (rvalue == NULL)
     {
-      if (flags & UNIX64_FLAG_RET_IN_MEM)
+      if ((flags & UNIX64_FLAG_RET_IN_MEM)
+	  || (flags & 0xff) == UNIX64_RET_X87
+	  || (flags & 0xff) == UNIX64_RET_X87_2)
 	rvalue = alloca (cif->rtype->size);
       else
 	flags = UNIX64_RET_VOID;
-- 
2.43.0


From 53aab0822ec00910338dec038b2df5049c937318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 06/18] fix: a malformed aggregate stays malformed

When initialize_aggregate failed on a later element it left the partial size in
the type, so the next ffi_prep_cif took the type for initialized and accepted
it.
---
 src/prep_cif.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/prep_cif.c b/src/prep_cif.c
index 47c9259..d219e67 100644
--- a/src/prep_cif.c
+++ b/src/prep_cif.c
@@ -54,7 +54,12 @@ static ffi_status initialize_aggregate(ffi_type *arg, size_t *offsets)
     {
       if (UNLIKELY(((*ptr)->size == 0)
 		    && (initialize_aggregate((*ptr), NULL) != FFI_OK)))
-	return FFI_BAD_TYPEDEF;
+	{
+	  /* Do not leave a partial size behind: it would make this type
+	     look initialized the next time it is used.  */
+	  arg->size = 0;
+	  return FFI_BAD_TYPEDEF;
+	}
 
       /* Perform a sanity check on the argument type */
       FFI_ASSERT_VALID_TYPE(*ptr);
-- 
2.43.0


From 35919842e3257e02ea3c667c4ac4476715f4ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 07/18] fix: ffi_raw_size counts complex arguments as the
 pointer slot they use

Both conversions pass complex arguments by reference in one slot, but
ffi_raw_size counted the size of the object.
---
 src/raw_api.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raw_api.c b/src/raw_api.c
index 43cf975..6b99589 100644
--- a/src/raw_api.c
+++ b/src/raw_api.c
@@ -46,6 +46,9 @@ ffi_raw_size (ffi_cif *cif)
 	result += FFI_ALIGN (sizeof (void*), FFI_SIZEOF_ARG);
       else
 #endif
+      if ((*at)->type == FFI_TYPE_COMPLEX)
+	result += FFI_ALIGN (sizeof (void*), FFI_SIZEOF_ARG);
+      else
 	result += FFI_ALIGN ((*at)->size, FFI_SIZEOF_ARG);
     }
 
-- 
2.43.0


From 1c9d28ca349ecc961b929bb6760c0dbaadd742de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 08/18] fix: do not leak descriptors of executable mappings
 across exec

The descriptor of the libffi binary, kept open for the life of the process, and
the mkstemp fallback of the temporary executable file were inherited by every
program the process executes.
---
 src/closures.c | 4 ++++
 src/tramp.c    | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index 02cf78f..2d15522 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -607,6 +607,10 @@ open_temp_exec_file_name (char *name, int flags MAYBE_UNUSED)
   fd = mkostemp (name, flags);
 #else
   fd = mkstemp (name);
+# ifdef FD_CLOEXEC
+  if (fd != -1)
+    fcntl (fd, F_SETFD, FD_CLOEXEC);
+# endif
 #endif
 
   if (fd != -1)
diff --git a/src/tramp.c b/src/tramp.c
index 8ec0848..31180ef 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -236,7 +236,7 @@ ffi_tramp_get_libffi (void)
   if (!found)
     return 0;
 
-  tramp_globals.fd = open (file, O_RDONLY);
+  tramp_globals.fd = open (file, O_RDONLY | O_CLOEXEC);
   if (tramp_globals.fd == -1)
     return 0;
 
-- 
2.43.0


From 0cdee31bb8f55a4d838d58f4902f8116210d9d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:20 +0000
Subject: [PATCH 09/18] fix: look up closure segments under the allocator's
 lock

ffi_closure_alloc, ffi_data_to_code_pointer and ffi_tramp_is_present walked the
segment list while other threads were growing it.  They could miss the segment
of a live closure (and then treat a closure with a static trampoline as having
none) or translate with the offset of another segment.
---
 src/closures.c | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 2d15522..37d3d50 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -988,13 +988,34 @@ segment_holding_code (mstate m, char* addr)
 
 #endif /* !(defined(_WIN32) || defined(__OS2__)) || defined (__CYGWIN__) || defined(__INTERIX) */
 
+/* Find the segment holding the data address PTR and store PTR's
+   corresponding executable address in *CODE.  Returns zero if there is
+   no such segment.  Segments come and go as other threads allocate, and
+   the records are reused, so both steps must be done under the lock of
+   the allocator.  */
+static int
+segment_data_to_code (void *ptr, void **code)
+{
+  msegmentptr seg;
+
+  if (PREACTION (gm))
+    return 0;
+
+  seg = segment_holding (gm, ptr);
+  if (seg)
+    *code = add_segment_exec_offset (ptr, seg);
+
+  POSTACTION (gm);
+  return seg != NULL;
+}
+
 /* Allocate a chunk of memory with the given size.  Returns a pointer
    to the writable address, and sets *CODE to the executable
    corresponding virtual address.  */
 void *
 ffi_closure_alloc (size_t size, void **code)
 {
-  void *ptr, *ftramp;
+  void *ptr, *exec, *ftramp;
 
   if (!code)
     return NULL;
@@ -1003,9 +1024,10 @@ ffi_closure_alloc (size_t size, void **code)
 
   if (ptr)
     {
-      msegmentptr seg = segment_holding (gm, ptr);
+      exec = ptr;
+      segment_data_to_code (ptr, &exec);
 
-      *code = FFI_FN (add_segment_exec_offset (ptr, seg));
+      *code = FFI_FN (exec);
       if (!ffi_tramp_is_supported ())
         return ptr;
 
@@ -1025,15 +1047,15 @@ ffi_closure_alloc (size_t size, void **code)
 void *
 ffi_data_to_code_pointer (void *data)
 {
-  msegmentptr seg = segment_holding (gm, data);
+  void *exec;
   /* We expect closures to be allocated with ffi_closure_alloc(), in
-     which case seg will be non-NULL.  However, some users take on the
+     which case there will be a segment.  However, some users take on the
      burden of managing this memory themselves, in which case this
      we'll just return data. */
-  if (seg)
+  if (segment_data_to_code (data, &exec))
     {
       if (!ffi_tramp_is_supported ())
-        return add_segment_exec_offset (data, seg);
+        return exec;
       return ffi_tramp_get_addr (((ffi_closure *) data)->ftramp);
     }
   else
@@ -1062,8 +1084,8 @@ ffi_closure_free (void *ptr)
 int
 ffi_tramp_is_present (void *ptr)
 {
-  msegmentptr seg = segment_holding (gm, ptr);
-  return seg != NULL && ffi_tramp_is_supported();
+  void *exec;
+  return segment_data_to_code (ptr, &exec) && ffi_tramp_is_supported();
 }
 
 # else /* ! FFI_MMAP_EXEC_WRIT */
-- 
2.43.0


From 0a3c36245dde3fc11fa74d21073f083db0a3cf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 10/18] fix: closures must not consume registers for padding
 eightbytes

An eightbyte of class NO_CLASS takes no register when an aggregate is
passed, but ffi_closure_unix64_inner consumed a general register for it, so
that every later integer argument was fetched from the wrong place.
---
 src/x86/ffi64.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/x86/ffi64.c b/src/x86/ffi64.c
index 5b0419f..9f1e5b7 100644
--- a/src/x86/ffi64.c
+++ b/src/x86/ffi64.c
@@ -864,12 +864,12 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	  if (SSE_CLASS_P (classes[0]))
 	    {
 	      avalue[i] = &reg_args->sse[ssecount];
-	      ssecount += n;
+	      ssecount += nsse;
 	    }
 	  else
 	    {
 	      avalue[i] = &reg_args->gpr[gprcount];
-	      gprcount += n;
+	      gprcount += ngpr;
 	    }
 	}
       /* Otherwise, allocate space to make them consecutive.  */
@@ -883,7 +883,7 @@ ffi_closure_unix64_inner(ffi_cif *cif,
 	    {
 	      if (SSE_CLASS_P (classes[j]))
 		memcpy (a, &reg_args->sse[ssecount++], 8);
-	      else
+	      else if (classes[j] != X86_64_NO_CLASS)
 		memcpy (a, &reg_args->gpr[gprcount++], 8);
 	    }
 	}
-- 
2.43.0


From 80305a11871b2b2a00f1254759750c387e5f3290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 11/18] fix: win64.S: emit .eh_frame outside Windows

With only .debug_frame recorded, exceptions and other run time unwinding
could not pass through calls and closures of the Windows x64 ABIs on
systems that unwind with .eh_frame.
---
 src/x86/win64.S | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/x86/win64.S b/src/x86/win64.S
index 58ec6a1..55a5882 100644
--- a/src/x86/win64.S
+++ b/src/x86/win64.S
@@ -6,7 +6,11 @@
 #include "asmnames.h"
 
 #if defined(HAVE_AS_CFI_PSEUDO_OP)
+# ifdef X86_WIN64
         .cfi_sections   .debug_frame
+# else
+        .cfi_sections   .eh_frame, .debug_frame
+# endif
 #endif
 
 #ifdef X86_WIN64
-- 
2.43.0


From 6161f8a4d229ca85cccaa74a0ee0b2929d649cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:21 +0000
Subject: [PATCH 12/18] fix: dlmalloc: complete the lazy initialisation under
 its lock

init_mparams() set page_size, the value other threads look at without the
lock, before granularity and outside the lock.  A thread that allocated its
first closure while another one was initialising saw a granularity of zero
and got NULL.
---
 src/dlmalloc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dlmalloc.c b/src/dlmalloc.c
index 17193a0..c996449 100644
--- a/src/dlmalloc.c
+++ b/src/dlmalloc.c
@@ -2209,7 +2209,7 @@ static int has_segment_link(mstate m, msegmentptr ss) {
 #if USE_LOCKS
 
 /* Ensure locks are initialized */
-#define GLOBALLY_INITIALIZE() (mparams.page_size == 0 && init_mparams())
+#define GLOBALLY_INITIALIZE() init_mparams()
 
 #define PREACTION(M)  ((GLOBALLY_INITIALIZE() || use_lock(M))? ACQUIRE_LOCK(&(M)->mutex) : 0)
 #define POSTACTION(M) { if (use_lock(M)) RELEASE_LOCK(&(M)->mutex); }
@@ -2517,6 +2517,9 @@ static size_t traverse_and_check(mstate m);
 
 /* Initialize mparams */
 static int init_mparams(void) {
+  /* The whole initialization is done under the lock, so that no other
+     thread can see some of the parameters set and others not.  */
+  ACQUIRE_MAGIC_INIT_LOCK();
   if (mparams.page_size == 0) {
     size_t s;
 
@@ -2550,14 +2553,12 @@ static int init_mparams(void) {
 #else /* (FOOTERS && !INSECURE) */
     s = (size_t)0x58585858U;
 #endif /* (FOOTERS && !INSECURE) */
-    ACQUIRE_MAGIC_INIT_LOCK();
     if (mparams.magic == 0) {
       mparams.magic = s;
       /* Set up lock for main malloc area */
       INITIAL_LOCK(&gm->mutex);
       gm->mflags = mparams.default_mflags;
     }
-    RELEASE_MAGIC_INIT_LOCK();
 
 #if !defined(WIN32) && !defined(__OS2__)
     mparams.page_size = malloc_getpagesize;
@@ -2593,6 +2594,7 @@ static int init_mparams(void) {
         ((mparams.page_size   & (mparams.page_size-SIZE_T_ONE))   != 0))
       ABORT;
   }
+  RELEASE_MAGIC_INIT_LOCK();
   return 0;
 }
 
-- 
2.43.0


From bdfdfbaca260af01269b8b1bf635b465303f0333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 13/18] fix: open the /proc files close-on-exec

The streams used to read /proc/mounts, /proc/self/status and
/proc/<pid>/maps were inherited by a program another thread executes
while they are open.
---
 src/closures.c | 4 ++--
 src/tramp.c    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/closures.c b/src/closures.c
index 37d3d50..b98f1ad 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -453,7 +453,7 @@ selinux_enabled_check (void)
   if (statfs ("/selinux", &sfs) >= 0
       && (unsigned int) sfs.f_type == 0xf97cff8cU)
     return 1;
-  f = fopen ("/proc/mounts", "r");
+  f = fopen ("/proc/mounts", "re");
   if (f == NULL)
     return 0;
   while (getline (&buf, &len, f) >= 0)
@@ -502,7 +502,7 @@ pax_flags_check (void)
   size_t len = 0;
   FILE *f;
   int ret;
-  f = fopen ("/proc/self/status", "r");
+  f = fopen ("/proc/self/status", "re");
   if (f == NULL)
     return 0;
   ret = 0;
diff --git a/src/tramp.c b/src/tramp.c
index 31180ef..6591f26 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -211,7 +211,7 @@ ffi_tramp_get_libffi (void)
   int nfields, found;
 
   snprintf (file, PATH_MAX, "/proc/%d/maps", getpid());
-  fp = fopen (file, "r");
+  fp = fopen (file, "re");
   if (fp == NULL)
     return 0;
 
-- 
2.43.0


From 91cf25475d1f407b80e914a085f4c92bf3126e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:33 +0000
Subject: [PATCH 14/18] fix: do not keep the mounts file open after the
 trampoline file was found

When the file for static trampolines came from the list of mounts, its
stream stayed open for the life of the process, and a later search for
executable memory went on in the middle of it.
---
 include/ffi_common.h |  3 +++
 src/closures.c       | 14 +++++++++++---
 src/tramp.c          |  1 +
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/ffi_common.h b/include/ffi_common.h
index e4ed228..a19a93b 100644
--- a/include/ffi_common.h
+++ b/include/ffi_common.h
@@ -151,6 +151,9 @@ int ffi_tramp_is_present (void *closure) FFI_HIDDEN;
    writable and executable filesystem. */
 int open_temp_exec_file(void) FFI_HIDDEN;
 
+/* Release what open_temp_exec_file keeps open for a further call. */
+void open_temp_exec_file_done(void) FFI_HIDDEN;
+
 /* Extended cif, used in callback from assembly routine */
 typedef struct
 {
diff --git a/src/closures.c b/src/closures.c
index b98f1ad..a53f126 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -791,6 +791,15 @@ open_temp_exec_file (void)
   return fd;
 }
 
+/* No more files are needed from the current location: reset a multi-call
+   func, so that it does not hold on to the mounts file.  */
+void
+open_temp_exec_file_done (void)
+{
+  if (open_temp_exec_file_opts[open_temp_exec_file_opts_idx].repeat)
+    open_temp_exec_file_opts_next ();
+}
+
 /* We need to allocate space in a file that will be backing a writable
    mapping.  Several problems exist with the usual approaches:
    - fallocate() is Linux-only
@@ -866,9 +875,8 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
 
       return MFAIL;
     }
-  else if (!offset
-	   && open_temp_exec_file_opts[open_temp_exec_file_opts_idx].repeat)
-    open_temp_exec_file_opts_next ();
+  else if (!offset)
+    open_temp_exec_file_done ();
 
   start = mmap (start, length, prot, flags, execfd, offset);
 
diff --git a/src/tramp.c b/src/tramp.c
index 6591f26..87eb5b3 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -264,6 +264,7 @@ ffi_tramp_get_temp_file (void)
 
   tramp_globals.offset = 0;
   tramp_globals.fd = open_temp_exec_file ();
+  open_temp_exec_file_done ();
 
   /*
    * Write the trampoline code table into the temporary file and allocate a
-- 
2.43.0


From 8b9ce749c9f0486ca687d0feda5abf8143a08507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 15/18] fix: closures: allocate file space where it is going to
 be mapped

When mapping a chunk of the backing file failed, the file was cut back
but the file position was not, so the space for the next chunk was
allocated beyond the range that is then mapped: that range stayed a hole,
and touching it raises SIGBUS when the filesystem is full.
---
 src/closures.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index a53f126..d722db1 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -851,7 +851,10 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
 
   offset = execsize;
 
-  if (allocate_space (execfd, length))
+  /* A failed attempt may have left the file position beyond OFFSET, and
+     the space must be allocated where it is going to be mapped.  */
+  if (lseek (execfd, offset, SEEK_SET) != offset
+      || allocate_space (execfd, length))
     return MFAIL;
 
   flags &= ~(MAP_PRIVATE | MAP_ANONYMOUS);
-- 
2.43.0


From be04b538a493699fc8be9ac6e90ad022d0105950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:39 +0000
Subject: [PATCH 16/18] fix: closures: try the next location when the first has
 no space

A new backing file that cannot hold the first chunk was kept, and no
other location was ever tried.
---
 src/closures.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/closures.c b/src/closures.c
index d722db1..843a0e7 100644
--- a/src/closures.c
+++ b/src/closures.c
@@ -855,7 +855,14 @@ dlmmap_locked (void *start, size_t length, int prot, int flags, off_t offset)
      the space must be allocated where it is going to be mapped.  */
   if (lseek (execfd, offset, SEEK_SET) != offset
       || allocate_space (execfd, length))
-    return MFAIL;
+    {
+      if (!offset)
+	{
+	  close (execfd);
+	  goto retry_open;
+	}
+      return MFAIL;
+    }
 
   flags &= ~(MAP_PRIVATE | MAP_ANONYMOUS);
   flags |= MAP_SHARED;
-- 
2.43.0


From b4f91539d7f5c355cf7805a754298a146f77d882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:20 +0000
Subject: [PATCH 17/18] fix: do not overflow the file name buffer when reading
 /proc/<pid>/maps

A mapped file's name may be longer than PATH_MAX; a line of up to
PATH_MAX+99 characters is read and the name was scanned into PATH_MAX
bytes.
---
 src/tramp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tramp.c b/src/tramp.c
index 87eb5b3..1019453 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -205,7 +205,7 @@ static int
 ffi_tramp_get_libffi (void)
 {
   FILE *fp;
-  char file[PATH_MAX], line[PATH_MAX+100], perm[10], dev[10];
+  char file[PATH_MAX+100], line[PATH_MAX+100], perm[10], dev[10];
   unsigned long start, end, offset, inode;
   uintptr_t addr = (uintptr_t) tramp_globals.text;
   int nfields, found;
-- 
2.43.0


From 7cfd73f173183360e310388ac5fc2399ad577acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:20 +0000
Subject: [PATCH 18/18] fix: check that the file found for static trampolines
 holds the code table

The name in /proc/<pid>/maps may belong to another file by now (the library
was replaced or removed) or may have been cut at a space.  Mapping that
file executable made every closure run whatever it holds.
---
 src/tramp.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/tramp.c b/src/tramp.c
index 1019453..1cc702c 100644
--- a/src/tramp.c
+++ b/src/tramp.c
@@ -201,6 +201,27 @@ static int tramp_table_alloc (void);
 
 #if defined (__linux__) || defined (__CYGWIN__)
 
+/*
+ * The name found in /proc/<pid>/maps need not be that of the mapped file: that
+ * may have been replaced or removed since, or its name may contain spaces. So,
+ * make sure that the file opened contains the trampoline code table.
+ */
+static int
+ffi_tramp_check_file (void)
+{
+  char buf[512];
+  size_t done;
+
+  for (done = 0; done < tramp_globals.map_size; done += sizeof (buf))
+    {
+      if (pread (tramp_globals.fd, buf, sizeof (buf),
+		 tramp_globals.offset + done) != sizeof (buf)
+	  || memcmp (buf, (char *) tramp_globals.text + done, sizeof (buf)) != 0)
+	return 0;
+    }
+  return 1;
+}
+
 static int
 ffi_tramp_get_libffi (void)
 {
@@ -244,7 +265,7 @@ ffi_tramp_get_libffi (void)
    * Allocate a trampoline table just to make sure that the trampoline code
    * table can be mapped.
    */
-  if (!tramp_table_alloc ())
+  if (!ffi_tramp_check_file () || !tramp_table_alloc ())
     {
       close (tramp_globals.fd);
       tramp_globals.fd = -1;
-- 
2.43.0

