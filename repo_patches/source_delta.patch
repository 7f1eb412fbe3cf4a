From 5bc188219a5ef0daadca0ef66579f6108407ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 01/65] fix: clp2/flp2 give wrong results for arguments above
 256

The shifts by 8, 16 and 32 were compiled out, since the preprocessor
conditions referred to the undefined macro SIZEOF_SIZE_TYPE instead of
SIZEOF_SIZE_T.
---
 src/utils/clp2.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/utils/clp2.c b/src/utils/clp2.c
index 7cbbacf..5093ff9 100644
--- a/src/utils/clp2.c
+++ b/src/utils/clp2.c
@@ -8,16 +8,16 @@ size_t clp2(size_t n)
   n |= n >> 1;
   n |= n >> 2;
   n |= n >> 4;
-#if SIZEOF_SIZE_TYPE > 1
+#if SIZEOF_SIZE_T > 1
   n |= n >> 8;
 #endif
-#if SIZEOF_SIZE_TYPE > 2
+#if SIZEOF_SIZE_T > 2
   n |= n >> 16;
 #endif
-#if SIZEOF_SIZE_TYPE > 4
+#if SIZEOF_SIZE_T > 4
   n |= n >> 32;
 #endif
-#if SIZEOF_SIZE_TYPE > 8
+#if SIZEOF_SIZE_T > 8
   n |= n >> 64;
 #endif
   return ++n;
@@ -30,16 +30,16 @@ size_t flp2(size_t n)
   n |= n >> 1;
   n |= n >> 2;
   n |= n >> 4;
-#if SIZEOF_SIZE_TYPE > 1
+#if SIZEOF_SIZE_T > 1
   n |= n >> 8;
 #endif
-#if SIZEOF_SIZE_TYPE > 2
+#if SIZEOF_SIZE_T > 2
   n |= n >> 16;
 #endif
-#if SIZEOF_SIZE_TYPE > 4
+#if SIZEOF_SIZE_T > 4
   n |= n >> 32;
 #endif
-#if SIZEOF_SIZE_TYPE > 8
+#if SIZEOF_SIZE_T > 8
   n |= n >> 64;
 #endif
   return n - (n >> 1);
-- 
2.43.0


From f305cbaaaf308d9d7132769d55595f4da2d76ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 02/65] fix: casting a number to bool wrote to the source
 instead of the destination

---
 src/dlite-type-cast.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index fc76355..fbe78c4 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -152,8 +152,8 @@ static int istrue(const void *src, DLiteType type, size_t size)
 #define toBool                                          \
   do {                                                  \
     switch (istrue(src, src_type, src_size)) {          \
-    case 0: *((bool *)src) = 0; return 0;               \
-    case 1: *((bool *)src) = 1; return 0;               \
+    case 0: *((bool *)dest) = 0; return 0;              \
+    case 1: *((bool *)dest) = 1; return 0;              \
     default: goto fail;                                 \
     }                                                   \
   } while (0)
-- 
2.43.0


From 634b20ae58425504230cfd8a7deffbac5ad65afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 03/65] fix: casting bool to a number read and wrote with
 swapped types

---
 src/dlite-type-cast.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index fbe78c4..7e57e88 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -229,32 +229,32 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       toBool;
     case dliteUInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((uint8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((uint16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((uint32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((uint64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((uint8_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
+      case 2: *((uint16_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 4: *((uint32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((uint64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
       default: goto fail;
       }
     case dliteInt:
       switch (dest_size) {
-      case 1: *((bool *)dest) = (*((int8_t *)src)) ? 1 : 0;  return 0;
-      case 2: *((bool *)dest) = (*((int16_t *)src)) ? 1 : 0; return 0;
-      case 4: *((bool *)dest) = (*((int32_t *)src)) ? 1 : 0; return 0;
-      case 8: *((bool *)dest) = (*((int64_t *)src)) ? 1 : 0; return 0;
+      case 1: *((int8_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
+      case 2: *((int16_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 4: *((int32_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
+      case 8: *((int64_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
       default: goto fail;
       }
     case dliteFloat:
       switch (dest_size) {
-      case 4: *((bool *)dest) = (*((float32_t *)src)) ? 1 : 0;   return 0;
-      case 8: *((bool *)dest) = (*((float64_t *)src)) ? 1 : 0;   return 0;
+      case 4: *((float32_t *)dest) = (*((bool *)src)) ? 1 : 0;   return 0;
+      case 8: *((float64_t *)dest) = (*((bool *)src)) ? 1 : 0;   return 0;
 #ifdef HAVE_FLOAT80
-      case 10: *((bool *)dest) = (*((float80_t *)src)) ? 1 : 0;  return 0;
+      case 10: *((float80_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
 #endif
 #ifdef HAVE_FLOAT96
-      case 12: *((bool *)dest) = (*((float96_t *)src)) ? 1 : 0;  return 0;
+      case 12: *((float96_t *)dest) = (*((bool *)src)) ? 1 : 0;  return 0;
 #endif
 #ifdef HAVE_FLOAT128
-      case 16: *((bool *)dest) = (*((float128_t *)src)) ? 1 : 0; return 0;
+      case 16: *((float128_t *)dest) = (*((bool *)src)) ? 1 : 0; return 0;
 #endif
       default: goto fail;
       }
-- 
2.43.0


From 566567d2b4505c0396f296d7e6ff977ee87ea8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 04/65] fix: casting string to bool wrote to the source instead
 of the destination

---
 src/dlite-type-cast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index 7e57e88..2bd6941 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -768,7 +768,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       memcpy(dest, p, strlen(p));
       return 0;
     case dliteBool:
-      *(bool *)src = (p && *p) ? 1 : 0;
+      *(bool *)dest = (p && *p) ? 1 : 0;
       return 0;
     case dliteUInt:
       switch (isnegative(src, src_type, src_size)) {
-- 
2.43.0


From fe14af19272274abc0e52fe227d9db84c320e529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:15 +0000
Subject: [PATCH 05/65] fix: casting a long string to blob overflowed, casting
 NULL string crashed

---
 src/dlite-type-cast.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dlite-type-cast.c b/src/dlite-type-cast.c
index 2bd6941..afbcf7b 100644
--- a/src/dlite-type-cast.c
+++ b/src/dlite-type-cast.c
@@ -765,7 +765,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
     switch (dest_type) {
     case dliteBlob:
       memset(dest, 0, dest_size);
-      memcpy(dest, p, strlen(p));
+      if (p) memcpy(dest, p, MIN(strlen(p), dest_size));
       return 0;
     case dliteBool:
       *(bool *)dest = (p && *p) ? 1 : 0;
@@ -788,6 +788,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       default: goto fail;
       }
     case dliteInt:
+      if (!p) goto fail;
       vi = strtoll(p, &endptr, 0);
       if (*endptr) return err(1, "cannot cast string \"%s\" to int", p);
       switch (dest_size) {
@@ -798,6 +799,7 @@ int dlite_type_copy_cast(void *dest, DLiteType dest_type, size_t dest_size,
       default: goto fail;
       }
     case dliteFloat:
+      if (!p) goto fail;
       vf = strtold(p, &endptr);
       if (*endptr) return err(1, "cannot cast string \"%s\" to float", p);
       switch (dest_size) {
-- 
2.43.0


From e2645a01e29e6d35cf4557b35ca3f5cac314beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 06/65] Add empty annotation macros for a deductive verifier

---
 src/utils/annotations.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)
 create mode 100644 src/utils/annotations.h

diff --git a/src/utils/annotations.h b/src/utils/annotations.h
new file mode 100644
index 0000000..9a1965c
--- /dev/null
+++ b/src/utils/annotations.h
@@ -0,0 +1,17 @@
+/* annotations.h -- hooks for loop annotations of the deductive verifier
+ *
+ * In an ordinary build the macros below expand to nothing.  A verifier
+ * that defines DLITE_LOOP_INVARIANT (and the others) before including
+ * this header gets the annotations; it is never defined by the build.
+ */
+#ifndef _ANNOTATIONS_H
+#define _ANNOTATIONS_H
+
+#ifndef DLITE_LOOP_INVARIANT
+# define DLITE_LOOP_ASSIGNS(...)    /* locations a loop may write */
+# define DLITE_LOOP_INVARIANT(...)  /* loop invariant */
+# define DLITE_LOOP_DECREASES(...)  /* termination measure */
+# define DLITE_GHOST(...)           /* specification-only statement */
+#endif
+
+#endif /* _ANNOTATIONS_H */
-- 
2.43.0


From c5a05e31f91d7c9330de77c45bd6e6aeb3c46be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 07/65] fix: array slices with negative indices, steps beyond
 +-2 or empty ranges

---
 src/dlite-arrays.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 3a9f105..ca0d9d8 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -205,7 +205,16 @@ int dlite_array_compare(const DLiteArray *a, const DLiteArray *b)
 }
 
 
-#define abs(x) (((x) > 0) ? (x) : -(x))
+/*
+  Help function for dlite_array_slice(): maps a (possible negative) start or
+  stop index to the range [0, len].
+ */
+static int normalise_index(int i, int len)
+{
+  if (i < 0) i += len;
+  if (i < 0) return 0;
+  return (i > len) ? len : i;
+}
 
 /*
   Returns a new array object representing a slice of `arr`.  `start`,
@@ -250,23 +259,28 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
 {
   int n, offset=0;
   DLiteArray *new;
+
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
+
   for (n = arr->ndims-1; n >= 0; n--) {
-    int s1, s2;
+    int s1, s2;  /* first and last index (last is inclusive) */
+    int len = (int)arr->shape[n];
     int d = (step) ? step[n] : 1;
-    if (d == 0) return err(1, "dim %d: slice step cannot be zero", n), NULL;
+    if (d == 0) {
+      dlite_array_free(new);
+      return err(1, "dim %d: slice step cannot be zero", n), NULL;
+    }
     if (d > 0) {
-      s1 = (start) ? start[n] % arr->shape[n] : 0;
-      s2 = (stop) ? stop[n] % arr->shape[n] - 1 : arr->shape[n] - 1;
+      s1 = (start) ? normalise_index(start[n], len) : 0;
+      s2 = (stop) ? normalise_index(stop[n], len) - 1 : len - 1;
+      new->shape[n] = (s2 >= s1) ? (s2 - s1) / d + 1 : 0;
     } else {
-      s1 = (start) ? start[n] % arr->shape[n] - 1 : arr->shape[n] - 1;
-      s2 = (stop) ? stop[n] % arr->shape[n] : 0;
+      s1 = (start) ? normalise_index(start[n], len) - 1 : len - 1;
+      s2 = (stop) ? normalise_index(stop[n], len) : 0;
+      new->shape[n] = (s1 >= s2) ? (s2 - s1) / d + 1 : 0;
     }
-    if (s1 < 0) s1 += arr->shape[n];
-    if (s2 < 0) s2 += arr->shape[n];
-    offset += s1 * arr->strides[n];
-    new->shape[n] = (abs(s2 - s1) + 1 + d/2) / abs(d);
+    if (new->shape[n]) offset += s1 * arr->strides[n];
     new->strides[n] *= d;
   }
   new->data = ((char *)arr->data) + offset;
-- 
2.43.0


From 9a80fa65aecec5d29764bd23622f6f8a309dce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 08/65] fix: slicing a transposed or sliced array used
 C-continuous strides

---
 src/dlite-arrays.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index ca0d9d8..80d3744 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -281,7 +281,7 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
       new->shape[n] = (s1 >= s2) ? (s2 - s1) / d + 1 : 0;
     }
     if (new->shape[n]) offset += s1 * arr->strides[n];
-    new->strides[n] *= d;
+    new->strides[n] = arr->strides[n] * d;
   }
   new->data = ((char *)arr->data) + offset;
   return new;
-- 
2.43.0


From 2ac1328a95e7c6e1963779e8407f0c6f9ec43fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:24 +0000
Subject: [PATCH 09/65] fix: contiguity check in dlite_type_ndcast() read
 beyond the dimensions

---
 src/dlite-type.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 39cb890..26ad127 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1488,11 +1488,8 @@ int dlite_type_ndcast(int ndims,
   if (samelayout) {
     /* -- check that source is contiguous */
     int size = src_size;
-    for (i=0; i<ndims; i++) {
-      int iscont=0;
-      for (j=0; j < src_dims[j]; j++)
-        if (src_strides[j] == size) { iscont = 1; break; }
-      if (!iscont) { samelayout = 0; break; }
+    for (i=ndims-1; i>=0; i--) {
+      if (src_strides[i] != size) { samelayout = 0; break; }
       size *= src_dims[i];
     }
   }
-- 
2.43.0


From 92bbf52ec047d99be233c4e43bdc602e521cea7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 10/65] fix: dlite_type_ndcast() accessed the first element of
 empty arrays

---
 src/dlite-type.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 26ad127..1912fb9 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1454,6 +1454,9 @@ int dlite_type_ndcast(int ndims,
     return err(dliteIndexError, "incompatible sizes of dimension %d for source (%lu) and dest (%lu)", i,
                (unsigned long)N, (unsigned long)n);
 
+  /* Nothing to copy */
+  if (N == 0) return 0;
+
   /* Default source strides */
   if (!src_strides) {
     size_t size = src_size;
-- 
2.43.0


From 632322a5b2ede5734ded11e75a90ca77e8cdc368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 11/65] Mark loops of dlite-arrays.c for the verifier

---
 src/dlite-arrays.c      | 27 ++++++++++++++++++++++-----
 src/utils/annotations.h | 23 ++++++++++++++---------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 80d3744..d1163da 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -8,6 +8,7 @@
 #endif
 
 #include "utils/err.h"
+#include "utils/annotations.h"
 #include "dlite.h"
 #include "dlite-macros.h"
 #include "dlite-arrays.h"
@@ -41,7 +42,11 @@ DLiteArray *dlite_array_create(void *data, DLiteType type, size_t size,
   arr->size = size;
   arr->ndims = ndims;
   memcpy(arr->shape, shape, ndims*sizeof(size_t));
-  for (i=ndims-1; i>=0; i--) {
+  DLITE_GHOST(array_create_init)
+  for (i=ndims-1; i>=0; i--)
+  DLITE_LOOP(array_create)
+  {
+    DLITE_GHOST(array_create)
     arr->strides[i] = size;
     size *= shape[i];
   }
@@ -102,7 +107,10 @@ size_t dlite_array_size(const DLiteArray *arr)
 int dlite_array_is_continuous(const DLiteArray *arr)
 {
   int n, size = arr->size;
-  for (n=arr->ndims-1; n >= 0; n--) {
+  for (n=arr->ndims-1; n >= 0; n--)
+  DLITE_LOOP(array_is_continuous)
+  {
+    DLITE_GHOST(array_is_continuous)
     if (arr->strides[n] != size) return 0;
     size *= arr->shape[n];
   }
@@ -116,7 +124,12 @@ int dlite_array_is_continuous(const DLiteArray *arr)
 void *dlite_array_index(const DLiteArray *arr, int *ind)
 {
   int i, offset=0;
-  for (i=0; i<arr->ndims; i++) offset += ind[i] * arr->strides[i];
+  for (i=0; i<arr->ndims; i++)
+  DLITE_LOOP(array_index)
+  {
+    DLITE_GHOST(array_index)
+    offset += ind[i] * arr->strides[i];
+  }
   return (char *)arr->data + offset;
 }
 
@@ -263,7 +276,9 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
 
-  for (n = arr->ndims-1; n >= 0; n--) {
+  for (n = arr->ndims-1; n >= 0; n--)
+  DLITE_LOOP(array_slice)
+  {
     int s1, s2;  /* first and last index (last is inclusive) */
     int len = (int)arr->shape[n];
     int d = (step) ? step[n] : 1;
@@ -321,7 +336,9 @@ DLiteArray *dlite_array_transpose(DLiteArray *arr)
   DLiteArray *new;
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
-  for (i=0; i < arr->ndims; i++) {
+  for (i=0; i < arr->ndims; i++)
+  DLITE_LOOP(array_transpose)
+  {
     int j = arr->ndims - 1 - i;
     new->shape[i] = arr->shape[j];
     new->strides[i] = arr->strides[j];
diff --git a/src/utils/annotations.h b/src/utils/annotations.h
index 9a1965c..cc7b336 100644
--- a/src/utils/annotations.h
+++ b/src/utils/annotations.h
@@ -1,17 +1,22 @@
-/* annotations.h -- hooks for loop annotations of the deductive verifier
+/* annotations.h -- hooks for a deductive program verifier
  *
- * In an ordinary build the macros below expand to nothing.  A verifier
- * that defines DLITE_LOOP_INVARIANT (and the others) before including
- * this header gets the annotations; it is never defined by the build.
+ * DLITE_LOOP(name) marks a loop that has a contract (invariant, frame and
+ * variant) and DLITE_GHOST(name) a place for specification-only statements.
+ * Both expand to nothing unless the verifier predefines DLITE_VERIFY and
+ * supplies a header "dlite-contracts.h" with one DLITE_LOOP_<name> or
+ * DLITE_GHOST_<name> macro for each hook.  DLITE_VERIFY is never defined by
+ * the build.
  */
 #ifndef _ANNOTATIONS_H
 #define _ANNOTATIONS_H
 
-#ifndef DLITE_LOOP_INVARIANT
-# define DLITE_LOOP_ASSIGNS(...)    /* locations a loop may write */
-# define DLITE_LOOP_INVARIANT(...)  /* loop invariant */
-# define DLITE_LOOP_DECREASES(...)  /* termination measure */
-# define DLITE_GHOST(...)           /* specification-only statement */
+#ifdef DLITE_VERIFY
+# include "dlite-contracts.h"
+# define DLITE_LOOP(name)  DLITE_LOOP_##name
+# define DLITE_GHOST(name) DLITE_GHOST_##name
+#else
+# define DLITE_LOOP(name)
+# define DLITE_GHOST(name)
 #endif
 
 #endif /* _ANNOTATIONS_H */
-- 
2.43.0


From d446f03a6c60aa5b680f2357f8efa1f3d66e0917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:58 +0000
Subject: [PATCH 12/65] Revert "Mark loops of dlite-arrays.c for the verifier"

This reverts commit 632322a5b2ede5734ded11e75a90ca77e8cdc368.
---
 src/dlite-arrays.c      | 27 +++++----------------------
 src/utils/annotations.h | 23 +++++++++--------------
 2 files changed, 14 insertions(+), 36 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index d1163da..80d3744 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -8,7 +8,6 @@
 #endif
 
 #include "utils/err.h"
-#include "utils/annotations.h"
 #include "dlite.h"
 #include "dlite-macros.h"
 #include "dlite-arrays.h"
@@ -42,11 +41,7 @@ DLiteArray *dlite_array_create(void *data, DLiteType type, size_t size,
   arr->size = size;
   arr->ndims = ndims;
   memcpy(arr->shape, shape, ndims*sizeof(size_t));
-  DLITE_GHOST(array_create_init)
-  for (i=ndims-1; i>=0; i--)
-  DLITE_LOOP(array_create)
-  {
-    DLITE_GHOST(array_create)
+  for (i=ndims-1; i>=0; i--) {
     arr->strides[i] = size;
     size *= shape[i];
   }
@@ -107,10 +102,7 @@ size_t dlite_array_size(const DLiteArray *arr)
 int dlite_array_is_continuous(const DLiteArray *arr)
 {
   int n, size = arr->size;
-  for (n=arr->ndims-1; n >= 0; n--)
-  DLITE_LOOP(array_is_continuous)
-  {
-    DLITE_GHOST(array_is_continuous)
+  for (n=arr->ndims-1; n >= 0; n--) {
     if (arr->strides[n] != size) return 0;
     size *= arr->shape[n];
   }
@@ -124,12 +116,7 @@ int dlite_array_is_continuous(const DLiteArray *arr)
 void *dlite_array_index(const DLiteArray *arr, int *ind)
 {
   int i, offset=0;
-  for (i=0; i<arr->ndims; i++)
-  DLITE_LOOP(array_index)
-  {
-    DLITE_GHOST(array_index)
-    offset += ind[i] * arr->strides[i];
-  }
+  for (i=0; i<arr->ndims; i++) offset += ind[i] * arr->strides[i];
   return (char *)arr->data + offset;
 }
 
@@ -276,9 +263,7 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
 
-  for (n = arr->ndims-1; n >= 0; n--)
-  DLITE_LOOP(array_slice)
-  {
+  for (n = arr->ndims-1; n >= 0; n--) {
     int s1, s2;  /* first and last index (last is inclusive) */
     int len = (int)arr->shape[n];
     int d = (step) ? step[n] : 1;
@@ -336,9 +321,7 @@ DLiteArray *dlite_array_transpose(DLiteArray *arr)
   DLiteArray *new;
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
-  for (i=0; i < arr->ndims; i++)
-  DLITE_LOOP(array_transpose)
-  {
+  for (i=0; i < arr->ndims; i++) {
     int j = arr->ndims - 1 - i;
     new->shape[i] = arr->shape[j];
     new->strides[i] = arr->strides[j];
diff --git a/src/utils/annotations.h b/src/utils/annotations.h
index cc7b336..9a1965c 100644
--- a/src/utils/annotations.h
+++ b/src/utils/annotations.h
@@ -1,22 +1,17 @@
-/* annotations.h -- hooks for a deductive program verifier
+/* annotations.h -- hooks for loop annotations of the deductive verifier
  *
- * DLITE_LOOP(name) marks a loop that has a contract (invariant, frame and
- * variant) and DLITE_GHOST(name) a place for specification-only statements.
- * Both expand to nothing unless the verifier predefines DLITE_VERIFY and
- * supplies a header "dlite-contracts.h" with one DLITE_LOOP_<name> or
- * DLITE_GHOST_<name> macro for each hook.  DLITE_VERIFY is never defined by
- * the build.
+ * In an ordinary build the macros below expand to nothing.  A verifier
+ * that defines DLITE_LOOP_INVARIANT (and the others) before including
+ * this header gets the annotations; it is never defined by the build.
  */
 #ifndef _ANNOTATIONS_H
 #define _ANNOTATIONS_H
 
-#ifdef DLITE_VERIFY
-# include "dlite-contracts.h"
-# define DLITE_LOOP(name)  DLITE_LOOP_##name
-# define DLITE_GHOST(name) DLITE_GHOST_##name
-#else
-# define DLITE_LOOP(name)
-# define DLITE_GHOST(name)
+#ifndef DLITE_LOOP_INVARIANT
+# define DLITE_LOOP_ASSIGNS(...)    /* locations a loop may write */
+# define DLITE_LOOP_INVARIANT(...)  /* loop invariant */
+# define DLITE_LOOP_DECREASES(...)  /* termination measure */
+# define DLITE_GHOST(...)           /* specification-only statement */
 #endif
 
 #endif /* _ANNOTATIONS_H */
-- 
2.43.0


From 8c83bb410f0fb2ac41bdac479f0f2876eabb2ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 13/65] Reapply "Mark loops of dlite-arrays.c for the verifier"

This reverts commit d446f03a6c60aa5b680f2357f8efa1f3d66e0917.
---
 src/dlite-arrays.c      | 27 ++++++++++++++++++++++-----
 src/utils/annotations.h | 23 ++++++++++++++---------
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index 80d3744..d1163da 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -8,6 +8,7 @@
 #endif
 
 #include "utils/err.h"
+#include "utils/annotations.h"
 #include "dlite.h"
 #include "dlite-macros.h"
 #include "dlite-arrays.h"
@@ -41,7 +42,11 @@ DLiteArray *dlite_array_create(void *data, DLiteType type, size_t size,
   arr->size = size;
   arr->ndims = ndims;
   memcpy(arr->shape, shape, ndims*sizeof(size_t));
-  for (i=ndims-1; i>=0; i--) {
+  DLITE_GHOST(array_create_init)
+  for (i=ndims-1; i>=0; i--)
+  DLITE_LOOP(array_create)
+  {
+    DLITE_GHOST(array_create)
     arr->strides[i] = size;
     size *= shape[i];
   }
@@ -102,7 +107,10 @@ size_t dlite_array_size(const DLiteArray *arr)
 int dlite_array_is_continuous(const DLiteArray *arr)
 {
   int n, size = arr->size;
-  for (n=arr->ndims-1; n >= 0; n--) {
+  for (n=arr->ndims-1; n >= 0; n--)
+  DLITE_LOOP(array_is_continuous)
+  {
+    DLITE_GHOST(array_is_continuous)
     if (arr->strides[n] != size) return 0;
     size *= arr->shape[n];
   }
@@ -116,7 +124,12 @@ int dlite_array_is_continuous(const DLiteArray *arr)
 void *dlite_array_index(const DLiteArray *arr, int *ind)
 {
   int i, offset=0;
-  for (i=0; i<arr->ndims; i++) offset += ind[i] * arr->strides[i];
+  for (i=0; i<arr->ndims; i++)
+  DLITE_LOOP(array_index)
+  {
+    DLITE_GHOST(array_index)
+    offset += ind[i] * arr->strides[i];
+  }
   return (char *)arr->data + offset;
 }
 
@@ -263,7 +276,9 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
 
-  for (n = arr->ndims-1; n >= 0; n--) {
+  for (n = arr->ndims-1; n >= 0; n--)
+  DLITE_LOOP(array_slice)
+  {
     int s1, s2;  /* first and last index (last is inclusive) */
     int len = (int)arr->shape[n];
     int d = (step) ? step[n] : 1;
@@ -321,7 +336,9 @@ DLiteArray *dlite_array_transpose(DLiteArray *arr)
   DLiteArray *new;
   if (!(new = dlite_array_create(arr->data, arr->type, arr->size,
 				 arr->ndims, arr->shape))) return NULL;
-  for (i=0; i < arr->ndims; i++) {
+  for (i=0; i < arr->ndims; i++)
+  DLITE_LOOP(array_transpose)
+  {
     int j = arr->ndims - 1 - i;
     new->shape[i] = arr->shape[j];
     new->strides[i] = arr->strides[j];
diff --git a/src/utils/annotations.h b/src/utils/annotations.h
index 9a1965c..cc7b336 100644
--- a/src/utils/annotations.h
+++ b/src/utils/annotations.h
@@ -1,17 +1,22 @@
-/* annotations.h -- hooks for loop annotations of the deductive verifier
+/* annotations.h -- hooks for a deductive program verifier
  *
- * In an ordinary build the macros below expand to nothing.  A verifier
- * that defines DLITE_LOOP_INVARIANT (and the others) before including
- * this header gets the annotations; it is never defined by the build.
+ * DLITE_LOOP(name) marks a loop that has a contract (invariant, frame and
+ * variant) and DLITE_GHOST(name) a place for specification-only statements.
+ * Both expand to nothing unless the verifier predefines DLITE_VERIFY and
+ * supplies a header "dlite-contracts.h" with one DLITE_LOOP_<name> or
+ * DLITE_GHOST_<name> macro for each hook.  DLITE_VERIFY is never defined by
+ * the build.
  */
 #ifndef _ANNOTATIONS_H
 #define _ANNOTATIONS_H
 
-#ifndef DLITE_LOOP_INVARIANT
-# define DLITE_LOOP_ASSIGNS(...)    /* locations a loop may write */
-# define DLITE_LOOP_INVARIANT(...)  /* loop invariant */
-# define DLITE_LOOP_DECREASES(...)  /* termination measure */
-# define DLITE_GHOST(...)           /* specification-only statement */
+#ifdef DLITE_VERIFY
+# include "dlite-contracts.h"
+# define DLITE_LOOP(name)  DLITE_LOOP_##name
+# define DLITE_GHOST(name) DLITE_GHOST_##name
+#else
+# define DLITE_LOOP(name)
+# define DLITE_GHOST(name)
 #endif
 
 #endif /* _ANNOTATIONS_H */
-- 
2.43.0


From eb3d9b20bedeae1bd733333d1ba233310c7e0cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 14/65] fix: iterating over one-dimensional arrays visited no
 elements

---
 src/dlite-arrays.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index d1163da..a43cf68 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -182,7 +182,7 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
 {
   int n;
   DLiteArray *arr = (DLiteArray *)iter->arr;
-  if (iter->ind[0] < 0) return NULL;  /* check stop indicator */
+  if (iter->ind[0] < -1) return NULL;  /* check stop indicator */
   for (n=arr->ndims-1; n>=0; n--)
     if (arr->shape[n] <= 0) return NULL;  /* check that all dimensions has
 					    positive length */
@@ -191,7 +191,7 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
     iter->ind[n] = 0;
   }
   if (n < 0) {
-    iter->ind[0] = -1;  /* stop indicator */
+    iter->ind[0] = -2;  /* stop indicator (-1 is the initial value if ndims=1) */
     return NULL;
   }
   return dlite_array_index(arr, iter->ind);
-- 
2.43.0


From 6667417255aca6afc8ee14aa360bf6ebc785f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 15/65] Mark array iterator loops for the verifier

---
 src/dlite-arrays.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dlite-arrays.c b/src/dlite-arrays.c
index a43cf68..cde8866 100644
--- a/src/dlite-arrays.c
+++ b/src/dlite-arrays.c
@@ -42,7 +42,6 @@ DLiteArray *dlite_array_create(void *data, DLiteType type, size_t size,
   arr->size = size;
   arr->ndims = ndims;
   memcpy(arr->shape, shape, ndims*sizeof(size_t));
-  DLITE_GHOST(array_create_init)
   for (i=ndims-1; i>=0; i--)
   DLITE_LOOP(array_create)
   {
@@ -184,9 +183,12 @@ void *dlite_array_iter_next(DLiteArrayIter *iter)
   DLiteArray *arr = (DLiteArray *)iter->arr;
   if (iter->ind[0] < -1) return NULL;  /* check stop indicator */
   for (n=arr->ndims-1; n>=0; n--)
+  DLITE_LOOP(array_iter_empty)
     if (arr->shape[n] <= 0) return NULL;  /* check that all dimensions has
 					    positive length */
-  for (n=arr->ndims-1; n>=0; n--) {
+  for (n=arr->ndims-1; n>=0; n--)
+  DLITE_LOOP(array_iter_next)
+  {
     if (++iter->ind[n] < (int)arr->shape[n]) break;
     iter->ind[n] = 0;
   }
@@ -279,6 +281,7 @@ DLiteArray *dlite_array_slice(const DLiteArray *arr,
   for (n = arr->ndims-1; n >= 0; n--)
   DLITE_LOOP(array_slice)
   {
+    DLITE_GHOST(array_slice)
     int s1, s2;  /* first and last index (last is inclusive) */
     int len = (int)arr->shape[n];
     int d = (step) ? step[n] : 1;
-- 
2.43.0


From 1dc0959174bec15d20f7a35c0df4ae00bd21ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 16/65] fix: require exact type names

Type names were compared with the type table only up to the length of
the given name, such that e.g. "i", "boo" and "int6" were accepted
as int, bool and int64, respectively.
---
 src/dlite-type.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 1912fb9..c430d7c 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -494,7 +494,8 @@ int dlite_type_set_dtype_and_size(const char *typename,
 
   /* Check if typename is a fixed-sized type listed in the type table */
   for (i=0; type_table[i].typename; i++) {
-    if (strncmp(typename, type_table[i].typename, len) == 0) {
+    if (strlen(type_table[i].typename) == len &&
+        strncmp(typename, type_table[i].typename, len) == 0) {
       *dtype = type_table[i].dtype;
       *size = type_table[i].size;
       return 0;
-- 
2.43.0


From e2e2d76215d3fd16c1f07eb06871f8ffe254b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 17/65] fix: refuse to change frozen instances by casting or
 scanning

dlite_instance_assign_casted_property_by_index() and
dlite_instance_scan_property_by_index() changed property values of
immutable instances.
---
 src/dlite-entity.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 958978e..95b5d22 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1668,6 +1668,9 @@ int dlite_instance_scan_property_by_index(const char *src,
   if (i >= inst->meta->_nproperties)
     return errx(dliteIndexError, "index %d exceeds number of properties (%d) in %s",
                 (int)i, (int)inst->meta->_nproperties, inst->meta->uri);
+  if (inst->_flags & dliteImmutable)
+    return err(-1, "cannot scan property of immutable instance: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
   if (!(ptr = dlite_instance_get_property_by_index(inst, i))) return -1;
   if (!(p = dlite_meta_get_property_by_index(inst->meta, i))) return -1;
   shape = DLITE_PROP_DIMS(inst, i);
@@ -2099,9 +2102,14 @@ int dlite_instance_assign_casted_property_by_index(const DLiteInstance *inst,
                                                    const void *src,
                                                    DLiteTypeCast castfun)
 {
-  void *dest = dlite_instance_get_property_by_index(inst, i);
+  void *dest;
   DLiteProperty *p = inst->meta->_properties + i;
-  size_t *dims = DLITE_PROP_DIMS(inst, i);
+  size_t *dims;
+  if (inst->_flags & dliteImmutable)
+    return err(-1, "cannot set property on immutable instance: %s",
+               (inst->uri) ? inst->uri : inst->uuid);
+  dest = dlite_instance_get_property_by_index(inst, i);
+  dims = DLITE_PROP_DIMS(inst, i);
   return dlite_type_ndcast(p->ndims,
                            dest, p->type, p->size, dims, NULL,
                            src, type, size, shape, strides,
-- 
2.43.0


From 196ce06e6217f4e8595d894a131c5209a98b4847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 18/65] fix: copy instances with empty arrays

dlite_instance_copy() (and hence dlite_instance_snapshot()) aborted if
an array property was empty.
---
 src/dlite-entity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 95b5d22..4eb709a 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1922,7 +1922,12 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
   }
   for (i=0; i < inst->meta->_nproperties; i++) {
     void *src = dlite_instance_get_property_by_index(inst, i);
-    assert(src);
+    if (!src) {
+      /* an empty array has no data to copy */
+      if (inst->meta->_properties[i].ndims > 0 &&
+          !*(void **)DLITE_PROP(inst, i)) continue;
+      goto fail;
+    }
     if (dlite_instance_set_property_by_index(new, i, src)) goto fail;
   }
   return new;
-- 
2.43.0


From 7375af06a00953585e55aa0564f09cafa18c7b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 19/65] fix: do not crash when setting an unset reference
 property

---
 src/dlite-entity.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 4eb709a..e03a1f7 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1336,14 +1336,15 @@ int dlite_instance_set_property_by_index(DLiteInstance *inst, size_t i,
       size_t n;
       DLiteInstance **q = (DLiteInstance **)ptr;
       for (n=0; n<nmemb; n++, q++) {
-        const char *ref = (*q)->meta->uri;
-        if (strcmp(ref, p->ref))
+        const char *ref = (*q) ? (*q)->meta->uri : NULL;
+        if (ref && strcmp(ref, p->ref))
           return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
                      p->ref, ref);
       }
     } else {
-      const char *ref = (*(DLiteInstance **)ptr)->meta->uri;
-      if (strcmp(ref, p->ref))
+      const DLiteInstance *q = *(DLiteInstance **)ptr;
+      const char *ref = (q) ? q->meta->uri : NULL;
+      if (ref && strcmp(ref, p->ref))
         return err(dliteValueError, "Invalid reference. Expected %s, but got %s",
                    p->ref, ref);
     }
-- 
2.43.0


From 7540774d5b733136a41ced403cd7cfcdec2f6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:59 +0000
Subject: [PATCH 20/65] fix: let copies of instances hold their own references

dlite_instance_copy() copied properties of type ref without increasing
the reference count of the instances they refer to, while freeing either
of the instances decreases it.
---
 src/dlite-entity.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index e03a1f7..48b6fec 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1930,6 +1930,17 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
       goto fail;
     }
     if (dlite_instance_set_property_by_index(new, i, src)) goto fail;
+
+    /* the copy holds its own references to referred instances */
+    if (inst->meta->_properties[i].type == dliteRef) {
+      DLiteProperty *p = inst->meta->_properties + i;
+      DLiteInstance **refs = src;
+      size_t n, nmemb=1;
+      int j;
+      for (j=0; j < p->ndims; j++) nmemb *= DLITE_PROP_DIM(inst, i, j);
+      for (n=0; n < nmemb; n++)
+        if (refs[n]) dlite_instance_incref(refs[n]);
+    }
   }
   return new;
  fail:
-- 
2.43.0


From 29fc591ac38276420c046c8e779654e752cff194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 21/65] fix: keep reference counts when instance creation is
 refused

When an instance with the requested id existed with other dimensions, the
reference count of its metadata was increased on every attempt.  If it
existed with other metadata it was returned as if it was of the requested
type.
---
 src/dlite-entity.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 48b6fec..13e17cd 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -428,12 +428,25 @@ static DLiteInstance *_instance_create(const DLiteMeta *meta,
     warn("trying to create new instance with id '%s' - creates a new "
         "reference instead (refcount=%d)", id, inst->_refcount);
 
+    /* Check that the existing instance has the same metadata. */
+    if (strcmp(inst->meta->uuid, meta->uuid)) {
+      errx(dliteInconsistentDataError, "cannot create instance with id '%s' "
+           "since it already exists with other metadata: %s", id,
+           inst->meta->uri);
+      dlite_instance_decref(inst);
+      return NULL;
+    }
+
     /* Check that `dims` corresponds to the dims of the existing instance. */
     for (i=0; i < meta->_ndimensions; i++) {
-      if (dims[i] != dlite_instance_get_dimension_size_by_index(inst, i))
-        FAILCODE3(dliteIndexError, "mismatch of dimension %d. Trying to create with size %d "
-              "but existing instance has size %d", (int)i, (int)dims[i],
-              (int)dlite_instance_get_dimension_size_by_index(inst, i));
+      size_t dim = dlite_instance_get_dimension_size_by_index(inst, i);
+      if (dims[i] != dim) {
+        errx(dliteIndexError, "mismatch of dimension %d. Trying to create with size %d "
+             "but existing instance has size %d", (int)i, (int)dims[i],
+             (int)dim);
+        dlite_instance_decref(inst);
+        return NULL;
+      }
     }
     return inst;
   }
-- 
2.43.0


From 928f9d7086db2ff69098b5606e106518aeca4889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:42 +0000
Subject: [PATCH 22/65] fix: do not free the parent when it is set anew

---
 src/dlite-entity.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 13e17cd..b011ec9 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -2449,17 +2449,17 @@ int dlite_instance_set_parent(DLiteInstance *inst, const DLiteInstance *parent)
   if (dlite_instance_get_hash(parent, hash, DLITE_HASH_SIZE))
     return err(-1, "Error calculating hash of parent instance \"%s\"",
                (parent->uri) ? parent->uri : parent->uuid);
-  if (p) {
-    if (p->parent) dlite_instance_decref((DLiteInstance *)p->parent);
-  } else {
+  if (!p) {
     if (!(p = calloc(1, sizeof(DLiteParent))))
       return err(-1, "Allocation failure");
     inst->_parent = p;
   }
+  /* increase before decreasing, in case the parent is set anew */
+  dlite_instance_incref((DLiteInstance *)parent);
+  if (p->parent) dlite_instance_decref((DLiteInstance *)p->parent);
   p->parent = parent;
   strncpy(p->uuid, parent->uuid, DLITE_UUID_LENGTH+1);
   memcpy(p->hash, hash, DLITE_HASH_SIZE);
-  dlite_instance_incref((DLiteInstance *)p->parent);
   return 0;
 }
 
-- 
2.43.0


From 3020eb154d9e8e05515d6fd45451913a6f79b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 23/65] fix: a failed creation must not remove another instance
 from the store

---
 src/dlite-entity.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index b011ec9..13158ef 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -143,6 +143,16 @@ static int _instance_store_add(const DLiteInstance *inst)
   return 0;
 }
 
+/* Returns non-zero if another instance than `inst` is in the global
+   instance store under the uuid of `inst`. */
+static int _instance_store_holds_other(const DLiteInstance *inst)
+{
+  instance_map_t *istore = _instance_store();
+  DLiteInstance **q;
+  assert(istore);
+  return (q = map_get(istore, inst->uuid)) && *q != inst;
+}
+
 /* Removes instance `uuid` from global instance store.  Returns non-zero
    on error.*/
 static int _instance_store_remove(const char *uuid)
@@ -577,8 +587,10 @@ static int dlite_instance_free(DLiteInstance *inst)
   /* Additional deinitialisation */
   if (meta->_deinit) meta->_deinit(inst);
 
-  /* Remove from instance cache */
-  stat = _instance_store_remove(inst->uuid);
+  /* Remove from instance cache, unless it holds another instance with
+     the same uuid (when the creation of `inst` failed) */
+  stat = (_instance_store_holds_other(inst)) ? 0 :
+    _instance_store_remove(inst->uuid);
 
   /* For transactions, decrease refcount of parent */
   if (inst->_parent) {
-- 
2.43.0


From 85fc11bd4712e0054c41aef7e6620b3d105eb91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 24/65] fix: make room for the terminating NUL of the uuid when
 loading metadata

---
 src/dlite-entity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 13158ef..ca82732 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -969,7 +969,7 @@ DLiteInstance *_instance_load_casted(const DLiteStorage *s, const char *id,
 
   /* ...otherwise try to load it from storage */
   if (!meta) {
-    char uuid[DLITE_UUID_LENGTH];
+    char uuid[DLITE_UUID_LENGTH+1];
     dlite_get_uuid(uuid, uri);
     meta = (DLiteMeta *)dlite_instance_load(s, uuid);
   }
-- 
2.43.0


From 146322f48a6700751300206e59179c332d2b40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 25/65] fix: copy dimensions, properties and relations
 completely

dlite_type_copy() crashed on a dimension without description, left the
reference of a property uninitialised and lost the datatype of a relation.
---
 src/dlite-type.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index c430d7c..4bf70cd 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -589,7 +589,7 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
       DLiteDimension *d=dest;
       const DLiteDimension *s=src;
       d->name = strdup(s->name);
-      d->description = strdup(s->description);
+      d->description = (s->description) ? strdup(s->description) : NULL;
     }
     break;
   case dliteProperty:
@@ -599,7 +599,7 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
       d->name = strdup(s->name);
       d->type = s->type;
       d->size = s->size;
-      if (s->ref) d->ref = strdup(s->ref);
+      d->ref = (s->ref) ? strdup(s->ref) : NULL;
       d->ndims = s->ndims;
       if (d->ndims) {
         int i;
@@ -621,6 +621,7 @@ void *dlite_type_copy(void *dest, const void *src, DLiteType dtype, size_t size)
       d->s = strdup(s->s);
       d->p = strdup(s->p);
       d->o = strdup(s->o);
+      d->d = (s->d) ? strdup(s->d) : NULL;
       d->id = (s->id) ? strdup(s->id) : NULL;
     }
     break;
-- 
2.43.0


From aa4a0f732f73808f57ed3801e202b23010f735af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 26/65] fix: check dimension indices against the number of
 dimensions

---
 src/dlite-entity.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index ca82732..1031463 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1462,7 +1462,7 @@ int dlite_instance_get_dimension_size(const DLiteInstance *inst,
   if (!inst->meta)
     return errx(dliteMissingMetadataError, "no metadata available");
   if ((i = dlite_meta_get_dimension_index(inst->meta, name)) < 0) return -1;
-  assert(i < (int)inst->meta->_nproperties);
+  assert(i < (int)inst->meta->_ndimensions);
   return dlite_instance_get_dimension_size_by_index(inst, i);
 }
 
@@ -1898,8 +1898,11 @@ int dlite_instance_set_dimension_size_by_index(DLiteInstance *inst,
                                                size_t i, size_t size)
 {
   size_t j;
-  int retval;
-  int *dims = malloc(inst->meta->_ndimensions * sizeof(int));
+  int retval, *dims;
+  if (i >= inst->meta->_ndimensions)
+    return errx(dliteIndexError, "no dimension with index %d in %s",
+                (int)i, inst->meta->uri);
+  dims = malloc(inst->meta->_ndimensions * sizeof(int));
   if (!dims) return err(dliteMemoryError, "allocation failure");
   for (j=0; j < inst->meta->_ndimensions; j++) dims[j] = -1;
   dims[i] = size;
-- 
2.43.0


From f095d813cbbd8e514f249fb5bfe9907bdd66ec29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:34 +0000
Subject: [PATCH 27/65] fix: refuse negative property dimensions

---
 src/dlite-entity.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 1031463..58675e8 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -404,10 +404,15 @@ static int _instance_propdims_eval(DLiteInstance *inst, const size_t *dims)
     DLiteProperty *p = meta->_properties + i;
     int j;
     char errmsg[256] = "";
-    for (j=0; j < p->ndims; j++)
-      propdims[n++] = infixcalc(p->shape[j], vars, meta->_ndimensions,
-                                errmsg, sizeof(errmsg));
-    if (errmsg[0]) FAILCODE1(dliteSyntaxError, "invalid property dimension expression: %s", errmsg);
+    for (j=0; j < p->ndims; j++) {
+      int dim = infixcalc(p->shape[j], vars, meta->_ndimensions,
+                          errmsg, sizeof(errmsg));
+      if (errmsg[0])
+        FAILCODE1(dliteSyntaxError, "invalid property dimension expression: %s", errmsg);
+      if (dim < 0)
+        FAILCODE2(dliteValueError, "negative property dimension: %s = %d", p->shape[j], dim);
+      propdims[n++] = dim;
+    }
   }
   assert(n == meta->_npropdims);
 
-- 
2.43.0


From 4e3d5565611731db2cde038a12548123981910bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 28/65] fix: copying arrays of strings must copy the strings,
 not their pointers

---
 src/dlite-type.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dlite-type.c b/src/dlite-type.c
index 4bf70cd..b5e0c2c 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -1483,6 +1483,7 @@ int dlite_type_ndcast(int ndims,
 
   /* -- check that source and dest have same layout */
   if (dest_type != src_type || dest_size != src_size) samelayout = 0;
+  if (dlite_type_is_allocated(src_type)) samelayout = 0;  /* needs deep copy */
   if (samelayout) {
     for (i=0; i<ndims; i++)
       if (dest_dims[i] != src_dims[i] || dest_strides[i] != src_strides[i]) {
-- 
2.43.0


From 7ae7763b3c8761a40a11a6298d7396add1539606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 29/65] fix: infixcalc() aborted on an unmatched end
 parenthesis

---
 src/utils/infixcalc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index a394f92..07a0de9 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -309,12 +309,13 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
         push(&ostack, token.u.op);
         break;
       case ')':
-        while ((op = pop(&ostack)) != '(') {
+        for (;;) {
           if (!ostack.len) {
             snprintf(err, errlen,
                      "missing start parenthesis in expression \"%s\"", expr);
             goto fail;
           }
+          if ((op = pop(&ostack)) == '(') break;
           if (eval(op, &vstack, err, errlen)) goto fail;
         }
         break;
-- 
2.43.0


From 59be6c02cac5cc9e00c873d5794dcd655349fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 30/65] fix: infixcalc() crashed on division by zero

---
 src/utils/infixcalc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index 07a0de9..cd23e28 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -254,6 +254,12 @@ static int eval(Operator op, Stack *vstack, char *err, size_t errlen)
   if (opinfo->nargs == 2) {
     int arg2 = pop(vstack);
     int arg1 = pop(vstack);
+    if ((op == '/' || op == '%') &&
+        (arg2 == 0 || (arg1 == INT_MIN && arg2 == -1))) {
+      snprintf(err, errlen, "%s for operator '%c'",
+               (arg2 == 0) ? "division by zero" : "overflow", op);
+      return -1;
+    }
     value = binary_eval(op, arg1, arg2);
   } else {
     snprintf(err, errlen, "%lu-ary operators are not implemented",
-- 
2.43.0


From f0b328014d01c52f72e40194aa83ea6445d48a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 31/65] fix: infixcalc() wrote the error message to NULL when
 err is NULL

---
 src/utils/infixcalc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index cd23e28..2bfa9f7 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -291,7 +291,8 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
   Operator op;
   int result=INT_MIN;
 
-  if (err && errlen) err[0] = '\0';
+  if (!err) errlen = 0;
+  if (errlen) err[0] = '\0';
   memset(&vstack, 0, sizeof(vstack));
   memset(&ostack, 0, sizeof(ostack));
 
-- 
2.43.0


From 00af25d595501fe9ad03f8462aa7cd10c91ba273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 32/65] fix: infixcalc() accepted operators in the wrong place

---
 src/utils/infixcalc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index 2bfa9f7..23b4d5b 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -290,6 +290,7 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
   TokenValue token;
   Operator op;
   int result=INT_MIN;
+  int isval=0;  /* whether the text parsed so far ends with an operand */
 
   if (!err) errlen = 0;
   if (errlen) err[0] = '\0';
@@ -305,6 +306,12 @@ int infixcalc(const char *expr, const InfixCalcVariable *vars, size_t nvars,
                (int)(p - expr), expr);
       goto fail;
     }
+    if (isval == (token.type == typeVal || token.u.op == '(')) {
+      snprintf(err, errlen, "missing %s at position %d in expression \"%s\"",
+               (isval) ? "operator" : "operand", (int)(p - expr), expr);
+      goto fail;
+    }
+    isval = (token.type == typeVal || token.u.op == ')');
     switch (token.type) {
     case typeVal:
       push(&vstack, token.u.val);
-- 
2.43.0


From e99b79a2ef0d59fcd631ac64fa212a429498f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:15 +0000
Subject: [PATCH 33/65] fix: infixcalc() silently truncated numbers larger than
 INT_MAX

---
 src/utils/infixcalc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/infixcalc.c b/src/utils/infixcalc.c
index 23b4d5b..46c503b 100644
--- a/src/utils/infixcalc.c
+++ b/src/utils/infixcalc.c
@@ -9,6 +9,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
+#include <limits.h>
 
 #include "infixcalc.h"
 
@@ -221,8 +222,10 @@ static int parse_token(const char *str, TokenValue *val,
 
   if (isdigit(str[0])) {
     char *endptr;
+    long v = strtol(str, &endptr, 0);
+    if (v > INT_MAX) return -1;
     val->type = typeVal;
-    val->u.val = strtol(str, &endptr, 0);
+    val->u.val = v;
     return (int)(endptr - str);
 
   } else if ((opinfo = get_opinfo(str[0]))) {
-- 
2.43.0


From 35c421045f44bb392216b0c484301ea155ff029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 34/65] Hooks for loop contracts in uri_encode.c (DLITE_VERIFY)

---
 src/utils/uri_encode.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/uri_encode.c b/src/utils/uri_encode.c
index f231134..80fb77c 100644
--- a/src/utils/uri_encode.c
+++ b/src/utils/uri_encode.c
@@ -11,6 +11,7 @@
 #include <stdio.h>
 #include <string.h>
 #include <stdlib.h>
+#include "annotations.h"
 #include "uri_encode.h"
 
 #include <inttypes.h>
@@ -68,12 +69,18 @@ size_t uri_encode(const char *src, const size_t len, char *dst)
 {
   size_t i=0, j=0;
   if (!dst) {
-    while (i < len) {
+    while (i < len)
+    DLITE_LOOP(uri_encode_size)
+    {
+      DLITE_GHOST(uri_encode)
       const int32_t code = ((int32_t*)uri_encode_tbl)[ (unsigned char)src[i++] ];
       j += (code) ? 3 : 1;
     }
   } else {
-    while (i < len) {
+    while (i < len)
+    DLITE_LOOP(uri_encode)
+    {
+      DLITE_GHOST(uri_encode)
       const char octet = src[i++];
       const int32_t code = ((int32_t*)uri_encode_tbl)[ (unsigned char)octet ];
       if (code) {
@@ -92,7 +99,9 @@ size_t uri_decode(const char *src, const size_t len, char *dst)
 {
   size_t i = 0, j = 0;
   while(i < len)
+  DLITE_LOOP(uri_decode)
   {
+    DLITE_GHOST(uri_decode)
     int copy_char = 1;
     if(src[i] == '%' && i + 2 < len)
     {
-- 
2.43.0


From 1556e009fb267ddd67a8e21fe71aef70006f44f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:23 +0000
Subject: [PATCH 35/65] fix: strhex_encode() did not terminate the encoding of
 no data

---
 src/utils/strutils.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 414010f..5ea475b 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -429,6 +429,7 @@ int strhex_encode(char *hex, size_t hexsize, const unsigned char *data,
 {
   int n, m=0;
   size_t i;
+  if (hexsize) hex[0] = '\0';
   for (i=0; i<size; i++) {
     if ((n = snprintf(hex+m, PDIFF(hexsize, m), "%02x", data[i])) < 0) return n;
     if (n == 2 && m == (int)hexsize-2) hex[m] = '\0';
-- 
2.43.0


From 8c6db1623996854a18ea0c33972df06b8669d859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:11 +0000
Subject: [PATCH 36/65] fix: copying an instance to an existing id overwrote
 the existing instance

---
 src/dlite-entity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 58675e8..98ff1b6 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -1945,6 +1945,9 @@ DLiteInstance *dlite_instance_copy(const DLiteInstance *inst, const char *newid)
   DLiteInstance *new=NULL;
   size_t i;
   if (dlite_instance_sync_to_properties((DLiteInstance *)inst)) return NULL;
+  if (newid && *newid && dlite_instance_has(newid, 0))
+    return errx(dliteValueError, "cannot copy to already existing instance: %s",
+                newid), NULL;
   if (!(new = dlite_instance_create(inst->meta, DLITE_DIMS(inst), newid)))
     return NULL;
   if (inst->_parent) {
-- 
2.43.0


From 32d6472aa9aff16214b6a4ea96b6101d47daa1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 37/65] fix: uuid_from_string() accepted text that is not a
 UUID

---
 src/utils/uuid.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/uuid.c b/src/utils/uuid.c
index c1cd472..5f826a5 100644
--- a/src/utils/uuid.c
+++ b/src/utils/uuid.c
@@ -202,7 +202,7 @@ int uuid_from_string(uuid_s *uuid, const char *s, size_t len)
 {
   uuid_s u;
   int i, n;
-  if (len != 36)
+  if (len != 36 || !isuuid(s))
     return 1;
 
   if (sscanf(s, "%8x-%4hx-%4hx-%n",
-- 
2.43.0


From 9e76d660dde89857456c5a0b34f6d1cf95cc99ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 38/65] fix: dlite_split_meta_uri() read before the start of an
 uri whose only slash is the first character

---
 src/dlite-misc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlite-misc.c b/src/dlite-misc.c
index 926a8a1..8a19599 100644
--- a/src/dlite-misc.c
+++ b/src/dlite-misc.c
@@ -321,6 +321,8 @@ int dlite_split_meta_uri(const char *uri, char **name, char **version,
 
   if (!(p = strrchr(uri, '/')))
     FAIL1("invalid metadata uri: '%s'", uri);
+  if (p == uri)
+    FAIL1("invalid metadata uri: '%s'", uri);
   q = p-1;
   while (*q != '/' && q > uri) q--;
   if (q == uri)
-- 
2.43.0


From 4f97a17f90757122cdfd3be2f6e05dd5190d5fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 39/65] fix: urlsplitn() and isurln() depended on the
 characters after the given length

---
 src/utils/urlsplit.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index c3b8e68..d534f2e 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -98,6 +98,31 @@ int urlsplitn(const char *url, int len, UrlComponents *components)
   if (len < 0) len = (int)strlen(url);
   if (components) memset(components, 0, sizeof(UrlComponents));
 
+  /* If `url` continues after `len`, then parse a copy of the `len` first
+     characters, such that what follows doesn't influence the result. */
+  if (!memchr(url, 0, len) && url[len]) {
+    char *s = malloc(len + 1);
+    if (!s) return 0;
+    memcpy(s, url, len);
+    s[len] = '\0';
+    n = urlsplitn(s, len, components);
+    if (components) {
+      UrlComponents *c = components;
+#define REBASE(p) if (p) p = url + (p - s)
+      REBASE(c->scheme);
+      REBASE(c->authority);
+      REBASE(c->userinfo);
+      REBASE(c->host);
+      REBASE(c->port);
+      REBASE(c->path);
+      REBASE(c->query);
+      REBASE(c->fragment);
+#undef REBASE
+    }
+    free(s);
+    return n;
+  }
+
   /* check scheme */
   if (components) components->scheme = url;
   n += strcatjspn(url+n, strcatLower);
-- 
2.43.0


From 86c069d245b3c7daf1fa2d8b02ae2002c4463605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:10 +0000
Subject: [PATCH 40/65] fix: empty strings were copied and encoded without a
 terminating NUL

---
 src/utils/strutils.c | 2 ++
 src/utils/urlsplit.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 5ea475b..265f5a5 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -121,6 +121,7 @@ int strsetc(char *dest, long size, int c)
 int strsets(char *dest, long size, const char *src)
 {
   int n=0;
+  if (size > 0) dest[0] = '\0';
   while (*src)
     n += strsetc(dest+n, size-n, *(src++));
   return n;
@@ -133,6 +134,7 @@ int strsetn(char *dest, long size, const char *src, int len)
 {
   int i, n=0;
   if (len < 0) len = strlen(src);
+  if (size > 0) dest[0] = '\0';
   for (i=0; i<len; i++)
     n += strsetc(dest+n, size-n, src[i]);
   return n;
diff --git a/src/utils/urlsplit.c b/src/utils/urlsplit.c
index d534f2e..1746d82 100644
--- a/src/utils/urlsplit.c
+++ b/src/utils/urlsplit.c
@@ -359,6 +359,7 @@ int pct_xencode(char *buf, long size, const char *src, long len,
   int n=0;
   long i;
   if (len < 0) len = (long)strlen(src);
+  if (size > 0) buf[0] = '\0';
   for (i=0; i<len; i++) {
     if (strcategory(src[i]) <= maxcat ||
         (accepted && strchr(accepted, src[i]))) {
@@ -401,6 +402,7 @@ int pct_ndecode(char *buf, long size, const char *encoded, long len)
   int n=0;
   long i=0;
   if (len < 0) len = (long)strlen(encoded);
+  if (size > 0) buf[0] = '\0';
   while (encoded[i] && i < len) {
     if (encoded[i] == '%') {
       if (i+2 >= len || !isxdigit(encoded[i+1]) || !isxdigit(encoded[i+2]))
-- 
2.43.0


From a31b27c85f59780e9236a93971480ea9894d1b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:14 +0000
Subject: [PATCH 41/65] Hooks for cut points in sha1.c, sha3.c and md5.c
 (DLITE_VERIFY)

---
 src/utils/annotations.h |  9 ++++++---
 src/utils/md5.c         |  4 +++-
 src/utils/sha1.c        | 11 ++++++-----
 src/utils/sha3.c        |  2 ++
 4 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/utils/annotations.h b/src/utils/annotations.h
index cc7b336..116f34d 100644
--- a/src/utils/annotations.h
+++ b/src/utils/annotations.h
@@ -2,9 +2,10 @@
  *
  * DLITE_LOOP(name) marks a loop that has a contract (invariant, frame and
  * variant) and DLITE_GHOST(name) a place for specification-only statements.
- * Both expand to nothing unless the verifier predefines DLITE_VERIFY and
- * supplies a header "dlite-contracts.h" with one DLITE_LOOP_<name> or
- * DLITE_GHOST_<name> macro for each hook.  DLITE_VERIFY is never defined by
+ * DLITE_CUT(name, ...) is DLITE_GHOST with arguments, for use in macros.
+ * They all expand to nothing unless the verifier predefines DLITE_VERIFY and
+ * supplies a header "dlite-contracts.h" with one DLITE_LOOP_<name>,
+ * DLITE_GHOST_<name> or DLITE_CUT_<name> macro for each hook.  DLITE_VERIFY is never defined by
  * the build.
  */
 #ifndef _ANNOTATIONS_H
@@ -14,9 +15,11 @@
 # include "dlite-contracts.h"
 # define DLITE_LOOP(name)  DLITE_LOOP_##name
 # define DLITE_GHOST(name) DLITE_GHOST_##name
+# define DLITE_CUT(name, ...) DLITE_CUT_##name(__VA_ARGS__)
 #else
 # define DLITE_LOOP(name)
 # define DLITE_GHOST(name)
+# define DLITE_CUT(name, ...)
 #endif
 
 #endif /* _ANNOTATIONS_H */
diff --git a/src/utils/md5.c b/src/utils/md5.c
index 38c27fb..8c3194a 100644
--- a/src/utils/md5.c
+++ b/src/utils/md5.c
@@ -39,6 +39,7 @@
 
 #include <string.h>
 
+#include "annotations.h"
 #include "md5.h"
 
 /*
@@ -59,7 +60,8 @@
 #define STEP(f, a, b, c, d, x, t, s) \
 	(a) += f((b), (c), (d)) + (x) + (t); \
 	(a) = (((a) << (s)) | (((a) & 0xffffffff) >> (32 - (s)))); \
-	(a) += (b);
+	(a) += (b); \
+	DLITE_CUT(md5, a, b, c, d)
 
 /*
  * SET reads 4 input bytes in little-endian byte order and stores them
diff --git a/src/utils/sha1.c b/src/utils/sha1.c
index 33d3957..c5db270 100644
--- a/src/utils/sha1.c
+++ b/src/utils/sha1.c
@@ -18,6 +18,7 @@ A million repetitions of "a"
 #include <stdio.h>
 #include <string.h>
 
+#include "annotations.h"
 #include "sha1.h"
 
 /* #define SHA1HANDSOFF * Copies data before messing with it. */
@@ -40,11 +41,11 @@ A million repetitions of "a"
     ^block->l[(i+2)&15]^block->l[i&15],1))
 
 /* (R0+R1), R2, R3, R4 are the different operations used in SHA1 */
-#define R0(v,w,x,y,z,i) z+=((w&(x^y))^y)+blk0(i)+0x5A827999+rol(v,5);w=rol(w,30);
-#define R1(v,w,x,y,z,i) z+=((w&(x^y))^y)+blk(i)+0x5A827999+rol(v,5);w=rol(w,30);
-#define R2(v,w,x,y,z,i) z+=(w^x^y)+blk(i)+0x6ED9EBA1+rol(v,5);w=rol(w,30);
-#define R3(v,w,x,y,z,i) z+=(((w|x)&y)|(w&x))+blk(i)+0x8F1BBCDC+rol(v,5);w=rol(w,30);
-#define R4(v,w,x,y,z,i) z+=(w^x^y)+blk(i)+0xCA62C1D6+rol(v,5);w=rol(w,30);
+#define R0(v,w,x,y,z,i) z+=((w&(x^y))^y)+blk0(i)+0x5A827999+rol(v,5);w=rol(w,30); DLITE_CUT(sha1, v,w,x,y,z,i)
+#define R1(v,w,x,y,z,i) z+=((w&(x^y))^y)+blk(i)+0x5A827999+rol(v,5);w=rol(w,30); DLITE_CUT(sha1, v,w,x,y,z,i)
+#define R2(v,w,x,y,z,i) z+=(w^x^y)+blk(i)+0x6ED9EBA1+rol(v,5);w=rol(w,30); DLITE_CUT(sha1, v,w,x,y,z,i)
+#define R3(v,w,x,y,z,i) z+=(((w|x)&y)|(w&x))+blk(i)+0x8F1BBCDC+rol(v,5);w=rol(w,30); DLITE_CUT(sha1, v,w,x,y,z,i)
+#define R4(v,w,x,y,z,i) z+=(w^x^y)+blk(i)+0xCA62C1D6+rol(v,5);w=rol(w,30); DLITE_CUT(sha1, v,w,x,y,z,i)
 
 
 /* Hash a single 512-bit block. This is the core of the algorithm. */
diff --git a/src/utils/sha3.c b/src/utils/sha3.c
index 9c77d4e..8a85ef5 100644
--- a/src/utils/sha3.c
+++ b/src/utils/sha3.c
@@ -20,6 +20,7 @@
 #include <stdint.h>
 #include <string.h>
 
+#include "annotations.h"
 #include "sha3.h"
 
 #define SHA3_ASSERT( x )
@@ -110,6 +111,7 @@ keccakf(uint64_t s[25])
 
         /* Iota */
         s[0] ^= keccakf_rndc[round];
+        DLITE_GHOST(keccakf);
     }
 }
 
-- 
2.43.0


From d14b7b341bfb766189fba2990f2773c11dc5db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:03 +0000
Subject: [PATCH 42/65] fix: quoted strings did not escape backslashes and
 control characters and were not unescaped when read

strnquote() only escaped double quotes and strnunquote() only unescaped
them, so a text with a backslash changed when quoted and unquoted.
---
 src/utils/strutils.c | 144 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 131 insertions(+), 13 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 265f5a5..e02abf6 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -245,11 +245,119 @@ int strnput_escape(char **destp, size_t *sizep, size_t pos,
 #define PDIFF(a, b) (((size_t)(a) > (size_t)(b)) ? (a) - (b) : 0)
 
 
+/*
+  Writes the JSON representation of character `c` to `buf`, escaped with
+  backslash if needed.  `buf` is not NUL-terminated.
+
+  Returns the number of characters written.
+*/
+static int escape_char(char buf[8], char c)
+{
+  static const char hex[] = "0123456789abcdef";
+  unsigned char u = c;
+  buf[0] = '\\';
+  switch (c) {
+  case '"':  buf[1] = '"';  return 2;
+  case '\\': buf[1] = '\\'; return 2;
+  case '\b': buf[1] = 'b';  return 2;
+  case '\f': buf[1] = 'f';  return 2;
+  case '\n': buf[1] = 'n';  return 2;
+  case '\r': buf[1] = 'r';  return 2;
+  case '\t': buf[1] = 't';  return 2;
+  }
+  if (u < 0x20) {
+    buf[1] = 'u';
+    buf[2] = buf[3] = '0';
+    buf[4] = hex[u >> 4];
+    buf[5] = hex[u & 0x0f];
+    return 6;
+  }
+  buf[0] = c;
+  return 1;
+}
+
+
+/* Returns the value of the four hexadecimal digits at `s` or -1 if `s`
+   does not start with four hexadecimal digits. */
+static long hex4(const char *s)
+{
+  int i;
+  long v=0;
+  for (i=0; i<4; i++) {
+    char c = s[i];
+    if (c >= '0' && c <= '9')      v = 16*v + (c - '0');
+    else if (c >= 'a' && c <= 'f') v = 16*v + (c - 'a' + 10);
+    else if (c >= 'A' && c <= 'F') v = 16*v + (c - 'A' + 10);
+    else return -1;
+  }
+  return v;
+}
+
+
+/*
+  Reads the JSON escape sequence at the start of `s` (which must start
+  with a backslash) and writes the (UTF-8 encoded) character that it
+  represents to `buf`.  `buf` is not NUL-terminated.  `*m` is assigned to
+  the number of bytes written to `buf`.
+
+  If `s` does not start with a valid escape sequence, a single backslash
+  is read and written to `buf`.
+
+  Returns the number of characters read from `s`.
+*/
+static int unescape_char(char buf[4], int *m, const char *s)
+{
+  long v, w;
+  int n=6;
+  *m = 1;
+  switch (s[1]) {
+  case '"':
+  case '\\':
+  case '/': buf[0] = s[1]; return 2;
+  case 'b': buf[0] = '\b'; return 2;
+  case 'f': buf[0] = '\f'; return 2;
+  case 'n': buf[0] = '\n'; return 2;
+  case 'r': buf[0] = '\r'; return 2;
+  case 't': buf[0] = '\t'; return 2;
+  case 'u':
+    if ((v = hex4(s+2)) <= 0) break;
+    if (v >= 0xd800 && v < 0xe000) {  /* surrogate pair */
+      if (v >= 0xdc00 || s[6] != '\\' || s[7] != 'u' ||
+          (w = hex4(s+8)) < 0xdc00 || w >= 0xe000) break;
+      v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
+      n = 12;
+    }
+    if (v < 0x80) {
+      buf[0] = (char)v;
+    } else if (v < 0x800) {
+      buf[0] = (char)(0xc0 | (v >> 6));
+      buf[1] = (char)(0x80 | (v & 0x3f));
+      *m = 2;
+    } else if (v < 0x10000) {
+      buf[0] = (char)(0xe0 | (v >> 12));
+      buf[1] = (char)(0x80 | ((v >> 6) & 0x3f));
+      buf[2] = (char)(0x80 | (v & 0x3f));
+      *m = 3;
+    } else {
+      buf[0] = (char)(0xf0 | (v >> 18));
+      buf[1] = (char)(0x80 | ((v >> 12) & 0x3f));
+      buf[2] = (char)(0x80 | ((v >> 6) & 0x3f));
+      buf[3] = (char)(0x80 | (v & 0x3f));
+      *m = 4;
+    }
+    return n;
+  }
+  buf[0] = s[0];
+  return 1;
+}
+
+
 /*
   Double-quote input string `s` and write it to `dest`.
 
-  Embedded double-quotes are escaped with backslash. At most `size`
-  characters are written to `dest` (including terminating NUL).
+  Embedded double-quotes, backslashes and control characters are escaped
+  with backslash as in JSON.  At most `size` characters are written to
+  `dest` (including terminating NUL).
 
   If `s` is NULL, this function will behave similarly to snprintf(),
   except for the added quoting marks.
@@ -286,14 +394,18 @@ int strnquote(char *dest, size_t size, const char *s, int n,
        If `n` is positive, consume at most `n` characters from `s`. */
     while (s[j] && (n < 0 || (int)j < n)) {
 
-      /* Add backslash (escape) in front of double-quote characters
-         when copying to `dest` */
-      if (s[j] == '"' && !(flags & strquoteNoEscape)) {
-        if (size > i) dest[i] = '\\';
+      /* Escape double-quote, backslash and control characters when
+         copying to `dest` */
+      char buf[8];
+      int k, m = 1;
+      if (flags & strquoteNoEscape)
+        buf[0] = s[j];
+      else
+        m = escape_char(buf, s[j]);
+      for (k=0; k<m; k++) {
+        if (size > i) dest[i] = buf[k];
         i++;
       }
-      if (size > i) dest[i] = s[j];
-      i++;
       j++;
     }
 
@@ -362,11 +474,17 @@ int strnunquote(char *dest, size_t size, const char *s, int n,
     while (isspace(s[j])) j++;
   if (!(flags & strquoteNoQuote) && s[j++] != '"') return -1;
   while (s[j] && ((flags & strquoteNoQuote) || s[j] != '"')) {
-    if (!(flags & strquoteNoEscape) && s[j] == '\\' && s[j+1] == '"') j++;
-    if (n >= 0 && (int)j >= n) break;
-    if (dest && size > i) dest[i] = s[j];
-    i++;
-    j++;
+    char buf[4];
+    int k, m = 1, c = 1;
+    buf[0] = s[j];
+    if (!(flags & strquoteNoEscape) && s[j] == '\\')
+      c = unescape_char(buf, &m, s+j);
+    if (n >= 0 && (int)j + c > n) break;
+    for (k=0; k<m; k++) {
+      if (dest && size > i) dest[i] = buf[k];
+      i++;
+    }
+    j += c;
   }
   if (dest) dest[(size > i) ? i : size-1] = '\0';
   if (!(flags & strquoteNoQuote) && s[j++] != '"') return -2;
-- 
2.43.0


From 54eb651001366b4ef0bd53057caf66791f2f6172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:03 +0000
Subject: [PATCH 43/65] fix: JSON did not keep strings with quotes or
 backslashes, NULL strings and descriptions

String properties were stored as the raw text between the quotes of the
JSON source, and descriptions and units were written without escaping.
---
 src/dlite-entity.c | 45 +++++++++++++++++++++++++++-------
 src/dlite-json.c   | 60 +++++++++++++++++++++++++++++++++-------------
 src/dlite-type.c   | 29 +++++++++++++---------
 src/utils/jsmnx.c  | 20 ++++++++++++++++
 src/utils/jsmnx.h  | 11 +++++++++
 5 files changed, 129 insertions(+), 36 deletions(-)

diff --git a/src/dlite-entity.c b/src/dlite-entity.c
index 98ff1b6..8ef1f6d 100644
--- a/src/dlite-entity.c
+++ b/src/dlite-entity.c
@@ -3247,6 +3247,37 @@ int dlite_property_aprint(char **dest, size_t *n, size_t pos, const void *ptr,
 }
 
 
+/*
+  Help function for scandim() and dlite_property_jscan().  Scans the JSON
+  token `t` of `src` and writes the (scalar) value to `ptr`.
+
+  By default are JSON strings unescaped when they are scanned to a string
+  or reference, while null gives a NULL string.
+
+  Returns number of characters consumed from `src` or a negative number
+  on error.
+ */
+static int scantoken(const char *src, const jsmntok_t *t, void *ptr,
+                     const DLiteProperty *p, DLiteTypeFlag flags)
+{
+  int len = t->end - t->start;
+  if (flags == dliteFlagDefault) {
+    int is_string = (p->type == dliteFixString || p->type == dliteStringPtr ||
+                     p->type == dliteRef);
+    /* The token does not include the double quotes */
+    if (is_string && t->type == JSMN_STRING)
+      return dlite_type_scan(src + t->start - 1, len + 2, ptr, p->type,
+                             p->size, dliteFlagQuoted);
+    if (p->type == dliteStringPtr && t->type == JSMN_PRIMITIVE &&
+        len == 4 && strncmp(src + t->start, "null", 4) == 0) {
+      free(*(char **)ptr);
+      *(char **)ptr = NULL;
+      return len;
+    }
+  }
+  return dlite_type_scan(src + t->start, len, ptr, p->type, p->size, flags);
+}
+
 /*
   Recursive help function for dlite_property_scan() for handling
   n-dimensional arrays.
@@ -3278,8 +3309,7 @@ static int scandim(int d, const char *src, void **pptr,
       if (scandim(d+1, src, pptr, p, shape, flags, t)) goto fail;
     }
   } else {
-    if ((m = dlite_type_scan(src+(*t)->start, (*t)->end-(*t)->start, *pptr,
-                             p->type, p->size, flags)) < 0) return m;
+    if ((m = scantoken(src, *t, *pptr, p, flags)) < 0) return m;
     *((char **)pptr) += p->size;
     *t += jsmn_count(*t);
   }
@@ -3323,7 +3353,7 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         if (dim->description) free(dim->description);
         memset(dim, 0, sizeof(DLiteDimension));
         dim->name = strndup(key, keylen);
-        dim->description = strndup(val, len);
+        dim->description = jsmn_strdup(src, item);
       } else if (item->type == JSMN_OBJECT) {
         int i;
         for (i=0; i < item->size; i++, dim++) {
@@ -3333,7 +3363,7 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
           if (dim->description) free(dim->description);
           memset(dim, 0, sizeof(DLiteDimension));
           dim->name = strndup(src + k->start, k->end - k->start);
-          dim->description = strndup(src + v->start, v->end - v->start);
+          dim->description = jsmn_strdup(src, v);
         }
       } else
         return err(dliteValueError,
@@ -3404,10 +3434,10 @@ int scanobj(const char *src, const jsmntok_t *item, const char *key,
         }
 
         if ((t = jsmn_item(src, v, "unit")))
-          prop->unit = strndup(src + t->start, t->end - t->start);
+          prop->unit = jsmn_strdup(src, t);
 
         if ((t = jsmn_item(src, v, "description")))
-          prop->description = strndup(src + t->start, t->end - t->start);
+          prop->description = jsmn_strdup(src, t);
 
         v += jsmn_count(v) + 1;
       }
@@ -3502,8 +3532,7 @@ int dlite_property_jscan(const char *src, const jsmntok_t *item,
     }
     return len;
   } else {
-    return dlite_type_scan(src + item->start, item->end - item->start,
-                           ptr, p->type, p->size, flags);
+    return scantoken(src, item, ptr, p, flags);
   }
 }
 
diff --git a/src/dlite-json.c b/src/dlite-json.c
index 45c4040..5e56913 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -52,6 +52,14 @@
   } while (0)
 
 
+#define PRINT_QUOTED(s)                                                 \
+  do {                                                                  \
+    int m = strquote(dest+n, PDIFF(size, n), s);                        \
+    if (m < 0) goto fail;                                               \
+    n += m;                                                             \
+  } while (0)
+
+
 /* Forward declarations */
 static const jsmntok_t *nexttok(DLiteJsonIter *iter, int *length);
 
@@ -119,8 +127,11 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     DLiteMeta *met = (DLiteMeta *)inst;
     char *description =
       *((char **)dlite_instance_get_property(inst, "description"));
-    if (description)
-      PRINT2("%s  \"description\": \"%s\",\n", in, description);
+    if (description) {
+      PRINT1("%s  \"description\": ", in);
+      PRINT_QUOTED(description);
+      PRINT(",\n");
+    }
 
     PRINT1("%s  \"dimensions\": [\n", in);
     for (i=0; i < met->_ndimensions; i++) {
@@ -128,8 +139,11 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       DLiteDimension *d = met->_dimensions + i;
       PRINT1("%s    {\n", in);
       PRINT2("%s      \"name\": \"%s\"", in, d->name);
-      if (d->description)
-        PRINT2(",\n%s      \"description\": \"%s\"\n", in, d->description);
+      if (d->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINT_QUOTED(d->description);
+        PRINT("\n");
+      }
       PRINT2("%s    }%s\n", in, c);
     }
     PRINT1("%s  ],\n", in);
@@ -153,10 +167,14 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
         }
         PRINT("]");
       }
-      if (p->unit && *p->unit)
-        PRINT2(",\n%s      \"unit\": \"%s\"", in, p->unit);
-      if (p->description && *p->description)
-        PRINT2(",\n%s      \"description\": \"%s\"", in, p->description);
+      if (p->unit && *p->unit) {
+        PRINT1(",\n%s      \"unit\": ", in);
+        PRINT_QUOTED(p->unit);
+      }
+      if (p->description && *p->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINT_QUOTED(p->description);
+      }
       PRINT2("\n%s    }%s\n", in, c);
     }
     PRINT1("%s  ]\n", in);
@@ -189,14 +207,19 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
     char *description =
       *((char **)dlite_instance_get_property(inst, "description"));
 
-    if (description)
-      PRINT2("%s  \"description\": \"%s\",\n", in, description);
+    if (description) {
+      PRINT1("%s  \"description\": ", in);
+      PRINT_QUOTED(description);
+      PRINT(",\n");
+    }
 
     PRINT1("%s  \"dimensions\": {\n", in);
     for (i=0; i < met->_ndimensions; i++) {
       char *c = (i < met->_ndimensions - 1) ? "," : "";
       DLiteDimension *d = met->_dimensions + i;
-      PRINT4("%s    \"%s\": \"%s\"%s\n", in, d->name, d->description, c);
+      PRINT2("%s    \"%s\": ", in, d->name);
+      PRINT_QUOTED((d->description) ? d->description : "");
+      PRINT1("%s\n", c);
     }
     PRINT1("%s  },\n", in);
 
@@ -218,10 +241,14 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
         }
         PRINT("]");
       }
-      if (p->unit && *p->unit)
-        PRINT2(",\n%s      \"unit\": \"%s\"", in, p->unit);
-      if (p->description && *p->description)
-        PRINT2(",\n%s      \"description\": \"%s\"", in, p->description);
+      if (p->unit && *p->unit) {
+        PRINT1(",\n%s      \"unit\": ", in);
+        PRINT_QUOTED(p->unit);
+      }
+      if (p->description && *p->description) {
+        PRINT1(",\n%s      \"description\": ", in);
+        PRINT_QUOTED(p->description);
+      }
       PRINT2("\n%s    }%s\n", in, c);
     }
     PRINT1("%s  }\n", in);
@@ -718,8 +745,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
         } else {
           if (!ptr)
             FAIL1("cannot assign property with NULL destination: %s", p->name);
-          if (dlite_type_scan(src+t->start, t->end - t->start, ptr, p->type,
-                              p->size, 0) < 0)
+          if (dlite_property_jscan(src, t, NULL, ptr, p, pdims, 0) < 0)
             goto fail;
         }
       } else if (dlite_instance_is_meta(inst)) {
diff --git a/src/dlite-type.c b/src/dlite-type.c
index b5e0c2c..ef18a79 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -830,9 +830,13 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
     break;
 
   case dliteDimension:
-    m = snprintf(dest, n, "{\"name\": \"%s\", \"description\": \"%s\"}",
-                 ((DLiteDimension *)p)->name,
-                 ((DLiteDimension *)p)->description);
+    {
+      const char *description = ((DLiteDimension *)p)->description;
+      m = snprintf(dest, n, "{\"name\": \"%s\", \"description\": ",
+                   ((DLiteDimension *)p)->name);
+      m += strquote(dest+m, PDIFF(n, m), (description) ? description : "");
+      m += snprintf(dest+m, PDIFF(n, m), "}");
+    }
     break;
 
   case dliteProperty:
@@ -854,11 +858,14 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
                         (i < prop->ndims-1) ? ", " : "");
         m += snprintf(dest+m, PDIFF(n, m), "]");
       }
-      if (prop->unit && *prop->unit)
-        m += snprintf(dest+m, PDIFF(n, m), ", \"unit\": \"%s\"", prop->unit);
-      if (prop->description && *prop->description)
-        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": \"%s\"",
-                      prop->description);
+      if (prop->unit && *prop->unit) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"unit\": ");
+        m += strquote(dest+m, PDIFF(n, m), prop->unit);
+      }
+      if (prop->description && *prop->description) {
+        m += snprintf(dest+m, PDIFF(n, m), ", \"description\": ");
+        m += strquote(dest+m, PDIFF(n, m), prop->description);
+      }
       m += snprintf(dest+m, PDIFF(n, m), "}");
     }
     break;
@@ -1133,7 +1140,7 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
         return err(dliteValueError, "missing dimension name: '%s'", src);
       dim->name = strndup(src + t->start, t->end - t->start);
       if ((t = jsmn_item(src, tokens, "description")))
-        dim->description = strndup(src + t->start, t->end - t->start);
+        dim->description = jsmn_strdup(src, t);
     }
     break;
 
@@ -1191,10 +1198,10 @@ int dlite_type_scan(const char *src, int len, void *p, DLiteType dtype,
       }
 
       if ((t = jsmn_item(src, tokens, "unit")))
-        prop->unit = strndup(src + t->start, t->end - t->start);
+        prop->unit = jsmn_strdup(src, t);
 
       if ((t = jsmn_item(src, tokens, "description")))
-        prop->description = strndup(src + t->start, t->end - t->start);
+        prop->description = jsmn_strdup(src, t);
     }
     break;
 
diff --git a/src/utils/jsmnx.c b/src/utils/jsmnx.c
index aa3831a..2f5efeb 100644
--- a/src/utils/jsmnx.c
+++ b/src/utils/jsmnx.c
@@ -10,6 +10,7 @@
 #include <string.h>
 
 #include "err.h"
+#include "strutils.h"
 
 /* Include the jsmn.h header without defining JSMN_HEADER defined.
    This defines all functions in jsmn. */
@@ -168,6 +169,25 @@ const jsmntok_t *jsmn_element(const char *js, const jsmntok_t *t, int i)
 }
 
 
+/*
+  Returns a newly malloc'ed copy of the text of JSMN token `t` with the
+  JSON escape sequences replaced with the characters they represent.
+
+  `js` is the JSON source.
+
+  Returns NULL on error.
+*/
+char *jsmn_strdup(const char *js, const jsmntok_t *t)
+{
+  char *buf=NULL;
+  size_t size=0;
+  if (strnput_unquote(&buf, &size, 0, js + t->start, t->end - t->start,
+                      NULL, strquoteNoQuote | strquoteInitialBlanks) < 0)
+    return err(1, "allocation failure"), NULL;
+  return buf;
+}
+
+
 /*
   Returns error message corresponding to return value from jsmn_parse().
 */
diff --git a/src/utils/jsmnx.h b/src/utils/jsmnx.h
index ce494d1..fb7756a 100644
--- a/src/utils/jsmnx.h
+++ b/src/utils/jsmnx.h
@@ -114,6 +114,17 @@ const jsmntok_t *jsmn_item(const char *js, const jsmntok_t *t, const char *key);
 const jsmntok_t *jsmn_element(const char *js, const jsmntok_t *t, int i);
 
 
+/**
+ * Returns a newly malloc'ed copy of the text of JSMN token `t` with the
+ * JSON escape sequences replaced with the characters they represent.
+ *
+ * `js` is the JSON source.
+ *
+ * Returns NULL on error.
+ */
+char *jsmn_strdup(const char *js, const jsmntok_t *t);
+
+
 /**
  * Returns error message corresponding to return value from jsmn_parse().
  */
-- 
2.43.0


From b706561bd493c5546248219a20d780c2f8f12191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 44/65] fix: JSON kept only six digits of floating point values

Use as many digits as are needed to read back the same value when no
precision is requested.
---
 src/dlite-json.c |  2 +-
 src/dlite-type.c | 28 +++++++++++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index 5e56913..b5f024d 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -116,7 +116,7 @@ int _dlite_json_sprint(char *dest, size_t size, const DLiteInstance *inst,
       void *ptr = dlite_instance_get_property_by_index(inst, i);
       size_t *shape= DLITE_PROP_DIMS(inst, i);
       PRINT2("%s    \"%s\": ", in, p->name);
-      m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -2, f);
+      m = dlite_property_print(dest+n, PDIFF(size, n), ptr, p, shape, 0, -3, f);
       if (m < 0) return -1;
       n += m;
       PRINT1("%s\n", c);
diff --git a/src/dlite-type.c b/src/dlite-type.c
index ef18a79..ff2157b 100644
--- a/src/dlite-type.c
+++ b/src/dlite-type.c
@@ -3,6 +3,8 @@
 #include <assert.h>
 #include <string.h>
 #include <stddef.h>
+#include <stdlib.h>
+#include <float.h>
 #include <ctype.h>
 #ifdef HAVE_INTTYPES_H
 #include <inttypes.h>
@@ -699,6 +701,18 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
 /* Expands to `a - b` if `a > b` else to `0`. */
 #define PDIFF(a, b) (((size_t)(a) > (size_t)(b)) ? (a) - (b) : 0)
 
+/* Assigns `r` to the lowest precision (at least 6) for which the floating
+   point value that `p` points to keeps its value when it is printed and
+   read back. */
+#define PRECISION(r, maxprec, strtox, type, p)                          \
+  do {                                                                  \
+    for (r=6; r < maxprec; r++) {                                       \
+      char _buf[64];                                                    \
+      snprintf(_buf, sizeof(_buf), "%.*g", r, *((type *)p));            \
+      if (strtox(_buf, NULL) == *((type *)p)) break;                    \
+    }                                                                   \
+  } while (0)
+
 /*
   Serialises data of type `dtype` and size `size` pointed to by `p`.
   The string representation is written to `dest`.  No more than
@@ -707,7 +721,9 @@ static StrquoteFlags as_qflags(DLiteType dtype, DLiteTypeFlag flags)
   The `width` and `prec` arguments corresponds to the printf() minimum
   field width and precision/length modifier.  If you set them to -1, a
   suitable value will selected according to `type`.  To ignore their
-  effect, set `width` to zero or `prec` to -2.
+  effect, set `width` to zero or `prec` to -2.  With `prec` set to -3 are
+  floating point numbers written with as many digits as needed for reading
+  back the same value.
 
   Returns number of bytes written to `dest`.  If the output is
   truncated because it exceeds `n`, the number of bytes that would
@@ -788,8 +804,14 @@ int dlite_type_print(char *dest, size_t n, const void *p, DLiteType dtype,
     if (w == -1) w = 12;
     if (r == -1) r = 6;
     switch (size) {
-    case 4:  m = snprintf(dest, n, "%*.*g",  w, r, *((float32_t *)p)); break;
-    case 8:  m = snprintf(dest, n, "%*.*g",  w, r, *((float64_t *)p)); break;
+    case 4:
+      if (r == -3) PRECISION(r, FLT_DECIMAL_DIG, strtof, float32_t, p);
+      m = snprintf(dest, n, "%*.*g",  w, r, *((float32_t *)p));
+      break;
+    case 8:
+      if (r == -3) PRECISION(r, DBL_DECIMAL_DIG, strtod, float64_t, p);
+      m = snprintf(dest, n, "%*.*g",  w, r, *((float64_t *)p));
+      break;
 #ifdef HAVE_FLOAT80
     case 10: m = snprintf(dest, n, "%*.*Lg", w, r, *((float80_t *)p)); break;
 #endif
-- 
2.43.0


From 950b4967088987754b2576c2231d9d37ce9686bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:32 +0000
Subject: [PATCH 45/65] fix: appended JSON was nested twice, uuid of single
 JSON and a metadata uuid were ignored

- dlite_json_append() did not ask for the single format of the new item.
- The "uuid" of a single instance was ignored when no id was given.
- The metadata of a scanned instance was not checked against a `metaid`
  given as an UUID.
---
 src/dlite-json.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/dlite-json.c b/src/dlite-json.c
index b5f024d..14582c8 100644
--- a/src/dlite-json.c
+++ b/src/dlite-json.c
@@ -497,7 +497,8 @@ int dlite_json_append(char **s, size_t *size, const DLiteInstance *inst,
   if ((n = asnpprintf(s, size, pos, "\n  \"%s\": ", inst->uuid)) < 0)
     goto fail;
   pos += n;
-  if ((n = dlite_json_asprint(s, size, pos, inst, 2, flags)) < 0) goto fail;
+  if ((n = dlite_json_asprint(s, size, pos, inst, 2,
+                              flags | dliteJsonSingle)) < 0) goto fail;
   pos += n;
   if ((n = asnpprintf(s, size, pos, "\n}\n")) < 0) goto fail;
   pos += n;
@@ -692,7 +693,7 @@ static DLiteInstance *parse_instance(const char *src, jsmntok_t *obj,
   }
 
   /* Create instance */
-  if (!(inst = dlite_instance_create(meta, dims, id))) goto fail;
+  if (!(inst = dlite_instance_create(meta, dims, (id) ? id : uuid))) goto fail;
 
   /* Parse properties */
   if (meta->_nproperties > 0) {
@@ -862,7 +863,7 @@ DLiteInstance *dlite_json_sscan(const char *src, const char *id,
   if (metaid) {
     char uuid[DLITE_UUID_LENGTH + 1];
     if (dlite_get_uuid(uuid, metaid) < 0 ||
-        (strcmp(metaid, uuid) != 0 && strcmp(metaid, inst->meta->uri) != 0)) {
+        strcmp(inst->meta->uuid, uuid) != 0) {
       if (!id) id = inst->uuid;
       err(1, "instance '%s' has meta id '%s' but '%s' is expected",
           id, inst->meta->uri, metaid);
-- 
2.43.0


From 39f5107d2cc678a8ef5c31428ce29f7273dc606f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:19 +0000
Subject: [PATCH 46/65] fix: strnchk_semver() depended on characters behind the
 given length and accepted leading zeros in pre-release numbers

---
 src/utils/strutils.c | 58 +++++++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index e02abf6..50b8ae7 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -961,41 +961,39 @@ int strchk_semver(const char *v)
 */
 int strnchk_semver(const char *v, size_t n)
 {
-  size_t m=0;
-  /* Major number */
-  if (n < 5) return -1;
-  if (!isdigit(v[m])) return -1;
-  if (v[0] == '0' && isdigit(v[1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
-  /* Minor number */
-  if (v[m] != '.') return -1;
-  if (m < n) m++;
-  if (!isdigit(v[m])) return -1;
-  if (n >= m+2 && v[m] == '0' && isdigit(v[m+1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
-  /* Patch number */
-  if (v[m] != '.') return -1;
-  if (m < n) m++;
-  if (!isdigit(v[m])) return -1;
-  if (n >= m+2 && v[m] == '0' && isdigit(v[m+1])) return -1;
-  while (isdigit(v[m]) && m < n) m++;
+  size_t m=0, start;
+  int i;
+  /* Major, minor and patch numbers */
+  for (i=0; i<3; i++) {
+    if (i) {
+      if (m >= n || v[m] != '.') return -1;
+      m++;
+    }
+    start = m;
+    while (m < n && isdigit((unsigned char)v[m])) m++;
+    if (m == start) return -1;
+    if (v[start] == '0' && m > start + 1) return -1;
+  }
   /* Pre-release */
-  if (m == n) return m;
-  if (v[m] == '-') {
+  if (m < n && v[m] == '-') {
     do {
-      if (n <= ++m) return -1;
-      if (!isalnum(v[m]) && v[m] != '-') return -1;
-      while ((isalnum(v[m]) || v[m] == '-') && m < n) m++;
-    } while (v[m] == '.');
+      int isnum = 1;
+      start = ++m;
+      while (m < n && (isalnum((unsigned char)v[m]) || v[m] == '-')) {
+        if (!isdigit((unsigned char)v[m])) isnum = 0;
+        m++;
+      }
+      if (m == start) return -1;
+      if (isnum && v[start] == '0' && m > start + 1) return -1;
+    } while (m < n && v[m] == '.');
   }
   /* Build */
-  if (m == n) return m;
-  if (v[m] == '+') {
+  if (m < n && v[m] == '+') {
     do {
-      if (n <= ++m ) return -1;
-      if (!isalnum(v[m]) && v[m] != '-') return -1;
-      while ((isalnum(v[m]) || v[m] == '-') && m < n) m++;
-    } while (v[m] == '.');
+      start = ++m;
+      while (m < n && (isalnum((unsigned char)v[m]) || v[m] == '-')) m++;
+      if (m == start) return -1;
+    } while (m < n && v[m] == '.');
   }
   if (m < n && v[m]) return -1;
   return m;
-- 
2.43.0


From c5b8f6451814660626eac4efddbdb46e521327d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:33 +0000
Subject: [PATCH 47/65] fix: strncmp_semver() overflowed on long numbers and
 ordered pre-releases wrongly

---
 src/utils/strutils.c | 83 ++++++++++++++++++++++++--------------------
 1 file changed, 46 insertions(+), 37 deletions(-)

diff --git a/src/utils/strutils.c b/src/utils/strutils.c
index 50b8ae7..50dbf0c 100644
--- a/src/utils/strutils.c
+++ b/src/utils/strutils.c
@@ -1020,58 +1020,67 @@ int strcmp_semver(const char *v1, const char *v2)
 }
 
 
+/*
+  Help function for strncmp_semver().  Compares the numbers written with
+  `n1` digits at `s1` and `n2` digits at `s2` (without leading zeros).
+*/
+static int cmpdigits(const char *s1, size_t n1, const char *s2, size_t n2)
+{
+  int d;
+  if (n1 != n2) return (n1 < n2) ? -1 : 1;
+  d = strncmp(s1, s2, n1);
+  return (d > 0) - (d < 0);
+}
+
+
 /*
   Like strcmp_semver(), but compares only the first `n` bytes of `v1` and `v2`.
 */
 int strncmp_semver(const char *v1, const char *v2, size_t n)
 {
-  int d, pr1=0, pr2=0;
-  size_t m, n1=0, n2=0;
-  /* Compare major number */
-  d = natoi(v1, n) - natoi(v2, n);
-  if (d) return (d < 0) ? -1 : 1;
-  while (isdigit(v1[n1]) && n1 < n) n1++;
-  while (isdigit(v2[n2]) && n2 < n) n2++;
-  /* Compare minor number */
-  if (n1 < n) n1++;
-  if (n2 < n) n2++;
-  d = natoi(v1+n1, n-n1) - natoi(v2+n2, n-n2);
-  if (d) return (d < 0) ? -1 : 1;
-  while (isdigit(v1[n1]) && n1 < n) n1++;
-  while (isdigit(v2[n2]) && n2 < n) n2++;
-  /* Compare patch number */
-  if (n1 < n) n1++;
-  if (n2 < n) n2++;
-  d = natoi(v1+n1, n-n1) - natoi(v2+n2, n-n2);
-  if (d) return (d < 0) ? -1 : 1;
-  while (isdigit(v1[n1]) && n1 < n) n1++;
-  while (isdigit(v2[n2]) && n2 < n) n2++;
-  assert(n1 == n2);
-  m = n1;
+  int i, d, pr1=0, pr2=0;
+  size_t m1=0, m2=0, n1, n2;
+  /* Compare major, minor and patch numbers */
+  for (i=0; i<3; i++) {
+    if (i && m1 < n) m1++;
+    if (i && m2 < n) m2++;
+    for (n1=m1; n1 < n && isdigit(v1[n1]); n1++);
+    for (n2=m2; n2 < n && isdigit(v2[n2]); n2++);
+    if ((d = cmpdigits(v1+m1, n1-m1, v2+m2, n2-m2))) return d;
+    m1 = n1;
+    m2 = n2;
+  }
+  assert(m1 == m2);
   /* Compare pre-release */
-  if (m > n) return 0;
-  if (v1[m] == '-') pr1 = 1;
-  if (v2[m] == '-') pr2 = 1;
+  if (v1[m1] == '-') pr1 = 1;
+  if (v2[m2] == '-') pr2 = 1;
   if (!pr1 && pr2) return -1;
   if (pr1 && !pr2) return 1;
   if (pr1 && pr2) {
     do {
       size_t d1, d2;
-      if (m < n) m++;
-      for (n1=m; (isalnum(v1[n1]) || v1[n1] == '-') && n1 < n; n1++);
-      for (n2=m; (isalnum(v2[n2]) || v2[n2] == '-') && n2 < n; n2++);
-      for (d1=m; (isdigit(v1[d1])) && d1 < n; d1++);
-      for (d2=m; (isdigit(v2[d2])) && d2 < n; d2++);
+      if (m1 < n) m1++;
+      if (m2 < n) m2++;
+      for (n1=m1; n1 < n && (isalnum(v1[n1]) || v1[n1] == '-'); n1++);
+      for (n2=m2; n2 < n && (isalnum(v2[n2]) || v2[n2] == '-'); n2++);
+      for (d1=m1; d1 < n && isdigit(v1[d1]); d1++);
+      for (d2=m2; d2 < n && isdigit(v2[d2]); d2++);
       if (d1 == n1 && d2 == n2) {
-        d = natoi(v1+m, n-m) - natoi(v2+m, n-m);
+        d = cmpdigits(v1+m1, n1-m1, v2+m2, n2-m2);
+      } else if (d1 == n1 || d2 == n2) {
+        /* numeric identifiers precede alphanumeric ones */
+        d = (d1 == n1) ? -1 : 1;
       } else {
-        d = strncmp(v1+m, v2+m, MIN(n1, n2)-m);
-        if (d == 0) d = n1 - n2;
+        d = strncmp(v1+m1, v2+m2, MIN(n1-m1, n2-m2));
+        if (d == 0) d = (n1-m1 > n2-m2) - (n1-m1 < n2-m2);
       }
       if (d) return (d < 0) ? -1 : 1;
-      assert(n1 == n2);
-      m = n1;
-    } while (v1[n1] == '.' && v2[n2] == '.');
+      m1 = n1;
+      m2 = n2;
+      /* the one with more identifiers is the larger */
+      d = (m1 < n && v1[m1] == '.') - (m2 < n && v2[m2] == '.');
+      if (d) return d;
+    } while (m1 < n && v1[m1] == '.');
   }
   return 0;
 }
-- 
2.43.0


From c8c958198767f005a67876449a9b878f12412670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 48/65] fix: hash of a collection covered only its last
 relation

---
 src/dlite-collection.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 1d78f8e..21ff6d0 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -90,7 +90,8 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   const uint8_t *buf;
   unsigned bitsize = hashsize * 8;
   TripleState state;
-  const Triple *t, **triples=NULL;
+  const Triple *t;
+  Triple *copies=NULL, **triples=NULL;
   size_t i=0, n=triplestore_length(coll->rstore);
   int retval=1;
 
@@ -106,13 +107,18 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
 
   /* Calculate the hash of a sorted copy of the relations */
   triplestore_init_state(coll->rstore, &state);
-  if (!(triples = malloc(n * sizeof(Triple *))))
+  if (n && (!(copies = calloc(n, sizeof(Triple))) ||
+            !(triples = malloc(n * sizeof(Triple *)))))
     FAILCODE(dliteMemoryError, "allocation failure");
-  while ((t = triplestore_next(&state))) {
-    triples[i++] = t;
+  /* The triple returned by triplestore_next() is overwritten by the next
+     call, so it must be copied. */
+  while (i < n && (t = triplestore_next(&state))) {
+    if (!triple_copy(copies + i, t)) goto fail;
+    triples[i] = copies + i;
+    i++;
   }
   assert(i == n);
-  qsort((void *)triples, n, sizeof(Triple *), _cmp_triple);
+  if (n) qsort((void *)triples, n, sizeof(Triple *), _cmp_triple);
   for (i=0; i<n; i++) {
     if (strcmp(triples[i]->p, "_has-hash") == 0) continue;
     if (strcmp(triples[i]->p, "_has-uuid") == 0) {
@@ -124,8 +130,11 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
         uint8_t hash[DLITE_HASH_SIZE];
         DLiteInstance * inst;
         char hex[2*DLITE_HASH_SIZE+1];
+        int stat;
         if (!(inst = dlite_instance_get(triples[i]->o))) goto fail;
-        if (dlite_instance_get_hash(inst, hash, DLITE_HASH_SIZE))
+        stat = dlite_instance_get_hash(inst, hash, DLITE_HASH_SIZE);
+        dlite_instance_decref(inst);
+        if (stat)
           FAILCODE1(dliteValueError,
                     "error calculating hash of instance '%s'", triples[i]->o);
         if (strhex_encode(hex, sizeof(hex), hash, DLITE_HASH_SIZE) < 0)
@@ -144,7 +153,11 @@ int dlite_collection_gethash(const DLiteInstance *inst, uint8_t *hash,
   retval = 0;
  fail:
   triplestore_deinit_state(&state);
-  free((void *)triples);
+  if (copies) {
+    for (i=0; i<n; i++) triple_clean(copies + i);
+    free(copies);
+  }
+  if (triples) free((void *)triples);
   return retval;
 }
 
-- 
2.43.0


From 9babb6ca6e7d629ff137023a14d59afe32f1e343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:47 +0000
Subject: [PATCH 49/65] fix: loading a collection loaded the metadata instead
 of the instances

---
 src/dlite-collection.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 21ff6d0..37f76bb 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -304,15 +304,23 @@ DLiteCollection *dlite_collection_load(DLiteStorage *s, const char *id,
   dlite_collection_init_state(coll, &state);
   while ((t = dlite_collection_find(coll, &state, NULL, "_has-uuid", NULL,
                                     NULL))) {
+    /* `t` is overwritten by the next call to dlite_collection_find_first() */
+    char uuid[DLITE_UUID_LENGTH+1];
+    if (dlite_get_uuid(uuid, t->o) < 0) goto fail;
+
+    /* Instances that are found in memory have already been added to the
+       collection when it was loaded. */
+    if (dlite_instance_has(uuid, 0)) continue;
+
     if (!(t2 = dlite_collection_find_first(coll, t->s, "_has-meta", NULL,
                                            NULL)))
       FAILCODE1(dliteInconsistentDataError,
                 "collection inconsistency - no \"_has-meta\" relation for "
-                "instance: %s", t->s);
+                "instance: %s", uuid);
     if (strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0) {
-      if (!dlite_collection_load(s, t->o, 0)) goto fail;
+      if (!dlite_collection_load(s, uuid, 0)) goto fail;
     } else {
-      if (!dlite_instance_load(s, t->o)) goto fail;
+      if (!dlite_instance_load(s, uuid)) goto fail;
     }
   }
   dlite_collection_deinit_state(&state);
-- 
2.43.0


From e761331d595f09f27fbf194b655084aabdcd1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:41 +0000
Subject: [PATCH 50/65] fix: loading relations into a collection leaked
 references to its members

Setting the relations of a collection that already has members (or
synchronising them from its properties) takes a new reference to every
member, but did not release the references already held.
---
 src/dlite-collection.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 37f76bb..1de2f31 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -175,13 +175,31 @@ int dlite_collection_loadprop(const DLiteInstance *inst, size_t i)
 {
   int retval = 0;
   DLiteCollection *coll = (DLiteCollection *)inst;
+  DLiteInstance **old=NULL;
+  size_t j, nold=0, n;
   TripleState state;
   const Triple *t;
   if (i != 0) return errx(dliteIndexError,
                          "index out of range: %lu", (unsigned long)i);
+
+  /* The collection holds a reference to each of its current instances.  Keep
+     them until references to the new instances have been obtained. */
+  if ((n = triplestore_length(coll->rstore))) {
+    if (!(old = calloc(n, sizeof(DLiteInstance *))))
+      return err(dliteMemoryError, "allocation failure");
+    triplestore_init_state(coll->rstore, &state);
+    while (nold < n &&
+           (t = triplestore_find(&state, NULL, "_has-uuid", NULL, NULL)))
+      if ((old[nold] = dlite_instance_has(t->o, 0))) nold++;
+    triplestore_deinit_state(&state);
+  }
+
   triplestore_clear(coll->rstore);
-  if (triplestore_add_triples(coll->rstore, coll->relations, coll->nrelations))
-    return -1;
+  if (triplestore_add_triples(coll->rstore, coll->relations,
+                              coll->nrelations)) {
+    retval = -1;
+    goto fail;
+  }
 
   /* Iterate over all newly added triples and load instances corresponding
      to "_has-uuid" relations. */
@@ -196,6 +214,9 @@ int dlite_collection_loadprop(const DLiteInstance *inst, size_t i)
   }
   triplestore_deinit_state(&state);
 
+ fail:
+  for (j=0; j<nold; j++) dlite_instance_decref(old[j]);
+  if (old) free(old);
   return retval;
 }
 
-- 
2.43.0


From a2a7b08eee9726b7b3d97c8c2d6fd76de5183905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:59 +0000
Subject: [PATCH 51/65] fix: loading a collection counted one reference for
 several labels

A member not in memory that is in the collection under several labels (or
that was loaded as a member of another member) was referred to only once,
although a reference is released for every label.
---
 src/dlite-collection.c | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/dlite-collection.c b/src/dlite-collection.c
index 1de2f31..e95489b 100644
--- a/src/dlite-collection.c
+++ b/src/dlite-collection.c
@@ -313,6 +313,8 @@ DLiteCollection *dlite_collection_load(DLiteStorage *s, const char *id,
   DLiteCollection *coll;
   DLiteCollectionState state;
   const Triple *t, *t2;
+  struct { char uuid[DLITE_UUID_LENGTH+1]; int iscoll; } *missing=NULL;
+  size_t i, n, nmissing=0;
 
   if (!(coll = (DLiteCollection *)dlite_instance_load(s, id)))
     return NULL;
@@ -323,31 +325,40 @@ DLiteCollection *dlite_collection_load(DLiteStorage *s, const char *id,
   }
 
   dlite_collection_init_state(coll, &state);
-  while ((t = dlite_collection_find(coll, &state, NULL, "_has-uuid", NULL,
+
+  /* Instances that are found in memory were referred to by the collection
+     when it was loaded.  Find the ones that are missing before loading any of
+     them, since the collection should hold a reference for each label. */
+  n = triplestore_length(coll->rstore);
+  if (n && !(missing = calloc(n, sizeof(*missing))))
+    FAILCODE(dliteMemoryError, "allocation failure");
+  while (nmissing < n &&
+         (t = dlite_collection_find(coll, &state, NULL, "_has-uuid", NULL,
                                     NULL))) {
     /* `t` is overwritten by the next call to dlite_collection_find_first() */
-    char uuid[DLITE_UUID_LENGTH+1];
+    char *uuid = missing[nmissing].uuid;
     if (dlite_get_uuid(uuid, t->o) < 0) goto fail;
-
-    /* Instances that are found in memory have already been added to the
-       collection when it was loaded. */
     if (dlite_instance_has(uuid, 0)) continue;
-
     if (!(t2 = dlite_collection_find_first(coll, t->s, "_has-meta", NULL,
                                            NULL)))
       FAILCODE1(dliteInconsistentDataError,
                 "collection inconsistency - no \"_has-meta\" relation for "
                 "instance: %s", uuid);
-    if (strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0) {
-      if (!dlite_collection_load(s, uuid, 0)) goto fail;
+    missing[nmissing++].iscoll = strcmp(t2->o, DLITE_COLLECTION_ENTITY) == 0;
+  }
+  for (i=0; i<nmissing; i++) {
+    if (missing[i].iscoll) {
+      if (!dlite_collection_load(s, missing[i].uuid, 0)) goto fail;
     } else {
-      if (!dlite_instance_load(s, uuid)) goto fail;
+      if (!dlite_instance_load(s, missing[i].uuid)) goto fail;
     }
   }
   dlite_collection_deinit_state(&state);
+  if (missing) free(missing);
   return coll;
  fail:
   dlite_collection_deinit_state(&state);
+  if (missing) free(missing);
   if (coll) dlite_collection_decref(coll);
   return NULL;
 }
-- 
2.43.0


From c67ffd87a17a56cbd86edcf20efc5b374a5dd108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 52/65] fix: bson_scan_bool() read strings instead of booleans

---
 src/utils/bson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/bson.c b/src/utils/bson.c
index 886d5fd..8b142d0 100644
--- a/src/utils/bson.c
+++ b/src/utils/bson.c
@@ -738,7 +738,7 @@ bool bson_scan_bool(const unsigned char *doc, const char *ename,
       *errcode = bsonKeyError;
     }
     return 0;
-  } else if (type != bsonString) {
+  } else if (type != bsonBool) {
     errx(bsonTypeError,
          "expected element '%s' to be boolean, got %s",
          ename, bson_typename(type));
-- 
2.43.0


From 9f366330ad98f5d73f63c159ad648bfaf1957217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 53/65] fix: fractional part of scalar floats was lost when
 loading bson

le64toh() works on integers, so the value was converted to an integer.
---
 src/dlite-bson.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 68ae99c..80d93e5 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -652,8 +652,11 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
     break;
 
   case dliteFloat:
-    if (btype == bsonDouble)
-      f64 = le64toh(*((float64_t *)data));
+    if (btype == bsonDouble) {
+      memcpy(&u64, data, sizeof(u64));
+      u64 = le64toh(u64);
+      memcpy(&f64, &u64, sizeof(f64));
+    }
 #ifdef HAVE_FLOAT128
     else if (btype == bsonDecimal128)
       f128 = le128toh(*((float128_t *)data));
-- 
2.43.0


From 7c27a74e535eda5172b7ebce7a273f664ebb9fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 54/65] fix: serialising NULL strings to bson crashed

A NULL string is written as null.  In arrays, that are written as a sequence of
strings, it is written as an empty string.
---
 src/dlite-bson.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 80d93e5..ba4e29b 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -130,6 +130,7 @@ static int append_property(unsigned char *buf, int bufsize,
         n += m;
         for (i=0; i<nmemb; i++) {
           char *s = ((char **)ptr)[i];
+          if (!s) s = "";
           if ((m = bson_append_binary(subdoc, bufsize-n, strlen(s)+1, s)) < 0)
             return m;
           n += m;
@@ -244,8 +245,11 @@ static int append_property(unsigned char *buf, int bufsize,
       break;
 
     case dliteStringPtr:
-      APPEND(buf, bsonString, p->name,
-             strlen(*((char **)ptr)), *((char **)ptr));
+      if (*((char **)ptr))
+        APPEND(buf, bsonString, p->name,
+               strlen(*((char **)ptr)), *((char **)ptr));
+      else
+        APPEND(buf, bsonNull, p->name, 0, NULL);
       break;
 
     case dliteRef:
-- 
2.43.0


From a07f17963a08d13b85582bf7c72373be8e1a5c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 55/65] fix: references were written to bson as a part of the
 uuid and read as pointers

---
 src/dlite-bson.c | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index ba4e29b..69ab48e 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -147,8 +147,9 @@ static int append_property(unsigned char *buf, int bufsize,
           return m;
         n += m;
         for (i=0; i<nmemb; i++) {
-          char *uuid = ((DLiteInstance **)ptr)[i]->uuid;
-          if ((m = bson_append_binary(subdoc, bufsize-n, DLITE_UUID_LENGTH+1,
+          DLiteInstance *ref = ((DLiteInstance **)ptr)[i];
+          char *uuid = (ref) ? ref->uuid : "";
+          if ((m = bson_append_binary(subdoc, bufsize-n, strlen(uuid)+1,
                                       uuid)) < 0) return m;
           n += m;
         }
@@ -253,8 +254,10 @@ static int append_property(unsigned char *buf, int bufsize,
       break;
 
     case dliteRef:
-      APPEND(buf, bsonString, p->name, p->size,
-             (*((DLiteInstance **)ptr))->uuid);
+      if (*((DLiteInstance **)ptr))
+        APPEND(buf, bsonString, p->name, -1, (*((DLiteInstance **)ptr))->uuid);
+      else
+        APPEND(buf, bsonNull, p->name, 0, NULL);
       break;
 
     case dliteDimension:
@@ -549,7 +552,6 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
   case dliteBlob:
   case dliteBool:
   case dliteFixString:
-  case dliteRef:
     dlite_instance_set_property_by_index(inst, idx, data);
     break;
 
@@ -588,6 +590,19 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
     }
     break;
 
+  case dliteRef:
+    {
+      DLiteInstance **v = ptr;
+      char *s = data;
+      for (i=0; i < nmemb; i++) {
+        if (*s && !(v[i] = dlite_instance_get(s)))
+          return err(dliteKeyError, "cannot load instance referred to by "
+                     "property '%s': %s", p->name, s);
+        s += strlen(s)+1;
+      }
+    }
+    break;
+
   case dliteDimension:
   case dliteProperty:
     return err(dliteInconsistentDataError, "data instance should not "
@@ -625,7 +640,6 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
   case dliteBlob:
   case dliteBool:
   case dliteFixString:
-  case dliteRef:
     dlite_instance_set_property_by_index(inst, idx, data);
     break;
 
@@ -693,6 +707,11 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
   case dliteStringPtr:
     *((char **)ptr) = strdup(data);
     break;
+  case dliteRef:
+    if (!(*((DLiteInstance **)ptr) = dlite_instance_get(data)))
+      return err(dliteKeyError, "cannot load instance referred to by "
+                 "property '%s': %s", p->name, (char *)data);
+    break;
   case dliteDimension:
   case dliteProperty:
     return err(dliteInconsistentDataError, "data instance should not "
-- 
2.43.0


From 13cca1a160962baeda4a71c2cd59daca9607ec9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 56/65] fix: loading arrays of strings from bson dereferenced
 their text

---
 src/dlite-bson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 69ab48e..a6fbc49 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -581,7 +581,7 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
   case dliteStringPtr:
     {
       char **v = ptr;
-      char *s = *((char **)data);
+      char *s = data;
       for (i=0; i < nmemb; i++) {
         int n = strlen(s);
         v[i] = strdup(s);
-- 
2.43.0


From bd130f3dd524eda2915ad8f8279a690ce86c4aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 57/65] fix: relations written to bson could not be read back

An array of relations is written as an array of documents instead of as several
elements with the same name.  The datatype of the object is included.
---
 src/dlite-bson.c | 92 ++++++++++++++++++++++++++++++------------------
 1 file changed, 57 insertions(+), 35 deletions(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index a6fbc49..a1ed082 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -43,6 +43,13 @@
     n += m;                                                             \
   } while (0)
 
+#define APPEND_RELATION(buf, ename, rel)                                \
+  do {                                                                  \
+    int m = append_relation(buf, bufsize-n, ename, rel);                \
+    if (m < 0) return m;                                                \
+    n += m;                                                             \
+  } while (0)
+
 
 /* Returns BSON type corresponding to DLite type for scalar data or
    a negative error code on error. */
@@ -76,6 +83,28 @@ static BsonType bsontype(DLiteType dtype, size_t size)
 }
 
 
+/*
+  Append relation `rel` to BSON document as a sub-document named `ename`.
+  Fields that are NULL are left out.
+
+  Returns number of bytes appended (or would have been appended) to `buf`
+  or a negative error code on error.
+ */
+static int append_relation(unsigned char *buf, int bufsize, const char *ename,
+                           const DLiteRelation *rel)
+{
+  int n=0;
+  unsigned char *subdoc;
+  BEGIN_SUBDOC(buf, ename, &subdoc);
+  if (rel->s) APPEND(subdoc, bsonString, "s", -1, rel->s);
+  if (rel->p) APPEND(subdoc, bsonString, "p", -1, rel->p);
+  if (rel->o) APPEND(subdoc, bsonString, "o", -1, rel->o);
+  if (rel->d) APPEND(subdoc, bsonString, "d", -1, rel->d);
+  END_SUBDOC(buf, bsonDocument);
+  return n;
+}
+
+
 /*
   Append DLite property to BSON document.
 
@@ -163,14 +192,15 @@ static int append_property(unsigned char *buf, int bufsize,
                   dlite_type_get_dtypename(p->type));
 
     case dliteRelation:
-      for (i=0; i<nmemb; i++) {
-        unsigned char *subdoc;
-        DLiteRelation rel = *((DLiteRelation *)ptr + i);
-        BEGIN_SUBDOC(buf, p->name, &subdoc);
-        APPEND(subdoc, bsonString, "s", -1, rel.s);
-        APPEND(subdoc, bsonString, "p", -1, rel.p);
-        APPEND(subdoc, bsonString, "o", -1, rel.o);
-        END_SUBDOC(buf, bsonDocument);
+      {
+        unsigned char *arr;
+        BEGIN_SUBDOC(buf, p->name, &arr);
+        for (i=0; i<nmemb; i++) {
+          char index[20];
+          snprintf(index, sizeof(index), "%d", i);
+          APPEND_RELATION(arr, index, (DLiteRelation *)ptr + i);
+        }
+        END_SUBDOC(buf, bsonArray);
       }
       break;
     }
@@ -266,15 +296,8 @@ static int append_property(unsigned char *buf, int bufsize,
                   dlite_type_get_dtypename(p->type));
 
     case dliteRelation:
-      {
-        unsigned char *subdoc;
-        DLiteRelation rel = *((DLiteRelation *)ptr);
-        BEGIN_SUBDOC(buf, p->name, &subdoc);
-        APPEND(subdoc, bsonString, "s", -1, rel.s);
-        APPEND(subdoc, bsonString, "p", -1, rel.p);
-        APPEND(subdoc, bsonString, "o", -1, rel.o);
-        END_SUBDOC(buf, bsonDocument);
-      }
+      APPEND_RELATION(buf, p->name, (DLiteRelation *)ptr);
+      break;
     }
   }
   return n;
@@ -429,31 +452,31 @@ unsigned char *dlite_bson_from_instance(const DLiteInstance *inst,
                "', got '%s'", bson_typename(type))
 
 
-/* Read relations from `subdoc` and write them to `d` of length `len`.
+/* Read relation from sub-document `subdoc` and write it to `rel`. */
+static void parse_relation(const unsigned char *subdoc, DLiteRelation *rel)
+{
+  const char *s;
+  if ((s = bson_scan_string(subdoc, "s", NULL))) rel->s = strdup(s);
+  if ((s = bson_scan_string(subdoc, "p", NULL))) rel->p = strdup(s);
+  if ((s = bson_scan_string(subdoc, "o", NULL))) rel->o = strdup(s);
+  if ((s = bson_scan_string(subdoc, "d", NULL))) rel->d = strdup(s);
+}
+
+/* Read relations from `subdoc` and write them to `rel` of length `len`.
    Returns non-zero on error. */
 static int parse_relations(const unsigned char *subdoc, DLiteRelation *rel,
                             int len)
 {
   unsigned char *buf, *endptr=NULL;
-  char *ename;
   int type, i=0;
-  while ((type = bson_parse(subdoc, &ename, (void **)&buf, NULL, &endptr))) {
-    if (i++ >= len)
-      return err(dliteIndexError, "too many relations in bson, expected %d",
-                 len);
+  while ((type = bson_parse(subdoc, NULL, (void **)&buf, NULL, &endptr))) {
     if (type != bsonDocument)
       return err(dliteTypeError, "bson relations should be document, got %s",
                  bson_typename(type));
-    unsigned char *ep=NULL;
-    int e;
-    char *s, *p, *o;
-    if ((e = bson_parse(buf, NULL, (void **)&s, NULL, &ep)) < 0) return e;
-    if ((e = bson_parse(buf, NULL, (void **)&p, NULL, &ep)) < 0) return e;
-    if ((e = bson_parse(buf, NULL, (void **)&o, NULL, &ep)) < 0) return e;
-    rel->s = strdup(s);
-    rel->p = strdup(p);
-    rel->o = strdup(o);
-    rel++;
+    if (i++ >= len)
+      return err(dliteIndexError, "too many relations in bson, expected %d",
+                 len);
+    parse_relation(buf, rel++);
   }
   if (i != len) return err(dliteIndexError, "too few relations in bson, "
                            "got  %d, expected %d", i, len);
@@ -625,7 +648,6 @@ static int set_array_property(DLiteInstance *inst, int idx, void *data,
  */
 static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
 {
-  int stat;
   int32_t i32;
   int64_t i64;
   uint64_t u64;
@@ -718,7 +740,7 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
                "have a property of type: %s",
                dlite_type_get_enum_name(p->type));
   case dliteRelation:
-    if ((stat = parse_relations(data, ptr, 1))) return stat;
+    parse_relation(data, ptr);
     break;
   }
   return 0;
-- 
2.43.0


From 49a79b2a7ee09e7c61984ffe61aa4ebc163e8495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 58/65] fix: description, name, version, namespace and
 references of metadata were lost in bson

---
 src/dlite-bson.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index a1ed082..1f9a2aa 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -507,6 +507,27 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
   return 0;
 }
 
+/* Assign name, version, namespace and description of metadata `inst`.
+   Return non-zero on error. */
+static int set_meta_strings(DLiteInstance *inst, const char *description)
+{
+  int i, stat=0;
+  char *values[3] = {NULL, NULL, NULL};
+  const char *names[] = {"name", "version", "namespace"};
+  if (inst->uri &&
+      (stat = dlite_split_meta_uri(inst->uri, values, values+1, values+2)))
+    goto fail;
+  for (i=0; !stat && i<3; i++)
+    if (values[i] && dlite_meta_has_property(inst->meta, names[i]))
+      stat = dlite_instance_set_property(inst, names[i], values + i);
+  if (!stat && description &&
+      dlite_meta_has_property(inst->meta, "description"))
+    stat = dlite_instance_set_property(inst, "description", &description);
+ fail:
+  for (i=0; i<3; i++) if (values[i]) free(values[i]);
+  return stat;
+}
+
 /* Read `subdoc` and assign metadata properties. Return non-zero on error. */
  static int set_meta_properties(DLiteMeta *meta, unsigned char *subdoc)
 {
@@ -526,7 +547,11 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
     while ((type = bson_parse(buf, &ename, (void **)&value, NULL, &bufptr))) {
       if (strcmp(ename, "type") == 0) {
         TYPECHECK("type", bsonString);
-        dlite_type_set_dtype_and_size(value, &(p->type), &(p->size));
+        if (dlite_type_set_dtype_and_size(value, &(p->type), &(p->size)))
+          return 1;
+      } else if (strcmp(ename, "$ref") == 0) {
+        TYPECHECK("$ref", bsonString);
+        p->ref = strdup(value);
       } else if (strcmp(ename, "shape") == 0) {
         unsigned char *b=(unsigned char *)value, *ep=NULL;
         char *v;
@@ -806,6 +831,9 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
 
   if (dlite_instance_is_meta(inst)) {
     /* Metadata */
+    if (set_meta_strings(inst, bson_scan_string(doc, "description", NULL)))
+      goto fail;
+
     if ((type = bson_scan(doc, "dimensions", (void **)&subdoc, NULL)) < 0 ||
         set_meta_dimensions((DLiteMeta *)inst, subdoc)) goto fail;
 
-- 
2.43.0


From 28cf6fd21809730cc47e1b7c969717cbb4ab234d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 59/65] fix: parent of an instance written to bson was not read
 back

---
 src/dlite-bson.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 1f9a2aa..03a4446 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -507,6 +507,23 @@ static int set_meta_dimensions(DLiteMeta *meta, unsigned char *subdoc)
   return 0;
 }
 
+/* Read `subdoc` and assign parent of `inst`.  Return non-zero on error. */
+static int set_parent(DLiteInstance *inst, const unsigned char *subdoc)
+{
+  void *hash;
+  int n=0;
+  const char *uuid = bson_scan_string(subdoc, "uuid", NULL);
+  if (!uuid || strlen(uuid) != DLITE_UUID_LENGTH ||
+      bson_scan(subdoc, "hash", &hash, &n) != bsonBinary ||
+      n != DLITE_HASH_SIZE)
+    return err(dliteInconsistentDataError, "invalid parent in bson");
+  if (!(inst->_parent = calloc(1, sizeof(DLiteParent))))
+    return err(dliteMemoryError, "allocation failure");
+  memcpy(inst->_parent->uuid, uuid, DLITE_UUID_LENGTH+1);
+  memcpy(inst->_parent->hash, hash, DLITE_HASH_SIZE);
+  return 0;
+}
+
 /* Assign name, version, namespace and description of metadata `inst`.
    Return non-zero on error. */
 static int set_meta_strings(DLiteInstance *inst, const char *description)
@@ -829,6 +846,10 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
     FAILCODE(dliteKeyError, "bson data is missing uri and/or uuid");
   if (!(inst = dlite_instance_create_from_id(metaid, dims, id))) goto fail;
 
+  /* Get parent */
+  if ((type = bson_scan(doc, "parent", (void **)&subdoc, NULL)) < 0) goto fail;
+  if (type == bsonDocument && set_parent(inst, subdoc)) goto fail;
+
   if (dlite_instance_is_meta(inst)) {
     /* Metadata */
     if (set_meta_strings(inst, bson_scan_string(doc, "description", NULL)))
-- 
2.43.0


From 1388bbd70adef27c1e193ca1ac08b26ceaa46fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 60/65] fix: loading an existing instance from bson overwrote
 it

This leaked its values and could even change frozen instances.
---
 src/dlite-bson.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 03a4446..932ca7d 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -844,6 +844,11 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
   /* Create instance */
   if (!(id = (uri) ? uri : (uuid) ? uuid : NULL))
     FAILCODE(dliteKeyError, "bson data is missing uri and/or uuid");
+  if (dlite_instance_has(id, 0)) {
+    /* If instance already exists, return it immediately */
+    free(dims);
+    return dlite_instance_get(id);
+  }
   if (!(inst = dlite_instance_create_from_id(metaid, dims, id))) goto fail;
 
   /* Get parent */
-- 
2.43.0


From 70b56a1a4bdb0a491279c6ec03b3ef160827deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:14 +0000
Subject: [PATCH 61/65] fix: size of arrays in bson was not checked

---
 src/dlite-bson.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 932ca7d..64aad92 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -598,6 +598,35 @@ static int set_meta_strings(DLiteInstance *inst, const char *description)
 }
 
 
+/*
+  Check that `data` of `type` and `size` fits to array property `idx`.
+  Returns non-zero on error.
+ */
+static int check_array_property(const DLiteInstance *inst, int idx, int type,
+                                const char *data, int size)
+{
+  int i, n=0;
+  DLiteProperty *p = DLITE_PROP_DESCR(inst, idx);
+  size_t nmemb=1, *shape=DLITE_PROP_DIMS(inst, idx);
+  int expected = (p->type == dliteRelation) ? bsonArray : bsonBinary;
+  if (type != expected)
+    return err(dliteInconsistentDataError, "expected bson type '%s', got '%s' "
+               "for property: %s", bson_typename(expected),
+               bson_typename(type), p->name);
+  for (i=0; i < p->ndims; i++) nmemb *= shape[i];
+  if (p->type == dliteStringPtr || p->type == dliteRef) {
+    for (i=0; i<size; i++) if (!data[i]) n++;
+    if ((size_t)n != nmemb || (size && data[size-1]))
+      return err(dliteInconsistentDataError, "expected %d strings, got %d "
+                 "for property: %s", (int)nmemb, n, p->name);
+  } else if (p->type != dliteRelation && (size_t)size != nmemb*p->size) {
+    return err(dliteInconsistentDataError, "expected %d bytes, got %d "
+               "for property: %s", (int)(nmemb*p->size), size, p->name);
+  }
+  return 0;
+}
+
+
 /*
   Set array property `idx` of `inst` from `data`.
   If `byteswap` is non-zero, the data will by byteswapped.
@@ -880,6 +909,7 @@ DLiteInstance *dlite_bson_load_instance(const unsigned char *doc)
       DLiteProperty *p = DLITE_PROP_DESCR(inst, idx);
       int btype = bsontype(p->type, p->size);
       if (p->ndims) {
+        if (check_array_property(inst, idx, type, data, datasize)) goto fail;
         if (set_array_property(inst, idx, data, byteswap)) goto fail;
       } else {
         if (type != btype)
-- 
2.43.0


From d7bd75991616d7c286e7e6f7a603c1f99294e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:50 +0000
Subject: [PATCH 62/65] fix: starting a binary BSON element read the document
 before checking the buffer size

---
 src/utils/bson.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/bson.c b/src/utils/bson.c
index 8b142d0..80a7a82 100644
--- a/src/utils/bson.c
+++ b/src/utils/bson.c
@@ -401,9 +401,9 @@ int bson_end_subdoc(unsigned char *doc, int bufsize, BsonType type)
 int bson_begin_binary(unsigned char *doc, int bufsize, const char *ename,
                       unsigned char **subdoc)
 {
-  int docsize=bson_docsize(doc), elen=strlen(ename), esize=elen+6;
-  if ((docsize) < 0) return docsize;
+  int docsize, elen=strlen(ename), esize=elen+6;
   if (bufsize < esize) return esize;
+  if ((docsize = bson_docsize(doc)) < 0) return docsize;
   if (doc[docsize-1]) return errx(bsonInconsistentDataError,
                                   "expect BSON document to end with NUL");
 
-- 
2.43.0


From 0b37ee1db6ba28765484115fc780f24c7bf8f150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:53 +0000
Subject: [PATCH 63/65] fix: the size of BSON arrays of strings was one byte
 short, written past the buffer

---
 src/dlite-bson.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 64aad92..873b1a6 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -165,6 +165,7 @@ static int append_property(unsigned char *buf, int bufsize,
           n += m;
         }
         if ((m = bson_end_binary(buf, bufsize-n)) < 0) return m;
+        n += m;
       }
       break;
 
@@ -183,6 +184,7 @@ static int append_property(unsigned char *buf, int bufsize,
           n += m;
         }
         if ((m = bson_end_binary(buf, bufsize-n)) < 0) return m;
+        n += m;
       }
       break;
 
-- 
2.43.0


From 3c6c6b098a6913c8672a2d10dfc87c8d5a14bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:10 +0000
Subject: [PATCH 64/65] fix: reading 4 byte unsigned integers from BSON gave an
 uninitialised value

---
 src/dlite-bson.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 873b1a6..6668afc 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -759,7 +759,7 @@ static int set_scalar_property(DLiteInstance *inst, int idx, void *data)
     switch (p->size) {
     case 1: *((uint8_t *)ptr)  = i32; break;
     case 2: *((uint16_t *)ptr) = i32; break;
-    case 4: *((uint32_t *)ptr) = i32; break;
+    case 4: *((uint32_t *)ptr) = u64; break;
     case 8: *((uint64_t *)ptr) = u64; break;
     }
     break;
-- 
2.43.0


From 91e703748eb8f6e8d2d90a8035d80190e4b7d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:19 +0000
Subject: [PATCH 65/65] fix: serialising dimensions without description to bson
 crashed

---
 src/dlite-bson.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dlite-bson.c b/src/dlite-bson.c
index 6668afc..12c3e8a 100644
--- a/src/dlite-bson.c
+++ b/src/dlite-bson.c
@@ -360,7 +360,8 @@ int dlite_bson_append_instance(unsigned char *buf, int bufsize,
     BEGIN_SUBDOC(buf, "dimensions", &subdoc);
     for (i=0; i < meta->_ndimensions; i++) {
       DLiteDimension *d = meta->_dimensions + i;
-      APPEND(subdoc, bsonString, d->name, -1, d->description);
+      APPEND(subdoc, bsonString, d->name, -1,
+             (d->description) ? d->description : "");
     }
     END_SUBDOC(buf, bsonDocument);
 
-- 
2.43.0

