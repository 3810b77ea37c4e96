From 37dc1ab9f675329560d3df0294a0357cb6046091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 01/65] fix: sp_block_with_offset returns a block that ends
 where the original block ends

---
 source/c-precompiled/sph-sp/main.c | 1 +
 source/sc/sph-sp/main.sc           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2e62223..3b56a5d 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -157,6 +157,7 @@ sp_block_t sp_block_with_offset(sp_block_t a, sp_time_t offset) {
   for (sp_size_t i = 0; (i < a.channel_count); i += 1) {
     (a.samples)[i] += offset;
   };
+  a.size -= offset;
   return (a);
 }
 void sp_block_zero(sp_block_t a) {
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 946b16c..cec6b01 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -98,6 +98,7 @@
 (define (sp-block-with-offset a offset) (sp-block-t sp-block-t sp-time-t)
   "return a new block with offset added to all channel sample arrays"
   (sp-for-each-index i a.channel-count (set+ (array-get a.samples i) offset))
+  (set- a.size offset)
   (return a))
 
 (define (sp-block-zero a) (void sp-block-t)
-- 
2.43.0


From 6319e6654e79211794ed81dde83e4f39953cc657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 02/65] fix: absolute_max of samples does not truncate to
 integers

---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index edd31bb..697895d 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -36,8 +36,8 @@
 \
   /** get the maximum value in samples array, disregarding sign */ \
   value_t sp_##type_name##_absolute_max(value_t* in, sp_size_t count) { \
-    sp_time_t temp; \
-    sp_time_t max; \
+    value_t temp; \
+    value_t max; \
     max = 0; \
     for (sp_size_t i = 0; (i < count); i += 1) { \
       temp = sp_inline_abs((in[i])); \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 7428536..070696b 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -28,7 +28,7 @@
       (return out))
     (define ((pre-concat sp_ type-name _absolute-max) in count) (value-t value-t* sp-size-t)
       "get the maximum value in samples array, disregarding sign"
-      (declare temp sp-time-t max sp-time-t)
+      (declare temp value-t max value-t)
       (set max 0)
       (sp-for-each-index i count
         (set temp (sp-inline-abs (array-get in i)))
-- 
2.43.0


From b1a749c06ae63f286afd5f62d6bebebe251b03aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:02 +0000
Subject: [PATCH 03/65] fix: array reverse writes inside of the output array

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 697895d..bb1ff8e 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -49,7 +49,7 @@
   } \
   void sp_##type_name##_reverse(value_t* in, sp_size_t count, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      out[(count - i)] = in[i]; \
+      out[(count - (i + 1))] = in[i]; \
     }; \
   } \
   sp_bool_t sp_##type_name##_equal(value_t* in, sp_size_t count, value_t value) { \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 070696b..6c2421c 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -35,7 +35,7 @@
         (if (> temp max) (set max temp)))
       (return max))
     (define ((pre-concat sp_ type-name _reverse) in count out) (void value-t* sp-size-t value-t*)
-      (sp-for-each-index i count (set (array-get out (- count i)) (array-get in i))))
+      (sp-for-each-index i count (set (array-get out (- count (+ i 1))) (array-get in i))))
     (define ((pre-concat sp_ type-name _equal) in count value)
       (sp-bool-t value-t* sp-size-t value-t)
       (sp-for-each-index i count (if (not (= value (array-get in i))) (return 0)))
-- 
2.43.0


From acbee6a521b40a4e79fd1d4b7d9af66032834449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 04/65] fix: array and compares both inputs with the limit

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index bb1ff8e..425bba9 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -150,7 +150,7 @@
   /** if a[i] and b[i] greater than limit, take b[i] else 0 */ \
   void sp_##type_name##_and_##type_name(value_t* a, value_t* b, sp_size_t count, value_t limit, value_t* out) { \
     for (sp_size_t i = 0; (i < count); i += 1) { \
-      if ((a[i] >= limit) && (a[i] >= limit)) { \
+      if ((a[i] >= limit) && (b[i] >= limit)) { \
         out[i] = b[i]; \
       } else { \
         out[i] = 0; \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 6c2421c..36bc2bd 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -103,7 +103,7 @@
       (void value-t* value-t* sp-size-t value-t value-t*)
       "if a[i] and b[i] greater than limit, take b[i] else 0"
       (sp-for-each-index i count
-        (if (and (>= (array-get a i) limit) (>= (array-get a i) limit))
+        (if (and (>= (array-get a i) limit) (>= (array-get b i) limit))
           (set (array-get out i) (array-get b i))
           (set (array-get out i) 0))))
     (define ((pre-concat sp_ type-name _or_ type-name) a b count limit out)
-- 
2.43.0


From 76b09d579162599d26f949ceaedf75773eca00f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:08 +0000
Subject: [PATCH 05/65] fix: array swap uses the element type, so that swap and
 shuffle of samples keep the values

---
 source/c-precompiled/sph-sp/arrays-template.c | 4 ++--
 source/c-precompiled/sph-sp/arrays-template.h | 2 +-
 source/sc/sph-sp/arrays-template.h.sc         | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index 425bba9..e32c3a8 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -107,8 +107,8 @@
       out[i] = sum; \
     }; \
   } \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
-    sp_time_t temp = in_out[index_1]; \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2) { \
+    value_t temp = in_out[index_1]; \
     in_out[index_1] = in_out[index_2]; \
     in_out[index_2] = temp; \
   } \
diff --git a/source/c-precompiled/sph-sp/arrays-template.h b/source/c-precompiled/sph-sp/arrays-template.h
index 6c30c35..a48cf30 100644
--- a/source/c-precompiled/sph-sp/arrays-template.h
+++ b/source/c-precompiled/sph-sp/arrays-template.h
@@ -17,7 +17,7 @@
   status_t sp_##type_name##_new(sp_size_t count, value_t** out); \
   void sp_##type_name##_copy(value_t* in, sp_size_t count, value_t* out); \
   void sp_##type_name##_cusum(value_t* in, value_t count, value_t* out); \
-  void sp_##type_name##_swap(sp_time_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
+  void sp_##type_name##_swap(value_t* in_out, sp_ssize_t index_1, sp_ssize_t index_2); \
   void sp_##type_name##_shuffle(value_t* in, sp_size_t count); \
   void sp_##type_name##_array_free(value_t** in, sp_size_t count); \
   void sp_##type_name##_additions(value_t start, value_t summand, value_t count, value_t* out); \
diff --git a/source/sc/sph-sp/arrays-template.h.sc b/source/sc/sph-sp/arrays-template.h.sc
index 8b4088e..d7896f4 100644
--- a/source/sc/sph-sp/arrays-template.h.sc
+++ b/source/sc/sph-sp/arrays-template.h.sc
@@ -17,7 +17,7 @@
     ((pre-concat sp_ type-name _new) count out) (status-t sp-size-t value-t**)
     ((pre-concat sp_ type-name _copy) in count out) (void value-t* sp-size-t value-t*)
     ((pre-concat sp_ type-name _cusum) in count out) (void value-t* value-t value-t*)
-    ((pre-concat sp_ type-name _swap) in-out index-1 index-2) (void sp-time-t* sp-ssize-t sp-ssize-t)
+    ((pre-concat sp_ type-name _swap) in-out index-1 index-2) (void value-t* sp-ssize-t sp-ssize-t)
     ((pre-concat sp_ type-name _shuffle) in count) (void value-t* sp-size-t)
     ((pre-concat sp_ type-name _array-free) in count) (void value-t** sp-size-t)
     ((pre-concat sp_ type-name _additions) start summand count out)
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 36bc2bd..4787e57 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -68,8 +68,8 @@
         (set+ sum (array-get in i))
         (set (array-get out i) sum)))
     (define ((pre-concat sp_ type-name _swap) in-out index-1 index-2)
-      (void sp-time-t* sp-ssize-t sp-ssize-t)
-      (define temp sp-time-t (array-get in-out index-1))
+      (void value-t* sp-ssize-t sp-ssize-t)
+      (define temp value-t (array-get in-out index-1))
       (set (array-get in-out index-1) (array-get in-out index-2) (array-get in-out index-2) temp))
     (define ((pre-concat sp_ type-name _shuffle) in count) (void value-t* sp-size-t)
       (sp-shuffle
-- 
2.43.0


From 09b42a8cdb03b9c2b5117ef68e122dbbca5b3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 06/65] fix: round_to_multiple rounds to a multiple

---
 source/c-precompiled/sph-sp/arrays-template.c | 2 +-
 source/sc/sph-sp/arrays-template.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays-template.c b/source/c-precompiled/sph-sp/arrays-template.c
index e32c3a8..7dcf228 100644
--- a/source/c-precompiled/sph-sp/arrays-template.c
+++ b/source/c-precompiled/sph-sp/arrays-template.c
@@ -10,7 +10,7 @@
   uint8_t sp_##value_type_name##_sort_less(void* a, ssize_t b, ssize_t c) { return ((((value_t*)(a))[b] < ((value_t*)(a))[c])); } \
 \
   /** round to the next integer multiple of base  */ \
-  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : sp_cheap_round_positive(((a / ((sp_sample_t)(base))) * base)))); } \
+  value_t sp_##value_type_name##_round_to_multiple(value_t a, value_t base) { return (((0 == a) ? base : (sp_cheap_round_positive((a / ((sp_sample_t)(base)))) * base))); } \
 \
   /** count must be greater than zero */ \
   value_t sp_##type_name##_min(value_t* in, sp_size_t count) { \
diff --git a/source/sc/sph-sp/arrays-template.sc b/source/sc/sph-sp/arrays-template.sc
index 4787e57..4b325e1 100644
--- a/source/sc/sph-sp/arrays-template.sc
+++ b/source/sc/sph-sp/arrays-template.sc
@@ -13,7 +13,7 @@
     (define ((pre-concat sp_ value-type-name _round-to-multiple) a base) (value-t value-t value-t)
       "round to the next integer multiple of base "
       (return
-        (if* (= 0 a) base (sp-cheap-round-positive (* (/ a (convert-type base sp-sample-t)) base)))))
+        (if* (= 0 a) base (* (sp-cheap-round-positive (/ a (convert-type base sp-sample-t))) base))))
     (define ((pre-concat sp_ type-name _min) in count) (value-t value-t* sp-size-t)
       "count must be greater than zero"
       (define out value-t (array-get in 0))
-- 
2.43.0


From 218445a3490ac796c6d9256de71871cdd4b8ff9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:14 +0000
Subject: [PATCH 07/65] fix: sp_times_permutations permutes the given set and
 does not overwrite it

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 84d7d77..2d63fd6 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -85,8 +85,8 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   srq((sp_times_new(size, (&b))));
   temp_out[0] = b;
   temp_out_used_size = 1;
-  sp_times_copy(a, size, set);
-  sp_times_copy(b, size, a);
+  sp_times_copy(set, size, a);
+  sp_times_copy(a, size, b);
   while ((i < size)) {
     if (s[i] < i) {
       if (i & 1) {
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 43fb45c..2741c8d 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -66,8 +66,8 @@
   (srq (sp-calloc-type temp-out-size sp-time-t* &temp-out))
   (srq (sp-times-new size &b))
   (set (array-get temp-out 0) b temp-out-used-size 1)
-  (sp-times-copy a size set)
-  (sp-times-copy b size a)
+  (sp-times-copy set size a)
+  (sp-times-copy a size b)
   (while (< i size)
     (if (< (array-get s i) i)
       (begin
-- 
2.43.0


From 5aec925742b688317785a286781fccfabe12b059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:16 +0000
Subject: [PATCH 08/65] fix: sp_times_permutations initializes the count of
 allocated results before it can fail

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 2d63fd6..5ecbb6c 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -77,6 +77,7 @@ status_t sp_times_permutations(sp_time_t size, sp_time_t* set, sp_time_t set_siz
   b = 0;
   s = 0;
   temp_out = 0;
+  temp_out_used_size = 0;
   i = 0;
   temp_out_size = sp_time_factorial(size);
   srq((sp_times_new(size, (&a))));
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 2741c8d..9e2886d 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -60,7 +60,7 @@
     temp-out sp-time-t**
     temp-out-used-size sp-time-t
     s sp-time-t*)
-  (set a 0 b 0 s 0 temp-out 0 i 0 temp-out-size (sp-time-factorial size))
+  (set a 0 b 0 s 0 temp-out 0 temp-out-used-size 0 i 0 temp-out-size (sp-time-factorial size))
   (srq (sp-times-new size &a))
   (srq (sp-times-new size &s))
   (srq (sp-calloc-type temp-out-size sp-time-t* &temp-out))
-- 
2.43.0


From ab7a8191185b946452db56da123986c808ccc811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:20 +0000
Subject: [PATCH 09/65] fix: sp_times_compositions frees o_sizes only if
 allocated

---
 source/c-precompiled/sph-sp/arrays.c | 1 +
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 5ecbb6c..1632478 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -155,6 +155,7 @@ status_t sp_times_compositions(sp_time_t sum, sp_time_t*** out, sp_time_t* out_s
   sp_time_t y;
   sigma = 1;
   o = 0;
+  o_sizes = 0;
   o_used = 0;
   a = 0;
   k = 1;
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 9e2886d..78bcea3 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -113,7 +113,7 @@
     b-size sp-time-t
     x sp-time-t
     y sp-time-t)
-  (set sigma 1 o 0 o-used 0 a 0 k 1 o-size (sp-time-expt 2 (- sum 1)))
+  (set sigma 1 o 0 o-sizes 0 o-used 0 a 0 k 1 o-size (sp-time-expt 2 (- sum 1)))
   (status-require (sph-helper-calloc (* (+ 1 sum) (sizeof sp-time-t)) &a))
   (status-require (sph-helper-calloc (* o-size (sizeof sp-time-t*)) &o))
   (status-require (sph-helper-calloc (* o-size (sizeof sp-time-t)) &o-sizes))
-- 
2.43.0


From 3b8f75d352b0af08fed37a10615480a8726b2af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 10/65] fix: sp_times_extract_in_range only takes values inside
 the range and stores them consecutively

---
 source/c-precompiled/sph-sp/arrays.c | 4 ++--
 source/sc/sph-sp/arrays.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 1632478..1eb7c26 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -376,8 +376,8 @@ void sp_times_mask(sp_time_t* a, sp_time_t* b, sp_sample_t* coefficients, sp_tim
 void sp_times_extract_in_range(sp_time_t* a, sp_time_t size, sp_time_t min, sp_time_t max, sp_time_t* out, sp_time_t* out_size) {
   *out_size = 0;
   for (sp_size_t i = 0; (i < size); i += 1) {
-    if ((a[i] <= max) || (a[i] >= min)) {
-      out[i] = a[i];
+    if ((a[i] <= max) && (a[i] >= min)) {
+      out[*out_size] = a[i];
       *out_size += 1;
     };
   };
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 78bcea3..a508212 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -274,8 +274,8 @@
   "extract values between min/max inclusive and write to out"
   (set *out-size 0)
   (sp-for-each-index i size
-    (if (or (<= (array-get a i) max) (>= (array-get a i) min))
-      (begin (set (array-get out i) (array-get a i)) (set+ *out-size 1)))))
+    (if (and (<= (array-get a i) max) (>= (array-get a i) min))
+      (begin (set (array-get out *out-size) (array-get a i)) (set+ *out-size 1)))))
 
 (define (sp-times-make-seamless-right a a-count b b-count out)
   (void sp-time-t* sp-time-t sp-time-t* sp-time-t sp-time-t*)
-- 
2.43.0


From afe88528b1bfbb7a1edda4a601b21974ba094bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 11/65] fix: sp_times_scale_sum reads its input

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 1eb7c26..9ddc7f4 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -310,7 +310,7 @@ void sp_times_shuffle_swap(void* a, sp_size_t i1, sp_size_t i2) {
 void sp_times_scale_sum(sp_time_t* in, sp_size_t count, sp_time_t sum, sp_time_t* out) {
   sp_sample_t factor = (((sp_sample_t)(sum)) / sp_times_sum(in, count));
   for (sp_size_t i = 0; (i < count); i += 1) {
-    out[i] = sp_cheap_round_positive((out[i] * factor));
+    out[i] = sp_cheap_round_positive((in[i] * factor));
   };
 }
 
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index a508212..b1fea91 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -220,7 +220,7 @@
    a/out can be the same pointer"
   (define factor sp-sample-t (/ (convert-type sum sp-sample-t) (sp-times-sum in count)))
   (sp-for-each-index i count
-    (set (array-get out i) (sp-cheap-round-positive (* (array-get out i) factor)))))
+    (set (array-get out i) (sp-cheap-round-positive (* (array-get in i) factor)))))
 
 (define (sp-times-multiplications start factor count out)
   (void sp-time-t sp-time-t sp-time-t sp-time-t*)
-- 
2.43.0


From 8e8327a78c57ca451814d961caaa71dfa24e4991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:28 +0000
Subject: [PATCH 12/65] fix: sp_times_scale_y scales with a fractional factor
 and writes to out

---
 source/c-precompiled/sph-sp/arrays.c | 6 ++++--
 source/sc/sph-sp/arrays.sc           | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 9ddc7f4..9258437 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -423,8 +423,10 @@ void sp_times_limit(sp_time_t* a, sp_time_t count, sp_time_t n, sp_time_t* out)
 /** adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer */
 void sp_times_scale_y(sp_time_t* in, sp_size_t count, sp_time_t target_y, sp_time_t* out) {
-  sp_time_t max = sp_times_absolute_max(in, count);
-  sp_times_multiply(in, count, (target_y / max));
+  sp_sample_t factor = (((sp_sample_t)(target_y)) / sp_times_absolute_max(in, count));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = sp_cheap_round_positive((in[i] * factor));
+  };
 }
 
 /** remove count subsequent elements at index from in and write the result to out */
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index b1fea91..8df85b8 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -306,8 +306,10 @@
 (define (sp-times-scale-y in count target-y out) (void sp-time-t* sp-size-t sp-time-t sp-time-t*)
   "adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer"
-  (define max sp-time-t (sp-times-absolute-max in count))
-  (sp-times-multiply in count (/ target-y max)))
+  (define factor sp-sample-t
+    (/ (convert-type target-y sp-sample-t) (sp-times-absolute-max in count)))
+  (sp-for-each-index i count
+    (set (array-get out i) (sp-cheap-round-positive (* (array-get in i) factor)))))
 
 (define (sp-times-remove in size index count out)
   (void sp-time-t* sp-time-t sp-time-t sp-time-t sp-time-t*)
-- 
2.43.0


From 7bc7d8dc516b13e7603d35c9f09ae890812e3d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 13/65] fix: sp_samples_scale_y scales to target_y

---
 source/c-precompiled/sph-sp/arrays.c | 2 +-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 9258437..2b25f2d 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -554,7 +554,7 @@ void sp_samples_divisions(sp_sample_t start, sp_sample_t divisor, sp_time_t coun
    a/out can be the same pointer */
 void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y) {
   sp_sample_t max = sp_samples_absolute_max(in, count);
-  sp_samples_multiply(in, count, (count / max));
+  sp_samples_multiply(in, count, (target_y / max));
 }
 
 /** adjust all values, keeping relative sizes, so that the sum is n.
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 8df85b8..5fd85d7 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -410,7 +410,7 @@
   "adjust all values, keeping relative sizes, so that the maximum value is target_y.
    a/out can be the same pointer"
   (define max sp-sample-t (sp-samples-absolute-max in count))
-  (sp-samples-multiply in count (/ count max)))
+  (sp-samples-multiply in count (/ target-y max)))
 
 (define (sp-samples-scale-sum in count target-y out)
   (void sp-sample-t* sp-size-t sp-sample-t sp-sample-t*)
-- 
2.43.0


From d30ca0c1e90f9f82dd087bddc738f195023866f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:33 +0000
Subject: [PATCH 14/65] fix: sp_samples_scale_sum writes to out

---
 source/c-precompiled/sph-sp/arrays.c | 4 +++-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 2b25f2d..e738240 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -561,7 +561,9 @@ void sp_samples_scale_y(sp_sample_t* in, sp_time_t count, sp_sample_t target_y)
    a/out can be the same pointer */
 void sp_samples_scale_sum(sp_sample_t* in, sp_size_t count, sp_sample_t target_y, sp_sample_t* out) {
   sp_sample_t sum = sp_samples_sum(in, count);
-  sp_samples_multiply(in, count, (target_y / sum));
+  for (sp_size_t i = 0; (i < count); i += 1) {
+    out[i] = (in[i] * (target_y / sum));
+  };
 }
 
 /** interpolate values pointwise between $a and $b with fraction as a fixed interpolation distance 0..1 */
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 5fd85d7..8dbac86 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -417,7 +417,7 @@
   "adjust all values, keeping relative sizes, so that the sum is n.
    a/out can be the same pointer"
   (define sum sp-sample-t (sp-samples-sum in count))
-  (sp-samples-multiply in count (/ target-y sum)))
+  (sp-for-each-index i count (set (array-get out i) (* (array-get in i) (/ target-y sum)))))
 
 (define (sp-samples-blend a b fraction size out)
   (void sp-sample-t* sp-sample-t* sp-sample-t sp-time-t sp-sample-t*)
-- 
2.43.0


From 1ae372f30bbfbe1a6cec3170d16a4c9aabdaaa4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:36 +0000
Subject: [PATCH 15/65] fix: sp_times_random_discrete_unique writes from the
 beginning of out if size exceeds the distribution

---
 source/c-precompiled/sph-sp/arrays.c | 3 ++-
 source/sc/sph-sp/arrays.sc           | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index e738240..87f2b50 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -336,7 +336,8 @@ uint8_t sp_times_contains(sp_time_t* in, sp_size_t count, sp_time_t value) {
 void sp_times_random_discrete_unique(sp_time_t* cudist, sp_time_t cudist_size, sp_time_t size, sp_time_t* out) {
   sp_time_t a;
   sp_time_t remaining;
-  remaining = sp_inline_min(size, cudist_size);
+  size = sp_inline_min(size, cudist_size);
+  remaining = size;
   while (remaining) {
     a = sp_time_random_discrete(cudist, cudist_size);
     if (sp_times_contains(out, (size - remaining), a)) {
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 8dbac86..8106858 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -236,7 +236,7 @@
   (void sp-time-t* sp-time-t sp-time-t sp-time-t*)
   "create size number of unique discrete random numbers with the distribution given by cudist"
   (declare a sp-time-t remaining sp-time-t)
-  (set remaining (sp-inline-min size cudist-size))
+  (set size (sp-inline-min size cudist-size) remaining size)
   (while remaining
     (set a (sp-time-random-discrete cudist cudist-size))
     (if (sp-times-contains out (- size remaining) a) continue)
-- 
2.43.0


From c057488442ac072862b61735e4ce834ec896881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 16/65] fix: sp_times_bits_to_times works with identical input
 and output

---
 source/c-precompiled/sph-sp/arrays.c | 22 +++++++---------------
 source/sc/sph-sp/arrays.sc           | 18 ++++++++----------
 2 files changed, 15 insertions(+), 25 deletions(-)

diff --git a/source/c-precompiled/sph-sp/arrays.c b/source/c-precompiled/sph-sp/arrays.c
index 87f2b50..98cccfa 100644
--- a/source/c-precompiled/sph-sp/arrays.c
+++ b/source/c-precompiled/sph-sp/arrays.c
@@ -213,21 +213,13 @@ void sp_times_select(sp_time_t* in, sp_time_t* indices, sp_time_t count, sp_time
    a/out can be the same pointer */
 void sp_times_bits_to_times(sp_time_t* a, sp_time_t size, sp_time_t* out) {
   sp_time_t i;
-  sp_time_t a_i;
-  sp_time_t bits_i;
-  sp_time_t mask;
-  i = 0;
-  a_i = 0;
-  while ((i < size)) {
-    mask = 1;
-    bits_i = 0;
-    while (((bits_i < (sizeof(sp_time_t) * 8)) && (i < size))) {
-      out[i] = ((a[a_i] & mask) ? 1 : 0);
-      mask = (mask << 1);
-      i += 1;
-      bits_i += 1;
-    };
-    a_i += 1;
+  sp_time_t bits;
+  bits = (sizeof(sp_time_t) * 8);
+  /* from the end because the bits of an element are written to the same or following elements */
+  i = size;
+  while (i) {
+    i -= 1;
+    out[i] = ((a[(i / bits)] >> (i % bits)) & 1);
   };
 }
 
diff --git a/source/sc/sph-sp/arrays.sc b/source/sc/sph-sp/arrays.sc
index 8106858..1ffa932 100644
--- a/source/sc/sph-sp/arrays.sc
+++ b/source/sc/sph-sp/arrays.sc
@@ -140,16 +140,14 @@
 (define (sp-times-bits->times a size out) (void sp-time-t* sp-time-t sp-time-t*)
   "store the bits of a as uint8 in b. size is the number of bits to take.
    a/out can be the same pointer"
-  (declare i sp-time-t a-i sp-time-t bits-i sp-time-t mask sp-time-t)
-  (set i 0 a-i 0)
-  (while (< i size)
-    (set mask 1 bits-i 0)
-    (while (and (< bits-i (* (sizeof sp-time-t) 8)) (< i size))
-      (set
-        (array-get out i) (if* (bit-and (array-get a a-i) mask) 1 0)
-        mask (bit-shift-left mask 1))
-      (set+ i 1 bits-i 1))
-    (set+ a-i 1)))
+  (declare i sp-time-t bits sp-time-t)
+  (set bits (* (sizeof sp-time-t) 8))
+  (sc-comment
+    "from the end because the bits of an element are written to the same or following elements")
+  (set i size)
+  (while i
+    (set- i 1)
+    (set (array-get out i) (bit-and (bit-shift-right (array-get a (/ i bits)) (modulo i bits)) 1))))
 
 (define (sp-times-random-binary size out) (status-t sp-time-t sp-time-t*)
   "write to out values that are randomly either 1 or 0"
-- 
2.43.0


From f77b87cabcd32dc41862c8272980c4bcb34104ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 17/65] fix: convolution filter state remembers the impulse
 response function and argument size after a change

---
 source/c-precompiled/sph-sp/filter.c | 4 ++--
 source/sc/sph-sp/filter.sc           | 7 ++-----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index e59b0fc..5ceb19f 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -46,10 +46,10 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
     memreg_add((state->ir_f_arguments));
     state->carryover_alloc_len = 0;
     state->carryover = 0;
-    state->ir_f = ir_f;
-    state->ir_f_arguments_len = ir_f_arguments_len;
   };
   memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
+  state->ir_f = ir_f;
+  state->ir_f_arguments_len = ir_f_arguments_len;
   /* assumes that ir-len is always greater zero */
   status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
   /* eventually extend carryover array. the array is never shrunk.
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index 79521eb..dfb1ab3 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -42,12 +42,9 @@
       (status-require (sph-helper-malloc ir-f-arguments-len &state:ir-f-arguments))
       (memreg-add state)
       (memreg-add state:ir-f-arguments)
-      (set
-        state:carryover-alloc-len 0
-        state:carryover 0
-        state:ir-f ir-f
-        state:ir-f-arguments-len ir-f-arguments-len)))
+      (set state:carryover-alloc-len 0 state:carryover 0)))
   (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
+  (set state:ir-f ir-f state:ir-f-arguments-len ir-f-arguments-len)
   (sc-comment "assumes that ir-len is always greater zero")
   (status-require (ir-f ir-f-arguments &ir &ir-len))
   (sc-comment
-- 
2.43.0


From 9bc51efba0c4d24e50ffeb278b7074db5c9a07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:21 +0000
Subject: [PATCH 18/65] fix: convolution filter state stays valid and nothing
 leaks if updating it fails

---
 source/c-precompiled/sph-sp/filter.c | 19 +++++++++++--------
 source/sc/sph-sp/filter.sc           | 20 +++++++++++---------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 5ceb19f..11de2ec 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -21,7 +21,7 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
   sp_sample_t* ir;
   sp_time_t ir_len;
   sp_convolution_filter_state_t* state;
-  memreg_init(2);
+  memreg_init(3);
   /* create state if not exists. re-use if exists and return early if ir needs not be updated */
   if (*out_state) {
     /* existing */
@@ -34,24 +34,20 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
       if (ir_f_arguments_len > state->ir_f_arguments_len) {
         status_require((sph_helper_realloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
       };
-      if (state->ir) {
-        free((state->ir));
-      };
     };
   } else {
     /* new */
     status_require((sph_helper_malloc((sizeof(sp_convolution_filter_state_t)), (&state))));
-    status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
     memreg_add(state);
+    status_require((sph_helper_malloc(ir_f_arguments_len, (&(state->ir_f_arguments)))));
     memreg_add((state->ir_f_arguments));
     state->carryover_alloc_len = 0;
     state->carryover = 0;
+    state->ir = 0;
   };
-  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
-  state->ir_f = ir_f;
-  state->ir_f_arguments_len = ir_f_arguments_len;
   /* assumes that ir-len is always greater zero */
   status_require((ir_f(ir_f_arguments, (&ir), (&ir_len))));
+  memreg_add(ir);
   /* eventually extend carryover array. the array is never shrunk.
   carryover-len is at least ir-len - 1.
   carryover-alloc-len is the length of the whole array.
@@ -77,6 +73,13 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
   };
   state->carryover = carryover;
   state->carryover_len = (ir_len - 1);
+  /* replace the previous parameters only after everything that can fail */
+  if (state->ir) {
+    free((state->ir));
+  };
+  memcpy((state->ir_f_arguments), ir_f_arguments, ir_f_arguments_len);
+  state->ir_f = ir_f;
+  state->ir_f_arguments_len = ir_f_arguments_len;
   state->ir = ir;
   state->ir_len = ir_len;
   *out_state = state;
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index dfb1ab3..f58a035 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -20,7 +20,7 @@
     ir sp-sample-t*
     ir-len sp-time-t
     state sp-convolution-filter-state-t*)
-  (memreg-init 2)
+  (memreg-init 3)
   (sc-comment
     "create state if not exists. re-use if exists and return early if ir needs not be updated")
   (if *out-state
@@ -34,19 +34,17 @@
         (begin
           (sc-comment "changed")
           (if (> ir-f-arguments-len state:ir-f-arguments-len)
-            (status-require (sph-helper-realloc ir-f-arguments-len &state:ir-f-arguments)))
-          (if state:ir (free state:ir)))))
+            (status-require (sph-helper-realloc ir-f-arguments-len &state:ir-f-arguments))))))
     (begin
       (sc-comment "new")
       (status-require (sph-helper-malloc (sizeof sp-convolution-filter-state-t) &state))
-      (status-require (sph-helper-malloc ir-f-arguments-len &state:ir-f-arguments))
       (memreg-add state)
+      (status-require (sph-helper-malloc ir-f-arguments-len &state:ir-f-arguments))
       (memreg-add state:ir-f-arguments)
-      (set state:carryover-alloc-len 0 state:carryover 0)))
-  (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
-  (set state:ir-f ir-f state:ir-f-arguments-len ir-f-arguments-len)
+      (set state:carryover-alloc-len 0 state:carryover 0 state:ir 0)))
   (sc-comment "assumes that ir-len is always greater zero")
   (status-require (ir-f ir-f-arguments &ir &ir-len))
+  (memreg-add ir)
   (sc-comment
     "eventually extend carryover array. the array is never shrunk."
     "carryover-len is at least ir-len - 1."
@@ -70,9 +68,13 @@
       (if carryover-alloc-len (status-require (sp-samples-new carryover-alloc-len &carryover))
         (set carryover 0))
       (set state:carryover-alloc-len carryover-alloc-len)))
+  (set state:carryover carryover state:carryover-len (- ir-len 1))
+  (sc-comment "replace the previous parameters only after everything that can fail")
+  (if state:ir (free state:ir))
+  (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
   (set
-    state:carryover carryover
-    state:carryover-len (- ir-len 1)
+    state:ir-f ir-f
+    state:ir-f-arguments-len ir-f-arguments-len
     state:ir ir
     state:ir-len ir-len
     *out-state state)
-- 
2.43.0


From 40a490ff26ed6dbf3ca47ae92611303ac767caac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 19/65] fix: convolution filter keeps the tail of previous
 segments if the impulse response becomes shorter

---
 source/c-precompiled/sph-sp/filter.c |  7 ++++---
 source/sc/sph-sp/filter.sc           | 13 ++++++++-----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 11de2ec..9d7a0df 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -55,13 +55,14 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
   carryover_alloc_len = (ir_len - 1);
   if (state->carryover) {
     carryover = state->carryover;
-    if (ir_len > state->ir_len) {
+    if (carryover_alloc_len > state->carryover_len) {
       if (carryover_alloc_len > state->carryover_alloc_len) {
         status_require((sph_helper_realloc((carryover_alloc_len * sizeof(sp_sample_t)), (&carryover))));
         state->carryover_alloc_len = carryover_alloc_len;
       };
       /* in any case reset the extended area */
-      memset(((state->ir_len - 1) + carryover), 0, ((ir_len - state->ir_len) * sizeof(sp_sample_t)));
+      memset((state->carryover_len + carryover), 0, ((carryover_alloc_len - state->carryover_len) * sizeof(sp_sample_t)));
+      state->carryover_len = carryover_alloc_len;
     };
   } else {
     if (carryover_alloc_len) {
@@ -70,9 +71,9 @@ status_t sp_convolution_filter_state_set(sp_convolution_filter_ir_f_t ir_f, void
       carryover = 0;
     };
     state->carryover_alloc_len = carryover_alloc_len;
+    state->carryover_len = carryover_alloc_len;
   };
   state->carryover = carryover;
-  state->carryover_len = (ir_len - 1);
   /* replace the previous parameters only after everything that can fail */
   if (state->ir) {
     free((state->ir));
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index f58a035..1ef5962 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -54,7 +54,7 @@
   (if state:carryover
     (begin
       (set carryover state:carryover)
-      (if (> ir-len state:ir-len)
+      (if (> carryover-alloc-len state:carryover-len)
         (begin
           (if (> carryover-alloc-len state:carryover-alloc-len)
             (begin
@@ -62,13 +62,16 @@
                 (sph-helper-realloc (* carryover-alloc-len (sizeof sp-sample-t)) &carryover))
               (set state:carryover-alloc-len carryover-alloc-len)))
           (sc-comment "in any case reset the extended area")
-          (memset (+ (- state:ir-len 1) carryover) 0
-            (* (- ir-len state:ir-len) (sizeof sp-sample-t))))))
+          (memset (+ state:carryover-len carryover) 0
+            (* (- carryover-alloc-len state:carryover-len) (sizeof sp-sample-t)))
+          (set state:carryover-len carryover-alloc-len))))
     (begin
       (if carryover-alloc-len (status-require (sp-samples-new carryover-alloc-len &carryover))
         (set carryover 0))
-      (set state:carryover-alloc-len carryover-alloc-len)))
-  (set state:carryover carryover state:carryover-len (- ir-len 1))
+      (set
+        state:carryover-alloc-len carryover-alloc-len
+        state:carryover-len carryover-alloc-len)))
+  (set state:carryover carryover)
   (sc-comment "replace the previous parameters only after everything that can fail")
   (if state:ir (free state:ir))
   (memcpy state:ir-f-arguments ir-f-arguments ir-f-arguments-len)
-- 
2.43.0


From 5190f5af62c331bc81279c00fb5ac1c4ae48b77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 20/65] fix: sp_windowed_sinc_bp_br_ir frees its intermediate
 impulse responses

---
 source/c-precompiled/sph-sp/filter.c | 10 +++++++++-
 source/sc/sph-sp/filter.sc           |  7 ++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 9d7a0df..50f59e9 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -178,6 +178,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
   sp_time_t end;
   sp_sample_t* out;
   sp_sample_t* over;
+  hp_ir = 0;
+  lp_ir = 0;
   if (is_reject) {
     if (0.0 >= cutoff_l) {
       if (0.5 <= cutoff_h) {
@@ -210,8 +212,12 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
     for (i = start; (i < end); i = (1 + i)) {
       out[i] = (over[(i - start)] + out[i]);
     };
-    free(over);
     *out_ir = out;
+    if (out == lp_ir) {
+      lp_ir = 0;
+    } else {
+      hp_ir = 0;
+    };
   } else {
     /* meaning of cutoff low/high is switched. cutoff-l leaves higher frequencies */
     if (0.0 >= cutoff_l) {
@@ -233,6 +239,8 @@ status_t sp_windowed_sinc_bp_br_ir(sp_sample_t cutoff_l, sp_sample_t cutoff_h, s
     sp_convolve_one(lp_ir, lp_len, hp_ir, hp_len, (*out_ir));
   };
 exit:
+  free(lp_ir);
+  free(hp_ir);
   status_return;
 }
 
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index 1ef5962..5e21cdd 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -163,6 +163,7 @@
     end sp-time-t
     out sp-sample-t*
     over sp-sample-t*)
+  (set hp-ir 0 lp-ir 0)
   (if is-reject
     (begin
       (if (>= 0.0 cutoff-l)
@@ -189,8 +190,8 @@
       (sc-comment "sum lp and hp ir samples")
       (for ((set i start) (< i end) (set i (+ 1 i)))
         (set (array-get out i) (+ (array-get over (- i start)) (array-get out i))))
-      (free over)
-      (set *out-ir out))
+      (set *out-ir out)
+      (if (= out lp-ir) (set lp-ir 0) (set hp-ir 0)))
     (begin
       (sc-comment "meaning of cutoff low/high is switched. cutoff-l leaves higher frequencies")
       (if (>= 0.0 cutoff-l)
@@ -204,7 +205,7 @@
       (set *out-len (- (+ lp-len hp-len) 1))
       (status-require (sp-samples-new *out-len out-ir))
       (sp-convolve-one lp-ir lp-len hp-ir hp-len *out-ir)))
-  (label exit status-return))
+  (label exit (free lp-ir) (free hp-ir) status-return))
 
 (define (sp-windowed-sinc-lp-hp-ir-f arguments out-ir out-len)
   (status-t void* sp-sample-t** sp-time-t*)
-- 
2.43.0


From 4b0984642174e1ab49ce112c8282cdbe6b140ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:30 +0000
Subject: [PATCH 21/65] fix: sp_moving_average reflects the last values at the
 end of the input

---
 source/c-precompiled/sph-sp/filter.c | 2 +-
 source/sc/sph-sp/filter.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/filter.c b/source/c-precompiled/sph-sp/filter.c
index 50f59e9..078cb60 100644
--- a/source/c-precompiled/sph-sp/filter.c
+++ b/source/c-precompiled/sph-sp/filter.c
@@ -351,7 +351,7 @@ void sp_moving_average(sp_sample_t* in, sp_time_t in_size, sp_sample_t* prev, sp
     out[i] = (sum / width);
   };
   for (i = (in_size - radius); (i < in_size); i += 1) {
-    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((i + radius + 1) - in_size)] * -1))) - in[(i - radius - 1)]);
+    sum = ((sum + (next ? next[(i - (in_size - radius))] : (in[((2 * in_size) - (i + radius + 2))] * -1))) - in[(i - radius - 1)]);
     out[i] = (sum / width);
   };
 }
diff --git a/source/sc/sph-sp/filter.sc b/source/sc/sph-sp/filter.sc
index 5e21cdd..a62b6e8 100644
--- a/source/sc/sph-sp/filter.sc
+++ b/source/sc/sph-sp/filter.sc
@@ -321,6 +321,6 @@
       (-
         (+ sum
           (if* next (array-get next (- i (- in-size radius)))
-            (* (array-get in (- (+ i radius 1) in-size)) -1)))
+            (* (array-get in (- (* 2 in-size) (+ i radius 2))) -1)))
         (array-get in (- i radius 1)))
       (array-get out i) (/ sum width))))
\ No newline at end of file
-- 
2.43.0


From 168e18334e45b29803c917af2ccdbda7687db72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 22/65] fix: sp_wave applies the amplitude once if there is no
 amplitude modulation

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 3b56a5d..19d0d44 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -199,7 +199,7 @@ void sp_sine_period(sp_time_t size, sp_sample_t* out) {
 void sp_wave(sp_time_t size, sp_sample_t* wvf, sp_time_t wvf_size, sp_sample_t amp, sp_sample_t* amod, sp_time_t frq, sp_time_t* fmod, sp_time_t* phs_state, sp_sample_t* out) {
   sp_time_t phs = (phs_state ? *phs_state : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] += (amp * sp_optional_array_get(amod, amp, i) * wvf[phs]);
+    out[i] += (amp * sp_optional_array_get(amod, 1, i) * wvf[phs]);
     phs += sp_optional_array_get(fmod, frq, i);
     if (phs >= wvf_size) {
       phs = (phs % wvf_size);
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index cec6b01..661122f 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -130,7 +130,7 @@
   "sums to out"
   (define phs sp-time-t (if* phs-state *phs-state 0))
   (sp-for-each-index i size
-    (set+ (array-get out i) (* amp (sp-optional-array-get amod amp i) (array-get wvf phs))
+    (set+ (array-get out i) (* amp (sp-optional-array-get amod 1 i) (array-get wvf phs))
       phs (sp-optional-array-get fmod frq i))
     (if (>= phs wvf-size) (set phs (modulo phs wvf-size))))
   (if phs-state (set *phs-state phs)))
-- 
2.43.0


From 53ab9de6f856067872c2ec524ce916b725547dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:48 +0000
Subject: [PATCH 23/65] fix: sp_square does not overflow for large times

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 19d0d44..04c6951 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -465,7 +465,7 @@ sp_sample_t sp_triangle(sp_time_t t, sp_time_t a, sp_time_t b) {
   remainder = (t % (a + b));
   return (((remainder < a) ? (remainder * (1 / ((sp_sample_t)(a)))) : ((((sp_sample_t)(b)) - (remainder - ((sp_sample_t)(a)))) * (1 / ((sp_sample_t)(b))))));
 }
-sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return (((((2 * t) % (2 * size)) < size) ? -1 : 1)); }
+sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return ((((t % size) < ((size / 2) + (size % 2))) ? -1 : 1)); }
 
 /** convert a pan value between 0..channel_count to a volume factor.
    values are interpreted as split between even and odd numbers, from channel..(channel + 1),
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 661122f..d07f7e7 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -361,7 +361,7 @@
         (/ 1 (convert-type b sp-sample-t))))))
 
 (define (sp-square t size) (sp-sample-t sp-time-t sp-time-t)
-  (return (if* (< (modulo (* 2 t) (* 2 size)) size) -1 1)))
+  (return (if* (< (modulo t size) (+ (/ size 2) (modulo size 2))) -1 1)))
 
 (define (sp-pan->amp value channel) (sp-sample-t sp-sample-t sp-channel-count-t)
   "convert a pan value between 0..channel_count to a volume factor.
-- 
2.43.0


From 1618930972badef669357b840110fe5d3fd6f0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:51 +0000
Subject: [PATCH 24/65] fix: sp_permutations_max divides by the factorial of
 the unused element count

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 04c6951..3e0e136 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -553,5 +553,5 @@ sp_time_t sp_time_factorial(sp_time_t n) {
 
 /** return the maximum number of possible distinct selections from a set of length "set-size" */
 sp_size_t sp_set_sequence_max(sp_size_t set_size, sp_size_t selection_size) { return (((0 == set_size) ? 0 : sp_time_expt(set_size, selection_size))); }
-sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / (set_size - selection_size))); }
+sp_size_t sp_permutations_max(sp_size_t set_size, sp_size_t selection_size) { return ((sp_time_factorial(set_size) / sp_time_factorial((set_size - selection_size)))); }
 sp_size_t sp_compositions_max(sp_size_t sum) { return ((sp_time_expt(2, (sum - 1)))); }
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index d07f7e7..8bc3f74 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -430,6 +430,6 @@
   (return (if* (= 0 set-size) 0 (sp-time-expt set-size selection-size))))
 
 (define (sp-permutations-max set-size selection-size) (sp-size-t sp-size-t sp-size-t)
-  (return (/ (sp-time-factorial set-size) (- set-size selection-size))))
+  (return (/ (sp-time-factorial set-size) (sp-time-factorial (- set-size selection-size)))))
 
 (define (sp-compositions-max sum) (sp-size-t sp-size-t) (return (sp-time-expt 2 (- sum 1))))
\ No newline at end of file
-- 
2.43.0


From d0819f624d1b31df879019a997c79053a3c95e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:54 +0000
Subject: [PATCH 25/65] fix: sp_render_range_file renders the range that begins
 at start and releases everything on failure

---
 source/c-precompiled/sph-sp/main.c | 11 +++++++----
 source/sc/sph-sp/main.sc           | 12 ++++++++----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 3e0e136..2e73d2b 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -338,6 +338,7 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
   sp_time_t remainder;
   sp_time_t i;
   sp_file_t file;
+  file.file = 0;
   sp_block_declare(block);
   sp_declare_event_list(events);
   status_require((sp_event_list_add((&events), event)));
@@ -349,18 +350,20 @@ status_t sp_render_range_file(sp_event_t event, sp_time_t start, sp_time_t end,
     if (config.display_progress) {
       printf(("%.1f%\n"), (100 * (i / ((sp_sample_t)(block_end)))));
     };
-    status_require((sp_seq(i, (i + config.block_size), block, (&events))));
+    status_require((sp_seq((start + i), (start + i + config.block_size), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), (config.block_size))));
     sp_block_zero(block);
   };
   if (remainder) {
-    status_require((sp_seq(i, (i + remainder), block, (&events))));
+    status_require((sp_seq((start + i), (start + i + remainder), block, (&events))));
     status_require((sp_file_write((&file), (block.samples), remainder)));
   };
-  sp_event_list_free((&events));
 exit:
+  sp_event_list_free((&events));
   sp_block_free((&block));
-  sp_file_close_write((&file));
+  if (file.file) {
+    sp_file_close_write((&file));
+  };
   status_return;
 }
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 8bc3f74..cbf6b17 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -250,6 +250,7 @@
   "render an event with sp_seq to a file. the file is created or overwritten"
   status-declare
   (declare block-end sp-time-t remainder sp-time-t i sp-time-t file sp-file-t)
+  (set file.file 0)
   (sp-block-declare block)
   (sp-declare-event-list events)
   (status-require (sp-event-list-add &events event))
@@ -261,15 +262,18 @@
   (for ((set i 0) (< i block-end) (set+ i config.block-size))
     (if config.display-progress
       (printf "%.1f%\n" (* 100 (/ i (convert-type block-end sp-sample-t)))))
-    (status-require (sp-seq i (+ i config.block-size) block &events))
+    (status-require (sp-seq (+ start i) (+ start i config.block-size) block &events))
     (status-require (sp-file-write &file block.samples config.block-size))
     (sp-block-zero block))
   (if remainder
     (begin
-      (status-require (sp-seq i (+ i remainder) block &events))
+      (status-require (sp-seq (+ start i) (+ start i remainder) block &events))
       (status-require (sp-file-write &file block.samples remainder))))
-  (sp-event-list-free &events)
-  (label exit (sp-block-free &block) (sp-file-close-write &file) status-return))
+  (label exit
+    (sp-event-list-free &events)
+    (sp-block-free &block)
+    (if file.file (sp-file-close-write &file))
+    status-return))
 
 (define (sp-render-range-block event start end config out)
   (status-t sp-event-t sp-time-t sp-time-t sp-render-config-t sp-block-t*)
-- 
2.43.0


From eb2744c548c52a20e0aa1097dc1df3c1213f6e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 26/65] fix: sp_render_range_block frees the block and the
 events on failure

---
 source/c-precompiled/sph-sp/main.c | 7 +++++--
 source/sc/sph-sp/main.sc           | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 2e73d2b..14b2a33 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -372,14 +372,17 @@ exit:
    block will be allocated */
 status_t sp_render_range_block(sp_event_t event, sp_time_t start, sp_time_t end, sp_render_config_t config, sp_block_t* out) {
   status_declare;
-  sp_block_t block;
+  sp_block_declare(block);
   sp_declare_event_list(events);
   status_require((sp_event_list_add((&events), event)));
   status_require((sp_block_new((config.channel_count), (end - start), (&block))));
   status_require((sp_seq(start, end, block, (&events))));
-  sp_event_list_free((&events));
   *out = block;
 exit:
+  sp_event_list_free((&events));
+  if (status_is_failure) {
+    sp_block_free((&block));
+  };
   status_return;
 }
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index cbf6b17..435a417 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -281,14 +281,16 @@
    events should have been prepared with sp-seq-events-prepare.
    block will be allocated"
   status-declare
-  (declare block sp-block-t)
+  (sp-block-declare block)
   (sp-declare-event-list events)
   (status-require (sp-event-list-add &events event))
   (status-require (sp-block-new config.channel-count (- end start) &block))
   (status-require (sp-seq start end block &events))
-  (sp-event-list-free &events)
   (set *out block)
-  (label exit status-return))
+  (label exit
+    (sp-event-list-free &events)
+    (if status-is-failure (sp-block-free &block))
+    status-return))
 
 (define (sp-render-file event path) (status-t sp-event-t uint8-t*)
   "render the full duration of event to file at path and write information to standard output.
-- 
2.43.0


From fa4902c4e5ac561e145d2c8a130e5467c6ccf4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 27/65] fix: sp_file_open_write does not leave a closed file in
 the file object if writing the header fails

---
 source/c-precompiled/sph-sp/file.c | 1 +
 source/sc/sph-sp/file.sc           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index ea0912c..f3f6f3c 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -27,6 +27,7 @@ status_t sp_file_open_write(uint8_t* path, sp_channel_count_t channel_count, sp_
   };
   if (!fwrite(header, 40, 1, (file->file))) {
     fclose((file->file));
+    file->file = 0;
     sp_status_set_goto(sp_s_id_file_write);
   };
   fseek((file->file), 4, SEEK_CUR);
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index 9c5c7c1..c6dcb86 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -27,7 +27,7 @@
     file:file (fopen path "w"))
   (if (not file:file) (status-set-goto sp-s-group-libc errno))
   (if (not (fwrite header 40 1 file:file))
-    (begin (fclose file:file) (sp-status-set-goto sp-s-id-file-write)))
+    (begin (fclose file:file) (set file:file 0) (sp-status-set-goto sp-s-id-file-write)))
   (fseek file:file 4 SEEK_CUR)
   (label exit status-return))
 
-- 
2.43.0


From 97bc9149bc7490aca8c5c8b2f566421c37d462e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 28/65] fix: sp_file_write accepts a sample count of zero

---
 source/c-precompiled/sph-sp/file.c | 2 +-
 source/sc/sph-sp/file.sc           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index f3f6f3c..3984c57 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -57,7 +57,7 @@ status_t sp_file_write(sp_file_t* file, sp_sample_t** samples, sp_time_t sample_
       file_data[((i * channel_count) + j)] = (samples[j])[i];
     };
   };
-  if (!fwrite(file_data, interleaved_size, 1, (file->file))) {
+  if (interleaved_size && !fwrite(file_data, interleaved_size, 1, (file->file))) {
     sp_status_set_goto(sp_s_id_file_write);
   };
   file->data_size += interleaved_size;
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index c6dcb86..c82ae75 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -53,7 +53,8 @@
     (for-each-index j sp-channel-count-t
       channel-count
       (set (array-get file-data (+ (* i channel-count) j)) (array-get (array-get samples j) i))))
-  (if (not (fwrite file-data interleaved-size 1 file:file)) (sp-status-set-goto sp-s-id-file-write))
+  (if (and interleaved-size (not (fwrite file-data interleaved-size 1 file:file)))
+    (sp-status-set-goto sp-s-id-file-write))
   (set+ file:data-size interleaved-size)
   (label exit (free file-data) status-return))
 
-- 
2.43.0


From 5e5f96b0fed779470fc25c81103584a7c9427d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 29/65] fix: sp_file_open_read reports files that can not be
 opened, reads the channel count and closes the file on failure

---
 source/c-precompiled/sph-sp/file.c | 11 +++++++++++
 source/sc/sph-sp/file.sc           |  7 ++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 3984c57..7cdbe62 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -71,12 +71,19 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
   uint32_t subchunk_id;
   uint32_t subchunk_size;
   file->file = fopen(path, "r");
+  if (!file->file) {
+    status_set_goto(sp_s_group_libc, errno);
+  };
   if (!(fread(header, 44, 1, (file->file)) && (*((uint32_t*)(header)) == wav_string_riff) && (*((uint32_t*)((8 + header))) == wav_string_wav) && (*((uint32_t*)((12 + header))) == wav_string_fmt))) {
     sp_status_set_goto(sp_s_id_file_read);
   };
   if (!((3 == *((uint16_t*)((20 + header)))) && (32 == *((uint16_t*)((34 + header)))))) {
     sp_status_set_goto(sp_s_id_file_not_implemented);
   };
+  file->channel_count = *((uint16_t*)((22 + header)));
+  if (!file->channel_count) {
+    sp_status_set_goto(sp_s_id_file_read);
+  };
   subchunk_id = *((uint32_t*)((36 + header)));
   subchunk_size = *((uint32_t*)((40 + header)));
   while (!(wav_string_data == subchunk_id)) {
@@ -89,6 +96,10 @@ status_t sp_file_open_read(uint8_t* path, sp_file_t* file) {
     };
   };
 exit:
+  if (status_is_failure && file->file) {
+    fclose((file->file));
+    file->file = 0;
+  };
   status_return;
 }
 status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samples) {
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index c82ae75..e66aee6 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -62,6 +62,7 @@
   status-declare
   (declare header (array uint8-t 44) subchunk-id uint32-t subchunk-size uint32-t)
   (set file:file (fopen path "r"))
+  (if (not file:file) (status-set-goto sp-s-group-libc errno))
   (if
     (not
       (and (fread header 44 1 file:file)
@@ -74,6 +75,8 @@
       (and (= 3 (pointer-get (convert-type (+ 20 header) uint16-t*)))
         (= 32 (pointer-get (convert-type (+ 34 header) uint16-t*)))))
     (sp-status-set-goto sp-s-id-file-not-implemented))
+  (set file:channel-count (pointer-get (convert-type (+ 22 header) uint16-t*)))
+  (if (not file:channel-count) (sp-status-set-goto sp-s-id-file-read))
   (set
     subchunk-id (pointer-get (convert-type (+ 36 header) uint32-t*))
     subchunk-size (pointer-get (convert-type (+ 40 header) uint32-t*)))
@@ -81,7 +84,9 @@
     (fseek file:file subchunk-size SEEK_CUR)
     (if (not (fread &subchunk-id 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read))
     (if (not (fread &subchunk-size 4 1 file:file)) (sp-status-set-goto sp-s-id-file-read)))
-  (label exit status-return))
+  (label exit
+    (if (and status-is-failure file:file) (begin (fclose file:file) (set file:file 0)))
+    status-return))
 
 (define (sp-file-read file sample-count samples) (status-t sp-file-t sp-time-t sp-sample-t**)
   status-declare
-- 
2.43.0


From cf283e86c07f107f444a30313662277e75320571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:29 +0000
Subject: [PATCH 30/65] fix: sp_file_read returns its status

---
 source/c-precompiled/sph-sp/file.c | 1 +
 source/sc/sph-sp/file.sc           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/file.c b/source/c-precompiled/sph-sp/file.c
index 7cdbe62..1c2214c 100644
--- a/source/c-precompiled/sph-sp/file.c
+++ b/source/c-precompiled/sph-sp/file.c
@@ -127,5 +127,6 @@ status_t sp_file_read(sp_file_t file, sp_time_t sample_count, sp_sample_t** samp
   };
 exit:
   free(file_data);
+  status_return;
 }
 void sp_file_close_read(sp_file_t file) { fclose((file.file)); }
diff --git a/source/sc/sph-sp/file.sc b/source/sc/sph-sp/file.sc
index e66aee6..7665d8d 100644
--- a/source/sc/sph-sp/file.sc
+++ b/source/sc/sph-sp/file.sc
@@ -102,6 +102,6 @@
     (for-each-index j sp-channel-count-t
       file.channel-count
       (set (array-get (array-get samples j) i) (array-get file-data (+ (* i file.channel-count) j)))))
-  (label exit (free file-data)))
+  (label exit (free file-data) status-return))
 
 (define (sp-file-close-read file) (void sp-file-t) (fclose file.file))
\ No newline at end of file
-- 
2.43.0


From 639d179cfadee820d28c31aa1337313350f99b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 31/65] fix: sp_event_list_reverse works with the empty list

---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 source/sc/sph-sp/sequencer.sc           | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 9131451..2b999f6 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -15,6 +15,7 @@ void sp_event_list_display(sp_event_list_t* a) {
 void sp_event_list_reverse(sp_event_list_t** a) {
   sp_event_list_t* current;
   sp_event_list_t* next;
+  current = 0;
   next = *a;
   while (next) {
     current = next;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 2c32114..8a69105 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -13,7 +13,7 @@
 
 (define (sp-event-list-reverse a) (void sp-event-list-t**)
   (declare current sp-event-list-t* next sp-event-list-t*)
-  (set next *a)
+  (set current 0 next *a)
   (while next (set current next next next:next current:next current:previous current:previous next))
   (set *a current))
 
-- 
2.43.0


From 6f2fbf0d5c4357eecb0c72d82541a7186cbb85e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 32/65] fix: sp_event_memory_ensure with size zero leaves
 memory that can grow

---
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 source/sc/sph-sp/sequencer.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 2b999f6..7c73006 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -167,7 +167,7 @@ status_t sp_event_memory_ensure(sp_event_t* a, sp_time_t additional_size) {
       sp_memory_error;
     };
   } else {
-    if (sp_memory_new(additional_size, (&(a->memory)))) {
+    if (sp_memory_new((sp_inline_max(additional_size, 1)), (&(a->memory)))) {
       sp_memory_error;
     } else {
       if (!a->free) {
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 8a69105..8dcf2d0 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -103,7 +103,7 @@
         (sp-memory-resize &a:memory
           (+ (array3-max-size a:memory) (- additional-size (array3-unused-size a:memory)))))
       sp-memory-error)
-    (if (sp-memory-new additional-size &a:memory) sp-memory-error
+    (if (sp-memory-new (sp-inline-max additional-size 1) &a:memory) sp-memory-error
       (if (not a:free) (set a:free sp-event-memory-free))))
   (label exit status-return))
 
-- 
2.43.0


From 8d71acfd839e84daf809f9af92b5b907af537a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 33/65] fix: sp_event_block_generate does not divide by zero if
 there is nothing to generate

---
 source/c-precompiled/sph-sp/sequencer.c | 3 +++
 source/sc/sph-sp/sequencer.sc           | 1 +
 2 files changed, 4 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 7c73006..de87229 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -211,6 +211,9 @@ status_t sp_event_block_generate(sp_time_t resolution, sp_event_block_generate_t
   sp_time_t duration;
   sp_time_t i;
   duration = (end - start);
+  if (!duration) {
+    goto exit;
+  };
   if (duration < resolution) {
     resolution = duration;
   };
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 8dcf2d0..573b8a6 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -134,6 +134,7 @@
     duration sp-time-t
     i sp-time-t)
   (set duration (- end start))
+  (if (not duration) (goto exit))
   (if (< duration resolution) (set resolution duration))
   (set
     block-count (sp-cheap-floor-positive (/ duration resolution))
-- 
2.43.0


From 94d96f5d9e54a1151ce19530b3c17a1bd3c48325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:28 +0000
Subject: [PATCH 34/65] fix: sp_seq_parallel waits for all running futures
 before it releases memory on failure

---
 source/c-precompiled/sph-sp/sequencer.c | 7 +++++++
 source/sc/sph-sp/sequencer.sc           | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index de87229..b12b7ff 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -307,6 +307,7 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
   sp_event_list_t* current;
   sp_time_t active;
   sp_time_t allocated;
+  sp_time_t touched;
   sp_time_t e_end;
   sp_event_t* ep;
   sp_event_t e;
@@ -317,6 +318,7 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
   sf_array = 0;
   active = 0;
   allocated = 0;
+  touched = 0;
   current = *events;
   /* count */
   while (current) {
@@ -359,6 +361,7 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
   for (sp_size_t sf_i = 0; (sf_i < active); sf_i += 1) {
     sf = (sf_array + sf_i);
     sph_future_touch((&(sf->future)));
+    touched += 1;
     status_require((sf->status));
     for (sp_size_t ci = 0; (ci < out.channel_count); ci += 1) {
       for (sp_size_t i = 0; (i < sf->out.size); i += 1) {
@@ -368,6 +371,10 @@ status_t sp_seq_parallel(sp_time_t start, sp_time_t end, sp_block_t out, sp_even
   };
 exit:
   if (sf_array) {
+    /* futures use the events and blocks as long as they run */
+    for (sp_size_t i = touched; (i < allocated); i += 1) {
+      sph_future_touch((&((sf_array[i]).future)));
+    };
     for (sp_size_t i = 0; (i < allocated); i += 1) {
       sp_block_free((&((sf_array[i]).out)));
     };
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 573b8a6..0678fdf 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -206,6 +206,7 @@
     current sp-event-list-t*
     active sp-time-t
     allocated sp-time-t
+    touched sp-time-t
     e-end sp-time-t
     ep sp-event-t*
     e sp-event-t
@@ -213,7 +214,7 @@
     sf-array sp-seq-future-t*
     sf sp-seq-future-t*
     next sp-event-list-t*)
-  (set sf-array 0 active 0 allocated 0 current *events)
+  (set sf-array 0 active 0 allocated 0 touched 0 current *events)
   (sc-comment "count")
   (while current
     (cond ((<= end current:event.start) break) ((> current:event.end start) (set+ active 1)))
@@ -244,6 +245,7 @@
   (sp-for-each-index sf-i active
     (set sf (+ sf-array sf-i))
     (sph-future-touch &sf:future)
+    (set+ touched 1)
     (status-require sf:status)
     (sp-for-each-index ci out.channel-count
       (sp-for-each-index i sf:out.size
@@ -252,6 +254,9 @@
   (label exit
     (if sf-array
       (begin
+        (sc-comment "futures use the events and blocks as long as they run")
+        (for ((define i sp-size-t touched) (< i allocated) (set+ i 1))
+          (sph-future-touch (address-of (struct-get (array-get sf-array i) future))))
         (sp-for-each-index i allocated
           (sp-block-free (address-of (struct-get (array-get sf-array i) out))))
         (free sf-array)))
-- 
2.43.0


From 50c2b9d254ec12849061d16f414551e8def1e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 35/65] fix: noise events release their buffers and filter
 states when they are freed

---
 source/c-precompiled/sph-sp/sequencer.c | 1 +
 source/sc/sph-sp/sequencer.sc           | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index b12b7ff..cedca46 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -705,6 +705,7 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
       };
     };
   };
+  event->free = sp_noise_event_free;
 exit:
   if (status_is_failure) {
     error_memory_free;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 0678fdf..91c93af 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -534,6 +534,7 @@
           (begin
             (status-require (sp-noise-event-filter-state c cc (array-get ir-lengths cci)))
             (error-memory-add2 cc:filter-state sp-convolution-filter-state-free))))))
+  (set event:free sp-noise-event-free)
   (label exit (if status-is-failure error-memory-free) status-return))
 
 (define (sp-noise-event-generate-block duration block-i event-i out event)
-- 
2.43.0


From dfa2238546e37f7115a47ab27181deaa24409657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:35 +0000
Subject: [PATCH 36/65] fix: noise event buffers are large enough for the
 initialization of all filters

---
 source/c-precompiled/sph-sp/sequencer.c | 6 ++++--
 source/sc/sph-sp/sequencer.sc           | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index cedca46..bf63401 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -625,6 +625,7 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
   sp_bool_t filter_mod;
   sp_bool_t filter_states;
   sp_time_t ir_lengths[sp_channel_count_limit] = { 0 };
+  sp_time_t ir_lengths_max;
   sp_time_t temp_length;
   error_memory_init((3 + sp_channel_count_limit));
   c = event->config;
@@ -682,8 +683,9 @@ status_t sp_noise_event_prepare(sp_event_t* event) {
     c->resolution = duration;
   };
   /* this limits the largest block that can be safely requested */
-  temp_length = sp_inline_max(temp_length, (c->resolution));
-  temp_length = sp_inline_min(temp_length, (sp_render_block_seconds * sp_rate));
+  ir_lengths_max = temp_length;
+  temp_length = sp_inline_min((c->resolution), (sp_render_block_seconds * sp_rate));
+  temp_length = sp_inline_max(temp_length, ir_lengths_max);
   /* three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
        and one for other channel filter results */
   status_require((sp_malloc_type(temp_length, sp_sample_t, (c->temp))));
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index 91c93af..dd79850 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -474,6 +474,7 @@
     filter-mod sp-bool-t
     filter-states sp-bool-t
     ir-lengths (array sp-time-t sp-channel-count-limit 0)
+    ir-lengths-max sp-time-t
     temp-length sp-time-t)
   (error-memory-init (+ 3 sp-channel-count-limit))
   (set
@@ -511,8 +512,9 @@
   (if (not filter-mod) (set c:resolution duration))
   (sc-comment "this limits the largest block that can be safely requested")
   (set
-    temp-length (sp-inline-max temp-length c:resolution)
-    temp-length (sp-inline-min temp-length (* sp-render-block-seconds sp-rate)))
+    ir-lengths-max temp-length
+    temp-length (sp-inline-min c:resolution (* sp-render-block-seconds sp-rate))
+    temp-length (sp-inline-max temp-length ir-lengths-max))
   (sc-comment
     "three buffers: one for the white noise, one for the first channel filter result that may be shared with other channels,
      and one for other channel filter results")
-- 
2.43.0


From 781d54bc366e10933a380c4377487e1bea217061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:25 +0000
Subject: [PATCH 37/65] fix: the path functions with a fixed number of points
 return their status

---
 source/c-precompiled/sph-sp/path.c | 16 ++++++++--------
 source/sc/sph-sp/path.sc           | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index fb60807..6b9761c 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -44,14 +44,14 @@ exit:
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, 0); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, 0))); \
   } \
   status_t sp_path_##type_name##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3) { \
     sp_sample_t y[3]; \
     y[0] = y1; \
     y[1] = y2; \
     y[2] = y3; \
-    sp_path_##type_name(out, length, 3, (&x1), y, 0); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, 0))); \
   } \
   status_t sp_path_##type_name##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4) { \
     sp_sample_t x[2]; \
@@ -62,7 +62,7 @@ exit:
     y[1] = y2; \
     y[2] = y3; \
     y[3] = y4; \
-    sp_path_##type_name(out, length, 4, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 4, x, y, 0))); \
   } \
   status_t sp_path_##type_name##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5) { \
     sp_sample_t x[3]; \
@@ -75,13 +75,13 @@ exit:
     y[2] = y3; \
     y[3] = y4; \
     y[4] = y5; \
-    sp_path_##type_name(out, length, 5, x, y, 0); \
+    return ((sp_path_##type_name(out, length, 5, x, y, 0))); \
   } \
   status_t sp_path_##type_name##_c##2(type * *out, sp_time_t length, sp_sample_t y1, sp_sample_t y2, sp_sample_t c1) { \
     sp_sample_t y[2]; \
     y[0] = y1; \
     y[1] = y2; \
-    sp_path_##type_name(out, length, 2, 0, y, (&c1)); \
+    return ((sp_path_##type_name(out, length, 2, 0, y, (&c1)))); \
   } \
   status_t sp_path_##type_name##_c##3(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t c1, sp_sample_t c2) { \
     sp_sample_t y[3]; \
@@ -91,7 +91,7 @@ exit:
     y[2] = y3; \
     c[0] = c1; \
     c[1] = c2; \
-    sp_path_##type_name(out, length, 3, (&x1), y, c); \
+    return ((sp_path_##type_name(out, length, 3, (&x1), y, c))); \
   } \
   status_t sp_path_##type_name##_c##4(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3) { \
     sp_sample_t x[2]; \
@@ -106,7 +106,7 @@ exit:
     c[0] = c1; \
     c[1] = c2; \
     c[2] = c3; \
-    sp_path_##type_name(out, length, 4, x, y, c); \
+    return ((sp_path_##type_name(out, length, 4, x, y, c))); \
   } \
   status_t sp_path_##type_name##_c##5(type * *out, sp_time_t length, sp_sample_t x1, sp_sample_t x2, sp_sample_t x3, sp_sample_t y1, sp_sample_t y2, sp_sample_t y3, sp_sample_t y4, sp_sample_t y5, sp_sample_t c1, sp_sample_t c2, sp_sample_t c3, sp_sample_t c4) { \
     sp_sample_t x[3]; \
@@ -124,7 +124,7 @@ exit:
     c[1] = c2; \
     c[2] = c3; \
     c[3] = c4; \
-    sp_path_##type_name(out, length, 5, x, y, c); \
+    return ((sp_path_##type_name(out, length, 5, x, y, c))); \
   }
 sp_define_path_n(samples, sp_sample_t)
   sp_define_path_n(times, sp_time_t)
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 5c8d3fe..8388ae9 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -46,49 +46,49 @@
       (status-t type** sp-time-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 2))
       (array-set* y y1 y2)
-      ((pre-concat sp-path- type-name) out length 2 0 y 0))
+      (return ((pre-concat sp-path- type-name) out length 2 0 y 0)))
     (define ((pre-concat sp-path- type-name 3) out length x1 y1 y2 y3)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 3))
       (array-set* y y1 y2 y3)
-      ((pre-concat sp-path- type-name) out length 3 &x1 y 0))
+      (return ((pre-concat sp-path- type-name) out length 3 &x1 y 0)))
     (define ((pre-concat sp-path- type-name 4) out length x1 x2 y1 y2 y3 y4)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 2) y (array sp-sample-t 4))
       (array-set* x x1 x2)
       (array-set* y y1 y2 y3 y4)
-      ((pre-concat sp-path- type-name) out length 4 x y 0))
+      (return ((pre-concat sp-path- type-name) out length 4 x y 0)))
     (define ((pre-concat sp-path- type-name 5) out length x1 x2 x3 y1 y2 y3 y4 y5)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 3) y (array sp-sample-t 5))
       (array-set* x x1 x2 x3)
       (array-set* y y1 y2 y3 y4 y5)
-      ((pre-concat sp-path- type-name) out length 5 x y 0))
+      (return ((pre-concat sp-path- type-name) out length 5 x y 0)))
     (define ((pre-concat sp-path- type-name _c 2) out length y1 y2 c1)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 2))
       (array-set* y y1 y2)
-      ((pre-concat sp-path- type-name) out length 2 0 y &c1))
+      (return ((pre-concat sp-path- type-name) out length 2 0 y &c1)))
     (define ((pre-concat sp-path- type-name _c 3) out length x1 y1 y2 y3 c1 c2)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare y (array sp-sample-t 3) c (array sp-sample-t 2))
       (array-set* y y1 y2 y3)
       (array-set* c c1 c2)
-      ((pre-concat sp-path- type-name) out length 3 &x1 y c))
+      (return ((pre-concat sp-path- type-name) out length 3 &x1 y c)))
     (define ((pre-concat sp-path- type-name _c 4) out length x1 x2 y1 y2 y3 y4 c1 c2 c3)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 2) y (array sp-sample-t 4) c (array sp-sample-t 3))
       (array-set* x x1 x2)
       (array-set* y y1 y2 y3 y4)
       (array-set* c c1 c2 c3)
-      ((pre-concat sp-path- type-name) out length 4 x y c))
+      (return ((pre-concat sp-path- type-name) out length 4 x y c)))
     (define ((pre-concat sp-path- type-name _c 5) out length x1 x2 x3 y1 y2 y3 y4 y5 c1 c2 c3 c4)
       (status-t type** sp-time-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t sp-sample-t)
       (declare x (array sp-sample-t 3) y (array sp-sample-t 5) c (array sp-sample-t 4))
       (array-set* x x1 x2 x3)
       (array-set* y y1 y2 y3 y4 y5)
       (array-set* c c1 c2 c3 c4)
-      ((pre-concat sp-path- type-name) out length 5 x y c))))
+      (return ((pre-concat sp-path- type-name) out length 5 x y c)))))
 
 (sp-define-path-n samples sp-sample-t)
 (sp-define-path-n times sp-time-t)
-- 
2.43.0


From bc1a4831546163a9b9577ceabf176d69fc4bb086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 38/65] fix: paths use negative curvatures

---
 source/c-precompiled/sph-sp/path.c | 4 ++--
 source/sc/sph-sp/path.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 6b9761c..7dee2c1 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -16,12 +16,12 @@ status_t sp_path_samples(sp_sample_t** out, sp_time_t length, sp_path_point_coun
   sp_sample_t yn = y[last_point_index];
   sp_sample_t cn = (c ? c[(last_point_index - 1)] : 0);
   segments[0] = spline_path_move(0, (y[0]));
-  segments[last_point_index] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+  segments[last_point_index] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   for (sp_path_point_count_t i = 1; (i < last_point_index); i += 1) {
     xn = x[(i - 1)];
     yn = y[i];
     cn = (c ? c[(i - 1)] : 0);
-    segments[i] = ((cn < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
+    segments[i] = ((fabs(cn) < 1.0e-5) ? spline_path_line(xn, yn) : spline_path_bezier_arc(xn, yn, cn));
   };
   spline_path_set((&path), segments, point_count);
   status_require((sp_samples_new(length, out)));
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index 8388ae9..c2ddc09 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -18,14 +18,14 @@
   (set
     (array-get segments 0) (spline-path-move 0 (array-get y 0))
     (array-get segments last-point-index)
-    (if* (< cn 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn)))
+    (if* (< (fabs cn) 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn)))
   (for ((define i sp-path-point-count-t 1) (< i last-point-index) (set+ i 1))
     (set
       xn (array-get x (- i 1))
       yn (array-get y i)
       cn (if* c (array-get c (- i 1)) 0)
       (array-get segments i)
-      (if* (< cn 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn))))
+      (if* (< (fabs cn) 1.0e-5) (spline-path-line xn yn) (spline-path-bezier-arc xn yn cn))))
   (spline-path-set &path segments point-count)
   (status-require (sp-samples-new length out))
   (spline-path-get &path 0 length *out)
-- 
2.43.0


From da5c808902d346b6a3aaa34c8459ed5217bf0ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 39/65] fix: sp_envelope_zero and sp_envelope_scaled read x and
 y from the beginning

---
 source/c-precompiled/sph-sp/path.c | 18 +++++++++---------
 source/sc/sph-sp/path.sc           | 20 +++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 7dee2c1..6b508d4 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -129,17 +129,17 @@ exit:
 sp_define_path_n(samples, sp_sample_t)
   sp_define_path_n(times, sp_time_t)
 
-  /** x, y and c length is point_count minus two.
+  /** x and y length is point_count minus two.
+     c length is point_count minus one.
      x values will be multiplied by length.
      x values will be cumulative (0.1, 0.2) -> 0.3 */
   status_t sp_envelope_zero(sp_sample_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
   path_y[0] = 0;
   path_y[(point_count - 1)] = 0;
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
-    path_y[i] = y[i];
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    x[(i - 1)] = (((1 < i) ? x[(i - 2)] : 0) + (x[(i - 1)] * length));
+    path_y[i] = y[(i - 1)];
   };
   return ((sp_path_samples(out, length, point_count, x, path_y, c)));
 }
@@ -162,17 +162,17 @@ sp_define_path_n(samples, sp_sample_t)
   }
 sp_define_envelope_zero_n(sp_envelope_zero, samples, sp_sample_t)
 
-  /** y and c length is point_count.
+  /** y length is point_count.
+     c length is point_count minus one.
      x length is point_count minus two.
      x values will be cumulative (0.1, 0.2) -> 0.3.
      x values will be multiplied by length */
   status_t sp_envelope_scaled(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t y_scalar, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
   sp_sample_t path_y[sp_path_point_count_limit];
-  x[1] *= length;
   path_y[0] = (y_scalar * y[0]);
   path_y[(point_count - 1)] = (y_scalar * y[(point_count - 1)]);
-  for (sp_path_point_count_t i = 2; (i < (point_count - 1)); i += 1) {
-    x[i] = (x[(i - 1)] + (x[i] * length));
+  for (sp_path_point_count_t i = 1; (i < (point_count - 1)); i += 1) {
+    x[(i - 1)] = (((1 < i) ? x[(i - 2)] : 0) + (x[(i - 1)] * length));
     path_y[i] = (y_scalar * y[i]);
   };
   return ((sp_path_times(out, length, point_count, x, path_y, c)));
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index c2ddc09..f36cf61 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -95,16 +95,17 @@
 
 (define (sp-envelope-zero out length point-count x y c)
   (status-t sp-sample-t** sp-time-t sp-path-point-count-t sp-sample-t* sp-sample-t* sp-sample-t*)
-  "x, y and c length is point_count minus two.
+  "x and y length is point_count minus two.
+   c length is point_count minus one.
    x values will be multiplied by length.
    x values will be cumulative (0.1, 0.2) -> 0.3"
   (declare path-y (array sp-sample-t sp-path-point-count-limit))
-  (set* (array-get x 1) length)
   (set (array-get path-y 0) 0 (array-get path-y (- point-count 1)) 0)
-  (for ((define i sp-path-point-count-t 2) (< i (- point-count 1)) (set+ i 1))
+  (for ((define i sp-path-point-count-t 1) (< i (- point-count 1)) (set+ i 1))
     (set
-      (array-get x i) (+ (array-get x (- i 1)) (* (array-get x i) length))
-      (array-get path-y i) (array-get y i)))
+      (array-get x (- i 1))
+      (+ (if* (< 1 i) (array-get x (- i 2)) 0) (* (array-get x (- i 1)) length))
+      (array-get path-y i) (array-get y (- i 1))))
   (return (sp-path-samples out length point-count x path-y c)))
 
 (pre-define (sp-define-envelope-zero-n prefix type-name type)
@@ -140,18 +141,19 @@
 
 (define (sp-envelope-scaled out length point-count y-scalar x y c)
   (status-t sp-time-t** sp-time-t sp-path-point-count-t sp-sample-t sp-sample-t* sp-sample-t* sp-sample-t*)
-  "y and c length is point_count.
+  "y length is point_count.
+   c length is point_count minus one.
    x length is point_count minus two.
    x values will be cumulative (0.1, 0.2) -> 0.3.
    x values will be multiplied by length"
   (declare path-y (array sp-sample-t sp-path-point-count-limit))
-  (set* (array-get x 1) length)
   (set
     (array-get path-y 0) (* y-scalar (array-get y 0))
     (array-get path-y (- point-count 1)) (* y-scalar (array-get y (- point-count 1))))
-  (for ((define i sp-path-point-count-t 2) (< i (- point-count 1)) (set+ i 1))
+  (for ((define i sp-path-point-count-t 1) (< i (- point-count 1)) (set+ i 1))
     (set
-      (array-get x i) (+ (array-get x (- i 1)) (* (array-get x i) length))
+      (array-get x (- i 1))
+      (+ (if* (< 1 i) (array-get x (- i 2)) 0) (* (array-get x (- i 1)) length))
       (array-get path-y i) (* y-scalar (array-get y i))))
   (return (sp-path-times out length point-count x path-y c)))
 
-- 
2.43.0


From 4c55a6e960da656ee45967f03a85a6e5440bb014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 40/65] fix: median of an odd number of values is the middle
 value and temporary memory is freed

---
 source/c-precompiled/sph-sp/statistics.c | 3 ++-
 source/sc/sph-sp/statistics.sc           | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 190ce7d..01ee09b 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -86,7 +86,8 @@
     }; \
     memcpy(temp, a, (size * sizeof(value_t))); \
     quicksort(sort_less, sort_swap, temp, 0, (size - 1)); \
-    *out = ((size & 1) ? temp[((size / 2) - 1)] : ((temp[(size / 2)] + temp[((size / 2) - 1)]) / 2.0)); \
+    *out = ((size & 1) ? temp[(size / 2)] : ((temp[(size / 2)] + ((sp_sample_t)(temp[((size / 2) - 1)]))) / 2.0)); \
+    free(temp); \
     return (0); \
   }
 #define define_sp_stat_inharmonicity(name, value_t) \
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index 5260cd7..528a3a3 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -46,8 +46,12 @@
     (memcpy temp a (* size (sizeof value-t)))
     (quicksort sort-less sort-swap temp 0 (- size 1))
     (set *out
-      (if* (bit-and size 1) (array-get temp (- (/ size 2) 1))
-        (/ (+ (array-get temp (/ size 2)) (array-get temp (- (/ size 2) 1))) 2.0)))
+      (if* (bit-and size 1) (array-get temp (/ size 2))
+        (/
+          (+ (array-get temp (/ size 2))
+            (convert-type (array-get temp (- (/ size 2) 1)) sp-sample-t))
+          2.0)))
+    (free temp)
     (return 0))
   (define-sp-stat-inharmonicity name value-t)
   (define (name a size out) (uint8-t value-t* sp-time-t sp-sample-t*)
-- 
2.43.0


From fc1dbf73235e4588e7636a10de8ea7467652519c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:39 +0000
Subject: [PATCH 41/65] fix: sp_samples_scale_to_times scales to max if all
 values are positive

---
 source/c-precompiled/sph-sp/statistics.c | 2 +-
 source/sc/sph-sp/statistics.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/statistics.c b/source/c-precompiled/sph-sp/statistics.c
index 01ee09b..02a67f6 100644
--- a/source/c-precompiled/sph-sp/statistics.c
+++ b/source/c-precompiled/sph-sp/statistics.c
@@ -197,7 +197,7 @@ define_sp_stat_range(sp_stat_samples_range, sp_sample_t)
   sp_stat_samples_range(a, size, range);
   addition = ((0 > range[0]) ? fabs((range[0])) : 0);
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / range[2])));
+    out[i] = sp_cheap_round_positive(((a[i] + addition) * (max / (range[1] + addition))));
   };
 }
 uint8_t sp_stat_samples_mean(sp_sample_t* a, sp_time_t size, sp_sample_t* out) {
diff --git a/source/sc/sph-sp/statistics.sc b/source/sc/sph-sp/statistics.sc
index 528a3a3..8143460 100644
--- a/source/sc/sph-sp/statistics.sc
+++ b/source/sc/sph-sp/statistics.sc
@@ -142,7 +142,7 @@
   (set addition (if* (> 0 (array-get range 0)) (fabs (array-get range 0)) 0))
   (sp-for-each-index i size
     (set (array-get out i)
-      (sp-cheap-round-positive (* (+ (array-get a i) addition) (/ max (array-get range 2)))))))
+      (sp-cheap-round-positive (* (+ (array-get a i) addition) (/ max (+ (array-get range 1) addition)))))))
 
 (define (sp-stat-samples-mean a size out) (uint8-t sp-sample-t* sp-time-t sp-sample-t*)
   (set *out (/ (sp-samples-sum a size) size))
-- 
2.43.0


From 067d43db5c5cc1f0eaf45c2be88213988c563b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 42/65] fix: helper status functions return their result

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.c b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
index f44fab7..000fed4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.c
@@ -9,6 +9,7 @@ uint8_t* sph_helper_status_description(status_t a) {
   } else {
     b = "";
   };
+  return (b);
 }
 uint8_t* sph_helper_status_name(status_t a) {
   uint8_t* b;
@@ -17,6 +18,7 @@ uint8_t* sph_helper_status_name(status_t a) {
   } else {
     b = "unknown";
   };
+  return (b);
 }
 
 /** allocation helpers use status-t and have the same interface */
-- 
2.43.0


From 1eec86da5a861db53ff0f98ecacde8c4926ed416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 43/65] fix: the future thread pool can be initialized again
 and is destroyed once

---
 source/c/foreign/sph-sc-lib/sph-sp/futures.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/futures.c b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
index 425613d..da74ef1 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/futures.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/futures.c
@@ -45,7 +45,7 @@ void sph_future_new(sph_future_f_t f, void* data, sph_future_t* out) {
 void sph_future_deinit() {
   if (sph_futures_pool_is_initialized) {
     sph_thread_pool_finish((&sph_futures_pool), 0, 0);
-    sph_thread_pool_destroy((&sph_futures_pool));
+    sph_futures_pool_is_initialized = 0;
   };
 }
 
-- 
2.43.0


From bba54cf89b14d60ae8595511863aad77b91491cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 44/65] fix: spline_path_get only skips segments that end
 before start

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 2ccec1c..01dd1e4 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -21,7 +21,7 @@ void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_
   size_t s_start;
   size_t s_end;
   size_t out_start;
-  for (spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index); (i < path->segments_count); path->current_segment_index = i, i += 1) {
+  for (spline_path_segment_count_t i = ((start < path->previous_start) ? 0 : path->current_segment_index); (i < path->segments_count); i += 1) {
     s = (path->segments + i);
     s_start = ((s->points)[0]).x;
     s_end = ((s->points)[(s->points_count - 1)]).x;
@@ -30,6 +30,7 @@ void spline_path_get(spline_path_t* path, size_t start, size_t end, spline_path_
       break;
     };
     if (s_end < start) {
+      path->current_segment_index = i;
       continue;
     };
     out_start = ((s_start > start) ? (s_start - start) : 0);
-- 
2.43.0


From e11748d8da93f072618c351ebe321475f0526a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:35 +0000
Subject: [PATCH 45/65] fix: bezier segments of spline paths can be generated
 from any start and do not write outside of the output

---
 .../c/foreign/sph-sc-lib/sph-sp/spline-path.c | 47 +++++++------------
 1 file changed, 17 insertions(+), 30 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index 01dd1e4..d5b21bb 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -158,7 +158,8 @@ void spline_path_line_generate(size_t start, size_t end, spline_path_segment_t*
 void spline_path_path_generate(size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) { spline_path_get(((spline_path_t*)(s->data)), (start - s->points->x), (end - s->points->x), out); }
 
 /** quadratic bezier curve with one control point.
-   bezier interpolation also interpolates x. higher resolution sampling and linear interpolation are used to fill gaps */
+   bezier interpolation also interpolates x. higher resolution sampling and linear interpolation are used to fill gaps.
+   the curve is always followed from the beginning of the segment and only values between start and end are written */
 void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_path_value_t, spline_path_value_t, spline_path_point_t*, size_t), size_t start, size_t end, spline_path_segment_t* s, spline_path_value_t* out) {
   spline_path_value_t mt;
   spline_path_point_t p_end;
@@ -174,42 +175,28 @@ void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_pat
   spline_path_value_t y;
   p_start = (s->points)[0];
   p_end = (s->points)[(s->points_count - 1)];
-  b_size = (spline_path_bezier_resolution * (end - start));
   s_size = (spline_path_bezier_resolution * (p_end.x - p_start.x));
-  for (i = (start - p_start.x), x_previous = start; ((i < b_size) || (x < end)); i += 1, x_previous = x) {
-    t = (i / s_size);
+  b_size = ceil(s_size);
+  x_previous = p_start.x;
+  y_previous = p_start.y;
+  if (start < end && start <= x_previous && x_previous < end) {
+    out[(x_previous - start)] = y_previous;
+  };
+  for (i = 0; ((i <= b_size) && (x_previous < end)); i += 1) {
+    t = ((i < b_size) ? (i / s_size) : 1);
     mt = (1.0 - t);
     x = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
     y = interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, y)));
-    if (x < end) {
-      out[(x - start)] = y;
-    };
-    if (2 > (x - x_previous)) {
-      continue;
-    };
-    if (start < x_previous) {
-      y_previous = out[(x_previous - start)];
-    } else {
-      /* gap at the beginning. find value for x before start */
-      for (j = i; j; j -= 1) {
-        t = (j / s_size);
-        mt = (1.0 - t);
-        x_previous = round((interpolator(t, mt, (s->points), (offsetof(spline_path_point_t, x)))));
-        if (x_previous < x) {
-          break;
-        };
-      };
-      if (j) {
-        y_previous = p_start.y;
-      } else {
-        y_previous = p_start.y;
-        x_previous = p_start.x;
+    for (j = (x_previous + 1); ((j < x) && (j < end)); j += 1) {
+      if (start <= j) {
+        out[(j - start)] = linearly_interpolate(y_previous, y, ((j - x_previous) / ((spline_path_value_t)((x - x_previous)))));
       };
     };
-    for (j = 1; (j < (x - x_previous)); j += 1) {
-      t = (j / ((spline_path_value_t)((x - x_previous))));
-      out[((x_previous + j) - start)] = linearly_interpolate(y_previous, y, t);
+    if ((start <= x) && (x < end)) {
+      out[(x - start)] = y;
     };
+    x_previous = x;
+    y_previous = y;
   };
 }
 spline_path_value_t spline_path_bezier1_interpolate_points(spline_path_value_t t, spline_path_value_t mt, spline_path_point_t* points, size_t field_offset) { return ((spline_path_bezier1_interpolate(t, mt, (spline_path_points_get_with_offset(points, 0, field_offset)), (spline_path_points_get_with_offset(points, 1, field_offset)), (spline_path_points_get_with_offset(points, 2, field_offset))))); }
-- 
2.43.0


From f7c285c20085693afbb77f2e36ae5aac39e67f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 46/65] fix: sp_pan_to_amp works for channels after the second

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 14b2a33..a1a746e 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -480,7 +480,7 @@ sp_sample_t sp_square(sp_time_t t, sp_time_t size) { return ((((t % size) < ((si
    1: first channel muted
    0.75: first channel 50%
    0.25: second channel 50% */
-sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? (sp_inline_limit(value, (channel - 1), (channel - 0.5)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - 0.5) / 0.5)))); }
+sp_sample_t sp_pan_to_amp(sp_sample_t value, sp_channel_count_t channel) { return (((1 & channel) ? ((sp_inline_limit(value, (channel - 1), (channel - 0.5)) - (channel - 1)) / 0.5) : (1 - ((sp_inline_limit(value, (channel + 0.5), (channel + 1)) - (channel + 0.5)) / 0.5)))); }
 
 /** untested. return normally distributed numbers in range */
 sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 435a417..a3c1867 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -378,8 +378,8 @@
    0.75: first channel 50%
    0.25: second channel 50%"
   (return
-    (if* (bit-and 1 channel) (/ (sp-inline-limit value (- channel 1) (- channel 0.5)) 0.5)
-      (- 1 (/ (- (sp-inline-limit value (+ channel 0.5) (+ channel 1)) 0.5) 0.5)))))
+    (if* (bit-and 1 channel) (/ (- (sp-inline-limit value (- channel 1) (- channel 0.5)) (- channel 1)) 0.5)
+      (- 1 (/ (- (sp-inline-limit value (+ channel 0.5) (+ channel 1)) (+ channel 0.5)) 0.5)))))
 
 (define (sp-normal-random min max) (sp-time-t sp-time-t sp-time-t)
   "untested. return normally distributed numbers in range"
-- 
2.43.0


From 00b92c9c34250db07ceef6f8b978a9cdeb331d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:52 +0000
Subject: [PATCH 47/65] fix: sp_seq keeps what a failing prepare registered
 with the event, so that it is freed

---
 source/c-precompiled/sph-sp/sequencer.c | 4 ++--
 source/sc/sph-sp/sequencer.sc           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index bf63401..50338fa 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -266,8 +266,8 @@ status_t sp_seq(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_list_t*
     } else if (end <= e.start) {
       break;
     } else if (e.end > start) {
-      sp_event_prepare_optional_srq(e);
-      *ep = e;
+      sp_event_prepare_optional_srq((*ep));
+      e = *ep;
       status_require(((e.generate)(((start > e.start) ? (start - e.start) : 0), (sp_inline_min(end, (e.end)) - e.start), ((e.start > start) ? sp_block_with_offset(out, (e.start - start)) : out), ep)));
     };
     current = current->next;
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index dd79850..b61f0b2 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -170,7 +170,7 @@
       ( (<= e.end start) (set next current:next) (sp-event-list-remove events current)
         (set current next) continue)
       ((<= end e.start) break)
-      ( (> e.end start) (sp-event-prepare-optional-srq e) (set *ep e)
+      ( (> e.end start) (sp-event-prepare-optional-srq *ep) (set e *ep)
         (status-require
           (e.generate (if* (> start e.start) (- start e.start) 0)
             (- (sp-inline-min end e.end) e.start)
-- 
2.43.0


From 706f1ca0e6737e4dd8c9f49576183b21a236e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:56 +0000
Subject: [PATCH 48/65] fix: sp_map_event frees the wrapped event if its
 preparation fails

---
 source/c-precompiled/sph-sp/sequencer.c | 2 +-
 source/sc/sph-sp/sequencer.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.c b/source/c-precompiled/sph-sp/sequencer.c
index 50338fa..4edffe7 100644
--- a/source/c-precompiled/sph-sp/sequencer.c
+++ b/source/c-precompiled/sph-sp/sequencer.c
@@ -440,8 +440,8 @@ status_t sp_map_event_prepare(sp_event_t* event) {
   status_declare;
   sp_map_event_config_t* c;
   c = event->config;
-  sp_event_prepare_optional_srq((c->event));
   event->free = sp_map_event_free;
+  sp_event_prepare_optional_srq((c->event));
 exit:
   status_return;
 }
diff --git a/source/sc/sph-sp/sequencer.sc b/source/sc/sph-sp/sequencer.sc
index b61f0b2..b34fb30 100644
--- a/source/sc/sph-sp/sequencer.sc
+++ b/source/sc/sph-sp/sequencer.sc
@@ -313,8 +313,8 @@
   status-declare
   (declare c sp-map-event-config-t*)
   (set c event:config)
-  (sp-event-prepare-optional-srq c:event)
   (set event:free sp-map-event-free)
+  (sp-event-prepare-optional-srq c:event)
   (label exit status-return))
 
 (define (sp-map-event-free event) (void sp-event-t*)
-- 
2.43.0


From 7b83ba18d5bacc0df821bffd893feadfd365ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:46 +0000
Subject: [PATCH 49/65] fix: sp_block_free releases the memory of blocks of
 size zero, which sp_seq_parallel creates for events without duration

---
 source/c-precompiled/sph-sp/main.c | 6 ++----
 source/c-precompiled/sph-sp/main.h | 3 ++-
 source/sc/sph-sp/main.h.sc         | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 4 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index a1a746e..1c20a27 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -145,10 +145,8 @@ exit:
   status_return;
 }
 void sp_block_free(sp_block_t* a) {
-  if (a->size) {
-    for (sp_size_t i = 0; (i < a->channel_count); i += 1) {
-      free(((a->samples)[i]));
-    };
+  for (sp_size_t i = 0; (i < a->channel_count); i += 1) {
+    free(((a->samples)[i]));
   };
 }
 
diff --git a/source/c-precompiled/sph-sp/main.h b/source/c-precompiled/sph-sp/main.h
index 5b54b2c..1a723e6 100644
--- a/source/c-precompiled/sph-sp/main.h
+++ b/source/c-precompiled/sph-sp/main.h
@@ -28,7 +28,8 @@
 #define sp_subtract(a, b) (a - b)
 #define sp_block_declare(a) \
   sp_block_t a; \
-  a.size = 0
+  a.size = 0; \
+  a.channel_count = 0
 #define sp_cheap_round_positive(a) ((sp_time_t)((0.5 + a)))
 
 /** only works for non-negative values */
diff --git a/source/sc/sph-sp/main.h.sc b/source/sc/sph-sp/main.h.sc
index 50929d9..28c6f3a 100644
--- a/source/sc/sph-sp/main.h.sc
+++ b/source/sc/sph-sp/main.h.sc
@@ -26,7 +26,7 @@
   (sp-declare-block id) (define id sp-block-t (struct-literal 0))
   (sp-time->sample x) (convert-type x sp-sample-t)
   (sp-subtract a b) (- a b)
-  (sp-block-declare a) (begin (declare a sp-block-t) (set a.size 0))
+  (sp-block-declare a) (begin (declare a sp-block-t) (set a.size 0 a.channel-count 0))
   (sp-cheap-round-positive a) (convert-type (+ 0.5 a) sp-time-t)
   (sp-cheap-floor-positive a) (begin "only works for non-negative values" (convert-type a sp-time-t))
   (sp-cheap-ceiling-positive a) (+ (convert-type a sp-time-t) (< (convert-type a sp-time-t) a))
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index a3c1867..7492ab4 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -93,7 +93,7 @@
   (label exit (if status-is-failure memreg-free) status-return))
 
 (define (sp-block-free a) (void sp-block-t*)
-  (if a:size (sp-for-each-index i a:channel-count (free (array-get a:samples i)))))
+  (sp-for-each-index i a:channel-count (free (array-get a:samples i))))
 
 (define (sp-block-with-offset a offset) (sp-block-t sp-block-t sp-time-t)
   "return a new block with offset added to all channel sample arrays"
-- 
2.43.0


From cee360b27a83b13aa58877be453aec9bed3adf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:51 +0000
Subject: [PATCH 50/65] fix: groups that are freed before they have been
 prepared free their members

---
 source/c-precompiled/sph-sp/sequencer.h | 2 ++
 source/sc/sph-sp/sequencer.h.sc         | 7 ++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index d498bd5..ef0c618 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -44,10 +44,12 @@
 #define sp_group_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
   event_pointer->generate = sp_group_generate; \
+  event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_group_parallel_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
   event_pointer->generate = sp_group_generate_parallel; \
+  event_pointer->free = sp_group_free; \
   event_pointer->config = 0
 #define sp_event_path_samples_srq(event_pointer, out, ...) \
   status_require((sp_path_samples(out, __VA_ARGS__))); \
diff --git a/source/sc/sph-sp/sequencer.h.sc b/source/sc/sph-sp/sequencer.h.sc
index 7164d8a..5b76ee6 100644
--- a/source/sc/sph-sp/sequencer.h.sc
+++ b/source/sc/sph-sp/sequencer.h.sc
@@ -40,11 +40,16 @@
     generate (if* _config:isolate sp-map-event-isolated-generate sp-map-event-generate)
     config _config)
   (sp-group-event event-pointer)
-  (struct-pointer-set event-pointer prepare sp-group-prepare generate sp-group-generate config 0)
+  (struct-pointer-set event-pointer
+    prepare sp-group-prepare
+    generate sp-group-generate
+    free sp-group-free
+    config 0)
   (sp-group-parallel-event event-pointer)
   (struct-pointer-set event-pointer
     prepare sp-group-prepare
     generate sp-group-generate-parallel
+    free sp-group-free
     config 0)
   (sp-event-path-samples-srq event-pointer out ...)
   (begin
-- 
2.43.0


From 6472157caaae1ab10ed44ddeaabeb6c99358d967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 51/65] fix: map events that are freed before they have been
 prepared free the wrapped event

---
 source/c-precompiled/sph-sp/sequencer.h | 1 +
 source/sc/sph-sp/sequencer.h.sc         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/source/c-precompiled/sph-sp/sequencer.h b/source/c-precompiled/sph-sp/sequencer.h
index ef0c618..8588406 100644
--- a/source/c-precompiled/sph-sp/sequencer.h
+++ b/source/c-precompiled/sph-sp/sequencer.h
@@ -40,6 +40,7 @@
 #define sp_map_event(event_pointer, _config) \
   event_pointer->prepare = sp_map_event_prepare; \
   event_pointer->generate = (_config->isolate ? sp_map_event_isolated_generate : sp_map_event_generate); \
+  event_pointer->free = sp_map_event_free; \
   event_pointer->config = _config
 #define sp_group_event(event_pointer) \
   event_pointer->prepare = sp_group_prepare; \
diff --git a/source/sc/sph-sp/sequencer.h.sc b/source/sc/sph-sp/sequencer.h.sc
index 5b76ee6..6609e66 100644
--- a/source/sc/sph-sp/sequencer.h.sc
+++ b/source/sc/sph-sp/sequencer.h.sc
@@ -38,6 +38,7 @@
   (struct-pointer-set event-pointer
     prepare sp-map-event-prepare
     generate (if* _config:isolate sp-map-event-isolated-generate sp-map-event-generate)
+    free sp-map-event-free
     config _config)
   (sp-group-event event-pointer)
   (struct-pointer-set event-pointer
-- 
2.43.0


From fc8ec99ec8edb0c0649658c6f6b22c1c9c2e9545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 52/65] fix: the status id of allocation failures is not the id
 of success

---
 source/c/foreign/sph-sc-lib/sph-sp/helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/helper.h b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
index c10b6c2..25dcb7f 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/helper.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/helper.h
@@ -4,7 +4,7 @@
 
 /* depends on status.h */
 #include <inttypes.h>
-enum { sph_helper_status_id_memory };
+enum { sph_helper_status_id_memory = 1 };
 #define sph_helper_status_group ((uint8_t*)("sph"))
 
 /** add explicit type cast to prevent compiler warning */
-- 
2.43.0


From 5eaae3a6c408432e91375f74888af7eeb4a0299a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:47 +0000
Subject: [PATCH 53/65] fix: curved paths keep the value of the start point
 when following curve points round to the same position

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index d5b21bb..e3e459b 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -192,7 +192,7 @@ void spline_path_beziern_generate(spline_path_value_t (*interpolator)(spline_pat
         out[(j - start)] = linearly_interpolate(y_previous, y, ((j - x_previous) / ((spline_path_value_t)((x - x_previous)))));
       };
     };
-    if ((start <= x) && (x < end)) {
+    if ((x_previous < x) && (start <= x) && (x < end)) {
       out[(x - start)] = y;
     };
     x_previous = x;
-- 
2.43.0


From 711a9d91578d8589493542be94ebf7887e45f046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:53 +0000
Subject: [PATCH 54/65] fix: time paths free the temporary samples when the
 result can not be allocated

---
 source/c-precompiled/sph-sp/path.c | 5 ++++-
 source/sc/sph-sp/path.sc           | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/path.c b/source/c-precompiled/sph-sp/path.c
index 6b508d4..527393c 100644
--- a/source/c-precompiled/sph-sp/path.c
+++ b/source/c-precompiled/sph-sp/path.c
@@ -33,10 +33,13 @@ exit:
 /** c is for curvature and values are between -1.0 and 1.0 */
 status_t sp_path_times(sp_time_t** out, sp_time_t length, sp_path_point_count_t point_count, sp_sample_t* x, sp_sample_t* y, sp_sample_t* c) {
   status_declare;
-  sp_sample_t* temp;
+  sp_sample_t* temp = 0;
   status_require((sp_path_samples((&temp), length, point_count, x, y, c)));
   status_require((sp_samples_to_times_replace(temp, length, out)));
 exit:
+  if (status_is_failure) {
+    free(temp);
+  };
   status_return;
 }
 #define sp_define_path_n(type_name, type) \
diff --git a/source/sc/sph-sp/path.sc b/source/sc/sph-sp/path.sc
index f36cf61..6a008a8 100644
--- a/source/sc/sph-sp/path.sc
+++ b/source/sc/sph-sp/path.sc
@@ -36,9 +36,10 @@
   "c is for curvature and values are between -1.0 and 1.0"
   status-declare
   (declare temp sp-sample-t*)
+  (set temp 0)
   (status-require (sp-path-samples &temp length point-count x y c))
   (status-require (sp-samples->times-replace temp length out))
-  (label exit status-return))
+  (label exit (if status-is-failure (free temp)) status-return))
 
 (pre-define (sp-define-path-n type-name type)
   (begin
-- 
2.43.0


From 703aecc1f75acc66d0f625996a7f30faad14a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:01 +0000
Subject: [PATCH 55/65] fix: nested path segments end at their start plus the
 length of the nested path instead of being empty

---
 source/c/foreign/sph-sc-lib/sph-sp/spline-path.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
index e3e459b..c653746 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/spline-path.c
@@ -58,6 +58,7 @@ size_t spline_path_size(spline_path_t path) {
 }
 uint8_t spline_path_path_prepare(spline_path_segment_t* s) {
   (s->points)[1] = spline_path_end((*((spline_path_t*)(s->data))));
+  ((s->points)[1]).x += ((s->points)[0]).x;
   return (0);
 }
 uint8_t spline_path_constant_prepare(spline_path_segment_t* s) {
@@ -241,7 +242,7 @@ spline_path_segment_t spline_path_path(spline_path_t path) {
   };
   s.free = free;
   s.generate = spline_path_path_generate;
-  s.points_count = 1;
+  s.points_count = 2;
   s.prepare = spline_path_path_prepare;
   return (s);
 }
-- 
2.43.0


From 80140db23720e24dad78d61b82a1013a5cd0dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:28 +0000
Subject: [PATCH 56/65] fix: the sum of an empty float array is zero instead of
 reading out of bounds

---
 source/c/foreign/sph-sc-lib/sph-sp/float.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/float.h b/source/c/foreign/sph-sc-lib/sph-sp/float.h
index aeeff8c..051cb14 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/float.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/float.h
@@ -8,6 +8,9 @@
     type temp; \
     type element; \
     type correction = 0; \
+    if (!len) { \
+      return (0); \
+    }; \
     len = (len - 1); \
     type result = numbers[len]; \
     while (len) { \
-- 
2.43.0


From f63ea2ce921a968d8bbd4e4b239bcc2cbc09fee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:38 +0000
Subject: [PATCH 57/65] fix: quicksort does not read outside of the array

---
 source/c/foreign/sph-sc-lib/sph-sp/quicksort.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
index f6438c8..bfe039b 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/quicksort.h
@@ -30,6 +30,9 @@ void quicksort(uint8_t (*less_p)(void*, ssize_t, ssize_t), void (*swap)(void*, s
     swap(array, l, r);
     l = (1 + l);
     r = (r - 1);
+    if (l > r) {
+      break;
+    };
   };
   quicksort(less_p, swap, array, left, r);
   quicksort(less_p, swap, array, l, right);
-- 
2.43.0


From 8a9c804340815ea559b8033c223a50bf90518db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 58/65] fix: the end of file status has a name

---
 source/c-precompiled/sph-sp/main.c | 4 +++-
 source/sc/sph-sp/main.sc           | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 1c20a27..4b81915 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -101,7 +101,9 @@ uint8_t* sp_status_description(status_t a) {
 uint8_t* sp_status_name(status_t a) {
   uint8_t* b;
   if (0 == strcmp(sp_s_group_sp, (a.group))) {
-    if (sp_s_id_input_type == a.id) {
+    if (sp_s_id_eof == a.id) {
+      b = "end-of-file";
+    } else if (sp_s_id_input_type == a.id) {
       b = "input-type";
     } else if (sp_s_id_not_implemented == a.id) {
       b = "not-implemented";
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 7492ab4..a8a87d7 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -68,6 +68,7 @@
   (cond
     ( (= 0 (strcmp sp-s-group-sp a.group))
       (case = a.id
+        (sp-s-id-eof (set b "end-of-file"))
         (sp-s-id-input-type (set b "input-type"))
         (sp-s-id-not-implemented (set b "not-implemented"))
         (sp-s-id-memory (set b "memory"))
-- 
2.43.0


From 04ba3202ea46b0b93329416c99d966cf9b342632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:53 +0000
Subject: [PATCH 59/65] fix: shutting down a thread pool leaves no finish tasks
 behind

---
 .../c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 08f19e5..f6887c0 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -18,6 +18,17 @@ void sph_thread_pool_enqueue(sph_thread_pool_t* a, sph_thread_pool_task_t* task)
   pthread_mutex_unlock((&(a->queue_mutex)));
 }
 
+/** remove all tasks from the queue and free the ones that were created by thread-pool-finish */
+static void sph_thread_pool_discard(sph_queue_t* queue) {
+  sph_thread_pool_task_t* task;
+  while (queue->size) {
+    task = sph_queue_get((sph_queue_deq(queue)), sph_thread_pool_task_t, q);
+    if (sph_thread_finish == task->f) {
+      free(task);
+    };
+  };
+}
+
 /** let threads complete all currently enqueued tasks, close the threads and free resources unless no_wait is true.
    if no_wait is true then the call is non-blocking and threads might still be running until they finish the queue after this call.
    thread_pool_finish can be called again without no_wait. with only no_wait thread_pool_destroy will not be called
@@ -29,25 +40,33 @@ int sph_thread_pool_finish(sph_thread_pool_t* a, uint8_t no_wait, uint8_t discar
   sph_thread_pool_size_t i;
   sph_thread_pool_size_t size;
   sph_thread_pool_task_t* task;
-  if (discard_queue) {
-    pthread_mutex_lock((&(a->queue_mutex)));
-    sph_queue_init((&(a->queue)));
-    pthread_mutex_unlock((&(a->queue_mutex)));
-  };
+  sph_queue_t tasks;
+  /* allocate everything first so that nothing changes on failure */
+  sph_queue_init((&tasks));
   size = a->size;
   for (i = 0; (i < size); i = (1 + i)) {
     task = malloc((sizeof(sph_thread_pool_task_t)));
     if (!task) {
+      sph_thread_pool_discard((&tasks));
       return (1);
     };
     task->f = sph_thread_finish;
-    sph_thread_pool_enqueue(a, task);
+    sph_queue_enq((&tasks), (&(task->q)));
+  };
+  if (discard_queue) {
+    pthread_mutex_lock((&(a->queue_mutex)));
+    sph_thread_pool_discard((&(a->queue)));
+    pthread_mutex_unlock((&(a->queue_mutex)));
+  };
+  while (tasks.size) {
+    sph_thread_pool_enqueue(a, (sph_queue_get((sph_queue_deq((&tasks))), sph_thread_pool_task_t, q)));
   };
   if (!no_wait) {
     for (i = 0; (i < size); i = (1 + i)) {
       if (0 == pthread_join(((a->threads)[i]), (&exit_value))) {
         a->size = (a->size - 1);
         if (0 == a->size) {
+          sph_thread_pool_discard((&(a->queue)));
           sph_thread_pool_destroy(a);
         };
       };
-- 
2.43.0


From 9690b34c97ba07af6d418728c1afd84c4b1ebf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:57 +0000
Subject: [PATCH 60/65] fix: failing to create a thread pool ends the threads
 that were created and frees its resources

---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index f6887c0..34d340c 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -110,7 +110,9 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
       if (0 < i) {
         /* try to finish previously created threads */
         a->size = i;
-        sph_thread_pool_finish(a, 1, 0);
+        sph_thread_pool_finish(a, 0, 0);
+      } else {
+        sph_thread_pool_destroy(a);
       };
       goto exit;
     };
-- 
2.43.0


From ec099f5d884ac659a8e02e64ac26a4faf9e755f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:58 +0000
Subject: [PATCH 61/65] fix: sine periods of an odd number of samples fit
 exactly

---
 source/c-precompiled/sph-sp/main.c | 2 +-
 source/sc/sph-sp/main.sc           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 4b81915..970991e 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -191,7 +191,7 @@ sp_time_t sp_phase_float(sp_time_t current, sp_sample_t change, sp_time_t cycle)
    can be used to create lookup tables */
 void sp_sine_period(sp_time_t size, sp_sample_t* out) {
   for (sp_size_t i = 0; (i < size); i += 1) {
-    out[i] = sin((i * (M_PI / (size / 2))));
+    out[i] = sin((i * ((2 * M_PI) / size)));
   };
 }
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index a8a87d7..ff82016 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -124,7 +124,7 @@
 (define (sp-sine-period size out) (void sp-time-t sp-sample-t*)
   "writes one full period of a sine wave into out. the sine has the frequency that makes it fit exactly into size.
    can be used to create lookup tables"
-  (sp-for-each-index i size (set (array-get out i) (sin (* i (/ M_PI (/ size 2)))))))
+  (sp-for-each-index i size (set (array-get out i) (sin (* i (/ (* 2 M_PI) size))))))
 
 (define (sp-wave size wvf wvf-size amp amod frq fmod phs-state out)
   (void sp-time-t sp-sample-t* sp-time-t sp-sample-t sp-sample-t* sp-time-t sp-time-t* sp-time-t* sp-sample-t*)
-- 
2.43.0


From 5f79082850acb1a219f1aef693111f7baac080fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:02 +0000
Subject: [PATCH 62/65] fix: thread pools do not create more threads than they
 have space for

---
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c | 3 +++
 source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h | 1 +
 2 files changed, 4 insertions(+)

diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
index 34d340c..bc2102e 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.c
@@ -98,6 +98,9 @@ int sph_thread_pool_new(sph_thread_pool_size_t size, sph_thread_pool_t* a) {
   sph_thread_pool_size_t i;
   pthread_attr_t attr;
   int error;
+  if (size > sph_thread_pool_thread_limit) {
+    return (EINVAL);
+  };
   error = 0;
   sph_queue_init((&(a->queue)));
   pthread_mutex_init((&(a->queue_mutex)), 0);
diff --git a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
index f9a855a..94696f7 100644
--- a/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
+++ b/source/c/foreign/sph-sc-lib/sph-sp/thread-pool.h
@@ -3,6 +3,7 @@
 #define sph_thread_pool_h
 
 #include <pthread.h>
+#include <errno.h>
 /* thread-pool that uses pthread condition variables to pause unused threads.
    based on the design of thread-pool.scm from sph-lib which has been stress tested in servers and digital signal processing.
    depends on queue.h */
-- 
2.43.0


From adb1a05ccc9993a5e702a260b14fa328e13ad5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:06 +0000
Subject: [PATCH 63/65] fix: initialising with too many threads is rejected

---
 source/c-precompiled/sph-sp/main.c | 4 ++++
 source/sc/sph-sp/main.sc           | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 970991e..7e69099 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -430,6 +430,10 @@ sp_random_state_t sp_random_state_new(sp_time_t seed) {
    which are used as defaults in a few cases */
 status_t sp_initialize(uint16_t cpu_count, sp_channel_count_t channel_count, sp_time_t rate) {
   status_declare;
+  if (cpu_count > sph_thread_pool_thread_limit) {
+    status_set(sp_s_group_sp, sp_s_id_invalid_argument);
+    status_return;
+  };
   if (cpu_count) {
     status.id = sph_future_init(cpu_count);
     if (status.id) {
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index ff82016..f721d84 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -334,6 +334,8 @@
    rate and channel-count are used to set sp_rate and sp_channel-count,
    which are used as defaults in a few cases"
   status-declare
+  (if (> cpu-count sph-thread-pool-thread-limit)
+    (begin (status-set sp-s-group-sp sp-s-id-invalid-argument) status-return))
   (if cpu-count (begin (set status.id (sph-future-init cpu-count)) (if status.id status-return)))
   (set
     sp-sine-table 0
-- 
2.43.0


From 10ab11b034ed36d34cf435c7115286448193eff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:10 +0000
Subject: [PATCH 64/65] fix: deinitialising more than once frees the sine
 tables once

---
 source/c-precompiled/sph-sp/main.c | 2 ++
 source/sc/sph-sp/main.sc           | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 7e69099..339a728 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -463,6 +463,8 @@ void sp_deinitialize() {
   };
   free(sp_sine_table);
   free(sp_sine_table_lfo);
+  sp_sine_table = 0;
+  sp_sine_table_lfo = 0;
 }
 #include <sph-sp/path.c>
 
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index f721d84..0dc1d39 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -354,7 +354,8 @@
 (define (sp-deinitialize) void
   (if sp-cpu-count (sph-future-deinit))
   (free sp-sine-table)
-  (free sp-sine-table-lfo))
+  (free sp-sine-table-lfo)
+  (set sp-sine-table 0 sp-sine-table-lfo 0))
 
 (pre-include "sph-sp/path.c")
 (sc-comment "extra")
-- 
2.43.0


From 954420d894e4670fe6b8cca6c0d4cf16a57e8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:21 +0000
Subject: [PATCH 65/65] fix: harmonising rounds to the nearest multiple instead
 of always up

---
 source/c-precompiled/sph-sp/main.c | 4 ++--
 source/sc/sph-sp/main.sc           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/c-precompiled/sph-sp/main.c b/source/c-precompiled/sph-sp/main.c
index 339a728..0fb9b34 100644
--- a/source/c-precompiled/sph-sp/main.c
+++ b/source/c-precompiled/sph-sp/main.c
@@ -502,7 +502,7 @@ sp_time_t sp_normal_random(sp_time_t min, sp_time_t max) {
    for example, amount 1.0 rounds fully, amount 0.0 does not round at all, amount 0.5 rounds half-way */
 sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = (((a + (base / 2)) / base) * base);
   return (((a > nearest) ? (a - (amount * (a - nearest))) : (a + (amount * (nearest - a)))));
 }
 
@@ -510,7 +510,7 @@ sp_time_t sp_time_harmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
 sp_time_t sp_time_deharmonize(sp_time_t a, sp_time_t base, sp_sample_t amount) {
   sp_time_t nearest;
   sp_sample_t distance_ratio;
-  nearest = ((((a + base) - 1) / base) * base);
+  nearest = (((a + (base / 2)) / base) * base);
   distance_ratio = ((base - sp_inline_absolute_difference(a, nearest)) / ((sp_sample_t)(base)));
   amount = (amount * distance_ratio * (1 + sp_time_random_bounded((base / 2))));
   if ((a > nearest) || (a < amount)) {
diff --git a/source/sc/sph-sp/main.sc b/source/sc/sph-sp/main.sc
index 0dc1d39..dd8823a 100644
--- a/source/sc/sph-sp/main.sc
+++ b/source/sc/sph-sp/main.sc
@@ -397,14 +397,14 @@
   "untested. round value amount distance to nearest multiple of base.
    for example, amount 1.0 rounds fully, amount 0.0 does not round at all, amount 0.5 rounds half-way"
   (declare nearest sp-time-t)
-  (set nearest (* (/ (- (+ a base) 1) base) base))
+  (set nearest (* (/ (+ a (/ base 2)) base) base))
   (return (if* (> a nearest) (- a (* amount (- a nearest))) (+ a (* amount (- nearest a))))))
 
 (define (sp-time-deharmonize a base amount) (sp-time-t sp-time-t sp-time-t sp-sample-t)
   "untested. the nearer values are to the multiple, the further move them randomly up to half base away"
   (declare nearest sp-time-t distance-ratio sp-sample-t)
   (set
-    nearest (* (/ (- (+ a base) 1) base) base)
+    nearest (* (/ (+ a (/ base 2)) base) base)
     distance-ratio
     (/ (- base (sp-inline-absolute-difference a nearest)) (convert-type base sp-sample-t))
     amount (* amount distance-ratio (+ 1 (sp-time-random-bounded (/ base 2)))))
-- 
2.43.0

