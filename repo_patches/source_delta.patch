From d15fa6c1c3fca606eacb32141bfc2ce4632d30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 01/99] fix: string search for one character must not read past
 the end of the haystack

---
 include/dynd/string_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 60111e7..5662e80 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -43,7 +43,7 @@ namespace detail {
     else {
       const char *s = haystack;
       while (s < haystack + n) {
-        void *candidate = memchr((void *)s, needle, n);
+        void *candidate = memchr((void *)s, needle, haystack + n - s);
         if (candidate == NULL) {
           return;
         }
-- 
2.43.0


From 1d217ee459af885ca672fca37fdba84a9e0f1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 02/99] fix: reverse string search for one character must visit
 the whole haystack

---
 include/dynd/string_search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 5662e80..7611da4 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -59,7 +59,7 @@ namespace detail {
   template <class match_handler>
   void string_search_1char_reverse(const char *haystack, size_t n, char needle, match_handler &handle_match)
   {
-    for (size_t i = n - 1; i <= 0; --i) {
+    for (size_t i = n; i-- > 0;) {
       if (haystack[i] == needle) {
         if (handle_match(i)) {
           return;
-- 
2.43.0


From bd9656cf2e9e9c155a9b2d58ac377cf6f5a791a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 03/99] fix: string search must not skip past a match that
 follows another one

---
 include/dynd/string_search.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dynd/string_search.hpp b/include/dynd/string_search.hpp
index 7611da4..39b5707 100644
--- a/include/dynd/string_search.hpp
+++ b/include/dynd/string_search.hpp
@@ -147,6 +147,7 @@ namespace detail {
             return;
           }
           i = i + mlast;
+          continue;
         }
         /* miss: check if next character is part of pattern */
         if (i < w && !bloom.has_char(ss[i + 1])) {
-- 
2.43.0


From 6fc1bbaa2613734c65e5204a79c690cb71a0ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 04/99] fix: resizing a short string or bytes value must
 replace its size, not OR into it

---
 include/dynd/types/sso_bytestring.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 37f7ae0..23c8cec 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -180,7 +180,8 @@ public:
   void resize(size_t new_size) {
     reserve(new_size);
     if (is_sso()) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(m_size) | (static_cast<uint64_t>(new_size) << 56));
+      m_size = static_cast<int64_t>((static_cast<uint64_t>(m_size) & 0x00ffffffffffffffULL) |
+                                    (static_cast<uint64_t>(new_size) << 56));
       // Always keep the unused SSO bytes as 0 for unique representation and NUL-padding when that is enabled
       memset(sso_data() + new_size, 0, 15u - new_size);
     } else {
-- 
2.43.0


From 19aba16f3cc470e74218b948fa837ccc12dc452c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 05/99] fix: assigning a short string or bytes value to itself
 must keep its contents

---
 include/dynd/types/sso_bytestring.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 23c8cec..42ac025 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -34,10 +34,12 @@ protected:
   constexpr size_t sso_capacity() const { return 15u - NulPadding; }
   /** When the object has no memory allocated and `size` is <= capacity(), do straight SSO assignment */
   void sso_assign(const char *data, size_t size) {
-      m_size = static_cast<int64_t>(static_cast<uint64_t>(size) << 56);
-      DYND_MEMCPY(sso_data(), data, size);
+      // NOTE: `data` may point into this object, so it has to be copied before anything else is written
+      memmove(sso_data(), data, size);
       // Zero out the rest of the bytes for a unique representation
       memset(sso_data() + size, 0, 15u - size);
+      m_size = static_cast<int64_t>((static_cast<uint64_t>(m_size) & 0x00ffffffffffffffULL) |
+                                    (static_cast<uint64_t>(size) << 56));
   }
 
   /** When SSO is not used, the size is stored in m_size */
@@ -116,7 +118,7 @@ public:
       }
     } else if (size <= capacity()) {
       char *heapdata = heap_data();
-      DYND_MEMCPY(heapdata, bytestr, size);
+      memmove(heapdata, bytestr, size);
       if (NulPadding) {
         heapdata[size] = 0;
       }
-- 
2.43.0


From ea45ed298eb5089cea28df6d48d0fe1a849138af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 06/99] fix: appending a string or bytes value to itself must
 not read freed memory

---
 include/dynd/types/sso_bytestring.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 42ac025..982a248 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -148,6 +148,14 @@ public:
 
   void append(const char *bytestr, size_t bssize) {
     size_t old_size = size();
+    const char *old_data = data();
+    if (bytestr >= old_data && bytestr < old_data + old_size) {
+      // The appended bytes are part of this object, whose storage may move when it grows
+      size_t offset = bytestr - old_data;
+      resize_grow(old_size + bssize);
+      DYND_MEMCPY(data() + old_size, data() + offset, bssize);
+      return;
+    }
     resize_grow(old_size + bssize);
     DYND_MEMCPY(data() + old_size, bytestr, bssize);
   }
-- 
2.43.0


From 0cfc413bb07ac873d1393ccc8eb41329729766a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:00 +0000
Subject: [PATCH 07/99] fix: elementwise evaluation must step over the metadata
 of dimensions of size one, and of fixed dimensions next to var dimensions

---
 include/dynd/callables/base_elwise_callable.hpp |  7 +++++--
 include/dynd/callables/elwise_callable.hpp      | 17 +++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/dynd/callables/base_elwise_callable.hpp b/include/dynd/callables/base_elwise_callable.hpp
index 56054ee..2c1be44 100644
--- a/include/dynd/callables/base_elwise_callable.hpp
+++ b/include/dynd/callables/base_elwise_callable.hpp
@@ -28,6 +28,7 @@ namespace nd {
 
       struct data_type {
         std::array<bool, N> arg_broadcast;
+        std::array<bool, N> arg_missing;
         std::array<bool, N> arg_var;
         intptr_t res_alignment;
         size_t ndim;
@@ -57,7 +58,9 @@ namespace nd {
         std::array<ndt::type, N> arg_element_tp;
         intptr_t max_ndim = reinterpret_cast<codata_type *>(codata)->ndim;
         for (size_t i = 0; i < N; ++i) {
-          data.arg_broadcast[i] = (arg_tp[i].get_ndim() - child_arg_tp[i].get_ndim()) < max_ndim;
+          // An argument with fewer dimensions does not have this one at all
+          data.arg_missing[i] = (arg_tp[i].get_ndim() - child_arg_tp[i].get_ndim()) < max_ndim;
+          data.arg_broadcast[i] = data.arg_missing[i];
           if (data.arg_broadcast[i]) {
             arg_size[i] = 1;
             arg_element_tp[i] = arg_tp[i];
@@ -71,7 +74,7 @@ namespace nd {
         }
 
         for (size_t i = 0; i < N; ++i) {
-          data.arg_var[i] = arg_tp[i].get_id() == var_dim_id;
+          data.arg_var[i] = !data.arg_missing[i] && arg_tp[i].get_id() == var_dim_id;
         }
 
         intptr_t res_size;
diff --git a/include/dynd/callables/elwise_callable.hpp b/include/dynd/callables/elwise_callable.hpp
index c6b2377..11ab653 100644
--- a/include/dynd/callables/elwise_callable.hpp
+++ b/include/dynd/callables/elwise_callable.hpp
@@ -49,8 +49,9 @@ namespace nd {
       void subresolve(call_graph &cg, const char *data) {
         bool res_broadcast = reinterpret_cast<const data_type *>(data)->res_ignore;
         const std::array<bool, N> &arg_broadcast = reinterpret_cast<const data_type *>(data)->arg_broadcast;
+        const std::array<bool, N> &arg_missing = reinterpret_cast<const data_type *>(data)->arg_missing;
 
-        cg.emplace_back([res_broadcast, arg_broadcast](kernel_builder &kb, kernel_request_t kernreq, char *data,
+        cg.emplace_back([res_broadcast, arg_broadcast, arg_missing](kernel_builder &kb, kernel_request_t kernreq, char *data,
                                                        const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
                                                        const char *const *src_arrmeta) {
           size_t size;
@@ -75,11 +76,10 @@ namespace nd {
           for (size_t i = 0; i < N; ++i) {
             if (arg_broadcast[i]) {
               src_stride[i] = 0;
-              child_src_arrmeta[i] = src_arrmeta[i];
             } else {
               src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
-              child_src_arrmeta[i] = src_arrmeta[i] + sizeof(size_stride_t);
             }
+            child_src_arrmeta[i] = arg_missing[i] ? src_arrmeta[i] : (src_arrmeta[i] + sizeof(size_stride_t));
           }
 
           kb.emplace_back<elwise_kernel<fixed_dim_id, fixed_dim_id, TraitsType, N>>(kernreq, data, size, dst_stride,
@@ -102,9 +102,10 @@ namespace nd {
     public:
       void subresolve(call_graph &cg, const char *data) {
         std::array<bool, N> arg_broadcast = reinterpret_cast<const data_type *>(data)->arg_broadcast;
+        std::array<bool, N> arg_missing = reinterpret_cast<const data_type *>(data)->arg_missing;
         std::array<bool, N> arg_var = reinterpret_cast<const data_type *>(data)->arg_var;
 
-        cg.emplace_back([arg_broadcast, arg_var](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+        cg.emplace_back([arg_broadcast, arg_missing, arg_var](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                                                  const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
                                                  const char *const *src_arrmeta) {
           intptr_t dst_size = reinterpret_cast<const size_stride_t *>(dst_arrmeta)->dim_size;
@@ -123,12 +124,11 @@ namespace nd {
               if (arg_broadcast[i]) {
                 src_offset[i] = 0;
                 src_stride[i] = 0;
-                child_src_arrmeta[i] = src_arrmeta[i];
               } else {
                 src_offset[i] = 0;
                 src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
-                child_src_arrmeta[i] = src_arrmeta[i] + sizeof(ndt::var_dim_type::metadata_type);
               }
+              child_src_arrmeta[i] = arg_missing[i] ? src_arrmeta[i] : (src_arrmeta[i] + sizeof(size_stride_t));
             }
           }
 
@@ -159,10 +159,11 @@ namespace nd {
 
       void subresolve(call_graph &cg, const char *data) {
         std::array<bool, N> arg_broadcast = reinterpret_cast<const node_type *>(data)->arg_broadcast;
+        std::array<bool, N> arg_missing = reinterpret_cast<const node_type *>(data)->arg_missing;
         std::array<bool, N> arg_var = reinterpret_cast<const node_type *>(data)->arg_var;
         intptr_t res_alignment = reinterpret_cast<const node_type *>(data)->res_alignment;
 
-        cg.emplace_back([arg_broadcast, arg_var, res_alignment](
+        cg.emplace_back([arg_broadcast, arg_missing, arg_var, res_alignment](
             kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
             size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
 
@@ -185,13 +186,13 @@ namespace nd {
               if (arg_broadcast[i]) {
                 src_stride[i] = 0;
                 src_offset[i] = 0;
-                child_src_arrmeta[i] = src_arrmeta[i];
                 src_size[i] = 1;
               } else {
                 src_offset[i] = 0;
                 src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
                 src_size[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->dim_size;
               }
+              child_src_arrmeta[i] = arg_missing[i] ? src_arrmeta[i] : (src_arrmeta[i] + sizeof(size_stride_t));
             }
           }
 
-- 
2.43.0


From d877e160d185b4ec93b590af7c97e2e036487905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 08/99] fix: permuting axes must handle leading and trailing
 axes that stay in place

---
 src/dynd/array.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 8bd213a..1b4eeba 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -449,7 +449,7 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
       // No more perm dimensions left, leave type as is
       out_transformed_tp = tp;
     } else {
-      if (tp.get_base_id() == dim_kind_id) {
+      if (tp.get_base_id() == dim_kind_id || tp.get_base_id() == fixed_dim_kind_id) {
         ++pdd->i;
       }
       tp.extended()->transform_child_types(&permute_type_dims, arrmeta_offset, extra, out_transformed_tp,
@@ -478,10 +478,15 @@ static void permute_type_dims(const ndt::type &tp, intptr_t arrmeta_offset, void
     intptr_t perm_ndim = max_i - i + 1;
     // If there are more permutation axes left, process the subtype
     if (max_i < pdd->ndim - 1) {
+      ndt::type transformed_subtp;
+      bool subtp_was_transformed = false;
       pdd->i = max_i + 1;
-      tp.extended()->transform_child_types(&permute_type_dims,
-                                           arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, subtp,
-                                           out_was_transformed);
+      permute_type_dims(subtp, arrmeta_offset + perm_ndim * sizeof(fixed_dim_type_arrmeta), extra, transformed_subtp,
+                        subtp_was_transformed);
+      pdd->i = i;
+      if (subtp_was_transformed) {
+        subtp = transformed_subtp;
+      }
     }
     // Apply the permutation
     dimvector shape(perm_ndim), permuted_shape(perm_ndim);
-- 
2.43.0


From c6592ecccabb3dcb2f371178613f15a856fe3813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 09/99] fix: permute and new_axis must accept read-only arrays,
 as the other views do

---
 src/dynd/array.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 1b4eeba..a62052c 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -535,7 +535,8 @@ nd::array nd::array::permute(intptr_t ndim, const intptr_t *axes) const {
   pdd.arrmeta = res.get()->metadata();
   permute_type_dims(get_type(), 0, &pdd, transformed_tp, was_transformed);
 
-  nd::array second_res = make_array(transformed_tp, data(), get_owner() ? get_owner() : *this, get_flags());
+  nd::array second_res =
+      make_array(transformed_tp, const_cast<char *>(cdata()), get_owner() ? get_owner() : *this, get_flags());
   transformed_tp.extended()->arrmeta_copy_construct(second_res->metadata(), res->metadata(), memory_block());
 
   return second_res;
@@ -632,7 +633,8 @@ nd::array nd::array::new_axis(intptr_t i, intptr_t new_ndim) const {
   ndt::type dst_tp = src_tp.with_new_axis(i, new_ndim);
 
   // This is taken from view_concrete in view.cpp
-  nd::array res = make_array(dst_tp, data(), get_owner() ? get_data_memblock() : *this, get_flags());
+  nd::array res =
+      make_array(dst_tp, const_cast<char *>(cdata()), get_owner() ? get_data_memblock() : *this, get_flags());
 
   char *src_arrmeta = const_cast<char *>(get()->metadata());
   char *dst_arrmeta = res.get()->metadata();
-- 
2.43.0


From e7e3e62a61cd0f881e4d2403e4ead2dc6a86d314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:40 +0000
Subject: [PATCH 10/99] fix: reshape must not ignore the strides of the array

---
 src/dynd/array.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index a62052c..535084c 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -878,6 +878,19 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
     throw invalid_argument(ss.str());
   }
 
+  // The data can only be reinterpreted with a new shape if it is contiguous in C order
+  dimvector old_strides(old_ndim);
+  a.get_strides(old_strides.get());
+  intptr_t expected_stride = a.get_dtype().get_data_size();
+  for (intptr_t i = old_ndim - 1; i >= 0; --i) {
+    if (old_shape[i] > 1 && old_strides[i] != expected_stride) {
+      nd::array contiguous = nd::empty(ndt::make_type(old_ndim, old_shape.get(), a.get_dtype()));
+      contiguous.assign(a);
+      return reshape(contiguous, shape);
+    }
+    expected_stride *= old_shape[i];
+  }
+
   dimvector strides(ndim);
   strides[ndim - 1] = a.get_dtype().get_data_size();
   for (intptr_t i = ndim - 2; i >= 0; --i) {
@@ -889,8 +902,8 @@ nd::array nd::reshape(const nd::array &a, const nd::array &shape) {
     shape_copy[i] = shape(i).as<intptr_t>();
   }
 
-  return make_strided_array_from_data(a.get_dtype(), ndim, shape_copy.get(), strides.get(), a.get_flags(), a.data(), a,
-                                      NULL);
+  return make_strided_array_from_data(a.get_dtype(), ndim, shape_copy.get(), strides.get(), a.get_flags(),
+                                      const_cast<char *>(a.cdata()), a, NULL);
 }
 
 nd::array nd::memmap(const std::string &DYND_UNUSED(filename), intptr_t DYND_UNUSED(begin), intptr_t DYND_UNUSED(end),
-- 
2.43.0


From 8eec35889f5297200237adffb0a953b8764da9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 11/99] fix: a var destination must always be handled by the
 var destination kernel, and sources without the current dimension must not be
 classified

---
 include/dynd/callables/elwise_dispatch_callable.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/elwise_dispatch_callable.hpp b/include/dynd/callables/elwise_dispatch_callable.hpp
index 7839a8a..fd0023a 100644
--- a/include/dynd/callables/elwise_dispatch_callable.hpp
+++ b/include/dynd/callables/elwise_dispatch_callable.hpp
@@ -42,11 +42,16 @@ namespace nd {
 
         bool dst_variadic = dst_tp.is_variadic();
 
-        // Do a pass through the src types to classify them
+        // Do a pass through the src types to classify them, a src with fewer
+        // dimensions than the result broadcasts whatever its leading dimension is
+        size_t ndim = reinterpret_cast<data_type *>(data)->ndim;
         const std::vector<ndt::type> &child_arg_tp = child_tp->get_argument_types();
         bool src_all_strided = true, src_all_strided_or_var = true;
         for (size_t i = 0; i < nsrc; ++i) {
           intptr_t src_ndim = src_tp[i].get_ndim() - child_arg_tp[i].get_ndim();
+          if (src_ndim < static_cast<intptr_t>(ndim)) {
+            continue;
+          }
           switch (src_tp[i].get_id()) {
           case fixed_dim_id:
             break;
@@ -65,7 +70,8 @@ namespace nd {
 
         bool var_broadcast = !src_all_strided;
         for (size_t i = 0; i < nsrc; ++i) {
-          var_broadcast &= src_tp[i].get_id() == var_dim_id ||
+          var_broadcast &= src_tp[i].get_ndim() - child_arg_tp[i].get_ndim() < static_cast<intptr_t>(ndim) ||
+                           src_tp[i].get_id() == var_dim_id ||
                            (src_tp[i].get_id() == fixed_dim_id &&
                             src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() == 1);
         }
@@ -78,7 +84,7 @@ namespace nd {
           } else {
             return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
-        } else if (((dst_variadic) || dst_tp.get_id() == var_dim_id) && (var_broadcast || src_all_strided)) {
+        } else if (dst_variadic ? var_broadcast : dst_tp.get_id() == var_dim_id) {
           static callable f = make_callable<elwise_callable<var_dim_id, fixed_dim_id, no_traits, N>>();
           return f->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         } else if (src_all_strided_or_var) {
-- 
2.43.0


From 7ad94007b36812c473fe7df9b6a7e4eeacae5ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 12/99] fix: a destination whose type does not match the result
 of the selected overload must be rejected

---
 include/dynd/callables/base_dispatch_callable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dynd/callables/base_dispatch_callable.hpp b/include/dynd/callables/base_dispatch_callable.hpp
index d69e080..2808a49 100644
--- a/include/dynd/callables/base_dispatch_callable.hpp
+++ b/include/dynd/callables/base_dispatch_callable.hpp
@@ -20,6 +20,12 @@ namespace nd {
                       const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                       const std::map<std::string, ndt::type> &tp_vars) {
       const callable &child = specialize(dst_tp, nsrc, src_tp);
+      if (!dst_tp.is_symbolic() && !child->get_ret_type().match(dst_tp)) {
+        std::stringstream ss;
+        ss << "destination type " << dst_tp << " does not match callable return type " << child->get_ret_type();
+        throw std::invalid_argument(ss.str());
+      }
+
       return child->resolve(this, nullptr, cg, dst_tp.is_symbolic() ? child->get_ret_type() : dst_tp, nsrc, src_tp,
                             nkwd, kwds, tp_vars);
     }
-- 
2.43.0


From c607c033b21c033d1f03c307f31366951258e0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 13/99] fix: a dims type variable must broadcast with arguments
 of any number of dimensions

---
 src/dynd/types/dim_fragment_type.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/dim_fragment_type.cpp b/src/dynd/types/dim_fragment_type.cpp
index f1d9bf7..3db6075 100644
--- a/src/dynd/types/dim_fragment_type.cpp
+++ b/src/dynd/types/dim_fragment_type.cpp
@@ -40,6 +40,7 @@ static inline bool broadcast_tagged_dims_from_type(intptr_t ndim, ndt::type tp,
   tp = tp.without_memory_type();
   for (intptr_t i = 0; i < ndim; ++i) {
     intptr_t tagged_dim = tagged_dims[i], dim_size;
+    out_tagged_dims[i] = tagged_dim;
     switch (tp.get_id()) {
     case fixed_dim_kind_id: {
       if (tagged_dim < 0) {
@@ -48,7 +49,7 @@ static inline bool broadcast_tagged_dims_from_type(intptr_t ndim, ndt::type tp,
     } break;
     case fixed_dim_id: {
       dim_size = tp.extended<ndt::fixed_dim_type>()->get_fixed_dim_size();
-      if (tagged_dim < 0 || tagged_dim == 1) {
+      if (tagged_dim == 1 || (tagged_dim < 0 && dim_size != 1)) {
         out_tagged_dims[i] = dim_size;
       } else if (tagged_dim != dim_size && dim_size != 1) {
         return false;
@@ -56,6 +57,9 @@ static inline bool broadcast_tagged_dims_from_type(intptr_t ndim, ndt::type tp,
     } break;
     case var_dim_id:
       // All broadcasting is done dynamically for var
+      if (tagged_dim == 1) {
+        out_tagged_dims[i] = dim_fragment_var;
+      }
       break;
     default: {
       stringstream ss;
-- 
2.43.0


From 5c86675b9c53004a4a58576655d583e40c4feea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 14/99] fix: reject NaN and values rounding up to the range
 bound when converting floating point to integers

---
 include/dynd/assignment.hpp | 43 ++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index 8a92aa2..aef8fd6 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -240,13 +240,22 @@ check_cast(ArgType s, inexact_check_t) {
   return d;
 }
 
+// Whether a floating point value is outside the range of an integer type. The largest integer is in general not
+// representable in the floating point type, so the power of two above it is compared against as well. NaN is outside
+// of every range.
+template <typename RetType, typename ArgType>
+bool is_integer_overflow(ArgType s) {
+  const ArgType bound =
+      static_cast<ArgType>(std::ldexp(1.0, static_cast<int>(8 * sizeof(RetType)) - (is_signed<RetType>::value ? 1 : 0)));
+  const ArgType low = is_signed<RetType>::value ? -bound : ArgType(0);
+  return !(s >= low && s < bound && s <= bound - ArgType(1));
+}
+
 // Floating point -> signed int with overflow checking
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 overflow_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_integer_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -267,9 +276,7 @@ overflow_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_integer_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -284,9 +291,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value,
                  RetType>
 overflow_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_integer_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -305,9 +310,7 @@ overflow_cast(ArgType s) {
     ss << s << " to " << ndt::make_type<RetType>();
     throw std::runtime_error(ss.str());
   }
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_integer_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -508,9 +511,7 @@ overflow_cast(ArgType s) {
 template <typename RetType, typename ArgType>
 std::enable_if_t<is_signed<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value, RetType>
 fractional_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_integer_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -537,9 +538,7 @@ fractional_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < std::numeric_limits<RetType>::min() || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_integer_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -560,9 +559,7 @@ template <typename RetType, typename ArgType>
 std::enable_if_t<is_unsigned<RetType>::value && is_integral<RetType>::value && is_floating_point<ArgType>::value,
                  RetType>
 fractional_cast(ArgType s) {
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s < 0 || std::numeric_limits<RetType>::max() < s) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_integer_overflow<RetType>(s)) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -589,9 +586,7 @@ fractional_cast(ArgType s) {
     throw std::runtime_error(ss.str());
   }
 
-DYND_ALLOW_INT_FLOAT_CAST
-  if (s.real() < 0 || std::numeric_limits<RetType>::max() < s.real()) {
-DYND_END_ALLOW_INT_FLOAT_CAST
+  if (is_integer_overflow<RetType>(s.real())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
-- 
2.43.0


From a62b790c7f9c19caa69f344f773ce74637956c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:16 +0000
Subject: [PATCH 15/99] fix: accept infinities in checked complex to real and
 complex to complex conversions, as real to real does

---
 include/dynd/assignment.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/dynd/assignment.hpp b/include/dynd/assignment.hpp
index aef8fd6..97d023e 100644
--- a/include/dynd/assignment.hpp
+++ b/include/dynd/assignment.hpp
@@ -129,7 +129,8 @@ check_cast(ArgType arg, inexact_check_t) {
     throw std::overflow_error(ss.str());
   }
 #else
-  if (arg.real() < -std::numeric_limits<float>::max() || arg.real() > std::numeric_limits<float>::max()) {
+  if (isfinite(arg.real()) && (arg.real() < -std::numeric_limits<float>::max() ||
+                             arg.real() > std::numeric_limits<float>::max())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << arg << " to " << ndt::make_type<float>();
@@ -198,8 +199,8 @@ check_cast(ArgType s, inexact_check_t DYND_UNUSED(check)) {
     throw std::overflow_error(ss.str());
   }
 #else
-  if (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max() ||
-      s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()) {
+  if ((isfinite(s.real()) && (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max())) ||
+      (isfinite(s.imag()) && (s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()))) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
@@ -441,7 +442,8 @@ std::enable_if_t<is_floating_point<RetType>::value && is_complex<ArgType>::value
     throw std::overflow_error(ss.str());
   }
 #else
-  if (s.real() < -std::numeric_limits<RetType>::max() || s.real() > std::numeric_limits<RetType>::max()) {
+  if (isfinite(s.real()) && (s.real() < -std::numeric_limits<RetType>::max() ||
+                             s.real() > std::numeric_limits<RetType>::max())) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<ArgType>() << " value ";
     ss << s << " to " << ndt::make_type<RetType>();
@@ -496,8 +498,8 @@ overflow_cast(ArgType s) {
   }
   return d;
 #else
-  if (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max() ||
-      s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()) {
+  if ((isfinite(s.real()) && (s.real() < -std::numeric_limits<float>::max() || s.real() > std::numeric_limits<float>::max())) ||
+      (isfinite(s.imag()) && (s.imag() < -std::numeric_limits<float>::max() || s.imag() > std::numeric_limits<float>::max()))) {
     std::stringstream ss;
     ss << "overflow while assigning " << ndt::make_type<complex<double>>() << " value ";
     ss << s << " to " << ndt::make_type<complex<float>>();
-- 
2.43.0


From 8ea50775f52fd80296e1c6025aae78125a68ef10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 16/99] fix: report an assignment between types without a
 conversion instead of recursing without end

---
 include/dynd/callables/assign_callable.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 5e2c0ad..47e2be2 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -939,6 +939,12 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
 
+      if (dst_tp.get_id() != option_id && src_tp[0].get_id() != option_id) {
+        std::stringstream ss;
+        ss << "no assignment from " << src_tp[0] << " to " << dst_tp << " is available";
+        throw type_error(ss.str());
+      }
+
       ndt::type val_dst_tp =
           dst_tp.get_id() == option_id ? dst_tp.extended<ndt::option_type>()->get_value_type() : dst_tp;
       ndt::type val_src_tp =
-- 
2.43.0


From a561bbe4d40b19f01a24cf955ab73c00e6ea6e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 17/99] fix: assign an int32 to a fixed_string by formatting
 it, not by parsing its bytes

---
 include/dynd/callables/assign_callable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 47e2be2..229bc24 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -205,8 +205,8 @@ namespace nd {
         ndt::type string_tp = dst_id == fixed_string_id
                                   ? ndt::make_type<ndt::fixed_string_type>(string_size, string_encoding)
                                   : ndt::make_type<ndt::string_type>();
-        kb.emplace_back<detail::assignment_kernel<IntType, string, assign_error_default>>(kernreq, string_tp,
-                                                                                          dst_arrmeta);
+        kb.emplace_back<detail::assignment_kernel<string, IntType, assign_error_default>>(
+            kernreq, string_tp, ndt::make_type<IntType>().get_id(), dst_arrmeta);
       });
 
       return dst_tp;
-- 
2.43.0


From 47a7184f62e332d59eeb45629f8b81d69348c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 18/99] fix: detect every overflow when parsing an unsigned
 integer, not only those that wrap to a smaller value

---
 include/dynd/parse_util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index dec3e89..0151293 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -932,7 +932,7 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
     char c = *begin;
     if ('0' <= c && c <= '9') {
       result = (result * 10u) + static_cast<T>(c - '0');
-      if (result < prev_result) {
+      if (prev_result > static_cast<T>(std::numeric_limits<T>::max() / 10u) || result < prev_result) {
         std::stringstream ss;
         ss << "overflow converting string ";
         ss.write(begin, end - begin);
@@ -976,7 +976,7 @@ std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T
             // overflow checking
             for (int i = 0; i < exponent; ++i) {
               result = result * 10u;
-              if (result < prev_result) {
+              if (prev_result > static_cast<T>(std::numeric_limits<T>::max() / 10u)) {
                 std::stringstream ss;
                 ss << "overflow converting string ";
                 ss.write(begin, end - begin);
-- 
2.43.0


From ea4fc1e342289f1dbcd27028911dac99cf1ffa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 19/99] fix: reject the empty string when parsing a floating
 point number

---
 include/dynd/parse_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 0151293..c084098 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1072,7 +1072,7 @@ std::enable_if_t<is_floating_point<T>::value, T> parse(const char *begin, const
   // TODO: use http://www.netlib.org/fp/dtoa.c
   char *end_ptr;
   T value = strto<T>(begin, &end_ptr);
-  if (end_ptr - begin != end - begin) {
+  if (begin == end || end_ptr - begin != end - begin) {
     std::stringstream ss;
     ss << "parse error converting string ";
     ss.write(begin, end - begin);
-- 
2.43.0


From 1d603862f7e285c0056d9650996a0c69704dda2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 20/99] fix: lenient UTF-8 and UTF-16 decoding must advance
 past invalid input and stay inside the buffer

---
 src/dynd/string_encodings.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynd/string_encodings.cpp b/src/dynd/string_encodings.cpp
index 6f1135a..8e3eb2d 100644
--- a/src/dynd/string_encodings.cpp
+++ b/src/dynd/string_encodings.cpp
@@ -133,6 +133,8 @@ uint32_t noerror_next_utf8(const char *&it, const char *end) {
   utf8::internal::utf_error err = utf8::internal::UTF8_OK;
   switch (length) {
   case 0:
+    // Not a lead octet, skip it so that the caller makes progress
+    ++it;
     return ERROR_SUBSTITUTE_CODEPOINT;
   case 1:
     err = utf8::internal::get_sequence_1(it, end, cp);
@@ -238,7 +240,7 @@ uint32_t noerror_next_utf16(const char *&it_raw, const char *end_raw) {
   it_raw += 2;
   // Take care of surrogate pairs first
   if (utf8::internal::is_lead_surrogate(cp)) {
-    if (it_raw <= end_raw + 2) {
+    if (it_raw + 2 <= end_raw) {
       uint32_t trail_surrogate = *reinterpret_cast<const uint16_t *>(it_raw);
       it_raw += 2;
       if (utf8::internal::is_trail_surrogate(trail_surrogate)) {
-- 
2.43.0


From c24ea58d263565174ec0c6f6ccb2832b87063810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:47 +0000
Subject: [PATCH 21/99] fix: assignment kernels from strings must not keep a
 pointer to the caller's argument types

---
 include/dynd/callables/assign_callable.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 229bc24..6fd5bf0 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -87,7 +87,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_nocheck>>(kernreq, ndt::make_type<string>(),
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -95,7 +95,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_overflow>>(kernreq, ndt::make_type<string>(),
                                                                                            src_arrmeta[0]);
         });
         break;
@@ -103,7 +103,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_fractional>>(kernreq, ndt::make_type<string>(),
                                                                                              src_arrmeta[0]);
         });
         break;
@@ -111,7 +111,7 @@ namespace nd {
         cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                             const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                             const char *const *src_arrmeta) {
-          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, src_tp[0],
+          kb.emplace_back<detail::assignment_kernel<bool1, string, assign_error_inexact>>(kernreq, ndt::make_type<string>(),
                                                                                           src_arrmeta[0]);
         });
         break;
@@ -284,16 +284,18 @@ namespace nd {
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
 
+      const ndt::fixed_string_type *src_fs = src_tp[0].extended<ndt::fixed_string_type>();
+      string_encoding_t src0_encoding = src_fs->get_encoding();
+      size_t src0_data_size = src_fs->get_data_size();
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
-        const ndt::fixed_string_type *src_fs = src_tp[0].extended<ndt::fixed_string_type>();
         kb.emplace_back<
             detail::assignment_kernel<ndt::fixed_string_type, ndt::fixed_string_type, assign_error_nocheck>>(
-            kernreq, get_next_unicode_codepoint_function(src_fs->get_encoding(), error_mode),
+            kernreq, get_next_unicode_codepoint_function(src0_encoding, error_mode),
             get_append_unicode_codepoint_function(dst_tp.extended<ndt::fixed_string_type>()->get_encoding(),
                                                   error_mode),
-            dst_tp.get_data_size(), src_fs->get_data_size(), error_mode != assign_error_nocheck);
+            dst_tp.get_data_size(), src0_data_size, error_mode != assign_error_nocheck);
       });
 
       return dst_tp;
@@ -312,11 +314,12 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
+      type_id_t src0_id = src_tp[0].get_id();
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc),
                           const char *const *DYND_UNUSED(src_arrmeta)) {
         kb.emplace_back<detail::assignment_kernel<string, int8_t, assign_error_nocheck>>(
-            kernreq, dst_tp, src_tp[0].get_id(), dst_arrmeta);
+            kernreq, dst_tp, src0_id, dst_arrmeta);
       });
 
       return dst_tp;
@@ -422,7 +425,7 @@ namespace nd {
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
                           const char *const *src_arrmeta) {
-        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, src_tp[0],
+        kb.emplace_back<detail::assignment_kernel<float, string, assign_error_nocheck>>(kernreq, ndt::make_type<string>(),
                                                                                         src_arrmeta[0], error_mode);
       });
 
-- 
2.43.0


From 5670430b105557647cf289f4b8a003fa047f9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 22/99] fix: assigning a string to an optional value must not
 recurse without end or leave unused nodes in the call graph

---
 include/dynd/callables/assign_callable.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 6fd5bf0..91e6baf 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -631,9 +631,9 @@ namespace nd {
         });
         break;
       case string_id:
-        cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
-                           const char *dst_arrmeta, size_t nsrc,
-                           const char *const *src_arrmeta) { kb(kernreq, nullptr, dst_arrmeta, nsrc, src_arrmeta); });
+        // The value assignment does the whole job
+        assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
+                        kwds, tp_vars);
         break;
       default:
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
@@ -655,13 +655,12 @@ namespace nd {
           kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, src_arrmeta);
           ckb_offset = kb.size();
         });
+        assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
+                        kwds, tp_vars);
+        assign_na->resolve(this, nullptr, cg, dst_tp, 0, nullptr, nkwd, kwds, tp_vars);
         break;
       }
 
-      assign->resolve(this, nullptr, cg, dst_tp.extended<ndt::option_type>()->get_value_type(), nsrc, src_tp, nkwd,
-                      kwds, tp_vars);
-      assign_na->resolve(this, nullptr, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
-
       return dst_tp;
     }
   };
-- 
2.43.0


From d3afdc2e493a5eab48a5a63b782af185ac57bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:20 +0000
Subject: [PATCH 23/99] fix: a number in a JSON string with escapes must be
 parsed from the unescaped text

---
 include/dynd/parse_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index c084098..13f8301 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1411,7 +1411,7 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
       } else {
         std::string s;
         unescape_string(nbegin, nend, s);
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
+        string_to_number(out_data, tp.get_id(), s.data(), s.data() + s.size(), ectx->errmode);
       }
     } catch (const std::exception &e) {
       throw json_parse_error(rbegin, e.what(), tp);
-- 
2.43.0


From a3f13f8dedbc3921d20ee76cc66775db3f0c6d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 24/99] fix: parsing a floating point number must not read past
 the end of the input

---
 include/dynd/parse_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 13f8301..6758259 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -1071,8 +1071,10 @@ std::enable_if_t<is_floating_point<T>::value, T> parse(const char *begin, const
 
   // TODO: use http://www.netlib.org/fp/dtoa.c
   char *end_ptr;
-  T value = strto<T>(begin, &end_ptr);
-  if (begin == end || end_ptr - begin != end - begin) {
+  // The input is not null terminated, but strto needs that
+  std::string str(begin, end);
+  T value = strto<T>(str.c_str(), &end_ptr);
+  if (begin == end || end_ptr - str.c_str() != end - begin) {
     std::stringstream ss;
     ss << "parse error converting string ";
     ss.write(begin, end - begin);
-- 
2.43.0


From dc75acfc64413d2548498b05e1b6d25591b3c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 25/99] fix: reductions into a destination of stride zero must
 visit every element of every argument once

---
 include/dynd/kernels/reduction_kernel.hpp | 36 ++++++++++++++---------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 58f6a9b..cd79b92 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -148,6 +148,10 @@ namespace nd {
         }
 
         if (dst_stride == 0) {
+          if (count == 0) {
+            return;
+          }
+
           // With a zero stride, we have one "first", followed by many
           // "followup" calls
           child->single_first(dst, child_src);
@@ -263,17 +267,14 @@ namespace nd {
         if (dst_stride == 0) {
           // With a zero stride, we initialize "dst" once, then do many
           // accumulations
-          init_child->single(dst, child_src);
-          for (size_t j = 0; j < NArg; ++j) {
-            child_src[j] += src_stride_first[j];
+          if (count == 0) {
+            return;
           }
 
-          reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
-
-          for (std::size_t i = 1; i != count; ++i) {
+          init_child->single(dst, child_src);
+          for (size_t i = 0; i != count; ++i) {
             reduction_child->strided(dst, 0, child_src, this->src_stride, size_first);
 
-            dst += dst_stride;
             for (size_t j = 0; j < NArg; ++j) {
               child_src[j] += src_stride[j];
             }
@@ -467,6 +468,10 @@ namespace nd {
           // With a zero stride, we have one "first", followed by many
           // "followup"
           // calls
+          if (count == 0) {
+            return;
+          }
+
           opchild_first_call(echild, dst, this->dst_stride, child_src, this->src_stride, this->_size);
 
           dst += dst_stride;
@@ -568,18 +573,21 @@ namespace nd {
         kernel_prefix *init_child = this->get_child(dst_init_kernel_offset);
         kernel_prefix *reduction_child = this->get_child();
 
-        char *child_src[NArg] = {src[0]};
+        char *child_src[NArg];
+        for (size_t j = 0; j < NArg; ++j) {
+          child_src[j] = src[j];
+        }
+
         if (dst_stride == 0) {
+          if (count == 0) {
+            return;
+          }
+
           // With a zero stride, we initialize "dst" once, then do many
           // accumulations
           init_child->strided(dst, this->dst_stride, child_src, this->src_stride_first, this->_size);
 
-          dst += dst_stride_first;
-          for (size_t j = 0; j < NArg; ++j) {
-            child_src[j] += src_stride_first[j];
-          }
-
-          for (size_t i = 1; i != count; ++i) {
+          for (size_t i = 0; i != count; ++i) {
             reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, this->_size);
 
             for (size_t j = 0; j < NArg; ++j) {
-- 
2.43.0


From 880d982e4518341602f10194c9088aa5d5e763a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:06 +0000
Subject: [PATCH 26/99] fix: a reduction must step over the metadata of every
 dimension of the destination

---
 include/dynd/callables/base_reduction_callable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index e985a12..6f5c11a 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -189,7 +189,7 @@ namespace nd {
               kernreq = kernel_request_single;
             }
 
-            kb(kernreq, nullptr, keepdim ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
+            kb(kernreq, nullptr, (keepdim || broadcast) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
                src_element_arrmeta);
           }
         });
-- 
2.43.0


From e3c3cf0623c4cf525898d951e6848e7e27b26b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:37 +0000
Subject: [PATCH 27/99] fix: a reduction over a dimension of size zero must
 give the identity without reading the source

---
 .../callables/base_reduction_callable.hpp     | 24 +++++++++++---
 include/dynd/kernels/reduction_kernel.hpp     | 31 ++++++++++++++-----
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index 6f5c11a..261625b 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -28,6 +28,15 @@ namespace nd {
         intptr_t ndim;
       };
 
+      /**
+       * The "data" passed to the nodes inside of a reduced dimension of size zero. There, the sources
+       * have no element, so the destination is initialized, but nothing may be read.
+       */
+      static char *get_empty_data() {
+        static char empty_data;
+        return &empty_data;
+      }
+
       struct node_type {
         bool inner;
         bool broadcast;
@@ -105,8 +114,10 @@ namespace nd {
         bool keepdim = reinterpret_cast<node_type *>(data)->keepdim;
 
         cg.emplace_back([inner, broadcast, keepdim](kernel_builder &kb, kernel_request_t kernreq,
-                                                    char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+                                                    char *data, const char *dst_arrmeta, size_t nsrc,
                                                     const char *const *src_arrmeta) {
+          bool empty = data == get_empty_data();
+
           if (inner) {
             if (!broadcast) {
               intptr_t src_size = reinterpret_cast<const size_stride_t *>(src_arrmeta[0])->dim_size;
@@ -118,7 +129,7 @@ namespace nd {
               for (size_t i = 0; i < NArg; ++i) {
                 e->src_stride[i] = reinterpret_cast<const size_stride_t *>(src_arrmeta[i])->stride;
               }
-              e->_size = src_size;
+              e->_size = empty ? 0 : src_size;
 
               e->size_first = e->_size;
               for (size_t i = 0; i < NArg; ++i) {
@@ -156,6 +167,7 @@ namespace nd {
 
               // The striding parameters
               self_k->_size = src_size;
+              self_k->empty = empty;
               // Need to retrieve 'e' again because it may have moved
               self_k->size_first = self_k->_size;
               self_k->dst_stride_first = 0;
@@ -187,9 +199,10 @@ namespace nd {
               kb.emplace_back<reduction_kernel<ndt::fixed_dim_type, false, false, NArg>>(kernreq, src_size,
                                                                                          src_arrmeta);
               kernreq = kernel_request_single;
+              empty = empty || src_size == 0;
             }
 
-            kb(kernreq, nullptr, (keepdim || broadcast) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
+            kb(kernreq, empty ? get_empty_data() : nullptr, (keepdim || broadcast) ? (dst_arrmeta + sizeof(size_stride_t)) : dst_arrmeta, nsrc,
                src_element_arrmeta);
           }
         });
@@ -200,12 +213,13 @@ namespace nd {
     class reduction_callable<var_dim_id, NArg> : public base_reduction_callable {
       void resolve(call_graph &cg, char *DYND_UNUSED(data)) {
         cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq,
-                           char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
+                           char *data, const char *dst_arrmeta, size_t nsrc,
                            const char *const *src_arrmeta) {
           typedef reduction_kernel<ndt::var_dim_type, false, true, NArg> self_type;
           intptr_t root_ckb_offset = kb.size();
           kb.emplace_back<self_type>(
-              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride);
+              kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride,
+              data == get_empty_data());
 
           self_type *e = kb.get_at<self_type>(root_ckb_offset);
           const char *src_element_arrmeta[NArg];
diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index cd79b92..6925d15 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -325,8 +325,10 @@ namespace nd {
         : base_reduction_kernel<reduction_kernel<ndt::var_dim_type, false, true, NArg>, NArg> {
       intptr_t src0_inner_stride;
       intptr_t init_offset;
+      bool empty;
 
-      reduction_kernel(std::intptr_t src0_inner_stride) : src0_inner_stride(src0_inner_stride) {}
+      reduction_kernel(std::intptr_t src0_inner_stride, bool empty)
+          : src0_inner_stride(src0_inner_stride), empty(empty) {}
 
       ~reduction_kernel() {
         this->get_child(init_offset)->destroy();
@@ -334,6 +336,11 @@ namespace nd {
       }
 
       void single_first(char *dst, char *const *src) {
+        if (empty) {
+          this->get_child(init_offset)->single(dst, src);
+          return;
+        }
+
         size_t inner_size = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->size;
 
         char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin;
@@ -348,6 +355,12 @@ namespace nd {
 
         char *src0 = src[0];
         for (size_t i = 0; i != count; ++i) {
+          if (empty) {
+            init_child->single(dst, &src0);
+            dst += dst_stride;
+            continue;
+          }
+
           char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin;
           init_child->single(dst, &src0_data);
 
@@ -359,6 +372,10 @@ namespace nd {
       }
 
       void strided_followup(char *dst, intptr_t dst_stride, char *const *src, const intptr_t *src_stride, size_t size) {
+        if (empty) {
+          return;
+        }
+
         kernel_prefix *child = this->get_child();
 
         char *src0 = src[0];
@@ -537,8 +554,8 @@ namespace nd {
     template <size_t NArg>
     struct reduction_kernel<ndt::fixed_dim_type, true, true, NArg>
         : base_reduction_kernel<reduction_kernel<ndt::fixed_dim_type, true, true, NArg>, NArg> {
-      // The code assumes that size >= 1
       intptr_t _size;
+      bool empty;
       intptr_t dst_stride;
       intptr_t src_stride[NArg];
       size_t dst_init_kernel_offset;
@@ -547,7 +564,7 @@ namespace nd {
       intptr_t dst_stride_first;
       intptr_t src_stride_first[NArg];
 
-      reduction_kernel(intptr_t dst_stride, const char *const *src_arrmeta) : dst_stride(dst_stride) {
+      reduction_kernel(intptr_t dst_stride, const char *const *src_arrmeta) : empty(false), dst_stride(dst_stride) {
         for (size_t j = 0; j < NArg; ++j) {
           src_stride[j] = reinterpret_cast<const size_stride_t *>(src_arrmeta[j])->stride;
         }
@@ -563,7 +580,7 @@ namespace nd {
       void single_first(char *dst, char *const *src) {
         // Initialize the dst values
         this->get_child(dst_init_kernel_offset)->strided(dst, dst_stride, src, src_stride_first, _size);
-        if (src_stride_first[0] == 0) {
+        if (src_stride_first[0] == 0 && !empty) {
           // Then do the accumulation
           this->get_child()->strided(dst, dst_stride, src, src_stride, _size);
         }
@@ -587,7 +604,7 @@ namespace nd {
           // accumulations
           init_child->strided(dst, this->dst_stride, child_src, this->src_stride_first, this->_size);
 
-          for (size_t i = 0; i != count; ++i) {
+          for (size_t i = 0; i != count && !empty; ++i) {
             reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, this->_size);
 
             for (size_t j = 0; j < NArg; ++j) {
@@ -598,7 +615,7 @@ namespace nd {
           // With a non-zero stride, every iteration is an initialization
           for (size_t i = 0; i != count; ++i) {
             init_child->strided(dst, this->dst_stride, child_src, src_stride_first, _size);
-            if (src_stride_first[0] == 0) {
+            if (src_stride_first[0] == 0 && !empty) {
               reduction_child->strided(dst, this->dst_stride, child_src, this->src_stride, _size);
             }
 
@@ -620,7 +637,7 @@ namespace nd {
           child_src[j] = src[j];
         }
 
-        for (size_t i = 0; i != count; ++i) {
+        for (size_t i = 0; i != count && !empty; ++i) {
           child->strided(dst, this->dst_stride, child_src, this->src_stride, this->_size);
 
           dst += dst_stride;
-- 
2.43.0


From 48d2074b62858236e5c54186fdc987cbbd13b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:49 +0000
Subject: [PATCH 28/99] fix: a reduction must reject a destination whose type
 is not that of the result

---
 include/dynd/callables/reduction_callable.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index 8f72e5d..bfbdd30 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -48,9 +48,24 @@ namespace nd {
           new_data.ndim = ndim;
           new_data.axis = 0;
 
-          data = reinterpret_cast<char *>(&new_data);
+          ndt::type res_tp = resolve_dims(reinterpret_cast<char *>(&new_data), cg, dst_tp, nsrc, src_tp, nkwd, kwds,
+                                          tp_vars);
+          if (!dst_tp.is_symbolic() && dst_tp != res_tp) {
+            std::stringstream ss;
+            ss << "cannot reduce into a destination of type " << dst_tp << ", the result has type " << res_tp;
+            throw std::invalid_argument(ss.str());
+          }
+
+          return res_tp;
         }
 
+        return resolve_dims(data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
+      }
+
+    private:
+      ndt::type resolve_dims(char *data, call_graph &cg, const ndt::type &dst_tp, size_t nsrc, const ndt::type *src_tp,
+                             size_t nkwd, const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
+
         if (src_tp[0].is_scalar()) {
           cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                              const char *dst_arrmeta, size_t nsrc, const char *const *src_arrmeta) {
-- 
2.43.0


From 73fc17d6fa9a7c55f95335c49b5f0b03b0cac7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 29/99] fix: a reduction must reject axes out of range,
 arguments of different shapes and unsupported var dimensions

---
 .../callables/base_reduction_callable.hpp     | 20 ++++++++++++++++
 include/dynd/callables/reduction_callable.hpp | 23 +++++++++++++++++--
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index 261625b..129943b 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -55,6 +55,18 @@ namespace nd {
         callable &child = reinterpret_cast<data_type *>(data)->child;
         const ndt::type &child_ret_tp = child->get_ret_type();
 
+        for (size_t i = 1; i < nsrc; ++i) {
+          if (src_tp[i].get_id() != src_tp[0].get_id() ||
+              (src_tp[0].get_id() == fixed_dim_id &&
+               src_tp[i].extended<ndt::fixed_dim_type>()->get_fixed_dim_size() !=
+                   src_tp[0].extended<ndt::fixed_dim_type>()->get_fixed_dim_size())) {
+            std::stringstream ss;
+            ss << "the arguments of a reduction must have the same dimensions, not " << src_tp[0] << " and "
+               << src_tp[i];
+            throw std::invalid_argument(ss.str());
+          }
+        }
+
         bool reduce = reinterpret_cast<data_type *>(data)->axes == NULL;
         for (size_t i = 0; i < reinterpret_cast<data_type *>(data)->naxis && !reduce; ++i) {
           if (reinterpret_cast<data_type *>(data)->axes[i] == reinterpret_cast<data_type *>(data)->axis) {
@@ -74,6 +86,14 @@ namespace nd {
         }
         ++reinterpret_cast<data_type *>(data)->axis;
 
+        if (src_tp[0].get_id() == var_dim_id &&
+            (nsrc != 1 || !reduce ||
+             reinterpret_cast<data_type *>(data)->axis != reinterpret_cast<data_type *>(data)->ndim)) {
+          std::stringstream ss;
+          ss << "a var dimension can only be reduced, alone, as the innermost dimension, cannot reduce " << src_tp[0];
+          throw std::invalid_argument(ss.str());
+        }
+
         ndt::type ret_element_tp;
         if (reinterpret_cast<data_type *>(data)->axis == reinterpret_cast<data_type *>(data)->ndim) {
           node.inner = true;
diff --git a/include/dynd/callables/reduction_callable.hpp b/include/dynd/callables/reduction_callable.hpp
index bfbdd30..86c4a59 100644
--- a/include/dynd/callables/reduction_callable.hpp
+++ b/include/dynd/callables/reduction_callable.hpp
@@ -27,6 +27,8 @@ namespace nd {
                         size_t nsrc, const ndt::type *src_tp, size_t nkwd, const array *kwds,
                         const std::map<std::string, ndt::type> &tp_vars) {
         new_data_type new_data;
+        std::vector<int> axes;
+        static const int no_axis = 0;
         if (data == nullptr) {
           new_data.identity = m_identity;
           new_data.child = m_child;
@@ -34,8 +36,12 @@ namespace nd {
             new_data.naxis = src_tp[0].get_ndim() - m_child->get_ret_type().get_ndim();
             new_data.axes = NULL;
           } else {
-            new_data.naxis = kwds[0].get_dim_size();
-            new_data.axes = reinterpret_cast<const int *>(kwds[0].cdata());
+            const size_stride_t *ss = reinterpret_cast<const size_stride_t *>(kwds[0].get()->metadata());
+            for (intptr_t i = 0; i < ss->dim_size; ++i) {
+              axes.push_back(*reinterpret_cast<const int *>(kwds[0].cdata() + i * ss->stride));
+            }
+            new_data.naxis = axes.size();
+            new_data.axes = axes.empty() ? &no_axis : axes.data();
           }
 
           if (kwds[1].is_na()) {
@@ -45,6 +51,19 @@ namespace nd {
           }
 
           intptr_t ndim = src_tp[0].get_ndim() - m_child->get_ret_type().get_ndim();
+          for (size_t i = 1; i < nsrc; ++i) {
+            if (src_tp[i].get_ndim() != src_tp[0].get_ndim()) {
+              std::stringstream ss;
+              ss << "the arguments of a reduction must have the same dimensions, not " << src_tp[0] << " and "
+                 << src_tp[i];
+              throw std::invalid_argument(ss.str());
+            }
+          }
+          for (int axis : axes) {
+            if (axis < 0 || axis >= ndim) {
+              throw index_out_of_bounds(axis, ndim);
+            }
+          }
           new_data.ndim = ndim;
           new_data.axis = 0;
 
-- 
2.43.0


From fdf42414f5031a86ea53749a0fdd67ff7ad040d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:09 +0000
Subject: [PATCH 30/99] fix: reducing a var dimension must start at the offset
 of the dimension

---
 include/dynd/callables/base_reduction_callable.hpp |  1 +
 include/dynd/kernels/reduction_kernel.hpp          | 12 +++++++-----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index 129943b..d5ddabe 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -239,6 +239,7 @@ namespace nd {
           intptr_t root_ckb_offset = kb.size();
           kb.emplace_back<self_type>(
               kernreq, reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->stride,
+              reinterpret_cast<const ndt::var_dim_type::metadata_type *>(src_arrmeta[0])->offset,
               data == get_empty_data());
 
           self_type *e = kb.get_at<self_type>(root_ckb_offset);
diff --git a/include/dynd/kernels/reduction_kernel.hpp b/include/dynd/kernels/reduction_kernel.hpp
index 6925d15..81be20f 100644
--- a/include/dynd/kernels/reduction_kernel.hpp
+++ b/include/dynd/kernels/reduction_kernel.hpp
@@ -325,10 +325,11 @@ namespace nd {
         : base_reduction_kernel<reduction_kernel<ndt::var_dim_type, false, true, NArg>, NArg> {
       intptr_t src0_inner_stride;
       intptr_t init_offset;
+      intptr_t src0_offset;
       bool empty;
 
-      reduction_kernel(std::intptr_t src0_inner_stride, bool empty)
-          : src0_inner_stride(src0_inner_stride), empty(empty) {}
+      reduction_kernel(std::intptr_t src0_inner_stride, std::intptr_t src0_offset, bool empty)
+          : src0_inner_stride(src0_inner_stride), src0_offset(src0_offset), empty(empty) {}
 
       ~reduction_kernel() {
         this->get_child(init_offset)->destroy();
@@ -343,7 +344,7 @@ namespace nd {
 
         size_t inner_size = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->size;
 
-        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin;
+        char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src[0])->begin + src0_offset;
         this->get_child(init_offset)->single(dst, &src0_data);
 
         this->get_child()->strided(dst, 0, &src0_data, &src0_inner_stride, inner_size);
@@ -361,7 +362,7 @@ namespace nd {
             continue;
           }
 
-          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin;
+          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin + src0_offset;
           init_child->single(dst, &src0_data);
 
           reduction_child->strided(dst, 0, &src0_data, &src0_inner_stride,
@@ -380,7 +381,8 @@ namespace nd {
 
         char *src0 = src[0];
         for (size_t i = 0; i != size; ++i) {
-          child->strided(dst, 0, &reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin, &src0_inner_stride,
+          char *src0_data = reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->begin + src0_offset;
+          child->strided(dst, 0, &src0_data, &src0_inner_stride,
                          reinterpret_cast<ndt::var_dim_type::data_type *>(src0)->size);
           dst += dst_stride;
           src0 += src_stride[0];
-- 
2.43.0


From 643a7bc948c6d44d01f3213eb142b790adfcdef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:41 +0000
Subject: [PATCH 31/99] fix: the identity of a reduction must be converted to
 the type of the result

---
 include/dynd/callables/base_reduction_callable.hpp | 6 ++++++
 include/dynd/callables/constant_callable.hpp       | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dynd/callables/base_reduction_callable.hpp b/include/dynd/callables/base_reduction_callable.hpp
index d5ddabe..ba9c5d6 100644
--- a/include/dynd/callables/base_reduction_callable.hpp
+++ b/include/dynd/callables/base_reduction_callable.hpp
@@ -8,6 +8,7 @@
 #include <array>
 
 #include <dynd/callables/base_callable.hpp>
+#include <dynd/callables/constant_callable.hpp>
 #include <dynd/kernels/reduction_kernel.hpp>
 #include <dynd/types/fixed_dim_type.hpp>
 #include <dynd/types/var_dim_type.hpp>
@@ -103,6 +104,11 @@ namespace nd {
               child->resolve(this, nullptr, cg, child_ret_tp, nsrc, arg_element_tp.data(), nkwd - 2, kwds + 2, tp_vars);
 
           nd::callable constant = reinterpret_cast<data_type *>(data)->identity;
+          const ndt::type &identity_tp = constant->get_ret_type();
+          if (!identity_tp.is_symbolic() && identity_tp != ret_element_tp) {
+            // The identity writes a value of a type which is not that of the result, so convert it
+            constant = make_callable<constant_callable>(constant());
+          }
           constant->resolve(this, nullptr, cg, ret_element_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
         } else {
           node.inner = false;
diff --git a/include/dynd/callables/constant_callable.hpp b/include/dynd/callables/constant_callable.hpp
index 418eab0..b9cf68f 100644
--- a/include/dynd/callables/constant_callable.hpp
+++ b/include/dynd/callables/constant_callable.hpp
@@ -36,7 +36,8 @@ namespace nd {
         });
 
         nd::array error_mode = assign_error_default;
-        assign->resolve(this, nullptr, cg, dst_tp, 1, &dst_tp, 1, &error_mode, tp_vars);
+        const ndt::type &val_tp = m_val.get_type();
+        assign->resolve(this, nullptr, cg, dst_tp, 1, &val_tp, 1, &error_mode, tp_vars);
 
         return dst_tp;
       }
-- 
2.43.0


From 8ceeb7cd723d20353eabcb0418a9813fbb5ace2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 32/99] fix: the minimum or maximum of infinities must be
 infinite

---
 src/dynd/statistics.cpp | 43 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/dynd/statistics.cpp b/src/dynd/statistics.cpp
index 15f21bf..0d62c5d 100644
--- a/src/dynd/statistics.cpp
+++ b/src/dynd/statistics.cpp
@@ -3,14 +3,13 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
-#include <dynd/callables/limits/max_callable.hpp>
-#include <dynd/callables/limits/min_callable.hpp>
+#include <dynd/callables/default_instantiable_callable.hpp>
 #include <dynd/callables/max_callable.hpp>
 #include <dynd/callables/mean_callable.hpp>
 #include <dynd/callables/min_callable.hpp>
 #include <dynd/callables/multidispatch_callable.hpp>
 #include <dynd/functional.hpp>
-#include <dynd/limits.hpp>
+#include <dynd/kernels/base_strided_kernel.hpp>
 #include <dynd/statistics.hpp>
 #include <dynd/types/scalar_kind_type.hpp>
 
@@ -29,12 +28,46 @@ static std::vector<ndt::type> func_ptr_dst(const ndt::type &dst_tp, size_t DYND_
   return {dst_tp};
 }
 
+// The greatest and the least value of each type, which is an infinity where there is one. Unlike
+// nd::limits::max and nd::limits::min, these are the identities of minimum and maximum.
+template <typename T>
+struct greatest_kernel : nd::base_strided_kernel<greatest_kernel<T>, 0> {
+  void single(char *dst, char *const *DYND_UNUSED(src)) {
+    *reinterpret_cast<T *>(dst) =
+        numeric_limits<T>::has_infinity ? numeric_limits<T>::infinity() : numeric_limits<T>::max();
+  }
+};
+
+template <typename T>
+struct least_kernel : nd::base_strided_kernel<least_kernel<T>, 0> {
+  void single(char *dst, char *const *DYND_UNUSED(src)) {
+    *reinterpret_cast<T *>(dst) =
+        numeric_limits<T>::has_infinity ? static_cast<T>(-numeric_limits<T>::infinity()) : numeric_limits<T>::lowest();
+  }
+};
+
+template <typename T>
+class greatest_callable : public nd::default_instantiable_callable<greatest_kernel<T>> {
+public:
+  greatest_callable()
+      : nd::default_instantiable_callable<greatest_kernel<T>>(
+            ndt::make_type<ndt::callable_type>(ndt::make_type<T>(), {})) {}
+};
+
+template <typename T>
+class least_callable : public nd::default_instantiable_callable<least_kernel<T>> {
+public:
+  least_callable()
+      : nd::default_instantiable_callable<least_kernel<T>>(
+            ndt::make_type<ndt::callable_type>(ndt::make_type<T>(), {})) {}
+};
+
 } // unnnamed namespace
 
 DYND_API nd::callable nd::max = nd::functional::reduction(
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
-        nd::callable::make_all<nd::limits::min_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
+        nd::callable::make_all<least_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
                                                                        uint16_t, uint32_t, uint64_t, float, double>>(
             func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
@@ -47,7 +80,7 @@ DYND_API nd::callable nd::mean = nd::make_callable<nd::mean_callable>(ndt::make_
 DYND_API nd::callable nd::min = nd::functional::reduction(
     nd::make_callable<nd::multidispatch_callable<1>>(
         ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
-        nd::callable::make_all<nd::limits::max_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
+        nd::callable::make_all<greatest_callable, type_sequence<int8_t, int16_t, int32_t, int64_t, uint8_t,
                                                                        uint16_t, uint32_t, uint64_t, float, double>>(
             func_ptr_dst)),
     nd::make_callable<nd::multidispatch_callable<1>>(
-- 
2.43.0


From c8917bfe2eacd27cb4d3fd65d98e6953c2821d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 33/99] fix: a variadic tuple or struct type without fields
 must print as it is parsed

---
 src/dynd/types/struct_type.cpp | 2 +-
 src/dynd/types/tuple_type.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 9933419..09f9b35 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -89,7 +89,7 @@ void ndt::struct_type::print_type(std::ostream &o) const {
     o << ": " << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...}";
+    o << (m_field_count != 0 ? ", ...}" : "...}");
   } else {
     o << "}";
   }
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 5d774b5..09485bd 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -194,7 +194,7 @@ void ndt::tuple_type::print_type(std::ostream &o) const {
     o << get_field_type(i);
   }
   if (m_variadic) {
-    o << ", ...)";
+    o << (m_field_count != 0 ? ", ...)" : "...)");
   } else {
     o << ")";
   }
-- 
2.43.0


From fa80bb4011ec60eb049a1120a383df3a3f25d02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 34/99] fix: a tuple datashape with keyword arguments must not
 drop them

---
 src/dynd/types/datashape_parser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index a4dc23d..af42ed9 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -563,8 +563,7 @@ static ndt::type parse_tuple_or_funcproto(const char *&rbegin, const char *end,
           funcproto_kwd = parse_funcproto_kwds(begin, end, symtable);
           if (!funcproto_kwd.is_null()) {
             if (!datashape::parse_token(begin, end, "->")) {
-              rbegin = begin;
-              return ndt::make_type<ndt::tuple_type>(field_type_list.size(), field_type_list.data());
+              throw datashape::internal_parse_error(begin, "expected '->' after the keyword arguments of a callable prototype");
             }
 
             ndt::type return_type = datashape::parse(begin, end, symtable);
-- 
2.43.0


From 841bb194ff8a20d9b0efd42e01d55373992eada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:06 +0000
Subject: [PATCH 35/99] fix: a datashape error at the end of the text must be
 reported with its position

---
 src/dynd/types/datashape_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index af42ed9..09987db 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -927,8 +927,9 @@ static void get_error_line_column(const char *begin, const char *end, const char
   out_line_prev = "";
   out_line_cur = "";
   out_line = 1;
-  while (begin < end) {
-    const char *line_end = (const char *)memchr(begin, '\n', end - begin);
+  // The position may be the end of the text, on an empty line
+  while (begin <= end) {
+    const char *line_end = begin < end ? (const char *)memchr(begin, '\n', end - begin) : NULL;
     out_line_prev.swap(out_line_cur);
     // If no \n was found
     if (line_end == NULL) {
-- 
2.43.0


From b5203ebb34a40ce019da0737a0f1388e253e3965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:15 +0000
Subject: [PATCH 36/99] fix: the dimensional power of a Fixed dimension must
 print its base

---
 src/dynd/types/pow_dimsym_type.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 2961fe5..149a282 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -26,6 +26,9 @@ void ndt::pow_dimsym_type::print_type(std::ostream &o) const {
       o << m_base_tp.extended<fixed_dim_type>()->get_fixed_dim_size();
     }
     break;
+  case fixed_dim_kind_id:
+    o << "Fixed";
+    break;
   case var_dim_id:
     o << "var";
     break;
-- 
2.43.0


From 43e41954981569daf098b6ec828b40464f7d3b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 37/99] fix: datashape strings must parse the \U escapes which
 are printed

---
 src/dynd/parse_util.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index c3bb728..2d1e3df 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -458,12 +458,15 @@ bool datashape::parse_quoted_string(const char *&rbegin, const char *end, std::s
       case 't':
         out_val += '\t';
         break;
-      case 'u': {
-        if (end - begin < 4) {
+      case 'u':
+      case 'U': {
+        // "\uXXXX" and "\UXXXXXXXX"
+        int digits = c == 'u' ? 4 : 8;
+        if (end - begin < digits) {
           throw datashape::internal_parse_error(begin - 2, "invalid unicode escape sequence in string");
         }
         uint32_t cp = 0;
-        for (int i = 0; i < 4; ++i) {
+        for (int i = 0; i < digits; ++i) {
           char d = *begin++;
           cp *= 16;
           if ('0' <= d && d <= '9') {
-- 
2.43.0


From daea9913f0e33d2dafc659a1722cc0a87e5d9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:45 +0000
Subject: [PATCH 38/99] fix: white space must be allowed after the '**' of a
 datashape

---
 src/dynd/types/datashape_parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 09987db..5ca9183 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -664,6 +664,7 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
       // Save the extents of the base dim token
       const char *bbegin = nbegin;
       const char *bend = nend;
+      skip_whitespace_and_pound_comments(begin, end);
       if (parse_name_or_number(begin, end, nbegin, nend)) {
         if ('1' <= *nbegin && *nbegin <= '9') {
           intptr_t exponent = parse<intptr_t>(nbegin, nend);
-- 
2.43.0


From 95c3bd701c834ecdec554637fc0b44ca2ee29854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:43 +0000
Subject: [PATCH 39/99] fix: incomplete dimensional powers and a commented
 'type' must be parsed as what they are

---
 src/dynd/types/datashape_parser.cpp | 47 +++++++++++++++++------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 5ca9183..3000cdf 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -672,6 +672,9 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
             throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
           }
           ndt::type element_tp = datashape::parse(begin, end, symtable);
+          if (element_tp.is_null()) {
+            throw datashape::internal_parse_error(begin, "expected a dynd type");
+          }
           if ('0' <= *bbegin && *bbegin <= '9') {
             intptr_t dim_size = parse<intptr_t>(bbegin, bend);
             result = ndt::pow(ndt::make_fixed_dim(dim_size, element_tp), exponent);
@@ -686,25 +689,30 @@ static ndt::type parse_datashape_nooption(const char *&rbegin, const char *end,
           }
         } else if (isupper(*nbegin)) {
           std::string exponent_name(nbegin, nend);
-          if (datashape::parse_token(begin, end, '*')) {
-            if ('0' <= *bbegin && *bbegin <= '9') {
-              intptr_t dim_size = parse<intptr_t>(bbegin, bend);
-              result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(dim_size, ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
-            } else if (compare_range_to_literal(bbegin, bend, "var")) {
-              result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>()),
-                                                            exponent_name, datashape::parse(begin, end, symtable));
-            } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
-              result =
-                  ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>()),
-                                                       exponent_name, datashape::parse(begin, end, symtable));
-            } else if (isupper(*bbegin)) {
-              result = ndt::make_type<ndt::pow_dimsym_type>(
-                  ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>()),
-                  exponent_name, datashape::parse(begin, end, symtable));
-            } else {
-              throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
-            }
+          if (!datashape::parse_token(begin, end, '*')) {
+            throw datashape::internal_parse_error(begin, "expected a '*' after dimensional power");
+          }
+          ndt::type element_tp = datashape::parse(begin, end, symtable);
+          if (element_tp.is_null()) {
+            throw datashape::internal_parse_error(begin, "expected a dynd type");
+          }
+          if ('0' <= *bbegin && *bbegin <= '9') {
+            intptr_t dim_size = parse<intptr_t>(bbegin, bend);
+            result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_fixed_dim(dim_size, ndt::make_type<void>()),
+                                                          exponent_name, element_tp);
+          } else if (compare_range_to_literal(bbegin, bend, "var")) {
+            result = ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<void>()),
+                                                          exponent_name, element_tp);
+          } else if (compare_range_to_literal(bbegin, bend, "Fixed")) {
+            result =
+                ndt::make_type<ndt::pow_dimsym_type>(ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<void>()),
+                                                     exponent_name, element_tp);
+          } else if (isupper(*bbegin)) {
+            result = ndt::make_type<ndt::pow_dimsym_type>(
+                ndt::make_type<ndt::typevar_dim_type>(std::string(bbegin, bend), ndt::make_type<void>()),
+                exponent_name, element_tp);
+          } else {
+            throw datashape::internal_parse_error(bbegin, "invalid dimension type for base of dimensional power");
           }
         } else {
           throw datashape::internal_parse_error(begin, "expected a number or a typevar symbol");
@@ -854,6 +862,7 @@ static ndt::type parse_stmt(const char *&rbegin, const char *end, map<std::strin
     const char *saved_begin = begin;
     const char *tname_begin, *tname_end;
     if (!skip_required_whitespace(begin, end)) {
+      skip_whitespace_and_pound_comments(begin, end);
       if (begin == end) {
         // If it's only "type" by itself, return the "type" type
         rbegin = begin;
-- 
2.43.0


From fe501d0c5697e22212be3c998ea326cdf3bc8d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:35 +0000
Subject: [PATCH 40/99] fix: sizes in a datashape must not be truncated to 32
 bits

---
 src/dynd/types/bytes_type.cpp        | 2 +-
 src/dynd/types/fixed_bytes_type.cpp  | 4 ++--
 src/dynd/types/fixed_dim_type.cpp    | 2 +-
 src/dynd/types/fixed_string_type.cpp | 8 ++++++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/dynd/types/bytes_type.cpp b/src/dynd/types/bytes_type.cpp
index 216dd39..fa12b21 100644
--- a/src/dynd/types/bytes_type.cpp
+++ b/src/dynd/types/bytes_type.cpp
@@ -128,7 +128,7 @@ ndt::type ndt::bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), const char
         throw datashape::internal_parse_error(begin, "expected closing ']'");
       }
       rbegin = begin;
-      return ndt::make_type<ndt::bytes_type>(atoi(align_val.c_str()));
+      return ndt::make_type<ndt::bytes_type>(parse<intptr_t>(align_val.data(), align_val.data() + align_val.size()));
     }
     throw datashape::internal_parse_error(begin, "expected 'align'");
   } else {
diff --git a/src/dynd/types/fixed_bytes_type.cpp b/src/dynd/types/fixed_bytes_type.cpp
index 025e193..e686071 100644
--- a/src/dynd/types/fixed_bytes_type.cpp
+++ b/src/dynd/types/fixed_bytes_type.cpp
@@ -80,7 +80,7 @@ ndt::type ndt::fixed_bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), cons
     if (datashape::parse_token(begin, end, ']')) {
       // Fixed bytes with just a size parameter
       rbegin = begin;
-      return ndt::make_type<ndt::fixed_bytes_type>(atoi(size_val.c_str()), 1);
+      return ndt::make_type<ndt::fixed_bytes_type>(parse<intptr_t>(size_val.data(), size_val.data() + size_val.size()), 1);
     }
     if (!datashape::parse_token(begin, end, ',')) {
       throw datashape::internal_parse_error(begin, "expected closing ']' or another argument");
@@ -99,7 +99,7 @@ ndt::type ndt::fixed_bytes_type::parse_type_args(type_id_t DYND_UNUSED(id), cons
       throw datashape::internal_parse_error(begin, "expected closing ']'");
     }
     rbegin = begin;
-    return ndt::make_type<ndt::fixed_bytes_type>(atoi(size_val.c_str()), atoi(align_val.c_str()));
+    return ndt::make_type<ndt::fixed_bytes_type>(parse<intptr_t>(size_val.data(), size_val.data() + size_val.size()), parse<intptr_t>(align_val.data(), align_val.data() + align_val.size()));
   }
   throw datashape::internal_parse_error(begin, "expected opening '['");
 }
\ No newline at end of file
diff --git a/src/dynd/types/fixed_dim_type.cpp b/src/dynd/types/fixed_dim_type.cpp
index 894c534..75372bd 100644
--- a/src/dynd/types/fixed_dim_type.cpp
+++ b/src/dynd/types/fixed_dim_type.cpp
@@ -544,7 +544,7 @@ ndt::type ndt::fixed_dim_type::parse_type_args(type_id_t DYND_UNUSED(id), const
     if (dim_size_str.empty()) {
       throw datashape::internal_parse_error(saved_begin, "expected dimension size");
     }
-    intptr_t dim_size = (intptr_t)std::atoll(dim_size_str.c_str());
+    intptr_t dim_size = parse<intptr_t>(dim_size_str.data(), dim_size_str.data() + dim_size_str.size());
     if (!datashape::parse_token(begin, end, ']')) {
       throw datashape::internal_parse_error(begin, "expected closing ']'");
     }
diff --git a/src/dynd/types/fixed_string_type.cpp b/src/dynd/types/fixed_string_type.cpp
index a7fa89c..3d2f682 100644
--- a/src/dynd/types/fixed_string_type.cpp
+++ b/src/dynd/types/fixed_string_type.cpp
@@ -4,6 +4,7 @@
 //
 
 #include <algorithm>
+#include <limits>
 
 #include <dynd/exceptions.hpp>
 #include <dynd/parse_util.hpp>
@@ -149,12 +150,15 @@ ndt::type ndt::fixed_string_type::parse_type_args(type_id_t DYND_UNUSED(id), con
     std::string value = datashape::parse_number(begin, end);
     std::string encoding_str;
     string_encoding_t encoding = string_encoding_utf_8;
-    int string_size = 0;
+    intptr_t string_size = 0;
     if (!value.empty()) {
-      string_size = atoi(value.c_str());
+      string_size = parse<intptr_t>(value.data(), value.data() + value.size());
       if (string_size == 0) {
         throw datashape::internal_parse_error(saved_begin, "string size cannot be zero");
       }
+      if (string_size > std::numeric_limits<intptr_t>::max() / 4) {
+        throw datashape::internal_parse_error(saved_begin, "string size is too large");
+      }
       if (datashape::parse_token(begin, end, ',')) {
         saved_begin = begin;
         if (!datashape::parse_quoted_string(begin, end, encoding_str)) {
-- 
2.43.0


From f02993d4c5151211a707972a7a61a9715edb3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:58 +0000
Subject: [PATCH 41/99] fix: object array memory blocks keep all elements and
 zero the right memory when they grow

---
 include/dynd/memblock/objectarray_memory_block.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index 15c7e9f..ae217c6 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -114,11 +114,13 @@ namespace nd {
       if (mc->capacity_count - previous_index < count) {
         append_memory(std::max(m_total_allocated_count, count));
         memory_chunk *new_mc = &m_memory_handles.back();
+        // Appending may have moved the chunks
+        mc = new_mc - 1;
         // Move the old memory to the newly allocated block
         if (previous_count > 0) {
           // Subtract the previously used memory from the old chunk's count
           mc->used_count -= previous_count;
-          memcpy(new_mc->memory, previous_allocated, previous_count);
+          memcpy(new_mc->memory, previous_allocated, m_stride * previous_count);
           // If the old memory only had the memory being resized,
           // free it completely.
           if (previous_allocated == mc->memory) {
@@ -146,7 +148,7 @@ namespace nd {
         // Zero-init the new memory
         intptr_t new_count = count - (intptr_t)previous_count;
         if (new_count > 0) {
-          memset(mc->memory + m_stride * previous_count, 0, m_stride * new_count);
+          memset(result + m_stride * previous_count, 0, m_stride * new_count);
         }
       } else {
         // TODO: Add a default data constructor to base_type
-- 
2.43.0


From d3966e408291548d690ff7728adc08ce33a3c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 42/99] fix: POD and zero-initialized memory blocks copy and
 clear the right memory when they grow

---
 include/dynd/memblock/pod_memory_block.hpp      | 3 ++-
 include/dynd/memblock/zeroinit_memory_block.hpp | 1 -
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/memblock/pod_memory_block.hpp b/include/dynd/memblock/pod_memory_block.hpp
index 0165dcf..61878f8 100644
--- a/include/dynd/memblock/pod_memory_block.hpp
+++ b/include/dynd/memblock/pod_memory_block.hpp
@@ -97,10 +97,11 @@ namespace nd {
       } else {
         // If it doesn't fit, need to copy to newly malloc'd memory
         char *old_current = inout_begin, *old_end = *inout_end;
+        intptr_t old_size_bytes = old_end - old_current;
         // Allocate memory to double the amount used so far, or the requested size, whichever is larger
         // NOTE: We're assuming malloc produces memory which has good enough alignment for anything
         append_memory(std::max(m_total_allocated_capacity, size_bytes));
-        memcpy(m_memory_begin, inout_begin, *inout_end - inout_begin);
+        memcpy(m_memory_begin, inout_begin, old_size_bytes);
         end = m_memory_begin + size_bytes;
         m_memory_current = end;
         inout_begin = m_memory_begin;
diff --git a/include/dynd/memblock/zeroinit_memory_block.hpp b/include/dynd/memblock/zeroinit_memory_block.hpp
index d92e1d9..1061781 100644
--- a/include/dynd/memblock/zeroinit_memory_block.hpp
+++ b/include/dynd/memblock/zeroinit_memory_block.hpp
@@ -97,7 +97,6 @@ namespace nd {
       char *end = inout_begin + size_bytes;
       if (end <= m_memory_end) {
         // If it fits, just adjust the current allocation point
-        m_memory_current = end;
         // Zero-initialize any newly allocated memory
         if (end > *inout_end) {
           memset(*inout_end, 0, end - *inout_end);
-- 
2.43.0


From c1c5f474724c724c45c32b4689faee927b235977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:26 +0000
Subject: [PATCH 43/99] fix: resetting an object array memory block destroys
 and reuses all its elements

---
 include/dynd/memblock/objectarray_memory_block.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/dynd/memblock/objectarray_memory_block.hpp b/include/dynd/memblock/objectarray_memory_block.hpp
index ae217c6..233616b 100644
--- a/include/dynd/memblock/objectarray_memory_block.hpp
+++ b/include/dynd/memblock/objectarray_memory_block.hpp
@@ -168,16 +168,17 @@ namespace nd {
         // throw them all away except the last
         for (size_t i = 0, i_end = m_memory_handles.size() - 1; i != i_end; ++i) {
           memory_chunk &mc = m_memory_handles[i];
-          m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
+          m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
           free(mc.memory);
         }
         m_memory_handles.front() = m_memory_handles.back();
         m_memory_handles.resize(1);
-        // Reset to zero used elements in the chunk
-        memory_chunk &mc = m_memory_handles.front();
-        m_dt.extended()->data_destruct_strided(m_arrmeta, mc.memory, m_stride, mc.used_count);
-        mc.used_count = 0;
       }
+      // Reset to zero used elements in the chunk
+      memory_chunk &mc = m_memory_handles.front();
+      m_dt.extended()->data_destruct_strided(m_arrmeta + arrmeta_size, mc.memory, m_stride, mc.used_count);
+      mc.used_count = 0;
+      m_total_allocated_count = mc.capacity_count;
     }
 
     void debug_print(std::ostream &o, const std::string &indent) {
-- 
2.43.0


From 095fa62009b017556052266b54280f82942793bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 44/99] fix: options of strings, bytes and unsigned integers
 must tell missing values from others

---
 include/dynd/kernels/assign_na_kernel.hpp |  8 +++---
 include/dynd/kernels/is_na_kernel.hpp     |  4 +--
 include/dynd/types/option_type.hpp        |  4 +++
 include/dynd/types/sso_bytestring.hpp     | 13 +++++++++
 src/dynd/option.cpp                       |  8 +++---
 src/dynd/types/option_type.cpp            | 33 +++++++++++++++++++++--
 6 files changed, 58 insertions(+), 12 deletions(-)

diff --git a/include/dynd/kernels/assign_na_kernel.hpp b/include/dynd/kernels/assign_na_kernel.hpp
index af5c6dd..d662b11 100644
--- a/include/dynd/kernels/assign_na_kernel.hpp
+++ b/include/dynd/kernels/assign_na_kernel.hpp
@@ -134,13 +134,13 @@ namespace nd {
   };
 
   template <>
-  struct assign_na_kernel<bytes> : base_strided_kernel<assign_na_kernel<bytes>, 1> {
-    void single(char *res, char *const *DYND_UNUSED(args)) { reinterpret_cast<bytes *>(res)->clear(); }
+  struct assign_na_kernel<bytes> : base_strided_kernel<assign_na_kernel<bytes>, 0> {
+    void single(char *res, char *const *DYND_UNUSED(args)) { reinterpret_cast<bytes *>(res)->assign_na(); }
   };
 
   template <>
-  struct assign_na_kernel<string> : base_strided_kernel<assign_na_kernel<string>, 1> {
-    void single(char *res, char *const *DYND_UNUSED(args)) { reinterpret_cast<bytes *>(res)->clear(); }
+  struct assign_na_kernel<string> : base_strided_kernel<assign_na_kernel<string>, 0> {
+    void single(char *res, char *const *DYND_UNUSED(args)) { reinterpret_cast<string *>(res)->assign_na(); }
   };
 
 } // namespace dynd::nd
diff --git a/include/dynd/kernels/is_na_kernel.hpp b/include/dynd/kernels/is_na_kernel.hpp
index 4631442..cec24db 100644
--- a/include/dynd/kernels/is_na_kernel.hpp
+++ b/include/dynd/kernels/is_na_kernel.hpp
@@ -164,12 +164,12 @@ namespace nd {
 
   template <>
   struct is_na_kernel<bytes> : base_strided_kernel<is_na_kernel<bytes>, 1> {
-    void single(char *dst, char *const *src) { *dst = reinterpret_cast<bytes *>(src[0])->begin() == NULL; }
+    void single(char *dst, char *const *src) { *dst = reinterpret_cast<bytes *>(src[0])->is_na(); }
   };
 
   template <>
   struct is_na_kernel<string> : base_strided_kernel<is_na_kernel<string>, 1> {
-    void single(char *dst, char *const *src) { *dst = reinterpret_cast<string *>(src[0])->begin() == NULL; }
+    void single(char *dst, char *const *src) { *dst = reinterpret_cast<string *>(src[0])->is_na(); }
   };
 
   template <>
diff --git a/include/dynd/types/option_type.hpp b/include/dynd/types/option_type.hpp
index 403ecc4..5e36e88 100644
--- a/include/dynd/types/option_type.hpp
+++ b/include/dynd/types/option_type.hpp
@@ -12,7 +12,11 @@
 #define DYND_INT8_NA (std::numeric_limits<int8_t>::min())
 #define DYND_INT16_NA (std::numeric_limits<int16_t>::min())
 #define DYND_INT32_NA (std::numeric_limits<int32_t>::min())
+#define DYND_UINT8_NA (std::numeric_limits<uint8_t>::max())
+#define DYND_UINT16_NA (std::numeric_limits<uint16_t>::max())
 #define DYND_UINT32_NA (std::numeric_limits<uint32_t>::max())
+#define DYND_UINT64_NA (std::numeric_limits<uint64_t>::max())
+#define DYND_UINT128_NA (std::numeric_limits<uint128>::max())
 #define DYND_INT64_NA (std::numeric_limits<int64_t>::min())
 #define DYND_INT128_NA (std::numeric_limits<int128>::min())
 #define DYND_FLOAT16_NA_AS_UINT (0x7e0au)
diff --git a/include/dynd/types/sso_bytestring.hpp b/include/dynd/types/sso_bytestring.hpp
index 982a248..ceff3b3 100644
--- a/include/dynd/types/sso_bytestring.hpp
+++ b/include/dynd/types/sso_bytestring.hpp
@@ -217,6 +217,19 @@ public:
 
   bool empty() const { return size() == 0; }
 
+  /**
+   * Whether this is the missing value (NA) of an option type. It is empty, and is told apart from a value by a mark in
+   * the bytes of the SSO storage, which are zero for every value of size zero.
+   */
+  bool is_na() const { return m_size == 0 && m_pointer != 0; }
+
+  /** Makes this the missing value (NA) of an option type, until something else is assigned to it */
+  void assign_na() {
+    clear();
+    // The first byte remains zero, so that data() of a string is still NUL-terminated
+    sso_data()[1] = 1;
+  }
+
   bool operator==(const sso_bytestring &rhs) const {
     size_t sz = size();
     return sz == rhs.size() && memcmp(data(), rhs.data(), sz) == 0;
diff --git a/src/dynd/option.cpp b/src/dynd/option.cpp
index b2df4b1..f4683fa 100644
--- a/src/dynd/option.cpp
+++ b/src/dynd/option.cpp
@@ -27,8 +27,8 @@ static std::vector<ndt::type> is_na_func_ptr(const ndt::type &DYND_UNUSED(dst_tp
 nd::callable make_assign_na() {
   auto children = nd::callable::make_all<
       nd::assign_na_callable,
-      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint32_t, float, double, dynd::complex<float>,
-                    dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(
+      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint8_t, uint16_t, uint32_t, uint64_t, uint128, float,
+                    double, dynd::complex<float>, dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(
       assign_na_func_ptr);
   children.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
       ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<ndt::any_kind_type>()), {})));
@@ -43,8 +43,8 @@ nd::callable make_assign_na() {
 nd::callable make_is_na() {
   dispatcher<1, nd::callable> dispatcher = nd::callable::make_all<
       nd::is_na_callable,
-      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint32_t, float, double, dynd::complex<float>,
-                    dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(is_na_func_ptr);
+      type_sequence<bool, int8_t, int16_t, int32_t, int64_t, int128, uint8_t, uint16_t, uint32_t, uint64_t, uint128, float,
+                    double, dynd::complex<float>, dynd::complex<double>, void, dynd::bytes, dynd::string, ndt::fixed_dim_kind_type>>(is_na_func_ptr);
   dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
       ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
       {ndt::make_type<ndt::fixed_dim_kind_type>(ndt::make_type<ndt::any_kind_type>())})));
diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index ed93fdb..e8553f4 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -3,7 +3,9 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
+#include <dynd/bytes.hpp>
 #include <dynd/parse_util.hpp>
+#include <dynd/string.hpp>
 #include <dynd/types/datashape_parser.hpp>
 #include <dynd/types/option_type.hpp>
 
@@ -31,6 +33,21 @@ void dynd::assign_na_builtin(type_id_t value_id, char *data) {
   case int128_id:
     *reinterpret_cast<int128 *>(data) = DYND_INT128_NA;
     return;
+  case uint8_id:
+    *reinterpret_cast<uint8_t *>(data) = DYND_UINT8_NA;
+    return;
+  case uint16_id:
+    *reinterpret_cast<uint16_t *>(data) = DYND_UINT16_NA;
+    return;
+  case uint32_id:
+    *reinterpret_cast<uint32_t *>(data) = DYND_UINT32_NA;
+    return;
+  case uint64_id:
+    *reinterpret_cast<uint64_t *>(data) = DYND_UINT64_NA;
+    return;
+  case uint128_id:
+    *reinterpret_cast<uint128 *>(data) = DYND_UINT128_NA;
+    return;
   case float32_id:
     *reinterpret_cast<uint32_t *>(data) = DYND_FLOAT32_NA_AS_UINT;
     return;
@@ -61,12 +78,20 @@ bool dynd::is_avail_builtin(type_id_t value_id, const char *data) {
     return *reinterpret_cast<const int16_t *>(data) != DYND_INT16_NA;
   case int32_id:
     return *reinterpret_cast<const int32_t *>(data) != DYND_INT32_NA;
-  case uint32_id:
-    return *reinterpret_cast<const uint32_t *>(data) != DYND_UINT32_NA;
   case int64_id:
     return *reinterpret_cast<const int64_t *>(data) != DYND_INT64_NA;
   case int128_id:
     return *reinterpret_cast<const int128 *>(data) != DYND_INT128_NA;
+  case uint8_id:
+    return *reinterpret_cast<const uint8_t *>(data) != DYND_UINT8_NA;
+  case uint16_id:
+    return *reinterpret_cast<const uint16_t *>(data) != DYND_UINT16_NA;
+  case uint32_id:
+    return *reinterpret_cast<const uint32_t *>(data) != DYND_UINT32_NA;
+  case uint64_id:
+    return *reinterpret_cast<const uint64_t *>(data) != DYND_UINT64_NA;
+  case uint128_id:
+    return *reinterpret_cast<const uint128 *>(data) != DYND_UINT128_NA;
   case float32_id:
     return !isnan(*reinterpret_cast<const float *>(data));
   case float64_id:
@@ -77,6 +102,10 @@ bool dynd::is_avail_builtin(type_id_t value_id, const char *data) {
   case complex_float64_id:
     return reinterpret_cast<const uint64_t *>(data)[0] != DYND_FLOAT64_NA_AS_UINT ||
            reinterpret_cast<const uint64_t *>(data)[1] != DYND_FLOAT64_NA_AS_UINT;
+  case bytes_id:
+    return !reinterpret_cast<const bytes *>(data)->is_na();
+  case string_id:
+    return !reinterpret_cast<const string *>(data)->is_na();
   default:
     return false;
   }
-- 
2.43.0


From 42c6fdb1462b7eb66bf8fe046ba1c0f53f614ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 45/99] fix: do not leave parameters unused in the assignments
 from strings

---
 include/dynd/callables/assign_callable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 91e6baf..7f89c16 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -77,7 +77,7 @@ namespace nd {
               {{ndt::make_type<ndt::option_type>(ndt::make_type<assign_error_mode>()), "error_mode"}})) {}
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
-                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
+                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
@@ -417,7 +417,7 @@ namespace nd {
               {{ndt::make_type<ndt::option_type>(ndt::make_type<assign_error_mode>()), "error_mode"}})) {}
 
     ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
-                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
+                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
                       size_t DYND_UNUSED(nkwd), const array *kwds,
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
       assign_error_mode error_mode = kwds[0].is_na() ? assign_error_default : kwds[0].as<assign_error_mode>();
-- 
2.43.0


From d64e27d7bf1153ac93699e742d411dcec53e990c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 46/99] fix: surrogate pairs in JSON strings must be combined
 into one code point

---
 src/dynd/parse_util.cpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/dynd/parse_util.cpp b/src/dynd/parse_util.cpp
index 2d1e3df..f9951ac 100644
--- a/src/dynd/parse_util.cpp
+++ b/src/dynd/parse_util.cpp
@@ -127,6 +127,24 @@ bool dynd::parse_doublequote_string_no_ws(const char *&rbegin, const char *end,
   }
 }
 
+static bool parse_4hex(const char *begin, uint32_t &out_value) {
+  out_value = 0;
+  for (int i = 0; i < 4; ++i) {
+    char d = begin[i];
+    out_value *= 16;
+    if ('0' <= d && d <= '9') {
+      out_value += d - '0';
+    } else if ('A' <= d && d <= 'F') {
+      out_value += d - 'A' + 10;
+    } else if ('a' <= d && d <= 'f') {
+      out_value += d - 'a' + 10;
+    } else {
+      return false;
+    }
+  }
+  return true;
+}
+
 void dynd::unescape_string(const char *strbegin, const char *strend, std::string &out) {
   out.resize(0);
   while (strbegin < strend) {
@@ -175,6 +193,14 @@ void dynd::unescape_string(const char *strbegin, const char *strend, std::string
             cp = '?';
           }
         }
+        if (cp >= 0xd800 && cp < 0xdc00 && strend - strbegin >= 6 && strbegin[0] == '\\' && strbegin[1] == 'u') {
+          // A code point outside of the BMP is escaped as a surrogate pair
+          uint32_t low;
+          if (parse_4hex(strbegin + 2, low) && low >= 0xdc00 && low < 0xe000) {
+            cp = 0x10000 + ((cp - 0xd800) << 10) + (low - 0xdc00);
+            strbegin += 6;
+          }
+        }
         append_utf8_codepoint(cp, out);
         break;
       }
-- 
2.43.0


From f05f877870c9585e3a02e3c668d5051164d5505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 47/99] fix: floating point numbers formatted as JSON must
 parse back to the same value

---
 src/dynd/json_formatter.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/dynd/json_formatter.cpp b/src/dynd/json_formatter.cpp
index 9562ef1..731983e 100644
--- a/src/dynd/json_formatter.cpp
+++ b/src/dynd/json_formatter.cpp
@@ -6,6 +6,7 @@
 #include <dynd/json_formatter.hpp>
 #include <dynd/callable.hpp>
 #include <dynd/option.hpp>
+#include <dynd/parse_util.hpp>
 #include <dynd/types/string_type.hpp>
 #include <dynd/types/struct_type.hpp>
 #include <dynd/types/fixed_dim_type.hpp>
@@ -81,7 +82,31 @@ static void format_json_bool(output_data &out, const ndt::type &dt, const char *
   }
 }
 
+template <typename T>
+static void format_json_float(output_data &out, T value) {
+  // Use the fewest digits, but at least the default of 6, from which the value can be parsed back
+  for (int precision = 6;; ++precision) {
+    stringstream ss;
+    ss.precision(precision);
+    ss << value;
+    if (precision == std::numeric_limits<T>::max_digits10 || !dynd::isfinite(value) || parse<T>(ss.str()) == value) {
+      out.write(ss.str());
+      return;
+    }
+  }
+}
+
 static void format_json_number(output_data &out, const ndt::type &dt, const char *arrmeta, const char *data) {
+  switch (dt.get_id()) {
+  case float32_id:
+    format_json_float(out, *reinterpret_cast<const float *>(data));
+    return;
+  case float64_id:
+    format_json_float(out, *reinterpret_cast<const double *>(data));
+    return;
+  default:
+    break;
+  }
   stringstream ss;
   dt.print_data(ss, arrmeta, data);
   out.write(ss.str());
-- 
2.43.0


From 772610cd4fa55a3377d009ed89d8f9ed26ec5e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 48/99] fix: parsing an integer must require a digit, and only
 options may be missing

---
 include/dynd/parse_util.hpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/dynd/parse_util.hpp b/include/dynd/parse_util.hpp
index 6758259..a6b18a0 100644
--- a/include/dynd/parse_util.hpp
+++ b/include/dynd/parse_util.hpp
@@ -925,7 +925,8 @@ template <typename T>
 std::enable_if_t<is_unsigned<T>::value && is_integral<T>::value && !is_boolean<T>::value, T> parse(const char *begin,
                                                                                                    const char *end) {
   T result = 0, prev_result = 0;
-  if (begin == end) {
+  if (begin == end || *begin < '0' || '9' < *begin) {
+    // There has to be at least one digit, before any '.' or exponent
     raise_string_cast_error(ndt::make_type<T>(), begin, end);
   }
   while (begin < end) {
@@ -1219,6 +1220,21 @@ inline void string_to_number(char *out, type_id_t tid, const char *begin, const
     case int128_id:
       *reinterpret_cast<int128 *>(out) = DYND_INT128_NA;
       return;
+    case uint8_id:
+      *reinterpret_cast<uint8_t *>(out) = DYND_UINT8_NA;
+      return;
+    case uint16_id:
+      *reinterpret_cast<uint16_t *>(out) = DYND_UINT16_NA;
+      return;
+    case uint32_id:
+      *reinterpret_cast<uint32_t *>(out) = DYND_UINT32_NA;
+      return;
+    case uint64_id:
+      *reinterpret_cast<uint64_t *>(out) = DYND_UINT64_NA;
+      return;
+    case uint128_id:
+      *reinterpret_cast<uint128 *>(out) = DYND_UINT128_NA;
+      return;
     case float32_id:
       *reinterpret_cast<uint32_t *>(out) = DYND_FLOAT32_NA_AS_UINT;
       return;
@@ -1408,13 +1424,17 @@ inline void parse_number_json(const ndt::type &tp, char *out_data, const char *&
   } else if (parse_doublequote_string_no_ws(begin, end, nbegin, nend, escaped)) {
     // Interpret the data inside the string as an int
     try {
-      if (!escaped) {
-        string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
-      } else {
-        std::string s;
+      std::string s;
+      if (escaped) {
         unescape_string(nbegin, nend, s);
-        string_to_number(out_data, tp.get_id(), s.data(), s.data() + s.size(), ectx->errmode);
+        nbegin = s.data();
+        nend = s.data() + s.size();
+      }
+      if (!option && parse_na(nbegin, nend)) {
+        // Only an option has a missing value
+        raise_string_cast_error(tp, nbegin, nend);
       }
+      string_to_number(out_data, tp.get_id(), nbegin, nend, ectx->errmode);
     } catch (const std::exception &e) {
       throw json_parse_error(rbegin, e.what(), tp);
     } catch (const dynd::dynd_exception &e) {
-- 
2.43.0


From a0045f04aaeb34a752d88a0e9565d508b1a7eacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:13 +0000
Subject: [PATCH 49/99] fix: JSON must be parsed from fixed size strings and
 other encodings

---
 src/dynd/json_parser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dynd/json_parser.cpp b/src/dynd/json_parser.cpp
index a8484fd..7aedcfc 100644
--- a/src/dynd/json_parser.cpp
+++ b/src/dynd/json_parser.cpp
@@ -23,7 +23,8 @@ static void json_as_buffer(const nd::array &json, nd::array &out_tmp_ref, const
   // buffer
   ndt::type json_type = json.get_type().value_type();
   switch (json_type.get_base_id()) {
-  case string_kind_id: {
+  case string_kind_id:
+  case fixed_string_kind_id: {
     const ndt::base_string_type *sdt = json_type.extended<ndt::base_string_type>();
     switch (sdt->get_encoding()) {
     case string_encoding_ascii:
@@ -35,7 +36,8 @@ static void json_as_buffer(const nd::array &json, nd::array &out_tmp_ref, const
     default: {
       // The data needs to be converted to UTF-8 before parsing
       ndt::type utf8_tp = ndt::make_type<ndt::string_type>();
-      out_tmp_ref = json.ucast(utf8_tp).eval();
+      out_tmp_ref = nd::empty(utf8_tp);
+      out_tmp_ref.assign(json);
       sdt = static_cast<const ndt::base_string_type *>(utf8_tp.extended());
       sdt->get_string_range(&begin, &end, out_tmp_ref.get()->metadata(), out_tmp_ref.cdata());
       break;
@@ -43,7 +45,8 @@ static void json_as_buffer(const nd::array &json, nd::array &out_tmp_ref, const
     }
     break;
   }
-  case bytes_kind_id: {
+  case bytes_kind_id:
+  case fixed_bytes_kind_id: {
     out_tmp_ref = json.eval();
     const ndt::base_bytes_type *bdt = json_type.extended<ndt::base_bytes_type>();
     bdt->get_bytes_range(&begin, &end, out_tmp_ref.get()->metadata(), out_tmp_ref.cdata());
-- 
2.43.0


From f6e6bdc70ac211017732e8fe77e277285d8a2db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 50/99] fix: assigning options must keep every value of a run,
 in every chunk, and recognize missing booleans in strings

---
 include/dynd/kernels/assignment_kernels.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 78bcd5b..074cdcf 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -792,19 +792,19 @@ namespace nd {
         kernel_strided_t dst_assign_na_fn = dst_assign_na->get_function<kernel_strided_t>();
         // Process in chunks using the dynd default buffer size
         bool1 missing[DYND_BUFFER_CHUNK_SIZE];
+        char *src_copy = src[0];
         while (count > 0) {
           size_t chunk_size = std::min(count, (size_t)DYND_BUFFER_CHUNK_SIZE);
           count -= chunk_size;
-          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, src, src_stride, chunk_size);
+          src_is_na_fn(src_is_na, reinterpret_cast<char *>(missing), 1, &src_copy, src_stride, chunk_size);
           void *missing_ptr = missing;
-          char *src_copy = src[0];
           do {
             // Process a run of available values
             void *next_missing_ptr = memchr(missing_ptr, 1, chunk_size);
             if (!next_missing_ptr) {
               value_assign_fn(value_assign, dst, dst_stride, &src_copy, src_stride, chunk_size);
               dst += chunk_size * dst_stride;
-              src += chunk_size * src_stride[0];
+              src_copy += chunk_size * src_stride[0];
               break;
             } else if (next_missing_ptr > missing_ptr) {
               size_t segment_size = (char *)next_missing_ptr - (char *)missing_ptr;
@@ -837,7 +837,11 @@ namespace nd {
     struct DYND_API string_to_option_bool_ck : nd::base_strided_kernel<string_to_option_bool_ck, 1> {
       void single(char *dst, char *const *src) {
         const string *std = reinterpret_cast<string *>(src[0]);
-        *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        if (parse_na(std->begin(), std->end())) {
+          *dst = DYND_BOOL_NA;
+        } else {
+          *reinterpret_cast<bool1 *>(dst) = parse<bool>(std->begin(), std->end());
+        }
       }
     };
 
-- 
2.43.0


From 687dbb87ebb48bcea6592a7d6101598245982735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 51/99] fix: operators on unsupported scalar types report an
 error instead of recursing without end

---
 include/dynd/binary_arithmetic.hpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/include/dynd/binary_arithmetic.hpp b/include/dynd/binary_arithmetic.hpp
index b5a4b06..8e62daa 100644
--- a/include/dynd/binary_arithmetic.hpp
+++ b/include/dynd/binary_arithmetic.hpp
@@ -51,11 +51,6 @@ nd::callable make_binary_arithmetic() {
            ndt::make_type<ndt::any_kind_type>(),
            ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
                                             ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
-           ndt::make_type<ndt::struct_type>())),
-       nd::get_elwise(ndt::make_type<ndt::callable_type>(
-           ndt::make_type<ndt::any_kind_type>(),
-           ndt::make_type<ndt::tuple_type>(
-               {ndt::make_type<ndt::scalar_kind_type>(), ndt::make_type<ndt::scalar_kind_type>()}),
            ndt::make_type<ndt::struct_type>()))});
 
   return nd::make_callable<nd::multidispatch_callable<2>>(tp, dispatcher);
-- 
2.43.0


From 87821af841fee916cbf74b3fa13f5b0aa2f23ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 52/99] fix: integer division checks for a zero divisor of an
 unsigned type too

---
 include/dynd/kernels/arithmetic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/kernels/arithmetic.hpp b/include/dynd/kernels/arithmetic.hpp
index 9111f3b..61ffefb 100644
--- a/include/dynd/kernels/arithmetic.hpp
+++ b/include/dynd/kernels/arithmetic.hpp
@@ -163,7 +163,7 @@ namespace detail {
     return (std::is_same<Arg0Type, bool1>::value || is_signed_integral<Arg0Type>::value ||
             is_unsigned_integral<Arg0Type>::value) &&
            (std::is_same<Arg1Type, bool1>::value || is_signed_integral<Arg1Type>::value ||
-            is_unsigned_integral<Arg0Type>::value);
+            is_unsigned_integral<Arg1Type>::value);
   }
 
 #define DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(OP, NAME)                                                            \
-- 
2.43.0


From 1ddc1f9979c362497d47682901742c9b387b49b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:48 +0000
Subject: [PATCH 53/99] fix: dividing the lowest integer by -1 wraps around
 instead of trapping

---
 include/dynd/kernels/arithmetic.hpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/dynd/kernels/arithmetic.hpp b/include/dynd/kernels/arithmetic.hpp
index 61ffefb..3659d82 100644
--- a/include/dynd/kernels/arithmetic.hpp
+++ b/include/dynd/kernels/arithmetic.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <limits>
+#include <type_traits>
+
 #include <dynd/config.hpp>
 
 namespace dynd {
@@ -166,6 +169,19 @@ namespace detail {
             is_unsigned_integral<Arg1Type>::value);
   }
 
+  // The lowest value of a signed type divided by -1 cannot be represented, and attempting it raises a hardware exception.
+  template <typename ResType, typename Arg0Type, typename Arg1Type>
+  std::enable_if_t<std::is_integral<ResType>::value && std::is_signed<ResType>::value, bool>
+  division_overflows(Arg0Type a, Arg1Type b) {
+    return static_cast<ResType>(b) == -1 && static_cast<ResType>(a) == (std::numeric_limits<ResType>::min)();
+  }
+
+  template <typename ResType, typename Arg0Type, typename Arg1Type>
+  std::enable_if_t<!(std::is_integral<ResType>::value && std::is_signed<ResType>::value), bool>
+  division_overflows(Arg0Type DYND_UNUSED(a), Arg1Type DYND_UNUSED(b)) {
+    return false;
+  }
+
 #define DYND_DEF_BINARY_OP_CALLABLE_ZEROCHECK_INT(OP, NAME)                                                            \
   template <typename Arg0Type, typename Arg1Type, bool check>                                                          \
   struct inline_##NAME##_base;                                                                                         \
@@ -176,6 +192,9 @@ namespace detail {
       if (b == 0) {                                                                                                    \
         throw dynd::zero_division_error("Integer division or modulo by zero.");                                        \
       }                                                                                                                \
+      if (division_overflows<decltype(a OP b)>(a, b)) {                                                                \
+        return a OP static_cast<Arg1Type>(1); /* wraps around to the dividend, with remainder 0 */                     \
+      }                                                                                                                \
       return a OP b;                                                                                                   \
     }                                                                                                                  \
   };                                                                                                                   \
-- 
2.43.0


From 9a3391dc6fb9a7d8233d04e1d95489e83db3e1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:25 +0000
Subject: [PATCH 54/99] fix: compound integer division by zero reports an error
 instead of trapping

---
 include/dynd/kernels/compound_div_kernel.hpp | 27 +++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/dynd/kernels/compound_div_kernel.hpp b/include/dynd/kernels/compound_div_kernel.hpp
index 3bb7668..1e49b69 100644
--- a/include/dynd/kernels/compound_div_kernel.hpp
+++ b/include/dynd/kernels/compound_div_kernel.hpp
@@ -5,10 +5,27 @@
 
 #pragma once
 
+#include <dynd/exceptions.hpp>
+#include <dynd/kernels/arithmetic.hpp>
 #include <dynd/kernels/base_kernel.hpp>
 #include <dynd/kernels/base_strided_kernel.hpp>
 
 namespace dynd {
+namespace detail {
+
+  // Integers are divided with the checks of the binary operator, because dividing by zero traps.
+  template <typename DstType, typename Src0Type>
+  std::enable_if_t<needs_zero_check<DstType, Src0Type>(), DstType> compound_divide(DstType a, Src0Type b) {
+    return static_cast<DstType>(inline_divide<DstType, Src0Type>::f(a, b));
+  }
+
+  template <typename DstType, typename Src0Type>
+  std::enable_if_t<!needs_zero_check<DstType, Src0Type>(), DstType> compound_divide(DstType a, Src0Type b) {
+    return static_cast<DstType>(a / b);
+  }
+
+} // namespace dynd::detail
+
 namespace nd {
 
   template <typename ReturnType, typename Arg0Type,
@@ -22,7 +39,8 @@ namespace nd {
     typedef Src0Type src0_type;
 
     void single(char *dst, char *const *src) {
-      *reinterpret_cast<dst_type *>(dst) /= *reinterpret_cast<src0_type *>(src[0]);
+      *reinterpret_cast<dst_type *>(dst) = dynd::detail::compound_divide(*reinterpret_cast<dst_type *>(dst),
+                                                                           *reinterpret_cast<src0_type *>(src[0]));
     }
 
     void strided(char *dst, std::intptr_t dst_stride, char *const *src, const std::intptr_t *src_stride,
@@ -30,7 +48,8 @@ namespace nd {
       char *src0 = src[0];
       std::intptr_t src0_stride = src_stride[0];
       for (std::size_t i = 0; i < count; ++i) {
-        *reinterpret_cast<dst_type *>(dst) /= *reinterpret_cast<src0_type *>(src0);
+        *reinterpret_cast<dst_type *>(dst) = dynd::detail::compound_divide(*reinterpret_cast<dst_type *>(dst),
+                                                                           *reinterpret_cast<src0_type *>(src0));
         dst += dst_stride;
         src0 += src0_stride;
       }
@@ -45,7 +64,7 @@ namespace nd {
 
     void single(char *dst, char *const *src) {
       *reinterpret_cast<dst_type *>(dst) =
-          static_cast<dst_type>(*reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src[0]));
+          dynd::detail::compound_divide(*reinterpret_cast<dst_type *>(dst), *reinterpret_cast<src0_type *>(src[0]));
     }
 
     void strided(char *dst, std::intptr_t dst_stride, char *const *src, const std::intptr_t *src_stride,
@@ -54,7 +73,7 @@ namespace nd {
       std::intptr_t src0_stride = src_stride[0];
       for (std::size_t i = 0; i < count; ++i) {
         *reinterpret_cast<dst_type *>(dst) =
-            static_cast<dst_type>(*reinterpret_cast<dst_type *>(dst) / *reinterpret_cast<src0_type *>(src0));
+            dynd::detail::compound_divide(*reinterpret_cast<dst_type *>(dst), *reinterpret_cast<src0_type *>(src0));
         dst += dst_stride;
         src0 += src0_stride;
       }
-- 
2.43.0


From 47366a41dabb13c3abca0cc1ee1f7c9a190df053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:01 +0000
Subject: [PATCH 55/99] fix: compound assignment operators of arrays accept
 their single operand

---
 include/dynd/compound_arithmetic.hpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/include/dynd/compound_arithmetic.hpp b/include/dynd/compound_arithmetic.hpp
index ea5f33b..40530b1 100644
--- a/include/dynd/compound_arithmetic.hpp
+++ b/include/dynd/compound_arithmetic.hpp
@@ -21,8 +21,7 @@ template <template <typename, typename> class KernelType, typename TypeSequence>
 nd::callable make_compound_arithmetic() {
   const ndt::type &tp = ndt::make_type<ndt::callable_type>(
       ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::any_kind_type>(), ndt::make_type<ndt::any_kind_type>()}),
-      ndt::make_type<ndt::struct_type>());
+      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::any_kind_type>()}), ndt::make_type<ndt::struct_type>());
 
   auto dispatcher = nd::callable::make_all<KernelType, TypeSequence, TypeSequence>(
       [](const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp) -> std::vector<ndt::type> {
@@ -43,19 +42,11 @@ nd::callable make_compound_arithmetic() {
                                                    ndt::make_type<dynd::complex<double>>()};
 
   dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::scalar_kind_type>(),
-                                       ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
-      ndt::make_type<ndt::struct_type>())));
-  dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
-                                       ndt::make_type<ndt::scalar_kind_type>()}),
-      ndt::make_type<ndt::struct_type>())));
+      ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
+      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::scalar_kind_type>()}), ndt::make_type<ndt::struct_type>())));
   dispatcher.insert(nd::get_elwise(ndt::make_type<ndt::callable_type>(
-      ndt::make_type<ndt::any_kind_type>(),
-      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
-                                       ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
+      ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>()),
+      ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::dim_kind_type>(ndt::make_type<ndt::any_kind_type>())}),
       ndt::make_type<ndt::struct_type>())));
 
   return nd::make_callable<nd::multidispatch_callable<2>>(tp, dispatcher);
-- 
2.43.0


From ff97c3b6fafacb3667056227eebe41da044807fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:36 +0000
Subject: [PATCH 56/99] fix: assign_na accepts arrays of optional elements

The callable has children for arrays but declared ?Any as its return type,
so array::assign_na() refused every destination with dimensions.
---
 src/dynd/option.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/option.cpp b/src/dynd/option.cpp
index f4683fa..3ba1d04 100644
--- a/src/dynd/option.cpp
+++ b/src/dynd/option.cpp
@@ -36,7 +36,7 @@ nd::callable make_assign_na() {
       ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::var_dim_type>(ndt::make_type<ndt::any_kind_type>()), {})));
 
   return nd::make_callable<nd::multidispatch_callable<1>>(
-      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::option_type>(ndt::make_type<ndt::any_kind_type>()), {}),
+      ndt::make_type<ndt::callable_type>(ndt::make_type<ndt::any_kind_type>(), {}),
       children);
 }
 
-- 
2.43.0


From 21be06d4df76e2768d7b89925157e3298c7dc431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 57/99] fix: constructor arguments of callable types with
 keywords

A second variable of the same name hid the result, so a null buffer was
returned and substituting type variables in such a type crashed.
---
 src/dynd/types/callable_type.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynd/types/callable_type.cpp b/src/dynd/types/callable_type.cpp
index a8fe438..d156b3b 100644
--- a/src/dynd/types/callable_type.cpp
+++ b/src/dynd/types/callable_type.cpp
@@ -230,7 +230,7 @@ nd::buffer ndt::callable_type::get_type_constructor_args() const {
     reinterpret_cast<ndt::type *>(callable_args.data())[0] = get_return_type();
     reinterpret_cast<ndt::type *>(callable_args.data())[1] = get_pos_tuple();
   } else {
-    nd::buffer callable_args = nd::buffer::empty(ndt::make_type<ndt::tuple_type>(
+    callable_args = nd::buffer::empty(ndt::make_type<ndt::tuple_type>(
         {ndt::make_type<ndt::tuple_type>(
              {ndt::make_type<ndt::type_type>(), ndt::make_type<ndt::type_type>(), ndt::make_type<ndt::type_type>()}),
          ndt::make_type<ndt::struct_type>()}));
-- 
2.43.0


From 2aaff0dc2eb41d0eaec6bf3be50d1706f12b91c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 58/99] fix: Dim * T binds the type variables of its element
 when it matches

---
 src/dynd/types/dim_kind_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/dim_kind_type.cpp b/src/dynd/types/dim_kind_type.cpp
index 63e6d44..bf2ad19 100644
--- a/src/dynd/types/dim_kind_type.cpp
+++ b/src/dynd/types/dim_kind_type.cpp
@@ -16,8 +16,8 @@ ndt::dim_kind_type::dim_kind_type(type_id_t id, const type &element_tp)
   this->flags |= (element_tp.get_flags() & (type_flags_operand_inherited | type_flags_value_inherited));
 }
 
-bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1));
+bool ndt::dim_kind_type::match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const {
+  return candidate_tp.get_ndim() > 0 && m_element_tp.match(candidate_tp.get_type_at_dimension(NULL, 1), tp_vars);
 }
 
 void ndt::dim_kind_type::print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
-- 
2.43.0


From 842ca2e4c465ecfb560bfcceb706d8e5c8f7b6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:52 +0000
Subject: [PATCH 59/99] fix: var ** N does not match dimensions that are not
 var

---
 src/dynd/types/pow_dimsym_type.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynd/types/pow_dimsym_type.cpp b/src/dynd/types/pow_dimsym_type.cpp
index 149a282..53cca37 100644
--- a/src/dynd/types/pow_dimsym_type.cpp
+++ b/src/dynd/types/pow_dimsym_type.cpp
@@ -219,6 +219,8 @@ bool ndt::pow_dimsym_type::match(const type &candidate_tp, std::map<std::string,
     for (intptr_t i = 0; i < exponent; ++i) {
       if (concrete_subtype.get_id() == var_dim_id) {
         concrete_subtype = concrete_subtype.extended<base_dim_type>()->get_element_type();
+      } else {
+        return false;
       }
     }
     break;
-- 
2.43.0


From a84e522f6b537f9d1fd10e493ea0864b0d129283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 60/99] fix: substituting type variables keeps tuples and
 structs variadic

---
 src/dynd/types/substitute_typevars.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index b41192f..020a9ca 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -132,14 +132,27 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
   case var_dim_id:
     return ndt::make_type<ndt::var_dim_type>(
         ndt::substitute(pattern.extended<var_dim_type>()->get_element_type(), typevars, concrete));
-  case struct_id:
+  case struct_id: {
+    bool variadic = pattern.extended<struct_type>()->is_variadic();
+    if (concrete && variadic) {
+      stringstream ss;
+      ss << "The dynd type " << pattern << " is variadic, which is not concrete as required";
+      throw invalid_argument(ss.str());
+    }
     return ndt::make_type<ndt::struct_type>(
         pattern.extended<struct_type>()->get_field_names(),
-        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete));
+        substitute_type_array(pattern.extended<struct_type>()->get_field_types(), typevars, concrete), variadic);
+  }
   case tuple_id: {
+    bool variadic = pattern.extended<tuple_type>()->is_variadic();
+    if (concrete && variadic) {
+      stringstream ss;
+      ss << "The dynd type " << pattern << " is variadic, which is not concrete as required";
+      throw invalid_argument(ss.str());
+    }
     const std::vector<ndt::type> &element_tp =
         substitute_type_array(pattern.extended<tuple_type>()->get_field_types(), typevars, concrete);
-    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data());
+    return ndt::make_type<ndt::tuple_type>(element_tp.size(), element_tp.data(), variadic);
   }
   case option_id:
     return ndt::make_type<ndt::option_type>(
-- 
2.43.0


From f67edd5c236d8f14ea3ddf0640b7277d984a908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:12 +0000
Subject: [PATCH 61/99] fix: type variables can be substituted in patterns that
 contain kinds

Every kind but Any, Scalar and Fixed failed with 'not yet implemented'.
---
 src/dynd/types/substitute_typevars.cpp | 27 ++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/dynd/types/substitute_typevars.cpp b/src/dynd/types/substitute_typevars.cpp
index 020a9ca..44df6b5 100644
--- a/src/dynd/types/substitute_typevars.cpp
+++ b/src/dynd/types/substitute_typevars.cpp
@@ -6,6 +6,7 @@
 #include <dynd/type_registry.hpp>
 #include <dynd/types/cuda_device_type.hpp>
 #include <dynd/types/dim_fragment_type.hpp>
+#include <dynd/types/dim_kind_type.hpp>
 #include <dynd/types/ellipsis_dim_type.hpp>
 #include <dynd/types/fixed_dim_type.hpp>
 #include <dynd/types/option_type.hpp>
@@ -370,16 +371,26 @@ ndt::type ndt::detail::internal_substitute(const ndt::type &pattern, const std::
       throw invalid_argument("Cannot substitute into an unnamed ellipsis typevar");
     }
   }
-  case any_kind_id: {
-    if (concrete) {
-      stringstream ss;
-      ss << "The dynd type " << pattern << " is not concrete as required";
-      throw invalid_argument(ss.str());
+  case dim_kind_id:
+    if (!concrete) {
+      return ndt::make_type<ndt::dim_kind_type>(
+          ndt::substitute(pattern.extended<base_dim_type>()->get_element_type(), typevars, concrete));
     } else {
-      return pattern;
+      throw invalid_argument("The dynd pattern type includes a symbolic 'Dim' dimension, which is not concrete as "
+                             "requested");
     }
-  }
-  case scalar_kind_id: {
+  case any_kind_id:
+  case scalar_kind_id:
+  case bool_kind_id:
+  case int_kind_id:
+  case uint_kind_id:
+  case float_kind_id:
+  case complex_kind_id:
+  case bytes_kind_id:
+  case fixed_bytes_kind_id:
+  case string_kind_id:
+  case fixed_string_kind_id:
+  case categorical_kind_id: {
     if (concrete) {
       stringstream ss;
       ss << "The dynd type " << pattern << " is not concrete as required";
-- 
2.43.0


From cd1ad94c4f7d1309ae8d7bea1caa28fd7f954e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:06 +0000
Subject: [PATCH 62/99] fix: Bytes matches every bytes type, as String does
 every string type

---
 include/dynd/types/bytes_kind_type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/bytes_kind_type.hpp b/include/dynd/types/bytes_kind_type.hpp
index 3982f70..e52cec5 100644
--- a/include/dynd/types/bytes_kind_type.hpp
+++ b/include/dynd/types/bytes_kind_type.hpp
@@ -15,7 +15,8 @@ namespace ndt {
     bytes_kind_type(type_id_t id) : base_type(id, 0, 1, type_flag_symbolic, 0, 0, 0) {}
 
     bool match(const type &candidate_tp, std::map<std::string, type> &DYND_UNUSED(tp_vars)) const {
-      return candidate_tp.get_base_id() == bytes_kind_id;
+      return candidate_tp.get_id() == bytes_id || candidate_tp.get_id() == fixed_bytes_id ||
+             candidate_tp.get_id() == fixed_bytes_kind_id || candidate_tp.get_id() == bytes_kind_id;
     }
 
     void print_data(std::ostream &DYND_UNUSED(o), const char *DYND_UNUSED(arrmeta),
-- 
2.43.0


From c6eccf7a6fae0f2d82f56af8dc0af32b9d5d4a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:06 +0000
Subject: [PATCH 63/99] fix: get_vars reports the variables of structs,
 pointers and dimension powers, and no name for an unnamed ellipsis

---
 include/dynd/types/pointer_type.hpp    | 2 ++
 include/dynd/types/pow_dimsym_type.hpp | 6 ++++++
 include/dynd/types/struct_type.hpp     | 6 ++++++
 src/dynd/types/ellipsis_dim_type.cpp   | 4 +++-
 4 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/pointer_type.hpp b/include/dynd/types/pointer_type.hpp
index 8bdb036..64b92f2 100644
--- a/include/dynd/types/pointer_type.hpp
+++ b/include/dynd/types/pointer_type.hpp
@@ -90,6 +90,8 @@ namespace ndt {
     void arrmeta_destruct(char *arrmeta) const;
     void arrmeta_debug_print(const char *arrmeta, std::ostream &o, const std::string &indent) const;
 
+    void get_vars(std::unordered_set<std::string> &vars) const { m_target_tp.get_vars(vars); }
+
     bool match(const type &candidate_tp, std::map<std::string, type> &tp_vars) const;
 
     std::map<std::string, std::pair<ndt::type, const char *>> get_dynamic_type_properties() const;
diff --git a/include/dynd/types/pow_dimsym_type.hpp b/include/dynd/types/pow_dimsym_type.hpp
index 4d9ad20..9241020 100644
--- a/include/dynd/types/pow_dimsym_type.hpp
+++ b/include/dynd/types/pow_dimsym_type.hpp
@@ -58,6 +58,12 @@ namespace ndt {
 
     bool is_lossless_assignment(const type &dst_tp, const type &src_tp) const;
 
+    void get_vars(std::unordered_set<std::string> &vars) const {
+      m_base_tp.get_vars(vars);
+      vars.insert(m_exponent);
+      m_element_tp.get_vars(vars);
+    }
+
     bool operator==(const base_type &rhs) const;
 
     void arrmeta_default_construct(char *arrmeta, bool blockref_alloc) const;
diff --git a/include/dynd/types/struct_type.hpp b/include/dynd/types/struct_type.hpp
index 05828d6..9a933dc 100644
--- a/include/dynd/types/struct_type.hpp
+++ b/include/dynd/types/struct_type.hpp
@@ -142,6 +142,12 @@ namespace ndt {
 
     const std::vector<std::pair<type, std::string>> &get_named_field_types() const { return m_field_tp; }
 
+    void get_vars(std::unordered_set<std::string> &vars) const {
+      for (const type &field_tp : m_field_types) {
+        field_tp.get_vars(vars);
+      }
+    }
+
     void print_type(std::ostream &o) const;
 
     void transform_child_types(type_transform_fn_t transform_fn, intptr_t arrmeta_offset, void *extra,
diff --git a/src/dynd/types/ellipsis_dim_type.cpp b/src/dynd/types/ellipsis_dim_type.cpp
index 43de556..c717660 100644
--- a/src/dynd/types/ellipsis_dim_type.cpp
+++ b/src/dynd/types/ellipsis_dim_type.cpp
@@ -11,7 +11,9 @@ using namespace std;
 using namespace dynd;
 
 void ndt::ellipsis_dim_type::get_vars(std::unordered_set<std::string> &vars) const {
-  vars.insert(m_name);
+  if (!m_name.empty()) {
+    vars.insert(m_name);
+  }
   m_element_tp.get_vars(vars);
 }
 
-- 
2.43.0


From 2871d6fdb154363314de0ee95dd08657b5cd3bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:18 +0000
Subject: [PATCH 64/99] fix: a dispatcher is left as it was when an overload is
 rejected as ambiguous

---
 include/dynd/dispatcher.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dynd/dispatcher.hpp b/include/dynd/dispatcher.hpp
index a78623d..232a76d 100644
--- a/include/dynd/dispatcher.hpp
+++ b/include/dynd/dispatcher.hpp
@@ -180,9 +180,9 @@ public:
 
   template <typename Iterator>
   void assign(Iterator begin, Iterator end) {
-    m_children.resize(end - begin);
+    std::vector<T> children(end - begin);
 
-    std::vector<std::vector<size_t>> edges(m_children.size());
+    std::vector<std::vector<size_t>> edges(children.size());
     for (size_t i = 0; i < edges.size(); ++i) {
       const auto &f_i = begin[i];
       std::array<ndt::type, N> tp_i =
@@ -223,7 +223,8 @@ public:
       }
     }
 
-    topological_sort(begin, end, edges, m_children.begin());
+    topological_sort(begin, end, edges, children.begin());
+    m_children.swap(children);
 
     //    m_map.clear();
   }
-- 
2.43.0


From f3702d28b38e9653e965f92163525d96b743128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:39 +0000
Subject: [PATCH 65/99] fix: indexed take copies the elements instead of
 leaving the result uninitialised

---
 .../dynd/callables/take_dispatch_callable.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 0e1326c..5a43865 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -80,9 +80,6 @@ namespace nd {
 
       ndt::type src0_element_tp = src_tp[0].get_type_at_dimension(NULL, 1).get_canonical_type();
 
-      nd::array error_mode = assign_error_default;
-      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
-
       ndt::type resolved_dst_tp;
       if (src_tp[1].get_id() == var_dim_id) {
         resolved_dst_tp = ndt::make_type<ndt::var_dim_type>(src0_element_tp);
@@ -90,6 +87,7 @@ namespace nd {
         resolved_dst_tp = ndt::make_fixed_dim(src_tp[1].get_dim_size(NULL, NULL), src0_element_tp);
       }
 
+      ndt::type src0_tp = src_tp[0], index_tp = src_tp[1];
       cg.emplace_back([=](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
                           const char *dst_arrmeta, size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
         intptr_t self_offset = kb.size();
@@ -99,9 +97,9 @@ namespace nd {
 
         ndt::type dst_el_tp;
         const char *dst_el_meta;
-        if (!dst_tp.get_as_strided(dst_arrmeta, &self->m_dst_dim_size, &self->m_dst_stride, &dst_el_tp, &dst_el_meta)) {
+        if (!resolved_dst_tp.get_as_strided(dst_arrmeta, &self->m_dst_dim_size, &self->m_dst_stride, &dst_el_tp, &dst_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << dst_tp;
+          ss << "indexed take arrfunc: could not process type " << resolved_dst_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
@@ -109,17 +107,17 @@ namespace nd {
         intptr_t index_dim_size;
         ndt::type src0_el_tp, index_el_tp;
         const char *src0_el_meta, *index_el_meta;
-        if (!src_tp[0].get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
+        if (!src0_tp.get_as_strided(src_arrmeta[0], &self->m_src0_dim_size, &self->m_src0_stride, &src0_el_tp,
                                       &src0_el_meta)) {
           std::stringstream ss;
-          ss << "indexed take arrfunc: could not process type " << src_tp[0];
+          ss << "indexed take arrfunc: could not process type " << src0_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
-        if (!src_tp[1].get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
+        if (!index_tp.get_as_strided(src_arrmeta[1], &index_dim_size, &self->m_index_stride, &index_el_tp,
                                       &index_el_meta)) {
           std::stringstream ss;
-          ss << "take arrfunc: could not process type " << src_tp[1];
+          ss << "take arrfunc: could not process type " << index_tp;
           ss << " as a strided dimension";
           throw type_error(ss.str());
         }
@@ -140,6 +138,9 @@ namespace nd {
         kb(kernel_request_single, nullptr, dst_el_meta, 1, &src0_el_meta);
       });
 
+      nd::array error_mode = assign_error_default;
+      assign->resolve(this, nullptr, cg, src0_element_tp, 1, &src0_element_tp, 1, &error_mode, tp_vars);
+
       return resolved_dst_tp;
     }
 
-- 
2.43.0


From 325b35dad4445ce901bc582c9e38ed3a676528e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:39 +0000
Subject: [PATCH 66/99] fix: masked take of a var dimension is an error, its
 arrmeta is not that of a fixed dimension

---
 include/dynd/callables/take_dispatch_callable.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/dynd/callables/take_dispatch_callable.hpp b/include/dynd/callables/take_dispatch_callable.hpp
index 5a43865..ea03dd4 100644
--- a/include/dynd/callables/take_dispatch_callable.hpp
+++ b/include/dynd/callables/take_dispatch_callable.hpp
@@ -29,6 +29,15 @@ namespace nd {
                       const ndt::type &DYND_UNUSED(dst_tp), size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &tp_vars) {
+      for (int i = 0; i < 2; ++i) {
+        if (src_tp[i].get_id() != fixed_dim_id) {
+          std::stringstream ss;
+          ss << "masked take arrfunc: could not process type " << src_tp[i];
+          ss << " as a strided dimension";
+          throw type_error(ss.str());
+        }
+      }
+
       cg.emplace_back([](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data), const char *dst_arrmeta,
                          size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
         typedef nd::masked_take_ck self_type;
-- 
2.43.0


From cc59326384ddebc7e43be98c16977335e10bbf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:18 +0000
Subject: [PATCH 67/99] fix: sorting an array with a negative stride and more
 than 16 elements wrote outside it

---
 include/dynd/bytes.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/dynd/bytes.hpp b/include/dynd/bytes.hpp
index 519540c..76b6872 100644
--- a/include/dynd/bytes.hpp
+++ b/include/dynd/bytes.hpp
@@ -158,17 +158,29 @@ public:
     return *this;
   }
 
-  bool operator<(const strided_iterator &rhs) const { return m_data < rhs.m_data; }
+  bool operator<(const strided_iterator &rhs) const
+  {
+    return m_stride < 0 ? m_data > rhs.m_data : m_data < rhs.m_data;
+  }
 
-  bool operator<=(const strided_iterator &rhs) const { return m_data <= rhs.m_data; }
+  bool operator<=(const strided_iterator &rhs) const
+  {
+    return m_stride < 0 ? m_data >= rhs.m_data : m_data <= rhs.m_data;
+  }
 
   bool operator==(const strided_iterator &rhs) const { return m_data == rhs.m_data; }
 
   bool operator!=(const strided_iterator &rhs) const { return m_data != rhs.m_data; }
 
-  bool operator>=(const strided_iterator &rhs) const { return m_data >= rhs.m_data; }
+  bool operator>=(const strided_iterator &rhs) const
+  {
+    return m_stride < 0 ? m_data <= rhs.m_data : m_data >= rhs.m_data;
+  }
 
-  bool operator>(const strided_iterator &rhs) const { return m_data > rhs.m_data; }
+  bool operator>(const strided_iterator &rhs) const
+  {
+    return m_stride < 0 ? m_data < rhs.m_data : m_data > rhs.m_data;
+  }
 
   std::ptrdiff_t operator-(strided_iterator rhs) { return (m_data - rhs.m_data) / m_stride; }
 
-- 
2.43.0


From 886fda326a53420680d235473b86b417629916bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:26 +0000
Subject: [PATCH 68/99] fix: binary_search in an empty array gives -1 instead
 of an index error

---
 include/dynd/callables/binary_search_callable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dynd/callables/binary_search_callable.hpp b/include/dynd/callables/binary_search_callable.hpp
index 5f5da11..09a47fe 100644
--- a/include/dynd/callables/binary_search_callable.hpp
+++ b/include/dynd/callables/binary_search_callable.hpp
@@ -33,7 +33,7 @@ namespace nd {
         kb(kernreq | kernel_request_data_only, nullptr, nullptr, 2, child_src_arrmeta);
       });
 
-      ndt::type element_tp = src_tp[0].at_single(0, nullptr);
+      ndt::type element_tp = src_tp[0].extended<ndt::base_dim_type>()->get_element_type();
       ndt::type child_src_tp[2] = {element_tp, element_tp};
 
       total_order->resolve(this, nullptr, cg, ndt::make_type<int>(), 2, child_src_tp, 0, NULL, tp_vars);
-- 
2.43.0


From 4393ca0332c384ada9142463b5ae5f298da3019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:01 +0000
Subject: [PATCH 69/99] fix: a shorter text in a larger fixed_string that fills
 a smaller one exactly is not too large

---
 include/dynd/kernels/assignment_kernels.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dynd/kernels/assignment_kernels.hpp b/include/dynd/kernels/assignment_kernels.hpp
index 074cdcf..d682864 100644
--- a/include/dynd/kernels/assignment_kernels.hpp
+++ b/include/dynd/kernels/assignment_kernels.hpp
@@ -1328,7 +1328,8 @@ namespace nd {
             append_fn(cp, dst, dst_end);
           }
         }
-        if (src_copy < src_end) {
+        // A terminated source that just fit has nothing left but its null
+        if (src_copy < src_end && next_fn(const_cast<const char *&>(src_copy), src_end) != 0) {
           if (m_overflow_check) {
             throw std::runtime_error("Input string is too large to convert to "
                                      "destination fixed-size string");
-- 
2.43.0


From dfe2332e707419e7e8c160a59224c68a690d684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:38 +0000
Subject: [PATCH 70/99] fix: a pointer type took over the construct/destruct
 flags of its target although the memory block does that

---
 include/dynd/types/pointer_type.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dynd/types/pointer_type.hpp b/include/dynd/types/pointer_type.hpp
index 64b92f2..7e81c30 100644
--- a/include/dynd/types/pointer_type.hpp
+++ b/include/dynd/types/pointer_type.hpp
@@ -38,7 +38,9 @@ namespace ndt {
   public:
     pointer_type(type_id_t id, const type &target_tp = make_type<any_kind_type>())
         : base_type(id, sizeof(char *), alignof(char *),
-                    target_tp.get_flags() | type_flag_zeroinit | type_flag_blockref,
+                    // The memory block constructs and destructs what is pointed to
+                    (target_tp.get_flags() & ~(type_flag_construct | type_flag_destructor)) | type_flag_zeroinit |
+                        type_flag_blockref,
                     target_tp.get_arrmeta_size() + sizeof(pointer_type_arrmeta), 0, 0),
           m_target_tp(target_tp) {}
 
-- 
2.43.0


From b0f5b454dece852a6b42caeea1aafc3218ec9e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 71/99] fix: view_scalars and combine_into_tuple rejected
 arrays that are not writable

---
 src/dynd/array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 535084c..b96e39f 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -723,7 +723,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
       }
       // Create the result array, adjusting the type if the data isn't aligned
       // correctly
-      char *data_ptr = data();
+      char *data_ptr = const_cast<char *>(cdata());
       ndt::type result_tp;
       intptr_t dim_size = nbytes / scalar_tp.get_data_size();
       if ((((uintptr_t)data_ptr) & (scalar_tp.get_data_alignment() - 1)) == 0) {
@@ -732,7 +732,7 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
         throw std::runtime_error("creating an unaligned type");
         //        result_tp = ndt::make_fixed_dim(dim_size, make_unaligned(scalar_tp));
       }
-      array result = make_array(result_tp, data(), get_owner() ? get_owner() : *this, get_flags());
+      array result = make_array(result_tp, data_ptr, get_owner() ? get_owner() : *this, get_flags());
       // The result has one strided ndarray field
       fixed_dim_type_arrmeta *result_md = reinterpret_cast<fixed_dim_type_arrmeta *>(result.get()->metadata());
       result_md->dim_size = dim_size;
@@ -978,7 +978,7 @@ nd::array nd::combine_into_tuple(size_t field_count, const array *field_values)
   }
 
   // Set the data pointers
-  const char **dp = reinterpret_cast<const char **>(result.data());
+  const char **dp = reinterpret_cast<const char **>(const_cast<char *>(result.cdata()));
   for (size_t i = 0; i != field_count; ++i) {
     dp[i] = field_values[i].cdata();
   }
-- 
2.43.0


From 2d63c6aa73fc276bc264efe4634f109e18b46734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 72/99] fix: assigning to an array that is not writable wrote
 to it

---
 src/dynd/array.cpp                   | 13 +++++++++++--
 src/dynd/callables/base_callable.cpp |  4 ++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index b96e39f..90668cf 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -248,14 +248,23 @@ nd::array nd::array::eval_copy(uint32_t access_flags) const {
 
   const ndt::type &current_tp = get_type();
   const ndt::type &dt = current_tp.get_canonical_type();
-  array result = nd::empty(dt, access_flags);
+  array result = nd::empty(dt);
   if (dt.get_id() == fixed_dim_id) {
     // Reorder strides of output strided dimensions in a KEEPORDER fashion
     dt.extended<ndt::fixed_dim_type>()->reorder_default_constructed_strides(result.get()->metadata(), get_type(),
                                                                             get()->metadata());
   }
   result.assign(*this);
-  return result;
+  if (access_flags == result.get_flags()) {
+    return result;
+  }
+
+  // The copy is only handed out with the requested access
+  array restricted = make_array(dt, result.data(), result, access_flags);
+  if (!dt.is_builtin()) {
+    dt.extended()->arrmeta_copy_construct(restricted.get()->metadata(), result.get()->metadata(), result);
+  }
+  return restricted;
 }
 
 nd::array nd::array::to_host() const {
diff --git a/src/dynd/callables/base_callable.cpp b/src/dynd/callables/base_callable.cpp
index 4d42c42..9981dde 100644
--- a/src/dynd/callables/base_callable.cpp
+++ b/src/dynd/callables/base_callable.cpp
@@ -73,6 +73,10 @@ void nd::base_callable::call(const ndt::type &dst_tp, const char *dst_arrmeta, a
   kernel_builder kb(cg.get());
   kb(kernel_request_call, nullptr, dst_arrmeta, nsrc, src_arrmeta);
 
+  if (!(dst->get_flags() & write_access_flag)) {
+    throw std::runtime_error("tried to write to a dynd array that is not writable");
+  }
+
   kernel_call_t fn = kb.get()->get_function<kernel_call_t>();
   fn(kb.get(), dst, src);
 }
-- 
2.43.0


From cfe0be70ec724e6752d6813718bb44f8111d1624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 73/99] fix: float16 truth value and negation were wrong for
 most values

---
 include/dynd/float16.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dynd/float16.hpp b/include/dynd/float16.hpp
index d4f320c..430426d 100644
--- a/include/dynd/float16.hpp
+++ b/include/dynd/float16.hpp
@@ -202,9 +202,9 @@ public:
 
   float16 operator-() const { return float16(-static_cast<float>(*this)); }
 
-  bool operator!() const { return (0x7fffu | m_bits) == 0; }
+  bool operator!() const { return (0x7fffu & m_bits) == 0; }
 
-  explicit operator bool() const { return (0x7ffu | m_bits) != 0; }
+  explicit operator bool() const { return (0x7fffu & m_bits) != 0; }
 };
 
 inline float16 operator+(const float16 &DYND_UNUSED(lhs), const float16 &DYND_UNUSED(rhs))
-- 
2.43.0


From 4899ef97b2da9cf27581f36985445e272d256683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 74/99] fix: int128 +=, borrow of -, sign of conversions to
 float and product of the lowest value

---
 include/dynd/int128.hpp |  9 ++++-----
 src/dynd/int128.cpp     | 28 ++++++++++++----------------
 2 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/include/dynd/int128.hpp b/include/dynd/int128.hpp
index d815039..c3e475d 100644
--- a/include/dynd/int128.hpp
+++ b/include/dynd/int128.hpp
@@ -93,7 +93,7 @@ public:
   int128 &operator+=(const int128 &rhs)
   {
     uint64_t lo = m_lo + rhs.m_lo;
-    *this = int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    *this = int128(m_hi + rhs.m_hi + (lo < m_lo), lo);
 
     return *this;
   }
@@ -114,8 +114,7 @@ public:
 
   int128 operator-(const int128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return int128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    return int128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), m_lo - rhs.m_lo);
   }
 
   int128 operator*(uint32_t rhs) const;
@@ -128,7 +127,7 @@ public:
   {
     if (*this < int128(0)) {
       int128 tmp = -(*this);
-      return tmp.m_lo + tmp.m_hi * 18446744073709551616.f;
+      return -(tmp.m_lo + tmp.m_hi * 18446744073709551616.f);
     }
     else {
       return m_lo + m_hi * 18446744073709551616.f;
@@ -139,7 +138,7 @@ public:
   {
     if (*this < int128(0)) {
       int128 tmp = -(*this);
-      return tmp.m_lo + tmp.m_hi * 18446744073709551616.0;
+      return -(tmp.m_lo + tmp.m_hi * 18446744073709551616.0);
     }
     else {
       return m_lo + m_hi * 18446744073709551616.0;
diff --git a/src/dynd/int128.cpp b/src/dynd/int128.cpp
index 9f6c140..f49a2ac 100644
--- a/src/dynd/int128.cpp
+++ b/src/dynd/int128.cpp
@@ -62,7 +62,7 @@ dynd::int128::int128(const uint128 &value) : m_lo(value.m_lo), m_hi(value.m_hi)
 #endif
 
 dynd::int128::int128(const float16 &value)
-    : m_lo((int64_t)value), m_hi(value.signbit_() ? 0xffffffffffffffffULL : 0UL)
+    : m_lo((int64_t)value), m_hi((int64_t)value < 0 ? 0xffffffffffffffffULL : 0ULL)
 {
 }
 
@@ -75,21 +75,17 @@ dynd::int128::int128(const float128 &DYND_UNUSED(value))
 
 int128 dynd::int128::operator*(uint32_t rhs) const
 {
-  if ((int64_t)m_hi < 0) {
-    // TODO: fix case for minimum int, which will recurse forever
-    return -(-(*this) * rhs);
-  } else {
-    // Split the multiplication into three
-    // First product
-    uint64_t lo_partial = (m_lo & 0x00000000ffffffffULL) * rhs;
-    // Second product
-    uint64_t tmp = ((m_lo & 0xffffffff00000000ULL) >> 32) * rhs;
-    uint64_t lo = lo_partial + (tmp << 32);
-    uint64_t hi = (tmp >> 32) + (lo < lo_partial);
-    // Third product
-    hi += m_hi * rhs;
-    return int128(hi, lo);
-  }
+  // In two's complement this is the product of negative values too
+  // Split the multiplication into three
+  // First product
+  uint64_t lo_partial = (m_lo & 0x00000000ffffffffULL) * rhs;
+  // Second product
+  uint64_t tmp = ((m_lo & 0xffffffff00000000ULL) >> 32) * rhs;
+  uint64_t lo = lo_partial + (tmp << 32);
+  uint64_t hi = (tmp >> 32) + (lo < lo_partial);
+  // Third product
+  hi += m_hi * rhs;
+  return int128(hi, lo);
 }
 
 /*
-- 
2.43.0


From 531818d2c90a07dc3681dd353f0b282041a8633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 75/99] fix: uint128 from negative numbers, unary -, ! and
 borrow of -

---
 include/dynd/uint128.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/dynd/uint128.hpp b/include/dynd/uint128.hpp
index 45ba2dd..2c21a57 100644
--- a/include/dynd/uint128.hpp
+++ b/include/dynd/uint128.hpp
@@ -28,16 +28,16 @@ public:
 
   uint128(bool1) { throw std::runtime_error("uint128(bool1) is not implemented"); }
 
-  uint128(char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(signed char value) : m_lo(value), m_hi(0ULL) {}
+  uint128(char value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
+  uint128(signed char value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned char value) : m_lo(value), m_hi(0ULL) {}
-  uint128(short value) : m_lo(value), m_hi(0ULL) {}
+  uint128(short value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned short value) : m_lo(value), m_hi(0ULL) {}
-  uint128(int value) : m_lo(value), m_hi(0ULL) {}
+  uint128(int value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned int value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long value) : m_lo(value), m_hi(0ULL) {}
-  uint128(long long value) : m_lo(value), m_hi(0ULL) {}
+  uint128(long long value) : m_lo(value), m_hi(value < 0 ? 0xffffffffffffffffULL : 0ULL) {}
   uint128(unsigned long long value) : m_lo(value), m_hi(0ULL) {}
   uint128(float value);
   uint128(double value);
@@ -59,7 +59,7 @@ public:
   {
     DYND_ALLOW_UNSIGNED_UNARY_MINUS
     if (this->m_lo != 0) {
-      return uint128(!this->m_hi, -this->m_lo);
+      return uint128(~this->m_hi, -this->m_lo);
     }
     else {
       return uint128(-this->m_hi, 0);
@@ -67,7 +67,7 @@ public:
     DYND_END_ALLOW_UNSIGNED_UNARY_MINUS
   }
 
-  bool operator!() const { return (m_hi != 0) && (m_lo != 0); }
+  bool operator!() const { return (m_hi == 0) && (m_lo == 0); }
 
   uint128 operator~() const { return uint128(~m_hi, ~m_lo); }
 
@@ -111,14 +111,12 @@ public:
 
   uint128 operator-(const uint128 &rhs) const
   {
-    uint64_t lo = m_lo + ~rhs.m_lo + 1;
-    return uint128(m_hi + ~rhs.m_hi + (lo < m_lo), lo);
+    return uint128(m_hi - rhs.m_hi - (m_lo < rhs.m_lo), m_lo - rhs.m_lo);
   }
 
   uint128 operator-(uint64_t rhs) const
   {
-    uint64_t lo = m_lo + ~rhs + 1;
-    return uint128(m_hi + 0xffffffffffffffffULL + (lo < m_lo), lo);
+    return uint128(m_hi - (m_lo < rhs), m_lo - rhs);
   }
 
   uint128 operator*(uint32_t rhs) const;
-- 
2.43.0


From b84dd66149f78298fa15f2f88d0f6a4b56038b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 76/99] fix: struct assignment permuted the fields' metadata
 twice and took no more than 8 fields

---
 include/dynd/callables/assign_callable.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index 7f89c16..ce5d549 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -687,8 +687,8 @@ namespace nd {
         throw type_error(ss.str());
       }
 
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
-      std::array<uintptr_t, 8> src_arrmeta_offsets;
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> src_arrmeta_offsets(field_count);
       for (int i = 0; i < field_count; ++i) {
         src_arrmeta_offsets[i] = src_sd->get_arrmeta_offsets()[i];
         dst_arrmeta_offsets[i] = dst_sd->get_arrmeta_offsets()[i];
@@ -748,9 +748,9 @@ namespace nd {
       const ndt::struct_type *dst_sd = dst_tp.extended<ndt::struct_type>();
       const ndt::struct_type *src_sd = src_tp[0].extended<ndt::struct_type>();
       intptr_t field_count = dst_sd->get_field_count();
-      std::array<intptr_t, 8> src_permutation;
-      std::array<uintptr_t, 8> src_fields_arrmeta_offsets;
-      std::array<uintptr_t, 8> dst_arrmeta_offsets;
+      std::vector<intptr_t> src_permutation(field_count);
+      std::vector<uintptr_t> src_fields_arrmeta_offsets(field_count);
+      std::vector<uintptr_t> dst_arrmeta_offsets(field_count);
 
       if (field_count != src_sd->get_field_count()) {
         std::stringstream ss;
@@ -796,7 +796,7 @@ namespace nd {
         for (intptr_t i = 0; i != field_count; ++i) {
           intptr_t src_i = src_permutation[i];
           src_data_offsets[i] = src_data_offsets_orig[src_i];
-          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[src_i];
+          src_fields_arrmeta[i] = src_arrmeta[0] + src_fields_arrmeta_offsets[i];
         }
 
         shortvector<const char *> dst_fields_arrmeta(field_count);
-- 
2.43.0


From b7339922494d4f5864433d5a1e31d5598824ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 77/99] fix: comparing records used the first one's metadata
 for both, ignored their field counts and failed in arrays

---
 include/dynd/callables/equal_callable.hpp     | 38 +++++++++++--------
 include/dynd/callables/not_equal_callable.hpp | 38 +++++++++++--------
 2 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/include/dynd/callables/equal_callable.hpp b/include/dynd/callables/equal_callable.hpp
index 92ab234..ea5d17b 100644
--- a/include/dynd/callables/equal_callable.hpp
+++ b/include/dynd/callables/equal_callable.hpp
@@ -32,13 +32,16 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::tuple_type>()->get_field_count())) {
+        std::stringstream ss;
+        ss << "cannot compare dynd " << src_tp[0] << " with " << src_tp[1]
+           << " because they have different numbers of fields";
+        throw type_error(ss.str());
       }
 
+      std::vector<uintptr_t> arrmeta_offsets[2] = {src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets(),
+                                                   src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets()};
+
       cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
@@ -60,9 +63,9 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + arrmeta_offsets[0][i],
+                                              src_arrmeta[1] + arrmeta_offsets[1][i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
@@ -88,13 +91,16 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::struct_type>()->get_field_count())) {
+        std::stringstream ss;
+        ss << "cannot compare dynd " << src_tp[0] << " with " << src_tp[1]
+           << " because they have different numbers of fields";
+        throw type_error(ss.str());
       }
 
+      std::vector<uintptr_t> arrmeta_offsets[2] = {src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets(),
+                                                   src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets()};
+
       cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
@@ -116,9 +122,9 @@ namespace nd {
           e = kb.get_at<equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + arrmeta_offsets[0][i],
+                                              src_arrmeta[1] + arrmeta_offsets[1][i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
diff --git a/include/dynd/callables/not_equal_callable.hpp b/include/dynd/callables/not_equal_callable.hpp
index 2a9d07c..2425cab 100644
--- a/include/dynd/callables/not_equal_callable.hpp
+++ b/include/dynd/callables/not_equal_callable.hpp
@@ -32,13 +32,16 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::tuple_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::tuple_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::tuple_type>()->get_field_count())) {
+        std::stringstream ss;
+        ss << "cannot compare dynd " << src_tp[0] << " with " << src_tp[1]
+           << " because they have different numbers of fields";
+        throw type_error(ss.str());
       }
 
+      std::vector<uintptr_t> arrmeta_offsets[2] = {src_tp[0].extended<ndt::tuple_type>()->get_arrmeta_offsets(),
+                                                   src_tp[1].extended<ndt::tuple_type>()->get_arrmeta_offsets()};
+
       cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
@@ -60,9 +63,9 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::tuple_type, ndt::tuple_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + arrmeta_offsets[0][i],
+                                              src_arrmeta[1] + arrmeta_offsets[1][i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
@@ -88,13 +91,16 @@ namespace nd {
                       const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp, size_t nkwd,
                       const array *kwds, const std::map<std::string, ndt::type> &tp_vars) {
       size_t field_count = src_tp[0].extended<ndt::struct_type>()->get_field_count();
-
-      auto bsd = src_tp->extended<ndt::struct_type>();
-      std::array<uintptr_t, 8> arrmeta_offsets;
-      for (size_t i = 0; i < field_count; ++i) {
-        arrmeta_offsets[i] = bsd->get_arrmeta_offsets()[i];
+      if (field_count != static_cast<size_t>(src_tp[1].extended<ndt::struct_type>()->get_field_count())) {
+        std::stringstream ss;
+        ss << "cannot compare dynd " << src_tp[0] << " with " << src_tp[1]
+           << " because they have different numbers of fields";
+        throw type_error(ss.str());
       }
 
+      std::vector<uintptr_t> arrmeta_offsets[2] = {src_tp[0].extended<ndt::struct_type>()->get_arrmeta_offsets(),
+                                                   src_tp[1].extended<ndt::struct_type>()->get_arrmeta_offsets()};
+
       cg.emplace_back([field_count, arrmeta_offsets](kernel_builder &kb, kernel_request_t kernreq,
                                                      char *DYND_UNUSED(data), const char *dst_arrmeta, size_t nsrc,
                                                      const char *const *src_arrmeta) {
@@ -116,9 +122,9 @@ namespace nd {
           e = kb.get_at<not_equal_kernel<ndt::struct_type, ndt::struct_type>>(self_offset);
           field_kernel_offsets = reinterpret_cast<size_t *>(e + 1);
           field_kernel_offsets[i] = kb.size() - self_offset;
-          const char *field_arrmeta = src_arrmeta[0] + arrmeta_offsets[i];
-          const char *child_src_arrmeta[2] = {field_arrmeta, field_arrmeta};
-          kb(kernreq | kernel_request_data_only, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
+          const char *child_src_arrmeta[2] = {src_arrmeta[0] + arrmeta_offsets[0][i],
+                                              src_arrmeta[1] + arrmeta_offsets[1][i]};
+          kb(kernel_request_single, nullptr, dst_arrmeta, nsrc, child_src_arrmeta);
         }
       });
 
-- 
2.43.0


From f3b16a3b6fdd4e0ca0f1e66e92a1b465f7eddb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 78/99] fix: the types of keywords passed by position were not
 checked

---
 src/dynd/callable.cpp | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index 5cdec25..97e3fe3 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -71,6 +71,21 @@ void nd::detail::check_arg(const base_callable *self, intptr_t i, const ndt::typ
   }
 }
 
+static void check_kwd(const pair<ndt::type, std::string> &kwd_tp, const ndt::type &actual_tp,
+                      std::map<std::string, ndt::type> &tp_vars) {
+  ndt::type expected_tp = kwd_tp.first;
+  if (expected_tp.get_id() == option_id) {
+    expected_tp = expected_tp.extended<ndt::option_type>()->get_value_type();
+  }
+
+  if (!expected_tp.match(actual_tp.value_type(), tp_vars)) {
+    std::stringstream ss;
+    ss << "keyword \"" << kwd_tp.second << "\" does not match, ";
+    ss << "callable expected " << expected_tp << " but passed " << actual_tp;
+    throw std::invalid_argument(ss.str());
+  }
+}
+
 nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
                              const pair<const char *, array> *unordered_kwds) const {
   std::map<std::string, ndt::type> tp_vars;
@@ -85,6 +100,8 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
   unique_ptr<const char *[]> args_arrmeta(new const char *[narg]);
   unique_ptr<array[]> kwds(new array[narg + m_ptr->get_nkwd()]);
 
+  const std::vector<std::pair<ndt::type, std::string>> kwd_tp = m_ptr->get_kwd_types();
+
   size_t j = 0;
   if (m_ptr->is_arg_variadic()) {
     for (size_t i = 0; i < narg; ++i) {
@@ -108,13 +125,15 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
     }
 
     for (; narg > m_ptr->get_narg(); ++i, --narg, ++j, ++nkwd) {
+      if (j < kwd_tp.size()) {
+        check_kwd(kwd_tp[j], args[i].get_type(), tp_vars);
+      }
       kwds[j] = args[i];
     }
   }
 
   array dst;
 
-  const std::vector<std::pair<ndt::type, std::string>> kwd_tp = m_ptr->get_kwd_types();
   for (; j < nkwd; ++j, ++unordered_kwds) {
     intptr_t k = m_ptr->get_kwd_index(unordered_kwds->first);
 
@@ -135,18 +154,7 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
       }
       value = unordered_kwds->second;
 
-      ndt::type expected_tp = kwd_tp[k].first;
-      if (expected_tp.get_id() == option_id) {
-        expected_tp = expected_tp.extended<ndt::option_type>()->get_value_type();
-      }
-
-      const ndt::type &actual_tp = value.get_type();
-      if (!expected_tp.match(actual_tp.value_type(), tp_vars)) {
-        std::stringstream ss;
-        ss << "keyword \"" << kwd_tp[k].second << "\" does not match, ";
-        ss << "callable expected " << expected_tp << " but passed " << actual_tp;
-        throw std::invalid_argument(ss.str());
-      }
+      check_kwd(kwd_tp[k], value.get_type(), tp_vars);
     }
   }
 
-- 
2.43.0


From bf163ec9576e13f99bdf1792e971d4d0a096389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:39 +0000
Subject: [PATCH 79/99] fix: a missing keyword went unnoticed when a
 destination was given

---
 src/dynd/callable.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynd/callable.cpp b/src/dynd/callable.cpp
index 97e3fe3..f9f3f6b 100644
--- a/src/dynd/callable.cpp
+++ b/src/dynd/callable.cpp
@@ -3,6 +3,8 @@
 // BSD 2-Clause License, see LICENSE.txt
 //
 
+#include <algorithm>
+
 #include <dynd/arithmetic.hpp>
 #include <dynd/assignment.hpp>
 #include <dynd/comparison.hpp>
@@ -179,7 +181,7 @@ nd::array nd::callable::call(size_t narg, const array *args, size_t nkwd,
     }
   }
 
-  if (nkwd < m_ptr->get_nkwd()) {
+  if (any_of(kwds.get(), kwds.get() + m_ptr->get_nkwd(), [](const array &kwd) { return kwd.is_null(); })) {
     std::stringstream ss;
     // TODO: Provide the missing keyword parameter names in this error
     //       message
-- 
2.43.0


From 75703f21a2e455c52a467ae160b24a43abe24c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 80/99] fix: a slice of tuple or struct fields followed by more
 indices used the wrong fields' metadata

---
 src/dynd/types/struct_type.cpp | 10 +++++-----
 src/dynd/types/tuple_type.cpp  | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/dynd/types/struct_type.cpp b/src/dynd/types/struct_type.cpp
index 09f9b35..3df386b 100644
--- a/src/dynd/types/struct_type.cpp
+++ b/src/dynd/types/struct_type.cpp
@@ -264,12 +264,12 @@ intptr_t ndt::struct_type::apply_linear_index(intptr_t nindices, const irange *i
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &dt = result_e_dt->get_field_type(i);
+        const type &dt = get_field_type(idx);
         if (!dt.is_builtin()) {
-          out_offsets[i] +=
-              dt.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], dt,
-                                                out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
-                                                current_i + 1, root_tp, false, NULL, tmp);
+          out_offsets[i] += dt.extended()->apply_linear_index(
+              nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], result_e_dt->get_field_type(i),
+              out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference, current_i + 1, root_tp, false, NULL,
+              tmp);
         }
       }
       return 0;
diff --git a/src/dynd/types/tuple_type.cpp b/src/dynd/types/tuple_type.cpp
index 09485bd..fc2ace9 100644
--- a/src/dynd/types/tuple_type.cpp
+++ b/src/dynd/types/tuple_type.cpp
@@ -171,12 +171,12 @@ intptr_t ndt::tuple_type::apply_linear_index(intptr_t nindices, const irange *in
       for (intptr_t i = 0; i < dimension_size; ++i) {
         intptr_t idx = start_index + i * index_stride;
         out_offsets[i] = offsets[idx];
-        const type &ft = result_e_dt->get_field_type(i);
+        const type &ft = get_field_type(idx);
         if (!ft.is_builtin()) {
-          out_offsets[i] +=
-              ft.extended()->apply_linear_index(nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], ft,
-                                                out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference,
-                                                current_i + 1, root_tp, false, NULL, tmp);
+          out_offsets[i] += ft.extended()->apply_linear_index(
+              nindices - 1, indices + 1, arrmeta + m_arrmeta_offsets[idx], result_e_dt->get_field_type(i),
+              out_arrmeta + result_e_dt->get_arrmeta_offset(i), embedded_reference, current_i + 1, root_tp, false, NULL,
+              tmp);
         }
       }
       return 0;
-- 
2.43.0


From 685d5e478b26d472cb9c86a725e2a58cd7c3c26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 81/99] fix: indexing a var dimension behind another ignored
 its offset and read before the data for a negative index

---
 src/dynd/types/var_dim_type.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dynd/types/var_dim_type.cpp b/src/dynd/types/var_dim_type.cpp
index fbaba7e..cb4a1bc 100644
--- a/src/dynd/types/var_dim_type.cpp
+++ b/src/dynd/types/var_dim_type.cpp
@@ -167,7 +167,12 @@ intptr_t ndt::var_dim_type::apply_linear_index(intptr_t nindices, const irange *
         // sliced<> type
         pointer_type_arrmeta *out_md = reinterpret_cast<pointer_type_arrmeta *>(out_arrmeta);
         out_md->blockref = md->blockref ? md->blockref : embedded_reference;
-        out_md->offset = indices->start() * md->stride;
+        if (indices->start() < 0) {
+          // The size, which this is relative to, is not the same for all elements
+          throw runtime_error("TODO: implement var_dim_type::apply_linear_index for "
+                              "negative indices of a non-leading dimension");
+        }
+        out_md->offset = md->offset + indices->start() * md->stride;
         if (!m_element_tp.is_builtin()) {
           const pointer_type *result_etp = result_tp.extended<pointer_type>();
           out_md->offset += m_element_tp.extended()->apply_linear_index(
-- 
2.43.0


From 29e8d3b98422b7d7daf98b16d5231d94ef9ae71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 82/99] fix: the type and the metadata of an indexed pointer
 disagreed

---
 src/dynd/types/pointer_type.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/pointer_type.cpp b/src/dynd/types/pointer_type.cpp
index 52bea5a..d7f6d4c 100644
--- a/src/dynd/types/pointer_type.cpp
+++ b/src/dynd/types/pointer_type.cpp
@@ -57,11 +57,12 @@ const ndt::type &ndt::pointer_type::get_operand_type() const {
 }
 
 ndt::type ndt::pointer_type::apply_linear_index(intptr_t nindices, const irange *indices, size_t current_i,
-                                                const type &root_tp, bool leading_dimension) const {
+                                                const type &root_tp, bool DYND_UNUSED(leading_dimension)) const {
   if (nindices == 0) {
     return type(this, true);
   } else {
-    type dt = m_target_tp.apply_linear_index(nindices, indices, current_i, root_tp, leading_dimension);
+    // As in the arrmeta version below, the target is not collapsed
+    type dt = m_target_tp.apply_linear_index(nindices, indices, current_i, root_tp, false);
     if (dt == m_target_tp) {
       return type(this, true);
     } else {
-- 
2.43.0


From 885af00ccc3d062af82e35a70835cb32bd999221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 83/99] fix: ranges with no elements, fractional steps,
 overflowing counts or no step given

---
 include/dynd/callables/range_callable.hpp | 22 ++++++++++++++++------
 src/dynd/array_range.cpp                  |  8 ++++----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/dynd/callables/range_callable.hpp b/include/dynd/callables/range_callable.hpp
index 329c05a..9f9eebc 100644
--- a/include/dynd/callables/range_callable.hpp
+++ b/include/dynd/callables/range_callable.hpp
@@ -37,7 +37,7 @@ namespace nd {
       if (kwds[0].is_na()) {
         start = 0;
         stop = kwds[1].as<ReturnElementType>();
-        step = kwds[2].as<ReturnElementType>();
+        step = kwds[2].is_na() ? 1 : kwds[2].as<ReturnElementType>();
       } else {
         if (kwds[1].is_na() && kwds[2].is_na()) {
           start = 0;
@@ -67,15 +67,18 @@ namespace nd {
         if (stop <= start) {
           return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
         } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step - 1) / step),
-                                                     ndt::make_type<ReturnElementType>());
+          // Unsigned, as the difference may not fit in the signed type
+          return ndt::make_type<ndt::fixed_dim_type>(
+              (static_cast<size_t>(stop) - static_cast<size_t>(start) - 1) / static_cast<size_t>(step) + 1,
+              ndt::make_type<ReturnElementType>());
         }
       } else if (step < 0) {
         if (stop >= start) {
           return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
         } else {
-          return ndt::make_type<ndt::fixed_dim_type>(static_cast<size_t>((stop - start + step + 1) / step),
-                                                     ndt::make_type<ReturnElementType>());
+          return ndt::make_type<ndt::fixed_dim_type>(
+              (static_cast<size_t>(start) - static_cast<size_t>(stop) - 1) / (0 - static_cast<size_t>(step)) + 1,
+              ndt::make_type<ReturnElementType>());
         }
       } else {
         throw std::runtime_error("");
@@ -105,7 +108,7 @@ namespace nd {
       if (kwds[0].is_na()) {
         start = 0;
         stop = kwds[1].as<ReturnElementType>();
-        step = kwds[2].as<ReturnElementType>();
+        step = kwds[2].is_na() ? 1 : kwds[2].as<ReturnElementType>();
       } else {
         if (kwds[1].is_na() && kwds[2].is_na()) {
           start = 0;
@@ -131,6 +134,13 @@ namespace nd {
             reinterpret_cast<const ndt::fixed_dim_type::metadata_type *>(ret_metadata)->stride);
       });
 
+      if (step == 0) {
+        throw std::runtime_error("nd::range cannot have a zero-sized step");
+      }
+      if (step > 0 ? stop <= start : stop >= start) {
+        return ndt::make_type<ndt::fixed_dim_type>(0, ndt::make_type<ReturnElementType>());
+      }
+
       size_t size = static_cast<size_t>(floor((stop - start + static_cast<ReturnElementType>(0.5) * step) / step));
       return ndt::make_type<ndt::fixed_dim_type>(size, ndt::make_type<ReturnElementType>());
     }
diff --git a/src/dynd/array_range.cpp b/src/dynd/array_range.cpp
index 5842e29..b51a561 100644
--- a/src/dynd/array_range.cpp
+++ b/src/dynd/array_range.cpp
@@ -54,13 +54,13 @@ struct range_counter {
       if (end <= begin) {
         return 0;
       }
-      return ((intptr_t)end - (intptr_t)begin + (intptr_t)step - 1) / (intptr_t)step;
+      // Unsigned, as the difference may not fit in the signed type
+      return ((size_t)(intptr_t)end - (size_t)(intptr_t)begin - 1) / (size_t)(intptr_t)step + 1;
     } else if (step < 0) {
       if (end >= begin) {
         return 0;
       }
-      step = -step;
-      return ((intptr_t)begin - (intptr_t)end + (intptr_t)step - 1) / (intptr_t)step;
+      return ((size_t)(intptr_t)begin - (size_t)(intptr_t)end - 1) / (0 - (size_t)(intptr_t)step) + 1;
     } else {
       throw std::runtime_error("nd::range cannot have a zero-sized step");
     }
@@ -78,7 +78,7 @@ struct range_counter<T, std::enable_if_t<is_unsigned_integral<T>::value>> {
       if (end <= begin) {
         return 0;
       }
-      return ((intptr_t)end - (intptr_t)begin + (intptr_t)step - 1) / (intptr_t)step;
+      return ((size_t)end - (size_t)begin - 1) / (size_t)step + 1;
     } else {
       throw std::runtime_error("nd::range cannot have a zero-sized step");
     }
-- 
2.43.0


From 2c86e5ded50a44b15c0c60d8f5027760c5850dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 84/99] fix: a summarised array lost a separator or an element

---
 src/dynd/type.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index 3b2793a..b48a52d 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -659,7 +659,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     summarize_stats(leading.back(), num_rows, max_num_cols);
   }
   // Get trailing strings
-  for (itrail = max(dim_size - trailing_count, ilead + 1); itrail < dim_size; ++itrail) {
+  for (itrail = max(dim_size - trailing_count, ilead); itrail < dim_size; ++itrail) {
     stringstream ss;
     tp.print_data(ss, arrmeta, data + itrail * stride);
     trailing.push_back(ss.str());
@@ -694,6 +694,8 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
     if (leading.size() != (size_t)dim_size) {
       if ((size_t)dim_size > (leading.size() + trailing.size())) {
         o << ",\n ...\n";
+      } else {
+        o << ",\n";
       }
       if (!trailing.empty()) {
         print_indented(o, " ", trailing.front());
@@ -750,7 +752,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
       for (j = 1; j < per_row && i < i_size; ++j, ++i) {
         o << ", " << setw(max_num_cols) << leading[i] << setw(0);
       }
-      if (i < i_size - 1) {
+      if (i < i_size) {
         o << ",\n";
       }
     }
@@ -764,7 +766,7 @@ void dynd::strided_array_summarized(std::ostream &o, const ndt::type &tp, const
         for (j = 1; j < per_row && i < i_size; ++j, ++i) {
           o << ", " << setw(max_num_cols) << trailing[i] << setw(0);
         }
-        if (i < i_size - 1) {
+        if (i < i_size) {
           o << ",\n";
         }
       }
-- 
2.43.0


From cfdb666251d95a9a78e31c67e8ba13e2e812a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 85/99] fix: compose accepted functions that do not fit its
 intermediate type

---
 src/dynd/functional.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynd/functional.cpp b/src/dynd/functional.cpp
index 6a8f38b..875e802 100644
--- a/src/dynd/functional.cpp
+++ b/src/dynd/functional.cpp
@@ -52,6 +52,12 @@ nd::callable nd::functional::compose(const nd::callable &first, const nd::callab
                         "type is not implemented");
   }
 
+  if (!first->get_ret_type().match(buf_tp) || !second->get_arg_types()[0].match(buf_tp)) {
+    stringstream ss;
+    ss << "Cannot chain functions " << first << " and " << second << " through the intermediate type " << buf_tp;
+    throw invalid_argument(ss.str());
+  }
+
   /* // TODO: Something like this should work
   map<nd::string, ndt::type> tp_vars;
   second.get_type()->get_pos_type(0).match(first.get_type()->get_return_type(),
-- 
2.43.0


From 219f8e02ef36f9f922fab1883e51b4a02507b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 86/99] fix: outer of arrays that are not fixed dimensions
 crashed, too many arguments were ignored

---
 include/dynd/callables/elwise_entry_callable.hpp | 3 +++
 include/dynd/callables/outer_callable.hpp        | 5 +++++
 include/dynd/callables/outer_entry_callable.hpp  | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/include/dynd/callables/elwise_entry_callable.hpp b/include/dynd/callables/elwise_entry_callable.hpp
index 051cb22..de9efd5 100644
--- a/include/dynd/callables/elwise_entry_callable.hpp
+++ b/include/dynd/callables/elwise_entry_callable.hpp
@@ -80,6 +80,9 @@ namespace nd {
             make_callable<elwise_dispatch_callable<2>>(), make_callable<elwise_dispatch_callable<3>>(),
             make_callable<elwise_dispatch_callable<4>>(), make_callable<elwise_dispatch_callable<5>>(),
             make_callable<elwise_dispatch_callable<6>>(), make_callable<elwise_dispatch_callable<7>>()};
+        if (nsrc >= sizeof(table) / sizeof(table[0])) {
+          throw std::invalid_argument("elwise of a callable of more than 7 arguments is not implemented");
+        }
         return table[nsrc]->resolve(this, reinterpret_cast<char *>(&data), cg, dst_tp, nsrc, src_tp, nkwd, kwds,
                                     tp_vars);
       }
diff --git a/include/dynd/callables/outer_callable.hpp b/include/dynd/callables/outer_callable.hpp
index 0b8982f..24eee23 100644
--- a/include/dynd/callables/outer_callable.hpp
+++ b/include/dynd/callables/outer_callable.hpp
@@ -28,6 +28,11 @@ namespace nd {
         base_callable *child = reinterpret_cast<data_type *>(data)->child;
         size_t &i = reinterpret_cast<data_type *>(data)->i;
 
+        // The kernel reads the size and the stride of a fixed dimension
+        if (src_tp[i].get_id() != fixed_dim_id) {
+          throw std::invalid_argument("outer over a dimension that is not fixed is not implemented");
+        }
+
         cg.emplace_back([i](kernel_builder &kb, kernel_request_t kernreq, char *data, const char *dst_arrmeta,
                             size_t DYND_UNUSED(nsrc), const char *const *src_arrmeta) {
           kb.emplace_back<outer_kernel<NArg>>(kernreq, i, dst_arrmeta, src_arrmeta);
diff --git a/include/dynd/callables/outer_entry_callable.hpp b/include/dynd/callables/outer_entry_callable.hpp
index 94f7c22..b07a37e 100644
--- a/include/dynd/callables/outer_entry_callable.hpp
+++ b/include/dynd/callables/outer_entry_callable.hpp
@@ -34,6 +34,9 @@ namespace nd {
           const size_t &i = reinterpret_cast<data_type *>(data)->i;
 
           if (i < nsrc) {
+            if (nsrc >= sizeof(m_children) / sizeof(m_children[0])) {
+              throw std::invalid_argument("outer of a callable of more than 3 arguments is not implemented");
+            }
             return m_children[nsrc]->resolve(this, data, cg, dst_tp, nsrc, src_tp, nkwd, kwds, tp_vars);
           }
 
-- 
2.43.0


From 53eab2a5290703cd637b2f4fd4caef9f160758da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 87/99] fix: float16 with an integer promoted differently by
 order, var dimensions did not promote with fixed ones

---
 src/dynd/type_promotion.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynd/type_promotion.cpp b/src/dynd/type_promotion.cpp
index 715ae58..df2f0c8 100644
--- a/src/dynd/type_promotion.cpp
+++ b/src/dynd/type_promotion.cpp
@@ -132,11 +132,12 @@ ndt::type dynd::promote_types_arithmetic(const ndt::type &tp0, const ndt::type &
         return tp0_val;
       }
       switch (tp1_val.get_base_id()) {
-      // Integer type sizes don't affect float type sizes
+      // Integer type sizes don't affect float type sizes, except
+      // require at least float32
       case bool_kind_id:
       case int_kind_id:
       case uint_kind_id:
-        return tp0_val;
+        return tp0_val.unchecked_get_builtin_id() != float16_id ? tp0_val : ndt::make_type<float>();
       case float_kind_id:
         return ndt::type(reinterpret_cast<ndt::base_type *>(max(
                              max(tp0_val.unchecked_get_builtin_id(), tp1_val.unchecked_get_builtin_id()), float32_id)),
@@ -223,8 +224,8 @@ ndt::type dynd::promote_types_arithmetic(const ndt::type &tp0, const ndt::type &
   }
 
   // Promote some dimension types
-  if ((tp0_val.get_id() == var_dim_id && tp1_val.get_base_id() == dim_kind_id) ||
-      (tp1_val.get_id() == var_dim_id && tp0_val.get_base_id() == dim_kind_id)) {
+  if ((tp0_val.get_id() == var_dim_id && (tp1_val.get_id() == var_dim_id || tp1_val.get_id() == fixed_dim_id)) ||
+      (tp1_val.get_id() == var_dim_id && tp0_val.get_id() == fixed_dim_id)) {
     return ndt::make_type<ndt::var_dim_type>(
         promote_types_arithmetic(tp0_val.extended<ndt::base_dim_type>()->get_element_type(),
                                  tp1_val.extended<ndt::base_dim_type>()->get_element_type()));
-- 
2.43.0


From 70f9e3e02d3fa632b72d36ddd03538f31d1d5591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 88/99] fix: a pattern with Fixed dimensions read beyond the
 shape of an array with fewer

---
 src/dynd/types/substitute_shape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dynd/types/substitute_shape.cpp b/src/dynd/types/substitute_shape.cpp
index 2bd6c48..eb0d2ac 100644
--- a/src/dynd/types/substitute_shape.cpp
+++ b/src/dynd/types/substitute_shape.cpp
@@ -41,6 +41,9 @@ static void substitute_shape_visitor(const ndt::type &tp, intptr_t DYND_UNUSED(a
   substitute_shape_data *ssd = reinterpret_cast<substitute_shape_data *>(extra);
   intptr_t ndim = ssd->ndim, i = ssd->i;
   if (!tp.is_scalar()) {
+    if (i >= ndim) {
+      ssd->throw_error();
+    }
     intptr_t dim_size = ssd->shape[i];
     ndt::type subtp = tp.extended<ndt::base_dim_type>()->get_element_type();
     if (i + 1 < ndim) {
-- 
2.43.0


From b126469e7cfd352b77fe8648d68d9f42d2f400b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 89/99] fix: arrays of ragged, deep or empty nested containers
 were wrong or crashed

---
 include/dynd/kernels/init_kernel.hpp | 18 ++++--------------
 include/dynd/type.hpp                |  6 ++++++
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/include/dynd/kernels/init_kernel.hpp b/include/dynd/kernels/init_kernel.hpp
index 0758d83..1631088 100644
--- a/include/dynd/kernels/init_kernel.hpp
+++ b/include/dynd/kernels/init_kernel.hpp
@@ -224,7 +224,7 @@ namespace nd {
       void single(char *data, const ContainerType &values) {
         reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin = memblock->alloc(values.size());
         reinterpret_cast<ndt::var_dim_type::data_type *>(data)->size = values.size();
-        child.contiguous(reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin, values.begin(), values.size());
+        child.contiguous(reinterpret_cast<ndt::var_dim_type::data_type *>(data)->begin, front_data(values), values.size());
       }
 
       void contiguous(char *data, const ContainerType *values, size_t size) {
@@ -237,18 +237,8 @@ namespace nd {
 
   } // namespace dynd::nd::detail
 
-  template <typename ContainerType, typename Enable = void>
-  struct container_init;
-
-  template <typename ValueType>
-  struct container_init<std::initializer_list<ValueType>,
-                        std::enable_if_t<ndt::traits<std::initializer_list<ValueType>>::ndim != 1>>
-      : detail::init_kernel<ndt::fixed_dim_type, std::initializer_list<ValueType>> {
-    using detail::init_kernel<ndt::fixed_dim_type, std::initializer_list<ValueType>>::init_kernel;
-  };
-
   template <typename ContainerType>
-  struct container_init<ContainerType, std::enable_if_t<ndt::traits<ContainerType>::ndim == 1>> {
+  struct container_init {
     typedef value_type_t<ContainerType> value_type;
 
     std::aligned_union_t<1, detail::init_kernel<ndt::fixed_dim_type, ContainerType>,
@@ -312,8 +302,8 @@ namespace nd {
   };
 
   template <typename T>
-  struct init_kernel<std::vector<T>> : detail::init_kernel<ndt::fixed_dim_type, std::vector<T>> {
-    using detail::init_kernel<ndt::fixed_dim_type, std::vector<T>>::init_kernel;
+  struct init_kernel<std::vector<T>> : container_init<std::vector<T>> {
+    using container_init<std::vector<T>>::container_init;
   };
 
   template <typename T, T... first, T... second>
diff --git a/include/dynd/type.hpp b/include/dynd/type.hpp
index 6f92e37..8fb6e22 100644
--- a/include/dynd/type.hpp
+++ b/include/dynd/type.hpp
@@ -5,6 +5,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 
@@ -1013,6 +1014,11 @@ namespace ndt {
     static void shape(intptr_t *res, const ContainerType &values) {
       res[0] = values.size();
 
+      if (values.size() == 0) {
+        std::fill(res + 1, res + ndim, 0);
+        return;
+      }
+
       auto iter = values.begin();
       ndt::traits<typename ContainerType::value_type>::shape(res + 1, *iter);
 
-- 
2.43.0


From 4ff4daa9554749b97ce6875077e836db19279a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:05 +0000
Subject: [PATCH 90/99] fix: exact equality of ragged arrays and concatenation
 with an empty array threw

---
 src/dynd/array.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 90668cf..5eb314f 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -308,11 +308,18 @@ bool nd::array::equals_exact(const array &rhs) const {
     return false;
   } else if (get_ndim() == 0) {
     return (*this == rhs).as<bool>();
-  } else if (get_type().get_id() == var_dim_id) {
-    // If there's a leading var dimension, convert it to strided and compare
-    // (Note: this is an inefficient hack)
-    ndt::type tp = ndt::make_fixed_dim(get_shape()[0], get_type().extended<ndt::base_dim_type>()->get_element_type());
-    return nd::old_view(*this, tp).equals_exact(nd::old_view(rhs, tp));
+  } else if (get_type().get_strided_ndim() < get_ndim()) {
+    // If there's a var dimension, compare the elements one by one
+    intptr_t size = get_dim_size();
+    if (rhs.get_dim_size() != size) {
+      return false;
+    }
+    for (intptr_t i = 0; i < size; ++i) {
+      if (!(*this)(i).equals_exact(rhs(i))) {
+        return false;
+      }
+    }
+    return true;
   } else {
     // First compare the shape, to avoid triggering an exception in common cases
     size_t ndim = get_ndim();
@@ -857,8 +864,12 @@ nd::array nd::concatenate(const nd::array &x, const nd::array &y) {
   }
 
   nd::array res = nd::empty(x.get_dim_size() + y.get_dim_size(), x.get_dtype());
-  res(irange(0, x.get_dim_size())).assign(x);
-  res(irange(x.get_dim_size(), res.get_dim_size())).assign(y);
+  if (x.get_dim_size() > 0) {
+    res(irange(0, x.get_dim_size())).assign(x);
+  }
+  if (y.get_dim_size() > 0) {
+    res(irange(x.get_dim_size(), res.get_dim_size())).assign(y);
+  }
 
   return res;
 }
-- 
2.43.0


From b9f9eff8416e1726d69ae85455df16334d7797d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:03 +0000
Subject: [PATCH 91/99] fix: C ABI type constructors recorded the release
 function and allocation in the wrong place, so the last dynd_decref crashed

---
 src/dynd/abi/metadata.c       | 3 ++-
 src/dynd/abi/types/dense.cpp  | 5 +++++
 src/dynd/abi/types/sparse.cpp | 5 +++++
 src/dynd/abi/types/tuple.cpp  | 8 +++++++-
 4 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/dynd/abi/metadata.c b/src/dynd/abi/metadata.c
index db5fb8f..9eb1ff8 100644
--- a/src/dynd/abi/metadata.c
+++ b/src/dynd/abi/metadata.c
@@ -11,5 +11,6 @@ DYND_ABI_EXPORT dynd_buffer *dynd_malloc_buffer(dynd_size_t size) dynd_noexcept
 }
 
 DYND_ABI_EXPORT void dynd_release_malloc_allocated(dynd_resource* resource) dynd_noexcept {
-  free(resource);
+  // The allocation info directly follows the resource struct in every layout.
+  free(((dynd_buffer*)resource)->allocated.base_ptr);
 }
diff --git a/src/dynd/abi/types/dense.cpp b/src/dynd/abi/types/dense.cpp
index 286d17b..60585fb 100644
--- a/src/dynd/abi/types/dense.cpp
+++ b/src/dynd/abi/types/dense.cpp
@@ -60,6 +60,11 @@ static dynd_type *make_dense(dynd_type_constructor_header *, dynd_type_range par
   // out of the box.
   dynd_type_dense_concrete *buffer = reinterpret_cast<dynd_type_dense_concrete*>(dynd_malloc_buffer(sizeof(dynd_type_dense_concrete)));
   dynd_atomic_store(&(buffer->prefix.refcount.refcount), dynd_size_t(1u), dynd_memory_order_relaxed);
+  // dynd_malloc_buffer fills in the start of the block as a plain buffer: a type keeps its
+  // release function and allocation info after the reference count.
+  buffer->prefix.refcount.resource.release = &dynd_release_malloc_allocated;
+  buffer->prefix.header.allocated.base_ptr = buffer;
+  buffer->prefix.header.allocated.size = sizeof(dynd_type_dense_concrete);
   // These will likely be never used, but initialize them correctly anyway.
   buffer->prefix.header.vtable = reinterpret_cast<dynd_type_vtable*>(&dense_vtable);
   buffer->prefix.header.constructor = reinterpret_cast<dynd_type_constructor*>(&dynd_type_dense);
diff --git a/src/dynd/abi/types/sparse.cpp b/src/dynd/abi/types/sparse.cpp
index 081f4fe..1aa0ab2 100644
--- a/src/dynd/abi/types/sparse.cpp
+++ b/src/dynd/abi/types/sparse.cpp
@@ -60,6 +60,11 @@ static dynd_type *make_sparse(dynd_type_constructor_header *, dynd_type_range pa
   // out of the box.
   dynd_type_sparse_concrete *buffer = reinterpret_cast<dynd_type_sparse_concrete*>(dynd_malloc_buffer(sizeof(dynd_type_sparse_concrete)));
   dynd_atomic_store(&(buffer->prefix.refcount.refcount), dynd_size_t(1u), dynd_memory_order_relaxed);
+  // dynd_malloc_buffer fills in the start of the block as a plain buffer: a type keeps its
+  // release function and allocation info after the reference count.
+  buffer->prefix.refcount.resource.release = &dynd_release_malloc_allocated;
+  buffer->prefix.header.allocated.base_ptr = buffer;
+  buffer->prefix.header.allocated.size = sizeof(dynd_type_sparse_concrete);
   // These will likely be never used, but initialize them correctly anyway.
   buffer->prefix.header.vtable = reinterpret_cast<dynd_type_vtable*>(&sparse_vtable);
   buffer->prefix.header.constructor = reinterpret_cast<dynd_type_constructor*>(&dynd_type_sparse);
diff --git a/src/dynd/abi/types/tuple.cpp b/src/dynd/abi/types/tuple.cpp
index 574c205..1990fa8 100644
--- a/src/dynd/abi/types/tuple.cpp
+++ b/src/dynd/abi/types/tuple.cpp
@@ -58,8 +58,14 @@ extern DYND_ABI_EXPORT dynd_type_tuple_impl dynd_type_tuple;
 
 static dynd_type *make_tuple(dynd_type_constructor_header *, dynd_type_range parameters) noexcept {
   dynd_size_t num_entries = std::distance(parameters.begin, parameters.end);
-  dynd_type_tuple_concrete_header *buffer = reinterpret_cast<dynd_type_tuple_concrete_header*>(dynd_malloc_buffer(sizeof(dynd_type_tuple_concrete_header) + 8 * num_entries));
+  dynd_size_t size = sizeof(dynd_type_tuple_concrete_header) + 8 * num_entries;
+  dynd_type_tuple_concrete_header *buffer = reinterpret_cast<dynd_type_tuple_concrete_header*>(dynd_malloc_buffer(size));
   dynd_atomic_store(&(buffer->prefix.refcount.refcount), dynd_size_t(1u), dynd_memory_order_relaxed);
+  // dynd_malloc_buffer fills in the start of the block as a plain buffer: a type keeps its
+  // release function and allocation info after the reference count.
+  buffer->prefix.refcount.resource.release = &dynd_release_malloc_allocated;
+  buffer->prefix.header.allocated.base_ptr = buffer;
+  buffer->prefix.header.allocated.size = size;
   // These will likely be never used, but initialize them correctly anyway.
   buffer->prefix.header.vtable = reinterpret_cast<dynd_type_vtable*>(&tuple_vtable);
   buffer->prefix.header.constructor = reinterpret_cast<dynd_type_constructor*>(&dynd_type_tuple);
-- 
2.43.0


From 6ad467e410134757a37072704b59b85fe48d4d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:03 +0000
Subject: [PATCH 92/99] fix: with_replaced_dtype keeping more dimensions than
 the type has crashed instead of raising a type error

---
 src/dynd/type.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynd/type.cpp b/src/dynd/type.cpp
index b48a52d..194577a 100644
--- a/src/dynd/type.cpp
+++ b/src/dynd/type.cpp
@@ -273,6 +273,12 @@ static void replace_dtype(const ndt::type &tp, intptr_t DYND_UNUSED(arrmeta_offs
 } // anonymous namespace
 
 ndt::type ndt::type::with_replaced_dtype(const ndt::type &replacement_tp, intptr_t replace_ndim) const {
+  if (replace_ndim < 0 || replace_ndim > get_ndim()) {
+    std::stringstream ss;
+    ss << "Cannot replace a dtype with " << replace_ndim << " array dimensions in dynd type " << *this << ", it only has "
+       << get_ndim();
+    throw dynd::type_error(ss.str());
+  }
   ndt::type result;
   bool was_transformed;
   replace_dtype_extra extra(replacement_tp, replace_ndim);
-- 
2.43.0


From 6f4184a93ab6826eca3666e3f0aab3326561057a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:03 +0000
Subject: [PATCH 93/99] fix: assigning an option to a plain type was called
 lossless

---
 src/dynd/types/option_type.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dynd/types/option_type.cpp b/src/dynd/types/option_type.cpp
index e8553f4..901e03a 100644
--- a/src/dynd/types/option_type.cpp
+++ b/src/dynd/types/option_type.cpp
@@ -163,9 +163,11 @@ ndt::type ndt::option_type::get_type_at_dimension(char **inout_arrmeta, intptr_t
 
 bool ndt::option_type::is_lossless_assignment(const type &dst_tp, const type &src_tp) const {
   if (dst_tp.extended() == this) {
-    return ::is_lossless_assignment(m_value_tp, src_tp);
+    return ::is_lossless_assignment(
+        m_value_tp, src_tp.get_id() == option_id ? src_tp.extended<option_type>()->get_value_type() : src_tp);
   } else {
-    return ::is_lossless_assignment(dst_tp, m_value_tp);
+    // The destination has no place for a missing value
+    return false;
   }
 }
 
-- 
2.43.0


From d690f8efc8d068f281968bc46c2a1e2380b193fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:03 +0000
Subject: [PATCH 94/99] fix: argument lists of type constructors were not read
 as their grammar says

---
 src/dynd/types/datashape_parser.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/dynd/types/datashape_parser.cpp b/src/dynd/types/datashape_parser.cpp
index 3000cdf..9da8232 100644
--- a/src/dynd/types/datashape_parser.cpp
+++ b/src/dynd/types/datashape_parser.cpp
@@ -121,6 +121,7 @@ static nd::buffer parse_integer_list(const char *&rbegin, const char *end) {
 
   vector<int64_t> dlist;
   const char *strbegin, *strend;
+  skip_whitespace_and_pound_comments(begin, end);
   if (!parse_int_no_ws(begin, end, strbegin, strend)) {
     return nd::buffer();
   }
@@ -186,8 +187,13 @@ static nd::buffer parse_type_arg(const char *&rbegin, const char *end, map<std::
 
   const char *strbegin, *strend;
   if (parse_int_no_ws(begin, end, strbegin, strend)) {
-    rbegin = begin;
-    return parse<int64_t>(strbegin, strend);
+    // An integer followed by a '*' is the first dimension of a datashape
+    const char *after_int = begin;
+    if (!datashape::parse_token(begin, end, '*')) {
+      rbegin = after_int;
+      return parse<int64_t>(strbegin, strend);
+    }
+    begin = rbegin;
   }
 
   std::string str;
@@ -206,6 +212,9 @@ static nd::buffer parse_type_arg(const char *&rbegin, const char *end, map<std::
       result = parse_datashape_list(begin, end, symtable);
     }
     if (result.is_null()) {
+      if (!datashape::parse_token(begin, end, ']')) {
+        throw datashape::internal_parse_error(begin, "Expected a list of integers, strings or dynd types");
+      }
       result = nd::buffer::empty(ndt::make_fixed_dim(0, ndt::make_type<void>()));
     }
     rbegin = begin;
@@ -298,6 +307,7 @@ nd::buffer datashape::parse_type_constr_args(const char *&rbegin, const char *en
   }
 
   if (datashape::parse_token(begin, end, ']')) {
+    rbegin = begin;
     return nd::buffer::empty(
         ndt::make_type<ndt::tuple_type>({ndt::make_type<ndt::tuple_type>(), ndt::make_type<ndt::struct_type>()}));
   }
@@ -326,9 +336,10 @@ nd::buffer datashape::parse_type_constr_args(const char *&rbegin, const char *en
     }
     pos_args.push_back(arg);
     if (!datashape::parse_token(begin, end, ',')) {
-      if (datashape::parse_token(begin, end, ']')) {
-        done = true;
+      if (!datashape::parse_token(begin, end, ']')) {
+        throw datashape::internal_parse_error(begin, "Expected a ',' or ']'");
       }
+      done = true;
       break;
     }
   }
@@ -994,6 +1005,10 @@ nd::buffer datashape::parse_type_constr_args(const std::string &str) {
     const char *begin = &str[0], *end = &str[0] + str.size();
     try {
       result = parse_type_constr_args(begin, end, symtable);
+      skip_whitespace_and_pound_comments(begin, end);
+      if (!result.is_null() && begin != end) {
+        throw datashape::internal_parse_error(begin, "unexpected token after type constructor arguments");
+      }
     } catch (const datashape::internal_parse_error &e) {
       stringstream ss;
       std::string line_prev, line_cur;
-- 
2.43.0


From f02d325fb3ca3c5690cac2e85ed71a89db62109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:03 +0000
Subject: [PATCH 95/99] fix: an entry inserted in the registry below the root
 did not know its full path

---
 include/dynd/registry.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dynd/registry.hpp b/include/dynd/registry.hpp
index 3b6e5ea..bb338bd 100644
--- a/include/dynd/registry.hpp
+++ b/include/dynd/registry.hpp
@@ -73,6 +73,9 @@ public:
 
     it = m_namespace.emplace(entry).first;
     it->second.absolute(entry.first);
+    if (!m_name.empty()) {
+      it->second.absolute(m_name);
+    }
 
     emit(entry.first.c_str(), &it->second);
   }
-- 
2.43.0


From a28d093d4725f163f0e80f4873f80cf323c26765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:03 +0000
Subject: [PATCH 96/99] fix: a refused registration of a type id left the
 singleton type registered

---
 src/dynd/type_registry.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/dynd/type_registry.cpp b/src/dynd/type_registry.cpp
index ce47cfb..efdad01 100644
--- a/src/dynd/type_registry.cpp
+++ b/src/dynd/type_registry.cpp
@@ -157,15 +157,16 @@ DYNDT_API void dynd::register_known_type_id_constructor(type_id_t id, ndt::type
   if (ii.singleton_type != ndt::type() || ii.construct_type != nullptr || ii.parse_type_args != nullptr) {
     throw runtime_error("Type ID " + to_string(id) + ", " + ii.name + ", already has type construction registerd");
   }
+  if (construct_type == nullptr && parse_type_args != nullptr) {
+    // If the type args parser is provided, the type constructor needs to be provided too
+    throw runtime_error(
+        "Type ID " + to_string(id) + ", " + ii.name +
+        ", type construction registration needs a type constructor function along with the type args parser");
+  }
   ii.singleton_type = std::move(singleton_type);
   if (construct_type != nullptr) {
     ii.construct_type = construct_type;
     // If the type args parser isn't provided, we can put in a default
     ii.parse_type_args = parse_type_args ? parse_type_args : &default_parse_type_args;
-  } else if (parse_type_args != nullptr) {
-    // If the type args parser is provided, the type constructor needs to be provided too
-    throw runtime_error(
-        "Type ID " + to_string(id) + ", " + ii.name +
-        ", type construction registration needs a type constructor function along with the type args parser");
   }
 }
-- 
2.43.0


From 7486e88a533024a63ba424187b1a88a795a6dadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:03 +0000
Subject: [PATCH 97/99] fix: view_scalars to types that are not plain data was
 accepted, to empty ones divided by zero

---
 src/dynd/array.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynd/array.cpp b/src/dynd/array.cpp
index 5eb314f..1b5d408 100644
--- a/src/dynd/array.cpp
+++ b/src/dynd/array.cpp
@@ -726,8 +726,8 @@ nd::array nd::array::view_scalars(const ndt::type &scalar_tp) const {
     const ndt::fixed_dim_type *sad = array_type.extended<ndt::fixed_dim_type>();
     const fixed_dim_type_arrmeta *md = reinterpret_cast<const fixed_dim_type_arrmeta *>(get()->metadata());
     const ndt::type &edt = sad->get_element_type();
-    if (edt.is_pod() && (intptr_t)edt.get_data_size() == md->stride &&
-        sad->get_element_type().get_base_id() != expr_kind_id) {
+    if (edt.is_pod() && scalar_tp.is_pod() && scalar_tp.get_data_size() > 0 &&
+        (intptr_t)edt.get_data_size() == md->stride && sad->get_element_type().get_base_id() != expr_kind_id) {
       intptr_t nbytes = md->dim_size * edt.get_data_size();
       // Make sure the element size divides into the # of bytes
       if (nbytes % scalar_tp.get_data_size() != 0) {
-- 
2.43.0


From 650ec19100eabadb164b7f60748e486861b2efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:03 +0000
Subject: [PATCH 98/99] fix: view of a bytes value as another type returned a
 null array instead of raising an error

---
 src/dynd/view.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dynd/view.cpp b/src/dynd/view.cpp
index 8cfd874..0adcd17 100644
--- a/src/dynd/view.cpp
+++ b/src/dynd/view.cpp
@@ -409,7 +409,6 @@ nd::array nd::old_view(const nd::array &arr, const ndt::type &tp) {
     //    if (!result.is_null()) {
     //    return result;
     //}
-    return nd::array();
   } else if (arr.get_ndim() == tp.get_ndim()) {
     // If the type is symbolic, e.g. has a "Fixed" symbolic dimension,
     // first substitute in the shape from the array
-- 
2.43.0


From 30dff528545cba2faaa0411863935cfb30bdf1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:03 +0000
Subject: [PATCH 99/99] fix: assignment between fixed_bytes of the same size
 always raised an error

---
 include/dynd/callables/assign_callable.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/dynd/callables/assign_callable.hpp b/include/dynd/callables/assign_callable.hpp
index ce5d549..c4070bb 100644
--- a/include/dynd/callables/assign_callable.hpp
+++ b/include/dynd/callables/assign_callable.hpp
@@ -131,11 +131,19 @@ namespace nd {
               ndt::make_type<ndt::fixed_bytes_kind_type>(), {ndt::make_type<ndt::fixed_bytes_kind_type>()},
               {{ndt::make_type<ndt::option_type>(ndt::make_type<assign_error_mode>()), "error_mode"}})) {}
 
-    ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &DYND_UNUSED(cg),
-                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *DYND_UNUSED(src_tp),
+    ndt::type resolve(base_callable *DYND_UNUSED(caller), char *DYND_UNUSED(data), call_graph &cg,
+                      const ndt::type &dst_tp, size_t DYND_UNUSED(nsrc), const ndt::type *src_tp,
                       size_t DYND_UNUSED(nkwd), const array *DYND_UNUSED(kwds),
                       const std::map<std::string, ndt::type> &DYND_UNUSED(tp_vars)) {
-      throw std::runtime_error("cannot assign to a fixed_bytes type of a different size");
+      size_t data_size = dst_tp.get_data_size();
+      if (data_size != src_tp[0].get_data_size()) {
+        throw std::runtime_error("cannot assign to a fixed_bytes type of a different size");
+      }
+      cg.emplace_back([data_size](kernel_builder &kb, kernel_request_t kernreq, char *DYND_UNUSED(data),
+                                  const char *DYND_UNUSED(dst_arrmeta), size_t DYND_UNUSED(nsrc),
+                                  const char *const *DYND_UNUSED(src_arrmeta)) {
+        kb.emplace_back<unaligned_copy_ck>(kernreq, data_size);
+      });
 
       return dst_tp;
     }
-- 
2.43.0

