From 484340cd8827fa3f842fbb87d772984603974288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 01/59] fix: out-of-bounds read of the dimensions when
 reporting a bad index

The error message of operator() read dims[D], one past the end of the array of
D dimensions, instead of the dimension being indexed.
---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 857143b..f0b2ffb 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -298,7 +298,7 @@ namespace vec_access {
 
     template<std::size_t I, std::size_t D, typename T>
     uint_t to_idx_(std::array<uint_t,D> dims, T ui, meta::cte_t<false>) {
-        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[D], ")");
+        vif_check(ui < dims[I], "operator(): index out of bounds (", ui, " vs. ", dims[I], ")");
         return ui;
     }
 
-- 
2.43.0


From 024cd39054c26c623a6b8fa707bfbffe662d9ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 02/59] fix: negative values in index vectors given to
 operator()

The values were converted to uint_t before being normalised, so that
v(vec1i{-1},0) was rejected while v(-1,0) and v[vec1i{-1}] are accepted.
---
 include/vif/core/bits/access.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index f0b2ffb..43416b6 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -422,7 +422,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<Dim-1>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[ivx+to_idx<Dim-1>(v,j)]);
                 ++itx;
             }
@@ -457,7 +457,7 @@ namespace vec_access {
         static void make_indices_(type& t, uint_t& itx, itype& v, uint_t ivx, meta::cte_t<IV>,
             const std::array<uint_t, Dim>& pitch, const vec<1,T>& ids, const Args2& ... i) {
 
-            for (uint_t j : ids) {
+            for (auto j : ids) {
                 make_indices_(t, itx, v, ivx + to_idx<IV>(v,j)*pitch[IV], meta::cte_t<IV+1>(),
                     pitch, i...
                 );
@@ -542,7 +542,7 @@ namespace vec_access {
             t.resize();
 
             uint_t itx = 0;
-            for (uint_t i : ids) {
+            for (auto i : ids) {
                 t.data[itx] = impl::ptr<Type>(v.data[to_idx(v,i)]);
                 ++itx;
             }
-- 
2.43.0


From 717cb4c7a478d8cdf070b5a0116dbcbfc345839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 03/59] fix: dimensions of a moved-from vector did not match
 its (empty) data

After move assignment, or move construction of a view, the source kept its
old dimensions with no element left behind them.
---
 include/vif/core/vec.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 2551dc6..50b2369 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -145,8 +145,13 @@ namespace vif {
         }
 
         vec& operator = (vec&& v) {
-            data = std::move(v.data);
-            dims = std::move(v.dims);
+            if (this != &v) {
+                data = std::move(v.data);
+                dims = v.dims;
+                for (uint_t i : range(Dim)) {
+                    v.dims[i] = 0;
+                }
+            }
             return *this;
         }
 
@@ -725,7 +730,11 @@ namespace vif {
         vec() = delete;
         vec(const vec& v) : parent(v.parent), data(v.data), dims(v.dims), safe(*this) {}
         vec(impl::vec_nocopy_tag_t, const vec& v) : parent(v.parent), dims(v.dims), safe(*this) {}
-        vec(vec&& v) noexcept : parent(v.parent), data(std::move(v.data)), dims(std::move(v.dims)), safe(*this) {}
+        vec(vec&& v) noexcept : parent(v.parent), data(std::move(v.data)), dims(v.dims), safe(*this) {
+            for (uint_t i : range(Dim)) {
+                v.dims[i] = 0;
+            }
+        }
 
         template<std::size_t D, typename T, typename enable =
             typename std::enable_if<std::is_same<meta::rtype_t<T>, rtype>::value>::type>
-- 
2.43.0


From ad74e89938c3883e6ff53a7fd528a4163b444e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 04/59] fix: aliasing in compound assignment with an element of
 the same vector

'v *= v[0]' took the scalar by reference, so the factor changed after the first
element. Take it by value as views already do.
---
 include/vif/core/vec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index 50b2369..fd29ef6 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -594,7 +594,7 @@ namespace vif {
             template<typename U, typename enable = typename std::enable_if< \
                 meta::is_scalar<U>::value \
             >::type> \
-            vec& operator op (const U& u) { \
+            vec& operator op (U u) { \
                 for (auto& v : data) { \
                     v op u; \
                 } \
-- 
2.43.0


From 6e7da387f533eb158ca2ccfb36f1fb1bf0b966ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 05/59] fix: division by zero when shifting an empty vector

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index a1b6226..29d836e 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -12,6 +12,8 @@ namespace vif {
     template<typename Type,
         typename enable = typename std::enable_if<!std::is_pointer<Type>::value>::type>
     void inplace_shift(vec<1,Type>& v, int_t n) {
+        if (v.empty()) return;
+
         n = (-n) % int_t(v.size());
         if (n < 0) n = int_t(v.size())+n;
 
-- 
2.43.0


From a61b8076fb63742c2b6f77959ee33ec8e6246607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 06/59] fix: division by zero when replicating an empty vector

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index 29d836e..c183d0a 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -55,6 +55,8 @@ namespace vif {
         static const std::size_t FDim = Dim+meta::dim_total<Args...>::value;
         vec<FDim, meta::rtype_t<Type>> v(std::forward<Args>(args)..., t.dims);
 
+        if (t.empty()) return v;
+
         std::size_t pitch = t.size();
         std::size_t n = v.size()/pitch;
         for (uint_t i : range(n))
-- 
2.43.0


From 5e5bce97a84f8f07e20487540d5b635b92965f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 07/59] fix: is_sorted() read out of bounds on an empty vector

---
 include/vif/utility/bits/generic-rearrange.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index c183d0a..e5d5534 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -112,6 +112,8 @@ namespace vif {
     // Check if a given array is sorted or not
     template<std::size_t Dim, typename Type>
     bool is_sorted(const vec<Dim,Type>& v) {
+        if (v.empty()) return true;
+
         for (uint_t i : range(1, v.size())) {
             if (!typename vec<Dim,Type>::comparator_less()(v.safe[i-1], v.safe[i])) return false;
         }
-- 
2.43.0


From 2e898a0e55fdca33579830729bded55369377daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 08/59] fix: inplace_remove() bound and duplicate checks

The ids were compared to the total number of elements instead of the first
dimension, and a duplicate was only seen when it was the largest id of a group of
contiguous ids, leaving dims inconsistent with data (or erasing out of bounds).
---
 include/vif/utility/bits/generic-rearrange.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/vif/utility/bits/generic-rearrange.hpp b/include/vif/utility/bits/generic-rearrange.hpp
index e5d5534..e1a0ea2 100644
--- a/include/vif/utility/bits/generic-rearrange.hpp
+++ b/include/vif/utility/bits/generic-rearrange.hpp
@@ -128,7 +128,7 @@ namespace vif {
 
         uint_t i = 0;
         uint_t pitch = v.pitch(0);
-        uint_t osize = v.size();
+        uint_t osize = v.dims[0];
         while (i < ids.size()) {
             uint_t i1 = ids.safe[ids.size()-1-i];
             uint_t i0 = i1;
@@ -138,9 +138,10 @@ namespace vif {
 
             ++i;
             while (i < ids.size() && i0 - ids.safe[ids.size()-1-i] <= 1) {
+                vif_check(i0 != ids.safe[ids.size()-1-i], "remove indices contain duplicates");
+
                 i0 = ids.safe[ids.size()-1-i];
 
-                vif_check(i0 != i1, "remove indices contain duplicates");
                 vif_check(i0 < osize, "trying to erase value ", i0, " in vector of "
                     "dimensions ", v.dims);
 
-- 
2.43.0


From 761c1914534f3269badbd03c721e82be01f92cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:31 +0000
Subject: [PATCH 09/59] fix: increment_index_list() wrote out of bounds for an
 empty list

---
 include/vif/utility/bits/generic-indices.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/generic-indices.hpp b/include/vif/utility/bits/generic-indices.hpp
index 6588053..eda95ed 100644
--- a/include/vif/utility/bits/generic-indices.hpp
+++ b/include/vif/utility/bits/generic-indices.hpp
@@ -91,6 +91,7 @@ namespace vif {
     // This is an alternative to a recursive loop.
     inline void increment_index_list(vec1u& ids, const vec1u& n) {
         uint_t i = ids.size();
+        if (i == 0) return;
         do {
             --i;
             ++(ids.safe[i]);
@@ -104,6 +105,7 @@ namespace vif {
 
     inline void increment_index_list(vec1u& ids, const uint_t& n) {
         uint_t i = ids.size();
+        if (i == 0) return;
         do {
             --i;
             ++(ids.safe[i]);
-- 
2.43.0


From a3c25b3200ddaf57799af921f3048a3718f74c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:14 +0000
Subject: [PATCH 10/59] fix: flatten() and reform() left stale dimensions in
 the vector they moved from

---
 include/vif/utility/bits/generic-dims.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/utility/bits/generic-dims.hpp b/include/vif/utility/bits/generic-dims.hpp
index fb21603..02dc296 100644
--- a/include/vif/utility/bits/generic-dims.hpp
+++ b/include/vif/utility/bits/generic-dims.hpp
@@ -21,6 +21,7 @@ namespace vif {
         vec<1,Type> r;
         r.dims[0] = v.data.size();
         r.data = std::move(v.data);
+        v.dims.fill(0);
         return r;
     }
 
@@ -37,6 +38,7 @@ namespace vif {
         vec<1,Type*> r(impl::vec_ref_tag, v.parent);
         r.dims[0] = v.data.size();
         r.data = std::move(v.data);
+        v.dims.fill(0);
         return r;
     }
 
@@ -70,6 +72,7 @@ namespace vif {
             "incompatible dimensions (", v.dims, " vs ", r.dims, ")");
 
         r.data = std::move(v.data);
+        v.dims.fill(0);
 
         return r;
     }
@@ -104,6 +107,7 @@ namespace vif {
             "incompatible dimensions (", v.dims, " vs ", r.dims, ")");
 
         r.data = std::move(v.data);
+        v.dims.fill(0);
 
         return r;
     }
-- 
2.43.0


From a030d79b09346c3973443f1c267935954b5e708d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:44 +0000
Subject: [PATCH 11/59] fix: integrate() and cumul() accessed empty arrays out
 of bounds

range(1,0) iterates downwards, so the loops were entered once for empty arrays.
---
 include/vif/math/reduce.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index fd1f59d..3387944 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -693,6 +693,8 @@ namespace vif {
         vif_check(x.size() == y.size(),
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
+        vif_check(!y.empty(), "cannot integrate empty array");
+
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
         for (uint_t i : range(1, x.size())) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
@@ -869,6 +871,8 @@ namespace vif {
         vif_check(x.size() == y.size(),
             "incompatible x and y array dimensions (", x.size(), " vs ", y.size(), ")");
 
+        if (y.empty()) return dr;
+
         decltype(0.5*y[0]*(x[1]-x[0])) r = 0;
         for (uint_t i : range(1, x.size())) {
             r += 0.5*(y.safe[i]+y.safe[i-1])*(x.safe[i]-x.safe[i-1]);
-- 
2.43.0


From 0a32549ddd8470d29259bf39dc3dedfec0f17280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:07 +0000
Subject: [PATCH 12/59] fix: interpolate() did not check the dimensions of the
 uncertainty array

A shorter array was read out of bounds.
---
 include/vif/math/interpolate.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 8469068..5d463ed 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -116,6 +116,8 @@ namespace vif {
 
         vif_check(y.dims == x.dims, "incompatible dimensions between X and Y arrays (", x.dims,
             " vs. ", y.dims, ")");
+        vif_check(y.dims == e.dims, "incompatible dimensions between Y and E arrays (", y.dims,
+            " vs. ", e.dims, ")");
         vif_check(y.size() >= 2, "interpolated data must contain at least 2 elements");
 
         uint_t nmax = x.size();
-- 
2.43.0


From ded8e12440d684dfa540d5799ef7e58ed6cf366e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:07 +0000
Subject: [PATCH 13/59] fix: linfit_batch_t read out of bounds when given
 models of the wrong size

---
 include/vif/math/linfit.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index a61d1d4..2b63fac 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -347,6 +347,8 @@ namespace vif {
             uint_t nm = cache.dims[1];
 
             vif_check(i < np, "index goes beyond available models (", i, " vs. ", np, ")");
+            vif_check(meta::size(x) == nm, "incompatible dimensions between X and YE arrays (",
+                meta::size(x), " vs. ", nm, ")");
 
             for (uint_t j : range(nm)) {
                 cache.safe(i,j) = x.safe[j]/ye.safe[j];
@@ -373,6 +375,9 @@ namespace vif {
             uint_t np = x.dims[0];
             uint_t nm = meta::size(ye);
 
+            vif_check(x.size() == np*nm, "incompatible dimensions between X and YE arrays (",
+                x.dims, " vs. ", meta::dims(ye), ")");
+
             cache.resize(np,nm);
             for (uint_t i : range(np))
             for (uint_t j : range(nm)) {
-- 
2.43.0


From 1f66ce86af7509ebb100120a64b24382e0f79d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:07 +0000
Subject: [PATCH 14/59] fix: increment_index_list() did not check the number of
 limits

---
 include/vif/utility/bits/generic-indices.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/utility/bits/generic-indices.hpp b/include/vif/utility/bits/generic-indices.hpp
index eda95ed..4e0eaa2 100644
--- a/include/vif/utility/bits/generic-indices.hpp
+++ b/include/vif/utility/bits/generic-indices.hpp
@@ -90,6 +90,9 @@ namespace vif {
     // Increment a list of indices, step by step
     // This is an alternative to a recursive loop.
     inline void increment_index_list(vec1u& ids, const vec1u& n) {
+        vif_check(ids.size() == n.size(), "incompatible dimensions between IDS and N (",
+            ids.size(), " vs. ", n.size(), ")");
+
         uint_t i = ids.size();
         if (i == 0) return;
         do {
-- 
2.43.0


From ad848b6fc72ee438eece67d7a15d4be4dd518929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:40 +0000
Subject: [PATCH 15/59] fix: division by zero when shifting an empty image

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index dde16bf..4f1229e 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -260,6 +260,8 @@ namespace astro {
 
     template<typename T>
     void inplace_shift(vec<2,T>& v, int_t tsx, int_t tsy) {
+        if (v.empty()) return;
+
         tsx = (-tsx) % int_t(v.dims[0]);
         tsy = (-tsy) % int_t(v.dims[1]);
         if (tsx < 0) tsx = int_t(v.dims[0])+tsx;
-- 
2.43.0


From cdebeabc0578ac052c9bc4577fbf2733bb3fe57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:40 +0000
Subject: [PATCH 16/59] fix: undefined behaviour on an unmatched closing
 bracket in a macroed name list

---
 include/vif/io/ascii.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/ascii.hpp b/include/vif/io/ascii.hpp
index b5897e4..513ac57 100644
--- a/include/vif/io/ascii.hpp
+++ b/include/vif/io/ascii.hpp
@@ -743,7 +743,7 @@ namespace impl {
                         stack.push_back(k);
                         break;
                     } else if (s[pos] == closing[k]) {
-                        vif_check(stack.back() == k,
+                        vif_check(!stack.empty() && stack.back() == k,
                             "library bug: error parsing macroed name list: '", s, "'");
                         stack.pop_back();
                         break;
-- 
2.43.0


From f7d85054422ae7b7799f743805ae3f392dc05059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:34 +0000
Subject: [PATCH 17/59] fix: division by zero when translating an empty image

---
 include/vif/astro/image.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 4f1229e..025373f 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -292,6 +292,8 @@ namespace astro {
     void inplace_translate_integer(vec<2,T>& v, int_t tsx, int_t tsy, T def = 0) {
         static_assert(!std::is_pointer<T>::value, "this algorithm cannot work with views");
 
+        if (v.empty()) return;
+
         tsx = (-tsx) % int_t(v.dims[0]);
         tsy = (-tsy) % int_t(v.dims[1]);
 
-- 
2.43.0


From 243fd8f3b116d8bd41fed790ff67c174b9433bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:34 +0000
Subject: [PATCH 18/59] fix: sed2flux() read out of bounds when given fewer
 wavelength rows than SEDs

---
 include/vif/astro/astro.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 6ba3596..c810af1 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1344,6 +1344,9 @@ namespace astro {
 
     template<typename TypeL, typename TypeS>
     vec1d sed2flux(const filter_t& filter, const vec<2,TypeL>& lam, const vec<2,TypeS>& sed) {
+        vif_check(lam.dims == sed.dims, "incompatible dimensions for x and y arrays "
+            "(", lam.dims, " vs. ", sed.dims, ")");
+
         vec1d r;
         const uint_t nsed = sed.dims[0];
         r.reserve(nsed);
-- 
2.43.0


From 6164ecb986598742f2f19def550cb5fe9045a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:42 +0000
Subject: [PATCH 19/59] fix: integrate() read out of bounds when the range
 starts at the last point or ends before the first

---
 include/vif/math/reduce.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 3387944..48334ab 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -735,7 +735,10 @@ namespace vif {
         vif_check(x.front() <= x0, "x array does not cover x0 (", x.front(), " vs. ", x0, ")");
         vif_check(x.back()  >= x1, "x array does not cover x1 (", x.back(),  " vs. ", x1, ")");
 
+        vif_check(x.front() <= x1, "x array does not cover x1 (", x.front(), " vs. ", x1, ")");
+
         uint_t i0 = upper_bound(x, x0);
+        if (i0 == npos) i0 = x.size()-1;
         uint_t i1 = lower_bound(x, x1);
 
         if (i0 > i1) {
@@ -774,7 +777,8 @@ namespace vif {
             "incompatible x and y array dimensions (", x.dims[1], " vs ", y.size(), ")");
         vif_check(!y.empty(), "cannot integrate empty array");
 
-        vif_check(x.safe[0] <= x0 && x.safe[x.size()-1] >= x1, "x array must cover the range [x0,x1]");
+        vif_check(x.safe[0] <= x0 && x.safe[0] <= x1 && x.safe[x.size()-1] >= x1,
+            "x array must cover the range [x0,x1]");
 
         uint_t i0 = upper_bound(x(0,_), x0);
         uint_t i1 = lower_bound(x(0,_), x1);
@@ -808,10 +812,11 @@ namespace vif {
         vif_check(x.back()  >= x1, "x array does not cover x1 (", x.back(),  " vs. ", x1, ")");
 
         uint_t i0, i1;
-        if (ihint == npos) {
-            // No hint provided, look for solution the best way we can
+        if (ihint >= x.size()) {
+            // No (usable) hint provided, look for solution the best way we can
             i0 = upper_bound(x, x0);
             if (i0 == npos) {
+                i0 = x.size()-1;
                 i1 = x.size()-1;
             } else {
                 i1 = i0-1;
-- 
2.43.0


From 39cfd8cb725ac7bad1c761652cf23fd9a48d8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:16 +0000
Subject: [PATCH 20/59] fix: build_convex_hull() indexed out of bounds for an
 empty set of points

---
 include/vif/math/convex_hull.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/convex_hull.hpp b/include/vif/math/convex_hull.hpp
index 6851971..b68fc4c 100644
--- a/include/vif/math/convex_hull.hpp
+++ b/include/vif/math/convex_hull.hpp
@@ -133,7 +133,7 @@ namespace vif {
         }
 
         uint_t t = k+1;
-        for (uint_t i = npt-2; i != npos; --i) {
+        for (uint_t i = npt-2; i < npt; --i) {
             while (k >= t && cross(res.safe[k-2], res.safe[k-1], ids.safe[i]) <= 0) --k;
             res.safe[k] = ids.safe[i];
             ++k;
-- 
2.43.0


From 753440495f1618f1bea341ef14bedd4351cf7584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:16 +0000
Subject: [PATCH 21/59] fix: field_area_hull() read out of bounds for a hull of
 less than two points

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index c810af1..a1dffdc 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -531,7 +531,7 @@ namespace astro {
         auto d2r = dpi/180.0;
         auto hx = hull.x*d2r;
         auto hy = hull.y*d2r;
-        for (uint_t i : range(2, hull.size())) {
+        for (uint_t i = 2; i < hull.size(); ++i) {
             double e1 = angdistr(hx.safe[0],   hy.safe[0],   hx.safe[i-1], hy.safe[i-1]);
             double e2 = angdistr(hx.safe[i-1], hy.safe[i-1], hx.safe[i],   hy.safe[i]);
             double e3 = angdistr(hx.safe[i],   hy.safe[i],   hx.safe[0],   hy.safe[0]);
-- 
2.43.0


From a0afc5fcff8396b4a2684fd94eb3a561844c7a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:16 +0000
Subject: [PATCH 22/59] fix: boxcar() read out of bounds when the box is larger
 than the image

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 025373f..0477d15 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -760,9 +760,9 @@ namespace astro {
         for (uint_t x = 0; x < img.dims[0]; ++x)
         for (uint_t y = 0; y < img.dims[1]; ++y) {
             uint_t x0 = x >= hsize ? x - hsize : 0;
-            uint_t x1 = x < img.dims[0]-hsize ? x + hsize : img.dims[0]-1;
+            uint_t x1 = x + hsize < img.dims[0] ? x + hsize : img.dims[0]-1;
             uint_t y0 = y >= hsize ? y - hsize : 0;
-            uint_t y1 = y < img.dims[1]-hsize ? y + hsize : img.dims[1]-1;
+            uint_t y1 = y + hsize < img.dims[1] ? y + hsize : img.dims[1]-1;
 
             vec<1,meta::rtype_t<T>> tmp;
             tmp.reserve((x1-x0)*(y1-y0));
-- 
2.43.0


From 7a293ad896c633a7db7c073d6da96487e5d83b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:16 +0000
Subject: [PATCH 23/59] fix: sed2flux() read out of bounds when the filter
 starts after the end of the SED

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index a1dffdc..b35ba98 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1302,7 +1302,7 @@ namespace astro {
         vif_check(!lam.empty(), "second array cannot be empty");
 
         uint_t ised = lower_bound(lam, flam.safe[0]);
-        if (ised == npos) return dnan;
+        if (ised == npos || ised == lam.size()-1) return dnan;
         uint_t ifil = 0;
 
         double plam = flam.safe[0];
-- 
2.43.0


From cde2f9c77e4fbf15068a999b4b08fccc3fcef67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:53 +0000
Subject: [PATCH 24/59] fix: detect overlap with constant views in assignments

view_same() only recognised views with exactly the same element type, so
assigning a view of a constant reference to the same vector (or adding it in
place) read elements that were already overwritten, and could read freed memory
when the assigned vector had to grow.
---
 include/vif/core/vec.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index fd29ef6..a2e21d9 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -196,8 +196,8 @@ namespace vif {
             return false;
         }
 
-        template<std::size_t D>
-        bool view_same(const vec<D,Type*>& v) const {
+        template<std::size_t D, typename T>
+        bool view_same(const vec<D,T*>& v) const {
             return v.view_same(*this);
         }
 
@@ -807,19 +807,14 @@ namespace vif {
 
         template<std::size_t D, typename T>
         bool view_same(const vec<D,T>& v) const {
-            return false;
+            return static_cast<const void*>(&v) == parent;
         }
 
-        template<std::size_t D>
-        bool view_same(const vec<D,Type*>& v) const {
+        template<std::size_t D, typename T>
+        bool view_same(const vec<D,T*>& v) const {
             return v.parent == parent;
         }
 
-        template<std::size_t D>
-        bool view_same(const vec<D,Type>& v) const {
-            return static_cast<void*>(const_cast<vec<D,Type>*>(&v)) == parent;
-        }
-
         bool empty() const {
             return data.empty();
         }
-- 
2.43.0


From d8a239770ea3c5e89874e453a10bb5861eb2668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:53 +0000
Subject: [PATCH 25/59] fix: a range of a view refers to the vector the view
 was made from

bracket_access() registered the intermediate view as the parent, so that
overlapping assignments through it were not recognised as such.
---
 include/vif/core/bits/access.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/core/bits/access.hpp b/include/vif/core/bits/access.hpp
index 43416b6..66b6a09 100644
--- a/include/vif/core/bits/access.hpp
+++ b/include/vif/core/bits/access.hpp
@@ -643,7 +643,7 @@ namespace vec_access {
     template<typename V, typename T>
     auto bracket_access(V& parent, const T& rng) ->
         vec<1,meta::constify<typename V::rtype, V>*> {
-        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, parent);
+        vec<1,meta::constify<typename V::rtype, V>*> v(impl::vec_ref_tag, get_parent(parent));
         v.dims[0] = impl::range_impl::range_size(rng, parent.size());
         v.data.resize(v.dims[0]);
 
-- 
2.43.0


From b969b6cd0c700aba0bb9babbbc9768f2fafc2a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:15 +0000
Subject: [PATCH 26/59] fix: explicit conversion of numbers to masks tests for
 non-zero

The values were narrowed to the storage type of masks instead of being converted
to bool, so that 256 or 0.5 became false.
---
 include/vif/core/vec.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/vif/core/vec.hpp b/include/vif/core/vec.hpp
index a2e21d9..5407d71 100644
--- a/include/vif/core/vec.hpp
+++ b/include/vif/core/vec.hpp
@@ -126,10 +126,9 @@ namespace vif {
         explicit vec(const vec<Dim,T>& v) : dims(v.dims), safe(*this) {
             static_assert(meta::vec_explicit_convertible<meta::rtype_t<T>,Type>::value,
                 "could not construct vector from non-convertible type");
-            using other_dtype = typename vec<Dim,T>::dtype;
             data.resize(v.data.size());
             for (uint_t i : range(v)) {
-                data[i] = static_cast<other_dtype>(v.safe[i]);
+                data[i] = static_cast<Type>(v.safe[i]);
             }
         }
 
-- 
2.43.0


From 95fa8d033fe6a7d450a97ade8343a636f996f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:04 +0000
Subject: [PATCH 27/59] fix: parallel loops visit each index of their range
 exactly once

The end of the range was compared with its length, so that loops not starting at
zero ran on the wrong indices, and the first chunk was not clamped, so that a loop
with a single worker also ran past the last index.
---
 include/vif/utility/bits/thread-parallel-for.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/vif/utility/bits/thread-parallel-for.hpp b/include/vif/utility/bits/thread-parallel-for.hpp
index db00fc0..6454342 100644
--- a/include/vif/utility/bits/thread-parallel-for.hpp
+++ b/include/vif/utility/bits/thread-parallel-for.hpp
@@ -49,12 +49,12 @@ namespace thread {
         // Internal
         std::mutex query_mutex;
         std::atomic<uint_t> iter;
-        uint_t n, i0, i1, di;
+        uint_t n, i0, i1, di, iend;
 
         bool query_chunk(uint_t& oi0, uint_t& oi1) {
             std::unique_lock<std::mutex> l(query_mutex);
 
-            if (i0 == n) {
+            if (i0 == iend) {
                 return false;
             }
 
@@ -63,8 +63,8 @@ namespace thread {
 
             i0 = i1;
             i1 += di;
-            if (i1 > n) {
-                i1 = n;
+            if (i1 > iend) {
+                i1 = iend;
             }
 
             return true;
@@ -103,7 +103,8 @@ namespace thread {
                 // Setup chunks
                 di = n/nchunk + 1;
                 i0 = ifirst;
-                i1 = ifirst + di;
+                i1 = std::min(ifirst + di, ilast);
+                iend = ilast;
                 iter = 0;
 
                 // Launch threads
-- 
2.43.0


From 952a20f0276d22a58f4810e048a3c9975eea67dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:04 +0000
Subject: [PATCH 28/59] fix: destroying a pool worker tells its thread to stop
 before joining it

Restarting a pool destroys its workers while their threads wait for work, and the
destructor then waited forever.
---
 include/vif/utility/bits/thread-worker-pool.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/vif/utility/bits/thread-worker-pool.hpp b/include/vif/utility/bits/thread-worker-pool.hpp
index a5d4326..dd41840 100644
--- a/include/vif/utility/bits/thread-worker-pool.hpp
+++ b/include/vif/utility/bits/thread-worker-pool.hpp
@@ -25,6 +25,7 @@ namespace thread_impl {
         }) {}
 
         ~worker_with_workspace() {
+            shutdown = true;
             join();
         }
 
@@ -58,6 +59,7 @@ namespace thread_impl {
         }) {}
 
         ~worker_no_workspace() {
+            shutdown = true;
             join();
         }
 
-- 
2.43.0


From 98e1aef81ca1280e0ba59668036052600dbbaa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:38 +0000
Subject: [PATCH 29/59] fix: report the FITS errors met while extracting
 cutouts

The status of the header, dimension and pixel reads was never looked at, so that a
truncated image was silently stacked as zeros.
---
 include/vif/astro/qstack.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 4f6ab3f..0bfda95 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -26,6 +26,7 @@ namespace impl {
                 char* hstr = nullptr;
                 int nkeys  = 0;
                 fits_hdr2str(fptr, 0, nullptr, 0, &hstr, &nkeys, &status);
+                fits::vif_check_cfitsio(status, "cannot read header of '"+file+"'");
                 astro = astro::wcs(hstr);
                 free(hstr);
 
@@ -37,6 +38,7 @@ namespace impl {
                 fits_get_img_dim(fptr, &naxis, &status);
                 vec<1,long> naxes(naxis);
                 fits_get_img_size(fptr, naxis, naxes.raw_data(), &status);
+                fits::vif_check_cfitsio(status, "cannot read dimensions of '"+file+"'");
                 bool is2D = naxis == 2;
                 if (is2D) {
                     width = naxes[0];
@@ -163,6 +165,7 @@ namespace astro {
                     long inc[2] = {1, 1};
                     fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0b, p1b, inc, &null,
                         subcut.raw_data(), &anynul, &img.status);
+                    fits::vif_check_cfitsio(img.status, "cannot read pixels of '"+sects[iimg]+"'");
 
                     long x0 = p0b[0]-p0[0];
                     long x1 = p1b[0]-p0[0];
@@ -176,6 +179,7 @@ namespace astro {
                     long inc[2] = {1, 1};
                     fits_read_subset(img.fptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
                         cut.raw_data(), &anynul, &img.status);
+                    fits::vif_check_cfitsio(img.status, "cannot read pixels of '"+sects[iimg]+"'");
                 }
 
                 // Discard any source that contains a bad pixel (either infinite or NaN)
@@ -260,6 +264,7 @@ namespace astro {
         char* hstr = nullptr;
         int nkeys  = 0;
         fits_hdr2str(fptr, 0, nullptr, 0, &hstr, &nkeys, &status);
+        fits::vif_check_cfitsio(status, "cannot read header of '"+ffile+"'");
         astro::wcs astro(hstr);
         free(hstr);
 
@@ -268,6 +273,7 @@ namespace astro {
         fits_get_img_dim(fptr, &naxis, &status);
         vec<1,long> naxes(naxis);
         fits_get_img_size(fptr, naxis, naxes.raw_data(), &status);
+        fits::vif_check_cfitsio(status, "cannot read dimensions of '"+ffile+"'");
         bool is2D = naxis == 2;
         long width, height;
         if (is2D) {
@@ -290,6 +296,7 @@ namespace astro {
 
         vec<1,long> wnaxes(naxis);
         fits_get_img_size(wfptr, naxis, wnaxes.raw_data(), &status);
+        fits::vif_check_cfitsio(status, "cannot read dimensions of '"+wfile+"'");
         vif_check(naxes[0] == wnaxes[0] && naxes[1] == wnaxes[1], "image and weight map do not match");
 
         // Convert ra/dec to x/y
@@ -329,6 +336,7 @@ namespace astro {
                 cut.raw_data(),  &anynul, &status);
             fits_read_subset(wfptr, impl::fits_impl::traits<Type>::ttype, p0, p1, inc, &null,
                 wcut.raw_data(), &anynul, &status);
+            fits::vif_check_cfitsio(status, "cannot read pixels of '"+ffile+"' or '"+wfile+"'");
 
             // Discard any source that contains a bad pixel (either infinite or NaN)
             if (!params.keep_nan && count(!is_finite(cut) || !is_finite(wcut)) != 0) {
-- 
2.43.0


From bffaa6c15c27c03e80e303156fc4a6a4fb206082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:38 +0000
Subject: [PATCH 30/59] fix: report the error when the header space cannot be
 reserved

The error stayed in the status of the file and was only noticed, under another
name, by the next record that happened to be written.
---
 include/vif/io/fits/base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/io/fits/base.hpp b/include/vif/io/fits/base.hpp
index 7e64ae3..4824d51 100644
--- a/include/vif/io/fits/base.hpp
+++ b/include/vif/io/fits/base.hpp
@@ -686,6 +686,7 @@ namespace impl {
 
                 std::size_t nentry = hdr.size()/80 + 1;
                 fits_set_hdrsize(fptr_, nentry, &status_);
+                fits::vif_check_cfitsio(status_, "could not write header of '"+filename_+"'");
 
                 for (uint_t i : range(nentry)) {
                     std::string entry = hdr.substr(i*80, std::min(std::size_t(80), hdr.size() - i*80));
-- 
2.43.0


From cf42c8c2ed22ac47dd3b37b9a24a84d81a9a0291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:51 +0000
Subject: [PATCH 31/59] fix: cross-match catalogs with fewer sources than
 threads

---
 include/vif/astro/qxmatch.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/vif/astro/qxmatch.hpp b/include/vif/astro/qxmatch.hpp
index 88b0bca..893e213 100644
--- a/include/vif/astro/qxmatch.hpp
+++ b/include/vif/astro/qxmatch.hpp
@@ -166,6 +166,9 @@ namespace astro {
             return res;
         }
 
+        // No need for more threads than there are sources to match
+        params.thread = std::min(params.thread, std::min(n1, n2));
+
         // Convert input coordinates into proper units, if required
         vec1d dra1, ddec1, dcdec1, dra2, ddec2, dcdec2;
         if (params.linear) {
-- 
2.43.0


From c2d5224760d1ab074215c1b52d17ce8c38d33cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:30 +0000
Subject: [PATCH 32/59] fix: bilinear and bicubic interpolation read outside of
 maps too small to interpolate

---
 include/vif/math/interpolate.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 5d463ed..14bab5e 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -161,6 +161,9 @@ namespace vif {
 
     template<typename Type>
     meta::rtype_t<Type> bilinear(const vec<2,Type>& map, double x, double y) {
+        vif_check(map.dims[0] >= 2 && map.dims[1] >= 2,
+            "'map' must contain at least 2x2 pixels (got ", map.dims, ")");
+
         int_t tix = floor(x);
         int_t tiy = floor(y);
         double dx = x - tix;
@@ -234,7 +237,7 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
-        if (tix < 0 || uint_t(tix) >= map.dims[0]-1 || tiy < 0 || uint_t(tiy) >= map.dims[1]-1) {
+        if (tix < 0 || uint_t(tix)+1 >= map.dims[0] || tiy < 0 || uint_t(tiy)+1 >= map.dims[1]) {
             return def;
         }
 
@@ -470,7 +473,7 @@ namespace vif {
         int_t tix = floor(x);
         int_t tiy = floor(y);
 
-        if (tix <= 0 || uint_t(tix) >= map.dims[0]-2 || tiy <= 0 || uint_t(tiy) >= map.dims[1]-2) {
+        if (tix <= 0 || uint_t(tix)+2 >= map.dims[0] || tiy <= 0 || uint_t(tiy)+2 >= map.dims[1]) {
             return def;
         }
 
-- 
2.43.0


From c3d6011f5118cc4861d6d4d9088a459174bf4b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:53 +0000
Subject: [PATCH 33/59] fix: cumul_reverse() only summed two neighbouring
 values

---
 include/vif/math/histogram.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/histogram.hpp b/include/vif/math/histogram.hpp
index 731d2a1..222d137 100644
--- a/include/vif/math/histogram.hpp
+++ b/include/vif/math/histogram.hpp
@@ -379,7 +379,7 @@ namespace vif {
         vec<1,meta::rtype_t<TypeY>> dr(y.dims);
         for (uint_t i : range(y)) {
             uint_t ri = y.size()-1-i;
-            if (i != 0) dr.safe[ri] = y.safe[ri+1];
+            if (i != 0) dr.safe[ri] = dr.safe[ri+1];
             dr.safe[ri] += y.safe[ri];
         }
 
-- 
2.43.0


From 9447e1259224cff03c2ed291efb1437a05497963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:53 +0000
Subject: [PATCH 34/59] fix: high percentiles of data with invalid values were
 invalid

---
 include/vif/math/reduce.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 48334ab..4619c56 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -146,6 +146,13 @@ namespace vif {
             return nwrong;
         }
 
+        // Position of a percentile in the sorted vector, where NaN values come last
+        template<typename U>
+        uint_t percentile_id_(uint_t nvalid, const U& u) {
+            if (nvalid == 0) return 0;
+            return clamp(nvalid*u, 0u, nvalid-1);
+        }
+
         // Inplace median for floating point types (can have NaN values)
         template<std::size_t Dim, typename Type>
         meta::rtype_t<Type> inplace_median_(vec<Dim,Type>& v, std::true_type) {
@@ -213,7 +220,7 @@ namespace vif {
 
         uint_t nwrong = impl::count_nans_(v);
         if (nwrong == v.size()) return dnan;
-        return impl::nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+        return impl::nth_element_(v, impl::percentile_id_(v.size()-nwrong, u));
     }
 
     template<std::size_t Dim, typename Type, typename U, typename enable = typename std::enable_if<
@@ -231,7 +238,7 @@ namespace vif {
         void percentiles_(vec<1,meta::rtype_t<Type>>& r, uint_t i, vec<Dim,Type>& v, uint_t nwrong,
             const U& u, const Args& ... args) {
 
-            r.safe[i] = nth_element_(v, clamp((v.size()-nwrong)*u, 0u, v.size()-1));
+            r.safe[i] = nth_element_(v, percentile_id_(v.size()-nwrong, u));
             ++i;
 
             percentiles_(r, i, v, nwrong, args...);
-- 
2.43.0


From 4d5a0ddb7b55338496ae4d1ec12d2d8cf10cf92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:07 +0000
Subject: [PATCH 35/59] fix: cubic splines over irregular positions were not
 smooth

---
 include/vif/math/interpolate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/interpolate.hpp b/include/vif/math/interpolate.hpp
index 14bab5e..79da917 100644
--- a/include/vif/math/interpolate.hpp
+++ b/include/vif/math/interpolate.hpp
@@ -290,7 +290,7 @@ namespace vif {
             vec1d al(n);
             for (uint_t i : range(1, n)) {
                 al.safe[i] = 3.0*(y.safe[i+1] - y.safe[i])/h.safe[i]
-                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i];
+                           - 3.0*(y.safe[i] - y.safe[i-1])/h.safe[i-1];
             }
 
             vec1d l(n+1), mu(n+1), z(n+1);
-- 
2.43.0


From f66d96ce67553b7986c1259bc1ac3e615cfdfb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 36/59] fix: Cholesky decomposition without LAPACK used the
 size of the matrix it moved from

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 341c1b2..74f7888 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -307,7 +307,7 @@ namespace matrix {
             l = std::move(alpha);
 
         #ifdef NO_LAPACK
-            const uint_t n = alpha.dims[0];
+            const uint_t n = l.dims[0];
             for (uint_t i : range(n)) {
                 for (uint_t j : range(i+1)) {
                     double s = 0.0;
-- 
2.43.0


From c6b324f242d5380d0b9f6e3a0025368a21adff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 37/59] fix: convolve2d_naive() read out of bounds when the
 kernel is larger than the image

---
 include/vif/astro/image.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 0477d15..10c3099 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -447,9 +447,11 @@ namespace astro {
             if (kw == 0.0) continue;
 
             uint_t x0 = (kx >= hxsize ? 0 : hxsize-kx);
-            uint_t xn = map.dims[0] - (kx >= hxsize ? kx-hxsize : 0);
+            uint_t dx = (kx >= hxsize ? kx-hxsize : 0);
+            uint_t xn = (map.dims[0] > dx ? map.dims[0]-dx : 0);
             uint_t y0 = (ky >= hysize ? 0 : hysize-ky);
-            uint_t yn = map.dims[1] - (ky >= hysize ? ky-hysize : 0);
+            uint_t dy = (ky >= hysize ? ky-hysize : 0);
+            uint_t yn = (map.dims[1] > dy ? map.dims[1]-dy : 0);
 
             for (uint_t x = x0; x < xn; ++x)
             for (uint_t y = y0; y < yn; ++y) {
-- 
2.43.0


From 9aad70e7c1191b586bb1a8a81c813141b4b7157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 38/59] fix: convolve2d() ignored the last row and column of
 kernels with odd dimensions

---
 include/vif/astro/image.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 10c3099..47e4918 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -527,13 +527,13 @@ namespace astro {
         vec2d tkernel(tmap.dims);
 
         // TODO: optimize this and catch case where kernel is larger than image
-        vec1u px1 = hsx + indgen<uint_t>(hsx);
-        vec1u py1 = hsy + indgen<uint_t>(hsy);
+        vec1u px1 = hsx + indgen<uint_t>(kernel.dims[0]-hsx);
+        vec1u py1 = hsy + indgen<uint_t>(kernel.dims[1]-hsy);
         vec1u px2 = hsx - 1 - indgen<uint_t>(hsx);
         vec1u py2 = hsy - 1 - indgen<uint_t>(hsy);
 
-        vec1u ix1 = indgen<uint_t>(hsx);
-        vec1u iy1 = indgen<uint_t>(hsy);
+        vec1u ix1 = indgen<uint_t>(kernel.dims[0]-hsx);
+        vec1u iy1 = indgen<uint_t>(kernel.dims[1]-hsy);
         vec1u ix2 = tmap.dims[0] - 1 - indgen<uint_t>(hsx);
         vec1u iy2 = tmap.dims[1] - 1 - indgen<uint_t>(hsy);
 
-- 
2.43.0


From 0913f4719e6145ebf928f4d94e119d78b5d3f5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 39/59] fix: convolver2d wrote out of bounds for non square
 images and images of different sizes

---
 include/vif/astro/image.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 47e4918..f4487a5 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -667,6 +667,9 @@ namespace astro {
                 }
             }
 
+            vif_check(map.dims[0]+2*hsx == cimg.dims[0] && map.dims[1]+2*hsy == cimg.dims[1],
+                "cannot use the same convolver on images of different dimensions");
+
             if (cyclic) {
                 // Copy image data
                 tmap = std::move(map);
@@ -679,10 +682,10 @@ namespace astro {
 
                 // Pad image to prevent issues with cyclic borders
                 for (uint_t ix : range(hsx)) {
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(ix,iy) = 0;
                     }
-                    for (uint_t iy : range(tmap.dims[0])) {
+                    for (uint_t iy : range(tmap.dims[1])) {
                         tmap.safe(tmap.dims[0]-hsx+ix,iy) = 0;
                     }
                 }
-- 
2.43.0


From 08d13f842a11a802a19baace01ea0d1c780b7a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 40/59] fix: convolver2d did not normalize cyclic convolutions

---
 include/vif/astro/image.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index f4487a5..329d79a 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -710,6 +710,7 @@ namespace astro {
             if (cyclic) {
                 // Copy image data
                 map = std::move(tmap);
+                map /= cimg.size();
             } else {
                 // Copy image data and shrink back to original dimensions
                 for (uint_t ix : range(map.dims[0]))
-- 
2.43.0


From 2471906776690290ee9d117b397ae7eb147e97f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:54 +0000
Subject: [PATCH 41/59] fix: moving a convolver2d released its Fourier plans
 twice

---
 include/vif/astro/image.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 329d79a..6f8b784 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -569,8 +569,15 @@ namespace astro {
 
         convolver2d(const convolver2d&) = delete;
         convolver2d& operator=(const convolver2d&) = delete;
-        convolver2d(convolver2d&&) = default;
-        convolver2d& operator=(convolver2d&&) = default;
+        convolver2d(convolver2d&& c) : kernel_normal(c.kernel_normal),
+            kernel_fourier(std::move(c.kernel_fourier)), hsx(c.hsx), hsy(c.hsy), pf(c.pf), pi(c.pi),
+            pf_built(c.pf_built), pi_built(c.pi_built), tmap(std::move(c.tmap)),
+            cimg(std::move(c.cimg)), cyclic(c.cyclic) {
+            // The plans now belong to this instance
+            c.pf_built = c.pi_built = false;
+        }
+
+        convolver2d& operator=(convolver2d&&) = delete;
 
         ~convolver2d() {
             std::lock_guard<std::mutex> lock(impl::fftw_planner_mutex());
-- 
2.43.0


From 2f69345a2df4307fc70aa79ce38fbbd8344db982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:19 +0000
Subject: [PATCH 42/59] fix: dividing a matrix by a scalar did not compile

---
 include/vif/math/bits/matrix-types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-types.hpp b/include/vif/math/bits/matrix-types.hpp
index d140138..a26376d 100644
--- a/include/vif/math/bits/matrix-types.hpp
+++ b/include/vif/math/bits/matrix-types.hpp
@@ -550,7 +550,7 @@ namespace matrix {
         meta::is_matrix<TypeA>::value && std::is_arithmetic<typename std::decay<TypeB>::type>::value
     >::type>
     auto operator / (const TypeA& a, const TypeB& b) -> mat<decltype(a(0,0)/b)> {
-        return mat<decltype(a(0,0)/b)>(std::forward<TypeA>(a).base/b);
+        return mat<decltype(a(0,0)/b)>(a.base/b);
     }
 
     // matrix + matrix
-- 
2.43.0


From 42c07d65933750fd47b1b7b24240b73f7633f02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:24 +0000
Subject: [PATCH 43/59] fix: inverse of a matrix decomposed without pivoting
 was wrong

---
 include/vif/math/bits/matrix-functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/bits/matrix-functions.hpp b/include/vif/math/bits/matrix-functions.hpp
index 74f7888..4005b88 100644
--- a/include/vif/math/bits/matrix-functions.hpp
+++ b/include/vif/math/bits/matrix-functions.hpp
@@ -246,7 +246,7 @@ namespace matrix {
 
                         r.safe[k] = (i1 == k);
                     } else {
-                        r.safe[k] = 1.0;
+                        r.safe[k] = (c == k);
                     }
 
                     for (uint_t i : range(k)) {
-- 
2.43.0


From f527f26f32e090e0183f198f798e59d08b3b1dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:55 +0000
Subject: [PATCH 44/59] fix: radial_profile() swapped the radius and the center
 of the annuli

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 6f8b784..de2f66f 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -398,8 +398,8 @@ namespace astro {
         uint_t hsy = img.dims[1]/2;
         res[0] = img(hsx,hsy);
         for (uint_t i : range(1u, npix)) {
-            vec2d mask = circular_mask(img.dims, double(hsx), double(hsy), i)*
-                (1.0 - circular_mask(img.dims, double(hsx), double(hsy), i-1));
+            vec2d mask = circular_mask(img.dims, i, double(hsx), double(hsy))*
+                (1.0 - circular_mask(img.dims, i-1, double(hsx), double(hsy)));
             res.safe[i] = total(mask*img)/total(mask);
         }
 
-- 
2.43.0


From 4edaa55f6bcd98f6f717c371a7c23ebb60a9d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:34 +0000
Subject: [PATCH 45/59] fix: translating an image by more than its size wrapped
 around

---
 include/vif/astro/image.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index de2f66f..71397a3 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -294,8 +294,8 @@ namespace astro {
 
         if (v.empty()) return;
 
-        tsx = (-tsx) % int_t(v.dims[0]);
-        tsy = (-tsy) % int_t(v.dims[1]);
+        tsx = -clamp(tsx, -int_t(v.dims[0]), int_t(v.dims[0]));
+        tsy = -clamp(tsy, -int_t(v.dims[1]), int_t(v.dims[1]));
 
         if (tsy > 0) {
             for (uint_t ix : range(v.dims[0])) {
-- 
2.43.0


From a7c7e0f160d252ff225f300fd09e834dc9ed705e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:07 +0000
Subject: [PATCH 46/59] fix: cut() keeps the last, shorter piece of the string

---
 include/vif/utility/bits/string-split.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-split.hpp b/include/vif/utility/bits/string-split.hpp
index 10f75fa..dfa7fae 100644
--- a/include/vif/utility/bits/string-split.hpp
+++ b/include/vif/utility/bits/string-split.hpp
@@ -38,7 +38,7 @@ namespace vif {
     }
 
     inline vec1s cut(const std::string& ts, uint_t size) {
-        uint_t ncut = floor(ts.size()/float(size));
+        uint_t ncut = ceil(ts.size()/double(size));
         vec1s res(ncut);
         for (uint_t i = 0; i < ncut; ++i) {
             res.safe[i] = ts.substr(i*size, std::min(size, ts.size() - i*size));
-- 
2.43.0


From 6b89cf974fa1b259946446a79d8d0df7e19e6d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:07 +0000
Subject: [PATCH 47/59] fix: linfit_nn() reports success when it converged

---
 include/vif/math/linfit.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/vif/math/linfit.hpp b/include/vif/math/linfit.hpp
index 2b63fac..e7513e7 100644
--- a/include/vif/math/linfit.hpp
+++ b/include/vif/math/linfit.hpp
@@ -158,9 +158,7 @@ namespace vif {
                 ++titer;
             } while (ta/tb > fit_tftol && titer < titermax);
 
-            if (titer == titermax) {
-                fr.success = false;
-            }
+            fr.success = (titer < titermax);
 
             vec1d model(nm);
             for (uint_t m : range(nm)) {
-- 
2.43.0


From c11121585491d8f9bfdf949375141ebcf2b15aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:28 +0000
Subject: [PATCH 48/59] fix: psffit() and srcsub() cut regions of the shape of
 the PSF

---
 include/vif/astro/astro.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index b35ba98..a85aecd 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -236,7 +236,7 @@ namespace astro {
         using err_type = typename vec<2,TypeE>::effective_type;
         static const auto max_error = std::numeric_limits<meta::rtype_t<TypeE>>::max();
 
-        int_t hx = psf.dims[1]/2, hy = psf.dims[0]/2;
+        int_t hx = psf.dims[0]/2, hy = psf.dims[1]/2;
 
         err_type err = terr;
         if (err.dims[0] == 1 && err.dims[1] == 1) {
@@ -275,7 +275,7 @@ namespace astro {
 
     template<typename TypeM, typename TypeP = TypeM>
     void srcsub(vec<2,TypeM>& img, const vec<2,TypeP>& psf, double flux, const vec1i& pos) {
-        int_t hx = psf.dims[1]/2, hy = psf.dims[0]/2;
+        int_t hx = psf.dims[0]/2, hy = psf.dims[1]/2;
 
         vec1i rr, rs;
         subregion(img, {pos(0)-hx, pos(1)-hy, pos(0)+hx, pos(1)+hy}, rr, rs);
-- 
2.43.0


From 7d1313a72311a9d875d8fcc86637bd0c5953164b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:28 +0000
Subject: [PATCH 49/59] fix: srcsub() can be called

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index a85aecd..44df5ca 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -277,7 +277,7 @@ namespace astro {
     void srcsub(vec<2,TypeM>& img, const vec<2,TypeP>& psf, double flux, const vec1i& pos) {
         int_t hx = psf.dims[0]/2, hy = psf.dims[1]/2;
 
-        vec1i rr, rs;
+        vec1u rr, rs;
         subregion(img, {pos(0)-hx, pos(1)-hy, pos(0)+hx, pos(1)+hy}, rr, rs);
         img[rr] -= flux*psf[rs];
     }
-- 
2.43.0


From 385a30339685a1dd423be26ef3c450f8ab9082f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:32 +0000
Subject: [PATCH 50/59] fix: sed2flux() accepts an SED ending at the last
 wavelength of the filter

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 44df5ca..1623d1f 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -1314,7 +1314,7 @@ namespace astro {
         while (ifil < nfil-1 && ised < nsed-1) {
             double nlam, nval;
 
-            if (flam.safe[ifil+1] < lam.safe[ised+1]) {
+            if (flam.safe[ifil+1] <= lam.safe[ised+1]) {
                 // Next point is from filter
                 ++ifil;
                 nlam = flam.safe[ifil];
-- 
2.43.0


From cbc8e30e20ac4f6009dd7df5109c90c5ab2e1bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:52 +0000
Subject: [PATCH 51/59] fix: vernal_angle() compares the right ascension in
 radians

---
 include/vif/astro/astro.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/astro.hpp b/include/vif/astro/astro.hpp
index 1623d1f..ae5ad05 100644
--- a/include/vif/astro/astro.hpp
+++ b/include/vif/astro/astro.hpp
@@ -174,7 +174,7 @@ namespace astro {
         double p = sqr(sin(dec/2)) + cos(dec)*sqr(sin(ra/2));
         double e = (180/dpi)*asin(sin(dec)/(2*(sqrt(p-p*p))));
 
-        if (ra > 180.0) e = -e;
+        if (ra > dpi) e = -e;
 
         return e;
     }
-- 
2.43.0


From f971b9ede3ce5622ad287aab8946665eabe29917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 52/59] fix: replace_blocks() only splits on separators inside
 of the block

---
 include/vif/utility/bits/string-find-replace.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-find-replace.hpp b/include/vif/utility/bits/string-find-replace.hpp
index 2aaad86..461806e 100644
--- a/include/vif/utility/bits/string-find-replace.hpp
+++ b/include/vif/utility/bits/string-find-replace.hpp
@@ -177,8 +177,10 @@ namespace vif {
 
             vec1s b;
 
+            // Only consider the separators which are inside of this block
+            uint_t pe = os.find(end, p);
             p0 = os.find(sep, p);
-            while (p0 != npos) {
+            while (p0 != npos && p0 < pe) {
                 b.push_back(os.substr(p, p0-p));
                 p0 += sep.size();
                 p = p0;
-- 
2.43.0


From 2d60b7b143fc07e90481912e51fecb21d7218c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:33 +0000
Subject: [PATCH 53/59] fix: integrate() of binned data takes the bin that
 contains the lower limit

---
 include/vif/math/reduce.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/math/reduce.hpp b/include/vif/math/reduce.hpp
index 4619c56..4ad7d9e 100644
--- a/include/vif/math/reduce.hpp
+++ b/include/vif/math/reduce.hpp
@@ -798,7 +798,7 @@ namespace vif {
                 r += y.safe[i]*(x.safe[i+x.dims[1]]-x.safe[i]);
             }
 
-            r += y.safe[i0]*(x.safe[i0] - x0);
+            r += y.safe[i0-1]*(x.safe[i0] - x0);
             r += y.safe[i1]*(x1 - x.safe[i1]);
 
             return r;
-- 
2.43.0


From 7e908aeeac98fd5d6bb6d7b8f67416d7aa578628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:45 +0000
Subject: [PATCH 54/59] fix: segment(), foreach_segment() and segment_deblend()
 visit each pixel once

---
 include/vif/astro/image.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/vif/astro/image.hpp b/include/vif/astro/image.hpp
index 71397a3..f29f619 100644
--- a/include/vif/astro/image.hpp
+++ b/include/vif/astro/image.hpp
@@ -879,6 +879,7 @@ namespace astro {
             vec1u tmid = mult_ids(seg, mids[s]);
             oy.push_back(tmid[0]);
             ox.push_back(tmid[1]);
+            visited[mids[s]] = curseg;
 
             while (!ox.empty()) {
                 vec1u tox = std::move(ox), toy = std::move(oy);
@@ -952,6 +953,8 @@ namespace astro {
                         out.px.back() += ttx;
                         out.py.back() += tty;
 
+                        // Make sure this point is only visited once
+                        map.safe(tty,ttx) = 0;
                         oy.push_back(tty);
                         ox.push_back(ttx);
                     }
@@ -1172,6 +1175,7 @@ namespace astro {
                 oy.clear(); ox.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 while (!ox.empty()) {
                     vec1u tox = std::move(ox), toy = std::move(oy);
@@ -1228,6 +1232,7 @@ namespace astro {
                 ox.clear(); oy.clear();
                 oy.push_back(tmid[0]);
                 ox.push_back(tmid[1]);
+                visited[out.origin[s]] = curseg;
 
                 vec1u sids;
                 sids.reserve(out.area[s]);
-- 
2.43.0


From 52fed2c2b3f9cadf3ef3738f90252c49332d977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:33 +0000
Subject: [PATCH 55/59] fix: get_basename() of a relative directory with a
 trailing slash

---
 include/vif/io/filesystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index fad8c8e..71c978e 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -216,7 +216,7 @@ namespace file {
                 } else {
                     pos = path.find_last_of('/', pos-1);
                     if (pos == path.npos) {
-                        return path.substr(lpos);
+                        return path.substr(0, lpos);
                     } else {
                         return path.substr(pos+1, lpos-pos-1);
                     }
-- 
2.43.0


From f137dde61e190c01b7d59f2f43be264030131a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:33 +0000
Subject: [PATCH 56/59] fix: file::explorer::close() forgets the directory it
 closed

---
 include/vif/io/filesystem.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/io/filesystem.hpp b/include/vif/io/filesystem.hpp
index 71c978e..cb3b56d 100644
--- a/include/vif/io/filesystem.hpp
+++ b/include/vif/io/filesystem.hpp
@@ -105,7 +105,8 @@ namespace file {
 
             if (dirfd) {
                 closedir(dirfd);
-            };
+                dirfd = nullptr;
+            }
         }
 
         bool open(const std::string& dir, const std::string& p = "") {
-- 
2.43.0


From be4b451cc66c9a956efc4349764fcaf5a086f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:31 +0000
Subject: [PATCH 57/59] fix: regex_extract() and regex_replace() free the
 compiled expression

---
 include/vif/utility/bits/string-regex.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/vif/utility/bits/string-regex.hpp b/include/vif/utility/bits/string-regex.hpp
index 34c4f3d..fa98bf4 100644
--- a/include/vif/utility/bits/string-regex.hpp
+++ b/include/vif/utility/bits/string-regex.hpp
@@ -94,7 +94,10 @@ namespace vif {
         impl::regex::build_regex_(regex, re, REG_EXTENDED);
 
         uint_t nmatch = impl::regex::regex_find_nmatch_(regex);
-        if (nmatch == 0) return ret;
+        if (nmatch == 0) {
+            regfree(&re);
+            return ret;
+        }
 
         std::vector<regmatch_t> m(nmatch+1);
         uint_t offset = 0;
@@ -117,6 +120,7 @@ namespace vif {
             status = regexec(&re, ts.c_str() + offset, nmatch+1, m.data(), 0);
         }
 
+        regfree(&re);
         return ret;
     }
 
@@ -150,6 +154,7 @@ namespace vif {
 
         s += ts.substr(offset);
 
+        regfree(&re);
         return s;
     }
 }
-- 
2.43.0


From dee24d0d2a5d1fe27ef897c86be3e8c5bcaf2751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:09 +0000
Subject: [PATCH 58/59] fix: moving a qstack workspace keeps the positions of
 the sources

---
 include/vif/astro/qstack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vif/astro/qstack.hpp b/include/vif/astro/qstack.hpp
index 0bfda95..afdcb92 100644
--- a/include/vif/astro/qstack.hpp
+++ b/include/vif/astro/qstack.hpp
@@ -64,7 +64,7 @@ namespace impl {
 
             image_workspace(image_workspace&& i) : status(i.status), fptr(i.fptr),
                 width(i.width), height(i.height), astro(std::move(i.astro)),
-                x(std::move(x)), y(std::move(y)) {
+                x(std::move(i.x)), y(std::move(i.y)) {
                 i.fptr = nullptr;
             }
 
-- 
2.43.0


From ca140c9bd391fc50b6e9104e79e981656abbd87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:01 +0000
Subject: [PATCH 59/59] fix: allocate the WCS structure with malloc(), since
 wcsvfree() frees it

---
 include/vif/astro/wcs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vif/astro/wcs.hpp b/include/vif/astro/wcs.hpp
index 55290f3..2a5285b 100644
--- a/include/vif/astro/wcs.hpp
+++ b/include/vif/astro/wcs.hpp
@@ -1,6 +1,7 @@
 #ifndef VIF_IO_ASTRO_WCS_HPP
 #define VIF_IO_ASTRO_WCS_HPP
 
+#include <cstdlib>
 #include "vif/core/error.hpp"
 #include "vif/utility/thread.hpp"
 #include "vif/io/fits.hpp"
@@ -360,7 +361,7 @@ namespace astro {
         uint_t ra_axis = 1, dec_axis = 0;
         uint_t x_axis = 1, y_axis = 0;
 
-        explicit wcs(uint_t naxis = 2) : w(new wcsprm), nwcs(1) {
+        explicit wcs(uint_t naxis = 2) : w(static_cast<wcsprm*>(malloc(sizeof(wcsprm)))), nwcs(1) {
             w->flag = -1;
             wcsini(true, naxis, w);
 
-- 
2.43.0

