From 08a3a01520aab8cade436738a5306247b44348ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 01/35] fix: copies of hilbert_space lose algebra bit ranges
 (and self-assignment empties the space)

---
 include/libcommute/loperator/hilbert_space.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index bb4d1cd..2098b66 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -233,7 +233,8 @@ public:
 
   // Value semantics
   hilbert_space(hilbert_space const& hs)
-    : bit_range_end_(hs.bit_range_end_),
+    : algebra_bit_ranges_(hs.algebra_bit_ranges_),
+      bit_range_end_(hs.bit_range_end_),
       dim_(hs.dim_),
       foreach_alg_(hs.foreach_alg_ ?
                        make_unique<detail::sparse_foreach_basis_state>(
@@ -247,6 +248,8 @@ public:
   }
   hilbert_space(hilbert_space&&) noexcept = default;
   hilbert_space& operator=(hilbert_space const& hs) {
+    if(this == &hs) return *this;
+    algebra_bit_ranges_ = hs.algebra_bit_ranges_;
     bit_range_end_ = hs.bit_range_end_;
     elementary_spaces_.clear();
     for(auto const& es : hs.elementary_spaces_) {
-- 
2.43.0


From 2707b7fddf1b99b380bea96929b55eb0d5460203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 02/35] fix: e -= e and e += e use an erased map element when a
 term cancels

---
 include/libcommute/expression/expression.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index c56ad7f..1ea0de1 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -246,7 +246,10 @@ public:
 
   // Compound assignment/addition
   template <typename S> expression& operator+=(expression_t<S> const& expr) {
-    for(auto const& p : expr.get_monomials()) {
+    auto const& mons = expr.get_monomials();
+    for(auto p_it = mons.begin(); p_it != mons.end();) {
+      // Advance before a possible erasure: `expr` can be *this
+      auto const& p = *(p_it++);
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         monomials_.emplace(p);
@@ -261,7 +264,10 @@ public:
   // Compound assignment/subtraction
   template <typename S> expression& operator-=(expression_t<S> const& expr) {
     auto const z = scalar_traits<ScalarType>::make_const(0);
-    for(auto const& p : expr.get_monomials()) {
+    auto const& mons = expr.get_monomials();
+    for(auto p_it = mons.begin(); p_it != mons.end();) {
+      // Advance before a possible erasure: `expr` can be *this
+      auto const& p = *(p_it++);
       auto it = monomials_.find(p.first);
       if(it == monomials_.end())
         monomials_.emplace(p.first, z - p.second);
-- 
2.43.0


From d92f3335542c8dadb5380a1e0911e1e189540f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 03/35] fix: e *= alpha when alpha refers to a coefficient of e

---
 include/libcommute/expression/expression.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 1ea0de1..b508c99 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -385,9 +385,11 @@ public:
   expression& operator*=(S const& alpha) {
     if(scalar_traits<remove_cvref_t<S>>::is_zero(alpha))
       monomials_.clear();
-    else
+    else {
+      S const a(alpha); // `alpha` can refer to one of the coefficients
       for(auto& p : monomials_)
-        mul_assign(p.second, alpha);
+        mul_assign(p.second, a);
+    }
     return *this;
   }
 
-- 
2.43.0


From 90ed01b6749be175d7cc5c5b4e13ba96ada54314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 04/35] fix: conj() repeats the preceding contribution for
 negligible coefficients

---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index b508c99..6194211 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -206,8 +206,8 @@ public:
           (*m_it).conj(f);
           m_contrib *= expression(f);
         }
+        res += m_contrib;
       }
-      res += m_contrib;
     }
     return res;
   }
-- 
2.43.0


From f831596182af00d02c43937e86aa0b02e9a39349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 05/35] fix: products of spin-1/2 and higher-spin operators
 with equal indices

---
 include/libcommute/expression/generator_spin.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/generator_spin.hpp b/include/libcommute/expression/generator_spin.hpp
index 849c210..558e71c 100644
--- a/include/libcommute/expression/generator_spin.hpp
+++ b/include/libcommute/expression/generator_spin.hpp
@@ -96,7 +96,9 @@ public:
     // cppcheck-suppress-begin knownConditionTrueFalse
     auto const& g2_ = dynamic_cast<generator_spin const&>(g2);
     // cppcheck-suppress knownConditionTrueFalse
-    if(!base::equal(g2) || this->multiplicity_ != 2) return false;
+    if(!base::equal(g2) || this->multiplicity_ != 2 ||
+       g2_.multiplicity_ != 2)
+      return false;
 
     if(this->c_ == g2_.c_) {
       f.set(this->c_ == spin_component::z ? var_number(1, 4) : var_number(0));
-- 
2.43.0


From 943855dda7621b177ea7e61e47c5dd459ec11695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 06/35] fix: products brought into order by a swap are never
 simplified

---
 include/libcommute/expression/expression.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 6194211..122e4c5 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -684,6 +684,12 @@ private:
               mul_assign(coeff, scalar_traits<ScalarType>::make_const(c));
               m.swap_generators(n - 1, n);
               is_swapped = true;
+              // The swapped generators are now in order and will not
+              // necessarily be compared to each other again.
+              if(simplify_prod(m[n - 1], m[n], f)) {
+                process_f(n);
+                return;
+              }
             }
           } else { // Generators in m[n-1]*m[n] are already in order.
                    // Is a simplification of the product possible?
-- 
2.43.0


From eff11a0eae810cb92f01a5bd8f72f1d2a436c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 07/35] fix: zero contributions of one-generator and empty
 monomials are stored

---
 include/libcommute/expression/expression.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 122e4c5..0f918c9 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -701,11 +701,11 @@ private:
         }
         --n_max;
       } while(is_swapped);
-
-      // Check that coefficient in front of this monomial is not zero
-      if(scalar_traits<ScalarType>::is_zero(coeff)) return;
     }
 
+    // Check that coefficient in front of this monomial is not zero
+    if(scalar_traits<ScalarType>::is_zero(coeff)) return;
+
     // Store the result
     reduce_powers_and_store(std::move(m), coeff, target);
   }
-- 
2.43.0


From 0da27d1dfb0e1bef31de0c350dce00e0a29a98a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 08/35] fix: enumeration of Hilbert spaces with 2^31 or more
 states is truncated

---
 include/libcommute/loperator/hilbert_space.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 2098b66..f7b8459 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -76,7 +76,7 @@ public:
                     0 :
                     std::accumulate(sizes_.begin(),
                                     sizes_.end(),
-                                    1,
+                                    sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
       jumps_(init_jumps(sizes_)),
       indices_(sizes_.size()) {}
-- 
2.43.0


From a1f7ecf4b9f6cde1044c783375891d2ff360387a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 09/35] fix: nested or concurrent enumerations of a sparse
 Hilbert space corrupt each other

---
 include/libcommute/loperator/hilbert_space.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index f7b8459..214e923 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -52,8 +52,6 @@ class sparse_foreach_basis_state {
   // jumps_[d] is the additional jump in the basis state index introduced when
   // indices_[d] reaches sizes_[d] and indices_[d + 1] is incremented.
   std::vector<sv_index_type> jumps_;
-  // Current set of integers
-  std::vector<sv_index_type> mutable indices_;
 
   static std::vector<sv_index_type>
   init_jumps(std::vector<sv_index_type> const& sizes) {
@@ -78,8 +76,7 @@ public:
                                     sizes_.end(),
                                     sv_index_type(1),
                                     std::multiplies<sv_index_type>())),
-      jumps_(init_jumps(sizes_)),
-      indices_(sizes_.size()) {}
+      jumps_(init_jumps(sizes_)) {}
 
   // Value semantics
   sparse_foreach_basis_state(sparse_foreach_basis_state const&) = default;
@@ -91,18 +88,19 @@ public:
   ~sparse_foreach_basis_state() = default;
 
   template <typename Function> inline void operator()(Function&& f) const {
-    std::fill(indices_.begin(), indices_.end(), 0);
+    // Current set of integers
+    std::vector<sv_index_type> indices(sizes_.size(), 0);
     sv_index_type state = 0;
     for(sv_index_type i = 0; i < n_states_; ++i) {
       std::forward<Function>(f)(state);
-      ++indices_[0];
+      ++indices[0];
       ++state;
 
       for(std::size_t d = 0;
-          d < indices_.size() - 1 && indices_[d] == sizes_[d];
+          d < indices.size() - 1 && indices[d] == sizes_[d];
           ++d) {
-        indices_[d] = 0;
-        ++indices_[d + 1];
+        indices[d] = 0;
+        ++indices[d + 1];
         state += jumps_[d];
       }
     }
-- 
2.43.0


From b7ba0ec1c8e0a3a9b62ebc5e0994e10a0f3ef51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 10/35] fix: compressed views of one-dimensional Hilbert spaces
 skip their only state

---
 include/libcommute/loperator/compressed_state_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/compressed_state_view.hpp b/include/libcommute/loperator/compressed_state_view.hpp
index 8a8032e..93e5e3a 100644
--- a/include/libcommute/loperator/compressed_state_view.hpp
+++ b/include/libcommute/loperator/compressed_state_view.hpp
@@ -95,7 +95,7 @@ private:
             mask = 0;
           }
         });
-    if(dim != 1) {
+    if(dim != 1 || (hs.size() != 0 && sizes.empty())) {
       sizes.push_back(dim);
       masks.push_back(mask);
     }
-- 
2.43.0


From b81771a35b87094360040ff8205c5664e5b0207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 11/35] fix: too few bits are allocated for very large bosonic
 spaces

---
 .../libcommute/loperator/elementary_space_boson.hpp   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/elementary_space_boson.hpp b/include/libcommute/loperator/elementary_space_boson.hpp
index 3ffd78c..b455e4b 100644
--- a/include/libcommute/loperator/elementary_space_boson.hpp
+++ b/include/libcommute/loperator/elementary_space_boson.hpp
@@ -20,7 +20,6 @@
 #include "elementary_space.hpp"
 
 #include <cassert>
-#include <cmath>
 
 namespace libcommute {
 
@@ -39,7 +38,7 @@ public:
   elementary_space_boson(sv_index_type dim, Args&&... indices)
     : base(std::forward<Args>(indices)...),
       dim_(dim),
-      n_bits_(std::ceil(std::log2(dim))) {
+      n_bits_(compute_n_bits(dim)) {
     assert(dim > 0);
   }
   elementary_space_boson(elementary_space_boson const&) = default;
@@ -71,6 +70,14 @@ private:
 
   // ceil(log_2(dim))
   int const n_bits_;
+
+  // Floating point log_2() is not accurate enough for large dimensions
+  static int compute_n_bits(sv_index_type dim) {
+    int n_bits = 0;
+    for(sv_index_type n_max = dim - 1; n_max != 0; n_max >>= 1)
+      ++n_bits;
+    return n_bits;
+  }
 };
 
 namespace static_indices {
-- 
2.43.0


From 37f316075635a6355ea853e96ed5beabab6a621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 12/35] fix: hilbert_space::add() corrupts the space when the
 result is too big

---
 include/libcommute/loperator/hilbert_space.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 214e923..d200731 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -287,7 +287,14 @@ public:
   void add(elementary_space_t const& es) {
     auto r = elementary_spaces_.emplace(es.clone(), bit_range_t(0, 0));
     if(!r.second) throw elementary_space_exists(es);
-    recompute_bit_ranges();
+    try {
+      recompute_bit_ranges();
+    } catch(hilbert_space_too_big const&) {
+      // Restore the original state of this Hilbert space
+      elementary_spaces_.erase(r.first);
+      recompute_bit_ranges();
+      throw;
+    }
     dim_ *= es.dim();
     init_foreach_alg();
   }
-- 
2.43.0


From 235ee41577ae93d8b985a64082bacfc10332214f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 13/35] fix: Hilbert spaces with different boson dimensions
 compare equal

---
 include/libcommute/loperator/hilbert_space.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index d200731..4b0a148 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -275,7 +275,9 @@ public:
                       hs1.elementary_spaces_.end(),
                       hs2.elementary_spaces_.begin(),
                       [](value_type const& v1, value_type const& v2) {
-                        return *v1.first == *v2.first && v1.second == v2.second;
+                        return *v1.first == *v2.first &&
+                               v1.first->dim() == v2.first->dim() &&
+                               v1.second == v2.second;
                       });
   }
   inline friend bool operator!=(hilbert_space const& hs1,
-- 
2.43.0


From 44f436dba1c0fee2282985df98e0c2a13ae7bc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 14/35] fix: multisector masks are truncated to 32 bits

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 640d380..43868b1 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -97,7 +97,7 @@ private:
   }
 
   template <typename... IndexTypes>
-  static unsigned int
+  static sv_index_type
   init_mask(hilbert_space<IndexTypes...> const& hs,
             sector_descriptor<hilbert_space<IndexTypes...>> const& sector) {
     sv_index_type m = 0;
-- 
2.43.0


From 821a35087c8c0490a17ba346aba85e9ca2f5edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 15/35] fix: overflow in binomial coefficients for 62 and more
 fermionic modes

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 43868b1..35e333c 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -54,8 +54,11 @@ inline sv_index_type binomial(unsigned int n, unsigned int k) {
   if(k > n) return 0;
   if(k > n / 2) k = n - k;
   sv_index_type C = 1;
-  for(unsigned int i = 0; i < k; ++i)
-    C = (C * (n - i)) / (i + 1);
+  for(unsigned int i = 0; i < k; ++i) {
+    // C * (n - i) / (i + 1) without overflows in the intermediate result
+    sv_index_type const q = C / (i + 1), r = C % (i + 1);
+    C = q * (n - i) + r * (n - i) / (i + 1);
+  }
   return C;
 }
 
-- 
2.43.0


From 624c5db907ef4b0d0f74bd260903bb395de546b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 16/35] fix: copied and moved multisector views refer to the
 original view

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 35e333c..bb82c21 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -717,7 +717,7 @@ unsigned int make_nonmultisector_mask(HSType const& hs,
 class multisector_unranking_generator {
 
   // Parameters of sectors
-  detail::sector_params_vec_t const& sector_params;
+  detail::sector_params_vec_t sector_params;
 
   // State unranking generators for each sector
   std::vector<unranking_generator> sector_gens;
-- 
2.43.0


From c3644006a82b95400514081fea8bfcd47c762520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 17/35] fix: enumeration of multisectors with 2^31 or more
 states is truncated

---
 include/libcommute/loperator/n_fermion_sector_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index bb82c21..0840b58 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -742,7 +742,7 @@ public:
       sector_gens(params.begin(), params.end()),
       total(std::accumulate(sector_gens.begin(),
                             sector_gens.end(),
-                            1,
+                            sv_index_type(1),
                             [](sv_index_type n, unranking_generator const& g) {
                               return n * g.size();
                             })),
-- 
2.43.0


From 5810f5e51a5e3a4ad242a88a69bd2cd8a3b75670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 18/35] fix: nested or concurrent traversals of a sector view
 corrupt each other

---
 .../loperator/n_fermion_sector_view.hpp        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/libcommute/loperator/n_fermion_sector_view.hpp b/include/libcommute/loperator/n_fermion_sector_view.hpp
index 0840b58..b02353b 100644
--- a/include/libcommute/loperator/n_fermion_sector_view.hpp
+++ b/include/libcommute/loperator/n_fermion_sector_view.hpp
@@ -571,9 +571,12 @@ foreach(n_fermion_sector_view<StateVector, Ref, RankingAlgorithm> const& view,
   sv_index_type const dim_nonfermion = detail::pow2(view.M_nonfermion);
   sv_index_type sector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type const unranked = view.unranking.next();
+  // The view can be in use by other calls to foreach()
+  auto const unranking = view.unranking;
+
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type const unranked = unranking.next();
     for(sv_index_type index_nf = 0; index_nf < dim_nonfermion; ++index_nf) {
 
       // Emulate decltype(auto)
@@ -958,9 +961,12 @@ inline void foreach(
   sv_index_type const dim_nonmultisector = detail::pow2(view.M_nonmultisector);
   sv_index_type multisector_index = 0;
 
-  view.unranking.init();
-  while(!view.unranking.done()) {
-    sv_index_type unranked = view.unranking.next();
+  // The view can be in use by other calls to foreach()
+  auto const unranking = view.unranking;
+
+  unranking.init();
+  while(!unranking.done()) {
+    sv_index_type unranked = unranking.next();
     for(sv_index_type index_nms = 0; index_nms < dim_nonmultisector;
         ++index_nms) {
 
-- 
2.43.0


From c91fe8509518033d261e072f6cf1321945b1050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 19/35] fix: disjoint_sets::compress_sets() leaves some
 elements uncompressed

---
 include/libcommute/loperator/disjoint_sets.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/disjoint_sets.hpp b/include/libcommute/loperator/disjoint_sets.hpp
index 3287b38..cde20ed 100644
--- a/include/libcommute/loperator/disjoint_sets.hpp
+++ b/include/libcommute/loperator/disjoint_sets.hpp
@@ -108,7 +108,7 @@ public:
 
   // Compress all sets (make every element represented by its parent)
   void compress_sets() {
-    for(std::size_t x : parents_)
+    for(std::size_t x = 0; x < size(); ++x)
       find_root(x);
   }
 
-- 
2.43.0


From 5451ad4789aff118fb92d58b776ff8f3dcd65cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 20/35] fix: merge_subspaces() misses targets of previously
 merged subspaces

---
 .../libcommute/loperator/space_partition.hpp  | 26 ++++++++-----------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 429c8e1..6a5ea38 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -177,21 +177,17 @@ public:
 
       bool subspaces_linked = false;
 
-      auto conn_it = conn.cbegin();
-      sv_index_type in_subspace = ds.find_root(conn_it->first);
-      sv_index_type out_subspace = ds.find_root(conn_it->second);
-      ++conn_it;
-      for(; conn_it != conn.cend(); ++conn_it) {
-        if(ds.find_root(conn_it->first) == ds.find_root(in_subspace)) {
-          sv_index_type out_subspace1 = ds.find_root(out_subspace);
-          sv_index_type out_subspace2 = ds.find_root(conn_it->second);
-          if(out_subspace1 != out_subspace2) {
-            ds.root_union(out_subspace1, out_subspace2);
-            subspaces_linked = true;
-          }
-        } else {
-          in_subspace = ds.find_root(conn_it->first);
-          out_subspace = ds.find_root(conn_it->second);
+      // 'In' subspaces that have been merged together are not necessarily
+      // adjacent in 'conn'.
+      std::map<sv_index_type, sv_index_type> in_to_out;
+      for(auto const& c : conn) {
+        auto r = in_to_out.emplace(ds.find_root(c.first), c.second);
+        if(r.second) continue;
+        sv_index_type out_subspace1 = ds.find_root(r.first->second);
+        sv_index_type out_subspace2 = ds.find_root(c.second);
+        if(out_subspace1 != out_subspace2) {
+          ds.root_union(out_subspace1, out_subspace2);
+          subspaces_linked = true;
         }
       }
 
-- 
2.43.0


From bf1afe98fe75aa47d255b81897c49a8ea41c34d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 21/35] fix: rvalue arguments of parametric operators are moved
 from after the first coefficient

---
 include/libcommute/loperator/loperator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/loperator/loperator.hpp b/include/libcommute/loperator/loperator.hpp
index 9843151..c894174 100644
--- a/include/libcommute/loperator/loperator.hpp
+++ b/include/libcommute/loperator/loperator.hpp
@@ -225,9 +225,9 @@ public:
   inline loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...>
   at(CoeffArgs&&... args) const {
     loperator<evaluated_coeff_t<CoeffArgs...>, AlgebraIDs...> lop;
+    // All coefficients are evaluated at the same arguments: Do not move them
     for(auto const& m : base::m_actions()) {
-      lop.add_monomial_action(m.first,
-                              m.second(std::forward<CoeffArgs>(args)...));
+      lop.add_monomial_action(m.first, m.second(args...));
     }
     return lop;
   }
@@ -247,7 +247,7 @@ private:
     evaluated_coeffs.reserve(m_act.size());
     for(auto const& a : m_act)
       // cppcheck-suppress useStlAlgorithm
-      evaluated_coeffs.emplace_back(a.second(std::forward<CoeffArgs>(args)...));
+      evaluated_coeffs.emplace_back(a.second(args...));
 
     // Apply monomials
     foreach(
-- 
2.43.0


From 0c8c97ec2e4e44c18a0dfd6a5343d8b934fc0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 22/35] fix: basis_mapper applies products of operators in the
 reverse order

---
 include/libcommute/loperator/mapped_basis_view.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/libcommute/loperator/mapped_basis_view.hpp b/include/libcommute/loperator/mapped_basis_view.hpp
index 0e2a4ad..b7832f1 100644
--- a/include/libcommute/loperator/mapped_basis_view.hpp
+++ b/include/libcommute/loperator/mapped_basis_view.hpp
@@ -149,16 +149,18 @@ class basis_mapper {
               });
     }
 
-    if(std::size_t(m) == O_list.size()) return;
+    if(m == 0) return;
 
-    compositions_constructor_impl(O_list, st, m + 1, sum_n, N);
+    // Rightmost operators act first
+    --m;
+    compositions_constructor_impl(O_list, st, m, sum_n, N);
 
     auto from_st = st;
     auto to_st = zeros_like(st);
     for(; sum_n < N; ++sum_n) {
       O_list[m](from_st, to_st);
       if(to_st.n_nonzeros() == 0) return;
-      compositions_constructor_impl(O_list, to_st, m + 1, sum_n + 1, N);
+      compositions_constructor_impl(O_list, to_st, m, sum_n + 1, N);
       from_st = to_st;
     }
   }
@@ -208,7 +210,7 @@ public:
         typename loperator<LOpScalarType, LOpAlgebraIDs...>::scalar_type;
     sparse_state_vector<scalar_type> vac(get_vec_size(hs));
     vac[0] = 1;
-    compositions_constructor_impl(O_list, vac, 0, 0, N);
+    compositions_constructor_impl(O_list, vac, int(O_list.size()), 0, N);
   }
 
   // Number of basis states in the mapping
-- 
2.43.0


From 55645779fe3643ecaf29756bcd4fb4dc6b77faae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 23/35] fix: unknown bosonic generators are accepted after a
 vanishing power

---
 include/libcommute/loperator/monomial_action_boson.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/monomial_action_boson.hpp b/include/libcommute/loperator/monomial_action_boson.hpp
index d117e42..b2aec92 100644
--- a/include/libcommute/loperator/monomial_action_boson.hpp
+++ b/include/libcommute/loperator/monomial_action_boson.hpp
@@ -100,7 +100,8 @@ public:
         // Application of this monomial would inevitably give 0. Skipping.
         if(power > n_max) {
           vanishing_ = true;
-          return;
+          power = 1;
+          continue;
         }
 
         bool dagger =
-- 
2.43.0


From bd494ad8d91177083e156570509eedc6586bd652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 24/35] fix: iterators to empty monomials are advanced

---
 include/libcommute/expression/monomial.hpp             | 1 +
 include/libcommute/loperator/monomial_action_boson.hpp | 2 ++
 include/libcommute/loperator/monomial_action_spin.hpp  | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/include/libcommute/expression/monomial.hpp b/include/libcommute/expression/monomial.hpp
index 311f1ae..9d2d0a5 100644
--- a/include/libcommute/expression/monomial.hpp
+++ b/include/libcommute/expression/monomial.hpp
@@ -184,6 +184,7 @@ public:
 
   // Print to stream
   friend std::ostream& operator<<(std::ostream& os, monomial const& m) {
+    if(m.empty()) return os;
     auto it = m.begin(), end_it = m.end();
     auto next_it = it + 1;
     int power = 1;
diff --git a/include/libcommute/loperator/monomial_action_boson.hpp b/include/libcommute/loperator/monomial_action_boson.hpp
index b2aec92..51476ad 100644
--- a/include/libcommute/loperator/monomial_action_boson.hpp
+++ b/include/libcommute/loperator/monomial_action_boson.hpp
@@ -74,6 +74,8 @@ public:
   template <typename... IndexTypes>
   monomial_action(detail::monomial_range_t<IndexTypes...> const& m_range,
                   hilbert_space<IndexTypes...> const& hs) {
+    if(m_range.first == m_range.second) return;
+
     sv_index_type sqr_roots_size = 0;
 
     auto it = m_range.first;
diff --git a/include/libcommute/loperator/monomial_action_spin.hpp b/include/libcommute/loperator/monomial_action_spin.hpp
index 0b4ee41..fb0ee48 100644
--- a/include/libcommute/loperator/monomial_action_spin.hpp
+++ b/include/libcommute/loperator/monomial_action_spin.hpp
@@ -75,6 +75,8 @@ public:
   template <typename... IndexTypes>
   monomial_action(detail::monomial_range_t<IndexTypes...> const& m_range,
                   hilbert_space<IndexTypes...> const& hs) {
+    if(m_range.first == m_range.second) return;
+
     sv_index_type sqr_roots_size = 0;
 
     auto it = m_range.first;
-- 
2.43.0


From 1080841e6bc7180292bae04e32833b92712e8969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:36 +0000
Subject: [PATCH 25/35] fix: rational constants of type mpq_class are not in
 the canonical form

---
 include/libcommute/scalars/gmpxx.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libcommute/scalars/gmpxx.hpp b/include/libcommute/scalars/gmpxx.hpp
index 0f9ce71..549b2d7 100644
--- a/include/libcommute/scalars/gmpxx.hpp
+++ b/include/libcommute/scalars/gmpxx.hpp
@@ -123,9 +123,11 @@ template <> struct scalar_traits<mpq_class> {
   static mpq_class make_const(var_number const& vn) {
     if(vn.number_type == var_number::integer)
       return int(vn);
-    else if(vn.number_type == var_number::rational)
-      return {vn.numerator(), vn.denominator()};
-    else {
+    else if(vn.number_type == var_number::rational) {
+      mpq_class q(vn.numerator(), vn.denominator());
+      q.canonicalize();
+      return q;
+    } else {
       std::stringstream ss;
       ss << vn;
       throw std::runtime_error("Cannot convert the variant number " + ss.str() +
-- 
2.43.0


From edb61f3d4aa80f96d9a7e9d01accec8b1c22edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 26/35] fix: products are not simplified after a power is
 reduced to a constant

---
 include/libcommute/expression/expression.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 0f918c9..4181053 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -735,7 +735,7 @@ private:
             auto v = scalar_traits<ScalarType>::make_const(f.const_term);
             // cppcheck-suppress knownConditionTrueFalse
             if(!scalar_traits<ScalarType>::is_zero(v))
-              reduce_powers_and_store(
+              normalize_and_store(
                   concatenate(std::make_pair(m.begin(), it - power + 2),
                               std::make_pair(next_it + 1, end_it)),
                   coeff * v,
-- 
2.43.0


From 46ad461183f39dd67bf6f223929c4330f390784f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 27/35] fix: basis_state_index() shifts by 64 bits for absent
 oversized spaces

---
 include/libcommute/loperator/hilbert_space.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/hilbert_space.hpp b/include/libcommute/loperator/hilbert_space.hpp
index 4b0a148..d5880e5 100644
--- a/include/libcommute/loperator/hilbert_space.hpp
+++ b/include/libcommute/loperator/hilbert_space.hpp
@@ -391,8 +391,10 @@ public:
   // |0> |0> ... |0> |n>_{es} |0> ... |0>.
   sv_index_type basis_state_index(elementary_space_t const& es,
                                   sv_index_type n) {
+    // If 'es' belongs to this Hilbert space, then es.n_bits() <= max_n_bits
+    bit_range_t const range = bit_range(es);
     assert(n < (sv_index_type(1) << es.n_bits()));
-    return n << bit_range(es).first;
+    return n << range.first;
   }
 
 private:
-- 
2.43.0


From ebde872fce5db1d967cbe0237466c36e73bcfcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 28/35] fix: portable implementation of popcount()

---
 include/libcommute/loperator/bit_ops.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/libcommute/loperator/bit_ops.hpp b/include/libcommute/loperator/bit_ops.hpp
index b3e7c69..8a4af11 100644
--- a/include/libcommute/loperator/bit_ops.hpp
+++ b/include/libcommute/loperator/bit_ops.hpp
@@ -57,13 +57,11 @@ inline unsigned int popcount(std::uint64_t i) {
 #if defined(__GNUC__) || defined(__clang__)
   return __builtin_popcountll(i);
 #else
-  i ^= i >> 32;
-  i ^= i >> 16;
-  i ^= i >> 8;
-  i ^= i >> 4;
-  i ^= i >> 2;
-  i ^= i >> 1;
-  return i;
+  // https://graphics.stanford.edu/%7Eseander/bithacks.html#CountBitsSetKernighan
+  unsigned int n = 0;
+  for(; i != 0; ++n)
+    i &= i - 1;
+  return n;
 #endif
 }
 
-- 
2.43.0


From 4241e024c81fc619de46d197d3ff809b0de11d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 29/35] fix: repeated merge_subspaces() calls break earlier
 one-to-one conditions

---
 .../libcommute/loperator/space_partition.hpp  | 28 ++++++++++++-------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/libcommute/loperator/space_partition.hpp b/include/libcommute/loperator/space_partition.hpp
index 6a5ea38..ff65023 100644
--- a/include/libcommute/loperator/space_partition.hpp
+++ b/include/libcommute/loperator/space_partition.hpp
@@ -55,6 +55,9 @@ template <typename HSType> class space_partition {
   disjoint_sets ds;
   // Map representative basis state to subspace index
   std::map<sv_index_type, sv_index_type> root_to_subspace;
+  // Connections between basis states that must remain one-to-one between
+  // the subspaces they belong to
+  std::vector<connections_map> conns;
 
   template <typename LOpScalarType, int... LOpAlgebraIDs>
   using loperator_melem_t = matrix_elements_map<
@@ -140,12 +143,11 @@ public:
     using scalar_type = typename loperator_t::scalar_type;
     matrix_elements_map<scalar_type> Cd_elements, C_elements;
 
-    using conn_t = std::multimap<sv_index_type, sv_index_type>;
-    conn_t Cd_conn, C_conn;
+    connections_map Cd_conn, C_conn;
 
     sv_index_type d = get_vec_size(hs);
 
-    // Fill connection multimaps
+    // Fill connection maps
     sparse_state_vector<scalar_type> in_state(d);
     sparse_state_vector<scalar_type> out_state(d);
     foreach(hs, [&](sv_index_type in_index) {
@@ -153,13 +155,13 @@ public:
       sv_index_type in_subspace = ds.find_root(in_index);
 
       auto fill_conn = [&, this](loperator_t const& lop,
-                                 conn_t& conn,
+                                 connections_map& conn,
                                  matrix_elements_map<scalar_type>& elem) {
         lop(in_state, out_state);
         // Iterate over non-zero final amplitudes
         foreach(out_state, [&](sv_index_type out_index, scalar_type const& a) {
           sv_index_type out_subspace = ds.find_root(out_index);
-          conn.insert({in_subspace, out_subspace});
+          conn.emplace(in_subspace, out_subspace);
           if(store_matrix_elements) elem[{out_index, in_index}] = a;
         });
       };
@@ -172,7 +174,7 @@ public:
 
     // Merge all 'out' subspaces corresponding to the same 'in' subspace
     // in 'conn'.
-    auto merge_conn_targets = [this](conn_t const& conn) -> bool {
+    auto merge_conn_targets = [this](connections_map const& conn) -> bool {
       if(conn.empty()) return false;
 
       bool subspaces_linked = false;
@@ -194,14 +196,20 @@ public:
       return subspaces_linked;
     };
 
+    // Connections found by the previous calls must stay one-to-one as well
+    conns.emplace_back(std::move(Cd_conn));
+    conns.emplace_back(std::move(C_conn));
+
     // Repeatedly call merge_conn_targets() until no further subspaces can
     // be merged.
     // NOLINTNEXTLINE(cppcoreguidelines-init-variables)
-    bool sl_Cd, sl_C;
+    bool subspaces_linked;
     do {
-      sl_Cd = merge_conn_targets(Cd_conn);
-      sl_C = merge_conn_targets(C_conn);
-    } while(sl_Cd || sl_C);
+      subspaces_linked = false;
+      for(auto const& conn : conns) {
+        if(merge_conn_targets(conn)) subspaces_linked = true;
+      }
+    } while(subspaces_linked);
 
     update_root_to_subspace();
 
-- 
2.43.0


From f6f85e64cfa4131cb45028086fcb3db24553c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:40 +0000
Subject: [PATCH 30/35] fix: iterators are advanced past the end of monomials

---
 include/libcommute/expression/monomial.hpp             | 4 ++--
 include/libcommute/loperator/monomial_action_boson.hpp | 7 ++++---
 include/libcommute/loperator/monomial_action_spin.hpp  | 7 ++++---
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/libcommute/expression/monomial.hpp b/include/libcommute/expression/monomial.hpp
index 9d2d0a5..df82abd 100644
--- a/include/libcommute/expression/monomial.hpp
+++ b/include/libcommute/expression/monomial.hpp
@@ -186,9 +186,9 @@ public:
   friend std::ostream& operator<<(std::ostream& os, monomial const& m) {
     if(m.empty()) return os;
     auto it = m.begin(), end_it = m.end();
-    auto next_it = it + 1;
     int power = 1;
-    for(; it != end_it; ++it, ++next_it) {
+    for(; it != end_it; ++it) {
+      auto next_it = it + 1;
       if(next_it == end_it || *next_it != *it) {
         os << (power > 1 ? "[" : "") << *it
            << (power > 1 ? "]^" + std::to_string(power) : "");
diff --git a/include/libcommute/loperator/monomial_action_boson.hpp b/include/libcommute/loperator/monomial_action_boson.hpp
index 51476ad..a88df6b 100644
--- a/include/libcommute/loperator/monomial_action_boson.hpp
+++ b/include/libcommute/loperator/monomial_action_boson.hpp
@@ -79,12 +79,13 @@ public:
     sv_index_type sqr_roots_size = 0;
 
     auto it = m_range.first;
-    auto next_it = it;
-    ++next_it;
     auto end_it = m_range.second;
 
     sv_index_type power = 1;
-    for(; it != end_it; ++it, ++next_it) {
+    for(; it != end_it; ++it) {
+      auto next_it = it;
+      ++next_it;
+
       if(!is_boson(*it)) throw unknown_generator<IndexTypes...>(*it);
 
       if(next_it == end_it || *next_it != *it) {
diff --git a/include/libcommute/loperator/monomial_action_spin.hpp b/include/libcommute/loperator/monomial_action_spin.hpp
index fb0ee48..103d777 100644
--- a/include/libcommute/loperator/monomial_action_spin.hpp
+++ b/include/libcommute/loperator/monomial_action_spin.hpp
@@ -80,12 +80,13 @@ public:
     sv_index_type sqr_roots_size = 0;
 
     auto it = m_range.first;
-    auto next_it = it;
-    ++next_it;
     auto end_it = m_range.second;
 
     sv_index_type power = 1;
-    for(; it != end_it; ++it, ++next_it) {
+    for(; it != end_it; ++it) {
+      auto next_it = it;
+      ++next_it;
+
       if(!is_spin(*it)) throw unknown_generator<IndexTypes...>(*it);
 
       if(next_it == end_it || *next_it != *it) {
-- 
2.43.0


From 6128b06ba31b0f058844798e10de93c78917d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:46 +0000
Subject: [PATCH 31/35] fix: iterators are moved before the beginning of
 monomials

---
 include/libcommute/expression/expression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index 4181053..e2f5c86 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -736,7 +736,7 @@ private:
             // cppcheck-suppress knownConditionTrueFalse
             if(!scalar_traits<ScalarType>::is_zero(v))
               normalize_and_store(
-                  concatenate(std::make_pair(m.begin(), it - power + 2),
+                  concatenate(std::make_pair(m.begin(), it - (power - 2)),
                               std::make_pair(next_it + 1, end_it)),
                   coeff * v,
                   target);
@@ -745,7 +745,7 @@ private:
               // cppcheck-suppress knownConditionTrueFalse
               if(!scalar_traits<ScalarType>::is_zero(v))
                 normalize_and_store(
-                    concatenate(std::make_pair(m.begin(), it - power + 2),
+                    concatenate(std::make_pair(m.begin(), it - (power - 2)),
                                 *g.first,
                                 std::make_pair(next_it + 1, end_it)),
                     coeff * v,
-- 
2.43.0


From 8c7a1843225183a563637f026fb1d26365253ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:31 +0000
Subject: [PATCH 32/35] fix: conj() does not compile in C++20

std::reverse_iterator requires that value_type of the underlying iterator
is an object type since C++20, while the iterators of monomials declared
a reference.
---
 include/libcommute/expression/monomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libcommute/expression/monomial.hpp b/include/libcommute/expression/monomial.hpp
index df82abd..d77f0cf 100644
--- a/include/libcommute/expression/monomial.hpp
+++ b/include/libcommute/expression/monomial.hpp
@@ -268,7 +268,7 @@ class monomial<IndexTypes...>::const_iterator {
 
 public:
   using iterator_category = std::random_access_iterator_tag;
-  using value_type = generator_type const&;
+  using value_type = generator_type;
   using difference_type = std::ptrdiff_t;
   using pointer = std::shared_ptr<const generator_type> const&;
   using reference = generator_type const&;
-- 
2.43.0


From c89fd20fa2900cf919bffaa4aa1acc4c9de623b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:09 +0000
Subject: [PATCH 33/35] fix: reduce_power() of spins leaves its result unset

generator_spin::reduce_power() returned true for vanishing powers of S_+
and S_- without writing the linear function f(g) = 0.
---
 include/libcommute/expression/generator_spin.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/expression/generator_spin.hpp b/include/libcommute/expression/generator_spin.hpp
index 558e71c..59b52bf 100644
--- a/include/libcommute/expression/generator_spin.hpp
+++ b/include/libcommute/expression/generator_spin.hpp
@@ -125,7 +125,11 @@ public:
   bool reduce_power(int power, linear_function_t& f) const override {
     assert(power > 2);
     // Raising and lowering operators are nilpotent
-    return c_ != spin_component::z && power >= multiplicity_;
+    if(c_ != spin_component::z && power >= multiplicity_) {
+      f.set(0);
+      return true;
+    } else
+      return false;
   }
 
   // Accessors
-- 
2.43.0


From 9a57c4f96124e219914167a7b31094d804f55964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:15 +0000
Subject: [PATCH 34/35] fix: multiplication by scalars keeps vanishing terms

Products of non-zero scalars can be zero (zero divisors of a ring, values
below the tolerance). Such terms were stored by expr * alpha, alpha * expr and
expr *= alpha but not by expr * expression(alpha), so that equal expressions
compared different.
---
 include/libcommute/expression/expression.hpp | 38 +++++++++++++++++---
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/libcommute/expression/expression.hpp b/include/libcommute/expression/expression.hpp
index e2f5c86..fa78a4d 100644
--- a/include/libcommute/expression/expression.hpp
+++ b/include/libcommute/expression/expression.hpp
@@ -389,6 +389,7 @@ public:
       S const a(alpha); // `alpha` can refer to one of the coefficients
       for(auto& p : monomials_)
         mul_assign(p.second, a);
+      erase_zeros();
     }
     return *this;
   }
@@ -764,6 +765,27 @@ private:
   // Multiplication by scalar
   //
 
+  // A product of non-zero scalars can be zero. Products of types without
+  // scalar_traits (such as expression templates of GMP) are not tested.
+  template <typename S>
+  static auto is_zero_product(S const& x, int)
+      -> decltype(scalar_traits<S>::is_zero(x)) {
+    return scalar_traits<S>::is_zero(x);
+  }
+  template <typename S> static bool is_zero_product(S const&, long) {
+    return false;
+  }
+
+  // Remove all terms with zero coefficients
+  void erase_zeros() {
+    for(auto it = monomials_.begin(); it != monomials_.end();) {
+      if(scalar_traits<ScalarType>::is_zero(it->second))
+        it = monomials_.erase(it);
+      else
+        ++it;
+    }
+  }
+
   // Multiplication by scalar (postfix form)
   // mul_res_t<ScalarType, S> == ScalarType
   template <typename S>
@@ -772,6 +794,7 @@ private:
     expression res(*this);
     for(auto& p : res.monomials_)
       mul_assign(p.second, alpha);
+    res.erase_zeros();
     return res;
   }
 
@@ -783,8 +806,11 @@ private:
   mul_const_postfix_impl(S&& alpha, std::false_type) const {
     expression_t<mul_res_t<ScalarType, S>> res;
     auto& res_mons = res.get_monomials();
-    for(auto const& p : monomials_)
-      res_mons.emplace_hint(res_mons.end(), p.first, p.second * alpha);
+    for(auto const& p : monomials_) {
+      auto val = p.second * alpha;
+      if(!is_zero_product(val, 0))
+        res_mons.emplace_hint(res_mons.end(), p.first, val);
+    }
     return res;
   }
 
@@ -796,6 +822,7 @@ private:
     expression res(*this);
     for(auto& p : res.monomials_)
       p.second = alpha * p.second;
+    res.erase_zeros();
     return res;
   }
 
@@ -807,8 +834,11 @@ private:
   mul_const_prefix_impl(S&& alpha, std::false_type) const {
     expression_t<mul_res_t<S, ScalarType>> res;
     auto& res_mons = res.get_monomials();
-    for(auto const& p : monomials_)
-      res_mons.emplace_hint(res_mons.end(), p.first, alpha * p.second);
+    for(auto const& p : monomials_) {
+      auto val = alpha * p.second;
+      if(!is_zero_product(val, 0))
+        res_mons.emplace_hint(res_mons.end(), p.first, val);
+    }
     return res;
   }
 
-- 
2.43.0


From 19999634260af6cdd2305ff0aefb76a892f07224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:05 +0000
Subject: [PATCH 35/35] fix: copying a non-constant es_constructor loses its
 settings

---
 include/libcommute/loperator/es_constructor.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/libcommute/loperator/es_constructor.hpp b/include/libcommute/loperator/es_constructor.hpp
index 7b38ece..0312849 100644
--- a/include/libcommute/loperator/es_constructor.hpp
+++ b/include/libcommute/loperator/es_constructor.hpp
@@ -25,6 +25,7 @@
 #include <memory>
 #include <sstream>
 #include <stdexcept>
+#include <tuple>
 #include <type_traits>
 #include <utility>
 
@@ -127,7 +128,12 @@ class es_constructor : public detail::es_constructor_impl<AlgebraIDs...> {
   using base = detail::es_constructor_impl<AlgebraIDs...>;
 
 public:
-  template <typename... Args>
+  // Copies and moves are left to the respective special member functions, even
+  // when the source object is not constant
+  template <typename... Args,
+            typename = typename std::enable_if<
+                !std::is_same<std::tuple<remove_cvref_t<Args>...>,
+                              std::tuple<es_constructor>>::value>::type>
   // cppcheck-suppress noExplicitConstructor
   inline es_constructor(Args&&... args) : base(std::forward<Args>(args)...) {}
 };
-- 
2.43.0

