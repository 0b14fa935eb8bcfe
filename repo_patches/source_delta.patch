From d275a463798c48b2195480569bdd71bb8f8c8984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 01/59] fix: bit reversal of a range that ends at the word
 width

The mask of the reversed range was built with a shift by the full word
width, so the low bits were kept (or duplicated) instead of replaced.
---
 src/libspu/mpc/aby3/boolean.cc   | 3 ++-
 src/libspu/mpc/utils/ring_ops.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index d83066a..d3404b8 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -496,13 +496,14 @@ NdArrayRef BitrevB::proc(KernelEvalContext*, const NdArrayRef& in, size_t start,
 
       auto bitrev_fn = [&](out_el_t el) -> out_el_t {
         out_el_t tmp = 0U;
+        out_el_t mask = 0U;
         for (size_t idx = start; idx < end; idx++) {
+          mask |= (out_el_t)1 << idx;
           if (el & ((out_el_t)1 << idx)) {
             tmp |= (out_el_t)1 << (end - 1 - idx + start);
           }
         }
 
-        out_el_t mask = ((out_el_t)1U << end) - ((out_el_t)1U << start);
         return (el & ~mask) | tmp;
       };
 
diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index e0e67b2..9e410c3 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -148,13 +148,14 @@ void ring_bitrev_impl(NdArrayRef& ret, const NdArrayRef& x, size_t start,
     // optimize: use faster reverse method.
     auto bitrev_fn = [&](U in) -> U {
       U tmp = 0U;
+      U mask = 0U;
       for (size_t idx = start; idx < end; idx++) {
+        mask |= (U)1 << idx;
         if (in & ((U)1 << idx)) {
           tmp |= (U)1 << (end - 1 - idx + start);
         }
       }
 
-      U mask = ((U)1U << end) - ((U)1U << start);
       return (in & ~mask) | tmp;
     };
 
-- 
2.43.0


From c1d43c8bd8629a771f97eb12e4c50b94720fb74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:26 +0000
Subject: [PATCH 02/59] fix: aby3 role assignment when the public pivot is
 within 2 of its maximum

(pivot + 1) % 3 wraps around for pivot >= 2^64 - 2, so that two roles fall on
one party and the protocol fails.
---
 src/libspu/mpc/aby3/arithmetic.cc | 12 ++++++------
 src/libspu/mpc/aby3/conversion.cc |  8 ++++----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libspu/mpc/aby3/arithmetic.cc b/src/libspu/mpc/aby3/arithmetic.cc
index 629ff86..734fcfb 100644
--- a/src/libspu/mpc/aby3/arithmetic.cc
+++ b/src/libspu/mpc/aby3/arithmetic.cc
@@ -871,8 +871,8 @@ NdArrayRef TruncPrWithMsbKnown(KernelEvalContext* ctx, const NdArrayRef& in,
   size_t pivot;
   prg_state->fillPubl(absl::MakeSpan(&pivot, 1));
   size_t P0 = pivot % 3;
-  size_t P1 = (pivot + 1) % 3;
-  size_t P2 = (pivot + 2) % 3;
+  size_t P1 = (P0 + 1) % 3;
+  size_t P2 = (P0 + 2) % 3;
 
   NdArrayRef out(in.eltype(), in.shape());
 
@@ -1092,8 +1092,8 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   size_t pivot;
   prg_state->fillPubl(absl::MakeSpan(&pivot, 1));
   size_t P0 = pivot % 3;
-  size_t P1 = (pivot + 1) % 3;
-  size_t P2 = (pivot + 2) % 3;
+  size_t P1 = (P0 + 1) % 3;
+  size_t P2 = (P0 + 2) % 3;
 
   NdArrayRef out(in.eltype(), in.shape());
   DISPATCH_ALL_FIELDS(field, [&]() {
@@ -1336,8 +1336,8 @@ NdArrayRef TruncAPr2::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   size_t pivot;
   prg_state->fillPubl(absl::MakeSpan(&pivot, 1));
   size_t P0 = pivot % 3;
-  size_t P1 = (pivot + 1) % 3;
-  size_t P2 = (pivot + 2) % 3;
+  size_t P1 = (P0 + 1) % 3;
+  size_t P2 = (P0 + 2) % 3;
 
   NdArrayRef out(in.eltype(), in.shape());
   DISPATCH_ALL_FIELDS(field, [&]() {
diff --git a/src/libspu/mpc/aby3/conversion.cc b/src/libspu/mpc/aby3/conversion.cc
index 8154aca..fab818e 100644
--- a/src/libspu/mpc/aby3/conversion.cc
+++ b/src/libspu/mpc/aby3/conversion.cc
@@ -342,8 +342,8 @@ NdArrayRef B2AByOT::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
   size_t pivot;
   prg_state->fillPubl(absl::MakeSpan(&pivot, 1));
   size_t P0 = pivot % 3;
-  size_t P1 = (pivot + 1) % 3;
-  size_t P2 = (pivot + 2) % 3;
+  size_t P1 = (P0 + 1) % 3;
+  size_t P2 = (P0 + 2) % 3;
 
   DISPATCH_UINT_PT_TYPES(in_ty->getBacktype(), [&]() {
     using bshr_el_t = ScalarT;
@@ -654,8 +654,8 @@ NdArrayRef eqz(KernelEvalContext* ctx, const NdArrayRef& in) {
   size_t pivot;
   prg_state->fillPubl(absl::MakeSpan(&pivot, 1));
   size_t P0 = pivot % 3;
-  size_t P1 = (pivot + 1) % 3;
-  size_t P2 = (pivot + 2) % 3;
+  size_t P1 = (P0 + 1) % 3;
+  size_t P2 = (P0 + 2) % 3;
 
   DISPATCH_ALL_FIELDS(field, [&]() {
     using ashr_el_t = ring2k_t;
-- 
2.43.0


From 17ad2769bf2f0ada299fc7d730a096f0b8621267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 03/59] fix: spdz2k boolean shares that are strided views or
 hold one element

getShare multiplied the strides of the view although the last axis of the bit
sequence has a stride of its own: slices and one-element tensors (whose stride
is 0) were read from the wrong places.
---
 src/libspu/mpc/spdz2k/boolean.cc |  8 ++++++--
 src/libspu/mpc/spdz2k/value.cc   | 11 +++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/boolean.cc b/src/libspu/mpc/spdz2k/boolean.cc
index 7f230a2..7abe7d1 100644
--- a/src/libspu/mpc/spdz2k/boolean.cc
+++ b/src/libspu/mpc/spdz2k/boolean.cc
@@ -586,7 +586,9 @@ NdArrayRef BitIntlB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         _out[idx] = BitIntl<T>(_in[idx], stride, k);
       });
     } else {
-      NdArrayView<std::array<T, 2>> _in(in);
+      // the bits of all elements are addressed as one consecutive sequence
+      const auto compact_in = in.isCompact() ? in : in.clone();
+      NdArrayView<std::array<T, 2>> _in(compact_in);
       NdArrayView<std::array<T, 2>> _out(out);
       size_t num_per_group = 1 << stride;
       size_t group_num = k / num_per_group + (k % num_per_group != 0);
@@ -633,7 +635,9 @@ NdArrayRef BitDeintlB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         _out[idx] = BitDeintl<T>(_in[idx], stride, k);
       });
     } else {
-      NdArrayView<std::array<T, 2>> _in(in);
+      // the bits of all elements are addressed as one consecutive sequence
+      const auto compact_in = in.isCompact() ? in : in.clone();
+      NdArrayView<std::array<T, 2>> _in(compact_in);
       NdArrayView<std::array<T, 2>> _out(out);
 
       size_t num_per_group = 1 << stride;
diff --git a/src/libspu/mpc/spdz2k/value.cc b/src/libspu/mpc/spdz2k/value.cc
index 029f065..b0ce19e 100644
--- a/src/libspu/mpc/spdz2k/value.cc
+++ b/src/libspu/mpc/spdz2k/value.cc
@@ -89,6 +89,10 @@ NdArrayRef getShare(const NdArrayRef& in, int64_t share_idx) {
         in.buf(), ty, in.shape(), new_strides,
         in.offset() + share_idx * static_cast<int64_t>(ty.size())};
   } else if (in.eltype().isa<BShrTy>()) {
+    if (!in.isCompact()) {
+      // the bits of all elements are addressed as one consecutive sequence
+      return getShare(in.clone(), share_idx);
+    }
     const auto field = in.eltype().as<BShrTy>()->field();
     const auto nbits = in.eltype().as<BShrTy>()->nbits();
     const auto k = in.eltype().as<BShrTy>()->k();
@@ -98,10 +102,9 @@ NdArrayRef getShare(const NdArrayRef& in, int64_t share_idx) {
     new_shape.back() *= nbits;
 
     if (nbits == k) {
-      Strides new_strides = in.strides();
-      std::transform(new_strides.cbegin(), new_strides.cend() - 1,
-                     new_strides.begin(), [k](int64_t s) { return 2 * s * k; });
-      new_strides.back() *= 2;
+      Strides new_strides = makeCompactStrides(new_shape);
+      std::transform(new_strides.cbegin(), new_strides.cend(),
+                     new_strides.begin(), [](int64_t s) { return 2 * s; });
       return NdArrayRef{
           in.buf(), ty, new_shape, new_strides,
           in.offset() + share_idx * static_cast<int64_t>(ty.size())};
-- 
2.43.0


From f3d6d8f39c10de72b910111821a5a441c7bae802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:19 +0000
Subject: [PATCH 04/59] fix: spdz2k boolean operations on an all zero public
 tensor

Its bit width is 0, and the share was made with a division by zero.
---
 src/libspu/mpc/spdz2k/boolean.cc | 3 ++-
 src/libspu/mpc/spdz2k/value.cc   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/boolean.cc b/src/libspu/mpc/spdz2k/boolean.cc
index 7abe7d1..d3ea074 100644
--- a/src/libspu/mpc/spdz2k/boolean.cc
+++ b/src/libspu/mpc/spdz2k/boolean.cc
@@ -43,7 +43,8 @@ NdArrayRef P2Value(FieldType out_field, const NdArrayRef& in, size_t k,
 
     size_t valid_nbits = k;
     if (new_nbits == 0) {
-      valid_nbits = std::min(k, maxBitWidth<PShrT>(in));
+      // an all zero tensor still takes one bit
+      valid_nbits = std::max<size_t>(1, std::min(k, maxBitWidth<PShrT>(in)));
     } else if (new_nbits < k) {
       valid_nbits = new_nbits;
     }
diff --git a/src/libspu/mpc/spdz2k/value.cc b/src/libspu/mpc/spdz2k/value.cc
index b0ce19e..3e7d3a8 100644
--- a/src/libspu/mpc/spdz2k/value.cc
+++ b/src/libspu/mpc/spdz2k/value.cc
@@ -163,8 +163,9 @@ size_t minNumBits(const NdArrayRef& lhs, const NdArrayRef& rhs) {
   const auto rhs_field = rhs_ty->field();
   return DISPATCH_ALL_FIELDS(rhs_field, [&]() {
     using PShrT = ring2k_t;
-    return std::min(lhs.eltype().as<BShare>()->nbits(),
-                    maxBitWidth<PShrT>(rhs));
+    // an all zero tensor still takes one bit
+    return std::max<size_t>(1, std::min(lhs.eltype().as<BShare>()->nbits(),
+                                        maxBitWidth<PShrT>(rhs)));
   });
 }
 
-- 
2.43.0


From 9c3de54b1461b4541681125cec9c9e6f1fb1ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 05/59] fix: spdz2k boolean shares that hold one element

A tensor of one element has stride 0, so that the bits of the element cannot be
addressed through its view.
---
 src/libspu/mpc/spdz2k/boolean.cc | 8 ++++----
 src/libspu/mpc/spdz2k/value.cc   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/boolean.cc b/src/libspu/mpc/spdz2k/boolean.cc
index d3ea074..f6b435f 100644
--- a/src/libspu/mpc/spdz2k/boolean.cc
+++ b/src/libspu/mpc/spdz2k/boolean.cc
@@ -589,8 +589,8 @@ NdArrayRef BitIntlB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
     } else {
       // the bits of all elements are addressed as one consecutive sequence
       const auto compact_in = in.isCompact() ? in : in.clone();
-      NdArrayView<std::array<T, 2>> _in(compact_in);
-      NdArrayView<std::array<T, 2>> _out(out);
+      const auto* _in = compact_in.data<std::array<T, 2>>();
+      auto* _out = out.data<std::array<T, 2>>();
       size_t num_per_group = 1 << stride;
       size_t group_num = k / num_per_group + (k % num_per_group != 0);
       size_t half_group_num = (group_num + 1) / 2;
@@ -638,8 +638,8 @@ NdArrayRef BitDeintlB::proc(KernelEvalContext* ctx, const NdArrayRef& in,
     } else {
       // the bits of all elements are addressed as one consecutive sequence
       const auto compact_in = in.isCompact() ? in : in.clone();
-      NdArrayView<std::array<T, 2>> _in(compact_in);
-      NdArrayView<std::array<T, 2>> _out(out);
+      const auto* _in = compact_in.data<std::array<T, 2>>();
+      auto* _out = out.data<std::array<T, 2>>();
 
       size_t num_per_group = 1 << stride;
       size_t group_num = k / num_per_group + (k % num_per_group != 0);
diff --git a/src/libspu/mpc/spdz2k/value.cc b/src/libspu/mpc/spdz2k/value.cc
index 3e7d3a8..5784e39 100644
--- a/src/libspu/mpc/spdz2k/value.cc
+++ b/src/libspu/mpc/spdz2k/value.cc
@@ -57,7 +57,7 @@ NdArrayRef makeBShare(const NdArrayRef& s1, const NdArrayRef& s2,
   int64_t res_numel = res.numel();
 
   DISPATCH_ALL_FIELDS(field, [&]() {
-    NdArrayView<std::array<ring2k_t, 2>> _res(res);
+    auto* _res = res.data<std::array<ring2k_t, 2>>();
 
     pforeach(0, res_numel * k, [&](int64_t i) {
       _res[i][0] = 0;
@@ -114,7 +114,7 @@ NdArrayRef getShare(const NdArrayRef& in, int64_t share_idx) {
       DISPATCH_ALL_FIELDS(field, [&]() {
         size_t numel = in.numel();
         NdArrayView<ring2k_t> _ret(ret);
-        NdArrayView<std::array<ring2k_t, 2>> _in(in);
+        const auto* _in = in.data<std::array<ring2k_t, 2>>();
 
         pforeach(0, numel, [&](int64_t i) {
           for (size_t j = 0; j < nbits; ++j) {
-- 
2.43.0


From e1a18fc4a34257e12e4b0c852ade1963b1a5bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 06/59] fix: aby3 right shift of a boolean share by more than
 its storage width

---
 src/libspu/mpc/aby3/boolean.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/aby3/boolean.cc b/src/libspu/mpc/aby3/boolean.cc
index d3404b8..4975210 100644
--- a/src/libspu/mpc/aby3/boolean.cc
+++ b/src/libspu/mpc/aby3/boolean.cc
@@ -416,6 +416,7 @@ NdArrayRef RShiftB::proc(KernelEvalContext*, const NdArrayRef& in,
   int64_t out_nbits = in_ty->nbits();
   out_nbits -= std::min(out_nbits, *std::min_element(bits.begin(), bits.end()));
   const PtType out_btype = calcBShareBacktype(out_nbits);
+  const int64_t in_width = SizeOf(in_ty->getBacktype()) * 8;
   bool is_splat = bits.size() == 1;
 
   return DISPATCH_UINT_PT_TYPES(in_ty->getBacktype(), [&]() {
@@ -432,8 +433,10 @@ NdArrayRef RShiftB::proc(KernelEvalContext*, const NdArrayRef& in,
       pforeach(0, in.numel(), [&](int64_t idx) {
         const auto& v = _in[idx];
         auto shift_bit = is_splat ? bits[0] : bits[idx];
-        _out[idx][0] = static_cast<out_el_t>(v[0] >> shift_bit);
-        _out[idx][1] = static_cast<out_el_t>(v[1] >> shift_bit);
+        // the storage type may be narrower than the shift.
+        const bool in_range = shift_bit < in_width;
+        _out[idx][0] = in_range ? static_cast<out_el_t>(v[0] >> shift_bit) : 0;
+        _out[idx][1] = in_range ? static_cast<out_el_t>(v[1] >> shift_bit) : 0;
       });
 
       return out;
-- 
2.43.0


From f124c376acabb2dbccef88c8382c216fed25f226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:36 +0000
Subject: [PATCH 07/59] fix: expanding a scalar to an empty shape must not
 write or loop

NdArrayRef::expand copied the element before looking at the size of the
result, so padding to an empty tensor wrote to a null buffer.
---
 src/libspu/core/ndarray_ref.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 7fc7bc4..daa1db3 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -363,6 +363,9 @@ NdArrayRef NdArrayRef::reverse(const Axes& dimensions) const {
 NdArrayRef NdArrayRef::expand(const Shape& to_shape) const {
   SPU_ENFORCE(numel() == 1, "Only support expanding scalar");
   NdArrayRef ret(eltype(), to_shape);
+  if (ret.numel() == 0) {
+    return ret;
+  }
   // compute number of elements need to copy
   size_t numel = ret.numel();
   size_t num_bytes = numel * elsize();
-- 
2.43.0


From 233727f189278ca045958296ca7b6e5e981bcfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:00 +0000
Subject: [PATCH 08/59] fix: interior padding of an axis of size 0 adds nothing

deducePadShape counted -1 gaps between the elements of an empty axis.
---
 src/libspu/core/ndarray_ref.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index daa1db3..9eb3756 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -32,7 +32,8 @@ Shape deducePadShape(const Shape& input_shape, const Sizes& edge_padding_low,
   SPU_ENFORCE(interior_padding.size() == input_shape.size());
   for (size_t i = 0; i < input_shape.size(); i++) {
     dims.emplace_back(edge_padding_low[i] + edge_padding_high[i] +
-                      interior_padding[i] * (input_shape[i] - 1) +
+                      interior_padding[i] *
+                          std::max<int64_t>(input_shape[i] - 1, 0) +
                       input_shape[i]);
   }
 
-- 
2.43.0


From 213a3f47e72a743316241b30d0646ebebf4aab9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:56 +0000
Subject: [PATCH 09/59] fix: a strided slice of one element must have stride 0

NdArrayRef::slice left the axis with the stride of the operand, so that
broadcasting the slice read elements beyond it.
---
 src/libspu/core/ndarray_ref.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libspu/core/ndarray_ref.cc b/src/libspu/core/ndarray_ref.cc
index 9eb3756..6b99738 100644
--- a/src/libspu/core/ndarray_ref.cc
+++ b/src/libspu/core/ndarray_ref.cc
@@ -311,7 +311,9 @@ NdArrayRef NdArrayRef::slice(const Index& start_indices,
       auto n = new_shape[idx] / slice_strides[idx];
       auto q = new_shape[idx] % slice_strides[idx];
       new_shape[idx] = n + static_cast<int64_t>(q != 0);
-      new_strides[idx] *= slice_strides[idx];
+      // an axis of size 1 must have stride 0 to be broadcast
+      new_strides[idx] =
+          new_shape[idx] == 1 ? 0 : new_strides[idx] * slice_strides[idx];
     }
   }
 
-- 
2.43.0


From 7c42db1a25fcb90dd49c7522166dbfed9b987eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 10/59] fix: aby3 OPShrTy needs a name of its own

It called itself aby3.OShr, so an OShr read back from its name had half
its size, and the two types compared equal.
---
 src/libspu/mpc/aby3/type.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/aby3/type.h b/src/libspu/mpc/aby3/type.h
index f2b541e..efdebfa 100644
--- a/src/libspu/mpc/aby3/type.h
+++ b/src/libspu/mpc/aby3/type.h
@@ -48,7 +48,7 @@ class OPShrTy : public TypeImpl<OPShrTy, RingTy, Secret, OPShare> {
 
  public:
   using Base::Base;
-  static std::string_view getStaticId() { return "aby3.OShr"; }
+  static std::string_view getStaticId() { return "aby3.OPShr"; }
 
   explicit OPShrTy(FieldType field) { field_ = field; }
 
-- 
2.43.0


From dbe1c5e7b39a985386475690a73a2f31c341467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:10 +0000
Subject: [PATCH 11/59] fix: spdz2k.BShr types can be read back from their name

The field was printed as a number, which fromString refuses, and
fromString did not set the number of bits, so the size was 0.
---
 src/libspu/mpc/spdz2k/type.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/spdz2k/type.cc b/src/libspu/mpc/spdz2k/type.cc
index 88363a2..d058304 100644
--- a/src/libspu/mpc/spdz2k/type.cc
+++ b/src/libspu/mpc/spdz2k/type.cc
@@ -45,11 +45,12 @@ void BShrTy::fromString(std::string_view detail) {
   auto field = magic_enum::enum_cast<FieldType>(field_str);
   SPU_ENFORCE(field.has_value(), "parse failed from={}", field_str);
   field_ = field.value();
+  k_ = SizeOf(field_) * 8 / 2;
 };
 
 std::string BShrTy::toString() const {
   return fmt::format("{},{},{}", magic_enum::enum_name(back_type_), nbits_,
-                     field_);
+                     magic_enum::enum_name(field_));
 }
 
 }  // namespace spu::mpc::spdz2k
-- 
2.43.0


From b915758d2283501f5f60c949ea446b8bf1c64602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:47 +0000
Subject: [PATCH 12/59] fix: Value::fromProto must check a message before
 copying from it

A chunk longer than the value was copied past the end of the buffer;
negative or overflowing shapes and an odd number of chunks of a complex
value were accepted.
---
 src/libspu/core/value.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/libspu/core/value.cc b/src/libspu/core/value.cc
index 46e1626..6b118c5 100644
--- a/src/libspu/core/value.cc
+++ b/src/libspu/core/value.cc
@@ -141,6 +141,8 @@ Value Value::fromProto(const ValueProto& value) {
     partial.set_is_complex(false);
     ValueProto partial_proto;
     partial_proto.meta = partial;
+    SPU_ENFORCE(value.chunks.size() % 2 == 0,
+                "complex value with {} chunks", value.chunks.size());
     auto n = value.chunks.size() / 2;
     std::copy_n(value.chunks.begin(), n,
                 std::back_inserter(partial_proto.chunks));
@@ -166,6 +168,12 @@ Value Value::fromProto(const ValueProto& value) {
               eltype);
 
   Shape shape(meta.shape().dims().begin(), meta.shape().dims().end());
+  int64_t expected_bytes = eltype.size();
+  for (const auto& d : shape) {
+    SPU_ENFORCE(d >= 0 && !__builtin_mul_overflow(expected_bytes, d,
+                                                  &expected_bytes),
+                "invalid shape {}", shape);
+  }
 
   const auto& chunks = value.chunks;
   const size_t total_bytes = chunks.empty() ? 0 : chunks[0].total_bytes();
@@ -176,15 +184,17 @@ Value Value::fromProto(const ValueProto& value) {
                 "Repeated chunk_offset {} found", s.chunk_offset());
   }
 
+  SPU_ENFORCE(static_cast<size_t>(expected_bytes) == total_bytes,
+              "data buf size {}(elsize:{}) != total_bytes {}", expected_bytes,
+              eltype.size(), total_bytes);
   NdArrayRef data(eltype, shape);
-  SPU_ENFORCE(static_cast<size_t>(data.buf()->size()) == total_bytes,
-              "data buf size {}(elsize:{}) != total_bytes {}",
-              data.buf()->size(), data.elsize(), total_bytes);
 
   size_t chunk_end_pos = 0;
   for (const auto& [offset, chunk] : ordered_chunks) {
     SPU_ENFORCE(offset == chunk_end_pos,
                 "offset {} is not match to last chunk's end pos", offset);
+    SPU_ENFORCE(chunk->content().size() <= total_bytes - chunk_end_pos,
+                "chunk at {} exceeds total_bytes {}", offset, total_bytes);
     memcpy(data.data<uint8_t>() + offset, chunk->content().data(),
            chunk->content().size());
     chunk_end_pos += chunk->content().size();
-- 
2.43.0


From b362fbe047adf21db8bf4baba7bf24cbb8eb5953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:44 +0000
Subject: [PATCH 13/59] fix: securenn output must not drop shares that are
 strided views

---
 src/libspu/mpc/securenn/io.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/libspu/mpc/securenn/io.cc b/src/libspu/mpc/securenn/io.cc
index 28a8c3c..ab86933 100644
--- a/src/libspu/mpc/securenn/io.cc
+++ b/src/libspu/mpc/securenn/io.cc
@@ -88,11 +88,6 @@ NdArrayRef SecurennIo::fromShares(const std::vector<NdArrayRef>& shares) const {
     auto res = ring_zeros(field, shares[0].shape());
 
     for (const auto& share : shares) {
-      // Currently, only packed zeros are not compact, this is for colocation
-      // optimization
-      if (!share.isCompact()) {
-        continue;
-      }
       if (eltype.isa<AShare>()) {
         ring_add_(res, share);
       } else if (eltype.isa<BShare>()) {
-- 
2.43.0


From 647dee170676627d8bab28c602349d443733079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:04 +0000
Subject: [PATCH 14/59] fix: getShareSize must follow makeShares for owners and
 complex numbers

---
 src/libspu/device/io.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libspu/device/io.cc b/src/libspu/device/io.cc
index a9f0def..7456d9a 100644
--- a/src/libspu/device/io.cc
+++ b/src/libspu/device/io.cc
@@ -37,7 +37,14 @@ size_t IoClient::getShareSize(const PtBufferView &bv, Visibility vtype,
       base_io_->hasBitSecretSupport()) {
     return base_io_->getBitSecretShareSize(bv.shape.numel());
   } else {
-    return base_io_->getShareType(vtype, owner_rank).size() * bv.shape.numel();
+    // same rules as makeShares.
+    if (!config_.experimental_enable_colocated_optimization) {
+      owner_rank = -1;
+    }
+    const size_t num_parts =
+        (bv.pt_type == PT_CF32 || bv.pt_type == PT_CF64) ? 2 : 1;
+    return base_io_->getShareType(vtype, owner_rank).size() *
+           bv.shape.numel() * num_parts;
   }
 }
 
-- 
2.43.0


From 4aa99ba713f979262404a2abc36970b1f21c9309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:29 +0000
Subject: [PATCH 15/59] fix: ref2k output of a private value comes from its
 owner

---
 src/libspu/mpc/ref2k/ref2k.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/ref2k/ref2k.cc b/src/libspu/mpc/ref2k/ref2k.cc
index 17c66a9..2ae0ce4 100644
--- a/src/libspu/mpc/ref2k/ref2k.cc
+++ b/src/libspu/mpc/ref2k/ref2k.cc
@@ -541,7 +541,13 @@ std::vector<NdArrayRef> Ref2kIo::toShares(const NdArrayRef& raw, Visibility vis,
 }
 
 NdArrayRef Ref2kIo::fromShares(const std::vector<NdArrayRef>& shares) const {
-  const auto field = shares.at(0).eltype().as<Ring2k>()->field();
+  const auto& eltype = shares.at(0).eltype();
+  const auto field = eltype.as<Ring2k>()->field();
+  if (eltype.isa<Priv2kTy>()) {
+    // only the owner holds a private value.
+    const size_t owner = eltype.as<Private>()->owner();
+    return shares.at(owner).as(makeType<RingTy>(field));
+  }
   // no matter Public or Secret, directly view the first share as public.
   return shares[0].as(makeType<RingTy>(field));
 }
-- 
2.43.0


From f0eeb2f95929dce78a1edeb437b7c568674b51a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 16/59] fix: ref2k common type of two private types

---
 src/libspu/mpc/ref2k/ref2k.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/ref2k/ref2k.cc b/src/libspu/mpc/ref2k/ref2k.cc
index 2ae0ce4..afaf730 100644
--- a/src/libspu/mpc/ref2k/ref2k.cc
+++ b/src/libspu/mpc/ref2k/ref2k.cc
@@ -73,8 +73,8 @@ class Ref2kCommonTypeV : public Kernel {
     const Type& rhs = ctx->getParam<Type>(1);
 
     SPU_TRACE_MPC_DISP(ctx, lhs, rhs);
-    SPU_ENFORCE(lhs.isa<Ref2kSecrTy>(), "invalid type, got={}", lhs);
-    SPU_ENFORCE(rhs.isa<Ref2kSecrTy>(), "invalid type, got={}", rhs);
+    SPU_ENFORCE(lhs.isa<Priv2kTy>(), "invalid type, got={}", lhs);
+    SPU_ENFORCE(rhs.isa<Priv2kTy>(), "invalid type, got={}", rhs);
 
     const auto* lhs_v = lhs.as<Priv2kTy>();
     const auto* rhs_v = rhs.as<Priv2kTy>();
-- 
2.43.0


From d5678a55f8c0a96315e81ce437d88cdde7442f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:37 +0000
Subject: [PATCH 17/59] fix: a negative public start of a secret dynamic slice
 is clamped to 0

---
 src/libspu/kernel/hlo/indexing.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hlo/indexing.cc b/src/libspu/kernel/hlo/indexing.cc
index c233b55..f16e4a4 100644
--- a/src/libspu/kernel/hlo/indexing.cc
+++ b/src/libspu/kernel/hlo/indexing.cc
@@ -796,7 +796,8 @@ spu::Value SecretDynamicSlice(SPUContext *ctx, const spu::Value &operand,
     for (size_t rank = 0; rank < operand.shape().size(); ++rank) {
       if (start_indices[rank].isPublic()) {
         start[rank] = hal::getScalarValue<int64_t>(ctx, start_indices[rank]);
-        start[rank] = std::min(limit[rank] - slice_size[rank], start[rank]);
+        start[rank] = std::min(limit[rank] - slice_size[rank],
+                               std::max(start[rank], static_cast<int64_t>(0)));
         limit[rank] = start[rank] + slice_size[rank];
         new_start_indices[rank] = zero_s;
       } else {
-- 
2.43.0


From 8cd419180603cbc1c1f7bbe2b6841579aa9334f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:07 +0000
Subject: [PATCH 18/59] fix: oram reads of boolean shares convert them to
 arithmetic shares

---
 src/libspu/mpc/api.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libspu/mpc/api.cc b/src/libspu/mpc/api.cc
index 223401f..0e1aae0 100644
--- a/src/libspu/mpc/api.cc
+++ b/src/libspu/mpc/api.cc
@@ -721,8 +721,7 @@ OptionalAPI<Value> oram_onehot_ss(SPUContext* ctx, const Value& x,
   SPU_TRACE_MPC_DISP(ctx, x, db_size);
 
   if (ctx->hasKernel("oram_onehot_aa")) {
-    SPU_ENFORCE(IsA(x), "expect AShare, got {}", x.storage_type());
-    return dynDispatch(ctx, "oram_onehot_aa", x, db_size);
+    return dynDispatch(ctx, "oram_onehot_aa", _2a(ctx, x), db_size);
   }
 
   return NotAvailable;
@@ -733,8 +732,7 @@ OptionalAPI<Value> oram_onehot_sp(SPUContext* ctx, const Value& x,
   SPU_TRACE_MPC_DISP(ctx, x, db_size);
 
   if (ctx->hasKernel("oram_onehot_ap")) {
-    SPU_ENFORCE(IsA(x), "expect AShare, got {}", x.storage_type());
-    return dynDispatch(ctx, "oram_onehot_ap", x, db_size);
+    return dynDispatch(ctx, "oram_onehot_ap", _2a(ctx, x), db_size);
   }
 
   return NotAvailable;
@@ -743,10 +741,9 @@ OptionalAPI<Value> oram_onehot_sp(SPUContext* ctx, const Value& x,
 Value oram_read_ss(SPUContext* ctx, const Value& x, const Value& y,
                    int64_t offset) {
   SPU_TRACE_MPC_DISP(ctx, x, offset);
-  SPU_ENFORCE(IsO(x) && IsA(y), "expect OShare and AShare, got {} and {}",
-              x.storage_type(), y.storage_type());
+  SPU_ENFORCE(IsO(x), "expect OShare, got {}", x.storage_type());
 
-  return dynDispatch(ctx, "oram_read_aa", x, y, offset);
+  return dynDispatch(ctx, "oram_read_aa", x, _2a(ctx, y), offset);
 };
 
 Value oram_read_sp(SPUContext* ctx, const Value& x, const Value& y,
-- 
2.43.0


From 90bb51f5041f79cf903be5fd90218052609f6efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:45 +0000
Subject: [PATCH 19/59] fix: hlo::IfElse with a secret condition selects
 tensors

---
 src/libspu/kernel/hlo/control_flow.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libspu/kernel/hlo/control_flow.cc b/src/libspu/kernel/hlo/control_flow.cc
index c7c4a6d..04458c5 100644
--- a/src/libspu/kernel/hlo/control_flow.cc
+++ b/src/libspu/kernel/hlo/control_flow.cc
@@ -39,8 +39,12 @@ std::vector<spu::Value> IfElse(SPUContext *ctx, const spu::Value &condition,
 
     std::vector<spu::Value> selected(true_ret.size());
     for (size_t idx = 0; idx < true_ret.size(); ++idx) {
-      selected[idx] =
-          hal::select(ctx, condition, true_ret[idx], false_ret[idx]);
+      // the condition is a scalar, results can be of any shape.
+      auto pred = condition;
+      if (pred.shape() != true_ret[idx].shape()) {
+        pred = hal::broadcast_to(ctx, condition, true_ret[idx].shape());
+      }
+      selected[idx] = hal::select(ctx, pred, true_ret[idx], false_ret[idx]);
     }
 
     return selected;
-- 
2.43.0


From b49d1b53d079407524afea120a0f2dbe3d7222c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:21 +0000
Subject: [PATCH 20/59] fix: casting fixed point to integer with 31 or more
 fraction bits

---
 src/libspu/kernel/hal/type_cast.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/type_cast.cc b/src/libspu/kernel/hal/type_cast.cc
index b432b86..240d63c 100644
--- a/src/libspu/kernel/hal/type_cast.cc
+++ b/src/libspu/kernel/hal/type_cast.cc
@@ -51,7 +51,8 @@ Value fxp2int(SPUContext* ctx, const Value& x, DataType to_type) {
   SPU_ENFORCE(x.isFxp());
 
   const int64_t fxp_bits = ctx->getFxpBits();
-  const Value kOneMinusEps = _constant(ctx, (1 << fxp_bits) - 1, x.shape());
+  const Value kOneMinusEps =
+      _constant(ctx, (static_cast<uint128_t>(1) << fxp_bits) - 1, x.shape());
 
   // (x + 0.99 * (x < 0)) >> fxp_bits
   return _arshift(ctx, _add(ctx, x, _mul(ctx, kOneMinusEps, _msb(ctx, x))),
-- 
2.43.0


From 6e466a03a21151f0ca0c24a03bb29946e2c3cb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 21/59] fix: top-k of a private value threw where shuffles are
 supported

---
 src/libspu/kernel/hal/permute.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index d2f2013..05224d8 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -743,7 +743,8 @@ std::vector<spu::Value> PrepareInput(SPUContext *ctx, const Value &input,
 
   // shuffle with random permutation to break link of values
   auto rand_perm = _rand_perm_s(ctx, input.shape());
-  inp.push_back(_perm_ss(ctx, input, rand_perm).setDtype(input.dtype()));
+  inp.push_back(
+      _perm_ss(ctx, _2s(ctx, input), rand_perm).setDtype(input.dtype()));
 
   // we concate random value to hide the data-dependant running pattern
   // for quick select;
-- 
2.43.0


From 944f53baf0c6b4fb9cb606a5204cf6511f0be08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 22/59] fix: radix sort took the last bit of a short boolean
 key for its sign

---
 src/libspu/kernel/hal/permute.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index 05224d8..6c6870a 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -993,7 +993,11 @@ std::vector<spu::Value> _gen_bv_vector(SPUContext *ctx,
   // keys[0] is the most significant key
   for (size_t i = keys.size(); i > 0; --i) {
     const auto t = _bit_decompose(ctx, keys[i - 1], valid_bits);
-    const bool is_unsigned = keys[i - 1].isUInt();
+    // without a hint, a boolean share with fewer valid bits than the ring is
+    // non-negative: its last bit is not a sign.
+    const bool no_sign =
+        valid_bits == -1 && t.size() < SizeOf(ctx->getField()) * 8;
+    const bool is_unsigned = keys[i - 1].isUInt() || no_sign;
 
     SPU_ENFORCE(t.size() > 0);
 
-- 
2.43.0


From ac7371012810106bf2236f3b4e68c84efc723a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 23/59] fix: sorting merged adjacent private keys of different
 owners before a secret key

---
 src/libspu/kernel/hal/permute.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index 6c6870a..8d4059c 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1160,6 +1160,7 @@ std::vector<size_t> _find_mergeable_keys(SPUContext *ctx,
     // secret key cannot be merged
     if (pre_key.isSecret()) {
       split_indices.push_back(idx + 1);
+      pre_owner = cur_key.isPrivate() ? _get_owner(cur_key) : -1;
     } else {
       // if current key are not belong to different owners of previous
       // keys, they cannot be merged
-- 
2.43.0


From 256e73465cd2d04bb2c700098cfc3205f935bf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 24/59] fix: permuting an axis of a tensor without rows threw

---
 src/libspu/kernel/hal/permute.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index 8d4059c..6c00bc2 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1701,7 +1701,7 @@ std::vector<spu::Value> permute(SPUContext *ctx,
   // - W is the vector length.
   const int64_t M = inputs.size();
   const int64_t W = shape.dim(permute_dim);
-  if (W == 0) {
+  if (shape.numel() == 0) {
     return std::vector<spu::Value>(inputs.begin(), inputs.end());
   }
   const int64_t N = shape.numel() / W;
-- 
2.43.0


From 17d1594fa3e8470eb474ec02690fdca73824a86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 25/59] fix: public top-k with indices threw in FM32

---
 src/libspu/kernel/hal/permute.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index 6c00bc2..3375bd8 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1799,8 +1799,8 @@ std::vector<Value> topk_1d(SPUContext *ctx, const spu::Value &input,
     if (!config.value_only) {
       auto dt =
           ctx->config().field == FieldType::FM32 ? spu::DT_I32 : spu::DT_I64;
-      ret.push_back(constant(ctx, topk_indices, dt,
-                             {static_cast<int64_t>(topk_indices.size())}));
+      ret.push_back(internal::_permute_1d(
+          ctx, hal::iota(ctx, dt, input.numel()), topk_indices));
     }
 
     return ret;
-- 
2.43.0


From a96a365d62ee27195ded3f8f1f4d04b8ba1ef1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 26/59] fix: a matrix triple of a remembered operand used one
 random stream for a, b and c

---
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc | 2 +-
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
index a8d19e4..d0707ed 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_tfp.cc
@@ -227,7 +227,7 @@ BeaverTfpUnsafe::Triple BeaverTfpUnsafe::Dot(FieldType field, int64_t m,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       ops[idx].seeds = seeds_;
       return prgCreateArray(field, shapes[idx], seed_, &counter_,
                             &ops[idx].desc);
diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 9a60889..3be47ee 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -569,7 +569,7 @@ BeaverTtp::Triple BeaverTtp::Dot(FieldType field, int64_t m, int64_t n,
   shapes[2] = {m, n};
 
   auto if_replay = [&](const ReplayDesc* replay_desc, size_t idx) {
-    if (replay_desc == nullptr) {
+    if (replay_desc == nullptr || replay_desc->status == Beaver::Init) {
       return prgCreateArray(field, shapes[idx], seed_, &counter_, &descs[idx]);
     } else {
       SPU_ENFORCE(replay_desc->field == field);
-- 
2.43.0


From ac68859eaf5b66c7d1ad5739255e1a02320d042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 27/59] fix: the dealer of boolean triples learnt both operands
 of a securenn and

---
 src/libspu/mpc/securenn/boolean.cc | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/securenn/boolean.cc b/src/libspu/mpc/securenn/boolean.cc
index c122b9e..d53a0fb 100644
--- a/src/libspu/mpc/securenn/boolean.cc
+++ b/src/libspu/mpc/securenn/boolean.cc
@@ -212,7 +212,34 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
         mask[numel + idx] = _rhs[idx] ^ _b[idx];
       });
 
-      mask = comm->allReduce<V, std::bit_xor>(mask, "open(x^a,y^b)");
+      // open x^a, y^b to P0 and P1 only: P2 knows a and b, so it must not learn
+      // them.
+      constexpr std::string_view kTag = "open(x^a,y^b)";
+      const auto my_mask = mask;
+      for (size_t dst = 0; dst < 2; ++dst) {
+        if (dst != rank) {
+          comm->sendAsync<V>(dst, my_mask, kTag);
+        }
+      }
+      if (rank <= 1) {
+        for (size_t src : {1 - rank, static_cast<size_t>(2)}) {
+          const auto other = comm->recv<V>(src, kTag);
+          SPU_ENFORCE(other.size() == mask.size());
+          pforeach(0, mask.size(),
+                   [&](int64_t idx) { mask[idx] ^= other[idx]; });
+        }
+      }
+      comm->addCommStatsManually(1, 2 * mask.size() * sizeof(V));
+
+      // P0 and P1 add the share of zero: P2 knows a, b and c, it would learn the
+      // masked operands from the shares of an opened result.
+      // P0.zero_1 = P1.zero_0
+      auto [zero_0, zero_1] = prg_state->genPrssPair(
+          field, lhs.shape(), PrgState::GenPrssCtrl::Both);
+      auto zero = rank == 2   ? ring_zeros(field, lhs.shape())
+                  : rank == 0 ? zero_1
+                              : zero_0;
+      NdArrayView<T> _zero(zero);
 
       // Zi = Ci ^ ((X ^ A) & Bi) ^ ((Y ^ B) & Ai) ^ <(X ^ A) & (Y ^ B)>
       NdArrayView<T> _z(out);
@@ -223,6 +250,7 @@ NdArrayRef AndBB::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
         if (comm->getRank() == 0) {
           _z[idx] ^= mask[idx] & mask[numel + idx];
         }
+        _z[idx] ^= static_cast<V>(_zero[idx]);
       });
     });
   });
-- 
2.43.0


From db2b6665de0c8b0cab4b0e586acc25fb6458f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 28/59] fix: the dealer of random bits learnt the bits
 converted by securenn b2a

---
 src/libspu/mpc/securenn/conversion.cc | 45 ++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/libspu/mpc/securenn/conversion.cc b/src/libspu/mpc/securenn/conversion.cc
index cc78358..520f0c2 100644
--- a/src/libspu/mpc/securenn/conversion.cc
+++ b/src/libspu/mpc/securenn/conversion.cc
@@ -111,6 +111,10 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
 
   auto randbits =
       prg_state->genPriv(field, {numel * static_cast<int64_t>(nbits)});
+  if (rank == 2) {
+    // the random bits are shared between P0 and P1.
+    randbits = ring_zeros(field, randbits.shape());
+  }
   // reconstruct ranbits
   if (rank == 0) {
     comm->sendAsync(2, randbits, "randbits0");
@@ -155,12 +159,38 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
       x_xor_r[idx] = _x[idx] ^ mask;
     });
 
-    // open c = x ^ r
-    x_xor_r = comm->allReduce<U, std::bit_xor>(x_xor_r, "open(x^r)");
+    // open c = x ^ r to P0 and P1 only: P2 knows r, so it must not learn c.
+    constexpr std::string_view kTag = "open(x^r)";
+    const auto my_x_xor_r = x_xor_r;
+    for (size_t dst = 0; dst < 2; ++dst) {
+      if (dst != rank) {
+        comm->sendAsync<U>(dst, my_x_xor_r, kTag);
+      }
+    }
+    if (rank <= 1) {
+      for (size_t src : {1 - rank, static_cast<size_t>(2)}) {
+        const auto other = comm->recv<U>(src, kTag);
+        SPU_ENFORCE(other.size() == x_xor_r.size());
+        pforeach(0, numel, [&](int64_t idx) { x_xor_r[idx] ^= other[idx]; });
+      }
+    }
+    comm->addCommStatsManually(1, 2 * numel * sizeof(U));
+
+    // P0 and P1 add the share of zero: P2 knows r, it would learn c from the
+    // shares of an opened result.
+    // P0.zero_1 = P1.zero_0
+    auto [zero_0, zero_1] =
+        prg_state->genPrssPair(field, x.shape(), PrgState::GenPrssCtrl::Both);
+    if (rank == 2) {
+      res = ring_zeros(field, x.shape()).as(makeType<AShrTy>(field));
+      return;
+    }
+    auto zero = rank == 0 ? ring_neg(zero_1) : zero_0;
+    NdArrayView<U> _zero(zero);
 
     NdArrayView<U> _res(res);
     pforeach(0, numel, [&](int64_t idx) {
-      _res[idx] = 0;
+      _res[idx] = _zero[idx];
       for (int64_t bit = 0; bit < nbits; bit++) {
         auto c_i = (x_xor_r[idx] >> bit) & 0x1;
         if (comm->getRank() == 0) {
@@ -173,15 +203,6 @@ NdArrayRef B2A_Randbit::proc(KernelEvalContext* ctx,
     });
   });
 
-  if (comm->getRank() == 2) {
-    comm->sendAsync(0, res, "res");
-    res = ring_zeros(field, x.shape()).as(makeType<AShrTy>(field));
-  }
-  if (comm->getRank() == 0) {
-    auto tmp = comm->recv(2, makeType<AShrTy>(field), "res");
-    tmp = tmp.reshape(x.shape());
-    res = ring_add(res, tmp);
-  }
   return res;
 }
 
-- 
2.43.0


From 8b9d9e862d27da35e8d34087e929d48155407704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 29/59] fix: parties of swift held different shares of a random
 value

---
 src/libspu/mpc/experimental/swift/arithmetic.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/experimental/swift/arithmetic.cc b/src/libspu/mpc/experimental/swift/arithmetic.cc
index 9e178b4..82ce827 100644
--- a/src/libspu/mpc/experimental/swift/arithmetic.cc
+++ b/src/libspu/mpc/experimental/swift/arithmetic.cc
@@ -635,7 +635,7 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   if (rank == 2) {
     alpha2 = r1;
     beta = r0;
-    gamma = r3;
+    gamma = r2;
   }
 
   auto beta_plus_gamma = ring_add(beta, gamma);
-- 
2.43.0


From 4690ce950e165531ca40c9fa18e165a093e9da46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 30/59] fix: spdz2k rand_a always threw

---
 src/libspu/mpc/spdz2k/arithmetic.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/arithmetic.cc b/src/libspu/mpc/spdz2k/arithmetic.cc
index ceb7e75..7f0312a 100644
--- a/src/libspu/mpc/spdz2k/arithmetic.cc
+++ b/src/libspu/mpc/spdz2k/arithmetic.cc
@@ -106,8 +106,7 @@ NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   // - https://eprint.iacr.org/2019/599.pdf
   // It's safer to keep the number within [-2**(k-2), 2**(k-2)) for comparison
   // operations.
-  auto x = ring_rshift(prg_state->genPriv(field, shape), {2})
-               .as(makeType<AShrTy>(field));
+  auto x = ring_rshift(prg_state->genPriv(field, shape), {2});
   auto x_mac = beaver->AuthArrayRef(x, field, k, s);
   return makeAShare(x, x_mac, field);
 }
-- 
2.43.0


From 39e0b96b5ada82abe5c2d5c5855826a8a41b9901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 31/59] fix: the dealer of truncation pairs learnt the number
 truncated by securenn

---
 src/libspu/mpc/securenn/arithmetic.cc | 41 ++++++++++++++++++---------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index 2bb7bb6..ba3dbd9 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -200,6 +200,12 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
     auto r = prg_state->genPriv(field, in.shape());
     auto rc = prg_state->genPriv(field, in.shape());
     auto rb = prg_state->genPriv(field, in.shape());
+    if (rank == 2) {
+      // r, rc and rb are shared between P0 and P1.
+      r = ring_zeros(field, in.shape());
+      rc = ring_zeros(field, in.shape());
+      rb = ring_zeros(field, in.shape());
+    }
 
     // reconstruct r, rc, rb
     auto r_recon = comm->reduce(ReduceOp::ADD, r, 2, "r");
@@ -248,9 +254,27 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         // mask x with r
         x_plus_r[idx] = x + _r[idx];
       });
-      // open <x> + <r> = c
-      c = comm->allReduce<U, std::plus>(x_plus_r, kBindName());
+      // open <x> + <r> = c to P0 and P1 only: P2 knows r, so it must not learn c.
+      if (rank <= 1) {
+        comm->sendAsync<U>(1 - rank, x_plus_r, kBindName());
+        c = comm->recv<U>(1 - rank, kBindName());
+        SPU_ENFORCE(c.size() == x_plus_r.size());
+        pforeach(0, numel, [&](int64_t idx) { c[idx] += x_plus_r[idx]; });
+      }
+      comm->addCommStatsManually(1, 2 * numel * sizeof(U));
+    }
+
+    // P0 and P1 add the share of zero: P2 knows r, rc and rb, it would learn c
+    // from the shares of an opened result.
+    // P0.zero_1 = P1.zero_0
+    auto [zero_0, zero_1] =
+        prg_state->genPrssPair(field, in.shape(), PrgState::GenPrssCtrl::Both);
+    if (rank == 2) {
+      out = ring_zeros(field, in.shape()).as(makeType<AShrTy>(field));
+      return;
     }
+    auto zero = rank == 0 ? ring_neg(zero_1) : zero_0;
+    NdArrayView<U> _zero(zero);
 
     pforeach(0, numel, [&](int64_t idx) {
       auto ck_1 = c[idx] >> (k - 1);
@@ -272,20 +296,9 @@ NdArrayRef TruncAPr::proc(KernelEvalContext* ctx, const NdArrayRef& in,
         y = 0 - _rc[idx] + (b << (k - 1 - bits));
       }
 
-      _out[idx] = y;
+      _out[idx] = y + _zero[idx];
     });
   });
-  // P2 send share to P0
-  if (rank == 2) {
-    comm->sendAsync(0, out, "out");
-    out = ring_zeros(field, in.shape()).as(makeType<AShrTy>(field));
-  }
-  if (rank == 0) {
-    auto tmp = comm->recv(2, makeType<AShrTy>(field), "out");
-    tmp = tmp.reshape(in.shape());
-    out = ring_add(out, tmp);
-  }
-
   return out.as(makeType<AShrTy>(field));
 }
 
-- 
2.43.0


From 82a56095eecd19cf6a3ae0ab92c4d3df69f417f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:41 +0000
Subject: [PATCH 32/59] fix: products of a random value of securenn ignored a
 share of it

---
 src/libspu/mpc/securenn/arithmetic.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libspu/mpc/securenn/arithmetic.cc b/src/libspu/mpc/securenn/arithmetic.cc
index ba3dbd9..b398a3d 100644
--- a/src/libspu/mpc/securenn/arithmetic.cc
+++ b/src/libspu/mpc/securenn/arithmetic.cc
@@ -100,8 +100,14 @@ NdArrayRef V2A::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
 
 NdArrayRef RandA::proc(KernelEvalContext* ctx, const Shape& shape) const {
   auto* prg_state = ctx->getState<PrgState>();
+  auto* comm = ctx->getState<Communicator>();
   const auto field = ctx->getState<Z2kState>()->getDefaultField();
 
+  // the share of P2 is always zero
+  if (comm->getRank() == 2) {
+    return ring_zeros(field, shape).as(makeType<AShrTy>(field));
+  }
+
   // NOTES for ring_rshift to 2 bits.
   // Refer to:
   // New Primitives for Actively-Secure MPC over Rings with Applications to
-- 
2.43.0


From 97e01cc9bcd0833941511ef9780a3eb0d1ade787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:30 +0000
Subject: [PATCH 33/59] fix: binary public fixed-point functions accept F16
 values

---
 src/libspu/kernel/hal/fxp_cleartext.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/fxp_cleartext.cc b/src/libspu/kernel/hal/fxp_cleartext.cc
index b5061d5..dec71d6 100644
--- a/src/libspu/kernel/hal/fxp_cleartext.cc
+++ b/src/libspu/kernel/hal/fxp_cleartext.cc
@@ -103,7 +103,8 @@ Value applyFloatingPointFn(SPUContext* ctx, const Value& x, const Value& y,
 
   DataType dtype;
   const auto out = encodeToRing(flp_x, field, fxp_bits, &dtype);
-  SPU_ENFORCE(dtype == DT_F32 || dtype == DT_F64, "sanity failed");
+  SPU_ENFORCE(dtype == DT_F16 || dtype == DT_F32 || dtype == DT_F64,
+              "sanity failed");
   return Value(out.as(x.storage_type()), dtype);
 }
 
-- 
2.43.0


From c6a2238a360bf1b72b264eb91abb4c9943f28715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 34/59] fix: secret power with a result close to zero no longer
 wraps around

---
 src/libspu/kernel/hal/polymorphic.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/polymorphic.cc b/src/libspu/kernel/hal/polymorphic.cc
index 21680cc..8138afa 100644
--- a/src/libspu/kernel/hal/polymorphic.cc
+++ b/src/libspu/kernel/hal/polymorphic.cc
@@ -14,9 +14,12 @@
 
 #include "libspu/kernel/hal/polymorphic.h"
 
+#include <cmath>
+
 #include "libspu/core/context.h"
 #include "libspu/core/prelude.h"
 #include "libspu/core/trace.h"
+#include "libspu/kernel/hal/constants.h"
 #include "libspu/kernel/hal/fxp_approx.h"
 #include "libspu/kernel/hal/fxp_base.h"
 #include "libspu/kernel/hal/fxp_cleartext.h"
@@ -407,7 +410,16 @@ Value power(SPUContext* ctx, const Value& x, const Value& y) {
   // x^y = e^(y*ln(x))
   // the precision is highly dependent on the precision of exp and log, so we
   // choose the most precise methods here.
-  auto val = detail::exp_pade(ctx, mul(ctx, y, detail::log_minmax(ctx, x_s)));
+  auto exponent = mul(ctx, y, detail::log_minmax(ctx, x_s));
+  // exp_pade only handles [-32*ln(2), 32*ln(2)], beyond it wraps around, e.g.
+  // 0^2 or 0.01^6 would not be close to 0.
+  const float kInputLimit = 32.0 / std::log2(std::exp(1));
+  exponent =
+      _clamp(ctx, exponent,
+             constant(ctx, -kInputLimit, exponent.dtype(), exponent.shape()),
+             constant(ctx, kInputLimit, exponent.dtype(), exponent.shape()))
+          .setDtype(exponent.dtype());
+  auto val = detail::exp_pade(ctx, exponent);
 
   // the final sign is decided on both sign of x and the parity of y
   // when x<0 and y is odd, e.g. (-2)^3 = -8
-- 
2.43.0


From ae599211e595791c63b9204da018dfc1005e9dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:18 +0000
Subject: [PATCH 35/59] fix: semi2k with a triple server refused tensors
 without elements

---
 src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
index 3be47ee..cbf4052 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc
@@ -308,6 +308,13 @@ template <class AdjustRequest>
 std::vector<NdArrayRef> RpcCall(brpc::Channel& channel,
                                 const AdjustRequest& req, FieldType ret_field,
                                 const std::string& host) {
+  auto [num_buf, buf_len] = GetBufferLength(req);
+  if (buf_len == 0) {
+    // the server refuses requests without elements, nothing to adjust.
+    return std::vector<NdArrayRef>(
+        num_buf, NdArrayRef(makeType<RingTy>(ret_field), Shape{0}));
+  }
+
   beaver::ttp_server::BeaverService::Stub stub(&channel);
   beaver::ttp_server::AdjustResponse rsp;
   brpc::Controller cntl;
@@ -356,7 +363,6 @@ std::vector<NdArrayRef> RpcCall(brpc::Channel& channel,
   SPU_ENFORCE(!cntl.Failed(), "Adjust RpcCall failed, code={} error={}",
               cntl.ErrorCode(), cntl.ErrorText());
 
-  auto [num_buf, buf_len] = GetBufferLength(req);
   ProgressiveReader reader(num_buf, buf_len);
   cntl.ReadProgressiveAttachmentBy(&reader);
   reader.Wait();
-- 
2.43.0


From b43442e3c69b8398bdbc0f6d92b5db09d1c0b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:33 +0000
Subject: [PATCH 36/59] fix: operations without operands did not wait for what
 they depend on

The inter-operation parallel executor skipped the wait for operations without
operands, although such an operation can depend on values captured by its
regions or on earlier operations with side effects.
---
 src/libspu/device/executor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/device/executor.cc b/src/libspu/device/executor.cc
index 5d03db2..a87032e 100644
--- a/src/libspu/device/executor.cc
+++ b/src/libspu/device/executor.cc
@@ -201,7 +201,7 @@ class OpExecTask final {
 
   void run(const ExecutionOptions &opts) {
     // wait for this operation ready.
-    if (op_->getNumOperands() > 0) {
+    {
       std::unique_lock lk(event_->mutex);
       event_->cv.wait(lk, [this] { return ready(); });
     }
-- 
2.43.0


From f3d35884f3edc2f4ff4352ca4339ba1b2cb5091a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 37/59] fix: an operation failing in the parallel executor
 reaches the caller

An exception thrown by a kernel escaped its worker thread and ended the
process. It is now handed to the caller once every worker has stopped, the
operations that were waiting for the missing results are dropped.
---
 src/libspu/device/executor.cc | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/libspu/device/executor.cc b/src/libspu/device/executor.cc
index a87032e..07a540c 100644
--- a/src/libspu/device/executor.cc
+++ b/src/libspu/device/executor.cc
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <condition_variable>
+#include <exception>
 #include <mutex>
 
 #include "mlir/IR/Operation.h"
@@ -153,6 +154,8 @@ std::vector<spu::Value> runBlock(OpExecutor *executor, SPUContext *sctx,
 struct SymbolTableEvent {
   std::condition_variable cv;
   std::mutex mutex;
+  // An operation has failed, its results will never be available.
+  bool failed = false;
 };
 
 class OpExecTask final {
@@ -203,10 +206,20 @@ class OpExecTask final {
     // wait for this operation ready.
     {
       std::unique_lock lk(event_->mutex);
-      event_->cv.wait(lk, [this] { return ready(); });
+      event_->cv.wait(lk, [this] { return event_->failed || ready(); });
+      if (event_->failed) {
+        return;
+      }
     }
 
-    executor_->runKernel(sctx_.get(), sscope_, *op_, opts);
+    try {
+      executor_->runKernel(sctx_.get(), sscope_, *op_, opts);
+    } catch (...) {
+      std::unique_lock lk(event_->mutex);
+      event_->failed = true;
+      event_->cv.notify_all();
+      throw;
+    }
     std::unique_lock lk(event_->mutex);
     event_->cv.notify_all();
   }
@@ -217,6 +230,8 @@ class BlockParallelRunner final {
 
   std::vector<std::thread> threads_;
   std::queue<OpExecTask> task_queue_;
+  // The first exception thrown by an operation, guarded by queue_mtx_.
+  std::exception_ptr error_ = nullptr;
 
   SPUContext *sctx_ = nullptr;
   // here we assume executor is thread-safe (stateless)
@@ -261,6 +276,10 @@ class BlockParallelRunner final {
       }
     }
 
+    if (error_) {
+      std::rethrow_exception(error_);
+    }
+
     if (auto *termOp = block.getTerminator()) {
       // TODO: enforce ReturnLike
       std::vector<spu::Value> results;
@@ -282,8 +301,15 @@ class BlockParallelRunner final {
       auto op = std::move(task_queue_.front());
       task_queue_.pop();
       queue_lock.unlock();
-      op.run(opts_);
-      queue_lock.lock();
+      try {
+        op.run(opts_);
+        queue_lock.lock();
+      } catch (...) {
+        queue_lock.lock();
+        if (!error_) {
+          error_ = std::current_exception();
+        }
+      }
     }
   }
 };
-- 
2.43.0


From 9d3be2d2a3de075189c117664bc4a089930b7f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 38/59] fix: multiplying by a tiny negative constant lost its
 sign, and by a tinier one hung

---
 src/libspu/device/pphlo/pphlo_executor.cc | 24 +++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/libspu/device/pphlo/pphlo_executor.cc b/src/libspu/device/pphlo/pphlo_executor.cc
index af8a04b..ebed2ed 100644
--- a/src/libspu/device/pphlo/pphlo_executor.cc
+++ b/src/libspu/device/pphlo/pphlo_executor.cc
@@ -150,7 +150,8 @@ spu::Visibility convertVisibility(mlir::spu::pphlo::Visibility vis) {
 int64_t findTwoK(double in) {
   uint64_t N = 1;
   int64_t count = 0;
-  while (N < in) {
+  // stop before the shift drops the bit: a constant may be arbitrarily small
+  while (N < in && count < 63) {
     N <<= 1;
     ++count;
   }
@@ -309,9 +310,10 @@ void execute(OpExecutor *, SPUContext *sctx, SymbolScope *sscope,
   if (smallConst && smallConst.getValue().isSplat()) {
     auto elType = smallConst.getValue().getElementType();
     if (elType.isF32() || elType.isF64()) {
-      auto fValue = std::abs(smallConst.getValue()
-                                 .getSplatValue<mlir::APFloat>()
-                                 .convertToDouble());
+      const auto cValue = smallConst.getValue()
+                              .getSplatValue<mlir::APFloat>()
+                              .convertToDouble();
+      auto fValue = std::abs(cValue);
       auto eps = kernel::hal::dump_public_as<float>(
           sctx, kernel::hlo::Epsilon(sctx, DT_F32))[0];
 
@@ -324,12 +326,18 @@ void execute(OpExecutor *, SPUContext *sctx, SymbolScope *sscope,
         // return truncate(x * n/N, k); n = 2^k
         // Compute N -> 1/fValue
         auto N = 1 / fValue;
-        auto k = findTwoK(N);
+        // keep the total shift below the ring width
+        const auto ring_bits =
+            static_cast<int64_t>(SizeOf(sctx->getField()) * 8);
+        const int64_t max_k =
+            ring_bits - 2 - static_cast<int64_t>(sctx->getFxpBits());
+        auto k = std::min(findTwoK(N), max_k);
         auto n = std::pow(2, k);
 
-        // n/N
-        auto newRhs = kernel::hlo::Constant(sctx, static_cast<float>(n) / N,
-                                            smallConst.getType().getShape());
+        // n/N, with the sign of the constant
+        auto newRhs = kernel::hlo::Constant(
+            sctx, std::copysign(static_cast<float>(n) / N, cValue),
+            smallConst.getType().getShape());
         // x*n/N
         auto kv = lookupValue(sscope, multiplier, opts);
         // To merge truncation in multiply with next k-bits one, we
-- 
2.43.0


From 849e17dd25c60787b4e38f41dd37f2373416f502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 39/59] fix: converting numbers to booleans kept the number

---
 src/libspu/kernel/hlo/casting.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hlo/casting.cc b/src/libspu/kernel/hlo/casting.cc
index b3c0993..ec2ec9b 100644
--- a/src/libspu/kernel/hlo/casting.cc
+++ b/src/libspu/kernel/hlo/casting.cc
@@ -15,6 +15,7 @@
 #include "libspu/kernel/hlo/casting.h"
 
 #include "libspu/kernel/hal/complex.h"
+#include "libspu/kernel/hal/constants.h"
 #include "libspu/kernel/hal/polymorphic.h"
 #include "libspu/kernel/hal/type_cast.h"
 
@@ -38,7 +39,12 @@ spu::Value Cast(SPUContext *ctx, const spu::Value &in, Visibility dst_vtype,
     }
   }
   if (ret.dtype() != dst_dtype) {
-    ret = hal::dtype_cast(ctx, ret, dst_dtype);
+    if (dst_dtype == DT_I1) {
+      // every number but zero is true
+      ret = hal::not_equal(ctx, ret, hal::zeros(ctx, ret.dtype(), ret.shape()));
+    } else {
+      ret = hal::dtype_cast(ctx, ret, dst_dtype);
+    }
   }
   return ret;
 }
-- 
2.43.0


From 6bbfdf89e540c6a335b48a3f0410652de2cd5df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:02 +0000
Subject: [PATCH 40/59] fix: sorting along a dimension counted from the last
 was refused

---
 src/libspu/kernel/hal/permute.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/kernel/hal/permute.cc b/src/libspu/kernel/hal/permute.cc
index 3375bd8..7df841c 100644
--- a/src/libspu/kernel/hal/permute.cc
+++ b/src/libspu/kernel/hal/permute.cc
@@ -1700,6 +1700,10 @@ std::vector<spu::Value> permute(SPUContext *ctx,
   // - N is the number of vector to permute
   // - W is the vector length.
   const int64_t M = inputs.size();
+  if (permute_dim < 0) {
+    // counted from the last dimension
+    permute_dim += shape.ndim();
+  }
   const int64_t W = shape.dim(permute_dim);
   if (shape.numel() == 0) {
     return std::vector<spu::Value>(inputs.begin(), inputs.end());
-- 
2.43.0


From 445d20f00f19d0f1ac80b8456cbe8456ea2a1860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 41/59] fix: indices of top-k had another type than the program
 declares

---
 src/libspu/device/pphlo/pphlo_executor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libspu/device/pphlo/pphlo_executor.cc b/src/libspu/device/pphlo/pphlo_executor.cc
index ebed2ed..e5a6e17 100644
--- a/src/libspu/device/pphlo/pphlo_executor.cc
+++ b/src/libspu/device/pphlo/pphlo_executor.cc
@@ -1141,6 +1141,12 @@ void execute(OpExecutor *executor, SPUContext *sctx, SymbolScope *sscope,
   auto ret = intrinsic_dispatcher(sctx, op, inputs);
 
   for (size_t idx = 0; idx < op->getNumResults(); ++idx) {
+    // an intrinsic may produce indices of another width than the program asks
+    const auto dtype = getDtypeFromMlirType(op->getResult(idx).getType());
+    if (ret[idx].dtype() != dtype && isInteger(ret[idx].dtype()) &&
+        isInteger(dtype)) {
+      ret[idx] = kernel::hlo::Cast(sctx, ret[idx], ret[idx].vtype(), dtype);
+    }
     addValue(sscope, op->getResult(idx), std::move(ret[idx]), opt);
   }
 }
-- 
2.43.0


From 310e669b489325cc04c6412afe2545bc2d393404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 42/59] fix: an integer times a tiny constant lost its fraction

---
 src/libspu/device/pphlo/pphlo_executor.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libspu/device/pphlo/pphlo_executor.cc b/src/libspu/device/pphlo/pphlo_executor.cc
index e5a6e17..499a3d3 100644
--- a/src/libspu/device/pphlo/pphlo_executor.cc
+++ b/src/libspu/device/pphlo/pphlo_executor.cc
@@ -321,7 +321,9 @@ void execute(OpExecutor *, SPUContext *sctx, SymbolScope *sscope,
       // TODO: Maybe make it configurable?
       eps = eps * 4;
 
-      if (fValue < eps && fValue > 0) {
+      const auto kv = lookupValue(sscope, multiplier, opts);
+      // an integer times such a constant takes the usual way
+      if (kv.isFxp() && fValue < eps && fValue > 0) {
         // Handle x * (very_small_const)
         // return truncate(x * n/N, k); n = 2^k
         // Compute N -> 1/fValue
@@ -339,7 +341,6 @@ void execute(OpExecutor *, SPUContext *sctx, SymbolScope *sscope,
             sctx, std::copysign(static_cast<float>(n) / N, cValue),
             smallConst.getType().getShape());
         // x*n/N
-        auto kv = lookupValue(sscope, multiplier, opts);
         // To merge truncation in multiply with next k-bits one, we
         // deliberately pick the ring mul to do a mul *without* truncation
         auto mulRet = kernel::hal::_mul(sctx, kv, newRhs).setDtype(kv.dtype());
-- 
2.43.0


From 60451e5fb263160609583d305061de5a6b32b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:03 +0000
Subject: [PATCH 43/59] fix: converting real numbers to complex ones left them
 real

---
 src/libspu/device/pphlo/pphlo_executor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libspu/device/pphlo/pphlo_executor.cc b/src/libspu/device/pphlo/pphlo_executor.cc
index 499a3d3..8286d49 100644
--- a/src/libspu/device/pphlo/pphlo_executor.cc
+++ b/src/libspu/device/pphlo/pphlo_executor.cc
@@ -1002,8 +1002,12 @@ void execute(OpExecutor *, SPUContext *sctx, SymbolScope *sscope,
   auto dst_vtype = convertVisibility(tool.getTypeVisibility(op.getType()));
   auto in = lookupValue(sscope, op.getOperand(), opts);
 
-  auto from_type = tool.getExpressedType(op.getOperand().getType());
-  auto to_type = tool.getExpressedType(op.getType());
+  auto element_type = [&](mlir::Type type) {
+    return mlir::dyn_cast<mlir::RankedTensorType>(tool.getExpressedType(type))
+        .getElementType();
+  };
+  auto from_type = element_type(op.getOperand().getType());
+  auto to_type = element_type(op.getType());
 
   auto casted = kernel::hlo::Cast(sctx, in, dst_vtype, dst_dtype);
   if (!mlir::isa<mlir::ComplexType>(from_type) &&
-- 
2.43.0


From 6fb243e2f10b86dda5d55b62c1484e6318d79726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:46 +0000
Subject: [PATCH 44/59] fix: beaver cache outlived the array it was enabled for

The cache is keyed by the address of the array's buffer, but did not keep
that buffer: once the array was gone, an unrelated array that happened to be
allocated at the same address in one of the parties was taken for the cached
one there, and the parties' beaver protocols went out of step.
---
 src/libspu/mpc/semi2k/beaver/beaver_cache.cc | 8 ++++----
 src/libspu/mpc/semi2k/beaver/beaver_cache.h  | 7 ++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_cache.cc b/src/libspu/mpc/semi2k/beaver/beaver_cache.cc
index ae40473..6f7f5f8 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_cache.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_cache.cc
@@ -53,7 +53,7 @@ void BeaverCache::EnableCache(const NdArrayRef& x) {
   if (cache_meta_.find(x.buf()->data()) != cache_meta_.end()) {
     return;
   }
-  cache_meta_.insert({x.buf()->data(), BufferCacheMeta()});
+  cache_meta_.insert({x.buf()->data(), BufferCacheMeta{x.buf(), {}}});
 }
 
 BeaverCache::Cache BeaverCache::GetCache(const NdArrayRef& x,
@@ -67,7 +67,7 @@ BeaverCache::Cache BeaverCache::GetCache(const NdArrayRef& x,
   }
   ret.enabled = true;
 
-  const auto& buf_cache = cit->second;
+  const auto& buf_cache = cit->second.slices;
   auto bit = buf_cache.find(x);
   if (bit != buf_cache.end()) {
     const auto& meta = bit->second;
@@ -105,7 +105,7 @@ void BeaverCache::SetCache(const NdArrayRef& x,
   const auto cit = cache_meta_.find(x.buf()->data());
   SPU_ENFORCE(cit != cache_meta_.end());
 
-  auto& buf_cache = cit->second;
+  auto& buf_cache = cit->second.slices;
   const auto bit = buf_cache.find(x);
   SPU_ENFORCE(bit == buf_cache.end());
 
@@ -123,7 +123,7 @@ void BeaverCache::DisableCache(const NdArrayRef& x) {
     return;
   }
 
-  for (auto& buf_cache : cit->second) {
+  for (auto& buf_cache : cit->second.slices) {
     DropCache(buf_cache.second);
   }
 
diff --git a/src/libspu/mpc/semi2k/beaver/beaver_cache.h b/src/libspu/mpc/semi2k/beaver/beaver_cache.h
index 5de345f..76c7031 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_cache.h
+++ b/src/libspu/mpc/semi2k/beaver/beaver_cache.h
@@ -85,7 +85,12 @@ class BeaverCache {
   // for all NdArrayRef share same buffer (cache enabled NdArrayRef and slice of
   // this NdArrayRef) use NdArrayRef(data ptr with offset + shape + strides) to
   // track the specific cache.
-  using BufferCacheMeta = std::unordered_map<NdArrayRef, CacheMeta>;
+  struct BufferCacheMeta {
+    // keeps the buffer alive, otherwise an unrelated array could be allocated
+    // at the same address (in some of the parties only) and taken for it.
+    std::shared_ptr<yacl::Buffer> buf;
+    std::unordered_map<NdArrayRef, CacheMeta> slices;
+  };
   // use NdArrayRef's under-layer buffer data ptr as first map's key to mark if
   // we need keep cache for a NdArrayRef.
   std::unordered_map<const void*, BufferCacheMeta> cache_meta_;
-- 
2.43.0


From ce77d8f5dea74c43b730e7fb8fdb2bc0a9729996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 45/59] hook: the size of parallel tasks can be set by a model
 checker (SPU_VMC_HOOKS)

---
 src/libspu/core/parallel_utils.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libspu/core/parallel_utils.h b/src/libspu/core/parallel_utils.h
index 90c8c63..e417689 100644
--- a/src/libspu/core/parallel_utils.h
+++ b/src/libspu/core/parallel_utils.h
@@ -21,7 +21,12 @@
 
 namespace spu {
 
+#ifdef SPU_VMC_HOOKS
+// lets a model checker reach the split of small arrays.
+inline int64_t kMinTaskSize = 50000;
+#else
 constexpr int64_t kMinTaskSize = 50000;
+#endif
 
 template <class F>
 inline auto pforeach(int64_t begin, int64_t end, F&& f) -> std::enable_if_t<
-- 
2.43.0


From 217cc7711bafc28764fa0d55d34f004037ee1239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:46 +0000
Subject: [PATCH 46/59] hook: the size of matrix blocks can be set by a model
 checker (SPU_VMC_HOOKS)

---
 src/libspu/kernel/hal/ring.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/libspu/kernel/hal/ring.cc b/src/libspu/kernel/hal/ring.cc
index 1c5895b..839ac41 100644
--- a/src/libspu/kernel/hal/ring.cc
+++ b/src/libspu/kernel/hal/ring.cc
@@ -223,6 +223,15 @@ Value _bitrev(SPUContext* ctx, const Value& x, size_t start, size_t end) {
   SPU_THROW("unsupport op={} for {}", "_bitrev", x);
 }
 
+// the operands of a matrix product that are larger are split into blocks.
+#ifdef SPU_VMC_HOOKS
+// lets a model checker reach the split of small matrices.
+extern size_t kMmulMemLimit;
+size_t kMmulMemLimit = 256UL * 1024 * 1024;
+#else
+static constexpr size_t kMmulMemLimit = 256UL * 1024 * 1024;
+#endif
+
 namespace {
 
 std::tuple<int64_t, int64_t, int64_t> deduceMmulArgs(const Shape& lhs,
@@ -319,7 +328,7 @@ Value _mmul(SPUContext* ctx, const Value& x, const Value& y) {
                  Value(y.data().reshape({k, n}), y.dtype()));
   }
   auto [m_step, n_step, k_step] =
-      calcMmulTilingSize(m, n, k, x.elsize(), 256UL * 1024 * 1024);
+      calcMmulTilingSize(m, n, k, x.elsize(), kMmulMemLimit);
 
   if (ctx->config().experimental_disable_mmul_split ||
       (m_step == m && n_step == n && k_step == k)) {
-- 
2.43.0


From 56f7a408171657b7c60c372db66b21a58412f5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 47/59] fix: tiles used their input after a failure of another
 tile had freed it

If one tile of an operation threw, the exception destroyed the copy of the
input while the other tiles' tasks were still running on it: their futures,
which wait for them, were destroyed only afterwards.
---
 src/libspu/mpc/utils/tiling_util.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libspu/mpc/utils/tiling_util.h b/src/libspu/mpc/utils/tiling_util.h
index 53b91a5..40146ee 100644
--- a/src/libspu/mpc/utils/tiling_util.h
+++ b/src/libspu/mpc/utils/tiling_util.h
@@ -74,6 +74,8 @@ Value tiled(Fn&& fn, SPUContext* ctx, const Value& x, Args&&... args) {
     sub_ctxs.push_back(ctx->fork());
   }
 
+  // declared before futures, whose destructors wait for the tasks using them.
+  auto data = x.data();
   std::vector<std::future<Value>> futures;
 
   // initialize slice indices
@@ -84,7 +86,6 @@ Value tiled(Fn&& fn, SPUContext* ctx, const Value& x, Args&&... args) {
     end_indices[dim] = 1;
   }
 
-  auto data = x.data();
   for (int64_t slice_idx = 0; slice_idx < num_slice_dim * num_slice;
        slice_idx++) {
     auto async_res = std::async(
@@ -189,6 +190,9 @@ Value tiled(Fn&& fn, SPUContext* ctx, const Value& x, const Value& y,
     sub_ctxs.push_back(ctx->fork());
   }
 
+  // declared before futures, whose destructors wait for the tasks using them.
+  auto data_x = x.data();
+  auto data_y = y.data();
   std::vector<std::future<Value>> futures;
 
   // initialize slice indices
@@ -199,8 +203,6 @@ Value tiled(Fn&& fn, SPUContext* ctx, const Value& x, const Value& y,
     end_indices[dim] = 1;
   }
 
-  auto data_x = x.data();
-  auto data_y = y.data();
   for (int64_t slice_idx = 0; slice_idx < num_slice_dim * num_slice;
        slice_idx++) {
     auto async_res = std::async(
-- 
2.43.0


From c9bee39cab95762934fa08d16cd58a65cb17ebe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:19 +0000
Subject: [PATCH 48/59] hook: chunk sizes of the beaver server and cache can be
 set by a model checker (SPU_VMC_HOOKS)

---
 src/libspu/mpc/semi2k/beaver/beaver_cache.h               | 8 ++++++++
 .../semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_cache.h b/src/libspu/mpc/semi2k/beaver/beaver_cache.h
index 76c7031..3a60ec6 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_cache.h
+++ b/src/libspu/mpc/semi2k/beaver/beaver_cache.h
@@ -81,7 +81,15 @@ class BeaverCache {
   std::once_flag db_lazy_once_flag_;
   mutable std::shared_mutex mutex_;
   std::unique_ptr<leveldb::DB> db_;
+#ifdef SPU_VMC_HOOKS
+ public:
+  // lets a model checker reach arrays of many slices.
+  inline static size_t cache_slice_size_ = 32 * 1024 * 1024;
+
+ private:
+#else
   const size_t cache_slice_size_ = 32 * 1024 * 1024;
+#endif
   // for all NdArrayRef share same buffer (cache enabled NdArrayRef and slice of
   // this NdArrayRef) use NdArrayRef(data ptr with offset + shape + strides) to
   // track the specific cache.
diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
index 28f2311..65e1766 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
@@ -43,9 +43,16 @@ DECLARE_int64(socket_max_unwritten_bytes);
 
 namespace spu::mpc::semi2k::beaver::ttp_server {
 
+#ifdef SPU_VMC_HOOKS
+// lets a model checker reach answers of many chunks with small requests.
+int64_t kReplayChunkSize = 32L * 1024 * 1024;
+#endif
+
 namespace {
 
+#ifndef SPU_VMC_HOOKS
 const int64_t kReplayChunkSize = 32L * 1024 * 1024;
+#endif
 
 inline size_t CeilDiv(size_t a, size_t b) { return (a + b - 1) / b; }
 
-- 
2.43.0


From c0d3b5ce3ad178e063ec053e615f2dcac3116c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:11 +0000
Subject: [PATCH 49/59] fix: the arrays of a large TruncPr answer were
 interleaved by the beaver server

---
 .../beaver/beaver_impl/ttp_server/beaver_server.cc  | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
index 65e1766..34197f3 100644
--- a/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
+++ b/src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc
@@ -367,6 +367,9 @@ void AdjustAndSend(
       int64_t left_elements = ops[0].desc.shape.at(0);
       int64_t chunk_elements =
           beaver::ttp_server::kReplayChunkSize / SizeOf(ops[0].desc.field);
+      // the client reads the arrays one after another, so the chunks of the
+      // second one have to wait for the last chunk of the first one.
+      std::vector<std::vector<NdArrayRef>> deferred;
       while (left_elements > 0) {
         int64_t cur_elements = std::min(left_elements, chunk_elements);
         left_elements -= cur_elements;
@@ -374,12 +377,22 @@ void AdjustAndSend(
           op.desc.shape[0] = cur_elements;
         }
         auto adjusts = AdjustImpl(request, absl::MakeSpan(ops), perm);
+        deferred.resize(adjusts.size() - 1);
+        for (size_t idx = 1; idx < adjusts.size(); idx++) {
+          deferred[idx - 1].push_back(std::move(adjusts[idx]));
+        }
+        adjusts.resize(1);
         if (left_elements > 0) {
           SendStreamData(adjusts, pa);
         } else {
           SendStreamData(adjusts, pa, pad_length);
         }
       }
+      for (const auto& chunks : deferred) {
+        // only AdjustAnd, which has a single array, is padded.
+        SPU_ENFORCE_EQ(pad_length, 0U);
+        SendStreamData(chunks, pa);
+      }
     }
   } catch (const yacl::IoError& e) {
     // streaming write error, we can do nothing but logging
-- 
2.43.0


From 432525c20458d5329695786f73b551e494c3e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 50/59] fix: B2ASingleBitWithSize refused the documented width
 of one bit

---
 src/libspu/mpc/cheetah/ot/basic_ot_prot.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc b/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
index 54f9b70..b9d7b64 100644
--- a/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
+++ b/src/libspu/mpc/cheetah/ot/basic_ot_prot.cc
@@ -220,7 +220,7 @@ NdArrayRef BasicOTProtocols::B2ASingleBitWithSize(const NdArrayRef &inp,
   const auto *share_t = inp.eltype().as<BShrTy>();
   SPU_ENFORCE(share_t->nbits() == 1, "Support for 1bit boolean only");
   auto field = inp.eltype().as<Ring2k>()->field();
-  SPU_ENFORCE(bit_width > 1 && bit_width < (int)(8 * SizeOf(field)),
+  SPU_ENFORCE(bit_width > 0 && bit_width < (int)(8 * SizeOf(field)),
               "bit_width={} is invalid", bit_width);
   return SingleB2A(inp, bit_width);
 }
-- 
2.43.0


From 9b54c4e1d22810fc2600189e8481bfea39bf840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 51/59] fix: a cheetah matrix product over an empty dimension
 was left uninitialised

---
 src/libspu/mpc/cheetah/arithmetic.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/libspu/mpc/cheetah/arithmetic.cc b/src/libspu/mpc/cheetah/arithmetic.cc
index fbf8504..3a1eacf 100644
--- a/src/libspu/mpc/cheetah/arithmetic.cc
+++ b/src/libspu/mpc/cheetah/arithmetic.cc
@@ -400,7 +400,8 @@ NdArrayRef MatMulVVS::proc(KernelEvalContext* ctx, const NdArrayRef& x,
                            const NdArrayRef& y) const {
   auto out_type = makeType<cheetah::AShrTy>(ctx->sctx()->getField());
   if (0 == x.numel() || 0 == y.numel()) {
-    return NdArrayRef(out_type, {x.shape()[0], y.shape()[1]});
+    return ring_zeros(ctx->sctx()->getField(), {x.shape()[0], y.shape()[1]})
+        .as(out_type);
   }
   auto* comm = ctx->getState<Communicator>();
   auto* dot_prot = ctx->getState<CheetahDotState>()->get();
@@ -420,7 +421,9 @@ NdArrayRef MatMulVVS::proc(KernelEvalContext* ctx, const NdArrayRef& x,
 NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& x,
                           const NdArrayRef& y) const {
   if (0 == x.numel() || 0 == y.numel()) {
-    return NdArrayRef(x.eltype(), {x.shape()[0], y.shape()[1]});
+    return ring_zeros(x.eltype().as<Ring2k>()->field(),
+                      {x.shape()[0], y.shape()[1]})
+        .as(x.eltype());
   }
 
   auto* comm = ctx->getState<Communicator>();
@@ -459,7 +462,9 @@ NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& x,
 NdArrayRef MatMulAV::proc(KernelEvalContext* ctx, const NdArrayRef& x,
                           const NdArrayRef& y) const {
   if (0 == x.numel() || 0 == y.numel()) {
-    return NdArrayRef(x.eltype(), {x.shape()[0], y.shape()[1]});
+    return ring_zeros(x.eltype().as<Ring2k>()->field(),
+                      {x.shape()[0], y.shape()[1]})
+        .as(x.eltype());
   }
   auto* comm = ctx->getState<Communicator>();
   auto* dot_prot = ctx->getState<CheetahDotState>()->get();
-- 
2.43.0


From 2f2b19f01d981298e9471c1b72ecaed79e5d7b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 52/59] fix: a semi2k matrix product over an empty dimension
 asked beaver for an empty triple

---
 src/libspu/mpc/semi2k/arithmetic.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libspu/mpc/semi2k/arithmetic.cc b/src/libspu/mpc/semi2k/arithmetic.cc
index 5f03ef1..d1d34d7 100644
--- a/src/libspu/mpc/semi2k/arithmetic.cc
+++ b/src/libspu/mpc/semi2k/arithmetic.cc
@@ -447,6 +447,13 @@ NdArrayRef MatMulAP::proc(KernelEvalContext*, const NdArrayRef& x,
 
 NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& x,
                           const NdArrayRef& y) const {
+  if (x.numel() == 0 || y.numel() == 0) {
+    // an empty sum, beaver has no triples for it.
+    return ring_zeros(x.eltype().as<Ring2k>()->field(),
+                      {x.shape()[0], y.shape()[1]})
+        .as(x.eltype());
+  }
+
   auto* comm = ctx->getState<Communicator>();
 
   auto [a, b, c, x_a, y_b] = MulOpen(ctx, x, y, true);
-- 
2.43.0


From 9cec46b0462839086340354306f8b6436516249a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:31 +0000
Subject: [PATCH 53/59] fix: checking the macs of an opened spdz2k tensor
 without elements divided by zero

---
 src/libspu/mpc/spdz2k/beaver/beaver_tfp.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libspu/mpc/spdz2k/beaver/beaver_tfp.cc b/src/libspu/mpc/spdz2k/beaver/beaver_tfp.cc
index 3ab9fd0..eaf7c64 100644
--- a/src/libspu/mpc/spdz2k/beaver/beaver_tfp.cc
+++ b/src/libspu/mpc/spdz2k/beaver/beaver_tfp.cc
@@ -281,6 +281,11 @@ bool BeaverTfpUnsafe::BatchMacCheck(const NdArrayRef& open_value,
   const int64_t numel = open_value.numel();
   const size_t mac_bits = k + s;
 
+  if (numel == 0) {
+    // nothing was opened.
+    return true;
+  }
+
   auto* comm = comm_.get();
   const auto& lctx = comm_->lctx();
   const auto key = spdz_key_;
-- 
2.43.0


From aba92d1952bfa64b295fa2ce40990db514928432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 54/59] fix: ring_all_equal called ring elements 2^(k-1) apart
 equal

---
 src/libspu/mpc/utils/ring_ops.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libspu/mpc/utils/ring_ops.cc b/src/libspu/mpc/utils/ring_ops.cc
index 9e410c3..1d8f55c 100644
--- a/src/libspu/mpc/utils/ring_ops.cc
+++ b/src/libspu/mpc/utils/ring_ops.cc
@@ -14,6 +14,7 @@
 
 #include "libspu/mpc/utils/ring_ops.h"
 
+#include <algorithm>
 #include <cstring>
 #include <random>
 
@@ -534,7 +535,11 @@ bool ring_all_equal(const NdArrayRef& x, const NdArrayRef& y, size_t abs_err) {
     for (int64_t idx = 0; idx < numel; ++idx) {
       auto x_el = _x[idx];
       auto y_el = _y[idx];
-      if (std::abs(x_el - y_el) > static_cast<T>(abs_err)) {
+      // the distance on the ring, which for 2^(k-1) has no absolute value.
+      const ring2k_t diff =
+          static_cast<ring2k_t>(x_el) - static_cast<ring2k_t>(y_el);
+      const ring2k_t neg = 0 - diff;
+      if (std::min(diff, neg) > static_cast<ring2k_t>(abs_err)) {
         fmt::print("error: {0} {1} abs_err: {2}\n", x_el, y_el, abs_err);
         return false;
       }
-- 
2.43.0


From ab4e6b4b688ecca6aefa46bafae403722c9e35b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 55/59] fix: cheetah: a permutation of one element threw

---
 src/libspu/mpc/cheetah/permute.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libspu/mpc/cheetah/permute.cc b/src/libspu/mpc/cheetah/permute.cc
index 72d3fe2..76b5499 100644
--- a/src/libspu/mpc/cheetah/permute.cc
+++ b/src/libspu/mpc/cheetah/permute.cc
@@ -74,6 +74,10 @@ NdArrayRef SecureInvPerm(KernelEvalContext* ctx, NdArrayRef& x,
   const auto field = x.eltype().as<RingTy>()->field();
   const auto num_packets = pv.size();
   SPU_ENFORCE(num_packets > 0, "permutation vector should not be empty.");
+  if (num_packets == 1) {
+    // there is only one permutation, and no network for it.
+    return x;
+  }
   // build graph structure
   const auto graph = generate_as_waksman_topology(num_packets);
   const auto width = graph.size();
-- 
2.43.0


From c8f2b7b400b5f683e375227e53f8a59ded3326c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 56/59] fix: a message of the wrong length was read out of
 bounds

---
 src/libspu/mpc/common/communicator.cc | 35 ++++++++++++---------------
 src/libspu/mpc/common/communicator.h  |  3 +++
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/src/libspu/mpc/common/communicator.cc b/src/libspu/mpc/common/communicator.cc
index 3156491..6fcf09b 100644
--- a/src/libspu/mpc/common/communicator.cc
+++ b/src/libspu/mpc/common/communicator.cc
@@ -23,8 +23,14 @@ namespace {
 // When ArrayRef is transferred via network, it's supposed to be compact.
 constexpr int64_t kOffset = 0;
 
-std::shared_ptr<yacl::Buffer> stealBuffer(yacl::Buffer&& buf) {
-  return std::make_shared<yacl::Buffer>(std::move(buf));
+// Takes over what a peer sent as an array, whose size is not the peer's choice.
+NdArrayRef stealArray(yacl::Buffer&& buf, const Type& eltype,
+                      const Shape& shape) {
+  SPU_ENFORCE(buf.size() == static_cast<int64_t>(shape.numel() * eltype.size()),
+              "got {} bytes for {} elements of {}", buf.size(), shape.numel(),
+              eltype);
+  return NdArrayRef(std::make_shared<yacl::Buffer>(std::move(buf)), eltype,
+                    shape, makeCompactStrides(shape), kOffset);
 }
 
 NdArrayRef getOrCreateCompactArray(const NdArrayRef& in) {
@@ -51,8 +57,7 @@ NdArrayRef Communicator::allReduce(ReduceOp op, const NdArrayRef& in,
       continue;
     }
 
-    auto arr = NdArrayRef(stealBuffer(std::move(bufs[idx])), in.eltype(),
-                          in.shape(), makeCompactStrides(in.shape()), kOffset);
+    auto arr = stealArray(std::move(bufs[idx]), in.eltype(), in.shape());
     if (op == ReduceOp::ADD) {
       if (in.eltype().isa<GfmpTy>()) {
         gfmp_add_mod_(res, arr);
@@ -87,9 +92,7 @@ NdArrayRef Communicator::reduce(ReduceOp op, const NdArrayRef& in, size_t root,
         continue;
       }
 
-      auto arr =
-          NdArrayRef(stealBuffer(std::move(bufs[idx])), in.eltype(), in.shape(),
-                     makeCompactStrides(in.shape()), kOffset);
+      auto arr = stealArray(std::move(bufs[idx]), in.eltype(), in.shape());
       if (op == ReduceOp::ADD) {
         if (in.eltype().isa<GfmpTy>()) {
           gfmp_add_mod_(res, arr);
@@ -120,8 +123,7 @@ NdArrayRef Communicator::rotate(const NdArrayRef& in, std::string_view tag) {
   stats_.latency += 1;
   stats_.comm += in.numel() * in.elsize();
 
-  return NdArrayRef(stealBuffer(std::move(res_buf)), in.eltype(), in.shape(),
-                    makeCompactStrides(in.shape()), kOffset);
+  return stealArray(std::move(res_buf), in.eltype(), in.shape());
 }
 
 std::vector<NdArrayRef> Communicator::gather(const NdArrayRef& in, size_t root,
@@ -138,9 +140,7 @@ std::vector<NdArrayRef> Communicator::gather(const NdArrayRef& in, size_t root,
   if (root == getRank()) {
     SPU_ENFORCE_EQ(bufs.size(), getWorldSize());
     for (size_t idx = 0; idx < bufs.size(); idx++) {
-      res[idx] =
-          NdArrayRef(stealBuffer(std::move(bufs[idx])), in.eltype(), in.shape(),
-                     makeCompactStrides(in.shape()), kOffset);
+      res[idx] = stealArray(std::move(bufs[idx]), in.eltype(), in.shape());
     }
   }
   return res;
@@ -158,17 +158,13 @@ NdArrayRef Communicator::broadcast(const NdArrayRef& in, size_t root,
     yacl::ByteContainerView bv(reinterpret_cast<uint8_t const*>(array.data()),
                                array.elsize() * array.numel());
     auto buf = yacl::link::Broadcast(lctx_, bv, root, tag);
-    return NdArrayRef(stealBuffer(std::move(buf)), in.eltype(), in.shape(),
-                      makeCompactStrides(in.shape()), kOffset);
+    return stealArray(std::move(buf), in.eltype(), in.shape());
   } else {
     // for yacl::link::Broadcast need a legal ByteContainerView
     // But the data is not actually used
     std::array<uint8_t, 1> dummy;
     auto buf = yacl::link::Broadcast(lctx_, dummy, root, tag);
-    SPU_ENFORCE(static_cast<size_t>(buf.size()) ==
-                shape.numel() * eltype.size());
-    return NdArrayRef(stealBuffer(std::move(buf)), eltype, shape,
-                      makeCompactStrides(shape), kOffset);
+    return stealArray(std::move(buf), eltype, shape);
   }
 }
 
@@ -185,7 +181,8 @@ NdArrayRef Communicator::recv(size_t src_rank, const Type& eltype,
   auto buf = lctx_->Recv(src_rank, tag);
 
   int64_t numel = buf.size() / eltype.size();
-  return NdArrayRef(stealBuffer(std::move(buf)), eltype, {numel}, {1}, kOffset);
+  return NdArrayRef(std::make_shared<yacl::Buffer>(std::move(buf)), eltype,
+                    {numel}, {1}, kOffset);
 }
 
 }  // namespace spu::mpc
\ No newline at end of file
diff --git a/src/libspu/mpc/common/communicator.h b/src/libspu/mpc/common/communicator.h
index 44a3837..b60788d 100644
--- a/src/libspu/mpc/common/communicator.h
+++ b/src/libspu/mpc/common/communicator.h
@@ -183,6 +183,7 @@ std::vector<T> Communicator::allReduce(absl::Span<T const> in,
   std::vector<T> res(in.size(), 0);
   const FN<T> fn;
   for (const auto& buf : bufs) {
+    SPU_ENFORCE(buf.size() == static_cast<int64_t>(sizeof(T) * in.size()));
     pforeach(0, in.size(), [&](int64_t idx) {
       res[idx] = fn(res[idx], (buf.data<T>())[idx]);
     });
@@ -204,6 +205,7 @@ std::vector<T> Communicator::bcast(absl::Span<T const> in, size_t root,
   stats_.latency += 1;
   stats_.comm += in.size() * sizeof(T);
 
+  SPU_ENFORCE(buf.size() == static_cast<int64_t>(sizeof(T) * in.size()));
   // TODO: steal the buffer.
   std::vector<T> res(in.size(), 0);
   std::memcpy(res.data(), buf.data(), in.size() * sizeof(T));
@@ -224,6 +226,7 @@ std::vector<std::vector<T>> Communicator::gather(absl::Span<T const> in,
   // TODO: steal the buffer.
   std::vector<std::vector<T>> res;
   for (const auto& buf : bufs) {
+    SPU_ENFORCE(buf.size() == static_cast<int64_t>(sizeof(T) * in.size()));
     std::vector<T> vi(in.size());
     std::memcpy(vi.data(), buf.data(), in.size() * sizeof(T));
     res.push_back(std::move(vi));
-- 
2.43.0


From ad6ebc366c15038e860e4c9d8ab2baba9d9363de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 57/59] fix: spdz2k: the openings of a matrix product were not
 checked

---
 src/libspu/mpc/spdz2k/arithmetic.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libspu/mpc/spdz2k/arithmetic.cc b/src/libspu/mpc/spdz2k/arithmetic.cc
index 7f0312a..2781761 100644
--- a/src/libspu/mpc/spdz2k/arithmetic.cc
+++ b/src/libspu/mpc/spdz2k/arithmetic.cc
@@ -536,7 +536,9 @@ NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   const auto s_bits = ctx->getState<Spdz2kState>()->s();
 
   const auto& x = getValueShare(lhs);
+  const auto& x_mac = GetMacShare(ctx, lhs);
   const auto& y = getValueShare(rhs);
+  const auto& y_mac = GetMacShare(ctx, rhs);
 
   // generate beaver multiple triple.
   auto [vec, mac_vec] = beaver->AuthDot(field, lhs.shape()[0], rhs.shape()[1],
@@ -550,6 +552,10 @@ NdArrayRef MatMulAA::proc(KernelEvalContext* ctx, const NdArrayRef& lhs,
   });
   auto p_e = std::move(res[0]);
   auto p_f = std::move(res[1]);
+  SPU_ENFORCE(
+      beaver->BatchMacCheck(p_e, ring_sub(x_mac, a_mac), k_bits, s_bits));
+  SPU_ENFORCE(
+      beaver->BatchMacCheck(p_f, ring_sub(y_mac, b_mac), k_bits, s_bits));
   auto p_ef = ring_mmul(p_e, p_f);
 
   // z = p_e dot b + a dot p_f + c;
-- 
2.43.0


From 1ef221960c4ca5079c241ed21953e764b50deb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:51 +0000
Subject: [PATCH 58/59] fix: spdz2k: the most significant bit of a secret
 opened the secret

---
 src/libspu/mpc/spdz2k/conversion.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/conversion.cc b/src/libspu/mpc/spdz2k/conversion.cc
index 122d1c2..3e9f0a4 100644
--- a/src/libspu/mpc/spdz2k/conversion.cc
+++ b/src/libspu/mpc/spdz2k/conversion.cc
@@ -342,9 +342,6 @@ NdArrayRef MSB::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
   auto _in = getValueShare(in);
   auto _in_mac = GetMacShare(ctx, in);
 
-  auto [c_in, c_in_mac] = beaver->BatchOpen(_in, _in_mac, k, s);
-  SPU_ENFORCE(beaver->BatchMacCheck(c_in, c_in_mac, k, s));
-
   auto _r_val = ring_zeros(field, in.shape());
   auto _r_mac = ring_zeros(field, in.shape());
   std::vector<NdArrayRef> _r_vec;
-- 
2.43.0


From 73062a3e9e22587fb4e9749c7544ebc06af873d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 59/59] fix: spdz2k: a share without a mac could not be opened
 or truncated

Shares made outside (Spdz2kIo) have no mac; opening, revealing and
truncating them used the absent one and failed its check.
---
 src/libspu/mpc/spdz2k/arithmetic.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libspu/mpc/spdz2k/arithmetic.cc b/src/libspu/mpc/spdz2k/arithmetic.cc
index 2781761..b8df107 100644
--- a/src/libspu/mpc/spdz2k/arithmetic.cc
+++ b/src/libspu/mpc/spdz2k/arithmetic.cc
@@ -138,7 +138,7 @@ NdArrayRef A2P::proc(KernelEvalContext* ctx, const NdArrayRef& in) const {
 
   // in
   const auto& x = getValueShare(in);
-  const auto& x_mac = getMacShare(in);
+  const auto& x_mac = GetMacShare(ctx, in);
   auto [t, check_mac] = beaver->BatchOpen(x, x_mac, k, s);
   SPU_ENFORCE(beaver->BatchMacCheck(t, check_mac, k, s));
 
@@ -170,7 +170,7 @@ NdArrayRef A2V::proc(KernelEvalContext* ctx, const NdArrayRef& in,
 
   // add mask
   const auto& x = getValueShare(in);
-  const auto& x_mac = getMacShare(in);
+  const auto& x_mac = GetMacShare(ctx, in);
   auto mask_x = ring_add(x, z);
   auto mask_x_mac = ring_add(x_mac, z_mac);
 
@@ -293,7 +293,7 @@ bool SingleCheck(KernelEvalContext* ctx, const NdArrayRef& in) {
 
   // 2. Locally construct [y]
   const auto& x = getValueShare(in);
-  const auto& x_mac = getMacShare(in);
+  const auto& x_mac = GetMacShare(ctx, in);
   auto y = ring_add(x, ring_lshift(r, {k}));
   auto y_mac = ring_add(x_mac, ring_lshift(r_mac, {k}));
 
@@ -601,7 +601,7 @@ NdArrayRef TruncA::proc(KernelEvalContext* ctx, const NdArrayRef& in,
   const auto s = ctx->getState<Spdz2kState>()->s();
 
   const auto& x = getValueShare(in);
-  const auto& x_mac = getMacShare(in);
+  const auto& x_mac = GetMacShare(ctx, in);
   const auto& [vec, mac_vec] = beaver->AuthTrunc(field, x.shape(), bits, k, s);
   const auto& [r, rb] = vec;
   const auto& [r_mac, rb_mac] = mac_vec;
-- 
2.43.0

