From dc1f166664781ee1c549034d0875983074636930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 01/81] fix: string delta must not read a base value that
 resize() has released or overwritten

---
 src/mfast/coder/common/codec_helper.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/codec_helper.h b/src/mfast/coder/common/codec_helper.h
index baca4c2..8ea60a7 100644
--- a/src/mfast/coder/common/codec_helper.h
+++ b/src/mfast/coder/common/codec_helper.h
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #pragma once
 
+#include <memory>
 #include "../../string_ref.h"
 #include "../../exceptions.h"
 
@@ -124,8 +125,19 @@ public:
       base_start_index = delta_len;
     }
 
+    // The previous value may share its buffer with the field being decoded.
+    // In that case, resize() can release or modify the base value; therefore,
+    // the remaining part of the base value must be saved beforehand.
+    typedef typename STRING_MREF::value_type char_type;
+    std::unique_ptr<char_type[]> base_copy;
+    if (base_len > 0 && base_value.of_array.content_ == mref.data()) {
+      base_copy.reset(new char_type[base_len]);
+      std::memcpy(base_copy.get(), base_str, base_len);
+      base_str = base_copy.get();
+    }
+
     mref.resize(base_len + delta_len);
-    if (base_str != mref.data() && (base_len > 0)) {
+    if (base_len > 0) {
       std::memmove(mref.data() + base_start_index, base_str, base_len);
     }
     if (delta_len > 0) {
-- 
2.43.0


From 9e185a4b5670b0f4e18e889fb8758d4c4ff66c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:24 +0000
Subject: [PATCH 02/81] fix: v2 mandatory_without_initial_value must test the
 field properties, not the operator code

---
 src/mfast/ext_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index c4ef130..26f3e3e 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -58,7 +58,7 @@ struct ext_ref_properties : presence_checker<Properties> {
                                  (OperatorType::value != operator_constant &&
                                   IsOptional)> is_nullable_type;
   typedef std::integral_constant<
-      bool, ((OperatorType::value & field_has_initial_value) > 0 &&
+      bool, ((Properties::value & field_has_initial_value) == 0 &&
              !IsOptional)> mandatory_without_initial_value_type;
   typedef std::integral_constant<bool,
                                  (OperatorType::value > operator_delta ||
-- 
2.43.0


From 87800ab17010c02c956a202b9218931bba145693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:55 +0000
Subject: [PATCH 03/81] fix: encoder delta of 32-bit integers must not be
 computed modulo 2^32

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 5 ++++-
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 2dfbbab..36e9046 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -448,7 +448,10 @@ class delta_operator : public encoder_field_operator,
       value_storage bv = delta_base_value_of(cref);
       T base(&bv, nullptr);
 
-      int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+      // the difference of two 32-bit values needs more than 32 bits
+      int64_t delta =
+          static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                               static_cast<uint64_t>(base.value()));
 
       stream.encode(delta, false, cref.instruction()->is_nullable());
       stream.save_previous_value(cref);
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 5a00730..9cacc33 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -516,7 +516,10 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
     value_storage bv = delta_base_value_of(cref);
     typename T::cref_type base(&bv, nullptr);
 
-    int64_t delta = static_cast<int64_t>(cref.value() - base.value());
+    // the difference of two 32-bit values needs more than 32 bits
+    int64_t delta =
+        static_cast<int64_t>(static_cast<uint64_t>(cref.value()) -
+                             static_cast<uint64_t>(base.value()));
 
     strm_.encode(delta, false, ext_ref.nullable());
     strm_.save_previous_value(cref);
-- 
2.43.0


From 397587f0ad62ba5995e20aa8e41ce2dda6b073c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:55 +0000
Subject: [PATCH 04/81] fix: increment encoder must not treat an absent field
 as the incremented value

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 3 ++-
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 36e9046..b2f1373 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -325,7 +325,8 @@ public:
 struct is_increment {
   template <typename T>
   bool operator()(const T &v, const value_storage &previous) const {
-    return v.value() == previous.get<const typename T::value_type>() + 1;
+    return v.present() &&
+           v.value() == previous.get<const typename T::value_type>() + 1;
   }
 };
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 9cacc33..7508526 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -446,8 +446,9 @@ void fast_encoder_core::encode_field(const T &ext_ref, increment_operator_tag,
       // modified by another instruction with the same key and that intruction
       // has optional presence.
     }
-  } else if (cref.value() ==
-             previous.get<const typename T::cref_type::value_type>() + 1) {
+  } else if (ext_ref.present() &&
+             cref.value() ==
+                 previous.get<const typename T::cref_type::value_type>() + 1) {
     pmap.set_next_bit(false);
     return;
   }
-- 
2.43.0


From 6768e7965a02052d4f6711f8b38a17dc655f7125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:14 +0000
Subject: [PATCH 05/81] fix: string delta encoder must not compare beyond the
 end of the base value

---
 src/mfast/coder/encoder/encoder_field_operator.cpp | 9 +++++++--
 src/mfast/coder/encoder_v2/fast_encoder_core.h     | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index b2f1373..3ca49c1 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -475,12 +475,17 @@ class delta_operator : public encoder_field_operator,
     typedef typename std::iterator_traits<const_iterator>::difference_type
         difference_type;
 
+    const difference_type common_len = static_cast<difference_type>(
+        std::min(cref.size(), prev_cref.size()));
+
     std::pair<const_iterator, const_iterator> common_prefix_positions =
-        std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+        std::mismatch(cref.begin(), cref.begin() + common_len,
+                      prev_cref.begin());
 
     std::pair<const_reverse_iterator, const_reverse_iterator>
         common_suffix_positions =
-            std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+            std::mismatch(cref.rbegin(), cref.rbegin() + common_len,
+                          prev_cref.rbegin());
 
     int32_t substraction_len;
     const_iterator delta_iterator;
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 7508526..e257cff 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -545,12 +545,17 @@ void fast_encoder_core::encode_field(const T &ext_ref, delta_operator_tag,
   typedef typename std::iterator_traits<const_iterator>::difference_type
       difference_type;
 
+  const difference_type common_len = static_cast<difference_type>(
+      std::min(cref.size(), prev_cref.size()));
+
   std::pair<const_iterator, const_iterator> common_prefix_positions =
-      std::mismatch(cref.begin(), cref.end(), prev_cref.begin());
+      std::mismatch(cref.begin(), cref.begin() + common_len,
+                    prev_cref.begin());
 
   std::pair<const_reverse_iterator, const_reverse_iterator>
       common_suffix_positions =
-          std::mismatch(cref.rbegin(), cref.rend(), prev_cref.rbegin());
+          std::mismatch(cref.rbegin(), cref.rbegin() + common_len,
+                        prev_cref.rbegin());
 
   int32_t substraction_len;
   const_iterator delta_iterator;
-- 
2.43.0


From fcd1957a82a0bbbe8ed39b9eb8ab4ed6cb287927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:23 +0000
Subject: [PATCH 06/81] fix: encoders must tell an absent value from an empty
 string or a zero decimal when comparing with the dictionary or initial value

---
 .../coder/encoder/encoder_field_operator.cpp   | 18 ++++++++++--------
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 18 ++++++++++--------
 src/mfast/decimal_ref.h                        |  6 ++++--
 src/mfast/vector_ref.h                         |  7 +++++--
 4 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_field_operator.cpp b/src/mfast/coder/encoder/encoder_field_operator.cpp
index 3ca49c1..fa5cfea 100644
--- a/src/mfast/coder/encoder/encoder_field_operator.cpp
+++ b/src/mfast/coder/encoder/encoder_field_operator.cpp
@@ -269,7 +269,7 @@ struct is_same {
 
   template <typename T>
   bool operator()(const vector_cref<T> &v, const value_storage &prev) const {
-    return v.size() == prev.of_array.len_ - 1 &&
+    return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
            memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
   }
 };
@@ -611,15 +611,17 @@ private:
     //   }
     // }
     // else
-    if (is_same()(cref, tail_base_value_of(cref))) {
+    // The presence map bit can only be cleared when the decoder would obtain the
+    // same state from the previous value and the initial value.
+    const bool unchanged = !prev.is_defined()
+                               ? cref.is_initial_value()
+                               : prev.is_empty() ? cref.absent()
+                                                 : is_same()(cref, prev);
+    if (unchanged) {
       pmap.set_next_bit(false);
     } else if (cref.absent()) {
-      if (prev.is_defined() && prev.is_empty()) {
-        pmap.set_next_bit(false);
-      } else {
-        pmap.set_next_bit(true);
-        stream.encode_null();
-      }
+      pmap.set_next_bit(true);
+      stream.encode_null();
     } else {
       pmap.set_next_bit(true);
 
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index e257cff..1ed5f4c 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -36,7 +36,7 @@ inline bool equivalent(const enum_cref &v, const value_storage &prev) {
 
 template <typename T>
 inline bool equivalent(const vector_cref<T> &v, const value_storage &prev) {
-  return v.size() == prev.of_array.len_ - 1 &&
+  return v.absent() == prev.is_empty() && v.size() == prev.array_length() &&
          memcmp(v.data(), prev.of_array.content_, v.size() * sizeof(T)) == 0;
 }
 
@@ -625,15 +625,17 @@ void fast_encoder_core::encode_field(const T &ext_ref, tail_operator_tag,
 
   value_storage &prev = previous_value_of(cref);
 
-  if (equivalent(cref, tail_base_value_of(cref))) {
+  // The presence map bit can only be cleared when the decoder would obtain the
+  // same state from the previous value and the initial value.
+  const bool unchanged = !prev.is_defined()
+                             ? cref.is_initial_value()
+                             : prev.is_empty() ? !ext_ref.present()
+                                               : equivalent(cref, prev);
+  if (unchanged) {
     pmap.set_next_bit(false);
   } else if (!ext_ref.present()) {
-    if (prev.is_defined() && prev.is_empty()) {
-      pmap.set_next_bit(false);
-    } else {
-      pmap.set_next_bit(true);
-      strm_.encode_null();
-    }
+    pmap.set_next_bit(true);
+    strm_.encode_null();
   } else {
     pmap.set_next_bit(true);
 
diff --git a/src/mfast/decimal_ref.h b/src/mfast/decimal_ref.h
index 1397d4b..7601024 100644
--- a/src/mfast/decimal_ref.h
+++ b/src/mfast/decimal_ref.h
@@ -178,8 +178,10 @@ inline bool operator!=(const decimal_cref &lhs, const decimal_cref &rhs) {
   return !(lhs == rhs);
 }
 inline bool decimal_cref::is_initial_value() const {
-  return *this == decimal_cref(&this->instruction()->initial_value(),
-                               this->instruction());
+  // a mandatory decimal is never absent, even though it has no initial value
+  const value_storage &initial = this->instruction()->initial_value();
+  return this->absent() == initial.is_empty() &&
+         *this == decimal_cref(&initial, this->instruction());
 }
 
 class exponent_mref : public exponent_cref {
diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index c453bc4..b9d151c 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -61,8 +61,11 @@ public:
   size_t size() const { return storage_->array_length(); }
   size_t length() const { return size(); }
   bool is_initial_value() const {
-    return *this == vector_cref_base<T, InstructionType>(
-                        &this->instruction()->initial_value(), instruction());
+    // an absent vector is not the same as an empty vector
+    const value_storage &initial = this->instruction()->initial_value();
+    return this->absent() == initial.is_empty() &&
+           *this == vector_cref_base<T, InstructionType>(&initial,
+                                                         instruction());
   }
 
   const_iterator begin() const { return data(); }
-- 
2.43.0


From 092787a0971bd97dab1c16c0448f876667d8f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:23 +0000
Subject: [PATCH 07/81] fix: an absent string or byte vector field must be
 encoded as NULL

---
 src/mfast/coder/encoder/fast_ostream_inserter.h    | 12 ++++++++++++
 src/mfast/coder/encoder_v2/fast_ostream_inserter.h | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/src/mfast/coder/encoder/fast_ostream_inserter.h b/src/mfast/coder/encoder/fast_ostream_inserter.h
index 77d2ce8..a89ae79 100644
--- a/src/mfast/coder/encoder/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder/fast_ostream_inserter.h
@@ -24,6 +24,10 @@ inline fast_ostream &operator<<(fast_ostream &strm, const exponent_cref &cref) {
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const ascii_string_cref &cref) {
+  if (cref.absent()) {
+    strm.encode_null();
+    return strm;
+  }
   strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
@@ -31,6 +35,10 @@ inline fast_ostream &operator<<(fast_ostream &strm,
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const unicode_string_cref &cref) {
+  if (cref.absent()) {
+    strm.encode_null();
+    return strm;
+  }
   strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
@@ -38,6 +46,10 @@ inline fast_ostream &operator<<(fast_ostream &strm,
 
 inline fast_ostream &operator<<(fast_ostream &strm,
                                 const byte_vector_cref &cref) {
+  if (cref.absent()) {
+    strm.encode_null();
+    return strm;
+  }
   strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), cref.instruction()->is_nullable());
   return strm;
diff --git a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
index e99548a..841e306 100644
--- a/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
+++ b/src/mfast/coder/encoder_v2/fast_ostream_inserter.h
@@ -19,6 +19,10 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<ascii_string_cref, Operator, Properties> &ext_ref) {
   ascii_string_cref cref = ext_ref.get();
+  if (cref.absent()) {
+    strm.encode_null();
+    return strm;
+  }
   strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
@@ -29,6 +33,10 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<unicode_string_cref, Operator, Properties> &ext_ref) {
   unicode_string_cref cref = ext_ref.get();
+  if (cref.absent()) {
+    strm.encode_null();
+    return strm;
+  }
   strm.encode(cref.c_str(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
@@ -39,6 +47,10 @@ inline fast_ostream &
 operator<<(fast_ostream &strm,
            const ext_cref<byte_vector_cref, Operator, Properties> &ext_ref) {
   byte_vector_cref cref = ext_ref.get();
+  if (cref.absent()) {
+    strm.encode_null();
+    return strm;
+  }
   strm.encode(cref.begin(), static_cast<uint32_t>(cref.size()),
               cref.instruction(), ext_ref.nullable());
   return strm;
-- 
2.43.0


From 0e7d8c81aedc71ce922b0fb8397d4fe63e500dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 08/81] fix: v1 encoder must apply the field operators to
 absent fields of a message

---
 src/mfast/coder/encoder/fast_encoder.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 71403e2..316aa29 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -207,12 +207,13 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   aggregate_cref message(cref.field_storage(0), instruction);
 
-  for (auto &&field : message)
-  {
-    if (field.present() || field.instruction()->field_operator() == operator_none)
-      apply_accessor(*this, field);
-    else if (!field.present() && field.instruction()->pmap_size())
+  for (auto &&field : message) {
+    if (field.absent() &&
+        field.instruction()->field_operator() == operator_default &&
+        field.instruction()->pmap_size())
       current_pmap().set_next_bit(false);
+    else
+      apply_accessor(*this, field);
   }
 
   pmap.commit();
-- 
2.43.0


From d9a3a35ffd305f7a3f1581c40289d105bfa4f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:13 +0000
Subject: [PATCH 09/81] fix: encoders must apply the length operator to an
 absent sequence

---
 src/mfast/coder/encoder/fast_encoder.cpp       | 10 ----------
 src/mfast/coder/encoder_v2/fast_encoder_core.h | 14 +++-----------
 src/mfast/ext_ref.h                            |  5 ++++-
 3 files changed, 7 insertions(+), 22 deletions(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 316aa29..9d4b06e 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -126,16 +126,6 @@ inline void fast_encoder_impl::visit(group_cref cref, int) {
 
 inline void fast_encoder_impl::visit(sequence_cref cref, int) {
 
-  if (cref.instruction()->optional() && !cref.present()) {
-    if (cref.instruction()->length_instruction()->pmap_size() > 0)
-      this->current_->set_next_bit(false);
-    if (cref.instruction()->length_instruction()->field_operator() != operator_constant &&
-        cref.instruction()->length_instruction()->field_operator() != operator_default &&
-        cref.instruction()->length_instruction()->field_operator() != operator_copy)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   uint32_mref length_mref(nullptr, &storage,
diff --git a/src/mfast/coder/encoder_v2/fast_encoder_core.h b/src/mfast/coder/encoder_v2/fast_encoder_core.h
index 1ed5f4c..8a997b1 100644
--- a/src/mfast/coder/encoder_v2/fast_encoder_core.h
+++ b/src/mfast/coder/encoder_v2/fast_encoder_core.h
@@ -262,21 +262,13 @@ inline void fast_encoder_core::encode_field(const T &ext_ref, group_type_tag) {
 template <typename T>
 inline void fast_encoder_core::encode_field(const T &ext_ref,
                                             sequence_type_tag) {
-
-  if (ext_ref.get().instruction()->optional() && !ext_ref.present()) {
-    if (T::length_type::has_pmap_type::value)
-      this->current_->set_next_bit(false);
-    if(!std::is_same<typename T::length_type::operator_category, constant_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, copy_operator_tag>::value &&
-       !std::is_same<typename T::length_type::operator_category, default_operator_tag>::value)
-      strm_.encode_null();
-    return;
-  }
-
   value_storage storage;
 
   typename T::length_type length = ext_ref.get_length(storage);
   this->visit(length);
+  if (!ext_ref.present())
+    return;
+
   std::size_t sz = length.get().value();
   for (std::size_t i = 0; i < sz; ++i) {
     this->visit(ext_ref[i]);
diff --git a/src/mfast/ext_ref.h b/src/mfast/ext_ref.h
index 26f3e3e..609bea8 100644
--- a/src/mfast/ext_ref.h
+++ b/src/mfast/ext_ref.h
@@ -158,7 +158,10 @@ public:
 
     uint32_mref length_mref(nullptr, &storage,
                             base_.instruction()->length_instruction());
-    length_mref.as(base_.size());
+    if (base_.present())
+      length_mref.as(base_.size());
+    else
+      length_mref.omit();
     return length_type(length_mref);
   }
 
-- 
2.43.0


From c40766842a9e764883c59cebb52218f3065fe52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 10/81] fix: decoder must not read beyond the end of the
 message buffer

---
 src/mfast/coder/decoder/decoder_presence_map.h |  7 ++++++-
 src/mfast/coder/decoder/fast_istream.h         |  4 ++--
 src/mfast/coder/decoder/fast_istreambuf.h      | 12 +++++++++++-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/decoder/decoder_presence_map.h b/src/mfast/coder/decoder/decoder_presence_map.h
index 48b04d4..68e6f89 100644
--- a/src/mfast/coder/decoder/decoder_presence_map.h
+++ b/src/mfast/coder/decoder/decoder_presence_map.h
@@ -15,7 +15,8 @@
 namespace mfast {
 class decoder_presence_map {
 public:
-  decoder_presence_map() : cur_bitmap_(0), mask_(0), continue_(nullptr) {}
+  decoder_presence_map()
+      : cur_bitmap_(0), mask_(0), continue_(nullptr), end_(nullptr) {}
   bool is_next_bit_set() {
     mask_ >>= 1;
     if (__builtin_expect(mask_ == 0 && continue_, 0)) {
@@ -28,6 +29,7 @@ public:
 
   bool load(fast_istreambuf &buf) {
     const char *addr = buf.gptr();
+    end_ = buf.egptr();
     bool result = load(addr);
     buf.gbump(addr - buf.gptr());
     return result;
@@ -41,6 +43,8 @@ private:
     const int max_load_byes = sizeof(size_t) * 8 / 7;
     mask_ = 1;
     for (int i = 0; i < max_load_byes; ++i, ++addr) {
+      if (addr == end_)
+        BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
       char c = *addr;
       cur_bitmap_ <<= 7;
       cur_bitmap_ |= c & '\x7F';
@@ -58,6 +62,7 @@ private:
   size_t cur_bitmap_;
   size_t mask_;
   const char *continue_;
+  const char *end_;
   friend std::ostream &operator<<(std::ostream &,
                                   const mfast::decoder_presence_map &);
 };
diff --git a/src/mfast/coder/decoder/fast_istream.h b/src/mfast/coder/decoder/fast_istream.h
index 7a4b844..64e594a 100644
--- a/src/mfast/coder/decoder/fast_istream.h
+++ b/src/mfast/coder/decoder/fast_istream.h
@@ -100,7 +100,7 @@ public:
               Nullable nullable) {
     if (this->decode(len, nullable)) {
       bv = buf_->gptr();
-      buf_->gbump(len);
+      buf_->skip(len);
       return true;
     }
     return false;
@@ -120,7 +120,7 @@ public:
               Nullable nullable) {
     if (this->decode(len, nullable)) {
       bv = reinterpret_cast<const unsigned char *>(buf_->gptr());
-      buf_->gbump(len);
+      buf_->skip(len);
       return true;
     }
     return false;
diff --git a/src/mfast/coder/decoder/fast_istreambuf.h b/src/mfast/coder/decoder/fast_istreambuf.h
index 39c6425..4379fbb 100644
--- a/src/mfast/coder/decoder/fast_istreambuf.h
+++ b/src/mfast/coder/decoder/fast_istreambuf.h
@@ -45,7 +45,17 @@ protected:
     return *(gptr_++);
   }
 
-  char sgetc() const { return *gptr_; }
+  char sgetc() const {
+    if (in_avail() < 1)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+    return *gptr_;
+  }
+  // skip an entity of n bytes
+  void skip(std::size_t n) {
+    if (in_avail() < n)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("Buffer underflow"));
+    gptr_ += n;
+  }
   const char *egptr() { return egptr_; }
   const char *gptr_, *egptr_;
 };
-- 
2.43.0


From aa98632c4d50ed1c76fc0d8bc4e3788d25bed00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:11 +0000
Subject: [PATCH 11/81] fix: removing overlong presence map bytes must not
 touch the bytes before the presence map

---
 src/mfast/coder/encoder/encoder_presence_map.h | 10 +++++++---
 src/mfast/coder/encoder/fast_ostream.h         |  8 +++++---
 src/mfast/coder/encoder/fast_ostreambuf.cpp    | 11 +++++------
 src/mfast/coder/encoder/fast_ostreambuf.h      |  3 ++-
 4 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/mfast/coder/encoder/encoder_presence_map.h b/src/mfast/coder/encoder/encoder_presence_map.h
index ab8be89..9425fe6 100644
--- a/src/mfast/coder/encoder/encoder_presence_map.h
+++ b/src/mfast/coder/encoder/encoder_presence_map.h
@@ -33,11 +33,12 @@ private:
   std::size_t value_, mask_;
   fast_ostream *stream_;
   std::size_t offset_;
+  std::size_t start_offset_;
   std::size_t maxbytes_;
 };
 
 inline encoder_presence_map::encoder_presence_map()
-    : stream_(nullptr), offset_(0), maxbytes_(0) {
+    : stream_(nullptr), offset_(0), start_offset_(0), maxbytes_(0) {
   reset();
 }
 
@@ -45,6 +46,7 @@ inline void encoder_presence_map::init(fast_ostream *stream,
                                        std::size_t maxbits) {
   stream_ = stream;
   offset_ = stream->offset();
+  start_offset_ = offset_;
   maxbytes_ = (maxbits + 6) / 7; // i.e. ceiling(maxbits/7)
   stream_->buf_->skip(maxbytes_);
 }
@@ -63,7 +65,8 @@ inline void encoder_presence_map::commit() {
 #endif
 
   value_ |= stop_bit_mask;
-  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true);
+  stream_->write_bytes_at(&value_, ++nbytes_, offset_, true,
+                          start_offset_);
 }
 
 inline BOOST_CONSTEXPR std::size_t get_next_bit_mask(std::size_t i) {
@@ -86,7 +89,8 @@ inline void encoder_presence_map::set_next_bit(bool v) {
 
   if (mask_ == 0) {
     // we need to commit the current pmap before preceed
-    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false);
+    stream_->write_bytes_at(&value_, sizeof(std::size_t), offset_, false,
+                            start_offset_);
     offset_ += sizeof(std::size_t);
     maxbytes_ -= sizeof(std::size_t);
     reset();
diff --git a/src/mfast/coder/encoder/fast_ostream.h b/src/mfast/coder/encoder/fast_ostream.h
index cd9aaba..baa1299 100644
--- a/src/mfast/coder/encoder/fast_ostream.h
+++ b/src/mfast/coder/encoder/fast_ostream.h
@@ -46,7 +46,8 @@ private:
   friend class encoder_presence_map;
 
   void write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                      std::size_t offset, bool pmap_end);
+                      std::size_t offset, bool pmap_end,
+                      std::size_t pmap_offset);
 
   std::size_t offset() const { return rdbuf()->length(); }
   fast_ostreambuf *buf_;
@@ -239,9 +240,10 @@ inline void fast_ostream::save_previous_value(const T &cref) const {
 }
 
 inline void fast_ostream::write_bytes_at(std::size_t *bytes, std::size_t nbytes,
-                                         std::size_t offset, bool pmap_end) {
+                                         std::size_t offset, bool pmap_end,
+                                         std::size_t pmap_offset) {
   rdbuf()->write_bytes_at(reinterpret_cast<const char *>(bytes), nbytes, offset,
-                          pmap_end && !allow_overlong_pmap_);
+                          pmap_end && !allow_overlong_pmap_, pmap_offset);
 }
 
 inline void fast_ostream::encode_null() { rdbuf()->sputc('\x80'); }
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.cpp b/src/mfast/coder/encoder/fast_ostreambuf.cpp
index 5492f7f..e14637a 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.cpp
+++ b/src/mfast/coder/encoder/fast_ostreambuf.cpp
@@ -15,20 +15,19 @@ void fast_ostreambuf::overflow(std::size_t) { throw buffer_overflow_error(); }
 std::size_t fast_ostreambuf::length() const { return pptr_ - pbase_; }
 
 void fast_ostreambuf::write_bytes_at(const char *data, std::size_t n,
-                                     std::size_t offset, bool shrink) {
+                                     std::size_t offset, bool shrink,
+                                     std::size_t pmap_offset) {
   assert((pbase_ + offset + n) <= pptr_);
   std::copy(data, data + n, pbase_ + offset);
 
   if (shrink) {
     std::size_t index = offset + n - 1;
-    if (pbase_[index] == '\x80') {
+    // never look at or modify what precedes the presence map
+    if (pbase_[index] == '\x80' && index > pmap_offset) {
       --index;
-      for (; index > 0 && pbase_[index] == 0; --index)
+      for (; index > pmap_offset && pbase_[index] == 0; --index)
         ;
 
-      if (pbase_[index] & '\x80') {
-        ++index;
-      }
       pbase_[index] |= '\x80';
       ++index;
       const char *src = pbase_ + offset + n;
diff --git a/src/mfast/coder/encoder/fast_ostreambuf.h b/src/mfast/coder/encoder/fast_ostreambuf.h
index 7d7b98f..3133c8e 100644
--- a/src/mfast/coder/encoder/fast_ostreambuf.h
+++ b/src/mfast/coder/encoder/fast_ostreambuf.h
@@ -28,7 +28,8 @@ public:
 
   virtual std::size_t length() const;
   virtual void write_bytes_at(const char *data, std::size_t n,
-                              std::size_t offset, bool shrink);
+                              std::size_t offset, bool shrink,
+                              std::size_t pmap_offset);
 
   const char *pbase() const { return pbase_; }
 
-- 
2.43.0


From 56dd8800b9faffb908906f21824cd96f97a76814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:35 +0000
Subject: [PATCH 12/81] fix: int vector reference needs the type traits the
 compiled decoder asks for

---
 src/mfast/vector_ref.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index b9d151c..13df0d0 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -365,6 +365,8 @@ template <typename T> class int_vector_mref : public vector_mref<T> {
   typedef vector_mref<T> base_type;
 
 public:
+  typedef int_vector_cref<T> cref_type;
+  typedef int_vector_type_tag type_category;
   typedef typename base_type::instruction_cptr instruction_cptr;
   int_vector_mref() {}
   int_vector_mref(mfast::allocator *alloc, value_storage *storage,
-- 
2.43.0


From b69f9c943cb8747d01bfbd962241ca8bc4563fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:35 +0000
Subject: [PATCH 13/81] fix: generated accessor of a dynamic template reference
 lacked its return type

---
 src/fast_type_gen/inl_gen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fast_type_gen/inl_gen.cpp b/src/fast_type_gen/inl_gen.cpp
index 6278598..6cf01b4 100644
--- a/src/fast_type_gen/inl_gen.cpp
+++ b/src/fast_type_gen/inl_gen.cpp
@@ -972,7 +972,10 @@ void inl_gen::visit(const mfast::templateref_instruction *, void *pIndex) {
        << "get_nested_message" << index << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
-       << "}\n\n" << cref_scope_.str() << "try_get_nested_message" << index
+       << "}\n\n"
+       << "inline\n"
+       << "mfast::nested_message_cref\n" << cref_scope_.str()
+       << "try_get_nested_message" << index
        << "() const\n"
        << "{\n"
        << "  return mfast::nested_message_cref((*this)[" << index << "]);\n"
-- 
2.43.0


From aad8a54182ea5119a6f8dbee8094bf13e33dc681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:35 +0000
Subject: [PATCH 14/81] fix: two inline enum fields of one template must not
 define the same variables

---
 src/fast_type_gen/cpp_gen.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fast_type_gen/cpp_gen.cpp b/src/fast_type_gen/cpp_gen.cpp
index 1d5c89a..1b6a58e 100644
--- a/src/fast_type_gen/cpp_gen.cpp
+++ b/src/fast_type_gen/cpp_gen.cpp
@@ -606,10 +606,12 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     values_variable_name = qualified_name + "::instruction()->element_values()";
     instruction_type.str(qualified_name + "::instruction_type");
   } else {
-    elements_variable_name << "elements";
+    std::string inline_prefix = pIndex ? prefix_string() + name + "_" : "";
+    elements_variable_name << inline_prefix << "elements";
     num_elements_name << inst->num_elements();
 
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << elements_variable_name.str()
+         << "[] = {\n";
 
     for (uint64_t i = 0; i < inst->num_elements(); ++i) {
       if (i != 0) {
@@ -620,7 +622,8 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
     out_ << "};\n";
 
     if (inst->element_values()) {
-      out_ << "static const uint64_t values[] = {\n";
+      values_variable_name = inline_prefix + "values";
+      out_ << "static const uint64_t " << values_variable_name << "[] = {\n";
 
       for (uint64_t i = 0; i < inst->num_elements(); ++i) {
         if (i != 0) {
@@ -629,7 +632,6 @@ void cpp_gen::visit(const mfast::enum_field_instruction *inst, void *pIndex) {
         out_ << "  " << inst->element_values()[i];
       }
       out_ << "};\n";
-      values_variable_name = "values";
     }
   }
 
@@ -696,9 +698,11 @@ void cpp_gen::visit(const mfast::set_field_instruction *inst, void *pIndex)
   }
   else
   {
-    elements_variable_name << "elements";
+    elements_variable_name << (pIndex ? prefix_string() + name + "_" : "")
+                           << "elements";
     num_elements_name << inst->num_elements();
-    out_ << "static const char* elements[] = {\n";
+    out_ << "static const char* " << elements_variable_name.str()
+         << "[] = {\n";
     for (auto i = 0ul; i < inst->num_elements(); ++i)
     {
       if (i != 0)
-- 
2.43.0


From bcd10312a7c2d2c21b2a73eee0c47d40a3e33b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:30 +0000
Subject: [PATCH 15/81] fix: restoring the mantissa of a decimal must keep its
 exponent

---
 src/mfast/int_ref.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mfast/int_ref.h b/src/mfast/int_ref.h
index b3ed8e5..7333b3f 100644
--- a/src/mfast/int_ref.h
+++ b/src/mfast/int_ref.h
@@ -98,7 +98,7 @@ public:
   }
 
   void to_initial_value() const {
-    *this->storage() = this->instruction()->initial_value();
+    copy_from(this->instruction()->initial_value());
   }
   T value() const { return this->storage()->template get<T>(); }
 
@@ -117,7 +117,12 @@ protected:
 
   friend class mfast::detail::codec_helper;
 
-  void copy_from(value_storage v) const { *this->storage() = v; }
+  // The mantissa of a decimal shares its storage with the exponent, which must
+  // be retained.
+  void copy_from(const value_storage &v) const {
+    this->storage()->of_uint64.content_ = v.of_uint64.content_;
+    this->storage()->present(!v.is_empty());
+  }
 };
 
 typedef int_mref<int32_t> int32_mref;
-- 
2.43.0


From f18e27961da3e9d94c46c03f4bf224b61f4b3899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 16/81] fix: v1 decoder must set the target of a nested message
 without template id

---
 src/mfast/coder/decoder/fast_decoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 68c2c95..778df88 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -237,8 +237,9 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
       BOOST_THROW_EXCEPTION(fast_dynamic_error("D9")
                             << template_id_info(template_id));
     }
-    mref.set_target_instruction(active_message_->instruction(), false);
   }
+  // When the template id is not present, the template is the active one.
+  mref.set_target_instruction(active_message_->instruction(), true);
 
   for (auto &&field : mref.target()) {
     apply_mutator(*this, field);
-- 
2.43.0


From 9d150e3acc16ec70fbd39ecbdfc70f6184395794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 17/81] fix: v2 decoder must construct the target of a nested
 message and report an unknown template with D9

---
 src/mfast/coder/decoder_v2/fast_decoder_core.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index e2ec220..42d881f 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -620,18 +620,20 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
 
     strm_.decode(template_id, false_type());
     // find the message with corresponding template id
-    active_message_info_ = repo_.find(template_id);
+    info_entry *nested_info = repo_.find(template_id);
 
-    if (active_message_info_ == nullptr) {
+    if (nested_info == nullptr) {
       BOOST_THROW_EXCEPTION(
           fast_dynamic_error("D9")
           << template_id_info(template_id)
           << referenced_by_info(this->active_message().name()));
     }
+    active_message_info_ = nested_info;
   }
 
+  // the subfields must be constructed, a group field refers to its own storage
   mref.set_target_instruction(this->active_message().instruction(),
-                              false_type());
+                              true_type());
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
 
-- 
2.43.0


From 368643b8da57a33c663e4248990d35218aa0af14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 18/81] fix: v1 encoder must raise D9 for an unknown template
 instead of dereferencing null

---
 src/mfast/coder/encoder/fast_encoder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/encoder/fast_encoder.cpp b/src/mfast/coder/encoder/fast_encoder.cpp
index 9d4b06e..3652ad9 100644
--- a/src/mfast/coder/encoder/fast_encoder.cpp
+++ b/src/mfast/coder/encoder/fast_encoder.cpp
@@ -173,7 +173,8 @@ void fast_encoder_impl::visit(message_cref cref, bool force_reset) {
 
   uint32_t template_id = cref.id();
 
-  template_instruction *instruction = *this->find(template_id);
+  template_instruction **entry = this->find(template_id);
+  template_instruction *instruction = entry ? *entry : nullptr;
 
   if (instruction != nullptr) {
     constexpr std::size_t template_id_bit = 1;
-- 
2.43.0


From 9718402a741e5b3c7d7b81d6d77cfacb2eb31e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:58 +0000
Subject: [PATCH 19/81] fix: decoders must reset the dictionary for a nested
 message whose template demands it

---
 src/mfast/coder/decoder/fast_decoder.cpp       | 5 +++++
 src/mfast/coder/decoder_v2/fast_decoder_core.h | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/mfast/coder/decoder/fast_decoder.cpp b/src/mfast/coder/decoder/fast_decoder.cpp
index 778df88..6dcdc70 100644
--- a/src/mfast/coder/decoder/fast_decoder.cpp
+++ b/src/mfast/coder/decoder/fast_decoder.cpp
@@ -241,6 +241,11 @@ inline void fast_decoder_impl::visit(const nested_message_mref &mref, int) {
   // When the template id is not present, the template is the active one.
   mref.set_target_instruction(active_message_->instruction(), true);
 
+  // the encoder resets the dictionary for a nested message as well
+  if (active_message_->instruction()->has_reset_attribute()) {
+    repo_.reset_dictionary();
+  }
+
   for (auto &&field : mref.target()) {
     apply_mutator(*this, field);
   }
diff --git a/src/mfast/coder/decoder_v2/fast_decoder_core.h b/src/mfast/coder/decoder_v2/fast_decoder_core.h
index 42d881f..8303335 100644
--- a/src/mfast/coder/decoder_v2/fast_decoder_core.h
+++ b/src/mfast/coder/decoder_v2/fast_decoder_core.h
@@ -634,6 +634,12 @@ void fast_decoder_core<NumTokens>::visit(const nested_message_mref &mref) {
   // the subfields must be constructed, a group field refers to its own storage
   mref.set_target_instruction(this->active_message().instruction(),
                               true_type());
+
+  // the encoder resets the dictionary for a nested message as well
+  if (this->active_message().instruction()->has_reset_attribute()) {
+    repo_.reset_dictionary();
+  }
+
   message_decode_function_t decode = active_message_info_->decode_fun_;
   (this->*decode)(mref.target());
 
-- 
2.43.0


From 3442590f2451128e21a7fd1ceeb888d21654ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:00 +0000
Subject: [PATCH 20/81] fix: a typeRef without namespace must use the namespace
 in scope

---
 src/mfast/coder/common/dictionary_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 862560c..a23ecab 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -70,7 +70,7 @@ void dictionary_builder::build_group(const field_instruction *fi,
 
   if (!is_empty_string(src->typeref_name())) {
     const char *type_ns = this->current_ns_;
-    if (!is_empty_string(src->typeref_name())) {
+    if (!is_empty_string(src->typeref_ns())) {
       type_ns = src->typeref_ns();
     }
     current_type_ = qualified_name(type_ns, src->typeref_name());
-- 
2.43.0


From cd0e373837b27f8b45cbf593d7be899e52b54742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:00 +0000
Subject: [PATCH 21/81] fix: an operator without namespace must keep the
 namespace of its field for the dictionary key

---
 src/mfast/coder/common/dictionary_builder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index a23ecab..f934565 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -178,7 +178,8 @@ value_storage *dictionary_builder::get_dictionary_storage(
   if (op_context) {
     if (!is_empty_string(op_context->key_))
       key = op_context->key_;
-    ns = op_context->ns_;
+    if (!is_empty_string(op_context->ns_))
+      ns = op_context->ns_;
     dict = op_context->dictionary_;
   }
 
-- 
2.43.0


From 3c08a64af2ad837601b35a0136da859b378412f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:12 +0000
Subject: [PATCH 22/81] fix: the dictionary of a sequence must apply to its
 length

---
 src/mfast/coder/common/dictionary_builder.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index f934565..1f5040f 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -152,7 +152,18 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
   this->build_group(src_inst, src_inst, dest);
 
   if (src_inst->length_instruction()) {
+    // the length belongs to the scope of the sequence
+    const char *inherited_ns = current_ns_;
+    const char *inherited_dictionary = current_dictionary_;
+    if (!is_empty_string(src_inst->ns()))
+      this->current_ns_ = src_inst->ns();
+    if (!is_empty_string(src_inst->dictionary()))
+      this->current_dictionary_ = src_inst->dictionary();
+
     visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
+
+    current_ns_ = inherited_ns;
+    current_dictionary_ = inherited_dictionary;
   } else {
     dest->sequence_length_instruction_ = new (alloc_)
         uint32_field_instruction(operator_none, presence_mandatory, 0, "", "",
-- 
2.43.0


From 1b5fb749972717791f5e6fa84f99c96d002841fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:54 +0000
Subject: [PATCH 23/81] fix: unnamed lengths of different sequences must not
 share a dictionary entry

---
 src/mfast/coder/common/dictionary_builder.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 1f5040f..974cc10 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -160,7 +160,15 @@ void dictionary_builder::visit(const sequence_field_instruction *src_inst,
     if (!is_empty_string(src_inst->dictionary()))
       this->current_dictionary_ = src_inst->dictionary();
 
-    visit(src_inst->length_instruction(), &dest->sequence_length_instruction_);
+    uint32_field_instruction *length = src_inst->length_instruction()->clone(alloc_);
+    // a length without a name has an implicit one unique to its sequence
+    std::string length_name = length->name() ? length->name() : "";
+    if (length_name.empty())
+      length_name = std::string(dest->name()) + "....length";
+    length->prev_value_ = get_dictionary_storage(
+        length_name.c_str(), length->ns(), length->op_context_,
+        field_type_uint32, &length->prev_storage_, length);
+    dest->sequence_length_instruction_ = length;
 
     current_ns_ = inherited_ns;
     current_dictionary_ = inherited_dictionary;
-- 
2.43.0


From 446a769529a253e0440527ea149be0ccd51f1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:11 +0000
Subject: [PATCH 24/81] fix: field keys belong to the namespace of the
 templates, not to that of template names

---
 src/mfast/coder/common/dictionary_builder.cpp | 4 ++--
 src/mfast/coder/common/dictionary_builder.h   | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index 974cc10..bf1c098 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -103,9 +103,9 @@ dictionary_builder::clone_instruction(const template_instruction *src_inst) {
 
   auto dest = src_inst->clone(alloc_);
 
-  const char *ns = src_inst->ns();
+  const char *ns = src_inst->template_ns();
   if (is_empty_string(ns)) {
-    ns = current_ns_;
+    ns = current_template_ns_;
   }
   current_template_ = qualified_name(ns, src_inst->name());
 
diff --git a/src/mfast/coder/common/dictionary_builder.h b/src/mfast/coder/common/dictionary_builder.h
index d9ef80a..6dd8b7f 100644
--- a/src/mfast/coder/common/dictionary_builder.h
+++ b/src/mfast/coder/common/dictionary_builder.h
@@ -59,7 +59,8 @@ public:
 
   template <typename Operation>
   void build(const Operation &op, const templates_description *def) {
-    current_ns_ = def->template_ns();
+    current_ns_ = def->ns();
+    current_template_ns_ = def->template_ns();
     current_dictionary_ =
         (def->dictionary()[0] == 0) ? "global" : def->dictionary();
     for (auto &elem : *def) {
@@ -77,7 +78,8 @@ public:
 private:
   template <typename Operation, typename Description>
   int build(const Operation &op, const Description *desc) {
-    this->current_ns_ = desc->template_ns();
+    this->current_ns_ = desc->ns();
+    this->current_template_ns_ = desc->template_ns();
     this->current_dictionary_ =
         (desc->dictionary()[0] == 0) ? "global" : desc->dictionary();
 
@@ -147,6 +149,7 @@ private:
   std::string current_template_;
   std::string current_type_;
   const char *current_ns_;
+  const char *current_template_ns_;
   const char *current_dictionary_;
 
   template_repo_base &repo_base_;
-- 
2.43.0


From cfbfb317447175d55800bebbb038407b02c66f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:57 +0000
Subject: [PATCH 25/81] fix: a decimal with operators on exponent and mantissa
 has a presence bit for each

---
 src/mfast/instructions/decimal_instruction.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mfast/instructions/decimal_instruction.h b/src/mfast/instructions/decimal_instruction.h
index fbeeb10..401a7b7 100644
--- a/src/mfast/instructions/decimal_instruction.h
+++ b/src/mfast/instructions/decimal_instruction.h
@@ -82,10 +82,12 @@ public:
     mantissa_instruction_ = v;
     this->initial_value_.of_decimal.mantissa_ =
         mantissa_instruction_->initial_value().get<int64_t>();
+  }
 
-    if (has_pmap_bit_ == 0) {
-      has_pmap_bit_ = (mantissa_instruction_->pmap_size() > 0);
-    }
+  /// exponent and mantissa have a bit each if their operators need one
+  virtual std::size_t pmap_size() const override {
+    return has_pmap_bit_ +
+           (mantissa_instruction_ ? mantissa_instruction_->pmap_size() : 0);
   }
 
   static const decimal_field_instruction *default_instruction();
-- 
2.43.0


From cd0f21d82de68897f6861613888fe5337ff1f784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:14 +0000
Subject: [PATCH 26/81] fix: the integer vector value types name a type that
 can hold a value

---
 src/mfast/vector_ref.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 13df0d0..7257a03 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -424,10 +424,10 @@ private:
 };
 
 typedef vector_type<byte_vector_cref> byte_vector_type;
-typedef int_vector_mref<int32_vector_cref> int32_vector_type;
-typedef int_vector_mref<uint32_vector_cref> uint32_vector_type;
-typedef int_vector_mref<int64_vector_cref> int64_vector_type;
-typedef int_vector_mref<uint64_vector_cref> uint64_vector_type;
+typedef vector_type<int32_vector_cref> int32_vector_type;
+typedef vector_type<uint32_vector_cref> uint32_vector_type;
+typedef vector_type<int64_vector_cref> int64_vector_type;
+typedef vector_type<uint64_vector_cref> uint64_vector_type;
 
 template <typename T>
 void vector_mref_base<T>::reserve(
-- 
2.43.0


From d0a73ddd87c21e12cc1b9971dde56edb620f46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:14 +0000
Subject: [PATCH 27/81] fix: int_vector_mref::swap takes something it can swap
 with

---
 src/mfast/vector_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 7257a03..b91df92 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -379,7 +379,7 @@ public:
     return int_vector_cref<T>(this->storage(), this->instruction());
   }
 
-  void swap(const int_vector_cref<T> &other) const { base_type::swap(other); }
+  void swap(const int_vector_mref<T> &other) const { base_type::swap(other); }
 };
 
 typedef vector_mref<unsigned char> byte_vector_mref;
-- 
2.43.0


From 64908def6e5237987dc765bc583f7fca1be11494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 28/81] fix: copying a string or vector field reads no further
 than its last element

---
 src/mfast/instructions/string_instructions.cpp     | 5 +++--
 src/mfast/instructions/vector_instruction_base.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mfast/instructions/string_instructions.cpp b/src/mfast/instructions/string_instructions.cpp
index 334dfda..d5c2056 100644
--- a/src/mfast/instructions/string_instructions.cpp
+++ b/src/mfast/instructions/string_instructions.cpp
@@ -49,8 +49,9 @@ void ascii_field_instruction::copy_construct_value(const value_storage &src,
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ =
         alloc->reallocate(dest.of_array.content_, 0, len * element_size_);
-    std::memcpy(dest.of_array.content_, src.of_array.content_,
-                len * element_size_);
+    if (len > 1)
+      std::memcpy(dest.of_array.content_, src.of_array.content_,
+                  (len - 1) * element_size_);
   } else {
     dest.of_array.content_ = src.of_array.content_;
     dest.of_array.capacity_in_bytes_ = 0;
diff --git a/src/mfast/instructions/vector_instruction_base.cpp b/src/mfast/instructions/vector_instruction_base.cpp
index 9c752ca..67ef8ce 100644
--- a/src/mfast/instructions/vector_instruction_base.cpp
+++ b/src/mfast/instructions/vector_instruction_base.cpp
@@ -30,8 +30,9 @@ void vector_field_instruction_base::copy_construct_value(
     dest.of_array.content_ = nullptr;
     dest.of_array.capacity_in_bytes_ = alloc->reallocate(
         dest.of_array.content_, 0, src.of_array.len_ * element_size_);
-    std::memcpy(dest.of_array.content_, src.of_array.content_,
-                src.of_array.len_ * element_size_);
+    if (src.of_array.len_ > 1)
+      std::memcpy(dest.of_array.content_, src.of_array.content_,
+                  (src.of_array.len_ - 1) * element_size_);
   } else {
     dest.of_array.capacity_in_bytes_ = 0;
     dest.of_array.content_ = nullptr;
-- 
2.43.0


From d224ca2dc7faaef2314cdc3374f2e68c2a5d0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 29/81] fix: vector fields compare equal when all of every
 element is equal

---
 src/mfast/vector_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index b91df92..b018127 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -114,7 +114,7 @@ bool operator==(const vector_cref_base<T, InstructionType> &lhs,
     return false;
   if (lhs.data() == rhs.data())
     return true;
-  return std::memcmp(lhs.data(), rhs.data(), lhs.size()) == 0;
+  return std::memcmp(lhs.data(), rhs.data(), lhs.size() * sizeof(T)) == 0;
 }
 
 template <typename T, typename InstructionType>
-- 
2.43.0


From c55faaba3b565f7753793cb88a351d5073afd5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 30/81] fix: a string field is not greater than an equal one

---
 src/mfast/string_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/string_ref.h b/src/mfast/string_ref.h
index 87d01fa..ec203dd 100644
--- a/src/mfast/string_ref.h
+++ b/src/mfast/string_ref.h
@@ -48,7 +48,7 @@ public:
   }
   template <typename OtherIntruction>
   bool operator>(const string_cref_base<OtherIntruction> &other) const {
-    return compare(other) >= 0;
+    return compare(other) > 0;
   }
 
   bool operator>=(const boost::string_ref &other) const {
-- 
2.43.0


From e773c7b96e61c1af2e068b36ece47931c8e8c118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 31/81] fix: push_back appends the whole of an integer

---
 src/mfast/vector_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index b018127..d8b7190 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -230,7 +230,7 @@ public:
 
   void reserve(size_t n) const;
 
-  void push_back(char c) const { insert(end(), c); }
+  void push_back(value_type c) const { insert(end(), c); }
   void pop_back() const {
     if (this->size())
       this->storage()->of_array.len_ -= 1;
-- 
2.43.0


From 69c75124789a92f780ba9aa837e3f89542655f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 32/81] fix: reserving storage for a vector field keeps all of
 its elements

---
 src/mfast/vector_ref.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index d8b7190..906681e 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -4,6 +4,7 @@
 // This file is part of mFAST.
 // See the file license.txt for licensing information.
 #pragma once
+#include <algorithm>
 #include <cassert>
 #include <iterator>
 #include <cstring>
@@ -434,24 +435,23 @@ void vector_mref_base<T>::reserve(
     typename vector_mref_base<T>::size_t n) const {
   if (capacity() > n)
     return;
-  std::size_t reserve_size = (n + 1) * sizeof(value_type);
+  // the storage has to hold the present elements even when n is less
+  std::size_t reserve_size =
+      (std::max<size_t>(this->size(), n) + 1) * sizeof(value_type);
 
   if (capacity() > 0) {
     this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
-        this->storage()->of_array.content_, capacity(), reserve_size);
+        this->storage()->of_array.content_,
+        this->storage()->of_array.capacity_in_bytes_, reserve_size);
   } else {
     void *old_addr = this->storage()->of_array.content_;
     this->storage()->of_array.content_ = nullptr;
     this->storage()->of_array.capacity_in_bytes_ = this->alloc_->reallocate(
         this->storage()->of_array.content_, 0, reserve_size);
     // Copy the old content to the new buffer.
-    // In the case when the this->capacity == 0 && this->size() > 0,
-    // reserve() could be invoked with n < this->size(). Thus, we can
-    // only copy min(size(), n) elements to the new buffer.
     if (this->storage()->of_array.len_ > 1) {
-      if (n > 0)
-        std::memcpy(this->storage()->of_array.content_, old_addr,
-                    std::min<size_t>(this->size(), n) * sizeof(value_type));
+      std::memcpy(this->storage()->of_array.content_, old_addr,
+                  this->size() * sizeof(value_type));
     } else {
       // if this->storage()->of_array.len_ was 0, it needs to be set to 1 to
       // indicate
-- 
2.43.0


From c880237458b3b6fa21e5e445771ffc40014df4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 33/81] fix: the elements that resizing a vector field adds
 have the given value

---
 src/mfast/vector_ref.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 906681e..6d4191b 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -217,15 +217,12 @@ public:
     return data()[index];
   }
 
-  void resize(size_t n, char c = 0) const {
+  void resize(size_t n, value_type c = value_type()) const {
     assert(n < static_cast<size_t>((std::numeric_limits<int32_t>::max)()));
-    size_t len = n + 1;
-    if (len > this->capacity()) {
-      reserve(n);
-      std::make_signed<std::size_t>::type bytes_to_set = n - this->size();
-      if (bytes_to_set > 0)
-        std::memset(end(), c, static_cast<size_t>(bytes_to_set));
-    }
+    size_t old_size = this->size();
+    reserve(n);
+    if (n > old_size)
+      std::fill(data() + old_size, data() + n, c);
     this->storage()->array_length(static_cast<uint32_t>(n));
   }
 
-- 
2.43.0


From 9e5b3d20078fcb930cb977d1171d183a3dd8216d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 34/81] fix: inserting into a vector field moves the elements
 behind by as many and keeps room for a terminator

---
 src/mfast/vector_ref.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index 6d4191b..c264354 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -464,18 +464,16 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
                            typename vector_mref_base<T>::size_t n) const {
   assert(position >= begin() && position <= end());
   std::size_t offset = position - begin();
+  std::size_t old_size = this->size();
 
-  if (capacity() < this->size() + n)
-    reserve(this->size() + n);
+  reserve(old_size + n);
 
   iterator src = begin() + offset;
 
-  if (offset < this->size()) {
-    std::memmove(src + (n * sizeof(value_type)), src,
-                 (this->size() + 1 - offset) * sizeof(value_type));
-  }
+  if (offset < old_size)
+    std::memmove(src + n, src, (old_size - offset) * sizeof(value_type));
 
-  this->storage()->of_array.len_ += static_cast<uint32_t>(n);
+  this->storage()->array_length(static_cast<uint32_t>(old_size + n));
   return src;
 }
 
-- 
2.43.0


From 58befc83e55db68d428cc3f7031c453207f520b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:13 +0000
Subject: [PATCH 35/81] fix: replacing elements of a vector field keeps those
 behind them

---
 src/mfast/vector_ref.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mfast/vector_ref.h b/src/mfast/vector_ref.h
index c264354..4a66529 100644
--- a/src/mfast/vector_ref.h
+++ b/src/mfast/vector_ref.h
@@ -480,6 +480,8 @@ vector_mref_base<T>::shift(typename vector_mref_base<T>::iterator position,
 template <typename T>
 void vector_mref_base<T>::replace(size_t pos, size_t count,
                                   const value_type *addr, size_t count2) const {
+  // never write to elements the field only refers to
+  reserve(this->size());
   if (pos + count >= this->size()) {
     // all the elements starting from pos are to removed from the vector
     this->resize(pos + count2);
@@ -490,10 +492,11 @@ void vector_mref_base<T>::replace(size_t pos, size_t count,
       this->shift(data() + pos, diff);
     } else {
       std::memmove(data() + pos + count2, data() + pos + count,
-                   -diff * sizeof(value_type));
+                   (this->size() - pos - count) * sizeof(value_type));
       this->resize(this->size() + diff);
     }
   }
-  std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
+  if (count2 > 0)
+    std::memcpy(data() + pos, addr, count2 * sizeof(value_type));
 }
 }
-- 
2.43.0


From a8bfe68f37443790e0cb0726c356d7ba099e01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:20 +0000
Subject: [PATCH 36/81] fix: reallocating a block of an arena to a smaller size
 stays within the new block

---
 src/mfast/arena_allocator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 6dac8f6..85be8ed 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -5,6 +5,7 @@
 // See the file license.txt for licensing information.
 #include "arena_allocator.h"
 #include "allocator_utils.h"
+#include <algorithm>
 #include <cstring>
 #include <cstdlib>
 #include <new>
@@ -85,7 +86,8 @@ std::size_t arena_allocator::reallocate(void *&pointer, std::size_t old_size,
   new_size = align(static_cast<std::size_t>(new_size) * 2, 64);
   void *old_pointer = pointer;
   pointer = this->allocate(new_size);
-  std::memcpy(pointer, old_pointer, old_size);
+  if (old_size > 0)
+    std::memcpy(pointer, old_pointer, std::min(old_size, new_size));
   return new_size;
 }
 
-- 
2.43.0


From aca6c23bdc8836c9fec50bc6412587ca72f2b489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:13 +0000
Subject: [PATCH 37/81] fix: all the characters of a string are written to
 JSON, and none behind them

---
 src/mfast/json/json_encode.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index b563ee3..ad4a30d 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -9,6 +9,7 @@
 #include "../nested_message_ref.h"
 #include <boost/io/ios_state.hpp>
 #include <cstdio>
+#include <cstring>
 #ifdef _MSC_VER // someday someone at microsoft will read the C++11 standard.
 #define snprintf _snprintf
 #else // _MSCVER
@@ -25,11 +26,10 @@ struct quoted_string {
   const char *str_;
 };
 
-std::ostream &operator<<(std::ostream &os, quoted_string str) {
+std::ostream &write_quoted(std::ostream &os, const char *str, std::size_t len) {
   os.put('"');
-  const char *ptr = str.str_;
-  char c;
-  while ((c = *ptr++) != '\0') {
+  for (const char *ptr = str, *end = str + len; ptr != end; ++ptr) {
+    const char c = *ptr;
     // According to ECMA-404, the control charanter (U+0000 to U+001F) must be
     // escaped
     if ((c & 0xE0) == 0) {
@@ -54,6 +54,10 @@ std::ostream &operator<<(std::ostream &os, quoted_string str) {
   return os;
 }
 
+std::ostream &operator<<(std::ostream &os, quoted_string str) {
+  return write_quoted(os, str.str_, std::strlen(str.str_));
+}
+
 class json_visitor {
 protected:
   std::ostream &strm_;
@@ -86,7 +90,8 @@ public:
   }
 
   template <typename Char> void visit(const mfast::string_cref<Char> &ref) {
-    strm_ << separator_ << quoted_string(ref.c_str());
+    strm_ << separator_;
+    write_quoted(strm_, ref.data(), ref.size());
   }
 
   void visit(const mfast::byte_vector_cref &ref) {
-- 
2.43.0


From 453be3f593b6c876e2ff48f9ead25e1d4bb0da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 38/81] fix: every byte of a byte vector is written to JSON
 with two digits

---
 src/mfast/json/json_encode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index ad4a30d..aeec822 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -106,13 +106,13 @@ public:
       // json doesn't have byte vector, treat it as hex string now
       strm_ << separator_ << "\"";
       boost::io::ios_flags_saver ifs(strm_);
-      strm_ << std::hex << std::setfill('0') << std::setw(2);
+      strm_ << std::hex << std::setfill('0');
 
       for (std::size_t i = 0; i < ref.size(); ++i) {
         // if the size is 16, we treat it as a UUID
         if (ref.size() == 16 && (i == 4 || i == 6 || i == 8 || i == 10))
           strm_ << '-';
-        strm_ << (0xFF & (int)ref[i]);
+        strm_ << std::setw(2) << (0xFF & (int)ref[i]);
       }
       strm_ << "\"" << std::setfill(' ');
     }
-- 
2.43.0


From a26995ec20586572bad3d1c0d8d0908dadeb02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 39/81] fix: JSON objects in a sequence are separated

---
 src/mfast/json/json_encode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index aeec822..885764c 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -100,6 +100,7 @@ public:
       // json encoded object already, just write it as it is without any
       // processing.
 
+      strm_ << separator_;
       strm_.rdbuf()->sputn(reinterpret_cast<const char *>(ref.data()),
                            ref.size());
     } else {
-- 
2.43.0


From 3d6acca608c918d6b9bf606decb502aee37773d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 40/81] fix: zero with a positive exponent is written as one
 digit

---
 src/mfast/value_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index a13f00f..f47be78 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -86,7 +86,8 @@ std::ostream &operator<<(std::ostream &os,
 
   if (exponent >= 0) {
     os << mantissa;
-    std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
+    if (mantissa != 0)
+      std::fill_n(std::ostream_iterator<char>(os), exponent, '0');
   } else if (exponent < 0) {
     char buf[128];
 
-- 
2.43.0


From 78ba29a94452a8054b28a066242e6c8ade4ef7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:50 +0000
Subject: [PATCH 41/81] fix: the sign of a decimal read from text is kept when
 its integer part is zero

---
 src/mfast/value_storage.cpp | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index f47be78..6aab833 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -13,7 +13,8 @@ namespace mfast {
 std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   int64_t mantissa;
-  int16_t exponent = 0;
+  int exponent = 0;
+  bool negative = (strm >> std::ws).peek() == '-';
   if (!(strm >> std::skipws >> mantissa)) {
     return strm;
   }
@@ -23,22 +24,10 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
 
   int c = sbuf->sbumpc();
   if (c == '.') {
-    bool negative = false;
-
-    if (mantissa < 0) {
-      negative = true;
-      mantissa = -mantissa;
-    }
-
     while ((c = sbuf->sbumpc()) != EOF && isdigit(c)) {
-      mantissa *= 10;
-      mantissa += c - '0';
+      mantissa = mantissa * 10 + (negative ? '0' - c : c - '0');
       exponent -= 1;
     }
-
-    if (negative) {
-      mantissa = -mantissa;
-    }
   }
 
   if (c == 'e' || c == 'E') {
-- 
2.43.0


From 4491665f56927c0202caf25c66b14d3d2e6042ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:20 +0000
Subject: [PATCH 42/81] fix: a decimal read from text that cannot be
 represented is an error

---
 src/mfast/value_storage.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/mfast/value_storage.cpp b/src/mfast/value_storage.cpp
index 6aab833..a487c0d 100644
--- a/src/mfast/value_storage.cpp
+++ b/src/mfast/value_storage.cpp
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <cstdio>
 #include <iterator>
+#include <limits>
 
 namespace mfast {
 std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
@@ -25,7 +26,13 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
   int c = sbuf->sbumpc();
   if (c == '.') {
     while ((c = sbuf->sbumpc()) != EOF && isdigit(c)) {
-      mantissa = mantissa * 10 + (negative ? '0' - c : c - '0');
+      const int64_t digit = c - '0';
+      if (negative ? mantissa < ((std::numeric_limits<int64_t>::min)() + digit) / 10
+                   : mantissa > ((std::numeric_limits<int64_t>::max)() - digit) / 10) {
+        strm.setstate(std::ios::failbit);
+        return strm;
+      }
+      mantissa = mantissa * 10 + (negative ? -digit : digit);
       exponent -= 1;
     }
   }
@@ -39,8 +46,13 @@ std::istream &operator>>(std::istream &strm, decimal_value_storage &storage) {
   } else if (c != EOF) {
     strm.putback(c);
   }
+  if (exponent < (std::numeric_limits<int16_t>::min)() ||
+      exponent > (std::numeric_limits<int16_t>::max)()) {
+    strm.setstate(std::ios::failbit);
+    return strm;
+  }
   storage.mantissa(mantissa);
-  storage.exponent(exponent);
+  storage.exponent(static_cast<int16_t>(exponent));
   storage.storage_.present(1);
   return strm;
 }
-- 
2.43.0


From 7ced9ff0b378dfe773e92c1bfac91ece4c845ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:38:20 +0000
Subject: [PATCH 43/81] fix: integer vectors read from JSON hold all of the
 elements

---
 src/mfast/json/json_decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 07a1db8..fe58b5a 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -408,7 +408,7 @@ struct decode_visitor {
     do {
       ref.resize(i + 1);
 
-      strm_ >> ref[i] >> std::skipws >> c;
+      strm_ >> ref[i++] >> std::skipws >> c;
 
       if (!strm_.good())
         BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect integer"));
-- 
2.43.0


From 1d02a91657e96faabb49d26e993a3d4c5645c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:20 +0000
Subject: [PATCH 44/81] fix: an empty JSON array makes an optional field
 present

---
 src/mfast/json/json_decode.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index fe58b5a..a2491c4 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -399,8 +399,10 @@ struct decode_visitor {
 
   template <typename IntType> void visit(int_vector_mref<IntType> &ref) {
     ref.clear();
-    if (!parse_array_preamble(strm_))
+    if (!parse_array_preamble(strm_)) {
+      ref.resize(0); // an empty array, rather than an absent one
       return;
+    }
 
     std::size_t i = 0;
     char c = 0;
@@ -512,8 +514,10 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
 
 void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
   ref.clear();
-  if (!parse_array_preamble(strm_))
+  if (!parse_array_preamble(strm_)) {
+    ref.resize(0); // an empty array, rather than an absent one
     return;
+  }
 
   std::size_t i = 0;
   char c = 0;
-- 
2.43.0


From 110c2f31a90e6135ea3a2251d342748e2ebed724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:20 +0000
Subject: [PATCH 45/81] fix: a JSON array that ends after an element is an
 error

---
 src/mfast/json/json_decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index a2491c4..83721d4 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -533,7 +533,7 @@ void decode_visitor::visit(const mfast::sequence_mref &ref, int) {
     strm_ >> std::skipws >> c;
 
     if (!strm_.good())
-      return;
+      BOOST_THROW_EXCEPTION(json_decode_error(strm_, "Expect ]"));
   } while (c == ',');
 
   if (c == ']')
-- 
2.43.0


From 816574f257212c46ac5ff97853a2211357152366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:20 +0000
Subject: [PATCH 46/81] fix: JSON null is accepted for messages and elements

---
 src/mfast/json/json_decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 83721d4..1fb9435 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -504,7 +504,7 @@ bool decode_visitor::visit_impl(const mfast::aggregate_mref &ref) {
   } else if (c == 'n') {
     // check if the result is null
     char buf[4];
-    strm_ >> std::noskipws >> std::setw(3) >> buf >> std::skipws;
+    strm_ >> std::noskipws >> std::setw(4) >> buf >> std::skipws;
     if (strncmp(buf, "ull", 3) == 0)
       return true;
   }
-- 
2.43.0


From e2f12a13872dfeb8c3c3fff7f49230faa0e2e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:20 +0000
Subject: [PATCH 47/81] fix: NUL is not a JSON escape character

---
 src/mfast/json/json_decode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 1fb9435..c74112f 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -138,7 +138,7 @@ bool get_quoted_string(std::istream &strm, std::string *pstr,
         // escape mode
         const char *escapables = "\b\t\n\f\r\"/\\";
         const char *orig = "btnfr\"/\\";
-        const char *pch = strchr(orig, c);
+        const char *pch = c != '\0' ? strchr(orig, c) : nullptr;
         if (pch != nullptr) {
           c = escapables[pch - orig];
           escaped = false;
-- 
2.43.0


From b106d5d052a38332cb37e2e189475778ad74d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:20 +0000
Subject: [PATCH 48/81] fix: a JSON object replaces the content of a byte
 vector

---
 src/mfast/json/json_decode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index c74112f..383dc3b 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -378,6 +378,7 @@ struct decode_visitor {
       char c = 0;
       strm_ >> std::skipws >> c;
       if (strm_.good() && c == '{') {
+        ref.clear();
         ref.push_back(c);
         if (skip_matching(strm_, c, &ref)) {
           return;
-- 
2.43.0


From 041a319b23540fc04d1a2c12194dcadf5a460d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:20 +0000
Subject: [PATCH 49/81] fix: negative numbers in JSON are not values of
 unsigned fields

---
 src/mfast/json/json_decode.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mfast/json/json_decode.cpp b/src/mfast/json/json_decode.cpp
index 383dc3b..0c6b3eb 100644
--- a/src/mfast/json/json_decode.cpp
+++ b/src/mfast/json/json_decode.cpp
@@ -9,6 +9,7 @@
 #include "../field_visitor.h"
 #include "../nested_message_ref.h"
 #include <boost/regex/pending/unicode_iterator.hpp>
+#include <type_traits>
 namespace mfast {
 
 namespace json {
@@ -309,6 +310,8 @@ struct decode_visitor {
   template <typename NumericTypeMref> void visit(const NumericTypeMref &ref) {
     typedef typename NumericTypeMref::value_type value_type;
     value_type value;
+    if (std::is_unsigned<value_type>::value && (strm_ >> std::ws).peek() == '-')
+      strm_.setstate(std::ios::failbit);
     if (strm_ >> value, strm_.good())
       ref.as(value);
     else
@@ -411,6 +414,9 @@ struct decode_visitor {
     do {
       ref.resize(i + 1);
 
+      if (std::is_unsigned<IntType>::value &&
+          (strm_ >> std::ws).peek() == '-')
+        strm_.setstate(std::ios::failbit);
       strm_ >> ref[i++] >> std::skipws >> c;
 
       if (!strm_.good())
-- 
2.43.0


From 642dbffe8e1e6f84276fcfdb97f68b31e926dfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:03 +0000
Subject: [PATCH 50/81] fix: the namespace of a field does not qualify the name
 of its type

---
 src/mfast/xml_parser/field_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 367d7ba..5672579 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -119,6 +119,8 @@ const field_instruction *field_builder::find_prototype(const char *type_name) {
 
   if (instruction == nullptr) {
     instruction = this->find_type(ns_, type_name);
+    if (instruction == nullptr)
+      instruction = this->find_type(nullptr, type_name);
   }
 
   if (instruction == nullptr) {
-- 
2.43.0


From c5b18e6a10e521556fb1859fcb9605a2e0cbf40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:03 +0000
Subject: [PATCH 51/81] fix: templates are known by their template namespace

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 5672579..53bce8d 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -85,7 +85,7 @@ const char *field_builder::resolve_field_type(const XMLElement &element) {
     }
   }
 
-  resolved_ns_ = ns_;
+  resolved_ns_ = templateNs_;
   if (resolved_ns_ == nullptr && parent_) {
     resolved_ns_ = parent_->resolved_ns();
   }
-- 
2.43.0


From 814756c27a83323a7fd0e622d712423ccf1e4659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:03 +0000
Subject: [PATCH 52/81] fix: groups and sequences without fields

---
 src/mfast/xml_parser/field_builder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 53bce8d..faba047 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -386,8 +386,8 @@ instructions_view_t field_builder::build_subfields() {
 
 const group_field_instruction *field_builder::get_sole_templateref() {
   const XMLElement *child = content_element_->FirstChildElement();
-  if (strcmp(child->Name(), "templateRef") == 0 &&
-      child->NextSibling() == nullptr) {
+  if (child && strcmp(child->Name(), "templateRef") == 0 &&
+      child->NextSiblingElement() == nullptr) {
     const char *target_name = child->Attribute("name", nullptr);
     if (target_name) {
       const char *target_ns =
-- 
2.43.0


From 35a16489a829d00055bf6606ab344cc6b1daf72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:03 +0000
Subject: [PATCH 53/81] fix: initial values of enumerations whose elements are
 given in place

---
 src/mfast/xml_parser/field_builder.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index faba047..4de7d87 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -610,9 +610,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       if (name_attr == nullptr)
         name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -646,11 +643,11 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
-    // decide what the specified
-    // initial value is.
+  }
 
+  if (init_value_str) {
+    // The element names are defined by now, but we haven't decided what the
+    // specified initial value is.
     uint64_t init_value;
     if (parse_enum_value(enum_element_names, enum_element_values, num_elements,
                          init_value_str, init_value)) {
@@ -715,9 +712,6 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
          xml_element = xml_element->NextSiblingElement("element")) {
       const char *name_attr = xml_element->Attribute("name");
       if (name_attr != nullptr) {
-        if (init_value_str && std::strcmp(name_attr, init_value_str) == 0) {
-          fop.initial_value_.set<uint64_t>(names.size());
-        }
         names.push_back(string_dup(name_attr, alloc()));
 
         const char *value_str = xml_element->Attribute("value");
@@ -747,11 +741,11 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
       std::copy(values.begin(), values.end(), values_array);
       enum_element_values = values_array;
     }
-  } else if (init_value_str) {
-    // In this case, the element names are already defined, but we haven't
-    // decide what the specified
-    // initial value is.
+  }
 
+  if (init_value_str) {
+    // The element names are defined by now, but we haven't decided what the
+    // specified initial value is.
     uint64_t init_value;
     if (parse_enum_value(enum_element_names, enum_element_values, num_elements,
                          init_value_str, init_value)) {
-- 
2.43.0


From dac9c4424073bc8b717def7e70e8053166d55087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:20 +0000
Subject: [PATCH 54/81] fix: negative numbers are not ids or values of unsigned
 fields

---
 src/mfast/xml_parser/fast_xml_attributes.h | 3 ++-
 src/mfast/xml_parser/field_builder.cpp     | 6 +++---
 src/mfast/xml_parser/field_op.h            | 4 ++--
 src/mfast/xml_parser/xml_util.h            | 9 +++++++++
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/mfast/xml_parser/fast_xml_attributes.h b/src/mfast/xml_parser/fast_xml_attributes.h
index 0d10407..65ce9ef 100644
--- a/src/mfast/xml_parser/fast_xml_attributes.h
+++ b/src/mfast/xml_parser/fast_xml_attributes.h
@@ -6,6 +6,7 @@
 #pragma once
 
 #include "tinyxml2.h"
+#include "xml_util.h"
 #include "../instructions/field_instruction.h"
 #include <cstring>
 #include <boost/lexical_cast.hpp>
@@ -78,7 +79,7 @@ struct fast_xml_attributes {
   }
 
   uint32_t get_id(const field_instruction *inst) const {
-    return id_ ? boost::lexical_cast<uint32_t>(id_) : inst->id();
+    return id_ ? parse_unsigned<uint32_t>(id_) : inst->id();
   }
 
   const char *get_name(arena_allocator &alloc) const {
diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index 4de7d87..b9107d9 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -506,7 +506,7 @@ void field_builder::visit(const template_instruction *inst, void *) {
   }
 
   auto instruction = new (alloc()) template_instruction(
-      id_ ? boost::lexical_cast<uint32_t>(id_) : 0, string_dup(name_, alloc()),
+      id_ ? parse_unsigned<uint32_t>(id_) : 0, string_dup(name_, alloc()),
       string_dup(ns_, alloc()), string_dup(templateNs_, alloc()),
       string_dup(dictionary_, alloc()), build_subfields(), reset,
       get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
@@ -614,7 +614,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
 
         const char *value_str = xml_element->Attribute("value");
         if (value_str) {
-          uint64_t v = boost::lexical_cast<uint64_t>(value_str);
+          uint64_t v = parse_unsigned<uint64_t>(value_str);
           if (values.empty() || v > values.back()) {
             values.push_back(v);
           }
@@ -716,7 +716,7 @@ void field_builder::visit(const enum_field_instruction *inst, void *) {
 
         const char *value_str = xml_element->Attribute("value");
         if (value_str) {
-          uint64_t v = boost::lexical_cast<uint64_t>(value_str);
+          uint64_t v = parse_unsigned<uint64_t>(value_str);
           if (values.empty() || v > values.back()) {
             values.push_back(v);
           }
diff --git a/src/mfast/xml_parser/field_op.h b/src/mfast/xml_parser/field_op.h
index e258f15..fabef65 100644
--- a/src/mfast/xml_parser/field_op.h
+++ b/src/mfast/xml_parser/field_op.h
@@ -74,7 +74,7 @@ private:
                       const uint32_field_instruction *) {
     if (init_value_str) {
       initial_value_.present(true);
-      initial_value_.set(boost::lexical_cast<uint32_t>(init_value_str));
+      initial_value_.set(parse_unsigned<uint32_t>(init_value_str));
     }
   }
 
@@ -90,7 +90,7 @@ private:
                       const uint64_field_instruction *) {
     if (init_value_str) {
       initial_value_.present(true);
-      initial_value_.set(boost::lexical_cast<uint64_t>(init_value_str));
+      initial_value_.set(parse_unsigned<uint64_t>(init_value_str));
     }
   }
 
diff --git a/src/mfast/xml_parser/xml_util.h b/src/mfast/xml_parser/xml_util.h
index 16dfe49..fa872ff 100644
--- a/src/mfast/xml_parser/xml_util.h
+++ b/src/mfast/xml_parser/xml_util.h
@@ -7,6 +7,8 @@
 
 #include "tinyxml2.h"
 #include "../arena_allocator.h"
+#include <boost/lexical_cast.hpp>
+#include <typeinfo>
 
 namespace mfast {
 namespace xml_parser {
@@ -27,6 +29,13 @@ inline const char *string_dup(const char *str, arena_allocator &alloc) {
   ;
 }
 
+// boost::lexical_cast wraps negative numbers around for unsigned types
+template <typename T> inline T parse_unsigned(const char *str) {
+  if (str[0] == '-')
+    throw boost::bad_lexical_cast(typeid(const char *), typeid(T));
+  return boost::lexical_cast<T>(str);
+}
+
 } /* xml_parser */
 
 } /* mfast */
-- 
2.43.0


From 83b912bf9ae68ac164f4d83e33c097132598c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:20 +0000
Subject: [PATCH 55/81] fix: the id of a length is an unsigned number like
 other ids

---
 src/mfast/xml_parser/field_builder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index d14e444..393ee0b 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -46,7 +46,7 @@ protected:
   template <typename Instruction>
   uint32_t get_length_id(const Instruction *inst,
                          const fast_xml_attributes &length_attrs) const {
-    return length_attrs.id_ ? static_cast<uint32_t>(std::stoi(length_attrs.id_))
+    return length_attrs.id_ ? parse_unsigned<uint32_t>(length_attrs.id_)
                             : inst->length_id();
   }
 
-- 
2.43.0


From 21deaab432bc66c96b0206e27554e4af7da2a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:20 +0000
Subject: [PATCH 56/81] fix: decimal fields with one operator take any decimal
 as initial value

---
 src/mfast/xml_parser/field_op.cpp | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_op.cpp b/src/mfast/xml_parser/field_op.cpp
index 87335f1..a2733f5 100644
--- a/src/mfast/xml_parser/field_op.cpp
+++ b/src/mfast/xml_parser/field_op.cpp
@@ -57,6 +57,31 @@ struct cstr_compare {
   }
 };
 
+// a decimal with the mantissa free of trailing zeros
+static decimal_value_storage parse_decimal(const char *str) {
+  std::string digits(str);
+  int exponent = 0;
+  std::size_t dot = digits.find('.');
+  if (dot != std::string::npos) {
+    if (digits.find_first_of("0123456789", dot) != dot + 1)
+      BOOST_THROW_EXCEPTION(fast_dynamic_error("D11")
+                            << reason_info(std::string("Invalid decimal: ") + str));
+    digits.erase(dot, 1);
+    exponent = static_cast<int>(dot) - static_cast<int>(digits.size());
+  }
+  int64_t mantissa = boost::lexical_cast<int64_t>(digits);
+  while (mantissa != 0 && mantissa % 10 == 0) {
+    mantissa /= 10;
+    ++exponent;
+  }
+  if (mantissa == 0)
+    exponent = 0;
+  if (exponent < -63)
+    BOOST_THROW_EXCEPTION(fast_dynamic_error("D11")
+                          << reason_info(std::string("Invalid decimal: ") + str));
+  return decimal_value_storage(mantissa, static_cast<int16_t>(exponent));
+}
+
 field_op::field_op(const decimal_field_instruction *inst,
                    const XMLElement *element, arena_allocator &alloc)
     : op_(inst->field_operator()), context_(inst->op_context()),
@@ -70,7 +95,7 @@ field_op::field_op(const decimal_field_instruction *inst,
 
       if (init_value_str) {
         if (strcmp(element->Name(), "exponent") != 0)
-          initial_value_.set(boost::lexical_cast<int64_t>(init_value_str));
+          initial_value_ = parse_decimal(init_value_str).storage_;
         else {
           short exp = 128;
           try {
-- 
2.43.0


From 46f16931006906b6e91d3cf042545c48d8728df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:43 +0000
Subject: [PATCH 57/81] fix: the typeRef of a defined type applies to its
 fields

---
 src/mfast/xml_parser/field_builder.cpp |  4 ++--
 src/mfast/xml_parser/field_builder.h   | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index b9107d9..b763825 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -417,7 +417,7 @@ void field_builder::visit(const group_field_instruction *inst, void *) {
   auto instruction = new (alloc()) group_field_instruction(
       get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), get_dictionary(inst), subinstructions,
-      get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
+      typeRef_name(inst), typeRef_ns(inst), inst->cpp_ns(),
       parse_tag(inst));
 
   if (inst->subinstructions().size() == 0) {
@@ -487,7 +487,7 @@ void field_builder::visit(const sequence_field_instruction *inst, void *) {
       get_presence(inst), get_id(inst), get_name(alloc()),
       get_ns(inst, alloc()), get_dictionary(inst), subinstructions,
       element_instruction, ref_inst, get_length_instruction(inst),
-      get_typeRef_name(element_), get_typeRef_ns(element_), inst->cpp_ns(),
+      typeRef_name(inst), typeRef_ns(inst), inst->cpp_ns(),
       parse_tag(inst));
 
   parent_->add_instruction(instruction);
diff --git a/src/mfast/xml_parser/field_builder.h b/src/mfast/xml_parser/field_builder.h
index 393ee0b..49bc87f 100644
--- a/src/mfast/xml_parser/field_builder.h
+++ b/src/mfast/xml_parser/field_builder.h
@@ -69,6 +69,26 @@ protected:
     return dictionary_ ? string_dup(dictionary_, alloc()) : inst->dictionary();
   }
 
+  // the typeRef of a group or sequence is given in the field, in its content
+  // or in the definition of its type
+  template <typename Instruction>
+  const char *typeRef_name(const Instruction *inst) {
+    if (element_.FirstChildElement("typeRef"))
+      return get_typeRef_name(element_);
+    return content_element_->FirstChildElement("typeRef")
+               ? get_typeRef_name(*content_element_)
+               : inst->typeref_name();
+  }
+
+  template <typename Instruction>
+  const char *typeRef_ns(const Instruction *inst) {
+    if (element_.FirstChildElement("typeRef"))
+      return get_typeRef_ns(element_);
+    return content_element_->FirstChildElement("typeRef")
+               ? get_typeRef_ns(*content_element_)
+               : inst->typeref_ns();
+  }
+
   virtual void visit(const int32_field_instruction *, void *) override;
   virtual void visit(const uint32_field_instruction *, void *) override;
   virtual void visit(const int64_field_instruction *, void *) override;
-- 
2.43.0


From 357b6996b75d55df5c959ae84f20f78c494eea89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:47 +0000
Subject: [PATCH 58/81] fix: a mantissa without an initial value has none

---
 src/mfast/xml_parser/field_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/xml_parser/field_builder.cpp b/src/mfast/xml_parser/field_builder.cpp
index b763825..373c241 100644
--- a/src/mfast/xml_parser/field_builder.cpp
+++ b/src/mfast/xml_parser/field_builder.cpp
@@ -194,7 +194,7 @@ void field_builder::visit(const decimal_field_instruction *inst, void *) {
 
     if (base_mantissa_instruction == nullptr) {
       static const mantissa_field_instruction mantissa_prototype(
-          operator_none, nullptr, int_value_storage<int64_t>(0));
+          operator_none, nullptr, int_value_storage<int64_t>());
       base_mantissa_instruction = &mantissa_prototype;
     }
 
-- 
2.43.0


From 47306ac85168f4d126519eb2042db77b98a3227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:55 +0000
Subject: [PATCH 59/81] fix: names of field types in conversion errors

---
 src/mfast/instructions/field_instruction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/instructions/field_instruction.cpp b/src/mfast/instructions/field_instruction.cpp
index 37dcf05..65e9f72 100644
--- a/src/mfast/instructions/field_instruction.cpp
+++ b/src/mfast/instructions/field_instruction.cpp
@@ -36,7 +36,9 @@ const char *field_instruction::field_type_name() const {
       "field_type_decimal",        "field_type_exponent",
       "field_type_templateref",    "field_type_ascii_string",
       "field_type_unicode_string", "field_type_byte_vector",
-      "field_type_group",          "field_type_sequence",
+      "field_type_int32_vector",   "field_type_uint32_vector",
+      "field_type_int64_vector",   "field_type_uint64_vector",
+      "field_type_sequence",       "field_type_group",
       "field_type_template",       "field_type_enum",
       "field_type_set",
   };
-- 
2.43.0


From 203855828769c41ba167fcad51741394c365785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:55 +0000
Subject: [PATCH 60/81] fix: names of field types in key type mismatch errors

---
 src/mfast/coder/common/dictionary_builder.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mfast/coder/common/dictionary_builder.cpp b/src/mfast/coder/common/dictionary_builder.cpp
index bf1c098..2938d7c 100644
--- a/src/mfast/coder/common/dictionary_builder.cpp
+++ b/src/mfast/coder/common/dictionary_builder.cpp
@@ -33,10 +33,11 @@ public:
                           field_type_enum_t second_type)
       : fast_dynamic_error("D4") {
     const char *field_type_name[] = {
-        "int32",       "uInt32",      "int64",        "uInt64",
-        "decimal",     "exponent",    "ascii string", "unicode string",
-        "byteVector",  "int32Vector", "uInt32Vector", "int64Vector",
-        "uInt64Vector"};
+        "int32",        "uInt32",         "int64",       "uInt64",
+        "decimal",      "exponent",       "templateRef", "ascii string",
+        "unicode string", "byteVector",   "int32Vector", "uInt32Vector",
+        "int64Vector",  "uInt64Vector",   "sequence",    "group",
+        "template",     "enum",           "set"};
     *this << key_info(keyname) << first_type_info(field_type_name[first_type])
           << second_type_info(field_type_name[second_type]);
   }
-- 
2.43.0


From 963e9989f68f8bf042460960a69904b24791ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:04 +0000
Subject: [PATCH 61/81] fix: crend of a sequence is its reverse end

---
 src/mfast/sequence_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 384abac..3078769 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -250,7 +250,7 @@ public:
     return boost::make_reverse_iterator(this->begin());
   }
   const_reverse_iterator crbegin() const { return this->rbegin(); }
-  const_reverse_iterator crend() const { return this->rbegin(); }
+  const_reverse_iterator crend() const { return this->rend(); }
   /**
    * @returns true if the sequence contains only one sub-field and the field is
    *unnamed.
-- 
2.43.0


From f9f8866d497f0e6b9c1093b888a916fbc5d92024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:04 +0000
Subject: [PATCH 62/81] fix: distance between sequence iterators when it is
 negative

---
 src/mfast/sequence_ref.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 3078769..0aa1c3b 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -119,9 +119,10 @@ private:
 
   void increment() { advance(1); }
   void decrement() { advance(-1); }
-  int distance_to(sequence_iterator const &other) const {
+  std::ptrdiff_t distance_to(sequence_iterator const &other) const {
     return (other.content_storage() - this->content_storage()) /
-           this->element_group_content_byte_count();
+           static_cast<std::ptrdiff_t>(
+               this->element_group_content_byte_count());
   }
 };
 
-- 
2.43.0


From 97bec2bd23a918b4b4f83b6abaf2e85d6e4a9e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:05 +0000
Subject: [PATCH 63/81] fix: assigning a range to a sequence of elements
 defined in place

---
 src/mfast/sequence_ref.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 0aa1c3b..7361529 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -356,9 +356,8 @@ public:
   template <typename RandomAccessIterator>
   void assign(RandomAccessIterator first, RandomAccessIterator last) const {
     resize(std::distance(first, last));
-    RandomAccessIterator itr;
     iterator dest = begin();
-    for (itr = first; itr != last; ++itr, ++dest)
+    for (RandomAccessIterator itr = first; itr != last; ++itr, ++dest)
       dest->as(*itr);
   }
 
-- 
2.43.0


From 7c1d243efb83245af8bb883cf8253744791fda58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:05 +0000
Subject: [PATCH 64/81] fix: copying one sequence field to another

---
 src/mfast/sequence_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 7361529..5677d42 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -456,6 +456,6 @@ make_sequence_mref<ElementType, SequenceTrait, SequenceInstructionType>::as(
   this->instruction()->copy_construct_value(*src.storage_, tmp_storage,
                                             this->alloc_);
   std::swap(tmp_storage, const_cast<value_storage &>(*this->storage_));
-  this->instruction()->destruct_value(tmp_storage);
+  this->instruction()->destruct_value(tmp_storage, this->alloc_);
 }
 }
-- 
2.43.0


From bd86c7b0dbb0a2e9c18e6b696a8c7a81455239a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:05 +0000
Subject: [PATCH 65/81] fix: assigning an element of a sequence copies its
 fields

---
 src/mfast/aggregate_ref.h | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/mfast/aggregate_ref.h b/src/mfast/aggregate_ref.h
index 9d03c43..f1789e0 100644
--- a/src/mfast/aggregate_ref.h
+++ b/src/mfast/aggregate_ref.h
@@ -355,17 +355,11 @@ void make_aggregate_mref<ConstRef>::as(const ConstRef &other) const {
   value_storage *new_content = reinterpret_cast<value_storage *>(buf + sz);
   // the first chuck for storing the original content
   std::memcpy(orig_content, this->storage_array_, sz);
-  value_storage tmp_storage;
 
   // the second chunk for construct the new aggregate value
-
-  value_storage other_storage;
-  other_storage.of_group.own_content_ = false;
-  other_storage.of_group.content_ = const_cast<value_storage *>(
-      aggregate_cref_core_access::storage_of(other));
-
-  this->instruction()->copy_construct_value(other_storage, tmp_storage,
-                                            this->alloc_, new_content);
+  this->instruction()->copy_group_subfields(
+      aggregate_cref_core_access::storage_of(other), new_content,
+      this->alloc_);
 
   // copy the newly construct aggregate value to the old memory chunk
   std::memcpy(const_cast<value_storage *>(this->storage_array_), new_content,
-- 
2.43.0


From b3b157353a3a6fc77f27ba43b98afc8819c03bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:16 +0000
Subject: [PATCH 66/81] fix: copying a message that holds nothing

---
 src/mfast/composite_type.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfast/composite_type.h b/src/mfast/composite_type.h
index 1fc5d76..216ec0c 100644
--- a/src/mfast/composite_type.h
+++ b/src/mfast/composite_type.h
@@ -173,8 +173,9 @@ inline composite_type<CRef>::composite_type(const CRef &other,
 template <typename CRef>
 inline composite_type<CRef>::composite_type(const composite_type &other)
     : alloc_(other.alloc_), instruction_(other.instruction_) {
-  this->instruction()->copy_construct_value(other.my_storage_, my_storage_,
-                                            alloc_, nullptr);
+  if (instruction_)
+    instruction_->copy_construct_value(other.my_storage_, my_storage_, alloc_,
+                                       nullptr);
 }
 
 template <typename CRef>
-- 
2.43.0


From 5432a60f4aa5d775c59f94d6b412dc7a96e5aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:38 +0000
Subject: [PATCH 67/81] fix: references to the value of a group_type

---
 src/mfast/composite_type.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/mfast/composite_type.h b/src/mfast/composite_type.h
index 216ec0c..fe0939f 100644
--- a/src/mfast/composite_type.h
+++ b/src/mfast/composite_type.h
@@ -10,6 +10,19 @@
 #include <stdlib.h>
 
 namespace mfast {
+namespace detail {
+// what a reference to the value held by a composite_type refers to
+template <typename CRef>
+inline value_storage *composite_storage(value_storage &storage, const CRef *) {
+  return storage.of_group.content_;
+}
+
+inline value_storage *composite_storage(value_storage &storage,
+                                        const group_cref *) {
+  return &storage;
+}
+}
+
 template <typename CRef> class composite_type {
   // #ifdef BOOST_NO_RVALUE_REFERENCES
   //     BOOST_MOVABLE_BUT_NOT_COPYABLE(composite_type)
@@ -164,6 +177,7 @@ inline composite_type<CRef>::composite_type(const CRef &other,
                                             mfast::allocator *alloc)
     : alloc_(alloc), instruction_(other.instruction()) {
   value_storage other_storage;
+  other_storage.of_group.present_ = other.present();
   other_storage.of_group.content_ =
       const_cast<value_storage *>(other.field_storage(0));
   this->instruction()->copy_construct_value(other_storage, my_storage_, alloc,
@@ -186,24 +200,34 @@ operator=(const composite_type<CRef> &other) {
 
 template <typename CRef>
 inline typename composite_type<CRef>::mref_type composite_type<CRef>::ref() {
-  return mref_type(alloc_, my_storage_.of_group.content_, instruction_);
+  return mref_type(alloc_, detail::composite_storage(
+                               my_storage_, static_cast<const CRef *>(nullptr)),
+                   instruction_);
 }
 
 template <typename CRef>
 inline typename composite_type<CRef>::mref_type composite_type<CRef>::mref() {
-  return mref_type(alloc_, my_storage_.of_group.content_, instruction_);
+  return mref_type(alloc_, detail::composite_storage(
+                               my_storage_, static_cast<const CRef *>(nullptr)),
+                   instruction_);
 }
 
 template <typename CRef>
 inline typename composite_type<CRef>::cref_type
 composite_type<CRef>::ref() const {
-  return cref_type(my_storage_.of_group.content_, instruction_);
+  return cref_type(detail::composite_storage(
+                       const_cast<value_storage &>(my_storage_),
+                       static_cast<const CRef *>(nullptr)),
+                   instruction_);
 }
 
 template <typename CRef>
 inline typename composite_type<CRef>::cref_type
 composite_type<CRef>::cref() const {
-  return cref_type(my_storage_.of_group.content_, instruction_);
+  return cref_type(detail::composite_storage(
+                       const_cast<value_storage &>(my_storage_),
+                       static_cast<const CRef *>(nullptr)),
+                   instruction_);
 }
 
 template <typename CRef> inline const char *composite_type<CRef>::name() const {
-- 
2.43.0


From 298d2e0256dc24b5f52c99d78794ff48069c0f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:14 +0000
Subject: [PATCH 68/81] fix: copying a reference to one sequence to another
 reference

---
 src/mfast/sequence_ref.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mfast/sequence_ref.h b/src/mfast/sequence_ref.h
index 5677d42..4282792 100644
--- a/src/mfast/sequence_ref.h
+++ b/src/mfast/sequence_ref.h
@@ -453,7 +453,8 @@ inline void
 make_sequence_mref<ElementType, SequenceTrait, SequenceInstructionType>::as(
     const cref_type &src) const {
   value_storage tmp_storage;
-  this->instruction()->copy_construct_value(*src.storage_, tmp_storage,
+  this->instruction()->copy_construct_value(*field_cref_core_access::storage_of(src),
+                                            tmp_storage,
                                             this->alloc_);
   std::swap(tmp_storage, const_cast<value_storage &>(*this->storage_));
   this->instruction()->destruct_value(tmp_storage, this->alloc_);
-- 
2.43.0


From f257eb6e23a5cf931a36dea2593ef6614f20a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:32 +0000
Subject: [PATCH 69/81] fix: equality of fields that may be absent

---
 src/mfast/field_comparator.h | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index 3749125..a11e72d 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -18,19 +18,28 @@ public:
     return lhs == rhs;
   }
 
-  static bool compare(const aggregate_cref lhs, const aggregate_cref rhs) {
+  // fields are equal when they are of the same type and either both absent or
+  // both present with the same content
+  static bool compare(const field_cref &lhs, const field_cref &rhs) {
+    if (lhs.instruction()->field_type() != rhs.instruction()->field_type() ||
+        lhs.absent() != rhs.absent())
+      return false;
+
+    if (lhs.absent())
+      return true;
+
+    field_comparator comparator(rhs);
+    return apply_accessor(comparator, lhs);
+  }
+
+  static bool compare(const aggregate_cref &lhs, const aggregate_cref &rhs) {
+    if (lhs.absent() || rhs.absent())
+      return lhs.absent() == rhs.absent();
+
     if (lhs.num_fields() == rhs.num_fields()) {
       for (std::size_t i = 0; i < lhs.num_fields(); ++i) {
-        if (lhs.instruction()->field_type() !=
-                rhs.instruction()->field_type() ||
-            lhs.present() != rhs.present())
+        if (!compare(lhs[i], rhs[i]))
           return false;
-
-        if (lhs.present()) {
-          field_comparator comparator(rhs[i]);
-          if (!apply_accessor(comparator, lhs[i]))
-            return false;
-        }
       }
       return true;
     }
@@ -60,11 +69,7 @@ inline bool operator==(const aggregate_cref &lhs, const aggregate_cref &rhs) {
 }
 
 inline bool operator==(const field_cref &lhs, const field_cref &rhs) {
-  if (lhs.instruction()->field_type() != rhs.instruction()->field_type())
-    return false;
-
-  detail::field_comparator comparator(rhs);
-  return apply_accessor(comparator, lhs);
+  return detail::field_comparator::compare(lhs, rhs);
 }
 
 using namespace std::rel_ops;
-- 
2.43.0


From 568fecfb31fb252f5578960c95a59c8218f4cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:32 +0000
Subject: [PATCH 70/81] fix: equality of messages with unbound template
 references

---
 src/mfast/field_comparator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mfast/field_comparator.h b/src/mfast/field_comparator.h
index a11e72d..6aef910 100644
--- a/src/mfast/field_comparator.h
+++ b/src/mfast/field_comparator.h
@@ -50,6 +50,15 @@ public:
     return compare(lhs, static_cast<aggregate_cref>(rhs_));
   }
 
+  // a reference to a message may not be bound to any
+  bool visit(const nested_message_cref &lhs, int) const {
+    nested_message_cref rhs(rhs_);
+    if (lhs.target_instruction() == nullptr ||
+        rhs.target_instruction() == nullptr)
+      return lhs.target_instruction() == rhs.target_instruction();
+    return compare(aggregate_cref(lhs), aggregate_cref(rhs));
+  }
+
   bool visit(const sequence_cref &lhs, int) const {
     sequence_cref rhs = static_cast<sequence_cref>(rhs_);
     if (lhs.num_fields() == rhs.num_fields() && lhs.size() == rhs.size()) {
-- 
2.43.0


From 3fffd443dedda0b1995cc46853f51ee0a7ffdc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:15 +0000
Subject: [PATCH 71/81] fix: clearing a mandatory sequence empties it

---
 src/mfast/instructions/sequence_instruction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mfast/instructions/sequence_instruction.cpp b/src/mfast/instructions/sequence_instruction.cpp
index afda1d3..6ee7c47 100644
--- a/src/mfast/instructions/sequence_instruction.cpp
+++ b/src/mfast/instructions/sequence_instruction.cpp
@@ -22,6 +22,7 @@ sequence_field_instruction::sequence_field_instruction(
       sequence_length_instruction_(sequence_length_instruction),
       element_instruction_(element_instruction) {
   field_type_ = field_type_sequence;
+  is_array_ = true;
   has_pmap_bit_ = sequence_length_instruction
                       ? sequence_length_instruction->pmap_size()
                       : 0;
-- 
2.43.0


From 68b57dc20c6ed96125fc24e94edd1575a6d1f8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:55 +0000
Subject: [PATCH 72/81] fix: set decimals with individual operators through
 field_mref

field_mref::as() refused numbers for a decimal field whose exponent and
mantissa have operators of their own, although it is a decimal to every
other part of the interface.
---
 src/mfast/field_mref.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mfast/field_mref.h b/src/mfast/field_mref.h
index d33dce8..c3be37c 100644
--- a/src/mfast/field_mref.h
+++ b/src/mfast/field_mref.h
@@ -73,6 +73,7 @@ template <typename T> void field_mref::as(T value) {
     static_cast<uint64_mref>(*this).as(static_cast<uint64_t>(value));
     break;
   case field_type_decimal:
+  case field_type_exponent:
     static_cast<decimal_mref>(*this).as(value);
     break;
   default:
@@ -96,7 +97,8 @@ inline void field_mref::as(const char *value) {
 }
 
 inline void field_mref::as(const decimal &value) {
-  if (this->instruction()->field_type() == field_type_decimal)
+  if (this->instruction()->field_type() == field_type_decimal ||
+      this->instruction()->field_type() == field_type_exponent)
     static_cast<decimal_mref>(*this).as(value);
   else
     BOOST_THROW_EXCEPTION(incompatible_type_conversion_error(
-- 
2.43.0


From e8ed92c293f91f8514a61296ce55a9a2c3732ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:55 +0000
Subject: [PATCH 73/81] fix: keep enum values without a name within the table
 of names

A value received from the wire may be larger than the last element of the
enumeration. The lookup of its name, which the JSON encoder does for
booleans, read beyond the table.
---
 src/mfast/instructions/enum_instruction.h | 2 +-
 src/mfast/json/json_encode.cpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mfast/instructions/enum_instruction.h b/src/mfast/instructions/enum_instruction.h
index 44535de..2ab3818 100644
--- a/src/mfast/instructions/enum_instruction.h
+++ b/src/mfast/instructions/enum_instruction.h
@@ -40,7 +40,7 @@ public:
 
   const char *element_name(uint64_t v) const {
     if (element_values_ == nullptr)
-      return elements_[v];
+      return v < num_elements_ ? elements_[v] : nullptr;
     const uint64_t *it =
         std::lower_bound(element_values_, element_values_ + num_elements_, v);
     if (it != element_values_ + num_elements_ && *it == v)
diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index 885764c..aa33de2 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -84,7 +84,7 @@ public:
 
   void visit(const enum_cref &ref) {
     if (ref.is_boolean())
-      strm_ << separator_ << ref.value_name();
+      strm_ << separator_ << (ref.value() != 0 ? "true" : "false");
     else
       strm_ << separator_ << ref.value();
   }
-- 
2.43.0


From 3a59a47b67d4175b5692d53143cf4a28585824fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:10 +0000
Subject: [PATCH 74/81] fix: a view field is its first present reference

Only one of the alternative references of the first field was accessed, and
skipping references left the path of the iterator at fields of another branch.
---
 src/mfast/view_iterator.cpp | 32 +++++++++++++++++++++-----------
 src/mfast/view_iterator.h   |  6 +++++-
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index af51e2d..e67cacb 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -12,10 +12,7 @@
 #include "sequence_ref.h"
 
 namespace mfast {
-bool view_iterator_helper::access_field(view_iterator *itr) {
-  if (itr->view_info_->prefix_diff() < itr->non_leaves_.size())
-    itr->non_leaves_.resize(itr->view_info_->prefix_diff());
-
+bool view_iterator_helper::access_reference(view_iterator *itr) {
   while (itr->non_leaves_.back() == aggregate_cref::iterator()) {
     // if the field is nesting inside a sequence, a null
     // object could be inserted into the stack in order to
@@ -59,16 +56,29 @@ bool view_iterator_helper::access_field(view_iterator *itr) {
   return itr->leaf_.present();
 }
 
-void view_iterator_helper::increment(view_iterator *itr) {
+void view_iterator_helper::next_reference(view_iterator *itr) {
   ++itr->view_info_;
-  if (itr->view_info_->prop == 0)
-    return;
+  // Keep only the part of the path which is shared with this reference, even
+  // if it is not going to be accessed: the prefix of every reference is
+  // relative to the one preceding it.
+  if (itr->view_info_->prefix_diff() < itr->non_leaves_.size())
+    itr->non_leaves_.resize(itr->view_info_->prefix_diff());
+}
 
-  while (!access_field(itr) && itr->view_info_->cont())
-    ++itr->view_info_;
+bool view_iterator_helper::access_field(view_iterator *itr) {
+  bool found = access_reference(itr);
+  while (itr->view_info_->cont()) {
+    next_reference(itr);
+    if (!found)
+      found = access_reference(itr);
+  }
+  return found;
+}
 
-  while (itr->view_info_->cont())
-    ++itr->view_info_;
+void view_iterator_helper::increment(view_iterator *itr) {
+  next_reference(itr);
+  if (itr->view_info_->prop != 0)
+    access_field(itr);
 }
 
 } /* mfast */
diff --git a/src/mfast/view_iterator.h b/src/mfast/view_iterator.h
index a12b18e..0d91ec6 100644
--- a/src/mfast/view_iterator.h
+++ b/src/mfast/view_iterator.h
@@ -38,6 +38,9 @@ struct aggregate_view_info {
 class view_iterator;
 
 class MFAST_EXPORT view_iterator_helper {
+  static bool access_reference(view_iterator *itr);
+  static void next_reference(view_iterator *itr);
+
 public:
   static bool access_field(view_iterator *itr);
   static void increment(view_iterator *itr);
@@ -54,7 +57,8 @@ public:
       : view_info_(view_info) {
     non_leaves_.reserve(max_depth);
     non_leaves_.push_back(ref.begin());
-    access_field();
+    if (view_info_->prop != 0)
+      access_field();
   }
 
   view_iterator(const field_view_info *view_info) : view_info_(view_info) {}
-- 
2.43.0


From ae59d1fcc972003d22416a66a5ac6ad6c21ff7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:10 +0000
Subject: [PATCH 75/81] fix: view references to elements of sequences

A reference to a whole element ran beyond its indices; one to an element
which is not there was taken for the sequence itself.
---
 src/mfast/view_iterator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index e67cacb..e783c62 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -44,8 +44,11 @@ bool view_iterator_helper::access_reference(view_iterator *itr) {
           index = itr->view_info_->nest_indices[++nest_level];
           if (index == -1) {
             itr->leaf_.refers_to(*itr->non_leaves_.back());
+            finished = true;
           }
         } else {
+          // there is no such element
+          itr->leaf_.refers_to(field_cref());
           finished = true;
         }
       } else {
-- 
2.43.0


From f2e628c096f7a76c9a8139d9b1236ee5e4c76e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:10 +0000
Subject: [PATCH 76/81] fix: view references to a parent of the preceding
 reference

---
 src/mfast/view_iterator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mfast/view_iterator.cpp b/src/mfast/view_iterator.cpp
index e783c62..a3df823 100644
--- a/src/mfast/view_iterator.cpp
+++ b/src/mfast/view_iterator.cpp
@@ -13,6 +13,10 @@
 
 namespace mfast {
 bool view_iterator_helper::access_reference(view_iterator *itr) {
+  // the path may lead deeper than the reference does
+  if (itr->view_info_->nest_indices[itr->non_leaves_.size() - 1] == -1)
+    itr->non_leaves_.pop_back();
+
   while (itr->non_leaves_.back() == aggregate_cref::iterator()) {
     // if the field is nesting inside a sequence, a null
     // object could be inserted into the stack in order to
-- 
2.43.0


From 2ca657065cadbfedf7ac19de77baf32c7ecd4810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:10 +0000
Subject: [PATCH 77/81] fix: view fields without references and room for the
 indices

---
 src/mfast/xml_parser/view_info_builder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mfast/xml_parser/view_info_builder.cpp b/src/mfast/xml_parser/view_info_builder.cpp
index ee59cce..1f70065 100644
--- a/src/mfast/xml_parser/view_info_builder.cpp
+++ b/src/mfast/xml_parser/view_info_builder.cpp
@@ -208,7 +208,7 @@ void view_info_builder::build_field_view(const tinyxml2::XMLElement &element,
     // replace every instance -2 with the indeces in []
     typedef field_view_info::nest_index_t nest_index_t;
     nest_index_t *nest_indices = static_cast<nest_index_t *>(
-        alloc_.allocate(sizeof(nest_index_t) * field_indeces.size() + 1));
+        alloc_.allocate(sizeof(nest_index_t) * (field_indeces.size() + 1)));
 
     unsigned i = 0, j = 0;
     for (i = 0; i < field_indeces.size(); ++i) {
@@ -272,7 +272,8 @@ view_info_builder::build(const tinyxml2::XMLElement &element,
         grandchild = grandchild->NextSiblingElement();
       }
 
-      fields.back().prop &= ~field_view_info::CONTINUE_BIT;
+      if (!fields.empty())
+        fields.back().prop &= ~field_view_info::CONTINUE_BIT;
     }
     child = child->NextSiblingElement();
   }
-- 
2.43.0


From 57ba68122648574adb086bd516d58149546eafce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:53 +0000
Subject: [PATCH 78/81] fix: keep the arena usable when memory runs out

---
 src/mfast/arena_allocator.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index 85be8ed..de533f2 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -49,6 +49,16 @@ void *arena_allocator::allocate(std::size_t n) {
       tmp->next_ = current_list_head_;
       current_list_head_ = static_cast<memory_chunk *>(tmp);
     } else {
+      // allocate new memory chunk from the system
+      std::size_t new_chunk_size = align(
+          n + sizeof(memory_chunk) -
+              sizeof(uint64_t), // minimum size for the new block
+          default_chunk_size);  // make the size multiple of default_chunk_size
+
+      void *block = malloc(new_chunk_size);
+      if (block == nullptr)
+        throw std::bad_alloc();
+
       if (current_list_head_->size() >= 64) {
         // if current block is have plenty of free space, move it to the
         // free_list
@@ -59,15 +69,6 @@ void *arena_allocator::allocate(std::size_t n) {
         current_list_head_ =
             static_cast<memory_chunk *>(tmp_current_list_head_head);
       }
-      // allocate new memory chunk from the system
-      std::size_t new_chunk_size = align(
-          n + sizeof(memory_chunk) -
-              sizeof(uint64_t), // minimum size for the new block
-          default_chunk_size);  // make the size multiple of default_chunk_size
-
-      void *block = malloc(new_chunk_size);
-      if (block == nullptr)
-        throw std::bad_alloc();
       current_list_head_ =
           new (block) memory_chunk(new_chunk_size, current_list_head_);
     }
-- 
2.43.0


From d572de40ed054a20f6d70d917f88c089824e9c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:16 +0000
Subject: [PATCH 79/81] fix: reuse the arena's free chunks after a reset

---
 src/mfast/arena_allocator.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/mfast/arena_allocator.cpp b/src/mfast/arena_allocator.cpp
index de533f2..412c9f5 100644
--- a/src/mfast/arena_allocator.cpp
+++ b/src/mfast/arena_allocator.cpp
@@ -40,14 +40,23 @@ void *arena_allocator::allocate(std::size_t n) {
   if (current_list_head_->size() < n) {
     // current block does not have enough memory
 
-    if (free_list_head_ && free_list_head_->size() >= n) {
-      // The head of free_list is big enough,
-      // move the head of free_listto become the head of current_list
-      memory_chunk_base *tmp = free_list_head_;
-      free_list_head_ = static_cast<memory_chunk *>(free_list_head_->next_);
+    // look for a chunk in the free_list which is big enough
+    memory_chunk *prev = nullptr;
+    memory_chunk *tmp = free_list_head_;
+    while (tmp != nullptr && tmp->size() < n) {
+      prev = tmp;
+      tmp = static_cast<memory_chunk *>(tmp->next_);
+    }
+
+    if (tmp != nullptr) {
+      // move the chunk to become the head of current_list
+      if (prev == nullptr)
+        free_list_head_ = static_cast<memory_chunk *>(tmp->next_);
+      else
+        prev->next_ = tmp->next_;
 
       tmp->next_ = current_list_head_;
-      current_list_head_ = static_cast<memory_chunk *>(tmp);
+      current_list_head_ = tmp;
     } else {
       // allocate new memory chunk from the system
       std::size_t new_chunk_size = align(
@@ -99,6 +108,11 @@ bool arena_allocator::reset() {
     tmp = static_cast<memory_chunk *>(tmp->next_);
     tmp->start_ = reinterpret_cast<char *>(tmp->user_memory);
   }
+  // the chunks in the free_list may be partially used as well
+  for (memory_chunk *chunk = free_list_head_; chunk != nullptr;
+       chunk = static_cast<memory_chunk *>(chunk->next_))
+    chunk->start_ = reinterpret_cast<char *>(chunk->user_memory);
+
   // append the free_list_head_ to the tail of current_list
   tmp->next_ = free_list_head_;
   // make current_list_head_->next_ to become the new head of free_list
-- 
2.43.0


From 5c3857a58f2c9812a880e25d55d537ce237088a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:34 +0000
Subject: [PATCH 80/81] fix: keep the block when memory runs out while growing
 it

---
 src/mfast/malloc_allocator.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/mfast/malloc_allocator.cpp b/src/mfast/malloc_allocator.cpp
index 60c09ef..c70b43f 100644
--- a/src/mfast/malloc_allocator.cpp
+++ b/src/mfast/malloc_allocator.cpp
@@ -26,12 +26,10 @@ std::size_t malloc_allocator::reallocate(void *&pointer,
                                          std::size_t new_size) {
   // make the new_size at least 64 bytes
   new_size = std::max<std::size_t>(2 * new_size, 64) & (~63);
-  void *old_ptr = pointer;
-  pointer = std::realloc(pointer, new_size);
-  if (pointer == nullptr) {
-    std::free(old_ptr);
-    throw std::bad_alloc();
-  }
+  void *new_ptr = std::realloc(pointer, new_size);
+  if (new_ptr == nullptr)
+    throw std::bad_alloc(); // the old block remains valid
+  pointer = new_ptr;
   return new_size;
 }
 
-- 
2.43.0


From 4893f203a5e8410d873b9044ac4a77da45f684ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:17:45 +0000
Subject: [PATCH 81/81] fix: an unbound template reference is written to JSON
 as null

---
 src/mfast/json/json_encode.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mfast/json/json_encode.cpp b/src/mfast/json/json_encode.cpp
index aa33de2..b245875 100644
--- a/src/mfast/json/json_encode.cpp
+++ b/src/mfast/json/json_encode.cpp
@@ -178,7 +178,10 @@ public:
   }
 
   void visit(const mfast::nested_message_cref &ref, int) {
-    this->visit(mfast::aggregate_cref(ref), 0);
+    if (ref.target_instruction() == nullptr)
+      strm_ << separator_ << "null"; // not bound to any message
+    else
+      this->visit(mfast::aggregate_cref(ref), 0);
   }
 };
 
-- 
2.43.0

