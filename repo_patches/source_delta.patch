From 323d440a8275a3ebd3eb2af93a70c43542339167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:00 +0000
Subject: [PATCH 01/18] fix: reject value messages wider than 64 bits when
 converting to smaller integers

Uint128To<T> only compared the low 64 bits of its input against the maximum of
T, so a Value whose high half is non-zero was silently truncated.
---
 dpf/internal/value_type_helpers.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dpf/internal/value_type_helpers.h b/dpf/internal/value_type_helpers.h
index 1e28348..23bd345 100644
--- a/dpf/internal/value_type_helpers.h
+++ b/dpf/internal/value_type_helpers.h
@@ -168,12 +168,11 @@ Value::Integer Uint128ToValueInteger(absl::uint128 input);
 template <typename T, typename = absl::enable_if_t<is_unsigned_integer_v<T>>>
 absl::StatusOr<T> Uint128To(absl::uint128 in) {
   // Check whether value is in range if it's smaller than 128 bits.
-  if (!std::is_same<T, absl::uint128>::value &&
-      absl::Uint128Low64(in) >
-          static_cast<uint64_t>(std::numeric_limits<T>::max())) {
-    return absl::InvalidArgumentError(absl::StrCat(
-        "Value (= ", absl::Uint128Low64(in),
-        ") too large for the given type T (size ", sizeof(T), ")"));
+  if (sizeof(T) < sizeof(absl::uint128) &&
+      in > absl::uint128{std::numeric_limits<T>::max()}) {
+    return absl::InvalidArgumentError(absl::StrFormat(
+        "Value (= %d) too large for the given type T (size %d)", in,
+        sizeof(T)));
   }
   return static_cast<T>(in);
 }
-- 
2.43.0


From 59f5b4a55ba3c78b8ddc8d17994f71806cbc4f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:54 +0000
Subject: [PATCH 02/18] fix: reserve enough pseudorandom bits for nested tuples
 mixing integers modulo N with wide integers

---
 dpf/internal/value_type_helpers.cc | 60 +++++++++++++++++++++++++++---
 1 file changed, 54 insertions(+), 6 deletions(-)

diff --git a/dpf/internal/value_type_helpers.cc b/dpf/internal/value_type_helpers.cc
index 0704cce..25b6595 100644
--- a/dpf/internal/value_type_helpers.cc
+++ b/dpf/internal/value_type_helpers.cc
@@ -16,6 +16,7 @@
 
 #include <stdint.h>
 
+#include <algorithm>
 #include <cmath>
 #include <string>
 
@@ -68,6 +69,41 @@ absl::StatusOr<bool> ValueTypesAreEqual(const ValueType& lhs,
   return false;
 }
 
+namespace {
+
+// Returns true if `value_type` is or contains an IntModN.
+bool HasIntModN(const ValueType& value_type) {
+  if (value_type.type_case() == ValueType::kTuple) {
+    for (const ValueType& el : value_type.tuple().elements()) {
+      if (HasIntModN(el)) {
+        return true;
+      }
+    }
+  }
+  return value_type.type_case() == ValueType::kIntModN;
+}
+
+// Adds the bit sizes of the integers underlying `value_type` to `total`, and
+// sets `last` to the size of the last one.
+void AddElementBitsizes(const ValueType& value_type, int& total, int& last) {
+  if (value_type.type_case() == ValueType::kTuple) {
+    for (const ValueType& el : value_type.tuple().elements()) {
+      AddElementBitsizes(el, total, last);
+    }
+    return;
+  }
+  if (value_type.type_case() == ValueType::kIntModN) {
+    last = value_type.int_mod_n().base_integer().bitsize();
+  } else if (value_type.type_case() == ValueType::kXorWrapper) {
+    last = value_type.xor_wrapper().bitsize();
+  } else {
+    last = value_type.integer().bitsize();
+  }
+  total += last;
+}
+
+}  // namespace
+
 absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
                                double security_parameter) {
   if (value_type.type_case() == ValueType::kInteger) {
@@ -103,12 +139,14 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
       }
     }
     if (num_other > 0) {
-      for (int i = 0; i < num_other; ++i) {
-        double per_element_security_parameter =
-            security_parameter + std::log2(static_cast<double>(num_other));
+      double per_element_security_parameter =
+          security_parameter + std::log2(static_cast<double>(num_other));
+      for (const ValueType& el : value_type.tuple().elements()) {
+        if (el.type_case() == ValueType::kIntModN) {
+          continue;
+        }
         DPF_ASSIGN_OR_RETURN(int el_bitsize,
-                             BitsNeeded(value_type.tuple().elements(i),
-                                        per_element_security_parameter));
+                             BitsNeeded(el, per_element_security_parameter));
         bitsize_other += el_bitsize;
       }
     }
@@ -123,7 +161,17 @@ absl::StatusOr<int> BitsNeeded(const ValueType& value_type,
               modulus, security_parameter));
       bitsize_ints_mod_n = bytes_needed_ints_mod_n * 8;
     }
-    return bitsize_ints_mod_n + bitsize_other;
+    // If any element has to be sampled, sampling starts with a 128-bit block
+    // that is refilled after every element except the last one. Depending on
+    // the order of elements, this can be more than the sum computed above.
+    int bitsize_sampled = 0;
+    if (HasIntModN(value_type)) {
+      int last_bitsize = 0;
+      bitsize_sampled = 128;
+      AddElementBitsizes(value_type, bitsize_sampled, last_bitsize);
+      bitsize_sampled -= last_bitsize;
+    }
+    return std::max(bitsize_ints_mod_n + bitsize_other, bitsize_sampled);
   } else if (value_type.type_case() == ValueType::kIntModN) {
     DPF_ASSIGN_OR_RETURN(
         absl::uint128 modulus,
-- 
2.43.0


From dd6bd84ac7fbfe12eee20d12ce4a6a7a954ba08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:41 +0000
Subject: [PATCH 03/18] fix: reject evaluation contexts with an out-of-range
 partial_evaluations_level instead of reading out of bounds

---
 dpf/distributed_point_function.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index a3c42d0..e3a2f78 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -381,7 +381,18 @@ DistributedPointFunction::ComputePartialEvaluations(
   int64_t num_prefixes = static_cast<int64_t>(prefixes.size());
 
   DpfExpansion partial_evaluations;
-  int start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  // `ctx.partial_evaluations_level()` is ignored if there are no partial
+  // evaluations.
+  int start_level = 0;
+  if (ctx.partial_evaluations_size() > 0) {
+    if (ctx.partial_evaluations_level() < 0 ||
+        ctx.partial_evaluations_level() >=
+            static_cast<int>(hierarchy_to_tree_.size())) {
+      return absl::InvalidArgumentError(
+          "`ctx.partial_evaluations_level` is out of range");
+    }
+    start_level = hierarchy_to_tree_[ctx.partial_evaluations_level()];
+  }
   int stop_level = hierarchy_to_tree_[hierarchy_level];
   if (ctx.partial_evaluations_size() > 0 && start_level <= stop_level) {
     // We have partial evaluations from a tree level before the current one.
-- 
2.43.0


From adf305c0510c992703c1a13d4d4ef6dbcbf0cd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:41 +0000
Subject: [PATCH 04/18] fix: EvaluateAndApply returns INVALID_ARGUMENT for
 evaluation points outside the domain, as documented

---
 dpf/distributed_point_function.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index 6cd1c56..abdc952 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1091,6 +1091,16 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
     absl::Status status = proto_validator_->ValidateDpfKey(keys[i]);
     if (!status.ok()) return status;
   }
+  // Check if `evaluation_points` are inside the domain.
+  const int evaluation_points_bits =
+      evaluation_points_rightshift + parameters_.back().log_domain_size();
+  for (size_t i = 0; i < evaluation_points.size(); ++i) {
+    if (evaluation_points_bits < 128 &&
+        (evaluation_points[i] >> evaluation_points_bits) != 0) {
+      return absl::InvalidArgumentError(absl::StrCat(
+          "`evaluation_points[", i, "]` larger than the domain size"));
+    }
+  }
 
   const int64_t num_keys = keys.size();
   const int num_hierarchy_levels = parameters_.size();
-- 
2.43.0


From 31fe1113145e369eca1933fa87b3896df4dee288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:41 +0000
Subject: [PATCH 05/18] fix: set XorWrapper values to zero in comparison keys

---
 dcf/distributed_comparison_function.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index 40f9c36..db0250b 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -34,6 +34,8 @@ void SetToZero(Value& value) {
     value.mutable_integer()->set_value_uint64(0);
   } else if (value.value_case() == Value::kIntModN) {
     value.mutable_int_mod_n()->set_value_uint64(0);
+  } else if (value.value_case() == Value::kXorWrapper) {
+    value.mutable_xor_wrapper()->set_value_uint64(0);
   } else if (value.value_case() == Value::kTuple) {
     for (int i = 0; i < value.tuple().elements_size(); ++i) {
       SetToZero(*(value.mutable_tuple()->mutable_elements(i)));
-- 
2.43.0


From eda3e3b6ee0973fbfe4918d91ae0f5a5637176e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:41 +0000
Subject: [PATCH 06/18] fix: reject empty tuple value types, which have no size

---
 dpf/internal/proto_validator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/internal/proto_validator.cc b/dpf/internal/proto_validator.cc
index 678b3de..f01aced 100644
--- a/dpf/internal/proto_validator.cc
+++ b/dpf/internal/proto_validator.cc
@@ -270,6 +270,9 @@ absl::Status ProtoValidator::ValidateValueType(const ValueType& value_type) {
   if (value_type.type_case() == ValueType::kInteger) {
     return ValidateIntegerType(value_type.integer());
   } else if (value_type.type_case() == ValueType::kTuple) {
+    if (value_type.tuple().elements().empty()) {
+      return absl::InvalidArgumentError("Tuples must not be empty");
+    }
     for (const ValueType& el : value_type.tuple().elements()) {
       DPF_RETURN_IF_ERROR(ValidateValueType(el));
     }
-- 
2.43.0


From 18b4f1f43016509efe62edd33bcf1acd77bca6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 07/18] fix: EvaluateAndApply no longer aborts (allocation of
 zero bytes) when called without keys

---
 dpf/distributed_point_function.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dpf/distributed_point_function.h b/dpf/distributed_point_function.h
index abdc952..bbe3098 100644
--- a/dpf/distributed_point_function.h
+++ b/dpf/distributed_point_function.h
@@ -1103,6 +1103,9 @@ absl::Status DistributedPointFunction::EvaluateAndApply(
   }
 
   const int64_t num_keys = keys.size();
+  if (num_keys == 0) {
+    return absl::OkStatus();  // Nothing to do.
+  }
   const int num_hierarchy_levels = parameters_.size();
   DpfExpansion eval;
   eval.control_bits.resize(num_keys);
-- 
2.43.0


From aa30dbe4b0c64ffe32dd096f38ba452c82dd4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 08/18] fix: the interval containment gate no longer aborts
 (allocation of zero bytes) without keys or intervals

---
 dcf/fss_gates/multiple_interval_containment.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 174d546..817f178 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -229,6 +229,9 @@ MultipleIntervalContainmentGate::BatchEval(
   }
 
   int num_intervals = mic_parameters_.intervals_size();
+  if (keys.size() == 0 || num_intervals == 0) {
+    return std::vector<absl::uint128>{};  // Nothing to do.
+  }
   std::vector<absl::uint128> p(num_intervals), q(num_intervals),
       q_prime(num_intervals), s_p(keys.size() * num_intervals),
       s_q_prime(keys.size() * num_intervals);
-- 
2.43.0


From 7f461389cf338403a38612d8d4c24eadf01ea973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 09/18] fix: reject interval containment keys with a wrong
 number of output mask shares instead of reading out of bounds

---
 dcf/fss_gates/multiple_interval_containment.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 817f178..52fc06d 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -229,6 +229,13 @@ MultipleIntervalContainmentGate::BatchEval(
   }
 
   int num_intervals = mic_parameters_.intervals_size();
+  for (int i = 0; i < keys.size(); i++) {
+    if (keys[i].output_mask_share_size() != num_intervals) {
+      return absl::InvalidArgumentError(
+          "Count of output mask shares should be equal to the number of "
+          "intervals");
+    }
+  }
   if (keys.size() == 0 || num_intervals == 0) {
     return std::vector<absl::uint128>{};  // Nothing to do.
   }
-- 
2.43.0


From 4ddbe6e6269732ed0df76e5c3d4c46e0b2364bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 10/18] fix: interval bounds given as 64-bit values are used
 instead of being read as zero

---
 .../multiple_interval_containment.cc          | 37 ++++++++++---------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/dcf/fss_gates/multiple_interval_containment.cc b/dcf/fss_gates/multiple_interval_containment.cc
index 52fc06d..c6914e4 100644
--- a/dcf/fss_gates/multiple_interval_containment.cc
+++ b/dcf/fss_gates/multiple_interval_containment.cc
@@ -29,6 +29,7 @@
 #include "dcf/fss_gates/prng/basic_rng.h"
 #include "dpf/distributed_point_function.pb.h"
 #include "dpf/internal/maybe_deref_span.h"
+#include "dpf/internal/value_type_helpers.h"
 #include "dpf/status_macros.h"
 
 namespace distributed_point_functions {
@@ -56,13 +57,13 @@ MultipleIntervalContainmentGate::Create(const MicParameters& mic_parameters) {
       return absl::InvalidArgumentError("Intervals should be non-empty");
     }
 
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters.intervals(i).upper_bound()));
 
     // Return error if the intervals are not valid group elements.
     if (p < 0 || p >= N) {
@@ -154,13 +155,13 @@ absl::StatusOr<std::pair<MicKey, MicKey>> MultipleIntervalContainmentGate::Gen(
 
   // Line 3
   for (int i = 0; i < mic_parameters_.intervals_size(); i++) {
-    absl::uint128 p = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 p,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).lower_bound()));
 
-    absl::uint128 q = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(absl::uint128 q,
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).upper_bound()));
 
     // Line 4
     absl::uint128 q_prime = (q + 1) % N;
@@ -253,13 +254,13 @@ MultipleIntervalContainmentGate::BatchEval(
   // https://eprint.iacr.org/2020/1392 Fig. 14 Eval procedure.
   for (int i = 0; i < num_intervals; ++i) {
     // Line 2
-    p[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).lower_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).lower_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(p[i],
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).lower_bound()));
 
-    q[i] = absl::MakeUint128(
-        mic_parameters_.intervals(i).upper_bound().value_uint128().high(),
-        mic_parameters_.intervals(i).upper_bound().value_uint128().low());
+    DPF_ASSIGN_OR_RETURN(q[i],
+                         dpf_internal::ValueIntegerToUint128(
+                             mic_parameters_.intervals(i).upper_bound()));
 
     // Line 3
     q_prime[i] = (q[i] + 1) % N;
-- 
2.43.0


From 25706bd6a7acaf43c75fd167dde132c3e200b2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:11 +0000
Subject: [PATCH 11/18] fix: reject comparison functions over more than 128
 bits, whose points cannot be represented

---
 dcf/distributed_comparison_function.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dcf/distributed_comparison_function.cc b/dcf/distributed_comparison_function.cc
index db0250b..01646cf 100644
--- a/dcf/distributed_comparison_function.cc
+++ b/dcf/distributed_comparison_function.cc
@@ -55,6 +55,10 @@ DistributedComparisonFunction::Create(const DcfParameters& parameters) {
   if (parameters.parameters().log_domain_size() < 1) {
     return absl::InvalidArgumentError("A DCF must have log_domain_size >= 1");
   }
+  // Points and alpha are 128-bit integers.
+  if (parameters.parameters().log_domain_size() > 128) {
+    return absl::InvalidArgumentError("A DCF must have log_domain_size <= 128");
+  }
 
   // Create parameter vector for the incremental DPF.
   std::vector<DpfParameters> dpf_parameters(
-- 
2.43.0


From e948d622e9f11ad6d8d9307b3ec0f51a394d0589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:03 +0000
Subject: [PATCH 12/18] fix: GenerateSeed reports a failure of the random
 source instead of returning a zero seed

---
 pir/prng/aes_128_ctr_seeded_prng.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pir/prng/aes_128_ctr_seeded_prng.cc b/pir/prng/aes_128_ctr_seeded_prng.cc
index 05d4f71..017cfb0 100644
--- a/pir/prng/aes_128_ctr_seeded_prng.cc
+++ b/pir/prng/aes_128_ctr_seeded_prng.cc
@@ -45,7 +45,10 @@ std::string OpenSSLErrorString() {
 
 absl::StatusOr<std::string> Aes128CtrSeededPrng::GenerateSeed() {
   std::string seed(SeedSize(), '\0');
-  RAND_bytes(reinterpret_cast<uint8_t*>(&seed[0]), SeedSize());
+  if (1 != RAND_bytes(reinterpret_cast<uint8_t*>(&seed[0]), SeedSize())) {
+    return absl::InternalError(absl::StrCat(
+        "RAND_bytes failed with error message: ", OpenSSLErrorString()));
+  }
   return seed;
 }
 
-- 
2.43.0


From 260460d04209b10482399b1b1b39ed474c7a1ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:03 +0000
Subject: [PATCH 13/18] fix: key generation fails instead of using predictable
 seeds when the random source fails

---
 dpf/distributed_point_function.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dpf/distributed_point_function.cc b/dpf/distributed_point_function.cc
index e3a2f78..9e46b0a 100644
--- a/dpf/distributed_point_function.cc
+++ b/dpf/distributed_point_function.cc
@@ -691,8 +691,12 @@ DistributedPointFunction::GenerateKeysIncremental(
   //
   // Line 2: Sample random seeds for each party.
   std::array<absl::uint128, 2> seeds;
-  RAND_bytes(reinterpret_cast<uint8_t*>(&seeds[0]), sizeof(absl::uint128));
-  RAND_bytes(reinterpret_cast<uint8_t*>(&seeds[1]), sizeof(absl::uint128));
+  if (1 != RAND_bytes(reinterpret_cast<uint8_t*>(&seeds[0]),
+                      sizeof(absl::uint128)) ||
+      1 != RAND_bytes(reinterpret_cast<uint8_t*>(&seeds[1]),
+                      sizeof(absl::uint128))) {
+    return absl::InternalError("Failed to generate random seeds");
+  }
   keys[0].mutable_seed()->set_high(absl::Uint128High64(seeds[0]));
   keys[0].mutable_seed()->set_low(absl::Uint128Low64(seeds[0]));
   keys[1].mutable_seed()->set_high(absl::Uint128High64(seeds[1]));
-- 
2.43.0


From b4e6fcdc9b72e5852d24a7ed2198535cc8d954cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:58 +0000
Subject: [PATCH 14/18] fix: a refused insertion into a cuckoo hash table no
 longer drops a previously inserted element

---
 pir/hashing/cuckoo_hash_table.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pir/hashing/cuckoo_hash_table.cc b/pir/hashing/cuckoo_hash_table.cc
index 4a81655..aba31f8 100644
--- a/pir/hashing/cuckoo_hash_table.cc
+++ b/pir/hashing/cuckoo_hash_table.cc
@@ -66,6 +66,8 @@ absl::StatusOr<std::unique_ptr<CuckooHashTable>> CuckooHashTable::Create(
 
 absl::Status CuckooHashTable::Insert(absl::string_view input) {
   std::string current_element(input);
+  // Buckets whose element was evicted, in order.
+  std::vector<int> evictions;
   for (int i = 0; i < max_relocations_; i++) {
     // Choose a random hash function and hash the current element.
     int hash = hash_functions_[random_hash_function_(rng_)](current_element,
@@ -73,6 +75,7 @@ absl::Status CuckooHashTable::Insert(absl::string_view input) {
     if (table_[hash]) {
       // If bucket is full, evict element and re-insert it recursively.
       std::swap(current_element, *table_[hash]);
+      evictions.push_back(hash);
     } else {
       // Otherwise just insert our current element and return.
       table_[hash] = std::move(current_element);
@@ -82,6 +85,10 @@ absl::Status CuckooHashTable::Insert(absl::string_view input) {
   // If we're still here after max_relocations_, put current_element on the
   // stash.
   if (max_stash_size_ && stash_.size() >= *max_stash_size_) {
+    // Undo all evictions, so that no previously inserted element is lost.
+    for (auto it = evictions.rbegin(); it != evictions.rend(); ++it) {
+      std::swap(current_element, *table_[*it]);
+    }
     return absl::InternalError("Cannot insert element: stash is full");
   } else {
     stash_.push_back(std::move(current_element));
-- 
2.43.0


From f30c8e8964953ca1e538679dae98de1d2b5427ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:45 +0000
Subject: [PATCH 15/18] fix: simple hash tables respect their maximum bucket
 size when hash functions collide

---
 pir/hashing/simple_hash_table.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pir/hashing/simple_hash_table.cc b/pir/hashing/simple_hash_table.cc
index b03c19e..25af6da 100644
--- a/pir/hashing/simple_hash_table.cc
+++ b/pir/hashing/simple_hash_table.cc
@@ -14,6 +14,8 @@
 
 #include "pir/hashing/simple_hash_table.h"
 
+#include <algorithm>
+#include <cstddef>
 #include <memory>
 #include <string>
 #include <utility>
@@ -56,7 +58,11 @@ absl::Status SimpleHashTable::Insert(absl::string_view input) {
   std::vector<int> hashes(hash_functions_.size());
   for (int i = 0; i < hash_functions_.size(); i++) {
     hashes[i] = hash_functions_[i](input, num_buckets_);
-    if (max_bucket_size_ && table_[hashes[i]].size() >= *max_bucket_size_) {
+    // Several hash functions may map `input` to the same bucket.
+    const size_t bucket_size =
+        table_[hashes[i]].size() +
+        std::count(hashes.begin(), hashes.begin() + i, hashes[i]);
+    if (max_bucket_size_ && bucket_size >= *max_bucket_size_) {
       return absl::InternalError(
           "Cannot insert element: maximum bucket size reached");
     }
-- 
2.43.0


From bfdf44f1d200224a8165000c1b95b9f653604b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:55 +0000
Subject: [PATCH 16/18] fix: building a cuckoo hashed database fails instead of
 silently dropping records that end up in the stash

---
 pir/cuckoo_hashed_dpf_pir_database.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pir/cuckoo_hashed_dpf_pir_database.cc b/pir/cuckoo_hashed_dpf_pir_database.cc
index 8331377..b8fead3 100644
--- a/pir/cuckoo_hashed_dpf_pir_database.cc
+++ b/pir/cuckoo_hashed_dpf_pir_database.cc
@@ -148,6 +148,11 @@ CuckooHashedDpfPirDatabase::Builder::Build() {
     }
     DPF_RETURN_IF_ERROR(cuckoo_hasher->Insert(key));
   }
+  if (!cuckoo_hasher->GetStash().empty()) {
+    // Clients do not query the stash, so all records must be in the table.
+    return absl::InternalError(
+        "Could not place all records in the cuckoo hash table");
+  }
 
   // For each key in the cuckoo hash table, insert it into key_database_ and
   // the corresponding value into value_database_.
-- 
2.43.0


From 90645af139b3fa399dca6bc54f6617dffd3bfbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:55 +0000
Subject: [PATCH 17/18] fix: the cuckoo hashing client no longer reports absent
 keys that extend a stored key (or are empty) as present

---
 pir/cuckoo_hashing_sparse_dpf_pir_client.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
index 9ed0d3b..a682943 100644
--- a/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
+++ b/pir/cuckoo_hashing_sparse_dpf_pir_client.cc
@@ -44,6 +44,7 @@ namespace {
 // zero bytes.
 bool IsPrefixPaddedWithZeros(absl::string_view input,
                              absl::string_view prefix) {
+  if (input.size() < prefix.size()) return false;
   for (int i = 0; i < input.size(); ++i) {
     if (i < prefix.size()) {
       if (input[i] != prefix[i]) return false;
@@ -204,12 +205,13 @@ CuckooHashingSparseDpfPirClient::HandleResponse(
   for (int i = 0; i < result.size(); ++i) {
     for (int j = 0; j < hash_functions_.size(); ++j) {
       int raw_index = 2 * (hash_functions_.size() * i + j);
-      if (!result[i].has_value() &&
-          IsPrefixPaddedWithZeros(
-              raw_responses[raw_index],
-              request_client_state
-                  .cuckoo_hashing_sparse_dpf_pir_request_client_state()
-                  .query_strings(i))) {
+      const std::string& query =
+          request_client_state
+              .cuckoo_hashing_sparse_dpf_pir_request_client_state()
+              .query_strings(i);
+      // The empty key is never present; it would match any empty bucket.
+      if (!result[i].has_value() && !query.empty() &&
+          IsPrefixPaddedWithZeros(raw_responses[raw_index], query)) {
         result[i] = raw_responses[raw_index + 1];
       }
     }
-- 
2.43.0


From 46cb0e0d7cd5dfa7e5ed1a3932ab0b435734433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:55 +0000
Subject: [PATCH 18/18] fix: the simple hashing client does not read values
 missing from a malformed bucket

---
 pir/simple_hashing_sparse_dpf_pir_client.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pir/simple_hashing_sparse_dpf_pir_client.cc b/pir/simple_hashing_sparse_dpf_pir_client.cc
index 33f571c..bfc7ee2 100644
--- a/pir/simple_hashing_sparse_dpf_pir_client.cc
+++ b/pir/simple_hashing_sparse_dpf_pir_client.cc
@@ -202,7 +202,7 @@ SimpleHashingSparseDpfPirClient::HandleResponse(
         request_client_state
             .simple_hashing_sparse_dpf_pir_request_client_state()
             .query_strings(i);
-    for (int j = 0; j < bucket.keys_size(); ++j) {
+    for (int j = 0; j < bucket.keys_size() && j < bucket.values_size(); ++j) {
       if (bucket.keys(j) == query) {
         result[i] = bucket.values(j);
         break;
-- 
2.43.0

