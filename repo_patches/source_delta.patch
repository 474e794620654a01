From 5941d3d0bacc49922c2f50f6dd5585c6b8ca47d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 1/8] fix: flip the positive polarity bit only when the state
 was incremented

---
 lib/src/tsetlini_algo_bitwise.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 1a1c0a6..393cc24 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -626,11 +626,11 @@ void block2(
                 if (ta_state_pos_j[fidx] < number_of_states - 1)
                 {
                     ta_state_pos_j[fidx]++;
-                }
 
-                if (ta_state_pos_j[fidx] == 0)
-                {
-                    ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    if (ta_state_pos_j[fidx] == 0)
+                    {
+                        ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    }
                 }
 
             }
-- 
2.43.0


From 4813596b4d6e001fb71842a290d7604081617938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:43 +0000
Subject: [PATCH 2/8] fix: reset clause weights when the automata are
 initialised again

---
 lib/src/ta_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ta_state.cpp b/lib/src/ta_state.cpp
index 6ad869c..9301ba3 100644
--- a/lib/src/ta_state.cpp
+++ b/lib/src/ta_state.cpp
@@ -67,7 +67,7 @@ TAState::initialize(
 
     if (weighted == true)
     {
-        state.weights.resize(value_of(number_of_clause_outputs));
+        state.weights.assign(value_of(number_of_clause_outputs), 0);
     }
 }
 
@@ -114,7 +114,7 @@ TAStateWithPolarity::initialize(
 
     if (weighted == true)
     {
-        state.weights.resize(value_of(number_of_clause_outputs));
+        state.weights.assign(value_of(number_of_clause_outputs), 0);
     }
 }
 
-- 
2.43.0


From 1490d769ef3b46a03dca8ed753001efdd6b8f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 3/8] fix: C16 berHu loss is continuous and non-negative (was
 x^2 - C1^2 - C1 above C1)

---
 lib/src/loss_fn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/loss_fn.cpp b/lib/src/loss_fn.cpp
index 9ff1c75..44e2c28 100644
--- a/lib/src/loss_fn.cpp
+++ b/lib/src/loss_fn.cpp
@@ -35,7 +35,7 @@ std::function<float(float)> make_loss_fn(loss_fn_name_t const & name, loss_fn_C1
                 }
                 else
                 {
-                    return x * x - value_of(C1 * C1 + C1);
+                    return x * x - value_of(C1 * C1 - C1);
                 }
             };
     }
-- 
2.43.0


From 482af30bd70cdc0fc7418f11a41eafd5d39fe598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 4/8] fix: C23 negative normal draws count as zero successes
 instead of converting to unsigned

---
 lib/src/box_muller.hpp        | 5 +++--
 lib/src/box_muller_approx.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/src/box_muller.hpp b/lib/src/box_muller.hpp
index ffea5f7..dc61d84 100644
--- a/lib/src/box_muller.hpp
+++ b/lib/src/box_muller.hpp
@@ -50,9 +50,10 @@ static float normal(float mean, float variance, PRNG & frng)
 template<typename PRNG>
 unsigned int binomial(unsigned int n, float p, PRNG & frng)
 {
-    unsigned int const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), frng));
+    float const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), frng));
 
-    return std::clamp(rv, 0u, n);
+    // negative draws must be clamped before converting to an unsigned integer
+    return rv > 0.f ? (rv < n ? static_cast<unsigned int>(rv) : n) : 0u;
 }
 
 
diff --git a/lib/src/box_muller_approx.cpp b/lib/src/box_muller_approx.cpp
index 8bdf71f..ca86df0 100644
--- a/lib/src/box_muller_approx.cpp
+++ b/lib/src/box_muller_approx.cpp
@@ -98,9 +98,10 @@ static float normal(float mean, float variance, PRNG & irng)
 template<typename PRNG>
 unsigned int binomial(unsigned int n, float p, PRNG & irng)
 {
-    unsigned int const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
+    float const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
 
-    return std::clamp(rv, 0u, n);
+    // negative draws must be clamped before converting to an unsigned integer
+    return rv > 0.f ? (rv < n ? static_cast<unsigned int>(rv) : n) : 0u;
 }
 
 
-- 
2.43.0


From ab7b6e136bc6a8bb31006065db4c094dbba46a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:11 +0000
Subject: [PATCH 5/8] fix: C09 feedback probabilities do not overflow for
 thresholds above 2^30

---
 lib/src/tsetlini_algo_classic.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 8b1563b..93b8bf2 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -685,9 +685,10 @@ void calculate_classifier_feedback_to_clauses(
     threshold_t const threshold,
     TFRNG & fgen)
 {
-    const auto THR2_inv = (ONE / (value_of(threshold) * 2));
-    const auto THR_pos = THR2_inv * (value_of(threshold) - target_label_votes);
-    const auto THR_neg = THR2_inv * (value_of(threshold) + opposite_label_votes);
+    // 64-bit arithmetic, because twice the threshold may not fit an int
+    const auto THR2_inv = (ONE / (std::int64_t{value_of(threshold)} * 2));
+    const auto THR_pos = THR2_inv * (std::int64_t{value_of(threshold)} - target_label_votes);
+    const auto THR_neg = THR2_inv * (std::int64_t{value_of(threshold)} + opposite_label_votes);
 
     std::fill(feedback_to_clauses.begin(), feedback_to_clauses.end(), No_Feedback);
 
-- 
2.43.0


From e6f55eeec87297f4179ae8865a95c72d335bbe91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:50 +0000
Subject: [PATCH 6/8] fix: C12 fitting a classifier with a single label is a
 value error instead of a division by zero

---
 lib/src/tsetlini.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 37fb452..43ab530 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -762,6 +762,11 @@ fit_classifier_impl(
         return sm;
     }
 
+    if (number_of_labels < 2)
+    {
+        return {StatusCode::S_VALUE_ERROR, "At least two labels are needed to fit a classifier"};
+    }
+
     // Let it crash for now
 //    validate_params();
 
-- 
2.43.0


From 9e3362d40ed0435ff670047cf2d020c8b9a9e00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 7/8] fix: C14 parameter values of the wrong kind or beyond int
 are reported as bad JSON

---
 lib/src/tsetlini_params.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 8bda3a9..116aca8 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -127,6 +127,7 @@ assert_json_dictionary(json const & js)
 static
 Either<status_message_t, params_t>
 json_to_params(json const & js)
+try
 {
     params_t rv;
 
@@ -146,6 +147,11 @@ json_to_params(json const & js)
             (key == "max_weight")
             )
         {
+            if (value.is_number() and not (std::abs(value.get<double>()) <= std::numeric_limits<int>::max()))
+            {
+                return Either<status_message_t, params_t>::leftOf({S_BAD_JSON, "Value of [" + key + "] does not fit an integer\n"});
+            }
+
             rv[key] = value.get<int>();
         }
         else if (key == "random_state")
@@ -182,6 +188,10 @@ json_to_params(json const & js)
 
     return Either<status_message_t, params_t>::rightOf(rv);
 }
+catch (json::exception const & ex)
+{
+    return Either<status_message_t, params_t>::leftOf({S_BAD_JSON, ex.what()});
+}
 
 
 static
-- 
2.43.0


From 1772d22a48c498816974c4d9aca3b548ee8a936f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:51 +0000
Subject: [PATCH 8/8] fix: C12 padding check of bit vectors that own more
 blocks than their bits need

---
 lib/src/tsetlini.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 43ab530..b324a43 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -70,14 +70,14 @@ bool check_clear_padding(bit_vector<T> const & vec)
 {
     using block_type = typename bit_vector<T>::block_type;
 
-    auto const n_blocks = vec.capacity_blocks();
+    auto const n_blocks = vec.content_blocks();
     auto const padding_nbits = n_blocks * vec.block_bits - vec.size();
 
     if (padding_nbits != 0)
     {
         auto const mask = block_type(-1) << (vec.block_bits - padding_nbits);
 
-        return (vec.m_vector.back() & mask) == 0;
+        return (vec.m_vector[n_blocks - 1] & mask) == 0;
     }
 
     return true;
-- 
2.43.0

