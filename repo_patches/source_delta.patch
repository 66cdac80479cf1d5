From 7cf84f7987a4c88533d9a2140434e3d128c0cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 01/67] fix: keep BetaBernoulli's success count as a double,
 since weights can be fractional

---
 cxx/distributions/beta_bernoulli.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/beta_bernoulli.hh b/cxx/distributions/beta_bernoulli.hh
index 1dfe007..c4c3f6a 100644
--- a/cxx/distributions/beta_bernoulli.hh
+++ b/cxx/distributions/beta_bernoulli.hh
@@ -11,7 +11,7 @@ class BetaBernoulli : public Distribution<bool> {
  public:
   double alpha = 1;  // hyperparameter
   double beta = 1;   // hyperparameter
-  int s = 0;         // sum of observed values
+  double s = 0;      // sum of (weighted) observed values
 
   std::vector<double> alpha_grid;
   std::vector<double> beta_grid;
-- 
2.43.0


From 73e6ee9c9241d28c86f7fdd609cc4246ed2ee0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 02/67] fix: do not truncate fractional counts in
 DirichletCategorical::sample

---
 cxx/distributions/dirichlet_categorical.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/dirichlet_categorical.cc b/cxx/distributions/dirichlet_categorical.cc
index 7cb683b..8fb61e3 100644
--- a/cxx/distributions/dirichlet_categorical.cc
+++ b/cxx/distributions/dirichlet_categorical.cc
@@ -35,7 +35,7 @@ double DirichletCategorical::logp_score() const {
 int DirichletCategorical::sample(std::mt19937* prng) {
   std::vector<double> weights(counts.size());
   std::transform(counts.begin(), counts.end(), weights.begin(),
-                 [&](size_t y) -> double { return y + alpha; });
+                 [&](double y) -> double { return y + alpha; });
   return choice(weights, prng);
 }
 
-- 
2.43.0


From 0c05978db0b86569e06a03e7bb5f3ac88d920309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 03/67] fix: Bigram::sample must not change counts when it hits
 max_length

---
 cxx/distributions/bigram.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index f506cd7..5bcbd33 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -89,6 +89,8 @@ std::string Bigram::sample(std::mt19937* prng) {
   while (current_ind != num_chars) {
     sampled_string += index_to_char(current_ind);
     if (sampled_string.length() == max_length) {
+      // unincorporate below also removes the transition to the stop symbol.
+      transition_dists[current_ind].incorporate(num_chars);
       break;
     }
     next_ind = transition_dists[current_ind].sample(prng);
-- 
2.43.0


From be63e26d51bcdad332e5a704144d450afcc2de02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 04/67] fix: the first table of an empty CRP has weight alpha,
 so that its probability is one

---
 cxx/distributions/crp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/crp.cc b/cxx/distributions/crp.cc
index 200c423..97a32a9 100644
--- a/cxx/distributions/crp.cc
+++ b/cxx/distributions/crp.cc
@@ -79,7 +79,7 @@ int CRP::max_table() const {
 std::map<int, double> CRP::tables_weights() const {
   std::map<int, double> dist;
   if (N == 0) {
-    dist[0] = 1;
+    dist[0] = alpha;
     return dist;
   }
   for (const auto& [table, customers] : tables) {
-- 
2.43.0


From ff5a82583153ee37a7c35162372b02da46329a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 05/67] fix: forget values with no remaining weight in
 NonconjugateDistribution

---
 cxx/distributions/nonconjugate.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxx/distributions/nonconjugate.hh b/cxx/distributions/nonconjugate.hh
index 614e21b..41b9c07 100644
--- a/cxx/distributions/nonconjugate.hh
+++ b/cxx/distributions/nonconjugate.hh
@@ -30,7 +30,11 @@ class NonconjugateDistribution : public Distribution<T> {
   virtual void set_latents(const std::vector<double>& v) = 0;
 
   void incorporate(const T& x, double weight = 1.0) {
-    seen[x] += weight;
+    double& count = seen[x];
+    count += weight;
+    if (count == 0.0) {
+      seen.erase(x);
+    }
     this->N += weight;
   };
 
-- 
2.43.0


From 1e4a670cbd9916e7d4d8a9cfe004b2d3c5190291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 06/67] fix: Normal::logp must not perturb the sufficient
 statistics

---
 cxx/distributions/normal.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cxx/distributions/normal.cc b/cxx/distributions/normal.cc
index 17a454c..b35e195 100644
--- a/cxx/distributions/normal.cc
+++ b/cxx/distributions/normal.cc
@@ -41,9 +41,15 @@ double Normal::logp(const double& x) const {
   posterior_hypers(&unused_mprime, &sprime);
 
   double sprime2;
+  const double old_N = N;
+  const double old_mean = mean;
+  const double old_var = var;
   const_cast<Normal*>(this)->incorporate(x);
   posterior_hypers(&unused_mprime, &sprime2);
-  const_cast<Normal*>(this)->unincorporate(x);
+  // Restore the statistics exactly, unincorporate(x) would round them.
+  const_cast<Normal*>(this)->N = old_N;
+  const_cast<Normal*>(this)->mean = old_mean;
+  const_cast<Normal*>(this)->var = old_var;
 
   return -0.5 * log(M_2PI) + logZ(r + N + 1, v + N + 1, sprime2) -
          logZ(r + N, v + N, sprime);
-- 
2.43.0


From 2d4a9b5353455cfa1115047e5de1a86c1128c206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 07/67] fix: Skellam::logp overflowed, underflowed or threw for
 moderate rates and values

---
 cxx/distributions/skellam.cc | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/cxx/distributions/skellam.cc b/cxx/distributions/skellam.cc
index ee3f795..a212632 100644
--- a/cxx/distributions/skellam.cc
+++ b/cxx/distributions/skellam.cc
@@ -2,6 +2,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <numbers>
 #include "util_math.hh"
 
 double lognormal_logp(double x, double mean, double stddev) {
@@ -11,9 +12,36 @@ double lognormal_logp(double x, double mean, double stddev) {
 }
 
 double Skellam::logp(const int&x) const {
-  return -mu1 - mu2 + (x / 2.0) * std::log(mu1 / mu2)
-      // TODO(thomaswc): Replace this with something more numerically stable.
-      + std::log(std::cyl_bessel_i(std::abs(x), 2.0 * std::sqrt(mu1 * mu2)));
+  // log of exp(-mu1 - mu2) (mu1/mu2)^(x/2) I_|x|(2 sqrt(mu1 mu2)), where the
+  // Bessel function itself would overflow or underflow for moderate arguments.
+  const double nu = std::abs(static_cast<double>(x));
+  const double mu = x >= 0 ? mu1 : mu2;
+  const double w = std::hypot(nu, 2.0 * std::sqrt(mu1) * std::sqrt(mu2));
+  if (w < 200.0) {
+    // The power series sum_k mu1^(k+x) mu2^k / (k! (k+x)!), whose terms are
+    // all positive.
+    const double q = mu1 * mu2;
+    double term = 1.0;
+    double sum = 1.0;
+    for (double k = 1.0; term > 1e-18 * sum; k += 1.0) {
+      term *= q / (k * (k + nu));
+      sum += term;
+    }
+    return -mu1 - mu2 + nu * std::log(mu) - std::lgamma(nu + 1.0)
+        + std::log(sum);
+  }
+  // The uniform asymptotic expansion, https://dlmf.nist.gov/10.41#E3, whose
+  // next term is smaller than 1e-9 here.
+  const double p = (nu / w) * (nu / w);
+  const double u1 = (3.0 - 5.0 * p) / 24.0;
+  const double u2 = (81.0 + p * (-462.0 + p * 385.0)) / 1152.0;
+  const double u3 = (30375.0 + p * (-369603.0 + p * (765765.0
+                     - p * 425425.0))) / 414720.0;
+  const double delta = mu1 - mu2;
+  return (nu - delta) * (nu + delta) / (w + mu1 + mu2)
+      + nu * std::log(2.0 * mu / (nu + w))
+      - 0.5 * std::log(2.0 * std::numbers::pi * w)
+      + std::log1p((u1 + (u2 + u3 / w) / w) / w);
 }
 
 int Skellam::sample(std::mt19937* prng) {
-- 
2.43.0


From 3da0c61767d3d0af4c5e1baad41ee797c1862383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 08/67] fix: StringNat::nearest must return a string the
 distribution accepts

---
 cxx/distributions/string_nat.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/distributions/string_nat.hh b/cxx/distributions/string_nat.hh
index 5acd2d9..1ceef8a 100644
--- a/cxx/distributions/string_nat.hh
+++ b/cxx/distributions/string_nat.hh
@@ -18,7 +18,10 @@ class StringNat : public Bigram {
   std::string nearest(const std::string& x) const {
     std::string s;
     for (const char& c : x) {
-      if (std::isdigit(c)) {
+      if (max_length > 0 && s.length() == max_length) {
+        break;
+      }
+      if (c >= min_char && c <= max_char) {
         s += c;
       }
     }
-- 
2.43.0


From e9680930afcced3015646a62c41c23c5165800ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:21 +0000
Subject: [PATCH 09/67] fix: Bigram::nearest must return a string the
 distribution accepts

---
 cxx/distributions/bigram.cc | 13 +++++++++++++
 cxx/distributions/bigram.hh |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/cxx/distributions/bigram.cc b/cxx/distributions/bigram.cc
index 5bcbd33..c882013 100644
--- a/cxx/distributions/bigram.cc
+++ b/cxx/distributions/bigram.cc
@@ -102,6 +102,19 @@ std::string Bigram::sample(std::mt19937* prng) {
   return sampled_string;
 }
 
+std::string Bigram::nearest(const std::string& x) const {
+  std::string s;
+  for (const char& c : x) {
+    if (max_length > 0 && s.length() == max_length) {
+      break;
+    }
+    if (c >= min_char && c <= max_char) {
+      s += c;
+    }
+  }
+  return s;
+}
+
 void Bigram::set_alpha(double alphat) {
   alpha = alphat;
   for (auto& trans_dist : transition_dists) {
diff --git a/cxx/distributions/bigram.hh b/cxx/distributions/bigram.hh
index 7245012..5bb70b4 100644
--- a/cxx/distributions/bigram.hh
+++ b/cxx/distributions/bigram.hh
@@ -47,4 +47,6 @@ class Bigram : public Distribution<std::string> {
   void set_alpha(double alphat);
 
   void transition_hyperparameters(std::mt19937* prng);
+
+  std::string nearest(const std::string& x) const;
 };
-- 
2.43.0


From 3584bc9daa79a893b57dbaeaca58489b2981e697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 10/67] fix: linspace with a single point returned NaN

---
 cxx/util_math.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxx/util_math.cc b/cxx/util_math.cc
index ea8dd54..1f02411 100644
--- a/cxx/util_math.cc
+++ b/cxx/util_math.cc
@@ -14,7 +14,8 @@ double lbeta(double z, double w) {
 
 std::vector<double> linspace(double start, double stop, int num,
                              bool endpoint) {
-  double step = (stop - start) / (num - endpoint);
+  // A single point is always start.
+  double step = num > 1 ? (stop - start) / (num - endpoint) : 0.0;
   std::vector<double> v;
   for (int i = 0; i < num; i++) {
     v.push_back(start + step * i);
-- 
2.43.0


From 683c90d42fb42b97c32678ce14e716ca08d63b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 11/67] fix: BigramStringEmission::log_prob_distance used the
 first clean character as the context

---
 cxx/emissions/bigram_string.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 85d92df..ce0d194 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -57,9 +57,10 @@ std::string BigramStringEmission::category_to_char(int category) {
 
 double BigramStringEmission::log_prob_distance(const StrAlignment& alignment, double old_cost) {
   assert(!alignment.align_pieces.empty());
+  // The context of the last piece is the last clean character before it.
   std::string insertion_context = "";
-  for (auto it = alignment.align_pieces.rbegin();
-       it != alignment.align_pieces.rend();
+  for (auto it = std::next(alignment.align_pieces.rbegin());
+       it != alignment.align_pieces.rend() && insertion_context.empty();
        ++it) {
     switch (it->index()) {
       case 0: // Deletion
-- 
2.43.0


From 00d0bbc00978416e55450928dc9314cdf8ab6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 12/67] fix: BigramStringEmission gave more weight to less
 likely alignments

---
 cxx/emissions/bigram_string.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index ce0d194..86ce421 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -130,8 +130,11 @@ void BigramStringEmission::incorporate(
                   &alignments);
 
   double total_prob = 0.0;
+  const double min_cost = alignments[0].cost;
   for (auto& a : alignments) {
-    a.cost = exp(a.cost);  // Turn all costs into non-log probabilities
+    // Turn all costs, which are negative log probabilities, into non-log
+    // probabilities (up to a common factor, to avoid underflow).
+    a.cost = exp(min_cost - a.cost);
     total_prob += a.cost;
   }
 
-- 
2.43.0


From 9d3a66a62b9c7ab1dbc7a46d383627f0e63c3121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 13/67] fix: BigramStringEmission did not account for the end
 of the dirty string

---
 cxx/emissions/bigram_string.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 86ce421..8a8514a 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -182,6 +182,8 @@ void BigramStringEmission::incorporate(
           break;
       }
     }
+    // There was no (further) insertion at the end of the string.
+    insertions[get_index(insertion_context)].incorporate(0, w);
   }
 }
 
-- 
2.43.0


From 5da9d93740d3f4d30440558dfb4204de4d41057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 14/67] fix: keep the weight of the odd string out in
 BigramStringEmission's tournament

---
 cxx/emissions/bigram_string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 8a8514a..0c97806 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -327,7 +327,7 @@ std::string BigramStringEmission::propose_clean_with_weights(
   }
   if (corrupted.size() % 2 == 1) {
     winners.push_back(corrupted.back());
-    new_weights.push_back(1.0);
+    new_weights.push_back(weights.back());
   }
   return propose_clean_with_weights(winners, new_weights);
 }
-- 
2.43.0


From c3912379dbe30bbb2ff4cfaf052321bd167887c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 15/67] fix: SimpleStringEmission did not count the missing
 insertion at the end of the string

---
 cxx/emissions/simple_string.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index 26f9554..13e2cf2 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -42,6 +42,8 @@ class SimpleStringEmission : public Emission<std::string> {
     if (clean.empty()) {
       // All of dirty must be insertions.
       insertions.incorporate(1, weight * dirty.length());
+      // And after the last one, there was no insertion.
+      insertions.incorporate(0, weight);
       return;
     }
 
@@ -49,7 +51,7 @@ class SimpleStringEmission : public Emission<std::string> {
       // All of clean must have be deleted.
       deletions.incorporate(1, weight * clean.length());
       // This is also evidence that clean.length()+1 insertions didn't happen.
-      insertions.incorporate(0, weight * clean.length());
+      insertions.incorporate(0, weight * (clean.length() + 1));
       return;
     }
 
-- 
2.43.0


From a57aa902c341401377f6bf98e7c0c6862f60b438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 16/67] fix: SimpleStringEmission::random_character could
 return a character after highest_char

---
 cxx/emissions/simple_string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/emissions/simple_string.hh b/cxx/emissions/simple_string.hh
index 13e2cf2..6889885 100644
--- a/cxx/emissions/simple_string.hh
+++ b/cxx/emissions/simple_string.hh
@@ -131,7 +131,7 @@ class SimpleStringEmission : public Emission<std::string> {
   }
 
   char random_character(std::mt19937* prng) {
-    std::uniform_int_distribution<char> uid(lowest_char, highest_char + 1);
+    std::uniform_int_distribution<char> uid(lowest_char, highest_char);
     return uid(*prng);
   }
 
-- 
2.43.0


From f72c39826c758a9e7a2bef33f9a8ce081b66ada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 17/67] fix: IdentityEmission gave probability one to every
 dirty value

---
 cxx/emissions/identity.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/identity.hh b/cxx/emissions/identity.hh
index e975c76..44c9c2e 100644
--- a/cxx/emissions/identity.hh
+++ b/cxx/emissions/identity.hh
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <limits>
+
 #include "emissions/base.hh"
 
 // An Emission class where dirty always equals clean.
@@ -15,7 +17,8 @@ class IdentityEmission : public Emission<SampleType> {
   }
 
   double logp(const std::pair<SampleType, SampleType>& x) const {
-    return 0.0;
+    return x.first == x.second ? 0.0
+                               : -std::numeric_limits<double>::infinity();
   }
 
   double logp_score() const { return 0.0; }
-- 
2.43.0


From f45bb6f858956c00b8bb401fd7a4d39f9d8e8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 18/67] fix: DistributionAdapter read an uninitialised value
 from an empty string

---
 cxx/distributions/adapter.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/distributions/adapter.hh b/cxx/distributions/adapter.hh
index cb9594f..65f1c86 100644
--- a/cxx/distributions/adapter.hh
+++ b/cxx/distributions/adapter.hh
@@ -21,7 +21,7 @@ class DistributionAdapter : public Distribution<std::string> {
   DistributionAdapter(Distribution<S>* dd) : d(dd) {};
 
   S from_string(const std::string& x) const {
-    S s;
+    S s{};
     std::istringstream(x) >> s;
     return s;
   }
-- 
2.43.0


From 5cecaa26ffb09e33621f08a338a51cd7c61b6a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 19/67] fix: Sometimes split an unchanged value by its joint
 instead of its posterior probability

---
 cxx/emissions/sometimes.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/sometimes.hh b/cxx/emissions/sometimes.hh
index 5e6603b..7472d22 100644
--- a/cxx/emissions/sometimes.hh
+++ b/cxx/emissions/sometimes.hh
@@ -38,7 +38,8 @@ class Sometimes : public Emission<SampleType> {
     }
 
     if (dirty_can_equal_clean) {
-      double p_came_from_be = exp(bb.logp(true) + be->logp(x));
+      // The probability that x came from be, given that x was observed.
+      double p_came_from_be = exp(bb.logp(true) + be->logp(x) - logp(x));
       bb.incorporate(true, p_came_from_be * weight);
       be->incorporate(x, p_came_from_be * weight);
       bb.incorporate(false, (1.0 - p_came_from_be) * weight);
-- 
2.43.0


From e12e93427e0e504f1e43b8544c6f25b9757b0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 20/67] fix: Sometimes::unincorporate must remove exactly what
 incorporate added

---
 cxx/emissions/sometimes.hh | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cxx/emissions/sometimes.hh b/cxx/emissions/sometimes.hh
index 7472d22..a53d012 100644
--- a/cxx/emissions/sometimes.hh
+++ b/cxx/emissions/sometimes.hh
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <unordered_map>
+#include <vector>
 
 #include "distributions/beta_bernoulli.hh"
 #include "emissions/base.hh"
@@ -13,6 +14,9 @@ class Sometimes : public Emission<SampleType> {
   BetaBernoulli bb;
   Emission<SampleType>* be;  // We own be.
   bool dirty_can_equal_clean;
+  // For each clean value that was incorporated as its own dirty value, the
+  // fractions of these observations that were attributed to be.
+  std::unordered_map<SampleType, std::vector<double>> equal_splits;
 
   // By default, Sometimes only works with BaseEmissors that assign zero
   // probability to dirty == clean.  Pass _dirty_can_equal_clean=true to
@@ -38,8 +42,19 @@ class Sometimes : public Emission<SampleType> {
     }
 
     if (dirty_can_equal_clean) {
-      // The probability that x came from be, given that x was observed.
-      double p_came_from_be = exp(bb.logp(true) + be->logp(x) - logp(x));
+      double p_came_from_be;
+      std::vector<double>& splits = equal_splits[x.first];
+      if (weight < 0.0 && !splits.empty()) {
+        // Remove what was added, the current probability may be different.
+        p_came_from_be = splits.back();
+        splits.pop_back();
+      } else {
+        // The probability that x came from be, given that x was observed.
+        p_came_from_be = exp(bb.logp(true) + be->logp(x) - logp(x));
+        if (weight > 0.0) {
+          splits.push_back(p_came_from_be);
+        }
+      }
       bb.incorporate(true, p_came_from_be * weight);
       be->incorporate(x, p_came_from_be * weight);
       bb.incorporate(false, (1.0 - p_came_from_be) * weight);
-- 
2.43.0


From 394e5bccad862b2bead2c5b95c8e280da1c298a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:32 +0000
Subject: [PATCH 21/67] fix: NoisyRelation::update_value stored the pair
 (value, base) the wrong way round

---
 cxx/noisy_relation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/noisy_relation.hh b/cxx/noisy_relation.hh
index 408a5eb..55ba3cb 100644
--- a/cxx/noisy_relation.hh
+++ b/cxx/noisy_relation.hh
@@ -172,7 +172,7 @@ class NoisyRelation : public Relation<T> {
     assert(data.contains(items));
     data.at(items) = value;
     const ValueType& base_value = get_base_value(items);
-    emission_relation.update_value(items, std::make_pair(value, base_value));
+    emission_relation.update_value(items, std::make_pair(base_value, value));
   }
 
   const std::vector<Domain*>& get_domains() const { return domains; }
-- 
2.43.0


From af91d79dbdd1a349cb8db1e194393d47437a2c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:48 +0000
Subject: [PATCH 22/67] fix: exact Gibbs scores were wrong for relations that
 repeat a domain

---
 cxx/clean_relation.hh | 104 +++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 68 deletions(-)

diff --git a/cxx/clean_relation.hh b/cxx/clean_relation.hh
index 0131c6f..a5ecb35 100644
--- a/cxx/clean_relation.hh
+++ b/cxx/clean_relation.hh
@@ -301,88 +301,56 @@ class CleanRelation : public Relation<T> {
 
   // Implementation of exact Gibbs data probabilities.
 
-  std::unordered_map<std::vector<int> const, std::vector<T_items>,
-                     VectorIntHash>
-  get_cluster_to_items_list(Domain const& domain, const T_item& item) {
+  // Returns the log probability that the observations of `item` have given all
+  // other observations, if `item` were assigned to `table`. The observations of
+  // `item` must not be incorporated in the clusters.
+  double logp_gibbs_exact_table(const Domain& domain, const T_item& item,
+                                int table, std::mt19937* prng) {
+    // Observations from different clusters may end up in the same cluster (and
+    // vice versa) if several of the relation's domains are `domain`.
     std::unordered_map<const std::vector<int>, std::vector<T_items>,
                        VectorIntHash>
         m;
     for (const T_items& items : data_r.at(domain.name).at(item)) {
-      T_items z = get_cluster_assignment(items);
-      m[z].push_back(items);
-    }
-    return m;
-  }
-
-  double logp_gibbs_exact_current(const std::vector<T_items>& items_list) {
-    assert(!items_list.empty());
-    T_items z = get_cluster_assignment(items_list[0]);
-    auto cluster = clusters.at(z);
-    double logp0 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      // assert(z == get_cluster_assignment(items));
-      cluster->unincorporate(x);
-    }
-    double logp1 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      cluster->incorporate(x);
-    }
-    // Approximate floating point equality.
-    assert(abs(cluster->logp_score() - logp0) <=
-           std::numeric_limits<double>::epsilon() * abs(logp0));
-    return logp0 - logp1;
-  }
-
-  double logp_gibbs_exact_variant(const Domain& domain, const T_item& item,
-                                  int table,
-                                  const std::vector<T_items>& items_list,
-                                  std::mt19937* prng) {
-    assert(!items_list.empty());
-    T_items z =
-        get_cluster_assignment_gibbs(items_list[0], domain, item, table);
-
-    Distribution<ValueType>* prior = make_new_distribution(prng);
-    Distribution<ValueType>* cluster =
-        clusters.contains(z) ? clusters.at(z) : prior;
-    double logp0 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      // assert(z == get_cluster_assignment_gibbs(items, domain, item, table));
-      ValueType x = data.at(items);
-      cluster->incorporate(x);
+      m[get_cluster_assignment_gibbs(items, domain, item, table)].push_back(
+          items);
     }
-    const double logp1 = cluster->logp_score();
-    for (const T_items& items : items_list) {
-      ValueType x = data.at(items);
-      cluster->unincorporate(x);
+    double logp = 0.;
+    for (const auto& [z, items_list] : m) {
+      Distribution<ValueType>* prior = nullptr;
+      if (!clusters.contains(z)) {
+        prior = make_new_distribution(prng);
+      }
+      Distribution<ValueType>* cluster =
+          prior == nullptr ? clusters.at(z) : prior;
+      const double logp0 = cluster->logp_score();
+      for (const T_items& items : items_list) {
+        cluster->incorporate(data.at(items));
+      }
+      const double logp1 = cluster->logp_score();
+      for (const T_items& items : items_list) {
+        cluster->unincorporate(data.at(items));
+      }
+      delete prior;
+      logp += logp1 - logp0;
     }
-
-    // Approximate floating point equality.
-    assert(abs(cluster->logp_score() - logp0) <=
-           std::numeric_limits<double>::epsilon() * abs(logp0));
-    delete prior;
-    return logp1 - logp0;
+    return logp;
   }
 
   std::vector<double> logp_gibbs_exact(const Domain& domain, const T_item& item,
                                        std::vector<int> tables,
                                        std::mt19937* prng) {
-    auto cluster_to_items_list = get_cluster_to_items_list(domain, item);
-    int table_current = domain.get_cluster_assignment(item);
+    const auto& items_list = data_r.at(domain.name).at(item);
+    for (const T_items& items : items_list) {
+      clusters.at(get_cluster_assignment(items))->unincorporate(data.at(items));
+    }
     std::vector<double> logps;
     logps.reserve(tables.size());
-    double lp_cluster;
     for (const int& table : tables) {
-      double lp_table = 0;
-      for (const auto& [z, items_list] : cluster_to_items_list) {
-        lp_cluster = (table == table_current)
-                         ? logp_gibbs_exact_current(items_list)
-                         : logp_gibbs_exact_variant(domain, item, table,
-                                                    items_list, prng);
-        lp_table += lp_cluster;
-      }
-      logps.push_back(lp_table);
+      logps.push_back(logp_gibbs_exact_table(domain, item, table, prng));
+    }
+    for (const T_items& items : items_list) {
+      clusters.at(get_cluster_assignment(items))->incorporate(data.at(items));
     }
     return logps;
   }
-- 
2.43.0


From b58e25bd150ab5048f4bf4f1f433bcc2301445bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:55 +0000
Subject: [PATCH 23/67] fix: IRM could not be built when a noisy relation sorts
 before its base relation

---
 cxx/irm.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 56401d0..4f22c86 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -31,8 +31,23 @@ RelationVariant clean_relation_from_spec(const std::string& name,
 
 IRM::IRM(const T_schema& init_schema) {
   assert(schema.empty());
-  for (const auto& [name, relation] : init_schema) {
-    std::visit([&](auto trel) { this->add_relation(name, trel); }, relation);
+  // Base relations have to be added before the noisy relations that use them.
+  while (schema.size() < init_schema.size()) {
+    const size_t num_added = schema.size();
+    for (const auto& [name, relation] : init_schema) {
+      if (schema.contains(name)) {
+        continue;
+      }
+      const T_noisy_relation* noisy = std::get_if<T_noisy_relation>(&relation);
+      if (noisy != nullptr && !schema.contains(noisy->base_relation)) {
+        continue;
+      }
+      std::visit([&](auto trel) { this->add_relation(name, trel); }, relation);
+    }
+    if (schema.size() == num_added) {
+      printf("Detected loop or unknown base relation in schema\n");
+      std::exit(1);
+    }
   }
   assert(schema.size() == relations.size());
 }
-- 
2.43.0


From 0813c01a6917307e2fd49c1d5c8db72922b95451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 24/67] fix: IRM::remove_relation left entities without data
 and stale links from base to noisy relations

---
 cxx/irm.cc | 39 +++++++++++++++++++++++++++++----------
 1 file changed, 29 insertions(+), 10 deletions(-)

diff --git a/cxx/irm.cc b/cxx/irm.cc
index 4f22c86..6476bdf 100644
--- a/cxx/irm.cc
+++ b/cxx/irm.cc
@@ -394,24 +394,43 @@ void IRM::add_relation_with_base(const std::string& name,
 }
 
 void IRM::remove_relation(const std::string& name) {
-  std::unordered_set<std::string> ds;
-  auto rel_domains =
-      std::visit([](auto r) { return r->get_domains(); }, relations.at(name));
-  for (const Domain* const domain : rel_domains) {
-    ds.insert(domain->name);
+  // The entities of each of the relation's domains.
+  std::unordered_map<std::string, std::vector<T_item>> ds;
+  std::visit(
+      [&](auto r) {
+        for (const auto& [d, items_map] : r->get_data_r()) {
+          std::vector<T_item>& items = ds[d];
+          for (const auto& [item, unused_items] : items_map) {
+            items.push_back(item);
+          }
+        }
+      },
+      relations.at(name));
+  std::visit([](auto r) { delete r; }, relations.at(name));
+  relations.erase(name);
+  if (const T_noisy_relation* noisy =
+          std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto it = base_to_noisy_relations.find(noisy->base_relation);
+    std::erase(it->second, name);
+    if (it->second.empty()) {
+      base_to_noisy_relations.erase(it);
+    }
   }
-  for (const auto& d : ds) {
+  schema.erase(name);
+  for (const auto& [d, items] : ds) {
     domain_to_relations.at(d).erase(name);
-    // TODO: Remove r from domains.at(d)->items
     if (domain_to_relations.at(d).empty()) {
       domain_to_relations.erase(d);
       delete domains.at(d);
       domains.erase(d);
+      continue;
+    }
+    for (const T_item& item : items) {
+      if (!has_observation(d, item)) {
+        domains.at(d)->unincorporate(item);
+      }
     }
   }
-  std::visit([](auto r) { delete r; }, relations.at(name));
-  relations.erase(name);
-  schema.erase(name);
 }
 
 RelationVariant IRM::get_relation(const std::string& name) {
-- 
2.43.0


From 1fc3c4b4abff8adbb0292f1e8b28d9a50c4b044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:43 +0000
Subject: [PATCH 25/67] fix: re-estimating a latent value did not score its
 candidates and corrupted the statistics of base and noisy relations

---
 cxx/transition_latent_value.hh | 48 +++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/cxx/transition_latent_value.hh b/cxx/transition_latent_value.hh
index 7e7338e..330d711 100644
--- a/cxx/transition_latent_value.hh
+++ b/cxx/transition_latent_value.hh
@@ -30,6 +30,17 @@ void transition_latent_value(
     std::mt19937* prng, T_items base_items, Relation<ValueType>* base_relation,
     std::unordered_map<std::string, NoisyRelation<ValueType>*>
         noisy_relations) {
+  // Without noisy observations there is nothing to re-estimate the value from.
+  bool has_noisy_observations = false;
+  for (const auto& [name, rel] : noisy_relations) {
+    if (rel->base_to_noisy_items.contains(base_items)) {
+      has_noisy_observations = true;
+    }
+  }
+  if (!has_noisy_observations) {
+    return;
+  }
+
   // We incorporate to/unincorporate from clusters themselves rather than
   // relations. Empty clusters are not deleted, because observations will be
   // re-incorporated to them.
@@ -86,7 +97,10 @@ T_noisy_observations<ValueType> unincorporate_and_store_values(
   T_noisy_observations<ValueType> noisy_observations;
   for (auto [name, rel] : noisy_relations) {
     noisy_observations[name] = {};
-    for (const T_items& items : rel->base_to_noisy_items[base_items]) {
+    if (!rel->base_to_noisy_items.contains(base_items)) {
+      continue;
+    }
+    for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
       const ValueType& v = rel->get_value(items);
       rel->unincorporate_from_cluster(items);
       noisy_observations[name][items] = v;
@@ -115,12 +129,12 @@ std::vector<double> latent_values_incremental_logp(
 
   std::vector<double> logpx;
   for (const ValueType& v : latent_values) {
-    // Incorporate the latent/noisy values for this candidate.
-    base_relation->incorporate_to_cluster(base_items, v);
+    // Incorporate the latent/noisy values for this candidate. The value in the
+    // base relation is still the old one, so we incorporate the pairs directly.
     for (auto& [name, rel] : noisy_relations) {
-      for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-        rel->incorporate_to_cluster(items,
-                                    noisy_observations.at(name).at(items));
+      for (const auto& [items, noisy_value] : noisy_observations.at(name)) {
+        rel->emission_relation.clusters.at(rel->get_cluster_assignment(items))
+            ->incorporate(std::make_pair(v, noisy_value));
       }
     }
 
@@ -133,11 +147,11 @@ std::vector<double> latent_values_incremental_logp(
 
     // Unincorporate the latent/noisy values for this candidate.
     for (auto& [name, rel] : noisy_relations) {
-      for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-        rel->unincorporate_from_cluster(items);
+      for (const auto& [items, noisy_value] : noisy_observations.at(name)) {
+        rel->emission_relation.clusters.at(rel->get_cluster_assignment(items))
+            ->unincorporate(std::make_pair(v, noisy_value));
       }
     }
-    base_relation->unincorporate_from_cluster(base_items);
   }
   return logpx;
 }
@@ -157,14 +171,18 @@ void choose_and_incorporate_value(
   // Sample a new latent value.
   ValueType new_latent_value = latent_value_candidates[log_choice(logpx, prng)];
 
-  // Incorporate the new estimate of the latent value.
-  base_relation->incorporate_to_cluster(base_items, new_latent_value);
-  // Base relation needs to be updated manually since incorporate_to_cluster
-  // operates only on the underlying clusters.
+  // Incorporate the new estimate of the latent value. Since update_value
+  // replaces the old value in its cluster, that one has to be put back first.
+  const ValueType old_latent_value = base_relation->get_value(base_items);
+  base_relation->incorporate_to_cluster(base_items, old_latent_value);
   base_relation->update_value(base_items, new_latent_value);
   for (auto& [name, rel] : noisy_relations) {
-    for (const T_items& items : rel->base_to_noisy_items.at(base_items)) {
-      rel->incorporate_to_cluster(items, noisy_observations.at(name).at(items));
+    for (const auto& [items, noisy_value] : noisy_observations.at(name)) {
+      // Noisy relations need to be updated manually since
+      // incorporate_to_cluster operates only on the underlying clusters.
+      rel->emission_relation.data.at(items) =
+          std::make_pair(new_latent_value, noisy_value);
+      rel->incorporate_to_cluster(items, noisy_value);
     }
   }
 }
-- 
2.43.0


From 58c3711ec96f8c3a69c47219f9a387fe33b55f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:49 +0000
Subject: [PATCH 26/67] fix: HIRM::remove_relation left stale links from base
 to noisy relations

---
 cxx/hirm.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cxx/hirm.cc b/cxx/hirm.cc
index 71c1da7..9fe8a2d 100644
--- a/cxx/hirm.cc
+++ b/cxx/hirm.cc
@@ -272,6 +272,14 @@ void HIRM::add_relation(std::mt19937* prng, const std::string& name,
 // have the removed relation as a base. The NoisyRelations will be in an invalid
 // state after their base relation is removed.
 void HIRM::remove_relation(const std::string& name) {
+  if (const T_noisy_relation* noisy =
+          std::get_if<T_noisy_relation>(&schema.at(name))) {
+    auto it = base_to_noisy_relations.find(noisy->base_relation);
+    std::erase(it->second, name);
+    if (it->second.empty()) {
+      base_to_noisy_relations.erase(it);
+    }
+  }
   schema.erase(name);
   int rc = relation_to_code.at(name);
   int table = crp.assignments.at(rc);
-- 
2.43.0


From dbb44c0156c7262b3080032d58bdd5cc7e2b9c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:30 +0000
Subject: [PATCH 27/67] fix: CleanRelation::logp let an unseen entity be in
 several groups at once

---
 cxx/clean_relation.hh | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cxx/clean_relation.hh b/cxx/clean_relation.hh
index a5ecb35..a63f071 100644
--- a/cxx/clean_relation.hh
+++ b/cxx/clean_relation.hh
@@ -356,9 +356,9 @@ class CleanRelation : public Relation<T> {
   }
 
   double logp(const T_items& items, ValueType value, std::mt19937* prng) {
-    // TODO: Falsely assumes cluster assignments of items
-    // from same domain are identical, see note in hirm.py
     assert(items.size() == domains.size());
+    // An item that occurs several times is in the same table each time.
+    std::vector<int> first_occurrence;
     std::vector<std::vector<T_item>> tabl_list;
     std::vector<std::vector<double>> wght_list;
     std::vector<std::vector<int>> indx_list;
@@ -368,7 +368,16 @@ class CleanRelation : public Relation<T> {
       std::vector<T_item> t_list;
       std::vector<double> w_list;
       std::vector<int> i_list;
-      if (domain->items.contains(item)) {
+      int first = 0;
+      while (domains.at(first) != domain || items.at(first) != item) {
+        ++first;
+      }
+      first_occurrence.push_back(first);
+      if (first < i) {
+        // Takes the table of the first occurrence.
+        w_list = {0};
+        i_list = {0};
+      } else if (domain->items.contains(item)) {
         int z = domain->get_cluster_assignment(item);
         t_list = {z};
         w_list = {0};
@@ -395,7 +404,8 @@ class CleanRelation : public Relation<T> {
       z.reserve(domains.size());
       double logp_w = 0;
       for (int i = 0; i < std::ssize(domains); ++i) {
-        T_item zi = tabl_list.at(i).at(indexes[i]);
+        int first = first_occurrence.at(i);
+        T_item zi = tabl_list.at(first).at(indexes[first]);
         double wi = wght_list.at(i).at(indexes[i]);
         z.push_back(zi);
         logp_w += wi;
-- 
2.43.0


From e2d7473c1ddf516108b08191c11f7177a29119f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:02 +0000
Subject: [PATCH 28/67] fix: refuse malformed relational schemas instead of
 asserting or reading out of bounds

Missing tokens at the end of a line were read past the end of the token
vector, and with assertions compiled out wrong tokens, duplicate relation
names and inconsistent noisy relations were accepted silently.
---
 cxx/util_io.cc    | 145 ++++++++++++++++++++++++++++++----------------
 cxx/util_parse.cc |   2 +-
 2 files changed, 97 insertions(+), 50 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 1bfa190..03e1b01 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -3,6 +3,7 @@
 
 #include "util_io.hh"
 
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <fstream>
@@ -16,19 +17,47 @@
 
 #include "util_parse.hh"
 
+static ObservationEnum get_observation_type(const T_relation& trel) {
+  return std::visit(
+      [](const auto& tr) {
+        using T = std::decay_t<decltype(tr)>;
+        if constexpr (std::is_same_v<T, T_noisy_relation>) {
+          return tr.emission_spec.observation_type;
+        } else {
+          return tr.distribution_spec.observation_type;
+        }
+      },
+      trel);
+}
+
 void verify_noisy_relation_domains(const T_schema& schema) {
   for (const auto& [relname, trelation] : schema) {
     std::visit(
         [&](const auto& trel) {
           using T = std::decay_t<decltype(trel)>;
           if constexpr (std::is_same_v<T, T_noisy_relation>) {
+            if (!schema.contains(trel.base_relation)) {
+              printf("Unknown base relation %s of noisy relation %s\n",
+                     trel.base_relation.c_str(), relname.c_str());
+              std::exit(1);
+            }
+            const T_relation& base = schema.at(trel.base_relation);
             std::vector<std::string> base_domains =
                 std::visit([&](const auto& brel) { return brel.domains; },
-                           schema.at(trel.base_relation));
-            for (size_t i = 0; i != base_domains.size(); ++i) {
-              assert(base_domains[i] == trel.domains[i] &&
-                     "The first domains of a noisy relation must be the same "
-                     "as the domains of the base relation.");
+                           base);
+            if (base_domains.size() > trel.domains.size() ||
+                !std::equal(base_domains.begin(), base_domains.end(),
+                            trel.domains.begin())) {
+              printf("The first domains of noisy relation %s must be the same "
+                     "as the domains of its base relation.\n",
+                     relname.c_str());
+              std::exit(1);
+            }
+            if (get_observation_type(base) != get_observation_type(trel)) {
+              printf("Noisy relation %s and its base relation have different "
+                     "types of values.\n",
+                     relname.c_str());
+              std::exit(1);
             }
           }
         },
@@ -36,35 +65,39 @@ void verify_noisy_relation_domains(const T_schema& schema) {
   }
 }
 
-#define TYPE_CHECK(i, expected_type)                                        \
-  if (i >= tokens.size()) {                                                 \
-    printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
-           line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
-  }                                                                         \
-  if (tokens[i].type != TokenType::expected_type) {                         \
-    printf(                                                                 \
-        "Error parsing schema line %s:  expected expected_type for %ld-th " \
-        "token\n",                                                          \
-        line.c_str(), i + 1);                                               \
-    printf("Got %s of type %d instead\n", tokens[0].val.c_str(),            \
-           (int)(tokens[0].type));                                          \
-    assert(false);                                                          \
+// Returns the i-th token of a schema line.  Exits if there isn't one.
+static const Token& get_token(const std::vector<Token>& tokens, size_t i,
+                              const std::string& line) {
+  if (i >= tokens.size()) {
+    printf("Error parsing schema line %s: expected at least %ld tokens\n",
+           line.c_str(), i + 1);
+    std::exit(1);
+  }
+  return tokens[i];
+}
+
+static void check_type(const std::vector<Token>& tokens, size_t i,
+                       TokenType expected_type, const std::string& line) {
+  const Token& token = get_token(tokens, i, line);
+  if (token.type != expected_type) {
+    printf("Error parsing schema line %s: expected type %d for %ld-th token\n",
+           line.c_str(), (int)expected_type, i + 1);
+    printf("Got %s of type %d instead\n", token.val.c_str(), (int)token.type);
+    std::exit(1);
   }
+}
 
-#define VAL_CHECK(i, expected_val)                                          \
-  if (i >= tokens.size()) {                                                 \
-    printf("Error parsing schema line %s: expected at least %ld tokens\n",  \
-           line.c_str(), i + 1);                                            \
-    assert(false);                                                          \
-  }                                                                         \
-  if (tokens[i].val != expected_val) {                                      \
-    printf("Error parsing schema line %s:  expected %s for %ld-th token\n", \
-           line.c_str(), expected_val, i + 1);                              \
-    printf("Got %s of type %d instead\n", tokens[0].val.c_str(),            \
-           (int)(tokens[0].type));                                          \
-    assert(false);                                                          \
+static void check_val(const std::vector<Token>& tokens, size_t i,
+                      const std::string& expected_val,
+                      const std::string& line) {
+  const Token& token = get_token(tokens, i, line);
+  if (token.val != expected_val) {
+    printf("Error parsing schema line %s: expected %s for %ld-th token\n",
+           line.c_str(), expected_val.c_str(), i + 1);
+    printf("Got %s of type %d instead\n", token.val.c_str(), (int)token.type);
+    std::exit(1);
   }
+}
 
 T_schema load_schema(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
@@ -75,44 +108,50 @@ T_schema load_schema(const std::string& path) {
   std::vector<Token> tokens;
   while (std::getline(fp, line)) {
     tokens.clear();
-    [[maybe_unused]] bool ok = tokenize(line, &tokens);
-    assert(ok);
+    if (!tokenize(line, &tokens)) {
+      std::exit(1);
+    }
 
     if (tokens.empty()) {
       continue;
     }
 
     size_t i = 0;
-    TYPE_CHECK(i, identifier);
+    check_type(tokens, i, TokenType::identifier, line);
     std::string relname = tokens[i].val;
+    if (schema.contains(relname)) {
+      printf("Relation %s is defined more than once\n", relname.c_str());
+      std::exit(1);
+    }
 
     i = 1;
-    VAL_CHECK(i, "~");
+    check_val(tokens, i, "~", line);
 
     i = 2;
-    TYPE_CHECK(i, identifier);
+    check_type(tokens, i, TokenType::identifier, line);
     std::string dist_name = tokens[2].val;
 
     i = 3;
     std::map<std::string, std::string> params;
-    if (tokens[i].val == "[") {  // Handle parameters
+    if (get_token(tokens, i, line).val == "[") {  // Handle parameters
       do {
         ++i;
-        TYPE_CHECK(i, identifier);
+        check_type(tokens, i, TokenType::identifier, line);
         std::string param_name = tokens[i++].val;
 
-        VAL_CHECK(i, "=");
+        check_val(tokens, i, "=", line);
         ++i;
 
-        params[param_name] = tokens[i++].val;
+        params[param_name] = get_token(tokens, i++, line).val;
 
-        if ((tokens[i].val != ",") && (tokens[i].val != "]")) {
+        const Token& token = get_token(tokens, i, line);
+        if ((token.val != ",") && (token.val != "]")) {
           printf(
               "Error parsing schema line %s: expected ',' or ']' after "
               "parameter definition\n",
               line.c_str());
-          printf("Got %s of type %d instead\n", tokens[i].val.c_str(),
-                 (int)(tokens[i].type));
+          printf("Got %s of type %d instead\n", token.val.c_str(),
+                 (int)(token.type));
           std::exit(1);
         }
 
@@ -120,33 +159,41 @@ T_schema load_schema(const std::string& path) {
       ++i;
     }
 
-    VAL_CHECK(i, "(");
+    check_val(tokens, i, "(", line);
     ++i;
 
     // Handle domains and maybe base emission
     std::string base_relation;
     std::vector<std::string> domains;
 
-    TYPE_CHECK(i, identifier);
+    check_type(tokens, i, TokenType::identifier, line);
 
-    if (tokens[i + 1].val == ";") {  // We have an emission!
+    if (get_token(tokens, i + 1, line).val == ";") {  // We have an emission!
       base_relation = tokens[i].val;
       i += 2;
     }
 
     do {
+      check_type(tokens, i, TokenType::identifier, line);
       domains.push_back(tokens[i++].val);
 
-      if ((tokens[i].val != ",") && (tokens[i].val != ")")) {
+      const Token& token = get_token(tokens, i, line);
+      if ((token.val != ",") && (token.val != ")")) {
         printf(
             "Error parsing schema line %s: expected ',' or ')' after domain\n",
             line.c_str());
-        printf("Got %s of type %d instead\n", tokens[i].val.c_str(),
-               (int)(tokens[i].type));
+        printf("Got %s of type %d instead\n", token.val.c_str(),
+               (int)(token.type));
         std::exit(1);
       }
     } while (tokens[i++].val == ",");
 
+    if (i < tokens.size()) {
+      printf("Error parsing schema line %s: unexpected %s after the domains\n",
+             line.c_str(), tokens[i].val.c_str());
+      std::exit(1);
+    }
+
     if (base_relation.empty()) {  // Clean relation
       T_clean_relation relation;
       relation.domains = domains;
diff --git a/cxx/util_parse.cc b/cxx/util_parse.cc
index 3591d13..93db179 100644
--- a/cxx/util_parse.cc
+++ b/cxx/util_parse.cc
@@ -17,7 +17,7 @@ bool tokenize(std::string line, std::vector<Token>* tokens) {
     }
 
     Token t;
-    if (std::strchr(SYMBOL_CHARS, c) != NULL) {  // Symbols
+    if ((c != '\0') && (std::strchr(SYMBOL_CHARS, c) != NULL)) {  // Symbols
       t.type = TokenType::symbol;
       t.val += c;
     } else if ((c == '"') || (c == '\'')) {  // Strings
-- 
2.43.0


From 0275037c564e65bbff8d360c0a8093f0b4706acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:25 +0000
Subject: [PATCH 29/67] fix: malformed observation lines were silently accepted
 or cut short, as nothing checked their number of fields

---
 cxx/util_io.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 03e1b01..af238ab 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -234,11 +234,13 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
     std::vector<std::string> items;
 
     if (!getline(stream, value_str, ',')) {
-      assert(false && "Error parsing schema. No comma separating value.");
+      printf("Error parsing observation \"%s\": no value\n", line.c_str());
+      std::exit(1);
     }
 
     if (!getline(stream, relname, ',')) {
-      assert(false && "Error parsing schema. No comma separating relation.");
+      printf("Error parsing observation \"%s\": no relation\n", line.c_str());
+      std::exit(1);
     }
 
     if (!schema.contains(relname)) {
@@ -250,7 +252,14 @@ T_observations load_observations(const std::string& path, T_schema& schema) {
     while (getline(stream, word, ',')) {
       items.push_back(word);
     }
-    assert((items.size() > 0) && "No Domain values specified.");
+    size_t num_domains = std::visit(
+        [](const auto& trel) { return trel.domains.size(); },
+        schema.at(relname));
+    if (items.size() != num_domains) {
+      printf("Error parsing observation \"%s\": expected %zu entities for %s\n",
+             line.c_str(), num_domains, relname.c_str());
+      std::exit(1);
+    }
     auto entry = std::make_tuple(items, value_str);
     observations[relname].push_back(entry);
   }
@@ -376,6 +385,12 @@ void incorporate_observations_relation(
     std::unordered_map<std::string, std::unordered_set<T_items, H_items>>&
         relation_items,
     std::unordered_set<std::string>& completed_relations) {
+  // An observed relation that is the base of several noisy relations is reached
+  // once from each of them.
+  if (observations.contains(relation) &&
+      completed_relations.contains(relation)) {
+    return;
+  }
   RelationVariant rel_var =
       std::visit([&](auto m) { return m->get_relation(relation); }, h_irm);
   // base relations must be incorporated before noisy relations, so recursively
-- 
2.43.0


From 386bb091629d960deb23ac94944af3cdb13b9172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 30/67] fix: reloading a saved model failed when a noisy
 relation comes before its base in the schema

---
 cxx/util_io.cc | 33 +++++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index af238ab..728bffa 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -695,6 +695,30 @@ load_clusters_hirm(const std::string& path) {
   return std::make_pair(relations, irms);
 }
 
+// Returns the relations of the schema, base relations before the noisy
+// relations that use them.
+static std::vector<std::string> base_relations_first(const T_schema& schema) {
+  std::vector<std::string> names;
+  std::set<std::string> added;
+  while (added.size() < schema.size()) {
+    const size_t num_added = added.size();
+    for (const auto& [name, relation] : schema) {
+      const T_noisy_relation* noisy = std::get_if<T_noisy_relation>(&relation);
+      if (added.contains(name) ||
+          (noisy != nullptr && !added.contains(noisy->base_relation))) {
+        continue;
+      }
+      names.push_back(name);
+      added.insert(name);
+    }
+    if (added.size() == num_added) {
+      printf("Detected loop or unknown base relation in schema\n");
+      std::exit(1);
+    }
+  }
+  return names;
+}
+
 void from_txt(std::mt19937* prng, IRM* const irm,
               const std::string& path_schema, const std::string& path_obs,
               const std::string& path_clusters) {
@@ -708,8 +732,9 @@ void from_txt(std::mt19937* prng, IRM* const irm,
   assert(irm->domains.empty());
   assert(irm->relations.empty());
   assert(irm->domain_to_relations.empty());
-  for (const auto& [r, ds] : schema) {
-    std::visit([&](const auto& trel) { irm->add_relation(r, trel); }, ds);
+  for (const std::string& r : base_relations_first(schema)) {
+    std::visit([&](const auto& trel) { irm->add_relation(r, trel); },
+               schema.at(r));
   }
   // Add the domain entities with fixed clustering.
   T_encoding_f item_to_code = std::get<0>(encoding);
@@ -739,8 +764,8 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
   assert(hirm->irms.empty());
   assert(hirm->relation_to_code.empty());
   assert(hirm->code_to_relation.empty());
-  for (const auto& [r, ds] : schema) {
-    hirm->add_relation(prng, r, ds);
+  for (const std::string& r : base_relations_first(schema)) {
+    hirm->add_relation(prng, r, schema.at(r));
     assert(hirm->irms.size() == hirm->crp.tables.size());
     hirm->set_cluster_assignment_gibbs(prng, r, -1);
   }
-- 
2.43.0


From e253e23b87d98c9e504cd99045efc9f6fde3d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 31/67] fix: saved clusters that do not match the schema or the
 data were loaded into a corrupt model

---
 cxx/util_io.cc | 132 +++++++++++++++++++++++++++++++------------------
 1 file changed, 85 insertions(+), 47 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 728bffa..c2e5a56 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -566,6 +566,12 @@ void to_txt(const std::string& path, const HIRM& hirm,
   fp.close();
 }
 
+[[noreturn]] static void bad_clusters(const std::string& what,
+                                      const std::string& where) {
+  printf("Error reading clusters: %s: %s\n", what.c_str(), where.c_str());
+  std::exit(1);
+}
+
 std::map<std::string, std::map<int, std::vector<std::string>>>
 load_clusters_irm(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
@@ -584,14 +590,18 @@ load_clusters_irm(const std::string& path) {
     int table;
     std::vector<std::string> items;
 
-    stream >> domain;
-    stream >> table;
+    if (!(stream >> domain >> table) || table < 0) {
+      bad_clusters("expected a domain and a table number", line);
+    }
     for (std::string w; stream >> w;) {
       items.push_back(w);
     }
-    assert(items.size() > 0);
-    assert(clusters[domain].count(table) == 0);
-    clusters[domain][table] = items;
+    if (items.empty()) {
+      bad_clusters("no items", line);
+    }
+    if (!clusters[domain].insert({table, items}).second) {
+      bad_clusters("repeated table", line);
+    }
   }
   fp.close();
   return clusters;
@@ -628,6 +638,7 @@ load_clusters_hirm(const std::string& path) {
 
   std::string line;
   int irmc = 0;
+  bool in_irm = false;  // after the first irm= line
 
   while (std::getline(fp, line)) {
     std::istringstream stream(line);
@@ -641,60 +652,96 @@ load_clusters_hirm(const std::string& path) {
     stream >> first;
 
     // Parse a relation cluster.
-    if (isnumeric(first)) {
+    if (!in_irm && isnumeric(first)) {
       int table = std::stoi(first);
       std::vector<std::string> items;
       for (std::string item; stream >> item;) {
         items.push_back(item);
       }
-      assert(items.size() > 0);
-      assert(relations.count(table) == 0);
-      relations[table] = items;
+      if (items.empty()) {
+        bad_clusters("no relations", line);
+      }
+      if (!relations.insert({table, items}).second) {
+        bad_clusters("repeated table", line);
+      }
       continue;
     }
 
     // Parse an irm= line.
     if (first.rfind("irm=", 0) == 0) {
-      assert(irmc == -1);
-      assert(first.size() > 4);
       std::string x = first.substr(4);
+      if (irmc != -1 || !isnumeric(x)) {
+        bad_clusters("misplaced or malformed irm", line);
+      }
       irmc = std::stoi(x);
-      assert(irms.count(irmc) == 0);
-      irms[irmc] = {};
+      if (!irms.insert({irmc, {}}).second) {
+        bad_clusters("repeated irm", line);
+      }
+      in_irm = true;
       continue;
     }
 
     // Parse a domain cluster.
-    assert(irmc > -1);
-    assert(irms.count(irmc) == 1);
+    if (irms.count(irmc) != 1) {
+      bad_clusters("domain cluster outside of an irm", line);
+    }
     std::string second;
     stream >> second;
-    assert(second.size() > 0);
-    assert(isnumeric(second));
+    if (!isnumeric(second)) {
+      bad_clusters("expected a domain and a table number", line);
+    }
     std::string& domain = first;
     int table = std::stoi(second);
     std::vector<std::string> items;
     for (std::string item; stream >> item;) {
       items.push_back(item);
     }
-    assert(items.size() > 0);
-    if (irms.at(irmc).count(domain) == 0) {
-      irms.at(irmc)[domain] = {};
+    if (items.empty()) {
+      bad_clusters("no items", line);
+    }
+    if (!irms.at(irmc)[domain].insert({table, items}).second) {
+      bad_clusters("repeated table", line);
     }
-    assert(irms.at(irmc).at(domain).count(table) == 0);
-    irms.at(irmc).at(domain)[table] = items;
   }
 
-  assert(relations.size() == irms.size());
   for (const auto& [t, rs] : relations) {
     if (irms.count(t) != 1) {
-      assert(false);
+      bad_clusters("no irm for table", std::to_string(t));
     }
   }
+  if (relations.size() != irms.size()) {
+    bad_clusters("no relations for some irm", path);
+  }
   fp.close();
   return std::make_pair(relations, irms);
 }
 
+// Adds the entities to the irm's domains, with the given clustering.
+static void add_entities(
+    std::mt19937* prng, IRM* irm, const T_encoding_f& item_to_code,
+    const std::map<std::string, std::map<int, std::vector<std::string>>>&
+        clusters) {
+  for (const auto& [domain, tables] : clusters) {
+    if (!irm->domains.contains(domain)) {
+      bad_clusters("unknown domain", domain);
+    }
+    Domain* d = irm->domains.at(domain);
+    assert(d->items.size() == 0);
+    for (const auto& [table, items] : tables) {
+      for (const std::string& item : items) {
+        auto it = item_to_code.at(domain).find(item);
+        if (it == item_to_code.at(domain).end()) {
+          bad_clusters("unknown entity", domain + " " + item);
+        }
+        if (d->items.contains(it->second)) {
+          bad_clusters("repeated entity", domain + " " + item);
+        }
+        d->incorporate(prng, it->second, table);
+      }
+    }
+  }
+}
+
 // Returns the relations of the schema, base relations before the noisy
 // relations that use them.
 static std::vector<std::string> base_relations_first(const T_schema& schema) {
@@ -737,17 +784,7 @@ void from_txt(std::mt19937* prng, IRM* const irm,
                schema.at(r));
   }
   // Add the domain entities with fixed clustering.
-  T_encoding_f item_to_code = std::get<0>(encoding);
-  for (const auto& [domain, tables] : clusters) {
-    assert(irm->domains.at(domain)->items.size() == 0);
-    for (const auto& [table, items] : tables) {
-      assert(0 <= table);
-      for (const std::string& item : items) {
-        T_item code = item_to_code.at(domain).at(item);
-        irm->domains.at(domain)->incorporate(prng, code, table);
-      }
-    }
-  }
+  add_entities(prng, irm, std::get<0>(encoding), clusters);
   // Add the observations.
   incorporate_observations(prng, irm, encoding, observations);
 }
@@ -770,11 +807,18 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
     hirm->set_cluster_assignment_gibbs(prng, r, -1);
   }
   // Add each IRM.
+  std::set<std::string> clustered;
   for (const auto& [table, rs] : relations) {
     assert(hirm->irms.size() == hirm->crp.tables.size());
     // Add relations to the IRM.
     for (const std::string& r : rs) {
       assert(hirm->irms.size() == hirm->crp.tables.size());
+      if (!schema.contains(r)) {
+        bad_clusters("unknown relation", r);
+      }
+      if (!clustered.insert(r).second) {
+        bad_clusters("repeated relation", r);
+      }
       int table_current = hirm->relation_to_table(r);
       if (table_current != table) {
         assert(hirm->irms.size() == hirm->crp.tables.size());
@@ -782,20 +826,14 @@ void from_txt(std::mt19937* prng, HIRM* const hirm,
       }
     }
     // Add the domain entities with fixed clustering to this IRM.
-    // TODO: Duplicated code with from_txt(IRM)
     IRM* irm = hirm->irms.at(table);
-    auto clusters = irms.at(table);
     assert(irm->relations.size() == rs.size());
-    T_encoding_f item_to_code = std::get<0>(encoding);
-    for (const auto& [domain, tables] : clusters) {
-      assert(irm->domains.at(domain)->items.size() == 0);
-      for (const auto& [t, items] : tables) {
-        assert(0 <= t);
-        for (const std::string& item : items) {
-          int code = item_to_code.at(domain).at(item);
-          irm->domains.at(domain)->incorporate(prng, code, t);
-        }
-      }
+    add_entities(prng, irm, std::get<0>(encoding), irms.at(table));
+  }
+  // Any relation that is not in the file starts in a cluster of its own.
+  for (const auto& [r, unused_relation] : schema) {
+    if (!clustered.contains(r)) {
+      hirm->set_cluster_assignment_gibbs(prng, r, hirm->crp.max_table() + 1);
     }
   }
   assert(hirm->irms.count(-1) == 0);
-- 
2.43.0


From 794a83fdfa51b5f8c4bc1fe705ddbd0b594c5200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 32/67] fix: the hirm program freed models made with new

---
 cxx/hirm_main.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 0d03dcd..3417e76 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -120,7 +120,7 @@ int main(int argc, char** argv) {
     }
 
     // Free
-    free(irm);
+    delete irm;
     return 0;
   }
 
@@ -160,7 +160,7 @@ int main(int argc, char** argv) {
     }
 
     // Free
-    free(hirm);
+    delete hirm;
     return 0;
   }
 }
-- 
2.43.0


From 64e8ac6ccd184f84cb4946b6ad97ad1f9eb66259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 33/67] fix: held-out data marked relations as observed,
 changed the codes of the training entities, and with --load used other codes
 than the loaded model

---
 cxx/hirm_main.cc | 12 +++++-------
 cxx/util_io.cc   | 37 ++++++++++++++++++++-----------------
 cxx/util_io.hh   |  6 ++++--
 3 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/cxx/hirm_main.cc b/cxx/hirm_main.cc
index 3417e76..01bc754 100644
--- a/cxx/hirm_main.cc
+++ b/cxx/hirm_main.cc
@@ -76,17 +76,15 @@ int main(int argc, char** argv) {
 
   std::string held_out = result["heldout"].as<std::string>();
   T_observations heldout_obs;
-  T_observations encoding_observations;
-  if (held_out.empty()) {
-    encoding_observations = observations;
-  } else {
+  if (!held_out.empty()) {
     std::cout << "loading held out observations from " << held_out << std::endl;
-    heldout_obs = load_observations(held_out, schema);
-    encoding_observations = merge_observations(observations, heldout_obs);
+    // Held out observations don't make a relation of the model observed.
+    T_schema heldout_schema = schema;
+    heldout_obs = load_observations(held_out, heldout_schema);
   }
 
   std::cout << "Encoding observations ...\n";
-  T_encoding encoding = calculate_encoding(schema, encoding_observations);
+  T_encoding encoding = calculate_encoding(schema, observations, heldout_obs);
 
   if (mode == "irm") {
     std::cout << "selected model is IRM" << std::endl;
diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index c2e5a56..5012285 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -312,7 +312,8 @@ void write_observations(const std::string& path,
 
 // Assumes that T_item is integer.
 T_encoding calculate_encoding(const T_schema& schema,
-                              const T_observations& observations) {
+                              const T_observations& observations,
+                              const T_observations& heldout_observations) {
   // Counter and encoding maps.
   std::map<std::string, int> domain_item_counter;
   T_encoding_f item_to_code;
@@ -327,23 +328,25 @@ T_encoding calculate_encoding(const T_schema& schema,
     }
   }
   // Create the codes for each item.
-  for (const auto& [relation, obs] : observations) {
-    for (const auto& i : obs) {
-      std::vector<std::string> items = std::get<0>(i);
-      int counter = 0;
-      std::vector<std::string> domains = std::visit(
-          [](const auto& r) { return r.domains; }, schema.at(relation));
-      for (const std::string& item : items) {
-        // Obtain domain that item belongs to.
-        std::string domain = domains.at(counter);
-        // Compute its code, if necessary.
-        if (!item_to_code.at(domain).contains(item)) {
-          int code = domain_item_counter[domain];
-          item_to_code[domain][item] = code;
-          code_to_item[domain][code] = item;
-          ++domain_item_counter[domain];
+  for (const T_observations* some : {&observations, &heldout_observations}) {
+    for (const auto& [relation, obs] : *some) {
+      for (const auto& i : obs) {
+        std::vector<std::string> items = std::get<0>(i);
+        int counter = 0;
+        std::vector<std::string> domains = std::visit(
+            [](const auto& r) { return r.domains; }, schema.at(relation));
+        for (const std::string& item : items) {
+          // Obtain domain that item belongs to.
+          std::string domain = domains.at(counter);
+          // Compute its code, if necessary.
+          if (!item_to_code.at(domain).contains(item)) {
+            int code = domain_item_counter[domain];
+            item_to_code[domain][item] = code;
+            code_to_item[domain][code] = item;
+            ++domain_item_counter[domain];
+          }
+          ++counter;
         }
-        ++counter;
       }
     }
   }
diff --git a/cxx/util_io.hh b/cxx/util_io.hh
index a6d8779..04339c7 100644
--- a/cxx/util_io.hh
+++ b/cxx/util_io.hh
@@ -24,9 +24,11 @@ void write_observations(
 
 // Calculates an encoding for the observations: in the input T_observations,
 // domain values are denoted by strings, and the encoding maps those to/from
-// integers.
+// integers.  Entities that are only in heldout_observations get their codes
+// after all others, so that the others have the codes they have without them.
 T_encoding calculate_encoding(
-    const T_schema& schema, const T_observations& observations);
+    const T_schema& schema, const T_observations& observations,
+    const T_observations& heldout_observations = {});
 
 // Returns the encoded version of the input observations.
 T_encoded_observations encode_observations(
-- 
2.43.0


From 980407df598b7c8095c4ddc96be078df4a9f9146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:57 +0000
Subject: [PATCH 34/67] fix: a missing schema or observation file was taken as
 empty by optimised builds

---
 cxx/util_io.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cxx/util_io.cc b/cxx/util_io.cc
index 5012285..55c05d3 100644
--- a/cxx/util_io.cc
+++ b/cxx/util_io.cc
@@ -101,7 +101,10 @@ static void check_val(const std::vector<Token>& tokens, size_t i,
 
 T_schema load_schema(const std::string& path) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Can not read schema file %s\n", path.c_str());
+    std::exit(1);
+  }
 
   T_schema schema;
   std::string line;
@@ -222,7 +225,10 @@ T_schema load_schema(const std::string& path) {
 
 T_observations load_observations(const std::string& path, T_schema& schema) {
   std::ifstream fp(path, std::ifstream::in);
-  assert(fp.good());
+  if (!fp.good()) {
+    printf("Can not read observations file %s\n", path.c_str());
+    std::exit(1);
+  }
 
   T_observations observations;
   std::string line;
-- 
2.43.0


From 28c5ada122e5f410ddd451bf054a818a48d3a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 35/67] fix: malformed delimited text was read out of bounds
 or, in optimised builds, into the wrong rows

---
 cxx/pclean/csv.cc | 75 ++++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 30 deletions(-)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index e9f527f..e6c827b 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -1,9 +1,33 @@
 #include "pclean/csv.hh"
 
-#include <cassert>
 #include <cctype>
+#include <cstdlib>
 #include <fstream>
-#include <sstream>
+
+namespace {
+
+// Splits a line at its commas and erases white space from the end of each
+// field.
+// TODO(thomaswc): Handle quoted fields
+std::vector<std::string> split_fields(const std::string& line) {
+  std::vector<std::string> fields;
+  size_t start = 0;
+  while (true) {
+    size_t end = line.find(',', start);
+    std::string part = line.substr(
+        start, end == std::string::npos ? end : end - start);
+    while (!part.empty() && isspace((unsigned char)part.back())) {
+      part.pop_back();
+    }
+    fields.push_back(part);
+    if (end == std::string::npos) {
+      return fields;
+    }
+    start = end + 1;
+  }
+}
+
+}  // namespace
 
 DataFrame DataFrame::from_csv(
     const std::string& filename, const std::vector<std::string>& column_names) {
@@ -11,7 +35,7 @@ DataFrame DataFrame::from_csv(
 
   if (!f.is_open()) {
     printf("Unable to open CSV file %s\n", filename.c_str());
-    assert(false);
+    std::exit(1);
   }
 
   DataFrame df = DataFrame::from_csv(f, column_names);
@@ -31,43 +55,34 @@ DataFrame DataFrame::from_csv(
     }
   }
 
-  bool first_line = true;
   std::string line;
   while (std::getline(is, line)) {
     // TODO(thomawc): Strip off comments started with a #
-    if (line.empty()) {
+    if (line.find_first_not_of(" \t\r\f\v") == std::string::npos) {
       continue;
     }
 
-    std::stringstream ss(line);
-    std::string part;
-    size_t i = 0;
-    // TODO(thomaswc): Handle quoted fields
-    while (std::getline(ss, part, ',')) {
-      // Erase white space from end of part
-      while (isspace(part.back())) {
-        part.pop_back();
-      }
-      if (first_line && column_names.empty()) {
-        df.columns.push_back(part);
-        df.data[part] = {};
-        continue;
+    std::vector<std::string> fields = split_fields(line);
+    if (df.columns.empty()) {
+      df.columns = fields;
+      for (const auto& c : fields) {
+        if (!df.data.try_emplace(c).second) {
+          printf("Column %s appears twice in line\n%s\n", c.c_str(),
+                 line.c_str());
+          std::exit(1);
+        }
       }
+      continue;
+    }
 
-      df.data[df.columns[i++]].push_back(part);
+    if (fields.size() != df.columns.size()) {
+      printf("Found %ld instead of %ld columns in line\n%s\n",
+             fields.size(), df.columns.size(), line.c_str());
+      std::exit(1);
     }
-    if (!first_line) {
-      if (line.back() == ',') {
-        // std::getline is broken and won't let the last field be empty.
-        df.data[df.columns[i++]].push_back("");
-      }
-      if (i != df.columns.size()) {
-        printf("Only found %ld out of %ld expected columns in line\n%s\n",
-               i, df.columns.size(), line.c_str());
-        assert(false);
-      }
+    for (size_t i = 0; i < fields.size(); ++i) {
+      df.data[df.columns[i]].push_back(fields[i]);
     }
-    first_line = false;
   }
 
   return df;
-- 
2.43.0


From acfa62fc64730af7f42444f3e2e4a72b28e8d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 36/67] fix: writing a table read past the end of shorter
 columns and reported success when the file could not be written

---
 cxx/pclean/csv.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cxx/pclean/csv.cc b/cxx/pclean/csv.cc
index e6c827b..af90795 100644
--- a/cxx/pclean/csv.cc
+++ b/cxx/pclean/csv.cc
@@ -95,7 +95,7 @@ bool DataFrame::to_csv(const std::string& filename) {
   }
   bool ok = to_csv(fp);
   fp.close();
-  return ok;
+  return ok && fp.good();
 }
 
 bool DataFrame::to_csv(std::ostream& os) {
@@ -103,6 +103,13 @@ bool DataFrame::to_csv(std::ostream& os) {
   if (columns.size() == 0) {
     return true;
   }
+  size_t num_rows = data[columns[0]].size();
+  for (const auto& c : columns) {
+    if (data[c].size() != num_rows) {
+      return false;
+    }
+  }
+
   for (size_t j = 0; j < columns.size(); ++j) {
     if (j != 0) {
       os << ",";
@@ -111,7 +118,6 @@ bool DataFrame::to_csv(std::ostream& os) {
   }
   os << "\n";
 
-  size_t num_rows = data[columns[0]].size();
   for (size_t i = 0; i < num_rows; ++i) {
     for (size_t j = 0; j < columns.size(); ++j) {
       if (j != 0) {
@@ -121,6 +127,6 @@ bool DataFrame::to_csv(std::ostream& os) {
     }
     os << "\n";
   }
-  return true;
+  return os.good();
 }
 
-- 
2.43.0


From ffcbf2c9857252ec01fafe5bd143369eb1096fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 37/67] fix: malformed variable definitions of data-cleaning
 schemas were read out of bounds or accepted

---
 cxx/pclean/io.cc | 52 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index c4e0325..9c68ec1 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -25,7 +25,9 @@ bool read_schema_file(const std::string& path, PCleanSchema* schema) {
 
 bool resolve_variable_definition(const std::vector<Token> &tokens,
                                  PCleanVariable* pcv) {
-  if ((tokens.size() == 3) && (std::isupper(tokens[2].val[0]))) {
+  if ((tokens.size() == 3) && (tokens[0].type == TokenType::identifier) &&
+      (tokens[2].type == TokenType::identifier) &&
+      (std::isupper(tokens[2].val[0]))) {
     // Class variable
     ClassVar cv;
     cv.class_name = tokens[2].val;
@@ -33,24 +35,40 @@ bool resolve_variable_definition(const std::vector<Token> &tokens,
     return true;
   }
 
+  // name ~ joint_name or name ~ joint_name(param=value, ...)
+  bool has_params = (tokens.size() >= 5) && (tokens[3].val == "(") &&
+      (tokens.back().val == ")");
+  if ((tokens[0].type != TokenType::identifier) ||
+      (tokens[2].type != TokenType::identifier) ||
+      ((tokens.size() != 3) && !has_params)) {
+    printf("Error parsing definition of variable %s\n", tokens[0].val.c_str());
+    return false;
+  }
+
   ScalarVar dv;
   dv.joint_name = tokens[2].val;
-  for (size_t i = 4; i < tokens.size() - 1; i += 4) {
-    if (i + 3 > tokens.size()) {
-      printf("Error parsing parameters of scalar variable %s -- too few tokens\n", tokens[0].val.c_str());
-      printf("At token %ld of %ld\n", i, tokens.size());
-      return false;
-    }
-    if (tokens[i+1].val != "=") {
-      printf("Error parsing parameters of scalar variable %s -- expected '=' but got %s\n", tokens[0].val.c_str(), tokens[i+1].val.c_str());
-      return false;
-    }
-    std::string s = tokens[i+3].val;
-    if ((s != ",") && (s != ")")) {
-      printf("Error parsing parameters of scalar variable %s -- expected ',' or '] but got %s'\n", tokens[0].val.c_str(), s.c_str());
-      return false;
+  if (tokens.size() > 5) {
+    for (size_t i = 4; i < tokens.size(); i += 4) {
+      if (i + 3 >= tokens.size()) {
+        printf("Error parsing parameters of scalar variable %s -- too few tokens\n", tokens[0].val.c_str());
+        printf("At token %ld of %ld\n", i, tokens.size());
+        return false;
+      }
+      if (tokens[i].type != TokenType::identifier) {
+        printf("Error parsing parameters of scalar variable %s -- expected parameter name but got %s\n", tokens[0].val.c_str(), tokens[i].val.c_str());
+        return false;
+      }
+      if (tokens[i+1].val != "=") {
+        printf("Error parsing parameters of scalar variable %s -- expected '=' but got %s\n", tokens[0].val.c_str(), tokens[i+1].val.c_str());
+        return false;
+      }
+      std::string s = tokens[i+3].val;
+      if (s != ((i + 4 == tokens.size()) ? ")" : ",")) {
+        printf("Error parsing parameters of scalar variable %s -- expected ',' or ')' but got %s\n", tokens[0].val.c_str(), s.c_str());
+        return false;
+      }
+      dv.params[tokens[i].val] = tokens[i+2].val;
     }
-    dv.params[tokens[i].val] = tokens[i+2].val;
   }
   pcv->spec = dv;
 
@@ -191,7 +209,7 @@ bool read_schema(std::istream& is, PCleanSchema* schema) {
         return false;
       }
       PCleanClass pcc;
-      if (tokens[0].type != TokenType::identifier) {
+      if (tokens[1].type != TokenType::identifier) {
         printf("Error parsing line %s:  second token of a class line must be an identifier\n",
                line.c_str());
         return false;
-- 
2.43.0


From ddc9e84992944596649e040a3ebf885778d9b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 38/67] fix: malformed query lines of data-cleaning schemas
 were accepted as other queries

---
 cxx/pclean/io.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index 9c68ec1..11c33c4 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -151,6 +151,10 @@ bool read_query(std::istream& is, PCleanQuery* query) {
         printf("Expected exactly two tokens on query from line %s", line.c_str());
         return false;
       }
+      if (tokens[1].type != TokenType::identifier) {
+        printf("Expected a class name on query from line %s\n", line.c_str());
+        return false;
+      }
       if (!query->record_class.empty()) {
         printf("Expected exactly one `from` clause in query.\n");
         return false;
@@ -159,8 +163,10 @@ bool read_query(std::istream& is, PCleanQuery* query) {
       continue;
     }
 
-    if (tokens.size() < 3) {
-      printf("Expected at least three tokens on `as` query line %s", line.c_str());
+    // var as Name or var.var.var as Name
+    if ((tokens.size() < 3) || (tokens.size() % 2 == 0) ||
+        (tokens[tokens.size() - 2].val != "as")) {
+      printf("Expected `path as name` on query line %s\n", line.c_str());
       return false;
     }
 
@@ -168,6 +174,10 @@ bool read_query(std::istream& is, PCleanQuery* query) {
     qf.name = tokens.back().val;
     for (size_t i = 0; i < tokens.size() - 2; ++i) {
       if (i % 2 == 0) {
+        if (tokens[i].type != TokenType::identifier) {
+          printf("Expected a variable at token %ld on query line %s\n", i, line.c_str());
+          return false;
+        }
         qf.class_path.push_back(tokens[i].val);
       } else {
         if (tokens[i].val != ".") {
-- 
2.43.0


From ea40cb3a07207df97f2fef4af7391e26c9d75020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 39/67] fix: a class, variable or query field that is defined
 twice silently replaced the first definition

---
 cxx/pclean/io.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cxx/pclean/io.cc b/cxx/pclean/io.cc
index 11c33c4..dee4a3e 100644
--- a/cxx/pclean/io.cc
+++ b/cxx/pclean/io.cc
@@ -116,7 +116,11 @@ bool read_class(std::istream& is, PCleanClass* pclass) {
       return false;
     }
 
-    pclass->vars[v.name] = v;
+    if (!pclass->vars.try_emplace(v.name, v).second) {
+      printf("Variable %s of class %s is defined twice.\n", v.name.c_str(),
+             pclass->name.c_str());
+      return false;
+    }
   }
   return true;
 }
@@ -186,7 +190,10 @@ bool read_query(std::istream& is, PCleanQuery* query) {
         }
       }
     }
-    query->fields[qf.name] = qf;
+    if (!query->fields.try_emplace(qf.name, qf).second) {
+      printf("Query field %s is defined twice.\n", qf.name.c_str());
+      return false;
+    }
   }
   return true;
 }
@@ -232,7 +239,10 @@ bool read_schema(std::istream& is, PCleanSchema* schema) {
       if (!success) {
         return false;
       }
-      schema->classes[pcc.name] = pcc;
+      if (!schema->classes.try_emplace(pcc.name, pcc).second) {
+        printf("Class %s is defined twice.\n", pcc.name.c_str());
+        return false;
+      }
       continue;
     }
 
-- 
2.43.0


From a119cde8f541f2c84048c8a4be18692e7f12d4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 40/67] fix: reference positions of a class with several levels
 of references were mixed up with those of its ancestors

---
 cxx/gendb.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 8bfc2e0..ac6fad7 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -945,11 +945,10 @@ void GenDB::compute_reference_indices_for(const std::string& name) {
       const int offset = total_offset;
       total_offset += domains.at(cv->class_name).size();
       class_ref_indices[v.first] = total_offset - 1;
-      std::map<std::string, int> child_class_indices;
       if (class_reference_indices.contains(cv->class_name)) {
         for (const auto& [ind, ref] :
              class_reference_indices.at(cv->class_name)) {
-          std::map<std::string, int> class_ref_indices;
+          std::map<std::string, int> child_class_indices;
           for (const auto& [field_name, ref_ind] : ref) {
             child_class_indices[field_name] = ref_ind + offset;
           }
-- 
2.43.0


From 9af64d962fe4ce0bda77be42c5e27a5488197f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 41/67] fix: with only final emissions, a query field lost the
 reference positions of its own path

---
 cxx/gendb.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index ac6fad7..f2fcec1 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -1027,11 +1027,13 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
         std::get<ScalarVar>(last_var.spec), noisy_domains, base_relation_name);
     tnr.is_observed = true;
     (*tschema)[f.name] = tnr;
-    // If the record class is the only class in the schema, there will be
-    // no entries in `relation_reference_indices`.
-    if (relation_reference_indices.contains(base_relation_name)) {
-      relation_reference_indices[f.name] =
-          relation_reference_indices.at(base_relation_name);
+    // The noisy relation has its leftmost domains in common with its base
+    // relation, so it shares the reference indices of the base relation's
+    // class as well.
+    if (class_reference_indices.contains(class_names.back())) {
+      const auto& base_indices = class_reference_indices.at(class_names.back());
+      relation_reference_indices[f.name].insert(base_indices.begin(),
+                                                base_indices.end());
     }
     return;
   }
-- 
2.43.0


From e27db29cee57102e95ec02ec941762d69ec850b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 42/67] fix: a clean observed attribute of a record class with
 references had no reference positions

---
 cxx/gendb.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index f2fcec1..89685f8 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -999,6 +999,12 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
       cr.is_observed = true;
       (*tschema)[f.name] = cr;
       tschema->erase(base_relation_name);
+      // If the record class is the only class in the schema, there will be
+      // no entries in `class_reference_indices`.
+      if (class_reference_indices.contains(record_class.name)) {
+        relation_reference_indices[f.name] =
+            class_reference_indices.at(record_class.name);
+      }
     } else {
       T_noisy_relation tnr =
           get_emission_relation(std::get<ScalarVar>(last_var.spec),
-- 
2.43.0


From f0495af59c0ff6d4758b3b92b6430944d717f26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:55 +0000
Subject: [PATCH 43/67] fix: classes that refer to each other in a cycle, and
 query paths that name no variable, were not refused

---
 cxx/gendb.cc | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 89685f8..f983741 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -902,14 +902,23 @@ void GenDB::compute_reference_indices_cache() {
 
 void GenDB::compute_domains_for(const std::string& name) {
   std::vector<std::string> ds;
-  assert(schema.classes.contains(name));
+  if (!schema.classes.contains(name)) {
+    printf("Unknown class %s\n", name.c_str());
+    std::exit(1);
+  }
   PCleanClass c = schema.classes.at(name);
+  // An empty list of domains marks a class whose domains are being computed.
+  domains[name] = {};
 
   for (const auto& v : c.vars) {
     if (const ClassVar* cv = std::get_if<ClassVar>(&(v.second.spec))) {
       if (!domains.contains(cv->class_name)) {
         compute_domains_for(cv->class_name);
       }
+      if (domains.at(cv->class_name).empty()) {
+        printf("Class %s refers to itself\n", cv->class_name.c_str());
+        std::exit(1);
+      }
       for (const std::string& s : domains[cv->class_name]) {
         ds.push_back(s);
       }
@@ -976,10 +985,18 @@ void GenDB::make_relations_for_queryfield(const QueryField& f,
   PCleanClass last_class = record_class;
   class_names.push_back(record_class.name);
   for (size_t i = 0; i < f.class_path.size(); ++i) {
-    const PCleanVariable& v = last_class.vars[f.class_path[i]];
+    const bool is_last = (i == f.class_path.size() - 1);
+    if (!last_class.vars.contains(f.class_path[i]) ||
+        std::holds_alternative<ScalarVar>(
+            last_class.vars.at(f.class_path[i]).spec) != is_last) {
+      printf("The path of query field %s does not lead to an attribute\n",
+             f.name.c_str());
+      std::exit(1);
+    }
+    const PCleanVariable v = last_class.vars.at(f.class_path[i]);
     last_var = v;
     var_names.push_back(v.name);
-    if (i < f.class_path.size() - 1) {
+    if (!is_last) {
       class_names.push_back(std::get<ClassVar>(v.spec).class_name);
       last_class = schema.classes.at(class_names.back());
     }
@@ -1098,6 +1115,10 @@ T_schema GenDB::make_hirm_schema() {
   // For every query field, make one or more relations by walking up
   // the class_path.  At least one of those relations will have name equal
   // to the name of the QueryField.
+  if (!schema.classes.contains(schema.query.record_class)) {
+    printf("Unknown record class %s\n", schema.query.record_class.c_str());
+    std::exit(1);
+  }
   const PCleanClass record_class = schema.classes.at(schema.query.record_class);
   for (const auto& [unused_name, f] : schema.query.fields) {
     make_relations_for_queryfield(f, record_class, &tschema);
-- 
2.43.0


From 0bc9a280818184435314dad4e7d4c8b121992180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 44/67] fix: references were told apart by a hash cut to 32
 bits, so two of them could be taken for one

---
 cxx/gendb.cc | 9 ++++-----
 cxx/gendb.hh | 5 +++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index f983741..96e1d12 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -144,15 +144,14 @@ T_items GenDB::sample_entities_relation(
   return items;
 }
 
-// Makes a unique hash for a reference (to be incorporated as an item into the
+// Makes a unique id for a reference (to be incorporated as an item into the
 // entity crp), based on the reference's class, field, and row id.
 int GenDB::get_reference_id(const std::string& class_name,
                             const std::string& ref_field,
                             const int class_item) {
-  std::stringstream new_id_str;
-  std::string sep = " ";  // Spaces are disallowed in class/variable names.
-  new_id_str << class_name << sep << class_item << sep << ref_field;
-  return std::hash<std::string>{}(new_id_str.str());
+  return reference_ids
+      .try_emplace({class_name, ref_field, class_item}, reference_ids.size())
+      .first->second;
 }
 
 // Takes a sample from ref_class's entity CRP, incorporates it into the CRP,
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index 9485974..b149548 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -5,6 +5,7 @@
 #include <map>
 #include <random>
 #include <string>
+#include <tuple>
 
 #include "distributions/crp.hh"
 #include "hirm.hh"
@@ -243,6 +244,10 @@ class GenDB {
   // observations of that class.
   std::map<std::string, CRP> entity_crps;
 
+  // The identifiers that get_reference_id has given out so far, by class name,
+  // reference field name and class_primary_key.
+  std::map<std::tuple<std::string, std::string, int>, int> reference_ids;
+
   bool only_final_emissions;
   bool record_class_is_clean;
   std::map<std::string, std::vector<std::string>> domains;
-- 
2.43.0


From 46ab136e4942432be11ad0a09a3911cf5ad58304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 45/67] fix: loading a noisy attribute of a record filled in
 the other observed attributes of the record with samples

---
 cxx/gendb.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 96e1d12..f23a8f7 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -201,6 +201,11 @@ void GenDB::sample_and_incorporate_for_class(std::mt19937* prng,
                                              const std::string& class_name,
                                              const T_item& item) {
   for (const std::string& rel_name : class_to_relations.at(class_name)) {
+    // Observed relations hold observations only.
+    if (std::visit([](const auto& tr) { return tr.is_observed; },
+                   hirm->schema.at(rel_name))) {
+      continue;
+    }
     sample_class_ancestors(prng, class_name, item);
     const std::vector<std::string>& domains = std::visit(
         [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
-- 
2.43.0


From 5164dfa13f791320636aaf1eaf68da3fb8e7cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:39 +0000
Subject: [PATCH 46/67] fix: rows loaded with unique entities shared the
 entities that their query fields do not pass through

---
 cxx/gendb.cc | 26 ++++++++++++++++++++++++++
 cxx/gendb.hh |  5 +++++
 2 files changed, 31 insertions(+)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index f23a8f7..28ab36f 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -68,6 +68,16 @@ void GenDB::incorporate(
           [&](auto tr) { return tr.domains; }, hirm->schema.at(query_rel));
       items.resize(domains.size());
       get_unique_entities_relation(query_rel, items.size() - 1, id, items);
+      // Values are also sampled for the relations of the class that a noisy
+      // relation's base relation belongs to.
+      if (const T_noisy_relation* t_query_rel =
+              std::get_if<T_noisy_relation>(&hirm->schema.at(query_rel))) {
+        const size_t base_arity = std::visit(
+            [&](auto tr) { return tr.domains.size(); },
+            hirm->schema.at(t_query_rel->base_relation));
+        add_unique_references(domains.at(base_arity - 1),
+                              items.at(base_arity - 1));
+      }
     } else {
       items =
           sample_entities_relation(prng, schema.query.record_class,
@@ -79,6 +89,22 @@ void GenDB::incorporate(
   }
 }
 
+void GenDB::add_unique_references(const std::string& class_name,
+                                  const int class_item) {
+  for (const auto& [name, var] : schema.classes.at(class_name).vars) {
+    if (const ClassVar* cv = std::get_if<ClassVar>(&(var.spec))) {
+      auto& refs = reference_values.at(class_name);
+      if (!refs.contains({name, class_item})) {
+        int new_val = entity_crps.at(cv->class_name).max_table() + 1;
+        int new_id = get_reference_id(class_name, name, class_item);
+        refs[{name, class_item}] = new_val;
+        entity_crps.at(cv->class_name).incorporate(new_id, new_val);
+      }
+      add_unique_references(cv->class_name, refs.at({name, class_item}));
+    }
+  }
+}
+
 void GenDB::get_unique_entities_relation(const std::string& rel_name,
                                          const int ind, const int class_item,
                                          T_items& items) {
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index b149548..a2d5c4e 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -46,6 +46,11 @@ class GenDB {
       const std::pair<std::string, int>& ref_key,
       const std::string& ref_class);
 
+  // Makes every reference of class_name at class_item that has no value yet
+  // (and recursively those of the entities it refers to) refer to a new entity.
+  void add_unique_references(const std::string& class_name,
+                             const int class_item);
+
   void get_unique_entities_relation(const std::string& rel_name, const int ind,
                                     const int class_item, T_items& items);
 
-- 
2.43.0


From 04a94b2ff1f40579b59e1f684e22aa590c538eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 47/67] fix: moving references left stale latent cells, removed
 values that others depend on, dropped the wrong entities and weighed
 candidates by their own prior probability

---
 cxx/gendb.cc | 579 +++++++++++++++++++++++----------------------------
 cxx/gendb.hh |  46 ++--
 2 files changed, 286 insertions(+), 339 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 28ab36f..9ad6f75 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -3,9 +3,12 @@
 
 #include "gendb.hh"
 
+#include <algorithm>
 #include <map>
 #include <random>
+#include <set>
 #include <string>
+#include <utility>
 #include <variant>
 
 #include "distributions/crp.hh"
@@ -319,16 +322,18 @@ void GenDB::get_relation_items(const std::string& rel_name, const int ind,
 std::map<std::string, std::vector<size_t>> GenDB::get_domain_inds(
     const std::string& class_name, const std::string& ref_field) {
   std::map<std::string, std::vector<size_t>> domain_inds;
-  for (const auto& [rel_name, query_field] : schema.query.fields) {
+  for (const auto& [rel_name, trel] : hirm->schema) {
     // Find relations that involve both the class and its reference field
     // (exclude relations that include the class only because it's a node in
     // a noisy observation path of something otherwise unrelated to the
     // observed attribute.)
-    std::vector<std::string> domains = std::visit(
-        [&](auto& trel) { return trel.domains; }, hirm->schema.at(rel_name));
-    for (size_t i = 0; i < domains.size(); ++i) {
-      if (domains[i] == class_name &&
-          relation_reference_indices.at(rel_name).at(i).contains(ref_field)) {
+    if (!relation_reference_indices.contains(rel_name)) {
+      continue;
+    }
+    const std::vector<std::string>& domains =
+        std::visit([](const auto& tr) { return tr.domains; }, trel);
+    for (const auto& [i, refs] : relation_reference_indices.at(rel_name)) {
+      if (domains.at(i) == class_name && refs.contains(ref_field)) {
         domain_inds[rel_name].push_back(i);
       }
     }
@@ -336,9 +341,30 @@ std::map<std::string, std::vector<size_t>> GenDB::get_domain_inds(
   return domain_inds;
 }
 
+// Sorts relations so that every noisy relation precedes its base relation.
+std::vector<std::string> GenDB::noisy_relations_first(
+    const std::vector<std::string>& rel_names) const {
+  std::vector<std::pair<int, std::string>> by_depth;
+  for (const std::string& rel_name : rel_names) {
+    int depth = 0;
+    const T_relation* trel = &hirm->schema.at(rel_name);
+    while (const T_noisy_relation* tnr = std::get_if<T_noisy_relation>(trel)) {
+      --depth;
+      trel = &hirm->schema.at(tnr->base_relation);
+    }
+    by_depth.push_back({depth, rel_name});
+  }
+  std::sort(by_depth.begin(), by_depth.end());
+  std::vector<std::string> sorted;
+  for (const auto& [unused_depth, rel_name] : by_depth) {
+    sorted.push_back(rel_name);
+  }
+  return sorted;
+}
+
 // Unincorporates the value of class_name.ref_field where the primary key
-// equals class_item. For singleton references, recursively unincorporates
-// from the reference class as well.
+// equals class_item. Returns the logp of the values that were unincorporated
+// from relations given the rest of the data.
 double GenDB::unincorporate_reference(
     const std::map<std::string, std::vector<size_t>> domain_inds,
     const std::string& class_name, const std::string& ref_field,
@@ -348,83 +374,74 @@ double GenDB::unincorporate_reference(
         stored_value_map,
     std::map<std::tuple<int, std::string, T_item>, int>&
         unincorporated_from_domains) {
+  std::vector<std::string> rel_names;
+  for (const auto& [rel_name, unused_inds] : domain_inds) {
+    rel_names.push_back(rel_name);
+  }
+
+  // The values of noisy relations depend on those of their base relations, so
+  // they are unincorporated first. All of the relations that a noisy relation
+  // is based on and that involve the reference are in domain_inds as well.
   double logp_relations = 0.;
-  for (auto [rel_name, inds] : domain_inds) {
-    RelationVariant r = hirm->get_relation(rel_name);
-    bool data_r_contains_item = std::visit(
-        [&](auto rel) {
-          return rel->get_data_r().at(class_name).contains(class_item);
-        },
-        r);
-    if (data_r_contains_item) {
-      const std::unordered_set<T_items, H_items>& items = std::visit(
-          [&](auto rel) {
-            return rel->get_data_r().at(class_name).at(class_item);
-          },
-          r);
-
-      for (const size_t ind : inds) {
-        for (const auto& item : items) {
-          if (item[ind] == class_item) {
-            auto f = [&](auto rel) {
-              logp_relations += unincorporate_reference_relation(
-                  rel, rel_name, item, ind, stored_value_map);
-            };
-            std::visit(f, r);
-          }
-        }
-      }
-    }
+  for (const std::string& rel_name : noisy_relations_first(rel_names)) {
+    auto f = [&](auto rel) {
+      logp_relations += unincorporate_reference_relation(
+          rel, rel_name, class_name, class_item, domain_inds.at(rel_name),
+          stored_value_map);
+    };
+    std::visit(f, hirm->get_relation(rel_name));
   }
 
   // Check if any entities need to be removed from IRM domain clusters (after
-  // they've been unincorporated from relations) and compute the change in logp.
-  double logp_domain_cluster = 0.;
+  // they've been unincorporated from relations).
   int ref_val = reference_values.at(class_name).at({ref_field, class_item});
   for (auto& [rel_name, inds] : domain_inds) {
     for (int d_ind : inds) {
       int r_ind =
           relation_reference_indices.at(rel_name).at(d_ind).at(ref_field);
-      logp_domain_cluster += unincorporate_from_domain_cluster_relation(
-          rel_name, ref_val, r_ind, unincorporated_from_domains);
+      unincorporate_from_domain_cluster_relation(rel_name, ref_val, r_ind,
+                                                 unincorporated_from_domains);
     }
   }
-  return logp_relations + logp_domain_cluster;
+  return logp_relations;
 }
 
-// Recursively unincorporates from base relations and stores values.
+// Unincorporates the values of a relation at the items that contain class_item
+// at one of the positions inds, and stores them.
 template <typename T>
 double GenDB::unincorporate_reference_relation(
-    Relation<T>* rel, const std::string& rel_name, const T_items& items,
-    const size_t ind,
+    Relation<T>* rel, const std::string& rel_name,
+    const std::string& class_name, const int class_item,
+    const std::vector<size_t>& inds,
     std::map<std::string,
              std::unordered_map<T_items, ObservationVariant, H_items>>&
         stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than or equal to the number of domains.
-  if (!rel->get_data().contains(items) || ind >= items.size()) {
-    return 0.;
+  double logp_rel = 0.;
+  const auto& items_with_class = rel->get_data_r().at(class_name);
+  if (!items_with_class.contains(class_item)) {
+    return logp_rel;
   }
-
-  // Store the items/value and unincorporate them.
-  T value = rel->get_value(items);
-  stored_value_map[rel_name][items] = value;
-
-  rel->unincorporate_from_cluster(items);
-  std::mt19937* prng = nullptr;  // unused
-  double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
-  // Clean up data but leave empty clusters in case they are re-populated later.
-  rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation(
-        base_rel_t, t_rel->base_relation, base_items, ind, stored_value_map);
+  // A copy, since cleanup_data modifies the set.
+  const std::unordered_set<T_items, H_items> all_items =
+      items_with_class.at(class_item);
+  for (const T_items& items : all_items) {
+    bool involves_reference = false;
+    for (const size_t ind : inds) {
+      involves_reference = involves_reference || items[ind] == class_item;
+    }
+    if (!involves_reference) {
+      continue;
+    }
+    // Store the items/value and unincorporate them.
+    T value = rel->get_value(items);
+    stored_value_map[rel_name][items] = value;
+    rel->unincorporate_from_cluster(items);
+    // Unused prng, since the cluster exists.
+    std::mt19937* prng = nullptr;
+    logp_rel += rel->cluster_or_prior_logp_from_items(prng, items, value);
+    // Clean up data but leave empty clusters in case they are re-populated
+    // later.
+    rel->cleanup_data(items);
   }
   return logp_rel;
 }
@@ -496,9 +513,24 @@ void GenDB::incorporate_reference_relation(
   for (const auto& [items, value] : stored_values.at(rel_name)) {
     // A base relation may have already been reincorporated by a different noisy
     // relation.
-    if (!rel->get_data().contains(items)) {
-      rel->incorporate(prng, items, std::get<T>(value));
+    if (rel->get_data().contains(items)) {
+      continue;
     }
+    // The entities that are referred to now may not have needed a base value so
+    // far.
+    if (const T_noisy_relation* trel =
+            std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
+      NoisyRelation<T>* noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
+      T_items base_items = noisy_rel->get_base_items(items);
+      if (!noisy_rel->base_relation->get_data().contains(base_items)) {
+        const std::vector<std::string>& base_domains =
+            std::visit([](const auto& tr) { return tr.domains; },
+                       hirm->schema.at(trel->base_relation));
+        sample_and_incorporate_for_class(prng, base_domains.back(),
+                                         base_items.back());
+      }
+    }
+    rel->incorporate(prng, items, std::get<T>(value));
   }
 }
 
@@ -506,12 +538,10 @@ void GenDB::incorporate_reference_relation(
 // appear in the data may still be incorporated into IRM domain clusters. This
 // method detects and unincorporates the entities, and stores their domain
 // cluster IDs (so that the entities can later be incorporated into the same
-// clusters, if sampled by transition_reference). It returns the CRP logp of any
-// unincorporated entities.
-double GenDB::unincorporate_from_domain_cluster_relation(
+// clusters).
+void GenDB::unincorporate_from_domain_cluster_relation(
     const std::string& r, const int item, const int ind,
     std::map<std::tuple<int, std::string, T_item>, int>& unincorporated) {
-  double logp_adj = 0.;
   int irm_code = hirm->relation_to_table(r);
   IRM* irm = hirm->irms.at(irm_code);
   const std::vector<std::string>& domains =
@@ -519,134 +549,77 @@ double GenDB::unincorporate_from_domain_cluster_relation(
   const std::string& ref_class = domains.at(ind);
   Domain* domain = irm->domains.at(ref_class);
 
-  // Return if:
-  //   - we have already unincorporated this entity from the IRM domain cluster
-  //   - we shouldn't unincorporate it because it still exists in the data.
-  //   - we can't because it wasn't ever in the data and is therefore not in the
-  //   cluster.
-  if (unincorporated.contains({irm_code, ref_class, item}) ||
-      irm->has_observation(ref_class, item) || !domain->items.contains(item)) {
-    return logp_adj;
+  // Entities that still exist in the data, or never did, are left alone.
+  if (domain->items.contains(item) && !irm->has_observation(ref_class, item)) {
+    unincorporated[{irm_code, ref_class, item}] =
+        domain->get_cluster_assignment(item);
+    domain->unincorporate(item);
   }
 
-  CRP& crp = domain->crp;
-  int cluster_id = crp.assignments.at(item);
-  domain->unincorporate(item);
-  if (crp.tables.contains(cluster_id)) {
-    logp_adj += crp.logp(cluster_id);
-  } else {
-    logp_adj += crp.logp_new_table();
-  }
-  unincorporated[{irm_code, ref_class, item}] = cluster_id;
-
   // Recursively check and unincorporate the entity's ancestors.
   if (relation_reference_indices.contains(r) &&
       relation_reference_indices.at(r).contains(ind)) {
-    for (auto [name, r_ind] : relation_reference_indices.at(r).at(ind)) {
-      int ref_item = reference_values.at(ref_class).at({name, item});
-      logp_adj += unincorporate_from_domain_cluster_relation(r, ref_item, r_ind,
-                                                             unincorporated);
+    for (const auto& [name, r_ind] : relation_reference_indices.at(r).at(ind)) {
+      const auto& refs = reference_values.at(ref_class);
+      if (refs.contains({name, item})) {
+        unincorporate_from_domain_cluster_relation(r, refs.at({name, item}),
+                                                   r_ind, unincorporated);
+      }
     }
   }
-  return logp_adj;
 }
 
-// Loops over the reference fields of class_name at class_item and
-// unincorporates the reference values from their entity clusters (assuming
-// class_name at class_item will be unincorporated). Stores the unincorporated
-// values so that they maybe re-incorporated later, if sampled by
-// transition_reference. This storage isn't strictly necessary, since we could
-// use reference_values to deduce the values that were unincorporated from the
-// entity CRPs, but this is a bit more convenient. For the top-level call (from
-// transition_reference, is_ancestor_reference=false), we do not accumulate logp
-// or unincorporate from the entity CRP, since these are handled separately for
-// the reference that's being transitioned.
-double GenDB::unincorporate_from_entity_cluster(
+// Incorporates entities into the IRM domain clusters they were unincorporated
+// from.
+void GenDB::reincorporate_domain_clusters(
+    const std::map<std::tuple<int, std::string, T_item>, int>& unincorporated) {
+  for (const auto& [k, cluster_id] : unincorporated) {
+    const auto& [irm_code, ref_class, item] = k;
+    Domain* domain = hirm->irms.at(irm_code)->domains.at(ref_class);
+    if (!domain->items.contains(item)) {
+      domain->incorporate(nullptr, item, cluster_id);
+    }
+  }
+}
+
+// Unincorporates the value of the reference field of class_name at class_item
+// from its entity cluster, and if nothing refers to the value any more, does the
+// same for *its* reference fields. Stores the unincorporated values so that they
+// may be re-incorporated or forgotten later. For the top-level call (from
+// unincorporate_singleton, is_ancestor_reference=false), we do not unincorporate
+// from the entity CRP, since this is handled separately for the reference that's
+// being transitioned.
+void GenDB::unincorporate_from_entity_cluster(
     const std::string& class_name, const std::string& ref_field,
     const int class_item,
     std::map<std::tuple<std::string, std::string, int>, int>& unincorporated,
     const bool is_ancestor_reference) {
-  double logp_adj = 0.;
-
-  int ref_id = get_reference_id(class_name, ref_field, class_item);
   int ref_item = reference_values.at(class_name).at({ref_field, class_item});
-
   const std::string& ref_class =
       std::get<ClassVar>(schema.classes.at(class_name).vars.at(ref_field).spec)
           .class_name;
   CRP& crp = entity_crps.at(ref_class);
   if (is_ancestor_reference) {
-    crp.unincorporate(ref_id);
+    crp.unincorporate(get_reference_id(class_name, ref_field, class_item));
     unincorporated[{class_name, ref_field, class_item}] = ref_item;
   }
-
   if (crp.tables.contains(ref_item)) {
-    if (is_ancestor_reference) {
-      logp_adj += crp.logp(ref_item);
-    }
-
-    for (const auto& [name, var] : schema.classes.at(ref_class).vars) {
-      if (std::holds_alternative<ClassVar>(var.spec)) {
-        // If this reference value was the only one in its entity_crp table,
-        // then the entity is removed from its class and we need to
-        // recursively unincorporate *its* reference values.
-        logp_adj += unincorporate_from_entity_cluster(ref_class, name, ref_item,
-                                                      unincorporated);
-      }
-    }
-  } else {
-    if (is_ancestor_reference) {
-      logp_adj += crp.logp_new_table();
-    }
-  }
-  return logp_adj;
-}
-
-// Recursively unincorporates from base relations and stores values.
-template <typename T>
-double GenDB::unincorporate_reference_relation_singleton(
-    Relation<T>* rel, const std::string& rel_name, const T_items& items,
-    std::map<std::string,
-             std::unordered_map<T_items, ObservationVariant, H_items>>&
-        stored_value_map) {
-  // We can stop unincorporating from base relations if the index of
-  // the domain of interest is greater than the number of domains.
-  const std::vector<std::string>& domains = std::visit(
-      [&](auto tr) { return tr.domains; }, hirm->schema.at(rel_name));
-  if (!rel->get_data().contains(items) ||
-      entity_crps.at(domains.back()).tables.contains(items.back())) {
-    return 0.;
+    return;
   }
-
-  // Store the items/value and unincorporate them.
-  T value = rel->get_value(items);
-  stored_value_map[rel_name][items] = value;
-
-  rel->unincorporate_from_cluster(items);
-  // Unused prng, since the cluster should exist.
-  std::mt19937* prng = nullptr;
-  double logp_rel = rel->cluster_or_prior_logp_from_items(prng, items, value);
-  // Clean up data but leave empty clusters in case they are re-populated later.
-  rel->cleanup_data(items);
-
-  // Recursively unincorporate from base relations.
-  if (const T_noisy_relation* t_rel =
-          std::get_if<T_noisy_relation>(&hirm->schema.at(rel_name))) {
-    auto noisy_rel = reinterpret_cast<NoisyRelation<T>*>(rel);
-    T_items base_items = noisy_rel->get_base_items(items);
-    RelationVariant base_rel = hirm->get_relation(t_rel->base_relation);
-    Relation<T>* base_rel_t = std::get<Relation<T>*>(base_rel);
-    logp_rel += unincorporate_reference_relation_singleton(
-        base_rel_t, t_rel->base_relation, base_items, stored_value_map);
+  for (const auto& [name, var] : schema.classes.at(ref_class).vars) {
+    if (std::holds_alternative<ClassVar>(var.spec) &&
+        reference_values.at(ref_class).contains({name, ref_item})) {
+      unincorporate_from_entity_cluster(ref_class, name, ref_item,
+                                        unincorporated);
+    }
   }
-  return logp_rel;
 }
 
 // When unincorporating the only reference to a given entity, we additionally
 // need to unincorporate data from relations corresponding to attributes of the
 // entity's class (or noisy observations of ancestor attributes by the entity's
-// class).
-double GenDB::unincorporate_singleton(
+// class), and likewise for the entities that only it refers to.
+void GenDB::unincorporate_singleton(
     const std::string& class_name, const std::string& ref_field,
     const int class_item, const std::string& ref_class,
     std::map<std::string,
@@ -656,37 +629,63 @@ double GenDB::unincorporate_singleton(
         unincorporated_from_domains,
     std::map<std::tuple<std::string, std::string, int>, int>&
         unincorporated_from_entity_crps) {
-  double logp_refclass = 0.;
-
   int ref_val = reference_values.at(class_name).at({ref_field, class_item});
-  logp_refclass +=
-      unincorporate_from_entity_cluster(class_name, ref_field, class_item,
-                                        unincorporated_from_entity_crps, false);
-
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += std::visit(
-        [&](auto r) {
-          return unincorporate_reference_relation_singleton(r, rel, base_items,
-                                                            stored_value_map);
-        },
-        hirm->get_relation(rel));
+  if (entity_crps.at(ref_class).tables.contains(ref_val)) {
+    return;
   }
-  for (auto& rel : class_to_relations.at(ref_class)) {
-    const std::vector<std::string>& domains =
-        std::visit([&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-    T_items base_items(domains.size());
-    get_relation_items(rel, base_items.size() - 1, ref_val, base_items);
-    logp_refclass += unincorporate_from_domain_cluster_relation(
-        rel, base_items.back(), base_items.size() - 1,
-        unincorporated_from_domains);
+  unincorporate_from_entity_cluster(class_name, ref_field, class_item,
+                                    unincorporated_from_entity_crps, false);
+
+  // The entities that nothing refers to any more.
+  std::map<std::string, std::set<int>> entities;
+  entities[ref_class].insert(ref_val);
+  for (const auto& [k, item] : unincorporated_from_entity_crps) {
+    const auto& [c, field, unused_item] = k;
+    const std::string& item_class =
+        std::get<ClassVar>(schema.classes.at(c).vars.at(field).spec).class_name;
+    if (!entity_crps.at(item_class).tables.contains(item)) {
+      entities[item_class].insert(item);
+    }
   }
-  return logp_refclass;
+
+  std::vector<std::string> rel_names;
+  for (const auto& [c, unused_items] : entities) {
+    if (class_to_relations.contains(c)) {
+      const auto& rels = class_to_relations.at(c);
+      rel_names.insert(rel_names.end(), rels.begin(), rels.end());
+    }
+  }
+  auto visit_entities = [&](auto f) {
+    for (const std::string& rel_name : noisy_relations_first(rel_names)) {
+      const std::vector<std::string>& domains =
+          std::visit([](const auto& tr) { return tr.domains; },
+                     hirm->schema.at(rel_name));
+      for (const int item : entities.at(domains.back())) {
+        f(rel_name, domains, item);
+      }
+    }
+  };
+  visit_entities([&](const std::string& rel_name,
+                     const std::vector<std::string>& domains, const int item) {
+    auto f = [&](auto rel) {
+      unincorporate_reference_relation(rel, rel_name, domains.back(), item,
+                                       {domains.size() - 1}, stored_value_map);
+    };
+    std::visit(f, hirm->get_relation(rel_name));
+  });
+  visit_entities([&](const std::string& rel_name,
+                     const std::vector<std::string>& domains, const int item) {
+    unincorporate_from_domain_cluster_relation(
+        rel_name, item, domains.size() - 1, unincorporated_from_domains);
+  });
 }
 
+// The candidates are the entities that other references refer to and one that
+// nothing else refers to: the current value, or a new entity whose references
+// and attributes are sampled from the prior (as in Algorithm 8 of Neal, 2000).
+// Everything that the candidates are given before the choice is therefore left
+// out of their weights, which are those of the reference in its entity CRP and
+// of the data that depends on the reference.
 void GenDB::transition_reference(std::mt19937* prng,
                                  const std::string& class_name,
                                  const std::string& ref_field,
@@ -695,7 +694,8 @@ void GenDB::transition_reference(std::mt19937* prng,
   const std::string& ref_class =
       std::get<ClassVar>(schema.classes.at(class_name).vars.at(ref_field).spec)
           .class_name;
-  int init_refval = reference_values.at(class_name).at({ref_field, class_item});
+  int& refval = reference_values.at(class_name).at({ref_field, class_item});
+  const int init_refval = refval;
   std::map<int, double> crp_dist =
       entity_crps.at(ref_class).tables_weights_gibbs(init_refval);
   if (crp_dist.size() == 1) {
@@ -708,136 +708,80 @@ void GenDB::transition_reference(std::mt19937* prng,
   std::map<std::string, std::vector<size_t>> domain_inds =
       get_domain_inds(class_name, ref_field);
 
-  // Unincorporate and compute the logp for the current reference value,
-  // accounting for relation cluster logps and IRM domain CRP logps. The Gibbs
-  // probability of the reference value in its own entity CRP is handled
-  // separately. Additional work is done later for singleton reference values.
+  // Unincorporate the data that depends on the reference. Entities stay in the
+  // IRM domain clusters they are in until a new value is sampled.
   std::map<std::string,
            std::unordered_map<T_items, ObservationVariant, H_items>>
       stored_values;  // Stores relation items and values.
-  std::map<int, std::map<std::tuple<int, std::string, T_item>, int>>
+  std::map<std::tuple<int, std::string, T_item>, int>
       unincorporated_from_domains;  // Stores IRM domain cluster IDs.
-  double logp_current = unincorporate_reference(
-      domain_inds, class_name, ref_field, class_item, stored_values,
-      unincorporated_from_domains[init_refval]);
-
-  std::vector<int> entities(crp_dist.size());
-  std::vector<double> logps(crp_dist.size(), 0.);
-
-  // Find which entity represents the singleton CRP table -- this is either
-  // init_refval or a previously-unseen entity.
-  int singleton_entity = init_refval;
-  for (const auto [t, w] : crp_dist) {
-    if (!entity_crps.at(ref_class).tables.contains(t)) {
-      singleton_entity = t;
-    }
-  }
+  double logp_current =
+      unincorporate_reference(domain_inds, class_name, ref_field, class_item,
+                              stored_values, unincorporated_from_domains);
+  reincorporate_domain_clusters(unincorporated_from_domains);
 
-  // Unincorporate the reference value from its entity CRP. It is important that
-  // this is done before the call to unincorporate_singleton.
   int ref_id = get_reference_id(class_name, ref_field, class_item);
   entity_crps.at(ref_class).unincorporate(ref_id);
 
-  // If the current reference value is a singleton (there are no other
-  // references to it, and it is the sole member of its entity CRP table), we
-  // need to unincorporate its row from the class that it references (including
-  // unincorporating all associated data from the relations associated with its
-  // attributes).
-  std::map<std::string,
-           std::unordered_map<T_items, ObservationVariant, H_items>>
-      ref_class_relation_stored_values;  // Stores data unincorporated from
-                                         // relations.
-  std::map<std::tuple<std::string, std::string, int>, int>
-      unincorporated_from_entity_crps;
-  if (singleton_entity == init_refval) {
-    logp_current +=
-        unincorporate_singleton(class_name, ref_field, class_item, ref_class,
-                                ref_class_relation_stored_values,
-                                unincorporated_from_domains[init_refval],
-                                unincorporated_from_entity_crps);
-  }
-
-  // Loop over the candidate reference values and compute the logp of each.
-  int i = 0;
-  for (const auto& [table, n_customers] : crp_dist) {
-    entities[i] = table;
-    logps[i] += log(n_customers);
-
-    reference_values.at(class_name).at({ref_field, class_item}) = table;
-
-    if (table == init_refval) {
-      logps[i++] += logp_current;
-      continue;
-    }
-
-    // Handle the singleton entity, if it was not init_refval (i.e. it is
-    // previously unseen).
-    if (table == singleton_entity) {
-      // Sample and incorporate a new row into the ref_class table. Update
-      // reference_values and entity_crps.
-      T_items unused_base_items =
-          sample_class_ancestors(prng, ref_class, table);
-
-      // Sample and incorporate values into the relations corresponding to
-      // the reference class. This may also incorporate new values into the IRM
-      // domain clusters.
-      for (auto& rel : class_to_relations.at(ref_class)) {
-        const std::vector<std::string>& domains = std::visit(
-            [&](auto tr) { return tr.domains; }, hirm->schema.at(rel));
-        T_items base_items(domains.size());
-        get_relation_items(rel, base_items.size() - 1, table, base_items);
-        bool c = std::visit(
-            [&](auto r) { return r->get_data().contains(base_items); },
-            hirm->get_relation(rel));
-        if (!c) {
-          hirm->sample_and_incorporate_relation(prng, rel, base_items);
-        }
-      }
+  std::vector<int> entities;
+  std::vector<double> logps;
+  int singleton_entity = init_refval;
+  for (const auto& [table, weight] : crp_dist) {
+    if (!entity_crps.at(ref_class).tables.contains(table)) {
+      singleton_entity = table;
     }
-
-    // Get items and values with new entity linkages.
-    decltype(stored_values) updated_values_i = update_reference_items(
-        stored_values, class_name, ref_field, class_item, table);
-
-    // Incorporate the items/values with new entity linkages into the
-    // relations. This may also incorporate new values into the IRM
-    // domain clusters.
-    incorporate_reference(prng, updated_values_i);
-
-    // Unincorporate the items containing the entity linkage from relations.
-    // New entities may have been added to domain clusters in the IRMs;
-    // unincorporate them, add up their logp, and store the cluster IDs
-    // (so they can be re-incorporated if this table is chosen).
-    logps[i] += unincorporate_reference(domain_inds, class_name, ref_field,
-                                        class_item, updated_values_i,
-                                        unincorporated_from_domains[table]);
-
-    // If table is the singleton, unincorporate and store its references from
-    // the entity CRPs. Unincorporate and store the items/values corresponding
-    // to the added row in the reference class and their IRM domain clusters.
-    if (table == singleton_entity) {
-      logps[i] += unincorporate_singleton(
-          class_name, ref_field, class_item, ref_class,
-          ref_class_relation_stored_values, unincorporated_from_domains[table],
-          unincorporated_from_entity_crps);
+    double logp_table = logp_current;
+    if (table != init_refval) {
+      // Make sure that the candidate refers to entities, then move the data to
+      // it. This also samples the values of the candidate that the data
+      // depends on, and its IRM domain clusters, where there are none yet.
+      sample_class_ancestors(prng, ref_class, table);
+      decltype(stored_values) updated_values = update_reference_items(
+          stored_values, class_name, ref_field, class_item, table);
+      incorporate_reference(prng, updated_values);
+      refval = table;
+      decltype(unincorporated_from_domains) unincorporated_i;
+      logp_table = unincorporate_reference(domain_inds, class_name, ref_field,
+                                           class_item, updated_values,
+                                           unincorporated_i);
+      refval = init_refval;
+      reincorporate_domain_clusters(unincorporated_i);
+      unincorporated_from_domains.merge(unincorporated_i);
     }
-
-    ++i;
+    entities.push_back(table);
+    logps.push_back(log(weight) + logp_table);
   }
 
   // Sample a new reference value.
-  int new_ind = sample_from_logps(logps, prng);
-  int new_refval = entities.at(new_ind);
-
+  int new_refval = entities.at(sample_from_logps(logps, prng));
   decltype(stored_values) updated_values_new = update_reference_items(
       stored_values, class_name, ref_field, class_item, new_refval);
-  if (singleton_entity == new_refval) {
-    updated_values_new.merge(ref_class_relation_stored_values);
+
+  // Unincorporate the candidate that nothing refers to, if it was not sampled.
+  decltype(stored_values) unused_values;
+  std::map<std::tuple<std::string, std::string, int>, int>
+      unincorporated_from_entity_crps;
+  if (new_refval != singleton_entity) {
+    refval = singleton_entity;
+    unincorporate_singleton(class_name, ref_field, class_item, ref_class,
+                            unused_values, unincorporated_from_domains,
+                            unincorporated_from_entity_crps);
   }
   reincorporate_new_refval(class_name, ref_field, class_item, new_refval,
                            ref_class, updated_values_new,
-                           unincorporated_from_domains.at(new_refval),
+                           unincorporated_from_domains,
                            unincorporated_from_entity_crps);
+
+  // Remove the candidates that do not appear in the data from the IRM domain
+  // clusters.
+  for (const auto& [k, unused_cluster_id] : unincorporated_from_domains) {
+    const auto& [irm_code, c, item] = k;
+    IRM* irm = hirm->irms.at(irm_code);
+    if (irm->domains.at(c)->items.contains(item) &&
+        !irm->has_observation(c, item)) {
+      irm->domains.at(c)->unincorporate(item);
+    }
+  }
 }
 
 void GenDB::reincorporate_new_refval(
@@ -855,13 +799,7 @@ void GenDB::reincorporate_new_refval(
   std::mt19937 prng;  // Debug why empty clusters sometimes get cleaned up.
 
   // Incorporate the chosen entities back into their previous domain CRPs.
-  for (auto [k, v] : unincorporated_from_domains) {
-    auto [irm_code, r_class, item] = k;
-    // TODO: Debug. This check shouldn't be necessary.
-    if (!hirm->irms.at(irm_code)->domains.at(r_class)->items.contains(item)) {
-      hirm->irms.at(irm_code)->domains.at(r_class)->incorporate(&prng, item, v);
-    }
-  }
+  reincorporate_domain_clusters(unincorporated_from_domains);
 
   // Update reference_values.
   reference_values.at(class_name).at({ref_field, class_item}) = new_refval;
@@ -906,8 +844,13 @@ void GenDB::transition_reference_class_and_ancestors(
     }
   }
 
-  for (auto [k, v] : reference_values.at(class_name)) {
-    auto [ref_field, class_item] = k;
+  // A copy, since entities that nothing refers to any more are removed.
+  const auto references = reference_values.at(class_name);
+  for (const auto& [k, unused_refval] : references) {
+    const auto& [ref_field, class_item] = k;
+    if (!reference_values.at(class_name).contains(k)) {
+      continue;
+    }
     transition_reference(prng, class_name, ref_field, class_item);
   }
 }
diff --git a/cxx/gendb.hh b/cxx/gendb.hh
index a2d5c4e..e7e2cb8 100644
--- a/cxx/gendb.hh
+++ b/cxx/gendb.hh
@@ -82,8 +82,13 @@ class GenDB {
   std::map<std::string, std::vector<size_t>> get_domain_inds(
       const std::string& class_name, const std::string& ref_field);
 
-  // Unincorporates all data where class_name refers to ref_field amd has
-  // primary key value class_item.
+  // Sorts relations so that every noisy relation precedes its base relation.
+  std::vector<std::string> noisy_relations_first(
+      const std::vector<std::string>& rel_names) const;
+
+  // Unincorporates all data where class_name refers to ref_field and has
+  // primary key value class_item. Returns the logp of the data given the rest
+  // of the data.
   double unincorporate_reference(
       std::map<std::string, std::vector<size_t>> domain_inds,
       const std::string& class_name, const std::string& ref_field,
@@ -94,20 +99,14 @@ class GenDB {
       std::map<std::tuple<int, std::string, T_item>, int>&
           unincorporated_from_domains);
 
-  // Unincorporates and stores items/values from a relation.
+  // Unincorporates and stores the values of a relation at the items that
+  // contain class_item at one of the positions inds. Returns the logp of the
+  // unincorporated values.
   template <typename T>
   double unincorporate_reference_relation(
-      Relation<T>* rel, const std::string& rel_name, const T_items& items,
-      const size_t ind,
-      std::map<std::string,
-               std::unordered_map<T_items, ObservationVariant, H_items>>&
-          stored_value_map);
-
-  // Recursively unincorporates from base relations and stores values. Returns
-  // the logp of the unincorporated values.
-  template <typename T>
-  double unincorporate_reference_relation_singleton(
-      Relation<T>* rel, const std::string& rel_name, const T_items& items,
+      Relation<T>* rel, const std::string& rel_name,
+      const std::string& class_name, const int class_item,
+      const std::vector<size_t>& inds,
       std::map<std::string,
                std::unordered_map<T_items, ObservationVariant, H_items>>&
           stored_value_map);
@@ -149,15 +148,20 @@ class GenDB {
   int get_reference_id(const std::string& class_name,
                        const std::string& ref_field, const int class_item);
 
-  // Unincorporates entities from IRM domain clusters and return the logp of the
-  // unincorporated entities.
-  double unincorporate_from_domain_cluster_relation(
+  // Unincorporates entities that no longer appear in the data from IRM domain
+  // clusters, and stores their cluster IDs.
+  void unincorporate_from_domain_cluster_relation(
       const std::string& r, int item, const int ind,
       std::map<std::tuple<int, std::string, T_item>, int>& unincorporated);
 
-  // Unincorporates reference values from their entity clusters and returns the
-  // logp of the unincorporated values.
-  double unincorporate_from_entity_cluster(
+  // Incorporates entities into the IRM domain clusters they were unincorporated
+  // from.
+  void reincorporate_domain_clusters(
+      const std::map<std::tuple<int, std::string, T_item>, int>&
+          unincorporated);
+
+  // Unincorporates reference values from their entity clusters.
+  void unincorporate_from_entity_cluster(
       const std::string& class_name, const std::string& ref_field,
       const int class_item,
       std::map<std::tuple<std::string, std::string, int>, int>& unincorporated,
@@ -165,7 +169,7 @@ class GenDB {
 
   // Unincorporates a singleton reference (including, recursively, the
   // corresponding row in the table it points to).
-  double unincorporate_singleton(
+  void unincorporate_singleton(
       const std::string& class_name, const std::string& ref_field,
       const int class_item, const std::string& ref_class,
       std::map<std::string,
-- 
2.43.0


From 00fe9a163485e688696dceac609d30b74134811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:24 +0000
Subject: [PATCH 48/67] fix: rounding could leave a negative variance when
 values were removed, and scores that are NaN

---
 cxx/distributions/normal.cc           | 3 +++
 cxx/distributions/zero_mean_normal.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/cxx/distributions/normal.cc b/cxx/distributions/normal.cc
index b35e195..52a2847 100644
--- a/cxx/distributions/normal.cc
+++ b/cxx/distributions/normal.cc
@@ -3,6 +3,7 @@
 
 #include "normal.hh"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <numbers>
@@ -22,6 +23,8 @@ void Normal::incorporate(const double& x, double weight) {
   double old_mean = mean;
   mean += weight * (x - mean) / N;
   var += weight * ((x - mean) * (x - old_mean) - var) / N;
+  // Rounding must not leave a negative variance when a large value is removed.
+  var = std::max(0.0, var);
 }
 
 void Normal::posterior_hypers(double* mprime, double* sprime) const {
diff --git a/cxx/distributions/zero_mean_normal.cc b/cxx/distributions/zero_mean_normal.cc
index 10a9a9b..12b144e 100644
--- a/cxx/distributions/zero_mean_normal.cc
+++ b/cxx/distributions/zero_mean_normal.cc
@@ -3,6 +3,7 @@
 
 #include "zero_mean_normal.hh"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <numbers>
@@ -25,6 +26,8 @@ void ZeroMeanNormal::incorporate(const double& x, double weight) {
     return;
   }
   var += weight * (x * x - var) / N;
+  // Rounding must not leave a negative variance when a large value is removed.
+  var = std::max(0.0, var);
 }
 
 double ZeroMeanNormal::logp(const double& x) const {
-- 
2.43.0


From 6ffdb2a39f903a2c14d2bae4686b27fab9313126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 49/67] fix: the samples of the pclean program were never
 written: their table had no columns

---
 cxx/pclean/pclean.cc     | 5 ++++-
 cxx/pclean/pclean_lib.cc | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 0284376..887b5f9 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -133,7 +133,10 @@ int main(int argc, char** argv) {
     DataFrame samples_df = make_pclean_samples(
         num_samples, df.data.begin()->second.size(), &gendb, &prng);
     std::cout << "Writing samples to " << samples_out << " ...\n";
-    samples_df.to_csv(samples_out);
+    if (!samples_df.to_csv(samples_out)) {
+      std::cout << "Error writing samples to " << samples_out << "\n";
+      return 1;
+    }
   }
 
   return 0;
diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 25dcbbe..d368b06 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -65,14 +65,18 @@ void make_pclean_sample(
         query_field.class_path.begin(), query_field.class_path.end(),
         class_item);
 
-    (*query_values)[query_field.name] = gendb->hirm->sample_and_incorporate_relation(
-        prng, query_field.name, entities);
+    (*query_values)[name] =
+        gendb->hirm->sample_and_incorporate_relation(prng, name, entities);
   }
 }
 
 DataFrame make_pclean_samples(int num_samples, int start_row, GenDB *gendb,
                               std::mt19937* prng) {
   DataFrame df;
+  for (const auto& [name, unused_query_field] : gendb->schema.query.fields) {
+    df.columns.push_back(name);
+    df.data[name] = {};
+  }
   for (int i = 0; i < num_samples; i++) {
      std::map<std::string, std::string> query_values;
      make_pclean_sample(prng, gendb, start_row + i, &query_values);
-- 
2.43.0


From c8b83ddeffb735300f847abe95284bc5fead16df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 50/67] fix: held-out rows were given the ids of the training
 rows, and samples the ids of held-out rows

---
 cxx/pclean/pclean.cc     |  7 +++++--
 cxx/pclean/pclean_lib.cc | 11 ++++++++---
 cxx/pclean/pclean_lib.hh |  9 +++++++--
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 887b5f9..5f45cae 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -115,13 +115,16 @@ int main(int argc, char** argv) {
     to_txt(out_fn, *(gendb.hirm), encoding);
   }
 
+  int num_rows = get_num_rows(df);
+
   std::string heldout_fn = result["heldout"].as<std::string>();
   if (!heldout_fn.empty()) {
     std::cout << "Loading held out observations from " << heldout_fn << std::endl;
     DataFrame heldout_df = DataFrame::from_csv(heldout_fn);
     std::cout << "Incorporating held out observations ...\n";
     double lp1 = gendb.logp_score();
-    incorporate_observations(&prng, &gendb, heldout_df);
+    incorporate_observations(&prng, &gendb, heldout_df, num_rows);
+    num_rows += get_num_rows(heldout_df);
     double lp2 = gendb.logp_score();
     std::cout << "Log likelihood of held out data is " << (lp2 - lp1) << std::endl;
   }
@@ -131,7 +134,7 @@ int main(int argc, char** argv) {
     std::string samples_out = result["output"].as<std::string>() + ".samples";
     std::cout << "Generating " << num_samples << " samples\n";
     DataFrame samples_df = make_pclean_samples(
-        num_samples, df.data.begin()->second.size(), &gendb, &prng);
+        num_samples, num_rows, &gendb, &prng);
     std::cout << "Writing samples to " << samples_out << " ...\n";
     if (!samples_df.to_csv(samples_out)) {
       std::cout << "Error writing samples to " << samples_out << "\n";
diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index d368b06..cce3938 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -11,8 +11,9 @@
 
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df) {
-  int num_rows = df.data.begin()->second.size();
+                              const DataFrame& df,
+                              int first_row) {
+  int num_rows = get_num_rows(df);
   for (int i = 0; i < num_rows; i++) {
     std::map<std::string, ObservationVariant> row_values;
     for (const auto& col : df.data) {
@@ -50,10 +51,14 @@ void incorporate_observations(std::mt19937* prng,
     // TODO(emilyaf): Consider using new_rows_have_unique_entities=false
     // after entity transitions are allowed and numeric stability issues
     // are addressed.
-    gendb->incorporate(prng, std::make_pair(i, row_values), true);
+    gendb->incorporate(prng, std::make_pair(first_row + i, row_values), true);
   }
 }
 
+int get_num_rows(const DataFrame& df) {
+  return df.data.empty() ? 0 : df.data.begin()->second.size();
+}
+
 // Sample a single "row" into *query_values.  A value is sampled into
 // (*query_values)[f] for every query field in the schema.
 void make_pclean_sample(
diff --git a/cxx/pclean/pclean_lib.hh b/cxx/pclean/pclean_lib.hh
index a763294..19a4b14 100644
--- a/cxx/pclean/pclean_lib.hh
+++ b/cxx/pclean/pclean_lib.hh
@@ -13,10 +13,15 @@
 // For each non-missing value in the DataFrame df, create an
 // observation and incorporate it into the GenDB.  The column name of the value
 // is used as the relation name, and each entity in each domain is given
-// its own unique value.
+// its own unique value.  The rows of df get the ids first_row, first_row + 1,
+// ..., which must not be in use.
 void incorporate_observations(std::mt19937* prng,
                               GenDB *gendb,
-                              const DataFrame& df);
+                              const DataFrame& df,
+                              int first_row = 0);
+
+// The number of rows in the DataFrame df.
+int get_num_rows(const DataFrame& df);
 
 // Return a dataframe of num_samples samples from the GenDB.
 // All existing rows added to gendb should have ids < start_row.
-- 
2.43.0


From 06d1490428423927fc3f545e947982d0ad82d11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 51/67] fix: the pclean program could not write its clusters:
 the rows had no names

---
 cxx/pclean/pclean_lib.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index cce3938..2bc7949 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -97,11 +97,22 @@ T_encoding make_dummy_encoding_from_gendb(const GenDB& gendb) {
   T_encoding_f item_to_code;
   T_encoding_r code_to_item;
 
+  // TODO: Make the auto-generated string include the row number
+  // and CSV field name, for ease in debugging and visualizations.
+  auto add_item = [&](const std::string& domain, int i) {
+    code_to_item[domain][i] = domain + ":" + std::to_string(i);
+  };
   for (const auto& [domain, crp] : gendb.entity_crps) {
     for (int i = 0; i <= crp.max_table(); ++i) {
-      // TODO: Make the auto-generated string include the row number
-      // and CSV field name, for ease in debugging and visualizations.
-      code_to_item[domain][i] = domain + ":" + std::to_string(i);
+      add_item(domain, i);
+    }
+  }
+  // The items of the record class are rows, which no CRP has as its tables.
+  for (const auto& [unused_table, irm] : gendb.hirm->irms) {
+    for (const auto& [name, domain] : irm->domains) {
+      for (const auto& item : domain->items) {
+        add_item(name, item);
+      }
     }
   }
 
-- 
2.43.0


From f1e5c1f15923e4cf6e3dce83c4d074649d0a6169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 52/67] fix: the pclean program went on without a schema it
 could not read, and reported success for a call it could not carry out

---
 cxx/pclean/pclean.cc     | 10 ++++++++--
 cxx/pclean/pclean_lib.cc |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/cxx/pclean/pclean.cc b/cxx/pclean/pclean.cc
index 5f45cae..d7814db 100644
--- a/cxx/pclean/pclean.cc
+++ b/cxx/pclean/pclean.cc
@@ -60,7 +60,12 @@ int main(int argc, char** argv) {
 
   if ((result.count("schema") < 1) || (result.count("obs") < 1)) {
     std::cout << "Must specify --schema and --obs\n";
-    return 0;
+    return 1;
+  }
+
+  if ((result["samples"].as<int>() > 0) && (result.count("output") < 1)) {
+    std::cout << "Must specify --output to generate samples\n";
+    return 1;
   }
 
   int seed = result["seed"].as<int>();
@@ -73,7 +78,8 @@ int main(int argc, char** argv) {
   std::string schema_fn = result["schema"].as<std::string>();
   std::cout << "Reading schema file from " << schema_fn << "\n";
   if (!read_schema_file(schema_fn, &pclean_schema)) {
-    std::cout << "Error reading schema file" << schema_fn << "\n";
+    std::cout << "Error reading schema file " << schema_fn << "\n";
+    return 1;
   }
 
   // Make GenDB
diff --git a/cxx/pclean/pclean_lib.cc b/cxx/pclean/pclean_lib.cc
index 2bc7949..39ef9a9 100644
--- a/cxx/pclean/pclean_lib.cc
+++ b/cxx/pclean/pclean_lib.cc
@@ -34,7 +34,7 @@ void incorporate_observations(std::mt19937* prng,
 
       // Don't allow non-printable characters in val.
       for (const char c: val) {
-        if (!std::isprint(c)) {
+        if (!std::isprint((unsigned char)c)) {
           printf("Found non-printable character with ascii value %d on line "
                  "%d of column %s in value `%s`.\n",
                  (int) c, i + 2, col_name.c_str(), val.c_str());
-- 
2.43.0


From 39219068728773b6a9e5119a0f92e42a5c904c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:11 +0000
Subject: [PATCH 53/67] fix: putting values back under a new entity left them
 at the old one, unless the caller had moved them

---
 cxx/gendb.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cxx/gendb.cc b/cxx/gendb.cc
index 9ad6f75..5851fc6 100644
--- a/cxx/gendb.cc
+++ b/cxx/gendb.cc
@@ -754,8 +754,6 @@ void GenDB::transition_reference(std::mt19937* prng,
 
   // Sample a new reference value.
   int new_refval = entities.at(sample_from_logps(logps, prng));
-  decltype(stored_values) updated_values_new = update_reference_items(
-      stored_values, class_name, ref_field, class_item, new_refval);
 
   // Unincorporate the candidate that nothing refers to, if it was not sampled.
   decltype(stored_values) unused_values;
@@ -768,7 +766,7 @@ void GenDB::transition_reference(std::mt19937* prng,
                             unincorporated_from_entity_crps);
   }
   reincorporate_new_refval(class_name, ref_field, class_item, new_refval,
-                           ref_class, updated_values_new,
+                           ref_class, stored_values,
                            unincorporated_from_domains,
                            unincorporated_from_entity_crps);
 
@@ -828,7 +826,9 @@ void GenDB::reincorporate_new_refval(
   entity_crps.at(ref_class).incorporate(ref_id, new_refval);
 
   // Incorporate the items/values with new entity linkages into the relations.
-  incorporate_reference(&prng, stored_value_map);
+  auto updated_values = update_reference_items(
+      stored_value_map, class_name, ref_field, class_item, new_refval);
+  incorporate_reference(&prng, updated_values);
 
   // Remove empty relation clusters.
   hirm->cleanup_relation_clusters();
-- 
2.43.0


From 5a8885ac766517923b097475d5b96f4ac8b3d63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 54/67] fix: removing a pair from the bigram noise model
 removed other evidence than adding it had added, which ends in negative
 counts and scores that are NaN

---
 cxx/emissions/bigram_string.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index 0c97806..a370e3f 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -120,12 +120,16 @@ void BigramStringEmission::incorporate(
     const std::pair<std::string, std::string>& x, double weight) {
   N += weight;
 
+  // The alignments are weighed by the initial model, not by the current one:
+  // a pair has to give the same evidence whenever it is incorporated, or
+  // unincorporating it later would remove other evidence than it gave.
+  static BigramStringEmission initial_model;
   std::vector<StrAlignment> alignments;
 
   topk_alignments(NUMBER_OF_STRING_ALIGNMENTS_TO_CONSIDER_WHEN_INCORPORATING,
                   x.first, x.second,
                   [&](const StrAlignment &a, double old_cost) {
-                    return log_prob_distance(a, old_cost);
+                    return initial_model.log_prob_distance(a, old_cost);
                   },
                   &alignments);
 
-- 
2.43.0


From 9eba8cf0eae0bbdb1aa74804ffb116286a843fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 55/67] fix: every component of the bigram noise model added
 the score of its built-in bias, so a component without data scored about
 minus a hundred thousand and moves to new groups were misjudged

---
 cxx/emissions/bigram_string.cc | 13 ++++++++++---
 cxx/emissions/bigram_string.hh |  2 ++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/cxx/emissions/bigram_string.cc b/cxx/emissions/bigram_string.cc
index a370e3f..d1eb575 100644
--- a/cxx/emissions/bigram_string.cc
+++ b/cxx/emissions/bigram_string.cc
@@ -28,7 +28,7 @@ BigramStringEmission::BigramStringEmission() {
   // substitutions models, because by default they insert too much (i.e.,
   // no evidence of insertions being rare) and treat substitutions as just
   // as likely as matches.
-  double initial_bias = (double) num_contexts * num_contexts;
+  initial_bias = (double) num_contexts * num_contexts;
   for (int i = 0; i < num_contexts; ++i) {
     insertions[i].incorporate(0, initial_bias);
     substitutions[i].incorporate(i, initial_bias);
@@ -203,12 +203,19 @@ double BigramStringEmission::logp(
 }
 
 double BigramStringEmission::logp_score() const {
+  // The initial bias is not data, so its score doesn't count.
+  auto data_score = [&](const DirichletCategorical& d) {
+    const double a = d.alpha * d.counts.size();
+    const double bias_score = lgamma(a) - lgamma(a + initial_bias) +
+        lgamma(d.alpha + initial_bias) - lgamma(d.alpha);
+    return d.logp_score() - bias_score;
+  };
   double lp = 0.0;
   for (const auto &i : insertions) {
-    lp += i.logp_score();
+    lp += data_score(i);
   }
   for (const auto &s : substitutions) {
-    lp += s.logp_score();
+    lp += data_score(s);
   }
   return lp;
 }
diff --git a/cxx/emissions/bigram_string.hh b/cxx/emissions/bigram_string.hh
index 733649a..4230a85 100644
--- a/cxx/emissions/bigram_string.hh
+++ b/cxx/emissions/bigram_string.hh
@@ -19,6 +19,8 @@ class BigramStringEmission : public Emission<std::string> {
   std::vector<DirichletCategorical> insertions;
   // substitutions.sample() == 0 means deletion.
   std::vector<DirichletCategorical> substitutions;
+  // The weight that the initial bias has in each of them.
+  double initial_bias;
 
   BigramStringEmission();
 
-- 
2.43.0


From 4310eeb57748d9bbdc691b4481307926c9a0f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:24 +0000
Subject: [PATCH 56/67] fix: a value that is not of the type of its relation
 was silently taken as another value

---
 cxx/relation.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cxx/relation.hh b/cxx/relation.hh
index f3f090d..2964707 100644
--- a/cxx/relation.hh
+++ b/cxx/relation.hh
@@ -4,6 +4,8 @@
 #pragma once
 
 #include <random>
+#include <cstdio>
+#include <cstdlib>
 #include <sstream>
 #include <string>
 #include <unordered_map>
@@ -127,7 +129,11 @@ class Relation {
   ValueType from_string(const std::string& s) {
     ValueType t;
     std::stringstream ss(s);
-    ss >> t;
+    if (!(ss >> t) || !(ss >> std::ws).eof()) {
+      printf("Cannot read `%s` as a value of its relation's type.\n",
+             s.c_str());
+      std::exit(1);
+    }
     return t;
   };
 
-- 
2.43.0


From 1ed81aa0a7acf68904e2e2373b3bade49e2120ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 57/67] fix: Python: the first entity of a domain had a
 probability of 1/alpha instead of one

---
 src/hirm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hirm.py b/src/hirm.py
index d719a48..abef042 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -94,7 +94,7 @@ class CRP:
             - gammaln(self.N + self.alpha)
     def tables_weights(self):
         if self.N == 0:
-            return {0: 1}
+            return {0: self.alpha}
         crp_dist = {t : len(self.tables[t]) for t in self.tables}
         crp_dist[max(self.tables) + 1] = self.alpha
         return crp_dist
-- 
2.43.0


From f60db951834d87a74853d97a215f561e097ba09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 58/67] fix: Python: updating the concentration of an empty
 domain divided by zero

---
 src/hirm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hirm.py b/src/hirm.py
index abef042..dca6018 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -107,6 +107,8 @@ class CRP:
             del crp_dist[max(crp_dist)]
         return crp_dist
     def transition_alpha(self):
+        if self.N == 0:
+            return
         grid = log_linspace(1/self.N, self.N+1, 30)
         log_weights = []
         for g in grid:
-- 
2.43.0


From 3c42404fc82e29f5f4521ae6b4170c6c66964d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 59/67] fix: Python: a reloaded domain lost the random
 generator it was given

---
 src/util_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util_io.py b/src/util_io.py
index f74fe0e..add2bc1 100644
--- a/src/util_io.py
+++ b/src/util_io.py
@@ -130,7 +130,7 @@ def to_dict_Domain(x):
 def from_dict_Domain(d, prng=None):
     x = hirm.Domain(d['name'], prng=prng)
     x.items = set(d['items'])
-    x.crp = from_dict_CRP(d['crp'])
+    x.crp = from_dict_CRP(d['crp'], prng=prng)
     return x
 
 def to_dict_Relation(x):
-- 
2.43.0


From e0770c2babdb5a73fd1fabc17bf965803dab019e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:12 +0000
Subject: [PATCH 60/67] fix: Python: removing a relation left its entities in
 domains that other relations use

---
 src/hirm.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/hirm.py b/src/hirm.py
index dca6018..e13c5c5 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -137,12 +137,9 @@ class Domain:
             t = self.crp.sample() if table is None else table
             self.crp.incorporate(item, t)
     def unincorporate(self, item):
-        raise NotImplementedError()
-        # assert item in self.items
-        # self.items[item].remove(relation)
-        # if not self.items[item]:
-        #     self.crp.unincorporate(item)
-        #     del self.items[item]
+        assert item in self.items
+        self.crp.unincorporate(item)
+        self.items.remove(item)
     def get_cluster_assignment(self, item):
         assert item in self.items
         return self.crp.assignments[item]
@@ -449,10 +446,16 @@ class IRM:
         domains = {d.name for d in self.relations[r].domains}
         for d in domains:
             self.domain_to_relations[d].discard(r)
-            # TODO: Remove r from self.domains[d].items
             if len(self.domain_to_relations[d]) == 0:
                 del self.domain_to_relations[d]
                 del self.domains[d]
+                continue
+            # Remove the items that no other relation has observations of.
+            domain = self.domains[d]
+            for item in self.relations[r].data_r[d]:
+                if not any(self.relations[s].has_observation(domain, item)
+                           for s in self.domain_to_relations[d]):
+                    domain.unincorporate(item)
         del self.relations[r]
         del self.schema[r]
 
-- 
2.43.0


From ce8d92d6f21dd25f7ea54147d36cb1d810bf0ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:27 +0000
Subject: [PATCH 61/67] fix: Python: reassignment scores of an entity in a
 relation that has its domain twice treated cells that merge or split as fixed

---
 src/hirm.py | 75 ++++++++++++++++++++---------------------------------
 1 file changed, 28 insertions(+), 47 deletions(-)

diff --git a/src/hirm.py b/src/hirm.py
index e13c5c5..0269a8d 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -248,63 +248,44 @@ class Relation:
         return logp
 
     # Implementation of exact Gibbs data probabilities.
-    def get_cluster_to_items_list(self, domain, item):
-        """Return mapping from cluster to all items in that cluster
-        that have domain.item in at least one dimension."""
+    def get_cluster_to_items_list(self, domain, item, table):
+        """Return mapping from cluster to all items that have domain.item in at
+        least one dimension and belong to that cluster if domain.item is at
+        table."""
         cluster_to_items_list = {}
         for items in self.data_r[domain.name][item]:
-            cluster = self.get_cluster_assignment(items)
+            cluster = self.get_cluster_assignment_gibbs(items, domain, item, table)
             if cluster not in cluster_to_items_list:
                 cluster_to_items_list[cluster] = []
             cluster_to_items_list[cluster].append(items)
         return cluster_to_items_list
-    def logp_gibbs_exact_current(self, items_list):
-        """Return exact proposal proposal probability for current table."""
-        z = self.get_cluster_assignment(items_list[0])
-        cluster = self.clusters[z]
-        logp0 = cluster.logp_score()
-        for items in items_list:
-            x = self.data[items]
-            # assert z == self.get_cluster_assignment(items)
-            cluster.unincorporate(x)
-        logp1 = cluster.logp_score()
-        for items in items_list:
-            x = self.data[items]
-            cluster.incorporate(x)
-        assert cluster.logp_score() == logp0
-        return logp0 - logp1
-    def logp_gibbs_exact_variant(self, domain, item, table, items_list):
-        """Return exact proposal proposal probability for non-current table."""
-        z = self.get_cluster_assignment_gibbs(items_list[0], domain, item, table)
-        cluster = self.clusters.get(z, self.aux())
-        logp0 = cluster.logp_score()
-        for items in items_list:
-            # assert z == self.get_cluster_assignment_gibbs(items, domain, item, table)
-            x = self.data[items]
-            cluster.incorporate(x)
-        logp1 = cluster.logp_score()
-        for items in items_list:
+    def logp_gibbs_exact_table(self, domain, item, table):
+        """Return exact proposal probability of domain.item at table, whose
+        data must not be incorporated in the clusters."""
+        # Items from different clusters may end up in the same cluster (and
+        # vice versa) if several of the relation's domains are domain.
+        logp = 0
+        cluster_to_items_list = self.get_cluster_to_items_list(domain, item, table)
+        for z, items_list in cluster_to_items_list.items():
+            cluster = self.clusters.get(z, self.aux())
+            logp0 = cluster.logp_score()
+            for items in items_list:
+                cluster.incorporate(self.data[items])
+            logp1 = cluster.logp_score()
             # TODO: Skip this loop in case of cluster aux.
-            x = self.data[items]
-            cluster.unincorporate(x)
-        assert cluster.logp_score() == logp0
-        return logp1 - logp0
+            for items in items_list:
+                cluster.unincorporate(self.data[items])
+            logp += logp1 - logp0
+        return logp
     def logp_gibbs_exact(self, domain, item, tables):
         """Return exact proposal probability of domain.item at tables."""
         # assert tables crp_dist = domain.tables_weights_gibbs(item)
-        cluster_to_items_list = self.get_cluster_to_items_list(domain, item)
-        table_current = domain.get_cluster_assignment(item)
-        logps = []
-        for table in tables:
-            lp = 0
-            for items_list in cluster_to_items_list.values():
-                if table == table_current:
-                    lp_cluster = self.logp_gibbs_exact_current(items_list)
-                else:
-                    lp_cluster = self.logp_gibbs_exact_variant(
-                        domain, item, table, items_list)
-                lp += lp_cluster
-            logps.append(lp)
+        items_list = self.data_r[domain.name][item]
+        for items in items_list:
+            self.clusters[self.get_cluster_assignment(items)].unincorporate(self.data[items])
+        logps = [self.logp_gibbs_exact_table(domain, item, table) for table in tables]
+        for items in items_list:
+            self.clusters[self.get_cluster_assignment(items)].incorporate(self.data[items])
         return logps
 
     def logp(self, items, value):
-- 
2.43.0


From 8f9f042d16d5d7feca0fa84f8a8cf22797f971b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:49 +0000
Subject: [PATCH 62/67] fix: Python: BetaBernoulli sampled zero with the
 probability of one

---
 src/hirm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hirm.py b/src/hirm.py
index 0269a8d..92f241b 100644
--- a/src/hirm.py
+++ b/src/hirm.py
@@ -45,7 +45,7 @@ class BetaBernoulli:
         return n - d
     def sample(self):
         p = math.exp(self.logp(1))
-        return self.prng.choices([0, 1], [p, 1-p])[0]
+        return self.prng.choices([0, 1], [1-p, p])[0]
     def __repr__(self):
         return 'BetaBernoulli(alpha=%f, beta=%f, N=%d, s=%d)' \
             % (self.alpha, self.beta, self.N, self.s)
-- 
2.43.0


From cdb640439b6ed178829591c40ef19e36a99d7e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 63/67] fix: Python: the schema loader gave up at a blank line,
 misread noisy relations and misread quoted parameters that contain commas,
 brackets or equals signs

---
 py/hirm_io.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/py/hirm_io.py b/py/hirm_io.py
index e683f17..ae8c28d 100644
--- a/py/hirm_io.py
+++ b/py/hirm_io.py
@@ -6,8 +6,11 @@ import re
 import sys
 
 
+# base_relation is None unless the relation is a noisy one.
 Relation = collections.namedtuple(
-    "Relation", ["name", "distribution", "parameters", "domains"])
+    "Relation",
+    ["name", "distribution", "parameters", "domains", "base_relation"],
+    defaults=[None])
 
 Observation = collections.namedtuple(
     "Observation", ["relation", "value", "items"])
@@ -21,8 +24,15 @@ DomainCluster = collections.namedtuple(
 def load_schema(path):
   """Load the schema from path, and return it as a dict of Relations."""
   relations = {}
-  comment_line_re = re.compile(r'\s*#.*')
-  line_re = re.compile(r'\s*(\w+)\s*~\s*(\w+)\s*(\[[^\]]*\])?\(\s*([^\)]+)\s*\)\s*(#.*)?')
+  comment_line_re = re.compile(r'\s*(#.*)?$')
+  value = r'"[^"]*"|\'[^\']*\'|\w[\w.]*|\.[\d._]*'
+  parameter = rf'(\w+)\s*=\s*({value})'
+  parameter_re = re.compile(parameter)
+  line_re = re.compile(
+      r'\s*(\w+)\s*~\s*(\w+)\s*'
+      rf'(\[\s*{parameter}\s*(?:,\s*{parameter}\s*)*\])?\s*'
+      r'\(\s*(?:(?P<base>\w+)\s*;)?\s*(?P<domains>\w+\s*(?:,\s*\w+\s*)*)\)'
+      r'\s*(#.*)?$')
   with open(path, 'r') as f:
     for line in f:
       if comment_line_re.match(line):
@@ -34,17 +44,13 @@ def load_schema(path):
       name = m.group(1)
       parameters = {}
       if m.group(3):
-        param_string = m.group(3)[1:-1]
-        ps = re.split(r'\s*,\s*', param_string)
-        for p in ps:
-          kv = re.split(r'\s*=\s*', p)
-          assert len(kv) == 2
-          parameters[kv[0]] = kv[1]
-      domains = re.split(r'\s*,\s*', m.group(4))
+        parameters = dict(parameter_re.findall(m.group(3)))
+      domains = re.split(r'\s*,\s*', m.group('domains').strip())
       relations[name] = Relation(name=name,
                                  distribution=m.group(2),
                                  parameters=parameters,
-                                 domains=domains)
+                                 domains=domains,
+                                 base_relation=m.group('base'))
   return relations
 
 
-- 
2.43.0


From 18b19136cb8fd3ae14529270fea3059812262a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 64/67] fix: Python: the observation loader dropped blanks at
 the end of an entity, and empty entities with them

---
 py/hirm_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py/hirm_io.py b/py/hirm_io.py
index ae8c28d..e9d0047 100644
--- a/py/hirm_io.py
+++ b/py/hirm_io.py
@@ -59,7 +59,7 @@ def load_observations(path):
   data = []
   with open(path, 'r') as f:
         for line in f:
-          fields = line.rstrip().split(',')
+          fields = line.rstrip('\n').split(',')
           assert len(fields) >= 3
           data.append(Observation(relation=fields[1],
                                   value=fields[0],
-- 
2.43.0


From 1c2636c2329d9454078f0d38fd54c5e977f21c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 65/67] fix: Python: the cluster loader gave up at repeated
 blank lines and split entities at characters that are blanks only in Unicode

---
 py/hirm_io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/py/hirm_io.py b/py/hirm_io.py
index e9d0047..0ed4963 100644
--- a/py/hirm_io.py
+++ b/py/hirm_io.py
@@ -71,11 +71,12 @@ def load_clusters(path):
   """Load the hirm clusters output from path as a list of Cluster's."""
   id_to_relations = {}
   id_to_clusters = {}
+  word_re = re.compile(r'\S+', re.ASCII)
 
   with open(path, 'r') as f:
     # Read the relation clusters
     for line in f:
-      fields = line.rstrip().split()
+      fields = word_re.findall(line)
       if not fields:
         break
       id_to_relations[fields[0]] = fields[1:]
@@ -84,9 +85,10 @@ def load_clusters(path):
     domain_clusters = []
     cluster_id = -1
     for line in f:
-      fields = line.rstrip().split()
+      fields = word_re.findall(line)
       if not fields:
-        assert(cluster_id != -1)
+        if cluster_id == -1:
+          continue
         id_to_clusters[cluster_id] = domain_clusters
         domain_clusters = []
         cluster_id = -1
-- 
2.43.0


From 230f694e3c362d6fc110b049abb72b3332cfa89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 66/67] fix: Python: the plots of a cluster looked up entities
 of relations that are not in the cluster, and failed

---
 py/visualize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py/visualize.py b/py/visualize.py
index 4308909..185eb0d 100644
--- a/py/visualize.py
+++ b/py/visualize.py
@@ -25,8 +25,8 @@ def make_unary_matrix(obs, entities, relations):
   m = np.full((len(entities), len(relations)), np.nan)
   for ob in obs:
     val = ob.value
-    ent_index = entities.index(ob.items[0])
     if ob.relation in relations:
+      ent_index = entities.index(ob.items[0])
       rel_index = relations.index(ob.relation)
       m[ent_index][rel_index] = val
   return m
@@ -182,6 +182,7 @@ def collate_observations(obs):
 def html_for_cluster(cluster, schema, obs, clusters):
   """Return the html for visualizing a single cluster."""
   html = ''
+  obs = [ob for ob in obs if ob.relation in cluster.relations]
   unary_obs, binary_obs = collate_observations(obs)
   if unary_obs:
     print(f"For irm #{cluster.cluster_id}, building unary matrix based on {len(unary_obs)} observations")
-- 
2.43.0


From 73c13aaea866da43262b976f608a1d20d8925d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:28 +0000
Subject: [PATCH 67/67] fix: Python: in the plot of unary relations over
 several domains, an entity was put at the row of its namesake of another
 domain

---
 py/visualize.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/py/visualize.py b/py/visualize.py
index 185eb0d..e210a5d 100644
--- a/py/visualize.py
+++ b/py/visualize.py
@@ -107,7 +107,18 @@ def unary_matrix_plot(schema, cluster, obs, clusters):
   ax.set_yticks(np.arange(num_rows), labels=all_entities, fontsize=fontsize)
 
   # Matrix of data
-  m = make_unary_matrix(obs, all_entities, relations)
+  if schema:
+    # Entities of different domains may have the same name.
+    m = np.full((num_rows, num_columns), np.nan)
+    domains = sorted(set(dc.domain for dc in cluster.domain_clusters))
+    starts = [0] + big_dividers
+    ends = big_dividers + [num_rows]
+    for domain, start, end in zip(domains, starts, ends):
+      m[start:end] = make_unary_matrix(
+          [ob for ob in obs if schema[ob.relation].domains == [domain]],
+          all_entities[start:end], relations)
+  else:
+    m = make_unary_matrix(obs, all_entities, relations)
   cmap = copy.copy(plt.get_cmap())
   cmap.set_bad(color='white')
   ax.imshow(m, cmap=cmap)
-- 
2.43.0

