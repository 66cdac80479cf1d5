// Goodness-of-fit tests with conservative thresholds.  A statistical check
// reports only when two independent samples both reject at extreme levels.
#pragma once
#include <algorithm>
#include <boost/math/distributions/chi_squared.hpp>
#include <boost/math/distributions/students_t.hpp>
#include <cmath>
#include <functional>
#include <vector>

#include "pbt.hh"

// p-value of observed counts against probabilities (which may sum to less than
// one; the rest is an extra bin, given as the last observed count when
// counts.size() == probs.size() + 1).  Bins of small expectation are pooled.
inline double gof_p(std::vector<double> counts, std::vector<double> probs,
                    double min_expected = 20) {
  double n = 0, ps = 0;
  for (double c : counts) n += c;
  for (double p : probs) ps += p;
  if (counts.size() == probs.size() + 1) probs.push_back(std::max(0.0, 1 - ps));
  std::vector<size_t> idx(probs.size());
  for (size_t i = 0; i < idx.size(); ++i) idx[i] = i;
  std::sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return probs[a] < probs[b]; });
  double chi = 0, pe = 0, po = 0;
  int bins = 0;
  std::vector<std::pair<double, double>> pooled;
  for (size_t k : idx) {
    pe += probs[k] * n;
    po += counts[k];
    if (pe >= min_expected) {
      pooled.push_back({pe, po});
      pe = po = 0;
    }
  }
  double small_e = pe, small_o = po;
  if (!pooled.empty()) {
    // Leftover joins the last bin.
    pooled.back().first += small_e;
    pooled.back().second += small_o;
    small_e = small_o = 0;
  } else {
    return 1.0;
  }
  for (auto [e, o] : pooled) {
    chi += (o - e) * (o - e) / e;
    ++bins;
  }
  if (bins < 2) return 1.0;
  boost::math::chi_squared_distribution<double> d(bins - 1);
  if (!std::isfinite(chi)) return 0.0;
  return boost::math::cdf(boost::math::complement(d, chi));
}

// Poisson-style upper bound: probability of seeing >= o when e are expected.
inline double poisson_tail(double e, double o) {
  if (o <= e) return 1;
  // Chernoff bound.
  return std::exp(o - e - o * std::log(o / std::max(e, 1e-300)));
}

// Likewise for seeing <= o when e are expected.
inline double poisson_lower(double e, double o) {
  if (o >= e) return 1;
  return std::exp(o - e - (o > 0 ? o * std::log(o / e) : 0));
}

// Draws with `draw(prng)` an index (or -1 for "other") n times and compares
// with probs.  Returns the p-value; sets *worst to a description.
template <class F>
double freq_p(F draw, const std::vector<double>& probs, int n, std::string* what) {
  std::vector<double> c(probs.size() + 1, 0);
  for (int k = 0; k < n; ++k) {
    int i = draw();
    if (i < 0 || i >= (int)probs.size()) c.back()++;
    else c[i]++;
  }
  double ps = 0;
  for (double p : probs) ps += p;
  double other = std::max(0.0, 1 - ps) + 1e-12;
  double p = gof_p(c, probs);
  // Single categories that occurred too often, or too rarely.
  for (size_t i = 0; i < c.size(); ++i) {
    double e = n * (i < probs.size() ? probs[i] : other);
    p = std::min(p, 2 * c.size() * (c[i] > e ? poisson_tail(e, c[i]) : poisson_lower(e, c[i])));
  }
  if (what) {
    *what = pbt::fmt("n=%d p=%.3g observed/expected:", n, p);
    for (size_t i = 0; i < c.size() && i < 14; ++i)
      *what += pbt::fmt(" %g/%.1f", c[i], n * (i < probs.size() ? probs[i] : other));
  }
  return p;
}

// Rejects only if a first sample of n and a second of 4n both reject.
template <class F>
void check_frequencies(pbt::Ctx& ctx, F draw, const std::vector<double>& probs, int n,
                       const std::string& what) {
  std::string w;
  double p1 = freq_p(draw, probs, n, &w);
  if (p1 > 1e-6) return;
  double p2 = freq_p(draw, probs, 4 * n, &w);
  if (p2 > 1e-7) return;
  throw pbt::Fail{what + ": frequencies do not match the stated probabilities (" + w +
                  pbt::fmt("; first sample p=%.3g)", p1)};
}

// Two-sided Kolmogorov-Smirnov statistic times sqrt(n).
inline double ks_stat(std::vector<double> xs, const std::function<double(double)>& cdf) {
  std::sort(xs.begin(), xs.end());
  double n = xs.size(), d = 0;
  for (size_t i = 0; i < xs.size(); ++i) {
    double f = cdf(xs[i]);
    d = std::max(d, std::max(std::fabs(f - i / n), std::fabs((i + 1) / n - f)));
  }
  return d * std::sqrt(n);
}
template <class F>
void check_ks(pbt::Ctx& ctx, F draw, const std::function<double(double)>& cdf, int n,
              const std::string& what) {
  auto once = [&](int m) {
    std::vector<double> v;
    for (int i = 0; i < m; ++i) v.push_back(draw());
    return ks_stat(v, cdf);
  };
  double a = once(n);
  if (a < 2.7) return;  // p ~ 1e-6
  double b = once(4 * n);
  if (b < 2.9) return;
  throw pbt::Fail{what + pbt::fmt(": samples do not follow the predictive distribution "
                                  "(KS statistic %.2f, then %.2f on a larger sample)", a, b)};
}
