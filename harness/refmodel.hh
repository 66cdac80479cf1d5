// Independent textbook formulas for every component distribution: predictive
// densities straight from the (weighted) data, no incremental statistics.
#pragma once
#include <boost/math/distributions/students_t.hpp>
#include <numbers>

#include "dists.hh"

using WData = std::vector<std::pair<Val, double>>;  // observation, weight

inline double as_real(const Val& v, const Conf& c) {
  if (auto p = std::get_if<double>(&v)) return *p;
  if (auto p = std::get_if<std::string>(&v)) {
    // What the spelling means: the longest numeric prefix.
    return std::strtod(p->c_str(), nullptr);
  }
  return 0;
}
inline int as_int(const Val& v) {
  if (auto p = std::get_if<int>(&v)) return *p;
  return std::atoi(std::get<std::string>(v).c_str());
}

struct TParams {
  double dof, loc, scale;
};
inline TParams t_params(const Conf& c, const WData& d) {
  long double n = 0, sx = 0;
  for (auto& [v, w] : d) n += w, sx += (long double)w * as_real(v, c);
  if (c.kind == K_ZMN) {
    long double sxx = 0;
    for (auto& [v, w] : d) sxx += (long double)w * as_real(v, c) * as_real(v, c);
    long double a = c.h[0] + n / 2, b = c.h[1] + sxx / 2;
    return {(double)(2 * a), 0, (double)sqrtl(b / a)};
  }
  long double r = c.h[0], v0 = c.h[1], m = c.h[2], s = c.h[3];
  long double mean = n > 0 ? sx / n : 0, ss = 0;
  for (auto& [v, w] : d) ss += w * (as_real(v, c) - mean) * (as_real(v, c) - mean);
  long double rn = r + n, vn = v0 + n, mn = (r * m + sx) / rn;
  long double sn = s + ss + (r * n / rn) * (mean - m) * (mean - m);
  return {(double)vn, (double)mn, (double)sqrtl(sn * (rn + 1) / (vn * rn))};
}
inline double t_logpdf(const TParams& t, double x) {
  long double z = ((long double)x - t.loc) / t.scale;
  return (double)(lgammal((t.dof + 1.0L) / 2) - lgammal(t.dof / 2.0L) -
                  0.5L * logl((long double)t.dof * std::numbers::pi_v<long double>) - logl(t.scale) -
                  (t.dof + 1.0L) / 2 * log1pl(z * z / t.dof));
}

// log Poisson-difference pmf by direct summation.
inline double skellam_logpmf(double mu1, double mu2, int x) {
  long double nu = std::fabs((double)x);
  long double w = sqrtl(nu * nu + 4.0L * mu1 * mu2), k0 = (w - nu) / 2;
  long double spread = 14 * sqrtl(k0 + 1) + 60;
  long lo = (long)std::max(0.0L, k0 - spread), hi = (long)(k0 + spread);
  long double lm = -INFINITY, sum = 0, l1 = logl(mu1), l2 = logl(mu2);
  for (long k = lo; k <= hi; ++k) {
    long double a = x >= 0 ? k + nu : k, b = x >= 0 ? k : k + nu;
    long double t = a * l1 - lgammal(a + 1) + b * l2 - lgammal(b + 1);
    if (t > lm) {
      sum = sum * expl(lm - t) + 1;
      lm = t;
    } else {
      sum += expl(t - lm);
    }
  }
  return (double)(lm + logl(sum) - mu1 - mu2);
}

struct Urn {  // transitions of a bigram model
  std::map<std::pair<int, int>, double> c;
  std::map<int, double> tot;
  void add(int a, int b, double w) {
    c[{a, b}] += w;
    tot[a] += w;
  }
};
inline std::vector<int> bigram_path(const std::string& s) {
  std::vector<int> p{-1};
  for (unsigned char ch : s) p.push_back(ch);
  p.push_back(-1);
  return p;
}
inline Urn bigram_urn(const WData& d) {
  Urn u;
  for (auto& [v, w] : d) {
    auto p = bigram_path(std::get<std::string>(v));
    for (size_t i = 0; i + 1 < p.size(); ++i) u.add(p[i], p[i + 1], w);
  }
  return u;
}
// With stop == false: the probability of generating s as a prefix.
inline double bigram_logp(const Conf& c, Urn u, const std::string& s, bool stop = true) {
  double k = c.hi - c.lo + 2, lp = 0;
  auto p = bigram_path(s);
  size_t n = p.size() - (stop ? 0 : 1);
  for (size_t i = 0; i + 1 < n; ++i) {
    auto it = u.c.find({p[i], p[i + 1]});
    double cnt = it == u.c.end() ? 0 : it->second;
    auto jt = u.tot.find(p[i]);
    double tot = jt == u.tot.end() ? 0 : jt->second;
    lp += std::log((cnt + c.h[0]) / (tot + c.h[0] * k));
    u.add(p[i], p[i + 1], 1);
  }
  return lp;
}

inline double ref_logp(const Conf& c, const WData& d, const Val& v) {
  double n = 0, same = 0;
  for (auto& [x, w] : d) {
    n += w;
    if (x == v) same += w;
  }
  switch (c.kind) {
    case K_BERN:
      return std::log((same + (std::get<bool>(v) ? c.h[0] : c.h[1])) / (n + c.h[0] + c.h[1]));
    case K_CAT: return std::log((same + c.h[0]) / (n + c.h[0] * c.k));
    case K_STRINGCAT: return std::log((same + c.h[0]) / (n + c.h[0] * c.strings.size()));
    case K_NORMAL: case K_ZMN: case K_STRNORMAL: return t_logpdf(t_params(c, d), as_real(v, c));
    case K_BIGRAM: case K_STRNAT: return bigram_logp(c, bigram_urn(d), std::get<std::string>(v));
    case K_SKELLAM: case K_STRSKELLAM: return skellam_logpmf(c.mu[0], c.mu[1], as_int(v));
    default: abort();
  }
}
// Marginal of the data by the chain rule (unit weights only, except skellam).
inline double ref_score(const Conf& c, const WData& d) {
  double s = 0;
  if (c.kind == K_SKELLAM || c.kind == K_STRSKELLAM) {
    for (auto& [v, w] : d) s += w * ref_logp(c, {}, v);
    return s;
  }
  WData pre;
  for (auto& x : d) {
    s += ref_logp(c, pre, x.first);
    pre.push_back(x);
  }
  return s;
}
