// Helpers for the noise models: generators of strings and a reference for the
// evidence that a (clean, dirty) pair gives to the bigram noise model.
#pragma once
#include <map>

#include "dists.hh"
#include "emissions/bigram_string.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/identity.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"

// A dirty version of s, by a few edits.
inline std::string corrupt(pbt::Ctx& ctx, std::string s, size_t max, char lo = ' ', char hi = '~') {
  int e = ctx.g.range(0, 3);
  for (int q = 0; q < e; ++q) {
    size_t p = ctx.g.range(0, s.size());
    char c = ctx.g.coin() ? (char)(lo + ctx.g.draw(std::min(3, hi - lo + 1))) : (char)ctx.g.range(lo, hi);
    switch (ctx.g.draw(4)) {
      case 0: if (s.size() < max) s.insert(p, 1, c); break;
      case 1: if (p < s.size()) s.erase(p, 1); break;
      case 2: if (p < s.size()) s[p] = c; break;
      default: if (p + 1 < s.size()) std::swap(s[p], s[p + 1]);
    }
  }
  return s;
}

// Sparse counts of the bigram model: (0 insertions / 1 substitutions, context, category).
using BgKey = std::tuple<int, int, int>;
using BgCounts = std::map<BgKey, double>;

inline double bg_lp(const DirichletCategorical& d, int k) {
  return std::log((d.alpha + d.counts[k]) / (d.N + d.alpha * d.counts.size()));
}

struct BgRef {
  const BigramStringEmission& m;
  std::string s1, s2;
  std::vector<std::pair<double, BgCounts>> all;
  int idx(char c) const { return c - ' ' + 1; }
  void go(size_t i, size_t j, double cost, BgCounts& ev) {
    int ctx = i ? idx(s1[i - 1]) : 0;
    auto with = [&](std::initializer_list<BgKey> ks, size_t i2, size_t j2) {
      double c = cost;
      for (auto& k : ks) {
        auto [t, a, b] = k;
        c -= bg_lp(t ? m.substitutions[a] : m.insertions[a], b);
        ev[k] += 1;
      }
      go(i2, j2, c, ev);
      for (auto& k : ks)
        if ((ev[k] -= 1) == 0) ev.erase(k);
    };
    if (i == s1.size() && j == s2.size()) {
      BgCounts e = ev;
      e[{0, ctx, 0}] += 1;
      all.push_back({cost, e});
      return;
    }
    if (i < s1.size()) with({{0, ctx, 0}, {1, idx(s1[i]), 0}}, i + 1, j);
    if (j < s2.size()) with({{0, ctx, idx(s2[j])}}, i, j + 1);
    if (i < s1.size() && j < s2.size()) with({{0, ctx, 0}, {1, idx(s1[i]), idx(s2[j])}}, i + 1, j + 1);
  }
  BgRef(const BigramStringEmission& m_, const std::string& a, const std::string& b) : m(m_), s1(a), s2(b) {
    BgCounts ev;
    go(0, 0, 0, ev);
    std::sort(all.begin(), all.end(), [](auto& x, auto& y) { return x.first < y.first; });
  }
  // The evidence of the two best alignments, weighted by their probability.
  // Returns false when the choice of two is not determined.
  bool evidence(BgCounts* out) const {
    if (all.size() > 2 && all[2].first - all[1].first < 1e-9 * (1 + std::fabs(all[1].first))) return false;
    double w1 = all.size() > 1 ? 1 / (1 + std::exp(all[0].first - all[1].first)) : 1.0;
    if (all.size() > 1) {
      double e = std::exp(all[0].first - all[1].first);
      w1 = 1 / (1 + e);
      for (auto& [k, n] : all[1].second) (*out)[k] += n * (1 - w1);
    }
    for (auto& [k, n] : all[0].second) (*out)[k] += n * w1;
    return true;
  }
};

inline BgCounts bg_state(const BigramStringEmission& m) {
  BgCounts c;
  for (int t = 0; t < 2; ++t) {
    auto& v = t ? m.substitutions : m.insertions;
    for (size_t a = 0; a < v.size(); ++a)
      for (size_t b = 0; b < v[a].counts.size(); ++b)
        if (v[a].counts[b] != 0) c[{t, (int)a, (int)b}] = v[a].counts[b];
  }
  return c;
}
inline BgCounts bg_diff(const BgCounts& a, const BgCounts& b) {  // a - b
  BgCounts d = a;
  for (auto& [k, n] : b) d[k] -= n;
  return d;
}
inline double bg_dist(const BgCounts& a, const BgCounts& b) {
  double w = 0;
  for (auto& [k, n] : bg_diff(a, b)) w = std::max(w, std::fabs(n));
  return w;
}
