// C05: the partition model keeps exact seating and CRP probabilities.
#include "distributions/crp.hh"
#include "domain.hh"
#include "stats.hh"

struct Ref {
  std::map<int, int> at;  // customer -> table
  std::map<int, std::set<int>> tables() const {
    std::map<int, std::set<int>> t;
    for (auto& [c, k] : at) t[k].insert(c);
    return t;
  }
};

static void compare(pbt::Ctx& ctx, const CRP& crp, const Ref& ref) {
  auto t = ref.tables();
  PCHECK(ctx, crp.N == (int)ref.at.size(), "count %d, seated %zu", crp.N, ref.at.size());
  PCHECK(ctx, crp.assignments.size() == ref.at.size(), "%zu assignments, seated %zu", crp.assignments.size(), ref.at.size());
  for (auto& [c, k] : ref.at) {
    auto it = crp.assignments.find(c);
    PCHECK(ctx, it != crp.assignments.end() && it->second == k, "customer %d is not recorded at table %d", c, k);
  }
  PCHECK(ctx, crp.tables.size() == t.size(), "%zu tables, %zu are occupied", crp.tables.size(), t.size());
  for (auto& [k, s] : t) {
    auto it = crp.tables.find(k);
    PCHECK(ctx, it != crp.tables.end(), "table %d is missing", k);
    PCHECK(ctx, it->second.size() == s.size(), "table %d has %zu customers, expected %zu", k, it->second.size(), s.size());
    for (int c : s) PCHECK(ctx, it->second.contains(c), "customer %d is not at table %d", c, k);
  }
  PCHECK(ctx, crp.max_table() == (t.empty() ? -1 : t.rbegin()->first), "max_table %d", crp.max_table());
  // The score: the chain rule in label order, by sizes alone.
  double s = 0, n = 0;
  for (auto& [k, cs] : t) {
    for (size_t i = 0; i < cs.size(); ++i) {
      s += std::log(i == 0 ? crp.alpha : (double)i) - std::log(n + crp.alpha);
      n += 1;
    }
  }
  PCHECK(ctx, pbt::near(crp.logp_score(), s, 1e-9, 1e-9 + 1e-15 * crp.alpha * 40), "partition score %.15g, the chain rule gives %.15g", crp.logp_score(), s);
  // Seating weights.
  auto w = crp.tables_weights();
  double tot = 0;
  int fresh = 0;
  for (auto& [k, x] : w) {
    tot += x;
    if (t.count(k)) {
      PCHECK(ctx, x == (double)t[k].size(), "weight of table %d is %g, it seats %zu", k, x, t[k].size());
    } else {
      ++fresh;
      PCHECK(ctx, x == crp.alpha, "weight of the new table is %g, the concentration %g", x, crp.alpha);
      PCHECK(ctx, k >= 0, "the new table is labelled %d", k);
    }
  }
  PCHECK(ctx, fresh == 1 && w.size() == t.size() + 1, "%zu candidates, %d of them new, for %zu tables", w.size(), fresh, t.size());
  double ps = 0;
  for (auto& [k, x] : w) ps += std::exp(crp.logp(k));
  PCHECK(ctx, pbt::near(ps, 1, 1e-9), "seating probabilities sum to %.15g", ps);
  PCHECK(ctx, crp.logp(987654321) == -INFINITY, "a table that is neither occupied nor next has probability %g", std::exp(crp.logp(987654321)));
  PCHECK(ctx, pbt::near(crp.logp_new_table(), std::log(crp.alpha / (crp.N + crp.alpha)), 1e-9, 1e-12), "logp_new_table %.15g", crp.logp_new_table());
  for (auto& [k, x] : w) {
    PCHECK(ctx, pbt::near(crp.logp(k), std::log(x / (crp.N + crp.alpha)), 1e-9, 1e-12), "logp(%d) = %.15g", k, crp.logp(k));
  }
}

static void history(pbt::Ctx& ctx) {
  CRP crp;
  Ref ref;
  static const double A[] = {1, 1e-3, 0.1, 0.5, 3, 10, 1000};
  crp.alpha = A[ctx.g.draw(7)];
  ctx.note("alpha=%g ", crp.alpha);
  std::mt19937 prng(ctx.g.seed32());
  bool big_labels = ctx.g.chance(1, 4);
  int ops = 0, removed = 0;
  while (ctx.g.more(20, ops, 150)) {
    ++ops;
    int op = ctx.g.weighted({6, 3, 2, 1, 1});
    if (ref.at.empty() && op != 3) op = 0;
    if (op == 0) {
      int c = ctx.g.range(0, 40);
      if (ref.at.count(c)) continue;
      int k;
      int how = ctx.g.draw(3);
      if (how == 0) k = crp.sample(&prng);
      else if (how == 1 && !ref.at.empty()) {
        auto t = ref.tables();
        k = ctx.g.pick(t).first;
      } else {
        k = big_labels ? ctx.g.range(0, 1000000) : ctx.g.range(0, 6);
      }
      double before = crp.logp_score();
      auto w = crp.tables_weights();
      double lp = crp.logp(w.count(k) ? k : w.rbegin()->first);
      // A label that is not in use is a new table whatever its number.
      if (!ref.tables().count(k)) lp = crp.logp_new_table();
      ctx.note("+%d@%d ", c, k);
      crp.incorporate(c, k);
      ref.at[c] = k;
      PCHECK(ctx, pbt::near(crp.logp_score() - before, lp, 1e-8, 1e-8 + 1e-14 * crp.alpha * 40),
             "seating %d at %d changes the score by %.15g, the probability was %.15g", c, k, crp.logp_score() - before, lp);
    } else if (op == 1) {
      int c = ctx.g.pick(ref.at).first;
      ctx.note("-%d ", c);
      crp.unincorporate(c);
      ref.at.erase(c);
      ++removed;
    } else if (op == 2) {
      // Weights for reseating c, against really removing c.
      int c = ctx.g.pick(ref.at).first, k = ref.at[c];
      auto g = crp.tables_weights_gibbs(k);
      CRP copy = crp;
      copy.unincorporate(c);
      auto t = ref.tables();
      bool single = t[k].size() == 1;
      double sum = 0;
      int fresh = 0;
      for (auto& [q, x] : g) {
        sum += x;
        double expect = t.count(q) ? (double)t[q].size() - (q == k) : crp.alpha;
        if (q == k && single) expect = crp.alpha;
        if (!t.count(q) || (q == k && single)) ++fresh;
        PCHECK(ctx, pbt::near(x, expect, 1e-12), "reseating %d: weight of %d is %g, expected %g", c, q, x, expect);
      }
      PCHECK(ctx, fresh == 1, "reseating %d offers %d new tables", c, fresh);
      PCHECK(ctx, g.size() == t.size() + (single ? 0 : 1), "reseating %d offers %zu tables of %zu", c, g.size(), t.size());
      PCHECK(ctx, pbt::near(sum, crp.N - 1 + crp.alpha, 1e-12), "reseating weights sum to %g", sum);
      ctx.label(single ? "reseat-singleton" : "reseat");
    } else if (op == 3) {
      double old = crp.alpha;
      crp.transition_alpha(&prng);
      PCHECK(ctx, crp.alpha > 0 && std::isfinite(crp.alpha), "concentration became %g", crp.alpha);
      if (crp.N == 0) PCHECK(ctx, crp.alpha == old, "concentration changed without customers");
      ctx.note("alpha=%g ", crp.alpha);
    } else {
      // Unseat and seat again.
      int c = ctx.g.pick(ref.at).first, k = ref.at[c];
      double s = crp.logp_score();
      crp.unincorporate(c);
      crp.incorporate(c, k);
      PCHECK(ctx, pbt::near(crp.logp_score(), s, 1e-12, 1e-12), "reseating in place changed the score");
    }
    compare(ctx, crp, ref);
  }
  compare(ctx, crp, ref);
  if (removed && ref.at.size() >= 2) ctx.nontrivial();
}

// Restaurants with hundreds or thousands of customers.
static void crowd(pbt::Ctx& ctx) {
  CRP crp;
  Ref ref;
  crp.alpha = ctx.g.log_uniform(1e-2, 100);
  int n = (int)ctx.g.log_uniform(50, ctx.thorough ? 8000 : 2500);
  int spread = ctx.g.range(1, ctx.g.chance(1, 3) ? 300 : 4);
  ctx.note("alpha=%g, %d customers at up to %d tables", crp.alpha, n, spread);
  std::mt19937 pick(ctx.g.seed32());
  for (int i = 0; i < n; ++i) {
    int k = pick() % spread;
    crp.incorporate(i, k);
    ref.at[i] = k;
  }
  compare(ctx, crp, ref);
  int drop = ctx.g.range(0, 60);
  for (int i = 0; i < drop && !ref.at.empty(); ++i) {
    auto it = ref.at.begin();
    std::advance(it, pick() % ref.at.size());
    crp.unincorporate(it->first);
    ref.at.erase(it);
  }
  compare(ctx, crp, ref);
  auto t = ref.tables();
  for (auto& [k, cs] : t) {
    double sum = 0;
    for (auto& [q, x] : crp.tables_weights_gibbs(k)) sum += x;
    PCHECK(ctx, pbt::near(sum, crp.N - 1 + crp.alpha, 1e-12), "reseating weights sum to %g", sum);
  }
  crp.transition_alpha(&pick);
  compare(ctx, crp, ref);
  ctx.nontrivial();
}

static void seat_random(pbt::Ctx& ctx, CRP& crp, int n, bool gaps) {
  for (int i = 0; i < n; ++i) {
    int k = ctx.g.range(0, 4) * (gaps ? 3 : 1);
    crp.incorporate(i, k);
    ctx.note("%d@%d ", i, k);
  }
}

static void sampling(pbt::Ctx& ctx) {
  CRP crp;
  static const double A[] = {1, 0.05, 0.5, 5, 50};
  crp.alpha = A[ctx.g.draw(5)];
  ctx.note("alpha=%g ", crp.alpha);
  int n = ctx.g.range(0, 15);
  seat_random(ctx, crp, n, ctx.g.coin());
  std::mt19937 prng(ctx.g.seed32());
  std::map<int, int> index;
  std::vector<double> p;
  for (auto& [k, c] : crp.tables) {
    index[k] = p.size();
    p.push_back(c.size() / (n + crp.alpha));
  }
  p.push_back(crp.alpha / (n + crp.alpha));
  int fresh = p.size() - 1;
  check_frequencies(ctx, [&] {
    int k = crp.sample(&prng);
    return index.count(k) ? index[k] : fresh;
  }, p, ctx.thorough ? 10000 : 4000, "sampled tables");
  PCHECK(ctx, crp.N == n && (int)crp.assignments.size() == n, "sampling seated someone");
  if (n >= 2) ctx.nontrivial();
}

static void alpha(pbt::Ctx& ctx) {
  CRP crp;
  int n = ctx.g.range(1, 30);
  int spread = ctx.g.range(0, 8);
  for (int i = 0; i < n; ++i) crp.incorporate(i, ctx.g.range(0, spread) * 2);
  ctx.note("%d customers at %zu tables", n, crp.tables.size());
  std::mt19937 prng(ctx.g.seed32());
  std::vector<double> grid, lp;
  for (int i = 0; i < 20; ++i) {
    double lo = std::log(1.0 / n), hi = std::log(n + 1.0);
    grid.push_back(std::exp(lo + (hi - lo) * i / 19));
  }
  double m = -INFINITY, z = 0;
  for (double a : grid) {
    lp.push_back(crp.tables.size() * std::log(a) + std::lgamma(a) - std::lgamma(n + a));
    m = std::max(m, lp.back());
  }
  for (double& x : lp) x = std::exp(x - m), z += x;
  for (double& x : lp) x /= z;
  auto before = crp.assignments;
  check_frequencies(ctx, [&] {
    crp.transition_alpha(&prng);
    for (int i = 0; i < 20; ++i)
      if (pbt::near(grid[i], crp.alpha, 1e-9)) return i;
    throw pbt::Fail{pbt::fmt("concentration %.15g is not on the documented grid", crp.alpha)};
  }, lp, ctx.thorough ? 6000 : 2000, "concentration");
  PCHECK(ctx, crp.assignments == before && crp.N == n, "the concentration update moved someone");
  if (crp.tables.size() >= 2) ctx.nontrivial();
}

static void domain(pbt::Ctx& ctx) {
  Domain d("D");
  Ref ref;
  std::mt19937 prng(ctx.g.seed32());
  int ops = 0, moved = 0;
  while (ctx.g.more(16, ops, 100)) {
    ++ops;
    int op = ctx.g.weighted({5, 2, 4, 1});
    if (ref.at.empty()) op = 0;
    if (op == 0) {
      int c = ctx.g.range(0, 20);
      if (ref.at.count(c)) {
        d.incorporate(&prng, c);  // already there: nothing happens
        ctx.note("again %d ", c);
      } else if (ctx.g.coin()) {
        int k = ctx.g.range(0, 5);
        d.incorporate(&prng, c, k);
        ref.at[c] = k;
        ctx.note("+%d@%d ", c, k);
      } else {
        auto t = ref.tables();
        d.incorporate(&prng, c);
        int k = d.get_cluster_assignment(c);
        PCHECK(ctx, k >= 0, "seated at %d", k);
        ref.at[c] = k;
        ctx.note("+%d@~%d ", c, k);
      }
    } else if (op == 1) {
      int c = ctx.g.pick(ref.at).first;
      d.unincorporate(c);
      ref.at.erase(c);
      ctx.note("-%d ", c);
    } else if (op == 2) {
      int c = ctx.g.pick(ref.at).first;
      auto w = d.tables_weights_gibbs(c);
      auto t = ref.tables();
      int k = ctx.g.pick(w).first;
      if (k == ref.at[c]) continue;
      d.set_cluster_assignment_gibbs(c, k);
      ref.at[c] = k;
      ++moved;
      ctx.note("%d->%d ", c, k);
    } else {
      auto a = d.tables_weights(), b = d.crp.tables_weights();
      PCHECK(ctx, a == b, "domain and seating disagree on the weights");
    }
    PCHECK(ctx, d.items.size() == ref.at.size(), "%zu items, expected %zu", d.items.size(), ref.at.size());
    for (auto& [c, k] : ref.at) {
      PCHECK(ctx, d.items.contains(c), "item %d is missing", c);
      PCHECK(ctx, d.get_cluster_assignment(c) == k, "item %d is in group %d, expected %d", c, d.get_cluster_assignment(c), k);
    }
    compare(ctx, d.crp, ref);
  }
  if (moved) ctx.nontrivial();
}

// Long-run law of sequential seating: sizes match the partition score.
static void sequential(pbt::Ctx& ctx) {
  static const double A[] = {1, 0.3, 2, 5};
  double a = A[ctx.g.draw(4)];
  int n = ctx.g.range(2, 4);
  ctx.note("alpha=%g n=%d", a, n);
  std::mt19937 prng(ctx.g.seed32());
  // Enumerate partitions as restricted growth strings.
  std::map<std::vector<int>, int> idx;
  std::vector<double> p;
  std::function<void(std::vector<int>, double)> rec = [&](std::vector<int> s, double lp) {
    if ((int)s.size() == n) {
      idx[s] = p.size();
      p.push_back(std::exp(lp));
      return;
    }
    int mx = -1;
    for (int x : s) mx = std::max(mx, x);
    for (int k = 0; k <= mx + 1; ++k) {
      double c = std::count(s.begin(), s.end(), k);
      auto q = s;
      q.push_back(k);
      rec(q, lp + std::log((k > mx ? a : c) / (s.size() + a)));
    }
  };
  rec({}, 0);
  check_frequencies(ctx, [&] {
    CRP crp;
    crp.alpha = a;
    std::map<int, int> canon;
    std::vector<int> s;
    for (int i = 0; i < n; ++i) {
      int k = crp.sample(&prng);
      crp.incorporate(i, k);
      if (!canon.count(k)) { int z = canon.size(); canon[k] = z; }
      s.push_back(canon[k]);
    }
    return idx.count(s) ? idx[s] : -1;
  }, p, ctx.thorough ? 8000 : 3000, "partitions");
  ctx.nontrivial();
}

static pbt::Register a0("history", 12000, 400000, history);
static pbt::Register a1("domain", 12000, 300000, domain);
static pbt::Register a2("sampling", 600, 10000, sampling);
static pbt::Register a3("concentration", 500, 10000, alpha);
static pbt::Register a4("sequential", 150, 2500, sequential);
static pbt::Register a5("crowd", 1500, 30000, crowd);

PBT_MAIN(
    "Seat/unseat/reseat histories over the partition model and over domains against a plain map model, "
    "checking bookkeeping, weights, scores and the chain rule after every step; sampled tables, sequential "
    "partitions and concentration updates against exact probabilities.  Non-trivial: something was removed "
    "or moved and two customers remain, or the exact law has at least two outcomes.")
