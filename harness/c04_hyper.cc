// C04: hyperparameter and latent-parameter updates target the right
// conditional and never touch the data.
#include "emissions/bigram_string.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"
#include "refmodel.hh"
#include "stats.hh"

// The documented grids.
static std::vector<double> decades() { return {1e-4, 1e-3, 1e-2, 0.1, 1, 10, 100, 1000, 10000}; }
static std::vector<double> bern_grid() {
  std::vector<double> g;
  for (int i = 0; i < 10; ++i) g.push_back(std::exp(std::log(1e-4) + (std::log(1e4) - std::log(1e-4)) * i / 9));
  return g;
}

static std::vector<std::array<double, 4>> grid(Kind k) {
  std::vector<std::array<double, 4>> g;
  switch (k) {
    case K_BERN:
      for (double a : bern_grid())
        for (double b : bern_grid()) g.push_back({a, b, 0, 0});
      break;
    case K_ZMN:
      for (double a : decades())
        for (double b : decades()) g.push_back({a, b, 0, 0});
      break;
    case K_NORMAL: case K_STRNORMAL:
      for (double r : {0.1, 1.0, 10.0})
        for (double v : {0.5, 1.0, 2.0, 5.0})
          for (double m : {-1.0, 0.0, 1.0})
            for (double s : {0.5, 1.0, 2.0}) g.push_back({r, v, m, s});
      break;
    case K_SKELLAM: case K_STRSKELLAM:
      for (double a : {-10.0, 0.0, 10.0})
        for (double b : {0.1, 1.0, 10.0})
          for (double c : {-10.0, 0.0, 10.0})
            for (double d : {0.1, 1.0, 10.0}) g.push_back({a, b, c, d});
      break;
    default:
      for (double a : decades()) g.push_back({a, 0, 0, 0});
  }
  return g;
}

static int used(Kind k) {
  switch (k) {
    case K_BERN: case K_ZMN: return 2;
    case K_NORMAL: case K_STRNORMAL: case K_SKELLAM: case K_STRSKELLAM: return 4;
    default: return 1;
  }
}

static std::vector<double> normalise(const std::vector<double>& lp) {
  double m = -INFINITY, z = 0;
  for (double x : lp)
    if (!std::isnan(x)) m = std::max(m, x);
  std::vector<double> p;
  for (double x : lp) p.push_back(std::isnan(x) ? 0 : std::exp(x - m)), z += p.back();
  for (double& x : p) x /= z;
  return p;
}

static int find_point(const std::vector<std::array<double, 4>>& g, const double* h, int n) {
  for (size_t i = 0; i < g.size(); ++i) {
    bool ok = true;
    for (int k = 0; k < n; ++k) ok &= pbt::near(g[i][k], h[k], 1e-9, 1e-12);
    if (ok) return (int)i;
  }
  return -1;
}

static void hyper(pbt::Ctx& ctx, Kind kind) {
  ConfOpts o;
  o.small_support = kind == K_BIGRAM;
  Conf c = gen_conf(ctx, kind, o);
  ctx.note("%s ", c.str().c_str());
  Model m(c);
  WData data;
  double mag = 1, ops = 0;
  double big = ctx.g.chance(1, 4) ? 1e4 : 20;
  bool constant = ctx.g.chance(1, 3);
  while (ctx.g.more(6, (int)ops, 60)) {
    ++ops;
    Val v = constant && !data.empty() ? data[0].first : gen_value(ctx, c, big);
    mag = std::max(mag, magnitude(v, c));
    ctx.note("+%s ", show(v).c_str());
    m.inc(v);
    data.push_back({v, 1});
    if (ctx.g.chance(1, 8)) {
      m.uninc(v);
      data.pop_back();
    }
  }
  std::mt19937 prng(ctx.g.seed32());
  auto g = grid(kind);
  // The probability of the data under every grid point, from a model that is
  // never updated.
  std::vector<double> lp;
  bool noisy = false;
  for (auto& pt : g) {
    Conf q = c;
    for (int k = 0; k < used(kind); ++k) q.h[k] = pt[k];
    if (kind == K_SKELLAM || kind == K_STRSKELLAM) {
      double s = 0;
      for (int j = 0; j < 2; ++j) {
        double z = (std::log(c.mu[j]) - pt[2 * j]) / pt[2 * j + 1];
        s += -z * z / 2 - std::log(pt[2 * j + 1]);
      }
      lp.push_back(s);
      continue;
    }
    Model f(q);
    for (auto& [v, w] : data) f.inc(v, w);
    lp.push_back(f.score());
    if (score_tol(f, mag, ops) > 1e-3) noisy = true;
  }
  if (noisy) throw pbt::Discard{};
  std::vector<double> probs = normalise(lp);
  int n = ctx.thorough ? 6000 : 1500;
  check_frequencies(
      ctx,
      [&] {
        m.hyper(&prng);
        Conf now = m.get();
        int i = find_point(g, now.h, used(kind));
        PCHECK(ctx, i >= 0, "updated to (%g,%g,%g,%g), which is not on the grid", now.h[0], now.h[1], now.h[2], now.h[3]);
        if (kind == K_BIGRAM || kind == K_STRNAT)
          for (auto& t : m.bigram->transition_dists)
            PCHECK(ctx, t.alpha == m.bigram->alpha, "one row has concentration %g, the model %g", t.alpha, m.bigram->alpha);
        return i;
      },
      probs, n, c.str());
  // Nothing but the hyperparameters changed.
  Model f(m.get());
  for (auto& [v, w] : data) f.inc(v, w);
  PCHECK(ctx, m.N() == f.N(), "weight %g after updates, %g recorded", m.N(), f.N());
  double tol = score_tol(m, mag, ops);
  if (tol < 1e-2) {
    PCHECK(ctx, pbt::near(m.score(), f.score(), 1e-9, tol), "score %.15g after updates, recorded data give %.15g", m.score(), f.score());
    for (int k = 0; k < 3; ++k) {
      Val v = gen_value(ctx, c, big);
      double t2 = score_tol(m, std::max(mag, magnitude(v, c)), ops);
      if (t2 < 1e-2)
        PCHECK(ctx, pbt::near(m.logp(v), f.logp(v), 1e-9, t2), "logp(%s) %.15g after updates, recorded data give %.15g",
               show(v).c_str(), m.logp(v), f.logp(v));
    }
  }
  if (data.size() >= 2 || kind == K_SKELLAM) ctx.nontrivial();
  // How concentrated the target is.
  double mx = 0;
  for (double p : probs) mx = std::max(mx, p);
  ctx.label(mx > 0.9 ? "peaked" : "spread");
}

// Joint-distribution test of the latent update: if theta ~ prior, data ~
// theta, then after any number of updates (theta, data) has the same law.
static void theta(pbt::Ctx& ctx) {
  double h[4];
  static const double M[] = {0, 1, 2, -1}, S[] = {0.5, 1, 0.2};
  h[0] = M[ctx.g.draw(4)], h[1] = S[ctx.g.draw(3)], h[2] = M[ctx.g.draw(4)], h[3] = S[ctx.g.draw(3)];
  int nobs = ctx.g.range(1, 6), steps = ctx.g.range(1, 4);
  ctx.note("prior (%g,%g),(%g,%g) %d observations %d updates", h[0], h[1], h[2], h[3], nobs, steps);
  bool adapter = ctx.g.chance(1, 5);
  std::mt19937 prng(ctx.g.seed32());
  std::normal_distribution<double> nd;
  auto round = [&](int n, std::vector<std::vector<double>>& a, std::vector<std::vector<double>>& b) {
    a.assign(4, {});
    b.assign(4, {});
    for (int i = 0; i < n; ++i) {
      for (int side = 0; side < 2; ++side) {
        double mu1 = std::exp(h[0] + h[1] * nd(prng)), mu2 = std::exp(h[2] + h[3] * nd(prng));
        std::vector<int> xs;
        for (int k = 0; k < nobs; ++k) {
          std::poisson_distribution<int> p1(mu1), p2(mu2);
          int u = p1(prng), w = p2(prng);
          xs.push_back(u - w);
        }
        if (side == 1) {
          Skellam* s = new Skellam;
          std::unique_ptr<Distribution<int>> own;
          std::unique_ptr<DistributionAdapter<int>> ad;
          if (adapter) ad = std::make_unique<DistributionAdapter<int>>(s);
          else own.reset(s);
          s->mean1 = h[0], s->stddev1 = h[1], s->mean2 = h[2], s->stddev2 = h[3];
          s->mu1 = mu1, s->mu2 = mu2;
          for (int x : xs) adapter ? ad->incorporate(std::to_string(x)) : s->incorporate(x);
          for (int k = 0; k < steps; ++k) adapter ? ad->transition_theta(&prng) : s->transition_theta(&prng);
          mu1 = s->mu1, mu2 = s->mu2;
        }
        double ll = 0, dist = 0;
        for (int x : xs) {
          ll += skellam_logpmf(mu1, mu2, x);
          dist += x - (mu1 - mu2);
        }
        auto& t = side ? b : a;
        t[0].push_back(std::log(mu1));
        t[1].push_back(std::log(mu2));
        t[2].push_back(ll);
        t[3].push_back(dist / std::sqrt(mu1 + mu2));
      }
    }
  };
  auto ks2 = [](std::vector<double> a, std::vector<double> b) {
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    size_t i = 0, j = 0;
    double d = 0;
    while (i < a.size() && j < b.size()) {
      double x = std::min(a[i], b[j]);
      while (i < a.size() && a[i] <= x) ++i;
      while (j < b.size() && b[j] <= x) ++j;
      d = std::max(d, std::fabs((double)i / a.size() - (double)j / b.size()));
    }
    return d * std::sqrt((double)a.size() * b.size() / (a.size() + b.size()));
  };
  static const char* names[] = {"log mu1", "log mu2", "log likelihood", "standardised residual"};
  std::vector<std::vector<double>> a, b;
  round(2500, a, b);
  bool suspicious = false;
  for (int k = 0; k < 4; ++k) suspicious |= ks2(a[k], b[k]) > 2.6;
  if (suspicious) {
    round(8000, a, b);
    for (int k = 0; k < 4; ++k) {
      double s = ks2(a[k], b[k]);
      PCHECK(ctx, s < 2.8, "updating the latents changes the joint law of latents and data: %s, two-sample KS statistic %.2f",
             names[k], s);
    }
  }
  ctx.nontrivial();
}

// Fresh latents follow the prior.
static void init(pbt::Ctx& ctx) {
  Skellam s;
  static const double M[] = {0, 1, -10, 10}, S[] = {0.1, 1, 10};
  s.mean1 = M[ctx.g.draw(4)], s.stddev1 = S[ctx.g.draw(3)], s.mean2 = M[ctx.g.draw(4)], s.stddev2 = S[ctx.g.draw(3)];
  ctx.note("prior (%g,%g),(%g,%g)", s.mean1, s.stddev1, s.mean2, s.stddev2);
  std::mt19937 prng(ctx.g.seed32());
  auto phi = [](double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); };
  check_ks(ctx, [&] { s.init_theta(&prng); return (std::log(s.mu1) - s.mean1) / s.stddev1; }, phi, 1500, "first rate");
  check_ks(ctx, [&] { s.init_theta(&prng); return (std::log(s.mu2) - s.mean2) / s.stddev2; }, phi, 1500, "second rate");
  // Store, overwrite, restore.
  auto v = s.store_latents();
  double a = s.mu1, b = s.mu2;
  s.init_theta(&prng);
  s.set_latents(v);
  PCHECK(ctx, s.mu1 == a && s.mu2 == b, "latents stored and restored differ");
  ctx.nontrivial();
}

// A latent update on real data keeps the parameters usable.
static void usable(pbt::Ctx& ctx) {
  Skellam s;
  std::mt19937 prng(ctx.g.seed32());
  std::vector<int> xs;
  int n = ctx.g.range(0, 12);
  for (int i = 0; i < n; ++i) {
    int x = ctx.g.chance(1, 4) ? ctx.g.range(-100000, 100000) : ctx.g.range(-20, 20);
    s.incorporate(x);
    xs.push_back(x);
    ctx.note("%d ", x);
  }
  int k = ctx.g.range(1, 30);
  for (int i = 0; i < k; ++i) {
    if (ctx.g.coin()) s.transition_hyperparameters(&prng);
    else s.transition_theta(&prng);
    PCHECK(ctx, s.mu1 > 0 && s.mu2 > 0 && std::isfinite(s.mu1) && std::isfinite(s.mu2), "rates %g, %g", s.mu1, s.mu2);
    PCHECK(ctx, !std::isnan(s.logp_score()), "score is NaN at rates %g, %g", s.mu1, s.mu2);
    for (int x : {0, 1, -1, 7, -300}) PCHECK(ctx, !std::isnan(s.logp(x)), "logp(%d) is NaN at rates %g, %g", x, s.mu1, s.mu2);
  }
  double sum = 0;
  for (int x : xs) sum += s.logp(x);
  PCHECK(ctx, pbt::near(sum, s.logp_score(), 1e-9, 1e-9), "score %.15g, the recorded data give %.15g", s.logp_score(), sum);
  PCHECK(ctx, s.N == n, "recorded weight %g of %d", s.N, n);
  if (n) ctx.nontrivial();
}

// Noise models: each component is updated given its own evidence.
static void emission(pbt::Ctx& ctx) {
  std::mt19937 prng(ctx.g.seed32());
  int which = ctx.g.draw(6);
  int n = ctx.g.range(0, 12), trials = 800;
  auto bern_probs = [&](double N, double s) {
    std::vector<double> lp;
    for (auto& g : grid(K_BERN)) {
      auto lb = [](double a, double b) { return std::lgamma(a) + std::lgamma(b) - std::lgamma(a + b); };
      lp.push_back(lb(s + g[0], N - s + g[1]) - lb(g[0], g[1]));
    }
    return normalise(lp);
  };
  auto dc_probs = [&](const std::vector<double>& counts) {
    std::vector<double> lp;
    double N = 0;
    for (double x : counts) N += x;
    for (double a : decades()) {
      double k = counts.size(), s = std::lgamma(a * k) - std::lgamma(a * k + N);
      for (double x : counts) s += std::lgamma(x + a) - std::lgamma(a);
      lp.push_back(s);
    }
    return normalise(lp);
  };
  auto bern_at = [&](const BetaBernoulli& b) {
    double h[2] = {b.alpha, b.beta};
    int i = find_point(grid(K_BERN), h, 2);
    PCHECK(ctx, i >= 0, "updated to (%g,%g), not on the grid", b.alpha, b.beta);
    return i;
  };
  auto dc_at = [&](const DirichletCategorical& d) {
    int i = find_point(grid(K_CAT), &d.alpha, 1);
    PCHECK(ctx, i >= 0, "updated to %g, not on the grid", d.alpha);
    return i;
  };
  auto word = [&] { return gen_string(ctx, 'a', 'c', 3, 6); };
  if (which == 0) {
    Sometimes<bool> e(new BitFlip);
    double flips = 0;
    for (int i = 0; i < n; ++i) {
      bool c = ctx.g.coin(), f = ctx.g.chance(1, 3);
      e.incorporate({c, c != f});
      flips += f;
    }
    ctx.note("sometimes_bitflip n=%d flips=%g", n, flips);
    check_frequencies(ctx, [&] { e.transition_hyperparameters(&prng); return bern_at(e.bb); }, bern_probs(n, flips), trials, "corruption rate of sometimes_bitflip");
    PCHECK(ctx, e.N == n && e.bb.N == n && e.bb.s == flips, "the recorded pairs changed");
  } else if (which == 1) {
    SimpleStringEmission e;
    for (int i = 0; i < n; ++i) {
      auto a = word(), b = ctx.g.coin() ? a : word();
      ctx.note("%s->%s ", show(a).c_str(), show(b).c_str());
      e.incorporate({a, b});
    }
    BetaBernoulli* parts[] = {&e.substitutions, &e.insertions, &e.deletions};
    static const char* names[] = {"substitutions", "insertions", "deletions"};
    int k = ctx.g.draw(3);
    double N = parts[k]->N, s = parts[k]->s;
    check_frequencies(ctx, [&] { e.transition_hyperparameters(&prng); return bern_at(*parts[k]); }, bern_probs(N, s), trials, std::string("simple_string ") + names[k]);
    PCHECK(ctx, e.N == n && parts[k]->N == N && parts[k]->s == s, "the recorded pairs changed");
  } else if (which == 2) {
    int k = ctx.g.range(1, 5);
    CategoricalEmission e(k);
    std::vector<std::vector<double>> cnt(k, std::vector<double>(k, 0));
    for (int i = 0; i < n; ++i) {
      int a = ctx.g.draw(k), b = ctx.g.draw(k);
      e.incorporate({a, b});
      cnt[a][b]++;
      ctx.note("%d->%d ", a, b);
    }
    int r = ctx.g.draw(k);
    check_frequencies(ctx, [&] { e.transition_hyperparameters(&prng); return dc_at(e.emission_dists[r]); }, dc_probs(cnt[r]), trials, "categorical row");
    for (int a = 0; a < k; ++a) PCHECK(ctx, e.emission_dists[a].counts == cnt[a], "the recorded pairs changed");
  } else if (which == 3) {
    Sometimes<int> e(new CategoricalEmission(3), true);
    for (int i = 0; i < n; ++i) e.incorporate({(int)ctx.g.draw(3), (int)ctx.g.draw(3)});
    auto* ce = static_cast<CategoricalEmission*>(e.be);
    auto counts = ce->emission_dists[1].counts;
    check_frequencies(ctx, [&] { e.transition_hyperparameters(&prng); return dc_at(ce->emission_dists[1]); }, dc_probs(counts), trials, "inner noise of sometimes_categorical");
    double bn = e.bb.N, bs = e.bb.s;
    check_frequencies(ctx, [&] { e.transition_hyperparameters(&prng); return bern_at(e.bb); }, bern_probs(bn, bs), trials, "corruption rate of sometimes_categorical");
    PCHECK(ctx, e.N == n && ce->emission_dists[1].counts == counts, "the recorded pairs changed");
  } else if (which == 4) {
    GaussianEmission e;
    WData d;
    for (int i = 0; i < n; ++i) {
      double c = gen_real(ctx, 100), x = c + (ctx.g.unit() - 0.5) * 4;
      e.incorporate({c, x});
      d.push_back({x - c, 1});
    }
    std::vector<double> lp;
    for (auto& g : grid(K_ZMN)) {
      Conf q;
      q.kind = K_ZMN;
      q.h[0] = g[0], q.h[1] = g[1];
      Model f(q);
      for (auto& x : d) f.inc(x.first);
      lp.push_back(f.score());
    }
    check_frequencies(ctx, [&] {
      e.transition_hyperparameters(&prng);
      double h[2] = {e.zmn.alpha, e.zmn.beta};
      int i = find_point(grid(K_ZMN), h, 2);
      PCHECK(ctx, i >= 0, "not on the grid");
      return i;
    }, normalise(lp), trials, "gaussian noise");
    PCHECK(ctx, e.N == n && e.zmn.N == n, "the recorded pairs changed");
  } else {
    BigramStringEmission e;
    for (int i = 0; i < std::min(n, 4); ++i) {
      auto a = word(), b = ctx.g.coin() ? a : word();
      e.incorporate({a, b});
    }
    size_t r = ctx.g.coin() ? 0 : e.get_index('a');
    auto& row = ctx.g.coin() ? e.insertions[r] : e.substitutions[r];
    auto counts = row.counts;
    check_frequencies(ctx, [&] { e.transition_hyperparameters(&prng); return dc_at(row); }, dc_probs(counts), 8, "bigram noise row");
    PCHECK(ctx, row.counts == counts, "the recorded pairs changed");
  }
  if (n >= 2) ctx.nontrivial();
  ctx.label(pbt::fmt("noise-%d", which));
}

#define H(k, q, t) static pbt::Register PBT_CAT(h_, __LINE__)(std::string("hyper_") + kind_name(k), q, t, [](pbt::Ctx& c) { hyper(c, k); })
H(K_BERN, 250, 4000);
H(K_CAT, 600, 8000);
H(K_NORMAL, 250, 4000);
H(K_ZMN, 250, 4000);
H(K_BIGRAM, 250, 4000);
H(K_STRNAT, 60, 1000);
H(K_SKELLAM, 300, 4000);
H(K_STRINGCAT, 300, 4000);
H(K_STRNORMAL, 100, 1500);
H(K_STRSKELLAM, 60, 1000);
static pbt::Register t0("theta_skellam", 160, 2500, theta);
static pbt::Register t1("init_skellam", 200, 3000, init);
static pbt::Register t2("usable_skellam", 6000, 150000, usable);
static pbt::Register t3("emission", 300, 5000, emission);

PBT_MAIN(
    "hyper: each case draws a distribution and data, then compares the frequencies of thousands of grid "
    "updates with the normalised probability of the data over the documented grid, and the data with a "
    "fresh model.  theta: joint-distribution (successive-conditional) test of the latent update.  emission: "
    "the same for each component of a noise model.  Non-trivial: at least two observations (latents alone "
    "for skellam).")
