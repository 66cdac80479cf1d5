// C02: predictive and marginal probabilities are the model's.
#include <boost/math/quadrature/tanh_sinh.hpp>

#include "refmodel.hh"

struct State {
  Conf c;
  std::unique_ptr<Model> m;
  WData data;
  double mag = 1, ops = 0, big;
};

static State make_state(pbt::Ctx& ctx, Kind kind, bool weights, ConfOpts o = {}, int mean = 8) {
  State s;
  s.c = gen_conf(ctx, kind, o);
  s.big = kind == K_ZMN && s.c.h[1] < 1 ? 100 : ctx.g.coin() ? 100 : 1e4;
  ctx.note("%s ", s.c.str().c_str());
  s.m = std::make_unique<Model>(s.c);
  bool frac = weights && ctx.g.chance(1, 4);
  std::vector<Val> pool;
  int np = ctx.g.range(1, 5);
  for (int i = 0; i < np; ++i) pool.push_back(gen_value(ctx, s.c, s.big));
  const bool crowd = ctx.g.chance(1, 150);
  while (ctx.g.more(crowd ? 250 : mean, (int)s.ops, crowd ? 700 : 80)) {
    ++s.ops;
    if (!s.data.empty() && ctx.g.chance(1, 4)) {
      size_t k = ctx.g.draw(s.data.size());
      ctx.note("-%s ", show(s.data[k].first).c_str());
      s.m->inc(s.data[k].first, -s.data[k].second);
      s.data.erase(s.data.begin() + k);
      ctx.label("after-removal");
    } else {
      Val v = ctx.g.chance(1, 3) ? gen_value(ctx, s.c, s.big) : ctx.g.pick(pool);
      double w = 1;
      if (frac) {
        static const double W[] = {1, 0.5, 0.25, 2};
        w = W[ctx.g.draw(4)];
      }
      s.mag = std::max(s.mag, magnitude(v, s.c));
      ctx.note("+%s", show(v).c_str());
      if (w != 1) ctx.note("*%g", w);
      ctx.note(" ");
      s.m->inc(v, w);
      s.data.push_back({v, w});
    }
  }
  if (frac) ctx.label("weighted");
  return s;
}

static void predictive(pbt::Ctx& ctx, Kind kind) {
  ConfOpts o;
  o.skellam_tame = !ctx.g.chance(1, 3);
  State s = make_state(ctx, kind, true, o);
  if (kind == K_SKELLAM || kind == K_STRSKELLAM)
    if (s.c.mu[0] * s.c.mu[1] > 1e10) throw pbt::Discard{};
  Model& m = *s.m;
  int q = ctx.g.range(1, 5);
  double score0 = m.score();
  bool unit = true;
  for (auto& x : s.data) unit &= x.second == 1;
  for (int i = 0; i < q; ++i) {
    Val v = !s.data.empty() && ctx.g.coin() ? s.data[ctx.g.draw(s.data.size())].first
                                            : gen_value(ctx, s.c, s.big);
    s.mag = std::max(s.mag, magnitude(v, s.c));
    double tol = score_tol(m, s.mag, s.ops + 4);
    double lp = m.logp(v), ref = ref_logp(s.c, s.data, v);
    if (kind == K_SKELLAM || kind == K_STRSKELLAM) tol = std::max(tol, 2e-9 * std::fabs(ref) + 1e-9);
    if (tol > 1e-2) continue;
    ctx.note("?%s ", show(v).c_str());
    PCHECK(ctx, pbt::near(lp, ref, 1e-9, tol), "logp(%s) = %.15g, the model says %.15g", show(v).c_str(), lp, ref);
    // Chain rule.
    m.inc(v);
    double d = m.score() - score0;
    PCHECK(ctx, pbt::near(d, lp, 1e-8, tol + 1e-9 * std::fabs(score0)),
           "adding %s changes the score by %.15g, logp says %.15g", show(v).c_str(), d, lp);
    m.uninc(v);
    if (kind != K_NORMAL && kind != K_ZMN && kind != K_STRNORMAL)
      PCHECK(ctx, lp <= 1e-9, "log probability %.17g of %s is positive", lp, show(v).c_str());
  }
  if (unit && s.ops < 60) {
    double tol = score_tol(m, s.mag, s.ops + 10) * (1 + s.data.size());
    double a = m.score(), b = ref_score(s.c, s.data);
    if (kind == K_SKELLAM || kind == K_STRSKELLAM) tol = std::max(tol, 2e-9 * std::fabs(b));
    if (tol < 1e-2)
      PCHECK(ctx, pbt::near(a, b, 1e-8, tol), "score %.15g, the model's marginal is %.15g", a, b);
  }
  if (s.data.size() >= 2) ctx.nontrivial();
  ctx.label(s.data.empty() ? "prior" : "data");
}

static void normalised(pbt::Ctx& ctx, Kind kind) {
  ConfOpts o;
  o.small_support = true;
  State s = make_state(ctx, kind, true, o, 5);
  Model& m = *s.m;
  double tot = 0;
  switch (kind) {
    case K_BERN: tot = std::exp(m.logp(true)) + std::exp(m.logp(false)); break;
    case K_CAT:
      for (int i = 0; i < s.c.k; ++i) tot += std::exp(m.logp(i));
      break;
    case K_STRINGCAT:
      for (auto& x : s.c.strings) tot += std::exp(m.logp(x));
      break;
    case K_SKELLAM: {
      double mu = s.c.mu[0] - s.c.mu[1], sd = std::sqrt(s.c.mu[0] + s.c.mu[1]);
      for (int x = (int)(mu - 15 * sd - 40); x <= mu + 15 * sd + 40; ++x) {
        double p = std::exp(m.logp(x));
        PCHECK(ctx, p >= 0, "probability of %d is NaN", x);
        tot += p;
      }
      break;
    }
    case K_BIGRAM: {
      // Every string up to a length: never more than one in total.
      std::vector<std::string> level{""};
      int depth = s.c.lo == s.c.hi ? 12 : 6;
      if (s.c.maxlen) depth = std::min<int>(depth, s.c.maxlen);
      double left = 1;
      for (int d = 0; d <= depth; ++d) {
        std::vector<std::string> next;
        for (auto& x : level) {
          double p = std::exp(m.logp(x));
          PCHECK(ctx, p >= 0, "probability of %s is NaN", show(x).c_str());
          tot += p;
          if (d < depth)
            for (char c = s.c.lo; c <= s.c.hi; ++c) next.push_back(x + c);
        }
        left = 0;  // what remains must be the mass of longer strings
        auto u = bigram_urn(s.data);
        for (auto& x : level)
          for (char c = s.c.lo; c <= s.c.hi; ++c) left += std::exp(bigram_logp(s.c, u, x + c, false));
        level = next;
      }
      PCHECK(ctx, pbt::near(tot + left, 1, 1e-9, 1e-9),
             "strings up to %d characters have total probability %.15g, longer ones %.15g", depth, tot, left);
      if (s.data.size() >= 2) ctx.nontrivial();
      return;
    }
    default: {
      TParams t = t_params(s.c, s.data);
      // Heavy tails: integrate over u with x = loc + scale * sinh(u) e^...;
      // the tail beyond +-1e12 scales is bounded with the t distribution.
      if (t.dof < 0.4) throw pbt::Discard{};
      boost::math::quadrature::tanh_sinh<double> q;
      auto f = [&](double u) {
        double x = t.loc + t.scale * std::sinh(u);
        return std::exp(m.logp(x)) * t.scale * std::cosh(u);
      };
      tot = q.integrate(f, -28.0, 0.0, 1e-6) + q.integrate(f, 0.0, 28.0, 1e-6);
      double z = std::sinh(28.0);
      tot += 2 * boost::math::cdf(boost::math::complement(boost::math::students_t(t.dof), z));
      double tol = 1e-4 + score_tol(m, s.mag + 1, s.ops);
      // Far from the data rounding of the statistics dominates.
      PCHECK(ctx, pbt::near(tot, 1, 0, tol), "the predictive integrates to %.9g", tot);
      if (s.data.size() >= 2) ctx.nontrivial();
      return;
    }
  }
  PCHECK(ctx, pbt::near(tot, 1, 0, 1e-8), "probabilities sum to %.15g", tot);
  if (s.data.size() >= 2) ctx.nontrivial();
}

#define P(k, q, t) \
  static pbt::Register PBT_CAT(p_, __LINE__)(std::string("predictive_") + kind_name(k), q, t, [](pbt::Ctx& c) { predictive(c, k); })
#define N(k, q, t) \
  static pbt::Register PBT_CAT(n_, __LINE__)(std::string("normalised_") + kind_name(k), q, t, [](pbt::Ctx& c) { normalised(c, k); })
P(K_BERN, 40000, 1500000);
P(K_CAT, 40000, 1500000);
P(K_NORMAL, 40000, 1500000);
P(K_ZMN, 40000, 1500000);
P(K_BIGRAM, 20000, 400000);
P(K_STRNAT, 20000, 400000);
P(K_SKELLAM, 8000, 200000);
P(K_STRINGCAT, 30000, 1000000);
P(K_STRNORMAL, 20000, 500000);
P(K_STRSKELLAM, 6000, 150000);
N(K_BERN, 10000, 300000);
N(K_CAT, 10000, 300000);
N(K_NORMAL, 2500, 60000);
N(K_ZMN, 2500, 60000);
N(K_BIGRAM, 3000, 60000);
N(K_SKELLAM, 2000, 60000);
N(K_STRINGCAT, 10000, 200000);

PBT_MAIN(
    "Each case draws a distribution, hyperparameters and a history of (weighted) adds and removes, then "
    "query values; the oracle is the textbook predictive computed from the surviving data alone, the "
    "chain rule on the score, and summation or numerical integration over the support.  Non-trivial: "
    "at least two observations survive.")
