// C01: any add/remove history equals a fresh model with the survivors.
#include "dists.hh"

static void compare(pbt::Ctx& ctx, const Model& m, const Model& f,
                    const std::vector<Val>& probes, double mag, double ops,
                    const char* when) {
  double tol = score_tol(m, mag, ops);
  PCHECK(ctx, pbt::near(m.N(), f.N(), 1e-12, 1e-9), "%s: weight %.17g, expected %.17g", when, m.N(), f.N());
  double a = m.score(), b = f.score();
  PCHECK(ctx, !std::isnan(a) || tol > 1e-3, "%s: score is NaN", when);
  if (tol < 1)
    PCHECK(ctx, a == b || std::fabs(a - b) <= tol + 1e-9 * std::fabs(b),
           "%s: score %.17g, a fresh model of the survivors has %.17g (tolerance %.3g)", when, a, b, tol);
  for (const Val& v : probes) {
    double x = m.logp(v), y = f.logp(v);
    PCHECK(ctx, !std::isnan(x) || tol > 1e-3, "%s: logp(%s) is NaN", when, show(v).c_str());
    if (tol < 1)
      PCHECK(ctx, x == y || std::fabs(x - y) <= tol + 1e-9 * std::fabs(y),
             "%s: logp(%s) = %.17g, a fresh model of the survivors says %.17g (tolerance %.3g)",
             when, show(v).c_str(), x, y, tol);
  }
}

static void history(pbt::Ctx& ctx, Kind kind) {
  ConfOpts o;
  o.skellam_tame = false;
  Conf c = gen_conf(ctx, kind, o);
  double big = kind == K_ZMN && c.h[1] < 1 ? 100 : ctx.g.coin() ? 100 : 1e5;
  // A small pool of values makes repeats common.
  std::vector<Val> pool;
  int np = (int)ctx.g.range(1, 6);
  for (int k = 0; k < np; ++k) pool.push_back(gen_value(ctx, c, big));
  ctx.note("%s ", c.str().c_str());
  Model m(c);
  std::vector<Val> live;
  double mag = 1;  // largest value added or queried
  for (auto& v : pool) mag = std::max(mag, magnitude(v, c));
  int ops = 0, removed = 0, changed = 0;
  bool weighted = ctx.g.chance(1, 4) && kind != K_SKELLAM && kind != K_STRSKELLAM;
  double weight = 1;
  if (weighted) {
    static const double W[] = {0.5, 0.25, 2, 0.125, 3};
    weight = W[ctx.g.draw(5)];
    ctx.note("weight %g ", weight);
  }
  std::mt19937 prng(ctx.g.seed32());
  const bool crowd = ctx.g.chance(1, 200);
  while (ctx.g.more(crowd ? 300 : 14, ops, crowd ? 900 : 120)) {
    ++ops;
    int op = ctx.g.weighted({6, 5, 1, 1});
    if (op == 1 && live.empty()) op = 0;
    if (op == 0) {
      Val v = ctx.g.chance(1, 4) ? gen_value(ctx, c, big) : ctx.g.pick(pool);
      mag = std::max(mag, magnitude(v, c));
      ctx.note("+%s ", show(v).c_str());
      m.inc(v, weight);
      live.push_back(v);
    } else if (op == 1) {
      size_t k = ctx.g.draw(live.size());
      ctx.note("-%s ", show(live[k]).c_str());
      if (weight == 1) m.uninc(live[k]);
      else m.inc(live[k], -weight);
      live.erase(live.begin() + k);
      ++removed;
      if (live.empty()) ctx.label("emptied");
    } else if (op == 2) {
      ctx.note("hyper ");
      if (kind == K_ZMN) { continue; }
      m.hyper(&prng);
      ++changed;
    } else {
      m.theta(&prng);
      ++changed;
    }
    if (ctx.g.chance(1, crowd ? 60 : 6)) {
      Model f(m.get());
      for (auto& v : live) f.inc(v, weight);
      compare(ctx, m, f, pool, mag, ops, "mid-history");
    }
  }
  // The survivors in another order.
  std::vector<Val> order = live;
  for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[ctx.g.draw(k)]);
  Model f(m.get());
  for (auto& v : order) f.inc(v, weight);
  std::vector<Val> probes = pool;
  for (int k = 0; k < 3; ++k) {
    probes.push_back(gen_value(ctx, c, big));
    mag = std::max(mag, magnitude(probes.back(), c));
  }
  compare(ctx, m, f, probes, mag, ops, "at the end");
  // Removing everything returns to the prior.
  bool drain = ctx.g.coin();
  if (drain) {
    for (auto& v : order) {
      if (weight == 1) m.uninc(v);
      else m.inc(v, -weight);
    }
    Model p(m.get());
    compare(ctx, m, p, probes, mag, ops + order.size(), "after removing everything");
    double tol = score_tol(m, mag, ops);
    PCHECK(ctx, std::fabs(m.score()) <= tol, "score of no data is %.17g", m.score());
  }
  if (removed && !live.empty()) {
    ctx.nontrivial();
    ctx.label("removal-with-survivors");
  }
  if (changed) ctx.label("with-parameter-update");
  if (weighted) ctx.label("weighted");
  if (live.size() > 100) ctx.label("survivors>100");
  ctx.label(live.size() > 10 ? "survivors>10" : "survivors<=10");
}

static pbt::Register r0("bernoulli", 68000, 200000 * 3, [](pbt::Ctx& c) { history(c, K_BERN); });
static pbt::Register r1("categorical", 68000, 200000 * 3, [](pbt::Ctx& c) { history(c, K_CAT); });
static pbt::Register r2("normal", 68000, 200000 * 3, [](pbt::Ctx& c) { history(c, K_NORMAL); });
static pbt::Register r3("zero_mean_normal", 48000, 150000 * 3, [](pbt::Ctx& c) { history(c, K_ZMN); });
static pbt::Register r4("bigram", 38000, 60000 * 3, [](pbt::Ctx& c) { history(c, K_BIGRAM); });
static pbt::Register r5("skellam", 28000, 60000 * 3, [](pbt::Ctx& c) { history(c, K_SKELLAM); });
static pbt::Register r6("stringcat", 48000, 100000 * 3, [](pbt::Ctx& c) { history(c, K_STRINGCAT); });
static pbt::Register r7("string_nat", 38000, 60000 * 3, [](pbt::Ctx& c) { history(c, K_STRNAT); });
static pbt::Register r8("string_normal", 38000, 60000 * 3, [](pbt::Ctx& c) { history(c, K_STRNORMAL); });
static pbt::Register r9("string_skellam", 9000, 90000, [](pbt::Ctx& c) { history(c, K_STRSKELLAM); });

PBT_MAIN(
    "Each case draws a distribution kind, hyperparameters, a small value pool and a history of "
    "adds, removes and parameter updates; the oracle is a fresh model with the same parameters "
    "given the survivors in another order.  Non-trivial: at least one removal happened and at "
    "least one observation survived.")
