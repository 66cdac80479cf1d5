// C03: samples follow the reported predictive; sampling and querying are
// read-only.
#include "refmodel.hh"
#include "stats.hh"

struct State {
  Conf c;
  std::unique_ptr<Model> m;
  WData data;
  double mag = 1, ops = 0;
};

static State make_state(pbt::Ctx& ctx, Kind kind, ConfOpts o, double big, int mean = 6) {
  State s;
  s.c = gen_conf(ctx, kind, o);
  ctx.note("%s ", s.c.str().c_str());
  s.m = std::make_unique<Model>(s.c);
  bool frac = ctx.g.chance(1, 3);
  const bool crowd = ctx.g.chance(1, 150);
  while (ctx.g.more(crowd ? 200 : mean, (int)s.ops, crowd ? 500 : 60)) {
    ++s.ops;
    if (!s.data.empty() && ctx.g.chance(1, 6)) {
      size_t k = ctx.g.draw(s.data.size());
      s.m->inc(s.data[k].first, -s.data[k].second);
      s.data.erase(s.data.begin() + k);
    } else {
      Val v = !s.data.empty() && ctx.g.coin() ? s.data[ctx.g.draw(s.data.size())].first
                                              : gen_value(ctx, s.c, big);
      double w = 1;
      if (frac) {
        static const double W[] = {1, 0.5, 0.75, 3};
        w = W[ctx.g.draw(4)];
      }
      s.mag = std::max(s.mag, magnitude(v, s.c));
      s.m->inc(v, w);
      s.data.push_back({v, w});
    }
  }
  for (auto& [v, w] : s.data) {
    ctx.note("%s", show(v).c_str());
    if (w != 1) ctx.note("*%g", w);
    ctx.note(" ");
  }
  if (frac) ctx.label("weighted");
  return s;
}

static void in_support(pbt::Ctx& ctx, const Conf& c, const Val& v) {
  switch (c.kind) {
    case K_CAT: {
      int x = std::get<int>(v);
      PCHECK(ctx, x >= 0 && x < c.k, "sampled category %d of %d", x, c.k);
      break;
    }
    case K_BIGRAM: case K_STRNAT: {
      const auto& x = std::get<std::string>(v);
      PCHECK(ctx, c.maxlen == 0 || x.size() <= c.maxlen, "sampled %s exceeds the maximum length %zu",
             show(x).c_str(), c.maxlen);
      for (char ch : x) PCHECK(ctx, ch >= c.lo && ch <= c.hi, "sampled %s is not in the alphabet", show(x).c_str());
      break;
    }
    case K_STRINGCAT: {
      const auto& x = std::get<std::string>(v);
      PCHECK(ctx, std::find(c.strings.begin(), c.strings.end(), x) != c.strings.end(), "sampled %s is not listed",
             show(x).c_str());
      break;
    }
    case K_NORMAL: case K_ZMN: {
      PCHECK(ctx, !std::isnan(std::get<double>(v)), "sampled NaN");
      break;
    }
    case K_STRSKELLAM: case K_STRNORMAL: {
      const auto& x = std::get<std::string>(v);
      char* end;
      if (c.kind == K_STRSKELLAM) (void)strtol(x.c_str(), &end, 10);
      else (void)strtod(x.c_str(), &end);
      PCHECK(ctx, !x.empty() && *end == 0, "sampled %s does not spell a number", show(x).c_str());
      break;
    }
    default: break;
  }
}

// Unbounded strings of a reinforced urn with a small concentration need not
// end in any useful time.
static bool can_sample(const Conf& c) {
  if (c.kind != K_BIGRAM && c.kind != K_STRNAT) return true;
  return c.maxlen > 0 || c.h[0] >= 1;
}

// Read-only: sampling and queries leave everything as it was, bit for bit
// where arithmetic is exact, else up to rounding.
static void read_only(pbt::Ctx& ctx, Kind kind) {
  ConfOpts o;
  o.skellam_tame = true;
  double big = ctx.g.coin() ? 100 : 1e5;
  State s = make_state(ctx, kind, o, big);
  Model& m = *s.m;
  std::vector<Val> probes;
  for (int i = 0; i < 3; ++i) probes.push_back(gen_value(ctx, s.c, big));
  if (!s.data.empty()) probes.push_back(s.data[0].first);
  std::vector<double> before;
  for (auto& v : probes) before.push_back(m.logp(v));
  double score = m.score(), n = m.N();
  std::mt19937 prng(ctx.g.seed32());
  int k = ctx.g.range(1, 40);
  for (int i = 0; i < k; ++i) {
    if (ctx.g.coin() && can_sample(s.c)) in_support(ctx, s.c, m.sample(&prng));
    else {
      Val v = gen_value(ctx, s.c, big);
      (void)m.logp(v);
      if (kind != K_STRINGCAT) (void)m.nearest(v);
      (void)m.score();
    }
  }
  PCHECK(ctx, m.N() == n, "the weight of the data went from %.17g to %.17g by sampling and querying", n, m.N());
  // Integer counts and quarter weights are exact.
  double tol = m.bigram || m.scat || m.cat || m.bern || m.skellam ? 0 : 1e-13;
  PCHECK(ctx, pbt::near(m.score(), score, tol, 1e-9 * tol), "the score went from %.17g to %.17g by sampling and querying", score, m.score());
  for (size_t i = 0; i < probes.size(); ++i) {
    double x = m.logp(probes[i]);
    PCHECK(ctx, pbt::near(x, before[i], tol, tol), "logp(%s) went from %.17g to %.17g by sampling and querying",
           show(probes[i]).c_str(), before[i], x);
  }
  // And sampling is a function of the state and the seed.
  std::mt19937 p1(k), p2(k);
  if (can_sample(s.c)) {
    Val a = m.sample(&p1), b = m.sample(&p2);
    PCHECK(ctx, a == b, "equal seeds gave %s and %s", show(a).c_str(), show(b).c_str());
  }
  if (s.data.size() >= 2) ctx.nontrivial();
}

static void frequencies(pbt::Ctx& ctx, Kind kind) {
  ConfOpts o;
  o.small_support = true;
  State s = make_state(ctx, kind, o, 100);
  Model& m = *s.m;
  std::mt19937 prng(ctx.g.seed32());
  int n = ctx.thorough ? 20000 : 6000;
  std::vector<Val> cats;
  std::vector<double> probs;
  std::function<int(const Val&)> index;
  switch (kind) {
    case K_BERN: cats = {false, true}; break;
    case K_CAT:
      for (int i = 0; i < s.c.k; ++i) cats.push_back(i);
      break;
    case K_STRINGCAT:
      for (auto& x : s.c.strings) cats.push_back(x);
      break;
    case K_SKELLAM: case K_STRSKELLAM: {
      double mu = s.c.mu[0] - s.c.mu[1], sd = std::sqrt(s.c.mu[0] + s.c.mu[1]);
      for (int x = (int)(mu - 6 * sd - 12); x <= mu + 6 * sd + 12; ++x) {
        if (kind == K_SKELLAM) cats.push_back(x);
        else cats.push_back(std::to_string(x));
      }
      break;
    }
    default: abort();
  }
  std::map<Val, int> at;
  for (size_t i = 0; i < cats.size(); ++i) {
    at[cats[i]] = i;
    probs.push_back(std::exp(m.logp(cats[i])));
  }
  check_frequencies(
      ctx,
      [&] {
        Val v = m.sample(&prng);
        in_support(ctx, s.c, v);
        auto it = at.find(v);
        return it == at.end() ? -1 : it->second;
      },
      probs, n, s.c.str());
  if (s.data.size() >= 2) ctx.nontrivial();
}

// Strings: up to a depth exactly, beyond it by prefix.
static void string_frequencies(pbt::Ctx& ctx, Kind kind) {
  ConfOpts o;
  o.small_support = kind == K_BIGRAM;
  State s = make_state(ctx, kind, o, 100);
  Model& m = *s.m;
  if (!can_sample(s.c)) throw pbt::Discard{};
  std::mt19937 prng(ctx.g.seed32());
  int depth = kind == K_STRNAT ? 1 : 3;
  if (s.c.maxlen) depth = std::min<int>(depth, s.c.maxlen);
  std::vector<double> probs;
  std::map<std::string, int> exact, prefix;
  Urn u = bigram_urn(s.data);
  std::vector<std::string> level{""};
  for (int d = 0; d <= depth; ++d) {
    std::vector<std::string> next;
    for (auto& x : level) {
      bool capped = s.c.maxlen && x.size() == s.c.maxlen;
      if (!capped) {
        exact[x] = probs.size();
        probs.push_back(std::exp(m.logp(x)));
      }
      if (capped) {
        // The cut: whatever would have followed, it stops here.
        prefix[x] = probs.size();
        probs.push_back(std::exp(bigram_logp(s.c, u, x, false)));
      } else if (d == depth) {
        prefix[x] = probs.size();
        probs.push_back(std::exp(bigram_logp(s.c, u, x, false)) - std::exp(m.logp(x)));
      }
      if (d < depth)
        for (char c = s.c.lo; c <= s.c.hi; ++c) next.push_back(x + c);
    }
    level = next;
  }
  check_frequencies(
      ctx,
      [&] {
        Val v = m.sample(&prng);
        in_support(ctx, s.c, v);
        const auto& x = std::get<std::string>(v);
        if (auto it = exact.find(x); it != exact.end()) return it->second;
        auto it = prefix.find(x.substr(0, depth));
        return it == prefix.end() ? -1 : it->second;
      },
      probs, ctx.thorough ? 12000 : 3000, s.c.str());
  if (s.data.size() >= 2) ctx.nontrivial();
}

static void continuous(pbt::Ctx& ctx, Kind kind) {
  State s = make_state(ctx, kind, {}, 100);
  Model& m = *s.m;
  std::mt19937 prng(ctx.g.seed32());
  TParams t = t_params(s.c, s.data);
  // What the model itself reports, at a few points.
  for (double z : {-2.0, 0.0, 0.5, 3.0}) {
    double x = t.loc + z * t.scale;
    if (kind == K_STRNORMAL) continue;
    PCHECK(ctx, pbt::near(m.logp(x), t_logpdf(t, x), 1e-7, 1e-6 + score_tol(m, s.mag, s.ops)),
           "logp(%g) = %.12g, expected %.12g", x, m.logp(x), t_logpdf(t, x));
  }
  if (t.dof < 0.02) throw pbt::Discard{};  // tails beyond the range of double
  boost::math::students_t st(t.dof);
  auto cdf_of = [&](TParams p) {
    return [=](double x) { return boost::math::cdf(st, std::max(-1e300, std::min(1e300, (x - p.loc) / p.scale))); };
  };
  auto draw = [&] {
    Val v = m.sample(&prng);
    in_support(ctx, s.c, v);
    return as_real(v, s.c);
  };
  int n = ctx.thorough ? 20000 : 5000;
  bool adapted = kind == K_STRNORMAL;
  // The adapter prints six digits: ties in the sample are rounding.
  if (adapted && t.scale < 1e-3 * std::fabs(t.loc)) throw pbt::Discard{};
  try {
    check_ks(ctx, draw, cdf_of(t), n, s.c.str());
  } catch (const pbt::Fail& f) {
    if (kind != K_ZMN || !ctx.known("zmn-sample-spread")) throw;
    // Known: sampled with scale^2 (beta + N var) / alpha_n.
    TParams w = t;
    double ss = 0;
    for (auto& [v, wt] : s.data) ss += wt * as_real(v, s.c) * as_real(v, s.c);
    w.scale = t.scale * std::sqrt((s.c.h[1] + ss) / (s.c.h[1] + ss / 2));
    ctx.label("known:zmn-sample-spread");
    check_ks(ctx, draw, cdf_of(w), n, s.c.str() + " (not even with the known excess spread)");
  }
  if (s.data.size() >= 2) ctx.nontrivial();
}

KNOWN("zmn-sample-spread") {
  ZeroMeanNormal z;
  for (int i = 0; i < 200; ++i) z.incorporate(i % 2 ? 1.0 : -1.0);
  std::mt19937 prng(1);
  Conf c;
  c.kind = K_ZMN;
  double ss = 0;
  for (int i = 0; i < 20000; ++i) {
    double x = z.sample(&prng);
    ss += x * x;
  }
  // The predictive variance is about 1.0; 2.0 is sampled.
  return ss / 20000 > 1.5;
}

#define R(k, q, t) static pbt::Register PBT_CAT(r_, __LINE__)(std::string("read_only_") + kind_name(k), q, t, [](pbt::Ctx& c) { read_only(c, k); })
#define F(f, k, q, t) static pbt::Register PBT_CAT(f_, __LINE__)(std::string("freq_") + kind_name(k), q, t, [](pbt::Ctx& c) { f(c, k); })
R(K_BERN, 20000, 600000);
R(K_CAT, 15000, 400000);
R(K_NORMAL, 15000, 400000);
R(K_ZMN, 15000, 400000);
R(K_BIGRAM, 6000, 120000);
R(K_SKELLAM, 6000, 120000);
R(K_STRINGCAT, 10000, 300000);
R(K_STRNAT, 8000, 150000);
R(K_STRNORMAL, 6000, 150000);
R(K_STRSKELLAM, 4000, 100000);
F(frequencies, K_BERN, 400, 8000);
F(frequencies, K_CAT, 500, 8000);
F(frequencies, K_STRINGCAT, 400, 6000);
F(frequencies, K_SKELLAM, 300, 5000);
F(frequencies, K_STRSKELLAM, 100, 2000);
F(string_frequencies, K_BIGRAM, 500, 6000);
F(string_frequencies, K_STRNAT, 200, 3000);
F(continuous, K_NORMAL, 500, 8000);
F(continuous, K_ZMN, 400, 8000);
F(continuous, K_STRNORMAL, 150, 3000);

PBT_MAIN(
    "Each case draws a distribution, hyperparameters and a weighted add/remove history.  read_only: "
    "interleaved samples and queries, then score, predictive and weight must be what they were.  freq: "
    "thousands of samples against the model's own predictive (chi-square, or Kolmogorov-Smirnov for "
    "reals), rejecting only if two independent samples both fail at p < 1e-6.  Non-trivial: at least "
    "two observations survive.")
