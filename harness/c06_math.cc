// C06: log-space arithmetic and index sampling.
#include "util_math.hh"
#include "stats.hh"

static double gen_logw(pbt::Ctx& ctx) {
  switch (ctx.g.weighted({4, 2, 2, 1, 1, 1})) {
    case 0: return (double)ctx.g.range(-20, 20);
    case 1: return (ctx.g.unit() - 0.5) * 2000;
    case 2: return -INFINITY;
    case 3: return ctx.g.coin() ? 1e300 : -1e300;
    case 4: return (ctx.g.coin() ? 1 : -1) * ctx.g.log_uniform(1e-300, 1e300);
    default: return 0;
  }
}
static std::vector<double> gen_logws(pbt::Ctx& ctx) {
  std::vector<double> w;
  int n = ctx.g.chance(1, 20) ? ctx.g.range(1, 300) : ctx.g.range(1, 8);
  bool same = ctx.g.chance(1, 5), tame = ctx.g.coin();
  double base = (ctx.g.unit() - 0.5) * 1500;
  for (int i = 0; i < n; ++i) {
    if (same && i) w.push_back(w[0]);
    else w.push_back(tame ? base + (double)ctx.g.range(-8, 8) / 2 : gen_logw(ctx));
  }
  for (size_t i = 0; i < w.size() && i < 20; ++i) ctx.note("%.17g ", w[i]);
  return w;
}
static long double ref_lse(const std::vector<double>& w) {
  long double m = -INFINITY;
  for (double x : w) m = std::max<long double>(m, x);
  if (std::isinf((double)m)) return m;
  std::vector<long double> e;
  for (double x : w) e.push_back(expl(x - m));
  std::sort(e.begin(), e.end());
  long double s = 0;
  for (auto x : e) s += x;
  return m + logl(s);
}
static bool any_finite(const std::vector<double>& w) {
  for (double x : w)
    if (std::isfinite(x)) return true;
  return false;
}

PROPERTY("logsumexp", 150000, 4000000) {
  auto w = gen_logws(ctx);
  auto copy = w;
  double r = logsumexp(w);
  long double ref = ref_lse(w);
  PCHECK(ctx, w == copy, "the input was changed");
  PCHECK(ctx, pbt::near(r, (double)ref, 1e-13, 1e-13), "logsumexp = %.17g, exact %.17g", r, (double)ref);
  double mx = *std::max_element(w.begin(), w.end());
  PCHECK(ctx, r >= mx || std::isinf(mx), "%.17g is below the largest entry %.17g", r, mx);
  // Order does not matter; nor does a shift, up to rounding.
  std::reverse(w.begin(), w.end());
  PCHECK(ctx, pbt::near(logsumexp(w), r, 1e-13, 1e-13), "depends on the order");
  double c = (double)ctx.g.range(-700, 700);
  bool ok = true;
  for (double& x : w) {
    ok &= !std::isfinite(x) || std::fabs(x) < 1e6;
    x += c;
  }
  if (ok) PCHECK(ctx, pbt::near(logsumexp(w), r + c, 1e-11, 1e-11), "a shift by %g moves it to %.17g", c, logsumexp(w));
  if (w.size() >= 2 && any_finite(w)) ctx.nontrivial();
}

PROPERTY("log_normalize", 100000, 3000000) {
  auto w = gen_logws(ctx);
  if (!any_finite(w)) throw pbt::Discard{};
  auto r = log_normalize(w);
  PCHECK(ctx, r.size() == w.size(), "%zu results for %zu entries", r.size(), w.size());
  long double z = ref_lse(w);
  long double sum = 0;
  double scale = 0;
  for (double x : w)
    if (std::isfinite(x)) scale = std::max(scale, std::fabs(x));
  for (size_t i = 0; i < w.size(); ++i) {
    double e = (double)((long double)w[i] - z);
    PCHECK(ctx, pbt::near(r[i], e, 1e-12, 1e-12 + 3e-16 * std::min(scale, 1e300)), "entry %zu is %.17g, exact %.17g", i, r[i], e);
    PCHECK(ctx, r[i] <= 1e-12 + 1e-15 * scale, "entry %zu is positive: %g", i, r[i]);
    sum += expl((long double)r[i]);
  }
  if (scale < 1e4) PCHECK(ctx, pbt::near((double)sum, 1, 1e-9), "probabilities sum to %.15g", (double)sum);
  if (w.size() >= 2) ctx.nontrivial();
}

PROPERTY("lbeta", 100000, 3000000) {
  double a = ctx.g.log_uniform(1e-12, 1e12), b = ctx.g.chance(1, 6) ? a : ctx.g.log_uniform(1e-12, 1e12);
  if (ctx.g.chance(1, 4)) a = ctx.g.range(1, 40), b = ctx.g.range(1, 40);
  ctx.note("%.17g %.17g", a, b);
  double r = lbeta(a, b);
  long double e = lgammal(a) + lgammal(b) - lgammal((long double)a + b);
  double mag = std::fabs(std::lgamma(a)) + std::fabs(std::lgamma(b)) + std::fabs(std::lgamma(a + b));
  PCHECK(ctx, std::isfinite(r), "lbeta is %g", r);
  PCHECK(ctx, pbt::near(r, (double)e, 1e-11, 1e-12 + 1e-14 * mag), "lbeta = %.17g, exact %.17g", r, (double)e);
  PCHECK(ctx, pbt::near(r, lbeta(b, a), 1e-11, 1e-12 + 1e-14 * mag), "not symmetric");
  if (mag < 1e5)  // B(a+1,b) = B(a,b) a/(a+b)
    PCHECK(ctx, pbt::near(lbeta(a + 1, b), r + std::log(a / (a + b)), 1e-8, 1e-9 + 1e-13 * mag + 1e-16 * a * 40), "recurrence fails");
  ctx.nontrivial();
}

PROPERTY("grids", 60000, 1000000) {
  bool lg = ctx.g.coin(), ep = ctx.g.coin();
  int n = ctx.g.chance(1, 5) ? ctx.g.range(1, 2) : ctx.g.range(1, 60);
  double a = lg ? ctx.g.log_uniform(1e-8, 1e8) : (ctx.g.unit() - 0.5) * 1e4;
  double b = ctx.g.chance(1, 10) ? a : lg ? ctx.g.log_uniform(1e-8, 1e8) : (ctx.g.unit() - 0.5) * 1e4;
  ctx.note("%s(%.17g, %.17g, %d, %d)", lg ? "log_linspace" : "linspace", a, b, n, ep);
  auto g = lg ? log_linspace(a, b, n, ep) : linspace(a, b, n, ep);
  PCHECK(ctx, (int)g.size() == n, "%zu points", g.size());
  for (int i = 0; i < n; ++i) {
    long double t = n - (ep ? 1 : 0) == 0 ? 0 : (long double)i / (n - (ep ? 1 : 0));
    double e = lg ? (double)expl(logl(a) + (logl(b) - logl(a)) * t) : (double)(a + ((long double)b - a) * t);
    PCHECK(ctx, pbt::near(g[i], e, 1e-11, lg ? 0 : 1e-9), "point %d is %.17g, exact %.17g", i, g[i], e);
  }
  PCHECK(ctx, pbt::near(g[0], a, 1e-13, 0), "starts at %.17g", g[0]);
  if (n >= 2) ctx.nontrivial();
}

PROPERTY("product", 30000, 600000) {
  int k = ctx.g.range(1, 4);
  std::vector<std::vector<int>> ls(k);
  size_t total = 1;
  for (auto& l : ls) {
    int n = ctx.g.range(0, 5);
    for (int i = 0; i < n; ++i) l.push_back(ctx.g.range(-3, 9));
    total *= n;
    ctx.note("{");
    for (int x : l) ctx.note("%d ", x);
    ctx.note("} ");
  }
  auto r = product(ls);
  PCHECK(ctx, r.size() == total, "%zu tuples, expected %zu", r.size(), total);
  // As a multiset, every combination once.
  std::multiset<std::vector<int>> got(r.begin(), r.end()), want;
  if (total) {
    std::vector<size_t> i(k, 0);
    while (true) {
      std::vector<int> t;
      for (int j = 0; j < k; ++j) t.push_back(ls[j][i[j]]);
      want.insert(t);
      int j = k - 1;
      while (j >= 0 && ++i[j] == ls[j].size()) i[j--] = 0;
      if (j < 0) break;
    }
  }
  PCHECK(ctx, got == want, "not the Cartesian product");
  if (total >= 2) ctx.nontrivial();
}

static std::vector<double> probs_of(const std::vector<double>& lw) {
  long double z = ref_lse(lw);
  std::vector<double> p;
  for (double x : lw) p.push_back((double)expl(x - z));
  return p;
}

static void log_sampler(pbt::Ctx& ctx, bool alt) {
  std::vector<double> w;
  int n = ctx.g.range(1, 7);
  static const double S[] = {0, 1000, -1000, 1e5, -1e6, 700};
  double shift = S[ctx.g.draw(6)];
  for (int i = 0; i < n; ++i) w.push_back(ctx.g.chance(1, 6) ? -INFINITY : shift + (ctx.g.unit() - 0.5) * (ctx.g.chance(1, 4) ? 3000 : 6));
  if (!any_finite(w)) w[0] = shift;
  for (double x : w) ctx.note("%.10g ", x);
  std::mt19937 prng(ctx.g.seed32());
  auto p = probs_of(w);
  check_frequencies(ctx, [&] {
    int i = alt ? log_choice(w, &prng) : sample_from_logps(w, &prng);
    PCHECK(ctx, i >= 0 && i < n, "index %d of %d", i, n);
    PCHECK(ctx, p[i] > 0, "chose entry %d, which has no weight", i);
    return i;
  }, p, 3000, alt ? "log_choice" : "sample_from_logps");
  // Adding a constant changes nothing but rounding.
  std::vector<double> v;
  for (double x : w) v.push_back(x + 512);
  std::mt19937 a(7), b(7);
  int same = 0;
  for (int k = 0; k < 200; ++k) same += (alt ? log_choice(w, &a) == log_choice(v, &b) : sample_from_logps(w, &a) == sample_from_logps(v, &b));
  PCHECK(ctx, same >= 190, "a common shift changes the choices (%d of 200 equal)", same);
  int pos = 0;
  for (double x : p) pos += x > 1e-3;
  if (pos >= 2) ctx.nontrivial();
}
PROPERTY("sample_from_logps", 900, 20000) { log_sampler(ctx, false); }
PROPERTY("log_choice", 900, 20000) { log_sampler(ctx, true); }

PROPERTY("choice", 900, 20000) {
  int n = ctx.g.range(1, 7);
  std::vector<double> w;
  double tot = 0;
  double unit = ctx.g.log_uniform(1e-100, 1e100);
  for (int i = 0; i < n; ++i) w.push_back(ctx.g.chance(1, 5) ? 0 : unit * (ctx.g.coin() ? ctx.g.range(1, 9) : ctx.g.unit() + 1e-9));
  for (double x : w) tot += x;
  if (tot == 0) w[0] = tot = unit;
  for (double x : w) ctx.note("%.10g ", x);
  std::vector<double> p;
  for (double x : w) p.push_back(x / tot);
  std::mt19937 prng(ctx.g.seed32());
  check_frequencies(ctx, [&] {
    int i = choice(w, &prng);
    PCHECK(ctx, i >= 0 && i < n, "index %d of %d", i, n);
    PCHECK(ctx, w[i] > 0, "chose entry %d, which has no weight", i);
    return i;
  }, p, 3000, "choice");
  if (n >= 2) ctx.nontrivial();
}

// Every seed works, in particular the extreme outputs of the generator.
PROPERTY("index_any_seed", 20000, 500000) {
  int n = ctx.g.range(1, 5);
  std::vector<double> lw, w;
  for (int i = 0; i < n; ++i) {
    lw.push_back(ctx.g.chance(1, 3) ? -INFINITY : gen_logw(ctx));
    w.push_back(0);
  }
  if (!any_finite(lw)) lw[n - 1] = 0;
  for (double x : lw) ctx.note("%.10g ", x);
  auto p = probs_of(lw);
  for (int k = 0; k < 20; ++k) {
    std::mt19937 prng(ctx.g.seed32());
    int i = sample_from_logps(lw, &prng), j = log_choice(lw, &prng), c = choice(p, &prng);
    for (int x : {i, j, c}) PCHECK(ctx, x >= 0 && x < n && p[x] > 0, "chose entry %d", x);
  }
  if (n >= 2) ctx.nontrivial();
}

PBT_MAIN(
    "Vectors of weights and log weights (ordinary, huge, tiny, equal, minus infinite), grid and product "
    "arguments; the oracle is the same quantity in extended precision, an explicit enumeration, or exact "
    "normalised weights compared with sampling frequencies.  Non-trivial: at least two entries matter.")
