// C09: corrupted samples and clean proposals are legal and sensible.
#include "emitref.hh"
#include "refmodel.hh"
#include "stats.hh"

static std::pair<std::string, std::string> gen_spair(pbt::Ctx& c, int mean, size_t max) {
  std::string a = gen_string(c, ' ', '~', mean, max);
  std::string b = c.g.chance(1, 4) ? gen_string(c, ' ', '~', mean, max) : corrupt(c, a, max);
  return {a, b};
}
static int draws(pbt::Ctx& ctx) { return ctx.thorough ? 6000 : 2500; }

// A list of dirty values: sometimes unanimous, with repeats; now and then a
// crowd of them.
template <class T, class F>
static std::vector<T> gen_votes(pbt::Ctx& ctx, F one, int crowd = 1500) {
  std::vector<T> v;
  int n = ctx.g.chance(1, 16) ? (int)std::lround(ctx.g.log_uniform(8, crowd)) : ctx.g.range(1, 7);
  bool same = ctx.g.chance(1, 3);
  for (int i = 0; i < n; ++i) v.push_back(i && (same || ctx.g.chance(1, 3)) ? (T)v[ctx.g.draw(v.size())] : one());
  return v;
}
template <class T>
static std::string vshow(const std::vector<T>& v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size(); ++i) s += show(Val((T)v[i])) + " ";
  return s + "}";
}
template <class T>
static bool unanimous(const std::vector<T>& v) {
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i] != v[0]) return false;
  return true;
}
// Proposes twice, with different random states; the answers must agree.
template <class T>
static T propose(pbt::Ctx& ctx, Emission<T>& m, const std::vector<T>& votes) {
  std::mt19937 a(1), b(ctx.g.seed32());
  double s = m.logp_score(), n = m.N;
  T x = m.propose_clean(votes, &a), y = m.propose_clean(votes, &b);
  PCHECK(ctx, x == y, "proposals from %s differ: %s, %s", vshow(votes).c_str(), show(Val(x)).c_str(), show(Val(y)).c_str());
  PCHECK(ctx, m.N == n && m.logp_score() == s, "proposing changed the model");
  ctx.note(" %s->%s", vshow(votes).c_str(), show(Val(x)).c_str());
  return x;
}
template <class T>
static void is_mode(pbt::Ctx& ctx, const std::vector<T>& votes, const T& x) {
  std::map<T, int> c;
  int best = 0;
  for (size_t i = 0; i < votes.size(); ++i) best = std::max(best, ++c[(T)votes[i]]);
  PCHECK(ctx, c[x] == best, "the proposal %s occurs %d times, the most frequent value %d times", show(Val(x)).c_str(), c[x], best);
}

PROPERTY("bitflip_identity", 6000, 100000) {
  BitFlip f;
  std::mt19937 prng(ctx.g.seed32());
  bool c = ctx.g.coin();
  PCHECK(ctx, f.sample_corrupted(c, &prng) == !c, "bitflip left %d alone", c);
  auto v = gen_votes<bool>(ctx, [&] { return ctx.g.coin(); });
  for (size_t i = 1; i < v.size(); ++i) v[i] = v[0];
  PCHECK(ctx, propose<bool>(ctx, f, v) == !v[0], "bitflip proposes %d", (int)v[0]);
  IdentityEmission<std::string> id;
  std::string s = gen_string(ctx, ' ', '~', 4, 20);
  PCHECK(ctx, id.sample_corrupted(s, &prng) == s, "identity changed %s", s.c_str());
  std::vector<std::string> sv(ctx.g.range(1, 4), s);
  PCHECK(ctx, propose<std::string>(ctx, id, sv) == s, "identity proposes something else");
  if (v.size() > 1) ctx.nontrivial();
}

PROPERTY("categorical", 500, 10000) {
  int k = ctx.g.range(1, 8);
  CategoricalEmission m(k);
  double al = gen_pos(ctx);
  for (auto& d : m.emission_dists) d.alpha = al;
  int n = ctx.g.range(0, 20);
  ctx.note("k=%d alpha=%g", k, al);
  for (int i = 0; i < n; ++i) {
    int a = ctx.g.draw(k), b = ctx.g.draw(k);
    m.incorporate({a, b});
    ctx.note(" %d>%d", a, b);
  }
  auto lp = [&](int a, int b) {
    auto& d = m.emission_dists[a];
    return std::log((d.counts[b] + d.alpha) / (d.N + d.alpha * k));
  };
  int clean = ctx.g.draw(k);
  std::vector<double> p;
  for (int b = 0; b < k; ++b) p.push_back(std::exp(lp(clean, b)));
  std::mt19937 prng(ctx.g.seed32());
  double s = m.logp_score();
  check_frequencies(ctx, [&] { return m.sample_corrupted(clean, &prng); }, p, draws(ctx), "corrupted values");
  PCHECK(ctx, m.logp_score() == s && m.N == n, "sampling changed the model");
  for (int r = 0; r < 10; ++r) {
    auto v = gen_votes<int>(ctx, [&] { return (int)ctx.g.draw(k); });
    int x = propose<int>(ctx, m, v);
    std::vector<double> t(k, 0);
    double best = -INFINITY;
    for (int a = 0; a < k; ++a) {
      for (int b : v) t[a] += lp(a, b);
      best = std::max(best, t[a]);
    }
    PCHECK(ctx, x >= 0 && x < k && t[x] >= best - 1e-9 * (1 + std::fabs(best)), "state %d explains %s with %g, the best is %g", x, vshow(v).c_str(), t[x], best);
  }
  if (n > 1) ctx.nontrivial();
}

KNOWN("zmn-sample-spread") {
  GaussianEmission m;
  m.zmn.alpha = 100, m.zmn.beta = 1;
  std::mt19937 prng(1);
  for (int i = 0; i < 1000; ++i) m.incorporate({0.0, 10.0});
  double s = 0;
  for (int i = 0; i < 2000; ++i) s += std::pow(m.sample_corrupted(0, &prng), 2);
  double expect = (1 + 50000.0) / (100 + 500.0);
  return s / 2000 > 1.5 * expect;
}

static void gauss_ks(pbt::Ctx& ctx, const ZeroMeanNormal& z, double clean, const std::function<double()>& draw) {
  double an = z.alpha + z.N / 2, bn = z.beta + z.var * z.N / 2, bw = z.beta + z.var * z.N;
  boost::math::students_t_distribution<double> t(2 * an);
  auto cdf = [&](double scale) { return [&t, scale, clean](double x) { return boost::math::cdf(t, (x - clean) / scale); }; };
  int n = draws(ctx);
  try {
    check_ks(ctx, draw, cdf(std::sqrt(bn / an)), n, "corrupted values");
  } catch (pbt::Fail&) {
    if (!ctx.known("zmn-sample-spread")) throw;
    check_ks(ctx, draw, cdf(std::sqrt(bw / an)), n, "corrupted values");
    ctx.label("listed finding");
  }
}
static void mean_rule(pbt::Ctx& ctx, Emission<double>& m) {
  for (int r = 0; r < 10; ++r) {
    auto v = gen_votes<double>(ctx, [&] { return gen_real(ctx, 1e4); });
    double x = propose<double>(ctx, m, v);
    long double s = 0, mag = 0;
    for (double y : v) s += y, mag = std::max(mag, fabsl(y));
    PCHECK(ctx, std::fabs(x - (double)(s / v.size())) <= 1e-12 * (double)mag + 1e-300, "proposal %.17g, the mean is %.17g", x, (double)(s / v.size()));
  }
}
PROPERTY("gaussian", 250, 5000) {
  GaussianEmission m;
  m.zmn.alpha = ctx.g.log_uniform(0.3, 100), m.zmn.beta = ctx.g.log_uniform(0.1, 100);
  int n = ctx.g.range(0, 15);
  ctx.note("alpha=%g beta=%g", m.zmn.alpha, m.zmn.beta);
  for (int i = 0; i < n; ++i) {
    double c = gen_real(ctx, 100), d = c + (ctx.g.unit() - 0.5) * 8;
    m.incorporate({c, d});
    ctx.note(" %g>%g", c, d);
  }
  double clean = gen_real(ctx, 100);
  std::mt19937 prng(ctx.g.seed32());
  double s = m.logp_score();
  gauss_ks(ctx, m.zmn, clean, [&] { return m.sample_corrupted(clean, &prng); });
  PCHECK(ctx, m.logp_score() == s && m.N == n, "sampling changed the model");
  mean_rule(ctx, m);
  if (n) ctx.nontrivial();
}

PROPERTY("sometimes_bitflip", 400, 8000) {
  Sometimes<bool> m(new BitFlip);
  m.bb.alpha = gen_pos(ctx), m.bb.beta = gen_pos(ctx);
  int n = ctx.g.range(0, 15), flips = 0;
  for (int i = 0; i < n; ++i) {
    bool a = ctx.g.coin(), b = ctx.g.coin();
    m.incorporate({a, b});
    flips += a != b;
  }
  ctx.note("bb=%g,%g %d flips of %d", m.bb.alpha, m.bb.beta, flips, n);
  bool clean = ctx.g.coin();
  double p = (flips + m.bb.alpha) / (n + m.bb.alpha + m.bb.beta);
  std::mt19937 prng(ctx.g.seed32());
  double s = m.logp_score();
  check_frequencies(ctx, [&] { return m.sample_corrupted(clean, &prng) != clean; }, {1 - p, p}, draws(ctx), "corrupted values");
  PCHECK(ctx, m.logp_score() == s && m.N == n, "sampling changed the model");
  for (int r = 0; r < 10; ++r) {
    auto v = gen_votes<bool>(ctx, [&] { return ctx.g.coin(); });
    is_mode<bool>(ctx, v, propose<bool>(ctx, m, v));
  }
  if (n > 1) ctx.nontrivial();
}

PROPERTY("sometimes_categorical", 400, 8000) {
  int k = ctx.g.range(1, 6);
  bool eq = !ctx.g.chance(1, 5);
  Sometimes<int> m(new CategoricalEmission(k), eq);
  auto& ce = *dynamic_cast<CategoricalEmission*>(m.be);
  m.bb.alpha = gen_pos(ctx), m.bb.beta = gen_pos(ctx);
  double al = gen_pos(ctx);
  for (auto& d : ce.emission_dists) d.alpha = al;
  int n = ctx.g.range(0, 15);
  ctx.note("k=%d eq=%d bb=%g,%g alpha=%g", k, eq, m.bb.alpha, m.bb.beta, al);
  for (int i = 0; i < n; ++i) {
    int a = ctx.g.draw(k), b = ctx.g.coin() ? a : (int)ctx.g.draw(k);
    m.incorporate({a, b});
    ctx.note(" %d>%d", a, b);
  }
  int clean = ctx.g.draw(k);
  double t = (m.bb.s + m.bb.alpha) / (m.bb.N + m.bb.alpha + m.bb.beta);
  std::vector<double> p;
  for (int b = 0; b < k; ++b) {
    auto& d = ce.emission_dists[clean];
    p.push_back(t * (d.counts[b] + d.alpha) / (d.N + d.alpha * k) + (b == clean ? 1 - t : 0));
  }
  std::mt19937 prng(ctx.g.seed32());
  double s = m.logp_score();
  check_frequencies(ctx, [&] { return m.sample_corrupted(clean, &prng); }, p, draws(ctx), "corrupted values");
  PCHECK(ctx, m.logp_score() == s && m.N == n, "sampling changed the model");
  for (int r = 0; r < 10; ++r) {
    auto v = gen_votes<int>(ctx, [&] { return (int)ctx.g.draw(k); });
    is_mode<int>(ctx, v, propose<int>(ctx, m, v));
  }
  if (n > 1) ctx.nontrivial();
}

PROPERTY("sometimes_gaussian", 250, 5000) {
  auto* g = new GaussianEmission;
  Sometimes<double> m(g);
  m.bb.alpha = ctx.g.log_uniform(0.05, 20), m.bb.beta = ctx.g.log_uniform(0.05, 20);
  g->zmn.alpha = ctx.g.log_uniform(0.3, 100), g->zmn.beta = ctx.g.log_uniform(0.1, 100);
  int n = ctx.g.range(0, 15), ch = 0;
  for (int i = 0; i < n; ++i) {
    double c = gen_real(ctx, 100), d = ctx.g.coin() ? c : c + (ctx.g.unit() - 0.5) * 8;
    m.incorporate({c, d});
    ch += c != d;
  }
  ctx.note("bb=%g,%g zmn=%g,%g %d changes of %d", m.bb.alpha, m.bb.beta, g->zmn.alpha, g->zmn.beta, ch, n);
  double clean = gen_real(ctx, 100), p = (ch + m.bb.alpha) / (n + m.bb.alpha + m.bb.beta);
  std::mt19937 prng(ctx.g.seed32());
  check_frequencies(ctx, [&] { return m.sample_corrupted(clean, &prng) != clean; }, {1 - p, p}, draws(ctx), "changes");
  if (p > 0.2) gauss_ks(ctx, g->zmn, clean, [&] {
    double x;
    do x = m.sample_corrupted(clean, &prng); while (x == clean);
    return x;
  });
  for (int r = 0; r < 10; ++r) {
    auto v = gen_votes<double>(ctx, [&] { return gen_real(ctx, 100); });
    is_mode<double>(ctx, v, propose<double>(ctx, m, v));
  }
  if (n) ctx.nontrivial();
}

// ---- strings ----
// Probability that sequential sampling turns clean into dirty.
struct Rates {
  std::function<double(int ctx, char c)> ins;  // inserting c after clean character ctx (-1: start)
  std::function<double(int ctx)> stop;         // inserting nothing more
  std::function<double(char c)> del;
  std::function<double(char c, char d)> sub;   // keeping or replacing
};
static double dirty_prob(const Rates& r, const std::string& c, const std::string& d) {
  std::vector<std::vector<double>> f(c.size() + 1, std::vector<double>(d.size() + 1, 0.0));
  f[0][0] = 1;
  for (size_t i = 0; i <= c.size(); ++i) {
    int ctx = i ? (unsigned char)c[i - 1] : -1;
    for (size_t j = 1; j <= d.size(); ++j) f[i][j] += f[i][j - 1] * r.ins(ctx, d[j - 1]);
    if (i == c.size()) break;
    for (size_t j = 0; j <= d.size(); ++j) {
      double t = f[i][j] * r.stop(ctx);
      f[i + 1][j] += t * r.del(c[i]);
      if (j < d.size()) f[i + 1][j + 1] += t * r.sub(c[i], d[j]);
    }
  }
  int ctx = c.empty() ? -1 : (unsigned char)c.back();
  return f[c.size()][d.size()] * r.stop(ctx);
}
static void check_dirty(pbt::Ctx& ctx, Emission<std::string>& m, const Rates& r, const std::string& clean, int n) {
  std::vector<std::string> cand{clean};
  std::set<std::string> seen{clean};
  auto add = [&](const std::string& s) { if (seen.insert(s).second) cand.push_back(s); };
  add("");
  for (size_t i = 0; i < clean.size(); ++i) {
    std::string s = clean;
    s.erase(i, 1);
    add(s);
    for (char c : {'a', 'b', ' ', '~', '!', '0'}) {
      s = clean;
      s[i] = c;
      add(s);
    }
  }
  for (size_t i = 0; i <= clean.size(); ++i)
    for (char c : {'a', 'b', ' ', '~', '!', '0'}) {
      std::string s = clean;
      s.insert(i, 1, c);
      add(s);
    }
  std::map<std::string, int> index;
  std::vector<double> p;
  for (auto& s : cand) {
    index[s] = p.size();
    p.push_back(dirty_prob(r, clean, s));
  }
  std::mt19937 prng(ctx.g.seed32());
  double sc = m.logp_score(), N = m.N;
  std::string illegal, impossible;
  int k = 0;
  check_frequencies(ctx, [&] {
    std::string s = m.sample_corrupted(clean, &prng);
    for (char c : s) if (c < ' ' || c > '~') illegal = s;
    if (++k <= 3) {
      double lp = m.logp({clean, s});
      if (std::isnan(lp) || lp == -INFINITY) impossible = s;
    }
    auto it = index.find(s);
    return it == index.end() ? -1 : it->second;
  }, p, n, "corrupted versions of " + show(clean));
  PCHECK(ctx, illegal.empty(), "a corrupted value has a character outside of the alphabet: %s", show(illegal).c_str());
  PCHECK(ctx, impossible.empty(), "%s was sampled from %s, which has probability zero", show(impossible).c_str(), show(clean).c_str());
  PCHECK(ctx, m.N == N && m.logp_score() == sc, "sampling changed the model");
}

static double bbp(const BetaBernoulli& b) { return (b.s + b.alpha) / (b.N + b.alpha + b.beta); }

PROPERTY("simple_string", 500, 10000) {
  SimpleStringEmission m;
  for (auto* b : {&m.substitutions, &m.insertions, &m.deletions}) b->alpha = ctx.g.log_uniform(0.05, 5), b->beta = ctx.g.log_uniform(0.5, 10);
  int n = ctx.g.range(0, 8);
  for (int i = 0; i < n; ++i) {
    auto p = gen_spair(ctx, 4, 12);
    m.incorporate(p);
    ctx.note(" %s>%s", show(p.first).c_str(), show(p.second).c_str());
  }
  double pi = bbp(m.insertions), pd = bbp(m.deletions), ps = bbp(m.substitutions);
  ctx.note(" rates ins %.3g del %.3g sub %.3g", pi, pd, ps);
  if (pi > 0.9) return;
  Rates r;
  r.ins = [&](int, char) { return pi / 95; };
  r.stop = [&](int) { return 1 - pi; };
  r.del = [&](char) { return pd; };
  r.sub = [&](char c, char d) { return (1 - pd) * (ps / 95 + (c == d ? 1 - ps : 0)); };
  std::string clean = gen_string(ctx, ' ', '~', 2, 5);
  check_dirty(ctx, m, r, clean, draws(ctx));
  // Lengths and characters.
  std::mt19937 prng(ctx.g.seed32());
  std::vector<double> len(clean.size() + 1, 0.0), chars(95, 1 / 95.0);
  len[0] = 1;
  for (size_t i = 0; i < clean.size(); ++i) {
    for (size_t k = clean.size(); k > 0; --k) len[k] = len[k] * pd + len[k - 1] * (1 - pd);
    len[0] *= pd;
  }
  std::vector<double> full(40, 0.0);
  double nb = std::pow(1 - pi, (double)clean.size() + 1);
  for (size_t k = 0; k < 40; ++k) {
    for (size_t q = 0; q < len.size() && q + k < 40; ++q) full[q + k] += len[q] * nb;
    nb *= pi * (clean.size() + 1 + k) / (k + 1);
  }
  check_frequencies(ctx, [&] { int l = m.sample_corrupted(clean, &prng).size(); return l < 40 ? l : -1; }, full, draws(ctx), "lengths of corrupted values");
  check_frequencies(ctx, [&] {
    std::string s;
    while (s.empty()) s = m.sample_corrupted("", &prng) + (pi < 0.02 ? std::string(1, m.random_character(&prng)) : "");
    int c = s[0] - ' ';
    return c < 95 ? c : -1;
  }, chars, draws(ctx), "inserted characters");
  if (n) ctx.nontrivial();
}

PROPERTY("simple_string_propose", 20000, 400000) {
  SimpleStringEmission m;
  auto v = gen_votes<std::string>(ctx, [&] { return gen_string(ctx, ' ', '~', 3, 12); }, 150);
  if (ctx.g.coin()) {
    // Variations of one string.
    std::string base = gen_string(ctx, ' ', '~', 5, 12);
    for (auto& s : v) s = ctx.g.coin() ? base : corrupt(ctx, base, 14);
  }
  std::string x = propose<std::string>(ctx, m, v);
  for (size_t i = 0; i <= x.size(); ++i) {
    std::map<int, int> c;
    int best = 0;
    for (auto& s : v) best = std::max(best, ++c[i < s.size() ? (unsigned char)s[i] : -1]);
    int got = c[i < x.size() ? (unsigned char)x[i] : -1];
    PCHECK(ctx, got == best, "position %zu of the proposal has %d votes, the winner has %d", i, got, best);
  }
  if (unanimous(v)) PCHECK(ctx, x == v[0], "unanimous observations are not returned");
  else ctx.nontrivial();
}

static void train_bigram(pbt::Ctx& ctx, BigramStringEmission& m) {
  int n = ctx.g.range(0, 6);
  for (int i = 0; i < n; ++i) {
    auto p = gen_spair(ctx, 2, 4);
    double w = ctx.g.coin() ? 1 : ctx.g.log_uniform(100, 30000);
    m.incorporate(p, w);
    ctx.note(" %s>%s*%.4g", show(p.first).c_str(), show(p.second).c_str(), w);
  }
  if (n) ctx.nontrivial();
}
PROPERTY("bigram_string", 200, 4000) {
  BigramStringEmission m;
  train_bigram(ctx, m);
  auto id = [](int c) { return c < 0 ? 0 : c - ' ' + 1; };
  Rates r;
  r.ins = [&](int c, char d) { return std::exp(bg_lp(m.insertions[id(c)], id(d))); };
  r.stop = [&](int c) { return std::exp(bg_lp(m.insertions[id(c)], 0)); };
  r.del = [&](char c) { return std::exp(bg_lp(m.substitutions[id(c)], 0)); };
  r.sub = [&](char c, char d) { return std::exp(bg_lp(m.substitutions[id(c)], id(d))); };
  std::string clean = gen_string(ctx, ' ', '~', 2, 4);
  for (int c = -1; c < 127; c = c < 0 ? ' ' : c + 1)
    if (r.stop(c) < 0.1) return;
  BgCounts before = bg_state(m);
  check_dirty(ctx, m, r, clean, draws(ctx));
  PCHECK(ctx, bg_dist(before, bg_state(m)) == 0, "sampling changed the counts");
}

// The tournament's rule, from the best alignment of each pair.
struct Vote {
  const BigramStringEmission& m;
  bool tie = false;
  std::string out;
  double lp(int t, int a, int b) const { return bg_lp(t ? m.substitutions[a] : m.insertions[a], b); }
  static int idx(char c) { return c - ' ' + 1; }
  std::string two(const std::string& s1, const std::string& s2, double w1, double w2) {
    size_t n = s1.size(), k = s2.size();
    std::vector<std::vector<double>> d(n + 1, std::vector<double>(k + 1, INFINITY));
    auto del = [&](size_t i) { return -lp(0, i ? idx(s1[i - 1]) : 0, 0) - lp(1, idx(s1[i]), 0); };
    auto ins = [&](size_t i, size_t j) { return -lp(0, i ? idx(s1[i - 1]) : 0, idx(s2[j])); };
    auto sub = [&](size_t i, size_t j) { return -lp(0, i ? idx(s1[i - 1]) : 0, 0) - lp(1, idx(s1[i]), idx(s2[j])); };
    // Cost to go.
    for (size_t i = n + 1; i-- > 0;)
      for (size_t j = k + 1; j-- > 0;) {
        if (i == n && j == k) { d[i][j] = 0; continue; }
        if (i < n) d[i][j] = std::min(d[i][j], d[i + 1][j] + del(i));
        if (j < k) d[i][j] = std::min(d[i][j], d[i][j + 1] + ins(i, j));
        if (i < n && j < k) d[i][j] = std::min(d[i][j], d[i + 1][j + 1] + sub(i, j));
      }
    std::string clean;
    int left = 0;
    size_t i = 0, j = 0;
    while (i < n || j < k) {
      int ways = 0, op = -1;
      double c[3] = {i < n ? d[i + 1][j] + del(i) : INFINITY, j < k ? d[i][j + 1] + ins(i, j) : INFINITY,
                     i < n && j < k ? d[i + 1][j + 1] + sub(i, j) : INFINITY};
      for (int q = 0; q < 3; ++q)
        if (c[q] <= d[i][j] + 1e-7) ++ways, op = q;
      if (ways != 1) tie = true;
      char pick = 0;
      auto better = [&](double a, double b) {  // strictly
        if (std::fabs(a - b) < 1e-7) tie = true;
        return a > b;
      };
      double l1 = std::log(w1), l2 = std::log(w2);
      if (op == 0) {
        if (better(lp(1, idx(s1[i]), 0) + l1, lp(0, left, idx(s1[i])) + l2)) pick = s1[i];
        ++i;
      } else if (op == 1) {
        if (better(lp(1, idx(s2[j]), 0) + l2, lp(0, left, idx(s2[j])) + l1)) pick = s2[j];
        ++j;
      } else {
        if (s1[i] == s2[j]) pick = s1[i];
        else pick = better(lp(1, idx(s1[i]), idx(s2[j])) + l1, lp(1, idx(s2[j]), idx(s1[i])) + l2) ? s1[i] : s2[j];
        ++i, ++j;
      }
      if (pick) clean += pick, left = idx(pick);
    }
    return clean;
  }
  std::string run(std::vector<std::string> v) {
    std::vector<double> w(v.size(), 1.0);
    while (v.size() > 1) {
      std::vector<std::string> nv;
      std::vector<double> nw;
      for (size_t i = 0; i + 1 < v.size(); i += 2) {
        nv.push_back(two(v[i], v[i + 1], w[i], w[i + 1]));
        nw.push_back(w[i] + w[i + 1]);
      }
      if (v.size() % 2) nv.push_back(v.back()), nw.push_back(w.back());
      v = nv, w = nw;
    }
    return v[0];
  }
};

PROPERTY("bigram_propose", 1500, 40000) {
  BigramStringEmission m;
  train_bigram(ctx, m);
  for (int q = 0; q < 4; ++q) {
    auto v = gen_votes<std::string>(ctx, [&] { return gen_string(ctx, ' ', '~', 4, 10); }, 24);
    std::string base = gen_string(ctx, 'a', 'd', 4, 10);
    if (!unanimous(v) && ctx.g.chance(3, 4))
      for (auto& s : v) s = ctx.g.chance(1, 3) ? base : corrupt(ctx, base, 12, 'a', 'f');
    std::string x = propose<std::string>(ctx, m, v);
    if (unanimous(v)) {
      PCHECK(ctx, x == v[0], "unanimous observations are not returned");
      continue;
    }
    std::set<char> chars;
    for (auto& s : v) chars.insert(s.begin(), s.end());
    for (char c : x) PCHECK(ctx, chars.count(c), "the proposal %s has a character that no observation has", show(x).c_str());
    Vote ref{m};
    std::string want = ref.run(v);
    if (!ref.tie) {
      PCHECK(ctx, x == want, "proposal %s, the pairwise votes give %s", show(x).c_str(), show(want).c_str());
      ctx.label("exact");
      ctx.nontrivial();
    }
  }
}

int main(int argc, char** argv) {
  return pbt::main_impl(argc, argv,
      "Noise models trained on random pairs; frequencies of corrupted values against exact sequential sampling probabilities, proposals against "
      "the documented rule (mode, mean, argmax, position vote, pairwise tournament). Non-trivial: the model was trained, or the observations to clean are not unanimous.");
}
