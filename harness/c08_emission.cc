// C08: noise models obey undo, chain rule and normalisation.
#include "emitref.hh"
#include "refmodel.hh"

// ---- linear models: adding a pair adds fixed statistics ----
template <class T>
struct Lin {
  std::string name;
  std::function<std::unique_ptr<Emission<T>>()> make;
  std::function<std::pair<T, T>(pbt::Ctx&)> pair;
  std::function<void(Emission<T>&, const Emission<T>&)> copy_hypers;
  bool discrete = true, weights = true;
  double value_tol = 0;
  // Rounding error that the statistics may carry after so many operations.
  std::function<double(const Emission<T>&, int)> rounding = [](const Emission<T>&, int) { return 0.0; };
};
static double zmn_rounding(const ZeroMeanNormal& z, int ops) {
  double ds = 4e-15 * (ops + 4) * 500 * (std::fabs(z.N) + 2);
  return (z.alpha + std::fabs(z.N) + 2) * ds / z.beta;
}

template <class T>
static std::string pshow(const std::pair<T, T>& p) {
  return show(Val(p.first)) + ">" + show(Val(p.second));
}

template <class T>
static void linear(pbt::Ctx& ctx, const Lin<T>& L) {
  auto m = L.make();
  std::vector<std::pair<std::pair<T, T>, double>> have;
  std::mt19937 prng(ctx.g.seed32());
  int ops = 0, removed = 0;
  bool weighted = L.weights && ctx.g.chance(1, 4);
  ctx.note("%s", L.name.c_str());
  const bool crowd = ctx.g.chance(1, 150);
  while (ctx.g.more(crowd ? 200 : 12, ops, crowd ? 600 : 80)) {
    ++ops;
    int op = ctx.g.weighted({6, 4, 1});
    if (op == 0 || (op == 1 && have.empty())) {
      auto p = L.pair(ctx);
      double w = weighted ? ctx.g.pick(std::vector<double>{1, 0.5, 0.25, 2}) : 1.0;
      double before = m->logp_score(), lp = m->logp(p);
      ctx.note(" +%s*%g", pshow(p).c_str(), w);
      m->incorporate(p, w);
      have.push_back({p, w});
      if (w == 1.0) {
        double tol = 1e-8 + L.value_tol + L.rounding(*m, ops) + 1e-11 * std::fabs(before);
        PCHECK(ctx, pbt::near(m->logp_score() - before, lp, 1e-8, tol), "adding %s changes the score by %.12g, logp said %.12g", pshow(p).c_str(), m->logp_score() - before, lp);
      }
    } else if (op == 1) {
      size_t k = ctx.g.draw(have.size());
      ctx.note(" -%s", pshow(have[k].first).c_str());
      if (have[k].second == 1.0) m->unincorporate(have[k].first);
      else m->incorporate(have[k].first, -have[k].second);
      have.erase(have.begin() + k);
      ++removed;
    } else {
      m->transition_hyperparameters(&prng);
      ctx.note(" hyper");
    }
  }
  auto f = L.make();
  L.copy_hypers(*f, *m);
  double n = 0;
  bool reverse = ctx.g.coin();
  for (size_t i = 0; i < have.size(); ++i) {
    auto& h = have[reverse ? have.size() - 1 - i : i];
    f->incorporate(h.first, h.second);
    n += h.second;
  }
  PCHECK(ctx, pbt::near(m->N, n, 1e-12, 1e-9), "total weight %g, expected %g", m->N, n);
  double tol = 1e-7 + L.value_tol + L.rounding(*m, ops) + 1e-10 * std::fabs(f->logp_score());
  PCHECK(ctx, pbt::near(m->logp_score(), f->logp_score(), 1e-8, tol), "score %.12g, a fresh model with the survivors has %.12g", m->logp_score(), f->logp_score());
  for (int q = 0; q < 4; ++q) {
    auto p = q < (int)have.size() ? have[q].first : L.pair(ctx);
    double a = m->logp(p), b = f->logp(p);
    PCHECK(ctx, !std::isnan(a), "logp(%s) is NaN", pshow(p).c_str());
    PCHECK(ctx, pbt::near(a, b, 1e-7, 1e-7 + L.value_tol + L.rounding(*m, ops)), "logp(%s) = %.12g, a fresh model says %.12g", pshow(p).c_str(), a, b);
    if (L.discrete) PCHECK(ctx, a <= 1e-9, "logp(%s) = %g is positive", pshow(p).c_str(), a);
  }
  if (L.discrete) PCHECK(ctx, m->logp_score() <= 1e-7, "the score %g is positive", m->logp_score());
  if (removed && !have.empty()) ctx.nontrivial();
}

PROPERTY("bitflip", 8000, 200000) {
  Lin<bool> L;
  L.name = "bitflip";
  L.make = [] { return std::make_unique<BitFlip>(); };
  L.pair = [](pbt::Ctx& c) { bool b = c.g.coin(); return std::make_pair(b, !b); };
  L.copy_hypers = [](auto&, auto&) {};
  linear(ctx, L);
}
PROPERTY("identity", 8000, 200000) {
  Lin<std::string> L;
  L.name = "identity";
  L.make = [] { return std::make_unique<IdentityEmission<std::string>>(); };
  L.pair = [](pbt::Ctx& c) { auto s = gen_string(c, 'a', 'c', 3, 10); return std::make_pair(s, s); };
  L.copy_hypers = [](auto&, auto&) {};
  linear(ctx, L);
  IdentityEmission<std::string> s;
  IdentityEmission<int> i;
  std::string a = gen_string(ctx, 'a', 'b', 2, 4), b = gen_string(ctx, 'a', 'b', 2, 4);
  int x = ctx.g.range(-2, 2), y = ctx.g.range(-2, 2);
  PCHECK(ctx, s.logp({a, b}) == (a == b ? 0 : -INFINITY), "identity logp(%s>%s) = %g", a.c_str(), b.c_str(), s.logp({a, b}));
  PCHECK(ctx, i.logp({x, y}) == (x == y ? 0 : -INFINITY), "identity logp(%d>%d) = %g", x, y, i.logp({x, y}));
}
PROPERTY("categorical", 30000, 600000) {
  int k = ctx.g.range(1, 9);
  double alpha = gen_pos(ctx);
  Lin<int> L;
  L.name = pbt::fmt("categorical(%d)", k);
  L.make = [&] { auto e = std::make_unique<CategoricalEmission>(k); for (auto& d : e->emission_dists) d.alpha = alpha; return e; };
  L.pair = [&](pbt::Ctx& c) { int a = c.g.draw(k); return std::make_pair(a, (int)c.g.draw(k)); };
  L.copy_hypers = [&](Emission<int>& a, const Emission<int>& b) {
    for (int i = 0; i < k; ++i)
      dynamic_cast<CategoricalEmission&>(a).emission_dists[i].alpha = dynamic_cast<const CategoricalEmission&>(b).emission_dists[i].alpha;
  };
  linear(ctx, L);
  // Normalisation and independence of the clean states.
  CategoricalEmission e(k);
  for (auto& d : e.emission_dists) d.alpha = alpha;
  std::vector<std::vector<int>> n(k, std::vector<int>(k));
  int m = ctx.g.range(0, 12);
  for (int q = 0; q < m; ++q) {
    int a = ctx.g.draw(k), b = ctx.g.draw(k);
    e.incorporate({a, b});
    n[a][b]++;
  }
  for (int a = 0; a < k; ++a) {
    double tot = 0, row = 0;
    for (int b = 0; b < k; ++b) row += n[a][b];
    for (int b = 0; b < k; ++b) {
      double p = std::exp(e.logp({a, b}));
      tot += p;
      PCHECK(ctx, pbt::near(p, (n[a][b] + alpha) / (row + alpha * k), 1e-9), "P(%d|%d) = %g", b, a, p);
    }
    PCHECK(ctx, pbt::near(tot, 1, 1e-9), "probabilities given %d sum to %.12g", a, tot);
  }
}
PROPERTY("gaussian", 30000, 600000) {
  Lin<double> L;
  L.name = "gaussian";
  double a = gen_pos(ctx), b = ctx.g.log_uniform(0.05, 1e3);
  L.make = [&] { auto e = std::make_unique<GaussianEmission>(); e->zmn.alpha = a; e->zmn.beta = b; return e; };
  L.pair = [](pbt::Ctx& c) { double x = gen_real(c, 1e3); return std::make_pair(x, c.g.chance(1, 4) ? x : x + (c.g.unit() - 0.5) * 20); };
  L.copy_hypers = [](Emission<double>& a, const Emission<double>& b) {
    auto& x = dynamic_cast<GaussianEmission&>(a);
    auto& y = dynamic_cast<const GaussianEmission&>(b);
    x.zmn.alpha = y.zmn.alpha, x.zmn.beta = y.zmn.beta;
  };
  L.discrete = false;
  L.value_tol = 1e-6;
  L.rounding = [](const Emission<double>& e, int ops) { return zmn_rounding(dynamic_cast<const GaussianEmission&>(e).zmn, ops); };
  linear(ctx, L);
}

// ---- simple string ----
struct SS {
  double sub_s, sub_n, ins_s, ins_n, del_s, del_n;
};
static SS ss(const SimpleStringEmission& e) {
  return {e.substitutions.s, e.substitutions.N, e.insertions.s, e.insertions.N, e.deletions.s, e.deletions.N};
}
static int lcs(const std::string& a, const std::string& b) {
  std::vector<std::vector<int>> d(a.size() + 1, std::vector<int>(b.size() + 1));
  for (size_t i = 1; i <= a.size(); ++i)
    for (size_t j = 1; j <= b.size(); ++j)
      d[i][j] = a[i - 1] == b[j - 1] ? d[i - 1][j - 1] + 1 : std::max(d[i - 1][j], d[i][j - 1]);
  return d[a.size()][b.size()];
}
static double bb_score(const BetaBernoulli& b) { return b.logp_score(); }
static double ss_bbs(const SimpleStringEmission& e) { return bb_score(e.substitutions) + bb_score(e.insertions) + bb_score(e.deletions); }
static double ss_chars(const SimpleStringEmission& e) { return (e.substitutions.s + e.insertions.s) * std::log(95.0); }
// The score as documented, or as the listed finding has it.
static void ss_check_score(pbt::Ctx& ctx, const SimpleStringEmission& e) {
  double s = e.logp_score(), right = ss_bbs(e) - ss_chars(e), wrong = ss_bbs(e) + ss_chars(e);
  bool ok = pbt::near(s, right, 1e-9, 1e-8) || (ctx.known("simple-string-char-sign") && pbt::near(s, wrong, 1e-9, 1e-8));
  PCHECK(ctx, ok, "score %.12g, expected %.12g", s, right);
}
KNOWN("simple-string-char-sign") {
  SimpleStringEmission e;
  double p = 0;
  for (int i = 0; i < 30; ++i) e.incorporate({"abc", "xyz"});
  for (char a = ' '; a <= '~'; ++a) p += std::exp(e.logp({"q", std::string(1, a)}));
  return p > 1.000001;
}
static std::pair<std::string, std::string> gen_spair(pbt::Ctx& c, int mean, size_t max) {
  std::string a = gen_string(c, ' ', '~', mean, max);
  std::string b = c.g.chance(1, 4) ? gen_string(c, ' ', '~', mean, max) : corrupt(c, a, max);
  return {a, b};
}

PROPERTY("simple_string", 30000, 800000) {
  double h[6];
  for (double& x : h) x = gen_pos(ctx);
  auto mk = [&] {
    auto e = std::make_unique<SimpleStringEmission>();
    e->substitutions.alpha = h[0], e->substitutions.beta = h[1];
    e->insertions.alpha = h[2], e->insertions.beta = h[3];
    e->deletions.alpha = h[4], e->deletions.beta = h[5];
    return e;
  };
  auto m = mk();
  std::vector<std::pair<std::string, std::string>> have;
  int ops = 0, removed = 0;
  while (ctx.g.more(8, ops, 40)) {
    ++ops;
    bool add = have.empty() || ctx.g.chance(3, 5);
    std::pair<std::string, std::string> p = add ? gen_spair(ctx, 4, 20) : have[ctx.g.draw(have.size())];
    SS a = ss(*m);
    double before = m->logp_score(), lp = m->logp(p);
    {
      SS q = ss(*m);
      PCHECK(ctx, !memcmp(&q, &a, sizeof a), "asking for logp changed the counts");
    }
    ctx.note(" %c%s", add ? '+' : '-', pshow(p).c_str());
    if (add) {
      m->incorporate(p);
      have.push_back(p);
    } else {
      m->unincorporate(p);
      have.erase(std::find(have.begin(), have.end(), p));
      ++removed;
    }
    SS b = ss(*m);
    double sg = add ? 1 : -1;
    SS d{sg * (b.sub_s - a.sub_s), sg * (b.sub_n - a.sub_n), sg * (b.ins_s - a.ins_s), sg * (b.ins_n - a.ins_n), sg * (b.del_s - a.del_s), sg * (b.del_n - a.del_n)};
    auto& [clean, dirty] = p;
    double c = clean.size(), y = dirty.size();
    // Every clean character is deleted or not, the kept ones are substituted
    // or not, and between and around them insertions end.
    PCHECK(ctx, d.del_n == c, "%s: %g deletion opportunities for %g characters", pshow(p).c_str(), d.del_n, c);
    PCHECK(ctx, d.sub_n == c - d.del_s, "%s: %g substitution opportunities, %g of %g characters deleted", pshow(p).c_str(), d.sub_n, d.del_s, c);
    PCHECK(ctx, d.ins_n - d.ins_s == c + 1, "%s: insertions were declined %g times for %g characters", pshow(p).c_str(), d.ins_n - d.ins_s, c);
    PCHECK(ctx, d.ins_s - d.del_s == y - c, "%s: %g insertions and %g deletions", pshow(p).c_str(), d.ins_s, d.del_s);
    PCHECK(ctx, d.sub_s >= 0 && d.ins_s >= 0 && d.del_s >= 0, "%s: negative counts", pshow(p).c_str());
    PCHECK(ctx, d.sub_n - d.sub_s <= lcs(clean, dirty), "%s: %g matches, at most %d are possible", pshow(p).c_str(), d.sub_n - d.sub_s, lcs(clean, dirty));
    // One edit is seen as one edit.
    size_t pre = 0, suf = 0;
    while (pre < clean.size() && pre < dirty.size() && clean[pre] == dirty[pre]) ++pre;
    while (suf < clean.size() && suf < dirty.size() && clean[clean.size() - 1 - suf] == dirty[dirty.size() - 1 - suf]) ++suf;
    double edits = d.sub_s + d.ins_s + d.del_s;
    if (clean == dirty) PCHECK(ctx, edits == 0, "%s: %g edits", pshow(p).c_str(), edits);
    else if (std::fabs(c - y) <= 1 && pre + suf >= std::max(c, y) - 1) PCHECK(ctx, edits == 1, "%s: %g edits, one is enough", pshow(p).c_str(), edits);
    if (add) PCHECK(ctx, pbt::near(m->logp_score() - before, lp, 1e-7, 1e-8), "adding %s changes the score by %.12g, logp said %.12g", pshow(p).c_str(), m->logp_score() - before, lp);
    ss_check_score(ctx, *m);
  }
  auto f = mk();
  if (ctx.g.coin()) std::reverse(have.begin(), have.end());
  for (auto& p : have) f->incorporate(p);
  SS a = ss(*m), b = ss(*f);
  PCHECK(ctx, !memcmp(&a, &b, sizeof a) && m->N == f->N, "the counts differ from those of a fresh model with the survivors");
  for (int q = 0; q < 3; ++q) {
    auto p = gen_spair(ctx, 4, 20);
    double x = m->logp(p), y = f->logp(p);
    PCHECK(ctx, pbt::near(x, y, 1e-9, 1e-9), "logp(%s) = %.12g, a fresh model says %.12g", pshow(p).c_str(), x, y);
  }
  if (removed && !have.empty()) ctx.nontrivial();
}

// Over all short dirty values the conditional probabilities sum to at most one.
PROPERTY("simple_string_total", 300, 8000) {
  SimpleStringEmission m;
  for (auto* b : {&m.substitutions, &m.insertions, &m.deletions}) b->alpha = gen_pos(ctx), b->beta = gen_pos(ctx);
  int n = ctx.g.range(0, 5);
  for (int i = 0; i < n; ++i) {
    auto p = gen_spair(ctx, 4, 10);
    m.incorporate(p);
    ctx.note(" +%s", pshow(p).c_str());
  }
  std::string clean = gen_string(ctx, ' ', '~', 2, 4);
  ctx.note(" | %s", show(clean).c_str());
  double tot = 0;
  auto add = [&](const std::string& d) {
    double lp = m.logp({clean, d});
    SS a = ss(m);
    double bbs = ss_bbs(m);
    SimpleStringEmission q;
    q.substitutions = m.substitutions, q.insertions = m.insertions, q.deletions = m.deletions;
    q.incorporate({clean, d});
    SS b = ss(q);
    double chars = (b.sub_s - a.sub_s + b.ins_s - a.ins_s) * std::log(95.0);
    double right = ss_bbs(q) - bbs - chars, wrong = ss_bbs(q) - bbs + chars;
    PCHECK(ctx, pbt::near(lp, right, 1e-8, 1e-8) || (ctx.known("simple-string-char-sign") && pbt::near(lp, wrong, 1e-8, 1e-8)), "logp(%s) = %.12g, expected %.12g", d.c_str(), lp, right);
    tot += std::exp(right);
  };
  add("");
  if (clean.size() > 2) add(clean);
  for (int a = ' '; a <= '~'; ++a) add(std::string(1, a));
  for (int a = ' '; a <= '~'; ++a)
    for (int b = ' '; b <= '~'; ++b) {
      add(std::string{(char)a, (char)b});
    }
  PCHECK(ctx, tot <= 1 + 1e-7, "dirty values of at most two characters have a total probability of %.12g", tot);
  if (n) ctx.nontrivial();
}

// ---- sometimes ----
// Without equality from the inner model: plain statistics.
PROPERTY("sometimes_bitflip", 20000, 400000) {
  double a = gen_pos(ctx), b = gen_pos(ctx);
  Lin<bool> L;
  L.name = "sometimes_bitflip";
  L.make = [&] { auto e = std::make_unique<Sometimes<bool>>(new BitFlip); e->bb.alpha = a; e->bb.beta = b; return e; };
  L.pair = [](pbt::Ctx& c) { bool x = c.g.coin(); return std::make_pair(x, c.g.coin()); };
  L.copy_hypers = [](Emission<bool>& x, const Emission<bool>& y) {
    dynamic_cast<Sometimes<bool>&>(x).bb.alpha = dynamic_cast<const Sometimes<bool>&>(y).bb.alpha;
    dynamic_cast<Sometimes<bool>&>(x).bb.beta = dynamic_cast<const Sometimes<bool>&>(y).bb.beta;
  };
  linear(ctx, L);
  Sometimes<bool> m(new BitFlip);
  m.bb.alpha = a, m.bb.beta = b;
  int n = ctx.g.range(0, 10), flips = 0;
  for (int i = 0; i < n; ++i) {
    bool x = ctx.g.coin(), y = ctx.g.coin();
    m.incorporate({x, y});
    flips += x != y;
  }
  for (bool c : {false, true}) {
    double p = std::exp(m.logp({c, !c})), q = std::exp(m.logp({c, c}));
    PCHECK(ctx, pbt::near(p, (flips + a) / (n + a + b), 1e-9), "probability of a flip %g after %d of %d", p, flips, n);
    PCHECK(ctx, pbt::near(p + q, 1, 1e-9), "probabilities sum to %.12g", p + q);
  }
}
PROPERTY("sometimes_gaussian", 20000, 400000) {
  double a = gen_pos(ctx), b = gen_pos(ctx), za = gen_pos(ctx), zb = ctx.g.log_uniform(0.05, 1e3);
  Lin<double> L;
  L.name = "sometimes_gaussian";
  L.make = [&] {
    auto* g = new GaussianEmission;
    g->zmn.alpha = za, g->zmn.beta = zb;
    auto e = std::make_unique<Sometimes<double>>(g);
    e->bb.alpha = a, e->bb.beta = b;
    return e;
  };
  L.pair = [](pbt::Ctx& c) { double x = gen_real(c, 1e3); return std::make_pair(x, c.g.coin() ? x : x + (c.g.unit() - 0.5) * 20); };
  L.copy_hypers = [](Emission<double>& x, const Emission<double>& y) {
    auto& p = dynamic_cast<Sometimes<double>&>(x);
    auto& q = dynamic_cast<const Sometimes<double>&>(y);
    p.bb.alpha = q.bb.alpha, p.bb.beta = q.bb.beta;
    auto &pz = dynamic_cast<GaussianEmission*>(p.be)->zmn, &qz = dynamic_cast<GaussianEmission*>(q.be)->zmn;
    pz.alpha = qz.alpha, pz.beta = qz.beta;
  };
  L.discrete = false;
  L.value_tol = 1e-6;
  L.rounding = [](const Emission<double>& e, int ops) {
    return zmn_rounding(dynamic_cast<GaussianEmission*>(dynamic_cast<const Sometimes<double>&>(e).be)->zmn, ops);
  };
  linear(ctx, L);
  // The split is by whether the value changed.
  auto e = L.make();
  auto& s = dynamic_cast<Sometimes<double>&>(*e);
  auto& g = *dynamic_cast<GaussianEmission*>(s.be);
  int n = ctx.g.range(0, 10), ch = 0;
  for (int i = 0; i < n; ++i) {
    auto p = L.pair(ctx);
    e->incorporate(p);
    ch += p.first != p.second;
  }
  PCHECK(ctx, g.N == ch && s.N == n, "the inner model holds %g of %g pairs, %d changed", g.N, s.N, ch);
  double pt = (ch + a) / (n + a + b), x = gen_real(ctx, 100), y = x + 0.5 + ctx.g.unit();
  PCHECK(ctx, pbt::near(e->logp({x, x}), std::log1p(-pt), 1e-7, 1e-9), "logp of no change %.12g", e->logp({x, x}));
  PCHECK(ctx, pbt::near(e->logp({x, y}), std::log(pt) + g.logp({x, y}), 1e-9, 1e-9), "logp of a change %.12g", e->logp({x, y}));
}

// With equality: an unchanged value is split by its posterior probability.
PROPERTY("sometimes_categorical", 30000, 600000) {
  int k = ctx.g.range(1, 7);
  Sometimes<int> m(new CategoricalEmission(k), true);
  auto& ce = *dynamic_cast<CategoricalEmission*>(m.be);
  m.bb.alpha = gen_pos(ctx), m.bb.beta = gen_pos(ctx);
  double al = gen_pos(ctx);
  for (auto& d : ce.emission_dists) d.alpha = al;
  std::mt19937 prng(ctx.g.seed32());
  double T = 0, F = 0;
  std::vector<std::vector<double>> n(k, std::vector<double>(k));
  std::vector<std::pair<std::pair<int, int>, double>> have;  // with its corrupted share
  ctx.note("k=%d bb=%g,%g alpha=%g", k, m.bb.alpha, m.bb.beta, al);
  auto pb = [&](int a, int b) {
    double row = 0;
    for (double x : n[a]) row += x;
    double alpha = ce.emission_dists[a].alpha;
    return (n[a][b] + alpha) / (row + alpha * k);
  };
  auto pt = [&] { return (T + m.bb.alpha) / (T + F + m.bb.alpha + m.bb.beta); };
  auto value = [&](int a, int b) { return pt() * pb(a, b) + (a == b ? 1 - pt() : 0); };
  int ops = 0, removed = 0;
  const bool crowd = ctx.g.chance(1, 150);
  while (ctx.g.more(crowd ? 200 : 14, ops, crowd ? 600 : 80)) {
    ++ops;
    int op = ctx.g.weighted({6, 4, 1, 2});
    if (op == 0 || (op == 1 && have.empty())) {
      int a = ctx.g.draw(k), b = ctx.g.coin() ? a : (int)ctx.g.draw(k);
      double r = a == b ? pt() * pb(a, b) / value(a, b) : 1.0;
      ctx.note(" +%d>%d", a, b);
      m.incorporate({a, b});
      have.push_back({{a, b}, r});
      T += r, F += 1 - r, n[a][b] += r;
    } else if (op == 1) {
      size_t q = ctx.g.draw(have.size());
      auto [p, r] = have[q];
      ctx.note(" -%d>%d", p.first, p.second);
      double before = m.bb.s;
      m.unincorporate(p);
      // Which of several equal pairs went is up to the model.
      double gone = before - m.bb.s;
      size_t best = q;
      for (size_t i = 0; i < have.size(); ++i)
        if (have[i].first == p && std::fabs(have[i].second - gone) < std::fabs(have[best].second - gone)) best = i;
      r = have[best].second;
      T -= r, F -= 1 - r, n[p.first][p.second] -= r;
      have.erase(have.begin() + best);
      ++removed;
      if (have.empty()) T = F = 0;
      for (auto& row : n)
        for (double& x : row) if (std::fabs(x) < 1e-12) x = 0;
    } else if (op == 2) {
      m.transition_hyperparameters(&prng);
      ctx.note(" hyper");
    } else {
      int a = ctx.g.draw(k);
      double tot = 0;
      for (int b = 0; b < k; ++b) {
        double lp = m.logp({a, b});
        PCHECK(ctx, lp <= 1e-9, "logp(%d>%d) = %g", a, b, lp);
        PCHECK(ctx, pbt::near(std::exp(lp), value(a, b), 1e-7, 1e-9), "P(%d|%d) = %.12g, the recorded corruption gives %.12g", b, a, std::exp(lp), value(a, b));
        tot += std::exp(lp);
      }
      PCHECK(ctx, pbt::near(tot, 1, 1e-8), "probabilities given %d sum to %.12g", a, tot);
    }
    PCHECK(ctx, m.N == (double)have.size(), "total weight %g for %zu pairs", m.N, have.size());
    PCHECK(ctx, pbt::near(m.bb.s, T, 1e-8, 1e-8) && pbt::near(m.bb.N, T + F, 1e-8, 1e-8), "corrupted %.12g of %.12g, expected %.12g of %.12g", m.bb.s, m.bb.N, T, T + F);
    for (int a = 0; a < k; ++a)
      for (int b = 0; b < k; ++b)
        PCHECK(ctx, pbt::near(ce.emission_dists[a].counts[b], n[a][b], 1e-8, 1e-8), "count of %d>%d is %.12g, expected %.12g", a, b, ce.emission_dists[a].counts[b], n[a][b]);
    double sc = m.logp_score();
    PCHECK(ctx, !std::isnan(sc) && sc <= 1e-7, "score %g", sc);
    PCHECK(ctx, pbt::near(sc, m.bb.logp_score() + ce.logp_score(), 1e-9, 1e-9), "score %.12g is not the sum of its parts", sc);
  }
  if (removed && !have.empty()) ctx.nontrivial();
}

// ---- bigram ----
PROPERTY("bigram_string", 1500, 40000) {
  BigramStringEmission m;
  std::mt19937 prng(ctx.g.seed32());
  struct Have {
    std::pair<std::string, std::string> p;
    BgCounts added;
  };
  std::vector<Have> have;
  BgCounts state = bg_state(m);
  static const BigramStringEmission initial;
  int ops = 0, removed = 0;
  size_t max = 5;
  // Fewer samples of the prior: with the initial bias gone rare events weigh more.
  if (ctx.g.chance(1, 4)) {
    m.transition_hyperparameters(&prng);
    ctx.note("hyper ");
  }
  while (ctx.g.more(7, ops, 30)) {
    ++ops;
    int op = ctx.g.weighted({8, 4, 1});
    if (op == 2) {
      // Probabilities are probabilities of adding.
      auto p = gen_spair(ctx, 3, max);
      double lp = m.logp(p);
      PCHECK(ctx, !std::isnan(lp) && lp <= 1e-6, "logp(%s) = %g", pshow(p).c_str(), lp);
      PCHECK(ctx, bg_dist(bg_state(m), state) == 0, "asking for logp changed the counts");
      continue;
    }
    bool add = have.empty() || op == 0;
    size_t q = add ? 0 : ctx.g.draw(have.size());
    auto p = add ? gen_spair(ctx, 3, max) : have[q].p;
    if (add && !have.empty() && ctx.g.chance(1, 3)) p = ctx.g.pick(have).p;
    ctx.note(" %c%s", add ? '+' : '-', pshow(p).c_str());
    // A pair gives the same evidence whenever it is added.
    BgRef ref(initial, p.first, p.second);
    BgCounts want;
    bool exact = ref.evidence(&want);
    double before = m.logp_score(), lp = m.logp(p);
    if (add) m.incorporate(p);
    else m.unincorporate(p);
    BgCounts now = bg_state(m), d = add ? bg_diff(now, state) : bg_diff(state, now);
    state = now;
    // Bookkeeping that holds whatever the alignments are.
    std::map<int, double> rows;
    double declined = 0;
    for (auto& [k, v] : d) {
      auto [t, a, b] = k;
      if (t) rows[a] += v;
      else if (b == 0) declined += v;
    }
    PCHECK(ctx, pbt::near(declined, p.first.size() + 1, 1e-8, 1e-8), "%s: insertions were declined %g times", pshow(p).c_str(), declined);
    std::map<int, double> chars;
    for (char c : p.first) chars[c - ' ' + 1] += 1;
    for (auto& [a, v] : rows) PCHECK(ctx, pbt::near(v, chars[a], 1e-8, 1e-8), "%s: character %d was treated %g times", pshow(p).c_str(), a, v);
    for (auto& [a, v] : chars) PCHECK(ctx, pbt::near(v, rows[a], 1e-8, 1e-8), "%s: character %d was treated %g times", pshow(p).c_str(), a, rows[a]);
    if (add) {
      PCHECK(ctx, pbt::near(m.logp_score() - before, lp, 1e-7, 1e-6), "adding %s changes the score by %.12g, logp said %.12g", pshow(p).c_str(), m.logp_score() - before, lp);
      if (exact) {
        PCHECK(ctx, bg_dist(d, want) < 1e-7, "%s: the counts added differ from the two best alignments' by %g", pshow(p).c_str(), bg_dist(d, want));
        ctx.label("exact");
      }
      have.push_back({p, d});
    } else {
      size_t best = q;
      for (size_t i = 0; i < have.size(); ++i)
        if (have[i].p == p && bg_dist(d, have[i].added) < bg_dist(d, have[best].added)) best = i;
      PCHECK(ctx, bg_dist(d, have[best].added) < 1e-8, "removing %s leaves a difference of %g", pshow(p).c_str(), bg_dist(d, have[best].added));
      have.erase(have.begin() + best);
      ++removed;
    }
    PCHECK(ctx, m.N == (double)have.size(), "total weight %g for %zu pairs", m.N, have.size());
    PCHECK(ctx, !std::isnan(m.logp_score()), "the score is NaN");
    if (op != 2 && have.size() < 6) {
      // The score depends on the pairs and the parameters only.
      BigramStringEmission f;
      for (size_t i = 0; i < f.insertions.size(); ++i) f.insertions[i].alpha = m.insertions[i].alpha;
      for (size_t i = 0; i < f.substitutions.size(); ++i) f.substitutions[i].alpha = m.substitutions[i].alpha;
      for (size_t i = have.size(); i--;) f.incorporate(have[i].p);
      PCHECK(ctx, pbt::near(m.logp_score(), f.logp_score(), 1e-9, 1e-6), "scores %.12g, a fresh model with the same pairs %.12g", m.logp_score(), f.logp_score());
    }
  }
  if (removed && !have.empty()) ctx.nontrivial();
}

PROPERTY("bigram_string_total", 60, 1500) {
  BigramStringEmission m;
  std::mt19937 prng(ctx.g.seed32());
  int n = ctx.g.range(0, 6);
  for (int i = 0; i < n; ++i) {
    auto p = gen_spair(ctx, 4, 8);
    m.incorporate(p);
    ctx.note(" +%s", pshow(p).c_str());
  }
  std::string clean = gen_string(ctx, 'a', 'd', 1, 2);
  ctx.note(" | %s", show(clean).c_str());
  double tot = std::exp(m.logp({clean, ""}));
  if (clean.size() > 1) tot += std::exp(m.logp({clean, clean}));
  for (int a = ' '; a <= '~'; ++a) {
    double lp = m.logp({clean, std::string(1, a)});
    PCHECK(ctx, lp <= 1e-6, "logp(%c) = %g", a, lp);
    tot += std::exp(lp);
  }
  PCHECK(ctx, tot <= 1.01, "short dirty values have a total probability of %.12g", tot);
  if (n) ctx.nontrivial();
}

int main(int argc, char** argv) {
  return pbt::main_impl(argc, argv,
      "Random histories of adding and removing (clean, dirty) pairs on every noise model, compared with a fresh model given the survivors "
      "(or, where the evidence of a pair depends on the state, with a reference that keeps each pair's evidence); totals over enumerated dirty values. "
      "Non-trivial: something was removed and something is left (totals: some evidence was added).");
}
