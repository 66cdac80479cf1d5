// Uniform access to every component distribution, with generators.
#pragma once
#include <memory>
#include <variant>

#include "distributions/adapter.hh"
#include "distributions/beta_bernoulli.hh"
#include "distributions/bigram.hh"
#include "distributions/dirichlet_categorical.hh"
#include "distributions/normal.hh"
#include "distributions/skellam.hh"
#include "distributions/string_nat.hh"
#include "distributions/stringcat.hh"
#include "distributions/zero_mean_normal.hh"
#include "pbt.hh"

using Val = std::variant<bool, int, double, std::string>;

inline std::string show(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\')
      o += pbt::fmt("\\x%02x", c);
    else
      o += c;
  }
  return o + "\"";
}
inline std::string show(const Val& v) {
  if (auto p = std::get_if<bool>(&v)) return *p ? "true" : "false";
  if (auto p = std::get_if<int>(&v)) return std::to_string(*p);
  if (auto p = std::get_if<double>(&v)) return pbt::fmt("%.17g", *p);
  return show(std::get<std::string>(v));
}

enum Kind {
  K_BERN, K_CAT, K_NORMAL, K_ZMN, K_BIGRAM, K_SKELLAM, K_STRINGCAT, K_STRNAT,
  K_STRNORMAL, K_STRSKELLAM, K_COUNT
};
inline const char* kind_name(int k) {
  static const char* n[] = {"bernoulli", "categorical", "normal", "zero_mean_normal",
                            "bigram", "skellam", "stringcat", "string_nat",
                            "string_normal", "string_skellam"};
  return n[k];
}

// Configuration of a distribution: everything but the data.
struct Conf {
  Kind kind;
  // Hyperparameters (bernoulli a,b; categorical/bigram/stringcat alpha;
  // normal r,v,m,s; zmn alpha,beta; skellam mean1,sd1,mean2,sd2).
  double h[4] = {1, 1, 0, 1};
  double mu[2] = {1, 1};      // skellam latents
  int k = 2;                  // categories
  size_t maxlen = 80;         // bigram
  char lo = ' ', hi = '~';    // bigram alphabet
  std::vector<std::string> strings;
  std::string str() const {
    std::string s = kind_name(kind);
    switch (kind) {
      case K_BERN: case K_ZMN: return s + pbt::fmt("(%.6g,%.6g)", h[0], h[1]);
      case K_CAT: return s + pbt::fmt("(k=%d,alpha=%.6g)", k, h[0]);
      case K_NORMAL: case K_STRNORMAL:
        return s + pbt::fmt("(r=%.6g,v=%.6g,m=%.6g,s=%.6g)", h[0], h[1], h[2], h[3]);
      case K_BIGRAM:
        return s + pbt::fmt("(max=%zu,%c-%c,alpha=%.6g)", maxlen, lo, hi, h[0]);
      case K_STRNAT: return s + pbt::fmt("(max=%zu,alpha=%.6g)", maxlen, h[0]);
      case K_SKELLAM: case K_STRSKELLAM: return s + pbt::fmt("(mu=%.6g,%.6g)", mu[0], mu[1]);
      case K_STRINGCAT: {
        s += "(";
        for (auto& x : strings) s += show(x) + " ";
        return s + pbt::fmt("alpha=%.6g)", h[0]);
      }
      default: return s;
    }
  }
};

// Type-erased model.
struct Model {
  Conf conf;
  std::unique_ptr<Distribution<bool>> b;
  std::unique_ptr<Distribution<int>> i;
  std::unique_ptr<Distribution<double>> d;
  std::unique_ptr<Distribution<std::string>> s;
  // Non-owning views for reading parameters.
  BetaBernoulli* bern = nullptr;
  DirichletCategorical* cat = nullptr;
  Normal* normal = nullptr;
  ZeroMeanNormal* zmn = nullptr;
  Bigram* bigram = nullptr;
  Skellam* skellam = nullptr;
  StringCat* scat = nullptr;

  explicit Model(const Conf& c) : conf(c) {
    switch (c.kind) {
      case K_BERN:
        bern = new BetaBernoulli;
        b.reset(bern);
        break;
      case K_CAT:
        cat = new DirichletCategorical(c.k);
        i.reset(cat);
        break;
      case K_NORMAL:
        normal = new Normal;
        d.reset(normal);
        break;
      case K_ZMN:
        zmn = new ZeroMeanNormal;
        d.reset(zmn);
        break;
      case K_BIGRAM:
        bigram = new Bigram(c.maxlen, c.lo, c.hi);
        s.reset(bigram);
        break;
      case K_STRNAT: {
        auto* p = new StringNat(c.maxlen);
        bigram = p;
        s.reset(p);
        break;
      }
      case K_SKELLAM:
        skellam = new Skellam;
        i.reset(skellam);
        break;
      case K_STRINGCAT:
        scat = new StringCat(c.strings);
        s.reset(scat);
        break;
      case K_STRNORMAL:
        normal = new Normal;
        s.reset(new DistributionAdapter<double>(normal));
        break;
      case K_STRSKELLAM:
        skellam = new Skellam;
        s.reset(new DistributionAdapter<int>(skellam));
        break;
      default: abort();
    }
    set(c);
  }
  // Sets hyperparameters and latents.
  void set(const Conf& c) {
    conf = c;
    if (bern) bern->alpha = c.h[0], bern->beta = c.h[1];
    if (cat) cat->alpha = c.h[0];
    if (normal) normal->r = c.h[0], normal->v = c.h[1], normal->m = c.h[2], normal->s = c.h[3];
    if (zmn) zmn->alpha = c.h[0], zmn->beta = c.h[1];
    if (bigram) bigram->set_alpha(c.h[0]);
    if (scat) scat->dc.alpha = c.h[0];
    if (skellam) {
      skellam->mean1 = c.h[0], skellam->stddev1 = c.h[1];
      skellam->mean2 = c.h[2], skellam->stddev2 = c.h[3];
      skellam->mu1 = c.mu[0], skellam->mu2 = c.mu[1];
    }
  }
  // Reads them back.
  Conf get() const {
    Conf c = conf;
    if (bern) c.h[0] = bern->alpha, c.h[1] = bern->beta;
    if (cat) c.h[0] = cat->alpha;
    if (normal) c.h[0] = normal->r, c.h[1] = normal->v, c.h[2] = normal->m, c.h[3] = normal->s;
    if (zmn) c.h[0] = zmn->alpha, c.h[1] = zmn->beta;
    if (bigram) c.h[0] = bigram->alpha;
    if (scat) c.h[0] = scat->dc.alpha;
    if (skellam) {
      c.h[0] = skellam->mean1, c.h[1] = skellam->stddev1;
      c.h[2] = skellam->mean2, c.h[3] = skellam->stddev2;
      c.mu[0] = skellam->mu1, c.mu[1] = skellam->mu2;
    }
    return c;
  }
  void inc(const Val& v, double w = 1.0) {
    if (b) b->incorporate(std::get<bool>(v), w);
    else if (i) i->incorporate(std::get<int>(v), w);
    else if (d) d->incorporate(std::get<double>(v), w);
    else s->incorporate(std::get<std::string>(v), w);
  }
  void uninc(const Val& v) {
    if (b) b->unincorporate(std::get<bool>(v));
    else if (i) i->unincorporate(std::get<int>(v));
    else if (d) d->unincorporate(std::get<double>(v));
    else s->unincorporate(std::get<std::string>(v));
  }
  double logp(const Val& v) const {
    if (b) return b->logp(std::get<bool>(v));
    if (i) return i->logp(std::get<int>(v));
    if (d) return d->logp(std::get<double>(v));
    return s->logp(std::get<std::string>(v));
  }
  double score() const {
    if (b) return b->logp_score();
    if (i) return i->logp_score();
    if (d) return d->logp_score();
    return s->logp_score();
  }
  double N() const {
    if (b) return b->N;
    if (i) return i->N;
    if (d) return d->N;
    return s->N;
  }
  Val sample(std::mt19937* p) {
    if (b) return b->sample(p);
    if (i) return i->sample(p);
    if (d) return d->sample(p);
    return s->sample(p);
  }
  void hyper(std::mt19937* p) {
    if (b) b->transition_hyperparameters(p);
    else if (i) i->transition_hyperparameters(p);
    else if (d) d->transition_hyperparameters(p);
    else s->transition_hyperparameters(p);
  }
  void theta(std::mt19937* p) {
    if (b) b->transition_theta(p);
    else if (i) i->transition_theta(p);
    else if (d) d->transition_theta(p);
    else s->transition_theta(p);
  }
  Val nearest(const Val& v) const {
    if (b) return b->nearest(std::get<bool>(v));
    if (i) return i->nearest(std::get<int>(v));
    if (d) return d->nearest(std::get<double>(v));
    return s->nearest(std::get<std::string>(v));
  }
};

// ---- generators ----

inline double gen_pos(pbt::Ctx& ctx) {  // a positive hyperparameter
  static const double grid[] = {1, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 2, 5, 10, 100, 1000, 1e4};
  if (ctx.g.chance(1, 4)) return ctx.g.log_uniform(1e-4, 1e4);
  return grid[ctx.g.draw(12)];
}

inline std::string gen_string(pbt::Ctx& ctx, char lo, char hi, int mean, size_t maxlen) {
  std::string s;
  int cap = maxlen == 0 ? 200 : (int)maxlen;
  // Few distinct characters, so that repeats and shared prefixes are common.
  bool narrow = ctx.g.chance(2, 3);
  while (ctx.g.more(mean, (int)s.size(), cap)) {
    int span = hi - lo;
    if (narrow) span = std::min(span, 2);
    s += (char)(lo + ctx.g.range(0, span));
  }
  return s;
}

inline double gen_real(pbt::Ctx& ctx, double big = 1e6) {
  switch (ctx.g.weighted({3, 4, 2, 2, 1})) {
    case 0: return (double)ctx.g.range(-5, 5);
    case 1: return (ctx.g.unit() - 0.5) * 20;
    case 2: return ctx.g.log_uniform(1e-6, big) * (ctx.g.coin() ? 1 : -1);
    case 3: return big * (ctx.g.coin() ? 1.0 : -1.0) * (0.5 + ctx.g.unit() / 2);
    default: return 0.0;
  }
}

struct ConfOpts {
  bool small_support = false;  // keep the support enumerable
  bool skellam_tame = true;    // keep rates in the range one can enumerate
};

inline Conf gen_conf(pbt::Ctx& ctx, Kind kind, ConfOpts o = {}) {
  Conf c;
  c.kind = kind;
  switch (kind) {
    case K_BERN: case K_ZMN:
      c.h[0] = gen_pos(ctx);
      c.h[1] = gen_pos(ctx);
      break;
    case K_CAT:
      c.k = o.small_support ? ctx.g.range(1, 8) : ctx.g.chance(1, 10) ? ctx.g.range(1, 300) : ctx.g.range(1, 12);
      c.h[0] = gen_pos(ctx);
      break;
    case K_NORMAL: case K_STRNORMAL: {
      static const double R[] = {1, 0.1, 10}, V[] = {1, 0.5, 2, 5}, M[] = {0, -1, 1}, S[] = {1, 0.5, 2};
      c.h[0] = R[ctx.g.draw(3)];
      c.h[1] = V[ctx.g.draw(4)];
      c.h[2] = M[ctx.g.draw(3)];
      c.h[3] = S[ctx.g.draw(3)];
      if (ctx.g.chance(1, 4)) {
        c.h[0] = ctx.g.log_uniform(0.01, 100);
        c.h[1] = ctx.g.log_uniform(0.1, 100);
        c.h[2] = (ctx.g.unit() - 0.5) * 20;
        c.h[3] = ctx.g.log_uniform(0.1, 100);
      }
      break;
    }
    case K_BIGRAM: {
      static const char* ranges[] = {" ~", "ab", "az", "09", "AC", "xx"};
      const char* r = ranges[o.small_support ? (int)(1 + 3 * ctx.g.draw(2)) : (int)ctx.g.draw(6)];
      if (o.small_support) r = ctx.g.coin() ? "ab" : "xx";
      c.lo = r[0];
      c.hi = r[1];
      static const size_t L[] = {80, 0, 1, 2, 3, 5, 20};
      c.maxlen = L[ctx.g.draw(7)];
      c.h[0] = gen_pos(ctx);
      break;
    }
    case K_STRNAT: {
      static const size_t L[] = {20, 0, 1, 2, 5};
      c.maxlen = L[ctx.g.draw(5)];
      c.h[0] = gen_pos(ctx);
      c.lo = '0';
      c.hi = '9';
      break;
    }
    case K_SKELLAM: case K_STRSKELLAM:
      c.h[0] = 0, c.h[1] = 1, c.h[2] = 0, c.h[3] = 1;
      if (ctx.g.chance(1, 3)) {
        static const double M[] = {-10, 0, 10}, S[] = {0.1, 1, 10};
        c.h[0] = M[ctx.g.draw(3)], c.h[1] = S[ctx.g.draw(3)];
        c.h[2] = M[ctx.g.draw(3)], c.h[3] = S[ctx.g.draw(3)];
      }
      c.mu[0] = o.skellam_tame ? ctx.g.log_uniform(0.01, 50) : ctx.g.log_uniform(1e-8, 1e8);
      c.mu[1] = o.skellam_tame ? ctx.g.log_uniform(0.01, 50) : ctx.g.log_uniform(1e-8, 1e8);
      break;
    case K_STRINGCAT: {
      std::set<std::string> set;
      int n = ctx.g.range(1, o.small_support ? 6 : 10);
      for (int q = 0; q < n; ++q) set.insert(gen_string(ctx, ' ', '~', 3, 12));
      c.strings.assign(set.begin(), set.end());
      if (ctx.g.coin()) std::reverse(c.strings.begin(), c.strings.end());
      c.h[0] = gen_pos(ctx);
      break;
    }
    default: break;
  }
  return c;
}

inline Val gen_value(pbt::Ctx& ctx, const Conf& c, double big = 1e6) {
  switch (c.kind) {
    case K_BERN: return ctx.g.coin();
    case K_CAT: return (int)ctx.g.range(0, c.k - 1);
    case K_NORMAL: case K_ZMN: return gen_real(ctx, big);
    case K_BIGRAM: return gen_string(ctx, c.lo, c.hi, 5, c.maxlen);
    case K_STRNAT: return gen_string(ctx, '0', '9', 4, c.maxlen);
    case K_SKELLAM:
      return (int)(ctx.g.chance(1, 8) ? ctx.g.range(-300, 300) : ctx.g.range(-12, 12));
    case K_STRINGCAT: return c.strings[ctx.g.draw(c.strings.size())];
    case K_STRNORMAL: {
      // A spelling of a double that the wrapped type reads back exactly.
      std::ostringstream os;
      if (ctx.g.coin()) os.precision(17);
      os << gen_real(ctx, big);
      return os.str();
    }
    case K_STRSKELLAM: return std::to_string((int)ctx.g.range(-12, 12));
    default: abort();
  }
}

// Size of the rounding error a score may legitimately carry for a model that
// saw `ops` operations on values of magnitude up to `mag`.
inline double score_tol(const Model& m, double mag, double ops) {
  double t = 1e-9 + 1e-12 * ops;
  // lgamma of large totals loses absolute precision.
  auto lg = [](double a) { return 4e-15 * (a * std::fabs(std::log(a + 2)) + a); };
  if (m.cat) t += lg(m.cat->alpha * m.conf.k + m.N() + 10) + lg(m.conf.k * 10.0);
  if (m.scat) t += lg(m.scat->dc.alpha * m.conf.strings.size() + m.N() + 10);
  if (m.bern) t += lg(m.bern->alpha + m.bern->beta + m.N() + 10);
  if (m.bigram) {
    double n = m.bigram->num_chars + 1;
    t += n * (lg(m.bigram->alpha * n + m.N() * 10 + 10) + lg(n * 10));
  }
  if (m.normal) {
    double s = std::max(0.05, m.normal->s * 0.5);
    double post = s;
    double ds = 4e-15 * (ops + 4) * (mag * mag + 1) * (std::fabs(m.N()) + m.normal->r + 1);
    t += (m.normal->v + std::fabs(m.N()) + 2) * ds / post;
  }
  if (m.zmn) {
    double ds = 2e-15 * (ops + 4) * (mag * mag + 1) * (std::fabs(m.N()) + 1);
    t += (m.zmn->alpha + std::fabs(m.N()) + 2) * ds / m.zmn->beta;
  }
  return t;
}
inline double magnitude(const Val& v, const Conf& c) {
  if (auto p = std::get_if<double>(&v)) return std::fabs(*p);
  if (c.kind == K_STRNORMAL) return std::fabs(std::strtod(std::get<std::string>(v).c_str(), nullptr));
  return 1;
}
