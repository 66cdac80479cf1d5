// C10: specifications build what they name; nearest() finds a nearest value.
#include <iomanip>

#include "clean_relation.hh"
#include "dists.hh"
#include "distributions/get_distribution.hh"
#include "emissions/bigram_string.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/get_emission.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"

using namespace pbt;

namespace {

// Levenshtein distance, the textbook table.
int lev(const std::string& a, const std::string& b) {
  std::vector<int> p(b.size() + 1), q(b.size() + 1);
  for (size_t j = 0; j <= b.size(); ++j) p[j] = j;
  for (size_t i = 1; i <= a.size(); ++i) {
    q[0] = i;
    for (size_t j = 1; j <= b.size(); ++j)
      q[j] = std::min({p[j] + 1, q[j - 1] + 1, p[j - 1] + (a[i - 1] != b[j - 1])});
    std::swap(p, q);
  }
  return p[b.size()];
}

struct SpecCase {
  std::string name;
  std::map<std::string, std::string> args;
};

// Renders name(args) with the arguments in a generated order.
std::string render(Ctx& ctx, const SpecCase& s) {
  std::string o = s.name;
  if (s.args.empty()) return o;
  std::vector<std::pair<std::string, std::string>> v(s.args.begin(), s.args.end());
  for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[ctx.g.draw(i)]);
  o += "(";
  for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + v[i].first + "=" + v[i].second;
  return o + ")";
}

DistributionSpec make_spec(Ctx& ctx, const SpecCase& s, bool allow_text) {
  if (allow_text && ctx.g.coin()) {
    std::string t = render(ctx, s);
    ctx.note("spec %s (text)\n", show(t).c_str());
    return DistributionSpec(t);
  }
  std::string a;
  for (auto& [k, v] : s.args) a += " " + k + "=" + show(v);
  ctx.note("spec %s (map:%s)\n", s.name.c_str(), a.c_str());
  return DistributionSpec(s.name, s.args);
}

template <class T>
std::unique_ptr<Distribution<T>> take(Ctx& ctx, const DistributionVariant& v) {
  PCHECK(ctx, std::holds_alternative<Distribution<T>*>(v), "wrong sample type");
  return std::unique_ptr<Distribution<T>>(std::get<Distribution<T>*>(v));
}

// Does incorporating x end the process?  (asked in a child)
template <class D, class T>
bool refuses(D* d, const T& x) {
  Isolated r = isolated([&](std::string&) { d->incorporate(x); });
  return !r.returned;
}

// A relation's nearest value, for a group combination with data and for one without.
template <class T, class F>
void relation_nearest(Ctx& ctx, const SpecCase& sc, F gen) {
  std::mt19937 prng(ctx.g.seed32());
  auto spec = make_spec(ctx, sc, true);
  int arity = ctx.g.range(1, 3);
  std::vector<Domain> doms;
  for (int i = 0; i < arity; ++i) doms.emplace_back(std::string(1, 'A' + i));
  std::vector<Domain*> ptrs;
  for (auto& d : doms) {
    for (int e = 0; e < 4; ++e) d.incorporate(&prng, e, e / 2);
    ptrs.push_back(&d);
  }
  CleanRelation<T> rel("R", spec, ptrs);
  auto fresh = take<T>(ctx, get_prior(spec, &prng));
  std::set<T_items> used;
  for (int i = ctx.g.range(0, 4); i > 0; --i) {
    T_items items;
    for (int k = 0; k < arity; ++k) items.push_back(ctx.g.draw(4));
    if (!rel.get_data().contains(items)) rel.incorporate(&prng, items, fresh->nearest(gen()));
  }
  bool with = false, without = false;
  for (int i = 0; i < 6; ++i) {
    T_items items;
    for (int k = 0; k < arity; ++k) items.push_back(ctx.g.draw(4));
    T x = gen();
    bool there = rel.clusters.contains(rel.get_cluster_assignment(items));
    size_t n = rel.clusters.size();
    double s = rel.logp_score();
    T got = rel.nearest(&prng, x, items), want = fresh->nearest(x);
    PCHECK(ctx, got == want, "nearest(%s) is %s at a combination %s data, %s for the distribution", show(Val(x)).c_str(), show(Val(got)).c_str(),
           there ? "with" : "without", show(Val(want)).c_str());
    PCHECK(ctx, n == rel.clusters.size() && s == rel.logp_score(), "asking for the nearest value changed the relation");
    (there ? with : without) |= got != x;
  }
  if (with && without) ctx.label("both");
  if (without) ctx.nontrivial();
}
PROPERTY("relation_nearest", 2000, 40000) {
  switch (ctx.g.draw(3)) {
    case 0: {
      int k = ctx.g.range(1, 9);
      return relation_nearest<int>(ctx, {"categorical", {{"k", std::to_string(k)}}}, [&] { return (int)ctx.g.range(-3, 14); });
    }
    case 1:
      return relation_nearest<std::string>(ctx, {"stringcat", {{"strings", "ab:abc:b:ccc"}, {"delim", ":"}}}, [&] {
        return gen_string(ctx, 'a', 'c', 3, 5);
      });
    default: {
      bool nat = ctx.g.coin();
      return relation_nearest<std::string>(ctx, {nat ? "string_nat" : "bigram", {{"maxlength", std::to_string(ctx.g.range(1, 5))}}}, [&] {
        std::string x;
        for (int i = ctx.g.range(0, 9); i > 0; --i) x += "09x~ \x80"[ctx.g.draw(6)];
        return x;
      });
    }
  }
}

}  // namespace

PROPERTY("bernoulli", 100, 400) {
  auto spec = make_spec(ctx, {"bernoulli", {}}, true);
  std::mt19937 prng(ctx.g.seed32());
  PCHECK(ctx, spec.observation_type == ObservationEnum::bool_type, "observation type");
  auto d = take<bool>(ctx, get_prior(spec, &prng));
  PCHECK(ctx, dynamic_cast<BetaBernoulli*>(d.get()), "kind");
  PCHECK(ctx, near(d->logp(true), std::log(0.5)) && near(d->logp(false), std::log(0.5)), "defaults");
  PCHECK(ctx, d->nearest(true) && !d->nearest(false), "nearest");
  ctx.nontrivial();
}

PROPERTY("categorical", 1500, 20000) {
  int k = ctx.g.weighted({3, 2}) ? (int)ctx.g.range(1, 3000) : (int)ctx.g.range(1, 30);
  auto spec = make_spec(ctx, {"categorical", {{"k", std::to_string(k)}}}, true);
  std::mt19937 prng(ctx.g.seed32());
  PCHECK(ctx, spec.observation_type == ObservationEnum::int_type, "observation type");
  auto d = take<int>(ctx, get_prior(spec, &prng));
  PCHECK(ctx, dynamic_cast<DirichletCategorical*>(d.get()), "kind");
  // Exactly k categories, equally likely a priori.
  for (int q = 0; q < 4; ++q) {
    int c = ctx.g.range(0, k - 1);
    PCHECK(ctx, near(d->logp(c), -std::log((double)k)), "category %d of %d: logp %.12g", c, k, d->logp(c));
  }
  PCHECK(ctx, near(d->logp(k - 1), -std::log((double)k)), "the last of %d categories: logp %.12g", k, d->logp(k - 1));
  // nearest clamps, whatever has been observed.
  int n = ctx.g.range(0, 5);
  for (int q = 0; q < n; ++q) d->incorporate((int)ctx.g.range(0, k - 1));
  for (int q = 0; q < 6; ++q) {
    int64_t x64 = ctx.g.weighted({3, 2, 1}) == 0 ? ctx.g.range(-5, k + 5)
                  : ctx.g.coin()               ? ctx.g.range(-100000, 100000)
                                               : (ctx.g.coin() ? INT32_MAX - ctx.g.range(0, 2) : INT32_MIN + ctx.g.range(0, 2));
    int x = (int)x64;
    int want = x < 0 ? 0 : x >= k ? k - 1 : x;
    PCHECK(ctx, d->nearest(x) == want, "nearest(%d) with %d categories is %d, want %d", x, k, d->nearest(x), want);
    if (want != x) ctx.nontrivial();
    PCHECK(ctx, std::isfinite(d->logp(d->nearest(x))), "nearest value not accepted");
  }
  if (ctx.g.chance(1, 20)) {
    PCHECK(ctx, refuses(d.get(), k) && refuses(d.get(), -1), "a value outside 0..%d is accepted", k - 1);
    ctx.label("out of range value refused");
  }
}

PROPERTY("strings", 3000, 40000) {
  // Strings that do not hold the delimiter.
  bool dflt = ctx.g.chance(1, 4);
  static const std::string delims = ":|;/ ,=_-.a0\t";
  char delim = dflt ? ' ' : delims[ctx.g.draw(delims.size())];
  std::vector<std::string> strings;
  std::set<std::string> seen;
  int n = ctx.g.range(1, 10);
  if (ctx.g.chance(1, 12)) n = ctx.g.range(10, 60);
  for (int q = 0; q < n; ++q) {
    std::string s;
    static const std::string small = "abc";
    bool nar = ctx.g.chance(2, 3);
    int len = ctx.g.range(0, 8);
    for (int i = 0; i < len; ++i) {
      char c = nar ? small[ctx.g.draw(3)] : (char)ctx.g.range(0x20, 0x7e);
      if (c != delim) s += c;
    }
    if (seen.insert(s).second) strings.push_back(s);
  }
  std::string joined;
  for (size_t i = 0; i < strings.size(); ++i) joined += (i ? std::string(1, delim) : "") + strings[i];
  SpecCase sc{"stringcat", {{"strings", joined}}};
  if (!dflt) sc.args["delim"] = std::string(1, delim);
  // The text form uses ',' '(' and ')' itself.
  bool text = delim != ',' && joined.find(',') == std::string::npos && !joined.empty();
  auto spec = make_spec(ctx, sc, text);
  std::mt19937 prng(ctx.g.seed32());
  PCHECK(ctx, spec.observation_type == ObservationEnum::string_type, "observation type");
  auto d = take<std::string>(ctx, get_prior(spec, &prng));
  PCHECK(ctx, dynamic_cast<StringCat*>(d.get()), "kind");
  // Every string is there and equally likely, so there are no others.
  for (auto& s : strings)
    PCHECK(ctx, near(d->logp(s), -std::log((double)strings.size())), "logp(%s) = %.12g among %zu strings",
           show(s).c_str(), d->logp(s), strings.size());
  if (ctx.g.coin())
    for (auto& s : strings)
      if (ctx.g.coin()) d->incorporate(s);
  if (strings.size() > 1) ctx.nontrivial();
  for (int q = 0; q < 4; ++q) {
    std::string x;
    if (ctx.g.coin()) {
      x = strings[ctx.g.draw(strings.size())];
      int edits = ctx.g.range(0, 3);
      for (int e = 0; e < edits; ++e) {
        size_t at = ctx.g.draw(x.size() + 1);
        int op = ctx.g.draw(3);
        char c = ctx.g.coin() ? 'a' + ctx.g.draw(4) : (char)ctx.g.range(1, 255);
        if (op == 0) x.insert(at, 1, c);
        else if (at < x.size()) {
          if (op == 1) x[at] = c;
          else x.erase(at, 1);
        }
      }
    } else {
      int len = ctx.g.range(0, 10);
      for (int i = 0; i < len; ++i) x += 'a' + ctx.g.draw(4);
    }
    std::string y = d->nearest(x);
    ctx.note("nearest(%s) = %s\n", show(x).c_str(), show(y).c_str());
    PCHECK(ctx, std::find(strings.begin(), strings.end(), y) != strings.end(), "nearest is not one of the strings");
    int best = INT32_MAX;
    for (auto& s : strings) best = std::min(best, lev(s, x));
    PCHECK(ctx, lev(y, x) == best, "distance %d, but another string is at %d", lev(y, x), best);
    PCHECK(ctx, std::isfinite(d->logp(y)), "not accepted");
    if (best > 0) ctx.label("inexact");
    if (best > 1) ctx.label("distance above 1");
  }
}

PROPERTY("text_length", 3000, 40000) {
  bool nat = ctx.g.coin();
  bool given = ctx.g.chance(3, 4);
  size_t maxlen = nat ? 20 : 80;
  SpecCase sc{nat ? "string_nat" : "bigram", {}};
  if (given) {
    maxlen = ctx.g.weighted({3, 1, 1}) == 0 ? ctx.g.range(1, 12) : ctx.g.coin() ? ctx.g.range(13, 120) : 0;
    sc.args["maxlength"] = std::to_string(maxlen);
  } else {
    ctx.label("default length");
  }
  char lo = nat ? '0' : ' ', hi = nat ? '9' : '~';
  auto spec = make_spec(ctx, sc, true);
  std::mt19937 prng(ctx.g.seed32());
  PCHECK(ctx, spec.observation_type == ObservationEnum::string_type, "observation type");
  auto d = take<std::string>(ctx, get_prior(spec, &prng));
  PCHECK(ctx, dynamic_cast<Bigram*>(d.get()), "kind");
  PCHECK(ctx, nat == (dynamic_cast<StringNat*>(d.get()) != nullptr), "kind (number text or text)");
  // The alphabet: all of it, nothing else; each symbol equally likely at first.
  double step = -std::log((double)(hi - lo + 1) + 1);
  std::string all = std::string(1, lo) + hi + (char)ctx.g.range(lo, hi);
  for (char c : all)
    PCHECK(ctx, near(d->logp(std::string(1, c)), 2 * step), "logp(%s) = %.12g, want %.12g",
           show(std::string(1, c)).c_str(), d->logp(std::string(1, c)), 2 * step);
  // Length limit: strings of that length are taken, longer ones refused.
  std::string x;
  size_t len = maxlen ? maxlen : 200;
  for (size_t i = 0; i < len; ++i) x += (char)ctx.g.range(lo, hi);
  d->incorporate(x);
  d->unincorporate(x);
  if (maxlen && ctx.g.chance(1, 20)) {
    PCHECK(ctx, refuses(d.get(), x + x[0]), "a string of length %zu is accepted with maximum %zu", len + 1, maxlen);
    ctx.label("too long refused");
  }
  // Samples obey the limit (short limits only: sampling is slow otherwise).
  if (maxlen && maxlen <= 12) {
    for (int q = 0; q < 3; ++q) {
      std::string s = d->sample(&prng);
      PCHECK(ctx, s.size() <= maxlen, "sample of length %zu with maximum %zu", s.size(), maxlen);
    }
  }
  // nearest: legal characters kept in order, then cut.
  int n = ctx.g.range(1, 4);
  for (int q = 0; q < n; ++q) {
    std::string y, want;
    size_t L = ctx.g.coin() ? ctx.g.range(0, 12) : ctx.g.range(0, 2 * (maxlen ? maxlen : 50) + 3);
    int mode = ctx.g.draw(3);
    for (size_t i = 0; i < L; ++i)
      y += mode == 0 ? (char)ctx.g.range(lo, hi) : mode == 1 ? (char)ctx.g.range(0, 255)
           : ctx.g.coin() ? (char)ctx.g.range('0', '9') : "x- .\x80\xff"[ctx.g.draw(6)];
    for (char c : y)
      if (c >= lo && c <= hi) want += c;
    if (maxlen && want.size() > maxlen) want.resize(maxlen);
    std::string got = d->nearest(y);
    PCHECK(ctx, got == want, "nearest(%s) = %s, want %s", show(y).c_str(), show(got).c_str(), show(want).c_str());
    d->incorporate(got);
    d->unincorporate(got);
    if (got != y) ctx.nontrivial();
    if (maxlen && want.size() == maxlen) ctx.label("cut");
  }
}

PROPERTY("numbers", 1500, 20000) {
  int which = ctx.g.draw(4);
  static const char* names[] = {"normal", "skellam", "string_normal", "string_skellam"};
  auto spec = make_spec(ctx, {names[which], {}}, true);
  uint32_t seed = ctx.g.seed32();
  std::mt19937 prng(seed);
  ctx.nontrivial();
  if (which == 0) {
    PCHECK(ctx, spec.observation_type == ObservationEnum::double_type, "observation type");
    auto d = take<double>(ctx, get_prior(spec, &prng));
    PCHECK(ctx, dynamic_cast<Normal*>(d.get()), "kind");
    double x = gen_real(ctx);
    PCHECK(ctx, d->nearest(x) == x, "nearest(%g) = %g", x, d->nearest(x));
    Normal ref;
    PCHECK(ctx, near(d->logp(x), ref.logp(x)), "defaults");
  } else if (which == 1) {
    PCHECK(ctx, spec.observation_type == ObservationEnum::int_type, "observation type");
    auto d = take<int>(ctx, get_prior(spec, &prng));
    auto* s = dynamic_cast<Skellam*>(d.get());
    PCHECK(ctx, s, "kind");
    PCHECK(ctx, s->mu1 > 0 && s->mu2 > 0 && std::isfinite(s->mu1) && std::isfinite(s->mu2), "latents not initialised");
    int x = ctx.g.range(-1000000, 1000000);
    PCHECK(ctx, d->nearest(x) == x, "nearest(%d) = %d", x, d->nearest(x));
  } else if (which == 2) {
    PCHECK(ctx, spec.observation_type == ObservationEnum::string_type, "observation type");
    auto d = take<std::string>(ctx, get_prior(spec, &prng));
    auto* a = dynamic_cast<DistributionAdapter<double>*>(d.get());
    PCHECK(ctx, a && dynamic_cast<Normal*>(a->d), "kind");
    Normal ref;
    int n = ctx.g.range(0, 6);
    for (int q = 0; q <= n; ++q) {
      double v = gen_real(ctx, 1e9);
      std::ostringstream os;
      int style = ctx.g.draw(4);
      if (style == 0) os << std::setprecision(17) << v;
      else if (style == 1) os << std::fixed << std::setprecision(3) << v;
      else if (style == 2) os << std::scientific << std::setprecision(10) << v;
      else os << (long long)v;
      std::string t = os.str();
      double want = std::strtod(t.c_str(), nullptr);
      ctx.note("%s\n", t.c_str());
      PCHECK(ctx, near(d->logp(t), ref.logp(want), 1e-6), "logp(%s) = %.12g, the number's is %.12g", t.c_str(),
             d->logp(t), ref.logp(want));
      d->incorporate(t);
      ref.incorporate(want);
      PCHECK(ctx, near(d->logp_score(), ref.logp_score(), 1e-6), "score after %s: %.12g, want %.12g", t.c_str(),
             d->logp_score(), ref.logp_score());
      PCHECK(ctx, d->nearest(t) == t, "nearest");
    }
    std::mt19937 p1(seed), p2(seed);
    std::string s = d->sample(&p1);
    double r = ref.sample(&p2);
    PCHECK(ctx, near(std::strtod(s.c_str(), nullptr), r, 1e-5), "sample %s, the wrapped distribution gives %.12g", s.c_str(), r);
  } else {
    PCHECK(ctx, spec.observation_type == ObservationEnum::string_type, "observation type");
    auto d = take<std::string>(ctx, get_prior(spec, &prng));
    auto* a = dynamic_cast<DistributionAdapter<int>*>(d.get());
    PCHECK(ctx, a, "kind");
    auto* s = dynamic_cast<Skellam*>(a->d);
    PCHECK(ctx, s, "kind of the wrapped distribution");
    PCHECK(ctx, s->mu1 > 0 && s->mu2 > 0 && std::isfinite(s->mu1) && std::isfinite(s->mu2), "latents not initialised");
    s->mu1 = ctx.g.log_uniform(0.1, 30);
    s->mu2 = ctx.g.log_uniform(0.1, 30);
    Skellam ref;
    ref.mu1 = s->mu1, ref.mu2 = s->mu2;
    for (int q = 0; q < 4; ++q) {
      int v = ctx.g.range(-25, 25);
      std::string t = std::to_string(v);
      if (v >= 0 && ctx.g.chance(1, 5)) t = "+" + t;
      else if (ctx.g.chance(1, 5)) t = " " + t;
      PCHECK(ctx, near(d->logp(t), ref.logp(v)), "logp(%s) = %.12g, the number's is %.12g", show(t).c_str(), d->logp(t), ref.logp(v));
      d->incorporate(t);
      ref.incorporate(v);
      PCHECK(ctx, near(d->logp_score(), ref.logp_score()), "score after %s", t.c_str());
    }
    std::mt19937 p1(seed), p2(seed);
    std::string st = d->sample(&p1);
    int r = ref.sample(&p2);
    PCHECK(ctx, st == std::to_string(r), "sample %s, the wrapped distribution gives %d", st.c_str(), r);
  }
}

PROPERTY("emissions", 1000, 10000) {
  int which = ctx.g.draw(6);
  static const char* names[] = {"bigram", "gaussian", "simple_string", "sometimes_bitflip", "sometimes_categorical",
                                "sometimes_gaussian"};
  std::map<std::string, std::string> args;
  int k = ctx.g.chance(1, 4) ? (int)ctx.g.range(1, 300) : (int)ctx.g.range(1, 12);
  if (which == 4) args["k"] = std::to_string(k);
  ctx.note("emission %s k=%d\n", names[which], k);
  EmissionSpec spec(names[which], args);
  std::mt19937 prng(ctx.g.seed32());
  EmissionVariant v = get_prior(spec, &prng);
  ctx.nontrivial();
  auto type = spec.observation_type;
  auto check_kind = [&](auto* p, bool ok, ObservationEnum want) {
    std::unique_ptr<std::remove_pointer_t<decltype(p)>> own(p);
    PCHECK(ctx, type == want, "observation type");
    PCHECK(ctx, ok, "kind");
  };
  switch (which) {
    case 0: case 2: {
      PCHECK(ctx, std::holds_alternative<Emission<std::string>*>(v), "wrong value type");
      auto* p = std::get<Emission<std::string>*>(v);
      check_kind(p, which == 0 ? dynamic_cast<BigramStringEmission*>(p) != nullptr
                               : dynamic_cast<SimpleStringEmission*>(p) != nullptr, ObservationEnum::string_type);
      break;
    }
    case 1: case 5: {
      PCHECK(ctx, std::holds_alternative<Emission<double>*>(v), "wrong value type");
      auto* p = std::get<Emission<double>*>(v);
      if (which == 5) {
        auto* s = dynamic_cast<Sometimes<double>*>(p);
        PCHECK(ctx, s && dynamic_cast<GaussianEmission*>(s->be), "kind");
        check_kind(p, true, ObservationEnum::double_type);
      } else {
        check_kind(p, dynamic_cast<GaussianEmission*>(p) != nullptr, ObservationEnum::double_type);
      }
      break;
    }
    case 3: {
      PCHECK(ctx, std::holds_alternative<Emission<bool>*>(v), "wrong value type");
      auto* p = std::get<Emission<bool>*>(v);
      auto* s = dynamic_cast<Sometimes<bool>*>(p);
      PCHECK(ctx, s && dynamic_cast<BitFlip*>(s->be), "kind");
      check_kind(p, true, ObservationEnum::bool_type);
      break;
    }
    case 4: {
      PCHECK(ctx, std::holds_alternative<Emission<int>*>(v), "wrong value type");
      auto* p = std::get<Emission<int>*>(v);
      auto* s = dynamic_cast<Sometimes<int>*>(p);
      PCHECK(ctx, s && dynamic_cast<CategoricalEmission*>(s->be), "kind");
      // k categories: given any clean value, the k dirty values share all
      // the probability.
      int c = ctx.g.range(0, k - 1);
      double tot = 0;
      for (int x = 0; x < k; ++x) tot += std::exp(p->logp({c, x}));
      PCHECK(ctx, near(tot, 1), "the %d values have total probability %.12g given %d", k, tot, c);
      check_kind(p, true, ObservationEnum::int_type);
      break;
    }
  }
}

PROPERTY("unknown", 150, 1500) {
  // An unknown name is refused, never taken for something else.
  static const std::vector<std::string> known_d = {"bernoulli", "bigram", "categorical", "normal", "skellam",
      "stringcat", "string_nat", "string_normal", "string_skellam"};
  static const std::vector<std::string> known_e = {"bigram", "gaussian", "simple_string", "sometimes_bitflip",
      "sometimes_categorical", "sometimes_gaussian"};
  bool em = ctx.g.coin();
  auto& known = em ? known_e : known_d;
  std::string name = known[ctx.g.draw(known.size())];
  int op = ctx.g.draw(5);
  if (op == 0) name += 'a' + ctx.g.draw(26);
  else if (op == 1) name.pop_back();
  else if (op == 2) name[ctx.g.draw(name.size())] ^= 1 + ctx.g.draw(7);
  else if (op == 3) name[0] = std::toupper(name[0]);
  else name = "";
  if (std::find(known.begin(), known.end(), name) != known.end() || name.find('(') != std::string::npos) throw Discard{};
  ctx.note("%s %s\n", em ? "emission" : "distribution", show(name).c_str());
  ctx.nontrivial();
  Isolated r = isolated([&](std::string&) {
    if (em) EmissionSpec s(name);
    else DistributionSpec s(name);
  });
  PCHECK(ctx, !r.returned && r.sig == 0 && r.status == 1, "unknown name: %s",
         r.returned ? "accepted" : fmt("status %d signal %d %s", r.status, r.sig, r.out.c_str()).c_str());
}

PBT_MAIN("a case is non-trivial when the specification has parameters whose effect is observable in the case: at least two "
         "strings, a query value that nearest() has to change, or a kind whose values are compared with the named one")
