// Generated relational models: schemas, data, and a from-scratch oracle for
// what a model's internal state has to be.
#pragma once
#include <algorithm>
#include <set>

#include "dists.hh"
#include "emissions/bigram_string.hh"
#include "emissions/bitflip.hh"
#include "emissions/categorical.hh"
#include "emissions/gaussian.hh"
#include "emissions/simple_string.hh"
#include "emissions/sometimes.hh"
#include "hirm.hh"
#include "irm.hh"

using pbt::Ctx;

struct RelInfo {
  std::string name;
  bool noisy = false;
  std::vector<std::string> doms;
  int type = 0;  // 0 bool, 1 int, 2 double, 3 string
  std::string dist;                          // distribution or noise name
  std::map<std::string, std::string> args;
  std::string base;                          // for noisy relations
  bool observed = true;
  // Support of the values.
  int k = 2;
  std::vector<std::string> strs;
  std::string root;  // name of the distribution at the bottom of the chain
  size_t base_arity = 0;
};

struct SchemaOpts {
  int max_rel = 4, max_dom = 3, max_arity = 3;
  bool noisy = true, repeats = true, skellam = true, bigram_noise = true, cat_noise = true, chains = true;
  bool strings = true;
  int min_rel = 1;
};

inline std::string gen_name(Ctx& ctx, const std::string& tag, std::set<std::string>& used) {
  static const char* heads[] = {"a", "b", "m", "z", "R", "Z", "A", "aa", "q_1", "_x"};
  for (int t = 0;; ++t) {
    std::string n = std::string(heads[ctx.g.draw(10)]) + tag + (t ? std::to_string(t) : "");
    if (used.insert(n).second) return n;
  }
}

inline void gen_clean(Ctx& ctx, RelInfo& r, const SchemaOpts& o) {
  static const char* names[] = {"bernoulli", "categorical", "normal", "bigram", "skellam", "stringcat", "string_nat"};
  int w = ctx.g.weighted({4, 3, 2, o.strings ? 2 : 0, o.skellam ? 1 : 0, o.strings ? 2 : 0, o.strings ? 1 : 0});
  r.dist = r.root = names[w];
  switch (w) {
    case 0: r.type = 0; break;
    case 1:
      r.type = 1;
      r.k = ctx.g.range(1, 5);
      r.args["k"] = std::to_string(r.k);
      break;
    case 2: r.type = 2; break;
    case 3:
      r.type = 3;
      if (ctx.g.coin()) r.args["maxlength"] = std::to_string(6 + ctx.g.draw(3));
      break;
    case 4: r.type = 1; break;
    case 5: {
      r.type = 3;
      static const char* pool[] = {"yes", "no", "maybe", "a b", "ab", "x"};
      int n = ctx.g.range(1, 5);
      for (int i = 0; i < n; ++i) r.strs.push_back(pool[i]);
      std::string j;
      for (auto& s : r.strs) j += (j.empty() ? "" : ":") + s;
      r.args["strings"] = j;
      r.args["delim"] = ":";
      break;
    }
    case 6:
      r.type = 3;
      r.args["maxlength"] = "7";
      break;
  }
}

inline std::vector<RelInfo> gen_schema(Ctx& ctx, const SchemaOpts& o) {
  std::set<std::string> used_d, used_r;
  std::vector<std::string> doms;
  int nd = ctx.g.range(1, o.max_dom);
  for (int i = 0; i < nd; ++i) doms.push_back(gen_name(ctx, "d", used_d));
  std::vector<RelInfo> rels;
  int n = ctx.g.range(o.min_rel, o.max_rel);
  for (int i = 0; i < n; ++i) {
    RelInfo r;
    r.name = gen_name(ctx, "r", used_r);
    std::vector<size_t> bases;
    for (size_t j = 0; j < rels.size(); ++j) {
      if (rels[j].noisy && !o.chains) continue;
      if (rels[j].root == "skellam") continue;
      if (rels[j].root == "categorical" && !o.cat_noise) continue;
      bases.push_back(j);
    }
    if (o.noisy && !bases.empty() && ctx.g.coin()) {
      const RelInfo& b = rels[bases[ctx.g.draw(bases.size())]];
      r.noisy = true;
      r.base = b.name;
      r.type = b.type;
      r.k = b.k;
      r.strs = b.strs;
      r.root = b.root;
      r.doms = b.doms;
      r.base_arity = b.doms.size();
      int extra = (int)r.doms.size() < o.max_arity ? ctx.g.weighted({3, 3, 1}) : 0;
      for (int e = 0; e < extra && (int)r.doms.size() < o.max_arity; ++e) {
        std::string d = doms[ctx.g.draw(doms.size())];
        if (!o.repeats && std::count(r.doms.begin(), r.doms.end(), d)) continue;
        r.doms.push_back(d);
      }
      switch (r.type) {
        case 0: r.dist = "sometimes_bitflip"; break;
        case 1:
          r.dist = "sometimes_categorical";
          r.args["k"] = std::to_string(r.k);
          break;
        case 2: r.dist = ctx.g.coin() ? "gaussian" : "sometimes_gaussian"; break;
        case 3: {
          // Aligning long strings takes long.
          const RelInfo* q = &b;
          for (size_t j = 0; j < rels.size() && q->noisy; ++j)
            for (auto& x : rels)
              if (x.name == q->base) {
                q = &x;
                break;
              }
          bool sh = q->dist != "bigram" || q->args.contains("maxlength");
          r.dist = ctx.g.coin() || !o.bigram_noise || !sh ? "simple_string" : "bigram";
          break;
        }
      }
    } else {
      int ar = (o.max_arity > 3 ? ctx.g.weighted({1, 2, 4, 2}) : ctx.g.weighted({3, 4, 2})) + 1;
      ar = std::min(ar, o.max_arity);
      for (int a = 0; a < ar; ++a) {
        std::string d = doms[ctx.g.draw(doms.size())];
        if (!o.repeats && std::count(r.doms.begin(), r.doms.end(), d)) continue;
        r.doms.push_back(d);
      }
      gen_clean(ctx, r, o);
    }
    rels.push_back(r);
  }
  // A relation that is the base of another may be observed or latent.
  for (auto& r : rels) {
    bool is_base = false;
    for (auto& q : rels) is_base |= q.noisy && q.base == r.name;
    r.observed = !is_base || ctx.g.chance(1, 3);
  }
  return rels;
}

inline std::string show_rel(const RelInfo& r) {
  std::string s = r.name + " ~ " + r.dist;
  if (!r.args.empty()) {
    s += "[";
    bool first = true;
    for (auto& [k, v] : r.args) {
      s += (first ? "" : ",") + k + "=" + v;
      first = false;
    }
    s += "]";
  }
  s += "(" + (r.noisy ? r.base + "; " : std::string());
  for (size_t i = 0; i < r.doms.size(); ++i) s += (i ? ", " : "") + r.doms[i];
  return s + ")" + (r.observed ? "" : " latent") + "\n";
}

inline T_relation to_trelation(const RelInfo& r) {
  if (r.noisy) {
    T_noisy_relation t;
    t.domains = r.doms;
    t.is_observed = r.observed;
    t.emission_spec = EmissionSpec(r.dist, r.args);
    t.base_relation = r.base;
    return t;
  }
  T_clean_relation t;
  t.domains = r.doms;
  t.is_observed = r.observed;
  t.distribution_spec = DistributionSpec(r.dist, r.args);
  return t;
}
inline T_schema to_schema(const std::vector<RelInfo>& rels) {
  T_schema s;
  for (auto& r : rels) s[r.name] = to_trelation(r);
  return s;
}

// A value in the support of the relation.
inline Val gen_rel_value(Ctx& ctx, const RelInfo& r) {
  switch (r.type) {
    case 0: return ctx.g.coin();
    case 1:
      if (r.root == "skellam") return (int)ctx.g.range(-6, 6);
      return (int)ctx.g.range(0, r.k - 1);
    case 2: return ctx.g.range(-24, 24) / 4.0;
    default: break;
  }
  if (!r.noisy) {
    if (!r.strs.empty()) return r.strs[ctx.g.draw(r.strs.size())];
    std::string s;
    bool nat = r.root == "string_nat";
    int L = ctx.g.range(0, 5);
    for (int i = 0; i < L; ++i) s += nat ? (char)('0' + ctx.g.draw(3)) : "abC ~"[ctx.g.draw(5)];
    return s;
  }
  std::string s;
  if (!r.strs.empty() && ctx.g.coin()) s = r.strs[ctx.g.draw(r.strs.size())];
  int L = ctx.g.range(0, 5);
  for (int i = 0; i < L; ++i) s += "ab0 !"[ctx.g.draw(5)];
  return s;
}

inline ObservationVariant to_ov(const Val& v) {
  return std::visit([](auto& x) { return ObservationVariant(x); }, v);
}

// Copies hyperparameters and latent parameters, not data.  False: this kind of
// component has no score that is a function of its data alone.
template <class D>
bool copy_params(D* to, const D* from) {
  auto* mf = const_cast<D*>(from);
  auto bern = [](BetaBernoulli& a, const BetaBernoulli& b) { a.alpha = b.alpha, a.beta = b.beta; };
  if constexpr (std::is_same_v<D, Distribution<bool>>) {
    if (auto* f = dynamic_cast<BetaBernoulli*>(mf)) {
      bern(*dynamic_cast<BetaBernoulli*>(to), *f);
      return true;
    }
  } else if constexpr (std::is_same_v<D, Distribution<int>>) {
    if (auto* f = dynamic_cast<DirichletCategorical*>(mf)) {
      dynamic_cast<DirichletCategorical*>(to)->alpha = f->alpha;
      return true;
    }
    if (auto* f = dynamic_cast<Skellam*>(mf)) {
      auto* t = dynamic_cast<Skellam*>(to);
      t->mean1 = f->mean1, t->stddev1 = f->stddev1, t->mean2 = f->mean2, t->stddev2 = f->stddev2;
      t->mu1 = f->mu1, t->mu2 = f->mu2;
      return true;
    }
  } else if constexpr (std::is_same_v<D, Distribution<double>>) {
    if (auto* f = dynamic_cast<Normal*>(mf)) {
      auto* t = dynamic_cast<Normal*>(to);
      t->r = f->r, t->v = f->v, t->m = f->m, t->s = f->s;
      return true;
    }
  } else if constexpr (std::is_same_v<D, Distribution<std::string>>) {
    if (auto* f = dynamic_cast<Bigram*>(mf)) {
      dynamic_cast<Bigram*>(to)->set_alpha(f->alpha);
      return true;
    }
    if (auto* f = dynamic_cast<StringCat*>(mf)) {
      dynamic_cast<StringCat*>(to)->dc.alpha = f->dc.alpha;
      return true;
    }
  } else if constexpr (std::is_same_v<D, Distribution<std::pair<bool, bool>>>) {
    if (auto* f = dynamic_cast<Sometimes<bool>*>(mf)) {
      bern(dynamic_cast<Sometimes<bool>*>(to)->bb, f->bb);
      return true;
    }
  } else if constexpr (std::is_same_v<D, Distribution<std::pair<double, double>>>) {
    if (auto* f = dynamic_cast<Sometimes<double>*>(mf)) {
      auto* t = dynamic_cast<Sometimes<double>*>(to);
      bern(t->bb, f->bb);
      auto &a = dynamic_cast<GaussianEmission*>(t->be)->zmn, &b = dynamic_cast<GaussianEmission*>(f->be)->zmn;
      a.alpha = b.alpha, a.beta = b.beta;
      return true;
    }
    if (auto* f = dynamic_cast<GaussianEmission*>(mf)) {
      auto* t = dynamic_cast<GaussianEmission*>(to);
      t->zmn.alpha = f->zmn.alpha, t->zmn.beta = f->zmn.beta;
      return true;
    }
  } else if constexpr (std::is_same_v<D, Distribution<std::pair<std::string, std::string>>>) {
    if (auto* f = dynamic_cast<SimpleStringEmission*>(mf)) {
      auto* t = dynamic_cast<SimpleStringEmission*>(to);
      bern(t->substitutions, f->substitutions);
      bern(t->insertions, f->insertions);
      bern(t->deletions, f->deletions);
      return true;
    }
    if (auto* f = dynamic_cast<BigramStringEmission*>(mf)) {
      auto* t = dynamic_cast<BigramStringEmission*>(to);
      for (size_t i = 0; i < f->insertions.size(); ++i) t->insertions[i].alpha = f->insertions[i].alpha;
      for (size_t i = 0; i < f->substitutions.size(); ++i) t->substitutions[i].alpha = f->substitutions[i].alpha;
      return true;
    }
  }
  return false;
}

template <class T>
std::string tshow(const T& v) {
  return show(Val(v));
}
template <class T>
std::string tshow(const std::pair<T, T>& v) {
  return tshow(v.first) + ">" + tshow(v.second);
}
inline std::string ishow(const std::vector<int>& v) {
  std::string s = "(";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + ")";
}

// Scores with large concentrations cancel to about this precision.
constexpr double kTol = 2e-5;

// Do two components that keep a variance hold the same data, up to rounding?
// Removing a large value from a sum of squares leaves its rounding behind.
template <class D>
bool same_statistics(Ctx& ctx, const D* a, const D* b) {
  double eps = ctx.resampled_reals ? 1e300 : 1e-6 + 1e-12 * ctx.largest * ctx.largest;
  auto close = [&](const ZeroMeanNormal& x, const ZeroMeanNormal& y) {
    return pbt::near(x.N, y.N, 1e-9, 1e-9) && pbt::near(x.var, y.var, 1e-9, eps);
  };
  if constexpr (std::is_same_v<D, Distribution<double>>) {
    auto *x = dynamic_cast<const Normal*>(a), *y = dynamic_cast<const Normal*>(b);
    return x && y && pbt::near(x->N, y->N, 1e-9, 1e-9) && pbt::near(x->mean, y->mean, 1e-9, eps) && pbt::near(x->var, y->var, 1e-9, eps);
  } else if constexpr (std::is_same_v<D, Distribution<std::pair<double, double>>>) {
    auto *x = dynamic_cast<const GaussianEmission*>(a), *y = dynamic_cast<const GaussianEmission*>(b);
    if (x && y) return close(x->zmn, y->zmn);
    auto *u = dynamic_cast<const Sometimes<double>*>(a), *v = dynamic_cast<const Sometimes<double>*>(b);
    return u && v && pbt::near(u->bb.N, v->bb.N, 1e-9, 1e-9) && pbt::near(u->bb.s, v->bb.s, 1e-9, 1e-7) &&
           close(dynamic_cast<const GaussianEmission*>(u->be)->zmn, dynamic_cast<const GaussianEmission*>(v->be)->zmn);
  }
  return false;
}

// Checks one component against the values it has to contain; returns its
// score (as it reports it).
template <class V>
double check_component(Ctx& ctx, const std::string& where, const CleanRelation<V>* rel,
                       const Distribution<V>* c, const std::vector<V>& vals, std::mt19937* prng) {
  PCHECK(ctx, pbt::near(c->N, (double)vals.size(), 1e-9, 1e-9), "%s holds total weight %.12g, its cell has %zu observations",
         where.c_str(), c->N, vals.size());
  double s = c->logp_score();
  PCHECK(ctx, !std::isnan(s), "%s: the score is NaN", where.c_str());
  std::unique_ptr<Distribution<V>> fresh(rel->make_new_distribution(prng));
  if (copy_params<Distribution<V>>(fresh.get(), c)) {
    for (const V v : vals) fresh->incorporate(v);
    double w = fresh->logp_score();
    std::string all;
    for (const V v : vals) all += " " + tshow(v);
    PCHECK(ctx, pbt::near(s, w, 1e-6, kTol) || same_statistics<Distribution<V>>(ctx, c, fresh.get()), "%s scores %.10g, a fresh component with the values%s scores %.10g", where.c_str(), s,
           all.c_str(), w);
  } else if constexpr (std::is_same_v<V, std::pair<int, int>>) {
    auto* sm = dynamic_cast<const Sometimes<int>*>(c);
    if (sm) {
      auto* ce = dynamic_cast<const CategoricalEmission*>(sm->be);
      PCHECK(ctx, pbt::near(sm->bb.N, (double)vals.size(), 1e-9, 1e-7), "%s: error indicator weight %.10g for %zu observations", where.c_str(),
             sm->bb.N, vals.size());
      if (ce) {
        double tot = 0;
        size_t k = ce->emission_dists.size();
        for (size_t a = 0; a < k; ++a)
          for (size_t b = 0; b < k; ++b) {
            double n = 0;
            for (const V v : vals) n += v.first == (int)a && v.second == (int)b;
            double got = ce->emission_dists[a].counts[b];
            tot += got;
            PCHECK(ctx, a == b ? got > -1e-7 && got < n + 1e-7 : pbt::near(got, n, 1e-9, 1e-7),
                   "%s: %.10g observations of %zu>%zu, expected %g", where.c_str(), got, a, b, n);
          }
        PCHECK(ctx, pbt::near(sm->bb.s, tot, 1e-9, 1e-6), "%s: %.10g errors, noise model holds %.10g", where.c_str(), sm->bb.s, tot);
      }
    }
  }
  return s;
}

using DomainMap = std::map<std::string, Domain*>;

// The cell of a tuple under the domains' current groups.
inline std::vector<int> cell_of(const std::vector<Domain*>& doms, const T_items& items) {
  std::vector<int> z;
  for (size_t i = 0; i < doms.size(); ++i) z.push_back(doms[i]->crp.assignments.at(items[i]));
  return z;
}

// Data, reverse index and components of a clean relation (or of the emission
// relation of a noisy one).  Returns the sum of the components' scores.
template <class V>
double check_cells(Ctx& ctx, const std::string& name, CleanRelation<V>* rel, const std::map<T_items, V>& want, std::mt19937* prng,
                   bool data_too = true) {
  if (data_too) {
    PCHECK(ctx, rel->data.size() == want.size(), "relation %s holds %zu observations, expected %zu", name.c_str(), rel->data.size(), want.size());
    for (auto& [items, v] : want) {
      auto it = rel->data.find(items);
      PCHECK(ctx, it != rel->data.end(), "relation %s lost the observation at %s", name.c_str(), ishow(items).c_str());
      PCHECK(ctx, it->second == v, "relation %s at %s holds %s, expected %s", name.c_str(), ishow(items).c_str(), tshow(it->second).c_str(),
             tshow(v).c_str());
    }
  }
  std::map<std::string, std::map<T_item, std::set<T_items>>> idx;
  for (auto* d : rel->domains) idx[d->name];
  for (auto& [items, v] : want)
    for (size_t i = 0; i < items.size(); ++i) idx[rel->domains[i]->name][items[i]].insert(items);
  const auto& r = rel->get_data_r();
  PCHECK(ctx, r.size() == idx.size(), "relation %s indexes %zu domains, expected %zu", name.c_str(), r.size(), idx.size());
  for (auto& [d, m] : idx) {
    PCHECK(ctx, r.contains(d), "relation %s has no index for domain %s", name.c_str(), d.c_str());
    PCHECK(ctx, r.at(d).size() == m.size(), "relation %s indexes %zu entities of %s, expected %zu", name.c_str(), r.at(d).size(), d.c_str(),
           m.size());
    for (auto& [item, s] : m) {
      PCHECK(ctx, r.at(d).contains(item), "relation %s does not index entity %d of %s", name.c_str(), item, d.c_str());
      std::set<T_items> got(r.at(d).at(item).begin(), r.at(d).at(item).end());
      PCHECK(ctx, got == s, "relation %s indexes wrong observations for entity %d of %s", name.c_str(), item, d.c_str());
    }
  }
  std::map<std::vector<int>, std::vector<V>> cells;
  for (auto& [items, v] : want) {
    for (size_t i = 0; i < items.size(); ++i)
      PCHECK(ctx, rel->domains[i]->items.contains(items[i]) && rel->domains[i]->crp.assignments.contains(items[i]),
             "entity %d of relation %s is not grouped in domain %s", items[i], name.c_str(), rel->domains[i]->name.c_str());
    cells[cell_of(rel->domains, items)].push_back(v);
  }
  for (auto& [z, c] : rel->clusters)
    PCHECK(ctx, cells.contains(z), "relation %s has a component for the empty cell %s", name.c_str(), ishow(z).c_str());
  double tot = 0;
  for (auto& [z, vals] : cells) {
    PCHECK(ctx, rel->clusters.contains(z), "relation %s has no component for the cell %s", name.c_str(), ishow(z).c_str());
    tot += check_component<V>(ctx, "relation " + name + " cell " + ishow(z), rel, rel->clusters.at(z), vals, prng);
  }
  return tot;
}

// What the data of every relation has to be.
using Shadow = std::map<std::string, std::map<T_items, Val>>;

template <class F>
auto with_type(int type, F f) {
  switch (type) {
    case 0: return f((bool*)nullptr);
    case 1: return f((int*)nullptr);
    case 2: return f((double*)nullptr);
    default: return f((std::string*)nullptr);
  }
}

template <class T>
Relation<T>* rel_ptr(Ctx& ctx, const RelationVariant& v, const std::string& name) {
  PCHECK(ctx, std::holds_alternative<Relation<T>*>(v), "relation %s has the wrong value type", name.c_str());
  return std::get<Relation<T>*>(v);
}

// Checks a relation completely; returns its score.
template <class T>
double check_relation(Ctx& ctx, const RelInfo& info, Relation<T>* rel, Relation<T>* base, const Shadow& sh, std::mt19937* prng) {
  std::map<T_items, T> want;
  auto it = sh.find(info.name);
  if (it != sh.end())
    for (auto& [i, v] : it->second) want[i] = std::get<T>(v);
  const auto& data = rel->get_data();
  PCHECK(ctx, data.size() == want.size(), "relation %s holds %zu observations, expected %zu", info.name.c_str(), data.size(), want.size());
  for (auto& [i, v] : want) {
    auto f = data.find(i);
    PCHECK(ctx, f != data.end(), "relation %s lost the observation at %s", info.name.c_str(), ishow(i).c_str());
    PCHECK(ctx, f->second == v, "relation %s at %s holds %s, expected %s", info.name.c_str(), ishow(i).c_str(), tshow(f->second).c_str(),
           tshow(v).c_str());
  }
  double tot;
  if (!info.noisy) {
    auto* c = dynamic_cast<CleanRelation<T>*>(rel);
    PCHECK(ctx, c, "relation %s is not a clean relation", info.name.c_str());
    tot = check_cells<T>(ctx, info.name, c, want, prng);
  } else {
    auto* c = dynamic_cast<NoisyRelation<T>*>(rel);
    PCHECK(ctx, c, "relation %s is not a noisy relation", info.name.c_str());
    PCHECK(ctx, c->base_relation == base, "relation %s does not point to the live base relation %s", info.name.c_str(), info.base.c_str());
    std::map<T_items, std::pair<T, T>> pairs;
    std::map<T_items, std::set<T_items>> under;
    const auto& bsh = sh.at(info.base);
    for (auto& [i, v] : want) {
      T_items b(i.begin(), i.begin() + info.base_arity);
      PCHECK(ctx, bsh.contains(b), "harness: no base value");
      pairs[i] = {std::get<T>(bsh.at(b)), v};
      under[b].insert(i);
    }
    tot = check_cells<std::pair<T, T>>(ctx, info.name + "/noise", &c->emission_relation, pairs, prng);
    std::map<T_items, std::set<T_items>> got;
    for (auto& [b, s] : c->base_to_noisy_items)
      if (!s.empty()) got[b] = std::set<T_items>(s.begin(), s.end());
    PCHECK(ctx, got == under, "relation %s: the index from true values to observations is wrong", info.name.c_str());
  }
  double s = rel->logp_score();
  PCHECK(ctx, std::isnan(tot) || pbt::near(s, tot, 1e-9, 1e-7), "relation %s reports the score %.12g, its components sum to %.12g", info.name.c_str(), s, tot);
  return tot;
}

inline double crp_score(const CRP& c) {
  double s = 0, n = 0;
  for (auto& [t, cust] : c.tables) {
    s += std::log(c.alpha) + std::lgamma((double)cust.size());
    n += cust.size();
  }
  return s + std::lgamma(c.alpha) - std::lgamma(n + c.alpha);
}
inline void check_crp(Ctx& ctx, const CRP& c, const std::string& what) {
  size_t n = 0;
  for (auto& [t, cust] : c.tables) {
    PCHECK(ctx, !cust.empty(), "%s: group %d is empty", what.c_str(), t);
    n += cust.size();
    for (auto i : cust)
      PCHECK(ctx, c.assignments.contains(i) && c.assignments.at(i) == t, "%s: %d is in group %d but not assigned to it", what.c_str(), i, t);
  }
  PCHECK(ctx, n == c.assignments.size() && n == (size_t)c.N, "%s: %zu seated, %zu assigned, count %d", what.c_str(), n, c.assignments.size(), c.N);
}

inline const RelInfo& info_of(const std::vector<RelInfo>& rels, const std::string& n) {
  for (auto& r : rels)
    if (r.name == n) return r;
  abort();
}

// Checks everything in an IRM that holds exactly the named relations.
// bases: where the base relations of noisy relations live.
inline double check_irm(Ctx& ctx, IRM* irm, const std::vector<RelInfo>& all, const std::set<std::string>& names, const Shadow& sh,
                        const std::function<RelationVariant(const std::string&)>& get, std::mt19937* prng) {
  std::set<std::string> got;
  for (auto& [n, r] : irm->relations) got.insert(n);
  PCHECK(ctx, got == names, "the model holds %zu relations, expected %zu", got.size(), names.size());
  got.clear();
  for (auto& [n, r] : irm->schema) got.insert(n);
  PCHECK(ctx, got == names, "the model's schema and its relations differ");
  std::map<std::string, std::set<T_item>> ents;
  std::map<std::string, std::set<std::string>> users;
  std::map<std::string, std::multiset<std::string>> noisies;
  double tot = 0;
  for (auto& n : names) {
    const RelInfo& r = info_of(all, n);
    for (size_t i = 0; i < r.doms.size(); ++i) {
      users[r.doms[i]].insert(n);
      ents[r.doms[i]];
      auto it = sh.find(n);
      if (it != sh.end())
        for (auto& [items, v] : it->second) ents[r.doms[i]].insert(items[i]);
    }
    if (r.noisy) noisies[r.base].insert(n);
  }
  PCHECK(ctx, irm->domains.size() == users.size(), "the model has %zu domains, expected %zu", irm->domains.size(), users.size());
  for (auto& [d, us] : users) {
    PCHECK(ctx, irm->domains.contains(d), "domain %s is missing", d.c_str());
    PCHECK(ctx, irm->domain_to_relations.contains(d), "domain %s has no list of relations", d.c_str());
    std::set<std::string> u(irm->domain_to_relations.at(d).begin(), irm->domain_to_relations.at(d).end());
    PCHECK(ctx, u == us, "domain %s lists the wrong relations", d.c_str());
    Domain* dom = irm->domains.at(d);
    std::set<T_item> items(dom->items.begin(), dom->items.end()), seated;
    for (auto& [i, t] : dom->crp.assignments) seated.insert(i);
    PCHECK(ctx, items == ents[d], "domain %s holds %zu entities, the data has %zu", d.c_str(), items.size(), ents[d].size());
    PCHECK(ctx, seated == items, "domain %s: grouped entities differ from its entities", d.c_str());
    check_crp(ctx, dom->crp, "domain " + d);
    tot += crp_score(dom->crp);
  }
  for (auto& [b, v] : irm->base_to_noisy_relations) {
    std::multiset<std::string> g(v.begin(), v.end());
    PCHECK(ctx, g == noisies[b], "base relation %s lists %zu noisy relations, expected %zu", b.c_str(), g.size(), noisies[b].size());
  }
  for (auto& [b, v] : noisies)
    PCHECK(ctx, v.empty() || irm->base_to_noisy_relations.contains(b), "base relation %s lists no noisy relations", b.c_str());
  for (auto& n : names) {
    const RelInfo& r = info_of(all, n);
    tot += with_type(r.type, [&](auto* tp) {
      using T = std::remove_pointer_t<decltype(tp)>;
      auto* rel = rel_ptr<T>(ctx, irm->relations.at(n), n);
      const auto& ds = rel->get_domains();
      PCHECK(ctx, ds.size() == r.doms.size(), "relation %s has arity %zu", n.c_str(), ds.size());
      for (size_t i = 0; i < ds.size(); ++i)
        PCHECK(ctx, ds[i] == irm->domains.at(r.doms[i]), "relation %s uses another object for domain %s", n.c_str(), r.doms[i].c_str());
      Relation<T>* base = r.noisy ? rel_ptr<T>(ctx, get(r.base), r.base) : nullptr;
      return check_relation<T>(ctx, r, rel, base, sh, prng);
    });
  }
  double s = irm->logp_score();
  PCHECK(ctx, std::isnan(tot) || pbt::near(s, tot, 1e-9, 1e-6), "the model's score is %.12g, its parts sum to %.12g", s, tot);
  return tot;
}

inline void check_hirm(Ctx& ctx, HIRM* h, const std::vector<RelInfo>& all, const std::set<std::string>& names, const Shadow& sh,
                       std::mt19937* prng) {
  check_crp(ctx, h->crp, "relation partition");
  std::set<std::string> got;
  for (auto& [n, c] : h->relation_to_code) {
    got.insert(n);
    PCHECK(ctx, h->code_to_relation.contains(c) && h->code_to_relation.at(c) == n, "relation %s: the codes do not invert", n.c_str());
    PCHECK(ctx, h->crp.assignments.contains(c), "relation %s is in no group", n.c_str());
  }
  PCHECK(ctx, got == names, "the model has %zu relations, expected %zu", got.size(), names.size());
  PCHECK(ctx, h->code_to_relation.size() == names.size() && h->crp.assignments.size() == names.size(), "relation codes out of step");
  got.clear();
  for (auto& [n, s] : h->schema) got.insert(n);
  PCHECK(ctx, got == names, "schema and relations differ");
  std::map<int, std::set<std::string>> groups;
  for (auto& n : names) groups[h->crp.assignments.at(h->relation_to_code.at(n))].insert(n);
  PCHECK(ctx, h->irms.size() == groups.size(), "%zu models for %zu groups of relations", h->irms.size(), groups.size());
  std::map<std::string, std::multiset<std::string>> noisies;
  for (auto& n : names) {
    const RelInfo& r = info_of(all, n);
    if (r.noisy) noisies[r.base].insert(n);
  }
  for (auto& [b, v] : h->base_to_noisy_relations) {
    std::multiset<std::string> g(v.begin(), v.end());
    PCHECK(ctx, g == noisies[b], "base relation %s lists %zu noisy relations, expected %zu", b.c_str(), g.size(), noisies[b].size());
  }
  for (auto& [b, v] : noisies)
    PCHECK(ctx, v.empty() || h->base_to_noisy_relations.contains(b), "base relation %s lists no noisy relations", b.c_str());
  auto get = [&](const std::string& n) { return h->get_relation(n); };
  double tot = crp_score(h->crp);
  for (auto& [t, g] : groups) {
    PCHECK(ctx, h->irms.contains(t), "no model for group %d", t);
    tot += check_irm(ctx, h->irms.at(t), all, g, sh, get, prng);
  }
  double s = h->logp_score();
  PCHECK(ctx, std::isnan(tot) || pbt::near(s, tot, 1e-9, 1e-6), "the model's score is %.12g, its parts sum to %.12g", s, tot);
}

// Copies the current data of a latent relation into the shadow.
template <class M>
void refresh(Ctx& ctx, M* m, const RelInfo& r, Shadow& sh) {
  with_type(r.type, [&](auto* tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    auto* rel = rel_ptr<T>(ctx, m->get_relation(r.name), r.name);
    auto& s = sh[r.name];
    std::map<T_items, Val> now;
    for (auto& [i, v] : rel->get_data()) {
      now[i] = Val(T(v));
      if constexpr (std::is_same_v<T, double>) ctx.largest = std::max(ctx.largest, std::fabs(v));
    }
    PCHECK(ctx, now.size() == s.size(), "latent relation %s changed its cells", r.name.c_str());
    for (auto& [i, v] : now) PCHECK(ctx, s.contains(i), "latent relation %s changed its cells", r.name.c_str());
    s = now;
  });
}

// Is v a value the relation's base distribution can have?
inline bool in_support(const RelInfo& r, const Val& v) {
  if (r.noisy) return true;
  if (r.type == 1 && r.root == "categorical") return std::get<int>(v) >= 0 && std::get<int>(v) < r.k;
  if (r.type == 3) {
    const std::string& s = std::get<std::string>(v);
    if (r.root == "stringcat") return std::count(r.strs.begin(), r.strs.end(), s) > 0;
    size_t maxl = r.args.contains("maxlength") ? std::stoul(r.args.at("maxlength")) : 80;
    if (maxl && s.size() > maxl) return false;
    for (char c : s)
      if (r.root == "string_nat" ? (c < '0' || c > '9') : (c < ' ' || c > '~')) return false;
  }
  if (r.type == 2) return std::isfinite(std::get<double>(v));
  return true;
}
