// C16: joint predictive probabilities are exact, symmetric and normalised.
#include "mworld.hh"

using Obs = std::tuple<std::string, T_items, Val>;

inline double lse(const std::vector<double>& v) {
  double m = -INFINITY;
  for (double x : v) m = std::max(m, x);
  if (m == -INFINITY) return m;
  double s = 0;
  for (double x : v) s += std::exp(x - m);
  return m + std::log(s);
}

// The log probability of value v in cell z, from scratch.
template <class V>
double cell_logp(CleanRelation<V>* rel, const std::map<T_items, V>& data, const std::vector<int>& z, const V& v, std::mt19937* prng) {
  std::unique_ptr<Distribution<V>> f(rel->make_new_distribution(prng));
  if (rel->clusters.contains(z)) copy_params<Distribution<V>>(f.get(), rel->clusters.at(z));
  for (auto& [i, x] : data)
    if (cell_of(rel->domains, i) == z) f->incorporate(x);
  double a = f->logp_score();
  f->incorporate(v);
  return f->logp_score() - a;
}

template <class M>
struct PW : ModelWorld<M> {
  using ModelWorld<M>::ModelWorld;
  Ctx& c() { return this->ctx; }

  IRM* irm_of(const std::string& r) {
    if constexpr (std::is_same_v<M, HIRM>)
      return this->m->relation_to_irm(r);
    else
      return this->m.get();
  }

  double value_logp(const RelInfo& r, const std::vector<int>& z, const Val& v, const Val* base = nullptr) {
    double out = 0;
    this->at(r, [&](auto* rel, auto* tp) {
      using T = std::remove_pointer_t<decltype(tp)>;
      if (!r.noisy) {
        std::map<T_items, T> d;
        for (auto& [i, x] : this->sh[r.name]) d[i] = std::get<T>(x);
        out = cell_logp<T>(dynamic_cast<CleanRelation<T>*>(rel), d, z, std::get<T>(v), &this->other);
      } else {
        std::map<T_items, std::pair<T, T>> d;
        for (auto& [i, x] : this->sh[r.name])
          d[i] = {std::get<T>(this->sh[r.base].at(T_items(i.begin(), i.begin() + r.base_arity))), std::get<T>(x)};
        out = cell_logp<std::pair<T, T>>(&dynamic_cast<NoisyRelation<T>*>(rel)->emission_relation, d, z, {std::get<T>(*base), std::get<T>(v)},
                                         &this->other);
      }
    });
    return out;
  }

  // Sum over the groups of unseen entities, by brute force.  Negative group
  // numbers are new groups.
  double brute(IRM* irm, const std::vector<Obs>& obs, size_t* unseen) {
    std::vector<std::pair<std::string, int>> free;
    for (auto& [n, items, v] : obs) {
      auto& r = this->info(n);
      for (size_t i = 0; i < items.size(); ++i) {
        std::pair<std::string, int> p{r.doms[i], items[i]};
        if (!irm->domains.at(p.first)->items.contains(p.second) && !std::count(free.begin(), free.end(), p)) free.push_back(p);
      }
    }
    *unseen += free.size();
    std::vector<std::vector<std::pair<int, double>>> opt;
    double combos = 1;
    for (auto& [d, e] : free) {
      const CRP& crp = irm->domains.at(d)->crp;
      std::vector<std::pair<int, double>> o;
      double n = 0;
      for (auto& [t, s] : crp.tables) n += s.size();
      for (auto& [t, s] : crp.tables) o.push_back({t, std::log(s.size() / (n + crp.alpha))});
      o.push_back({-1, std::log(crp.alpha / (n + crp.alpha))});
      combos *= o.size();
      opt.push_back(o);
    }
    if (combos > 400) throw pbt::Discard{};
    std::vector<double> lps;
    std::vector<size_t> ix(free.size(), 0);
    std::map<std::tuple<std::string, std::vector<int>, std::string>, double> memo;
    while (true) {
      double lp = 0;
      std::map<std::pair<std::string, int>, int> group;
      for (size_t i = 0; i < free.size(); ++i) {
        lp += opt[i][ix[i]].second;
        group[free[i]] = opt[i][ix[i]].first;
      }
      for (auto& [n, items, v] : obs) {
        auto& r = this->info(n);
        std::vector<int> z;
        for (size_t i = 0; i < items.size(); ++i) {
          auto it = group.find({r.doms[i], items[i]});
          z.push_back(it != group.end() ? it->second : irm->domains.at(r.doms[i])->crp.assignments.at(items[i]));
        }
        auto key = std::make_tuple(n, z, show(v));
        if (!memo.contains(key)) memo[key] = value_logp(r, z, v);
        lp += memo[key];
      }
      lps.push_back(lp);
      size_t i = 0;
      while (i < ix.size() && ++ix[i] == opt[i].size()) ix[i++] = 0;
      if (i == ix.size()) break;
    }
    return lse(lps);
  }

  double ask(const std::vector<Obs>& obs) {
    std::vector<std::tuple<std::string, T_items, ObservationVariant>> o;
    for (auto& [n, i, v] : obs) o.push_back({n, i, to_ov(v)});
    return this->m->logp(o, &this->prng);
  }

  std::vector<const RelInfo*> clean() {
    std::vector<const RelInfo*> v;
    for (auto* r : this->live_rels())
      if (!r->noisy && r->root != "skellam") v.push_back(r);
    return v;
  }

  void run() {
    Ctx& ctx = this->ctx;
    auto cl = clean();
    if (cl.empty()) throw pbt::Discard{};
    int n = ctx.g.range(1, 4);
    std::vector<Obs> obs;
    std::set<std::pair<std::string, T_items>> seen;
    int saved = this->universe;
    this->universe += ctx.g.draw(3);
    for (int i = 0; i < n; ++i) {
      const RelInfo& r = *cl[ctx.g.draw(cl.size())];
      T_items items = this->gen_items(r);
      if (!seen.insert({r.name, items}).second || this->sh[r.name].contains(items)) continue;
      obs.push_back({r.name, items, gen_rel_value(ctx, r)});
      ctx.note("ask %s%s = %s\n", r.name.c_str(), ishow(items).c_str(), show(std::get<2>(obs.back())).c_str());
    }
    this->universe = saved;
    if (obs.empty()) throw pbt::Discard{};
    std::map<IRM*, std::vector<Obs>> by;
    for (auto& o : obs) by[irm_of(std::get<0>(o))].push_back(o);
    size_t unseen = 0;
    double want = 0;
    for (auto& [irm, o] : by) want += brute(irm, o, &unseen);
    double got = ask(obs);
    PCHECK(ctx, pbt::near(got, want, 1e-6, 5e-5), "the joint log probability is %.10g, the sum over groups gives %.10g", got, want);
    this->check("asking for a probability");
    std::vector<Obs> perm = obs;
    for (size_t k = perm.size(); k > 1; --k) std::swap(perm[k - 1], perm[ctx.g.draw(k)]);
    double again = ask(perm);
    PCHECK(ctx, pbt::near(got, again, 1e-9, 1e-8), "the log probability is %.12g, in another order %.12g", got, again);
    if (unseen && obs.size() > 1) ctx.nontrivial();
    ctx.label(unseen == 0 ? "all grouped" : unseen == 1 ? "one unseen" : "several unseen");
    // One observation: the relation alone says the same, and values sum to one.
    const auto& [rn, items, v] = obs[0];
    const RelInfo& r = this->info(rn);
    size_t u = 0;
    double w1 = brute(irm_of(rn), {obs[0]}, &u);
    double g1 = ask({obs[0]});
    PCHECK(ctx, pbt::near(g1, w1, 1e-6, 5e-5), "the log probability of %s%s is %.10g, expected %.10g", rn.c_str(), ishow(items).c_str(), g1, w1);
    this->at(r, [&](auto* rel, auto* tp) {
      using T = std::remove_pointer_t<decltype(tp)>;
      double rl = rel->logp(items, std::get<T>(v), &this->prng);
      PCHECK(ctx, pbt::near(rl, w1, 1e-6, 5e-5), "relation %s alone gives the log probability %.10g of %s, expected %.10g", rn.c_str(), rl,
             ishow(items).c_str(), w1);
    });
    std::vector<Val> values;
    if (r.type == 0) values = {false, true};
    if (r.root == "categorical")
      for (int k = 0; k < r.k; ++k) values.push_back(k);
    if (r.root == "stringcat")
      for (auto& s : r.strs) values.push_back(s);
    if (!values.empty()) {
      std::vector<double> lp;
      for (auto& x : values) lp.push_back(ask({{rn, items, x}}));
      PCHECK(ctx, pbt::near(lse(lp), 0, 0, 1e-6), "the probabilities of all values of %s%s sum to %.10g", rn.c_str(), ishow(items).c_str(),
             std::exp(lse(lp)));
      ctx.label("normalised");
    }
    if (u == 0) {
      double before = this->m->logp_score();
      this->m->incorporate(&this->prng, rn, items, to_ov(v));
      this->sh[rn][items] = v;
      double after = this->m->logp_score();
      PCHECK(ctx, pbt::near(after - before, g1, 1e-6, 5e-5), "adding %s%s = %s changes the score by %.10g, its log probability was %.10g", rn.c_str(),
             ishow(items).c_str(), show(v).c_str(), after - before, g1);
      this->check("adding the observation");
    }
    cells();
  }

  // An entity nobody has seen, at several positions of one relation: it is in
  // one group at all of them.
  void recurring() {
    Ctx& ctx = this->ctx;
    std::vector<const RelInfo*> wide;
    for (auto* r : clean())
      if (r->doms.size() >= 3) wide.push_back(r);
    if (wide.empty()) throw pbt::Discard{};
    const RelInfo& r = *wide[ctx.g.draw(wide.size())];
    int fresh = this->universe + 1;
    T_items items;
    int repeats = 0;
    for (size_t i = 0; i < r.doms.size(); ++i) {
      items.push_back(ctx.g.chance(2, 3) ? fresh + (int)ctx.g.draw(2) : (int)ctx.g.draw(this->universe));
      for (size_t j = 0; j < i; ++j) repeats += items[j] == items[i] && items[i] >= fresh && r.doms[j] == r.doms[i];
    }
    if (!repeats) throw pbt::Discard{};
    Val v = gen_rel_value(ctx, r);
    ctx.note("ask %s%s = %s\n", r.name.c_str(), ishow(items).c_str(), show(v).c_str());
    size_t u = 0;
    double want = brute(irm_of(r.name), {{r.name, items, v}}, &u);
    double joint = ask({{r.name, items, v}});
    PCHECK(ctx, pbt::near(joint, want, 1e-6, 5e-5), "the log probability of %s%s is %.10g, expected %.10g", r.name.c_str(), ishow(items).c_str(),
           joint, want);
    this->at(r, [&](auto* rel, auto* tp) {
      using T = std::remove_pointer_t<decltype(tp)>;
      double rl = rel->logp(items, std::get<T>(v), &this->prng);
      PCHECK(ctx, pbt::near(rl, want, 1e-6, 5e-5), "relation %s alone gives the log probability %.10g of %s, expected %.10g", r.name.c_str(), rl,
             ishow(items).c_str(), want);
    });
    ctx.nontrivial();
    ctx.label(repeats > 1 ? "several repeats" : "one repeat");
    this->check("asking for a probability");
  }

  // The probability at a cell for every relation, noisy ones given their base.
  void cells() {
    Ctx& ctx = this->ctx;
    for (auto* r : this->live_rels()) {
      if (r->root == "skellam" || (r->noisy && r->root == "categorical")) continue;
      T_items items = this->gen_items(*r);
      if (this->sh[r->name].contains(items)) continue;
      Val v = gen_rel_value(ctx, *r);
      IRM* irm = irm_of(r->name);
      bool grouped = true;
      std::vector<int> z;
      for (size_t i = 0; i < items.size(); ++i) {
        auto& a = irm->domains.at(r->doms[i])->crp.assignments;
        if (a.contains(items[i]))
          z.push_back(a.at(items[i]));
        else
          grouped = false, z.push_back(-1);
      }
      const Val* base = nullptr;
      if (r->noisy) {
        auto it = this->sh[r->base].find(T_items(items.begin(), items.begin() + r->base_arity));
        if (it != this->sh[r->base].end()) base = &it->second;
      }
      this->at(*r, [&](auto* rel, auto* tp) {
        using T = std::remove_pointer_t<decltype(tp)>;
        double got = rel->cluster_or_prior_logp_from_items(&this->prng, items, std::get<T>(v));
        if (r->noisy && !base) {
          PCHECK(ctx, got == -INFINITY, "%s%s has no true value, but log probability %.10g", r->name.c_str(), ishow(items).c_str(), got);
          return;
        }
        double want = value_logp(*r, z, v, base);
        // With no component, and for some noise models, the conditional is what
        // the component itself reports.
        if (r->noisy) {
          auto* n = dynamic_cast<NoisyRelation<T>*>(rel);
          std::unique_ptr<Distribution<std::pair<T, T>>> f(n->emission_relation.make_new_distribution(&this->other));
          const Distribution<std::pair<T, T>>* comp = f.get();
          if (grouped && n->emission_relation.clusters.contains(z)) comp = n->emission_relation.clusters.at(z);
          want = comp->logp({std::get<T>(*base), std::get<T>(v)});
        }
        PCHECK(ctx, pbt::near(got, want, 1e-6, 5e-5), "%s at %s: log probability %.10g, expected %.10g", r->name.c_str(), ishow(items).c_str(), got,
               want);
        if (r->noisy && grouped) {
          double all = rel->logp(items, std::get<T>(v), &this->prng);
          PCHECK(ctx, pbt::near(all, want, 1e-6, 5e-5), "noisy %s at %s: log probability %.10g, its cell gives %.10g", r->name.c_str(),
                 ishow(items).c_str(), all, want);
          ctx.label("noisy cell");
        }
      });
    }
    this->check("asking for cell probabilities");
  }
};

inline SchemaOpts opts() {
  SchemaOpts o;
  return o;
}

template <class M>
void go(Ctx& ctx, const SchemaOpts& o, bool recurring = false) {
  PW<M> w(ctx, o, ctx.g.range(1, 4), true);
  w.populate(ctx.g.draw(10));
  IRM* any = nullptr;
  if constexpr (std::is_same_v<M, HIRM>) {
    if (ctx.g.coin()) w.m->transition_cluster_assignments_all(&w.prng);
    for (auto& [t, irm] : w.m->irms) {
      any = irm;
      if (ctx.g.coin()) irm->transition_cluster_assignments_all(&w.prng);
    }
  } else {
    any = w.m.get();
    if (ctx.g.coin()) any->transition_cluster_assignments_all(&w.prng);
  }
  if (any)
    for (auto& [d, dom] : any->domains)
      if (ctx.g.chance(1, 3)) dom->crp.alpha = ctx.g.log_uniform(0.05, 20);
  if (ctx.g.chance(1, 3))
    for (auto* r : w.live_rels()) w.at(*r, [&](auto* rel, auto*) { rel->transition_cluster_hparams(&w.prng, 1); });
  w.check("preparation");
  if (recurring)
    w.recurring();
  else
    w.run();
}

PROPERTY("logp/irm", 12000, 200000) { go<IRM>(ctx, opts()); }
PROPERTY("logp/repeated", 8000, 150000) {
  SchemaOpts o = opts();
  o.max_dom = 1;
  o.max_rel = 2;
  go<IRM>(ctx, o);
}
PROPERTY("logp/hirm", 8000, 150000) {
  SchemaOpts o = opts();
  o.max_rel = 5;
  go<HIRM>(ctx, o);
}

PROPERTY("logp/recurring", 8000, 150000) {
  SchemaOpts o = opts();
  o.max_dom = 2;
  o.max_rel = 3;
  o.max_arity = 4;
  o.noisy = false;
  go<IRM>(ctx, o, true);
}

PBT_MAIN("two or more observations were asked for together and some of their entities were unseen, or one unseen entity fills several positions")
