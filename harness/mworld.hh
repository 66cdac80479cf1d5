// Generated histories over a whole model (IRM or HIRM), with a reference state.
#pragma once
#include "world.hh"

template <class M>
struct ModelWorld {
  static constexpr bool kH = std::is_same_v<M, HIRM>;
  Ctx& ctx;
  std::vector<RelInfo> rels;
  std::set<std::string> live;
  std::unique_ptr<M> m;
  Shadow sh;
  std::mt19937 prng, other{7};
  int universe;
  std::set<std::string> did;
  bool inferred = false;

  ModelWorld(Ctx& c, const SchemaOpts& o, int universe, bool all_live = false) : ctx(c), universe(universe) {
    prng.seed(ctx.g.seed32());
    rels = gen_schema(ctx, o);
    T_schema s;
    for (auto& r : rels) {
      bool in = all_live || ((!r.noisy || live.contains(r.base)) && !ctx.g.chance(1, 5));
      if (in) {
        live.insert(r.name);
        s[r.name] = to_trelation(r);
      }
      ctx.note("%s%s", in ? "" : "later: ", show_rel(r).c_str());
      ctx.label((r.noisy ? "noise " : "clean ") + r.dist);
      if (r.noisy && r.name < r.base) ctx.label("noisy sorts before base");
      if (r.noisy && info(r.base).noisy) ctx.label("chain");
      std::set<std::string> ds(r.doms.begin(), r.doms.end());
      if (ds.size() < r.doms.size()) ctx.label("repeated domain");
    }
    if constexpr (kH)
      m.reset(new HIRM(s, &prng));
    else
      m.reset(new IRM(s));
    for (auto& n : live) sh[n];
  }

  const RelInfo& info(const std::string& n) { return info_of(rels, n); }
  RelationVariant get(const std::string& n) { return m->get_relation(n); }

  template <class F>
  void at(const RelInfo& r, F f) {
    with_type(r.type, [&](auto* tp) {
      using T = std::remove_pointer_t<decltype(tp)>;
      f(rel_ptr<T>(ctx, get(r.name), r.name), tp);
    });
  }

  void check(const std::string& after) {
    try {
      if constexpr (kH)
        check_hirm(ctx, m.get(), rels, live, sh, &other);
      else
        check_irm(ctx, m.get(), rels, live, sh, [&](const std::string& n) { return m->get_relation(n); }, &other);
    } catch (pbt::Fail& f) {
      throw pbt::Fail{"after " + after + ": " + f.msg};
    }
    did.insert(after);
  }

  std::vector<const RelInfo*> live_rels() {
    std::vector<const RelInfo*> v;
    for (auto& r : rels)
      if (live.contains(r.name)) v.push_back(&r);
    return v;
  }
  bool has_live_noise(const std::string& n) {
    for (auto* q : live_rels())
      if (q->noisy && q->base == n) return true;
    return false;
  }
  bool has_dependents(const RelInfo& r, const T_items& items) {
    for (auto* q : live_rels())
      if (q->noisy && q->base == r.name)
        for (auto& [i, v] : sh[q->name])
          if (std::equal(items.begin(), items.end(), i.begin())) return true;
    return false;
  }
  T_items gen_items(const RelInfo& r) {
    T_items i;
    for (size_t a = 0; a < r.doms.size(); ++a) i.push_back(ctx.g.draw(universe));
    if (i.size() > 1 && ctx.g.chance(1, 4)) i[1] = i[0];
    return i;
  }
  void add(const RelInfo& r, const T_items& items) {
    if (sh[r.name].contains(items)) return;
    if (r.noisy) {
      T_items b(items.begin(), items.begin() + r.base_arity);
      if (!sh[r.base].contains(b)) add(info(r.base), b);
    }
    Val v = gen_rel_value(ctx, r);
    ctx.note("add %s%s = %s\n", r.name.c_str(), ishow(items).c_str(), show(v).c_str());
    m->incorporate(&prng, r.name, items, to_ov(v));
    sh[r.name][items] = v;
  }
  void populate(int n) {
    auto l = live_rels();
    if (l.empty()) return;
    for (int i = 0; i < n; ++i) {
      const RelInfo& r = *l[ctx.g.draw(l.size())];
      add(r, gen_items(r));
    }
  }
  void refresh_latents() {
    ctx.resampled_reals = true;
    for (auto* r : live_rels())
      if (!r->observed && has_live_noise(r->name)) {
        refresh(ctx, m.get(), *r, sh);
        for (auto& [i, v] : sh[r->name])
          PCHECK(ctx, in_support(*r, v), "the true value %s of %s%s is impossible", show(v).c_str(), r->name.c_str(), ishow(i).c_str());
      }
  }
  void add_relation(const RelInfo& r) {
    ctx.note("add relation %s\n", r.name.c_str());
    auto t = to_trelation(r);
    if constexpr (kH)
      m->add_relation(&prng, r.name, t);
    else
      std::visit([&](auto& x) { m->add_relation(r.name, x); }, t);
    live.insert(r.name);
    sh[r.name];
  }
  void remove_relation(const RelInfo& r) {
    ctx.note("remove relation %s\n", r.name.c_str());
    m->remove_relation(r.name);
    live.erase(r.name);
    sh.erase(r.name);
  }

  std::vector<std::string> sorted_domains(IRM* irm) {
    std::vector<std::string> ds;
    for (auto& [d, dom] : irm->domains) ds.push_back(d);
    std::sort(ds.begin(), ds.end());
    return ds;
  }

  // Entity moves inside one IRM.
  void entity_moves(IRM* irm) {
    auto ds = sorted_domains(irm);
    if (ds.empty()) return;
    switch (ctx.g.draw(3)) {
      case 0: {
        std::string d = ds[ctx.g.draw(ds.size())];
        auto& items = irm->domains.at(d)->items;
        if (items.empty()) return;
        std::vector<int> v(items.begin(), items.end());
        std::sort(v.begin(), v.end());
        int e = v[ctx.g.draw(v.size())];
        ctx.note("regroup entity %d of %s\n", e, d.c_str());
        irm->transition_cluster_assignment_item(&prng, d, e);
        break;
      }
      case 1: {
        std::vector<std::string> some;
        for (auto& d : ds)
          if (ctx.g.coin()) some.push_back(d);
        ctx.note("regroup the entities of %zu domains\n", some.size());
        irm->transition_cluster_assignments(&prng, some);
        break;
      }
      default:
        ctx.note("regroup all entities\n");
        irm->transition_cluster_assignments_all(&prng);
    }
    inferred = true;
    check("regrouping entities");
  }

  bool pick_obs(const RelInfo& r, T_items* items) {
    auto& mm = sh[r.name];
    if (mm.empty()) return false;
    auto it = mm.begin();
    std::advance(it, ctx.g.draw(mm.size()));
    *items = it->first;
    return true;
  }

  // One random operation of the kinds common to both models.
  void common_step() {
    auto l = live_rels();
    if (l.empty() || ctx.g.chance(1, 12)) {
      for (auto& r : rels)
        if (!live.contains(r.name) && (!r.noisy || live.contains(r.base))) {
          add_relation(r);
          return check("adding a relation");
        }
      if (l.empty()) return;
    }
    const RelInfo& r = *l[ctx.g.draw(l.size())];
    T_items items;
    switch (ctx.g.weighted({10, 4, 1, 2})) {
      case 0: add(r, gen_items(r)); return check("adding an observation");
      case 1:
        if (!pick_obs(r, &items) || has_dependents(r, items)) return;
        ctx.note("remove %s%s\n", r.name.c_str(), ishow(items).c_str());
        m->unincorporate(r.name, items);
        sh[r.name].erase(items);
        return check("removing an observation");
      case 2:
        if (has_live_noise(r.name)) return;
        remove_relation(r);
        return check("removing a relation");
      case 3:
        for (auto* q : l)
          if (!q->observed && has_live_noise(q->name)) {
            ctx.note("re-estimate %s\n", q->name.c_str());
            m->transition_latent_values_relation(&prng, q->name);
            refresh_latents();
            inferred = true;
            return check("re-estimating latent values");
          }
    }
  }

  void finish() {
    size_t n = 0;
    for (auto& [r, mm] : sh) n += mm.size();
    if (inferred && n >= 3) ctx.nontrivial();
    for (auto& d : did) ctx.label(d);
  }
};
