#pragma once
#include "world.hh"

// Relations over shared domains, driven at the level of the relation's own
// interface.  An IRM only owns the objects; none of its operations is used.
struct World {
  Ctx& ctx;
  std::vector<RelInfo> rels;
  IRM irm;
  Shadow sh;
  std::mt19937 prng, other{7};
  int universe;
  bool moved = false, removed = false, noisy = false;

  World(Ctx& c, const SchemaOpts& o, int universe) : ctx(c), irm(T_schema{}), universe(universe) {
    prng.seed(ctx.g.seed32());
    rels = gen_schema(ctx, o);
    for (auto& r : rels) {
      ctx.note("%s", show_rel(r).c_str());
      std::visit([&](auto t) { irm.add_relation(r.name, t); }, to_trelation(r));
      sh[r.name];
      if (r.noisy) noisy = true;
      ctx.label((r.noisy ? "noise " : "clean ") + r.dist);
    }
  }

  template <class F>
  void at(const RelInfo& r, F f) {
    with_type(r.type, [&](auto* tp) {
      using T = std::remove_pointer_t<decltype(tp)>;
      f(rel_ptr<T>(ctx, irm.relations.at(r.name), r.name), tp);
    });
  }

  void check(const char* after) {
    try {
      for (auto& r : rels)
        at(r, [&](auto* rel, auto* tp) {
          using T = std::remove_pointer_t<decltype(tp)>;
          Relation<T>* base = r.noisy ? rel_ptr<T>(ctx, irm.relations.at(r.base), r.base) : nullptr;
          check_relation<T>(ctx, r, rel, base, sh, &other);
        });
      for (auto& [d, dom] : irm.domains) check_crp(ctx, dom->crp, "domain " + d);
    } catch (pbt::Fail& f) {
      throw pbt::Fail{std::string("after ") + after + ": " + f.msg};
    }
  }

  bool has_dependents(const RelInfo& r, const T_items& items) {
    for (auto& q : rels)
      if (q.noisy && q.base == r.name)
        for (auto& [i, v] : sh[q.name])
          if (std::equal(items.begin(), items.end(), i.begin())) return true;
    return false;
  }

  T_items gen_items(const RelInfo& r) {
    T_items i;
    for (size_t a = 0; a < r.doms.size(); ++a) i.push_back(ctx.g.draw(universe));
    // Often on the diagonal, where a repeated domain matters.
    if (i.size() > 1 && ctx.g.chance(1, 4)) i[1] = i[0];
    return i;
  }

  void add(const RelInfo& r, const T_items& items, bool sample) {
    if (sh[r.name].contains(items)) return;
    if (r.noisy) {
      T_items b(items.begin(), items.begin() + r.base_arity);
      if (!sh[r.base].contains(b)) add(info_of(rels, r.base), b, sample);
    }
    at(r, [&](auto* rel, auto* tp) {
      using T = std::remove_pointer_t<decltype(tp)>;
      if (sample) {
        T v = rel->sample_and_incorporate(&prng, items);
        ctx.note("sample %s%s = %s\n", r.name.c_str(), ishow(items).c_str(), tshow(v).c_str());
        PCHECK(ctx, in_support(r, Val(v)), "sampled %s for %s", tshow(v).c_str(), r.name.c_str());
        sh[r.name][items] = v;
      } else {
        Val v = gen_rel_value(ctx, r);
        ctx.note("add %s%s = %s\n", r.name.c_str(), ishow(items).c_str(), show(v).c_str());
        rel->incorporate(&prng, items, std::get<T>(v));
        sh[r.name][items] = v;
      }
      PCHECK(ctx, rel->clusters_contains(items), "no component for the observation just added");
      for (size_t a = 0; a < items.size(); ++a)
        PCHECK(ctx, rel->has_observation(*irm.domains.at(r.doms[a]), items[a]), "entity %d has no observation", items[a]);
      PCHECK(ctx, rel->get_value(items) == std::get<T>(sh[r.name][items]), "wrong value read back");
    });
  }

  bool pick_obs(const RelInfo& r, T_items* items) {
    auto& m = sh[r.name];
    if (m.empty()) return false;
    auto it = m.begin();
    std::advance(it, ctx.g.draw(m.size()));
    *items = it->first;
    return true;
  }

  void step() {
    const RelInfo& r = rels[ctx.g.draw(rels.size())];
    T_items items;
    switch (ctx.g.weighted({8, 3, 4, 4, 6, 1, 2, 1, 2})) {
      case 0: add(r, gen_items(r), false); return check("adding an observation");
      case 1: add(r, gen_items(r), true); return check("sampling an observation");
      case 2:
        if (!pick_obs(r, &items) || has_dependents(r, items)) return;
        ctx.note("remove %s%s\n", r.name.c_str(), ishow(items).c_str());
        at(r, [&](auto* rel, auto*) { rel->unincorporate(items); });
        sh[r.name].erase(items);
        removed = true;
        return check("removing an observation");
      case 3: {
        if (!pick_obs(r, &items) || has_dependents(r, items)) return;
        Val v = gen_rel_value(ctx, r);
        ctx.note("update %s%s = %s\n", r.name.c_str(), ishow(items).c_str(), show(v).c_str());
        ctx.label(r.noisy ? "update noisy" : "update clean");
        at(r, [&](auto* rel, auto* tp) { rel->update_value(items, std::get<std::remove_pointer_t<decltype(tp)>>(v)); });
        sh[r.name][items] = v;
        return check("updating a value");
      }
      case 4: {
        auto it = irm.domains.begin();
        std::vector<std::string> ds;
        for (auto& [d, dom] : irm.domains) ds.push_back(d);
        std::sort(ds.begin(), ds.end());
        std::string d = ds[ctx.g.draw(ds.size())];
        Domain* dom = irm.domains.at(d);
        if (dom->items.empty()) return;
        std::vector<int> ents(dom->items.begin(), dom->items.end());
        std::sort(ents.begin(), ents.end());
        int e = ents[ctx.g.draw(ents.size())];
        std::vector<int> ts;
        for (auto& [t, w] : dom->tables_weights_gibbs(e)) ts.push_back(t);
        int t = ts[ctx.g.draw(ts.size())], cur = dom->get_cluster_assignment(e);
        if (t == cur) return;
        ctx.note("move entity %d of %s from group %d to %d\n", e, d.c_str(), cur, t);
        for (auto& q : rels)
          if (std::count(q.doms.begin(), q.doms.end(), d))
            at(q, [&](auto* rel, auto*) {
              if (rel->has_observation(*dom, e)) {
                rel->set_cluster_assignment_gibbs(*dom, e, t, &prng);
                moved = true;
              }
            });
        dom->set_cluster_assignment_gibbs(e, t);
        return check("moving an entity");
      }
      case 5: {
        int n = ctx.g.range(0, 2);
        ctx.note("update parameters of %s (%d)\n", r.name.c_str(), n);
        at(r, [&](auto* rel, auto*) { rel->transition_cluster_hparams(&prng, n); });
        return check("updating parameters");
      }
      case 6:
        if (!pick_obs(r, &items)) return;
        ctx.note("take out and put back %s%s\n", r.name.c_str(), ishow(items).c_str());
        at(r, [&](auto* rel, auto* tp) {
          auto v = rel->get_value(items);
          rel->unincorporate_from_cluster(items);
          rel->incorporate_to_cluster(items, v);
        });
        return check("taking a value out of its component and putting it back");
      case 7:
        ctx.note("clean up %s\n", r.name.c_str());
        at(r, [&](auto* rel, auto*) { rel->cleanup_clusters(); });
        return check("dropping empty components");
      case 8: {
        // The removal in three steps that the record model uses.
        if (!pick_obs(r, &items) || has_dependents(r, items)) return;
        ctx.note("remove %s%s in steps\n", r.name.c_str(), ishow(items).c_str());
        at(r, [&](auto* rel, auto*) {
          rel->unincorporate_from_cluster(items);
          rel->cleanup_data(items);
          rel->cleanup_clusters();
        });
        sh[r.name].erase(items);
        removed = true;
        return check("removing an observation in steps");
      }
    }
  }
  void finish() {
    size_t n = 0;
    for (auto& [r, m] : sh) n += m.size();
    if (moved && n >= 3) ctx.nontrivial();
    if (moved) ctx.label("moved");
    if (removed) ctx.label("removed");
    if (noisy) ctx.label("has noise");
    for (auto& r : rels) {
      std::set<std::string> s(r.doms.begin(), r.doms.end());
      if (s.size() < r.doms.size()) ctx.label("repeated domain");
    }
  }
};
