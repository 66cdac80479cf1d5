// Inference reconsiders everything: over many whole steps on little data every
// entity, relation, latent value and parameter changes at some time.  Each
// change has a fair chance in every step, so one that never happens in
// hundreds of steps is one that inference leaves out.
#pragma once
#include "mworld.hh"

template <class M>
struct Reach {
  static constexpr bool kH = std::is_same_v<M, HIRM>;
  Ctx& ctx;
  std::unique_ptr<M> m;
  std::mt19937 prng;
  std::vector<RelInfo> rels;
  std::set<std::string> pending;
  std::map<std::string, std::string> first;
  int steps = 0;

  explicit Reach(Ctx& c) : ctx(c) { prng.seed(ctx.g.seed32()); }

  void change(const std::string& goal, const std::string& now) {
    auto [it, fresh] = first.insert({goal, now});
    if (fresh)
      pending.insert(goal);
    else if (it->second != now)
      pending.erase(goal);
  }
  void met(const std::string& goal, bool yes) {
    if (first.insert({goal, ""}).second) pending.insert(goal);
    if (yes) pending.erase(goal);
  }

  RelInfo clean(const std::string& n, std::vector<std::string> doms, bool observed) {
    RelInfo r;
    r.name = n, r.doms = doms, r.dist = r.root = "bernoulli", r.observed = observed;
    return r;
  }
  RelInfo noisy(const std::string& n, std::vector<std::string> doms, const RelInfo& b) {
    RelInfo r;
    r.name = n, r.doms = doms, r.dist = "sometimes_bitflip", r.root = "bernoulli", r.noisy = true, r.base = b.name, r.base_arity = b.doms.size();
    return r;
  }

  void build() {
    std::set<std::string> used;
    std::vector<std::string> doms;
    std::map<std::string, int> size;
    for (int i = ctx.g.range(1, 3); i > 0; --i) doms.push_back(gen_name(ctx, "D", used)), size[doms.back()] = ctx.g.range(2, 4);
    auto pick = [&] { return doms[ctx.g.draw(doms.size())]; };
    for (auto& d : doms) rels.push_back(clean(gen_name(ctx, "R", used), {d}, true));
    if (ctx.g.coin()) rels.push_back(clean(gen_name(ctx, "R", used), {pick(), pick()}, true));
    if (ctx.g.coin()) {
      RelInfo b = clean(gen_name(ctx, "R", used), {pick()}, false);
      rels.push_back(b);
      rels.push_back(noisy(gen_name(ctx, "N", used), b.doms, b));
      rels.push_back(noisy(gen_name(ctx, "N", used), {b.doms[0], pick()}, b));
    }
    for (auto& r : rels) ctx.note("%s", show_rel(r).c_str());
    T_schema s = to_schema(rels);
    if constexpr (kH)
      m.reset(new HIRM(s, &prng));
    else
      m.reset(new IRM(s));
    auto put = [&](const std::string& r, T_items i, bool v) {
      ctx.note("add %s%s = %d\n", r.c_str(), ishow(i).c_str(), (int)v);
      m->incorporate(&prng, r, i, v);
    };
    for (auto& r : rels) {
      if (!r.observed) continue;
      if (!r.noisy && r.doms.size() == 1) {
        for (int e = 0; e < size[r.doms[0]]; ++e) put(r.name, {e}, ctx.g.coin());
      } else if (!r.noisy) {
        T_items i{(int)ctx.g.draw(size[r.doms[0]]), (int)ctx.g.draw(size[r.doms[1]])};
        put(r.name, i, ctx.g.coin());
      }
    }
    for (size_t k = 0; k + 1 < rels.size(); ++k) {
      if (rels[k].observed) continue;
      // Observations that agree on the other value, which is then proposed.
      bool v = ctx.g.coin();
      const RelInfo &p = rels[k + 1], &q = rels[k + 2];
      put(rels[k].name, {0}, !v);
      put(p.name, {0}, v);
      put(q.name, {0, (int)ctx.g.draw(size[q.doms[1]])}, v);
    }
  }

  bool param_moved(IRM* irm, const std::string& n, bool noise) {
    bool yes = false;
    std::visit(
        [&](auto* rel) {
          using V = typename std::remove_pointer_t<decltype(rel)>::ValueType;
          if constexpr (std::is_same_v<V, bool>) {
            auto look = [&](auto& clusters) {
              for (auto& [z, c] : clusters)
                if (auto* b = dynamic_cast<BetaBernoulli*>(c)) yes |= b->alpha != 1 || b->beta != 1;
            };
            if (noise) {
              // The corruption rate of the mixture.
              auto* nr = dynamic_cast<NoisyRelation<bool>*>(rel);
              for (auto& [z, c] : nr->emission_relation.clusters)
                if (auto* s = dynamic_cast<Sometimes<bool>*>(c)) yes |= s->bb.alpha != 1 || s->bb.beta != 1;
            } else {
              look(dynamic_cast<CleanRelation<bool>*>(rel)->clusters);
            }
          }
        },
        irm->relations.at(n));
    return yes;
  }

  void look() {
    if constexpr (kH) {
      bool all = m->irms.size() >= 2;
      for (auto& [t, irm] : m->irms)
        for (auto& [d, dom] : irm->domains)
          if (!dom->items.empty()) all &= dom->crp.alpha != 1;
      if (rels.size() >= 2) met("the concentrations of all groups of relations at once", all);
      for (auto& r : rels) {
        if (rels.size() >= 2) change("the group of relation " + r.name, std::to_string(m->relation_to_table(r.name)));
        met("the parameters of " + r.name, param_moved(m->relation_to_irm(r.name), r.name, r.noisy));
      }
    } else {
      for (auto& [d, dom] : m->domains) {
        if (dom->items.size() >= 2)
          for (int e : dom->items) change("the group of entity " + std::to_string(e) + " of " + d, std::to_string(dom->get_cluster_assignment(e)));
        change("the concentration of " + d, pbt::fmt("%.17g", dom->crp.alpha));
      }
      for (auto& r : rels) met("the parameters of " + r.name, param_moved(m.get(), r.name, r.noisy));
    }
    for (auto& r : rels)
      if (!r.observed) change("the unobserved value of " + r.name, std::get<Relation<bool>*>(m->get_relation(r.name))->get_value({0}) ? "1" : "0");
  }

  void go(int cap) {
    build();
    look();
    size_t goals = 0;
    while (steps < cap && (steps < 2 || !pending.empty())) {
      ++steps;
      if constexpr (kH) {
        inference_hirm(&prng, m.get(), 1, 0, false);
      } else {
        double t = 0;
        single_step_irm_inference(&prng, m.get(), t, false, 2, true);
      }
      look();
      goals = std::max(goals, pending.size());
    }
    std::string left;
    for (auto& p : pending) left += "; " + p;
    PCHECK(ctx, pending.empty(), "%d inference steps never changed%s", steps, left.c_str() + 1);
    if (goals || first.size() >= 3) ctx.nontrivial();
    ctx.label(steps > 5000 ? "over 5000 steps" : steps > 1000 ? "over 1000 steps" : steps > 100 ? "over 100 steps" : steps > 20 ? "over 20 steps" : "at most 20 steps");
  }
};
