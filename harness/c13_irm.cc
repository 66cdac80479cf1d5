// C13: single-model inference never loses data or desynchronises state.
#include "mworld.hh"
#include "reach.hh"

struct W : ModelWorld<IRM> {
  using ModelWorld<IRM>::ModelWorld;
  double t_total = 0;

  void latent_step(int n) {
    ctx.note("inference step (%d)\n", n);
    single_step_irm_inference(&prng, m.get(), t_total, false, n, true);
    refresh_latents();
    inferred = true;
    check("an inference step");
  }
  void step() {
    switch (ctx.g.weighted({14, 4, 2, 1})) {
      case 0: return common_step();
      case 1: return entity_moves(m.get());
      case 2: return latent_step(ctx.g.range(0, 2));
      case 3: {
        auto l = live_rels();
        if (l.empty()) return;
        const RelInfo& r = *l[ctx.g.draw(l.size())];
        ctx.note("update parameters of %s\n", r.name.c_str());
        at(r, [&](auto* rel, auto*) { rel->transition_cluster_hparams(&prng, 1); });
        for (auto& [d, dom] : m->domains) dom->crp.transition_alpha(&prng);
        return check("updating parameters");
      }
    }
  }
};

PROPERTY("irm/history", 6000, 150000) {
  SchemaOpts o;
  W w(ctx, o, ctx.g.range(2, 5));
  w.check("construction");
  int n = 0;
  while (ctx.g.more(20, n, 100)) ++n, w.step();
  w.finish();
}

// No noise: deeper histories of entities and relations coming and going.
PROPERTY("irm/clean", 4000, 100000) {
  SchemaOpts o;
  o.noisy = false;
  W w(ctx, o, ctx.g.range(2, 6));
  w.check("construction");
  int n = 0;
  while (ctx.g.more(35, n, 150)) ++n, w.step();
  w.finish();
}

// Chains of noise on noise.
PROPERTY("irm/chains", 2000, 50000) {
  SchemaOpts o;
  o.min_rel = 3;
  o.max_rel = 6;
  o.max_dom = 2;
  W w(ctx, o, ctx.g.range(2, 4));
  w.check("construction");
  w.populate(ctx.g.range(3, 12));
  w.check("adding observations");
  int n = 0;
  while (ctx.g.more(10, n, 60)) ++n, w.step();
  w.finish();
}

PROPERTY("irm/crowd", 30, 800) {
  SchemaOpts o;
  o.skellam = false;
  o.max_rel = 3;
  o.max_arity = 2;
  W w(ctx, o, ctx.g.range(10, 40));
  w.populate(ctx.g.range(100, 300));
  w.check("adding observations");
  for (int i = 0; i < 2; ++i) w.latent_step(1);
  for (int i = 0; i < 20; ++i) w.step();
  w.finish();
}

// Whole inference steps leave nothing out.
PROPERTY("irm/reach", 400, 8000) { Reach<IRM>(ctx).go(6000); }

// A parameter update reaches every component of a relation, whatever the groups
// are that it belongs to.
PROPERTY("parameters/everywhere", 4000, 100000) {
  std::mt19937 prng(ctx.g.seed32());
  std::vector<std::string> doms;
  for (int i = ctx.g.range(1, 3); i > 0; --i) doms.push_back(i > 1 ? "D" : "E");
  bool skellam = ctx.g.coin(), noise = ctx.g.coin();
  T_clean_relation base;
  base.domains = doms, base.distribution_spec = DistributionSpec(skellam ? "skellam" : "bernoulli"), base.is_observed = true;
  T_noisy_relation noisy;
  noisy.domains = doms, noisy.base_relation = "B", noisy.emission_spec = EmissionSpec("sometimes_bitflip"), noisy.is_observed = true;
  T_schema schema{{"B", base}};
  noise &= !skellam;
  if (noise) schema["N"] = noisy;
  IRM irm(schema);
  int entities = ctx.g.range(1, doms.size() == 1 ? 12 : 5), gap = ctx.g.range(1, 3);
  for (auto& [d, dom] : irm.domains)
    for (int e = 0; e < entities; ++e) dom->incorporate(&prng, e, e * gap);
  std::set<T_items> used;
  for (int k = ctx.g.range(1, 15); k > 0; --k) {
    T_items it;
    for (size_t j = 0; j < doms.size(); ++j) it.push_back(ctx.g.draw(entities));
    if (!used.insert(it).second) continue;
    if (skellam)
      irm.incorporate(&prng, "B", it, (int)ctx.g.range(-2, 2));
    else
      irm.incorporate(&prng, "B", it, (bool)ctx.g.coin());
    if (noise) irm.incorporate(&prng, "N", it, (bool)ctx.g.coin());
  }
  ctx.note("%s relation%s over %zu positions, %zu components, groups numbered by %d\n", skellam ? "skellam" : "bernoulli", noise ? " with noise" : "",
           doms.size(), used.size(), gap);
  int theta = skellam ? ctx.g.range(1, 3) : 1;
  std::map<std::string, std::vector<double>> start;
  std::set<std::string> pending;
  auto see = [&](const std::string& what, const std::vector<double>& now) {
    auto [i, fresh] = start.insert({what, now});
    if (fresh) pending.insert(what);
    if (i->second != now) pending.erase(what);
  };
  auto look = [&] {
    if (skellam) {
      for (auto& [z, c] : dynamic_cast<CleanRelation<int>*>(std::get<Relation<int>*>(irm.relations.at("B")))->clusters) {
        auto* s = dynamic_cast<Skellam*>(c);
        see("latent parameters of component " + ishow(z), s->store_latents());
        see("parameters of component " + ishow(z), {s->mean1, s->mean2, s->stddev1, s->stddev2});
      }
    } else {
      for (auto& [z, c] : dynamic_cast<CleanRelation<bool>*>(std::get<Relation<bool>*>(irm.relations.at("B")))->clusters) {
        auto* b = dynamic_cast<BetaBernoulli*>(c);
        see("parameters of component " + ishow(z), {b->alpha, b->beta});
      }
      if (noise)
        for (auto& [z, c] : dynamic_cast<NoisyRelation<bool>*>(std::get<Relation<bool>*>(irm.relations.at("N")))->emission_relation.clusters)
          if (auto* s = dynamic_cast<Sometimes<bool>*>(c)) see("parameters of noise component " + ishow(z), {s->bb.alpha, s->bb.beta});
    }
  };
  look();
  int steps = 0;
  for (; steps < 5000 && !pending.empty(); ++steps) {
    for (auto& [n, rel] : irm.relations) std::visit([&](auto* r) { r->transition_cluster_hparams(&prng, theta); }, rel);
    look();
  }
  std::string left;
  for (auto& p : pending) left += "; " + p;
  PCHECK(ctx, pending.empty(), "%d updates never changed%s", steps, left.c_str() + 1);
  if (used.size() > 2) ctx.nontrivial();
  ctx.label(steps > 100 ? "over 100 updates" : steps > 10 ? "over 10 updates" : "at most 10 updates");
}

PBT_MAIN("inference moved something (groups, parameters or latent values) and at least three observations were present; several components had to be reached")
