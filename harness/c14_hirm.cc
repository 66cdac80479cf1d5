// C14: hierarchical inference keeps every relation, observation and base link.
#include "inference.hh"
#include "mworld.hh"
#include "reach.hh"

struct W : ModelWorld<HIRM> {
  using ModelWorld<HIRM>::ModelWorld;
  double t_total = 0;
  bool split = false;

  void note_groups() {
    if (m->irms.size() > 1) split = true;
  }

  void move_relation(const RelInfo& r) {
    std::vector<int> ts;
    int cur = m->relation_to_table(r.name);
    for (auto& [t, w] : m->crp.tables_weights_gibbs(cur)) ts.push_back(t);
    int t = ts[ctx.g.draw(ts.size())];
    if (t == cur) return;
    ctx.note("move relation %s from group %d to %d\n", r.name.c_str(), cur, t);
    m->set_cluster_assignment_gibbs(&prng, r.name, t);
    PCHECK(ctx, m->relation_to_table(r.name) == t, "relation %s is in group %d", r.name.c_str(), m->relation_to_table(r.name));
    note_groups();
    check("moving a relation");
  }

  // Adds cells that a sampling operation was entitled to create.
  void accept_samples(const std::map<std::string, std::set<T_items>>& allowed, const std::map<std::string, std::set<T_items>>& required) {
    for (auto* r : live_rels()) {
      auto& s = sh[r->name];
      at(*r, [&](auto* rel, auto* tp) {
        using T = std::remove_pointer_t<decltype(tp)>;
        for (auto& [i, v] : rel->get_data()) {
          if (s.contains(i)) continue;
          auto a = allowed.find(r->name);
          PCHECK(ctx, a != allowed.end() && a->second.contains(i), "an unexpected observation of %s at %s appeared", r->name.c_str(),
                 ishow(i).c_str());
          PCHECK(ctx, in_support(*r, Val(T(v))), "sampled the impossible value %s of %s", tshow(T(v)).c_str(), r->name.c_str());
          s[i] = T(v);
        }
      });
      auto q = required.find(r->name);
      if (q != required.end())
        for (auto& i : q->second) PCHECK(ctx, s.contains(i), "no observation of %s at %s after sampling it", r->name.c_str(), ishow(i).c_str());
    }
  }
  void allow(const RelInfo& r, const T_items& i, std::map<std::string, std::set<T_items>>& allowed) {
    allowed[r.name].insert(i);
    if (r.noisy) allow(info(r.base), T_items(i.begin(), i.begin() + r.base_arity), allowed);
  }
  void check_text(const RelInfo& r, const T_items& i, const std::string& text) {
    Val v = sh[r.name].at(i);
    std::string want;
    if (r.type == 3) want = std::get<std::string>(v);
    if (r.type == 0) want = std::get<bool>(v) ? "1" : "0";
    if (r.type == 1) want = std::to_string(std::get<int>(v));
    if (r.type == 2) {
      double x = std::get<double>(v), y = strtod(text.c_str(), nullptr);
      PCHECK(ctx, pbt::near(x, y, 1e-4, 1e-12), "sampled %.17g for %s%s but reported %s", x, r.name.c_str(), ishow(i).c_str(), text.c_str());
      return;
    }
    PCHECK(ctx, want == text, "sampled %s for %s%s but reported %s", show(want).c_str(), r.name.c_str(), ishow(i).c_str(), show(text).c_str());
  }

  void sample_all(int n) {
    // With few entities left to invent, distinct cells take long to find.
    ctx.note("sample %d per leaf relation\n", n);
    std::map<std::string, std::map<T_item, bool>> known;
    auto obs = m->sample_and_incorporate(&prng, n);
    std::map<std::string, std::set<T_items>> allowed, required;
    std::set<std::string> leaves;
    for (auto* r : live_rels())
      if (!has_live_noise(r->name)) leaves.insert(r->name);
    for (auto& [name, v] : obs) {
      PCHECK(ctx, leaves.contains(name), "samples of the relation %s, which is not a leaf", name.c_str());
      PCHECK(ctx, (int)v.size() == n, "%zu samples of %s, asked for %d", v.size(), name.c_str(), n);
      for (auto& [items, text] : v) {
        PCHECK(ctx, !sh[name].contains(items), "%s%s was sampled but already observed", name.c_str(), ishow(items).c_str());
        PCHECK(ctx, required[name].insert(items).second, "%s%s was sampled twice", name.c_str(), ishow(items).c_str());
        allow(info(name), items, allowed);
      }
    }
    if (n > 0) PCHECK(ctx, obs.size() == leaves.size(), "samples of %zu relations, there are %zu leaves", obs.size(), leaves.size());
    accept_samples(allowed, required);
    for (auto& [name, v] : obs)
      for (auto& [items, text] : v) check_text(info(name), items, text);
    check("sampling data");
  }

  void step() {
    auto l = live_rels();
    const RelInfo* r = l.empty() ? nullptr : l[ctx.g.draw(l.size())];
    switch (ctx.g.weighted({14, 5, 4, 3, 2, 2, 2, 1, 2})) {
      case 0: return common_step();
      case 1:
        if (r) move_relation(*r);
        return;
      case 2: {
        if (!r) return;
        int how = ctx.g.draw(3);
        if (how == 0) {
          ctx.note("regroup relation %s\n", r->name.c_str());
          m->transition_cluster_assignment_relation(&prng, r->name);
        } else if (how == 1) {
          std::vector<std::string> some;
          for (auto* q : l)
            if (ctx.g.coin()) some.push_back(q->name);
          ctx.note("regroup %zu relations\n", some.size());
          m->transition_cluster_assignments(&prng, some);
        } else {
          ctx.note("regroup all relations\n");
          m->transition_cluster_assignments_all(&prng);
        }
        inferred = true;
        note_groups();
        return check("regrouping relations");
      }
      case 3: {
        std::vector<int> ts;
        for (auto& [t, irm] : m->irms) ts.push_back(t);
        if (ts.empty()) return;
        std::sort(ts.begin(), ts.end());
        return entity_moves(m->irms.at(ts[ctx.g.draw(ts.size())]));
      }
      case 4:
        ctx.note("full inference\n");
        inference_hirm(&prng, m.get(), 1, 0, false);
        refresh_latents();
        inferred = true;
        note_groups();
        return check("an inference iteration");
      case 5: return sample_all(ctx.g.range(0, 2));
      case 6: {
        if (!r) return;
        T_items i = gen_items(*r);
        if (sh[r->name].contains(i)) return;
        ctx.note("sample %s%s\n", r->name.c_str(), ishow(i).c_str());
        std::string text = m->sample_and_incorporate_relation(&prng, r->name, i);
        std::map<std::string, std::set<T_items>> allowed;
        allow(*r, i, allowed);
        accept_samples(allowed, allowed);
        check_text(*r, i, text);
        return check("sampling one observation");
      }
      case 7:
        ctx.note("clean up\n");
        m->cleanup_relation_clusters();
        return check("dropping empty components");
      case 8: {
        std::vector<int> ts;
        for (auto& [t, irm] : m->irms) ts.push_back(t);
        if (ts.empty()) return;
        std::sort(ts.begin(), ts.end());
        ctx.note("inference step of one group\n");
        single_step_irm_inference(&prng, m->irms.at(ts[ctx.g.draw(ts.size())]), t_total, false, 1, false);
        inferred = true;
        return check("an inference step of one group");
      }
    }
  }
  void finish() {
    ModelWorld<HIRM>::finish();
    if (!split) ctx.is_nontrivial = false;
    if (split) ctx.label("several groups");
  }
};

PROPERTY("hirm/history", 5000, 120000) {
  SchemaOpts o;
  o.max_rel = 5;
  W w(ctx, o, ctx.g.range(2, 5));
  w.check("construction");
  int n = 0;
  while (ctx.g.more(20, n, 100)) ++n, w.step();
  w.finish();
}

PROPERTY("hirm/chains", 2500, 60000) {
  SchemaOpts o;
  o.min_rel = 3;
  o.max_rel = 6;
  o.max_dom = 2;
  W w(ctx, o, ctx.g.range(2, 4));
  w.check("construction");
  w.populate(ctx.g.range(2, 10));
  w.check("adding observations");
  int n = 0;
  while (ctx.g.more(14, n, 80)) ++n, w.step();
  w.finish();
}

PROPERTY("hirm/clean", 3000, 80000) {
  SchemaOpts o;
  o.noisy = false;
  o.max_rel = 5;
  W w(ctx, o, ctx.g.range(2, 5));
  w.check("construction");
  int n = 0;
  while (ctx.g.more(25, n, 120)) ++n, w.step();
  w.finish();
}

PROPERTY("hirm/crowd", 24, 600) {
  SchemaOpts o;
  o.skellam = false;
  o.max_arity = 2;
  W w(ctx, o, ctx.g.range(8, 25));
  w.populate(ctx.g.range(60, 200));
  w.check("adding observations");
  inference_hirm(&w.prng, w.m.get(), 1, 0, false);
  w.refresh_latents();
  w.inferred = true;
  w.check("an inference iteration");
  for (int i = 0; i < 15; ++i) w.step();
  w.finish();
}

// Whole inference iterations leave nothing out.
PROPERTY("hirm/reach", 300, 6000) { Reach<HIRM>(ctx).go(6000); }

PBT_MAIN("inference moved something, several groups of relations existed at some point, and at least three observations were present")
