// C15: group moves are drawn from the exact conditional distribution.
#include "mworld.hh"
#include "stats.hh"

// Grouping of the entities of one domain.
using Part = std::map<int, int>;
using Parts = std::map<std::string, Part>;

template <class V>
double score_cells(CleanRelation<V>* rel, const std::map<T_items, V>& data, const Parts& z, std::mt19937* prng) {
  std::map<std::vector<int>, std::vector<V>> cells;
  for (auto& [items, v] : data) {
    std::vector<int> c;
    for (size_t i = 0; i < items.size(); ++i) c.push_back(z.at(rel->domains[i]->name).at(items[i]));
    cells[c].push_back(v);
  }
  double s = 0;
  for (auto& [c, vals] : cells) {
    std::unique_ptr<Distribution<V>> f(rel->make_new_distribution(prng));
    for (const V v : vals) f->incorporate(v);
    s += f->logp_score();
  }
  return s;
}

// The score of relation r, from scratch, under a grouping of its domains.
template <class M>
double score_of(ModelWorld<M>& w, const RelInfo& r, const Parts& z) {
  double s = 0;
  w.at(r, [&](auto* rel, auto* tp) {
    using T = std::remove_pointer_t<decltype(tp)>;
    if (r.noisy) {
      std::map<T_items, std::pair<T, T>> d;
      for (auto& [i, v] : w.sh[r.name])
        d[i] = {std::get<T>(w.sh[r.base].at(T_items(i.begin(), i.begin() + r.base_arity))), std::get<T>(v)};
      s = score_cells<std::pair<T, T>>(&dynamic_cast<NoisyRelation<T>*>(rel)->emission_relation, d, z, &w.other);
    } else {
      std::map<T_items, T> d;
      for (auto& [i, v] : w.sh[r.name]) d[i] = std::get<T>(v);
      s = score_cells<T>(dynamic_cast<CleanRelation<T>*>(rel), d, z, &w.other);
    }
  });
  return s;
}

inline double part_score(const Part& p, double alpha) {
  std::map<int, int> n;
  for (auto& [e, t] : p) n[t]++;
  double s = std::lgamma(alpha) - std::lgamma(p.size() + alpha);
  for (auto& [t, c] : n) s += std::log(alpha) + std::lgamma((double)c);
  return s;
}

// Groups renamed by first occurrence.
inline Part canon(const Part& p) {
  std::map<int, int> name;
  Part q;
  for (auto& [e, t] : p) {
    name.try_emplace(t, (int)name.size());
    q[e] = name[t];
  }
  return q;
}
inline void partitions(const std::vector<int>& ents, size_t i, Part& p, int used, std::vector<Part>& out) {
  if (i == ents.size()) {
    out.push_back(p);
    return;
  }
  for (int t = 0; t <= used; ++t) {
    p[ents[i]] = t;
    partitions(ents, i + 1, p, std::max(used, t + 1), out);
  }
  p.erase(ents[i]);
}
inline std::vector<Part> partitions(const std::set<int>& ents) {
  std::vector<Part> out;
  Part p;
  partitions(std::vector<int>(ents.begin(), ents.end()), 0, p, 0, out);
  return out;
}

inline std::vector<double> normalised(const std::vector<double>& lp) {
  double m = *std::max_element(lp.begin(), lp.end()), s = 0;
  std::vector<double> p;
  for (double x : lp) p.push_back(std::exp(x - m)), s += p.back();
  for (double& x : p) x /= s;
  return p;
}

inline Parts parts_of(IRM* irm) {
  Parts z;
  for (auto& [d, dom] : irm->domains) {
    z[d];
    for (auto& [e, t] : dom->crp.assignments) z[d][e] = t;
  }
  return z;
}

// Puts the entities of an IRM into the given groups.
inline void set_parts(IRM* irm, const Parts& z, std::mt19937* prng) {
  for (auto& [d, p] : z) {
    Domain* dom = irm->domains.at(d);
    // Through groups of their own, numbered out of the way.
    for (int pass = 0; pass < 2; ++pass)
      for (auto& [e, t] : p) {
        int to = pass ? t : 1000 + e;
        if (dom->crp.assignments.at(e) == to) continue;
        for (auto& r : irm->domain_to_relations.at(d))
          std::visit(
              [&](auto* rel) {
                if (rel->has_observation(*dom, e)) rel->set_cluster_assignment_gibbs(*dom, e, to, prng);
              },
              irm->relations.at(r));
        dom->set_cluster_assignment_gibbs(e, to);
      }
  }
}

inline SchemaOpts exact_opts() {
  SchemaOpts o;
  o.skellam = o.cat_noise = false;
  return o;
}

// One entity, everything else fixed: the draws are independent, since the
// conditional does not depend on the group it is in.
static void entity_conditional(Ctx& ctx, const SchemaOpts& o, int universe, int obs, int draws) {
  ModelWorld<IRM> w(ctx, o, universe, true);
  w.populate(obs);
  for (auto& [d, dom] : w.m->domains)
    if (ctx.g.coin()) dom->crp.alpha = ctx.g.log_uniform(0.05, 20);
  std::vector<std::pair<std::string, int>> cands;
  for (auto& [d, dom] : w.m->domains)
    for (int e : dom->items) cands.push_back({d, e});
  std::sort(cands.begin(), cands.end());
  if (cands.empty()) throw pbt::Discard{};
  // Some arbitrary grouping.
  for (auto& [d, e] : cands)
    if (ctx.g.coin()) w.m->transition_cluster_assignment_item(&w.prng, d, e);
  auto [d, e] = cands[ctx.g.draw(cands.size())];
  Domain* dom = w.m->domains.at(d);
  ctx.note("entity %d of %s, alpha %.4g\n", e, d.c_str(), dom->crp.alpha);
  Parts z = parts_of(w.m.get());
  // The groups, by what is in them without e; the last is a new one.
  std::map<std::set<int>, int> groups;
  std::vector<double> lp;
  std::map<int, std::set<int>> members;
  for (auto& [x, t] : z[d])
    if (x != e) members[t].insert(x);
  int fresh = 100000;
  auto score = [&](int t) {
    Parts y = z;
    y[d][e] = t;
    double s = 0;
    for (auto* r : w.live_rels())
      if (std::count(r->doms.begin(), r->doms.end(), d)) s += score_of(w, *r, y);
    return s;
  };
  for (auto& [t, s] : members) {
    groups[s] = lp.size();
    lp.push_back(std::log((double)s.size()) + score(t));
  }
  groups[{}] = lp.size();
  lp.push_back(std::log(dom->crp.alpha) + score(fresh));
  std::vector<double> p = normalised(lp);
  for (auto& x : p) ctx.note("%.4f ", x);
  if (*std::max_element(p.begin(), p.end()) < 0.98) ctx.nontrivial();
  ctx.label(groups.size() > 2 ? "several groups" : "one or two groups");
  auto draw = [&]() -> int {
    w.m->transition_cluster_assignment_item(&w.prng, d, e);
    std::set<int> s;
    int t = dom->crp.assignments.at(e);
    for (int x : dom->crp.tables.at(t))
      if (x != e) s.insert(x);
    auto it = groups.find(s);
    PCHECK(ctx, it != groups.end(), "the move changed the grouping of other entities");
    return it->second;
  };
  check_frequencies(ctx, draw, p, draws, pbt::fmt("group of entity %d of %s", e, d.c_str()));
  w.check("moving an entity many times");
}

PROPERTY("entity/conditional", 2000, 20000) { entity_conditional(ctx, exact_opts(), ctx.g.range(2, 5), ctx.g.range(2, 14), 500); }
PROPERTY("entity/repeated", 500, 10000) {
  SchemaOpts o = exact_opts();
  o.max_dom = 1;
  o.max_rel = 2;
  entity_conditional(ctx, o, ctx.g.range(2, 4), ctx.g.range(2, 12), 500);
}

// A state drawn from the posterior is, after a sweep, again a draw from it.
PROPERTY("entity/invariance", 60, 1500) {
  SchemaOpts o = exact_opts();
  o.max_rel = 3;
  o.max_dom = 2;
  o.max_arity = 2;
  ModelWorld<IRM> w(ctx, o, ctx.g.range(2, 4), true);
  w.populate(ctx.g.range(2, 10));
  std::vector<std::pair<std::string, std::vector<Part>>> doms;
  size_t total = 1;
  for (auto& d : w.sorted_domains(w.m.get())) {
    auto& it = w.m->domains.at(d)->items;
    doms.push_back({d, partitions(std::set<int>(it.begin(), it.end()))});
    total *= doms.back().second.size();
  }
  if (total < 2 || total > 250) throw pbt::Discard{};
  std::vector<Parts> states;
  std::map<Parts, int> index;
  std::vector<double> lp;
  std::vector<size_t> ix(doms.size(), 0);
  while (true) {
    Parts z;
    double s = 0;
    for (size_t i = 0; i < doms.size(); ++i) {
      z[doms[i].first] = doms[i].second[ix[i]];
      s += part_score(z[doms[i].first], 1);
    }
    for (auto* r : w.live_rels()) s += score_of(w, *r, z);
    index[z] = states.size();
    states.push_back(z);
    lp.push_back(s);
    size_t i = 0;
    while (i < ix.size() && ++ix[i] == doms[i].second.size()) ix[i++] = 0;
    if (i == ix.size()) break;
  }
  std::vector<double> p = normalised(lp);
  ctx.note("%zu states\n", states.size());
  int how = ctx.g.draw(2);
  ctx.nontrivial();
  auto draw = [&]() -> int {
    double u = std::uniform_real_distribution<double>(0, 1)(w.prng);
    size_t k = 0;
    while (k + 1 < p.size() && u > p[k]) u -= p[k++];
    set_parts(w.m.get(), states[k], &w.prng);
    if (how)
      w.m->transition_cluster_assignments_all(&w.prng);
    else
      for (auto& [d, v] : doms) w.m->transition_cluster_assignments(&w.prng, {d});
    Parts z = parts_of(w.m.get());
    for (auto& [d, q] : z) q = canon(q);
    return index.at(z);
  };
  check_frequencies(ctx, draw, p, 1500, "state after a sweep over all entities");
  w.check("many sweeps");
}

// ---- relations among groups of relations

struct HState {
  std::map<std::string, int> rel;  // relation to group
  std::map<int, Parts> ents;       // groups of entities, by group of relations
  bool operator<(const HState& o) const { return std::tie(rel, ents) < std::tie(o.rel, o.ents); }
};

struct HW : ModelWorld<HIRM> {
  using ModelWorld<HIRM>::ModelWorld;

  std::map<std::string, std::set<int>> entities(const std::set<std::string>& names) {
    std::map<std::string, std::set<int>> m;
    for (auto& n : names)
      for (auto& d : info(n).doms) m[d];
    for (auto& n : names)
      for (auto& [items, v] : sh[n])
        for (size_t i = 0; i < items.size(); ++i) m[info(n).doms[i]].insert(items[i]);
    return m;
  }
  std::vector<Parts> all_parts(const std::map<std::string, std::set<int>>& ents) {
    std::vector<Parts> out{{}};
    for (auto& [d, s] : ents) {
      std::vector<Parts> next;
      for (auto& q : partitions(s))
        for (auto z : out) {
          z[d] = q;
          next.push_back(z);
        }
      out = next;
      if (out.size() > 3000) throw pbt::Discard{};
    }
    return out;
  }
  std::set<std::string> members(const HState& s, int g) {
    std::set<std::string> m;
    for (auto& [n, t] : s.rel)
      if (t == g) m.insert(n);
    return m;
  }
  double score(const HState& s) {
    Part p;
    int k = 0;
    for (auto& [n, g] : s.rel) p[k++] = g;
    double lp = part_score(p, 1);
    for (auto& [g, z] : s.ents) {
      for (auto& [d, q] : z) lp += part_score(q, 1);
      for (auto& n : members(s, g)) lp += score_of(*this, info(n), z);
    }
    return lp;
  }
  // Brings the live model into the state.
  void set_state(const HState& s) {
    for (int pass = 0; pass < 2; ++pass) {
      int k = 0;
      for (auto& [n, g] : s.rel) {
        int to = pass ? g : 1000 + k++;
        if (m->relation_to_table(n) != to) m->set_cluster_assignment_gibbs(&prng, n, to);
      }
    }
    for (auto& [g, z] : s.ents) set_parts(m->irms.at(g), z, &prng);
  }
  HState get_state() {
    HState s;
    std::map<int, int> name;
    for (auto& n : live) {
      int t = m->relation_to_table(n);
      name.try_emplace(t, (int)name.size());
      s.rel[n] = name[t];
    }
    for (auto& [t, irm] : m->irms) {
      Parts z = parts_of(irm);
      for (auto& [d, p] : z) p = canon(p);
      s.ents[name.at(t)] = z;
    }
    return s;
  }
};

inline HW* small_hirm(Ctx& ctx, int max_rel) {
  SchemaOpts o = exact_opts();
  o.min_rel = 2;
  o.max_rel = max_rel;
  o.max_dom = 2;
  o.max_arity = 2;
  auto* w = new HW(ctx, o, ctx.g.range(2, 3), true);
  w->populate(ctx.g.range(2, 7));
  return w;
}

// The probability of each choice from one state, averaging over the seats that
// entities new to a group of relations are given by the prior.
PROPERTY("relation/conditional", 400, 6000) {
  std::unique_ptr<HW> w(small_hirm(ctx, 4));
  // Any start: groups of relations, and groups of entities in each.
  HState s;
  int used = 0;
  for (auto& n : w->live) {
    s.rel[n] = ctx.g.range(0, used);
    used = std::max(used, s.rel[n] + 1);
  }
  for (int g = 0; g < used; ++g) {
    auto all = w->all_parts(w->entities(w->members(s, g)));
    s.ents[g] = all[ctx.g.draw(all.size())];
  }
  std::vector<std::string> names(w->live.begin(), w->live.end());
  std::string r = names[ctx.g.draw(names.size())];
  int cur = s.rel[r];
  ctx.note("groups:");
  for (auto& [n, g] : s.rel) ctx.note(" %s=%d", n.c_str(), g);
  ctx.note("; move %s\n", r.c_str());
  bool alone = w->members(s, cur).size() == 1;
  auto need = w->entities({r});
  // Per candidate: log prior weight, and the seatings with their probabilities.
  struct Cand {
    double w;
    std::vector<std::pair<double, double>> seat;  // (probability, likelihood log)
  };
  std::vector<Cand> cands;
  std::vector<int> ids;
  double combos = 1;
  for (int g = 0; g <= used; ++g) {
    Cand c;
    auto mem = w->members(s, g);
    if (g == used && alone) continue;
    if (g == cur) {
      c.w = std::log(alone ? 1.0 : (double)mem.size() - 1);
      c.seat = {{1, score_of(*w, w->info(r), s.ents[g])}};
    } else {
      c.w = g == used ? 0 : std::log((double)mem.size());
      // Every partition of the union that extends the one there is.
      auto ents = w->entities(mem);
      auto both = ents;
      for (auto& [d, x] : need) both[d].insert(x.begin(), x.end());
      std::vector<double> lp, like;
      for (auto& z : w->all_parts(both)) {
        bool extends = true;
        double pr = 0;
        for (auto& [d, x] : both) {
          Part sub;
          if (ents.contains(d)) {
            for (int e : ents[d]) sub[e] = z.at(d).at(e);
            if (canon(sub) != canon(s.ents[g].at(d))) extends = false;
          }
          pr += part_score(z.at(d), 1);
        }
        if (!extends) continue;
        lp.push_back(pr);
        like.push_back(score_of(*w, w->info(r), z));
      }
      auto p = normalised(lp);
      for (size_t i = 0; i < p.size(); ++i) c.seat.push_back({p[i], like[i]});
    }
    combos *= c.seat.size();
    cands.push_back(c);
    ids.push_back(g);
  }
  if (combos > 40000) throw pbt::Discard{};
  std::vector<double> p(cands.size(), 0);
  std::vector<size_t> ix(cands.size(), 0);
  while (true) {
    double pr = 1;
    std::vector<double> lp;
    for (size_t i = 0; i < cands.size(); ++i) {
      pr *= cands[i].seat[ix[i]].first;
      lp.push_back(cands[i].w + cands[i].seat[ix[i]].second);
    }
    auto q = normalised(lp);
    for (size_t i = 0; i < q.size(); ++i) p[i] += pr * q[i];
    size_t i = 0;
    while (i < ix.size() && ++ix[i] == cands[i].seat.size()) ix[i++] = 0;
    if (i == ix.size()) break;
  }
  for (auto& x : p) ctx.note("%.4f ", x);
  if (*std::max_element(p.begin(), p.end()) < 0.98) ctx.nontrivial();
  ctx.label(alone ? "alone" : "in company");
  std::string mate;
  auto draw = [&]() -> int {
    w->set_state(s);
    w->m->transition_cluster_assignment_relation(&w->prng, r);
    int t = w->m->relation_to_table(r);
    for (size_t i = 0; i < ids.size(); ++i) {
      auto mem = w->members(s, ids[i]);
      mem.erase(r);
      bool there = !mem.empty() && w->m->relation_to_table(*mem.begin()) == t;
      bool fresh = mem.empty() && w->m->crp.tables.at(t).size() == 1;
      if (there || fresh) return i;
    }
    return -1;
  };
  check_frequencies(ctx, draw, p, 400, "group of relation " + r);
  w->check("moving a relation many times");
}

PROPERTY("relation/invariance", 40, 1000) {
  std::unique_ptr<HW> w(small_hirm(ctx, 3));
  // All groupings of the relations and of the entities in each group.
  std::set<int> ids;
  std::vector<std::string> names(w->live.begin(), w->live.end());
  for (size_t i = 0; i < names.size(); ++i) ids.insert(i);
  std::vector<HState> states;
  for (auto& p : partitions(ids)) {
    std::vector<HState> part{{}};
    int used = 0;
    for (auto& [i, g] : p) part[0].rel[names[i]] = g, used = std::max(used, g + 1);
    for (int g = 0; g < used; ++g) {
      auto all = w->all_parts(w->entities(w->members(part[0], g)));
      std::vector<HState> next;
      for (auto& z : all)
        for (auto& s : part) {
          next.push_back(s);
          next.back().ents[g] = z;
        }
      part = next;
      if (part.size() > 600) throw pbt::Discard{};
    }
    states.insert(states.end(), part.begin(), part.end());
  }
  if (states.size() > 600) throw pbt::Discard{};
  std::vector<double> lp;
  std::map<HState, int> index;
  for (auto& s : states) {
    lp.push_back(w->score(s));
    index[s] = lp.size() - 1;
  }
  auto p = normalised(lp);
  std::string r = names[ctx.g.draw(names.size())];
  bool all = ctx.g.coin();
  ctx.note("%zu states; %s\n", states.size(), all ? "all relations" : r.c_str());
  ctx.nontrivial();
  auto draw = [&]() -> int {
    double u = std::uniform_real_distribution<double>(0, 1)(w->prng);
    size_t k = 0;
    while (k + 1 < p.size() && u > p[k]) u -= p[k++];
    w->set_state(states[k]);
    if (all)
      w->m->transition_cluster_assignments_all(&w->prng);
    else
      w->m->transition_cluster_assignment_relation(&w->prng, r);
    auto it = index.find(w->get_state());
    return it == index.end() ? -1 : it->second;
  };
  check_frequencies(ctx, draw, p, 1500, "state after a move of relations");
  w->check("many moves");
}

PBT_MAIN("the exact conditional gives no choice more than 98%, or a whole posterior was enumerated")
