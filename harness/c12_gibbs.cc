// C12: reassignment scores equal the true change in the data's probability.
#include "relworld.hh"

// What the relation would score with entity e of domain d in group t: every
// cell from scratch, with the parameters its component has now (or fresh ones
// where it has none).  False: not a function of the data alone.
template <class V>
bool score_with(CleanRelation<V>* rel, const std::map<T_items, V>& data, const std::string& d, int e, int t, std::mt19937* prng, double* out) {
  std::map<std::vector<int>, std::vector<V>> cells;
  for (auto& [items, v] : data) {
    std::vector<int> z;
    for (size_t i = 0; i < items.size(); ++i)
      z.push_back(rel->domains[i]->name == d && items[i] == e ? t : rel->domains[i]->crp.assignments.at(items[i]));
    cells[z].push_back(v);
  }
  *out = 0;
  for (auto& [z, vals] : cells) {
    std::unique_ptr<Distribution<V>> fresh(rel->make_new_distribution(prng));
    if (rel->clusters.contains(z)) {
      if (!copy_params<Distribution<V>>(fresh.get(), rel->clusters.at(z))) return false;
    } else {
      if (!copy_params<Distribution<V>>(fresh.get(), fresh.get())) return false;
      if constexpr (std::is_same_v<V, int>)
        if (dynamic_cast<Skellam*>(fresh.get())) return false;  // starts from random parameters
    }
    for (const V v : vals) fresh->incorporate(v);
    *out += fresh->logp_score();
  }
  return true;
}

template <class V>
struct Snapshot {
  std::map<T_items, V> data;
  std::map<std::vector<int>, std::pair<double, double>> cells;
  explicit Snapshot(CleanRelation<V>* rel) {
    for (auto& [i, v] : rel->data) data[i] = v;
    for (auto& [z, c] : rel->clusters) cells[z] = {c->N, c->logp_score()};
  }
};

// Scores with large concentrations cancel to about this precision.
constexpr double kGibbsTol = 5e-5;

struct Asked {
  bool compared = false, multi = false, fresh = false, repeated = false;
};

// Does any cell that e would leave empty get an observation of e back?
template <class V>
bool refills(CleanRelation<V>* rel, const std::map<T_items, V>& data, const std::string& d, int e, int t) {
  std::map<std::vector<int>, int> left;
  std::set<std::vector<int>> to;
  for (auto& [items, v] : data) {
    bool mine = false;
    std::vector<int> z, w;
    for (size_t i = 0; i < items.size(); ++i) {
      bool m = rel->domains[i]->name == d && items[i] == e;
      mine |= m;
      z.push_back(rel->domains[i]->crp.assignments.at(items[i]));
      w.push_back(m ? t : z.back());
    }
    left[z] += mine ? 0 : 1;
    if (mine) to.insert(w);
  }
  for (auto& z : to)
    if (left.contains(z) && left[z] == 0) return true;
  return false;
}

template <class V>
Asked ask(Ctx& ctx, const std::string& name, CleanRelation<V>* rel, const std::function<std::vector<double>(const std::vector<int>&)>& exact,
          const std::function<double(int)>& approx, Domain* dom, int e, const std::vector<int>& tables, std::mt19937* prng, int* checked_table,
          double* predicted) {
  Asked a;
  Snapshot<V> before(rel);
  std::vector<double> lp = exact(tables);
  PCHECK(ctx, lp.size() == tables.size(), "%zu scores for %zu groups", lp.size(), tables.size());
  std::vector<double> ap;
  for (int t : tables) ap.push_back(approx(t));
  Snapshot<V> after(rel);
  PCHECK(ctx, before.data == after.data, "asking changed the data of %s", name.c_str());
  PCHECK(ctx, before.cells.size() == after.cells.size(), "asking changed the cells of %s", name.c_str());
  std::vector<double> w(tables.size());
  std::vector<bool> ok(tables.size());
  size_t cur = tables.size();
  for (size_t i = 0; i < tables.size(); ++i) {
    ok[i] = score_with<V>(rel, before.data, dom->name, e, tables[i], prng, &w[i]);
    if (tables[i] == dom->crp.assignments.at(e)) cur = i;
  }
  PCHECK(ctx, cur < tables.size(), "harness: current group not among the candidates");
  if (!ok[cur]) return a;
  for (auto& [z, c] : before.cells) {
    PCHECK(ctx, after.cells.contains(z), "asking removed a cell of %s", name.c_str());
    PCHECK(ctx, pbt::near(after.cells[z].first, c.first, 1e-9, 1e-9), "asking changed the weight of cell %s of %s", ishow(z).c_str(), name.c_str());
    PCHECK(ctx, pbt::near(after.cells[z].second, c.second, 1e-7, kGibbsTol), "asking changed the score of cell %s of %s from %.12g to %.12g",
           ishow(z).c_str(), name.c_str(), c.second, after.cells[z].second);
  }
  int mine = 0;
  for (auto& [items, v] : before.data)
    for (size_t i = 0; i < items.size(); ++i)
      if (rel->domains[i]->name == dom->name && items[i] == e) {
        ++mine;
        break;
      }
  for (size_t i = 0; i < tables.size(); ++i) {
    if (!ok[i]) continue;
    PCHECK(ctx, !std::isnan(lp[i]), "the score of %s for group %d is NaN", name.c_str(), tables[i]);
    PCHECK(ctx, pbt::near(lp[i] - lp[cur], w[i] - w[cur], 1e-6, kGibbsTol),
           "%s: entity %d of %s: group %d is scored %.10g above the current group %d, the relation's score would change by %.10g", name.c_str(), e,
           dom->name.c_str(), tables[i], lp[i] - lp[cur], tables[cur], w[i] - w[cur]);
    if (i != cur) a.compared = true;
    if (mine > 1 && i != cur) a.multi = true;
    if (mine == 1)
      PCHECK(ctx, pbt::near(ap[i] - ap[cur], w[i] - w[cur], 1e-6, kGibbsTol),
             "%s: entity %d of %s (one observation): the approximate score puts group %d %.10g above the current one, the relation's score would "
             "change by %.10g",
             name.c_str(), e, dom->name.c_str(), tables[i], ap[i] - ap[cur], w[i] - w[cur]);
  }
  *checked_table = -1;
  size_t pick = ctx.g.draw(tables.size());
  if (pick != cur && ok[pick] && !refills<V>(rel, before.data, dom->name, e, tables[pick])) {
    *checked_table = tables[pick];
    *predicted = rel->logp_score() + lp[pick] - lp[cur];
  }
  return a;
}

struct Gibbs : World {
  using World::World;
  Asked total;

  void ask_entity(const std::string& d, int e) {
    Domain* dom = irm.domains.at(d);
    std::vector<int> tables;
    for (auto& [t, w] : dom->tables_weights_gibbs(e)) tables.push_back(t);
    // Order must not matter.
    for (size_t k = tables.size(); k > 1; --k) std::swap(tables[k - 1], tables[ctx.g.draw(k)]);
    std::map<std::string, std::pair<int, double>> moved_to;
    for (auto& r : rels) {
      if (!std::count(r.doms.begin(), r.doms.end(), d)) continue;
      at(r, [&](auto* rel, auto* tp) {
        using T = std::remove_pointer_t<decltype(tp)>;
        if (!rel->has_observation(*dom, e)) return;
        auto exact = [&](const std::vector<int>& ts) { return rel->logp_gibbs_exact(*dom, e, ts, &prng); };
        int t = -1;
        double p = 0;
        Asked a;
        if (r.noisy) {
          auto* n = dynamic_cast<NoisyRelation<T>*>(rel);
          a = ask<std::pair<T, T>>(ctx, r.name, &n->emission_relation, exact, [&](int t) { return n->logp_gibbs_approx(*dom, e, t, &prng); }, dom, e,
                                   tables, &other, &t, &p);
        } else {
          auto* c = dynamic_cast<CleanRelation<T>*>(rel);
          a = ask<T>(ctx, r.name, c, exact, [&](int t) { return c->logp_gibbs_approx(*dom, e, t, &prng); }, dom, e, tables, &other, &t, &p);
        }
        total.compared |= a.compared;
        total.multi |= a.multi;
        if (t >= 0) moved_to[r.name] = {t, p};
      });
    }
    // Then really move it, to the first group predicted for.
    if (moved_to.empty() || !ctx.g.coin()) return;
    int t = moved_to.begin()->second.first;
    ctx.note("move entity %d of %s to group %d\n", e, d.c_str(), t);
    for (auto& r : rels)
      if (std::count(r.doms.begin(), r.doms.end(), d))
        at(r, [&](auto* rel, auto*) {
          if (rel->has_observation(*dom, e)) rel->set_cluster_assignment_gibbs(*dom, e, t, &prng);
        });
    dom->set_cluster_assignment_gibbs(e, t);
    for (auto& [n, tp] : moved_to)
      if (tp.first == t) {
        auto& r = info_of(rels, n);
        at(r, [&](auto* rel, auto*) {
          double s = rel->logp_score();
          PCHECK(ctx, pbt::near(s, tp.second, 1e-6, kGibbsTol), "relation %s: moving entity %d of %s to group %d gives the score %.10g, predicted %.10g",
                 n.c_str(), e, d.c_str(), t, s, tp.second);
        });
      }
  }
  void ask_all() {
    check("asking");
    for (auto& [d, ents] : entities())
      for (int e : ents) {
        ctx.note("ask %s %d\n", d.c_str(), e);
        ask_entity(d, e);
      }
    check("asking");
  }
  std::map<std::string, std::vector<int>> entities() {
    std::map<std::string, std::vector<int>> m;
    for (auto& [d, dom] : irm.domains) {
      m[d].assign(dom->items.begin(), dom->items.end());
      std::sort(m[d].begin(), m[d].end());
    }
    return m;
  }
  void done() {
    if (total.compared && total.multi) ctx.nontrivial();
    World::finish();
  }
};

PROPERTY("gibbs/history", 8000, 200000) {
  SchemaOpts o;
  Gibbs w(ctx, o, ctx.g.range(2, 5));
  int n = 0;
  while (ctx.g.more(14, n, 60)) ++n, w.step();
  w.ask_all();
  w.done();
}

// One relation that uses a domain at several positions.
PROPERTY("gibbs/repeated", 6000, 150000) {
  SchemaOpts o;
  o.max_rel = 2;
  o.max_dom = 1;
  o.max_arity = 3;
  Gibbs w(ctx, o, ctx.g.range(2, 4));
  int n = 0;
  while (ctx.g.more(16, n, 60)) ++n, w.step();
  w.ask_all();
  w.done();
}

PROPERTY("gibbs/crowd", 60, 1500) {
  SchemaOpts o;
  o.max_rel = 2;
  o.max_dom = 2;
  o.max_arity = 2;
  Gibbs w(ctx, o, ctx.g.range(8, 30));
  bool aligned = false;  // scores of the aligning noise models are dear
  for (auto& r : w.rels) aligned |= r.noisy && r.dist.find("bigram") != std::string::npos;
  int n = aligned ? ctx.g.range(40, 100) : ctx.g.range(60, 300);
  for (int i = 0; i < n; ++i) {
    const RelInfo& r = w.rels[ctx.g.draw(w.rels.size())];
    w.add(r, w.gen_items(r), false);
  }
  w.ask_all();
  w.done();
}

PBT_MAIN("a candidate group other than the current one was scored for an entity with more than one observation")
