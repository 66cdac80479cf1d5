// C30: moves of references follow the stated posterior.
#include <sys/wait.h>

#include "gworld.hh"
#include "stats.hh"

// The log probability of value v in cell z of a relation, given the data
// except at the places in `but`, from scratch.
template <class V>
double cell_logp(CleanRelation<V>* rel, const std::vector<int>& z, const V& v, const std::set<T_items>& but, std::mt19937* prng) {
  std::unique_ptr<Distribution<V>> f(rel->make_new_distribution(prng));
  if (rel->clusters.contains(z)) copy_params<Distribution<V>>(f.get(), rel->clusters.at(z));
  for (auto& [i, x] : rel->data)
    if (!but.contains(i) && rel->get_cluster_assignment(i) == z) f->incorporate(x);
  double a = f->logp_score();
  f->incorporate(v);
  return f->logp_score() - a;
}

struct Move {
  std::string cls, field, ref_cls;
  int e, from;
};

struct R : GWorld {
  using GWorld::GWorld;
  CRP& crp(const std::string& c) { return db.entity_crps.at(c); }

  std::vector<std::string> affected(const Move& mv) {
    std::vector<std::string> v;
    for (auto& [n, r] : want)
      for (auto& p : r.pos)
        if (p.cls == mv.cls && p.refs.contains(mv.field)) {
          v.push_back(n);
          break;
        }
    return v;
  }
  double score(const std::vector<std::string>& rels) {
    double s = 0;
    for (auto& n : rels) s += std::visit([](auto* r) { return r->logp_score(); }, db.hirm->get_relation(n));
    return s;
  }
  // The weight of each candidate in the grouping; -1 is one that nothing else
  // refers to.
  std::map<int, double> weights(const Move& mv) {
    std::map<int, double> w;
    CRP& c = crp(mv.ref_cls);
    for (auto& [t, cust] : c.tables) w[t] = cust.size();
    if (--w[mv.from] == 0) w.erase(mv.from);
    w[-1] = c.alpha;
    return w;
  }
  // Does pointing the reference at t need nothing that is not there?
  bool complete(const Move& mv, int t) {
    int& l = db.reference_values.at(mv.cls).at({mv.field, mv.e});
    bool ok = true;
    for (auto& n : affected(mv)) {
      const GRel& r = want.at(n);
      std::vector<T_items> cells;
      std::visit(
          [&](auto* rel) {
            for (auto& [i, v] : rel->get_data()) cells.push_back(i);
          },
          db.hirm->get_relation(n));
      IRM* irm = db.hirm->relation_to_irm(n);
      for (auto& i : cells) {
        l = t;
        T_items to;
        try {
          to = walk(n, i.back());
        } catch (const pbt::Fail&) {
          ok = false;
        }
        l = mv.from;
        if (!ok) return false;
        if (to == walk(n, i.back())) continue;
        for (size_t p = 0; p < to.size(); ++p) ok &= irm->domains.at(r.pos[p].cls)->items.contains(to[p]);
        if (r.info.noisy) {
          T_items b(to.begin(), to.begin() + r.info.base_arity);
          bool moved = b != T_items(i.begin(), i.begin() + r.info.base_arity);
          bool base_affected = false;
          for (size_t p = 0; p < b.size(); ++p) base_affected |= r.pos[p].cls == mv.cls && r.pos[p].refs.contains(mv.field) && b[p] == mv.e;
          if (moved && !base_affected)
            std::visit([&](auto* rel) { ok &= rel->get_data().contains(b); }, db.hirm->get_relation(r.info.base));
        }
      }
    }
    return ok;
  }
  // One move from here, in a copy of the process: where it went and the score
  // of the relations that depend on it.
  std::pair<int, double> trial(const Move& mv, const std::vector<std::string>& rels, unsigned seed) {
    auto out = pbt::isolated([&](std::string& pay) {
      prng.seed(seed);
      db.transition_reference(&prng, mv.cls, mv.field, mv.e);
      pay = pbt::fmt("%d %.17g", links().at(mv.cls).at({mv.field, mv.e}), score(rels));
    });
    std::pair<int, double> r{0, 0};
    PCHECK(ctx, sscanf(out.payload.c_str(), "%d %lf", &r.first, &r.second) == 2, "the move ended with %s: %s", out.payload.c_str(), out.out.c_str());
    return r;
  }
};

static std::string show(const Move& m) { return pbt::fmt("move %s.%s of %d, which is %d", m.cls.c_str(), m.field.c_str(), m.e, m.from); }

// Any schema: the entities that need nothing new are chosen in proportion to
// their number of references times the probability of the data that moves.
PROPERTY("refmove/ratios", 110, 3000) {
  GOpts o;
  o.strings = o.categorical = false;
  o.max_width = 6;
  R w(ctx, gen_gschema(ctx, o));
  int n = ctx.g.range(2, 7);
  bool full = ctx.g.chance(4, 5);
  for (int i = 0; i < n; ++i) {
    auto row = w.gen_row(full ? 0 : 1, 4);
    if (!row.empty()) w.load(i, row, ctx.g.chance(1, 3));
  }
  for (int k = ctx.g.range(0, 3); k > 0; --k) {
    ctx.note("move all\n");
    w.db.transition_reference_class_and_ancestors(&w.prng, w.s.record);
  }
  std::vector<Move> all;
  for (auto& [c, m] : w.links())
    for (auto& [k, to] : m) {
      Move mv{c, k.first, w.s.classes.at(c).at(k.first).type, k.second, to};
      if (w.weights(mv).size() >= 2) all.push_back(mv);
    }
  if (all.empty()) throw pbt::Discard{};
  std::sort(all.begin(), all.end(), [](auto& a, auto& b) { return std::tie(a.cls, a.field, a.e) < std::tie(b.cls, b.field, b.e); });
  Move mv = all[ctx.g.draw(all.size())];
  auto rels = w.affected(mv);
  auto wt = w.weights(mv);
  std::map<int, double> known;  // candidate -> weight in the grouping
  for (auto& [t, x] : wt)
    if (t >= 0 && (t == mv.from || w.complete(mv, t))) known[t] = x;
  if (!wt.contains(mv.from)) known[mv.from] = wt.at(-1);
  ctx.note("%s\n", show(mv).c_str());
  if (known.size() < 2) throw pbt::Discard{};
  std::map<int, double> lw;
  unsigned seed = ctx.g.seed32();
  auto sample = [&](int trials) {
    std::map<int, double> c;
    for (int i = 0; i < trials; ++i) {
      auto [t, s] = w.trial(mv, rels, seed++);
      PCHECK(ctx, wt.contains(t) || t == mv.from || !w.crp(mv.ref_cls).tables.contains(t), "moved to %d, which is no candidate", t);
      if (!known.contains(t)) continue;
      double l = std::log(known.at(t)) + s;
      if (lw.contains(t))
        PCHECK(ctx, pbt::near(lw[t], l, 1e-7, 1e-5), "after a move to %d the relations score %.12g or %.12g", t, s, lw[t] - std::log(known.at(t)));
      else
        lw[t] = l;
      c[t]++;
    }
    return c;
  };
  // Candidates that never came up have an unknown score; the others are
  // compared among each other.
  auto p_of = [&](const std::map<int, double>& c, std::string* what) {
    double m = -INFINITY, z = 0, n = 0;
    for (auto& [t, l] : lw) m = std::max(m, l);
    for (auto& [t, l] : lw) z += std::exp(l - m);
    std::vector<double> counts, probs;
    *what = "";
    for (auto& [t, l] : lw) {
      double k = c.contains(t) ? c.at(t) : 0;
      counts.push_back(k), probs.push_back(std::exp(l - m) / z), n += k;
    }
    int i = 0;
    double p = gof_p(counts, probs, 10);
    for (auto& [t, l] : lw) {
      *what += pbt::fmt(" %d: %g/%.1f", t, counts[i], probs[i] * n);
      if (counts[i] > 0) p = std::min(p, poisson_tail(n * probs[i], counts[i]) * counts.size());
      ++i;
    }
    return p;
  };
  auto c1 = sample(200);
  if (lw.size() >= 2) ctx.nontrivial();
  std::string what;
  double p1 = p_of(c1, &what);
  if (p1 > 1e-5) return;
  auto c2 = sample(1200);
  double p2 = p_of(c2, &what);
  PCHECK(ctx, p2 > 1e-7, "%s: moves do not follow the posterior, observed/expected:%s (p=%.3g, %.3g)", show(mv).c_str(), what.c_str(), p1, p2);
}

// One class of entities with yes/no attributes: all probabilities, including
// that of a new entity, by enumeration.
PROPERTY("refmove/new entity", 110, 3000) {
  GSchema s;
  s.record = "Row";
  GVar b;
  b.type = "bool", b.vtype = 0;
  GVar ref;
  ref.cls = true, ref.type = "Thing";
  std::vector<std::string> attrs{"x", "y"};
  attrs.resize(ctx.g.range(1, 2));
  for (auto& a : attrs) s.classes["Thing"][a] = b, s.fields["see " + a] = {"t", a};
  s.classes["Row"]["t"] = ref;
  if (ctx.g.chance(1, 3)) s.classes["Row"]["r"] = b, s.fields["own"] = {"r"};
  s.only_final = ctx.g.coin(), s.clean = ctx.g.coin();
  R w(ctx, s);
  int n = ctx.g.range(2, 8);
  for (int i = 0; i < n; ++i) w.load(i, w.gen_row(0, 1), ctx.g.chance(1, 4));
  if (ctx.g.coin()) {
    ctx.note("move all\n");
    w.db.transition_reference_class_and_ancestors(&w.prng, w.s.record);
  }
  Move mv{"Row", "t", "Thing", (int)ctx.g.draw(n), 0};
  mv.from = w.links().at("Row").at({"t", mv.e});
  auto wt = w.weights(mv);
  ctx.note("%s\n", show(mv).c_str());
  if (wt.size() < 2) throw pbt::Discard{};
  // What the observed fields of the row say about an entity in given groups
  // with given values.
  using Groups = std::map<IRM*, int>;
  std::mt19937 other(7);
  auto irm_of = [&](const std::string& r) { return w.db.hirm->relation_to_irm(r); };
  auto fits = [&](const Groups& g, const std::map<std::string, bool>& vals) {
    double l = 0;
    for (auto& a : attrs) {
      std::string q = "see " + a;
      auto* nr = dynamic_cast<NoisyRelation<bool>*>(std::get<Relation<bool>*>(w.db.hirm->get_relation(q)));
      PCHECK(ctx, nr, "%s is not noisy", q.c_str());
      IRM* irm = irm_of(q);
      T_items now{mv.from, mv.e};
      std::vector<int> z{g.at(irm), irm->domains.at("Row")->get_cluster_assignment(mv.e)};
      l += cell_logp<std::pair<bool, bool>>(&nr->emission_relation, z, {vals.at(a), std::get<bool>(w.rows.at(mv.e).at(q))}, {now}, &other);
    }
    // The row's own field depends on the entity it refers to as well.
    for (std::string q : {"own", "Row:r"}) {
      if (!w.want.contains(q)) continue;
      IRM* irm = irm_of(q);
      T_items now{mv.from, mv.e};
      std::vector<int> z{g.at(irm), irm->domains.at("Row")->get_cluster_assignment(mv.e)};
      auto* rel = std::get<Relation<bool>*>(w.db.hirm->get_relation(q));
      if (!rel->get_data().contains(now)) continue;
      bool v = rel->get_value(now);
      if (auto* nr = dynamic_cast<NoisyRelation<bool>*>(rel))
        l += cell_logp<std::pair<bool, bool>>(&nr->emission_relation, z, {nr->get_base_value(now), v}, {now}, &other);
      else
        l += cell_logp<bool>(dynamic_cast<CleanRelation<bool>*>(rel), z, v, {now}, &other);
    }
    return l;
  };
  std::set<IRM*> irms;
  for (auto& [q, r] : w.want)
    if (r.cls() == "Row") irms.insert(irm_of(q));
  for (auto& a : attrs) irms.insert(irm_of("Thing:" + a)), irms.insert(irm_of("see " + a));
  auto value = [&](const std::string& a, int t) { return std::get<Relation<bool>*>(w.db.hirm->get_relation("Thing:" + a))->get_value({t}); };
  auto known = [&](int t) {
    Groups g;
    std::map<std::string, bool> v;
    for (auto* irm : irms) g[irm] = irm->domains.at("Thing")->get_cluster_assignment(t);
    for (auto& a : attrs) v[a] = value(a, t);
    return fits(g, v);
  };
  std::vector<int> ts;
  std::vector<double> ws;
  double base = known(mv.from);
  for (auto& [t, x] : wt)
    if (t >= 0) ts.push_back(t), ws.push_back(x * std::exp(known(t) - base));
  std::vector<double> probs(ts.size() + 1, 0);
  double sum = 0;
  for (double x : ws) sum += x;
  ts.push_back(wt.contains(mv.from) ? -1 : mv.from);
  size_t combos = 0;
  auto outcome = [&](double p, double wnew) {
    for (size_t i = 0; i < ws.size(); ++i) probs[i] += p * ws[i] / (sum + wnew);
    probs.back() += p * wnew / (sum + wnew);
    ++combos;
  };
  if (ts.back() == mv.from) {
    outcome(1, wt.at(-1));
  } else {
    std::vector<IRM*> is(irms.begin(), irms.end());
    std::function<void(size_t, double, Groups)> groups = [&](size_t k, double p, Groups g) {
      if (k < is.size()) {
        const CRP& c = is[k]->domains.at("Thing")->crp;
        int fresh = 0;
        double n = 0;
        for (auto& [t, m] : c.tables) n += m.size(), fresh = std::max(fresh, t + 1);
        for (auto& [t, m] : c.tables) g[is[k]] = t, groups(k + 1, p * m.size() / (n + c.alpha), g);
        g[is[k]] = fresh, groups(k + 1, p * c.alpha / (n + c.alpha), g);
        return;
      }
      for (int bits = 0; bits < 1 << attrs.size(); ++bits) {
        double q = p;
        std::map<std::string, bool> v;
        for (size_t i = 0; i < attrs.size(); ++i) {
          v[attrs[i]] = bits >> i & 1;
          auto* rel = dynamic_cast<CleanRelation<bool>*>(std::get<Relation<bool>*>(w.db.hirm->get_relation("Thing:" + attrs[i])));
          q *= std::exp(cell_logp<bool>(rel, {g.at(irm_of("Thing:" + attrs[i]))}, v[attrs[i]], {}, &other));
        }
        outcome(q, wt.at(-1) * std::exp(fits(g, v) - base));
      }
    };
    groups(0, 1, {});
  }
  double tot = 0;
  for (double p : probs) tot += p;
  PCHECK(ctx, pbt::near(tot, 1, 1e-6, 1e-6), "the harness's probabilities sum to %.9g", tot);
  if (ws.size() >= 1 && combos > 1) ctx.nontrivial();
  ctx.label(combos > 1 ? "new entity possible" : "only reference");
  unsigned seed = ctx.g.seed32();
  check_frequencies(
      ctx,
      [&] {
        int t = w.trial(mv, {}, seed++).first;
        for (size_t i = 0; i + 1 < ts.size(); ++i)
          if (ts[i] == t) return (int)i;
        return ts.back() == t || ts.back() == -1 ? (int)ts.size() - 1 : -1;
      },
      probs, 250, show(mv));
}

PBT_MAIN("at least two candidate entities came up and could be compared, or a new entity was possible")
