// C17: re-estimating latent true values keeps models and observations consistent.
#include "mworld.hh"
#include "stats.hh"

inline bool same(const Val& a, const Val& b) {
  if (auto x = std::get_if<double>(&a))
    if (auto y = std::get_if<double>(&b)) return pbt::near(*x, *y, 1e-9, 1e-9);
  return a == b;
}

// A noise model with a fixed proposal and a score of its own, put in the place of
// the real components, so that candidates differ and every value type is exact.
template <class T>
struct Stub : Emission<T> {
  using P = std::pair<T, T>;
  T proposal;
  uint64_t seed = 0;
  std::map<P, int> pairs;
  int calls = 0;
  void incorporate(const P& x, double w = 1.0) override {
    this->N += w;
    if ((pairs[x] += (int)w) == 0) pairs.erase(x);
  }
  double f(const P& x) const { return -2.0 * (pbt::splitmix(seed ^ pbt::hash_str(tshow(x))) % 1000) / 1000.0; }
  double logp(const P& x) const override { return f(x); }
  double logp_score() const override {
    double s = 0;
    for (auto& [x, n] : pairs) s += n < 0 ? NAN : n * f(x) + 0.5 * std::lgamma(n + 1.0);
    return s;
  }
  T sample_corrupted(const T& clean, std::mt19937*) override { return clean; }
  T propose_clean(const std::vector<T>&, std::mt19937*) override { return proposal; }
  void transition_hyperparameters(std::mt19937*) override {}
};

struct Cond {
  std::vector<Val> values;  // distinct candidates
  std::vector<double> p;    // probability of each, if exact
  bool exact = true;
  bool open = false;  // rounding decides between proposals
  size_t nobs = 0;
};

template <class M>
struct LW : ModelWorld<M> {
  using ModelWorld<M>::ModelWorld;

  std::vector<const RelInfo*> children(const std::string& b) {
    std::vector<const RelInfo*> v;
    for (auto* q : this->live_rels())
      if (q->noisy && q->base == b) v.push_back(q);
    return v;
  }
  // The observations of the true value at items.
  std::vector<std::pair<const RelInfo*, T_items>> observations(const RelInfo& r, const T_items& items) {
    std::vector<std::pair<const RelInfo*, T_items>> v;
    for (auto* q : children(r.name))
      for (auto& [i, x] : this->sh[q->name])
        if (std::equal(items.begin(), items.end(), i.begin())) v.push_back({q, i});
    return v;
  }

  // The distribution the new value at items has to be drawn from.
  Cond conditional(const RelInfo& r, const T_items& items) {
    Ctx& ctx = this->ctx;
    Cond c;
    auto obs = observations(r, items);
    c.nobs = obs.size();
    if (obs.empty()) return c;
    this->at(r, [&](auto* rel, auto* tp) {
      using T = std::remove_pointer_t<decltype(tp)>;
      using P = std::pair<T, T>;
      std::vector<T> dirty;
      for (auto& [q, i] : obs) dirty.push_back(std::get<T>(this->sh[q->name].at(i)));
      // Components of the noisy relations without these observations.
      struct Cell {
        std::unique_ptr<Distribution<P>> d;
        std::vector<T> mine;
      };
      std::vector<Cell> cells;
      for (auto* q : children(r.name)) {
        auto* nr = dynamic_cast<NoisyRelation<T>*>(rel_ptr<T>(ctx, this->get(q->name), q->name));
        std::map<std::vector<int>, size_t> at;
        for (auto& [z, comp] : nr->emission_relation.clusters) {
          Cell cell;
          if (auto* st = dynamic_cast<Stub<T>*>(comp)) {
            auto* s2 = new Stub<T>;
            s2->proposal = st->proposal, s2->seed = st->seed;
            cell.d.reset(s2);
            at[z] = cells.size();
            cells.push_back(std::move(cell));
            continue;
          }
          cell.d.reset(nr->emission_relation.make_new_distribution(&this->other));
          if (!copy_params<Distribution<P>>(cell.d.get(), comp)) c.exact = false;
          at[z] = cells.size();
          cells.push_back(std::move(cell));
        }
        for (auto& [i, x] : this->sh[q->name]) {
          auto z = cell_of(nr->emission_relation.domains, i);
          if (std::equal(items.begin(), items.end(), i.begin()))
            cells[at.at(z)].mine.push_back(std::get<T>(x));
          else
            cells[at.at(z)].d->incorporate({std::get<T>(this->sh[r.name].at(T_items(i.begin(), i.begin() + r.doms.size()))), std::get<T>(x)});
        }
      }
      // Proposals of every component, in any order of the observations.
      std::vector<T> cand;
      std::sort(dirty.begin(), dirty.end());
      std::vector<std::vector<Val>> prev;
      for (int tries = 0; tries < 120; ++tries) {
        std::vector<T> now;
        for (auto& cell : cells) now.push_back(rel->nearest(&this->other, dynamic_cast<Emission<T>*>(cell.d.get())->propose_clean(dirty, &this->other), items));
        for (size_t k = 0; k < now.size(); ++k)
          if (tries && !same(now[k], cand[k])) c.exact = false;
        if (!tries) {
          cand = now;
          // Votes between characters may tie; then rounding decides them.
          for (size_t k = 0; k < cells.size(); ++k)
            if constexpr (std::is_same_v<T, std::string>)
              if (auto* bg = dynamic_cast<BigramStringEmission*>(cells[k].d.get()))
                for (int t = 0; t < 12 && !c.open; ++t) {
                  auto a = bg->insertions, b = bg->substitutions;
                  for (auto* v : {&bg->insertions, &bg->substitutions})
                    for (auto& d : *v)
                      for (double& n : d.counts) n += n > 0 ? n * 1e-11 * (this->other() % 1001) : 1e-11 * (this->other() % 1001) / 1000;
                  auto p = rel->nearest(&this->other, bg->propose_clean(dirty, &this->other), items);
                  if (!same(p, now[k])) c.open = true, c.exact = false;
                  bg->insertions = a, bg->substitutions = b;
                }
        }
        for (const T x : now) {
          bool have = false;
          for (auto& y : c.values) have |= same(x, y);
          if (!have) c.values.push_back(x);
        }
        if (!std::next_permutation(dirty.begin(), dirty.end())) break;
        if (tries == 119) c.exact = false;
      }
      if (!c.exact) return;
      std::vector<double> lp;
      for (const T x : cand) {
        double s = 0;
        for (auto& cell : cells) {
          if (cell.mine.empty()) continue;
          double a = cell.d->logp_score();
          for (const T y : cell.mine) cell.d->incorporate({x, y});
          s += cell.d->logp_score() - a;
          for (const T y : cell.mine) cell.d->unincorporate({x, y});
        }
        lp.push_back(s);
      }
      double m = *std::max_element(lp.begin(), lp.end()), tot = 0;
      if (m == -INFINITY) {
        c.exact = false;
        return;
      }
      c.p.assign(c.values.size(), 0);
      for (size_t k = 0; k < cand.size(); ++k)
        for (size_t j = 0; j < c.values.size(); ++j)
          if (same(cand[k], c.values[j])) {
            c.p[j] += std::exp(lp[k] - m);
            tot += std::exp(lp[k] - m);
            break;
          }
      for (double& x : c.p) x /= tot;
    });
    return c;
  }

  void put_stubs() {
    for (auto* q : this->live_rels())
      if (q->noisy)
        this->at(*q, [&](auto* rel, auto* tp) {
          using T = std::remove_pointer_t<decltype(tp)>;
          auto& e = dynamic_cast<NoisyRelation<T>*>(rel)->emission_relation;
          std::map<std::vector<int>, Stub<T>*> all;
          for (auto& [z, comp] : e.clusters) all[z] = nullptr;
          for (auto& [z, st] : all) {
            st = new Stub<T>;
            st->proposal = std::get<T>(gen_rel_value(this->ctx, *q));
            st->seed = this->ctx.g.seed32();
            this->ctx.note("stub of %s at %s proposes %s\n", q->name.c_str(), ishow(z).c_str(), tshow(st->proposal).c_str());
            delete e.clusters.at(z);
            e.clusters.at(z) = st;
          }
          for (auto& [i, pr] : e.data) all.at(cell_of(e.domains, i))->incorporate(pr);
        });
  }

  void one(const RelInfo& r, const T_items& items) {
    this->at(r, [&](auto* rel, auto* tp) {
      using T = std::remove_pointer_t<decltype(tp)>;
      std::unordered_map<std::string, NoisyRelation<T>*> noisy;
      for (auto* q : children(r.name))
        noisy[q->name] = dynamic_cast<NoisyRelation<T>*>(rel_ptr<T>(this->ctx, this->get(q->name), q->name));
      transition_latent_value<T>(&this->prng, items, rel, noisy);
    });
  }

  // Everything but the value at the given items stays.
  void settle(const RelInfo& r, const std::set<T_items>& may, const std::string& after) {
    Ctx& ctx = this->ctx;
    auto before = this->sh[r.name];
    refresh(ctx, this->m.get(), r, this->sh);
    for (auto& [i, v] : this->sh[r.name]) {
      PCHECK(ctx, may.contains(i) || before.at(i) == v, "%s%s changed from %s to %s", r.name.c_str(), ishow(i).c_str(), show(before.at(i)).c_str(),
             show(v).c_str());
      PCHECK(ctx, in_support(r, v), "the true value %s of %s%s is impossible", show(v).c_str(), r.name.c_str(), ishow(i).c_str());
    }
    this->check(after);
  }
  size_t index_of(const Cond& c, const Val& v) {
    for (size_t k = 0; k < c.values.size(); ++k)
      if (same(c.values[k], v)) return k;
    return c.values.size();
  }
  void expect(const RelInfo& r, const T_items& items, const Cond& c, const Val& before) {
    const Val& v = this->sh[r.name].at(items);
    Ctx& ctx = this->ctx;
    if (!c.nobs) {
      PCHECK(ctx, v == before, "%s%s has no observations but changed from %s to %s", r.name.c_str(), ishow(items).c_str(), show(before).c_str(),
             show(v).c_str());
      return;
    }
    size_t k = index_of(c, v);
    std::string all;
    for (auto& x : c.values) all += " " + show(x);
    PCHECK(ctx, c.open || k < c.values.size(), "the new value %s of %s%s is none of the proposals%s", show(v).c_str(), r.name.c_str(), ishow(items).c_str(), all.c_str());
    PCHECK(ctx, !c.exact || (k < c.values.size() && c.p[k] > 0), "the new value %s of %s%s is impossible", show(v).c_str(), r.name.c_str(), ishow(items).c_str());
  }

  std::vector<const RelInfo*> bases() {
    std::vector<const RelInfo*> v;
    for (auto* r : this->live_rels())
      if (!children(r->name).empty() && !this->sh[r->name].empty()) v.push_back(r);
    return v;
  }

  // Draw repeatedly: the conditional does not depend on the current value.
  void frequencies(const RelInfo& r, const T_items& items, const Cond& c, const std::function<void()>& move, int n) {
    if (!c.exact || c.values.size() < 2) return;
    this->ctx.nontrivial();
    this->ctx.label(r.noisy ? "frequencies, noisy base" : "frequencies");
    check_frequencies(this->ctx,
                      [&] {
                        move();
                        Val v;
                        this->at(r, [&](auto* rel, auto* tp) { v = Val(std::remove_pointer_t<decltype(tp)>(rel->get_value(items))); });
                        return index_of(c, v);
                      },
                      c.p, n, "the value of " + r.name + ishow(items));
    settle(r, {items}, "many re-estimations");
  }
};

inline SchemaOpts opts(Ctx& ctx) {
  SchemaOpts o;
  o.skellam = false;
  o.min_rel = 2;
  o.max_rel = 4;
  return o;
}

template <class M>
void prepare(Ctx& ctx, LW<M>& w, int n) {
  // Mostly observations of observations.
  auto l = w.live_rels();
  for (int i = 0; i < n; ++i) {
    const RelInfo* r = l[ctx.g.draw(l.size())];
    for (auto* q : l)
      if (q->noisy && ctx.g.coin()) r = q;
    w.add(*r, w.gen_items(*r));
  }
  if constexpr (std::is_same_v<M, HIRM>) {
    if (ctx.g.coin()) w.m->transition_cluster_assignments_all(&w.prng);
    std::vector<int> ts;
    for (auto& [t, irm] : w.m->irms) ts.push_back(t);
    std::sort(ts.begin(), ts.end());
    for (int t : ts)
      if (ctx.g.coin()) w.m->irms.at(t)->transition_cluster_assignments_all(&w.prng);
  } else {
    if (ctx.g.coin()) w.m->transition_cluster_assignments_all(&w.prng);
  }
  if (ctx.g.chance(1, 3))
    for (auto* r : w.live_rels()) w.at(*r, [&](auto* rel, auto*) { rel->transition_cluster_hparams(&w.prng, 1); });
  w.check("preparation");
}

template <class M>
void values(Ctx& ctx) {
  LW<M> w(ctx, opts(ctx), ctx.g.range(1, 4), true);
  prepare(ctx, w, ctx.g.range(2, 14));
  if (ctx.g.coin()) w.put_stubs();
  auto bs = w.bases();
  if (bs.empty()) throw pbt::Discard{};
  int n = ctx.g.range(1, 6);
  size_t most = 0;
  for (int k = 0; k < n; ++k) {
    const RelInfo& r = *bs[ctx.g.draw(bs.size())];
    T_items items;
    if (!w.pick_obs(r, &items)) return;
    Cond c = w.conditional(r, items);
    most = std::max(most, c.nobs);
    ctx.note("re-estimate %s%s (%zu observations)\n", r.name.c_str(), ishow(items).c_str(), c.nobs);
    Val before = w.sh[r.name].at(items);
    w.one(r, items);
    w.settle(r, {items}, "re-estimating a value");
    w.expect(r, items, c, before);
    if (!c.nobs) ctx.label("no observations");
    if (c.values.size() > 1) ctx.nontrivial();
    if (c.values.size() > 1 && !c.exact) ctx.label("several candidates, not exact");
  }
  if (most > 1) ctx.label("several observations");
}

PROPERTY("value/irm", 6000, 120000) { values<IRM>(ctx); }
PROPERTY("value/hirm", 3000, 60000) { values<HIRM>(ctx); }

template <class M>
void conditional(Ctx& ctx) {
  LW<M> w(ctx, opts(ctx), ctx.g.range(1, 3), true);
  prepare(ctx, w, ctx.g.range(3, 16));
  w.put_stubs();
  auto bs = w.bases();
  // A value with several candidates, if there is one.
  for (auto* r : bs)
    for (auto& [items, v] : std::map<T_items, Val>(w.sh[r->name])) {
      Cond c = w.conditional(*r, items);
      if (c.values.size() < 2 || !c.exact) continue;
      ctx.note("re-estimate %s%s (%zu observations) again and again\n", r->name.c_str(), ishow(items).c_str(), c.nobs);
      T_items it = items;
      return w.frequencies(*r, it, c, [&] { w.one(*r, it); }, 300);
    }
  throw pbt::Discard{};
}

PROPERTY("conditional/irm", 2000, 40000) { conditional<IRM>(ctx); }
PROPERTY("conditional/hirm", 1200, 20000) { conditional<HIRM>(ctx); }

template <class M>
void whole(Ctx& ctx) {
  SchemaOpts o = opts(ctx);
  LW<M> w(ctx, o, ctx.g.range(1, 4), true);
  prepare(ctx, w, ctx.g.range(2, 14));
  auto bs = w.bases();
  if (bs.empty()) throw pbt::Discard{};
  if (ctx.g.coin()) w.put_stubs();
  const RelInfo& r = *bs[ctx.g.draw(bs.size())];
  std::set<T_items> may;
  for (auto& [i, v] : w.sh[r.name])
    if (!w.observations(r, i).empty()) may.insert(i);
  ctx.note("re-estimate %s\n", r.name.c_str());
  auto move = [&] { w.m->transition_latent_values_relation(&w.prng, r.name); };
  if (may.size() == 1) {
    T_items it = *may.begin();
    Cond c = w.conditional(r, it);
    Val before = w.sh[r.name].at(it);
    move();
    w.settle(r, may, "re-estimating latent values");
    w.expect(r, it, c, before);
    w.frequencies(r, it, c, move, 300);
  } else {
    move();
    w.settle(r, may, "re-estimating latent values");
    if (may.size() > 1) ctx.nontrivial();
    ctx.label(may.empty() ? "nothing observed" : "several values");
  }
}
PROPERTY("relation/irm", 4000, 80000) { whole<IRM>(ctx); }
PROPERTY("relation/hirm", 3000, 60000) { whole<HIRM>(ctx); }

PBT_MAIN("some value had two or more different candidates, or several values were re-estimated together")
