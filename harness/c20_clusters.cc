// C20: saved model clusters reload to the same model.
#include "savedtext.hh"

static void infer(Ctx& ctx, std::mt19937* prng, IRM* m, bool hypers) {
  double t = 0;
  if (hypers && ctx.g.coin())
    for (int i = ctx.g.range(1, 3); i > 0; --i) single_step_irm_inference(prng, m, t, false, 3, true);
  else
    for (int i = ctx.g.draw(4); i > 0; --i) m->transition_cluster_assignments_all(prng);
}
static void infer(Ctx& ctx, std::mt19937* prng, HIRM* m, bool hypers) {
  if (hypers && ctx.g.coin()) {
    double t = 0;
    for (auto& [base, n] : m->base_to_noisy_relations)
      if (!std::visit([](auto& x) { return x.is_observed; }, m->schema.at(base))) m->transition_latent_values_relation(prng, base);
    m->transition_cluster_assignments_all(prng);
    for (auto& [k, irm] : m->irms) single_step_irm_inference(prng, irm, t, false, 3, false);
    return;
  }
  for (int i = ctx.g.draw(4); i > 0; --i) {
    m->transition_cluster_assignments_all(prng);
    for (auto& [t, irm] : m->irms)
      if (ctx.g.coin()) irm->transition_cluster_assignments_all(prng);
  }
}
static std::unique_ptr<IRM> fresh(IRM*, std::mt19937*) { return std::make_unique<IRM>(T_schema{}); }
static std::unique_ptr<HIRM> fresh(HIRM*, std::mt19937* prng) { return std::make_unique<HIRM>(T_schema{}, prng); }

template <class M>
static void roundtrip(Ctx& ctx, const SchemaOpts& o, int universe, int count, bool exact_score, bool spread = false) {
  constexpr bool kH = std::is_same_v<M, HIRM>;
  std::mt19937 prng(ctx.g.seed32());
  DataSet d(ctx, o, universe, count, [&] { return gen_word(ctx); });
  Loaded<M> l(d, &prng);
  d.check(l.m.get(), l.enc, "loading");
  if (spread) {
    // Many groups, with numbers of several digits.
    auto wide = [&](IRM* irm) {
      for (auto& [n, dom] : irm->domains) dom->crp.alpha = 40;
    };
    if constexpr (kH) {
      l.m->crp.alpha = 40;
      l.m->transition_cluster_assignments_all(&prng);
      for (auto& [t, irm] : l.m->irms) wide(irm), irm->transition_cluster_assignments_all(&prng);
    } else {
      wide(l.m.get());
      l.m->transition_cluster_assignments_all(&prng);
    }
  }
  infer(ctx, &prng, l.m.get(), !exact_score);
  d.check(l.m.get(), l.enc, "inference");
  Saved want = saved_of(l.m.get(), l.enc);
  MemFile f;
  to_txt(f.path, *l.m, l.enc);
  std::string text = f.get();
  ctx.note("%s\n", text.c_str());
  {
    std::ostringstream os;
    to_txt(os, *l.m, l.enc);
    PCHECK(ctx, os.str() == text, "saving to a stream and to a file differ");
  }
  same(ctx, read_saved(ctx, text, kH, d.names), want, "the saved text");
  // Reading the groups alone.
  Saved r;
  auto put = [](const std::map<std::string, std::map<int, std::vector<std::string>>>& in, Parts* p) {
    for (auto& [dom, g] : in)
      for (auto& [t, es] : g) (*p)[dom][t] = {es.begin(), es.end()};
  };
  if constexpr (kH) {
    auto [rs, ms] = load_clusters_hirm(f.path);
    for (auto& [t, ns] : rs) r.relations[t] = {ns.begin(), ns.end()};
    for (auto& [t, p] : ms) r.models[t], put(p, &r.models[t]);
  } else {
    r.models[0];
    put(load_clusters_irm(f.path), &r.models[0]);
  }
  same(ctx, r, want, "reading the groups");
  // Loading a model.
  MemFile fs(d.schema_text), fo(d.text);
  auto m2 = fresh(l.m.get(), &prng);
  from_txt(&prng, m2.get(), fs.path, fo.path, f.path);
  d.check(m2.get(), l.enc, "reloading");
  same(ctx, saved_of(m2.get(), l.enc), want, "reloading");
  if (exact_score) {
    double a = l.m->logp_score(), b = m2->logp_score();
    PCHECK(ctx, pbt::near(a, b, 1e-9, 1e-6), "the score was %.12g, after reloading it is %.12g", a, b);
  }
  MemFile f2;
  to_txt(f2.path, *m2, l.enc);
  same(ctx, read_saved(ctx, f2.get(), kH, d.names), want, "saving again");
  // The reloaded model is fully alive.
  infer(ctx, &prng, m2.get(), true);
  d.check(m2.get(), l.enc, "inference on the reloaded model");
  size_t groups = want.relations.size();
  if (!want.relations.empty() && want.relations.rbegin()->first >= 10) ctx.label("relation group 10 or higher");
  for (auto& [t, p] : want.models)
    for (auto& [dom, g] : p)
      if (g.rbegin()->first >= 10) ctx.label("entity group 10 or higher");
  for (auto& [t, p] : want.models)
    for (auto& [dom, g] : p) groups += g.size();
  if (groups >= 3 && d.n_obs >= 3) ctx.nontrivial();
}

static SchemaOpts opts() {
  SchemaOpts o;
  return o;
}
PROPERTY("clusters/irm", 1500, 50000) { roundtrip<IRM>(ctx, opts(), ctx.g.range(1, 7), ctx.g.range(0, 25), false); }
PROPERTY("clusters/hirm", 2000, 60000) {
  auto o = opts();
  o.max_rel = 6;
  roundtrip<HIRM>(ctx, o, ctx.g.range(1, 6), ctx.g.range(0, 25), false);
}
// Without noise and with the same parameters the score is a function of the groups.
PROPERTY("clusters/score", 1500, 50000) {
  auto o = opts();
  o.noisy = o.skellam = false;
  o.max_rel = 5;
  if (ctx.g.coin())
    roundtrip<HIRM>(ctx, o, ctx.g.range(1, 6), ctx.g.range(0, 25), true);
  else
    roundtrip<IRM>(ctx, o, ctx.g.range(1, 6), ctx.g.range(0, 25), true);
}
PROPERTY("clusters/many", 12, 300) {
  auto o = opts();
  o.skellam = false;
  o.max_rel = 16;
  o.min_rel = 11;
  o.max_arity = 2;
  roundtrip<HIRM>(ctx, o, ctx.g.range(20, 60), ctx.g.range(50, 200), false, ctx.g.coin());
}
PROPERTY("clusters/spread", 300, 8000) {
  auto o = opts();
  o.skellam = false;
  if (ctx.g.coin()) {
    o.max_rel = 16;
    o.min_rel = 11;
    o.max_arity = 2;
    roundtrip<HIRM>(ctx, o, ctx.g.range(1, 5), ctx.g.range(0, 25), false, true);
  } else {
    o.max_rel = 2;
    o.max_dom = 2;
    roundtrip<IRM>(ctx, o, ctx.g.range(12, 20), ctx.g.range(15, 30), false, true);
  }
}

// Saved texts that do not fit are refused or yield a sound model.
template <class M>
static void damaged(Ctx& ctx) {
  constexpr bool kH = std::is_same_v<M, HIRM>;
  std::mt19937 prng(ctx.g.seed32());
  auto o = opts();
  DataSet d(ctx, o, ctx.g.range(1, 5), ctx.g.range(0, 15), [&] { return gen_word(ctx); });
  Loaded<M> l(d, &prng);
  infer(ctx, &prng, l.m.get(), false);
  MemFile f;
  to_txt(f.path, *l.m, l.enc);
  auto ls = lines_of(f.get());
  if (ls.empty()) return;
  std::vector<std::vector<std::string>> ws;
  for (auto& x : ls) ws.push_back(words(x));
  bool must = false;  // has to be refused
  size_t i = ctx.g.draw(ls.size());
  auto& w = ws[i];
  bool rel = kH && w.size() >= 2 && std::find(ls.begin(), ls.begin() + i, "") == ls.begin() + i;
  bool ent = !rel && w.size() >= 3;
  if (!rel && !ent) return;
  size_t first = rel ? 1 : 2;
  std::string what;
  switch (ctx.g.draw(9)) {
    case 0:
      what = "a name is missing";
      w.erase(w.begin() + first + ctx.g.draw(w.size() - first));
      must = w.size() == first;
      break;
    case 1:
      what = "a name is repeated in its group";
      w.push_back(w[first]);
      must = true;
      break;
    case 2: {
      what = "a name is also in a new group";
      auto v = std::vector<std::string>(w.begin(), w.begin() + first + 1);
      v[first - 1] = "99";
      ws.insert(ws.begin() + i, v);
      must = true;
      break;
    }
    case 3:
      what = "an unknown name";
      w[first + ctx.g.draw(w.size() - first)] += "?";
      must = true;
      break;
    case 4:
      what = "an unknown domain";
      if (rel) return;
      w[0] += "?";
      must = true;
      break;
    case 5:
      what = "no group number";
      w[first - 1] = ctx.g.coin() ? "x" : "-1";
      must = true;
      break;
    case 6:
      what = "a group number twice";
      ws.insert(ws.begin() + i, w);
      must = true;
      break;
    case 7:
      what = "a line is missing";
      ws.erase(ws.begin() + i);
      must = rel;
      break;
    default: {
      what = "a line of rubbish";
      std::vector<std::string> v;
      int L = ctx.g.range(1, 4);
      for (int k = 0; k < L; ++k) v.push_back(ctx.g.coin() ? gen_word(ctx) : w[ctx.g.draw(w.size())]);
      ws.insert(ws.begin() + i, v);
    }
  }
  ctx.label(what);
  std::string text;
  for (auto& v : ws) {
    for (size_t k = 0; k < v.size(); ++k) text += (k ? " " : "") + v[k];
    text += "\n";
  }
  f.set(text);
  ctx.note("%s (%s)\n", text.c_str(), what.c_str());
  MemFile fs(d.schema_text), fo(d.text);
  auto out = pbt::isolated([&](std::string&) {
    auto m2 = fresh(l.m.get(), &prng);
    from_txt(&prng, m2.get(), fs.path, fo.path, f.path);
    // Accepted: all of the data is there and everybody is seated once.
    auto irm_ok = [&](IRM* irm) {
      for (auto& [n, dom] : irm->domains) check_crp(ctx, dom->crp, "domain " + n);
    };
    if constexpr (kH) {
      check_crp(ctx, m2->crp, "relation partition");
      for (auto& [t, irm] : m2->irms) irm_ok(irm);
      PCHECK(ctx, m2->relation_to_code.size() == d.rels.size(), "relations are missing");
    } else {
      irm_ok(m2.get());
    }
    Shadow sh = d.shadow(m2.get(), l.enc);
    for (auto& r : d.rels)
      with_type(r.type, [&](auto* tp) {
        using T = std::remove_pointer_t<decltype(tp)>;
        auto* p = rel_ptr<T>(ctx, m2->get_relation(r.name), r.name);
        PCHECK(ctx, p->get_data().size() == sh[r.name].size(), "relation %s holds %zu observations", r.name.c_str(), p->get_data().size());
        for (auto& [c, v] : sh[r.name])
          PCHECK(ctx, p->get_data().contains(c) && p->get_data().at(c) == std::get<T>(v), "relation %s lost data", r.name.c_str());
      });
    infer(ctx, &prng, m2.get(), false);
  });
  bool no = refused(ctx, out, "loading");
  PCHECK(ctx, no || !must, "the saved model was accepted although it does not fit: %s", what.c_str());
  ctx.nontrivial();
}
PROPERTY("damaged/irm", 1500, 40000) { damaged<IRM>(ctx); }
PROPERTY("damaged/hirm", 2000, 50000) { damaged<HIRM>(ctx); }

KNOWN("space-in-entity-name") {
  MemFile fs("R ~ bernoulli(D)\n"), fo("1,R,New York\n"), f;
  T_schema s = load_schema(fs.path);
  T_observations o = load_observations(fo.path, s);
  T_encoding enc = calculate_encoding(s, o);
  std::mt19937 prng(1);
  IRM irm(s);
  incorporate_observations(&prng, &irm, enc, o);
  to_txt(f.path, irm, enc);
  auto out = pbt::isolated([&](std::string& p) {
    IRM again({});
    from_txt(&prng, &again, fs.path, fo.path, f.path);
    p = "loaded";
  });
  return out.payload != "loaded";
}

PBT_MAIN("at least three groups and three observations saved; or a damaged text was loaded")
