// C21: the relational command line program.
#include "proc.hh"
#include "savedtext.hh"

static std::string bin() { return getenv("VERIF_BIN_HIRM"); }

static std::map<std::string, std::set<std::string>> want_entities(DataSet& d, const std::set<std::string>& group) {
  std::map<std::string, std::set<std::string>> w;
  for (auto& n : group) {
    const RelInfo& r = info_of(d.rels, n);
    for (auto& c : d.cells[n])
      for (size_t i = 0; i < c.size(); ++i) w[r.doms[i]].insert(c[i]);
  }
  return w;
}
static void complete(Ctx& ctx, DataSet& d, Saved s, bool hier) {
  std::set<std::string> rels;
  if (!hier) s.relations[0] = d.all();
  for (auto& [t, g] : s.relations) rels.insert(g.begin(), g.end());
  PCHECK(ctx, rels == d.all(), "the saved model has %zu relations, the schema %zu", rels.size(), d.rels.size());
  PCHECK(ctx, s.models.size() == s.relations.size(), "%zu models saved for %zu groups of relations", s.models.size(), s.relations.size());
  for (auto& [t, g] : s.relations) {
    PCHECK(ctx, s.models.contains(t), "group %d has no model", t);
    auto want = want_entities(d, g);
    std::map<std::string, std::set<std::string>> got;
    for (auto& [dom, gs] : s.models.at(t))
      for (auto& [k, es] : gs) got[dom].insert(es.begin(), es.end());
    PCHECK(ctx, got == want, "model %d does not list exactly the entities of its relations", t);
  }
}

struct Job {
  Ctx& ctx;
  DataSet& d;
  TmpDir dir;
  Job(Ctx& c, DataSet& ds) : ctx(c), d(ds) {
    dir.put("m.schema", d.schema_text);
    dir.put("m.obs", d.text);
  }
  Run run(std::vector<std::string> args, const std::string& what) {
    args.push_back("m");
    Run r = run_program(dir.path, bin(), args);
    PCHECK(ctx, r.ok(), "%s: %s", what.c_str(), r.show().c_str());
    return r;
  }
};

// The number after the words, as printed.
static bool find_number(const std::string& out, const std::string& words, double* v) {
  size_t p = out.find(words);
  if (p == std::string::npos) return false;
  return sscanf(out.c_str() + p + words.size(), "%lf", v) == 1;
}

static void check_samples(Ctx& ctx, DataSet& d, const std::string& text, int n) {
  std::map<std::string, std::set<DataSet::Cell>> seen;
  std::string readable;
  for (auto& line : lines_of(text)) {
    std::vector<std::string> f(1);
    for (char c : line)
      if (c == ',')
        f.push_back("");
      else
        f.back() += c;
    const RelInfo* r = nullptr;
    for (auto& q : d.rels)
      if (f.size() >= q.doms.size() + 2 && f[f.size() - q.doms.size() - 1] == q.name) r = &q;
    PCHECK(ctx, r, "the sample <%s> is no observation", line.c_str());
    bool comma = f.size() > r->doms.size() + 2;
    PCHECK(ctx, !comma || (r->type == 3 && ctx.known("comma-in-samples")), "the sample <%s> has too many fields", line.c_str());
    if (!comma) readable += line + "\n";
    DataSet::Cell c(f.end() - r->doms.size(), f.end());
    PCHECK(ctx, seen[r->name].insert(c).second, "the cell of <%s> is sampled twice", line.c_str());
    PCHECK(ctx, !d.cells[r->name].contains(c), "the cell of <%s> is in the data", line.c_str());
    for (size_t i = 0; i < c.size(); ++i) {
      std::string pre = "new_" + r->doms[i] + "_";
      bool known = std::count(d.names.begin(), d.names.end(), c[i]);
      bool fresh = c[i].rfind(pre, 0) == 0 && c[i].size() > pre.size() && std::all_of(c[i].begin() + pre.size(), c[i].end(), is_num);
      PCHECK(ctx, known || fresh, "the sample <%s> names the unknown entity <%s>", line.c_str(), c[i].c_str());
    }
    if (comma) continue;
    std::istringstream is(f[0]);
    if (r->type == 0) PCHECK(ctx, f[0] == "0" || f[0] == "1", "<%s> is no truth value", f[0].c_str());
    if (r->type == 1) {
      int v;
      PCHECK(ctx, (is >> v) && is.eof() && in_support(*r, Val(v)), "<%s> is no value of %s", f[0].c_str(), r->name.c_str());
    }
    if (r->type == 2) {
      double v;
      PCHECK(ctx, sscanf(f[0].c_str(), "%lf", &v) == 1 && std::isfinite(v), "<%s> is no value of %s", f[0].c_str(), r->name.c_str());
    }
    if (r->type == 3) PCHECK(ctx, in_support(*r, Val(f[0])), "<%s> is no value of %s", f[0].c_str(), r->name.c_str());
  }
  for (auto& r : d.rels) {
    bool base = false;
    for (auto& q : d.rels) base |= q.noisy && q.base == r.name;
    PCHECK(ctx, (int)seen[r.name].size() == (base ? 0 : n), "%zu samples of %s, expected %d", seen[r.name].size(), r.name.c_str(), base ? 0 : n);
  }
  MemFile f(readable);
  T_schema s = unobserved(d.rels);
  auto out = pbt::isolated([&](std::string&) { load_observations(f.path, s); });
  PCHECK(ctx, !refused(ctx, out, "reading the samples"), "the samples cannot be read back: %s", out.out.c_str());
}

static void whole(Ctx& ctx, SchemaOpts o, int universe, int count) {
  bool hier = !ctx.g.chance(1, 3);
  DataSet d(ctx, o, universe, count, [&] { return gen_word(ctx); });
  // The end of each noisy chain needs data, which the generator sees to.
  int seed = ctx.g.range(0, 5), iters = ctx.g.range(0, 3), samples = hier && ctx.g.coin() ? ctx.g.range(1, 4) : 0;
  std::vector<std::string> args{"--seed=" + std::to_string(seed), "--iters=" + std::to_string(iters)};
  if (!hier || ctx.g.chance(1, 4)) args.push_back(hier ? "--mode=hirm" : "--mode=irm");
  if (samples) args.push_back("--samples=" + std::to_string(samples));
  const bool verbose = ctx.g.chance(1, 5);
  if (verbose) args.push_back("--verbose");
  // Held-out observations of clean relations: new cells, maybe new entities.
  std::string held;
  std::map<std::string, std::set<DataSet::Cell>> used;
  std::vector<std::pair<std::string, std::pair<DataSet::Cell, Val>>> held_obs;
  if (ctx.g.chance(2, 3)) {
    int fresh = 0;
    for (int i = ctx.g.range(1, 5); i > 0; --i) {
      const RelInfo& r = d.rels[ctx.g.draw(d.rels.size())];
      if (r.noisy || r.root == "skellam") continue;
      DataSet::Cell c = d.gen_cell(r);
      if (fresh < 3 && ctx.g.coin()) c[ctx.g.draw(c.size())] = "fresh" + std::to_string(ctx.g.draw(2)), ++fresh;
      if (d.cells[r.name].contains(c) || !used[r.name].insert(c).second) continue;
      // Entities of the data that a relation's model does not know count as new.
      Val v = gen_rel_value(ctx, r);
      if (auto* s = std::get_if<std::string>(&v))
        for (char& ch : *s)
          if (ch == ',') ch = '.';
      held_obs.push_back({r.name, {c, v}});
      held += show_line(r.name, {c, value_text(ctx, v)}) + "\n";
      if (held_obs.size() >= 3) break;
    }
  }
  for (auto& a : args) ctx.note("%s ", a.c_str());
  ctx.note("\n");
  const std::string ext = hier ? ".hirm" : ".irm";
  const std::string saved = "m." + std::to_string(seed) + ext;
  Job a(ctx, d), b(ctx, d);
  Run ra = a.run(args, "running"), rb = b.run(args, "running again");
  PCHECK(ctx, verbose || ra.out == rb.out, "two runs with the same inputs and seed print different things");
  PCHECK(ctx, a.dir.all() == b.dir.all(), "two runs with the same inputs and seed leave different files");
  auto files = a.dir.all();
  PCHECK(ctx, files.contains(saved), "no model was saved");
  PCHECK(ctx, files.size() == 3u + (samples > 0), "%zu files are left", files.size());
  PCHECK(ctx, files["m.obs"] == d.text && files["m.schema"] == d.schema_text, "the inputs were changed");
  ctx.note("%s\n", files[saved].c_str());
  Saved s = read_saved(ctx, files[saved], hier, d.names);
  complete(ctx, d, s, hier);
  if (samples) {
    PCHECK(ctx, files.contains(saved + ".samples"), "no samples were written");
    ctx.note("%s\n", files[saved + ".samples"].c_str());
    check_samples(ctx, d, files[saved + ".samples"], samples);
    ctx.label("samples");
  }
  double v;
  const std::string said = "Log likelihood of held out data is ";
  PCHECK(ctx, !find_number(ra.out, said, &v), "a held-out score without held-out data");
  if (!held.empty()) {
    ctx.label("held-out");
    ctx.note("held out:\n%s", held.c_str());
    Job c(ctx, d);
    c.dir.put("h.obs", held);
    auto more = args;
    more.push_back("--heldout=h.obs");
    Run rc = c.run(more, "running with held-out data");
    PCHECK(ctx, find_number(rc.out, said, &v), "no held-out score");
    PCHECK(ctx, !std::isnan(v) && v < HUGE_VAL, "the held-out score is %g", v);
    auto fc = c.dir.all();
    PCHECK(ctx, fc[saved] == files[saved], "held-out data changed the model that was learned");
  }
  // Resuming without iterations.
  a.dir.put("start", files[saved]);
  a.dir.put("h.obs", held);
  std::vector<std::string> resume{"--load=start", "--seed=77", "--iters=0", hier ? "--mode=hirm" : "--mode=irm"};
  if (!held.empty()) resume.push_back("--heldout=h.obs");
  Run rr = a.run(resume, "resuming");
  auto again = a.dir.all();
  const std::string saved77 = "m.77" + ext;
  PCHECK(ctx, again.contains(saved77), "resuming saved no model");
  same(ctx, read_saved(ctx, again[saved77], hier, d.names), s, "resuming without iterations");
  if (!held.empty()) {
    PCHECK(ctx, find_number(rr.out, said, &v), "no held-out score after resuming");
    // The same, by hand.
    MemFile fs(d.schema_text), fo(d.text), fcl(files[saved]);
    std::mt19937 prng(77);
    T_schema sc = load_schema(fs.path);
    T_observations ob = load_observations(fo.path, sc);
    T_encoding enc = calculate_encoding(sc, ob);
    std::unique_ptr<IRM> irm;
    std::unique_ptr<HIRM> hirm;
    std::vector<std::tuple<std::string, T_items, ObservationVariant>> q;
    std::map<std::pair<std::string, std::string>, int> fresh;
    for (auto& [n, cv] : held_obs) {
      const RelInfo& r = info_of(d.rels, n);
      T_items items;
      for (size_t i = 0; i < cv.first.size(); ++i) {
        auto& m = enc.first.at(r.doms[i]);
        auto it = m.find(cv.first[i]);
        items.push_back(it != m.end() ? it->second
                                      : fresh.insert({{r.doms[i], cv.first[i]}, 100000 + (int)fresh.size()}).first->second);
      }
      q.push_back({n, items, to_ov(cv.second)});
    }
    double w;
    if (hier) {
      hirm.reset(new HIRM({}, &prng));
      from_txt(&prng, hirm.get(), fs.path, fo.path, fcl.path);
      w = hirm->logp(q, &prng);
    } else {
      irm.reset(new IRM({}));
      from_txt(&prng, irm.get(), fs.path, fo.path, fcl.path);
      w = irm->logp(q, &prng);
    }
    // Values that are not observed are drawn when a model is loaded.
    bool drawn = false;
    for (auto& r : d.rels) drawn |= !r.observed;
    for (auto& r : d.rels) drawn |= r.root == "skellam";
    PCHECK(ctx, !std::isnan(v) && v < HUGE_VAL, "the held-out score after resuming is %g", v);
    PCHECK(ctx, drawn || pbt::near(v, w, 2e-5, 1e-5), "the held-out score is %g, the model gives %g", v, w);
    if (!drawn) ctx.label("held-out score recomputed");
  }
  // And on with it.
  args.push_back("--load=start");
  Run ro = a.run(args, "resuming with iterations");
  complete(ctx, d, read_saved(ctx, a.dir.all()[saved], hier, d.names), hier);
  if (iters && d.n_obs >= 3) ctx.nontrivial();
}

static SchemaOpts opts() {
  SchemaOpts o;
  return o;
}
PROPERTY("cli/whole", 750, 12000) { whole(ctx, opts(), ctx.g.range(1, 6), ctx.g.range(0, 20)); }
PROPERTY("cli/clean", 600, 10000) {
  auto o = opts();
  o.noisy = o.skellam = false;
  whole(ctx, o, ctx.g.range(1, 6), ctx.g.range(0, 25));
}
PROPERTY("cli/large", 18, 200) {
  auto o = opts();
  o.skellam = false;
  o.max_arity = 2;
  whole(ctx, o, ctx.g.range(15, 40), ctx.g.range(60, 200));
}

// Iterations are really done, and the seed is used: with this many entities
// some chains end in different groups.
PROPERTY("cli/iterations", 40, 400) {
  auto o = opts();
  o.skellam = o.noisy = false;
  o.max_arity = 2;
  bool hier = ctx.g.coin();
  DataSet d(ctx, o, ctx.g.range(40, 80), ctx.g.range(80, 160), [&] { return gen_word(ctx); });
  const std::string mode = hier ? "--mode=hirm" : "--mode=irm", ext = hier ? ".hirm" : ".irm";
  auto run = [&](int seed, int iters) {
    Job j(ctx, d);
    j.run({"--seed=" + std::to_string(seed), "--iters=" + std::to_string(iters), mode}, "running");
    return j.dir.all()["m." + std::to_string(seed) + ext];
  };
  std::map<std::string, std::set<std::string>> ents = want_entities(d, d.all());
  size_t most = 0;
  for (auto& [dom, es] : ents) most = std::max(most, es.size());
  if (most < 10) throw pbt::Discard{};
  int s = ctx.g.range(0, 1000), n = ctx.g.range(1, 3);
  ctx.note("seeds from %d, %d iterations, %s\n", s, n, mode.c_str());
  auto groups = [&](const std::string& t) {
    Saved x = read_saved(ctx, t, hier, d.names);
    complete(ctx, d, x, hier);
    std::set<std::string> out;
    for (auto& [t, doms] : x.models)
      for (auto& [dom, gs] : doms)
        for (auto& [k, es] : gs) {
          std::string g = dom + ":";
          for (auto& e : es) g += " " + e;
          out.insert(g);
        }
    return out;
  };
  bool any = false, more = false, seed = false;
  int k = 0;
  for (; k < 60 && !(any && more && seed); ++k) {
    auto g1 = groups(run(s + k, n));
    any = any || g1 != groups(run(s + k, 0));
    more = more || g1 != groups(run(s + k, n + 1));
    seed = seed || g1 != groups(run(s + k + 1, n));
  }
  PCHECK(ctx, any, "%d iterations change nothing with any of %d seeds", n, k);
  PCHECK(ctx, more, "%d and %d iterations end in the same groups with any of %d seeds", n, n + 1, k);
  PCHECK(ctx, seed, "%d seeds end in the same groups", k);
  ctx.label(k > 10 ? "over 10 seeds" : k > 3 ? "over 3 seeds" : "up to 3 seeds");
  ctx.nontrivial();
}

// A time limit of a second ends any number of iterations.
PROPERTY("cli/timeout", 8, 24) {
  bool hier = ctx.g.coin();
  DataSet d(ctx, opts(), ctx.g.range(1, 6), ctx.g.range(1, 15), [&] { return gen_word(ctx); });
  const std::string ext = hier ? ".hirm" : ".irm";
  Job j(ctx, d);
  Run r = run_program(j.dir.path, bin(), {"--iters=2000000000", "--timeout=1", hier ? "--mode=hirm" : "--mode=irm", "--seed=3", "m"}, 90);
  PCHECK(ctx, r.ok(), "with a time limit of one second: %s", r.show().c_str());
  complete(ctx, d, read_saved(ctx, j.dir.all()["m.3" + ext], hier, d.names), hier);
  ctx.nontrivial();
}

// What cannot be run is refused with an error exit and saves nothing.
PROPERTY("cli/refuse", 300, 6000) {
  DataSet d(ctx, opts(), ctx.g.range(1, 3), ctx.g.range(0, 6), [&] { return gen_word(ctx); });
  Job a(ctx, d);
  std::vector<std::string> args{"--iters=1", "m"};
  switch (ctx.g.draw(7)) {
    case 0: args = {"--iters=1"}; break;
    case 1: args.push_back("--mode=tree"); break;
    case 2: args.back() = "n"; break;
    case 3: a.dir.put("m.schema", d.schema_text + "broken ~\n"); break;
    case 4: a.dir.put("m.obs", d.text + "1,nothing,a\n"); break;
    case 5: args.push_back("--no-such-option"); break;
    default: args[0] = "--iters=many";
  }
  for (auto& s : args) ctx.note("%s ", s.c_str());
  auto before = a.dir.all();
  Run r = run_program(a.dir.path, bin(), args);
  PCHECK(ctx, !r.ok(), "the program succeeded");
  PCHECK(ctx, !r.memory_error() && !r.timed_out, "memory error or hang: %s", r.show().c_str());
  PCHECK(ctx, a.dir.all() == before, "files were written");
  ctx.nontrivial();
}

PBT_MAIN("at least one iteration over at least three observations; or a refusal")
