// C27: the record-cleaning program, and how it loads and samples rows.
#include "gworld.hh"
#include "inference.hh"
#include "proc.hh"
#include "ptable.hh"
#include "savedtext.hh"
#include "stats.hh"

static std::string bin() { return getenv("VERIF_BIN_PCLEAN"); }

static size_t values(const Table& t) {
  size_t n = 0;
  for (auto& r : t.rows) n += r.size();
  return n;
}
static GSchema with_fields(Ctx& ctx, const GOpts& o) { return gen_gschema(ctx, o); }

static std::vector<std::string> commas(const std::string& line) {
  std::vector<std::string> f(1);
  for (char c : line)
    if (c == ',')
      f.push_back("");
    else
      f.back() += c;
  return f;
}

// A value as it is written in a table of samples.
static void legal(Ctx& ctx, const std::string& f, const RelInfo& r, const std::string& x) {
  const char *n = f.c_str(), *c = x.c_str();
  if (r.type == 0) PCHECK(ctx, x == "0" || x == "1", "%s: <%s> is no truth value", n, c);
  if (r.type == 1) PCHECK(ctx, !x.empty() && x.size() < 9 && std::all_of(x.begin(), x.end(), is_num) && in_support(r, Val(std::stoi(x))), "%s: <%s> is no category", n, c);
  if (r.type == 2) {
    char* e = nullptr;
    double v = std::strtod(c, &e);
    PCHECK(ctx, !x.empty() && !*e, "%s: <%s> is no number", n, c);
    // Only noise has tails that are heavy enough for a value that is not finite.
    PCHECK(ctx, std::isfinite(v) || (r.noisy && ctx.known("gaussian-noise-overflow")), "%s: <%s> is no finite number", n, c);
  }
  if (r.type == 3) {
    for (char ch : x) PCHECK(ctx, ch >= ' ' && ch <= '~', "%s: <%s> has a character that no text has", n, c);
    if (!r.noisy && r.root == "stringcat") PCHECK(ctx, std::count(r.strs.begin(), r.strs.end(), x), "%s: <%s> is none of the strings", n, c);
    if (!r.noisy && (r.root == "string_skellam" || r.root == "string_nat" || r.root == "string_normal")) {
      char* e = nullptr;
      double v = std::strtod(c, &e);
      // The empty text is a possible one of string_nat.
      if (r.root == "string_nat")
        PCHECK(ctx, std::all_of(x.begin(), x.end(), is_num), "%s: <%s> is no natural number", n, c);
      else
        PCHECK(ctx, !x.empty() && !*e && std::isfinite(v), "%s: <%s> is not the text of a number", n, c);
    }
  }
}

static void check_samples(Ctx& ctx, const GSchema& s, const std::map<std::string, GRel>& want, const std::string& text, int n) {
  auto ls = lines_of(text);
  PCHECK(ctx, (int)ls.size() == n + 1, "%zu lines for %d samples and a header", ls.size(), n);
  auto cols = commas(ls[0]);
  std::set<std::string> have(cols.begin(), cols.end()), fields;
  for (auto& [f, p] : s.fields) fields.insert(f);
  PCHECK(ctx, have == fields && cols.size() == fields.size(), "the columns are <%s>", ls[0].c_str());
  bool strings = false;
  for (auto& c : cols) strings |= want.at(c).info.type == 3;
  for (int i = 1; i <= n; ++i) {
    auto v = commas(ls[i]);
    if (v.size() > cols.size() && strings && ctx.known("comma-in-samples")) {
      ctx.label("comma in a text");
      continue;
    }
    PCHECK(ctx, v.size() == cols.size(), "sample %d has %zu values for %zu columns: <%s>", i, v.size(), cols.size(), ls[i].c_str());
    for (size_t k = 0; k < v.size(); ++k) legal(ctx, cols[k], want.at(cols[k]).info, v[k]);
  }
}

// The saved clusters, against the rows that were loaded.
static void check_clusters(Ctx& ctx, const GSchema& s, const std::map<std::string, GRel>& want, const std::string& text, const Table& t) {
  auto ls = lines_of(text);
  size_t i = 0;
  std::map<int, std::set<std::string>> groups;
  std::multiset<std::string> all;
  for (; i < ls.size() && !ls[i].empty(); ++i) {
    // Names of fields may contain blanks: take the longest name each time.
    size_t sp = ls[i].find(' ');
    PCHECK(ctx, sp != std::string::npos, "no relations in <%s>", ls[i].c_str());
    int g = number(ctx, ls[i].substr(0, sp));
    PCHECK(ctx, !groups.contains(g), "group %d is listed twice", g);
    std::string rest = ls[i].substr(sp);
    while (!rest.empty()) {
      std::string best;
      for (auto& [n, r] : want)
        if (rest.rfind(" " + n, 0) == 0 && (rest.size() == n.size() + 1 || rest[n.size() + 1] == ' ') && n.size() > best.size()) best = n;
      PCHECK(ctx, !best.empty(), "unknown relation in <%s>", ls[i].c_str());
      rest.erase(0, best.size() + 1);
      groups[g].insert(best);
      all.insert(best);
    }
  }
  PCHECK(ctx, all.size() == want.size() && std::set<std::string>(all.begin(), all.end()).size() == want.size(), "%zu relations are saved, the model has %zu", all.size(),
         want.size());
  std::map<int, std::map<std::string, std::set<std::string>>> parts;
  std::set<std::pair<std::string, int>> seen;
  int cur = -1;
  for (; i < ls.size(); ++i) {
    if (ls[i].empty()) continue;
    if (ls[i].rfind("irm=", 0) == 0) {
      cur = number(ctx, ls[i].substr(4));
      PCHECK(ctx, groups.contains(cur) && !parts.contains(cur), "model %d is listed twice or has no relations", cur);
      parts[cur];
      seen.clear();
      continue;
    }
    PCHECK(ctx, cur >= 0, "<%s> belongs to no model", ls[i].c_str());
    auto w = words(ls[i]);
    PCHECK(ctx, w.size() >= 3 && s.classes.contains(w[0]), "<%s> is no group of entities", ls[i].c_str());
    PCHECK(ctx, seen.insert({w[0], number(ctx, w[1])}).second, "a group is listed twice: <%s>", ls[i].c_str());
    for (size_t k = 2; k < w.size(); ++k) {
      PCHECK(ctx, w[k].rfind(w[0] + ":", 0) == 0, "<%s> is no entity of %s", w[k].c_str(), w[0].c_str());
      number(ctx, w[k].substr(w[0].size() + 1));
      PCHECK(ctx, parts[cur][w[0]].insert(w[k]).second, "the entity <%s> is listed twice in model %d", w[k].c_str(), cur);
    }
  }
  PCHECK(ctx, parts.size() == groups.size(), "%zu models for %zu groups of relations", parts.size(), groups.size());
  // The rows with a value of a field are the record entities of its model.
  bool by_ref = false;
  for (auto& [c, vs] : s.classes)
    for (auto& [n, v] : vs) by_ref |= v.cls && v.type == s.record;
  for (auto& [g, names] : groups) {
    std::set<std::string> rows;
    for (size_t r = 0; r < t.rows.size(); ++r) {
      // A value that is not observed cleanly needs the attribute itself.
      for (auto& [f, v] : t.rows[r]) {
        if (names.contains(f)) rows.insert(s.record + ":" + std::to_string(r));
        std::string b = want.at(f).info.base;
        for (; !b.empty(); b = want.at(b).info.base)
          if (names.contains(b) && want.at(b).cls() == s.record) rows.insert(s.record + ":" + std::to_string(r));
      }
    }
    auto& got = parts[g][s.record];
    for (auto& r : rows) PCHECK(ctx, got.contains(r), "model %d has no %s, which has values of its relations", g, r.c_str());
    if (!by_ref)
      for (auto& r : got) {
        size_t id = std::stoul(r.substr(s.record.size() + 1));
        PCHECK(ctx, id < t.rows.size() && !t.rows[id].empty(), "model %d has %s, but there is no such row with values", g, r.c_str());
      }
  }
}

struct Job {
  Ctx& ctx;
  TmpDir dir;
  Job(Ctx& c, const std::string& schema, const std::string& table, const std::string& held) : ctx(c) {
    dir.put("s.schema", schema);
    dir.put("t.csv", table);
    if (!held.empty()) dir.put("h.csv", held);
  }
  Run run(const std::vector<std::string>& args, const std::string& what) {
    Run r = run_program(dir.path, bin(), args, 120);
    PCHECK(ctx, r.ok(), "%s: %s", what.c_str(), r.show().c_str());
    return r;
  }
};
static bool find_number(const std::string& out, const std::string& words, double* v) {
  size_t p = out.find(words);
  return p != std::string::npos && sscanf(out.c_str() + p + words.size(), "%lf", v) == 1;
}

static void whole(Ctx& ctx, const GOpts& o, int rows, int max_iters) {
  GSchema s = with_fields(ctx, o);
  auto want = expected(s);
  std::string schema = show(s);
  Table t = gen_table(ctx, s, want, rows);
  ctx.note("%s%s%s", schema.c_str(), show_options(s).c_str(), t.text.c_str());
  int iters = ctx.g.range(0, max_iters), samples = ctx.g.coin() ? ctx.g.range(1, 6) : 0;
  bool out = samples || ctx.g.chance(3, 4);
  std::vector<std::string> args{"--schema=s.schema", "--obs=t.csv", "--seed=" + std::to_string(ctx.g.range(0, 50)), "--iters=" + std::to_string(iters)};
  if (out) args.push_back("--output=out");
  if (s.only_final) args.push_back(ctx.g.coin() ? "--only_final_emissions" : "--only_final_emissions=true");
  if (!s.clean) args.push_back("--record_class_is_clean=false");
  else if (ctx.g.chance(1, 3)) args.push_back("--record_class_is_clean");
  if (ctx.g.chance(1, 4)) args.push_back("--transition_entities=false");
  if (ctx.g.chance(1, 4)) args.push_back("--inference_iters=" + std::to_string(ctx.g.range(0, 2)));
  if (ctx.g.chance(1, 6)) args.push_back("--timeout=100000");
  bool verbose = ctx.g.chance(1, 6);
  if (verbose) args.push_back("--verbose");
  auto plain = args;
  if (samples) args.push_back("--samples=" + std::to_string(samples));
  Table h;
  if (ctx.g.coin()) {
    h = gen_table(ctx, s, want, ctx.g.range(1, 4));
    ctx.note("held out:\n%s", h.text.c_str());
    args.push_back("--heldout=h.csv");
  }
  for (auto& a : args) ctx.note("%s ", a.c_str());
  ctx.note("\n");
  Job a(ctx, schema, t.text, h.text), b(ctx, schema, t.text, h.text);
  Run ra = a.run(args, "running");
  Run rb = b.run(args, "running again");
  PCHECK(ctx, verbose || ra.out == rb.out, "two runs with the same inputs and seed print different things");
  auto fa = a.dir.all(), fb = b.dir.all();
  PCHECK(ctx, fa == fb, "two runs with the same inputs and seed leave different files");
  PCHECK(ctx, fa["s.schema"] == schema && fa["t.csv"] == t.text && (h.text.empty() || fa["h.csv"] == h.text), "the inputs were changed");
  PCHECK(ctx, fa.size() == 2 + !h.text.empty() + out + (samples > 0), "%zu files are left", fa.size());
  double v;
  const std::string said = "Log likelihood of held out data is ";
  bool told = find_number(ra.out, said, &v);
  PCHECK(ctx, told == !h.text.empty(), "a held-out score is %s", told ? "given without held-out rows" : "missing");
  bool real_noise = false;
  for (auto& [n, r] : want) real_noise |= r.info.noisy && r.info.type == 2;
  PCHECK(ctx, !told || std::isfinite(v) || (real_noise && ctx.known("gaussian-noise-overflow")), "the held-out score is %g", v);
  if (told && !values(h)) PCHECK(ctx, v == 0, "rows without values score %g", v);
  if (out) {
    PCHECK(ctx, fa.contains("out"), "no clusters were saved");
    ctx.note("%s\n", fa["out"].c_str());
    check_clusters(ctx, s, want, fa["out"], t);
    if (samples || told) {
      // What was learned does not depend on what is done with it.
      Run rc = b.run(plain, "running without samples and held-out rows");
      PCHECK(ctx, b.dir.all()["out"] == fa["out"], "held-out rows or samples changed the model that was learned");
    }
  }
  if (samples) {
    PCHECK(ctx, fa.contains("out.samples"), "no samples were saved");
    ctx.note("%s\n", fa["out.samples"].c_str());
    check_samples(ctx, s, want, fa["out.samples"], samples);
    ctx.label("samples");
  }
  if (told) ctx.label("held out");
  if (iters) ctx.label("inference");
  if ((samples || told || iters) && values(t) >= 2) ctx.nontrivial();
}
PROPERTY("pclean/whole", 800, 6000) {
  GOpts o;
  o.max_classes = 3;
  o.strings = false;
  whole(ctx, o, ctx.g.range(0, 8), 2);
}
PROPERTY("pclean/strings", 200, 2000) {
  GOpts o;
  o.max_classes = 3;
  o.max_vars = 2;
  o.max_fields = 3;
  whole(ctx, o, ctx.g.range(0, 4), 1);
}
PROPERTY("pclean/large", 20, 150) {
  GOpts o;
  o.max_classes = 3;
  o.max_width = 4;
  o.strings = false;
  whole(ctx, o, ctx.g.range(30, 90), 1);
}

// A time limit of a second ends any number of iterations.
PROPERTY("pclean/timeout", 8, 24) {
  GOpts o;
  o.max_classes = 3;
  o.strings = false;
  GSchema s = with_fields(ctx, o);
  auto want = expected(s);
  Table t = gen_table(ctx, s, want, ctx.g.range(1, 6));
  ctx.note("%s%s", show(s).c_str(), t.text.c_str());
  Job a(ctx, show(s), t.text, "");
  bool entities = ctx.g.coin();
  Run r = run_program(a.dir.path, bin(),
                      {"--schema=s.schema", "--obs=t.csv", "--seed=1", "--iters=2000000000", "--timeout=1", "--output=out",
                       entities ? "--transition_entities=true" : "--transition_entities=false"},
                      90);
  PCHECK(ctx, r.ok(), "with a time limit of one second: %s", r.show().c_str());
  PCHECK(ctx, a.dir.all().contains("out"), "no clusters were saved");
  ctx.nontrivial();
}

PROPERTY("pclean/refuse", 400, 3000) {
  GOpts o;
  o.max_classes = 3;
  GSchema s = with_fields(ctx, o);
  s.only_final = false, s.clean = true;
  auto want = expected(s);
  Table t = gen_table(ctx, s, want, ctx.g.range(1, 4));
  std::string schema = show(s), table = t.text, what;
  std::vector<std::string> args{"--schema=s.schema", "--obs=t.csv", "--iters=0", "--output=out"};
  switch (ctx.g.draw(9)) {
    case 0: args.erase(args.begin()), what = "no schema"; break;
    case 1: args.erase(args.begin() + 1), what = "no table"; break;
    case 2: args[0] += ".gone", what = "no such schema"; break;
    case 3: args[1] += ".gone", what = "no such table"; break;
    case 4: schema += "\nclass\n", what = "no schema text"; break;
    case 5: args.pop_back(), args.push_back("--samples=2"), what = "nowhere to write samples"; break;
    case 6: args.push_back("--iter=3"), what = "unknown option"; break;
    case 7: {
      // A value that its column cannot have.
      std::string f;
      for (auto& c : t.cols)
        if (want.contains(c) && want.at(c).info.type != 3) f = c;
      if (f.empty()) throw pbt::Discard{};
      std::string bad[] = {"two", "1x", "--", "."};
      for (size_t i = 0; i < t.cols.size(); ++i) table += (i ? "," : "") + (t.cols[i] == f ? bad[ctx.g.draw(4)] : std::string(t.cols.size() > 1 ? "" : ""));
      table += "\n";
      what = "a value of another type";
      break;
    }
    default:
      if (t.cols.size() < 2) throw pbt::Discard{};
      table += "1\n";
      what = "a short row";
  }
  ctx.note("%s:\n%s%s", what.c_str(), schema.c_str(), table.c_str());
  Job a(ctx, schema, table, "");
  Run r = run_program(a.dir.path, bin(), args);
  PCHECK(ctx, !r.ok(), "%s: the program succeeded: %s", what.c_str(), r.show().c_str());
  PCHECK(ctx, !r.memory_error() && !r.timed_out, "%s: memory error or hang: %s", what.c_str(), r.show().c_str());
  PCHECK(ctx, a.dir.all().size() == 2, "%s: files were written", what.c_str());
  ctx.label(what.c_str());
  ctx.nontrivial();
}

// ---- the library ----
static void library(Ctx& ctx, const GOpts& o, int rows, bool infer) {
  GWorld w(ctx, gen_gschema(ctx, o));
  Table t = gen_table(ctx, w.s, w.want, rows);
  ctx.note("%s", t.text.c_str());
  incorporate_observations(&w.prng, &w.db, frame(t));
  add_rows(w, t, 0);
  w.check(true, true);
  for (auto& [c, crp] : w.db.entity_crps)
    for (auto& [e, cust] : crp.tables) PCHECK(ctx, cust.size() == 1, "two rows of the table share entity %d of %s", e, c.c_str());
  bool moved = infer && ctx.g.chance(2, 3);
  if (moved) {
    ctx.note("inference\n");
    ctx.resampled_reals = true;
    inference_gendb(&w.prng, &w.db, 1, ctx.g.range(0, 1), 0, false);
    w.check(false, false);
  }
  int next = t.rows.size();
  if (ctx.g.chance(2, 3)) {
    Table h = gen_table(ctx, w.s, w.want, ctx.g.range(1, 4));
    ctx.note("held out:\n%s", h.text.c_str());
    incorporate_observations(&w.prng, &w.db, frame(h), next);
    add_rows(w, h, next);
    next += h.rows.size();
    w.check(!moved, !moved);
    ctx.label("held out");
  }
  int n = ctx.g.range(0, 5);
  ctx.note("%d samples from row %d\n", n, next);
  auto links = w.links();
  for (int i = 0; i < n; ++i) w.sampled.insert(next + i);
  DataFrame df = make_pclean_samples(n, next, &w.db, &w.prng);
  for (auto& [c, m] : links)
    for (auto& [k, to] : m) {
      auto it = w.links().at(c).find(k);
      PCHECK(ctx, it != w.links().at(c).end() && it->second == to, "sampling changed %s.%s of %d", c.c_str(), k.first.c_str(), k.second);
    }
  for (auto& [f, p] : w.s.fields) {
    PCHECK(ctx, df.data.contains(f) && (int)df.data[f].size() == n, "column %s has %zu values for %d samples", f.c_str(), df.data[f].size(), n);
    const RelInfo& r = w.want.at(f).info;
    for (int i = 0; i < n; ++i) {
      legal(ctx, f, r, df.data[f][i]);
      with_type(r.type, [&](auto* tp) {
        using T = std::remove_pointer_t<decltype(tp)>;
        auto* rel = rel_ptr<T>(ctx, w.db.hirm->get_relation(f), f);
        T_items at = w.walk(f, next + i);
        PCHECK(ctx, rel->get_data().contains(at), "sample %d is not in relation %s", i, f.c_str());
        T v = rel->get_value(at);
        std::ostringstream ss;
        ss << v;
        PCHECK(ctx, ss.str() == df.data[f][i], "%s of sample %d is <%s>, the model holds <%s>", f.c_str(), i, df.data[f][i].c_str(), ss.str().c_str());
        w.rows[next + i][f] = Val(v);
        if constexpr (std::is_same_v<T, double>) ctx.largest = std::max(ctx.largest, std::fabs(v));
      });
    }
  }
  PCHECK(ctx, df.data.size() == w.s.fields.size(), "%zu columns for %zu fields", df.data.size(), w.s.fields.size());
  ctx.resampled_reals = true;
  w.check(false, false);
  // Names for everything that is in a cluster.
  T_encoding enc = make_dummy_encoding_from_gendb(w.db);
  for (auto& [t2, irm] : w.db.hirm->irms)
    for (auto& [d, dom] : irm->domains) {
      std::set<std::string> names;
      for (int e : dom->items) {
        PCHECK(ctx, enc.second.contains(d) && enc.second.at(d).contains(e), "entity %d of %s has no name", e, d.c_str());
        PCHECK(ctx, names.insert(enc.second.at(d).at(e)).second, "two entities of %s have the name %s", d.c_str(), enc.second.at(d).at(e).c_str());
      }
    }
  // And on with it.
  if (infer && ctx.g.coin()) {
    ctx.note("inference\n");
    inference_gendb(&w.prng, &w.db, 1, 1, 0, false);
    // Any row may now share the entities of sampled ones.
    for (auto& [id, r] : w.rows) w.sampled.insert(id);
    w.check(false, false);
    ctx.label("inference after samples");
  }
  if (n && values(t) >= 2) ctx.nontrivial();
}
PROPERTY("library/rows", 5000, 40000) {
  GOpts o;
  o.strings = false;
  library(ctx, o, ctx.g.range(0, 8), true);
}
PROPERTY("library/strings", 500, 5000) {
  GOpts o;
  o.max_vars = 2;
  library(ctx, o, ctx.g.range(0, 5), ctx.g.chance(1, 4));
}

// A sampled row refers to an entity in proportion to the references it has, and
// to a new one in proportion to the concentration; its values follow.
PROPERTY("library/references", 40, 600) {
  GSchema s;
  GVar x, r;
  x.type = "bool";
  r.cls = true;
  r.type = "A";
  s.classes["A"]["x"] = x;
  s.classes["B"]["ref"] = r;
  bool deep = ctx.g.coin();
  s.record = "B";
  s.fields["F"] = {"ref", "x"};
  if (deep) {
    GVar q;
    q.cls = true;
    q.type = "B";
    s.classes["C"]["up"] = q;
    s.record = "C";
    s.fields["F"] = {"up", "ref", "x"};
  }
  s.only_final = ctx.g.coin();
  uint32_t seed = ctx.g.seed32();
  int rows = ctx.g.range(1, 6);
  std::vector<bool> vals;
  for (int i = 0; i < rows; ++i) vals.push_back(ctx.g.coin());
  PCleanSchema ps = to_pclean(s);
  ctx.note("%s%d rows\n", show(s).c_str(), rows);
  std::map<int, size_t> base;
  double alpha = 0;
  std::string rc = deep ? "C" : "B", rf = deep ? "up" : "ref", ec = deep ? "B" : "A";
  auto trial = [&](uint32_t t) {
    std::mt19937 p1(seed);
    GenDB db(&p1, ps, s.only_final, true);
    for (int i = 0; i < rows; ++i) db.incorporate(&p1, {i, {{"F", ObservationVariant((bool)vals[i])}}}, false);
    if (base.empty()) {
      for (auto& [e, cust] : db.entity_crps.at(ec).tables) base[e] = cust.size();
      alpha = db.entity_crps.at(ec).alpha;
    }
    std::mt19937 p2(t);
    make_pclean_samples(1, rows, &db, &p2);
    int e = db.reference_values.at(rc).at({rf, rows});
    int k = 0;
    for (auto& [b, n] : base) {
      if (b == e) return k;
      ++k;
    }
    return k;
  };
  trial(1);
  std::vector<double> p;
  double tot = alpha;
  for (auto& [e, n] : base) tot += n;
  for (auto& [e, n] : base) p.push_back(n / tot);
  p.push_back(alpha / tot);
  std::mt19937 seeds(seed + 1);
  check_frequencies(ctx, [&] { return trial(seeds()); }, p, 700, "the entity of a sampled row");
  if (base.size() > 1) ctx.nontrivial();
}

KNOWN("comma-in-samples") {
  DataFrame a;
  a.columns = {"x"};
  a.data["x"] = {"a,b"};
  std::ostringstream os;
  a.to_csv(os);
  return os.str() == "x\na,b\n";
}

PBT_MAIN("inference, samples or held-out rows on a table with at least two values; a refusal; samples with a choice of entities")
