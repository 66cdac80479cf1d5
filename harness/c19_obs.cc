// C19: observation files are read, encoded and written back without loss.
#include "obsworld.hh"

static std::vector<RelInfo> gen_rels(Ctx& ctx, int max_rel) {
  SchemaOpts o;
  o.max_rel = max_rel;
  return gen_schema(ctx, o);
}
static void read_case(Ctx& ctx, int max_lines) {
  auto rels = gen_rels(ctx, 4);
  for (auto& r : rels) ctx.note("%s", show_rel(r).c_str());
  Obs want;
  std::string text;
  int n = 0;
  std::map<std::string, std::vector<std::string>> pool;
  while (ctx.g.more(max_lines / 3.0, n, max_lines)) {
    const RelInfo& r = rels[ctx.g.draw(rels.size())];
    Line l;
    l.second = gen_field(ctx, true);
    for (size_t i = 0; i < r.doms.size(); ++i) {
      auto& p = pool[r.doms[i]];
      bool last = i + 1 == r.doms.size();
      std::string e = !p.empty() && ctx.g.coin() ? p[ctx.g.draw(p.size())] : gen_field(ctx, true);
      if (last && e.empty()) e = "z";
      p.push_back(e);
      l.first.push_back(e);
    }
    want[r.name].push_back(l);
    text += (n ? "\n" : "") + show_line(r.name, l);
    ++n;
  }
  if (n && !ctx.g.chance(1, 4)) text += "\n";
  ctx.note("%s\n", text.c_str());
  MemFile f(text);
  T_schema s = unobserved(rels);
  T_observations o = load_observations(f.path, s);
  same(ctx, plain(o), want, "reading");
  PCHECK(ctx, s.size() == rels.size(), "the schema changed");
  T_schema before = unobserved(rels);
  PCHECK(ctx, show_all(s) == show_all(before), "reading observations changed the schema");
  for (auto& r : rels) {
    bool seen = std::visit([](auto& x) { return x.is_observed; }, s.at(r.name));
    PCHECK(ctx, seen == want.contains(r.name), "relation %s is marked %s", r.name.c_str(), seen ? "observed" : "not observed");
  }
  // The encoding.
  T_encoding enc = calculate_encoding(s, o);
  auto& [fwd, rev] = enc;
  std::map<std::string, std::set<std::string>> ents;
  for (auto& r : rels)
    for (size_t i = 0; i < r.doms.size(); ++i) {
      ents[r.doms[i]];
      if (want.contains(r.name))
        for (auto& l : want.at(r.name)) ents[r.doms[i]].insert(l.first[i]);
    }
  PCHECK(ctx, fwd.size() == ents.size() && rev.size() == ents.size(), "%zu domains encoded, expected %zu", fwd.size(), ents.size());
  for (auto& [d, es] : ents) {
    PCHECK(ctx, fwd.contains(d) && rev.contains(d), "domain %s is not encoded", d.c_str());
    auto& fd = fwd.at(d);
    auto& rd = rev.at(d);
    PCHECK(ctx, fd.size() == es.size() && rd.size() == es.size(), "domain %s: %zu entities, %zu names coded, %zu codes", d.c_str(), es.size(),
           fd.size(), rd.size());
    for (auto& e : es) {
      PCHECK(ctx, fd.contains(e), "domain %s: <%s> has no code", d.c_str(), e.c_str());
      PCHECK(ctx, rd.contains(fd.at(e)) && rd.at(fd.at(e)) == e, "domain %s: the code of <%s> decodes to another entity", d.c_str(), e.c_str());
    }
  }
  IRM irm(s);
  T_encoded_observations eo = encode_observations(o, enc, &irm);
  size_t total = 0;
  for (auto& [name, v] : eo) {
    PCHECK(ctx, want.contains(name) && want.at(name).size() == v.size(), "relation %s: %zu encoded observations", name.c_str(), v.size());
    const RelInfo& r = info_of(rels, name);
    for (size_t k = 0; k < v.size(); ++k) {
      auto& [items, val] = v[k];
      const Line& l = want.at(name)[k];
      PCHECK(ctx, val == l.second && items.size() == l.first.size(), "relation %s: encoding changed observation %zu", name.c_str(), k);
      for (size_t i = 0; i < items.size(); ++i)
        PCHECK(ctx, items[i] == fwd.at(r.doms[i]).at(l.first[i]), "relation %s: <%s> encoded with a foreign code", name.c_str(), l.first[i].c_str());
    }
    total += v.size();
  }
  PCHECK(ctx, (int)total == n, "%zu encoded observations of %d", total, n);
  // Writing and reading again.
  MemFile g;
  write_observations(g.path, eo, enc, &irm);
  T_schema s2 = unobserved(rels);
  same(ctx, plain(load_observations(g.path, s2)), want, "writing and reading again");
  // Merging with another set.
  Obs more, both = want;
  int m = ctx.g.draw(6);
  T_observations tm;
  for (int i = 0; i < m; ++i) {
    const RelInfo& r = rels[ctx.g.draw(rels.size())];
    Line l;
    l.second = gen_field(ctx, true);
    for (size_t a = 0; a < r.doms.size(); ++a) l.first.push_back(gen_field(ctx, true));
    tm[r.name].push_back({l.first, l.second});
    both[r.name].push_back(l);
  }
  T_observations merged = merge_observations(o, tm);
  same(ctx, plain(merged), both, "merging");
  T_encoding enc2 = calculate_encoding(s, merged);
  for (auto& [name, v] : both)
    for (auto& l : v)
      for (size_t i = 0; i < l.first.size(); ++i) {
        const std::string& d = info_of(rels, name).doms[i];
        PCHECK(ctx, enc2.first.at(d).contains(l.first[i]), "after merging <%s> has no code", l.first[i].c_str());
        PCHECK(ctx, enc2.second.at(d).at(enc2.first.at(d).at(l.first[i])) == l.first[i], "after merging codes do not invert");
      }
  if (n >= 3 && want.size() >= 2) ctx.nontrivial();
}
PROPERTY("obs/read", 6000, 300000) { read_case(ctx, 20); }
PROPERTY("obs/read-many", 20, 600) { read_case(ctx, 3000); }

PROPERTY("obs/refuse", 1500, 40000) {
  auto rels = gen_rels(ctx, 3);
  for (auto& r : rels) ctx.note("%s", show_rel(r).c_str());
  std::vector<std::string> lines;
  int n = ctx.g.range(0, 4);
  for (int i = 0; i <= n; ++i) {
    const RelInfo& r = rels[ctx.g.draw(rels.size())];
    Line l{{}, gen_field(ctx, false)};
    for (size_t a = 0; a < r.doms.size(); ++a) l.first.push_back(gen_field(ctx, false));
    std::string name = r.name;
    if (i == n) switch (ctx.g.draw(4)) {
        case 0:
          ctx.label("unknown relation");
          name = ctx.g.coin() ? name + "x" : " " + name;
          break;
        case 1:
          ctx.label("too few entities");
          l.first.resize(ctx.g.draw(l.first.size()));
          break;
        case 2:
          ctx.label("too many entities");
          do l.first.push_back(gen_field(ctx, false));
          while (ctx.g.chance(1, 3));
          break;
        default:
          ctx.label("no relation");
          lines.push_back(l.second);
          continue;
      }
    lines.push_back(show_line(name, l));
  }
  std::swap(lines[n], lines[ctx.g.draw(n + 1)]);
  std::string text;
  for (auto& l : lines) text += l + "\n";
  ctx.note("%s", text.c_str());
  auto r = pbt::isolated([&](std::string&) {
    MemFile f(text);
    T_schema s = unobserved(rels);
    load_observations(f.path, s);
  });
  PCHECK(ctx, refused(ctx, r, "reading"), "the malformed observations were accepted");
  ctx.nontrivial();
}

PROPERTY("obs/bytes", 1500, 60000) {
  auto rels = gen_rels(ctx, 2);
  std::string text;
  while (ctx.g.more(20, text.size(), 200)) {
    if (ctx.g.chance(1, 4))
      text += rels[ctx.g.draw(rels.size())].name;
    else
      text += ctx.g.chance(1, 8) ? (char)ctx.g.draw(256) : "ab,,,\n01 "[ctx.g.draw(9)];
  }
  ctx.note("%s\n", text.c_str());
  auto r = pbt::isolated([&](std::string&) {
    MemFile f(text);
    T_schema s = unobserved(rels);
    load_observations(f.path, s);
  });
  if (!refused(ctx, r, "reading")) ctx.label("accepted");
  if (text.size() > 10) ctx.nontrivial();
}

// Loads observations into a model.
template <class M>
static void load_case(Ctx& ctx, const SchemaOpts& o, int universe, int count) {
  std::mt19937 prng(ctx.g.seed32());
  DataSet d(ctx, o, universe, count, [&] { return gen_field(ctx, true); });
  auto& rels = d.rels;
  Loaded<M> l(d, &prng);
  d.check(l.m.get(), l.enc, "loading");
  for (auto& r : rels) {
    int kids = 0;
    for (auto& q : rels) kids += q.noisy && q.base == r.name;
    if (kids > 1) ctx.label(r.observed ? "shared observed base" : "shared latent base");
  }
  if (d.n_obs >= 3 && rels.size() >= 2) ctx.nontrivial();

  if constexpr (std::is_same_v<M, HIRM>) {
    if (!ctx.g.chance(1, 3)) return;
    auto& enc = l.enc;
    auto* m = l.m.get();
    // Samples written out read back as observations of the model.
    int k = ctx.g.range(1, 4);
    T_encoded_observations so = m->sample_and_incorporate(&prng, k);
    // Texts with a comma cannot be read back: a recorded defect.
    if (ctx.known("comma-in-samples"))
      for (auto& [n, v] : so) std::erase_if(v, [](auto& x) { return std::get<1>(x).find(',') != std::string::npos; });
    MemFile g;
    write_observations(g.path, so, enc, m);
    Obs want;
    for (auto& [n, v] : so) {
      const RelInfo& r = info_of(rels, n);
      for (auto& [items, val] : v) {
        Line l{{}, val};
        for (size_t i = 0; i < items.size(); ++i) {
          auto& rev = enc.second.at(r.doms[i]);
          l.first.push_back(rev.contains(items[i]) ? rev.at(items[i]) : "new_" + r.doms[i] + "_" + std::to_string(items[i]));
        }
        want[n].push_back(l);
      }
    }
    auto out = pbt::isolated([&](std::string&) {
      T_schema s2 = unobserved(rels);
      T_observations back = load_observations(g.path, s2);
      Obs b = plain(back);
      // A new entity has its own name, the same in every line.
      same(ctx, b, want, "sampling, writing and reading");
    });
    ctx.label("samples");
    PCHECK(ctx, !refused(ctx, out, "reading the samples"), "the samples written are not accepted as observations: %s", out.out.c_str());
  }
}

PROPERTY("load/other-type", 400, 10000) {
  std::mt19937 prng(ctx.g.seed32());
  SchemaOpts o;
  DataSet d(ctx, o, ctx.g.range(1, 4), ctx.g.range(1, 8), [&] { return gen_field(ctx, false); });
  std::vector<std::string> typed;
  for (auto& [n, m] : d.data)
    if (info_of(d.rels, n).type != 3) typed.push_back(n);
  if (typed.empty()) throw pbt::Discard{};
  std::string n = typed[ctx.g.draw(typed.size())];
  int type = info_of(d.rels, n).type;
  auto cell = d.data[n].begin()->first;
  std::vector<std::string> bad{"two", "--", "1x", "1 1", "e5"};
  if (type != 2) bad.push_back("0.5");
  if (type == 0) bad.push_back("2");
  std::string b = bad[ctx.g.draw(bad.size())];
  Line l{cell, b};
  std::string line = show_line(n, l), text;
  bool put = false;
  // In the place of the value of the cell.
  std::istringstream is(d.text);
  std::string x;
  while (std::getline(is, x)) {
    auto comma = x.find(',');
    auto rest = comma == std::string::npos ? "" : x.substr(comma);
    if (!put && line.substr(line.find(',')) == rest) {
      text += line + "\n";
      put = true;
    } else {
      text += x + "\n";
    }
  }
  if (!put) throw pbt::Discard{};
  ctx.note("instead:\n%s", text.c_str());
  d.text = text;
  auto r = pbt::isolated([&](std::string&) { Loaded<HIRM> m(d, &prng); });
  PCHECK(ctx, refused(ctx, r, "loading"), "the value <%s> of %s was accepted", b.c_str(), n.c_str());
  ctx.nontrivial();
}

PROPERTY("load/irm", 2500, 100000) {
  SchemaOpts o;
  load_case<IRM>(ctx, o, ctx.g.range(1, 6), ctx.g.range(0, 20));
}
PROPERTY("load/hirm", 2500, 100000) {
  SchemaOpts o;
  load_case<HIRM>(ctx, o, ctx.g.range(1, 6), ctx.g.range(0, 20));
}
PROPERTY("load/chains", 2000, 80000) {
  SchemaOpts o;
  o.min_rel = 3;
  o.max_rel = 7;
  o.max_dom = 2;
  load_case<HIRM>(ctx, o, ctx.g.range(1, 4), ctx.g.range(0, 20));
}
PROPERTY("load/many", 20, 500) {
  SchemaOpts o;
  o.skellam = false;
  o.max_arity = 2;
  load_case<HIRM>(ctx, o, ctx.g.range(20, 120), ctx.g.range(100, 500));
}

KNOWN("comma-in-samples") {
  T_clean_relation t;
  t.domains = {"D"};
  t.is_observed = true;
  t.distribution_spec = DistributionSpec("stringcat", {{"strings", "a,b"}, {"delim", ":"}});
  T_schema s{{"R", t}};
  IRM irm(s);
  T_encoding enc;
  enc.second["D"][0] = "x";
  T_encoded_observations eo{{"R", {{T_items{0}, "a,b"}}}};
  MemFile g;
  write_observations(g.path, eo, enc, &irm);
  auto out = pbt::isolated([&](std::string& p) {
    T_observations back = load_observations(g.path, s);
    if (back.contains("R") && back.at("R").size() == 1 && std::get<1>(back.at("R")[0]) == "a,b") p = "same";
  });
  return out.payload != "same";
}

PBT_MAIN("at least three observations over more than one relation or a latent relation; or a text that has to be refused")
