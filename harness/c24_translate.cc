// C24: a data-cleaning schema becomes the relational model it stands for.
#include "gworld.hh"

static void compare_schema(Ctx& ctx, const T_schema& got, const std::map<std::string, GRel>& want, const char* what) {
  for (auto& [n, r] : want) {
    PCHECK(ctx, got.contains(n), "%s: relation %s is missing", what, n.c_str());
    RefRel g = ref_of(n, got.at(n));
    const RelInfo& w = r.info;
    PCHECK(ctx, g.noisy == w.noisy && g.base == w.base, "%s: relation %s observes <%s>, expected <%s>", what, n.c_str(), g.base.c_str(), w.base.c_str());
    PCHECK(ctx, g.dist == w.dist && g.args == w.args, "%s: relation %s is %s, expected %s", what, n.c_str(), g.dist.c_str(), w.dist.c_str());
    std::string ds, es;
    for (auto& d : g.doms) ds += " " + d;
    for (auto& d : w.doms) es += " " + d;
    PCHECK(ctx, ds == es, "%s: relation %s is over%s, expected%s", what, n.c_str(), ds.c_str(), es.c_str());
    bool obs = std::visit([](auto& x) { return x.is_observed; }, got.at(n));
    PCHECK(ctx, obs == w.observed, "%s: relation %s is %sobserved", what, n.c_str(), obs ? "" : "not ");
  }
  PCHECK(ctx, got.size() == want.size(), "%s: %zu relations, expected %zu", what, got.size(), want.size());
}

static void translate(Ctx& ctx, const GOpts& o) {
  GSchema s = gen_gschema(ctx, o);
  ctx.note("%s%s", show(s).c_str(), show_options(s).c_str());
  auto want = expected(s);
  PCleanSchema ps = to_pclean(s);
  std::mt19937 prng(ctx.g.seed32());
  GenDB db(&prng, ps, s.only_final, s.clean);
  compare_schema(ctx, db.hirm->schema, want, "the model");
  for (auto& [c, vs] : s.classes) PCHECK(ctx, db.domains.at(c) == domains_of(expand(s, c)), "class %s has other domains", c.c_str());

  // Any linkage of entities: the places of each relation are where it leads.
  // Four entities per class.
  std::map<std::string, std::map<std::pair<std::string, int>, int>> links;
  for (auto& [c, vs] : s.classes)
    for (auto& [n, v] : vs)
      if (v.cls)
        for (int i = 0; i < 4; ++i) links[c][{n, i}] = ctx.g.draw(4);
  for (auto& [c, m] : links) db.reference_values[c] = m;
  size_t deepest = 0;
  for (auto& [n, r] : want) {
    for (int e = 0; e < 4; ++e) {
      std::vector<int> w(r.pos.size(), -1), g(r.pos.size(), -7);
      std::function<void(int, int)> walk = [&](int p, int item) {
        w[p] = item;
        for (auto& [f, q] : r.pos[p].refs) walk(q, links.at(r.pos[p].cls).at({f, item}));
      };
      walk(w.size() - 1, e);
      for (int x : w) PCHECK(ctx, x >= 0, "harness: a place is not reached");
      db.get_relation_items(n, g.size() - 1, e, g);
      PCHECK(ctx, g == w, "relation %s: entity %d leads to %s, expected %s", n.c_str(), e, ishow(g).c_str(), ishow(w).c_str());
    }
    // How many references follow one another?
    std::function<size_t(int)> depth = [&](int p) {
      size_t d = 0;
      for (auto& [f, q] : r.pos[p].refs) d = std::max(d, 1 + depth(q));
      return d;
    };
    deepest = std::max(deepest, depth(r.pos.size() - 1));
  }
  for (auto& [c, m] : db.reference_values) m.clear();

  // The positions at which each reference is found.
  for (auto& [c, vs] : s.classes)
    for (auto& [f, v] : vs) {
      if (!v.cls) continue;
      auto di = db.get_domain_inds(c, f);
      for (auto& [q, path] : s.fields) {
        std::set<size_t> w, g;
        auto& pos = want.at(q).pos;
        for (size_t i = 0; i < pos.size(); ++i)
          if (pos[i].cls == c && pos[i].refs.contains(f)) w.insert(i);
        if (di.contains(q)) g.insert(di.at(q).begin(), di.at(q).end());
        PCHECK(ctx, g == w, "field %s: reference %s.%s is found at %zu places, expected %zu", q.c_str(), c.c_str(), f.c_str(), g.size(), w.size());
      }
    }

  Shadow none;
  for (auto& [n, r] : want) none[n];
  check_hirm(ctx, db.hirm, infos(want), names_of(want), none, &prng);
  compare_schema(ctx, db.make_hirm_schema(), want, "translated again");

  if (deepest >= 2) ctx.nontrivial(), ctx.label("two or more references in a row");
  if (deepest >= 3) ctx.label("three or more references in a row");
  for (auto& [n, r] : want) {
    std::set<std::string> d(r.info.doms.begin(), r.info.doms.end());
    if (d.size() < r.info.doms.size()) ctx.nontrivial(), ctx.label("two paths to a class");
  }
  ctx.label(s.only_final ? "only final" : "all");
  ctx.label(s.clean ? "clean record" : "noisy record");
}

PROPERTY("translate/small", 12000, 400000) { translate(ctx, {}); }
PROPERTY("translate/deep", 4000, 120000) {
  GOpts o;
  o.max_classes = 7;
  o.refs = 3;
  o.max_width = 14;
  o.min_field = false;
  translate(ctx, o);
}
PROPERTY("translate/large", 150, 3000) {
  GOpts o;
  o.max_classes = 12;
  o.refs = 3;
  o.max_width = 40;
  o.max_vars = 5;
  o.max_fields = 20;
  translate(ctx, o);
}

// What stands for no model is refused.
PROPERTY("translate/refuse", 3000, 80000) {
  GOpts o;
  GSchema s = gen_gschema(ctx, o);
  PCleanSchema p = to_pclean(s);
  std::vector<std::string> cs;
  for (auto& [c, vs] : s.classes) cs.push_back(c);
  std::string c = cs[ctx.g.draw(cs.size())];
  std::vector<std::string> fs;
  for (auto& [f, path] : s.fields) fs.push_back(f);
  std::string f = fs[ctx.g.draw(fs.size())];
  auto& path = p.query.fields.at(f).class_path;
  switch (ctx.g.draw(7)) {
    case 0: {  // a loop: some class that c leads to refers back to c
      auto pos = expand(s, c);
      std::string from = pos[ctx.g.draw(pos.size())].cls;
      p.classes.at(from).vars["back"] = {"back", ClassVar{c}};
      ctx.note("loop: %s.back ~ %s\n", from.c_str(), c.c_str());
      break;
    }
    case 1:
      p.classes.at(c).vars["lost"] = {"lost", ClassVar{"Nowhere"}};
      ctx.note("%s.lost ~ Nowhere\n", c.c_str());
      break;
    case 2:
      p.query.record_class = ctx.g.coin() ? "Nowhere" : "";
      ctx.note("from <%s>\n", p.query.record_class.c_str());
      break;
    case 3: {
      size_t i = ctx.g.draw(path.size());
      path[i] = "nothing";
      ctx.note("path of %s: nothing at %zu\n", f.c_str(), i);
      break;
    }
    case 4:
      path.push_back("beyond");
      ctx.note("path of %s goes on\n", f.c_str());
      break;
    case 5:
      if (path.size() < 2) return;
      path.pop_back();
      ctx.note("path of %s ends early\n", f.c_str());
      break;
    default:
      p.classes.at(c).vars["odd"] = {"odd", ScalarVar{"unheard_of", {}}};
      ctx.note("%s.odd ~ unheard_of\n", c.c_str());
  }
  ctx.note("%s%s", show(s).c_str(), show_options(s).c_str());
  auto r = pbt::isolated([&](std::string& out) {
    std::mt19937 prng(1);
    GenDB db(&prng, p, s.only_final, s.clean);
  });
  PCHECK(ctx, refused(ctx, r, "building the model"), "a schema that stands for no model was accepted");
  ctx.nontrivial();
}

PBT_MAIN("a model in which two references follow one another or a class is reached by two paths, or a schema that has to be refused")
