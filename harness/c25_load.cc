// C25: loading records keeps every reference valid and every cell recorded.
#include "gworld.hh"
#include "ptable.hh"

static void load(Ctx& ctx, const GOpts& o, int mean_rows, int max_rows, bool check_each) {
  GWorld w(ctx, gen_gschema(ctx, o));
  int mode = ctx.g.weighted({3, 3, 2});  // shared, new entities, both
  int next = ctx.g.range(0, 3);
  bool full = ctx.g.coin(), multi = false;
  w.check(true, true);
  while (ctx.g.more(mean_rows, w.rows.size(), max_rows)) {
    bool unique = mode == 1 || (mode == 2 && ctx.g.coin());
    std::map<std::string, Val> row = w.gen_row(full ? 0 : 1, 3);
    if (row.empty()) continue;
    int id = next;
    next += ctx.g.chance(1, 4) ? ctx.g.range(1, 40) : 1;
    if (row.size() > 1 && ctx.g.chance(1, 6)) {
      // The fields of a row in two steps.
      std::map<std::string, Val> a, b;
      for (auto& [f, v] : row) (ctx.g.coin() ? a : b)[f] = v;
      if (!a.empty()) w.load(id, a, unique);
      if (check_each) w.check(true, true);
      if (!b.empty()) w.load(id, b, unique);
    } else {
      w.load(id, row, unique);
    }
    if (check_each) w.check(true, true);
    multi |= row.size() > 1;
    if (mode == 1)
      for (auto& [c, crp] : w.db.entity_crps)
        for (auto& [t, cust] : crp.tables)
          PCHECK(ctx, cust.size() == 1, "entity %d of class %s is shared by rows that have entities of their own", t, c.c_str());
  }
  if (!check_each) w.check(true, true);
  size_t refs = 0;
  for (auto& [c, m] : w.links()) refs += m.size();
  if (w.rows.size() >= 2 && refs >= 2) ctx.nontrivial();
  ctx.label(w.s.only_final ? "only final" : "all");
  ctx.label(w.s.clean ? "clean record" : "noisy record");
  ctx.label(mode == 0 ? "shared" : mode == 1 ? "new entities" : "both");
  for (auto& [c, crp] : w.db.entity_crps)
    for (auto& [t, cust] : crp.tables)
      if (cust.size() > 1) ctx.label("an entity referred to twice");
}

PROPERTY("load/each", 2500, 80000) { load(ctx, {}, 3, 8, true); }
PROPERTY("load/whole", 2000, 60000) { load(ctx, {}, 12, 40, false); }
PROPERTY("load/deep", 600, 20000) {
  GOpts o;
  o.max_classes = 6;
  o.refs = 3;
  o.max_width = 11;
  o.max_fields = 6;
  load(ctx, o, 5, 12, ctx.g.coin());
}
PROPERTY("load/large", 16, 300) {
  GOpts o;
  o.max_classes = 3;
  o.max_width = 4;
  load(ctx, o, 150, 300, false);
}

// Whole tables, with missing cells, columns that are no field, and rows that
// continue those of an earlier table.
PROPERTY("load/table", 2500, 80000) {
  GOpts o;
  o.max_fields = 5;
  GWorld w(ctx, gen_gschema(ctx, o));
  int next = 0, tables = ctx.g.range(1, 3);
  size_t cells = 0;
  for (int k = 0; k < tables; ++k) {
    Table t = gen_table(ctx, w.s, w.want, ctx.g.range(0, 6));
    ctx.note("from row %d:\n%s", next, t.text.c_str());
    incorporate_observations(&w.prng, &w.db, frame(t), next);
    add_rows(w, t, next);
    next += t.rows.size();
    w.check(true, true);
    for (auto& r : t.rows) cells += r.size();
    for (auto& [c, crp] : w.db.entity_crps)
      for (auto& [e, cust] : crp.tables) PCHECK(ctx, cust.size() == 1, "two rows of the tables share entity %d of %s", e, c.c_str());
  }
  if (cells >= 3) ctx.nontrivial();
}

// References are told apart however many there are.
PROPERTY("load/reference-ids", 3, 20) {
  GSchema s;
  GVar a;
  a.type = "bool";
  GVar r;
  r.cls = true;
  r.type = "A";
  s.classes["A"]["x"] = a;
  s.classes["B"]["ref"] = r;
  s.classes["B"]["fer"] = r;
  s.classes["C"]["ref"] = r;
  s.record = "B";
  s.fields["F"] = {"ref", "x"};
  GWorld w(ctx, s);
  int n = 80000 + ctx.g.draw(20000), start = ctx.g.draw(1000000);
  std::vector<int> ids;
  for (int i = 0; i < n; ++i) {
    ids.push_back(w.db.get_reference_id("B", "ref", start + i));
    ids.push_back(w.db.get_reference_id("B", "fer", start + i));
    ids.push_back(w.db.get_reference_id("C", "ref", start + i));
  }
  for (int t = 0; t < 200; ++t) {
    int i = ctx.g.draw(n);
    PCHECK(ctx, w.db.get_reference_id("B", "ref", start + i) == ids[3 * i], "a reference changes its identifier");
  }
  std::sort(ids.begin(), ids.end());
  PCHECK(ctx, std::adjacent_find(ids.begin(), ids.end()) == ids.end(), "two of %zu references have the same identifier", ids.size());
  ctx.nontrivial();
}

PBT_MAIN("at least two rows and two references")
