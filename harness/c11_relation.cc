// C11: a relation's clusters always describe exactly the data it holds.
#include "relworld.hh"

PROPERTY("relation/history", 12000, 400000) {
  SchemaOpts o;
  World w(ctx, o, ctx.g.range(2, 5));
  int n = 0;
  while (ctx.g.more(25, n, 120)) ++n, w.step();
  w.finish();
}

// One relation, arity up to four, every domain possibly repeated.
PROPERTY("relation/arity", 4000, 120000) {
  SchemaOpts o;
  o.max_rel = 2;
  o.max_arity = 4;
  o.max_dom = 2;
  World w(ctx, o, ctx.g.range(2, 4));
  int n = 0;
  while (ctx.g.more(30, n, 120)) ++n, w.step();
  w.finish();
}

// Many entities and observations: no size at which a cell is forgotten.
PROPERTY("relation/crowd", 40, 1200) {
  SchemaOpts o;
  o.max_rel = 2;
  o.skellam = false;
  World w(ctx, o, ctx.g.range(20, 120));
  int n = ctx.g.range(200, 700);
  for (int i = 0; i < n; ++i) {
    const RelInfo& r = w.rels[ctx.g.draw(w.rels.size())];
    w.add(r, w.gen_items(r), false);
  }
  w.check("adding many observations");
  for (int i = 0; i < 40; ++i) w.step();
  w.finish();
}

// Removing everything leaves an empty relation, whatever happened before.
PROPERTY("relation/drain", 1500, 40000) {
  SchemaOpts o;
  World w(ctx, o, ctx.g.range(2, 5));
  int n = 0;
  while (ctx.g.more(15, n, 60)) ++n, w.step();
  for (int i = (int)w.rels.size() - 1; i >= 0; --i) {
    auto& r = w.rels[i];
    std::vector<T_items> all;
    for (auto& [k, v] : w.sh[r.name]) all.push_back(k);
    for (size_t k = all.size(); k > 1; --k) std::swap(all[k - 1], all[ctx.g.draw(k)]);
    w.at(r, [&](auto* rel, auto*) {
      for (auto& k : all) {
        rel->unincorporate(k);
        w.sh[r.name].erase(k);
        PCHECK(ctx, !rel->get_data().contains(k), "%s%s is still there", r.name.c_str(), ishow(k).c_str());
      }
      PCHECK(ctx, rel->get_data().empty(), "relation %s still holds data", r.name.c_str());
      PCHECK(ctx, rel->logp_score() == 0, "empty relation %s scores %.17g", r.name.c_str(), rel->logp_score());
    });
    w.check("removing everything");
  }
  w.finish();
}

PBT_MAIN("an entity with observations was moved to another group and at least three observations remain")
