// C26: re-linking records to entities keeps all data and its integrity.
#include "gworld.hh"
#include "inference.hh"

static void moves(Ctx& ctx, GOpts o, int mean_rows, int max_rows, int mean_ops, bool infer) {
  GWorld w(ctx, gen_gschema(ctx, o));
  bool full = ctx.g.chance(2, 3), moved = false, done = false;
  int mode = ctx.g.weighted({3, 2, 2}), next = 0;
  auto add = [&] {
    std::map<std::string, Val> row = w.gen_row(full ? 0 : 1, 3);
    if (!row.empty()) w.load(next++, row, mode == 1 || (mode == 2 && ctx.g.coin()));
  };
  while (ctx.g.more(mean_rows, next, max_rows)) add();
  int ops = 0;
  while (ctx.g.more(mean_ops, ops++, 5 * mean_ops)) {
    auto before = w.links();
    switch (ctx.g.weighted({8, 2, infer ? 1 : 0, 1})) {
      case 0: {
        std::vector<std::tuple<std::string, std::string, int>> refs;
        for (auto& [c, m] : w.links())
          for (auto& [k, to] : m) refs.push_back({c, k.first, k.second});
        if (refs.empty()) break;
        std::sort(refs.begin(), refs.end());
        auto [c, f, e] = refs[ctx.g.draw(refs.size())];
        int times = ctx.g.weighted({0, 4, 1, 1});
        for (int t = 0; t < times && w.links().at(c).contains({f, e}); ++t) {
          ctx.note("move %s.%s of %d\n", c.c_str(), f.c_str(), e);
          w.db.transition_reference(&w.prng, c, f, e);
          w.check(false, false);
        }
        done = true;
        break;
      }
      case 1:
        ctx.note("move all\n");
        w.db.transition_reference_class_and_ancestors(&w.prng, w.s.record);
        done = true;
        break;
      case 2:
        ctx.note("infer\n");
        ctx.resampled_reals = true;
        if (ctx.g.coin())
          inference_gendb(&w.prng, &w.db, 1, ctx.g.range(0, 1), 0, false);
        else
          inference_hirm(&w.prng, w.db.hirm, 1, 0, false);
        break;
      default: add();
    }
    w.check(false, false);
    moved |= before != w.links();
  }
  if (done && moved && w.rows.size() >= 2) ctx.nontrivial();
  ctx.label(w.s.only_final ? "only final" : "all");
  ctx.label(w.s.clean ? "clean record" : "noisy record");
}

PROPERTY("relink/moves", 2000, 60000) {
  GOpts o;
  o.max_width = 6;
  o.strings = false;
  moves(ctx, o, 4, 8, 5, true);
}
PROPERTY("relink/strings", 500, 15000) {
  GOpts o;
  o.max_width = 6;
  moves(ctx, o, 4, 8, 4, false);
}

// Taking a reference out and putting it back.
PROPERTY("relink/restore", 800, 25000) {
  GOpts o;
  o.max_width = 6;
  o.strings = false;
  // Categorical noise divides each observation by the ones before it, so its
  // score depends on the order.
  o.categorical = ctx.g.coin();
  GWorld w(ctx, gen_gschema(ctx, o));
  bool full = ctx.g.chance(2, 3);
  int mode = ctx.g.weighted({3, 2, 2}), n = ctx.g.range(1, 7);
  for (int i = 0; i < n; ++i) {
    std::map<std::string, Val> row = w.gen_row(full ? 0 : 1, 3);
    if (!row.empty()) w.load(i, row, mode == 1 || (mode == 2 && ctx.g.coin()));
  }
  for (int k = ctx.g.range(0, 2); k > 0; --k) {
    ctx.note("move all\n");
    w.db.transition_reference_class_and_ancestors(&w.prng, w.s.record);
  }
  w.check(false, false);
  auto all_data = [&] {
    std::map<std::string, std::string> m;
    for (auto& [r, unused] : w.want)
      std::visit(
          [&](auto* rel) {
            std::map<T_items, std::string> c;
            for (auto& [i, v] : rel->get_data()) c[i] = tshow(v);
            for (auto& [i, v] : c) m[r] += " " + ishow(i) + "=" + v;
          },
          w.db.hirm->get_relation(r));
    return m;
  };
  std::vector<std::tuple<std::string, std::string, int>> refs;
  for (auto& [c, m] : w.links())
    for (auto& [k, to] : m) refs.push_back({c, k.first, k.second});
  if (refs.empty()) throw pbt::Discard{};
  std::sort(refs.begin(), refs.end());
  int times = ctx.g.range(1, 4);
  while (times-- > 0) {
    auto [c, f, e] = refs[ctx.g.draw(refs.size())];
    std::string rc = w.s.classes.at(c).at(f).type;
    int to = w.links().at(c).at({f, e});
    ctx.note("take out %s.%s of %d, which is %d, and put it back\n", c.c_str(), f.c_str(), e, to);
    auto data = all_data();
    auto links = w.links();
    double score = w.db.logp_score();
    std::map<std::string, std::unordered_map<T_items, ObservationVariant, H_items>> stored, row;
    std::map<std::tuple<int, std::string, T_item>, int> groups;
    std::map<std::tuple<std::string, std::string, int>, int> up;
    w.db.unincorporate_reference(w.db.get_domain_inds(c, f), c, f, e, stored, groups);
    w.db.entity_crps.at(rc).unincorporate(w.db.get_reference_id(c, f, e));
    bool only = !w.db.entity_crps.at(rc).tables.contains(to);
    if (only) w.db.unincorporate_singleton(c, f, e, rc, row, groups, up);
    // Nothing that depends on the reference is left.
    for (auto& [r, rel] : w.want)
      for (size_t p = 0; p < rel.pos.size(); ++p) {
        bool dep = rel.pos[p].cls == c && rel.pos[p].refs.contains(f), gone = only && rel.pos[p].cls == rc;
        if (dep || gone)
          std::visit(
              [&](auto* q) {
                for (auto& [i, v] : q->get_data()) {
                  PCHECK(ctx, !dep || i[p] != e, "relation %s still has the cell %s, which depends on the reference", r.c_str(), ishow(i).c_str());
                  PCHECK(ctx, !gone || i[p] != to, "relation %s still has the cell %s of the entity that nothing refers to", r.c_str(), ishow(i).c_str());
                }
              },
              w.db.hirm->get_relation(r));
      }
    for (auto& [r, m] : row) {
      PCHECK(ctx, !stored.contains(r), "values of relation %s were stored twice", r.c_str());
      stored[r] = m;
    }
    w.db.reincorporate_new_refval(c, f, e, to, rc, stored, groups, up);
    PCHECK(ctx, w.links() == links, "the references are not what they were");
    auto now = all_data();
    for (auto& [r, d] : data) PCHECK(ctx, now[r] == d, "relation %s held%s, now%s", r.c_str(), d.c_str(), now[r].c_str());
    double sc = w.db.logp_score();
    PCHECK(ctx, pbt::near(sc, score, 1e-7, 1e-5) || o.categorical || ctx.largest > 1e4, "the score was %.12g, now it is %.12g", score, sc);
    w.check(false, false);
    if (!stored.empty() && w.rows.size() >= 2) ctx.nontrivial();
    ctx.label(only ? "only reference" : "shared entity");
  }
}

// Whole iterations leave no reference out: with little data every reference
// of a record, and some reference of each other kind, moves at some time.
PROPERTY("relink/reach", 1500, 30000) {
  GOpts o;
  o.max_width = 6;
  GSchema s = gen_gschema(ctx, o);
  for (auto& [c, vs] : s.classes)
    for (auto& [n, v] : vs)
      if (!v.cls) v = GVar{.type = "bool", .vtype = 0};
  GWorld w(ctx, s);
  int n = ctx.g.range(2, 4);
  for (int i = 0; i < n; ++i) w.load(i, w.gen_row(0, 1), ctx.g.coin());
  std::set<std::string> pending;
  auto goal = [&](const std::string& c, const std::pair<std::string, int>& k) {
    return c + "." + k.first + (c == s.record ? " of " + std::to_string(k.second) : "");
  };
  for (auto& [c, m] : w.links())
    for (auto& [k, to] : m) pending.insert(goal(c, k));
  if (pending.empty()) throw pbt::Discard{};
  size_t goals = pending.size();
  bool whole = ctx.g.coin();
  int steps = 0;
  const int cap = 4000;
  while (!pending.empty() && steps++ < cap) {
    auto before = w.links();
    if (whole)
      inference_gendb(&w.prng, &w.db, 1, 1, 0, false);
    else
      w.db.transition_reference_class_and_ancestors(&w.prng, s.record);
    auto now = w.links();
    // Is this entity still the same one?  Identifiers are used again, but
    // something that stayed refers to it throughout.
    std::function<bool(const std::string&, int)> stayed = [&](const std::string& c, int e) {
      if (c == s.record) return true;
      for (auto& [c2, m] : now)
        for (auto& [k, to] : m) {
          if (to != e || s.classes.at(c2).at(k.first).type != c) continue;
          auto it = before[c2].find(k);
          if (it != before[c2].end() && it->second == e && stayed(c2, k.second)) return true;
        }
      return false;
    };
    for (auto& [c, m] : now)
      for (auto& [k, to] : m) {
        if (!pending.count(goal(c, k))) continue;
        auto it = before[c].find(k);
        if (it != before[c].end() && it->second != to && stayed(c, k.second)) pending.erase(goal(c, k));
      }
  }
  std::string left;
  for (auto& p : pending) left += " " + p;
  PCHECK(ctx, pending.empty(), "%d iterations never changed%s", cap, left.c_str());
  w.check(false, false);
  if (goals >= 2) ctx.nontrivial();
  ctx.label(steps > 1000 ? "over 1000 iterations" : steps > 100 ? "over 100 iterations" : steps > 20 ? "over 20 iterations" : "at most 20 iterations");
}

PBT_MAIN("at least one reference moved or was taken out with data, over at least two rows")
