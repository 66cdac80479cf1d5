// Generated data-cleaning schemas, and what relational model they stand for.
#pragma once
#include "distributions/zero_mean_normal.hh"
#include "gendb.hh"
#include "pclean/schema.hh"
#include "schematext.hh"

struct GVar {
  bool cls = false;
  std::string type;  // a class, or the name of a joint distribution
  std::map<std::string, std::string> params;
  int vtype = 0;
  int k = 2;
  std::vector<std::string> strs;
};
struct GSchema {
  std::map<std::string, std::map<std::string, GVar>> classes;
  std::string record;
  std::map<std::string, std::vector<std::string>> fields;
  bool only_final = false, clean = true;
};

struct GOpts {
  int max_classes = 4, max_vars = 3, max_fields = 4, max_width = 7;
  bool strings = true;       // attributes whose noise is the bigram one
  bool min_field = true;     // at least one query field
  int refs = 2;              // at most this many references per class
  bool categorical = true;   // noise with a history-dependent split
};

inline const char* joint_dist(const std::string& j) {
  static const std::map<std::string, const char*> m = {{"bool", "bernoulli"},       {"categorical", "categorical"}, {"real", "normal"},
                                                       {"string", "bigram"},        {"stringcat", "stringcat"},     {"typo_int", "string_skellam"},
                                                       {"typo_nat", "string_nat"}, {"typo_real", "string_normal"}};
  return m.at(j);
}
inline const char* joint_noise(const std::string& j) {
  static const std::map<std::string, const char*> m = {{"bool", "sometimes_bitflip"}, {"categorical", "sometimes_categorical"}, {"real", "sometimes_gaussian"}};
  auto it = m.find(j);
  return it == m.end() ? "bigram" : it->second;
}

inline GVar gen_attribute(Ctx& ctx, const GOpts& o) {
  GVar v;
  static const char* names[] = {"bool", "real", "categorical", "string", "stringcat", "typo_int", "typo_nat", "typo_real"};
  int s = o.strings ? 1 : 0;
  v.type = names[ctx.g.weighted({4, 3, o.categorical ? 2 : 0, 2 * s, 2 * s, s, s, s})];
  if (v.type == "bool") {
    v.vtype = 0;
  } else if (v.type == "categorical") {
    v.vtype = 1;
    v.k = ctx.g.range(1, 4);
    v.params["k"] = std::to_string(v.k);
  } else if (v.type == "real") {
    v.vtype = 2;
  } else {
    v.vtype = 3;
    if (v.type == "stringcat") {
      static const char* pool[] = {"yes", "no", "maybe", "ab", "x"};
      int n = ctx.g.range(1, 4);
      std::string j, d = ctx.g.coin() ? ":" : " ";
      for (int i = 0; i < n; ++i) v.strs.push_back(pool[i]), j += (i ? d : "") + pool[i];
      v.params["strings"] = j;
      if (d != " ") v.params["delim"] = d;
    } else if (v.type == "string" || v.type == "typo_nat") {
      v.params["maxlength"] = "7";
    }
  }
  return v;
}

// One place in a relation's list of entities.
struct Pos {
  std::string cls;
  std::map<std::string, int> refs;  // reference field -> place it leads to
};
inline std::vector<Pos> expand(const GSchema& s, const std::string& c) {
  std::vector<Pos> out;
  Pos me{c, {}};
  for (auto& [n, v] : s.classes.at(c)) {
    if (!v.cls) continue;
    int off = out.size();
    for (Pos p : expand(s, v.type)) {
      for (auto& [f, i] : p.refs) i += off;
      out.push_back(p);
    }
    me.refs[n] = out.size() - 1;
  }
  out.push_back(me);
  return out;
}

struct GRel {
  RelInfo info;
  std::vector<Pos> pos;
  std::string cls() const { return pos.back().cls; }
};

inline RelInfo attribute_info(const GVar& v) {
  RelInfo r;
  r.type = v.vtype;
  r.args = v.params;
  r.k = v.k;
  r.strs = v.strs;
  r.root = joint_dist(v.type);
  return r;
}
inline std::vector<std::string> domains_of(const std::vector<Pos>& p) {
  std::vector<std::string> d;
  for (auto& x : p) d.push_back(x.cls);
  return d;
}

inline std::map<std::string, GRel> expected(const GSchema& s) {
  std::map<std::string, GRel> out;
  auto add = [&](RelInfo r, const std::vector<Pos>& pos) {
    r.doms = domains_of(pos);
    out[r.name] = GRel{r, pos};
  };
  for (auto& [c, vs] : s.classes)
    for (auto& [n, v] : vs)
      if (!v.cls) {
        RelInfo r = attribute_info(v);
        r.name = c + ":" + n;
        r.dist = joint_dist(v.type);
        r.observed = false;
        add(r, expand(s, c));
      }
  for (auto& [f, path] : s.fields) {
    std::vector<std::string> cs{s.record};
    for (size_t i = 0; i + 1 < path.size(); ++i) cs.push_back(s.classes.at(cs.back()).at(path[i]).type);
    const GVar& v = s.classes.at(cs.back()).at(path.back());
    std::string base = cs.back() + ":" + path.back();
    std::vector<Pos> pos = expand(s, cs.back());
    if (path.size() == 1 && s.clean) {
      RelInfo r = out.at(base).info;
      out.erase(base);
      r.name = f;
      r.observed = true;
      add(r, pos);
      continue;
    }
    auto noisy = [&](const std::string& name, const std::string& b, size_t arity, bool obs) {
      RelInfo r = attribute_info(v);
      r.name = name;
      r.noisy = true;
      r.dist = joint_noise(v.type);
      r.base = b;
      r.base_arity = arity;
      r.observed = obs;
      add(r, pos);
    };
    if (path.size() == 1) {
      noisy(f, base, pos.size(), true);
      continue;
    }
    size_t arity = pos.size();
    for (int i = (int)path.size() - 2; i >= 0; --i) {
      int last = pos.size() - 1;
      pos.push_back(Pos{cs[i], {{path[i], last}}});
      if (s.only_final && i) continue;
      std::string name = i ? cs[i] + "::" + f : f;
      noisy(name, base, arity, i == 0);
      base = name;
      arity = pos.size();
    }
  }
  return out;
}

inline GSchema gen_gschema(Ctx& ctx, const GOpts& o) {
  GSchema s;
  s.only_final = ctx.g.chance(1, 3);
  s.clean = !ctx.g.chance(1, 3);
  int n = ctx.g.range(1, o.max_classes);
  std::set<std::string> used;
  std::vector<std::string> order;  // each refers to earlier ones only
  static const char* heads[] = {"A", "Z", "M", "Rec", "B", "City", "K"};
  auto name = [&](bool cls, std::set<std::string>& seen) {
    static const char* vars[] = {"a", "z", "name", "m", "ref", "Q", "_v"};
    std::string x = cls ? heads[ctx.g.draw(7)] : vars[ctx.g.draw(7)];
    while (!seen.insert(x).second) x += std::to_string(ctx.g.draw(10));
    return x;
  };
  for (int i = 0; i < n; ++i) {
    std::string c = name(true, used);
    auto& vs = s.classes[c];
    std::set<std::string> seen;
    int refs = order.empty() ? 0 : ctx.g.range(i == n - 1 ? 1 : 0, o.refs);
    size_t width = 1;
    for (int r = 0; r < refs; ++r) {
      const std::string& to = ctx.g.chance(1, 2) ? order.back() : order[ctx.g.draw(order.size())];
      size_t w = expand(s, to).size();
      if (width + w > (size_t)o.max_width) continue;
      width += w;
      GVar v;
      v.cls = true;
      v.type = to;
      vs[name(false, seen)] = v;
    }
    int attrs = ctx.g.range(i == 0 ? 1 : 0, o.max_vars);
    for (int a = 0; a < attrs; ++a) vs[name(false, seen)] = gen_attribute(ctx, o);
    order.push_back(c);
  }
  s.record = ctx.g.chance(1, 10) ? order[ctx.g.draw(order.size())] : order.back();
  // Fields: walks from the record class to an attribute.
  int k = ctx.g.range(o.min_field ? 1 : 0, o.max_fields);
  std::set<std::string> fseen;
  std::set<std::vector<std::string>> direct;
  for (int i = 0; i < k; ++i) {
    std::vector<std::string> path;
    std::string c = s.record;
    while (true) {
      std::vector<std::string> refs, attrs;
      for (auto& [m, v] : s.classes.at(c)) (v.cls ? refs : attrs).push_back(m);
      if (!refs.empty() && (attrs.empty() || ctx.g.chance(2, 3))) {
        path.push_back(refs[ctx.g.draw(refs.size())]);
        c = s.classes.at(c).at(path.back()).type;
      } else if (!attrs.empty()) {
        path.push_back(attrs[ctx.g.draw(attrs.size())]);
        break;
      } else {
        path.clear();
        break;
      }
    }
    if (path.empty()) continue;
    if (path.size() == 1 && !direct.insert(path).second) continue;
    static const char* fn[] = {"F", "a", "Zed", "Room Type", "q", "x_1"};
    std::string f = fn[ctx.g.draw(6)];
    while (!fseen.insert(f).second) f += std::to_string(ctx.g.draw(10));
    s.fields[f] = path;
  }
  if (o.min_field && s.fields.empty()) {
    // A dead end: give the record class an attribute of its own.
    GVar v = gen_attribute(ctx, o);
    s.classes[s.record]["own"] = v;
    s.fields["F"] = {"own"};
  }
  return s;
}

inline std::string show(const GSchema& s) {
  std::string o;
  for (auto& [c, vs] : s.classes) {
    o += "class " + c + "\n";
    for (auto& [n, v] : vs) {
      o += "  " + n + " ~ " + v.type;
      if (!v.params.empty()) {
        o += "(";
        for (auto& [k, x] : v.params) o += (o.back() == '(' ? "" : ", ") + k + "=\"" + x + "\"";
        o += ")";
      }
      o += "\n";
    }
    o += "\n";
  }
  o += "observe\n";
  for (auto& [f, p] : s.fields) {
    o += "  ";
    for (size_t i = 0; i < p.size(); ++i) o += (i ? "." : "") + p[i];
    o += " as \"" + f + "\"\n";
  }
  o += "  from " + s.record + "\n";
  return o;
}
inline std::string show_options(const GSchema& s) {
  return std::string(s.only_final ? "only final emissions, " : "all emissions, ") + (s.clean ? "clean record class\n" : "noisy record class\n");
}

inline PCleanSchema to_pclean(const GSchema& s) {
  PCleanSchema p;
  for (auto& [c, vs] : s.classes) {
    auto& pc = p.classes[c];
    pc.name = c;
    for (auto& [n, v] : vs) {
      auto& pv = pc.vars[n];
      pv.name = n;
      if (v.cls)
        pv.spec = ClassVar{v.type};
      else
        pv.spec = ScalarVar{v.type, v.params};
    }
  }
  p.query.record_class = s.record;
  for (auto& [f, path] : s.fields) p.query.fields[f] = QueryField{f, path};
  return p;
}
inline std::vector<RelInfo> infos(const std::map<std::string, GRel>& e) {
  std::vector<RelInfo> v;
  for (auto& [n, r] : e) v.push_back(r.info);
  return v;
}
inline std::set<std::string> names_of(const std::map<std::string, GRel>& e) {
  std::set<std::string> v;
  for (auto& [n, r] : e) v.insert(n);
  return v;
}

// A value for a relation; observations of it, or what its attribute may be.
KNOWN("gaussian-noise-overflow") {
  std::mt19937 prng(1);
  ZeroMeanNormal d;
  d.alpha = 1e-4;  // of the grid that the parameter is drawn from
  for (int i = 0; i < 50; ++i)
    if (!std::isfinite(d.sample(&prng))) return true;
  return false;
}
static pbt::RegisterCrash overflow_crash("gaussian-noise-overflow", "Normal::transition_hyperparameters");

inline Val gen_gvalue(Ctx& ctx, const RelInfo& r) {
  if (!r.noisy && r.root == "string_skellam") return std::to_string(ctx.g.range(-9, 9));
  if (!r.noisy && r.root == "string_normal") return pbt::fmt("%g", ctx.g.range(-24, 24) / 4.0);
  return gen_rel_value(ctx, r);
}

// A database that rows are loaded into, and what it has to hold.
struct GWorld {
  Ctx& ctx;
  GSchema s;
  std::map<std::string, GRel> want;
  std::vector<RelInfo> all;
  std::set<std::string> names;
  PCleanSchema ps;
  std::mt19937 prng;
  GenDB db;
  std::map<int, std::map<std::string, Val>> rows;
  std::set<int> sampled;  // rows that were sampled: only what they use is there

  GWorld(Ctx& c, const GSchema& gs)
      : ctx(c), s(gs), want(expected(s)), all(infos(want)), names(names_of(want)), ps(to_pclean(s)), prng(c.g.seed32()), db(&prng, ps, s.only_final, s.clean) {
    ctx.note("%s%s", show(s).c_str(), show_options(s).c_str());
  }

  using Links = std::map<std::string, std::map<std::pair<std::string, int>, int>>;
  const Links& links() const { return db.reference_values; }

  void load(int id, const std::map<std::string, Val>& vals, bool unique) {
    std::map<std::string, ObservationVariant> ov;
    std::string t;
    for (auto& [f, v] : vals) {
      ov[f] = to_ov(v);
      t += " " + f + "=" + ::show(v);
      if (auto* d = std::get_if<double>(&v)) ctx.largest = std::max(ctx.largest, std::fabs(*d));
      rows[id][f] = v;
    }
    ctx.note("row %d%s:%s\n", id, unique ? " (new entities)" : "", t.c_str());
    db.incorporate(&prng, {id, ov}, unique);
  }
  std::map<std::string, Val> gen_row(int num, int den) {
    std::map<std::string, Val> v;
    for (auto& [f, p] : s.fields)
      if (!ctx.g.chance(num, den)) v[f] = gen_gvalue(ctx, want.at(f).info);
    return v;
  }

  // Where the references of entity e of the relation's class lead.
  T_items walk(const std::string& rel, int e) const {
    const GRel& r = want.at(rel);
    T_items w(r.pos.size());
    std::function<void(int, int)> go = [&](int p, int item) {
      w[p] = item;
      for (auto& [f, q] : r.pos[p].refs) {
        auto& l = links().at(r.pos[p].cls);
        auto it = l.find({f, item});
        PCHECK(ctx, it != l.end(), "%s: entity %d of class %s has no %s", rel.c_str(), item, r.pos[p].cls.c_str(), f.c_str());
        go(q, it->second);
      }
    };
    go(w.size() - 1, e);
    return w;
  }

  std::map<std::string, std::set<int>> entities() const {
    std::map<std::string, std::set<int>> e;
    for (auto& [c, vs] : s.classes) e[c];
    for (auto& [c, m] : links())
      for (auto& [k, to] : m) e.at(s.classes.at(c).at(k.first).type).insert(to);
    for (auto& [id, r] : rows) e.at(s.record).insert(id);
    return e;
  }

  // What there has to be: the cells of observed relations, and the latent
  // values that they call for.
  std::map<std::string, std::set<int>> needed() const {
    std::map<std::string, std::set<int>> cells;
    std::set<std::pair<std::string, int>> done;
    std::function<void(const std::string&, int)> need;
    auto base_of = [&](const std::string& rel, int e) {
      const GRel& r = want.at(rel);
      if (!r.info.noisy) return;
      need(r.pos[r.info.base_arity - 1].cls, walk(rel, e)[r.info.base_arity - 1]);
    };
    std::function<void(const std::string&, int)> chain = [&](const std::string& rel, int e) {
      const GRel& r = want.at(rel);
      cells[rel].insert(e);
      if (r.info.noisy) chain(r.info.base, walk(rel, e)[r.info.base_arity - 1]);
    };
    need = [&](const std::string& c, int e) {
      if (!done.insert({c, e}).second) return;
      for (auto& [n, r] : want)
        if (!r.info.observed && r.cls() == c) {
          cells[n].insert(e);
          base_of(n, e);
        }
    };
    for (auto& [id, vals] : rows)
      for (auto& [f, v] : vals) {
        if (sampled.contains(id)) {
          chain(f, id);
          continue;
        }
        cells[f].insert(id);
        base_of(f, id);
      }
    return cells;
  }

  // What holds a value that is not finite, or has no finite square, cannot be
  // checked further.
  void check_overflow() {
    if (!ctx.known("gaussian-noise-overflow")) return;
    for (auto& [r, tr] : db.hirm->schema) {
      RelationVariant rv = db.hirm->get_relation(r);
      if (auto* rel = std::get_if<Relation<double>*>(&rv))
        for (auto& [at, v] : (*rel)->get_data())
          if (!(std::fabs(v) < 1e100)) {
            ctx.label("overflow");
            throw pbt::Discard{};
          }
    }
  }

  // exact: latent values exist for nothing else.
  void check(bool exact, bool loaded_only) {
    check_overflow();
    auto ents = entities();
    for (auto& [c, vs] : s.classes) PCHECK(ctx, db.entity_crps.contains(c) && links().contains(c), "class %s is unknown", c.c_str());
    // References: from existing entities, one entity each, counted once.
    std::map<std::string, std::map<int, size_t>> count;
    for (auto& [c, m] : links())
      for (auto& [k, to] : m) {
        auto& [f, e] = k;
        PCHECK(ctx, s.classes.contains(c) && s.classes.at(c).contains(f) && s.classes.at(c).at(f).cls, "a reference %s.%s is not in the schema", c.c_str(),
               f.c_str());
        PCHECK(ctx, ents.at(c).contains(e), "%s.%s: entity %d, which nothing refers to, refers to %d", c.c_str(), f.c_str(), e, to);
        ++count[s.classes.at(c).at(f).type][to];
      }
    for (auto& [c, crp] : db.entity_crps) {
      check_crp(ctx, crp, "entities of " + c);
      std::map<int, size_t> g;
      for (auto& [t, cust] : crp.tables) g[t] = cust.size();
      std::string a, b;
      for (auto& [t, n] : g) a += pbt::fmt(" %d:%zu", t, n);
      for (auto& [t, n] : count[c]) b += pbt::fmt(" %d:%zu", t, n);
      PCHECK(ctx, a == b, "entities of %s are counted as%s, the references are%s", c.c_str(), a.c_str(), b.c_str());
    }
    // Cells.
    auto cells = needed();
    Shadow sh;
    for (auto& [n, r] : want) {
      std::set<T_items> w;
      for (int e : cells[n]) w.insert(walk(n, e));
      auto& m = sh[n];
      with_type(r.info.type, [&](auto* tp) {
        using T = std::remove_pointer_t<decltype(tp)>;
        auto* rel = rel_ptr<T>(ctx, db.hirm->get_relation(n), n);
        for (auto& [items, v] : rel->get_data()) {
          PCHECK(ctx, items.size() == r.pos.size(), "relation %s has a cell of %zu entities", n.c_str(), items.size());
          T_items x = items;
          if (!w.contains(x)) {
            PCHECK(ctx, !r.info.observed, "relation %s has a value at %s, where nothing was observed", n.c_str(), ishow(x).c_str());
            PCHECK(ctx, !exact, "relation %s has a value at %s, which no row calls for", n.c_str(), ishow(x).c_str());
            PCHECK(ctx, ents.at(r.cls()).contains(x.back()), "relation %s has a value for entity %d, which nothing refers to", n.c_str(), x.back());
            PCHECK(ctx, walk(n, x.back()) == x, "relation %s has a value at %s, but the references of %d lead to %s", n.c_str(), ishow(x).c_str(), x.back(),
                   ishow(walk(n, x.back())).c_str());
          }
          m[x] = Val(T(v));
          if constexpr (std::is_same_v<T, double>) ctx.largest = std::max(ctx.largest, std::fabs(v));
        }
        for (auto& x : w) PCHECK(ctx, m.contains(x), "relation %s has no value at %s", n.c_str(), ishow(x).c_str());
      });
      if (r.info.observed)
        for (auto& [id, vals] : rows)
          if (vals.contains(n)) {
            Val now = m.at(walk(n, id));
            PCHECK(ctx, now == vals.at(n), "row %d: %s is %s, it was observed as %s", id, n.c_str(), ::show(now).c_str(), ::show(vals.at(n)).c_str());
          }
    }
    check_hirm(ctx, db.hirm, all, names, sh, &prng);
    double t = db.hirm->logp_score();
    for (auto& [c, crp] : db.entity_crps) t += crp_score(crp);
    double sc = db.logp_score();
    PCHECK(ctx, std::isnan(t) || pbt::near(sc, t, 1e-9, 1e-6), "the score is %.12g, its parts sum to %.12g", sc, t);
  }
};
