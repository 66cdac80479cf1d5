// Generated data sets as files: a schema text and an observation text, with
// what they say.
#pragma once
#include "schematext.hh"

using Line = std::pair<std::vector<std::string>, std::string>;  // entities, value
using Obs = std::map<std::string, std::vector<Line>>;

inline Obs plain(const T_observations& o) {
  Obs r;
  for (auto& [n, v] : o) {
    auto& w = r[n];
    for (auto& [e, s] : v) w.push_back({e, s});
  }
  return r;
}
inline std::string show_line(const std::string& rel, const Line& l) {
  std::string s = l.second + "," + rel;
  for (auto& e : l.first) s += "," + e;
  return s;
}
inline void same(Ctx& ctx, const Obs& got, const Obs& want, const std::string& what, bool ordered = true) {
  for (auto& [n, v] : want) {
    if (v.empty()) continue;
    PCHECK(ctx, got.contains(n), "%s: relation %s has no observations, expected %zu", what.c_str(), n.c_str(), v.size());
    auto a = got.at(n), b = v;
    if (!ordered) std::sort(a.begin(), a.end()), std::sort(b.begin(), b.end());
    PCHECK(ctx, a.size() == b.size(), "%s: relation %s has %zu observations, expected %zu", what.c_str(), n.c_str(), a.size(), b.size());
    for (size_t i = 0; i < a.size(); ++i)
      PCHECK(ctx, a[i] == b[i], "%s: observation %zu is <%s>, expected <%s>", what.c_str(), i, show_line(n, a[i]).c_str(),
             show_line(n, b[i]).c_str());
  }
  for (auto& [n, v] : got) PCHECK(ctx, v.empty() || want.contains(n), "%s: relation %s has observations from nowhere", what.c_str(), n.c_str());
}

inline std::string gen_field(Ctx& ctx, bool may_be_empty) {
  static const char* words[] = {"x",   "Alice", "a b",  " lead", "trail ", "0",      "1",    "-3.5", "#no comment", "\"quoted\"",
                                "it's", "a;b",   "a~(b)", "\tTab", "new",    "new_d", "\xc3\xa9", "a=b",  "01",          "1.0"};
  if (may_be_empty && ctx.g.chance(1, 10)) return "";
  if (ctx.g.chance(1, 2)) return words[ctx.g.draw(20)];
  std::string s;
  int L = ctx.g.range(1, 6);
  for (int i = 0; i < L; ++i) s += ctx.g.chance(1, 8) ? (char)(' ' + ctx.g.draw(95)) : "abcXY019 _-"[ctx.g.draw(11)];
  for (char& c : s)
    if (c == ',') c = '.';
  return s;
}
inline T_schema unobserved(const std::vector<RelInfo>& rels) {
  T_schema s = to_schema(rels);
  for (auto& [n, r] : s) std::visit([](auto& x) { x.is_observed = false; }, r);
  return s;
}

inline std::string value_text(Ctx& ctx, const Val& v) {
  std::string s;
  switch (v.index()) {
    case 0: return std::get<0>(v) ? "1" : "0";
    case 1: s = std::to_string(std::get<1>(v)); break;
    case 2:
      s = pbt::fmt(ctx.g.chance(1, 4) ? "%.6e" : "%.10g", std::get<2>(v));
      break;
    default: return std::get<3>(v);
  }
  if (s[0] != '-' && ctx.g.chance(1, 8)) s = "+" + s;
  if (ctx.g.chance(1, 8)) s = " " + s;
  return s;
}


// Data for a schema: what is observed where, and which cells the unobserved
// relations need.
struct DataSet {
  using Cell = std::vector<std::string>;
  Ctx& ctx;
  std::vector<RelInfo> rels;
  std::vector<std::string> names;  // entities, the same in every domain
  std::map<std::string, std::map<Cell, Val>> data;
  std::map<std::string, std::set<Cell>> cells;
  std::string text, schema_text;
  size_t n_obs = 0;

  DataSet(Ctx& c, const SchemaOpts& o, int universe, int count, const std::function<std::string()>& name) : ctx(c) {
    rels = gen_schema(ctx, o);
    std::set<std::string> used;
    for (int i = 0; i < universe; ++i) {
      std::string n = name();
      if (n.empty()) n = "e";
      while (!used.insert(n).second) n += "'";
      names.push_back(n);
    }
    std::vector<const RelInfo*> seen;
    for (auto& r : rels)
      if (r.observed) seen.push_back(&r);
    // The last noise of every chain has observations.
    for (auto* r : seen)
      if (r->noisy) add(*r, gen_cell(*r));
    for (int i = 0; i < count; ++i) {
      const RelInfo& r = *seen[ctx.g.draw(seen.size())];
      add(r, gen_cell(r));
    }
    std::vector<std::string> lines;
    for (auto& [n, m] : data)
      for (auto& [c, v] : m) lines.push_back(show_line(n, {c, value_text(ctx, v)})), ++n_obs;
    for (size_t k = lines.size(); k > 1; --k) std::swap(lines[k - 1], lines[ctx.g.draw(k)]);
    for (auto& l : lines) text += l + "\n";
    for (auto& r : rels) {
      ctx.label((r.noisy ? "noise " : "clean ") + r.dist);
      r.observed = data.contains(r.name);
      if (!r.observed) ctx.label("latent");
      RefRel q = ref_of(r);
      std::string l;
      for (auto& t : tokens_of(ctx, q)) l += (l.empty() ? "" : " ") + show_token(ctx, t);
      schema_text += l + "\n";
    }
    ctx.note("%s\n%s\n", schema_text.c_str(), text.c_str());
  }
  void add(const RelInfo& r, const Cell& c) {
    if (!cells[r.name].insert(c).second) return;
    if (r.noisy) add(info_of(rels, r.base), Cell(c.begin(), c.begin() + r.base_arity));
    if (r.observed) {
      Val v = gen_rel_value(ctx, r);
      if (auto* s = std::get_if<std::string>(&v))
        for (char& ch : *s)
          if (ch == ',') ch = '.';
      data[r.name][c] = v;
    }
  }
  Cell gen_cell(const RelInfo& r) {
    Cell c;
    for (size_t i = 0; i < r.doms.size(); ++i) c.push_back(names[ctx.g.draw(names.size())]);
    return c;
  }
  std::set<std::string> all() {
    std::set<std::string> s;
    for (auto& r : rels) s.insert(r.name);
    return s;
  }
  // What a model has to hold, under an encoding; unobserved values as they are.
  template <class M>
  Shadow shadow(M* m, const T_encoding& enc) {
    Shadow sh;
    for (auto& r : rels) {
      sh[r.name];
      for (auto& c : cells[r.name]) {
        T_items items;
        for (size_t i = 0; i < c.size(); ++i) {
          PCHECK(ctx, enc.first.at(r.doms[i]).contains(c[i]), "<%s> has no code", c[i].c_str());
          items.push_back(enc.first.at(r.doms[i]).at(c[i]));
        }
        sh[r.name][items] = r.observed ? data.at(r.name).at(c) : Val(0);
      }
    }
    for (auto& r : rels)
      if (!r.observed) {
        refresh(ctx, m, r, sh);
        for (auto& [i, v] : sh[r.name])
          PCHECK(ctx, in_support(r, v), "the true value %s of %s is impossible", show(v).c_str(), r.name.c_str());
      }
    return sh;
  }
  template <class M>
  void check(M* m, const T_encoding& enc, const std::string& after) {
    std::mt19937 other(3);
    try {
      Shadow sh = shadow(m, enc);
      for (auto& r : rels)
        PCHECK(ctx, std::visit([](auto& x) { return x.is_observed; }, m->schema.at(r.name)) == r.observed, "relation %s is marked wrongly",
               r.name.c_str());
      if constexpr (std::is_same_v<M, HIRM>)
        check_hirm(ctx, m, rels, all(), sh, &other);
      else
        check_irm(ctx, m, rels, all(), sh, [&](const std::string& n) { return m->get_relation(n); }, &other);
    } catch (pbt::Fail& f) {
      throw pbt::Fail{"after " + after + ": " + f.msg};
    }
  }
};

// A model with the data loaded from files.
template <class M>
struct Loaded {
  T_schema s;
  T_observations obs;
  T_encoding enc;
  std::unique_ptr<M> m;
  Loaded(DataSet& d, std::mt19937* prng) {
    MemFile fs(d.schema_text), f(d.text);
    s = load_schema(fs.path);
    obs = load_observations(f.path, s);
    enc = calculate_encoding(s, obs);
    if constexpr (std::is_same_v<M, HIRM>)
      m.reset(new HIRM(s, prng));
    else
      m.reset(new IRM(s));
    incorporate_observations(prng, m.get(), enc, obs);
  }
};
