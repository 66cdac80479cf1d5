// Saved model texts and what they say.
#pragma once
#include "obsworld.hh"

using Groups = std::map<int, std::set<std::string>>;
using Parts = std::map<std::string, Groups>;  // domain -> group -> entities
struct Saved {
  Groups relations;
  std::map<int, Parts> models;
};

inline std::vector<std::string> words(const std::string& line) {
  std::vector<std::string> w(1);
  for (char c : line)
    if (c == ' ')
      w.push_back("");
    else
      w.back() += c;
  return w;
}
inline std::vector<std::string> lines_of(const std::string& t) {
  std::vector<std::string> v;
  std::istringstream is(t);
  for (std::string l; std::getline(is, l);) v.push_back(l);
  return v;
}
inline int number(Ctx& ctx, const std::string& s) {
  PCHECK(ctx, !s.empty() && std::all_of(s.begin(), s.end(), is_num), "<%s> is not a group number", s.c_str());
  return std::stoi(s);
}
// Reads the saved text strictly: every line in the documented form, nothing listed twice.
inline void read_part(Ctx& ctx, const std::string& line, Parts* p, const std::vector<std::string>& names) {
  // Names may contain blanks, so they are matched against the known ones.
  auto w = words(line);
  PCHECK(ctx, w.size() >= 3, "short line <%s>", line.c_str());
  Groups& g = (*p)[w[0]];
  int t = number(ctx, w[1]);
  PCHECK(ctx, !g.contains(t), "group %d of domain %s is listed twice", t, w[0].c_str());
  for (size_t i = 2; i < w.size(); ++i) {
    PCHECK(ctx, std::count(names.begin(), names.end(), w[i]), "unknown entity <%s>", w[i].c_str());
    for (auto& [u, es] : g) PCHECK(ctx, !es.contains(w[i]), "entity <%s> of domain %s is listed twice", w[i].c_str(), w[0].c_str());
    g[t].insert(w[i]);
  }
}
inline Saved read_saved(Ctx& ctx, const std::string& text, bool hier, const std::vector<std::string>& names) {
  Saved s;
  auto ls = lines_of(text);
  size_t i = 0;
  if (!hier) {
    s.models[0];
    for (auto& l : ls) read_part(ctx, l, &s.models[0], names);
    return s;
  }
  std::set<std::string> seen;
  for (; i < ls.size() && !ls[i].empty(); ++i) {
    auto w = words(ls[i]);
    int t = number(ctx, w[0]);
    PCHECK(ctx, !s.relations.contains(t), "relation group %d is listed twice", t);
    PCHECK(ctx, w.size() >= 2, "relation group %d is empty", t);
    for (size_t k = 1; k < w.size(); ++k) {
      PCHECK(ctx, seen.insert(w[k]).second, "relation %s is listed twice", w[k].c_str());
      s.relations[t].insert(w[k]);
    }
  }
  int cur = -1;
  for (; i < ls.size(); ++i) {
    if (ls[i].empty()) {
      cur = -1;
    } else if (ls[i].rfind("irm=", 0) == 0) {
      cur = number(ctx, ls[i].substr(4));
      PCHECK(ctx, !s.models.contains(cur), "model %d is listed twice", cur);
      s.models[cur];
    } else {
      PCHECK(ctx, cur >= 0, "entities outside of a model");
      read_part(ctx, ls[i], &s.models[cur], names);
    }
  }
  return s;
}
inline Parts parts_of(const IRM* irm, const T_encoding& enc) {
  Parts p;
  for (auto& [d, dom] : irm->domains)
    for (auto& [e, t] : dom->crp.assignments) p[d][t].insert(enc.second.at(d).at(e));
  return p;
}
inline Saved saved_of(const IRM* m, const T_encoding& enc) { return {{}, {{0, parts_of(m, enc)}}}; }
inline Saved saved_of(const HIRM* m, const T_encoding& enc) {
  Saved s;
  for (auto& [n, c] : m->relation_to_code) s.relations[m->crp.assignments.at(c)].insert(n);
  for (auto& [t, irm] : m->irms) s.models[t] = parts_of(irm, enc);
  return s;
}
inline std::string show_groups(const Groups& g) {
  std::string s;
  for (auto& [t, es] : g) {
    s += std::to_string(t) + "{";
    for (auto& e : es) s += e + " ";
    s += "} ";
  }
  return s;
}
inline void same(Ctx& ctx, const Saved& got, const Saved& want, const std::string& what) {
  PCHECK(ctx, got.relations == want.relations, "%s: the relation groups are %s, expected %s", what.c_str(), show_groups(got.relations).c_str(),
         show_groups(want.relations).c_str());
  PCHECK(ctx, got.models.size() == want.models.size(), "%s: %zu models, expected %zu", what.c_str(), got.models.size(), want.models.size());
  for (auto& [t, p] : want.models) {
    PCHECK(ctx, got.models.contains(t), "%s: model %d is missing", what.c_str(), t);
    for (auto& [d, g] : p) {
      PCHECK(ctx, g.empty() || got.models.at(t).contains(d), "%s: domain %s is missing in model %d", what.c_str(), d.c_str(), t);
      if (g.empty()) continue;
      auto& h = got.models.at(t).at(d);
      PCHECK(ctx, h == g, "%s: domain %s of model %d has the groups %s, expected %s", what.c_str(), d.c_str(), t, show_groups(h).c_str(),
             show_groups(g).c_str());
    }
    for (auto& [d, g] : got.models.at(t)) PCHECK(ctx, g.empty() || p.contains(d), "%s: domain %s comes from nowhere", what.c_str(), d.c_str());
  }
}

// A name that is one word.
inline std::string gen_word(Ctx& ctx) {
  static const char* w[] = {"x", "Alice", "0", "17", "irm=0", "new", "a;b", "#", "\"q\"", "D", "-1", "a.b", "\xc3\xa9", "~"};
  if (ctx.g.chance(1, 3)) return w[ctx.g.draw(14)];
  std::string s;
  int L = ctx.g.range(1, 6);
  for (int i = 0; i < L; ++i) s += ctx.g.chance(1, 8) ? (char)('!' + ctx.g.draw(94)) : "abcXY019_-"[ctx.g.draw(10)];
  for (char& c : s)
    if (c == ',') c = '.';
  return s;
}

