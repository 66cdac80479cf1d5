// Tables of rows for a data-cleaning schema.
#pragma once
#include "gworld.hh"
#include "pclean/csv.hh"
#include "pclean/pclean_lib.hh"

inline std::string csv_text(const Val& v) {
  switch (v.index()) {
    case 0: return std::get<0>(v) ? "1" : "0";
    case 1: return std::to_string(std::get<1>(v));
    case 2: return pbt::fmt("%.10g", std::get<2>(v));
    default: return std::get<3>(v);
  }
}

// A table with the columns of the query: the values, and the text of it.
struct Table {
  std::vector<std::string> cols;
  std::vector<std::map<std::string, Val>> rows;
  std::string text;
};
inline Table gen_table(Ctx& ctx, const GSchema& s, const std::map<std::string, GRel>& want, int n) {
  Table t;
  for (auto& [f, p] : s.fields)
    if (s.fields.size() == 1 || !ctx.g.chance(1, 8)) t.cols.push_back(f);
  if (t.cols.empty()) t.cols.push_back(s.fields.begin()->first);
  bool other = ctx.g.chance(1, 6);
  if (other) t.cols.push_back("not in the schema");
  for (size_t i = t.cols.size(); i > 1; --i) std::swap(t.cols[i - 1], t.cols[ctx.g.draw(i)]);
  bool full = t.cols.size() == 1 || ctx.g.chance(2, 3);
  for (size_t i = 0; i < t.cols.size(); ++i) t.text += (i ? "," : "") + t.cols[i];
  t.text += "\n";
  for (int r = 0; r < n; ++r) {
    std::map<std::string, Val> row;
    std::string line;
    for (size_t i = 0; i < t.cols.size(); ++i) {
      const std::string& c = t.cols[i];
      std::string x;
      if (c == "not in the schema") {
        x = "y";
      } else if (full || !ctx.g.chance(1, 3)) {
        Val v = gen_gvalue(ctx, want.at(c).info);
        if (auto* q = std::get_if<std::string>(&v)) {
          for (char& ch : *q)
            if (ch == ',') ch = '.';
          while (!q->empty() && q->back() == ' ') q->pop_back();
          if (q->empty() && t.cols.size() == 1) {
            *q = want.at(c).info.strs.empty() ? (want.at(c).info.root == "string_nat" ? "7" : "x") : want.at(c).info.strs[0];
          }
        }
        x = csv_text(v);
        if (!x.empty()) row[c] = v;
      }
      line += (i ? "," : "") + x;
    }
    t.rows.push_back(row);
    t.text += line + "\n";
  }
  return t;
}

inline DataFrame frame(const Table& t) {
  std::istringstream is(t.text);
  return DataFrame::from_csv(is);
}
inline void add_rows(GWorld& w, const Table& t, int first) {
  for (size_t i = 0; i < t.rows.size(); ++i)
    if (!t.rows[i].empty()) {
      w.rows[first + i] = t.rows[i];
      for (auto& [f, v] : t.rows[i])
        if (auto* d = std::get_if<double>(&v)) w.ctx.largest = std::max(w.ctx.largest, std::fabs(*d));
    }
}
