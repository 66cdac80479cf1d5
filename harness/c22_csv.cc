// C22: delimited text and tables.
#include "pclean/csv.hh"
#include "schematext.hh"

static std::string hexish(const std::string& s) {
  std::string o;
  for (unsigned char c : s) o += c >= ' ' && c < 127 ? std::string(1, c) : c == '\n' ? "\n" : pbt::fmt("\\x%02x", c);
  return o;
}

using Row = std::vector<std::string>;
struct Table {
  Row columns;
  std::vector<Row> rows;
};

// The reference reader.
static Row split(const std::string& line) {
  Row r(1);
  for (char c : line)
    if (c == ',')
      r.emplace_back();
    else
      r.back() += c;
  for (auto& f : r)
    while (!f.empty() && is_blank(f.back())) f.pop_back();
  return r;
}
static bool all_blank(const std::string& s) {
  for (char c : s)
    if (!is_blank(c)) return false;
  return true;
}
static Verdict read_csv(const std::string& text, const Row& given, Table* t) {
  Verdict v = OK;
  t->columns = given;
  size_t i = 0;
  while (i < text.size()) {
    size_t e = text.find('\n', i);
    if (e == std::string::npos) e = text.size();
    std::string line = text.substr(i, e - i);
    i = e + 1;
    if (line.empty()) continue;
    if (all_blank(line)) {
      // A line of blanks is no row, unless there is one column only.
      if (line != "\r") v = UNSPEC;
      continue;
    }
    Row r = split(line);
    if (t->columns.empty()) {
      t->columns = r;
      if (std::set<std::string>(r.begin(), r.end()).size() != r.size()) return BAD;
      // Columns without a name.
      for (auto& c : r)
        if (c.empty()) v = UNSPEC;
      continue;
    }
    if (r.size() != t->columns.size()) return v == OK ? BAD : UNSPEC;
    t->rows.push_back(r);
  }
  return v;
}

static std::string dump(const DataFrame& df) {
  std::string s;
  for (auto& c : df.columns) s += c + "\x01";
  s += "\x02";
  for (auto& [n, col] : df.data) {
    s += n + "\x03";
    for (auto& x : col) s += x + "\x01";
    s += "\x02";
  }
  return s;
}
static std::string dump(const Table& t) {
  DataFrame df;
  df.columns = t.columns;
  for (size_t j = 0; j < t.columns.size(); ++j) {
    auto& c = df.data[t.columns[j]];
    for (auto& r : t.rows) c.push_back(r[j]);
  }
  return dump(df);
}
static DataFrame frame(const Table& t) {
  DataFrame df;
  df.columns = t.columns;
  for (size_t j = 0; j < t.columns.size(); ++j) {
    auto& c = df.data[t.columns[j]];
    for (auto& r : t.rows) c.push_back(r[j]);
  }
  return df;
}

static void compare(Ctx& ctx, const DataFrame& df, const Table& t, const char* what) {
  PCHECK(ctx, df.columns == t.columns, "%s: the columns differ", what);
  std::set<std::string> names(t.columns.begin(), t.columns.end());
  PCHECK(ctx, df.data.size() == names.size(), "%s: %zu columns hold data, expected %zu", what, df.data.size(), names.size());
  for (size_t j = 0; j < t.columns.size(); ++j) {
    auto it = df.data.find(t.columns[j]);
    PCHECK(ctx, it != df.data.end(), "%s: column <%s> is missing", what, hexish(t.columns[j]).c_str());
    PCHECK(ctx, it->second.size() == t.rows.size(), "%s: column <%s> has %zu values, expected %zu", what, hexish(t.columns[j]).c_str(), it->second.size(),
           t.rows.size());
    for (size_t i = 0; i < t.rows.size(); ++i)
      PCHECK(ctx, it->second[i] == t.rows[i][j], "%s: row %zu column <%s> is <%s>, expected <%s>", what, i, hexish(t.columns[j]).c_str(),
             hexish(it->second[i]).c_str(), hexish(t.rows[i][j]).c_str());
  }
}

static std::string gen_value(Ctx& ctx, bool name) {
  std::string s;
  if (name) s = "abcXYZ019_#\"."[ctx.g.draw(13)];
  int n = name ? ctx.g.range(0, 3) : ctx.g.weighted({3, 4, 3, 2, 1});
  for (int i = 0; i < n; ++i) {
    if (ctx.g.chance(1, 12)) {
      char c = (char)ctx.g.draw(256);
      s += c == ',' || c == '\n' ? ';' : c;
    } else {
      s += "ab 01#\"';.-\t"[ctx.g.draw(12)];
    }
  }
  if (!s.empty() && ctx.g.chance(1, 10)) s.insert(0, " ");
  while (!s.empty() && is_blank(s.back())) s.pop_back();
  return s;
}

// No row that is blank when written.
static Table gen_table(Ctx& ctx, int max_cols, int mean_rows, int max_rows) {
  Table t;
  int k = ctx.g.range(1, max_cols);
  std::set<std::string> seen;
  for (int j = 0; j < k; ++j) {
    std::string n = gen_value(ctx, true);
    while (!seen.insert(n).second) n += "_";
    t.columns.push_back(n);
  }
  while (ctx.g.more(mean_rows, t.rows.size(), max_rows)) {
    Row r;
    for (int j = 0; j < k; ++j) r.push_back(gen_value(ctx, false));
    if (k == 1 && r[0].empty()) r[0] = "x";
    t.rows.push_back(r);
  }
  return t;
}

static std::string text_of(Ctx& ctx, const Table& t, bool header) {
  std::string s;
  const std::string nl = ctx.g.chance(1, 4) ? "\r\n" : "\n";
  auto line = [&](const Row& r) {
    while (ctx.g.chance(1, 8)) s += nl;
    for (size_t j = 0; j < r.size(); ++j) {
      if (j) s += ",";
      s += r[j];
      if (ctx.g.chance(1, 6)) s += " \t\r\v\f"[ctx.g.draw(5)];
    }
    s += nl;
  };
  if (header) line(t.columns);
  for (auto& r : t.rows) line(r);
  if (!s.empty() && ctx.g.chance(1, 4)) s.resize(s.size() - nl.size());
  while (ctx.g.chance(1, 6)) s += nl;
  return s;
}

static void read_and_compare(Ctx& ctx, const std::string& text, const Row& given, const Table& t) {
  std::istringstream is(text);
  DataFrame a = given.empty() ? DataFrame::from_csv(is) : DataFrame::from_csv(is, given);
  compare(ctx, a, t, "from a stream");
  if (ctx.g.chance(1, 4)) {
    MemFile f(text);
    DataFrame b = given.empty() ? DataFrame::from_csv(f.path) : DataFrame::from_csv(f.path, given);
    compare(ctx, b, t, "from a file");
  }
}

static void whole(Ctx& ctx, int max_cols, int mean_rows, int max_rows) {
  Table t = gen_table(ctx, max_cols, mean_rows, max_rows);
  bool header = ctx.g.coin();
  std::string text = text_of(ctx, t, header);
  ctx.note("%s names\n%s", header ? "with" : "without", hexish(text).c_str());
  Row given = header ? Row() : t.columns;
  Table ref;
  PCHECK(ctx, read_csv(text, given, &ref) != BAD && dump(ref) == dump(t), "harness: the reference reader does not read its own rendering");
  read_and_compare(ctx, text, given, t);
  if (t.rows.size() >= 2 && t.columns.size() >= 2) ctx.nontrivial();
  if (!t.rows.empty() && t.columns.size() >= 2 && t.rows[0].back().empty()) ctx.label("first row ends with an empty field");
}
PROPERTY("csv/read", 60000, 2000000) { whole(ctx, 6, 4, 20); }
PROPERTY("csv/read-large", 60, 1500) {
  int big = ctx.g.coin();
  whole(ctx, big ? 300 : 8, big ? 20 : 800, big ? 60 : 3000);
}

// Writing and reading again.
PROPERTY("csv/round-trip", 40000, 1500000) {
  Table t = gen_table(ctx, 6, 4, 20);
  DataFrame df = frame(t);
  std::ostringstream os;
  PCHECK(ctx, df.to_csv(os), "a table could not be written");
  ctx.note("%s", hexish(os.str()).c_str());
  std::string want;
  auto line = [&](const Row& r) {
    for (size_t j = 0; j < r.size(); ++j) want += (j ? "," : "") + r[j];
    want += "\n";
  };
  line(t.columns);
  for (auto& r : t.rows) line(r);
  PCHECK(ctx, os.str() == want, "written as\n%s", hexish(os.str()).c_str());
  compare(ctx, df, t, "after writing");
  read_and_compare(ctx, os.str(), {}, t);
  if (ctx.g.chance(1, 4)) {
    MemFile f;
    PCHECK(ctx, df.to_csv(f.path), "a table could not be written to a file");
    PCHECK(ctx, f.get() == want, "the file holds\n%s", hexish(f.get()).c_str());
  }
  if (t.rows.size() >= 2 && t.columns.size() >= 2) ctx.nontrivial();
}

// Any text.
static void any_text(Ctx& ctx, const std::string& text, const Row& given) {
  ctx.note("%zu given names\n%s", given.size(), hexish(text).c_str());
  Table t;
  Verdict v = read_csv(text, given, &t);
  ctx.label(v == OK ? "well-formed" : v == BAD ? "malformed" : "unspecified");
  if (v == OK) {
    read_and_compare(ctx, text, given, t);
    if (t.rows.size() >= 1) ctx.nontrivial();
    return;
  }
  auto r = pbt::isolated([&](std::string& out) {
    std::istringstream is(text);
    out = dump(given.empty() ? DataFrame::from_csv(is) : DataFrame::from_csv(is, given));
  });
  bool no = refused(ctx, r, "reading the text");
  if (v == BAD) {
    ctx.nontrivial();
    PCHECK(ctx, no, "malformed text was read as %s", hexish(r.payload).c_str());
  }
}
PROPERTY("csv/ragged", 8000, 200000) {
  Table t = gen_table(ctx, 4, 3, 10);
  int n = ctx.g.range(1, 2);
  Row given = ctx.g.coin() ? t.columns : Row();
  for (int i = 0; i < n; ++i) {
    size_t at = ctx.g.draw(t.rows.size() + 1);
    Row& r = at == t.rows.size() ? t.columns : t.rows[at];
    switch (ctx.g.draw(4)) {
      case 0: r.push_back(""); break;
      case 1: r.push_back("b"); break;
      case 2:
        if (r.size() > 1) r.pop_back();
        break;
      default: r[ctx.g.draw(r.size())] = r[ctx.g.draw(r.size())];
    }
  }
  any_text(ctx, text_of(ctx, t, given.empty()), given);
}
PROPERTY("csv/bytes", 12000, 300000) {
  std::string s;
  while (ctx.g.more(12, s.size(), 300)) s += ctx.g.chance(1, 8) ? (char)ctx.g.draw(256) : "ab,\n,1\n, \r"[ctx.g.draw(10)];
  Row given;
  if (ctx.g.coin()) {
    int k = ctx.g.range(1, 3);
    for (int j = 0; j < k; ++j) given.push_back(std::string(1, "xyz"[j]));
  }
  any_text(ctx, s, given);
}

// What cannot be written is reported, and what cannot be opened is refused.
struct FullBuf : std::streambuf {
  size_t room;
  explicit FullBuf(size_t r) : room(r) {}
  int overflow(int c) override { return room ? (--room, c) : EOF; }
  std::streamsize xsputn(const char*, std::streamsize n) override {
    std::streamsize k = std::min<std::streamsize>(n, room);
    room -= k;
    return k;
  }
};
PROPERTY("csv/fail", 8000, 200000) {
  Table t = gen_table(ctx, 4, 4, 20);
  DataFrame df = frame(t);
  std::ostringstream os;
  df.to_csv(os);
  size_t len = os.str().size();
  switch (ctx.g.draw(4)) {
    case 0: {  // no room
      size_t room = ctx.g.draw(len + 3);
      FullBuf b(room);
      std::ostream o(&b);
      ctx.note("room for %zu of %zu\n", room, len);
      PCHECK(ctx, df.to_csv(o) == (room >= len), "writing %zu bytes with room for %zu was reported wrongly", len, room);
      if (room < len) ctx.nontrivial();
      break;
    }
    case 1: {
      ctx.note("full device\n");
      PCHECK(ctx, !df.to_csv("/dev/full"), "writing to a full device was reported as done");
      ctx.nontrivial();
      break;
    }
    case 2: {  // columns of different lengths
      if (t.columns.size() < 2 || t.rows.empty()) return;
      auto& c = df.data[t.columns[ctx.g.draw(t.columns.size())]];
      if (ctx.g.coin())
        c.push_back("x");
      else
        c.resize(ctx.g.draw(c.size()));
      ctx.note("ragged\n");
      auto r = pbt::isolated([&](std::string& out) {
        std::ostringstream o;
        out = df.to_csv(o) ? "1" : "0";
      });
      bool no = refused(ctx, r, "writing columns of different lengths");
      PCHECK(ctx, no || r.payload == "0", "columns of different lengths were written");
      ctx.nontrivial();
      break;
    }
    default: {
      auto r = pbt::isolated([&](std::string& out) { out = dump(DataFrame::from_csv("/proc/self/fd/999")); });
      PCHECK(ctx, refused(ctx, r, "reading a missing file"), "a missing file was read");
      PCHECK(ctx, !df.to_csv("/proc/self/fd/999"), "writing to a place that is not there was reported as done");
      ctx.nontrivial();
    }
  }
}

PBT_MAIN("at least two rows of two columns, a malformed text, or a write or read that has to fail")
