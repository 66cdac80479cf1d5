// C23: data-cleaning schemas mean what they say, and bad ones are refused.
#include "pclean/io.hh"
#include "schematext.hh"

static std::string hexish(const std::string& s) {
  std::string o;
  for (unsigned char c : s) o += c >= ' ' && c < 127 ? std::string(1, c) : c == '\n' ? "\n" : pbt::fmt("\\x%02x", c);
  return o;
}

struct Var {
  bool cls = false;
  std::string type;
  std::map<std::string, std::string> params;
};
struct Schema {
  std::map<std::string, std::map<std::string, Var>> classes;
  std::string record;
  std::map<std::string, std::vector<std::string>> fields;
};

static std::string show(const Schema& s) {
  std::string o;
  for (auto& [n, c] : s.classes) {
    o += "class " + n + "\n";
    for (auto& [m, v] : c) {
      o += "  " + m + (v.cls ? " -> " : " ~ ") + v.type;
      for (auto& [k, x] : v.params) o += " {" + k + "=" + x + "}";
      o += "\n";
    }
  }
  o += "from " + s.record + "\n";
  for (auto& [n, p] : s.fields) {
    o += "  <" + n + ">";
    for (auto& x : p) o += " ." + x;
    o += "\n";
  }
  return o;
}
static std::string show(const PCleanSchema& s, std::string* bad) {
  Schema r;
  for (auto& [n, c] : s.classes) {
    if (c.name != n) *bad = "class " + n + " is named " + c.name;
    auto& m = r.classes[n];
    for (auto& [k, v] : c.vars) {
      if (v.name != k) *bad = "variable " + k + " is named " + v.name;
      if (auto* x = std::get_if<ClassVar>(&v.spec))
        m[k] = {true, x->class_name, {}};
      else {
        auto& y = std::get<ScalarVar>(v.spec);
        m[k] = {false, y.joint_name, y.params};
      }
    }
  }
  r.record = s.query.record_class;
  for (auto& [n, f] : s.query.fields) {
    if (f.name != n) *bad = "field " + n + " is named " + f.name;
    r.fields[n] = f.class_path;
  }
  return show(r);
}

// ---- the reference reader
using Line = std::vector<RefToken>;
static bool upper(const std::string& s) { return !s.empty() && s[0] >= 'A' && s[0] <= 'Z'; }
struct Reader {
  Verdict v = OK;
  bool is(const RefToken& t, RefType ty, const char* s) {
    if (t.val != s) return false;
    if (t.type != ty) v = UNSPEC;  // a quoted symbol or keyword
    return true;
  }
  bool var_line(const Line& t, std::map<std::string, Var>* c) {
    if (t.size() < 3 || t[0].type != R_ID || !is(t[1], R_SYM, "~") || t[2].type != R_ID) return false;
    Var x;
    x.type = t[2].val;
    if (t.size() == 3) {
      x.cls = upper(t[2].val);
    } else {
      if (!is(t[3], R_SYM, "(") || t.size() < 5 || !is(t.back(), R_SYM, ")")) return false;
      if (t.size() > 5) {
        size_t i = 4;
        while (true) {
          if (i + 3 >= t.size()) return false;
          if (t[i].type != R_ID || !is(t[i + 1], R_SYM, "=")) return false;
          if (x.params.contains(t[i].val)) v = UNSPEC;
          if (t[i + 2].type == R_SYM) v = UNSPEC;
          x.params[t[i].val] = t[i + 2].val;
          if (i + 4 == t.size()) break;
          if (!is(t[i + 3], R_SYM, ",")) return false;
          i += 4;
        }
      }
    }
    return c->try_emplace(t[0].val, x).second;
  }
  bool query_line(const Line& t, Schema* s) {
    if (t[0].val == "from") {
      if (t[0].type != R_ID) v = UNSPEC;
      if (t.size() != 2) {
        if (t.size() > 2 && t.size() % 2 && t[t.size() - 2].val == "as") v = UNSPEC;  // a variable called from
        return false;
      }
      if (t[1].type != R_ID || !s->record.empty()) return false;
      s->record = t[1].val;
      return true;
    }
    if (t.size() < 3 || t.size() % 2 == 0 || !is(t[t.size() - 2], R_ID, "as")) return false;
    if (t.back().type == R_SYM || t.back().type == R_NUM) v = UNSPEC;
    std::vector<std::string> p;
    for (size_t i = 0; i + 2 < t.size(); ++i)
      if (i % 2 == 0) {
        if (t[i].type != R_ID) return false;
        p.push_back(t[i].val);
      } else if (!is(t[i], R_SYM, ".")) {
        return false;
      }
    return s->fields.try_emplace(t.back().val, p).second;
  }
  bool read(const std::string& text, Schema* s) {
    enum { TOP, CLASS, QUERY } state = TOP;
    std::map<std::string, Var>* c = nullptr;
    bool queried = false;
    size_t i = 0;
    while (i < text.size()) {
      size_t e = text.find('\n', i);
      if (e == std::string::npos) e = text.size();
      std::string line = text.substr(i, e - i);
      i = e + 1;
      if (line.empty()) {
        state = TOP;
        continue;
      }
      bool blank = true;
      for (char ch : line) blank &= is_blank(ch);
      if (blank && state != TOP) v = UNSPEC;
      Line t;
      if (!ref_tokenize(line, &t)) return false;
      if (t.empty()) continue;
      if (state == CLASS) {
        if (!var_line(t, c)) return false;
      } else if (state == QUERY) {
        if (!query_line(t, s)) return false;
      } else if (t[0].type != R_ID) {
        return false;
      } else if (t[0].val == "class") {
        if (t.size() != 2 || t[1].type != R_ID) return false;
        auto [it, fresh] = s->classes.try_emplace(t[1].val);
        if (!fresh) {
          // It is refused at the latest when its definition ends.
          return false;
        }
        c = &it->second;
        state = CLASS;
      } else if (t[0].val == "observe") {
        if (t.size() != 1) return false;
        if (queried) {
          if (s->record.empty()) v = UNSPEC;
          return false;
        }
        queried = true;
        state = QUERY;
      } else {
        return false;
      }
    }
    return true;
  }
};
static Verdict read_ref(const std::string& text, Schema* s) {
  Reader r;
  bool ok = r.read(text, s);
  if (r.v == UNSPEC) return UNSPEC;
  return ok ? OK : BAD;
}

// ---- generation
static std::string gen_id(Ctx& ctx, bool up) {
  static const char* kw[] = {"class_1", "observed", "name", "State", "fromage", "as_is", "x", "y", "Z", "categorical", "c", "f", "From"};
  std::string s;
  if (ctx.g.chance(1, 3)) {
    s = kw[ctx.g.draw(13)];
  } else {
    s = "axby_"[ctx.g.draw(5)];
    int n = ctx.g.range(0, 4);
    for (int i = 0; i < n; ++i) s += "abAZ_09"[ctx.g.draw(7)];
  }
  if (up && !upper(s)) s = std::string(1, "ABCXYZ"[ctx.g.draw(6)]) + s;
  return s;
}
template <class F>
static std::string fresh(std::set<std::string>& seen, F f) {
  std::string s = f();
  while (!seen.insert(s).second) s += "_";
  return s;
}

static Schema gen_pschema(Ctx& ctx, int max_classes, int max_vars, int max_fields) {
  Schema s;
  std::set<std::string> cn;
  int n = ctx.g.range(0, max_classes);
  std::vector<std::string> names;
  for (int i = 0; i < n; ++i) names.push_back(fresh(cn, [&] { return gen_id(ctx, true); }));
  for (auto& c : names) {
    auto& m = s.classes[c];
    std::set<std::string> vn;
    int k = ctx.g.range(0, max_vars);
    for (int i = 0; i < k; ++i) {
      Var v;
      if (ctx.g.chance(1, 3)) {
        v.cls = true;
        v.type = ctx.g.pick(names);
      } else {
        static const char* joint[] = {"bool", "categorical", "real", "stringcat", "string", "typo_nat", "time", "other"};
        v.type = joint[ctx.g.draw(8)];
        if (ctx.g.chance(1, 6)) {
          std::string id = gen_id(ctx, false);
          if (!upper(id)) v.type = id;
        }
        while (ctx.g.more(1, v.params.size(), 5)) {
          static const char* vals[] = {"7", "1_000", "3.25", "abc", "a b", ",", ")", "", "#", ":", "it's", "a=b", "~", "(x", "MD PT"};
          v.params[gen_id(ctx, false)] = vals[ctx.g.draw(15)];
        }
      }
      m[fresh(vn, [&] { return gen_id(ctx, false); })] = v;
    }
  }
  if (ctx.g.chance(9, 10)) {
    s.record = names.empty() || ctx.g.chance(1, 8) ? gen_id(ctx, true) : ctx.g.pick(names);
    int k = ctx.g.range(0, max_fields);
    std::set<std::string> fn;
    for (int i = 0; i < k; ++i) {
      std::vector<std::string> p;
      do {
        std::string x = gen_id(ctx, false);
        if (x == "from" && p.empty()) x = "f";
        p.push_back(x);
      } while (ctx.g.more(1, p.size(), 6));
      s.fields[fresh(fn, [&] {
        static const char* odd[] = {"Room Type", "a,b", "x.y", "as", "from", " lead", "it's", "#1"};
        return ctx.g.chance(1, 4) ? std::string(odd[ctx.g.draw(8)]) : gen_id(ctx, false);
      })] = p;
    }
  }
  return s;
}

static Line var_tokens(Ctx& ctx, const std::string& n, const Var& v) {
  Line t{{R_ID, n}, {R_SYM, "~"}, {R_ID, v.type}};
  if (v.cls || (v.params.empty() && !ctx.g.chance(1, 4))) return t;
  t.push_back({R_SYM, "("});
  std::vector<std::pair<std::string, std::string>> as(v.params.begin(), v.params.end());
  for (size_t k = as.size(); k > 1; --k) std::swap(as[k - 1], as[ctx.g.draw(k)]);
  for (size_t k = 0; k < as.size(); ++k) {
    if (k) t.push_back({R_SYM, ","});
    t.push_back({R_ID, as[k].first});
    t.push_back({R_SYM, "="});
    const std::string& x = as[k].second;
    bool quote = ctx.g.chance(1, 3);
    t.push_back({plain_number(x) && !quote ? R_NUM : plain_id(x) && !quote ? R_ID : R_STR, x});
  }
  t.push_back({R_SYM, ")"});
  return t;
}
static Line field_tokens(Ctx& ctx, const std::string& n, const std::vector<std::string>& p) {
  Line t;
  for (size_t i = 0; i < p.size(); ++i) {
    if (i) t.push_back({R_SYM, "."});
    t.push_back({R_ID, p[i]});
  }
  t.push_back({R_ID, "as"});
  t.push_back({plain_id(n) && !ctx.g.chance(1, 4) ? R_ID : R_STR, n});
  return t;
}

// The lines of each block.
using Blocks = std::vector<std::vector<Line>>;
static Blocks blocks_of(Ctx& ctx, const Schema& s) {
  Blocks b;
  for (auto& [n, c] : s.classes) {
    std::vector<Line> l;
    for (auto& [m, v] : c) l.push_back(var_tokens(ctx, m, v));
    for (size_t k = l.size(); k > 1; --k) std::swap(l[k - 1], l[ctx.g.draw(k)]);
    l.insert(l.begin(), Line{{R_ID, "class"}, {R_ID, n}});
    b.push_back(l);
  }
  if (!s.record.empty()) {
    std::vector<Line> l{{{R_ID, "from"}, {R_ID, s.record}}};
    for (auto& [n, p] : s.fields) l.push_back(field_tokens(ctx, n, p));
    for (size_t k = l.size(); k > 1; --k) std::swap(l[k - 1], l[ctx.g.draw(k)]);
    l.insert(l.begin(), Line{{R_ID, "observe"}});
    b.push_back(l);
  }
  for (size_t k = b.size(); k > 1; --k) std::swap(b[k - 1], b[ctx.g.draw(k)]);
  return b;
}
static std::string text_of(Ctx& ctx, const Blocks& b) {
  std::string s;
  for (size_t i = 0; i < b.size(); ++i) {
    while (ctx.g.chance(1, 4)) s += (ctx.g.coin() ? "" : ctx.g.coin() ? gen_comment(ctx) : std::string("  \t")) + "\n";
    for (auto& l : b[i]) {
      while (ctx.g.chance(1, 10)) s += gen_blank(ctx, false) + gen_comment(ctx) + "\n";
      s += layout(ctx, l) + "\n";
    }
    if (i + 1 < b.size()) s += "\n";
  }
  switch (ctx.g.draw(4)) {
    case 0: s += "\n"; break;
    case 1: s += "\n\n # end\n"; break;
    case 2:
      if (!s.empty()) s.pop_back();
      break;
  }
  return s;
}

static void valid(Ctx& ctx, int c, int v, int f) {
  Schema want = gen_pschema(ctx, c, v, f), ref;
  std::string text = text_of(ctx, blocks_of(ctx, want));
  ctx.note("%s", hexish(text).c_str());
  PCHECK(ctx, read_ref(text, &ref) == OK && show(ref) == show(want), "harness: the reference reader does not read its own rendering:\n%s", show(ref).c_str());
  PCleanSchema got;
  std::string bad;
  std::istringstream is(text);
  PCHECK(ctx, read_schema(is, &got), "a well-formed schema was refused");
  std::string g = show(got, &bad);
  PCHECK(ctx, bad.empty(), "%s", bad.c_str());
  PCHECK(ctx, g == show(want), "read as\n%s", hexish(g).c_str());
  if (ctx.g.chance(1, 4)) {
    MemFile m(text);
    PCleanSchema again;
    PCHECK(ctx, read_schema_file(m.path, &again) && show(again, &bad) == g, "read differently from a file");
  }
  if (want.classes.size() >= 2 && want.fields.size() >= 1) ctx.nontrivial();
}
PROPERTY("pschema/valid", 15000, 500000) { valid(ctx, 5, 5, 6); }
PROPERTY("pschema/large", 60, 1500) { valid(ctx, 80, 20, 80); }

static RefToken gen_token(Ctx& ctx) {
  RefToken t;
  t.type = (RefType)ctx.g.draw(4);
  switch (t.type) {
    case R_ID: {
      static const char* kw[] = {"class", "observe", "from", "as"};
      t.val = ctx.g.coin() ? kw[ctx.g.draw(4)] : gen_id(ctx, ctx.g.coin());
      break;
    }
    case R_SYM: t.val = kSymbols[ctx.g.draw(strlen(kSymbols))]; break;
    case R_NUM: t.val = std::string(1, "0129"[ctx.g.draw(4)]) + (ctx.g.coin() ? ".5" : ""); break;
    case R_STR: t.val = ctx.g.coin() ? "a b" : ""; break;
  }
  return t;
}

static void any_text(Ctx& ctx, const std::string& text) {
  ctx.note("%s", hexish(text).c_str());
  Schema want;
  Verdict v = read_ref(text, &want);
  ctx.label(v == OK ? "well-formed" : v == BAD ? "malformed" : "unspecified");
  auto r = pbt::isolated([&](std::string& out) {
    PCleanSchema got;
    std::string bad;
    std::istringstream is(text);
    bool ok = read_schema(is, &got);
    out = ok ? "1" + show(got, &bad) : "0";
    if (!bad.empty()) out = "1" + bad;
  });
  bool no = refused(ctx, r, "reading the schema") || r.payload[0] == '0';
  if (v == BAD) ctx.nontrivial();
  PCHECK(ctx, v != BAD || no, "a malformed schema was read as\n%s", hexish(r.payload).c_str());
  PCHECK(ctx, v != OK || !no, "a well-formed schema was refused: %s", r.out.c_str());
  if (v == OK) PCHECK(ctx, r.payload == "1" + show(want), "read as\n%s", hexish(r.payload).c_str());
}

PROPERTY("pschema/broken", 12000, 300000) {
  Blocks b = blocks_of(ctx, gen_pschema(ctx, 3, 3, 3));
  if (b.empty()) b.push_back({{{R_ID, "class"}, {R_ID, "A"}}});
  b.reserve(16);
  int edits = ctx.g.range(1, 2);
  for (int e = 0; e < edits; ++e) {
    auto& blk = b[ctx.g.draw(b.size())];
    size_t li = ctx.g.draw(blk.size());
    Line& l = blk[li];
    size_t p = ctx.g.draw(l.size() + 1);
    switch (ctx.g.draw(10)) {
      case 0:
        if (p < l.size()) l.erase(l.begin() + p);
        break;
      case 1: l.insert(l.begin() + p, gen_token(ctx)); break;
      case 2:
        if (p < l.size()) l[p] = gen_token(ctx);
        break;
      case 3: l.resize(p); break;
      case 4:
        if (p < l.size()) l.insert(l.begin() + p, RefToken(l[p]));
        break;
      case 5:
        if (p + 1 < l.size()) std::swap(l[p], l[p + 1]);
        break;
      case 6: blk.insert(blk.begin() + li, Line(l)); break;
      case 7: b.push_back(std::vector<Line>(blk)); break;
      case 8: {
        auto& ob = b[ctx.g.draw(b.size())];
        blk.insert(blk.begin() + ctx.g.draw(blk.size() + 1), Line(ob[ctx.g.draw(ob.size())]));
        break;
      }
      case 9:
        if (blk.size() > 1) blk.erase(blk.begin() + li);
        break;
    }
    for (auto& x : blk)
      if (x.empty()) x.push_back(gen_token(ctx));
  }
  std::string text = text_of(ctx, b);
  if (ctx.g.chance(1, 8) && !text.empty()) text[ctx.g.draw(text.size())] = (char)ctx.g.draw(256);
  if (ctx.g.chance(1, 8)) text.resize(ctx.g.draw(text.size() + 1));
  if (ctx.g.chance(1, 8)) {
    // Blocks that run into each other.
    size_t at = text.find("\n\n");
    if (at != std::string::npos) text.erase(at, 1);
  }
  any_text(ctx, text);
}
PROPERTY("pschema/tokens", 6000, 150000) {
  std::string s;
  int lines = 0;
  while (ctx.g.more(4, lines++, 20)) {
    Line l;
    while (ctx.g.more(4, l.size(), 12)) l.push_back(gen_token(ctx));
    s += layout(ctx, l) + "\n";
  }
  any_text(ctx, s);
}
PROPERTY("pschema/missing", 50, 50) {
  PCleanSchema s;
  PCHECK(ctx, !read_schema_file("/proc/self/fd/999", &s), "a missing file was read");
  ctx.nontrivial();
}

PBT_MAIN("a schema of at least two classes and a query field, or a text the reference reader finds malformed")
