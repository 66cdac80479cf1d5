// Relational schemas as text: a renderer with free layout, and an independent
// reader that says what a text means.
#pragma once
#include <sys/mman.h>

#include "util_io.hh"
#include "util_parse.hh"
#include "world.hh"

// A file that lives in memory only.
struct MemFile {
  int fd;
  std::string path;
  explicit MemFile(const std::string& text = "") {
    fd = memfd_create("case", 0);
    path = "/proc/self/fd/" + std::to_string(fd);
    set(text);
  }
  MemFile(const MemFile&) = delete;
  ~MemFile() { ::close(fd); }
  void set(const std::string& text) {
    if (ftruncate(fd, 0)) abort();
    size_t off = 0;
    while (off < text.size()) {
      ssize_t k = pwrite(fd, text.data() + off, text.size() - off, off);
      if (k <= 0) abort();
      off += k;
    }
  }
  std::string get() const {
    std::string s;
    char buf[65536];
    ssize_t k;
    while ((k = pread(fd, buf, sizeof buf, s.size())) > 0) s.append(buf, k);
    return s;
  }
};

enum RefType { R_ID, R_SYM, R_NUM, R_STR };
struct RefToken {
  RefType type;
  std::string val;
  bool operator==(const RefToken&) const = default;
};
constexpr const char* kSymbols = "~()[]{}<>.,:;=+*-/";

inline bool is_letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool is_num(char c) { return c >= '0' && c <= '9'; }
inline bool is_blank(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
inline bool is_symbol(char c) { return c && std::string(kSymbols).find(c) != std::string::npos; }

inline bool ref_tokenize(const std::string& line, std::vector<RefToken>* out) {
  size_t i = 0, n = line.size();
  while (i < n) {
    char c = line[i];
    if (is_blank(c)) {
      ++i;
    } else if (c == '#') {
      return true;
    } else if (is_symbol(c)) {
      out->push_back({R_SYM, std::string(1, c)});
      ++i;
    } else if (c == '"' || c == '\'') {
      size_t e = line.find(c, i + 1);
      if (e == std::string::npos) return false;
      out->push_back({R_STR, line.substr(i + 1, e - i - 1)});
      i = e + 1;
    } else if (is_num(c)) {
      size_t e = i;
      while (e < n && (is_num(line[e]) || line[e] == '.' || line[e] == '_')) ++e;
      out->push_back({R_NUM, line.substr(i, e - i)});
      i = e;
    } else if (is_letter(c) || c == '_') {
      size_t e = i;
      while (e < n && (is_letter(line[e]) || is_num(line[e]) || line[e] == '_')) ++e;
      out->push_back({R_ID, line.substr(i, e - i)});
      i = e;
    } else {
      return false;
    }
  }
  return true;
}

inline RefType type_of(TokenType t) {
  switch (t) {
    case TokenType::identifier: return R_ID;
    case TokenType::symbol: return R_SYM;
    case TokenType::number: return R_NUM;
    default: return R_STR;
  }
}

// Can a token be written right after another one?
inline bool may_touch(const RefToken& a, const RefToken& b) {
  bool wa = a.type == R_ID || a.type == R_NUM, wb = b.type == R_ID || b.type == R_NUM;
  if (wa && wb) return false;
  if (a.type == R_NUM && b.type == R_SYM && b.val == ".") return false;
  return true;
}
inline std::string show_token(Ctx& ctx, const RefToken& t) {
  if (t.type != R_STR) return t.val;
  bool dq = t.val.find('"') == std::string::npos, sq = t.val.find('\'') == std::string::npos;
  char q = dq && (!sq || !ctx.g.chance(1, 3)) ? '"' : '\'';
  return q + t.val + q;
}
inline std::string gen_blank(Ctx& ctx, bool needed) {
  std::string s;
  int n = ctx.g.weighted({6, 3, 1});
  if (needed && !n) n = 1;
  for (int i = 0; i < n; ++i) s += " \t  "[ctx.g.draw(4)];
  return s;
}
inline std::string gen_comment(Ctx& ctx) {
  static const char* c[] = {"#", "# R9 ~ bernoulli(D1)", "#\"open", "# it's", "## [k=", "#~"};
  return c[ctx.g.draw(6)];
}
// One line of text (without its end) for the tokens.
inline std::string layout(Ctx& ctx, const std::vector<RefToken>& ts) {
  std::string s = ctx.g.chance(1, 4) ? gen_blank(ctx, false) : "";
  for (size_t i = 0; i < ts.size(); ++i) {
    if (i) s += gen_blank(ctx, !may_touch(ts[i - 1], ts[i]));
    s += show_token(ctx, ts[i]);
  }
  if (ctx.g.chance(1, 4)) s += gen_blank(ctx, false);
  if (ctx.g.chance(1, 6)) s += gen_comment(ctx);
  return s;
}
inline std::string join_lines(Ctx& ctx, const std::vector<std::string>& lines) {
  std::string s;
  const std::string nl = ctx.g.chance(1, 6) ? "\r\n" : "\n";
  for (size_t i = 0; i < lines.size(); ++i) {
    while (ctx.g.chance(1, 6)) s += (ctx.g.coin() ? gen_blank(ctx, false) : gen_comment(ctx)) + nl;
    s += lines[i];
    if (i + 1 < lines.size() || !ctx.g.chance(1, 4)) s += nl;
  }
  return s;
}

// What a schema line says.
struct RefRel {
  bool noisy = false;
  std::string name, dist, base;
  std::map<std::string, std::string> args;
  std::vector<std::string> doms;
};
inline RefRel ref_of(const RelInfo& r) { return {r.noisy, r.name, r.dist, r.base, r.args, r.doms}; }

inline bool plain_number(const std::string& s) {
  if (s.empty() || !is_num(s[0])) return false;
  for (char c : s)
    if (!is_num(c) && c != '.' && c != '_') return false;
  return true;
}
inline bool plain_id(const std::string& s) {
  if (s.empty() || is_num(s[0])) return false;
  for (char c : s)
    if (!is_num(c) && !is_letter(c) && c != '_') return false;
  return true;
}
inline std::vector<RefToken> tokens_of(Ctx& ctx, const RefRel& r) {
  std::vector<RefToken> t{{R_ID, r.name}, {R_SYM, "~"}, {R_ID, r.dist}};
  if (!r.args.empty()) {
    t.push_back({R_SYM, "["});
    std::vector<std::pair<std::string, std::string>> as(r.args.begin(), r.args.end());
    for (size_t k = as.size(); k > 1; --k) std::swap(as[k - 1], as[ctx.g.draw(k)]);
    for (size_t k = 0; k < as.size(); ++k) {
      if (k) t.push_back({R_SYM, ","});
      t.push_back({R_ID, as[k].first});
      t.push_back({R_SYM, "="});
      const std::string& v = as[k].second;
      bool quote = ctx.g.chance(1, 3);
      if (plain_number(v) && !quote)
        t.push_back({R_NUM, v});
      else if (plain_id(v) && !quote)
        t.push_back({R_ID, v});
      else if (v.size() == 1 && is_symbol(v[0]) && !quote)
        t.push_back({R_SYM, v});
      else
        t.push_back({R_STR, v});
    }
    t.push_back({R_SYM, "]"});
  }
  t.push_back({R_SYM, "("});
  if (r.noisy) {
    t.push_back({R_ID, r.base});
    t.push_back({R_SYM, ";"});
  }
  for (size_t k = 0; k < r.doms.size(); ++k) {
    if (k) t.push_back({R_SYM, ","});
    t.push_back({R_ID, r.doms[k]});
  }
  t.push_back({R_SYM, ")"});
  return t;
}

// 0 bool, 1 int, 2 double, 3 string; -1 unknown.
inline int clean_type(const std::string& d) {
  if (d == "bernoulli") return 0;
  if (d == "categorical" || d == "skellam") return 1;
  if (d == "normal") return 2;
  if (d == "bigram" || d == "stringcat" || d == "string_nat" || d == "string_normal" || d == "string_skellam") return 3;
  return -1;
}
inline int noise_type(const std::string& d) {
  if (d == "sometimes_bitflip") return 0;
  if (d == "sometimes_categorical") return 1;
  if (d == "gaussian" || d == "sometimes_gaussian") return 2;
  if (d == "bigram" || d == "simple_string") return 3;
  return -1;
}

enum Verdict { OK, BAD, UNSPEC };

// Reads one line's tokens.
inline Verdict read_line(const std::vector<RefToken>& t, RefRel* r) {
  Verdict v = OK;
  size_t i = 0;
  auto sym = [&](const char* s) {
    if (i < t.size() && t[i].type == R_SYM && t[i].val == s) return true;
    if (i < t.size() && t[i].type == R_STR && t[i].val == s) {
      v = UNSPEC;  // a quoted symbol
      return true;
    }
    return false;
  };
  auto id = [&](std::string* s) {
    if (i >= t.size() || t[i].type != R_ID) return false;
    *s = t[i++].val;
    return true;
  };
  if (!id(&r->name)) return BAD;
  if (!sym("~")) return BAD;
  ++i;
  if (!id(&r->dist)) return BAD;
  if (sym("[")) {
    do {
      ++i;
      std::string k;
      if (!id(&k)) return BAD;
      if (!sym("=")) return BAD;
      ++i;
      if (i >= t.size()) return BAD;
      if (r->args.contains(k)) v = UNSPEC;
      r->args[k] = t[i++].val;
    } while (sym(","));
    if (!sym("]")) return BAD;
    ++i;
  }
  if (!sym("(")) return BAD;
  ++i;
  if (i >= t.size() || t[i].type != R_ID) return BAD;
  if (i + 1 < t.size() && (++i, sym(";"))) {
    r->noisy = true;
    r->base = t[i - 1].val;
    ++i;
  } else if (i + 1 < t.size() || i) {
    --i;
  }
  while (true) {
    if (i >= t.size() || t[i].type == R_SYM) return BAD;
    if (t[i].type != R_ID) v = UNSPEC;
    r->doms.push_back(t[i++].val);
    if (sym(")")) break;
    if (!sym(",")) return BAD;
    ++i;
  }
  ++i;
  if (i < t.size()) return BAD;
  return v;
}

// Reads a whole text.
inline Verdict read_schema(const std::string& text, std::map<std::string, RefRel>* out) {
  Verdict v = OK;
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    std::vector<RefToken> t;
    if (!ref_tokenize(line, &t)) return BAD;
    if (t.empty()) continue;
    RefRel r;
    Verdict lv = read_line(t, &r);
    if (lv == BAD) return BAD;
    if (lv == UNSPEC) v = UNSPEC;
    if ((r.noisy ? noise_type(r.dist) : clean_type(r.dist)) < 0) return BAD;
    if (out->contains(r.name)) return BAD;
    (*out)[r.name] = r;
  }
  if (v == UNSPEC) return v;  // the parts may be read differently
  for (auto& [n, r] : *out) {
    if (!r.noisy) continue;
    if (!out->contains(r.base)) return BAD;
    const RefRel& b = out->at(r.base);
    if (b.doms.size() > r.doms.size()) return BAD;
    for (size_t i = 0; i < b.doms.size(); ++i)
      if (b.doms[i] != r.doms[i]) return BAD;
    if ((b.noisy ? noise_type(b.dist) : clean_type(b.dist)) != noise_type(r.dist)) return BAD;
  }
  // Loops are refused when a model is built.
  for (auto& [n, r] : *out) {
    const RefRel* x = &r;
    size_t steps = 0;
    while (x->noisy && ++steps <= out->size()) x = &out->at(x->base);
    if (x->noisy) v = UNSPEC;
  }
  return v;
}

inline const char* dist_name(const DistributionSpec& s) {
  switch (s.distribution) {
    case DistributionEnum::bernoulli: return "bernoulli";
    case DistributionEnum::bigram: return "bigram";
    case DistributionEnum::categorical: return "categorical";
    case DistributionEnum::normal: return "normal";
    case DistributionEnum::skellam: return "skellam";
    case DistributionEnum::stringcat: return "stringcat";
    case DistributionEnum::string_nat: return "string_nat";
    case DistributionEnum::string_normal: return "string_normal";
    case DistributionEnum::string_skellam: return "string_skellam";
    default: return "?";
  }
}
inline const char* dist_name(const EmissionSpec& s) {
  switch (s.emission) {
    case EmissionEnum::bigram_string: return "bigram";
    case EmissionEnum::gaussian: return "gaussian";
    case EmissionEnum::simple_string: return "simple_string";
    case EmissionEnum::sometimes_bitflip: return "sometimes_bitflip";
    case EmissionEnum::sometimes_categorical: return "sometimes_categorical";
    case EmissionEnum::sometimes_gaussian: return "sometimes_gaussian";
    default: return "?";
  }
}
inline RefRel ref_of(const std::string& name, const T_relation& t) {
  RefRel r;
  r.name = name;
  if (auto* c = std::get_if<T_clean_relation>(&t)) {
    r.dist = dist_name(c->distribution_spec);
    r.args = c->distribution_spec.distribution_args;
    r.doms = c->domains;
  } else {
    auto& n = std::get<T_noisy_relation>(t);
    r.noisy = true;
    r.dist = dist_name(n.emission_spec);
    r.args = n.emission_spec.emission_args;
    r.doms = n.domains;
    r.base = n.base_relation;
  }
  return r;
}
inline std::string show_ref(const RefRel& r) {
  std::string s = r.name + " ~ " + r.dist + "[";
  for (auto& [k, v] : r.args) s += k + "=<" + v + ">,";
  s += "](" + (r.noisy ? r.base + ";" : std::string());
  for (auto& d : r.doms) s += d + ",";
  return s + ")";
}
inline std::map<std::string, std::string> show_all(const std::map<std::string, RefRel>& m) {
  std::map<std::string, std::string> o;
  for (auto& [n, r] : m) o[n] = show_ref(r);
  return o;
}
inline std::map<std::string, std::string> show_all(const T_schema& m) {
  std::map<std::string, std::string> o;
  for (auto& [n, r] : m) o[n] = show_ref(ref_of(n, r));
  return o;
}

// The outcome of running something that may refuse its input: refusing is an
// exit with an error, an assertion or an exception, and never a memory error.
inline bool refused(Ctx& ctx, const pbt::Isolated& r, const std::string& what) {
  PCHECK(ctx, !r.cpu_limit, "%s: does not finish", what.c_str());
  bool memory = r.out.find("AddressSanitizer") != std::string::npos || r.out.find("runtime error:") != std::string::npos;
  PCHECK(ctx, !memory && (r.sig == 0 || r.sig == SIGABRT), "%s: memory error (signal %d): %s", what.c_str(), r.sig, r.out.c_str());
  if (r.returned) return false;
  PCHECK(ctx, r.sig || r.status != 0, "%s: exits with status 0 without a result", what.c_str());
  return true;
}
