// C18: relational schema files mean what they say, and bad ones are refused.
#include "schematext.hh"

static std::string hexish(const std::string& s) {
  std::string o;
  for (unsigned char c : s) o += c >= ' ' && c < 127 ? std::string(1, c) : c == '\n' ? "\n" : pbt::fmt("\\x%02x", c);
  return o;
}

static RefToken gen_token(Ctx& ctx) {
  RefToken t;
  t.type = (RefType)ctx.g.draw(4);
  int L = ctx.g.range(1, 6);
  switch (t.type) {
    case R_ID:
      t.val = "abzAZ_"[ctx.g.draw(6)];
      for (int i = 1; i < L; ++i) t.val += "abzAZ_0189"[ctx.g.draw(10)];
      break;
    case R_SYM: t.val = kSymbols[ctx.g.draw(strlen(kSymbols))]; break;
    case R_NUM:
      t.val = "0129"[ctx.g.draw(4)];
      for (int i = 1; i < L; ++i) t.val += "0129._"[ctx.g.draw(6)];
      break;
    case R_STR: {
      char avoid = ctx.g.coin() ? '"' : '\'';
      for (int i = 1; i < L; ++i) {
        char c = ctx.g.chance(1, 4) ? (char)(1 + ctx.g.draw(255)) : "ab #~,()\"'"[ctx.g.draw(10)];
        if (c == avoid || c == '\n') c = ' ';
        t.val += c;
      }
      break;
    }
  }
  return t;
}

static void compare_tokens(Ctx& ctx, const std::string& line) {
  std::vector<RefToken> want, got;
  bool ok = ref_tokenize(line, &want);
  std::vector<Token> ts;
  bool said = tokenize(line, &ts);
  PCHECK(ctx, said == ok, "the line was %s, it is %s", said ? "accepted" : "refused", ok ? "well-formed" : "not");
  if (!ok) return;
  for (auto& t : ts) got.push_back({type_of(t.type), t.val});
  PCHECK(ctx, got.size() == want.size(), "%zu tokens, expected %zu", got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    PCHECK(ctx, got[i] == want[i], "token %zu is <%s> (kind %d), expected <%s> (kind %d)", i, hexish(got[i].val).c_str(), got[i].type,
           hexish(want[i].val).c_str(), want[i].type);
}

PROPERTY("tokens/sequence", 20000, 1000000) {
  std::vector<RefToken> ts;
  while (ctx.g.more(6, ts.size(), 40)) ts.push_back(gen_token(ctx));
  std::string line = layout(ctx, ts);
  ctx.note("%s\n", hexish(line).c_str());
  std::vector<RefToken> want;
  PCHECK(ctx, ref_tokenize(line, &want) && want == ts, "harness: the reference reader does not read its own rendering");
  compare_tokens(ctx, line);
  // Appends to what is there.
  std::vector<Token> two{{TokenType::symbol, "!"}};
  tokenize(line, &two);
  PCHECK(ctx, two.size() == ts.size() + 1 && two[0].val == "!", "tokens already there were lost");
  if (ts.size() >= 3) ctx.nontrivial();
}

PROPERTY("tokens/bytes", 20000, 1000000) {
  std::string line;
  while (ctx.g.more(12, line.size(), 200)) line += ctx.g.chance(1, 5) ? (char)ctx.g.draw(256) : "aZ_09.\"'#~([=,; \t\r"[ctx.g.draw(18)];
  ctx.note("%s\n", hexish(line).c_str());
  compare_tokens(ctx, line);
  if (line.size() >= 3) ctx.nontrivial();
}

// A schema with every kind of line, as the reference reads it.
static std::vector<RefRel> gen_refs(Ctx& ctx, int max_rel) {
  SchemaOpts o;
  o.max_rel = max_rel;
  std::vector<RefRel> v;
  for (auto& r : gen_schema(ctx, o)) {
    RefRel q = ref_of(r);
    if (r.type == 3 && !r.noisy && ctx.g.chance(1, 3)) {
      q.dist = ctx.g.coin() ? "string_normal" : "string_skellam";
      q.args.clear();
    }
    if (ctx.g.chance(1, 8)) {
      static const char* vals[] = {"7", "1_000", "3.25", "x", "a b", ",", "]", "", "#", ":", "it's", "a=b", "(x)"};
      q.args[ctx.g.coin() ? "extra" : "k_2"] = vals[ctx.g.draw(13)];
      while (q.args.size() < 12 && ctx.g.chance(3, 5)) q.args["p" + std::to_string(ctx.g.draw(30))] = vals[ctx.g.draw(13)];
    }
    v.push_back(q);
  }
  return v;
}

static std::string text_of(Ctx& ctx, std::vector<RefRel> rels) {
  for (size_t k = rels.size(); k > 1; --k) std::swap(rels[k - 1], rels[ctx.g.draw(k)]);
  std::vector<std::string> lines;
  for (auto& r : rels) lines.push_back(layout(ctx, tokens_of(ctx, r)));
  return join_lines(ctx, lines);
}

PROPERTY("schema/valid", 12000, 400000) {
  auto rels = gen_refs(ctx, 7);
  std::string text = text_of(ctx, rels);
  ctx.note("%s", hexish(text).c_str());
  std::map<std::string, RefRel> want, ref;
  bool noisy = false;
  for (auto& r : rels) {
    want[r.name] = r;
    noisy |= r.noisy;
    ctx.label((r.noisy ? "noise " : "clean ") + r.dist);
  }
  PCHECK(ctx, read_schema(text, &ref) == OK && show_all(ref) == show_all(want), "harness: the reference reader does not read its own rendering");
  MemFile f(text);
  T_schema s = load_schema(f.path);
  auto a = show_all(s), b = show_all(want);
  for (auto& [n, t] : b) {
    PCHECK(ctx, a.contains(n), "relation %s is missing", n.c_str());
    PCHECK(ctx, a.at(n) == t, "relation %s loaded as %s, stated %s", n.c_str(), a.at(n).c_str(), t.c_str());
  }
  PCHECK(ctx, a.size() == b.size(), "%zu relations loaded, %zu stated", a.size(), b.size());
  for (auto& [n, t] : s)
    PCHECK(ctx, !std::visit([](auto& x) { return x.is_observed; }, t), "relation %s is observed before there are observations", n.c_str());
  if (noisy && rels.size() >= 2) ctx.nontrivial();
}

// The models built from a loaded schema have its relations.
template <class M>
static void compare_model(Ctx& ctx, M& m, const T_schema& s) {
  PCHECK(ctx, m.schema.size() == s.size() && show_all(m.schema) == show_all(s), "the model's schema differs from the one it was built from");
  for (auto& [n, t] : s) {
    RefRel r = ref_of(n, t);
    int want = r.noisy ? noise_type(r.dist) : clean_type(r.dist);
    auto rv = m.get_relation(n);
    PCHECK(ctx, (int)rv.index() == (int)RelationVariant(static_cast<Relation<bool>*>(nullptr)).index() || true, "-");
    std::visit(
        [&](auto* rel) {
          using T = typename std::remove_pointer_t<decltype(rel)>::ValueType;
          int got = std::is_same_v<T, bool> ? 0 : std::is_same_v<T, int> ? 1 : std::is_same_v<T, double> ? 2 : 3;
          PCHECK(ctx, got == want, "relation %s holds values of type %d, expected %d", n.c_str(), got, want);
          std::vector<std::string> ds;
          for (auto* d : rel->get_domains()) ds.push_back(d->name);
          PCHECK(ctx, ds == r.doms, "relation %s is over other domains", n.c_str());
          auto* nr = dynamic_cast<NoisyRelation<T>*>(rel);
          PCHECK(ctx, (nr != nullptr) == r.noisy, "relation %s: wrong kind", n.c_str());
          if (nr) {
            PCHECK(ctx, RelationVariant(nr->base_relation) == m.get_relation(r.base), "relation %s observes another relation", n.c_str());
          }
        },
        rv);
  }
}

PROPERTY("schema/build", 4000, 100000) {
  SchemaOpts o;
  o.max_rel = 6;
  auto rels = gen_schema(ctx, o);
  std::vector<RefRel> refs;
  bool noisy = false;
  for (auto& r : rels) refs.push_back(ref_of(r)), noisy |= r.noisy;
  std::string text = text_of(ctx, refs);
  ctx.note("%s", hexish(text).c_str());
  MemFile f(text);
  T_schema s = load_schema(f.path);
  std::mt19937 prng(ctx.g.seed32());
  IRM irm(s);
  compare_model(ctx, irm, s);
  HIRM hirm(s, &prng);
  compare_model(ctx, hirm, s);
  if (noisy) ctx.nontrivial();
}

// One or two small edits of a valid text, or arbitrary tokens.
static std::string gen_broken(Ctx& ctx) {
  auto rels = gen_refs(ctx, 4);
  std::vector<std::vector<RefToken>> ls;
  for (auto& r : rels) ls.push_back(tokens_of(ctx, r));
  ls.reserve(16);
  int edits = ctx.g.range(1, 2);
  for (int e = 0; e < edits; ++e) {
    auto& l = ls[ctx.g.draw(ls.size())];
    size_t p = ctx.g.draw(l.size() + 1);
    switch (ctx.g.draw(9)) {
      case 0:
        if (p < l.size()) l.erase(l.begin() + p);
        break;
      case 1: l.insert(l.begin() + p, gen_token(ctx)); break;
      case 2:
        if (p < l.size()) l[p] = gen_token(ctx);
        break;
      case 3: l.resize(p); break;
      case 4:
        if (p < l.size()) l.insert(l.begin() + p, l[p]);
        break;
      case 5:
        if (p + 1 < l.size()) std::swap(l[p], l[p + 1]);
        break;
      case 6: {
        // A name taken from elsewhere: bases, domains, distributions.
        auto& o = ls[ctx.g.draw(ls.size())];
        if (p < l.size() && !o.empty()) l[p] = o[ctx.g.draw(o.size())];
        break;
      }
      case 7: {
        auto copy = l;
        ls.push_back(copy);
        break;
      }
      case 8: {
        auto& o = ls[ctx.g.draw(ls.size())];
        if (!o.empty() && !l.empty()) {
          size_t a = ctx.g.draw(l.size()), b = ctx.g.draw(o.size());
          if (&o != &l) std::swap(l[a], o[b]);
        }
        break;
      }
    }
    if (l.empty()) l.push_back(gen_token(ctx));
  }
  std::vector<std::string> lines;
  for (auto& l : ls) lines.push_back(layout(ctx, l));
  std::string text = join_lines(ctx, lines);
  if (ctx.g.chance(1, 8) && !text.empty()) text[ctx.g.draw(text.size())] = (char)ctx.g.draw(256);
  if (ctx.g.chance(1, 8)) text.resize(ctx.g.draw(text.size() + 1));
  return text;
}

PROPERTY("schema/broken", 12000, 300000) {
  std::string text = gen_broken(ctx);
  ctx.note("%s", hexish(text).c_str());
  std::map<std::string, RefRel> want;
  Verdict v = read_schema(text, &want);
  MemFile f(text);
  std::map<std::string, std::string> got;
  auto r = pbt::isolated([&](std::string& out) {
    T_schema s = load_schema(f.path);
    for (auto& [n, t] : show_all(s)) out += n + "\x01" + t + "\x02";
  });
  bool no = refused(ctx, r, "loading the schema");
  ctx.label(v == OK ? "still well-formed" : v == BAD ? "malformed" : "unspecified");
  if (v == BAD) ctx.nontrivial();
  PCHECK(ctx, v != BAD || no, "a malformed schema was accepted as: %s", hexish(r.payload).c_str());
  PCHECK(ctx, v != OK || !no, "a well-formed schema was refused: %s", r.out.c_str());
  if (v == OK) {
    std::string w;
    for (auto& [n, t] : show_all(want)) w += n + "\x01" + t + "\x02";
    PCHECK(ctx, w == r.payload, "loaded as %s, stated %s", hexish(r.payload).c_str(), hexish(w).c_str());
  }
}

// Base links that form a loop: no model is built from them.
PROPERTY("schema/loop", 1500, 30000) {
  int n = ctx.g.range(1, 4);
  std::vector<RefRel> rels;
  std::vector<std::string> names{"R1", "a", "Z", "m"};
  for (int i = 0; i < n; ++i) rels.push_back({true, names[i], "sometimes_bitflip", names[(i + 1) % n], {}, {"D"}});
  if (ctx.g.coin()) rels.push_back({false, "B", "bernoulli", "", {}, {"D"}});
  if (ctx.g.coin()) rels.push_back({true, "t", "sometimes_bitflip", names[0], {}, {"D", "E"}});
  std::string text = text_of(ctx, rels);
  ctx.note("%s", hexish(text).c_str());
  MemFile f(text);
  for (int which = 0; which < 2; ++which) {
    auto r = pbt::isolated([&](std::string& out) {
      T_schema s = load_schema(f.path);
      std::mt19937 prng(1);
      if (which)
        IRM m(s);
      else
        HIRM m(s, &prng);
    });
    PCHECK(ctx, refused(ctx, r, "building a model"), "a schema whose base links form a loop was accepted");
  }
  ctx.nontrivial();
}

PBT_MAIN("a sequence of at least three tokens or bytes, a schema with a noisy relation, or a text the reference reader finds malformed")
