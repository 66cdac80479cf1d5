// C07: alignments are valid, distinct, ordered and truly the k cheapest.
#include <map>
#include <set>

#include "emissions/string_alignment.hh"
#include "pbt.hh"

static std::string show(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) o += c < 0x20 || c >= 0x7f ? pbt::fmt("\\x%02x", c) : std::string(1, c);
  return o + "\"";
}

// A cost function described by data.  Every cost is a multiple of 1/64, so
// sums are exact.  op: 0 deletion, 1 insertion, 2 substitution, 3 match.
struct Cost {
  int kind = 0;  // 0 unit edits, 1 per operation, 2 per operation and characters, 3 also context
  double w[4] = {1, 1, 1, 0};
  uint64_t salt = 0;
  int levels = 8;
  double step(int op, char a, char b, int ctx) const {
    if (kind == 0) return op == 3 ? 0 : 1;
    if (kind == 1) return w[op];
    uint64_t h = pbt::splitmix(salt ^ (uint64_t)(unsigned char)a << 8 ^ (uint64_t)(unsigned char)b << 16 ^
                               (uint64_t)op << 24 ^ (kind == 3 ? (uint64_t)(ctx + 1) << 32 : 0));
    return w[op] + (double)(h % levels) / 64.0;
  }
  std::string str() const {
    return pbt::fmt("cost kind %d (%g %g %g %g) levels %d", kind, w[0], w[1], w[2], w[3], levels);
  }
};

struct Piece {
  int op;
  char a, b;
  bool operator<(const Piece& o) const { return std::tie(op, a, b) < std::tie(o.op, o.a, o.b); }
};
static Piece piece(const AlignPiece& p) {
  if (auto x = std::get_if<Deletion>(&p)) return {0, x->deleted_char, 0};
  if (auto x = std::get_if<Insertion>(&p)) return {1, 0, x->inserted_char};
  if (auto x = std::get_if<Substitution>(&p)) return {2, x->original, x->replacement};
  auto& m = std::get<Match>(p);
  return {3, m.c, m.c};
}

// The cost of a sequence of pieces; the context is the last clean character.
static double total(const Cost& c, const std::vector<AlignPiece>& ps, size_t n) {
  double t = 0;
  int ctx = -1;
  for (size_t i = 0; i < n; ++i) {
    Piece p = piece(ps[i]);
    t += c.step(p.op, p.a, p.b, ctx);
    if (p.op != 1) ctx = (unsigned char)p.a;
  }
  return t;
}

static Cost gen_cost(pbt::Ctx& ctx) {
  Cost c;
  c.kind = ctx.g.draw(4);
  if (c.kind >= 1) {
    for (double& w : c.w) w = ctx.g.range(0, 64) / 64.0 * (1 << ctx.g.draw(4));
    if (ctx.g.coin()) c.w[3] = 0;
    if (ctx.g.chance(1, 8)) c.w[ctx.g.draw(4)] = 0;
    if (ctx.g.chance(1, 8)) c.w[0] = c.w[1] = c.w[2] = 1;
  }
  if (c.kind >= 2) {
    c.salt = ctx.g.seed32();
    c.levels = ctx.g.pick(std::vector<int>{2, 8, 64, 640});
  }
  return c;
}
static std::string gen_string(pbt::Ctx& ctx, int max, int alphabet) {
  std::string s;
  int n = ctx.g.range(0, max);
  for (int i = 0; i < n; ++i)
    s += alphabet > 90 ? (char)ctx.g.range(1, 255) : (char)('a' + ctx.g.draw(alphabet));
  return s;
}

// Runs the code under test and checks everything but optimality.
static std::vector<StrAlignment> run(pbt::Ctx& ctx, int k, const std::string& s1, const std::string& s2, const Cost& c) {
  std::vector<StrAlignment> out;
  std::string bad;
  CostFunction f = [&](const StrAlignment& a, double old) {
    if (a.align_pieces.empty()) {
      bad = "the cost function was asked about an empty alignment";
      return old;
    }
    double before = total(c, a.align_pieces, a.align_pieces.size() - 1);
    if (!pbt::near(old, before, 1e-12, 1e-12) && bad.empty())
      bad = pbt::fmt("the cost function was told that the prefix costs %g, it costs %g", old, before);
    if (c.kind == 0) return edit_distance(a, old);
    return old + (total(c, a.align_pieces, a.align_pieces.size()) - before);
  };
  if (c.kind == 0 && ctx.g.coin()) {
    topk_alignments(k, s1, s2, edit_distance, &out);
  } else {
    topk_alignments(k, s1, s2, f, &out);
  }
  PCHECK(ctx, bad.empty(), "%s", bad.c_str());
  std::set<std::vector<Piece>> seen;
  double last = -1;
  for (auto& a : out) {
    std::string x, y;
    std::vector<Piece> ps;
    for (auto& q : a.align_pieces) {
      Piece p = piece(q);
      ps.push_back(p);
      if (p.op != 1) x += p.a;
      if (p.op != 0) y += p.b;
      PCHECK(ctx, p.op != 2 || p.a != p.b, "a substitution of %d by itself", p.a);
    }
    PCHECK(ctx, x == s1 && y == s2, "an alignment spells %s and %s", show(x).c_str(), show(y).c_str());
    PCHECK(ctx, a.s1_position == s1.size() && a.s2_position == s2.size(), "an alignment ends at %zu, %zu", a.s1_position, a.s2_position);
    PCHECK(ctx, seen.insert(ps).second, "an alignment is returned twice");
    double t = total(c, a.align_pieces, a.align_pieces.size());
    PCHECK(ctx, pbt::near(a.cost, t, 1e-12, 1e-12), "an alignment is said to cost %.15g, its pieces cost %.15g", a.cost, t);
    PCHECK(ctx, a.cost >= last - 1e-12, "costs are not ascending: %.15g after %.15g", a.cost, last);
    last = a.cost;
  }
  return out;
}

// The k smallest total costs, by position.  Valid because a step's cost is
// determined by its position and operation.
static std::vector<double> best_costs(const Cost& c, const std::string& s1, const std::string& s2, size_t k) {
  size_t n = s1.size(), m = s2.size();
  std::vector<std::vector<std::vector<double>>> d(n + 1, std::vector<std::vector<double>>(m + 1));
  d[0][0] = {0.0};
  for (size_t i = 0; i <= n; ++i)
    for (size_t j = 0; j <= m; ++j) {
      if (!i && !j) continue;
      std::vector<double> v;
      auto ctx = [&](size_t q) { return q ? (int)(unsigned char)s1[q - 1] : -1; };
      if (i) for (double x : d[i - 1][j]) v.push_back(x + c.step(0, s1[i - 1], 0, ctx(i - 1)));
      if (j) for (double x : d[i][j - 1]) v.push_back(x + c.step(1, 0, s2[j - 1], ctx(i)));
      if (i && j) {
        int op = s1[i - 1] == s2[j - 1] ? 3 : 2;
        for (double x : d[i - 1][j - 1]) v.push_back(x + c.step(op, s1[i - 1], s2[j - 1], ctx(i - 1)));
      }
      std::sort(v.begin(), v.end());
      if (v.size() > k) v.resize(k);
      d[i][j] = v;
    }
  return d[n][m];
}

static void compare(pbt::Ctx& ctx, int k, const std::string& s1, const std::string& s2, const Cost& c) {
  auto out = run(ctx, k, s1, s2, c);
  auto want = best_costs(c, s1, s2, k);
  PCHECK(ctx, out.size() == want.size(), "%zu alignments for k=%d, %zu exist", out.size(), k, want.size());
  for (size_t i = 0; i < want.size(); ++i)
    PCHECK(ctx, pbt::near(out[i].cost, want[i], 1e-12, 1e-12), "alignment %zu costs %.15g, the %zu-th cheapest costs %.15g", i, out[i].cost, i, want[i]);
}

static int pick_k(pbt::Ctx& ctx, int max) {
  switch (ctx.g.draw(4)) {
    case 0: return 1;
    case 1: return 2;
    case 2: return ctx.g.range(1, 10);
    default: return ctx.g.range(1, max);
  }
}

PROPERTY("short_strings", 60000, 2000000) {
  int alphabet = ctx.g.range(1, 4);
  std::string s1 = gen_string(ctx, 5, alphabet), s2 = gen_string(ctx, 5, alphabet);
  Cost c = gen_cost(ctx);
  int k = pick_k(ctx, 300);
  ctx.note("k=%d %s %s %s", k, show(s1).c_str(), show(s2).c_str(), c.str().c_str());
  compare(ctx, k, s1, s2, c);
  if (s1.size() > 1 && s2.size() > 1) ctx.nontrivial();
  if (k > 200) ctx.label("large k");
}

// Every alignment, enumerated explicitly, independently of the reference above.
static void enumerate(const Cost& c, const std::string& a, const std::string& b, size_t i, size_t j, double t, std::vector<double>& out) {
  if (i == a.size() && j == b.size()) {
    out.push_back(t);
    return;
  }
  int ctx = i ? (int)(unsigned char)a[i - 1] : -1;
  if (i < a.size()) enumerate(c, a, b, i + 1, j, t + c.step(0, a[i], 0, ctx), out);
  if (j < b.size()) enumerate(c, a, b, i, j + 1, t + c.step(1, 0, b[j], ctx), out);
  if (i < a.size() && j < b.size())
    enumerate(c, a, b, i + 1, j + 1, t + c.step(a[i] == b[j] ? 3 : 2, a[i], b[j], ctx), out);
}
PROPERTY("all_alignments", 6000, 200000) {
  int alphabet = ctx.g.range(1, 3);
  std::string s1 = gen_string(ctx, 4, alphabet), s2 = gen_string(ctx, 4, alphabet);
  Cost c = gen_cost(ctx);
  ctx.note("all %s %s %s", show(s1).c_str(), show(s2).c_str(), c.str().c_str());
  std::vector<double> want;
  enumerate(c, s1, s2, 0, 0, 0, want);
  std::sort(want.begin(), want.end());
  auto out = run(ctx, (int)want.size() + (int)ctx.g.range(0, 5), s1, s2, c);
  PCHECK(ctx, out.size() == want.size(), "%zu alignments, %zu exist", out.size(), want.size());
  for (size_t i = 0; i < want.size(); ++i)
    PCHECK(ctx, pbt::near(out[i].cost, want[i], 1e-12, 1e-12), "alignment %zu costs %.15g, expected %.15g", i, out[i].cost, want[i]);
  if (s1.size() > 1 && s2.size() > 1) ctx.nontrivial();
}

PROPERTY("long_strings", 2500, 60000) {
  int alphabet = ctx.g.chance(1, 3) ? 255 : (int)ctx.g.range(1, 26);
  int max = ctx.thorough ? 60 : 35;
  std::string s1 = gen_string(ctx, max, alphabet), s2;
  if (ctx.g.coin()) {
    // A few edits of s1.
    s2 = s1;
    int e = ctx.g.range(0, 5);
    for (int q = 0; q < e; ++q) {
      size_t p = ctx.g.range(0, s2.size());
      int op = ctx.g.draw(3);
      if (op == 0) s2.insert(p, 1, (char)('a' + ctx.g.draw(26)));
      else if (p < s2.size() && op == 1) s2.erase(p, 1);
      else if (p < s2.size()) s2[p] = (char)('a' + ctx.g.draw(26));
    }
  } else {
    s2 = gen_string(ctx, max, alphabet);
  }
  Cost c = gen_cost(ctx);
  int k = ctx.g.range(1, 6);
  ctx.note("k=%d %s %s %s", k, show(s1).c_str(), show(s2).c_str(), c.str().c_str());
  compare(ctx, k, s1, s2, c);
  if (s1.size() > 4 && s2.size() > 4) ctx.nontrivial();
}

int main(int argc, char** argv) {
  return pbt::main_impl(argc, argv,
      "Random string pairs, k and additive cost functions (unit, per operation, per character, with context); "
      "returned alignments are checked piece by piece and their costs against a k-best dynamic programme and an explicit enumeration. "
      "Non-trivial: both strings have at least two (long: five) characters.");
}
