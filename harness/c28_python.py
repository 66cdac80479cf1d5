"""C28: the Python model, by itself and against the C++ model."""
import copy, itertools, json, math, os, random, subprocess, sys, tempfile
from math import lgamma

from pylib import *

REPO = os.environ["VERIF_REPO"]
sys.path.insert(0, REPO)
from src import hirm as H  # noqa
from src import util_io as U  # noqa
from src import util_math as M  # noqa


def clone(x):
    return copy.deepcopy(x, {id(random): random})


# ---- frequencies -----------------------------------------------------------
def chi2_sf(x, k):
    """An upper bound that is close enough: the survival function of chi2."""
    from scipy.stats import chi2
    return chi2.sf(x, k)


def frequencies(ctx, draw, p, n, what):
    """draw() in proportion to p (dict), with tiny error probability: a second,
    larger sample decides."""
    def pval(n):
        c = {}
        for _ in range(n):
            x = draw()
            if p.get(x, 0) <= 0:
                raise Fail("%s: %r was drawn, which is impossible" % (what, x))
            c[x] = c.get(x, 0) + 1
        # Rare outcomes together.
        stat, k, rest_p, rest_c = 0.0, 0, 0.0, 0
        for x, q in p.items():
            if q * n < 5:
                rest_p += q
                rest_c += c.get(x, 0)
            else:
                stat += (c.get(x, 0) - n * q) ** 2 / (n * q)
                k += 1
        if rest_p * n >= 5:
            stat += (rest_c - n * rest_p) ** 2 / (n * rest_p)
            k += 1
        elif rest_c > 12 + 3 * rest_p * n:
            return 0.0, c
        return (chi2_sf(stat, k - 1) if k > 1 else 1.0), c
    a, _ = pval(n)
    if a < 1e-3:
        b, c = pval(5 * n)
        if b < 1e-9:
            raise Fail("%s: drawn %r of %d, expected %r (p=%.1e)" % (what, c, 5 * n, {x: round(q, 4) for x, q in p.items()}, b))


# ---- models ----------------------------------------------------------------
def beta_score(n, s, a=1.0, b=1.0):
    return lgamma(s + a) + lgamma(n - s + b) - lgamma(n + a + b) - lgamma(a) - lgamma(b) + lgamma(a + b)


def crp_score(sizes, alpha):
    n = sum(sizes)
    return len(sizes) * math.log(alpha) + sum(lgamma(k) for k in sizes) + lgamma(alpha) - lgamma(n + alpha)


def tup(x):
    return tuple(x)


def canon_crp(c):
    return dict(alpha=c.alpha, N=c.N, tables={t: sorted(map(repr, v)) for t, v in c.tables.items()},
                assignments={repr(k): t for k, t in c.assignments.items()})


def canon_irm(m):
    return dict(
        schema={r: list(d) for r, d in m.schema.items()},
        domains={d: dict(name=x.name, items=sorted(map(repr, x.items)), crp=canon_crp(x.crp)) for d, x in m.domains.items()},
        relations={r: dict(name=x.name, domains=[d.name for d in x.domains],
                           clusters={tup(z): (c.alpha, c.beta, c.N, c.s) for z, c in x.clusters.items()},
                           data={tup(k): v for k, v in x.data.items()},
                           data_r={d: {repr(i): sorted(map(repr, v)) for i, v in y.items()} for d, y in x.data_r.items()})
                   for r, x in m.relations.items()},
        domain_to_relations={d: sorted(v) for d, v in m.domain_to_relations.items()})


def canon_hirm(m):
    return dict(schema={r: list(d) for r, d in m.schema.items()}, crp=canon_crp(m.crp), irms={t: canon_irm(x) for t, x in m.irms.items()})


def check_crp(ctx, c, what, customers=None):
    ctx.check(all(c.tables.values()), "%s: an empty table" % what)
    ctx.check({i: t for t, v in c.tables.items() for i in v} == c.assignments, "%s: tables %r and assignments %r disagree", what, c.tables, c.assignments)
    ctx.check(sum(len(v) for v in c.tables.values()) == c.N == len(c.assignments), "%s: %d customers, N is %d", what, len(c.assignments), c.N)
    if customers is not None:
        ctx.check(set(c.assignments) == set(customers), "%s: customers are %r, expected %r", what, sorted(map(repr, c.assignments)), sorted(map(repr, customers)))
    sizes = [len(v) for v in c.tables.values()]
    ctx.near(float(c.logp_score()), crp_score(sizes, c.alpha), "%s: score" % what)
    w = c.tables_weights()
    ctx.check(len(w) == len(c.tables) + 1 and set(c.tables) < set(w), "%s: tables of weights %r", what, w)
    for t, x in w.items():
        ctx.near(math.exp(c.logp(t)), (len(c.tables[t]) if t in c.tables else c.alpha) / (c.N + c.alpha), "%s: probability of table %r" % (what, t))
        if c.N:
            ctx.near(float(x), float(len(c.tables[t]) if t in c.tables else c.alpha), "%s: weight of table %r" % (what, t))


def check_irm(ctx, m, schema, data, extra=()):
    """data: relation -> {items: value}; extra: (domain, item) that are grouped
    without an observation."""
    ctx.check({r: list(d) for r, d in m.schema.items()} == {r: list(d) for r, d in schema.items()}, "the schema is %r, expected %r", m.schema, schema)
    ctx.check(set(m.relations) == set(schema), "the relations are %r", sorted(m.relations))
    doms = {d for ds in schema.values() for d in ds}
    ctx.check(set(m.domains) == doms == set(m.domain_to_relations), "the domains are %r", sorted(m.domains))
    total = 0.0
    for d, dom in m.domains.items():
        ctx.check(m.domain_to_relations[d] == {r for r in schema if d in schema[r]}, "relations of domain %s: %r", d, m.domain_to_relations[d])
        items = {i for r in schema for k in data.get(r, {}) for e, i in zip(schema[r], k) if e == d} | {i for e, i in extra if e == d}
        ctx.check(dom.items == items, "domain %s has %r, expected %r", d, sorted(map(repr, dom.items)), sorted(map(repr, items)))
        check_crp(ctx, dom.crp, "domain " + d, items)
        total += crp_score([len(v) for v in dom.crp.tables.values()], dom.crp.alpha)
    for r, rel in m.relations.items():
        ctx.check([d.name for d in rel.domains] == list(schema[r]), "relation %s is over %r", r, rel.domains)
        for d in rel.domains:
            ctx.check(d is m.domains[d.name], "relation %s has a domain %s of its own", r, d.name)
        want = data.get(r, {})
        ctx.check(dict(rel.data) == want, "relation %s has data %r, expected %r", r, rel.data, want)
        cells, back = {}, {d: {} for d in schema[r]}
        for k, v in want.items():
            z = tuple(m.domains[d].crp.assignments[i] for d, i in zip(schema[r], k))
            n, s = cells.get(z, (0, 0))
            cells[z] = (n + 1, s + v)
            for d, i in zip(schema[r], k):
                back[d].setdefault(i, set()).add(k)
        ctx.check({z: (c.N, c.s) for z, c in rel.clusters.items()} == cells, "relation %s: cells %r, expected %r", r, rel.clusters, cells)
        ctx.check({d: dict(x) for d, x in rel.data_r.items()} == back, "relation %s: reverse map %r, expected %r", r, rel.data_r, back)
        sc = sum(beta_score(n, s, rel.clusters[z].alpha, rel.clusters[z].beta) for z, (n, s) in cells.items())
        ctx.near(float(rel.logp_score()), sc, "score of relation " + r, abs_=1e-8)
        total += sc
    ctx.near(float(m.logp_score()), total, "the score", abs_=1e-8)
    return total


def check_hirm(ctx, m, schema, data):
    check_crp(ctx, m.crp, "relations", schema)
    ctx.check({r: list(d) for r, d in m.schema.items()} == {r: list(d) for r, d in schema.items()}, "the schema is %r, expected %r", m.schema, schema)
    ctx.check(set(m.irms) == set(m.crp.tables), "models %r for tables %r", sorted(m.irms), sorted(m.crp.tables))
    total = crp_score([len(v) for v in m.crp.tables.values()], m.crp.alpha)
    for t, rs in m.crp.tables.items():
        sub = {r: schema[r] for r in rs}
        total += check_irm(ctx, m.irms[t], sub, {r: data.get(r, {}) for r in rs})
        for r in rs:
            ctx.check(m.relation_to_table(r) == t and m.relation_to_irm(r) is m.irms[t] and m.relation(r) is m.irms[t].relations[r], "relation %s is looked up wrongly", r)
    ctx.near(float(m.logp_score()), total, "the score", abs_=1e-8)


# ---- cases -----------------------------------------------------------------
DOMS = ["D0", "D1", "D2"]
alphas = st.sampled_from([0.1, 0.5, 1.0, 1.0, 2.5, 7.0])


@st.composite
def schemas(draw, max_rels=3):
    return {"R%d" % i: draw(st.lists(st.sampled_from(DOMS), min_size=1, max_size=draw(st.sampled_from([1, 2, 2, 3]))))
            for i in range(draw(st.integers(1, max_rels)))}


@st.composite
def observations(draw, schema, universe, size):
    out, seen = [], set()
    for _ in range(draw(st.integers(0, size))):
        r = draw(st.sampled_from(sorted(schema)))
        k = [draw(st.integers(0, universe - 1)) for _ in schema[r]]
        if (r, tuple(k)) not in seen:
            seen.add((r, tuple(k)))
            out.append([r, draw(st.integers(0, 1)), k])
    return out


@st.composite
def models(draw, max_rels=3, universe=6, size=14):
    s = draw(schemas(max_rels))
    u = draw(st.integers(1, universe))
    doms = sorted({d for ds in s.values() for d in ds})
    groups = {d: [draw(st.integers(0, 3)) for _ in range(u)] for d in doms}
    return dict(schema=s, universe=u, groups=groups, alphas={d: draw(alphas) for d in doms},
                ungrouped=draw(st.integers(0, 2)), obs=draw(observations(s, u, size)))


def build_irm(case, seed=1):
    m = H.IRM({r: list(d) for r, d in case["schema"].items()}, prng=random.Random(seed))
    used = {(d, i) for r, v, k in case["obs"] for d, i in zip(case["schema"][r], k)}
    placed = []
    for d, g in case["groups"].items():
        m.domains[d].crp.alpha = case["alphas"][d]
        for i, t in enumerate(g):
            # Groups are given to what is observed, and to a few others.
            if (d, i) in used or i < case["ungrouped"]:
                m.domains[d].incorporate(i, table=t)
                placed.append((d, i, t))
    for r, v, k in case["obs"]:
        m.incorporate(r, tuple(k), v)
    return m, placed


# ---- the C++ model ---------------------------------------------------------
class Probe:
    proc = None

    def ask(self, lines, answers):
        if Probe.proc is None or Probe.proc.poll() is not None:
            Probe.proc = subprocess.Popen([os.environ["VERIF_PROBE"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        p = Probe.proc
        p.stdin.write("\n".join(lines) + "\n.\n")
        p.stdin.flush()
        out = []
        while True:
            l = p.stdout.readline()
            if not l:
                err = p.stderr.read()[-1500:]
                Probe.proc = None
                raise Fail("the C++ model fails: " + err)
            if l == "end\n":
                break
            out.append(l.split())
        if len(out) != answers:
            raise Fail("the C++ model gives %d answers to %d questions: %r" % (len(out), answers, out))
        return out


@st.composite
def questions(draw):
    case = draw(models())
    s, u = case["schema"], case["universe"]
    seen = {(r, tuple(k)) for r, v, k in case["obs"]}
    case["ask"] = []
    for _ in range(draw(st.integers(0, 4))):
        q = []
        have = set(seen)
        for _ in range(draw(st.integers(1, 3))):
            r = draw(st.sampled_from(sorted(s)))
            k = [draw(st.integers(0, u + 1)) for _ in s[r]]
            if (r, tuple(k)) in have:
                continue
            have.add((r, tuple(k)))
            q.append([r, draw(st.integers(0, 1)), k])
        if q:
            case["ask"].append(q)
    return case


@target("differential/model", questions(), 12000, 200000, 150)
def differential(ctx, case):
    m, placed = build_irm(case)
    s = case["schema"]
    before = canon_irm(m)
    lines = ["R %s %d %s" % (r, len(d), " ".join(d)) for r, d in s.items()]
    lines += ["A %s %.17g" % (d, a) for d, a in case["alphas"].items()]
    lines += ["C %s %d %d" % p for p in placed]
    lines += ["O %s %d %s" % (r, v, " ".join(map(str, k))) for r, v, k in case["obs"]]
    asked = [("score", None)]
    lines.append("S")
    for d in case["groups"]:
        lines.append("W %s" % d)
        asked.append(("new", d))
        for i in sorted(m.domains[d].items):
            w = m.domains[d].tables_weights_gibbs(i)
            lines.append("M %s %d" % (d, i))
            asked.append(("weights", (d, i)))
            for r in sorted(s):
                rel = m.relations[r]
                if d in s[r] and rel.has_observation(m.domains[d], i):
                    ts = sorted(w)
                    lines.append("G %s %s %d %d %s" % (r, d, i, len(ts), " ".join(map(str, ts))))
                    asked.append(("gibbs", (r, d, i, ts)))
                    if s[r].count(d) > 1:
                        ctx.label("repeated domain")
    for q in case["ask"]:
        lines.append("P %d %s" % (len(q), " ".join("%s %d %s" % (r, v, " ".join(map(str, k))) for r, v, k in q)))
        asked.append(("joint", q))
    answers = Probe().ask(lines, len(asked))
    for (kind, x), a in zip(asked, answers):
        a = [float(y) for y in a]
        if kind == "score":
            ctx.near(float(m.logp_score()), a[0], "the score", abs_=1e-8)
        elif kind in ("new", "weights"):
            w = m.domains[x].tables_weights() if kind == "new" else m.domains[x[0]].tables_weights_gibbs(x[1])
            cw = {int(a[i]): a[i + 1] for i in range(0, len(a), 2)}
            ctx.check(set(cw) == set(w), "%s %r: groups %r, in C++ %r", kind, x, w, cw)
            for t in w:
                ctx.near(w[t] / sum(w.values()), cw[t] / sum(cw.values()), "%s %r: group %r" % (kind, x, t))
        elif kind == "gibbs":
            r, d, i, ts = x
            lp = m.relations[r].logp_gibbs_exact(m.domains[d], i, ts)
            ctx.check(len(lp) == len(ts), "%r scores for %r", lp, ts)
            # Only differences matter.
            for t, y, z in zip(ts, lp, a):
                ctx.near(float(y) - float(lp[0]), z - a[0], "reassigning %s %d, relation %s, group %d against group %d" % (d, i, r, t, ts[0]), abs_=1e-8)
        else:
            q = [(r, tuple(k), v) for r, v, k in x]
            ctx.near(float(m.logp(q)), a[0], "joint predictive of %r" % (q,), abs_=1e-8)
    ctx.check(canon_irm(m) == before, "asking for probabilities changed the model")
    if len(case["obs"]) >= 2 and len(asked) > 3:
        ctx.nontrivial()


@target("model/reassign", models(size=20), 3000, 60000, 80)
def reassign(ctx, case):
    """Reassignment scores against moves that are made."""
    m, placed = build_irm(case)
    for d in sorted(case["groups"]):
        dom = m.domains[d]
        for i in sorted(dom.items)[:3]:
            w = dom.tables_weights_gibbs(i)
            ts = sorted(w)
            said = [math.log(w[t]) for t in ts]
            rels = [m.relations[r] for r in sorted(m.domain_to_relations[d]) if m.relations[r].has_observation(dom, i)]
            for rel in rels:
                said = [x + float(y) for x, y in zip(said, rel.logp_gibbs_exact(dom, i, ts))]
            done = []
            for t in ts:
                c = clone(m)
                if c.domains[d].get_cluster_assignment(i) != t:
                    for rel in rels:
                        c.relations[rel.name].set_cluster_assignment_gibbs(c.domains[d], i, t)
                    c.domains[d].set_cluster_assignment_gibbs(i, t)
                data = {}
                for r, v, k in case["obs"]:
                    data.setdefault(r, {})[tuple(k)] = v
                check_irm(ctx, c, case["schema"], data, {(e, j) for e, j, _ in placed})
                done.append(float(c.logp_score()))
            for t, a, b in zip(ts, said, done):
                ctx.near(a - said[0], b - done[0], "moving %s %d to group %d instead of %d" % (d, i, t, ts[0]), abs_=1e-7)
            if len(ts) > 2 and rels:
                ctx.nontrivial()


@target("model/move-frequencies", models(universe=4, size=8), 40, 1500, 4)
def move_frequencies(ctx, case):
    m, placed = build_irm(case)
    ds = [d for d in sorted(case["groups"]) if m.domains[d].items]
    if not ds:
        reject()
    d = ds[len(case["obs"]) % len(ds)]
    i = sorted(m.domains[d].items)[0]
    w = m.domains[d].tables_weights_gibbs(i)
    lp = {}
    for t in w:
        c = clone(m)
        if c.domains[d].get_cluster_assignment(i) != t:
            for r in c.domain_to_relations[d]:
                if c.relations[r].has_observation(c.domains[d], i):
                    c.relations[r].set_cluster_assignment_gibbs(c.domains[d], i, t)
            c.domains[d].set_cluster_assignment_gibbs(i, t)
        lp[t] = float(c.logp_score())
    top = max(lp.values())
    p = {t: math.exp(x - top) for t, x in lp.items()}
    z = sum(p.values())
    p = {t: x / z for t, x in p.items()}
    prng = random.Random(len(json.dumps(case)))

    def draw():
        c = clone(m)
        c.prng = prng
        c.transition_cluster_assignment_item(d, i)
        return c.domains[d].get_cluster_assignment(i)
    frequencies(ctx, draw, p, 250, "group of %s %d after a move" % (d, i))
    if len(p) > 1 and case["obs"]:
        ctx.nontrivial()


# ---- histories -------------------------------------------------------------
ops = st.lists(st.tuples(st.sampled_from(["obs", "obs", "obs", "obs", "obs", "obs", "many", "all", "item", "alpha", "add", "remove", "json", "text", "move", "rel", "rels"]),
                         st.integers(0, 10**6)), min_size=1, max_size=14)
histories = st.fixed_dictionaries(dict(schema=schemas(3), ops=ops.map(lambda x: [list(y) for y in x]), seed=st.integers(0, 10**6), strings=st.booleans(),
                                      step=st.sampled_from([1, 1, 7, 997, 10**6 + 3, 2**33])))


def item_name(case, i):
    # Entity numbers need not be small or dense.
    i *= case.get("step", 1)
    return ("item_%d" % i) if case["strings"] else i


def files(schema, data):
    tmp = tempfile.mkdtemp(prefix="c28_")
    a, b, c = (os.path.join(tmp, x) for x in ("schema", "obs", "clusters"))
    with open(a, "w") as f:
        for r, d in schema.items():
            f.write("bernoulli %s %s\n" % (r, " ".join(d)))
    with open(b, "w") as f:
        for r, x in data.items():
            for k, v in x.items():
                f.write("%d %s %s\n" % (v, r, " ".join(map(str, k))))
    return tmp, a, b, c


def drop(tmp, *fs):
    for f in fs:
        if os.path.exists(f):
            os.unlink(f)
    os.rmdir(tmp)


def without_alpha(c):
    if isinstance(c, dict):
        return {k: without_alpha(v) for k, v in c.items() if k != "alpha"}
    return c


def reload_json(ctx, m, to, back, canon, case, n):
    text = json.dumps(to(m))
    prng = random.Random(n)
    x = back(json.loads(text), prng=prng)
    ctx.check(canon(x) == canon(m), "saved and reloaded: %r, was %r", canon(x), canon(m))
    ctx.near(float(x.logp_score()), float(m.logp_score()), "the score after saving and reloading")
    ctx.label("json")
    return x


def apply_common(ctx, m, op, rng, case, schema, data, incorporate):
    """Operations that both models have; True when it was one of them."""
    if op in ("obs", "many"):
        r = rng.choice(sorted(schema))
        for _ in range(1 if op == "obs" else 30):
            k = tuple(item_name(case, rng.randrange(5 if op == "obs" else 60)) for _ in schema[r])
            if k not in data.setdefault(r, {}):
                v = rng.randrange(2)
                incorporate(r, k, v)
                data[r][k] = v
        return True
    return False


@target("history/irm", histories, 6000, 100000, 100)
def history_irm(ctx, case):
    schema = {r: list(d) for r, d in case["schema"].items()}
    m = H.IRM(schema, prng=random.Random(case["seed"]))
    schema = dict(schema)
    data = {}
    moves = 0
    for op, n in case["ops"]:
        rng = random.Random(n)
        if schema and apply_common(ctx, m, op, rng, case, schema, data, m.incorporate):
            pass
        elif op == "all":
            m.transition_cluster_assignments()
            moves += 1
        elif op == "item" and any(d.items for d in m.domains.values()):
            d = rng.choice(sorted(x for x in m.domains if m.domains[x].items))
            m.transition_cluster_assignment_item(d, rng.choice(sorted(m.domains[d].items)))
            moves += 1
        elif op == "alpha":
            m.transition_crp_alphas()
            for d in m.domains.values():
                if d.crp.N:
                    ctx.check(1 / d.crp.N - 1e-9 <= d.crp.alpha <= d.crp.N + 1 + 1e-9, "concentration %r for %d entities", d.crp.alpha, d.crp.N)
        elif op == "add":
            r = "S%d" % n
            if r not in schema:
                schema[r] = [rng.choice(DOMS) for _ in range(rng.randrange(1, 4))]
                m.add_relation(r, list(schema[r]))
        elif op == "remove" and schema:
            r = rng.choice(sorted(schema))
            m.remove_relation(r)
            del schema[r]
            data.pop(r, None)
            ctx.label("remove")
        elif op == "json":
            m = reload_json(ctx, m, U.to_dict_IRM, U.from_dict_IRM, canon_irm, case, n)
        elif op == "text" and schema:
            tmp, a, b, c = files(schema, data)
            try:
                U.to_txt_irm(c, m)
                x = U.from_txt_irm(a, b, c)
            finally:
                drop(tmp, a, b, c)
            ctx.check(without_alpha(canon_irm(x)) == without_alpha(canon_irm(m)), "saved as text and reloaded: %r, was %r", canon_irm(x), canon_irm(m))
            x.prng = random.Random(n)
            for d in x.domains.values():
                d.crp.prng = d.prng = x.prng
            m = x
            ctx.label("text")
        check_irm(ctx, m, schema, data)
    if sum(map(len, data.values())) >= 3 and moves:
        ctx.nontrivial()


@target("history/hirm", histories, 6000, 100000, 100)
def history_hirm(ctx, case):
    schema = {r: list(d) for r, d in case["schema"].items()}
    m = H.HIRM(schema, prng=random.Random(case["seed"]))
    schema = dict(schema)
    data = {}
    moves = 0
    for op, n in case["ops"]:
        rng = random.Random(n)
        if schema and apply_common(ctx, m, op, rng, case, schema, data, m.incorporate):
            pass
        elif op == "all":
            for t in sorted(m.irms):
                m.irms[t].transition_cluster_assignments()
        elif op == "alpha":
            m.transition_crp_alpha()
            for t in sorted(m.irms):
                m.irms[t].transition_crp_alphas()
        elif op == "rels":
            m.transition_cluster_assignments()
            moves += 1
        elif op == "rel" and schema:
            m.transition_cluster_assignment_relation(rng.choice(sorted(schema)))
            moves += 1
        elif op == "move" and schema:
            r = rng.choice(sorted(schema))
            w = m.crp.tables_weights_gibbs(m.crp.assignments[r])
            t = rng.choice(sorted(w))
            if t != m.crp.assignments[r]:
                m.set_cluster_assignment_gibbs(r, t)
                ctx.check(m.crp.assignments[r] == t, "%s was moved to %d and is at %d", r, t, m.crp.assignments[r])
                ctx.label("move")
        elif op == "add":
            r = "S%d" % n
            if r not in schema:
                schema[r] = [rng.choice(DOMS) for _ in range(rng.randrange(1, 4))]
                m.add_relation(r, list(schema[r]))
        elif op == "remove" and schema:
            r = rng.choice(sorted(schema))
            m.remove_relation(r)
            del schema[r]
            data.pop(r, None)
            ctx.label("remove")
        elif op == "json":
            m = reload_json(ctx, m, U.to_dict_HIRM, U.from_dict_HIRM, canon_hirm, case, n)
        elif op == "text" and schema:
            tmp, a, b, c = files(schema, data)
            try:
                U.to_txt_hirm(c, m)
                x = U.from_txt_hirm(a, b, c)
            finally:
                drop(tmp, a, b, c)
            ctx.check(without_alpha(canon_hirm(x)) == without_alpha(canon_hirm(m)), "saved as text and reloaded: %r, was %r", canon_hirm(x), canon_hirm(m))
            ctx.label("text")
            # What reads a text has no generator of its own: keep the old one.
        check_hirm(ctx, m, schema, data)
        # Joint predictives are those of the models that hold the relations.
        if op == "rel" and schema:
            q = []
            for r in sorted(schema):
                k = tuple(item_name(case, 7 + rng.randrange(2)) for _ in schema[r])
                q.append((r, k, rng.randrange(2)))
            by = {}
            for r, k, v in q:
                by.setdefault(m.crp.assignments[r], []).append((r, k, v))
            ctx.near(float(m.logp(q)), sum(float(m.irms[t].logp(x)) for t, x in by.items()), "joint predictive over models")
    if sum(map(len, data.values())) >= 3 and moves:
        ctx.nontrivial()


@target("history/reproducible", histories, 400, 10000, 50)
def reproducible(ctx, case):
    """A model that is given a generator uses no other one, also when reloaded."""
    ends = []
    state = random.getstate()
    try:
        for k in (1, 2):
            random.seed(k)
            m = H.HIRM({r: list(d) for r, d in case["schema"].items()}, prng=random.Random(case["seed"]))
            data = {}
            for op, n in case["ops"]:
                rng = random.Random(n)
                if apply_common(ctx, m, op, rng, dict(case, strings=False), case["schema"], data, m.incorporate):
                    pass
                elif op == "all":
                    for t in sorted(m.irms):
                        m.irms[t].transition_cluster_assignments()
                elif op == "alpha":
                    m.transition_crp_alpha()
                elif op == "json":
                    m = U.from_dict_HIRM(json.loads(json.dumps(U.to_dict_HIRM(m))), prng=random.Random(n))
            ends.append(canon_hirm(m))
    finally:
        random.setstate(state)
    ctx.check(ends[0] == ends[1], "the same operations with the same generator end in %r and %r", ends[0], ends[1])
    if sum(1 for op, n in case["ops"] if op == "obs") >= 3:
        ctx.nontrivial()


# ---- moves of relations ----------------------------------------------------
def partitions(items):
    if not items:
        yield []
        return
    for p in partitions(items[1:]):
        yield [[items[0]]] + p
        for i in range(len(p)):
            yield p[:i] + [[items[0]] + p[i]] + p[i + 1:]


def unary_score(p, data):
    return sum(beta_score(len(b), sum(data[i] for i in b)) for b in p)


@target("hirm/move-frequencies", st.fixed_dictionaries(dict(
    n=st.integers(1, 3), a=st.lists(st.integers(0, 1), min_size=3, max_size=3), b=st.lists(st.integers(0, 1), min_size=3, max_size=3),
    g=st.lists(st.integers(0, 2), min_size=3, max_size=3), h=st.lists(st.integers(0, 2), min_size=3, max_size=3),
    alpha=alphas, together=st.booleans(), seed=st.integers(0, 1000))), 40, 1000, 4)
def relation_move(ctx, case):
    """Two attributes of the same entities: one of them moves."""
    n = case["n"]
    A, B = {i: case["a"][i] for i in range(n)}, {i: case["b"][i] for i in range(n)}

    def blocks(g):
        out = {}
        for i in range(n):
            out.setdefault(g[i], []).append(i)
        return list(out.values())
    prng = random.Random(case["seed"])

    def fresh():
        m = H.HIRM({}, prng=prng)
        m.crp.alpha = case["alpha"]
        m.schema = {"A": ["D"], "B": ["D"]}
        for t, rs in enumerate([["A", "B"]] if case["together"] else [["A"], ["B"]]):
            m.irms[t] = H.IRM({r: ["D"] for r in rs}, prng=prng)
            for i in range(n):
                m.irms[t].domains["D"].incorporate(i, table=(case["g"], case["h"])[t][i])
            for r in rs:
                m.crp.incorporate(r, t)
                for i in range(n):
                    m.incorporate(r, (i,), (A if r == "A" else B)[i])
        return m
    join = math.exp(unary_score(blocks(case["g"]), B))
    al = case["alpha"]
    if case["together"]:
        # A group of its own has entity groups that are drawn first.
        p = 0.0
        for q in partitions(list(range(n))):
            prior = math.exp(crp_score([len(b) for b in q], 1.0))
            own = math.exp(unary_score(q, B))
            p += prior * al * own / (join + al * own)
    else:
        own = math.exp(unary_score(blocks(case["h"]), B))
        p = al * own / (join + al * own)

    def draw():
        m = fresh()
        m.transition_cluster_assignment_relation("B")
        return m.crp.assignments["A"] != m.crp.assignments["B"]
    frequencies(ctx, draw, {True: p, False: 1 - p}, 300, "a relation apart after a move")
    ctx.nontrivial()


# ---- parts -----------------------------------------------------------------
@target("parts/beta", st.fixed_dictionaries(dict(a=st.sampled_from([0.1, 0.5, 1, 2, 10.0]), b=st.sampled_from([0.1, 0.5, 1, 3.0]),
                                                 xs=st.lists(st.integers(0, 1), max_size=25))), 400, 20000)
def beta(ctx, case):
    d = H.BetaBernoulli(case["a"], case["b"], prng=random.Random(len(case["xs"])))
    total = 0.0
    for i, x in enumerate(case["xs"]):
        ctx.near(math.exp(d.logp(0)) + math.exp(d.logp(1)), 1.0, "probabilities of the two values")
        total += d.logp(x)
        d.incorporate(x)
        ctx.near(float(d.logp_score()), total, "score after %d values" % (i + 1), abs_=1e-8)
    p = (sum(case["xs"]) + case["a"]) / (len(case["xs"]) + case["a"] + case["b"])
    ctx.near(math.exp(d.logp(1)), p, "the probability of one")
    frequencies(ctx, d.sample, {0: 1 - p, 1: p}, 200, "sampled values")
    for x in case["xs"]:
        d.unincorporate(x)
    ctx.check((d.N, d.s) == (0, 0), "%r after removing all", d)
    if len(case["xs"]) >= 2:
        ctx.nontrivial()


@target("parts/crp", st.fixed_dictionaries(dict(alpha=alphas, ops=st.lists(st.integers(0, 12), max_size=25), seed=st.integers(0, 10**6))), 400, 20000)
def crp(ctx, case):
    c = H.CRP(case["alpha"], prng=random.Random(case["seed"]))
    want = set()
    check_crp(ctx, c, "customers", want)
    total = 0.0
    for i in case["ops"]:
        if i in want:
            total -= 0
            c.unincorporate(i)
            want.discard(i)
        else:
            t = c.sample()
            before = float(c.logp_score())
            lp = c.logp(t)
            c.incorporate(i, t)
            want.add(i)
            ctx.near(float(c.logp_score()) - before, lp, "the probability of table %d" % t, abs_=1e-8)
        check_crp(ctx, c, "customers", want)
    for i in sorted(want)[:3]:
        w = c.tables_weights_gibbs(c.assignments[i])
        d = clone(c)
        d.unincorporate(i)
        sizes = {t: float(len(v)) for t, v in d.tables.items()}
        # The group of its own is the current one if nobody else is there.
        own = c.assignments[i] if len(c.tables[c.assignments[i]]) == 1 else max(c.tables) + 1
        sizes[own] = c.alpha
        ctx.check({t: float(x) for t, x in w.items()} == sizes, "weights to reassign %d: %r, expected %r", i, w, sizes)
    p = {t: math.exp(c.logp(t)) for t in c.tables_weights()}
    frequencies(ctx, c.sample, p, 200, "sampled tables")
    if want:
        n, k = c.N, [len(v) for v in c.tables.values()]
        lo, hi = math.log(1 / n), math.log(n + 1)

        def draw():
            d = copy.copy(c)
            d.transition_alpha()
            return d.alpha
        xs = {draw() for _ in range(40)}
        ctx.check(all(1 / n - 1e-9 <= x <= n + 1 + 1e-9 for x in xs), "concentrations %r for %d customers", sorted(xs), n)
        grid = [math.exp(lo + (hi - lo) * i / 29) for i in range(30)]
        if all(min(abs(x - g) / g for g in grid) < 1e-9 for x in xs):
            lp = [crp_score(k, g) for g in grid]
            top = max(lp)
            z = sum(math.exp(x - top) for x in lp)
            q = {i: math.exp(x - top) / z for i, x in enumerate(lp)}

            def cell():
                x = draw()
                return min(range(30), key=lambda i: abs(grid[i] - x))
            frequencies(ctx, cell, q, 300, "the concentration's place in its grid")
        ctx.nontrivial()


finite = st.floats(-800, 800)


@target("parts/math", st.fixed_dictionaries(dict(xs=st.lists(finite, max_size=8), inf=st.integers(0, 3), shift=st.sampled_from([0.0, 0.0, 1e5, -1e5]), n=st.integers(2, 12))), 1500, 50000)
def mathematics(ctx, case):
    xs = [x + case["shift"] for x in case["xs"]] + [-math.inf] * case["inf"]
    top = max(case["xs"], default=0.0)
    z = math.fsum(math.exp(x - top) for x in case["xs"])
    want = top + math.log(z) + case["shift"] if case["xs"] else -math.inf
    got = M.logsumexp(xs)
    ctx.near(got, want, "logsumexp of %r" % (xs,), rel=1e-12, abs_=1e-9)
    if xs:
        ctx.near(M.logmeanexp(xs), want - math.log(len(xs)), "logmeanexp of %r" % (xs,), rel=1e-12, abs_=1e-9)
    if case["xs"]:
        p = [math.exp(x - want) for x in xs]
        ctx.near(math.fsum(math.exp(x) for x in M.log_normalize(xs)), 1.0, "normalised weights")
        prng = random.Random(case["n"])
        frequencies(ctx, lambda: M.log_choices(range(len(xs)), xs, prng=prng)[0], dict(enumerate(p)), 100, "choices by %r" % (xs,))
        ctx.nontrivial()
    a, b = 0.25, 0.25 + case["n"]
    g = M.log_linspace(a, b, case["n"])
    ctx.check(len(g) == case["n"], "%d points", len(g))
    ctx.near(g[0], a, "first point")
    ctx.near(g[-1], b, "last point")
    for i in range(1, len(g) - 1):
        ctx.near(g[i] * g[i], g[i - 1] * g[i + 1], "points at equal ratios")


if __name__ == "__main__":
    main("a model with at least two observations and questions about it, or a history with at least three observations and a move, or draws with a choice; counted distinct by the case")
