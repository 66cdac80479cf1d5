"""C29: the companion tools: loaders and plots."""
import base64, collections, contextlib, io, math, os, re, shutil, subprocess, sys, tempfile, atexit

from pylib import *

REPO = os.environ["VERIF_REPO"]
sys.path.insert(0, os.path.join(REPO, "py"))
import warnings
warnings.simplefilter("ignore")
import numpy as np  # noqa
import matplotlib  # noqa
from matplotlib import pyplot as plt  # noqa
import hirm_io, make_plots, visualize  # noqa


# ---- the C++ side ----------------------------------------------------------
class Cpp:
    proc = None

    @staticmethod
    def ask(line):
        if Cpp.proc is None or Cpp.proc.poll() is not None:
            Cpp.proc = subprocess.Popen([os.environ["VERIF_PROBE"]], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                        stderr=subprocess.STDOUT)
        p = Cpp.proc
        p.stdin.write(line.encode() + b"\n")
        p.stdin.flush()
        out = []
        while True:
            l = p.stdout.readline()
            if not l:
                Cpp.proc = None
                raise Fail("the C++ tools refuse or fail at %r: %s" % (line, b"".join(out[-5:]).decode(errors="replace")))
            if l == b"end\n":
                break
            out.append(l)
        ans = []
        for l in out:
            w = l.decode(errors="replace").split()
            if w and w[0] in ("relation", "observation", "relations", "entities"):
                ans.append([bytes.fromhex(x[1:]).decode() if x[0] == "x" else x for x in w])
        return ans


class Scratch:
    def __enter__(self):
        base = "/dev/shm" if os.path.isdir("/dev/shm") else None
        self.dir = tempfile.mkdtemp(prefix="c29-", dir=base)
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir)

    def file(self, name, text=""):
        p = os.path.join(self.dir, name)
        with open(p, "wb") as f:
            f.write(text.encode())
        return p


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out:
        yield out


def attempt(what, f, *a):
    try:
        with quiet() as out:
            return f(*a)
    except SystemExit as e:
        raise Fail("%s: exit %r: %s" % (what, e.code, out.getvalue()[:300]))


# ---- schemas ---------------------------------------------------------------
BLANK = st.sampled_from(["", "", "", " ", "  ", "\t"])
NAME = st.one_of(st.from_regex(r"[A-Za-z_][A-Za-z0-9_]{0,5}", fullmatch=True), st.sampled_from(["R1", "has_type", "D", "bernoulli", "class", "record"]))
COMMENT = st.sampled_from(["", "", "#", "# text", "# R9 ~ bernoulli(D1)", "#\"open", "# it's [", "## a) b", "# x = ']'"])
TEXTCHARS = "abc 019,;=[](){}~#.:-_|\u00e9"
VALUE = st.one_of(
    st.tuples(st.just("word"), st.from_regex(r"[A-Za-z_][A-Za-z0-9_]{0,4}", fullmatch=True)),
    st.tuples(st.just("word"), st.from_regex(r"[0-9]{1,3}(\.[0-9]{1,2})?", fullmatch=True)),
    st.tuples(st.sampled_from(["\"", "'"]), st.text(TEXTCHARS, max_size=8)),
    st.tuples(st.just("\""), st.text(TEXTCHARS + "'", max_size=8)),
    st.tuples(st.just("'"), st.text(TEXTCHARS + "\"", max_size=8)))
KINDS = ["bernoulli", "normal", "categorical", "bigram", "stringcat", "skellam", "string_nat"]
NOISE = {"bernoulli": ["sometimes_bitflip"], "normal": ["gaussian", "sometimes_gaussian"], "categorical": ["sometimes_categorical"],
         "bigram": ["simple_string", "bigram"], "stringcat": ["simple_string", "bigram"], "skellam": ["sometimes_categorical"],
         "string_nat": ["bigram", "simple_string"]}


@st.composite
def schema_text(draw):
    rels, order, kinds, lines = {}, [], {}, []
    domains = draw(st.lists(NAME, min_size=1, max_size=4, unique=True))
    for n in draw(st.lists(NAME, min_size=0, max_size=6, unique=True)):
        base = draw(st.sampled_from(order)) if order and draw(st.integers(0, 3)) == 0 else None
        if base:
            kind = kinds[base]
            dist = draw(st.sampled_from(NOISE[kind]))
            doms = rels[base]["domains"] + draw(st.lists(st.sampled_from(domains), max_size=2))
        else:
            kind = dist = draw(st.sampled_from(KINDS))
            doms = draw(st.lists(st.sampled_from(domains), min_size=1, max_size=3))
        params = []
        if draw(st.booleans()):
            for k in draw(st.lists(NAME, min_size=1, max_size=3, unique=True)):
                q, v = draw(VALUE)
                params.append([k, v if q == "word" else q + v + q, v])
        rels[n] = dict(dist=dist, params=params, domains=doms, base=base)
        kinds[n] = kind
        order.append(n)
        toks = [n, "~", dist]
        if params:
            toks.append("[")
            for i, (k, v, _) in enumerate(params):
                toks += ([","] if i else []) + [k, "=", v]
            toks.append("]")
        toks.append("(")
        if base:
            toks += [base, ";"]
        for i, d in enumerate(doms):
            toks += ([","] if i else []) + [d]
        toks.append(")")
        plain = draw(st.integers(0, 2)) == 0
        if plain:
            l = "".join(toks).replace("~", " ~ ", 1)
        else:
            l = draw(BLANK) + "".join(t + draw(BLANK) for t in toks) + draw(COMMENT)
        lines.append(l)
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            lines.append(draw(BLANK) + draw(COMMENT))
    text = "\n".join(lines) + ("\n" if draw(st.integers(0, 4)) else "")
    return dict(text=text, want=rels)


@target("load/schema", schema_text(), 3000, 40000)
def t_schema(ctx, case):
    want = case["want"]
    with Scratch() as s:
        path = s.file("a.schema", case["text"])
        got = attempt("loading the schema", hirm_io.load_schema, path)
        ctx.check(list(got) == list(want), "relations %r, expected %r", list(got), list(want))
        for n, w in want.items():
            r = got[n]
            ctx.check(r.name == n, "the name of %s is %r", n, r.name)
            ctx.check(r.distribution == w["dist"], "%s: distribution %r, expected %r", n, r.distribution, w["dist"])
            ctx.check(list(r.domains) == w["domains"], "%s: domains %r, expected %r", n, r.domains, w["domains"])
            ctx.check(dict(r.parameters) == {k: v for k, v, _ in w["params"]}, "%s: parameters %r, expected %r", n, r.parameters, w["params"])
            if hasattr(r, "base_relation"):
                ctx.check(r.base_relation == w["base"], "%s: base %r, expected %r", n, r.base_relation, w["base"])
        cpp = {}
        for l in Cpp.ask("S " + path):
            k = int(l[3])
            cpp[l[1]] = (l[2], dict(zip(l[4:4 + 2 * k:2], l[5:4 + 2 * k:2])), l[4 + 2 * k:])
        ctx.check(cpp == {n: (w["base"] or "", {k: v for k, _, v in w["params"]}, w["domains"]) for n, w in want.items()},
                  "the C++ loader reads %r", cpp)
    if len(want) >= 2:
        ctx.nontrivial()
    for n, w in want.items():
        if w["base"]:
            ctx.label("noisy relation")
        if any(v[0] in "\"'" for _, v, _ in w["params"]):
            ctx.label("quoted parameter")


# ---- observations ----------------------------------------------------------
ITEM = st.one_of(st.sampled_from(["x", "Alice", "0", "a b", "\u00e9", "x ", " y", "", "a\u00a0b", "a\u2028b", "\x1c", "#", "\"q\"", "~", "z\t"]),
                 st.text("abXY01 _-;=#\"'.", max_size=6))


@st.composite
def observation_text(draw):
    schema, obs = {}, []
    for n in draw(st.lists(st.sampled_from(["R1", "R2", "has_type", "q"]), min_size=1, max_size=3, unique=True)):
        schema[n] = draw(st.integers(1, 3))
    for _ in range(draw(st.integers(0, 8))):
        n = draw(st.sampled_from(sorted(schema)))
        items = [draw(ITEM) for _ in range(schema[n])]
        if not items[-1]:
            items[-1] = "e"  # A line that ends in a comma is not clear.
        obs.append([draw(ITEM), n, items])
    text = "\n".join(",".join([v, n] + i) for v, n, i in obs)
    return dict(schema=schema, obs=obs, text=text + ("\n" if obs and draw(st.integers(0, 4)) else ""))


@target("load/observations", observation_text(), 3000, 40000)
def t_observations(ctx, case):
    with Scratch() as s:
        path = s.file("a.obs", case["text"])
        got = attempt("loading the observations", hirm_io.load_observations, path)
        got = [[o.value, o.relation, list(o.items)] for o in got]
        ctx.check(got == case["obs"], "%r is read, expected %r", got, case["obs"])
        sp = s.file("a.schema", "".join("%s ~ bigram(%s)\n" % (n, ", ".join("D%d" % i for i in range(k))) for n, k in case["schema"].items()))
        cpp = collections.defaultdict(list)
        for l in Cpp.ask("O %s %s" % (sp, path)):
            cpp[l[1]].append([l[2], l[1], l[3:]])
        want = collections.defaultdict(list)
        for o in case["obs"]:
            want[o[1]].append(o)
        ctx.check(cpp == want, "the C++ loader reads %r", dict(cpp))
    with quiet():
        unary, binary = visualize.collate_observations(
            [hirm_io.Observation(value=v, relation=n, items=i) for v, n, i in got])
    ctx.check([[o.value, o.relation, list(o.items)] for o in unary] == [o for o in case["obs"] if len(o[2]) == 1], "unary observations %r", unary)
    two = collections.defaultdict(list)
    for o in case["obs"]:
        if len(o[2]) == 2:
            two[o[1]].append(o)
    ctx.check({n: [[o.value, o.relation, list(o.items)] for o in os_] for n, os_ in binary.items() if os_} == two, "binary observations %r", dict(binary))
    if len(case["obs"]) >= 2:
        ctx.nontrivial()


# ---- clusters --------------------------------------------------------------
WORD = st.one_of(st.sampled_from(["x", "Alice", "0", "17", "irm=0", "a;b", "#", "D", "\u00e9", "a\u00a0b", "\x1cz", "~", "=", "a=b"]),
                 st.text("abXY01_-;=#.", min_size=1, max_size=5))


def groups(draw, names, start=0):
    """A random grouping: group number -> names."""
    out = {}
    ids = draw(st.lists(st.integers(0, 12), min_size=1, max_size=4, unique=True))
    for n in names:
        out.setdefault(draw(st.sampled_from(ids)), []).append(n)
    return out


@st.composite
def cluster_text(draw):
    rels = groups(draw, draw(st.lists(NAME, min_size=1, max_size=5, unique=True)))
    domains = draw(st.lists(NAME, min_size=1, max_size=3, unique=True))
    irms = []
    for t in draw(st.permutations(sorted(rels))):
        lines = []
        for d in draw(st.lists(st.sampled_from(domains), max_size=3, unique=True)):
            for u, es in draw(st.permutations(sorted(groups(draw, draw(st.lists(WORD, min_size=1, max_size=6, unique=True))).items()))):
                lines.append([d, u, es])
        irms.append([t, lines])
    order = draw(st.permutations(sorted(rels)))
    gap = st.sampled_from(["\n", "\n", "\n", "\n\n"])
    text = "".join("%d %s\n" % (t, " ".join(rels[t])) for t in order) + draw(gap)
    for i, (t, lines) in enumerate(irms):
        text += "irm=%d\n" % t + "".join("%s %d %s\n" % (d, u, " ".join(es)) for d, u, es in lines)
        if i + 1 < len(irms):
            text += draw(gap)
    text += draw(st.sampled_from(["", "", "\n", "\n\n"]))
    return dict(text=text, relations=[[t, rels[t]] for t in order], irms=irms)


def read_clusters(path):
    got = {}
    for c in attempt("loading the clusters", hirm_io.load_clusters, path):
        if c.cluster_id in got:
            raise Fail("cluster %r is listed twice" % (c.cluster_id,))
        got[c.cluster_id] = (list(c.relations), [[dc.domain, dc.cluster_id, list(dc.entities)] for dc in c.domain_clusters])
    return got


@target("load/clusters", cluster_text(), 3000, 40000)
def t_clusters(ctx, case):
    irms = {t: l for t, l in case["irms"]}
    with Scratch() as s:
        path = s.file("a.hirm", case["text"])
        got = read_clusters(path)
        want = {str(t): (rs, [[d, str(u), es] for d, u, es in irms[t]]) for t, rs in case["relations"]}
        ctx.check(got == want, "%r is read, expected %r", got, want)
        ctx.check(list(got) == list(want), "the clusters are read in the order %r", list(got))
        cpp = Cpp.ask("C " + path)
        crel = {l[1]: l[2:] for l in cpp if l[0] == "relations"}
        ctx.check(crel == {t: r for t, (r, _) in want.items()}, "the C++ loader reads the relations %r", crel)
        cent = sorted([l[1], l[2], l[3], l[4:]] for l in cpp if l[0] == "entities")
        ctx.check(cent == sorted([t] + l for t, (_, ls) in want.items() for l in ls), "the C++ loader reads the entities %r", cent)
    if len(irms) >= 2 and sum(len(l) for l in irms.values()) >= 2:
        ctx.nontrivial()


# ---- plots -----------------------------------------------------------------
class Model:
    """Clusters as the plots see them, with the reference for what they show."""

    def __init__(self, case):
        self.schema = {n: hirm_io.Relation(name=n, distribution="normal", parameters={}, domains=d) for n, d in case["schema"].items()}
        self.obs = [hirm_io.Observation(value=v, relation=n, items=i) for v, n, i in case["obs"]]
        self.clusters = [
            hirm_io.Cluster(cluster_id=str(t), relations=rs,
                            domain_clusters=[hirm_io.DomainCluster(cluster_id=str(u), domain=d, entities=es) for d, u, es in lines])
            for t, rs, lines in case["clusters"]]


def expected_rows(cluster, domain):
    rows = []
    for dc in cluster.domain_clusters:
        if dc.domain == domain:
            rows += sorted(dc.entities)
    return rows


def cuts(cluster, domain):
    """Positions between groups of one domain."""
    n, out = 0, []
    for dc in cluster.domain_clusters:
        if dc.domain == domain:
            if n:
                out.append(n)
            n += len(dc.entities)
    return out


@st.composite
def plot_case(draw, single=None):
    if single is None:
        single = draw(st.booleans())
    domains = ["animal"] if single else draw(st.lists(st.sampled_from(["a", "b", "plant", "Z"]), min_size=1, max_size=3, unique=True))
    schema = {}
    for n in draw(st.lists(st.sampled_from(["R1", "R2", "R3", "big", "R10", "q", "r1", "likes"]), min_size=1, max_size=5, unique=True)):
        schema[n] = [draw(st.sampled_from(domains)) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3])))]
    # The same names may stand for entities of several domains.
    names = draw(st.lists(WORD, min_size=1, max_size=6, unique=True))
    obs, cells = [], set()
    for n, ds in schema.items():
        for _ in range(draw(st.integers(0, 6))):
            items = [draw(st.sampled_from(names)) for _ in ds]
            if (n, *items) not in cells:
                cells.add((n, *items))
                obs.append([draw(st.sampled_from(["0", "1", "2", "-1", "0.5", "-3.25", "17"])), n, items])
    obs = draw(st.permutations(obs))
    rels = groups(draw, sorted(schema))
    clusters = []
    for t in draw(st.permutations(sorted(rels))):
        ents = collections.defaultdict(list)
        for v, n, items in obs:
            if n in rels[t]:
                for d, i in zip(schema[n], items):
                    if i not in ents[d]:
                        ents[d].append(i)
        lines = []
        for d in sorted(ents):
            for u, es in sorted(groups(draw, ents[d]).items()):
                lines.append([d, u, sorted(es)])
        if draw(st.booleans()):
            lines = draw(st.permutations(lines))
        clusters.append([t, rels[t], lines])
    return dict(schema=schema, obs=obs, clusters=clusters, with_schema=not single or draw(st.booleans()))


def labels(axis):
    return [t.get_text() for t in axis.get_ticklabels()]


def image(ctx, fig, what):
    ax = fig.axes[0]
    ctx.check(len(ax.images) == 1, "%s: %d images", what, len(ax.images))
    a = ax.images[0].get_array()
    return ax, np.where(np.ma.getmaskarray(a), np.nan, np.ma.getdata(a).astype(float))


def same_matrix(ctx, m, want, what):
    ctx.check(m.shape == want.shape, "%s: shape %r, expected %r", what, m.shape, want.shape)
    ok = (np.isnan(m) & np.isnan(want)) | (m == want)
    ctx.check(bool(ok.all()), "%s is\n%s\nexpected\n%s", what, m, want)


def lines_at(ax, horizontal):
    out = []
    for l in ax.lines:
        x, y = list(l.get_xdata()), list(l.get_ydata())
        if horizontal and len(set(y)) == 1 and x == [0, 1]:
            out.append(y[0] + 0.5)
        if not horizontal and len(set(x)) == 1 and y == [0, 1]:
            out.append(x[0] + 0.5)
    return sorted(out)


def check_unary(ctx, m, cluster, fig, with_schema):
    """The figure shows exactly the unary observations of the cluster."""
    what = "the matrix of unary relations of irm %s" % cluster.cluster_id
    ax, got = image(ctx, fig, what)
    domains = sorted({dc.domain for dc in cluster.domain_clusters})
    rows = [(d, e) for d in domains for e in expected_rows(cluster, d)]
    ctx.check(labels(ax.yaxis) == [e for _, e in rows], "%s: rows %r, expected %r", what, labels(ax.yaxis), rows)
    cols = labels(ax.xaxis)
    unary = {n for n in cluster.relations if len(m.schema[n].domains) == 1}
    ctx.check(len(set(cols)) == len(cols) and unary <= set(cols) <= set(cluster.relations), "%s: columns %r", what, cols)
    want = np.full((len(rows), len(cols)), np.nan)
    for o in m.obs:
        if o.relation in unary:
            want[rows.index((m.schema[o.relation].domains[0], o.items[0])), cols.index(o.relation)] = float(o.value)
    same_matrix(ctx, got, want, what)
    # Lines separate the groups.
    n, sep = 0, []
    for d in domains:
        if n:
            sep.append(n)
        sep += [n + c for c in cuts(cluster, d)]
        n += len(expected_rows(cluster, d))
    ctx.check(lines_at(ax, True) == sorted(sep), "%s: lines at %r, expected %r", what, lines_at(ax, True), sorted(sep))


def check_binary(ctx, m, cluster, rel, fig):
    what = "the matrix of %s" % rel
    ax, got = image(ctx, fig, what)
    d1, d2 = m.schema[rel].domains
    r1, r2 = expected_rows(cluster, d1), expected_rows(cluster, d2)
    ctx.check(labels(ax.yaxis) == r1, "%s: rows %r, expected %r", what, labels(ax.yaxis), r1)
    ctx.check(labels(ax.xaxis) == r2, "%s: columns %r, expected %r", what, labels(ax.xaxis), r2)
    want = np.full((len(r1), len(r2)), np.nan)
    for o in m.obs:
        if o.relation == rel:
            want[r1.index(o.items[0]), r2.index(o.items[1])] = float(o.value)
    same_matrix(ctx, got, want, what)
    ctx.check(lines_at(ax, True) == cuts(cluster, d1), "%s: lines at rows %r, expected %r", what, lines_at(ax, True), cuts(cluster, d1))
    ctx.check(lines_at(ax, False) == cuts(cluster, d2), "%s: lines at columns %r, expected %r", what, lines_at(ax, False), cuts(cluster, d2))


def orderings(ctx, cluster):
    for d in sorted({dc.domain for dc in cluster.domain_clusters}) + ["nowhere"]:
        es, ds = visualize.get_all_entities_for_domain(cluster, d)
        ctx.check(list(es) == expected_rows(cluster, d), "entities of %s: %r, expected %r", d, es, expected_rows(cluster, d))
        ctx.check(list(ds) == cuts(cluster, d), "dividers of %s: %r, expected %r", d, ds, cuts(cluster, d))
    es, big, small = visualize.get_all_entities(cluster)
    n, we, wb, ws = 0, [], [], []
    for d in sorted({dc.domain for dc in cluster.domain_clusters}):
        if n:
            wb.append(n)
        ws += [n + c for c in cuts(cluster, d)]
        we += expected_rows(cluster, d)
        n = len(we)
    ctx.check((list(es), list(big), list(small)) == (we, wb, ws), "all entities %r, expected %r", (es, big, small), (we, wb, ws))


@target("matrix", plot_case(), 4000, 50000)
def t_matrix(ctx, case):
    m = Model(case)
    unary, binary = visualize.collate_observations(m.obs)
    for c in m.clusters:
        orderings(ctx, c)
        rels = sorted(c.relations)
        for d in sorted({dc.domain for dc in c.domain_clusters}):
            rows = expected_rows(c, d)
            cols = [r for r in rels if m.schema[r].domains == [d]]
            if not cols:
                continue
            want = np.full((len(rows), len(cols)), np.nan)
            for o in m.obs:
                if o.relation in cols:
                    want[rows.index(o.items[0]), cols.index(o.relation)] = float(o.value)
            # All observations, and those of the columns alone.
            same_matrix(ctx, visualize.make_unary_matrix(unary, rows, cols), want, "the unary matrix over %s" % d)
            same_matrix(ctx, visualize.make_unary_matrix([o for o in unary if o.relation in cols], rows, cols), want, "the unary matrix over %s" % d)
            if len(m.obs) >= 2:
                ctx.nontrivial()
        for r in rels:
            if len(m.schema[r].domains) == 2 and binary.get(r):
                d1, d2 = m.schema[r].domains
                r1, r2 = expected_rows(c, d1), expected_rows(c, d2)
                want = np.full((len(r1), len(r2)), np.nan)
                for o in m.obs:
                    if o.relation == r:
                        want[r1.index(o.items[0]), r2.index(o.items[1])] = float(o.value)
                same_matrix(ctx, visualize.make_binary_matrix(binary[r], r1, r2), want, "the binary matrix of %s" % r)


@target("plot/figure", plot_case(), 320, 6000, chunk=20)
def t_figure(ctx, case):
    m = Model(case)
    schema = m.schema if case["with_schema"] else None
    unary, binary = visualize.collate_observations(m.obs)
    try:
        for c in m.clusters:
            u = [o for o in unary if o.relation in c.relations]
            if u:
                check_unary(ctx, m, c, visualize.unary_matrix_plot(schema, c, u, m.clusters), case["with_schema"])
                ctx.label("unary")
                ctx.nontrivial()
            for r in c.relations:
                if binary.get(r):
                    check_binary(ctx, m, c, r, visualize.binary_matrix_plot(schema, c, binary[r], m.clusters))
                    ctx.label("binary")
                    ctx.nontrivial()
    finally:
        plt.close("all")


def check_page(ctx, m, text, figs, with_schema):
    """A whole page: for each cluster its own relations, and nothing else."""
    heads = re.findall(r"<h1>IRM #([^<]*)</h1>", text)
    ctx.check(heads == [c.cluster_id for c in m.clusters], "the page has the clusters %r", heads)
    parts = re.split(r"<h1>IRM #[^<]*</h1>", text)[1:]
    figs = list(figs)
    for c, part in zip(m.clusters, parts):
        have = {o.relation for o in m.obs if o.relation in c.relations}
        unary = any(len(m.schema[r].domains) == 1 for r in have)
        binary = {r for r in have if len(m.schema[r].domains) == 2}
        titles = re.findall(r"<h2>([^<]*)</h2>", part)
        ctx.check(sorted(titles) == sorted(binary), "irm %s: plots of %r, expected %r", c.cluster_id, titles, sorted(binary))
        imgs = re.findall(r"<img src='data:image/png;base64,([^']*)'>", part)
        ctx.check(len(imgs) == unary + len(binary), "irm %s: %d images, expected %d", c.cluster_id, len(imgs), unary + len(binary))
        for i in imgs:
            ctx.check(base64.b64decode(i)[:8] == b"\x89PNG\r\n\x1a\n", "an image is not a picture")
        mine, figs = figs[:len(imgs)], figs[len(imgs):]
        ctx.check(len(mine) == len(imgs), "images come from nowhere")
        if unary:
            check_unary(ctx, m, c, mine.pop(0), with_schema)
        for r, f in zip(titles, mine):
            check_binary(ctx, m, c, r, f)
        if unary + len(binary) >= 2:
            ctx.nontrivial()


@contextlib.contextmanager
def saved_figures():
    """The figures in the order in which they are saved."""
    figs = []
    real = matplotlib.figure.Figure.savefig

    def record(self, *a, **k):
        figs.append(self)
        return real(self, *a, **k)
    matplotlib.figure.Figure.savefig = record
    try:
        yield figs
    finally:
        matplotlib.figure.Figure.savefig = real
        plt.close("all")


@target("plot/page", plot_case(), 120, 2500, chunk=8)
def t_page(ctx, case):
    m = Model(case)
    schema = m.schema if case["with_schema"] else None
    with Scratch() as s, saved_figures() as figs:
        out = s.file("page.html")
        attempt("plotting", visualize.make_plots, schema, m.obs, m.clusters, out)
        with open(out) as f:
            check_page(ctx, m, f.read(), figs, case["with_schema"])


# ---- from C++ to the page --------------------------------------------------
@st.composite
def data_files(draw):
    single = draw(st.booleans())
    domains = ["animal"] if single else ["a", "b", "Z"]
    rels, obs, cells = {}, [], set()
    names = draw(st.lists(WORD.filter(lambda w: w.strip()), min_size=2, max_size=6, unique=True))
    for n in draw(st.lists(st.sampled_from(["R1", "R2", "R3", "big", "R10", "q"]), min_size=1, max_size=5, unique=True)):
        clean = [x for x in rels if not rels[x][2]]
        base = draw(st.sampled_from(clean)) if clean and draw(st.integers(0, 4)) == 0 else None
        if base:
            kind = dict(bernoulli="sometimes_bitflip", normal="gaussian")[rels[base][0]]
            ds = rels[base][1] + draw(st.lists(st.sampled_from(domains), max_size=1))
        else:
            kind = draw(st.sampled_from(["bernoulli", "normal"]))
            ds = [draw(st.sampled_from(domains)) for _ in range(draw(st.sampled_from([1, 1, 1, 2, 2, 3])))]
        rels[n] = [kind, ds, base]
    for n, (kind, ds, base) in rels.items():
        for _ in range(draw(st.integers(1, 6))):
            items = [draw(st.sampled_from(names)) for _ in ds]
            if (n, *items) not in cells:
                cells.add((n, *items))
                vals = ["0", "1"] if kind in ("bernoulli", "sometimes_bitflip") else ["0.5", "-3.25", "17", "0"]
                obs.append([draw(st.sampled_from(vals)), n, items])
    # A base relation without its own observations is latent.
    bases = sorted({b for _, _, b in rels.values() if b})
    if bases and draw(st.booleans()):
        obs = [o for o in obs if o[1] != bases[0]]
    elif bases:
        # An observed one has the cells that its noisy relations need.
        for n, (kind, ds, base) in rels.items():
            if base:
                for v, r, items in list(obs):
                    k = (base, *items[:len(rels[base][1])])
                    if r == n and k not in cells:
                        cells.add(k)
                        obs.append(["1", base, list(k[1:])])
    return dict(rels=rels, obs=obs, seed=draw(st.integers(0, 2**31)), steps=draw(st.integers(0, 3)), with_schema=not single or draw(st.booleans()))


@target("written", data_files(), 400, 6000, chunk=25)
def t_written(ctx, case):
    rels, obs = case["rels"], case["obs"]
    with Scratch() as s, saved_figures() as figs:
        sp = s.file("a.schema", "".join("%s ~ %s(%s%s)\n" % (n, k, b + "; " if b else "", ", ".join(d)) for n, (k, d, b) in rels.items()))
        op = s.file("a.obs", "".join(",".join([v, n] + i) + "\n" for v, n, i in obs))
        cp = s.file("a.hirm")
        truth = Cpp.ask("M %s %s %s %d %d" % (sp, op, cp, case["seed"], case["steps"]))
        got = read_clusters(cp)
        wr, we = collections.defaultdict(set), collections.defaultdict(set)
        for l in truth:
            if l[0] == "relations":
                wr[l[1]].add(l[2])
            else:
                we[l[1], l[2], l[3]].add(l[4])
        ctx.check({t: set(r) for t, (r, _) in got.items()} == wr, "the relations are read as %r, expected %r", got, dict(wr))
        ge = {}
        for t, (r, ls) in got.items():
            ctx.check(len(set(r)) == len(r), "repeated relations %r", r)
            for d, u, es in ls:
                ctx.check((t, d, u) not in ge and len(set(es)) == len(es), "repeated entities in %r", ls)
                ge[t, d, u] = set(es)
        ctx.check(ge == we, "the entities are read as %r, expected %r", ge, dict(we))
        ctx.label("groups of relations: %d" % min(len(wr), 3))
        if len(obs) >= 3:
            ctx.nontrivial()
        if case["seed"] % 6:
            return
        # The program that plots, from the files.
        out = s.file("page.html")
        argv = sys.argv
        sys.argv = ["make_plots.py", "--observations=" + op, "--clusters=" + cp, "--output=" + out]
        if case["with_schema"]:
            sys.argv.append("--schema=" + sp)
        try:
            attempt("the plotting program", make_plots.main)
        finally:
            sys.argv = argv
        m = Model(dict(schema={n: d for n, (_, d, _) in rels.items()}, obs=obs,
                       clusters=[[t, r, [[d, u, es] for d, u, es in ls]] for t, (r, ls) in got.items()]))
        with open(out) as f:
            check_page(ctx, m, f.read(), figs, case["with_schema"])
        ctx.label("page")


if __name__ == "__main__":
    main("a file with at least two entries (relations, observations or clusters), or a plot with at least one observation in a matrix; counted distinct by the case")
