"""Runs generated cases in several processes and keeps count, for the checks of
the Python code.  A case is a value that JSON can hold, so that a failing one
can be kept and run again."""
import hashlib, json, multiprocessing, os, random, signal, sys, time, traceback

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from hypothesis import HealthCheck, Phase, given, reject, seed, settings, strategies as st  # noqa
from hypothesis.errors import Flaky, UnsatisfiedAssumption  # noqa

TARGETS = {}
KNOWN = {}


class Fail(Exception):
    pass


class Ctx:
    def __init__(self, known):
        self.is_nontrivial, self.labels, self.known_ids = False, set(), known

    def nontrivial(self):
        self.is_nontrivial = True

    def label(self, x):
        self.labels.add(x)

    def known(self, x):
        return x in self.known_ids

    def check(self, ok, msg, *args):
        if not ok:
            raise Fail(msg % args if args else msg)

    def near(self, a, b, what, rel=1e-9, abs_=1e-9):
        ok = a == b or abs(a - b) <= abs_ + rel * max(abs(a), abs(b))
        if not ok:
            raise Fail("%s: %r, expected %r" % (what, a, b))


def target(name, strategy, quick, thorough, chunk=100):
    def deco(f):
        TARGETS[name] = (strategy, f, quick, thorough, chunk)
        return f
    return deco


def known(name):
    def deco(f):
        KNOWN[name] = f
        return f
    return deco


def run_case(f, case, known_ids):
    """Returns (ctx, message or None)."""
    ctx = Ctx(known_ids)
    # Models without a generator of their own use the global one.
    state = random.getstate()
    random.seed(1)
    try:
        f(ctx, case)
        return ctx, None
    except (UnsatisfiedAssumption, KeyboardInterrupt):
        raise
    except Fail as e:
        return ctx, str(e)
    except BaseException as e:
        # What the code under test raises on a valid case is a failure.
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d" % (os.path.basename(x.filename), x.lineno) for x in reversed(tb[-4:]))
        return ctx, "%s: %s (%s)" % (type(e).__name__, e, where)
    finally:
        random.setstate(state)


def run_chunk(job):
    name, index, count, base_seed, known_ids, deadline = job
    strategy, f = TARGETS[name][:2]
    out = dict(target=name, cases=0, nontrivial=set(), nt=0, discarded=0, labels={}, failure=None, samples=[])
    last = {}
    failing = [False]

    def body(case):
        if time.time() > deadline and not failing[0]:
            out["cut"] = True
            reject()
        try:
            ctx, msg = run_case(f, case, known_ids)
        except UnsatisfiedAssumption:
            out["discarded"] += 1
            raise
        if not failing[0]:
            out["cases"] += 1
            if ctx.is_nontrivial:
                out["nt"] += 1
                text = json.dumps(case, sort_keys=True)
                out["nontrivial"].add(hashlib.sha256((name + text).encode()).digest()[:12])
                if len(out["samples"]) < 1:
                    out["samples"].append("%s: %s" % (name, text[:900]))
            for l in ctx.labels:
                out["labels"][l] = out["labels"].get(l, 0) + 1
        if msg is not None:
            failing[0] = True
            last["case"], last["msg"] = case, msg
            raise Fail(msg)

    s = int(hashlib.sha256(("%s/%s/%d" % (base_seed, name, index)).encode()).hexdigest()[:15], 16)
    test = settings(max_examples=count, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                    phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))(seed(s)(given(strategy)(body)))
    try:
        test()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        if last:
            out["failure"] = (last["case"], last["msg"])
        elif "Unsatisfiable" not in type(e).__name__:
            out["error"] = "".join(traceback.format_exception(e))[-3000:]
    return out


def main(rule):
    a = sys.argv[1:]
    opt = dict(property="", seed="1", tier="quick", evidence="", replay_dir="", max_seconds="150", workers="4", only="")
    known_ids, what, replay = set(), {}, None
    while a:
        k = a.pop(0)
        if k == "--known":
            i, w = a.pop(0).split("=", 1)
            known_ids.add(i)
            what[i] = w
        elif k == "--replay":
            replay = a.pop(0)
        else:
            opt[k[2:].replace("-", "_")] = a.pop(0)
    pid, tier = opt["property"], opt["tier"]
    if replay:
        with open(replay) as f:
            r = json.load(f)
        _, msg = run_case(TARGETS[r["target"]][1], r["case"], known_ids)
        print("target %s\n%s\n%s" % (r["target"], json.dumps(r["case"], indent=1), msg or "passes"))
        if msg:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.stdout.flush()
        os._exit(1 if msg else 0)
    t0 = time.time()
    for k in sorted(known_ids):
        if k in KNOWN and KNOWN[k]():
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, what[k]))
    deadline = t0 + float(opt["max_seconds"])
    jobs = []
    for name, (_, _, q, t, chunk) in TARGETS.items():
        if opt["only"] and opt["only"] not in name:
            continue
        n, i = (t if tier == "thorough" else q), 0
        while n > 0:
            jobs.append((name, i, min(chunk, n), opt["seed"], known_ids, deadline))
            n -= chunk
            i += 1
    random.Random(5).shuffle(jobs)
    tot = dict(cases=0, nt=0, discarded=0)
    per, labels, distinct, samples, failures, errors = {}, {}, set(), [], [], []
    multiprocessing.set_start_method("fork")
    with multiprocessing.Pool(int(opt["workers"])) as pool:
        for o in pool.imap_unordered(run_chunk, jobs):
            p = per.setdefault(o["target"], dict(cases=0, nontrivial=0, discarded=0))
            p["cases"] += o["cases"]
            p["nontrivial"] += o["nt"]
            p["discarded"] += o["discarded"]
            for k in tot:
                tot[k] += o[k]
            distinct |= o["nontrivial"]
            for l, n in o["labels"].items():
                labels[l] = labels.get(l, 0) + n
            if len(samples) < 10 and sum(s.startswith(o["target"] + ":") for s in samples) < 2:
                samples += o["samples"]
            if o.get("error"):
                errors.append(o["error"])
            if o["failure"]:
                failures.append((o["target"],) + o["failure"])
                pool.terminate()
                break
    if errors:
        # The machinery failed, which says nothing about the property.
        print("internal error:\n" + errors[0])
    rc = 0
    if failures:
        # Not a failure that does not come back.
        failures.sort(key=lambda x: len(json.dumps(x[1])))
        name, case, msg = failures[0]
        _, again = run_case(TARGETS[name][1], case, known_ids)
        if again is None:
            print("note: %s failed once but not again: %s" % (name, msg))
        else:
            os.makedirs(opt["replay_dir"], exist_ok=True)
            path = os.path.join(opt["replay_dir"], "%s.%s.replay" % (pid, name.replace("/", "-")))
            with open(path, "w") as f:
                json.dump(dict(property=pid, target=name, seed=int(opt["seed"]), message=again, case=case), f, indent=1)
            print("target %s\n%s\n%s" % (name, json.dumps(case), again))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            rc = 1
    wall = time.time() - t0
    print("%s: %d cases, %d non-trivial, %d distinct non-trivial, %d discarded, %d violations, %.1f s"
          % (pid, tot["cases"], tot["nt"], len(distinct), tot["discarded"], rc, wall))
    if opt["evidence"]:
        with open(opt["evidence"], "w") as f:
            json.dump(dict(property=pid, tier=tier, seed=int(opt["seed"]), level="exploration",
                           coverage=dict(evaluations=tot["cases"], distinct_nontrivial=len(distinct), rule=rule,
                                         samples=samples, targets=per, labels=labels, discarded=tot["discarded"],
                                         errors=len(errors)),
                           wall_s=wall, violations=rc), f)
    sys.stdout.flush()
    os._exit(rc)
