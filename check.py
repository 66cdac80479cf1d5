#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only TARGET]

Builds the property's harness together with /repo's current sources and runs
it.  Exit 0: held on everything explored (known findings are listed).  Exit 1:
a VIOLATION line was printed.  Anything else is an error of the check."""
import concurrent.futures
import glob
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = os.path.join(REPO, "cxx")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

ASAN = ["-fsanitize=address"]
UBSAN = ["-fsanitize=undefined", "-fno-sanitize-recover=undefined"]
BASE = ["-std=c++20", "-fno-omit-frame-pointer", "-w"]

# Files that hold a main() or are not part of the product.
MAINS = {"hirm_main.cc", "pclean/pclean.cc", "typename_playground.cc"}
HEAVY = {"irm.cc", "hirm.cc", "gendb.cc", "inference.cc", "util_io.cc",
         "pclean/csv.cc", "pclean/io.cc", "pclean/pclean_lib.cc",
         "pclean/get_joint_relations.cc"}


def sources():
    out = []
    for d, dirs, files in os.walk(CXX):
        dirs[:] = sorted(x for x in dirs if not x.startswith((".", "bazel-"))
                         and x not in ("tests", "assets", "test_schema"))
        for f in sorted(files):
            if not f.endswith((".cc", ".cpp", ".cxx")) or f.endswith("_test.cc"):
                continue
            rel = os.path.relpath(os.path.join(d, f), CXX)
            if rel not in MAINS:
                out.append(rel)
    return out


def read(p):
    with open(p, "rb") as f:
        return f.read()


_headers = None


def headers_hash():
    """Hash of every header a compilation could include."""
    global _headers
    if _headers is None:
        h = hashlib.sha256()
        paths = []
        for root in (CXX, HARNESS):
            for d, dirs, files in os.walk(root):
                dirs.sort()
                paths += [os.path.join(d, f) for f in sorted(files)
                          if f.endswith((".hh", ".hpp", ".h", ".inc"))]
        for p in paths:
            h.update(p.encode() + b"\0" + read(p) + b"\0")
        _headers = h.hexdigest()
    return _headers


def compile_one(src, flags, cxx="g++"):
    """Compiles src (absolute) and returns the object's path."""
    key = hashlib.sha256("\0".join(
        [cxx, src, " ".join(flags), headers_hash()]).encode() + read(src)).hexdigest()[:32]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([cxx, *flags, "-iquote", CXX, "-iquote", HARNESS,
                            "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
            raise SystemExit("cannot compile %s" % src)
        os.replace(tmp, obj)
    return obj


ORDER = {"irm.cc": 0, "hirm.cc": 1, "gendb.cc": 2, "util_io.cc": 3, "inference.cc": 4}


def product(libset):
    """The product's sources a harness links; libset: 'light' (no models),
    'pparse' (parsers only), 'core' (no record cleaning) or 'full'."""
    srcs = []
    for s in sources():
        if libset == "none":
            continue
        if libset == "light" and s in HEAVY:
            continue
        if libset == "core" and s in ("gendb.cc", "inference.cc") or (
                libset == "core" and s.startswith("pclean/") and s in HEAVY):
            continue
        if libset == "pparse" and s in HEAVY and s not in ("pclean/csv.cc", "pclean/io.cc"):
            continue
        srcs.append(os.path.join(CXX, s))
    return sorted(srcs, key=lambda p: ORDER.get(os.path.relpath(p, CXX), 9))


def build(name, files, libset, flags, libs=(), cxx="g++"):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    todo = list(files) + product(libset)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
        objs = list(pool.map(lambda s: compile_one(s, flags, cxx), todo))
    nfiles = len(list(files))
    key = hashlib.sha256("\0".join(objs + flags + list(libs)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s.%s" % (name, key))
    if not os.path.exists(exe):
        # The product's objects go into an archive, so that a harness that
        # replaces nothing links whatever it needs and no more.
        ar = exe + ".a"
        if os.path.exists(ar):
            os.unlink(ar)
        if objs[nfiles:]:
            subprocess.run(["ar", "crs", ar, *objs[nfiles:]], check=True)
        r = subprocess.run([cxx, *flags, "-o", exe + ".tmp", *objs[:nfiles],
                            *([ar] if objs[nfiles:] else []), *libs],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
            raise SystemExit("cannot link %s" % name)
        if os.path.exists(ar):
            os.unlink(ar)
        os.replace(exe + ".tmp", exe)
    return exe


def prune(limit=3 << 30):
    """Keeps the build cache from growing without bound during development."""
    fs = [f for f in glob.glob(BUILD + "/**", recursive=True) if os.path.isfile(f)]
    fs = [(os.path.getmtime(f), os.path.getsize(f), f) for f in fs]
    tot = sum(s for _, s, _ in fs)
    for m, s, f in sorted(fs):
        if tot <= limit or time.time() - m < 1800:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        tot -= s


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=1:handle_abort=0:"
                         "allocator_may_return_null=0:symbolize=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=0:abort_on_error=1"
    e["LC_ALL"] = "C.UTF-8"
    return e


# property -> (harness file, product sources, flags, extra binaries)
O1 = BASE + ["-O1", "-g1"]
LIGHT = O1 + ASAN + UBSAN
FULL = O1 + ASAN
PLAIN = BASE + ["-O1"]
CHECKS = {}


def reg(pid, harness, libset, flags, bins=(), max_seconds=(150, 3000), py=False, probe=None):
    CHECKS[pid] = dict(harness=harness, libset=libset, flags=flags, bins=bins,
                       max_seconds=max_seconds, py=py, probe=probe)


reg("C01", "c01_undo.cc", "light", LIGHT)
reg("C02", "c02_predictive.cc", "light", LIGHT)
reg("C03", "c03_sampling.cc", "light", LIGHT)
reg("C04", "c04_hyper.cc", "light", LIGHT)
reg("C05", "c05_crp.cc", "light", LIGHT)
reg("C06", "c06_math.cc", "light", LIGHT)
reg("C07", "c07_align.cc", "light", LIGHT)
reg("C08", "c08_emission.cc", "light", LIGHT)
reg("C09", "c09_corrupt.cc", "light", LIGHT)

reg("C10", "c10_specs.cc", "light", LIGHT)
reg("C11", "c11_relation.cc", "core", FULL)
reg("C12", "c12_gibbs.cc", "core", FULL)
reg("C13", "c13_irm.cc", "core", FULL)
reg("C14", "c14_hirm.cc", "full", FULL)
reg("C15", "c15_moves.cc", "core", PLAIN)
reg("C16", "c16_predictive.cc", "core", FULL)
reg("C17", "c17_latent.cc", "core", FULL)
# Parsers are checked as the documented optimised build has them.
reg("C18", "c18_schema.cc", "core", FULL + ["-DNDEBUG"])
reg("C19", "c19_obs.cc", "core", FULL + ["-DNDEBUG"])
reg("C20", "c20_clusters.cc", "core", FULL + ["-DNDEBUG"])
reg("C21", "c21_cli.cc", "core", FULL, bins=("hirm",))
reg("C22", "c22_csv.cc", "pparse", LIGHT + ["-DNDEBUG"])
reg("C23", "c23_pschema.cc", "pparse", LIGHT + ["-DNDEBUG"])
reg("C24", "c24_translate.cc", "full", FULL + ["-DNDEBUG"])
reg("C25", "c25_load.cc", "full", FULL)
reg("C26", "c26_relink.cc", "full", FULL)
reg("C27", "c27_pclean.cc", "full", FULL, bins=("pclean",))
reg("C28", "c28_python.py", "core", FULL, py=True, probe="c28_probe.cc")
reg("C29", "c29_tools.py", "core", FULL + ["-DNDEBUG"], py=True, probe="c29_probe.cc")
reg("C30", "c30_refmoves.cc", "full", LIGHT)

KNOWN = os.path.join(VERIF, "known_findings.json")


def known_open(pid):
    with open(KNOWN) as f:
        return [k["id"] + "=" + k["what"] for k in json.load(f)["open"] if pid in k["properties"]]


MAIN = {"hirm": "hirm_main.cc", "pclean": "pclean/pclean.cc"}


def binary(name):
    """A product binary built with sanitizers from the current tree."""
    return build(name, [os.path.join(CXX, MAIN[name])], "full", FULL)


def setup():
    """Fills the object cache, so that the first check does not pay for it all.
    Every check still compiles whatever has changed since."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    todo = []
    for pid, c in CHECKS.items():
        for b in c["bins"]:
            todo += [(os.path.join(CXX, MAIN[b]), FULL)] + [(x, FULL) for x in product("full")]
        main = c["probe"] if c["py"] else c["harness"]
        todo += [(os.path.join(HARNESS, main), c["flags"])]
        todo += [(x, c["flags"]) for x in product(c["libset"])]
    todo = list({(x, tuple(f)): None for x, f in todo})
    headers_hash()
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as pool:
        list(pool.map(lambda t: compile_one(t[0], list(t[1])), todo))
    for pid, c in CHECKS.items():
        for b in c["bins"]:
            binary(b)
        if c["probe"]:
            build(pid, [os.path.join(HARNESS, c["probe"])], c["libset"], c["flags"])
        if not c["py"]:
            build(pid, [os.path.join(HARNESS, c["harness"])], c["libset"], c["flags"])
    print("setup done")


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        return setup()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    args = sys.argv[2:]
    extra = []
    replay = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = args.pop(0)
        elif a == "--replay":
            replay = os.path.abspath(args.pop(0))
        else:
            extra.append(a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = str(abs(int(seed)))
    except ValueError:
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:8], 16))
    c = CHECKS[pid]
    prune()
    t0 = time.time()
    e = env()
    for b in c["bins"]:
        e["VERIF_BIN_" + b.upper()] = binary(b)
    if c["probe"]:
        e["VERIF_PROBE"] = build(pid, [os.path.join(HARNESS, c["probe"])], c["libset"], c["flags"])
    e["VERIF_REPO"] = REPO
    e["VERIF_HOME"] = VERIF
    evidence = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    cmd = []
    if c["py"]:
        # The system's interpreter has the matplotlib and numpy that the
        # product's plots are made with.
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        # The order of sets follows from the seed, also in a replay.
        hs = seed
        if replay:
            with open(replay) as f:
                hs = json.load(f).get("seed", seed)
        e["PYTHONHASHSEED"] = str(int(hs) % 2**32)
        e["MPLBACKEND"] = "agg"
        e["MPLCONFIGDIR"] = os.path.join(BUILD, "mpl")
        cmd = ["/usr/bin/python3", os.path.join(HARNESS, c["harness"])]
    else:
        cmd = [build(pid, [os.path.join(HARNESS, c["harness"])], c["libset"], c["flags"])]
    print("%s: built in %.1f s" % (pid, time.time() - t0), flush=True)
    cmd += ["--property", pid, "--seed", seed, "--tier", tier,
            "--evidence", evidence, "--replay-dir", rdir,
            "--max-seconds", str(c["max_seconds"][tier == "thorough"]),
            "--workers", str(min(8, os.cpu_count() or 8))]
    for k in known_open(pid):
        cmd += ["--known", k]
    if replay:
        cmd += ["--replay", replay]
    cmd += extra
    r = subprocess.run(cmd, env=e, cwd=VERIF)
    sys.exit(r.returncode)


if __name__ == "__main__":
    main()
