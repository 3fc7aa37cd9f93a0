#!/usr/bin/env python3
"""Decides one property of dash7-rs by symbolic execution of its compiled code.

  check.py <property id>        (VERIF_TIER=quick|thorough, VERIF_SEED)
  check.py --setup              builds the engine and warms the dependency builds
  check.py --replay <file>      re-runs a recorded counterexample natively

Exit 0: every assertion holds for all values within the bounds. Exit 1: VIOLATION lines, each
reproduced against the natively compiled code. Exit 2: the check could not decide.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
HARNESS = os.path.join(ROOT, "harness")
ENGINE_SRC = os.path.join(ROOT, "engine")
SYMEX = os.path.join(BUILD, "engine", "release", "symex")
KNOWN = os.path.join(ROOT, "known-findings.txt")
REPO = "/repo"
ENV = dict(
    os.environ,
    RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
    CARGO_NET_OFFLINE="true",
    CARGO_TERM_COLOR="never",
    CARGO_INCREMENTAL="0",
    RUSTC_WRAPPER="",
    RUSTFLAGS="",
)
ENV["PATH"] = "/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:" + ENV.get("PATH", "")
for k in list(ENV):
    if k.startswith("CARGO_PROFILE_") or k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        del ENV[k]

sys.path.insert(0, ROOT)
from registry import PROPS, VARIANTS  # noqa: E402


class Undecided(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode != 0:
        t = r.stderr or r.stdout
        i = t.find("\nerror")
        raise Undecided("%s failed:\n%s" % (what, t[i if i >= 0 else -1500 :][:1500]))
    return r


# ---- building ------------------------------------------------------------------------------


def build_engine():
    must(
        ["cargo", "build", "--release", "--offline", "--target-dir", os.path.join(BUILD, "engine")],
        "engine build",
        cwd=ENGINE_SRC,
    )


def forget(d):
    """cargo goes by modification times: always recompile the code under test and the harness"""
    for prof in ("release", "debug", "user"):
        for n in ("dash7-*", "h-*", "dash7_*"):
            for p in glob.glob(os.path.join(d, prof, ".fingerprint", n)):
                shutil.rmtree(p, ignore_errors=True)


OPT = None


def opt_path():
    global OPT
    if OPT is None:
        root = must(["rustc", "--print", "sysroot"], "rustc").stdout.strip()
        OPT = os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin/opt")
    return OPT


def entries_of(module):
    src = open(os.path.join(HARNESS, "src", module + ".rs")).read()
    return re.findall(r"^    ([hkt]_%s_\w+) \{" % module, src, re.M)


def build_ir(variant, module, entries, prefix="sym"):
    """LLVM IR of the harness module linked with the library as it is in /repo now"""
    d = os.path.join(BUILD, "%s-%s" % (prefix, variant))
    forget(d)
    must(
        ["cargo", "rustc", "--lib", "--release", "--offline", "--target-dir", d, "--features", variant + "," + module,
         "--crate-type", "cdylib", "--", "--emit=llvm-bc", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
        "build of the %s harness" % variant,
        cwd=HARNESS,
    )
    ll = os.path.join(d, module + ".ll")
    must(
        [opt_path(), "-strip-debug", "-passes=internalize,globaldce",
         "--internalize-public-api-list=__model_format," + ",".join(entries), "-S",
         os.path.join(d, "release", "deps", "h.bc"), "-o", ll],
        "opt",
    )
    return ll


def compiles(variant, module):
    """whether the harness still compiles with modules that take a private source file in"""
    r = subprocess.run(["cargo", "check", "--lib", "--offline", "--target-dir", os.path.join(BUILD, "chk"), "--features",
                        variant + "," + module], cwd=HARNESS, env=ENV, stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL)
    return r.returncode == 0


def build_replay(variant, module, user=False):
    d = os.path.join(BUILD, "replay-" + variant)
    if not user:
        forget(d)
    must(
        ["cargo", "build", "--bin", "replay", "--offline", "--target-dir", d, "--features", variant + "," + module]
        + (["--profile", "user"] if user else []),
        "build of the %s replayer" % variant,
        cwd=HARNESS,
    )
    return os.path.join(d, "user" if user else "debug", "replay")


# ---- native runs ---------------------------------------------------------------------------


def limit_mem(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    return f


def native(binary, runs, tag):
    """runs: [(entry, hex)] -> [(outcome, detail, observed, printed)]; survives aborts"""
    res = []
    i = 0
    out = os.path.join(BUILD, tag + ".out")
    lst = os.path.join(BUILD, tag + ".list")
    while i < len(runs):
        with open(lst, "w") as f:
            for e, h in runs[i:]:
                f.write("%s %s\n" % (e, h))
        try:
            r = subprocess.run([binary, out, lst], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                               preexec_fn=limit_mem(8), env=ENV, stdin=subprocess.DEVNULL)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
        lines = open(out).read().split("\n")
        done = 0
        for l in lines:
            if "\t" not in l:
                break
            head, rest = l.split("\t", 1)
            obs, pr = rest.split("\t", 1)
            name, outcome, detail = head.split(" ", 2)
            o = obs.strip("[]")
            res.append((outcome, detail, o.split(",") if o else [], pr))
            done += 1
        i += done
        if i < len(runs):
            # the process died in the run just announced
            res.append(("abort", "process ended with %s" % rc, [], ""))
            i += 1
    return res


# ---- symbolic execution --------------------------------------------------------------------


SLOTS = threading.Semaphore(6)
FOUND = threading.Event()
T0 = time.time()
COUNTS = ["paths", "cut", "forks", "instructions", "queries", "sat", "unsat", "unknown", "solver_s", "domain_unsat", "audited"]


def symex(variant, module, ll, entry, opts, timeout, samples, mem):
    """one entry, explored by one engine process (which forks workers of its own)"""
    out = os.path.join(BUILD, "%s-%s.json" % (entry, variant))
    if os.path.exists(out):
        os.remove(out)
    with SLOTS:
        gone = time.time() - T0
        if timeout <= 500:
            # the whole check answers within its time, whatever the code under check has become
            timeout = max(20, min(timeout, int(760 - gone)))
        cmd = [SYMEX, "--ll", ll, "--out", out, "--simple", "--audit", "--jobs", "4", "--samples", str(samples), "--timeout",
               str(timeout), "--entry", entry] + opts
        log = os.path.join(BUILD, "%s-%s.log" % (entry, variant))
        with open(log, "w") as lf:
            p = subprocess.Popen(cmd, env=ENV, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True,
                                 preexec_fn=limit_mem(mem))
            while p.poll() is None:
                try:
                    p.wait(0.3)
                except subprocess.TimeoutExpired:
                    pass
                if FOUND.is_set() and time.time() - T0 > 150 and p.poll() is None:
                    # there is a counterexample already
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    return [dict(dict.fromkeys(COUNTS, 0), entry=entry, functions=[], asserts={}, wall_s=0, complete=False, violations=[],
                                samples=[], reach=[], incomplete="stopped, a violation was found elsewhere")]
        text = open(log).read()
        os.remove(log)
    if not os.path.exists(out):
        raise Undecided("symbolic execution of %s (%s) failed with %s:\n%s" % (entry, variant, p.returncode, text[-2000:]))
    d = json.load(open(out))
    os.remove(out)
    if not entry.startswith("k_") and any(e["violations"] for e in d):
        FOUND.set()
    return d


def demangle(names):
    try:
        r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
        return r.stdout.split("\n")[: len(names)]
    except OSError:
        return names


def known_findings(prop):
    res = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) entry=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def confirm(v, out):
    """does the native run show the violation?"""
    outcome, detail, _, printed = out
    k = v["kind"]
    if k == "assert":
        return outcome in ("assert", "panic", "abort")
    if k == "panic":
        return outcome in ("panic", "abort", "assert")
    if k == "alloc":
        return outcome == "alloc"
    if k == "print":
        return printed not in ("", "0")
    return outcome in ("panic", "abort", "assert")


def check(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    module = P["module"]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    evf = os.path.join(EVID, prop + ".json")
    if os.path.exists(evf):
        os.remove(evf)
    known = known_findings(prop)
    allent = entries_of(module)
    variants = P.get("variants", VARIANTS)
    if tier == "thorough":
        variants = P.get("thorough_variants", variants)
    spec_only = re.compile(P.get("spec_only", "$^"))

    def plan(v):
        es = []
        for e in allent:
            if e.startswith("t_") and tier == "quick":
                continue
            if e.startswith("k_") and (v != "spec" and not e.endswith("_" + v)):
                continue
            if tier == "quick" and v != variants[0] and spec_only.search(e):
                continue
            m = re.search(r"_(spec|subiot|wizzilab)$", e)
            if m and m.group(1) != v:
                continue
            es.append(e)
        return es

    aside = []
    for feature, extra in P.get("extra", []):
        if compiles("spec", module + "," + feature):
            module += "," + feature
            allent = allent + entries_of(extra)
        else:
            aside += entries_of(extra)
    if "hook" in P:
        P["hook"]()
    opts = list(P.get("opts", []))
    build_engine()
    timeout = 500 if tier == "quick" else 5000
    nsamp = P.get("samples", 6)
    t_build = {}

    def variant_job(v):
        es = plan(v)
        t = time.time()
        ll = build_ir(v, module, es)
        t_build[v] = time.time() - t
        fs = []
        for e in es:
            o = opts
            for rx, extra in P.get("entry_opts", []):
                if re.search(rx, e):
                    o = extra
            fs.append(runs.submit(symex, v, module, ll, e, list(o), timeout, nsamp, 12))
        res = []
        for f in fs:
            res += f.result()
        return res

    results = {}
    replayers = {}
    with cf.ThreadPoolExecutor(8) as ex, cf.ThreadPoolExecutor(12) as runs:
        fs = {v: ex.submit(variant_job, v) for v in variants}
        rs = {v: ex.submit(build_replay, v, module) for v in variants}
        errs = []
        for v in variants:
            try:
                results[v] = fs[v].result()
            except Undecided as e:
                errs.append(str(e))
            try:
                replayers[v] = rs[v].result()
            except Undecided as e:
                errs.append(str(e))
    if errs:
        raise Undecided("\n".join(errs))

    # ---- verdicts
    problems = []
    violations = []
    knowns = []
    tot = dict.fromkeys(COUNTS, 0)
    per = []
    funcs = set()
    asserts = {}
    validated = 0
    shown = []
    for v in variants:
        runs = []
        meta = []
        for e in results[v]:
            n = e["entry"]
            for k in tot:
                tot[k] += e[k]
            funcs.update(e["functions"])
            for a, c in e["asserts"].items():
                x = asserts.setdefault("%s#%s" % (n, a), [0, 0])
                x[0] += c["seen"]
                x[1] += c["violated"]
            per.append(dict(variant=v, entry=n, paths=e["paths"], queries=e["queries"], solver_s=round(e["solver_s"], 2),
                            wall_s=round(e["wall_s"], 2), complete=e["complete"]))
            if not e["complete"] and not e["violations"]:
                problems.append("%s (%s) is incomplete: %s" % (n, v, e["incomplete"]))
            if e["complete"] and not e["violations"] and not e["reach"]:
                problems.append("%s (%s) never reaches its goal: vacuous" % (n, v))
            for s in e["samples"]:
                runs.append((n, s["input"]))
                meta.append(("sample", s))
            for x in e["violations"]:
                runs.append((n, x["input"]))
                meta.append(("violation", x))
        outs = native(replayers[v], runs, "native-" + v)
        user = None
        for (n, h), (kind, x), o in zip(runs, meta, outs):
            if kind == "sample":
                if o[0] == "ok" and o[2] == x["observed"]:
                    validated += 1
                    if len(shown) < 6 and x["observed"]:
                        shown.append(dict(variant=v, entry=n, input=h, observed=x["observed"]))
                elif o[0] in ("panic", "abort", "assert", "alloc") and not n.startswith("k_"):
                    violations.append((v, n, dict(kind=o[0], id=0, msg=o[1], input=h, stack=[]), o))
                else:
                    problems.append("native run of %s (%s) on %s differs from the symbolic one: %s %s, %s instead of %s"
                                    % (n, v, h, o[0], o[1], o[2], x["observed"]))
            elif n.startswith("k_") and n in known:
                if confirm(x, o):
                    knowns.append(n)
                else:
                    problems.append("known finding %s does not reproduce natively" % n)
            elif confirm(x, o):
                violations.append((v, n, x, o))
            else:
                problems.append("counterexample of %s (%s) %s %s on %s not reproduced natively: %s %s"
                                % (n, v, x["kind"], x["msg"], h, o[0], o[1]))

    for n in dict.fromkeys(knowns):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[n]))
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.remove(f)
    seen = set()
    for v, n, x, o in violations:
        key = (n, x["kind"], x["id"])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
        json.dump(dict(property=prop, module=module, variant=v, entry=n, kind=x["kind"], assertion=x["id"],
                       message=x["msg"], input=x["input"], native=dict(outcome=o[0], detail=o[1], observed=o[2]),
                       replay="python3 %s/check.py --replay %s" % (ROOT, path)), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s (%s): %s %s; input %s; natively: %s %s" % (n, v, x["kind"], x["id"] or x["msg"], x["input"][:200],
                                                             o[0], o[1]))
    dem = demangle(sorted(funcs))
    dem = sorted({re.sub(r"\[[0-9a-f]+\]", "", d) for d in dem})
    under = [d for d in dem if "dash7" in d or "deku" in d]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=tot["forks"], traces_validated_against_impl=validated, samples=shown,
            variants=variants, bounds=P["bounds"], outside=P["outside"], queries=tot["queries"],
            table_refutations=tot["domain_unsat"], table_refutations_confirmed_by_z3=tot["audited"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"],
            solver_s=round(tot["solver_s"], 2), instructions_executed=tot["instructions"],
            paths_cut=tot["cut"], assertions={k: dict(checked_on_paths=a[0], violated=a[1]) for k, a in sorted(asserts.items())},
            entries_left_out_because_private_code_changed=aside,
            functions_encoded=len(funcs), functions_encoded_of_the_library=under[:400], entries=per,
            build_s={k: round(x, 1) for k, x in t_build.items()},
            explanation="states: symbolic paths decided; transitions: symbolic branches; every assertion and every "
                        "potential panic on each path was decided by Z3 for all values of the path",
        ),
        assumptions=P.get("assumptions", []) + [
            "rustc's LLVM IR at opt-level 2 with overflow and debug assertions on represents the code",
            "allocation never fails; error texts are not inspected (format! is summarised)" if "--real-format" not in opts
            else "allocation never fails",
        ],
        wall_s=round(time.time() - t0, 1), violations=len(seen),
    )
    json.dump(ev, open(evf, "w"), indent=1)
    if seen:
        for p in problems[:5]:
            print("note: " + p[:600])
        return 1
    if problems:
        raise Undecided("\n".join(p[:600] for p in problems[:10]))
    print("%s holds: %d entries, %d paths, %d queries (%.1f s solver), %d native samples agree, %.0f s"
          % (prop, len(per), tot["paths"], tot["queries"], tot["solver_s"], validated, time.time() - t0))
    return 0


def setup():
    os.makedirs(BUILD, exist_ok=True)
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(build_engine)]
        for v in VARIANTS:
            fs.append(ex.submit(build_ir, v, "c08", ["h_c08_value"]))
            fs.append(ex.submit(build_replay, v, "c08"))
        for f in fs:
            f.result()
    return 0


def replay(path):
    r = json.load(open(path))
    for user in (False, True):
        b = build_replay(r["variant"], r["module"], user)
        o = native(b, [(r["entry"], r["input"])], "replay")[0]
        print("%s profile: %s %s observed %s" % ("user" if user else "dev", o[0], o[1], o[2]))
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "--setup":
            sys.exit(setup())
        if sys.argv[1] == "--replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(check(sys.argv[1]))
    except Undecided as e:
        print("UNDECIDED: " + str(e))
        sys.exit(2)
