#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code.

usage: check.py PROP [--tier quick|thorough] [--only HARNESS] [--case N] [--jobs N]
       check.py --setup
       check.py --replay FILE

Every run rebuilds, from /repo's working tree: the LLVM IR of narrow and
narrow-ffi together with this property's harnesses (harness/src/<prop>.rs), and
a native replay binary of the same harnesses. `rsym` (engine/) then executes
each harness symbolically; z3 decides each branch and assertion. Every
counterexample is replayed on the native binary before it is reported.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
TC = "stable-x86_64-unknown-linux-gnu"
TARGET = "x86_64-unknown-linux-gnu"
REPO = "/repo"
T0 = time.time()


class Err(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
            e.pop(k)
    e["RUSTUP_TOOLCHAIN"] = TC
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e.update(kw)
    return e


def run(cmd, cwd=None, e=None, timeout=900):
    r = subprocess.run(cmd, cwd=cwd, env=e or env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if r.returncode != 0:
        raise Err("command failed (%s): %s\n%s\n%s" % (r.returncode, " ".join(cmd), r.stdout[-1500:], r.stderr[-6000:]))
    return r.stdout


def sysroot():
    return run(["rustc", "--print", "sysroot"]).strip()


def tool(name):
    return os.path.join(sysroot(), "lib/rustlib", TARGET, "bin", name)


def build_engine():
    d = os.path.join(B, "engine")
    run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(V, "engine"), e=env(CARGO_TARGET_DIR=d))
    return os.path.join(d, "release", "rsym")


def build_std():
    """Bitcode of core and alloc, as shipped with the toolchain."""
    out = os.path.join(B, "std")
    paths = [os.path.join(out, x + ".bc") for x in ("core", "alloc")]
    if all(os.path.exists(p) for p in paths):
        return paths
    os.makedirs(out, exist_ok=True)
    lib = os.path.join(sysroot(), "lib/rustlib", TARGET, "lib")
    for x, p in zip(("core", "alloc"), paths):
        rlib = [f for f in os.listdir(lib) if f.startswith("lib%s-" % x) and f.endswith(".rlib")][0]
        tmp = os.path.join(out, "tmp_" + x + str(os.getpid()))
        os.makedirs(tmp)
        run([tool("llvm-ar"), "x", os.path.join(lib, rlib)], cwd=tmp)
        parts = []
        for f in sorted(os.listdir(tmp)):
            if f.endswith(".o"):
                bc = os.path.join(tmp, f + ".bc")
                run([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + bc, os.path.join(tmp, f)], cwd=tmp)
                parts.append(bc)
        run([tool("llvm-link")] + parts + ["-o", p + ".part"], cwd=tmp)
        os.replace(p + ".part", p)
        shutil.rmtree(tmp)
    return paths


def build_ir(prop, entries):
    d = os.path.join(B, "ir")
    flags = "--emit=llvm-bc,link -C no-vectorize-loops -C no-vectorize-slp -C debuginfo=line-tables-only -C llvm-args=-jump-threading-threshold=0"
    out = run(
        ["cargo", "build", "--release", "--offline", "--message-format=json", "--features", prop.lower()],
        cwd=os.path.join(V, "harness"),
        e=env(CARGO_TARGET_DIR=d, RUSTFLAGS=flags),
    )
    bcs = {}
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                b = os.path.basename(f)
                n = m["target"]["name"]
                if n in ("nharness", "narrow", "narrow_ffi"):
                    for g in (f, *m["filenames"]):
                        b = os.path.basename(g)
                        if b.startswith("lib") and "-" in b:
                            stem = b[3:].rsplit(".", 1)[0]
                            c = os.path.join(d, "release", "deps", stem + ".bc")
                            if os.path.exists(c):
                                bcs[n] = c
                    if n not in bcs:
                        # workspace-root artifacts carry no hash: newest match
                        dd = os.path.join(d, "release", "deps")
                        cand = [os.path.join(dd, x) for x in os.listdir(dd) if x.startswith(n + "-") and x.endswith(".bc")]
                        if cand:
                            bcs[n] = max(cand, key=os.path.getmtime)
    if set(bcs) != {"nharness", "narrow", "narrow_ffi"}:
        raise Err("missing bitcode: %r" % bcs)
    pre = os.path.join(d, prop)
    run([tool("llvm-link"), bcs["nharness"], bcs["narrow"], bcs["narrow_ffi"], *build_std(), "-o", pre + ".l.bc"])
    run([tool("opt"), "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), pre + ".l.bc", "-o", pre + ".o.bc"])
    run([tool("llvm-dis"), pre + ".o.bc", "-o", pre + ".ll"])
    return pre + ".ll"


def build_replay(prop, release=False):
    d = os.path.join(B, "replay")
    run(
        ["cargo", "build", "--offline", "-q", "--features", prop.lower()] + (["--release"] if release else []),
        cwd=os.path.join(V, "harness/replay"),
        e=env(CARGO_TARGET_DIR=d),
    )
    src = os.path.join(d, "release" if release else "debug", "nreplay")
    dst = src + "-" + prop
    shutil.copy2(src, dst + ".part")
    os.replace(dst + ".part", dst)
    return dst


def native(binary, name, arg, hexin, guard=False, timeout=20):
    e = env(SYM_QUIET="1")
    if guard:
        e["SYM_GUARD"] = "1"
    try:
        r = subprocess.run([binary, name, str(arg), hexin], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {"outcome": "timeout"}
    info = {}
    for l in r.stdout.splitlines():
        if l.startswith("{"):
            info = json.loads(l)
    out = {0: "ok", 10: "check", 11: "panic", 12: "assume"}.get(r.returncode)
    if out is None:
        out = "signal" if r.returncode < 0 else "exit%d" % r.returncode
    return {"outcome": out, "rc": r.returncode, "obs": info.get("obs"), "msg": info.get("msg", ""), "stderr": r.stderr[-600:]}


def known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def reproduces(prop, v, arg, name, bins):
    """Replay a counterexample on the native builds; first reproduction wins."""
    for prof in ("dev", "release"):
        if prof not in bins:
            bins[prof] = build_replay(prop, prof == "release")
        for guard in (False, True) if v["kind"] == "memory" else (False,):
            r = native(bins[prof], name, arg, v["inputs"], guard)
            if r["outcome"] in ("check", "panic", "signal", "timeout"):
                r["profile"] = prof
                r["guard"] = guard
                return r
    return None


def brief(name):
    """A demangled path without generic arguments other than `<T as Trait>`."""
    out, depth, keep = "", 0, []
    for i, c in enumerate(name):
        if c == "<":
            k = depth == 0 and (not out or not (out[-1].isalnum() or out[-1] in "_:>"))
            keep.append(k)
            depth += not k
            out += c if k else ""
        elif c == ">" and keep and name[i - 1] != "-":
            k = keep.pop()
            depth -= not k
            out += c if k else ""
        elif depth == 0:
            out += c
    out = out.replace("::::", "::")
    return out[:-2] if out.endswith("::") else out


def readable(fns):
    """Function names for the evidence: demangled, instances of a generic function counted together."""
    try:
        p = subprocess.run(["llvm-cxxfilt"], input="\n".join(fns), capture_output=True, text=True, timeout=60)
        names = p.stdout.splitlines() if p.returncode == 0 else fns
    except (OSError, subprocess.SubprocessError):
        names = fns
    count = {}
    for n in names:
        b = brief(n)[:300]
        count[b] = count.get(b, 0) + 1
    l = [n if c == 1 else "%s (%d instances)" % (n, c) for n, c in sorted(count.items())]
    return l[:1500]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_engine()
        build_std()
        print("setup ok %.1fs" % (time.time() - T0))
        return 0
    if a and a[0] == "--replay":
        f = json.load(open(a[1]))
        bad = False
        for prof in ("dev", "release"):
            b = build_replay(f["property"], prof == "release")
            r = native(b, f["harness"], f["arg"], f["inputs"], f.get("guard", False))
            print(prof, json.dumps(r))
            bad |= r["outcome"] not in ("ok", "assume")
        return 1 if bad else 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = case = None
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]
        elif a[i] == "--only":
            only = a[i + 1]
        elif a[i] == "--case":
            case = int(a[i + 1])
        elif a[i] == "--jobs":
            jobs = int(a[i + 1])
        else:
            raise Err("bad argument " + a[i])
        i += 2
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    thorough = tier == "thorough"
    budget = float(os.environ.get("VERIF_BUDGET", "10800" if thorough else "780"))
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with cf.ThreadPoolExecutor(3) as ex:
        fe = ex.submit(build_engine)
        fr = ex.submit(build_replay, prop)
        fs = ex.submit(build_std)
        rsym, replay = fe.result(), fr.result()
        fs.result()
    hs = []
    for l in run([replay, "--list"]).splitlines():
        p, n, q, t = l.split()
        if p == prop:
            hs.append((n, int(t if thorough else q)))
    if only:
        hs = [h for h in hs if h[0] == only]
    if not hs:
        raise Err("no harness for " + prop)
    ll = build_ir(prop, [h[0] for h in hs])
    tb = time.time() - T0
    meta = json.load(open(os.path.join(V, "bounds.json"))).get(prop, {})
    work = [(n, c) for n, k in hs for c in range(k) if case is None or c == case]
    outd = os.path.join(B, "out", prop)
    shutil.rmtree(outd, ignore_errors=True)
    os.makedirs(outd)

    ev = os.path.join(V, "evidence")
    for f in os.listdir(ev) if os.path.isdir(ev) else []:
        if f.startswith("replay-%s-" % prop):
            os.remove(os.path.join(ev, f))

    def arg(c):
        return c | (1 << 32 if thorough else 0)

    def job(nc):
        n, c = nc
        left = budget - (time.time() - T0)
        # no single harness run may starve the others, and once something was
        # found the rest is only searched for a while
        if not thorough:
            left = min(left, 400)
        if found:
            left = min(left, 45)
        if left < 2:
            return nc, {"complete": False, "incomplete": "not started: time budget"}
        o = os.path.join(outd, "%s.%d.json" % (n, c))
        cmd = [rsym, ll, "--entry", n, "--case", str(arg(c)), "--time", "%.0f" % left, "--seed", str(seed), "--samples", "4" if not thorough else "12", "--max-steps", "400000000" if "huge" in n else "30000000", "--out", o]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left + 120)
        if r.returncode != 0:
            raise Err("rsym %s case %d: rc %d %s" % (n, c, r.returncode, r.stderr[-3000:]))
        res = json.load(open(o))
        if res.get("violations"):
            found.append(nc)
        return nc, res

    found, res = [], []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f in cf.as_completed([ex.submit(job, w) for w in work]):
            res.append(f.result())
    res.sort(key=lambda x: x[0])

    bins = {"dev": replay}
    problems, reported, knowns, viols = [], [], [], 0
    kf = known()
    for (n, c), r in res:
        for v in r.get("violations", []):
            rep = reproduces(prop, v, arg(c), n, bins)
            what = "%s case %d: %s: %s" % (n, c, v["kind"], v["msg"])
            if rep is None:
                problems.append("counterexample does not reproduce natively: %s inputs=%s\n    %s" % (what, v["inputs"], "\n    ".join(v["trace"][:12])))
                continue
            k = [x for x in kf if x.get("property") == prop and x.get("status") == "known" and x.get("harness") == n and x.get("msg") == v["msg"] and x.get("case", c) == c]
            if k:
                knowns.append((k[0], what))
                continue
            viols += 1
            path = os.path.join(V, "evidence", "replay-%s-%d.json" % (prop, viols))
            json.dump({"property": prop, "harness": n, "case": c, "arg": arg(c), "inputs": v["inputs"], "kind": v["kind"], "msg": v["msg"], "guard": rep.get("guard", False), "trace": v["trace"], "native": rep, "how": "python3 check.py --replay " + path}, open(path, "w"), indent=1)
            reported.append((path, what, rep))
        if not r["complete"]:
            why = r["incomplete"]
            # paths the engine could not follow to the end: run them natively
            for u in r.get("suspects", []):
                v = {"kind": "memory", "inputs": u["inputs"], "msg": u["why"], "trace": []}
                rep = reproduces(prop, v, arg(c), n, bins)
                if rep:
                    viols += 1
                    path = os.path.join(V, "evidence", "replay-%s-%d.json" % (prop, viols))
                    json.dump({"property": prop, "harness": n, "case": c, "arg": arg(c), "inputs": v["inputs"], "kind": "undecided path that fails natively", "msg": u["why"], "guard": rep["guard"], "native": rep}, open(path, "w"), indent=1)
                    reported.append((path, "%s case %d: path not followed to its end by the engine fails natively" % (n, c), rep))
                    break
            problems.append("%s case %d not fully explored: %s" % (n, c, why))

    # vacuity: every harness reaches an assertion; declared covers are reached
    covers, checks = {}, {}
    for (n, c), r in res:
        for k, x in r.get("covers", {}).items():
            covers[n + ":" + k] = covers.get(n + ":" + k, 0) + x
        for k, x in r.get("checks", {}).items():
            y = checks.setdefault(k, [0, 0])
            y[0] += x[0]
            y[1] += x[1]
    if not reported and not problems and case is None:
        for n, _ in hs:
            if not any(r.get("checks") for (m, c), r in res if m == n):
                problems.append("vacuous: %s reaches no assertion" % n)
            for w in meta.get("covers", {}).get(n, []):
                if not covers.get(n + ":" + w):
                    problems.append("vacuous: %s never reaches '%s'" % (n, w))

    # the explored paths are paths of the real code: replay samples natively
    todo = [(n, c, s) for (n, c), r in res for s in r.get("samples", [])]
    cap = 2000 if thorough else 160
    if len(todo) > cap:
        step = len(todo) / cap
        todo = [todo[int(k * step)] for k in range(cap)]
    validated, shown = 0, []

    def val(t):
        n, c, s = t
        return t, native(replay, n, arg(c), s["inputs"])

    with cf.ThreadPoolExecutor(jobs) as ex:
        for (n, c, s), r in ex.map(val, todo):
            if r["outcome"] != "ok" or r["obs"] != s["obs"]:
                if not reported:
                    problems.append("engine and native run disagree: %s case %d inputs=%s engine obs=%s native=%s" % (n, c, s["inputs"], s["obs"], r))
            else:
                validated += 1
                if len(shown) < 12 and (validated - 1) % max(1, len(todo) // 12) == 0:
                    shown.append({"harness": n, "case": c, "inputs_hex": s["inputs"], "observed": s["obs"][:24]})

    def tot(k):
        return sum(r.get(k, 0) for _, r in res)

    fns = sorted({f for _, r in res for f in r.get("functions", [])})
    lines = {}
    for _, r in res:
        for f, l in r.get("lines", {}).items():
            lines.setdefault(f, set()).update(l)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": shown,
            "explanation": "states: feasible symbolic paths explored to their end (each stands for all inputs satisfying its path condition); transitions: LLVM instructions executed symbolically; every feasible path within the bounds was explored" if not problems else "run had problems, see them",
            "exhaustive": not problems,
            "bounds": meta.get("bounds", ""),
            "outside": meta.get("outside", ""),
            "harnesses": {n: k for n, k in hs},
            "jobs": len(work),
            "paths": tot("paths"),
            "pruned_paths": tot("pruned"),
            "forks": tot("forks"),
            "symbolic_branches": tot("symbolic_branches"),
            "merged_branches": tot("merges"),
            "assertions_decided_by_solver": tot("checks_symbolic"),
            "assertions_decided_by_simplification": tot("checks_concrete"),
            "assertions": checks,
            "solver_queries": tot("queries"),
            "sat": tot("sat"),
            "unsat": tot("unsat"),
            "unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 3),
            "slowest_query_s": max([r.get("slowest_query_s", 0) for _, r in res] or [0]),
            "engine_cpu_s": round(tot("wall_s"), 3),
            "build_s": round(tb, 2),
            "covers": covers,
            "functions_encoded": readable(fns),
            "functions_encoded_count": len(fns),
            "source_lines_encoded": {os.path.relpath(f, REPO): len(l) for f, l in sorted(lines.items())},
            "problems": problems,
            "known_findings": [w for _, w in knowns],
        },
        "assumptions": meta.get("assumptions", []) + COMMON,
        "wall_s": round(time.time() - T0, 2),
        "violations": len(reported),
    }
    p = os.path.join(V, "evidence", prop + ".json")
    json.dump(ev, open(p + ".part", "w"), indent=1)
    os.replace(p + ".part", p)

    print("%s %s: %d harness runs, %d paths, %d instructions, %d queries (%.1fs solver, %d unknown), %d/%d assertions symbolic/concrete, %d functions, %d traces validated, build %.1fs, wall %.1fs" % (
        prop, tier, len(work), tot("paths"), tot("steps"), tot("queries"), tot("solver_s"), tot("unknown"), tot("checks_symbolic"), tot("checks_concrete"), len(fns), validated, tb, time.time() - T0))
    slow = sorted(((r.get("wall_s", 0), n, c) for (n, c), r in res), reverse=True)[:3]
    print("slowest: " + ", ".join("%s/%d %.1fs" % (n, c, t) for t, n, c in slow))
    seen = set()
    for k, what in knowns:
        if k["id"] not in seen:
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["id"], what))
    for path, what, rep in reported:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s; native %s build: %s %s" % (what, rep["profile"], rep["outcome"], rep.get("msg", "")))
    for x in problems:
        print("PROBLEM: " + x)
    if reported:
        return 1
    return 2 if problems else 0


COMMON = [
    "rustc lowers the checked crates to LLVM IR faithfully; IR is the opt-level 2 build with overflow checks and library precondition checks on, replayed counterexamples and validated traces use the dev/release builds",
    "rsym's translation of LLVM IR to bit-vector terms is right (validated by replaying sampled paths natively on every run) and z3 4.8.12's answers are right",
    "generic code is checked for the concrete instantiations the harnesses name",
    "allocation succeeds unless the harness injects a failure; single-threaded execution",
]

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Err as e:
        print("ERROR: %s" % e)
        sys.exit(2)
    except subprocess.TimeoutExpired as e:
        print("ERROR: timeout %s" % e)
        sys.exit(2)
