#!/usr/bin/env python3
"""Decide one property: build engine and harness from the current trees, execute
the harnesses symbolically, replay every counterexample on the native build.

usage: check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep]
exit 0: held on everything explored   exit 1: VIOLATION line   other: no answer
"""
import argparse, glob, hashlib, json, os, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, V)
from driver.spec import PROPS  # noqa: E402

BUILD = os.path.join(V, "build")
ENV = dict(os.environ)
ENV["RUSTUP_TOOLCHAIN"] = "stable"
ENV["CARGO_NET_OFFLINE"] = "true"
for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
ENV["CARGO_INCREMENTAL"] = "0"


def log(*a):
    print(*a, flush=True)


class NoAnswer(Exception):
    pass


def sh(cmd, cwd=None, timeout=1500, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            try:
                with open(f, "rb") as fh:
                    data = fh.read()
            except OSError:
                continue
            h.update(f.encode() + b"\0" + hashlib.sha256(data).digest())
    return h.hexdigest()


def stamped(dirname, stamp):
    """True if dirname was built from exactly these sources"""
    try:
        return open(os.path.join(dirname, "STAMP")).read() == stamp
    except OSError:
        return False


def build_engine():
    t = os.path.join(BUILD, "engine")
    stamp = tree_hash([os.path.join(V, "engine")])
    exe = os.path.join(t, "release", "zsym")
    if stamped(t, stamp) and os.path.exists(exe):
        return exe
    if os.path.exists(t):
        shutil.rmtree(t)
    rc, out = sh(["cargo", "build", "--release", "--offline", "--target-dir", t], cwd=os.path.join(V, "engine"))
    if rc != 0:
        raise NoAnswer("the engine does not build:\n" + out[-4000:])
    open(os.path.join(t, "STAMP"), "w").write(stamp)
    return exe


def repo_sources():
    return [os.path.join(REPO, "crates", c) for c in sorted(os.listdir(os.path.join(REPO, "crates")))] + [
        os.path.join(REPO, "Cargo.toml")]


def build_harness(crate):
    """-> (bitcode file, native binary)"""
    t = os.path.join(BUILD, crate)
    src = os.path.join(V, "harness", crate)
    stamp = tree_hash(repo_sources() + [src] + [os.path.join(V, "harness", x) for x in ("zsym", "inputs", "shims")])
    native = os.path.join(t, "release", crate)

    def bc():
        l = glob.glob(os.path.join(t, "release", "deps", crate + "-*.bc"))
        return l[0] if len(l) == 1 else None

    if stamped(t, stamp) and os.path.exists(native) and bc():
        return bc(), native
    if os.path.exists(t):
        shutil.rmtree(t)
    os.makedirs(t)
    rt = os.path.join(t, "rt.o")
    rc, out = sh(["gcc", "-O1", "-c", os.path.join(V, "harness", "zsym", "rt.c"), "-o", rt])
    if rc != 0:
        raise NoAnswer("rt.c: " + out)
    rc, out = sh(["cargo", "rustc", "--release", "--offline", "--locked", "--target-dir", t, "--bin", crate, "--",
                  "--emit=llvm-bc,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "link-arg=" + rt], cwd=src)
    if rc != 0:
        raise NoAnswer("harness %s does not build against /repo:\n%s" % (crate, out[-6000:]))
    if not bc() or not os.path.exists(native):
        raise NoAnswer("harness %s: no bitcode" % crate)
    open(os.path.join(t, "STAMP"), "w").write(stamp)
    return bc(), native


def run_native(native, entry, params, inputs, timeout, scratch):
    f = os.path.join(scratch, "in_%d" % os.getpid())
    with open(f, "w") as fh:
        fh.write(",".join(str(x) for x in inputs))
    env = dict(ENV)
    env["ZSYM_REPLAY"] = f
    env["ZSYM_PARAM"] = ",".join(str(p) for p in params)
    env["RUST_BACKTRACE"] = "0"
    try:
        p = subprocess.run([native, entry], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=scratch)
        rc, out, err = p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        rc, out, err = "timeout", "", ""
    trace = [int(l[4:]) for l in out.splitlines() if l.startswith("OUT ")]
    return rc, trace, err


def demangle(names):
    if not names:
        return []
    p = subprocess.run(["c++filt", "--format=rust"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
    return p.stdout.decode().splitlines()


def merge(parts):
    tot = {}
    for p in parts:
        for k, v in p.items():
            if isinstance(v, (int, float)):
                if k in ("max_depth", "max_steps"):
                    tot[k] = max(tot.get(k, 0), v)
                else:
                    tot[k] = tot.get(k, 0) + v
            elif isinstance(v, dict):
                d = tot.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif isinstance(v, list):
                tot.setdefault(k, []).extend(v)
    return tot


def printable(inputs):
    b = bytes(x & 255 for x in inputs)
    return repr(b)[1:]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 8))
    a = ap.parse_args()
    prop = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    t0 = time.time()
    limit = 780 if tier == "quick" else 4 * 3600
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    scratch = os.path.join(BUILD, "run_%s_%d" % (prop, os.getpid()))
    os.makedirs(scratch)
    try:
        rc = decide(a, prop, tier, seed, spec, t0, limit, scratch)
    except NoAnswer as e:
        log("NO-ANSWER property=%s: %s" % (prop, e))
        rc = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def known_findings(prop):
    try:
        d = json.load(open(os.path.join(V, "known_findings.json")))
    except OSError:
        return []
    return [x for x in d.get("findings", []) if x["property"] == prop]


def decide(a, prop, tier, seed, spec, t0, limit, scratch):
    exe = build_engine()
    crates = sorted({j["crate"] for j in spec["jobs"]})
    art = {c: build_harness(c) for c in crates}
    t_build = time.time() - t0
    log("built in %.0f s" % t_build)
    jobs = [j for j in spec["jobs"] if not a.only or a.only == j["entry"]]
    runs = []
    confirmed, unconfirmed, known_hit, problems = [], [], [], []
    validated = 0
    samples = []
    known = known_findings(prop)
    replay_dir = os.path.join(V, "evidence", "replay")
    stop = False
    todo = []
    for j in jobs:
        for params in (j["quick"] if tier == "quick" else j.get("thorough", j["quick"])):
            todo.append((j, params))
    for idx, (j, params) in enumerate(todo):
        if stop:
            break
        left = limit - (time.time() - t0)
        # every remaining run is guaranteed a share of the remaining time
        share = max(20, min(left - 5 * (len(todo) - idx - 1), left * (0.6 if idx + 1 < len(todo) else 1.0)))
        bc, native = art[j["crate"]]
        outf = os.path.join(scratch, "out.json")
        cmd = [exe, "--bc", bc, "--entry", j["entry"], "--param", ",".join(map(str, params)) or "0",
               "--budget", str(j.get("budget", 400_000_000)), "--time", str(int(share)), "--jobs", str(a.jobs),
               "--samples", str(j.get("samples", 3)), "--out", outf, "--maxvio", str(j.get("maxvio", 6))]
        if os.path.exists(outf):
            os.remove(outf)
        try:
            rc, out = sh(cmd, timeout=share + 120)
        except subprocess.TimeoutExpired:
            rc, out = -1, "engine timed out"
        if rc != 0 or not os.path.exists(outf):
            problems.append("%s(%s): engine failed: %s" % (j["entry"], params, out[-1500:]))
            continue
        d = json.load(open(outf))
        m = merge(d["parts"])
        errs = m.get("errors", {})
        runs.append((j, params, d, m))
        log("%s(%s): paths=%d violations=%d errors=%d unexplored=%d asserts=%d in %.1f s" % (
            j["entry"], ",".join(map(str, params)), m["paths"], m["violations"], sum(errs.values()), m["unexplored"],
            m["asserts_concrete"] + m["asserts_symbolic"], d["wall"]))
        for e, n in sorted(errs.items()):
            log("   not decided on %d path(s): %s" % (n, e))
        # counterexamples
        seen = {}
        for v in sorted(m.get("vio", []), key=lambda v: (len(v["inputs"]), v["inputs"])):
            if seen.get(v["msg"], 0) >= 3:
                continue
            seen[v["msg"]] = seen.get(v["msg"], 0) + 1
            rc, tr, err = run_native(native, j["entry"], params, v["inputs"], 20, scratch)
            hang = v["msg"].startswith("no termination")
            if v["msg"].startswith("panic"):
                ok = rc not in (0, 96, 97, 98) and rc != "timeout"
            elif hang:
                ok = rc == "timeout" or (rc not in (0, 96, 97, 98))
            else:
                ok = rc == 97 or (rc not in (0, 96, 98) and rc != "timeout")
            rec = {"property": prop, "crate": j["crate"], "entry": j["entry"], "params": params, "inputs": v["inputs"],
                   "as_bytes": printable(v["inputs"]), "what": v["msg"], "stack": demangle(v["stack"][:10]),
                   "native_exit": rc, "native_stderr": err[-1500:], "about": j["about"]}
            if not ok:
                unconfirmed.append(rec)
                continue
            k = [x for x in known if x["entry"] == j["entry"] and x["what"] in v["msg"] + "\n" + err]
            if k:
                known_hit.append((k[0], rec))
            else:
                confirmed.append(rec)
        # validate the encoding: sampled paths must behave identically natively
        for s in m.get("samples", [])[:40]:
            rc, tr, err = run_native(native, j["entry"], params, s["inputs"], 20, scratch)
            if rc != 0 or tr != s["trace"]:
                problems.append("%s(%s): the native run of %s disagrees with the encoding: rc=%s %s\n  native %s\n  encoded %s" % (
                    j["entry"], params, s["inputs"], rc, err[-300:], tr[:30], s["trace"][:30]))
            else:
                validated += 1
                if len(samples) < 12:
                    samples.append({"entry": j["entry"], "params": params, "inputs": s["inputs"][:64], "as_bytes": printable(s["inputs"][:64]),
                                    "observed": s["trace"][:24]})
        if confirmed and tier == "quick":
            stop = True
        if not m["violations"]:
            if m["paths"] == 0:
                problems.append("%s(%s): no path completed" % (j["entry"], params))
            elif m["asserts_concrete"] + m["asserts_symbolic"] == 0 and not j.get("panic_only"):
                problems.append("%s(%s): vacuous, no assertion reached" % (j["entry"], params))
            if not m["unexplored"] and not sum(errs.values()):
                missing = [c for c in range(j.get("covers", 0)) if not m.get("covers", {}).get(str(c))]
                if missing:
                    problems.append("%s(%s): vacuous, reachability witnesses %s not reached" % (j["entry"], params, missing))
    # evidence
    T = merge([m for _, _, _, m in runs]) if runs else {}
    fn = sorted({f for _, _, _, m in runs for f in m.get("sym_functions", {})} if runs and isinstance(runs[0][3].get("sym_functions"), dict)
                else {f for _, _, _, m in runs for f in m.get("sym_functions", [])})
    fn = sorted(set(demangle(fn)))
    repo_fn = [f for f in fn if any(f.startswith(p) or ("<" + p) in f for p in (
        "parsa", "vfs", "utils", "licensing", "h_", "zuban"))]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": int(T.get("paths", 0) + T.get("forks", 0)),
            "transitions": int(T.get("sym_branches", 0)),
            "traces_validated_against_impl": validated,
            "samples": samples,
            "exhaustive": bool(runs) and not stop and all(not m["unexplored"] and not sum(m.get("errors", {}).values()) for _, _, _, m in runs),
            "symbolic_paths_completed": int(T.get("paths", 0)),
            "assertions_decided": {"true on the path (concrete)": int(T.get("asserts_concrete", 0)), "by solver": int(T.get("asserts_symbolic", 0))},
            "solver": {"z3_queries": int(T.get("z3_queries", 0)), "z3_seconds": round(sum(d.get("z3", 0) if isinstance(d.get("z3"), (int, float)) else 0 for _, _, d, _ in runs) + T.get("z3_time", 0), 3),
                       "byte_domain_queries": int(T.get("dom_queries", 0)), "answered_by_cached_model": int(T.get("model_hits", 0))},
            "instructions_executed": int(T.get("instrs", 0)),
            "not_decided": {"paths_with_unmodelled_operations": int(sum(T.get("errors", {}).values())) if T else 0, "unexplored_states": int(T.get("unexplored", 0))},
            "functions_encoded": {"total": len(fn), "of_the_repository": repo_fn[:400]},
            "runs": [{"harness": j["crate"] + "::" + j["entry"], "bounds": j["about"], "params": params, "paths": m["paths"],
                      "input_space_fraction": round(m.get("fraction", 0), 6) if not m.get("multi_paths") else None,
                      "unexplored": m["unexplored"], "violations": m["violations"], "errors": m.get("errors", {}),
                      "asserts": m["asserts_concrete"] + m["asserts_symbolic"], "covers": m.get("covers", {}), "longest_path_instructions": m["max_steps"], "wall_s": round(d["wall"], 2)}
                     for j, params, d, m in runs],
            "problems": problems,
        },
        "assumptions": spec.get("assumptions", []) + [
            "bounds as stated per run; nothing is claimed outside them",
            "LLVM bitcode of the harness linked with the repository's crates (rustc stable, opt-level 1, fat LTO, overflow checks and debug assertions on, panic=abort) represents the code",
            "environment model: single thread, fixed hash seeds and clock, malloc never fails"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(confirmed),
    }
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for k, rec in known_hit:
        if k["id"] not in seen:
            seen.add(k["id"])
            log("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if confirmed:
        os.makedirs(replay_dir, exist_ok=True)
        rec = confirmed[0]
        p = os.path.join(replay_dir, prop + ".json")
        with open(p, "w") as f:
            json.dump(confirmed, f, indent=1)
        log("counterexample: %s in %s%s" % (rec["what"], rec["entry"], tuple(rec["params"])))
        log("  inputs %s  %s" % (rec["inputs"], rec["as_bytes"]))
        log("  native: exit %s %s" % (rec["native_exit"], rec["native_stderr"][-600:]))
        log("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    for u in unconfirmed:
        problems.append("counterexample does not reproduce natively: %s %s %s (exit %s)" % (u["entry"], u["what"], u["inputs"], u["native_exit"]))
    if problems:
        raise NoAnswer("\n".join(problems))
    done = sum(m["paths"] for _, _, _, m in runs)
    bad = sum(sum(m.get("errors", {}).values()) for _, _, _, m in runs)
    if bad > done:
        raise NoAnswer("%d paths could not be decided, %d were" % (bad, done))
    log("HELD property=%s paths=%d exhaustive=%s in %.0f s" % (prop, done, ev["coverage"]["exhaustive"], time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
