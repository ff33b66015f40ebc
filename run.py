#!/usr/bin/env python3
"""Decides one property: builds the harness against /repo's working tree, runs
the symbolic engine on every harness of the property, replays models natively
and writes the evidence file.

usage: run.py C01 [--harness NAME] [--keep]
exit 0: held within the stated bounds; 1: VIOLATION printed; 2: no answer."""

import concurrent.futures, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"
T0 = time.time()


def env(**kw):
    e = dict(os.environ)
    e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e.update(kw)
    return e


def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def build_engine():
    exe = V + "/engine/target/release/irsym"
    r = run(["cargo", "build", "--release", "--offline", "--quiet"], cwd=V + "/engine", env=env(CARGO_TARGET_DIR=V + "/engine/target"), timeout=800)
    if r.returncode != 0 or not os.path.exists(exe):
        die("engine does not build\n" + r.stdout[-2000:])
    return exe


def build_ir(pid, target):
    r = run(["cargo", "rustc", "--profile", "ir", "--lib", "--crate-type", "cdylib", "--features", pid, "--offline", "--quiet", "--", "--emit=llvm-ir", "--cap-lints=allow"],
            cwd=V + "/harness", env=env(CARGO_TARGET_DIR=target), timeout=600)
    ll = target + "/ir/deps/hx.ll"
    if r.returncode != 0 or not os.path.exists(ll):
        die("harness does not build\n" + r.stdout[-4000:])
    return ll


def build_replay(pid, target, release):
    cmd = ["cargo", "build", "--bin", "replay", "--features", pid, "--offline", "--quiet"] + (["--release"] if release else [])
    r = run(cmd, cwd=V + "/harness", env=env(CARGO_TARGET_DIR=target), timeout=600)
    exe = target + ("/release" if release else "/debug") + "/replay"
    if r.returncode != 0 or not os.path.exists(exe):
        die("replay does not build\n" + r.stdout[-4000:])
    return exe


def replay(exe, harness, lists, scratch):
    """runs recorded inputs natively; one result per list"""
    os.makedirs(scratch, exist_ok=True)
    f = "%s/%s.%d.in" % (scratch, harness, os.getpid())
    out = []
    todo = list(lists)
    while todo:
        with open(f, "w") as h:
            h.write("".join(" ".join(l) + "\n" for l in todo))
        try:
            r = subprocess.run([exe, harness, f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60 + len(todo), env=env(VERIF_TIER=TIER), cwd=scratch)
            rows = [l.split("\t") for l in r.stdout.decode("utf-8", "replace").split("\n") if l.startswith("end\t")]
            crash = "crash: signal %d" % -r.returncode if r.returncode < 0 else ("crash: exit %d" % r.returncode if r.returncode else None)
        except subprocess.TimeoutExpired:
            rows, crash = [], "hang"
        if len(rows) < len(todo) and len(todo) > 1:
            # find out which one brought the process down
            if rows:
                pass
            res = []
            for l in todo:
                res += replay(exe, harness, [l], scratch)
            os.path.exists(f) and os.remove(f)
            return out + res
        for row in rows:
            d = dict(zip(row[0::2], row[1::2]))
            out.append(d)
        if not rows:
            out.append({"end": crash or "no output", "failed": "", "obs": "", "goals": ""})
        todo = []
    os.path.exists(f) and os.remove(f)
    return out


def engine(exe, ll, h, mode, limit, outdir):
    out = "%s/%s.%d.json" % (outdir, h, mode)
    if os.path.exists(out):
        os.remove(out)
    cmd = [exe, "--ir", ll, "--harness", h, "--out", out, "--tier", "1" if THOROUGH else "0", "--seed", str(SEED), "--time", str(limit), "--mode", str(mode),
           "--samples", "12" if THOROUGH else "4", "--max-viol", "3", "--query-ms", "120000" if THOROUGH else "30000"]
    if THOROUGH:
        cmd += ["--dump", outdir + "/smt", "--dump-every", "400", "--cross-every", "10"]
    try:
        r = subprocess.run(["bash", "-c", "ulimit -v 14000000; exec \"$@\"", "x"] + cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit * 2 + 120)
        if os.path.exists(out):
            return json.load(open(out))
        return {"harness": h, "crash": "exit %d: %s" % (r.returncode, r.stderr.decode("utf-8", "replace")[:600])}
    except subprocess.TimeoutExpired:
        return {"harness": h, "crash": "engine timeout"}


def exhausted(rs):
    """whether runs of a harness ended for want of time only"""
    if any(r.get("violations") or r.get("token_broken") for r in rs):
        return False
    if any("crash" in r and r["crash"] != "engine timeout" for r in rs):
        return False
    why = [i for r in rs for i in r.get("inconclusive", ["time budget exhausted"])]
    return bool(why) and all(i.endswith("budget exhausted") or re.match(r"solver: (timeout|canceled|.*max|.*resource|unknown)", i) for i in why)


def harnesses(pid):
    text = open("%s/harness/src/%s.rs" % (V, pid)).read()
    res, doc = [], []
    for l in text.split("\n"):
        m = re.match(r"\s*harness!\((\w+),", l)
        if m:
            res.append((m.group(1), " ".join(doc)))
            doc = []
        elif l.startswith("// "):
            doc.append(l[3:].strip())
        elif not l.startswith("//"):
            doc = []
    return res


def known(prop):
    res = {}
    p = V + "/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) harness=(\w+) (.*)", l)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    return res


def second_solver(outdir):
    """cross check of sampled queries with other solvers"""
    d = outdir + "/smt"
    n = {"checked": 0, "agree": 0, "no_answer": 0}
    if not os.path.isdir(d):
        return n
    files = sorted(os.listdir(d))[:200]

    def one(f):
        want = open(d + "/" + f).readline().split()[-1]
        for cmd in (["z3-new", "-T:20"], ["cvc5", "--tlimit=20000"]):
            if not shutil.which(cmd[0]):
                continue
            r = run(cmd + [d + "/" + f])
            o = r.stdout
            if "(error" in o:
                continue
            w = o.split()[:1]
            if w and w[0] in ("sat", "unsat"):
                return f, w[0] == want
        return f, None
    bad = []
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        for f, r in ex.map(one, files):
            n["checked"] += 1
            if r is None:
                n["no_answer"] += 1
            elif r:
                n["agree"] += 1
            else:
                bad.append(f)
    if bad:
        die("solvers disagree on %s" % ", ".join(bad))
    return n


def main():
    prop = sys.argv[1]
    pid = prop.lower()
    only = sys.argv[sys.argv.index("--harness") + 1] if "--harness" in sys.argv else None
    target = "%s/build/%s" % (V, pid)
    outdir = target + "/out"
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir, exist_ok=True)
    exe = build_engine()
    ll = build_ir(pid, target)
    hs = [(h, d) for h, d in harnesses(pid) if only is None or h == only]
    kn = known(prop)
    limit, light, last = (600, 120, 3000) if THOROUGH else (150, 45, 800)
    jobs = 8
    results, errors, narrowed = {}, [], {}
    with concurrent.futures.ThreadPoolExecutor(jobs + 1) as ex:
        rep = ex.submit(build_replay, pid, target, False)
        futs = {h: ex.submit(engine, exe, ll, h, 0, limit, outdir) for h, _ in hs}
        for h, _ in hs:
            results[h] = [futs[h].result()]
        # number texts inspected by the code: repeat with picked numbers
        again = {h: [ex.submit(engine, exe, ll, h, m, limit, outdir) for m in range(1, 9)] for h, _ in hs
                 if results[h][0].get("token_broken") and not results[h][0].get("violations")}
        for h, fs in again.items():
            narrowed[h] = results[h][0]["token_broken"][:3]
            results[h] = [f.result() for f in fs]
        # too many paths: repeat with most inputs fixed, which decides less but still decides
        reduced = {}
        for base in (10, 20):
            todo = [h for h, _ in hs if exhausted(results[h]) and (base == 20 or h not in narrowed)]
            again = {h: [ex.submit(lambda m, h=h: engine(exe, ll, h, m, max(10, min(light, int(last - (time.time() - T0)))), outdir), base + m) for m in range(4)] for h in todo}
            for h, fs in again.items():
                reduced[h] = 0 if base == 20 else 2
                results[h] = [f.result() for f in fs]
        dev = rep.result()

    violations, known_hits, validated, mismatches = [], [], 0, []
    rel = None
    samples = []
    tot = {k: 0 for k in ("paths", "infeasible", "forks", "steps", "sym_branches", "queries", "sat", "unsat", "cache_hits", "domain_decided", "asserts", "asserts_folded", "asserts_solver", "int_queries", "crossed", "merged")}
    solver_s, solver_max, version = 0.0, 0.0, ""
    funcs, per = set(), []
    for h, doc in hs:
        expect, goals, ids = 0, set(), 0
        hv = []
        for r in results[h]:
            if "crash" in r:
                errors.append("%s: engine failed: %s" % (h, r["crash"]))
                continue
            for k in tot:
                tot[k] += r[k]
            solver_s += r["solver_s"]
            solver_max = max(solver_max, r["solver_max_s"])
            version = r["solver"]
            funcs.update(r["repo_functions"])
            expect = max(expect, r["expect"])
            goals.update(r["goals"])
            ids = max(ids, r["assert_ids"])
            hv += r["violations"]
            if not r["violations"]:
                for i in r["inconclusive"]:
                    errors.append("%s: %s" % (h, i))
                for i in r["token_broken"]:
                    if r["harness"] not in narrowed or True:
                        errors.append("%s: number text inspected: %s" % (h, i))
                if r.get("pending"):
                    errors.append("%s: %d paths left" % (h, r["pending"]))
            # native validation of sampled paths
            ss = r["samples"]
            if ss:
                got = replay(dev, h, [s["inputs"] for s in ss], outdir)
                for s, g in zip(ss, got):
                    ok = g["end"] == "ok" and not g["failed"] and g["obs"].split() == s["obs"] and [int(x) for x in g["goals"].split()] == s["goals"]
                    if ok:
                        validated += 1
                        if len(samples) < 40 and len([1 for x in samples if x["harness"] == h]) < 3:
                            samples.append({"harness": h, "inputs": s["inputs"][:24], "goals": s["goals"]})
                    else:
                        mismatches.append("%s: path witness %s replays as %s" % (h, " ".join(s["inputs"]), g))
        for v in hv:
            if h in kn:
                pass
            def reproduces(g):
                if v["kind"] == "assert":
                    return " ".join(v["msg"].split()) in [" ".join(m.split()) for m in g["failed"].split(" ;; ")]
                return g["end"].startswith("panic") or g["end"].startswith("crash") or g["end"] == "hang"
            if rel is None:
                rel = build_replay(pid, target, True)
            # hash tables iterate in another order in every process
            for _ in range(16):
                g = replay(dev, h, [v["inputs"]], outdir)[0]
                g2 = replay(rel, h, [v["inputs"]], outdir)[0]
                if reproduces(g) or reproduces(g2):
                    break
            if reproduces(g) or reproduces(g2):
                if h in kn:
                    known_hits.append((h, kn[h]))
                else:
                    violations.append((h, v, g, g2))
            else:
                errors.append("%s: model does not reproduce natively: %s %s -> %s" % (h, v["msg"], " ".join(v["inputs"]), g))
        if h in kn and not hv and not any(e.startswith(h + ":") for e in errors):
            print("note: known finding of %s no longer occurs" % h)
        if not hv:
            miss = [g for g in range(1, expect + 1) if g not in goals]
            if miss or expect == 0:
                errors.append("%s: vacuous, goals %s not reached" % (h, miss))
        r0 = results[h][0]
        per.append({"harness": h, "bounds": doc, "paths": sum(r.get("paths", 0) for r in results[h]), "queries": sum(r.get("queries", 0) for r in results[h]),
                    "distinct_assertions": ids, "solver_s": round(sum(r.get("solver_s", 0) for r in results[h]), 3), "wall_s": max(r.get("wall_s", 0) for r in results[h]),
                    "numbers": "picked constants" if h in narrowed else "symbolic", "reduced": h in reduced})
    errors += mismatches
    cross = second_solver(outdir) if THOROUGH else None

    assumptions = json.load(open(V + "/assumptions.json"))
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
          "coverage": {"states": tot["paths"] + tot["forks"], "transitions": tot["steps"], "traces_validated_against_impl": validated, "samples": samples or [{"harness": "none"}],
                       "method": "symbolic execution of the LLVM IR of /repo's current source, branch feasibility and assertions decided by Z3",
                       "paths": tot["paths"], "forks": tot["forks"], "ir_instructions_executed": tot["steps"], "symbolic_branches": tot["sym_branches"],
                       "solver_queries": tot["queries"], "queries_sat": tot["sat"], "queries_unsat": tot["unsat"], "query_cache_hits": tot["cache_hits"],
                       "byte_domain_decisions": tot["domain_decided"], "queries_in_integer_arithmetic": tot["int_queries"],
                       "integer_queries_also_decided_in_bit_vectors": tot["crossed"], "branches_merged": tot["merged"], "assertions_checked": tot["asserts"], "assertions_folded_to_true": tot["asserts_folded"],
                       "assertions_sent_to_solver": tot["asserts_solver"], "solver": "z3 " + version, "solver_s": round(solver_s, 3), "solver_max_query_s": round(solver_max, 3),
                       "functions_encoded": sorted(funcs), "functions_encoded_count": len(funcs), "harnesses": per},
          "assumptions": assumptions["common"] + assumptions.get(prop, []), "violations": len(violations), "wall_s": round(time.time() - T0, 2)}
    if cross is not None:
        ev["coverage"]["second_solver"] = cross
    if reduced:
        ev["coverage"]["reduced_bounds"] = {"symbolic_numbers_by_harness": reduced, "inputs": "every case split; in each of 4 runs 2 characters, 4 flags and the given count of numbers are symbolic, all other inputs are constants"}
    if errors:
        ev["coverage"]["errors"] = errors[:20]
    if only is None and prop not in ("C39", "C40"):
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (V, prop), "w"), indent=1)
    print("%s %s: %d harnesses, %d paths, %d queries, solver %.1fs, %d assertions, %d native replays, wall %.1fs" % (prop, TIER, len(hs), tot["paths"], tot["queries"], solver_s, tot["asserts"], validated, time.time() - T0))
    for h in sorted(reduced):
        print("note: %s has too many paths, decided with most inputs fixed" % h)
    for h, t in sorted(set(known_hits)):
        print("KNOWN-FINDING: property=%s %s" % (prop, t))
    if violations:
        os.makedirs(V + "/replay", exist_ok=True)
        seen = set()
        for h, v, g, g2 in violations:
            key = (h, v["msg"])
            if key in seen:
                continue
            seen.add(key)
            path = "%s/replay/%s-%s-%d.txt" % (V, prop, h, len(seen))
            with open(path, "w") as f:
                f.write("property %s, harness %s\n%s: %s\nstack: %s\ninputs: %s\nnative (dev): %s\nnative (release): %s\n" % (prop, h, v["kind"], v["msg"], " < ".join(v["stack"]), " ".join(v["inputs"]), g, g2))
                f.write("replay: echo '%s' > in; build/%s/debug/replay %s in\n" % (" ".join(v["inputs"]), pid, h))
            print("  %s: %s: %s   [%s]" % (h, v["kind"], v["msg"], g["end"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        for e in errors[:10]:
            print("note: " + e)
        sys.exit(1)
    if errors:
        for e in errors[:20]:
            print("ERROR: " + e)
        sys.exit(2)
    sys.exit(0)


main()
