#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property by symbolic execution of the real code."""
import sys, os, re, json, time, glob, shutil, subprocess, math
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build

SX = f"{VERIF}/engine/build/sx"
DEFAULT_T = {"quick": 100, "thorough": 3000}


def parse_runs(src):
    """// @run <harness> [quick:a=1,b=2] [thorough:a=2] [opt:--heap-down] [t:seconds] [thorough-only]"""
    runs, flags = [], []
    for line in open(src):
        m = re.match(r"//\s*@run\s+(\S+)(.*)", line)
        if m:
            r = {"harness": m.group(1), "quick": {}, "thorough": {}, "opts": [], "t": {}, "tiers": ["quick", "thorough"], "src": src}
            for w in m.group(2).split():
                k, _, v = w.partition(":")
                if k in ("quick", "thorough"):
                    r[k] = dict(x.split("=") for x in v.split(",") if x)
                elif k == "opt":
                    r["opts"].append(v)
                elif k == "tq":
                    r["t"]["quick"] = float(v)
                elif k == "tt":
                    r["t"]["thorough"] = float(v)
                elif k == "nra":
                    r["opts"] += ["--nra", v]
                elif k == "thorough-only":
                    r["tiers"] = ["thorough"]
                else:
                    raise SystemExit(f"bad @run annotation in {src}: {w}")
            runs.append(r)
        m = re.match(r"//\s*@flags\s+(.*)", line)
        if m:
            flags += m.group(1).split()
    return runs, flags


def load_known(prop):
    out = []
    f = f"{VERIF}/known_findings.txt"
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'finding: property=(\S+) harness=(\S+) kind=(\S+) label="([^"]*)" inputs="([^"]*)" :: (.*)', line)
            if m and m.group(1) == prop:
                out.append(dict(harness=m.group(2), kind=m.group(3), label=m.group(4), inputs=re.compile(m.group(5)), desc=m.group(6).strip(), hit=0))
    return out


def model_text(bounds, inputs, head=()):
    t = "".join(f"# {h}\n" for h in head) + "MODEL\n"
    t += "".join(f"BOUND {k} {v}\n" for k, v in bounds.items())
    t += "".join(f"IN {n} {v}\n" for n, v in inputs)
    return t + "END\n"


def native(exe, harness, modelfile, timeout=240, alarm=60):
    try:
        r = subprocess.run([exe, harness, modelfile, str(alarm)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace", text=True)
        out = r.stdout
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    res = []
    for blk in re.split(r"^BEGIN \d+\n", out, flags=re.M)[1:]:
        obs = re.findall(r"^OBS (\S.*) (\S+)$", blk, flags=re.M)
        if "DIVERGED" in blk or "ASSUMPTION-FAILED" in blk:
            st = "diverged"
        elif re.search(r"^RESULT ok", blk, flags=re.M):
            st = "ok"
        elif re.search(r"^RESULT violation", blk, flags=re.M):
            st = "violation"
        elif "AddressSanitizer" in blk or re.search(r"^SIGNAL", blk, flags=re.M):
            st = "crash"
        elif re.search(r"^EXIT 0", blk, flags=re.M):
            st = "ok"
        else:
            st = "crash"
        # memory errors found after the verdict line still count
        if st == "ok" and "ERROR: AddressSanitizer" in blk:
            st = "crash"
        res.append((st, obs, blk))
    return res


def jitter(inputs, k):
    """the same assignment with its real inputs moved a little, off the short dyadic values that solvers prefer"""
    out, n = [], 0
    for a, v in inputs:
        if "x" in v:
            n += 1
            x = float.fromhex(v)
            d = 0.0031830988618379067 * math.sin(2.39996322972865332 * n + 0.7 * k) / (1 + k % 3)
            v = (x + d * max(abs(x), 0.25)).hex()
        out.append((a, v))
    return out


def near(exe, h, bounds, v, mf, head):
    """The engine reads arithmetic over the reals; a loss of precision in the code (a value forced through float, say) shows
    in its counterexample as a general value, while the recorded one may happen to be exact: look close by."""
    if not any("x" in b for _, b in v["inputs"]):
        return False
    tries = [jitter(v["inputs"], k) for k in range(8)]
    with open(mf + ".near", "w") as f:
        for t in tries:
            f.write(model_text(bounds, t))
    res = native(exe, h, mf + ".near")
    os.remove(mf + ".near")
    for t, (st, obs, blk) in zip(tries, res):
        if st in ("violation", "crash") and (st == "crash" or "FAILED " + v["label"] in blk):
            near.blk = blk
            with open(mf, "w") as f:
                f.write(model_text(bounds, t, head))
            return True
    return False


def isolate(src, log, work, n):
    """A copy of the harness file without the harnesses that the compiler rejected, and their names."""
    text = open(src).read().split("\n")
    base = os.path.basename(src)
    bad = {int(x) for x in re.findall(r"^(?:In file included from |\s*from )?[^\s:]*" + re.escape(base) + r":(\d+)", log, flags=re.M)}
    dropped, i = [], 0
    while i < len(text):
        m = re.match(r"SX_HARNESS\((\w+)\)(.*)", text[i])
        if m:
            j = i
            if not m.group(2).rstrip().endswith("}"):
                while j + 1 < len(text) and text[j] != "}":
                    j += 1
            if any(i + 1 <= b <= j + 1 for b in bad):
                dropped.append(m.group(1))
                for k in range(i, j + 1):
                    text[k] = ""
            i = j
        i += 1
    if not dropped:
        return None, []
    d = f"{work}/part{n}"
    os.makedirs(d, exist_ok=True)
    out = f"{d}/{base}"
    with open(out, "w") as f:
        f.write("\n".join(text))
    return out, dropped


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    work = f"{VERIF}/build/{prop}.{tier}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work, exist_ok=True)
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    if not os.path.exists(SX) or any(os.path.getmtime(f) > os.path.getmtime(SX) for f in glob.glob(f"{VERIF}/engine/*.[ch]*")):
        r = subprocess.run(["make", "-j8", "-C", f"{VERIF}/engine"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-3000:])
            return 2
    srcs = sorted(glob.glob(f"{VERIF}/harness/{prop}*.cc"))
    if not srcs:
        print(f"no harness for {prop}")
        return 2
    plan = {s: parse_runs(s) for s in srcs}
    rt = f"{work}/rt.o"
    jobs, rejected, reasons = [], {}, []
    with ThreadPoolExecutor(8) as ex:
        frt = ex.submit(build.build_rt, rt)
        fs, fn = {}, {}
        use = {s: s for s in srcs}

        def sym(s, b):
            # harnesses that no longer compile are left out (and reported as errors), so that the others still run
            src, gone, text = s, [], None
            for n in range(8):
                try:
                    build.build_sym(src, b + ".sym", [*plan[s][1], f"-I{VERIF}/harness"])
                    break
                except build.BuildError as e:
                    text = text or str(e)
                    src, more = isolate(src, str(e), work, f"{n}.{os.path.basename(s)[:-3]}")
                    gone += more
                    if src is None or len(gone) >= len(plan[s][0]):
                        raise build.BuildError(text)
            use[s] = src
            rejected[s] = gone
            if gone:
                reasons.append(f"build: {', '.join(gone)}: {text}")

        for s in srcs:
            b = f"{work}/{os.path.basename(s)[:-3]}"
            fs[s] = ex.submit(sym, s, b)

            def nat(s=s, b=b):
                frt.result()
                try:
                    build.build_native(s, b + ".nat", rt, plan[s][1])
                except build.BuildError:
                    fs[s].result()
                    if use[s] == s:
                        raise
                    build.build_native(use[s], b + ".nat", rt, [*plan[s][1], f"-I{VERIF}/harness"])
            fn[s] = ex.submit(nat)

        def go(r, k):
            fs[r["src"]].result()
            if r["harness"] in rejected[r["src"]]:
                raise build.BuildError("left out")
            b = f"{work}/{os.path.basename(r['src'])[:-3]}"
            o = f"{b}.{r['harness']}.{k}"
            bounds = dict(r["quick"])
            if tier == "thorough":
                bounds.update(r["thorough"])
            lim = r["t"].get(tier, DEFAULT_T[tier])
            cmd = [SX, b + ".sym", "-f", "sxh_" + r["harness"], "-o", o + ".json", "-a", o + ".addrs", "-t", str(lim), "--seed", str(seed), *r["opts"]]
            for kk, v in bounds.items():
                cmd += ["-b", f"{kk}={v}"]
            p = subprocess.run("ulimit -s unlimited; ulimit -v 16000000; exec " + " ".join(cmd), shell=True, executable="/bin/bash",
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if p.returncode or not os.path.exists(o + ".json"):
                return r, bounds, None, f"engine exit {p.returncode}: {p.stdout[-2000:]}", o
            return r, bounds, json.load(open(o + ".json")), p.stdout, o
        k = 0
        for s in srcs:
            for r in plan[s][0]:
                if tier in r["tiers"] and (only is None or r["harness"] == only):
                    jobs.append(ex.submit(go, r, k))
                    k += 1
        errors = []
        for f in [frt, *fs.values(), *fn.values()]:
            try:
                f.result()
            except build.BuildError as e:
                errors.append("build: " + str(e))
        results = []
        for j in jobs:
            try:
                results.append(j.result())
            except build.BuildError:
                pass
    if errors:
        print("ERROR " + "\nERROR ".join(e[:1500] for e in errors[:2]))
        return 2

    errors = [e[:1500] for e in reasons]
    known = load_known(prop)
    violations, unrepro, notes, samples, per = [], [], [], [], []
    tot = dict(states=0, transitions=0, validated=0, mismatched=0, queries=0, unsat=0, sat=0, unknown=0, bv=0, lra=0, nra=0, secs=0.0, checks=0, proved=0)
    functions, lines = set(), {}
    rdir = f"{VERIF}/replays/{prop}"
    hangs = 0
    shutil.rmtree(rdir, ignore_errors=True)
    for r, bounds, d, log, o in results:
        h = r["harness"]
        exe = f"{work}/{os.path.basename(r['src'])[:-3]}.nat"
        if d is None:
            errors.append(f"{h}: {log}")
            continue
        incomplete, undecided = [], 0
        if d["truncated"]:
            incomplete.append("time or path budget exhausted")
        for k, v in d["inconclusive"].items():
            if "feasibility unknown" in k and not d["violations"]:
                undecided += v    # such paths are explored as if feasible and every assertion on them was decided
                continue
            incomplete.append(f"{k} ({v})")
        for k, v in d["unsupported"].items():
            incomplete.append(f"unsupported: {k} ({v} paths)")
        if incomplete:
            notes.append(f"{h}: INCOMPLETE " + "; ".join(incomplete))
        # --- counterexamples: replay against the real code
        seen = set()
        for i, v in enumerate(d["violations"]):
            ins = " ".join(f"{a}={b}" for a, b in v["inputs"])
            kf = [q for q in known if q["harness"] == h and q["kind"] == v["kind"] and q["label"] == v["label"] and q["inputs"].search(ins)]
            if kf:
                kf[0]["hit"] += 1
                continue
            if (v["kind"], v["label"]) in seen:
                continue
            # a path that was cut short: only a real run that never ends (or runs out of memory) counts, and one is enough
            if v["kind"] == "hang" and hangs >= 2:
                continue
            os.makedirs(rdir, exist_ok=True)
            mf = f"{rdir}/{h}.{i}.model"
            with open(mf, "w") as f:
                f.write(model_text(bounds, v["inputs"], [f"property {prop} source {r['src']} harness {h}", f"{v['kind']}: {v['label']}", "stack " + " < ".join(v["stack"]),
                                                         f"replay: {VERIF}/replay.sh {mf}"]))
            res = native(exe, h, mf, alarm=90 if v["kind"] == "hang" else 60)
            hangs += v["kind"] == "hang"
            st = res[0][0] if res else "none"
            if st in ("violation", "crash"):
                seen.add((v["kind"], v["label"]))
                violations.append((h, v, mf, res[0][2]))
            elif v["kind"] == "hang":
                os.remove(mf)
            elif near(exe, h, bounds, v, mf, [f"property {prop} source {r['src']} harness {h}", f"{v['kind']}: {v['label']} (near the solver's assignment)", f"replay: {VERIF}/replay.sh {mf}"]):
                seen.add((v["kind"], v["label"]))
                violations.append((h, v, mf, near.blk))
            else:
                unrepro.append((h, v, mf, st, res[0][2] if res else ""))
        # --- witnesses: the same inputs must behave identically in the native build
        val = mis = 0
        if d["witnesses"]:
            wf = o + ".wit"
            with open(wf, "w") as f:
                for w in d["witnesses"]:
                    f.write(model_text(bounds, w["inputs"]))
            for w, (st, obs, blk) in zip(d["witnesses"], native(exe, h, wf)):
                good = st == "ok"
                if good:
                    for (n1, v1), (n2, v2) in zip(w["obs"], obs):
                        a, b = float(v1), float(v2)
                        if n1 != n2 or not (a == b or abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))):
                            good = False
                if good:
                    val += 1
                else:
                    mis += 1
                    if st == "crash":
                        os.makedirs(rdir, exist_ok=True)
                        mf = f"{rdir}/{h}.w{mis}.model"
                        open(mf, "w").write(model_text(bounds, w["inputs"], [f"property {prop} source {r['src']} harness {h}", "native crash or sanitizer report on a feasible path"]))
                        violations.append((h, {"kind": "memory", "label": "native crash on a feasible path", "inputs": w["inputs"], "stack": []}, mf, blk))
                    else:
                        notes.append(f"{h}: witness differs natively ({st}): obs {w['obs'][:4]} vs {obs[:4]}; {blk[:300]!r}")
        okp = d["ok"]
        if okp == 0 and not [v for v in d["violations"] if v["kind"] != "hang"] and not [x for x in violations if x[0] == h]:
            errors.append(f"{h}: vacuous: no path reached the end of the harness {d['unsupported']}")
        tot["states"] += d["paths"]
        tot["transitions"] += d["instructions"]
        tot["validated"] += val
        tot["mismatched"] += mis
        for a, b in (("queries", "queries"), ("unsat", "unsat"), ("sat", "sat"), ("unknown", "unknown"), ("bv", "bv_queries"), ("lra", "lra_queries"), ("nra", "nra_queries")):
            tot[a] += d[b]
        tot["secs"] += d["solver_seconds"]
        tot["checks"] += sum(d["checks"].values())
        tot["proved"] += sum(d["proved"].values())
        functions |= set(d["functions"])
        per.append(dict(harness=h, bounds=bounds, paths=d["paths"], completed=d["ok"], infeasible=d["infeasible"], instructions=d["instructions"], assertions_reached=d["checks"],
                        assertions_proved=d["proved"], queries=d["queries"], solver_seconds=round(d["solver_seconds"], 3), seconds=round(d["seconds"], 2), incomplete=incomplete, paths_of_undecided_feasibility=undecided,
                        witnesses_replayed=val, witnesses_differing=mis))
        if d["witnesses"]:
            samples.append(dict(harness=h, outcome=d["witnesses"][0]["outcome"], inputs=d["witnesses"][0]["inputs"][:24], observed=d["witnesses"][0]["obs"][:12]))
        # --- source lines that were encoded
        try:
            sym = f"{work}/{os.path.basename(r['src'])[:-3]}.sym"
            out = subprocess.run(["addr2line", "-e", sym], stdin=open(o + ".addrs"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60).stdout
            for l in set(out.splitlines()):
                m = re.match(re.escape(build.REPO) + r"/(lib/\S+?):(\d+)", l)
                if m:
                    lines.setdefault(m.group(1), set()).add(int(m.group(2)))
        except Exception as e:
            notes.append(f"{h}: addr2line: {e}")
    for h, v, mf, st, blk in unrepro:
        notes.append(f"{h}: counterexample not reproduced natively ({st}): {v['kind']}: {v['label']} {v['inputs'][:40]} {mf}")
    for h, v, mf, st, blk in unrepro:
        if os.path.exists(mf) and not os.environ.get("SX_KEEP"):
            pass
    if os.environ.get("SX_LINES"):    # source lines executed symbolically, for reviewing what the harnesses reach
        with open(f"{os.environ['SX_LINES']}/{prop}.json", "w") as f:
            json.dump({k: sorted(v) for k, v in lines.items()}, f)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["validated"], samples=samples or ["none"],
                            paths_explored=tot["states"], instructions_executed_symbolically=tot["transitions"], witnesses_differing=tot["mismatched"],
                            assertions_reached=tot["checks"], assertions_proved_on_path=tot["proved"],
                            queries=dict(total=tot["queries"], unsat=tot["unsat"], sat=tot["sat"], unknown=tot["unknown"], bitvector_solver_calls=tot["bv"], linear_real_solver_calls=tot["lra"], nonlinear_real_solver_calls=tot["nra"]),
                            solver_seconds=round(tot["secs"], 3), runs=per, functions_encoded=sorted(functions)[:400], functions_encoded_count=len(functions),
                            source_lines_encoded={k: len(v) for k, v in sorted(lines.items())}, incomplete=notes),
              assumptions=["floating point arithmetic is interpreted over exact reals; rounding is outside the claim",
                           "bounds as listed per run under coverage.runs; every feasible path within them is explored unless listed under coverage.incomplete",
                           "journal output replaced by stubs: error and firewall channels end the path as a rejection",
                           "libstdc++ containers are executed as compiled; the hash-table growth policy and allocation are modelled; allocation never fails"],
              wall_s=round(wall, 2), violations=len(violations))
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for q in known:
        if q["hit"]:
            print(f"KNOWN-FINDING: property={prop} {q['desc']}")
    for n in notes:
        print("NOTE " + n[:1500])
    for h, v, mf, blk in violations:
        print(f"  {h}: {v['kind']}: {v['label']}  inputs: " + " ".join(f"{a}={b}" for a, b in v["inputs"])[:600])
        for l in blk.splitlines()[:12]:
            print("    | " + l[:200])
        print(f"VIOLATION property={prop} replay={mf}")
    for e in errors:
        print("ERROR " + e)
    print(f"{prop} {tier}: {tot['states']} paths, {tot['checks']} assertion instances ({tot['proved']} proved), {tot['queries']} queries, solver {tot['secs']:.1f}s, "
          f"{tot['validated']} witnesses replayed, {len(violations)} violations, {wall:.1f}s")
    if not os.environ.get("SX_KEEP"):
        shutil.rmtree(work, ignore_errors=True)
    if violations:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    sys.exit(main())
