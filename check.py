#!/usr/bin/env python3
"""check.py ID [quick|thorough] -- decide one property of claxon by symbolic execution of the compiled code.

Builds claxon (from /repo's working tree), std and the harnesses to LLVM IR, runs the symbolic executor over the
harnesses of the property, replays counterexamples and sampled paths in natively compiled code, writes
evidence/ID.json.  Exit 0: holds within the bounds.  Exit 1: VIOLATION line.  Exit 2: no answer."""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from spec import SPEC

T0 = time.time(); STOP = threading.Event()
def log(*a): print(f"[{time.time()-T0:6.1f}s]", *a, file=sys.stderr, flush=True)
def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def tree_hash():
    h = hashlib.sha256()
    fs = [f for d in ("/repo/src", HERE + "/harness/src", HERE + "/engine") for f in sorted(glob.glob(d + "/**", recursive=True)) if os.path.isfile(f)]
    for f in fs + ["/repo/Cargo.toml", HERE + "/harness/Cargo.toml", HERE + "/build_ir.sh"]:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

class Fatal(Exception): pass

def build_all(work):
    def engine():
        r = sh([HERE + "/engine/build.sh", work + "/engine"])
        if r.returncode: raise Fatal("engine build failed: " + r.stdout[-2000:])
        return time.time() - T0
    def ir():
        r = sh([HERE + "/build_ir.sh", work + "/ir", work + "/h.ll"])
        if r.returncode: raise Fatal("IR build failed: " + r.stdout[-3000:])
        shutil.rmtree(work + "/ir", ignore_errors=True)
        return time.time() - T0
    def native(prof):
        env = dict(os.environ, CARGO_TARGET_DIR=work + "/n_" + prof, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0"); env.pop("RUSTFLAGS", None)
        r = sh(["cargo", "build", "--offline", "-q", "--features", "native", "--bin", "replay"] + (["--release"] if prof == "release" else []), cwd=HERE + "/harness", env=env)
        if r.returncode: raise Fatal("native build failed: " + r.stdout[-3000:])
        shutil.copy(f"{work}/n_{prof}/{'debug' if prof == 'dev' else 'release'}/replay", f"{work}/replay_{prof}")
        shutil.rmtree(f"{work}/n_{prof}", ignore_errors=True)
        return time.time() - T0
    with cf.ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(engine), ex.submit(ir), ex.submit(native, "dev"), ex.submit(native, "release")]
        ts = [f.result() for f in fs]
    log("built: engine %.0f ir %.0f dev %.0f release %.0f" % tuple(ts))

def get_work():
    c = os.environ.get("VERIF_WORK")   # development convenience: reuse builds of identical sources
    if not c:
        w = tempfile.mkdtemp(prefix="claxon-sym-"); build_all(w); return w, True
    w = os.path.join(c, tree_hash())
    if not os.path.exists(w + "/ok"):
        os.makedirs(w, exist_ok=True); build_all(w); open(w + "/ok", "w").close()
    return w, False

def run_harness(work, out, h, tier, seed, tmax, jobs, verbose, nsamples, rw, dump=None, on_viol=None):
    cmd = [work + "/engine", "--ll", work + "/h.ll", "--harness", h, "--out", out, "--jobs", str(jobs), "--tier", "1" if tier == "thorough" else "0",
           "--time", str(tmax), "--samples", str(nsamples), "--seed", str(seed), "--rw", str(rw), "--rwbudget", "4" if tier == "quick" else "30"]
    if verbose: cmd.append("-v")
    if dump: cmd += ["--dump", dump]
    p = subprocess.Popen(cmd, stdout=open(f"{out}/{h}.log", "w"), stderr=subprocess.STDOUT, start_new_session=True)
    polled = {}; tried = 0; stopped = False
    while True:
        try: p.wait(1.0); break
        except subprocess.TimeoutExpired: pass
        if on_viol and not STOP.is_set():   # look at counterexamples while the executor is still running
            for f in glob.glob(f"{out}/{h}.w*.jsonl"):
                with open(f, "rb") as fh: fh.seek(polled.get(f, 0)); data = fh.read()
                k = data.rfind(b"\n") + 1; polled[f] = polled.get(f, 0) + k
                for line in data[:k].splitlines():
                    if line.startswith(b'{"t":"viol"') and tried < 6:
                        j = json.loads(line); j["harness"] = h; tried += 1
                        if on_viol(j): STOP.set(); break
        if STOP.is_set():   # one confirmed counterexample decides the property
            stopped = True
            try: os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError: pass
            p.wait(); break
    r = p; r.stdout = open(f"{out}/{h}.log", errors="replace").read()
    res = {"harness": h, "viol": [], "inc": [], "paths_s": [], "stats": {}, "reach": {}, "lines": {}, "fns": set(), "root": None, "rc": r.returncode, "log": r.stdout[-4000:]}
    try: res["root"] = json.load(open(f"{out}/{h}.root.json"))
    except Exception: pass
    incs = set()
    for f in sorted(glob.glob(f"{out}/{h}.w*.jsonl")):
        for line in open(f, errors="replace"):
            try: j = json.loads(line)
            except Exception:
                if not stopped: res["inc"].append("truncated worker output")
                continue
            t = j["t"]
            if t == "viol": j["harness"] = h; res["viol"].append(j)
            elif t == "inc":
                k = (re.sub(r"\d+ pending", "pending", j["why"]), (j.get("stack") or [None])[0])
                if k not in incs: incs.add(k)
            elif t == "path": j["harness"] = h; res["paths_s"].append(j)
            elif t == "cov":
                for k, v in j["lines"].items(): res["lines"].setdefault(k, set()).update(v)
                res["fns"].update(j["fns"])
            elif t == "stats":
                for k, v in j.items():
                    if isinstance(v, (int, float)): res["stats"][k] = max(res["stats"].get(k, 0), v) if k in ("maxQ", "rss", "nodes", "maxPath") else res["stats"].get(k, 0) + v
                for k, v in j["reach"].items(): res["reach"][k] = res["reach"].get(k, 0) + v
    for w, fn in sorted(incs, key=str)[:30]: res["inc"].append(w + (" in " + demangle([fn])[0] if fn else ""))
    if stopped: res["inc"].append("stopped early: a violation was confirmed"); return res
    if r.returncode: res["inc"].append(f"executor exit status {r.returncode}: {r.stdout[-300:]}")
    if res["root"] is None and not r.returncode: res["inc"].append("no executor summary")
    if res["stats"].get("rwBad"): res["inc"].append("an expression rewrite was refuted by the solver: " + r.stdout[-500:])
    return res

def demangle(names):
    if not names: return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.splitlines() if r.returncode == 0 else names

def inputs_line(j): return j["harness"] + " " + " ".join(f"{w}:{x}" for w, x in j["inputs"])

def native(work, items, tier, prof, pattern):
    """run the recorded inputs natively; returns a dict per item"""
    if not items: return []
    fn = tempfile.mktemp(dir=work, suffix=".in"); open(fn, "w").write("\n".join(inputs_line(j) for j in items) + "\n")
    r = subprocess.run([f"{work}/replay_{prof}", fn, "1" if tier == "thorough" else "0", str(pattern)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
    os.unlink(fn)
    out = []
    for blk in re.split(r"^## \d+\n", r.stdout, flags=re.M)[1:]:
        d = {"obs": [], "end": None, "panic": None, "div": None, "uhash": None}
        for l in blk.splitlines():
            if l.startswith("OBS"): d["obs"] = l.split()[1:]
            elif l.startswith("END "): d["end"] = l[4:]
            elif l.startswith("PANIC "): d["panic"] = l[6:]
            elif l.startswith("DIVERGED") or l == "EXHAUSTED": d["div"] = l
            elif l.startswith("UHASH "): d["uhash"] = l[6:]
        out.append(d)
    if len(out) != len(items): raise Fatal("native replay gave %d results for %d inputs: %s" % (len(out), len(items), r.stderr[-500:]))
    return out

CONFIRMED = {}
def confirm(work, j, tier):
    k = inputs_line(j)
    if k not in CONFIRMED: CONFIRMED[k] = confirm1(work, j, tier)
    return CONFIRMED[k]

def confirm1(work, j, tier):
    runs = {}
    for p in ("dev", "release"):
        for pat in (0xa5, 0x5a):
            d = runs[p, pat] = native(work, [j], tier, p, pat)[0]; e = d["end"] or ""
            if e == "hang": return f"{p} build: it does not come to an end"
            if e.startswith(("assert:", "unexpected-panic", "crash:")): return f"{p} build: {e}" + (f" ({d['panic']})" if d["panic"] else "")
    for p in ("dev", "release"):
        a, b = runs[(p, 0xa5)], runs[(p, 0x5a)]
        if (a["obs"], a["uhash"], a["end"]) != (b["obs"], b["uhash"], b["end"]): return f"{p} build: the result depends on the previous contents of freshly allocated memory"
    return None

def load_known(pid):
    out = []
    try:
        for l in open(HERE + "/known-findings.txt"):
            m = re.match(r'finding: property=(\S+) harness=(\S+) msg="([^"]*)" (.*)', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4).strip()))
    except FileNotFoundError: pass
    return out

def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = None; verbose = "-v" in sys.argv
    for a in sys.argv[3:]:
        if a.startswith("--only="): only = a[7:].split(",")
    seed = int(os.environ.get("VERIF_SEED", "1")); S = SPEC[pid]
    work, temp = get_work(); rc = 2
    try: rc = check(pid, tier, seed, S, work, only, verbose)
    finally:
        if temp: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, tier, seed, S, work, only, verbose):
    budget = float(os.environ.get("VERIF_BUDGET", "0")) or (560 if tier == "quick" else 10800)
    end = time.time() + budget
    hs = [h for h in S["harnesses"] if not only or h in only]
    out = tempfile.mkdtemp(dir=work, prefix="out"); dump = None
    if tier == "thorough": dump = out + "/smt"; os.makedirs(dump)
    ncpu = os.cpu_count() or 4; conc = 2 if len(hs) > 1 else 1
    results = []
    known = load_known(pid)
    def on_viol(j): return not any(k[0] == j["harness"] and k[1] == j["msg"] for k in known) and confirm(work, j, tier) is not None
    slots = threading.Semaphore(conc)
    def one(h):
        with slots: return one_(h)
    def one_(h):
        if STOP.is_set(): return {"harness": h, "viol": [], "inc": ["not run: a violation was confirmed"], "paths_s": [], "stats": {}, "reach": {}, "lines": {}, "fns": set(), "root": None, "log": ""}
        t = end - time.time()
        if t < 2: return {"harness": h, "viol": [], "inc": ["time budget exhausted before start"], "paths_s": [], "stats": {}, "reach": {}, "lines": {}, "fns": set(), "root": None, "log": ""}
        r = run_harness(work, out, h, tier, seed, t, ncpu, verbose, 16, 997, dump, on_viol)
        log(f"{h}: {r['stats'].get('paths',0)} paths, {r['stats'].get('steps',0)/1e6:.1f}M instr, {r['stats'].get('asserts',0)} asserts, {r['stats'].get('queries',0)} queries ({r['stats'].get('solver',0):.1f}s solver), viol {len(r['viol'])}, inc {len(r['inc'])}, wall {r['root']['wall'] if r['root'] else '?'}")
        if verbose and r["log"]: print(r["log"], file=sys.stderr)
        return r
    # a few at a time; when some of them are stuck in the solver, let the others go ahead
    def more():
        for _ in range(6):
            if finished.wait(75): return
            slots.release()
    finished = threading.Event(); threading.Thread(target=more, daemon=True).start()
    with cf.ThreadPoolExecutor(conc + 6) as ex:
        for r in ex.map(one, hs): results.append(r)
    finished.set()
    tot = {}
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)): tot[k] = max(tot.get(k, 0), v) if k in ("maxQ", "rss", "nodes", "maxPath") else tot.get(k, 0) + v
    late = time.time() + 30; violations = []; knownhit = []; problems = []
    for r in results:
        seen = set()
        for j in r["viol"]:
            st = [x for x in demangle(j["stack"])]
            j["stack_d"] = st
            if violations and time.time() > late: continue   # further counterexamples of a violation already reported
            why = confirm(work, j, tier)
            if why is None: problems.append(f"{r['harness']}: counterexample not reproduced natively: {j['kind']}: {j['msg']} at {st[:3]}"); continue
            k = next((k for k in known if k[0] == r["harness"] and k[1] == j["msg"]), None)
            if k: knownhit.append(k); continue
            violations.append((j, why))
        for w in sorted(set(r["inc"])): problems.append(f"{r['harness']}: undecided: {w}")
        if STOP.is_set(): continue
        for lab in S["reach"].get(r["harness"], []):
            if not r["reach"].get(lab): problems.append(f"{r['harness']}: required situation never reached: {lab}")
        if not r["stats"].get("paths") and not r["viol"]: problems.append(f"{r['harness']}: no path was completed")
    # validate sampled paths against natively compiled code
    rnd = random.Random(seed); samp = [p for r in results for p in rnd.sample(r["paths_s"], min(len(r["paths_s"]), 24))]
    validated = 0
    for prof in ("dev", "release"):
        for p, d in zip(samp, native(work, samp, tier, prof, 0xa5)):
            exp = p["end"]
            if d["end"] != exp or d["obs"] != p["obs"] or d["div"]:
                problems.append(f"{p['harness']}: native {prof} run disagrees with the executor: expected {exp} {p['obs'][:6]}, got {d['end']} {d['obs'][:6]} {d['div'] or ''} {d['panic'] or ''}")
            else: validated += 1
    cross = {}
    if dump:
        cross = cross_check(dump, min(600, max(30, end - time.time())))
        if cross.get("disagree"): problems.append("cvc5 disagrees with z3 on %d discharged queries" % cross["disagree"])
    lines = {}; fns = set()
    for r in results:
        fns |= r["fns"]
        for k, v in r["lines"].items(): lines.setdefault(k, set()).update(v)
    fns_d = sorted(set(re.sub(r"\[[0-9a-f]+\]", "", x) for x in demangle(sorted(fns))))
    cov = {
        "states": int(tot.get("paths", 0) + tot.get("killed", 0)), "transitions": int(tot.get("steps", 0)), "traces_validated_against_impl": validated,
        "samples": [{"harness": p["harness"], "end": p["end"], "inputs": " ".join(f"{w}:{x}" for w, x in p["inputs"][:40]), "observed": p["obs"][:16]} for p in samp[:6]],
        "explanation": "states: completed symbolic paths; transitions: LLVM instructions interpreted symbolically; traces_validated: sampled path models re-run in natively compiled dev and release builds with identical observations.",
        "bounds": S["bounds"], "harnesses": {r["harness"]: {"paths": r["stats"].get("paths", 0), "assertions": r["stats"].get("asserts", 0), "queries": r["stats"].get("queries", 0), "solver_s": round(r["stats"].get("solver", 0), 2), "wall_s": r["root"]["wall"] if r["root"] else None, "reached": r["reach"]} for r in results},
        "assertions_checked": int(tot.get("asserts", 0)), "assertions_decided_by_normal_form": int(tot.get("assertRw", 0)), "assertions_decided_by_value_sets": int(tot.get("assertDom", 0)), "assertions_decided_by_solver": int(tot.get("assertSat", 0)),
        "symbolic_branches": int(tot.get("symBranches", 0)), "forks": int(tot.get("forks", 0)),
        "queries": int(tot.get("queries", 0)), "queries_sat": int(tot.get("qSat", 0)), "queries_unsat": int(tot.get("qUnsat", 0)), "queries_unknown": int(tot.get("qUnknown", 0)),
        "queries_decided_by_gf2_elimination": int(tot.get("qGf2", 0)), "queries_sat_by_model_guess": int(tot.get("guessed", 0)), "solver_s": round(tot.get("solver", 0), 3), "max_query_s": round(tot.get("maxQ", 0), 3), "rewrites_confirmed_by_solver": int(tot.get("rwChecked", 0)), "cvc5_cross_check": cross,
        "functions_encoded": fns_d, "source_lines_executed": {k: compact(v) for k, v in sorted(lines.items())},
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round(time.time() - T0, 1), "violations": len(violations),
          "assumptions": S.get("assumptions", []) + ["rustc/LLVM compile the nightly -O1 overflow-checked IR and the native builds to the same behaviour (sampled paths are compared)", "the executor's memory model and z3 are correct (rewrites and paths are spot-checked)"]}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)
    for k in sorted(set(knownhit)): print(f"KNOWN-FINDING: property={pid} {k[2]}")
    for p in problems[:20]: print("PROBLEM " + p)
    if violations:
        os.makedirs(HERE + "/evidence/replay", exist_ok=True)
        for n, (j, why) in enumerate(violations):
            fn = f"{HERE}/evidence/replay/{pid}-{n}.txt"
            open(fn, "w").write(inputs_line(j) + "\n")
            print(f"  {j['harness']}: {j['kind']}: {j['msg']}\n    reproduced in the {why}\n    stack: " + " < ".join(j["stack_d"][:5]))
            print(f"VIOLATION property={pid} replay={fn}")
        print(f"replay with: cd {HERE}/harness && cargo run --offline --features native --bin replay -- FILE {1 if tier == 'thorough' else 0} 165")
        return 1
    if problems: return 2
    print(f"OK property={pid}: {cov['states']} paths, {cov['assertions_checked']} assertions, {cov['queries']} solver queries, {validated} native validations, {time.time()-T0:.0f}s")
    return 0

def compact(v):
    v = sorted(v); out = []; i = 0
    while i < len(v):
        k = i
        while k + 1 < len(v) and v[k + 1] == v[k] + 1: k += 1
        out.append(str(v[i]) if k == i else f"{v[i]}-{v[k]}"); i = k + 1
    return ",".join(out)

def cross_check(d, budget):
    """re-decide a sample of the queries z3 answered `unsat` with cvc5"""
    fs = sorted(glob.glob(d + "/*.smt2")); random.Random(1).shuffle(fs); t = time.time() + budget; n = {"queries": 0, "agree": 0, "unknown": 0, "disagree": 0}
    def go(f):
        if time.time() > t: return None
        try: r = subprocess.run(["cvc5", "--tlimit=20000", f], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=40).stdout.strip()
        except subprocess.TimeoutExpired: r = "unknown"
        return r
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(go, fs[:400]):
            if r is None: continue
            n["queries"] += 1; n["agree" if r == "unsat" else "disagree" if r == "sat" else "unknown"] += 1
    return n

if __name__ == "__main__":
    try: main()
    except Fatal as e: print("ERROR " + str(e)); sys.exit(2)
