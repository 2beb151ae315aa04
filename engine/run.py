"""run.py <pid>: orchestrates a check; exit 0 held, 1 violated, 2 no answer."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
seed = int(os.environ.get("VERIF_SEED", "1"))
PY = "/opt/venv/bin/python"
t0 = time.time()
manifest = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
level = next((c["level"] for c in manifest["checks"] if c["property"] == pid), "other")
work = tempfile.mkdtemp(prefix=f"verif_{pid}_")
res = {}
meta = {}
try:
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", JAX_PLATFORMS="cpu", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", NUMBA_NUM_THREADS="2", HOME=work,
               NUMBA_CACHE_DIR=work + "/numba", XDG_CACHE_HOME=work + "/xdg", MPLCONFIGDIR=work + "/mpl", TMPDIR=work,
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
    env.pop("PYTHONPATH", None)
    procs = {}
    for mode in ("sym", "num"):
        o = os.path.join(work, mode + ".json")
        procs[mode] = (subprocess.Popen([PY, os.path.join(HERE, "worker.py"), pid, mode, tier, str(seed), o], env=env,
                                        cwd=work, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, mode + ".err"), "w"),
                                        start_new_session=True), o)
    limit = 780 if tier == "quick" else 7000
    for mode, (p, o) in procs.items():
        try:
            p.wait(max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
        if os.path.exists(o):
            d = json.load(open(o))
            res[mode] = {r["name"]: r for r in d["results"]}
            meta = d["meta"]
        else:
            res[mode] = {}
            err = open(os.path.join(work, mode + ".err")).read()[-3000:]
            print(f"note: {mode} executor produced no result: {err}", file=sys.stderr)
finally:
    shutil.rmtree(work, ignore_errors=True)

known = []
kf = os.path.join(VERIF, "known_findings.txt")
if os.path.exists(kf):
    for line in open(kf):
        line = line.strip()
        if line.startswith("finding:"):
            d = dict(x.split("=", 1) for x in line[8:].split("|")[0].split() if "=" in x)
            if d.get("property") == pid:
                known.append((d["obligation"], d.get("label", ""), line.split("|", 1)[1].strip() if "|" in line else ""))

sym, num = res.get("sym", {}), res.get("num", {})
viol, knownhits = [], []
proved = refuted = undec = nobl = 0
undecided = []
oblist = []
for n, r in sym.items():
    if r["kind"] == "vc":
        vcs = r.get("vcs") or []
        nobl += max(1, len(vcs))
        proved += sum(s == "proved" for _, s, _ in vcs)
    else:
        nobl += max(1, r.get("n", 0))
        if r["status"] == "proved":
            proved += r["n"]
    if r["status"] == "proved":
        oblist.append(n)
    elif r["status"] == "refuted":
        nr = num.get(n)
        if r["kind"] == "vc":
            conf = [i for _, s, i in r.get("vcs", []) if s == "refuted"]
            if any("REPLAYED" in i for i in conf):
                viol.append((n, "vc", r, True))
            else:
                undecided.append((n, "refuted without replay: " + r.get("info", "")[:500]))
        elif nr and nr["status"] == "fail":
            pass  # reported below with its concrete replay
        else:
            viol.append((n, "sym", r, False))
    else:
        undecided.append((n, r.get("info", "")[:500]))
for n, r in num.items():
    if r["status"] == "fail":
        viol.append((n, "num", r, True))
    elif r["status"] == "undecided":
        undecided.append((n, "native: " + r.get("info", "")[:1500]))

real = []
for v in viol:
    n, k, r, rep = v
    hit = next((x for x in known if x[0] == n.replace(" ", "_") and x[1] == str(r.get("label")).replace(" ", "_")), None)
    if hit:
        knownhits.append(hit)
    else:
        real.append(v)
for hit in knownhits:
    print(f"KNOWN-FINDING: property={pid} {hit[0]}: {hit[2]}")

evals = sum(r.get("n", 0) for r in num.values())
nontriv = sum(r.get("nontrivial", 0) for r in num.values())
funcs = sorted({f for n in oblist for f in meta.get("functions", {}).get(n, [])})
bfuncs = sorted({f for n, fs in meta.get("functions", {}).items() if n not in oblist for f in fs} - set(funcs))
floats = sorted({f for r in sym.values() for f in r.get("floats", [])})
cov = {
    "obligations": nobl, "discharged": proved,
    "checker_cmd": f"/verif/check.sh {pid}",
    "trusted_base": ["CPython 3.12 executing the functions of /repo", "engine/sym.py normal-form decision procedure (cross-checked natively on every obligation)",
                     "engine/symbackend.py contracts of the numeric primitives (inv, det, solve, sqrt, exp, einsum on exact numbers)",
                     "numba compiles a function to the meaning of its Python source", "floating point treated as exact arithmetic"] + meta.get("trusted", []),
    "explanation": meta.get("explanation", ""),
    "functions_under_contract_proved": funcs, "functions_bounded_only": bfuncs,
    "proved_groups": {n: {"postconditions": sym[n].get("n"), "bound": meta["bounds"].get(n) or "none: all inputs", "seconds": round(sym[n]["t"], 2), "labels": sym[n].get("labels", [])[:8]} for n in oblist},
    "solver_seconds": round(sum(r.get("t", 0) for r in sym.values()), 2),
    "evaluations": evals, "distinct_nontrivial": nontriv,
    "rule": "native evaluations of postconditions; non-trivial = the expected value is a non-empty, not identically zero array, or a decided condition; inputs differ by seed",
    "bounded_groups": {n: {"samples": r.get("samples"), "postconditions": r.get("n"), "bound": meta["bounds"].get(n), "seconds": round(r["t"], 2)} for n, r in num.items()},
    "samples": [dict(group=n, **r["sample"]) for n, r in list(num.items())[:6] if r.get("sample")],
    "undecided": [f"{n}: {i}" for n, i in undecided], "machine_constants_read_as_exact": floats,
}
ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
      "assumptions": meta.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(real)}
os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
print(f"{pid} {tier}: obligations {nobl} discharged {proved}; native evaluations {evals}; undecided groups {len(undecided)}; {time.time()-t0:.1f}s")
for n, i in undecided:
    print(f"  undecided {n}: {i[:1500 if os.environ.get('VERIF_VERBOSE') else 160]}")
if real:
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    for n, k, r, rep in real:
        path = os.path.join(VERIF, "evidence", "replay", f"{pid}_{n.replace('/', '_').replace(' ', '_')}.json")
        json.dump({"property": pid, "obligation": n, "executor": k, "verifier": sym.get(n), "result": r,
                   "replay": f"VERIF_SEED={seed} VERIF_ONLY='{n}' /verif/check.sh {pid} {tier}"}, open(path, "w"), indent=1, default=str)
        print(f"  failed obligation {n} [{r.get('label')}]: {str(r.get('info'))[:600]}")
        print(f"VIOLATION property={pid} replay={path}" + ("" if rep else " no-failing-input-found"))
    sys.exit(1)
if nobl == 0 and evals == 0 or (not sym and not num):
    print("no obligation was generated or evaluated")
    sys.exit(2)
if evals == 0 and proved < nobl:
    print("nothing decided")
    sys.exit(2)
sys.exit(0)
