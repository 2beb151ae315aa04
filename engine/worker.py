"""worker.py <pid> <sym|num> <tier> <seed> <out.json>  -- runs one executor over a check's obligations."""
import os, sys, json, time, importlib, warnings
warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
pid, mode, tier, seed, out = sys.argv[1:6]
repo = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, repo)
sys.setrecursionlimit(20000)
if mode == "sym":
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import symload  # noqa: F401  (patches numba intrinsics for plain-Python execution)
import multiprocessing as mp
import mrmustard
assert mrmustard.__file__.startswith(repo + "/"), mrmustard.__file__
import harness
import numpy as np


def main():
    mod = importlib.import_module(pid)
    R = harness.Registry(pid, tier)
    mod.register(R)
    names = [o.name for o in R.obs]
    assert len(set(names)) == len(names), "duplicate obligation names"
    obs = [o for o in R.obs if (o.sym if mode == "sym" else o.num > 0)]
    only = os.environ.get("VERIF_ONLY")
    if only:
        obs = [o for o in obs if any(s in o.name for s in only.split(","))]
    if hasattr(mod, "prepare_" + mode):
        getattr(mod, "prepare_" + mode)()
    results = []
    meta = dict(assumptions=R.assumptions, trusted=R.trusted, explanation=R.explanation,
                functions={o.name: o.functions for o in R.obs}, bounds={o.name: o.bound for o in R.obs},
                kinds={o.name: o.kind for o in R.obs}, symnames=[o.name for o in R.obs if o.sym])
    nproc = int(os.environ.get("VERIF_PROCS", "8"))
    ctx = mp.get_context("fork")
    # one forked process per obligation so a stuck one can be killed
    pend = sorted(obs, key=lambda o: -o.timeout)
    running = []

    def child(o, conn):
        try:
            if mode == "sym":
                if o.kind != "vc" or getattr(o.fn, "needs_backend", False):
                    import symbackend
                    symbackend.enter()
                r = harness.run_sym(o)
                import sym
                r["floats"] = sorted(sym.FLOATS_RECOGNISED)
            else:
                r = harness.run_num(o, int(seed))
        except BaseException as e:  # noqa
            r = {"name": o.name, "mode": mode, "kind": o.kind, "status": "undecided", "info": f"worker: {type(e).__name__} {e}", "t": 0}
        conn.send(json.dumps(r, default=str))
        conn.close()
        os._exit(0)
    while pend or running:
        while pend and len(running) < nproc:
            o = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(o, b))
            p.start()
            b.close()
            running.append((o, p, a, time.time()))
        nxt = []
        for o, p, a, t in running:
            lim = (o.timeout * 1.3 + 20) if mode == "sym" else (o.timeout * 2.2 + 30)
            if a.poll(0):
                try:
                    results.append(json.loads(a.recv()))
                except EOFError:
                    results.append({"name": o.name, "mode": mode, "kind": o.kind, "status": "undecided", "info": "worker died", "t": time.time() - t})
                p.join()
            elif time.time() - t > lim:
                p.kill()
                p.join()
                results.append({"name": o.name, "mode": mode, "kind": o.kind, "status": "undecided", "info": "killed: over time limit", "t": time.time() - t})
            else:
                nxt.append((o, p, a, t))
        running = nxt
        if running:
            time.sleep(0.02)
    json.dump({"meta": meta, "results": results}, open(out, "w"))


main()
