"""developer driver: run contracts matching a pattern.  usage: dev.py PATTERN [--con N] [-v] [--nosym]"""
import sys, os, re, time, argparse
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from multiprocessing import Process, Queue
ap = argparse.ArgumentParser()
ap.add_argument("pat"); ap.add_argument("--con", type=int, default=40); ap.add_argument("-v", action="store_true")
ap.add_argument("--nosym", action="store_true"); ap.add_argument("--timeout", type=float, default=120)
ap.add_argument("--seed", type=int, default=1); ap.add_argument("-j", type=int, default=8)
a = ap.parse_args()
from engine import core as C, loader, contract as K, prover as P
import contracts
contracts.load_all(a.pat.split(".")[0])
cons = [c for i, c in sorted(K.CONTRACTS.items()) if re.search(a.pat, i)]

def job(con):
    sys.setrecursionlimit(20000)
    out = []
    real = loader.load_real()
    rng = np.random.default_rng(a.seed)
    n = {"ok": 0, "reject": 0, "fail": 0}; ff = None; nc = 0; t = time.time()
    for k in range(a.con):
        s, c, f = P.run_concrete(con, real, rng)
        n[s] += 1; nc += c.n_checks
        if s == "fail" and ff is None: ff = (f, c.inputs)
    out.append(f"{con.id}: concrete {n} checks={nc} {time.time()-t:.1f}s")
    if ff:
        out.append(f"   FAIL {ff[0][:3]}")
        out.append("   inputs " + str({k: (v.shape if hasattr(v,'shape') and v.size>12 else v) for k, v in ff[1].items()}))
    if con.sym and not a.nosym:
        C.set_ctx(C.Ctx())
        dsp = loader.load()
        r = P.run_symbolic(con, dsp, a.timeout)
        out.append(f"   SYM {r['status']} {r['reason']} paths={r['paths']}/{r['feasible_paths']} obl={r['discharged']}/{r['obligations']} {r['backends']} wall={r['wall_s']}")
        for f in r["failing"][:6]:
            out.append(f"     - {f['label']} {f['status']} {f['detail']} " + (str({k: (v.tolist() if hasattr(v,'tolist') and v.size<12 else v if not hasattr(v,'shape') else v.shape) for k,v in f['inputs'].items()}) if f['inputs'] else ''))
            if f["inputs"] and a.v:
                s, c, fl = P.run_concrete(con, real, rng, f["inputs"])
                out.append(f"       replay: {s} {fl[:2]}")
        if a.v and r["trace"]: out.append(r["trace"][-2500:])
    return "\n".join(out)

def wrap(con, q):
    try: q.put(job(con))
    except BaseException as e:
        import traceback; q.put(f"{con.id}: CRASH {traceback.format_exc()[-3000:]}")

if len(cons) == 1:
    print(job(cons[0])); sys.exit()
q = Queue(); pend = list(cons); run = []
done = 0
while pend or run:
    while pend and len(run) < a.j:
        p = Process(target=wrap, args=(pend.pop(0), q)); p.start(); run.append(p)
    try:
        print(q.get(timeout=1), flush=True); done += 1
    except Exception: pass
    run = [p for p in run if p.is_alive()]
while done < len(cons):
    try: print(q.get(timeout=3)); done += 1
    except Exception: break
