"""Decide one property:  check.py --property ID [--tier quick|thorough]   or   check.py --replay FILE

For every contract of the property
  1. the current source in the repository is symbolically executed against the contract and every
     generated obligation goes to the provers (normaliser, z3, cvc5),
  2. the same contract text is evaluated on seeded concrete inputs with the unmodified package under
     CPython (cross-check of the verifier's semantics, bounded stand-in where the verifier has no answer).
Exit 0: nothing refuted.  Exit 1 + VIOLATION line: an obligation is refuted.
"""
import sys, os, json, time, argparse, traceback, warnings, hashlib
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.path.insert(0, HERE)
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/numba_cache_vf")
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "NUMBA_NUM_THREADS"):
    os.environ.setdefault(k, "1")
sys.dont_write_bytecode = True
import multiprocessing as mp
import resource

ASSUME = [
    "A-REAL: machine floating point is treated as real arithmetic (and fixed-width integers as integers); the concrete CPython evaluations use a tolerance",
    "A-NUMPY: the executable model of numpy semantics in engine/arrays.py and engine/npproxy.py (indexing, slicing, broadcasting, reductions, views) is trusted; the concrete cross-check runs the same contracts on real numpy",
    "A-EXT: calls into scipy/numpy kernels (FFT, lfilter, resampling, windows, SVD) are opaque functions with the contracts written in engine/npproxy.py and engine/sciproxy.py",
    "A-EXEC: the loader's source rewriting (loops of symbolic length, local builtins) preserves Python semantics; docstrings, annotations and numba decorators are dropped",
    "A-LIB: warnings, plotting, audio input/output and file access are stubbed out",
]


def to_json(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if np.iscomplexobj(v):
            return {"__c__": [v.real.tolist(), v.imag.tolist()]}
        return v.tolist()
    if isinstance(v, complex):
        return [v.real, v.imag]
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    return v


def from_json(v):
    import numpy as np
    if isinstance(v, dict) and "__c__" in v:
        return np.array(v["__c__"][0]) + 1j * np.array(v["__c__"][1])
    return v


def small_repr(v, k=6):
    import numpy as np
    if isinstance(v, np.ndarray):
        return {"shape": list(v.shape), "head": [str(q) for q in v.ravel()[:k]]}
    return to_json(v)


def work(con_id, tier, seed, q, prop):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
        sys.setrecursionlimit(20000)
        q.put((con_id, _work(con_id, tier, seed, prop)))
    except BaseException:
        q.put((con_id, {"crash": traceback.format_exc()[-3000:]}))


def _work(con_id, tier, seed, prop):
    import numpy as np
    from engine import core as C, loader, contract as K, prover as P
    con = K.CONTRACTS[con_id]
    res = {"id": con_id, "targets": con.targets, "bounded": con.bounded, "sym": None, "note": con.note}
    if con.sym:
        C.set_ctx(C.Ctx())
        t = con.sym_timeout if tier == "quick" else 3 * con.sym_timeout
        try:
            dsp = loader.load()
            res["sym"] = P.run_symbolic(con, dsp, t)
        except Exception as e:
            res["sym"] = {"status": "unsupported", "reason": f"{type(e).__name__}: {e}"[:300], "obligations": 0, "discharged": 0,
                          "backends": {}, "failing": [], "paths": 0, "feasible_paths": 0, "solver_s": 0, "wall_s": 0,
                          "trace": traceback.format_exc()[-1500:]}
    real = loader.load_real()
    sy = res["sym"]
    decided = sy is not None and sy["status"] == "proved"
    refuted = sy is not None and sy["status"] == "failed"
    budget = con.trials * (1 if decided else 4) * (1 if tier == "quick" else 12)
    tmax = (25 if decided else 90) * (1 if tier == "quick" else 6)
    st = {"ok": 0, "reject": 0, "fail": 0}
    checks, seen, samples = 0, set(), []
    fail = None

    def run(rng, inputs=None):
        nonlocal checks, fail
        s, c, f = P.run_concrete(con, real, rng, inputs)
        st[s] += 1
        checks += c.n_checks
        if s != "reject":
            h = hashlib.md5()
            nontriv = False
            for k, v in sorted(c.inputs.items()):
                a = np.asarray(v)
                h.update(k.encode())
                h.update(a.tobytes())
                if a.size > 1 and np.any(a != 0):
                    nontriv = True
                if a.size == 1:
                    nontriv = True
            if nontriv and c.n_checks:
                seen.add(h.digest())
            if len(samples) < 2:
                samples.append({"contract": con_id, "inputs": {k: small_repr(v) for k, v in c.inputs.items()}, "checks": c.n_checks})
        if s == "fail" and fail is None:
            fail = {"label": f[0][0], "detail": f[0][1], "inputs": {k: to_json(v) for k, v in c.inputs.items()}}
        return s
    t0 = time.time()
    src = "search"
    if sy is not None:
        for ob in sy["failing"]:
            if ob["inputs"] is not None and fail is None:
                rng = np.random.default_rng([seed, 99])
                run(rng, ob["inputs"])
                if fail:
                    src = "counterexample"
                    break
                scal = {k: v for k, v in ob["inputs"].items() if np.ndim(v) == 0}
                for k in range(40):
                    run(np.random.default_rng([seed, 7, k]), scal)
                    if fail:
                        src = "counterexample-scalars"
                        break
    k = 0
    while k < budget and fail is None and time.time() - t0 < tmax:
        run(np.random.default_rng([seed, int(hashlib.md5(con_id.encode()).hexdigest()[:6], 16), k]))
        k += 1
    res["con"] = {"status": st, "checks": checks, "distinct": len(seen), "samples": samples, "fail": fail, "src": src,
                  "wall_s": round(time.time() - t0, 2)}
    if sy is not None:
        for ob in sy["failing"]:
            ob["inputs"] = None if ob["inputs"] is None else {k: to_json(v) for k, v in ob["inputs"].items()}
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 4))
    a = ap.parse_args()
    warnings.simplefilter("ignore")
    import contracts
    from engine import contract as K
    if a.replay:
        return replay(a.replay)
    contracts.load_all()
    prop, tier = a.property, a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    cons = [c for _, c in sorted(K.CONTRACTS.items()) if c.prop == prop]
    if not cons:
        print(f"no contract for property {prop}")
        return 2
    ctx = mp.get_context("fork")
    limit = 840 if tier == "quick" else 6 * 3600
    pend = sorted(cons, key=lambda c: -c.sym_timeout if c.sym else 0)
    running, results = {}, {}
    q = ctx.Queue()
    while pend or running:
        while pend and len(running) < a.j:
            c = pend.pop(0)
            p = ctx.Process(target=work, args=(c.id, tier, seed, q, prop), daemon=True)
            p.start()
            running[c.id] = (p, time.time())
        try:
            cid, r = q.get(timeout=0.3)
            results[cid] = r
            p, _ = running.pop(cid)
            p.join(5)
        except Exception:
            pass
        for cid, (p, ts) in list(running.items()):
            c = K.CONTRACTS[cid]
            hard = (c.sym_timeout * 1.3 + 130) * (1 if tier == "quick" else 6)
            if not p.is_alive() and cid not in results:
                try:
                    while True:
                        c2, r = q.get(timeout=1)
                        results[c2] = r
                        running.pop(c2, None)
                except Exception:
                    pass
                if cid not in results:
                    results[cid] = {"crash": f"worker ended with {p.exitcode}"}
                    running.pop(cid, None)
            elif p.is_alive() and (time.time() - ts > hard or time.time() - t0 > limit):
                p.kill()
                p.join()
                results[cid] = {"crash": "time limit"}
                running.pop(cid, None)
        if time.time() - t0 > limit:
            for c in pend:
                results[c.id] = {"crash": "not started: time limit"}
            pend = []
    return report(prop, tier, seed, cons, results, t0)


def known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))["findings"] if e.get("status") == "known"]


def report(prop, tier, seed, cons, results, t0):
    kn = known()
    viol, lines = [], []
    tot = dict(obl=0, dis=0, paths=0, solver=0.0, be={})
    evals, distinct, checks, samples = 0, 0, 0, []
    proved, bounded, undecided = [], [], []
    percon = {}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for c in cons:
        r = results.get(c.id, {"crash": "no result"})
        if "crash" in r:
            undecided.append(f"{c.id}: {r['crash'][-200:]}")
            percon[c.id] = {"status": "crash", "detail": r["crash"][-500:]}
            print(f"{c.id}: no answer: {r['crash'][-300:]}")
            continue
        sy, cn = r["sym"], r["con"]
        evals += cn["status"]["ok"] + cn["status"]["fail"]
        distinct += cn["distinct"]
        checks += cn["checks"]
        samples += cn["samples"][:1]
        if sy:
            tot["obl"] += sy["obligations"]
            tot["dis"] += sy["discharged"]
            tot["paths"] += sy["feasible_paths"]
            tot["solver"] += sy["solver_s"]
            for k, v in sy["backends"].items():
                tot["be"][k] = tot["be"].get(k, 0) + v
        st = sy["status"] if sy else "bounded"
        percon[c.id] = {"functions": c.targets, "status": st, "obligations": sy["obligations"] if sy else 0,
                        "discharged": sy["discharged"] if sy else 0, "paths": sy["feasible_paths"] if sy else 0,
                        "backends": sy["backends"] if sy else {}, "solver_s": sy["solver_s"] if sy else 0,
                        "bounded": c.bounded, "concrete_evaluations": cn["status"]["ok"], "note": c.note,
                        "reason": sy["reason"] if sy else "outside the verifier's reach: bounded evaluation only"}
        print(f"{c.id}: {st} obligations={percon[c.id]['discharged']}/{percon[c.id]['obligations']} "
              f"concrete={cn['status']['ok']} {('('+sy['reason']+')') if sy and sy['reason'] else ''}")
        if st == "proved":
            (bounded if c.bounded else proved).append(c.id)
        elif st == "bounded":
            bounded.append(c.id)
        else:
            undecided.append(f"{c.id}: {st} {sy['reason']}")
        fail = cn["fail"]
        if fail is not None:
            k = [e for e in kn if e["property"] == prop and e["contract"] == c.id and e["label"] == fail["label"]]
            if k:
                lines.append(f"KNOWN-FINDING: property={prop} {k[0]['what']}")
                continue
            viol.append((c, fail, True, r))
        elif sy and sy["status"] == "failed":
            ob = [o for o in sy["failing"] if o["status"] == "sat" and not o["label"].startswith("no-exception")]
            if ob:
                viol.append((c, {"label": ob[0]["label"], "detail": ob[0]["detail"], "inputs": ob[0]["inputs"]}, False, r))
    for l in dict.fromkeys(lines):
        print(l)
    syms = [c for c in cons if c.sym]
    level = "proof" if syms else "exploration"
    cov = {"evaluations": evals, "distinct_nontrivial": distinct,
           "rule": "seeded random inputs per contract (dimensions, contents, options drawn by the contract's own input declarations); "
                   "non-trivial: precondition met, at least one check evaluated and a non-zero array or scalar input; distinct by hash of the inputs",
           "samples": samples[:6] or ["none"], "contract_checks": checks}
    if level == "proof":
        cov.update({"obligations": tot["obl"], "discharged": tot["dis"],
                    "checker_cmd": f"/opt/venv/bin/python engine/check.py --property {prop}",
                    "trusted_base": ["z3 5.3.2", "cvc5 1.4.2", "engine/ (symbolic executor, numpy model, normaliser)"] + ASSUME,
                    "back_ends": tot["be"], "solver_s": round(tot["solver"], 2), "paths": tot["paths"]})
    cov.update({"contracts": percon, "proved_unbounded": proved, "bounded_or_stand_in": bounded, "undecided": undecided,
                "functions_under_contract": sorted({t for c in cons for t in c.targets})})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ASSUME,
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    kept = []
    for v in viol:
        c = v[0]
        if c.observed_by and not any(o.id in c.observed_by or o.id == prop + "." + x for o, _, rep, _ in viol if rep for x in c.observed_by):
            undecided.append(f"{c.id}: the representation contract fails ({v[1]['label']}), no observable history does")
            continue
        kept.append(v)
    viol = kept
    ev["violations"] = len(viol)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if undecided:
        print("undecided obligations remain (bounded evaluation found no failing input): " + "; ".join(undecided)[:500])
    for j, (c, fail, replayed, r) in enumerate(viol):
        path = os.path.join(HERE, "evidence", f"replay-{prop}-{j}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "contract": c.id, "obligation": fail["label"], "detail": fail["detail"], "inputs": fail["inputs"],
                       "replayed_on_real_code": replayed, "functions": c.targets, "source": r["con"]["src"] if replayed else "verifier",
                       "verifier": r["sym"], "how": f"/opt/venv/bin/python engine/check.py --replay {path}"}, f, indent=1, default=str)
        print(f"{c.id}: obligation '{fail['label']}' fails: {fail['detail']}"[:400])
        print(f"VIOLATION property={prop} replay={path}" + ("" if replayed else " no-failing-input-found"))
    return 1 if viol else 0


def replay(path):
    import numpy as np
    import contracts
    from engine import contract as K, loader, prover as P
    contracts.load_all()
    d = json.load(open(path))
    con = K.CONTRACTS[d["contract"]]
    real = loader.load_real()
    if not d["inputs"]:
        print("no concrete input; failed obligation:", d["obligation"])
        return 1
    s, c, f = P.run_concrete(con, real, np.random.default_rng(1), {k: from_json(v) for k, v in d["inputs"].items()})
    print(s, f)
    return 1 if s == "fail" else 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
