"""check.py ID [--tier quick|thorough] [--only SUBSTR] [-v]

Explores every instance of a property symbolically (symex/), replays every
counterexample and a sample of path witnesses on the unmodified komm, writes
evidence/ID.json.  Exit 0: held; 1: VIOLATION; 2: no verdict."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
SRC = os.environ.get("KOMM_SRC", "/repo/src")
REALPY = os.environ.get("KOMM_PYTHON", "/opt/venv/bin/python")
TOTAL = float(os.environ.get("CHECK_BUDGET", "780"))


def worker(args):
    name, known, limit = args
    from symex import reg, run
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    inst = reg.PROPS[PID].insts[name]
    run.FUNCS.clear()
    run.start_monitor()
    try:
        r = run.InstanceRun(inst, known, time_limit=limit).execute()
    except MemoryError:
        r = {"instance": name, "bounds": inst.bounds, "paths": 0, "violations": [], "labels": {}, "witnesses": [],
             "error": "out of memory", "stats": {}, "seconds": 0, "nomerge": [], "concrete_inputs": False}
    except Exception as e:
        import traceback
        r = {"instance": name, "bounds": inst.bounds, "paths": 0, "violations": [], "labels": {}, "witnesses": [],
             "error": "harness: " + "".join(traceback.format_exception(e))[-1500:], "stats": {}, "seconds": 0,
             "nomerge": [], "concrete_inputs": False}
    r["funcs"] = sorted(run.FUNCS)
    return r


def real(cases, known, timeout):
    """Concrete outcomes of the cases on the installed komm."""
    import tempfile
    if not cases:
        return []
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump({"cases": cases, "known": known}, f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=SRC)
    try:
        p = subprocess.run([REALPY, os.path.join(HERE, "replay.py"), f.name], capture_output=True, text=True, env=env,
                           timeout=timeout, cwd="/")
    finally:
        os.unlink(f.name)
    if p.returncode != 0:
        raise RuntimeError("replay failed: " + p.stderr[-2000:])
    return json.loads(p.stdout[p.stdout.index("["):])


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a == b:
            return True
        return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if a is None or b is None:
        return True if (a is None) != (b is None) and False else a == b
    return a == b


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d["property"] == pid:
                    out.append(d)
    return out


def main():
    global PID
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=int(os.environ.get("CHECK_JOBS", "8")))
    a = ap.parse_args()
    PID = a.pid
    t0 = time.time()
    os.environ["OMP_NUM_THREADS"] = os.environ["OPENBLAS_NUM_THREADS"] = "1"
    from symex import loader, reg
    import propindex
    try:
        loader.install()
        importlib.import_module("props." + propindex.MODULE[PID])
    except Exception as e:
        import traceback
        traceback.print_exc()
        print(f"ERROR property={PID} the sources could not be loaded: {e}")
        return 2
    P = reg.PROPS[PID]
    insts = [i for i in P.insts.values() if (a.tier == "thorough" or i.tier == "quick") and (not a.only or a.only in i.name)]
    insts.sort(key=lambda i: -i.cost)
    known = load_known(PID)
    known_ids = sorted(k["id"] for k in known)
    total = TOTAL if a.tier == "quick" else float(os.environ.get("CHECK_BUDGET", "7200"))
    results = []
    ctx = mp.get_context("fork")
    lim = min(total * 0.85, 600 if a.tier == "quick" else 3600)
    with ctx.Pool(min(a.j, max(1, len(insts))), maxtasksperchild=1) as pool:
        pend = {i.name: pool.apply_async(worker, ((i.name, known_ids, min(lim, i.limit)),)) for i in insts}
        order = list(pend)
        while pend:
            left = t0 + total - time.time()
            for n in list(pend):
                if pend[n].ready():
                    try:
                        r = pend[n].get()
                    except Exception as e:
                        r = fail(n, P, f"worker: {e}")
                    results.append(r)
                    del pend[n]
                    if r["violations"]:     # the verdict is in; do not spend the whole budget on the rest
                        total = min(total, time.time() - t0 + 90)
                    if a.v:
                        s = r["stats"]
                        print(f"  {n}: paths={r['paths']} viol={[v['label'] for v in r['violations']]} "
                              f"err={r['error']} {r['seconds']:.1f}s q={s.get('queries')} sol={s.get('solver_s', 0):.1f} "
                              f"nomerge={r['nomerge']} restarts={r.get('restarts')} ci={r['concrete_inputs']}", flush=True)
            if left < 0:
                for n in pend:
                    results.append(fail(n, P, "budget: check time limit"))
                break
            time.sleep(0.02)
        pool.terminate()
    return report(P, a, results, known, known_ids, t0, insts)


def fail(n, P, msg):
    return {"instance": n, "bounds": P.insts[n].bounds, "paths": 0, "violations": [], "labels": {}, "witnesses": [],
            "error": msg, "stats": {}, "seconds": 0, "nomerge": [], "concrete_inputs": False, "funcs": []}


def report(P, a, results, known, known_ids, t0, insts):
    results.sort(key=lambda r: r["instance"])
    problems = []
    cases, where = [], []
    for r in results:
        for v in r["violations"]:
            cases.append({"property": PID, "instance": r["instance"], "assignment": v["assignment"]})
            where.append((r, v, None))
        for w in r["witnesses"]:
            cases.append({"property": PID, "instance": r["instance"], "assignment": w["assignment"]})
            where.append((r, None, w))
        if r["error"]:
            problems.append(f"{r['instance']}: {r['error']}")
        elif not r["paths"] and not r["violations"]:
            problems.append(f"{r['instance']}: no path reached the end (vacuous)")
    # validation and replay on the unmodified code, in a few processes
    outs = []
    if cases:
        from concurrent.futures import ThreadPoolExecutor
        nb = min(8, max(1, len(cases) // 4))
        chunks = [list(range(i, len(cases), nb)) for i in range(nb)]
        outs = [None] * len(cases)
        try:
            with ThreadPoolExecutor(nb) as ex:
                futs = [ex.submit(real, [cases[i] for i in ch], known_ids, 300) for ch in chunks]
                for ch, f in zip(chunks, futs):
                    for i, o in zip(ch, f.result()):
                        outs[i] = o
        except Exception as e:
            problems.append(f"replay: {e}")
            outs = [None] * len(cases)
    confirmed, validated, mismatch = [], 0, []
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    for c, (r, v, w), o in zip(cases, where, outs):
        if o is None:
            continue
        if v is not None:
            if o["failed"] or o["slow"]:
                confirmed.append((r, v, o))
            else:
                mismatch.append(f"{r['instance']}: counterexample for '{v['label']}' does not reproduce "
                                f"{json.dumps(v['assignment'])[:300]} {v.get('trace', '')[-600:]}")
        else:
            if o["failed"]:
                # the real code fails where the symbolic run saw no failure
                confirmed.append((r, {"label": o["failed"][0], "assignment": c["assignment"]}, o))
                mismatch.append(f"{r['instance']}: witness fails on the real code: {o['failed']} {o.get('message', '')} "
                                f"{json.dumps(c['assignment'])[:300]}")
            elif o["unmet"] or not same(w["obs"], o["obs"]):
                mismatch.append(f"{r['instance']}: observed values differ: {json.dumps(w['obs'])[:300]} vs "
                                f"{json.dumps(o['obs'])[:300]} unmet={o['unmet']} {json.dumps(c['assignment'])[:200]}")
            else:
                validated += 1
    problems += mismatch
    # findings excused inside the harness: their failing input, replayed without the excuse
    hits = {}
    for r in results:
        for kid, v in r.get("known_hits", {}).items():
            hits.setdefault(kid, (r, v))
    if hits:
        os_ = real([{"property": PID, "instance": r["instance"], "assignment": v["assignment"]} for r, v in hits.values()],
                   [], 300)
        for (kid, (r, v)), o in zip(hits.items(), os_):
            if o["failed"] or o["slow"]:
                hits[kid] = True
            else:
                problems.append(f"{r['instance']}: the listed finding {kid} does not reproduce {json.dumps(v['assignment'])[:300]}")
    fresh, listed = [], {}
    for r, v, o in confirmed:
        k = next((k for k in known if r["instance"] in k.get("instances", []) and v["label"] in k.get("labels", [])), None)
        if k is not None:
            listed.setdefault(k["id"], k)
        else:
            fresh.append((r, v, o))
    for k in known:
        if hits.get(k["id"]) is True:
            listed[k["id"]] = k
        if k["id"] in listed:
            print(f"KNOWN-FINDING: property={PID} {k['what']}")
    rc = 0
    nviol = 0
    seen = set()
    if fresh:
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for r, v, o in fresh:
            key = (r["instance"], v["label"])
            if key in seen:
                continue
            seen.add(key)
            nviol += 1
            safe = "".join(ch if ch.isalnum() or ch in "-_." else "_" for ch in f"{PID}-{r['instance']}-{v['label']}")[:150]
            path = os.path.join(rdir, safe + ".json")
            with open(path, "w") as f:
                json.dump({"property": PID, "instance": r["instance"], "label": v["label"], "assignment": v["assignment"],
                           "known": known_ids, "real": {k: o[k] for k in ("failed", "exception", "slow") if k in o}}, f, indent=1)
            if nviol <= 10:
                print(f"VIOLATION property={PID} replay={path}")
                print(f"  instance {r['instance']}, fails: {v['label']} {o.get('exception') or ''} "
                      f"{(o.get('message') or '')[:200]}")
        rc = 1
    if rc == 0 and problems:
        rc = 2
    for p in problems[:20]:
        print(f"ERROR property={PID} {p}" if rc == 2 else f"note: {p}")
    write_evidence(P, a, results, validated, nviol, listed, problems, t0)
    st = summary(results)
    print(f"{PID} {a.tier}: {len(results)} instances, {st['paths']} paths, {st['queries']} queries, "
          f"{st['discharged']} assertions discharged, {validated} witnesses validated, {time.time() - t0:.1f}s -> exit {rc}")
    return rc


def summary(results):
    s = {"paths": sum(r["paths"] for r in results)}
    for k in ("queries", "sat", "unsat", "checks", "discharged", "trivial", "decisions", "merges", "solver_s", "linear", "kissat", "clauses"):
        s[k] = sum(r["stats"].get(k, 0) for r in results)
    return s


def write_evidence(P, a, results, validated, nviol, listed, problems, t0):
    st = summary(results)
    funcs = sorted({f for r in results for f in r.get("funcs", [])})
    labels = {}
    for r in results:
        for l, n in r["labels"].items():
            labels[l] = labels.get(l, 0) + n
    samples = []
    for r in results:
        for w in r["witnesses"][:1]:
            samples.append({"instance": r["instance"], "input": w["assignment"], "observed": w["obs"]})
    cov = {
        "states": st["paths"], "transitions": st["decisions"],
        "traces_validated_against_impl": validated, "samples": samples[:12],
        "what_is_counted": "states: symbolic execution paths completed; transitions: solver-decided forks between them",
        "method": "symbolic execution of the komm sources (AST-instrumented from /repo on every run), assertions decided by "
                  "z3 for all input values within the bounds; counterexamples and path witnesses replayed on the "
                  "unmodified package",
        "instances": [{"name": r["instance"], "bounds": r["bounds"], "paths": r["paths"],
                       "queries": r["stats"].get("queries", 0), "assertions": r["stats"].get("checks", 0),
                       "discharged": r["stats"].get("discharged", 0), "solver_s": round(r["stats"].get("solver_s", 0), 3),
                       "seconds": round(r["seconds"], 2), "inputs_forked": r["concrete_inputs"],
                       "error": r["error"]} for r in results],
        "functions_encoded": funcs, "assertion_labels": labels,
        "queries": {"total": st["queries"], "sat": st["sat"], "unsat": st["unsat"], "kissat": st["kissat"], "gaussian_elimination": st["linear"],
                    "assertions": st["checks"], "discharged": st["discharged"],
                    "discharged_structurally": st["trivial"]},
        "solver_seconds": round(st["solver_s"], 3), "merged_branches": st["merges"], "cnf_clauses": st["clauses"],
        "stubs": P.stubs + ["tqdm and typeguard replaced by pass-through stubs",
                            "numpy operations on symbolic arrays replaced by element-wise models (symex/sarr.py)"],
        "assumes": P.assumes, "violations": nviol, "known_findings": sorted(listed), "problems": problems,
    }
    ev = {"property": PID, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
          "assumptions": P.assumes, "violations": nviol,
          "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(HERE, "evidence", PID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
