"""Run one check: python3-vt -m symex.run <ID> [--tier quick|thorough] [--task T]"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PLAIN = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"
OUT = os.path.join(VERIF, "out")


def worker(check, tname, case, cno, budget, tier, conn, nsamples):
    """Explore one harness instance (in its own process)."""
    try:
        sys.setrecursionlimit(6000)
        from symex import core, symctx, api
        api.Ctx.tier = tier
        E = core.E
        t = next(t for t in api.TASKS if t["name"] == tname)
        E.reset_all()
        sx = symctx.SymCtx()
        samples = []
        total = [0]
        import random
        rnd = random.Random(int(os.environ.get("VERIF_SEED", "1")) * 7919 + cno)

        def on_path(outcome):
            if outcome != "ok":
                return
            total[0] += 1
            k = total[0]
            if k <= nsamples:
                slot = k - 1
            else:
                slot = rnd.randrange(k)
                if slot >= nsamples:
                    return
            try:
                inp = E.concrete_inputs()
                obs = symctx.obs_json()
            except core.Steer:
                return
            except Exception as e:
                obs = [["engine", repr(e)]]
            rec = dict(inputs=inp, obs=obs, checks=E.path_checks,
                       incomplete=E.path_incomplete)
            if slot < len(samples):
                samples[slot] = rec
            else:
                samples.append(rec)
        t0 = time.monotonic()
        complete = E.explore(lambda: t["fn"](sx, **case), budget_s=budget,
                             on_path=on_path)
        conn.send(dict(ok=True, task=tname, case=case, complete=complete,
                       stats=E.stats, reached=E.reached, funcs=sorted(E.funcs),
                       violations=E.violations, samples=samples,
                       reasons=E.incomplete_reasons,
                       wall=time.monotonic() - t0))
    except BaseException:
        conn.send(dict(ok=False, task=tname, case=case,
                       error=traceback.format_exc()[-3000:]))
    conn.close()


def replay(items, timeout=300):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, f"batch-{os.getpid()}.json")
    with open(path, "w") as f:
        json.dump(items, f)
    env = dict(os.environ, PYTHONHASHSEED="0", VERIF_REPO=REPO)
    try:
        r = subprocess.run([PLAIN, os.path.join(VERIF, "symex", "replay.py"), path],
                           capture_output=True, text=True, timeout=timeout, env=env,
                           cwd=VERIF)
        lines = [json.loads(x) for x in r.stdout.splitlines() if x.startswith("{")]
        err = r.stderr
    except subprocess.TimeoutExpired as e:
        so = e.stdout.decode() if e.stdout else ""
        lines = [json.loads(x) for x in so.splitlines() if x.startswith("{")]
        err = "timeout"
    finally:
        if os.path.exists(path):
            os.remove(path)
    while len(lines) < len(items):
        lines.append({"status": "error", "label": err[-1500:], "obs": []})
    return lines


def load(check):
    sys.path.insert(0, VERIF)
    sys.path.append(SITE)
    from symex import rewrite, api
    rewrite.install({"yangson": os.path.join(REPO, "yangson"),
                     "harness": os.path.join(VERIF, "harness")})
    importlib.import_module("harness." + check)
    return api.TASKS


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--task")
    ap.add_argument("--case", type=int)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable, "-m", "symex.run"] + sys.argv[1:])
    sys.dont_write_bytecode = True
    t0 = time.monotonic()
    tier = a.tier
    os.environ["VERIF_TIER"] = tier
    total = a.budget or (600 if tier == "quick" else 3 * 3600)
    try:
        tasks = load(a.check)
    except Exception:
        # the models of the harness cannot be set up: decide with the plain code
        tb = traceback.format_exc()
        print(tb[-1500:], file=sys.stderr)
        it = dict(check=a.check, task="<load>", case={}, inputs={}, tier=tier)
        res = replay([it])[0]
        if res["status"] == "violated":
            finish(a, tier, [], t0, [(it, "harness models can be set up", res)])
        print("ERROR: harness or code under test failed to load", res)
        sys.exit(3)
    jobs = []
    for t in tasks:
        if t["tonly"] and tier != "thorough":
            continue
        if a.task and t["name"] != a.task:
            continue
        cs = t["tcases"] if tier == "thorough" and t["tcases"] else t["cases"]
        for i, c in enumerate(cs):
            if a.case is None or a.case == i:
                jobs.append((t, c, i))
    if os.environ.get("SX_ONLY"):       # development: a selection of instances
        with open(os.environ["SX_ONLY"]) as f:
            sel = [tuple(x) for x in json.load(f)]
        jobs = sorted((j for j in jobs if (j[0]["name"], j[2]) in sel),
                      key=lambda j: sel.index((j[0]["name"], j[2])))
    results = explore_all(a.check, jobs, tier, total, a.jobs, a.v)
    if os.environ.get("SX_FUNCMAP"):    # development: who executes what
        with open(os.environ["SX_FUNCMAP"], "w") as f:
            json.dump([[r["task"], r["idx"], r.get("wall", 0), r["funcs"]]
                       for r in results if r["ok"]], f)
    finish(a, tier, results, t0)


def explore_all(check, jobs, tier, total, njobs, verbose):
    results = []
    running = []
    pending = list(jobs)
    deadline = time.monotonic() + total
    while pending or running:
        while pending and len(running) < njobs:
            t, c, i = pending.pop(0)
            left = deadline - time.monotonic()
            b = max(5.0, min(left, t["budget"] or total))
            pr, pw = mp.Pipe(False)
            ctx = mp.get_context("fork")
            p = ctx.Process(target=worker, args=(
                check, t["name"], c, i, b, tier, pw, 6 if tier == "quick" else 20))
            p.start()
            pw.close()
            running.append((p, pr, t["name"], c, time.monotonic() + b + 60, i))
        time.sleep(0.01)
        for r in list(running):
            p, pr, tn, c, dl, idx = r
            res = None
            dead = not p.is_alive()     # before looking for its last message
            if pr.poll():
                try:
                    res = pr.recv()
                except EOFError:
                    res = dict(ok=False, task=tn, case=c, error="worker died")
                p.join()
            elif dead:
                res = dict(ok=False, task=tn, case=c,
                           error=f"worker exited {p.exitcode}")
            elif time.monotonic() > dl:
                p.kill()
                res = dict(ok=False, task=tn, case=c, error="timeout")
            if res is not None:
                running.remove(r)
                res["idx"] = idx
                results.append(res)
                if res.get("violations") and os.environ.get("SX_FIRST"):
                    pending.clear()     # development: one counterexample is enough
                    for o in running:
                        o[0].kill()
                    running.clear()
                    break
                if verbose:
                    show(res)
    return results


def show(r):
    if not r["ok"]:
        print("!!", r["task"], r["case"], r["error"])
        return
    s = r["stats"]
    print(f"-- {r['task']} {r['case']}: paths={s['paths']} forks={s['forks']} "
          f"queries={s['queries']} solver={s['solver_s']:.1f}s checks={s['checks']} "
          f"wall={r['wall']:.1f}s complete={r['complete']} {r['reasons'] or ''}")
    for v in r["violations"][:1]:
        print("   VIOL?", v["label"], v["inputs"], v.get("trace", "")[-900:])
    sys.stdout.flush()


def finish(a, tier, results, t0, viol=()):
    check = a.check
    known = load_known(check)
    viol, errors, notes = list(viol), [], []
    for r in results:
        if not r["ok"]:
            if r["error"] == "timeout":
                notes.append(f"time limit: {r['task']} {r['case']}")
            else:
                errors.append(f"{r['task']} {r['case']}: {r['error']}")
    # replay counterexamples
    items, meta = [], []
    for r in results:
        if r["ok"]:
            for v in r["violations"]:
                items.append(dict(check=check, task=r["task"], case=r["case"],
                                  inputs=v["inputs"], tier=tier))
                meta.append((r, v))
    nsp = 0
    spurious = []
    if items:
        for it, (r, v), res in zip(items, meta, replay(items)):
            if res["status"] == "violated":
                viol.append((it, v["label"], res))
            elif res["status"] == "stale":
                errors.append(f"harness does not fit the code: {res['label']}")
            elif v.get("incomplete"):
                notes.append(f"unconfirmed on an incomplete path: {r['task']} "
                             f"{v['label']}")
            else:
                nsp += 1
                spurious.append((r, v, res))
    # validate sampled paths against the implementation
    items, meta = [], []
    for r in results:
        if r["ok"]:
            for s in r["samples"]:
                items.append(dict(check=check, task=r["task"], case=r["case"],
                                  inputs=s["inputs"], tier=tier))
                meta.append((r, s))
    validated = 0
    mism = []
    if items:
        for it, (r, s), res in zip(items, meta, replay(items)):
            if res["status"] == "violated":
                viol.append((it, res["label"], res))
            elif res["status"] == "pass" and res["obs"] == s["obs"]:
                validated += 1
            elif s["incomplete"]:
                notes.append("sample of an incomplete path differs")
            else:
                mism.append((r["task"], it["inputs"], s["obs"], res))
    # vacuity: every harness must reach an assertion
    for r in results:
        if r["ok"] and not r["violations"] and r["complete"] \
                and not sum(r["reached"].values()):
            errors.append(f"vacuous: {r['task']} {r['case']} reached no assertion")
    ok = [r for r in results if r["ok"]]
    tot = {}
    for r in ok:
        for k, x in r["stats"].items():
            tot[k] = tot.get(k, 0) + x
    funcs = sorted({f for r in ok for f in r["funcs"] if f.startswith("yangson")})
    labels = {}
    for r in ok:
        for k, x in r["reached"].items():
            k = re.sub(r"\d+", "N", k)[:80]
            if k not in labels and len(labels) >= 100:
                k = "other labels"
            labels[k] = labels.get(k, 0) + x
    incomplete = {}
    for r in ok:
        for k, x in r["reasons"].items():
            incomplete[f"{r['task']}: {k}"] = incomplete.get(
                f"{r['task']}: {k}", 0) + x
    real, kf = [], {}
    for it, lab, res in viol:
        k = next((k for k in known if k_match(k, it, lab, res)), None)
        if k is None:
            real.append((it, lab, res))
        else:
            kf[k["what"]] = kf.get(k["what"], 0) + 1
    wall = time.monotonic() - t0
    sam = []
    for r in ok[:: max(1, len(ok) // 5)]:
        for s in r["samples"][:1]:
            sam.append(dict(task=r["task"], case=str(r["case"]), inputs=s["inputs"],
                            observed=s["obs"][:6]))
    mod = sys.modules.get("harness." + check)
    cov = dict(
        states=tot.get("paths", 0), transitions=tot.get("forks", 0),
        traces_validated_against_impl=validated, samples=sam[:6],
        exhaustive=not (incomplete or errors or real or spurious or mism
                        or any(not r["complete"] for r in ok) or notes),
        method="symbolic execution of the instrumented sources; states = completed "
               "symbolic paths, transitions = branch decisions where Z3 found both "
               "outcomes feasible, traces = paths whose model was re-run on the "
               "plain implementation with equal observations",
        bounds=getattr(mod, "BOUNDS", ""),
        harness_instances=len(results), functions_encoded=funcs,
        functions_encoded_count=len(funcs),
        queries=tot.get("queries", 0), solver_seconds=round(tot.get("solver_s", 0), 2),
        assertions_decided=tot.get("checks", 0),
        assertions_discharged=tot.get("discharged", 0),
        assertion_labels=labels, solver_unknown=tot.get("unknown", 0),
        incomplete_paths=tot.get("incomplete", 0), incomplete_reasons=incomplete,
        unconfirmed=len(spurious), encoding_mismatches=len(mism),
        concretised_values=tot.get("concretised", 0), notes=sorted(set(notes))[:20])
    ev = dict(property=check, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")),
              level="model_checking", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + [
                  "the run-time models of Python built-ins in symex/ agree with "
                  "CPython (sampled paths are re-run on plain CPython each time)"],
              wall_s=round(wall, 2), violations=len(real))
    if not a.task and not os.environ.get("SX_ONLY") \
            and not check.startswith("SELF"):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for what in sorted(kf):
        print(f"KNOWN-FINDING: property={check} {what}")
    print(f"{check} [{tier}] instances={len(results)} paths={cov['states']} "
          f"queries={cov['queries']} solver={cov['solver_seconds']}s "
          f"assertions={cov['assertions_decided']} validated={validated} "
          f"functions={len(funcs)} wall={wall:.1f}s")
    if incomplete:
        print("INCOMPLETE:", json.dumps(incomplete))
    for n in sorted(set(notes))[:10]:
        print("NOTE:", n)
    if real:
        d = os.path.join(OUT, "replay")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for i, (it, lab, res) in enumerate(real):
            key = (it["task"], lab)
            if key in seen and i > 3:
                continue
            seen.add(key)
            p = os.path.join(d, f"{check}-{i}.json")
            with open(p, "w") as f:
                json.dump(it, f, indent=1)
            print(f"  counterexample: task={it['task']} case={it['case']} "
                  f"inputs={json.dumps(it['inputs'])} failed={lab!r} "
                  f"(replayed: {res['label']})")
            print(f"VIOLATION property={check} replay={p}")
            if len(seen) >= 5:
                break
        sys.exit(1)
    # A counterexample that the real code does not confirm is a defect of the
    # encoding, not of the code: the path counts as not covered.
    rc = 0
    strict = 2 if os.environ.get("SX_STRICT") else 0
    for r, v, res in spurious[:4]:
        print(f"UNCONFIRMED (not a violation, path not covered): {r['task']} "
              f"{r['case']} {v['label']} {v['inputs']} -> {res['status']} "
              f"{v.get('trace', '')[-700:]}")
        rc = strict
    for m in mism[:3]:
        print("ENCODING MISMATCH:", m[0], json.dumps(m[1]), json.dumps(m[2]),
              json.dumps(m[3])[:700])
        rc = strict
    for e in errors[:6]:
        print("ERROR:", e[-1500:])
        rc = rc or 3
    sys.exit(rc)


def load_known(check):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == check]


def k_match(k, it, lab, res):
    """A known finding names the harness, the failed assertion and the inputs."""
    if k["task"] != it["task"] or k["label"] not in (lab, res.get("label")):
        return False
    for n, v in k.get("inputs", {}).items():
        if it["inputs"].get(n) != v:
            return False
    for n, v in k.get("case", {}).items():
        if it["case"].get(n) != v:
            return False
    return True


if __name__ == "__main__":
    main()
