"""Runs the generated checks of one property (see DESIGN.md)."""
import argparse
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import shutil
import sys
import time
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
REPO = os.path.realpath(os.environ.get("RTV_REPO") or "/repo") + "/"

SOFT = {"quick": 300, "thorough": 760}
HARD = {"quick": 600, "thorough": 860}


def _through_repo(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "rt1/"):
            return True
        tb = tb.tb_next
    for e in (exc.__cause__, exc.__context__):
        if e is not None and e is not exc and _through_repo(e):
            return True
    return False


def _uninterpretable(exc):
    """an exception of the oracle that is caused by the shape / type / labels of what rt1 returned"""
    if isinstance(exc, AttributeError):
        return not str(getattr(exc, "name", None) or "_").startswith("_")
    return isinstance(exc, (ValueError, TypeError, LookupError, ArithmeticError, FileNotFoundError))


def _short(exc):
    return f"{type(exc).__name__}: {exc}"[:1500]


def quiet():
    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")


def run_case(sub, case):
    """-> (status, message, rec) with status in ok / violation / error / skip"""
    from .core import Rec, Skip, Violation

    rec = Rec()
    try:
        sub.fn(case, rec)
        return "ok", "", rec
    except Skip as e:
        return "skip", str(e), rec
    except Violation as e:
        return "violation", str(e)[:3000], rec
    except Exception as e:
        if _through_repo(e):
            tb = traceback.format_exc()
            return "violation", f"unexpected {_short(e)}\n{tb[-2500:]}", rec
        tb = traceback.format_exc()
        if _uninterpretable(e):
            return "violation", f"the result can not be interpreted: {_short(e)}\n{tb[-2500:]}", rec
        return "error", tb[-4000:], rec


def _worker(prop, subname, n, seed, soft_until, out):
    """run one shard; writes a result-json to `out`"""
    res = dict(sub=subname, evaluations=0, skipped=0, keys=[], samples=[], tags={},
               violation=None, error=None, excluded=0, complete=True, classes={})
    try:
        # stdout of the tested code is no concern of ours
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("RTV_DEBUG"):
            os.dup2(devnull, 2)
        quiet()
        import hypothesis
        import hypothesis.internal.conjecture.engine as eng
        from hypothesis import HealthCheck, Phase, given, settings

        eng.MAX_SHRINKING_SECONDS = 45
        mod = importlib.import_module(f"rtv.props.{prop.lower()}")
        sub = allsubs(mod)[subname]
        from .core import key

        keys, allkeys = set(), set()
        state = dict(fail=None, best=None, err=None, t_fail=None)

        class _Fail(Exception):
            pass

        def body(case):
            now = time.time()
            if state["err"] is not None:
                return
            if state["fail"] is None and now > soft_until:
                res["complete"] = False
                return
            if state["t_fail"] is not None and now > state["t_fail"] + 60:
                return
            if sub.excluded is not None and sub.excluded(case):
                res["excluded"] += 1
                return
            status, msg, rec = run_case(sub, case)
            if state["fail"] is None:
                res["evaluations"] += 1
                for t in rec.tags:
                    res["classes"][t] = res["classes"].get(t, 0) + 1
            if status == "skip":
                res["skipped"] += 1
                return
            if status == "error":
                state["err"] = dict(msg=msg, case=case)
                return
            if status == "violation":
                state["fail"] = dict(case=case, msg=msg)
                k = len(key(case))
                if state["best"] is None or k <= state["best"][0]:
                    state["best"] = (k, dict(case=case, msg=msg))
                if state["t_fail"] is None:
                    state["t_fail"] = now
                raise _Fail()
            if state["fail"] is None and sub.nontrivial(case, rec):
                h = hashlib.sha1(key(case).encode()).hexdigest()[:16]
                if h not in keys:
                    keys.add(h)
                    if len(res["samples"]) < 3 and len(key(case)) < 3000:
                        res["samples"].append(case)

        test = given(sub.strategy())(body)
        test = settings(max_examples=n, database=None, deadline=None,
                        report_multiple_bugs=False, print_blob=False,
                        suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.shrink))(test)
        test = hypothesis.seed(seed)(test)
        try:
            test()
        except BaseException:
            if state["best"] is None and state["err"] is None:
                state["err"] = dict(msg=traceback.format_exc()[-4000:], case=None)
        res["keys"] = sorted(keys)
        if state["best"] is not None:
            res["violation"] = state["best"][1]
        elif state["err"] is not None:
            res["error"] = state["err"]
    except BaseException:
        res["error"] = dict(msg=traceback.format_exc()[-4000:], case=None)
    with open(out, "w") as f:
        json.dump(res, f, default=str)


def allsubs(mod):
    return {s.name: s for s in list(mod.SUBS) + list(getattr(mod, "WITNESS", []))}


def _seed(base, *parts):
    h = hashlib.sha256("/".join([str(base), *map(str, parts)]).encode()).hexdigest()
    return int(h[:12], 16)


def _job_single(prop, subname, case, out):
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    quiet()
    mod = importlib.import_module(f"rtv.props.{prop.lower()}")
    sub = allsubs(mod)[subname]
    status, msg, _ = run_case(sub, case)
    with open(out, "w") as f:
        json.dump(dict(status=status, msg=msg), f)


def single(prop, subname, case, scratch, timeout=300):
    out = Path(scratch) / f"single_{time.time_ns()}.json"
    p = mp.get_context("fork").Process(target=_job_single, args=(prop, subname, case, out))
    p.start()
    p.join(timeout)
    if p.is_alive():
        p.kill()
        return "error", "timeout"
    if not out.exists():
        return "error", f"worker died (exitcode {p.exitcode})"
    d = json.loads(out.read_text())
    return d["status"], d["msg"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    scratch = os.environ.get("RTV_SCRATCH")
    own = scratch is None
    if own:
        import tempfile

        scratch = tempfile.mkdtemp(prefix="rtv.")
        os.environ["RTV_SCRATCH"] = scratch
    logging.disable(logging.CRITICAL)
    try:
        rc = _main(a, prop, seed, scratch, t0)
    finally:
        if own:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    return rc


def _main(a, prop, seed, scratch, t0):
    mod = importlib.import_module(f"rtv.props.{prop.lower()}")
    subs = mod.SUBS

    if a.replay:
        d = json.loads(Path(a.replay).read_text())
        status, msg = single(d["property"], d["sub"], d["case"], scratch)
        print(status)
        print(msg)
        if status == "violation":
            print(f"VIOLATION property={prop} replay={a.replay}")
            return 1
        return 0 if status in ("ok", "skip") else 2

    # ---- known findings (never written at run-time)
    kf = HERE / "known_findings.json"
    known = json.loads(kf.read_text())["findings"] if kf.exists() else []
    rc = 0
    for k in known:
        if k["property"] != prop or k["kind"] != "known":
            continue
        status, msg = single(prop, k["sub"], k["case"], scratch)
        if status == "violation":
            print(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
        elif status == "error":
            print(f"harness error while re-running known finding {k['id']}: {msg}")
            rc = 2
        else:
            print(f"note: known finding {k['id']} of {prop} does not fail (any more)")

    # ---- generated cases
    jobs = []
    for s in subs:
        if a.sub and s.name != a.sub:
            continue
        n = s.quick if a.tier == "quick" else s.thorough
        n = max(1, int(n * a.scale))
        sh = min(n, s.shards if a.tier == "quick" else s.tshards)
        for i in range(sh):
            jobs.append((s.name, -(-n // sh), _seed(seed, prop, s.name, i)))
    ctx = mp.get_context("fork")
    ncpu = int(os.environ.get("RTV_JOBS", 0)) or min(8, os.cpu_count() or 1)
    soft_until = t0 + SOFT[a.tier]
    hard_until = t0 + HARD[a.tier]
    pending, running, results = list(enumerate(jobs)), {}, []
    while pending or running:
        while pending and len(running) < ncpu:
            i, (name, n, sd) = pending.pop(0)
            out = Path(scratch) / f"res_{i}.json"
            p = ctx.Process(target=_worker, args=(prop, name, n, sd, soft_until, out))
            p.start()
            running[i] = (p, out, name)
        for i, (p, out, name) in list(running.items()):
            p.join(0.02)
            if p.is_alive():
                if time.time() > hard_until:
                    p.kill()
                    p.join()
                    results.append(dict(sub=name, error=dict(
                        msg="hard time limit", case=None), violation=None))
                    del running[i]
                continue
            del running[i]
            if out.exists():
                results.append(json.loads(out.read_text()))
            else:
                results.append(dict(sub=name, violation=None, error=dict(
                    msg=f"worker died, exit code {p.exitcode}", case=None)))
        time.sleep(0.01)

    viol = [r for r in results if r.get("violation")]
    errs = [r for r in results if r.get("error")]
    ev, keys, samples, classes, excl, skipped, per = 0, set(), [], {}, 0, 0, {}
    for r in sorted(results, key=lambda r: r["sub"]):
        if "keys" not in r:
            continue
        ev += r["evaluations"]
        keys.update(f"{r['sub']}:{k}" for k in r["keys"])
        excl += r["excluded"]
        skipped += r["skipped"]
        d = per.setdefault(r["sub"], dict(evaluations=0, nontrivial=0, complete=True))
        d["evaluations"] += r["evaluations"]
        d["nontrivial"] += len(r["keys"])
        d["complete"] &= r["complete"]
        for t, c in r["classes"].items():
            classes[f"{r['sub']}:{t}"] = classes.get(f"{r['sub']}:{t}", 0) + c
        if sum(s["sub"] == r["sub"] for s in samples) < 2:
            samples += [dict(sub=r["sub"], case=c) for c in r["samples"][:1]]
    if not a.no_evidence and not a.sub and not os.environ.get("RTV_NOEV"):
        evid = dict(
            property=prop, tier=a.tier, seed=seed, level="exploration",
            coverage=dict(evaluations=ev, distinct_nontrivial=len(keys),
                          rule=mod.RULE, samples=samples, per_subcheck=per,
                          classes=dict(sorted(classes.items())),
                          excluded_known=excl, outside_domain=skipped),
            assumptions=getattr(mod, "ASSUMPTIONS", []),
            wall_s=round(time.time() - t0, 2), violations=len(viol))
        (HERE / "evidence").mkdir(exist_ok=True)
        (HERE / "evidence" / f"{prop}.json").write_text(json.dumps(evid, indent=1))

    print(f"{prop} {a.tier} seed={seed}: evaluations={ev} nontrivial={len(keys)} "
          f"violations={len(viol)} errors={len(errs)} wall={time.time() - t0:.1f}s")
    for n, d in per.items():
        print(f"   {n}: {d}")
    if os.environ.get("RTV_CLASSES"):
        print("   classes: " + json.dumps(dict(sorted(classes.items()))))
    if viol:
        (HERE / "replays").mkdir(exist_ok=True)
        seen = set()
        for r in sorted(viol, key=lambda r: len(json.dumps(r["violation"]))):
            if r["sub"] in seen:
                continue
            seen.add(r["sub"])
            f = HERE / "replays" / f"{prop}_{r['sub']}_{seed}.json"
            f.write_text(json.dumps(dict(property=prop, sub=r["sub"], seed=seed,
                                         **r["violation"]), indent=1))
            print(f"--- {r['sub']}: {r['violation']['msg']}")
            print("    case: " + json.dumps(r["violation"]["case"])[:1500])
            print(f"VIOLATION property={prop} replay={f}")
        return 1
    if errs:
        for r in errs:
            print(f"HARNESS-ERROR in {r['sub']}: {r['error']['msg']}\n case: {r['error']['case']}")
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
