"""P19: batch processing handles every task exactly once"""
import contextlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import threading
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from .. import vproc
from ..core import Sub, need
from . import p17
from .p22 import REST

try:
    from rt1.processing_config import rt1_processing_config
except ImportError:
    rt1_processing_config = object

RULE = ("runs: a history of processing-runs (task-lists, failing tasks, numbers of workers, options, failing writes) on one result-folder; "
        "non-trivial: a failing task next to successful ones, or a run that resumes stored results. starmap: generated task-lists for "
        "the worker / combiner / writer pipeline; non-trivial: at least two tasks and two chunks.")
ASSUMPTIONS = ["worker-, combiner- and writer-processes are virtual (threads working on pickled copies) except for sub-check 'real', see DESIGN.md",
               "the names of the tasks of one run are unique", "an injected write-failure occurs before data is written"]

CUR = {}


class FileList:
    """a list of numbers that is shared by (real) processes"""

    def __init__(self, path):
        self.path = path

    def append(self, x):
        with open(self.path, "ab", 0) as fh:
            fh.write(f"{json.dumps(x)}\n".encode())

    def __iter__(self):
        if not os.path.exists(self.path):
            return iter(())
        out = [json.loads(x) for x in Path(self.path).read_text().splitlines()]
        return iter([tuple(x) if isinstance(x, list) else x for x in out])

    def clear(self):
        Path(self.path).write_text("")


def current():
    """the current case (real worker-processes read it from a file)"""
    if not CUR and "RTV_P19" in os.environ:
        d = Path(os.environ["RTV_P19"])
        cc = json.loads((d / "case.json").read_text())
        CUR.update(case=cc, run=cc["runs"][int((d / "run").read_text())], lock=threading.Lock(), real=d,
                   **{x: FileList(d / x) for x in ("read", "caught", "init")})
    return CUR


FAIL = ["raise", "rt1_skip", "rt1_data_error", "empty", "none", "type", "column", "exists", "badname"]


@st.composite
def case(draw):
    multi = draw(st.booleans())
    n = draw(st.integers(1, 5))
    kw = dict(nmax=3, maxrep=2, maxpar=2, maxn=1, auxstart=True, shuffle=False, interp=False)
    defs = [draw(f.definition(**kw, int_Q=draw(st.integers(0, 5)) == 0)) for _ in range(draw(st.integers(1, 2)) if multi else 1)]
    for c in defs:
        for nm, d in c["params"]:
            if d["fit"]:
                d["lo"], d["hi"] = 0.01, 0.9
    ids = draw(st.lists(st.sampled_from(p17.IDS), min_size=n, max_size=n, unique_by=lambda s: p17.name_of(s)))
    fits = [dict(ID=ids[k], drop=draw(st.integers(0, 2)), scale=draw(st.sampled_from([1, 1.25, 0.5])), aux=draw(st.booleans()),
                 ret=draw(st.sampled_from(["tuple", "tuple", "list", "one", "more"]))) for k in range(n)]
    runs = []
    for r in range(draw(st.integers(1, 3))):
        tasks = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
        if draw(st.booleans()):
            tasks = draw(st.permutations(list(range(n))))
        fail = {str(k): draw(st.sampled_from(FAIL)) for k in tasks if draw(st.integers(0, 3)) == 0}
        runs.append(dict(tasks=list(tasks), fail=fail, ncpu=draw(st.integers(1, 3)), log=draw(st.sampled_from([21, 21, None])),
                         index=draw(st.booleans()), dump=draw(st.booleans()), pre=draw(st.sampled_from(["arg", "pre", "prenone"])),
                         init=draw(st.booleans()), new=draw(st.booleans()), wfail=draw(st.integers(0, 7)) == 0,
                         intr=draw(st.sampled_from([None] * 12 + [0, 1, 2, 3])), seed=draw(st.integers(0, 99))))
    return dict(multi=multi, defs=defs, fits=fits, runs=runs, ismulti_names=draw(st.permutations(["c1", "B", "z_0"])),
                nfev=draw(st.integers(1, 3)), names=draw(st.sampled_from(["default", "default", "custom"])),
                rarg=draw(st.booleans()), module=draw(st.booleans()), exc=draw(st.sampled_from(["default", "default", "none", "own"])),
                folder=draw(st.sampled_from(["cfg", "cfg", "init", "override"])))


def task_name(cc, k):
    ID = cc["fits"][k]["ID"]
    return f"site_{ID}_x" if cc["names"] == "custom" else ID


def reader_arg(cc, k):
    a = dict(ID=cc["fits"][k]["ID"], k=k)
    if cc["rarg"]:
        a.update(path=f"/data/p_{k}.nc", lat=47.5 + k)
    return a


def aux_of(k):
    idx = pd.date_range("2019-01-01", periods=2 + k % 2, freq="D")
    return pd.DataFrame(dict(rain=np.arange(len(idx)) + k / 10, T=np.where(np.arange(len(idx)) == k % 4, np.nan, 20.5 - np.arange(len(idx)))), index=idx)


class Proc(rt1_processing_config):
    """the processing-class (readers of virtual processes have access to the current case)"""

    def preprocess(self, **kw):
        current()["pre"].append(dict(kw))
        r = current()["run"]
        if r["pre"] == "pre":
            out = dict(reader_args=current()["args"]())
            if r["init"]:
                out["pool_kwargs"] = current()["pool"]
            return out
        return dict() if r["pre"] == "arg" else None

    def finalizer(self):
        current()["final"] = len(list(current()["read"]))

    def get_names_ids(self, arg):
        if current()["case"]["names"] == "custom":
            nm = f"site_{arg['ID']}_x"
            return dict(feature_id=nm, filename=f"f_{nm}.dump")
        return super().get_names_ids(arg)

    def reader(self, arg):
        cc, r = current()["case"], current()["run"]
        k = arg["k"]
        with current()["lock"]:
            current()["read"].append(k)
        kind = r["fail"].get(str(k))
        q = cc["fits"][k]
        df = f.make_dataset(p17.definitions(cc, k)[0])
        if kind == "raise":
            raise ValueError("no data")
        if kind in ("rt1_skip", "rt1_data_error"):
            raise Exception(kind)
        if kind == "exists":
            raise Exception("rt1_file_already_exists")
        if kind == "empty":
            return df.iloc[:0]
        if kind == "none":
            return None
        if kind == "type":
            return dict(a=1)
        if kind == "column":
            return df.drop(columns="sig")
        if kind == "badname":
            return df.rename(columns=dict(inc="Inc")), aux_of(k + 3)
        if q["ret"] == "one":
            return [df]
        if q["ret"] == "more":
            # (values that are no DataFrames are only available in dump-files)
            return df, aux_of(k), f"extra {k}"
        if not q["aux"]:
            return df
        return [df, aux_of(k)] if q["ret"] == "list" else (df, aux_of(k))


class ProcNone(Proc):
    exceptfunc = None


class ProcOwn(Proc):
    def exceptfunc(self, ex, arg):
        with current()["lock"]:
            current()["caught"].append(arg["k"])


CLS = dict(default=Proc, none=ProcNone, own=ProcOwn)


def initializer(a, b):
    with current()["lock"]:
        current()["init"].append((a, b))


def parent(cc):
    from rt1.rtfits import MultiFits

    cs = p17.definitions(cc, 0)
    kw = dict(lsq_kwargs=dict(max_nfev=cc["nfev"], ftol=1e-4), dataset=None)
    fits = [f.make_fit(c, **kw) for c in cs]
    if not cc["multi"]:
        return fits[0]
    mf = MultiFits()
    for nm, fit in zip(cc["ismulti_names"], fits):
        mf.add_config(nm, fit)
    return mf


def references(cc, k):
    out = []
    for c in p17.definitions(cc, k):
        fit = f.make_fit(c, lsq_kwargs=dict(max_nfev=cc["nfev"], ftol=1e-4))
        fit.performfit()
        out.append(({a: np.array(v, float) for a, v in fit.res_dict.items()}, fit))
    return out


class FailOpen:
    """the first attempt to open a result-file for writing fails"""

    def __init__(self, armed):
        self.armed, self.hit = armed, False

    def __enter__(self):
        self.old = old = pd.HDFStore.open
        me = self

        def _open(s, mode="a", **kw):
            if me.armed and mode in ("a", "w", "r+") and str(s._path).endswith("fit_db.h5"):
                me.armed, me.hit = False, True
                raise OSError("the file is locked")
            return old(s, mode, **kw)

        pd.HDFStore.open = _open
        return self

    def __exit__(self, *a):
        pd.HDFStore.open = self.old


def compare(cc, obj, k, what, hdf=True):
    from rt1.rtfits import Fits, MultiFits

    nm = p17.name_of(task_name(cc, k))
    need(isinstance(obj, MultiFits if cc["multi"] else Fits), lambda: f"{what}: {type(obj)}")
    need(str(obj.ID) == nm, lambda: f"{what}: ID {obj.ID!r} instead of {nm!r}")
    parts = [getattr(obj.configs, n) for n in cc["ismulti_names"][:len(cc["defs"])]] if cc["multi"] else [obj]
    arg = reader_arg(cc, k)
    for a, v in arg.items():
        # (custom names replace the stored ID)
        if a == "ID" and cc["names"] == "custom" and hdf:
            continue
        need(obj.reader_arg.get(a) == v, lambda: f"{what}: reader_arg {obj.reader_arg} instead of {arg}")
    q = cc["fits"][k]
    want = aux_of(k) if q["aux"] and q["ret"] in ("tuple", "list") else None
    got = getattr(obj, "aux_data", None)
    if q["ret"] == "more" and not hdf:
        need(isinstance(got, (list, tuple)) and len(got) == 2 and got[1] == f"extra {k}", lambda: f"{what}: aux_data {got}")
        want, got = aux_of(k), got[0]
    need((want is None) == (got is None), lambda: f"{what}: aux_data is {got} instead of {want}")
    if want is not None:
        need(list(got.columns) == list(want.columns) and list(got.index) == list(want.index) and np.array_equal(got.values, want.values, equal_nan=True),
             lambda: f"{what}: aux_data\n{got}\ninstead of\n{want}")
    for fit, (res, ref) in zip(parts, CUR["ref"][k]):
        need(list(fit.dataset.columns) == list(ref.dataset.columns) and list(fit.dataset.index) == list(ref.dataset.index)
             and np.array_equal(fit.dataset.values.astype(float), ref.dataset.values.astype(float)),
             lambda: f"{what}: dataset\n{fit.dataset}\ninstead of\n{ref.dataset}")
        need(set(fit.res_dict) == set(res) and all(len(fit.res_dict[a]) == len(v) and np.allclose(
            np.asarray(fit.res_dict[a], float), v, rtol=1e-7, atol=1e-10) for a, v in res.items()),
            lambda: f"{what}: results {fit.res_dict} instead of {res}")


def run(cc, rec, real=None):
    from rt1.rtresults import HDFaccessor
    from rt1.rtfits import load
    from rt1.rtprocess import RTprocess

    n = len(cc["fits"])
    for c in cc["defs"]:
        f.describe(c, rec)
    rec.tag("multi" if cc["multi"] else "single", f"runs-{len(cc['runs'])}", "exc-" + cc["exc"], "names-" + cc["names"], "folder-" + cc["folder"])
    CUR.clear()
    CUR.update(case=cc, lock=threading.Lock(), ref={k: references(cc, k) for k in range(n)}, pool={}, init=[], real=real)
    if real is not None:
        (real / "case.json").write_text(json.dumps(cc))
        CUR.update(init=FileList(real / "init"))
    path = list(sys.path)
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        T = Path(tmp) / "out" / "store"
        ini, mod = Path(tmp) / "conf.ini", Path(tmp) / "procmod.py"
        mod.write_text(f"from rtv.props.p19 import {CLS[cc['exc']].__name__} as processing_cfg\n")
        ini.write_text(REST + f"[CONFIGFILES]\nmodule__processing_cfg = {mod}\n[PROCESS_SPECS]\npath__save_path = {T.parent}\n"
                       f"dumpfolder = {'store' if cc['folder'] == 'cfg' else 'other'}\nfinalout_name = out.h5\n")
        stored, dumped, proc = set(), set(), None
        try:
            for i, r in enumerate(cc["runs"]):
                if proc is None or r["new"]:
                    kw = {} if cc["module"] else dict(proc_cls=CLS[cc["exc"]](save_path=T.parent, dumpfolder=T.name, finalout_name="o.h5"))
                    if cc["folder"] == "init":
                        kw["init_kwargs"] = dict(PROCESS_SPECS=dict(dumpfolder="store"))
                    proc = RTprocess(str(ini), autocontinue=True, parent_fit=parent(cc), **kw)
                    if cc["folder"] == "override":
                        proc.override_config(PROCESS_SPECS=dict(dumpfolder="store"))
                        proc.override_config(override=False, PROCESS_SPECS=dict(finalout_name="zz.h5"))
                        proc.override_config(override=False, RT1_V=dict(tau="0.2"))
                stored = one(cc, i, r, proc, T, stored, dumped, rec)
            db = T / "results" / "fit_db.h5"
            if stored:
                with HDFaccessor(db) as h:
                    for k in sorted(stored):
                        compare(cc, h.load_fit(p17.name_of(task_name(cc, k))), k, f"stored task {k}")
            for k in sorted(dumped):
                nm = task_name(cc, k)
                p = T / "dumps" / (f"f_{nm}.dump" if cc["names"] == "custom" else f"{nm}.dump")
                need(p.exists(), lambda: f"no dump-file for task {k}")
                compare(cc, load(p), k, f"dumped task {k}", False)
            have = {p.name for p in (T / "dumps").iterdir()}
            need(len(have) == len(dumped), lambda: f"dump-files {sorted(have)} for tasks {sorted(dumped)}")
        finally:
            sys.path[:] = path


def one(cc, i, r, proc, T, stored, dumped, rec):
    """execute one processing-run and compare the stored tasks"""
    from rt1.rtresults import HDFaccessor

    what = f"run {i}"
    args = lambda: [reader_arg(cc, k) for k in r["tasks"]]
    CUR.update(run=r, read=[], pre=[], caught=[], args=args, final=None)
    given = args() if r["pre"] != "pre" else None
    pool = CUR["pool"]
    kw = {}
    if r["init"]:
        # (the same dict is used for all runs)
        if not pool:
            pool.update(initializer=initializer, initargs=(3, "b"))
        if r["pre"] != "pre":
            kw["pool_kwargs"] = pool
    CUR["init"].clear()
    if CUR["real"] is not None:
        CUR.update(read=FileList(CUR["real"] / "read"), caught=FileList(CUR["real"] / "caught"))
        CUR["read"].clear(), CUR["caught"].clear()
        (CUR["real"] / "run").write_text(str(i))
    # (SIGTERM is received after some of the tasks)
    intr = contextlib.suppress(SystemExit) if r.get("intr") is not None else contextlib.nullcontext()
    hand = [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM)]
    with (contextlib.nullcontext() if CUR["real"] else vproc.virtual(r["seed"], 0.1, r.get("intr"))) as vr, FailOpen(r["wfail"]) as fo:
        with intr:
            proc.run_processing(ncpu=r["ncpu"], print_progress=False, reader_args=given, preprocess_kwargs=dict(q=i),
                                logfile_level=r["log"], dump_fit=r["dump"], create_index=r["index"] and not r["wfail"], **kw)
        need([signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM)] == hand, lambda: f"{what}: the signal-handlers of the main process are changed")
    for p in vr.procs if vr else ():
        need(not p.is_alive(), lambda: f"{what}: {p.name} is still running")
        need(p.exc is None, lambda: f"{what}: {p.name} failed with {p.exc!r}")
    if vr and vr.interrupted:
        rec.tag("interrupted")
        fo.hit = True
    need(CUR.get("final") == len(list(CUR["read"])), lambda: f"{what}: the finalizer is not called after the last task")
    need(CUR["pre"] == [dict(q=i)], lambda: f"{what}: preprocess is called with {CUR['pre']}")
    need(given is None or given == args(), lambda: f"{what}: the list of tasks has been changed: {given}")
    todo = [k for k in r["tasks"] if k not in stored]
    if fo.hit:
        # (the remaining tasks are not processed)
        need(set(CUR["read"]) <= set(todo) and len(set(CUR["read"])) == len(list(CUR["read"])),
             lambda: f"{what}: tasks {CUR['read']} have been processed")
        todo = [k for k in todo if k in CUR["read"]]
    need(sorted(CUR["read"]) == sorted(todo), lambda: f"{what}: tasks {sorted(CUR['read'])} have been processed instead of {sorted(todo)} "
         f"(stored: {sorted(stored)})")
    if r["init"] and todo:
        need(list(CUR["init"]) == [(3, "b")] * r["ncpu"], lambda: f"{what}: the initializer is called with {CUR['init']}")
    good = [k for k in todo if str(k) not in r["fail"]]
    bad = [k for k in todo if str(k) in r["fail"]]
    if cc["exc"] == "own":
        need(sorted(CUR["caught"]) == sorted(bad), lambda: f"{what}: the exceptions of tasks {CUR['caught']} have been caught instead of {bad}")
    if cc["exc"] == "default":
        # the already existing dump-file is used
        good += [k for k in bad if r["fail"][str(k)] == "exists" and k in dumped]
    if r["dump"]:
        dumped |= {k for k in good if str(k) not in r["fail"]}
    if good and bad:
        rec.tag("isolated", "nontrivial")
    if stored and todo:
        rec.tag("resumed", "nontrivial")
    db = T / "results" / "fit_db.h5"
    want = stored | set(good)
    if fo.hit:
        rec.tag("write-failure")
    if not db.exists():
        need(not want or (fo.hit and not stored), lambda: f"{what}: no results are stored")
        return set()
    by = {p17.name_of(task_name(cc, k)): k for k in range(len(cc["fits"]))}
    with HDFaccessor(db) as h:
        need(h.IDs is not None or not want or (fo.hit and not stored), lambda: f"{what}: no IDs")
        if h.IDs is None:
            return set()
        ids = [str(x) for x in h.IDs.ID]
        need(h.IDs.index.is_unique, lambda: f"{what}: numbers {list(h.IDs.index)}")
    need(all(x in by for x in ids), lambda: f"{what}: unexpected names {ids} instead of {sorted(by)}")
    got = [by[x] for x in ids]
    need(len(set(got)) == len(got), lambda: f"{what}: tasks are stored repeatedly: {sorted(ids)}")
    if fo.hit:
        need(stored <= set(got) <= want, lambda: f"{what}: stored tasks {got} after a write-failure (before: {stored}, expected: {want})")
    else:
        need(set(got) == want, lambda: f"{what}: stored tasks {sorted(got)} instead of {sorted(want)} (failing: {bad})")
    return set(got)



# ---------------------------------------------------------------- real processes
@st.composite
def real_case(draw):
    cc = draw(case())
    cc["runs"] = cc["runs"][:2]
    for r in cc["runs"]:
        r["wfail"], r["intr"] = False, None
    return cc


def run_real(cc, rec):
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        (Path(tmp) / "in.json").write_text(json.dumps(cc))
        env = {**os.environ, "RTV_P19": tmp, "RTV_SCRATCH": tmp, "PYTHONPATH": os.pathsep.join([p for p in sys.path if p])}
        with open(Path(tmp) / "out", "w") as out:
            p = subprocess.Popen([sys.executable, "-B", "-W", "ignore", "-m", "rtv.props.p19"], env=env, stdout=out, stderr=out,
                                 start_new_session=True, cwd=tmp)
            try:
                p.wait(300)
            except subprocess.TimeoutExpired:
                need(False, "the processing does not terminate (300 s)")
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        res = Path(tmp) / "result.json"
        need(res.exists(), lambda: "processing failed: " + (Path(tmp) / "out").read_text()[-1500:])
        d = json.loads(res.read_text())
        rec.tag(*d["tags"])
        need(d["msg"] is None, lambda: d["msg"])


def main():
    import logging

    from ..core import Rec, Skip, Violation

    logging.disable(logging.CRITICAL)
    d, rec, msg = Path(os.environ["RTV_P19"]), Rec(), None
    try:
        run(json.loads((d / "in.json").read_text()), rec, d)
    except Skip:
        pass
    except Violation as e:
        msg = str(e)
    (d / "result.json").write_text(json.dumps(dict(msg=msg, tags=sorted(rec.tags))))


# ------------------------------------------------------------------- pipeline
@st.composite
def star_case(draw):
    n = draw(st.integers(1, 12))
    tasks = [dict(ID=f"t{k}" if draw(st.booleans()) else f"/data/x.y/t{k}.nc", k=k, rows=draw(st.integers(1, 3))) for k in range(n)]
    sess = []
    for _ in range(draw(st.integers(1, 3))):
        t = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))
        sess.append(dict(tasks=t, fail={str(k): draw(st.sampled_from(["raise", "none", "rnone", "rraise"])) for k in t if draw(st.integers(0, 4)) == 0},
                         n_worker=draw(st.integers(1, 4)), n_combiner=draw(st.integers(1, 3)), n_writer=draw(st.integers(1, 2)),
                         chunk=draw(st.sampled_from([1, 2, 3, 1000])), cache=draw(st.sampled_from([1, 1, 2, 10])),
                         reader=draw(st.booleans()), star=draw(st.booleans()), index=draw(st.sampled_from([None, "all", ["date"]])),
                         seed=draw(st.integers(0, 99))))
    return dict(tasks=tasks, sess=sess)


def star_frames(k, num, rows, extra):
    i = pd.date_range("2020-01-01", periods=rows, freq="D", name="date")
    x = pd.concat([pd.DataFrame(dict(a=np.arange(rows) + 100.0 * k, b=k + 0.5), i)], keys=[num], names=["ID"])
    s = pd.DataFrame(dict(v=[k * 1.5], e=[float(extra)]), index=pd.Index([num], name="ID"))
    return x, s


def star_reader(a):
    kind = CUR["sess"]["fail"].get(str(a["k"]))
    with CUR["lock"]:
        CUR["read"].append(a["k"])
    if kind == "rraise":
        raise ValueError("reader")
    return None if kind == "rnone" else dict(a, seen=True)


def star_func(a, extra=0):
    if "seen" not in a:
        with CUR["lock"]:
            CUR["read"].append(a["k"])
    kind = CUR["sess"]["fail"].get(str(a["k"]))
    if kind in ("raise", "rraise"):
        raise ValueError("failing task")
    if kind is not None:
        return None
    x, s = star_frames(a["k"], a["_RT1_ID_num"], a["rows"], extra)
    arg = pd.DataFrame(dict(ID=[f"t{a['k']}"], k=[a["k"]]), index=pd.Index([a["_RT1_ID_num"]], name="ID"))
    arg.index.name = "ID"
    return {"c1": dict(dyn=x, stat=s), "c2": s * 2, "const__reader_arg": arg, "const__val": a["k"] / 4}


def run_star(cc, rec):
    from rt1._rtprocess_writer import RT1_processor
    from rt1.rtresults import HDFaccessor

    CUR.clear()
    CUR.update(lock=threading.Lock(), read=[])
    stored = {}
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        dst = Path(tmp) / "x.h5"
        for i, s in enumerate(cc["sess"]):
            CUR.update(sess=s)
            CUR["read"].clear()
            extra = i + 1 if s["star"] else 0
            args = [dict(cc["tasks"][k]) for k in s["tasks"]]
            with vproc.virtual(s["seed"], 0.1) as vr:
                with RT1_processor.writer_pool(n_worker=s["n_worker"], n_combiner=s["n_combiner"], n_writer=s["n_writer"], dst_path=dst,
                                               write_chunk_size=s["chunk"], out_cache_size=s["cache"]) as w:
                    w.run_starmap(arg_list=args, process_func=star_func, reader_func=star_reader if s["reader"] else None,
                                  **(dict(starmap_args=[[extra] * len(args)]) if s["star"] else {}))
                for p in vr.procs:
                    need(p.exc is None, lambda: f"{p.name} failed with {p.exc!r}")
            need(args == [cc["tasks"][k] for k in s["tasks"]], "the list of tasks has been changed")
            todo = [k for k in s["tasks"] if k not in stored]
            need(sorted(CUR["read"]) == sorted(todo), lambda: f"session {i}: tasks {sorted(CUR['read'])} are processed instead of {sorted(todo)}")
            for k in todo:
                if str(k) not in s["fail"]:
                    stored[k] = extra
            if s["index"] is not None or dst.exists():
                RT1_processor.create_index(dst, idx_levels=s["index"])
            if len(todo) > 1 and s["chunk"] < len(todo):
                rec.tag("nontrivial")
            if len(stored) > len(todo) and todo:
                rec.tag("resumed")
            need(dst.exists() or not stored, "nothing is stored")
            if not stored:
                continue
            with HDFaccessor(dst) as h:
                nums = {str(v): int(k) for k, v in h.IDs.ID.items()}
                need(len(h.IDs) == len(stored) and h.IDs.index.is_unique and set(nums) == {f"t{k}" for k in stored},
                     lambda: f"session {i}: stored IDs {sorted(h.IDs.ID)} ({list(h.IDs.index)}) instead of tasks {sorted(stored)}")
            with pd.HDFStore(dst, "r") as h:
                data = {k.strip("/"): h.select(k) for k in h.keys() if not k.endswith("/meta")}
            need(set(data) == {"c1/dyn", "c1/stat", "c2", "reader_arg", "val"}, lambda: f"tables {sorted(data)}")
            need(sorted(data["val"]) == sorted(k / 4 for k in stored), lambda: f"values {sorted(data['val'])}")
            nrow = sum(cc["tasks"][k]["rows"] for k in stored)
            need([len(data[x]) for x in ("c1/dyn", "c1/stat", "c2")] == [nrow, len(stored), len(stored)], "number of rows")
            for k, ex in stored.items():
                num = nums[f"t{k}"]
                x, st_ = star_frames(k, num, cc["tasks"][k]["rows"], ex)
                for key, want in (("c1/dyn", x), ("c1/stat", st_), ("c2", st_ * 2)):
                    d = data[key]
                    got = d[d.index.get_level_values("ID") == num]
                    need(list(got.columns) == list(want.columns) and list(got.index) == list(want.index)
                         and np.array_equal(got.values, want.values, equal_nan=True), lambda: f"session {i}: table {key} of task {k}:\n{got}\ninstead of\n{want}")


# ------------------------------------------------------------------- masking
@st.composite
def mask_case(draw):
    custom = draw(st.booleans())
    # (the default function takes the name of a file up to the first dot)
    pool = [n for n in p17.IDS if custom or "." not in n]
    names = draw(st.lists(st.sampled_from(pool + ["t0", "t1", "x_9", "lambda"]), min_size=1, max_size=9, unique_by=lambda s: p17.name_of(s)))
    k = draw(st.integers(0, len(names)))
    nums = draw(st.lists(st.integers(0, 12), min_size=k, max_size=k, unique=True))
    form = st.sampled_from(["plain", "plain", "path", "file"])
    tasks = [dict(n=n, form=draw(form)) for n in draw(st.permutations(names))]
    return dict(stored=[[a, b, draw(st.booleans())] for a, b in zip(nums, names)], tasks=tasks, exists=draw(st.sampled_from(["yes", "yes", "yes", "no", "empty"])),
                custom=custom, chunk=draw(st.integers(1, 4)))


def run_mask(cc, rec):
    from rt1._rtprocess_writer import RT1_processor
    from rt1.processing_config import rt1_processing_config

    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        (Path(tmp) / "d" / "results").mkdir(parents=True)
        db = Path(tmp) / "d" / "results" / "fit_db.h5"
        have = {}
        if cc["exists"] != "no":
            with pd.HDFStore(db, "a") as h:
                for num, nm, plain in cc["stored"] if cc["exists"] == "yes" else []:
                    h.append("reader_arg", pd.DataFrame(dict(ID=[nm if plain else p17.name_of(nm)], v=[1.5]), pd.Index([num], name="ID")), format="t",
                             data_columns=["ID"], index=False, min_itemsize={"index": 99, "values": 99})
                    have[p17.name_of(nm)] = num
        tasks = []
        for i, t in enumerate(cc["tasks"]):
            ID = dict(plain=t["n"], path="/data/v1.0/" + t["n"], file=f"/data/v1.0/{t['n']}.abc.nc")[t["form"]]
            tasks.append(dict(q=i, name=ID) if cc["custom"] else dict(ID=ID, q=i))
        orig = [dict(t) for t in tasks]
        own = (lambda a: p17.name_of(cc["tasks"][a["q"]]["n"])) if cc["custom"] else None
        want = [t for t, x in zip(orig, cc["tasks"]) if p17.name_of(x["n"]) not in have]
        cfg = rt1_processing_config(save_path=tmp, dumpfolder="d")
        a = cfg.mask_existing_HDF_IDs(tasks, get_ID=own)
        w = RT1_processor(dst_path=db)
        w.arg_list = tasks
        w._check_IDs(get_ID=own)
        for nm, x in (("mask_existing_HDF_IDs", a), ("writer", w.args_to_process)):
            need([{k: v for k, v in t.items() if k != "_RT1_ID_num"} for t in x] == want, lambda: f"{nm}: tasks {x} instead of {want} (stored: {have})")
            nums = [t["_RT1_ID_num"] for t in x]
            need(len(set(nums)) == len(nums) and not set(nums) & set(have.values()) and all(n >= 0 for n in nums),
                 lambda: f"{nm}: numbers {nums} (used: {sorted(have.values())})")
        need(tasks == orig, "the list of tasks has been changed")
        if have and want:
            rec.tag("nontrivial")


SUBS = [Sub("runs", case, run, 100, 1500, shards=6, tshards=8),
        Sub("mask", mask_case, run_mask, 120, 3000, shards=2, tshards=4),
        Sub("starmap", star_case, run_star, 200, 4000, shards=3, tshards=8),
        Sub("real", real_case, run_real, 3, 40, shards=1, tshards=4)]

if __name__ == "__main__":
    from rtv.props import p19

    p19.main()
