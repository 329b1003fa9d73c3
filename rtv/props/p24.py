"""P24: a processing-run uses exactly the configuration of its result-folder"""
import builtins
import hashlib
import os
import re
import shutil
import sys
import tempfile
import threading
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import vproc
from ..core import Sub, Violation, need

RULE = ("A case is a history of processing-runs on one result-folder: the config-file and the modules are changed between the runs, the "
        "runs use or ignore the copied files, override parts of the configuration, continue automatically or answer the prompt "
        "(continue, abort, remove). Non-trivial: the files have been changed before a run that stores results in an existing folder, "
        "or the prompt has been answered.")
ASSUMPTIONS = ["worker-, combiner- and writer-processes are virtual (threads working on pickled copies), see DESIGN.md",
               "shutil.rmtree is replaced by a stand-in that refuses everything except the result-folder",
               "PROCESS_SPECS of the config-file that differ from those of the copied file are not judged",
               "a history ends if the definitions differ from those of the already stored fits (they can not be stored in one file, see P17)"]

CUR = {}
ANSWERS = [["YES"], ["y"], ["yes"], ["no"], ["N"], ["maybe"], [""], ["YES"], ["REMOVE", "y"], ["REMOVE", "Y"], ["remove", "YES"], ["REMOVE", "n"], ["Remove", "x"]]
DESC = "\n    some description\n      of the run\n    "


@st.composite
def case(draw):
    multi = draw(st.booleans())
    n = draw(st.integers(1, 4))
    runs = []
    for i in range(draw(st.integers(1, 4))):
        init = draw(st.sampled_from([None, None, None, "tau", "spec", "both", "cfg" if multi else "tau", "bad"]))
        runs.append(dict(tau=draw(st.sampled_from([0.1] * 4 + [0.2])), ver=draw(st.integers(0, 1)), hver=draw(st.integers(0, 1)),
                         copy=draw(st.sampled_from([True] * 4 + [False])), auto=draw(st.booleans()),
                         ans=draw(st.sampled_from(ANSWERS)), init=init, itau=draw(st.sampled_from([0.1, 0.3])),
                         tasks=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)),
                         ncpu=draw(st.integers(1, 2)), log=draw(st.sampled_from([21, None, 10, 40])), new=draw(st.booleans()),
                         over=draw(st.booleans()), dump=draw(st.booleans()), seed=draw(st.integers(0, 99))))
    return dict(multi=multi, n=n, runs=runs, desc=draw(st.booleans()), var=draw(st.booleans()), helper=draw(st.booleans()),
                custom=draw(st.booleans()), ctau=draw(st.sampled_from([0.25, 0.5])))


def ini_text(cc, T, mods, tau):
    v = f"[VARIABLES]\nt = {tau}\n" if cc["var"] else ""
    out = (f"{v}[fits_kwargs]\nsig0 = True\n[least_squares_kwargs]\nftol = 1e-4\nmax_nfev = 2\n"
           "[defdict]\nomega = [True, 0.05, None, 0.01, 0.5]\n"
           f"[RT1_V]\nV_name = Rayleigh\ntau = {'${VARIABLES:t}' if cc['var'] else tau}\nomega = omega\n"
           "[RT1_SRF]\nSRF_name = Isotropic\nNormBRDF = 0.1\n"
           f"[PROCESS_SPECS]\npath__save_path = {T.parent}\ndumpfolder = {T.name}\nfloat__fac = 1\nfinalout_name = o.h5\n")
    if cc["custom"]:
        out += "processing_cfg_class = Own\n"
    out += "[CONFIGFILES]\n"
    if cc["custom"]:
        out += "processing_cfg_module = prc\n"
    for k, p in mods:
        out += f"module__{k} = {p}\n"
    if cc["multi"]:
        out += f"[#config A]\n[#config B RT1_V]\ntau = {cc['ctau']}\n"
    return out


def mod_text(cc, ver):
    cls = "Own" if cc["custom"] else "processing_cfg"
    s = "from rt1.processing_config import rt1_processing_config\n"
    if cc["helper"]:
        s += "from rtvhelper import HVER\n"
    else:
        s += "HVER = 0\n"
    s += f"VERSION = {ver}\n\n\nclass {cls}(rt1_processing_config):\n"
    if cc["desc"]:
        s += f"    description = {DESC!r}\n"
    s += ("    def reader(self, arg):\n        from rtv.props import p24\n        return p24.read(arg, VERSION, HVER, self.fac)\n\n"
          "    def exceptfunc(self, ex, arg):\n        raise ex\n")
    return s


def data(k, ver, hver, fac):
    n = 3 + k % 2
    sig = (0.1 + 0.02 * np.arange(n) + 0.01 * k) * (1 + 0.3 * ver) * (1 + 0.5 * hver) * fac
    return pd.DataFrame(dict(inc=0.4 + 0.1 * np.arange(n), sig=sig), index=pd.date_range("2020-01-01", periods=n, name="date"))


def read(arg, ver, hver, fac):
    with CUR["lock"]:
        CUR["read"].append(arg["k"])
    return data(arg["k"], ver, hver, fac)


def reference(tau, dataset):
    from rt1.rtfits import Fits

    return Fits(dataset=dataset, defdict=dict(omega=[True, 0.05, None, ([0.01], [0.5])]), sig0=True,
                set_V_SRF=dict(V_props=dict(V_name="Rayleigh", tau=tau, omega="omega"), SRF_props=dict(SRF_name="Isotropic", NormBRDF=0.1)),
                lsq_kwargs=dict(ftol=1e-4, max_nfev=2))


def tree(p):
    if not p.exists():
        return None
    return {str(x.relative_to(p)): hashlib.md5(x.read_bytes()).hexdigest() if x.is_file() else "" for x in sorted(p.rglob("*"))}


class Prompt:
    """scripted answers and a stand-in for shutil.rmtree"""

    def __init__(self, answers, folder):
        self.answers, self.folder, self.asked, self.removed = list(answers), folder, 0, 0

    def __enter__(self):
        self.old = builtins.input, shutil.rmtree

        def _input(*a):
            self.asked += 1
            if not self.answers:
                raise Violation("an unexpected question is asked: " + " ".join(map(str, a))[:200])
            return self.answers.pop(0)

        def _rmtree(path, *a, **k):
            if Path(path).resolve() != self.folder.resolve():
                raise Violation(f"an attempt to remove {path}")
            self.removed += 1
            self.old[1](self.folder)

        builtins.input, shutil.rmtree = _input, _rmtree
        return self

    def __exit__(self, *a):
        builtins.input, shutil.rmtree = self.old


def run(cc, rec):
    from rt1.rtprocess import RTprocess

    CUR.clear()
    CUR.update(lock=threading.Lock(), read=[])
    rec.tag("multi" if cc["multi"] else "single", f"runs-{len(cc['runs'])}")
    path, before = list(sys.path), set(sys.modules)
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        T = Path(tmp) / "out" / "store"
        src = Path(tmp) / "src"
        src.mkdir()
        keep = T.parent / "other" / "results"
        keep.mkdir(parents=True)
        (keep / "fit_db.h5").write_text("keep")
        ini, mod, hlp = src / "conf.ini", src / "rtvproc.py", src / "rtvhelper.py"
        mods = [("h", hlp)] * cc["helper"] + [("prc" if cc["custom"] else "processing_cfg", mod)]
        # model: the copied files and the stored tasks {k: (tau, data)}
        copied, stored, dumped, proc = {}, {}, {}, None
        try:
            for i, r in enumerate(cc["runs"]):
                ini.write_text(ini_text(cc, T, mods, r["tau"]))
                mod.write_text(mod_text(cc, r["ver"]))
                hlp.write_text(f"HVER = {r['hver']}\n")
                init = {}
                if r["init"] in ("tau", "both"):
                    init["RT1_V"] = dict(tau=str(r["itau"]))
                if r["init"] in ("spec", "both"):
                    init["PROCESS_SPECS"] = dict(float__fac="1.25")
                if r["init"] == "cfg":
                    init["#config B RT1_V"] = dict(tau=str(r["itau"]))
                if r["init"] == "bad":
                    init["NOSECTION"] = dict(a="1")
                if proc is None or r["new"]:
                    proc = RTprocess(str(ini), init_kwargs=init or None)
                elif r["init"] == "bad":
                    proc.init_kwargs = init
                else:
                    proc.override_config(**init)
                proc.copy, proc.autocontinue = r["copy"], r["auto"]
                stop = one(cc, i, r, proc, T, (ini, mod, hlp), copied, stored, dumped, rec)
                need((keep / "fit_db.h5").read_text() == "keep", "another result-folder has been changed")
                if stop:
                    break
        finally:
            sys.path[:] = path
            for k in set(sys.modules) - before:
                if k.startswith("rtv") and not k.startswith("rtv."):
                    del sys.modules[k]


def log_config():
    """level and handlers of the log of the main process"""
    import logging

    from rt1 import log

    return log.level, [(h.name, h.level) for h in log.handlers], len(logging.getLogger("py.warnings").handlers)


def one(cc, i, r, proc, T, files, copied, stored, dumped, rec):
    what = f"run {i}"
    ask = not r["auto"] and T.exists() and r["init"] != "bad"
    a = [x.upper() for x in r["ans"]] if ask else None
    remove = ask and a[0] == "REMOVE" and a[1] in ("Y", "YES")
    abort = ask and not remove and a[0] not in ("Y", "YES")
    had, state, texts = T.exists(), tree(T), [p.read_text() for p in files]
    CUR["read"].clear()
    args = [dict(ID=f"s{k}", k=k) for k in r["tasks"]]
    exc = None
    conf = log_config()
    with Prompt(a or [], T) as pr, vproc.virtual(r["seed"], 0.05) as vr:
        try:
            proc.run_processing(ncpu=r["ncpu"], print_progress=False, reader_args=args, logfile_level=r["log"], dump_fit=r["dump"])
        except Violation:
            raise
        except (Exception, SystemExit) as e:
            exc = e
        for p in vr.procs:
            need(p.exc is None, lambda: f"{what}: {p.name} failed with {p.exc!r}")
        now = log_config()
        need(now == conf, lambda: f"{what}: the configuration of the log is changed from {conf} to {now} (logfile_level={r['log']})")
    need([p.read_text() for p in files] == texts, lambda: f"{what}: the config-files have been changed")
    if r["init"] == "bad":
        need(isinstance(exc, AssertionError), lambda: f"{what}: an undefined section is overridden ({exc!r})")
    if abort:
        need(isinstance(exc, SystemExit) and exc.code in (0, None), lambda: f"{what}: aborting results in {exc!r}")
    need(pr.asked == len(a or []), lambda: f"{what}: {pr.asked} questions have been asked instead of {a}")
    if abort or r["init"] == "bad":
        need(not CUR["read"] and tree(T) == state, lambda: f"{what}: an aborted run changes the result-folder")
        rec.tag("abort" if abort else "undefined", "nontrivial")
        return
    need(exc is None, lambda: f"{what}: the processing failed: {exc!r}")
    need(pr.removed == remove, lambda: f"{what}: the result-folder has {'not ' * remove}been removed (answers {a})")
    if remove:
        copied.clear(), stored.clear(), dumped.clear()
        rec.tag("removed", "nontrivial")
    elif ask:
        rec.tag("continue", "nontrivial")
    # --- the used definitions
    source = dict(tau=r["tau"], ctau=cc["ctau"], fac=1.0)
    if r["init"] in ("tau", "both"):
        source["tau"] = r["itau"]
    if r["init"] in ("spec", "both"):
        source["fac"] = 1.25
    if r["init"] == "cfg":
        source["ctau"] = r["itau"]
    vers = dict(ver=r["ver"], hver=r["hver"] if cc["helper"] else 0)
    if r["copy"]:
        if r["init"] is not None or "ini" not in copied:
            copied["ini"] = source
        for k in vers:
            copied.setdefault(k, vers[k])
        used, vers = copied["ini"], {k: copied[k] for k in vers}
    else:
        used = source
    fac = source["fac"]
    judged = used["fac"] == source["fac"]
    if had and (used != source or vers != dict(ver=r["ver"], hver=r["hver"] if cc["helper"] else 0)):
        rec.tag("files-changed", "nontrivial")
    todo = [k for k in r["tasks"] if k not in stored]
    need(sorted(CUR["read"]) == sorted(todo), lambda: f"{what}: tasks {CUR['read']} have been processed instead of {todo}")
    taus = [used["tau"], used["ctau"]] if cc["multi"] else [used["tau"]]
    mixed = any(v[0] != taus for v in stored.values())
    for k in todo:
        stored[k] = (taus, data(k, vers["ver"], vers["hver"], fac) if judged else None)
        if r["dump"]:
            dumped[k] = stored[k]
    # --- files
    have = {p.name for p in T.iterdir()}
    need(have == {"cfg", "results", "dumps"}, lambda: f"{what}: folders {have}")
    cp = T / "cfg" / "conf.ini"
    need(cp.exists() == ("ini" in copied), lambda: f"{what}: the copied config-file {'is missing' if 'ini' in copied else 'is not expected'}")
    need((T / "cfg" / "rtvproc.py").exists() == ("ver" in copied), lambda: f"{what}: the copied module")
    if r["log"] is not None:
        need(list((T / "cfg").glob("RT1_process(*.log")), lambda: f"{what}: no log-file")
    for nm, tau in zip(("A", "B") if cc["multi"] else (None,), taus):
        p = T / "cfg" / ("model_definition.txt" if nm is None else f"model_definition__{nm}.txt")
        need(p.exists(), lambda: f"{what}: {p.name} is missing")
        s = p.read_text()
        need([float(x) for x in re.findall(r"\btau\s*:\s*([\d.]+)", s)] == [tau] and "Rayleigh" in s and "omega" in s, lambda: f"{what}: {p.name} does not describe the model (tau={tau}):\n{s}")
        need(("some description\n  of the run" in s) == cc["desc"], lambda: f"{what}: description in {p.name}:\n{s}")
    if mixed and todo:
        # (the definitions of the fits of one result-file must be the same, see P17)
        rec.tag("mixed")
        return True
    check(cc, T, stored, dumped, what)


def check(cc, T, stored, dumped, what):
    from rt1.rtfits import load
    from rt1.rtresults import HDFaccessor

    with HDFaccessor(T / "results" / "fit_db.h5") as h:
        ids = sorted(str(x) for x in h.IDs.ID)
        need(ids == sorted(f"s{k}" for k in stored), lambda: f"{what}: stored tasks {ids} instead of {sorted(stored)}")
        for k, v in stored.items():
            compare(cc, h.load_fit(f"s{k}"), v, f"{what}: stored task {k}")
    have = sorted(p.name for p in (T / "dumps").iterdir())
    need(have == sorted(f"s{k}.dump" for k in dumped), lambda: f"{what}: dumps {have}")
    for k, v in dumped.items():
        compare(cc, load(T / "dumps" / f"s{k}.dump"), v, f"{what}: dumped task {k}")


def compare(cc, obj, v, what):
    taus, df = v
    parts = [obj.configs.A, obj.configs.B] if cc["multi"] else [obj]
    for fit, tau in zip(parts, taus):
        x = fit.dataset
        if df is not None:
            need(list(x.index) == list(df.index) and np.allclose(x[["inc", "sig"]].values, df[["inc", "sig"]].values, rtol=1e-12),
                 lambda: f"{what}: dataset\n{x}\ninstead of\n{df}")
        ref = reference(tau, x[["inc", "sig"]])
        ref.performfit()
        a, b = fit.res_dict, ref.res_dict
        need(set(a) == {"omega"} and np.allclose(a["omega"], b["omega"], rtol=1e-7), lambda: f"{what}: results {a} instead of {b} (tau={tau})")
        a, b = fit.calc_model().tot, ref.calc_model().tot
        need(np.allclose(a, b, rtol=1e-7), lambda: f"{what}: modelled data {list(a)} instead of {list(b)} (tau={tau})")


SUBS = [Sub("history", case, run, 120, 2000, shards=6, tshards=8)]
