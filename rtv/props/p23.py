"""P23: result-folders give access to exactly the stored results"""
import itertools
import os
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import vproc
from ..core import Sub, fail, need
from .p17 import name_of

RULE = ("A case is a parent-folder with sub-folders (complete or incomplete folder-structures, files) that contain dump-files, a fit-database, "
        "NetCDF- and HDF-files, configuration- and other files, and a history of accesses (by name, number, path, at random, by iteration), "
        "added / removed files and re-scans. Non-trivial: at least two recognised results or a file that is added after an access.")
ASSUMPTIONS = ["folders with more than 100 entries are outside of the domain (documented)",
               "fit-databases are written by virtual processes (threads working on pickled copies), see DESIGN.md",
               "names of dump-files do not contain the word 'error' (documented to be ignored)"]
NAMES = ["R1", "error_runs", "old.dump", "sub_RESULT", "x", "2018", "res-a", "v1.0", "v1.1", "results", "dumps"]
IDS = ["a", "site_1", "12a", "x.y", "Zz", "007", "class", "b"]
CUR = {}


@st.composite
def folder(draw):
    ids = st.lists(st.sampled_from(IDS), max_size=3, unique=True)
    d = dict(miss=draw(st.sampled_from([None, None, None, "cfg", "dumps", "results"])), dumps=draw(ids),
             db=draw(st.one_of(st.none(), st.none(), ids.filter(bool))),
             ini=draw(st.lists(st.sampled_from(["one.ini", "two.ini", "a.b.ini"]), max_size=2, unique=True)),
             nc=draw(st.lists(st.sampled_from(["n1", "n2", "fit_db"]), max_size=2, unique=True)),
             h5=draw(st.lists(st.sampled_from(["ex1", "ex_2"]), max_size=2, unique=True)),
             junk=draw(st.booleans()), multi=draw(st.integers(0, 3)) == 0)
    return d


@st.composite
def case(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    op = st.tuples(st.sampled_from(["str", "str", "ext", "int", "rand", "path", "files", "fits", "iter", "cfg", "cfgn", "hdf", "hdfn", "nc",
                                    "ncn", "add", "del", "rescan", "toggle", "scan", "close", "names"]),
                   st.integers(0, 5), st.booleans(), st.integers(0, 2)).map(list)
    return dict(own=draw(st.integers(0, 3)) == 0, names=names, folders=[draw(folder()) for _ in names], use_dumps=draw(st.booleans()),
                stray=draw(st.booleans()), ops=draw(st.lists(op, min_size=1, max_size=9)), seed=draw(st.integers(0, 99)))


def make(val, multi=False, ID=None):
    from rt1.rtfits import Fits, MultiFits
    from rt1.surface import Isotropic
    from rt1.volume import Rayleigh

    fits = []
    for i in range(2 if multi else 1):
        ds = pd.DataFrame(dict(inc=[0.3, 0.5], sig=[val, val + 0.5]), index=pd.date_range("2018-01-01", periods=2))
        fit = Fits(dataset=ds, sig0=True, dB=False, int_Q=False, defdict=dict(
            omega=[False, 0.1], tau=[False, 0.2], NormBRDF=[True, 0.1, None, ([0.0], [1e4])]),
            set_V_SRF=dict(V_props=dict(V_name="Rayleigh"), SRF_props=dict(SRF_name="Isotropic")))
        fit.res_dict = dict(NormBRDF=np.array([val + i / 10]))
        if ID:
            fit.ID = ID
        fits.append(fit)
    if not multi:
        return fits[0]
    mf = MultiFits()
    for i, fit in enumerate(fits):
        mf.add_config(f"c{i}", fit)
    mf.set_dataset(ds)
    if ID:
        mf.set_ID(ID)
    mf.set_reader_arg(dict(ID=ID))
    mf.set_aux_data(None)
    return mf


def value(fit, multi):
    """-> the value that identifies a fit"""
    if multi:
        need(sorted(fit.config_names) == ["c0", "c1"], "configurations")
        a, b = (float(fit.configs[n].res_dict["NormBRDF"][0]) for n in ("c0", "c1"))
        need(abs(b - a - 0.1) < 1e-9, lambda: f"results of the configurations are mixed: {a}, {b}")
        need(abs(fit.configs["c1"].dataset.sig.iloc[0] - a) < 1e-9, "dataset of another fit")
        return a
    a = float(fit.res_dict["NormBRDF"][0])
    need(abs(fit.dataset.sig.iloc[0] - a) < 1e-9, "dataset of another fit")
    return a


def process(arg):
    fit = make(arg["val"], arg["multi"], arg["ID"])
    fit.set_reader_arg(arg) if arg["multi"] else setattr(fit, "reader_arg", arg)
    return fit._get_fit_to_hdf_dict(ID=arg["_RT1_ID_num"])


def write_db(dst, args, seed):
    from rt1._rtprocess_writer import RT1_processor

    with vproc.virtual(seed, 0.1) as vr:
        with RT1_processor.writer_pool(n_worker=2, n_combiner=1, dst_path=dst, write_chunk_size=2) as w:
            w.run_starmap(arg_list=args, process_func=process, ID_getter=lambda a: name_of(a["ID"]))
        for p in vr.procs:
            need(p.exc is None, lambda: f"{p.name} failed with {p.exc!r}")


class Folder:
    """reference model of one folder"""

    def __init__(self, path, d, k, seed):
        import xarray as xar

        self.path, self.d, self.k, self.seed, self.multi = path, d, k, seed, d["multi"]
        self.dumps, self.db, self.nc, self.h5, self.ini = {}, {}, {}, {}, {}
        self.known = None  # content of the dump-folder at the last scan
        self.n = 0
        path.mkdir()
        for s in ("cfg", "results", "dumps"):
            if d["miss"] != s:
                (path / s).mkdir()
        self.ok = d["miss"] is None
        if not self.ok:
            return
        for i in d["dumps"]:
            self.add_dump(i)
        if d["junk"]:
            (path / "dumps" / (["error_b", "b_error", "an_error_1", "error"][len(path.name) % 4] + ".dump")).write_text("no fit")
            (path / "dumps" / "a.txt").write_text("no fit")
            (path / "dumps" / "folder.dump").mkdir()
            (path / "results" / "info.txt").write_text("")
            (path / "results" / "sub.h5").mkdir()
            (path / "cfg" / "copy.ini_").write_text("x")
            (path / "other").mkdir()
        for n in d["nc"]:
            self.add_nc(n)
        for n in d["h5"]:
            self.h5[n] = self.val()
            pd.DataFrame(dict(v=[self.h5[n]])).to_hdf(path / "results" / f"{n}.h5", key="data", format="table")
        if d["db"]:
            self.add_db(d["db"])
        for n in d["ini"]:
            self.ini[n] = self.val()
            (path / "cfg" / n).write_text(f"[fits_kwargs]\nsig0 = True\nverbose = {int(self.ini[n])}\n[RT1_V]\n[RT1_SRF]\n[PROCESS_SPECS]\npath__save_path = /x\ndumpfolder = y\n[CONFIGFILES]\nmodule__processing_cfg = /x/y.py\n[least_squares_kwargs]\n[defdict]\n")

    def val(self):
        self.n += 1
        return 1.0 + self.k * 100 + self.n

    def add_dump(self, i):
        self.dumps[i] = self.val()
        fit = make(self.dumps[i], self.multi, i)
        fit.dump(self.path / "dumps" / f"{i}.dump", mini=bool(self.n % 2))

    def add_nc(self, n):
        import xarray as xar

        self.nc[n] = self.val()
        xar.Dataset(dict(v=("t", [self.nc[n]]))).to_netcdf(self.path / "results" / f"{n}.nc")

    def add_db(self, ids):
        new = {i: self.val() for i in ids if name_of(i) not in self.db}
        write_db(self.path / "results" / "fit_db.h5", [dict(ID=i, val=v, multi=self.multi) for i, v in new.items()], self.seed)
        self.db.update({name_of(i): v for i, v in new.items()})


def same(a, b):
    return a is not None and abs(a - b) < 1e-9


def refused(fn, what):
    try:
        r = fn()
    except (AssertionError, KeyError, OSError, IndexError, StopIteration):
        return
    fail(f"{what} returned {r!r} instead of raising an error")


def run(cc, rec):
    from rt1.rtresults import RTresults

    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        T = Path(tmp) / "parent"
        fs = {}
        if cc["own"]:
            f = Folder(T, dict(cc["folders"][0], miss=None), 1, cc["seed"])
            fs["parent"] = f
        else:
            T.mkdir()
            for k, (n, d) in enumerate(zip(cc["names"], cc["folders"])):
                fs[n] = Folder(T / n, d, k, cc["seed"])
            if cc["stray"]:
                (T / "file").write_text("")
        res = RTresults(T, **(dict(use_dumps=True) if cc["use_dumps"] else {}))
        good = [n for n in fs if fs[n].ok]
        try:
            got = [r.name for r in res]
            need(sorted(got) == sorted(good), lambda: f"results {got} instead of {good}")
            if len(good) > 1:
                rec.tag("nontrivial")
            if good:
                ud = {n: cc["use_dumps"] for n in good}
                for i, o in enumerate(cc["ops"]):
                    n = good[o[3] % len(good)]
                    r = res[n] if o[2] else getattr(res, n)
                    try:
                        one(o, r, fs[n], n, ud, rec)
                    except Exception as e:
                        e.args = (f"[op {i}: {o} in {n!r} ({'dumps' if ud[n] else 'fit_db'})] {e.args[0] if e.args else ''}",) + tuple(e.args[1:])
                        raise
                for n in good:  # every listing is complete at the end of the history
                    try:
                        one(["files", 0, False, 0], res[n], fs[n], n, ud, rec)
                    except Exception as e:
                        e.args = (f"[end: listing of {n!r} ({'dumps' if ud[n] else 'fit_db'})] {e.args[0] if e.args else ''}",) + tuple(e.args[1:])
                        raise
        finally:
            for n in good:
                try:
                    getattr(res, n).fit_db.close()
                except Exception:
                    pass


def closed(r):
    """close the fit-database before files are changed"""
    if "fit_db" in r._hdf_paths:
        r.fit_db.close()


def one(o, r, f, n, ud, rec):
    op, k, flag = o[0], o[1], o[2]
    dumps = ud[n]
    rec.tag(op + ("-dumps" if dumps else "-db"))
    need(r.name == n and Path(r.path) == f.path, "name/path")
    stored = f.dumps if dumps else f.db
    avail = dumps or f.db
    key = sorted(stored)[k % len(stored)] if stored else None

    def check(fit, ID, what):
        need(fit is not None and fit.ID == name_of(ID), lambda: f"{what}: ID {getattr(fit, 'ID', None)!r} instead of {ID!r}")
        v = value(fit, f.multi)
        need(same(v, stored[ID]), lambda: f"{what}: fit {v} instead of {stored[ID]} is loaded")

    def load(ID, **kw):
        if flag:
            x = r.load_fit(ID, return_ID=True, **kw)
            need(isinstance(x, tuple) and len(x) == 2, "return_ID")
            need(x[0].ID == name_of(x[1]) and (ID is None or isinstance(ID, int) or x[1] == (ID.stem if isinstance(ID, Path) else ID[:-5] if dumps and ID.endswith(".dump") else ID)), lambda: f"ID {x[1]!r} is returned for fit {x[0].ID!r}")
            return x[0]
        return r.load_fit(ID, **kw)

    if op in ("str", "ext", "int", "rand", "files", "fits", "iter", "scan") and not avail:
        if op in ("str", "int", "rand"):
            refused(lambda: r.load_fit(dict(str="a", int=0, rand=None)[op]), "loading a fit without a database")
        return
    if op == "str" or (op == "ext" and not dumps):
        if key is not None:
            check(load(key), key, "fit")
        elif dumps:
            refused(lambda: r.load_fit("unknown"), "loading an unknown fit")
    elif op == "ext":
        if key is not None:
            check(load(key + ".dump"), key, "fit")
    elif op == "int":
        if dumps:
            files = [Path(p).stem for p in r.dump_files]
            if files:
                check(load(k % len(files)), files[k % len(files)], "fit by number")
        else:
            num = {int(a): str(b) for a, b in r.fit_db.IDs.ID.items()}
            need(sorted(num.values()) == sorted(stored), lambda: f"IDs {num}")
            q = sorted(num)[k % len(num)]
            check(load(q), num[q], "fit by number")
    elif op == "rand":
        if dumps:
            if f.known is None:
                f.known = dict(f.dumps)
            if f.known and set(f.known) <= set(f.dumps):
                x = load(None)
                known = {name_of(i): i for i in f.known}
                need(x.ID in known, lambda: f"unexpected ID {x.ID}")
                check(x, known[x.ID], "random fit")
        else:
            x = load(None)
            need(x.ID in stored, lambda: f"unexpected ID {x.ID}")
            check(x, x.ID, "random fit")
    elif op == "path":
        if f.dumps:
            i = sorted(f.dumps)[k % len(f.dumps)]
            x = load(f.path / "dumps" / f"{i}.dump")
            need(x.ID == name_of(i) and same(value(x, f.multi), f.dumps[i]), "fit of a path")
    elif op in ("files", "iter"):
        got = list(r.dump_files if op == "files" else r)
        if dumps:
            got = [str(p) for p in got]
            want = [str(f.path / "dumps" / f"{i}.dump") for i in f.dumps]
        else:
            want = list(f.db)
        need(sorted(got) == sorted(want), lambda: f"files {got} instead of {want}")
    elif op == "fits":
        got = list(r.dump_fits)
        names = {name_of(i): i for i in stored}
        need(sorted(x.ID for x in got) == sorted(names), lambda: f"fits {[x.ID for x in got]} instead of {list(stored)}")
        for x in got:
            check(x, names[x.ID], "iterated fit")
    elif op == "scan":
        if dumps:
            r.scan_folder()
            f.known = dict(f.dumps)
    elif op in ("cfg", "cfgn"):
        if not f.ini or (op == "cfg" and len(f.ini) > 1):
            refused(lambda: r.load_cfg(), "ambiguous / missing configuration")
            return
        nm = sorted(f.ini)[k % len(f.ini)]
        cfg = r.load_cfg() if op == "cfg" else r.load_cfg(nm)
        v = cfg.config["fits_kwargs"]["verbose"]
        need(float(v) == f.ini[nm], lambda: f"configuration {v} instead of {f.ini[nm]}")
    elif op in ("hdf", "hdfn"):
        names = sorted(list(f.h5) + (["fit_db"] if f.db else []))
        if not names or (op == "hdf" and len(names) > 1):
            refused(lambda: r.load_hdf(), "ambiguous / missing HDF-file")
            return
        nm = names[k % len(names)]
        h = r.load_hdf() if op == "hdf" else r.load_hdf(nm)
        try:
            if nm == "fit_db":
                need(sorted(map(str, h.IDs.ID)) == sorted(f.db), "IDs of fit_db")
            else:
                v = h.datasets.data.read() if hasattr(h.datasets.data, "read") else h.store.select("data")
                v = float(h.store.select("data").v.iloc[0])
                need(same(v, f.h5[nm]), lambda: f"HDF-file {v} instead of {f.h5[nm]}")
        finally:
            h.close()
    elif op in ("nc", "ncn"):
        if not f.nc or (op == "nc" and len(f.nc) > 1):
            refused(lambda: r.load_nc(), "ambiguous / missing NetCDF-file")
            return
        nm = sorted(f.nc)[k % len(f.nc)]
        with (r.load_nc() if op == "nc" else r.load_nc(nm)) as x:
            v = float(x.v.values[0])
        need(same(v, f.nc[nm]), lambda: f"NetCDF-file {v} instead of {f.nc[nm]}")
    elif op == "add":
        if flag or not dumps:
            i = next((i for i in IDS[k:] + IDS[:k] if name_of(i) not in f.db), None)
            if i is not None:
                closed(r)
                f.add_db([i])
                r.rescan()
                rec.tag("nontrivial")
        else:
            i = IDS[(k + 3) % len(IDS)]
            f.add_dump(i)
            rec.tag("nontrivial")
        if k == 0:
            f.add_nc("new_nc")
    elif op == "del":
        if f.dumps:
            i = sorted(f.dumps)[k % len(f.dumps)]
            (f.path / "dumps" / f"{i}.dump").unlink()
            del f.dumps[i]
    elif op == "rescan":
        closed(r)
        r.rescan()
    elif op == "toggle":
        closed(r)
        ud[n] = not dumps
        r.rescan(use_dumps=ud[n])
    elif op == "close":
        closed(r)
        if not dumps and f.db:  # loading re-opens the database
            check(load(key), key, "fit after closing the database")
    elif op == "names":
        s = repr(r)
        for q in list(f.h5) + (["fit_db"] if f.db else []):
            need(q in s, lambda: f"{q} is not part of the summary {s!r}")


SUBS = [Sub("folder", case, run, 240, 4000, shards=6, tshards=8)]
