"""P22: exported datasets contain exactly the stored results"""
import os
import sys
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import fitgen as f
from .. import vproc
from ..core import Sub, need
from . import p17, p24

RULE = ("A case is a list of stored fits (single or several configurations, as in P17), a list of parameters (data, fitted / constant / "
        "auxiliary parameters, model-contributions, reader-arguments, custom export-functions), metrics, units, the used "
        "configurations and a number of export-runs to the same file. Non-trivial: at least two exported fits with at least two "
        "different kinds of parameters, or repeated dates, or a unit-conversion.")
ASSUMPTIONS = ["worker-, combiner- and writer-processes are virtual (threads working on pickled copies), see DESIGN.md",
               "the reader-argument 'ID' is not exported as a parameter (it is the name of the index)",
               "parameters with manual groups that differ within one date are not compared (no unique value per date)"]


# ------------------------------------------------------------ custom exports
def ex_series(fit):
    return fit.dataset.sig ** 2 + fit.dataset.inc


def ex_res(fit):
    """a series with an index that differs from the index of the dataset if dates are repeated"""
    return fit.dataset.sig.groupby(level=0).mean() * 3


def ex_frame(fit):
    return pd.DataFrame(dict(any_name=fit.dataset.inc + 5))


def ex_scalar(fit):
    return float(fit.dataset.sig.sum())


def ex_np(fit):
    return np.float32(len(fit.dataset))


def ex_int(fit):
    return len(fit.dataset)


EXPORT = dict(xs=ex_series, xr=ex_res, xd=ex_frame, xc=ex_scalar, xn=ex_np, xi=ex_int)
SCALAR = ("xc", "xn", "xi")
MODEL = ["tot", "surf", "vol", "inter"]
METRICS = dict(R=("pearson", "sig", "tot"), RMSD=("rmsd", "sig", "tot"), B=("bias", "tot", "sig"), M=("MAE", "inc", "sig"))


@st.composite
def case(draw, inter=False):
    cc = draw(p17.case(inter))
    cc.update(save="all", perform=False, load=[])
    par = [n for c in cc["defs"] for n, _ in c["params"]]
    cols = [a for c in cc["defs"] for a in c["cols"]]
    pool = ["sig", "inc", "sig", "inc", *MODEL, *MODEL, *par, *par, *cols, "data_weights", "k", "lat", "path", *EXPORT, "unknown_x"]
    over = draw(st.sampled_from([None, None, None, None, "sig", "tot", "par", "const"]))
    pars = draw(st.lists(st.sampled_from(pool), min_size=0, max_size=6, unique=True))
    if inter:
        pars += [p for p in ("tot", "inter") if p not in pars]
    ex = {p: p for p in pars if p in EXPORT}
    if over == "par" and par:
        over = draw(st.sampled_from(par))
    if over and over not in ("par", "const"):
        ex[over] = "xs"
        if over not in pars:
            pars = pars + [over]
    if over == "const":
        over = draw(st.sampled_from(par))
        ex[over] = "xc"
        pars = [p for p in pars if p != over] + [over]
    mets = draw(st.lists(st.sampled_from(list(METRICS)), max_size=3, unique=True))
    cust = draw(st.integers(0, 3)) == 0
    n, m = len(cc["fits"]), len(cc["defs"])
    names = cc["ismulti_names"][:m]
    use = draw(st.sampled_from([None, None, None, "str", "list"]))
    cc["exp"] = dict(pars=pars, ex=ex, mets=mets, cust=cust, dB=draw(st.booleans()), deg=draw(st.booleans()),
                     use=None if use is None or not cc["multi"] else draw(st.sampled_from(names)) if use == "str"
                     else list(draw(st.permutations(names)))[:draw(st.integers(1, m))],
                     runs=draw(st.lists(st.one_of(st.none(), st.integers(1, n)), min_size=1, max_size=2)),
                     ncpu=draw(st.integers(1, 3)), pre=draw(st.booleans()), save=draw(st.sampled_from(["name", "path", "cfg"])),
                     chunk=draw(st.sampled_from([1, 2, 1000])), listed=draw(st.booleans()),
                     log=draw(st.sampled_from(["default", "default", None])), dumps=draw(st.integers(0, 4)) == 0,
                     index=draw(st.booleans()))
    return cc


# ------------------------------------------------------------------ reference
def varies_within_date(c, d, nm):
    lab = f.labels(c, nm, d)
    seen = {}
    return any(seen.setdefault(t, x) != x for t, x in zip(f.index_of(c), lab))


def expect(cc, k, j):
    """expected (dynamic {key: values per observation}, static {key: value}, unique {key: ..})"""
    c = p17.definitions(cc, k)[j]
    e = cc["exp"]
    idx = f.index_of(c)
    dyn, stat, loose = {}, {}, set()
    vals = {a: list(v) for a, v in f.group_values(c, cc["fits"][k]["salt"] + j).items()}
    per = f.obs_params(c, vals)
    inc = np.array([o[1] for o in c["obs"]])
    sig = np.array([o[2] for o in c["obs"]])
    kinds = dict(c["params"])
    conv = e["dB"] and not c["dB"]
    for p in e["pars"]:
        if p in e["ex"]:
            w = e["ex"][p]
            if w == "xs":
                dyn[p] = sig ** 2 + inc
            elif w == "xr":
                s = pd.Series(sig, idx).groupby(level=0).mean() * 3
                dyn[p] = s.loc[idx].values
            elif w == "xd":
                dyn[p] = inc + 5
            else:
                stat[p] = dict(xc=sig.sum(), xn=len(sig), xi=len(sig))[w]
        elif p == "sig":
            dyn[p] = 10 * np.log10(sig) if conv else sig
        elif p == "inc":
            dyn[p] = np.rad2deg(inc) if e["deg"] else inc
        elif p in MODEL:
            if p == "inter" and not c["int_Q"]:
                continue
            z = [f.ref_point(c, i, P) for i, P in zip(inc, per)]
            u = np.array([f.to_units(r, i, c["sig0"], False) for r, i in zip(z, inc)])[:, MODEL.index(p)]
            with np.errstate(all="ignore"):
                dyn[p] = 10 * np.log10(u) if (conv or c["dB"]) else u
        elif p in kinds:
            d = kinds[p]
            if d["fit"] and d["freq"] is None:
                stat[p] = per[0][p]
            elif d["fit"] or d["val"] == "auxiliary":
                dyn[p] = np.array([o[p] for o in per], float)
                if d["fit"] and varies_within_date(c, d, p):
                    loose.add(p)
            else:
                stat[p] = d["val"]
        elif p == "data_weights":
            if c.get("weights"):
                dyn[p] = np.array([o[3] for o in c["obs"]])
        elif p in c["cols"]:
            dyn[p] = np.array(c["cols"][p], float)
        elif p == "unknown_x":
            pass
        else:
            a = p17.reader_arg(cc, k)
            if p in a:
                stat[p] = a[p]
    # the values obtained from the results (res_df) are available for unique dates
    uniq = {p for p in dyn if (e["ex"][p] == "xr" if p in e["ex"] else p in kinds and kinds[p]["fit"])}
    if dyn and set(dyn) == uniq:
        _, pos = np.unique(idx.values, return_index=True)
        idx = idx[pos]
        dyn = {p: np.asarray(v)[pos] for p, v in dyn.items()}
    return c, idx, dyn, stat, loose


def run_export(cc, T, ini, first, e, limit):
    from rt1.processing_config import rt1_processing_config
    from rt1.rtprocess import RTprocess

    kw = {}
    proc = RTprocess(str(ini), autocontinue=True, proc_cls=rt1_processing_config(
        save_path=T.parent, dumpfolder=T.name, finalout_name="out.h5"), parent_fit=first)
    dst = T / "results" / "out.h5"
    if e["save"] == "name":
        kw["finalout_name"], dst = "other.h5", T / "results" / "other.h5"
        proc._proc_cls = None
    elif e["save"] == "path":
        kw["savepath"] = dst = T.parent / "x.h5"
    if e["log"] is None:
        kw["logfile_level"] = None
    if e["dumps"] and not cc["multi"]:
        kw["use_dumps"] = True
    mets = {m: METRICS[m] for m in e["mets"]}
    fns = {p: EXPORT[w] for p, w in e["ex"].items()}
    if e["cust"]:
        mets["X"] = "custom"
        fns["X"] = ex_scalar
    pars = list(e["pars"])
    proc.export_data_to_HDF(parameters=pars if e["listed"] else tuple(pars), metrics=mets or None,
                            export_functions=fns or None, use_config=e["use"], use_nfiles=limit, ncpu=e["ncpu"],
                            sig_to_dB=e["dB"], inc_to_degree=e["deg"], pre_evaluate_fn_coefs=e["pre"], write_chunk_size=e["chunk"],
                            create_index=e["index"], n_combiner=1 + cc["seed"] % 2, print_progress=False, **kw)
    need(pars == list(e["pars"]), "the list of parameters has been changed")
    return dst


REST = """[fits_kwargs]
sig0 = True
[least_squares_kwargs]
ftol = 1e-4
[defdict]
omega = [True, 0.05, None, 0.01, 0.5]
[RT1_V]
V_name = Rayleigh
tau = 0.1
omega = omega
[RT1_SRF]
SRF_name = Isotropic
NormBRDF = 0.1
"""
MODULE = "from rt1.processing_config import rt1_processing_config\n\n\nclass processing_cfg(rt1_processing_config):\n    pass\n"


def run(cc, rec):
    from rt1._rtprocess_writer import RT1_processor
    from rt1.rtresults import HDFaccessor

    e, n = cc["exp"], len(cc["fits"])
    f.describe(cc["defs"][0], rec)
    rec.tag("multi" if cc["multi"] else "single", f"fits-{n}", f"runs-{len(e['runs'])}", "save-" + e["save"])
    if e["dumps"] and not cc["multi"]:
        rec.tag("dumps")
    p17.CUR.clear()
    p17.CUR.update(case=cc, exp={})
    path = list(sys.path)
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        T = Path(tmp) / "out" / "store"
        for s in ("cfg", "results", "dumps"):
            (T / s).mkdir(parents=True)
        ini, mod = Path(tmp) / "conf.ini", Path(tmp) / "procmod.py"
        mod.write_text(MODULE)
        ini.write_text(REST + f"[CONFIGFILES]\nmodule__processing_cfg = {mod}\n[PROCESS_SPECS]\npath__save_path = {T.parent}\n"
                       "dumpfolder = store\nfinalout_name = out.h5\n")
        db = T / "results" / "fit_db.h5"
        try:
            with vproc.virtual(cc["seed"], 0.1) as vr:
                with RT1_processor.writer_pool(n_worker=1, dst_path=db, write_chunk_size=cc["chunk"],
                                               min_itemsize={"index": 99, "values": 3000}) as w:
                    w.run_starmap(arg_list=[p17.reader_arg(cc, k) for k in range(n)], process_func=p17.process,
                                  ID_getter=lambda a: p17.name_of(a["ID"]))
                if e["dumps"] and not cc["multi"]:
                    for k in range(n):
                        obj = p17.build(cc, k)[0]
                        obj.reader_arg = p17.reader_arg(cc, k)
                        obj.dump(T / "dumps" / f"{p17.name_of(cc['fits'][k]['ID'])}.dump")
                first = p17.build(cc, 0)[0]
                for limit in e["runs"]:
                    dst = run_export(cc, T, ini, first, e, limit)
                for p in vr.procs:
                    need(p.exc is None, lambda: f"{p.name} failed with {p.exc!r}")
            check(cc, dst, rec)
        finally:
            sys.path[:] = path


def check(cc, dst, rec):
    e, n = cc["exp"], len(cc["fits"])
    want = n if None in e["runs"] else max(e["runs"])
    need(dst.exists(), "no data is exported")
    with pd.HDFStore(dst, "r") as h:
        data = {k.strip("/"): h.select(k) for k in h.keys() if not k.endswith("/meta")}
    ra = data.pop("reader_arg", None)
    need(ra is not None, lambda: f"no reader_arg table: {list(data)}")
    by = {p17.name_of(q["ID"]): k for k, q in enumerate(cc["fits"])}
    nums = {}
    need(ra.index.is_unique and len(ra) == want, lambda: f"{len(ra)} instead of {want} exported fits")
    for num, ID in zip(ra.index, ra["ID"]):
        nm = p17.name_of(ID)
        need(nm in by and by[nm] not in nums.values(), lambda: f"unexpected ID {ID}")
        nums[num] = by[nm]
    names = cc["ismulti_names"][:len(cc["defs"])]
    use = names if e["use"] is None else [e["use"]] if isinstance(e["use"], str) else list(e["use"])
    cfgs = [(nm, names.index(nm)) for nm in use] if cc["multi"] else [("default", 0)]
    seen, kinds = set(), set()
    for nm, j in cfgs:
        dyn_all, stat_all = data.get(nm + "/dynamic"), data.get(nm + "/static")
        met_all = data.get(nm + "/metrics")
        seen |= {nm + "/" + s for s in ("dynamic", "static", "metrics")}
        for num, k in sorted(nums.items()):
            c, idx, dyn, stat, loose = expect(cc, k, j)
            what = f"{nm} of fit {k} ({cc['fits'][k]['ID']})"
            kinds |= {("dyn", bool(dyn)), ("stat", bool(stat))}
            if len(idx) > len(set(idx)):
                rec.tag("repeated-dates", "nontrivial")
            if dyn:
                need(dyn_all is not None, lambda: f"{what}: no timeseries are exported ({sorted(dyn)})")
                need(list(dyn_all.index.names) == ["ID", "date"], lambda: f"index-names {dyn_all.index.names}")
                x = dyn_all[dyn_all.index.get_level_values("ID") == num]
                need(set(x.columns) == set(dyn) and len(set(x.columns)) == len(x.columns),
                     lambda: f"{what}: exported timeseries {list(x.columns)} instead of {sorted(dyn)}")
                need(list(x.index.get_level_values("date")) == list(idx),
                     lambda: f"{what}: dates {list(x.index.get_level_values('date'))} instead of {list(idx)}")
                for a, v in dyn.items():
                    if a in loose:
                        continue
                    with np.errstate(all="ignore"):
                        ok = np.allclose(np.asarray(x[a], float), np.asarray(v, float), rtol=1e-6, atol=1e-9, equal_nan=True)
                    need(ok, lambda: f"{what}: values of {a}: {list(x[a])} instead of {list(v)}")
            else:
                need(dyn_all is None, lambda: f"{what}: unexpected timeseries {list(dyn_all.columns)}")
            if stat:
                need(stat_all is not None, lambda: f"{what}: no static layers are exported ({sorted(stat)})")
                x = stat_all.loc[[num]]
                need(stat_all.index.name == "ID" and set(x.columns) == set(stat) and len(x) == 1,
                     lambda: f"{what}: static layers {x} instead of {stat}")
                for a, v in stat.items():
                    g = x[a].iloc[0]
                    need(g == v if isinstance(v, str) else np.isclose(float(g), v, rtol=1e-6, atol=1e-12),
                         lambda: f"{what}: static layer {a} = {g!r} instead of {v!r}")
            else:
                need(stat_all is None, lambda: f"{what}: unexpected static layers {list(stat_all.columns)}")
            check_metrics(cc, k, j, c, met_all, num, what)
    need(set(data) <= seen, lambda: f"unexpected tables {sorted(set(data) - seen)}")
    if (len(nums) > 1 and len(kinds) > 1 and len(e["pars"]) > 1) or ((e["dB"] or e["deg"]) and len(e["pars"])):
        rec.tag("nontrivial")


def check_metrics(cc, k, j, c, met_all, num, what):
    from . import p21

    e = cc["exp"]
    names = list(e["mets"]) + (["X"] if e["cust"] else [])
    if not names:
        need(met_all is None, lambda: f"{what}: unexpected metrics {list(met_all.columns)}")
        return
    need(met_all is not None, lambda: f"{what}: no metrics are exported")
    x = met_all.loc[[num]]
    need(met_all.index.name == "ID" and len(x) == 1 and set(x.columns) == set(names),
         lambda: f"{what}: metrics {x} instead of {names}")
    inc = np.array([o[1] for o in c["obs"]])
    sig = np.array([o[2] for o in c["obs"]])
    for m in e["mets"]:
        name, a, b = METRICS[m]
        v = {}
        v["sig"], v["inc"] = sig, inc
        if "tot" in (a, b):
            vals = f.group_values(c, cc["fits"][k]["salt"] + j)
            v["tot"] = np.array([f.to_units(f.ref_point(c, i, P), i, c["sig0"], c["dB"])[0]
                                 for i, P in zip(inc, f.obs_params(c, vals))])
        if np.isfinite(v[a]).all() and np.isfinite(v[b]).all():
            p21.compare(name.lower(), float(x[m].iloc[0]), v[a], v[b], what)
    if e["cust"]:
        need(np.isclose(x["X"].iloc[0], sig.sum()), lambda: f"{what}: custom metric {x['X'].iloc[0]} instead of {sig.sum()}")


# ------------------------------------------------- custom postprocess-functions
def p_frame(fit):
    """a static frame with one row"""
    return pd.DataFrame(dict(n=len(fit.dataset), s=float(fit.dataset.sig.sum()), ID_=str(fit.ID)), pd.Index([fit._RT1_ID_num], name="ID"))


def p_series(fit):
    """a timeseries (one row for each observation)"""
    return pd.concat([pd.DataFrame(dict(v=fit.dataset.sig * 2 + fit.dataset.inc), index=fit.dataset.index)],
                     keys=[fit._RT1_ID_num], names=["ID", "date"])


def p_check(fit):
    kind = p17.CUR["case"]["final"]["fail"].get(str(fit.reader_arg["k"]))
    if kind == "raise":
        raise ValueError("postprocessing failed")
    if kind == "skip":
        raise Exception("rt1_skip", "no reason")


def pp_frame(fit):
    p_check(fit)
    return p_frame(fit)


def pp_dict(fit):
    p_check(fit)
    return dict(stat=p_frame(fit), dyn=p_series(fit))


def pp_direct(fit):
    """use the (multi-)fit directly"""
    from rt1.rtfits import MultiFits

    p_check(fit)
    one = next(iter(fit.accessor.config_fits.values())) if isinstance(fit, MultiFits) else fit
    return dict(u=p_frame(one), w=dict(dyn=p_series(one)))


def pp_arg(fit):
    """define the stored reader-arguments explicitly"""
    d = pp_direct(fit)
    a = pd.DataFrame(dict(ID=[p17.name_of(fit.reader_arg["ID"])], extra=[fit.reader_arg["k"] * 2]), pd.Index([fit._RT1_ID_num], name="ID"))
    return dict(d, const__reader_arg=a)


POST = dict(frame=pp_frame, dict=pp_dict, direct=pp_direct, arg=pp_arg)
FMOD = MODULE + """
    @staticmethod
    def postprocess(fit):
        from rtv.props import p22
        return p22.POST[p22.p17.CUR["case"]["final"]["post"]](fit)
"""


@st.composite
def final_case(draw):
    cc = draw(p17.case(nmin=draw(st.sampled_from([1, 2, 2, 3]))))
    cc.update(save="all", perform=False, load=[])
    n, m = len(cc["fits"]), len(cc["defs"])
    names = cc["ismulti_names"][:m]
    post = draw(st.sampled_from(["frame", "frame", "dict", "dict", "direct", "arg"]))
    where = draw(st.sampled_from(["arg", "arg", "cls"]))
    use = "from_postprocess" if post in ("direct", "arg") else draw(st.sampled_from([None, None, "str", "list"])) if cc["multi"] else None
    if use == "str":
        use = draw(st.sampled_from(names))
    elif use == "list":
        use = list(draw(st.permutations(names)))[:draw(st.integers(1, m))]
    runs = [dict(new=draw(st.sampled_from([n, n, max(n - 1, 1), 1])), limit=draw(st.one_of(st.none(), st.none(), st.integers(1, n))), fresh=draw(st.booleans()),
                 ncpu=draw(st.integers(1, 3)), comb=draw(st.integers(1, 2)), chunk=draw(st.sampled_from([1, 2, 1000])),
                 index=draw(st.sampled_from([True, False, "dict"])), log=draw(st.sampled_from([21, 21, None])),
                 seed=draw(st.integers(0, 99)), listed=draw(st.integers(0, 3)) == 0) for _ in range(draw(st.integers(1, 3)))]
    cc["final"] = dict(post=post, where=where, use=use, runs=runs, dst=draw(st.sampled_from(["cfg", "cfg", "path", "name"])),
                       fail={str(k): draw(st.sampled_from(["raise", "skip"])) for k in range(n) if draw(st.integers(0, 3)) == 0},
                       copy=draw(st.booleans()))
    return cc


def run_final(cc, rec):
    from rt1._rtprocess_writer import RT1_processor
    from rt1.rtprocess import RTprocess

    e, n = cc["final"], len(cc["fits"])
    f.describe(cc["defs"][0], rec)
    rec.tag("multi" if cc["multi"] else "single", f"fits-{n}", f"runs-{len(e['runs'])}", "post-" + e["post"], "where-" + e["where"], "dst-" + e["dst"])
    p17.CUR.clear()
    p17.CUR.update(case=cc, exp={})
    path = list(sys.path)
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        T = Path(tmp) / "out" / "store"
        for s in ("cfg", "results", "dumps"):
            (T / s).mkdir(parents=True)
        ini, mod = Path(tmp) / "conf.ini", Path(tmp) / "procmod.py"
        mod.write_text(FMOD if e["where"] == "cls" else MODULE)
        ini.write_text(REST + f"[CONFIGFILES]\nmodule__processing_cfg = {mod}\n[PROCESS_SPECS]\npath__save_path = {T.parent}\n"
                       "dumpfolder = store\nfinalout_name = out.h5\n")
        db = T / "results" / "fit_db.h5"
        dst = dict(cfg=T / "results" / "out.h5", name=T / "results" / "ren.h5", path=T.parent / "x.h5")[e["dst"]]
        stored, want, proc = [], {}, None
        try:
            for i, r in enumerate(e["runs"]):
                with vproc.virtual(r["seed"], 0.1) as vr:
                    todo = list(range(len(stored), min(n, len(stored) + r["new"])))
                    if todo:
                        with RT1_processor.writer_pool(n_worker=1, dst_path=db, write_chunk_size=cc["chunk"],
                                                       min_itemsize={"index": 99, "values": 3000}) as w:
                            w.run_starmap(arg_list=[p17.reader_arg(cc, k) for k in todo], process_func=p17.process,
                                          ID_getter=lambda a: p17.name_of(a["ID"]))
                        stored += todo
                    if proc is None or r["fresh"]:
                        proc = RTprocess(str(ini), autocontinue=i % 2 == 0, parent_fit=p17.build(cc, 0)[0], copy=e["copy"])
                    kw = dict(n_combiner=r["comb"], write_chunk_size=r["chunk"], logfile_level=r["log"],
                              create_index=dict(idx_levels=["ID"]) if r["index"] == "dict" else r["index"])
                    if e["where"] == "arg":
                        kw["postprocess"] = POST[e["post"]]
                    if e["dst"] == "path":
                        kw["save_path"] = dst
                    elif e["dst"] == "name":
                        kw["finalout_name"] = dst.name
                    use = list(e["use"]) if isinstance(e["use"], list) else e["use"]
                    auto = proc.autocontinue
                    logs = p24.log_config()
                    proc.run_finaloutput(ncpu=r["ncpu"], use_N_files=r["limit"], use_config=use, print_progress=False, **kw)
                    need(p24.log_config() == logs, lambda: f"run {i}: the log of the main process is changed: {p24.log_config()} != {logs}")
                    need(use == e["use"] and proc.autocontinue == auto, "the arguments have been changed")
                    for p in vr.procs:
                        need(p.exc is None, lambda: f"{p.name} failed with {p.exc!r}")
                order = stored_order(db, cc)
                for k in order[:r["limit"]]:
                    if str(k) not in e["fail"]:
                        want[k] = True
                check_final(cc, dst, want, f"run {i}", rec)
        finally:
            sys.path[:] = path


def stored_order(db, cc):
    from rt1.rtresults import HDFaccessor

    by = {p17.name_of(q["ID"]): k for k, q in enumerate(cc["fits"])}
    with HDFaccessor(db) as h:
        return [by[p17.name_of(x)] for x in h.IDs.ID]


def check_final(cc, dst, want, what, rec):
    e = cc["final"]
    if not want:
        if dst.exists():
            with pd.HDFStore(dst, "r") as h:
                need(not [k for k in h.keys() if not k.endswith("/meta")], lambda: f"{what}: unexpected tables {h.keys()}")
        return
    need(dst.exists(), lambda: f"{what}: no data is exported")
    with pd.HDFStore(dst, "r") as h:
        data = {k.strip("/"): h.select(k) for k in h.keys() if not k.endswith("/meta")}
    names = cc["ismulti_names"][:len(cc["defs"])] if cc["multi"] else ["default"]
    use = names if e["use"] in (None, "from_postprocess") or not cc["multi"] else [e["use"]] if isinstance(e["use"], str) else e["use"]
    # tables: {key: (kind, position of the used config)}
    if e["post"] in ("direct", "arg"):
        tab = {"u": ("stat", 0), "w/dyn": ("dyn", 0)}
    elif e["post"] == "frame":
        tab = {u: ("stat", names.index(u)) for u in use}
    else:
        tab = {f"{u}/{t}": (t, names.index(u)) for u in use for t in ("stat", "dyn")}
    need(set(data) == set(tab) | {"reader_arg"}, lambda: f"{what}: tables {sorted(data)} instead of {sorted(tab)}")
    ra = data["reader_arg"]
    by = {p17.name_of(q["ID"]): k for k, q in enumerate(cc["fits"])}
    got = [by.get(p17.name_of(x)) for x in ra["ID"]]
    need(ra.index.is_unique and sorted(got, key=str) == sorted(want, key=str), lambda: f"{what}: exported fits {got} instead of {sorted(want)}")
    nums = dict(zip(ra.index, got))
    if e["post"] == "arg":
        need(set(ra.columns) == {"ID", "extra"} and all(x == 2 * k for x, k in zip(ra["extra"], got)), lambda: f"{what}: reader-args\n{ra}")
    else:
        for num, k in nums.items():
            for a, v in p17.reader_arg(cc, k).items():
                need(ra[a][num] == v or a == "ID", lambda: f"{what}: stored argument {a} of fit {k} is {ra[a][num]!r} instead of {v!r}")
    for key, (kind, j) in tab.items():
        d = data[key]
        need(set(d.index.get_level_values("ID")) == set(nums), lambda: f"{what}: table {key} contains {list(d.index)} instead of {nums}")
        for num, k in nums.items():
            c = p17.definitions(cc, k)[j]
            x = d[d.index.get_level_values("ID") == num]
            inc, sig = np.array([o[1] for o in c["obs"]]), np.array([o[2] for o in c["obs"]])
            if kind == "stat":
                need(len(x) == 1 and x["n"].iloc[0] == len(sig) and np.isclose(x["s"].iloc[0], sig.sum(), rtol=1e-12)
                     and x["ID_"].iloc[0] == p17.name_of(cc["fits"][k]["ID"]), lambda: f"{what}: {key} of fit {k}: {x}")
            else:
                need(list(x.index.get_level_values("date")) == list(f.index_of(c)) and np.allclose(x["v"], sig * 2 + inc, rtol=1e-12),
                     lambda: f"{what}: {key} of fit {k}: {x} instead of {sig * 2 + inc}")
    if len(want) > 1 and (len(tab) > 1 or e["fail"]):
        rec.tag("nontrivial")
    if e["fail"]:
        rec.tag("failing")


SUBS = [Sub("export", case, run, 150, 1800, shards=6, tshards=8),
        Sub("inter", lambda: case(True), run, 60, 800, shards=4, tshards=8),
        Sub("final", final_case, run_final, 120, 1500, shards=4, tshards=8)]

