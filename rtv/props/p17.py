"""P17: fits stored in a result-file are recovered"""
import copy
import os
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from .. import vproc
from ..core import Sub, need
from .p12 import cmp_frames, cmp_group

RULE = ("A case is a list of fits (single or several configurations; the same definitions with different data and results) "
        "with unique identifiers that is stored by the result-writer in a generated number of sessions, "
        "chunks and order, and loaded by name / number in a generated order. Non-trivial: at least two stored fits and "
        "the stored position of some fit differs from its number, or several configurations.")
ASSUMPTIONS = ["worker-, combiner- and writer-processes are virtual (threads working on pickled copies), see DESIGN.md",
               "the fits of one result-file share their definitions and settings, as the fits of a processing-run do (the "
               "definitions are stored as categorical columns of one table)"]

IDS = ["a", "a.b", "s1.5", "site_1", "site_12", "sit", "A", "7", "site-1", "x1", "12a", "Zz", "class", "RT1_9", "007", "ä1", "1_2"]
CUR = {}


@st.composite
def case(draw, int_Q=False, nmin=1):
    multi = int_Q or draw(st.booleans())
    n = draw(st.integers(nmin, 4))
    kw = dict(nmax=3, maxrep=2, maxpar=3, maxn=1, auxstart=True, shuffle=False)
    defs = [draw(f.definition(**kw, int_Q=int_Q or draw(st.integers(0, 4)) == 0)) for _ in range(2 if int_Q else draw(st.integers(1, 2)) if multi else 1)]
    ids = draw(st.lists(st.sampled_from(IDS), min_size=n, max_size=n, unique_by=lambda s: name_of(s)))
    fits = []
    for k in range(n):
        fits.append(dict(ID=ids[k], salt=draw(st.integers(0, 9)), drop=draw(st.integers(0, 2)),
                         scale=draw(st.sampled_from([1, 1.25, 0.5])), aux=draw(st.booleans())))
    bad = {nm for k in range(n) for c in definitions(dict(defs=defs, fits=fits), k) for nm in f.interp_undefined(c)}
    for c in defs:
        for nm, d in c["params"]:
            if nm in bad:
                d["interp"] = False
    return dict(multi=multi, defs=defs, fits=fits, cut=draw(st.integers(0, n)), ismulti_names=draw(st.permutations(["c1", "B", "z_0"])),
                chunk=draw(st.integers(1, 4)), workers=draw(st.integers(1, 3)), seed=draw(st.integers(0, 99)),
                perform=draw(st.integers(0, 3)) == 0, nfev=draw(st.integers(1, 2)), aux=draw(st.booleans()), rarg=draw(st.booleans()),
                save=draw(st.sampled_from(["all", "all", "all", "nodata", "noresults", "noaux", "nores_df"])),
                load=draw(st.lists(st.tuples(st.integers(0, n - 1), st.sampled_from(["name", "num", "results", "named", "rnum"])).map(list),
                                   min_size=n, max_size=2 * n)))


def name_of(ID):
    import keyword

    ID = str(ID)
    return ID if ID.startswith("RT1_") or ID.isidentifier() and not keyword.iskeyword(ID) else "RT1_" + ID


def dataset_of(c, q):
    c = copy.deepcopy(c)
    n = max(1, len(c["obs"]) - q["drop"])
    c["obs"] = [[t, i, round(s * q["scale"], 6), w] for t, i, s, w in c["obs"][:n]]
    c["cols"] = {k: v[:n] for k, v in c["cols"].items()}
    return c


def definitions(cc, k):
    """the definitions of all configs of the k-th fit (they share the dataset of the first one)"""
    q = cc["fits"][k]
    cs = [copy.deepcopy(c) for c in cc["defs"]]
    base = dataset_of(cs[0], q)
    out = []
    for i, c in enumerate(cs):
        c["obs"], c["weights"], c["start"] = base["obs"], base["weights"], base["start"]
        c["ixname"] = base.get("ixname")
        n = len(c["obs"])
        c["cols"] = {a: (list(v) * 12)[:n] for a, v in c["cols"].items()}
        out.append(c)
    # all columns are part of the shared dataset
    cols = {}
    for c in out:
        for a, v in c["cols"].items():
            if a not in cols:
                cols[a] = v
    for c in out:
        c["cols"] = cols
    return out


def aux_of(c, k):
    idx = pd.date_range("2019-01-01", periods=1 + k % 3, freq="D")
    return pd.DataFrame(dict(rain=np.arange(len(idx)) + k / 10, T=20.5 - np.arange(len(idx))), index=idx)


def build(cc, k):
    """the k-th fit including (given or fitted) results"""
    from rt1.rtfits import MultiFits

    q = cc["fits"][k]
    fits = []
    for j, c in enumerate(definitions(cc, k)):
        fit = f.make_fit(c, lsq_kwargs=dict(max_nfev=cc["nfev"], ftol=1e-4), **({} if cc["multi"] else dict(ID=name_of(q["ID"]))))
        fits.append((fit, c))
    if cc["multi"]:
        mf = MultiFits()
        for nm, (fit, c) in zip(cc["ismulti_names"], fits):
            mf.add_config(nm, fit)
        mf.set_dataset(f.make_dataset(fits[0][1]))
        mf.set_ID(name_of(q["ID"]))
        if cc["aux"]:
            mf.set_aux_data(aux_of(cc, k))
    elif cc["aux"]:
        fits[0][0].aux_data = aux_of(cc, k)
    for j, (fit, c) in enumerate(fits):
        if cc["perform"]:
            fit.performfit()
        else:
            fit.res_dict = {a: list(v) for a, v in f.group_values(c, q["salt"] + j).items()}
    return (mf if cc["multi"] else fits[0][0]), [x for x, _ in fits], [c for _, c in fits]


SAVE = dict(all={}, nodata=dict(save_data=False), noresults=dict(save_results=False, save_res_df=False),
            noaux=dict(save_auxdata=False), nores_df=dict(save_res_df=False))


def process(arg):
    cc = CUR["case"]
    obj, fits, cs = build(cc, arg["k"])
    if cc["multi"]:
        obj.set_reader_arg(arg)
    else:
        obj.reader_arg = arg
    CUR["exp"][arg["ID"]] = dict(res=[{a: np.array(v, float) for a, v in x.res_dict.items()} for x in fits],
                                 df=[x.res_df.copy() for x in fits], arg=dict(arg))
    return obj._get_fit_to_hdf_dict(ID=arg["_RT1_ID_num"], **SAVE[cc["save"]])


def reader_arg(cc, k):
    a = dict(ID=cc["fits"][k]["ID"], k=k)
    if cc["rarg"]:
        a.update(path=f"/data/p_{k}.nc", lat=47.5 + k)
    return a


def check_nodata(parts, cs):
    """without the data, only the columns required to assign the results (manual dynamics) are stored"""
    cols = {a + "_dyn" for c in cs for a, p in c["params"] if p["fit"] and "manual" in str(p["freq"])}
    ref = f.make_dataset(cs[0])
    for fit in parts:
        if not cols:
            need(fit.dataset is None or not len(fit.dataset.columns), lambda: f"unexpected dataset {fit.dataset}")
            continue
        need(fit.dataset is not None, "the manual dynamics are lost")
        need(set(fit.dataset.columns) == cols, lambda: f"columns {list(fit.dataset.columns)} instead of {cols}")
        need(list(fit.dataset.index) == list(ref.index), "index of the dataset")
        need(all(np.array_equal(fit.dataset[a].values.astype(float), ref[a].values.astype(float)) for a in cols),
             "values of the manual dynamics")


def check(obj, cc, k, what):
    from rt1.rtfits import Fits, MultiFits

    q, exp = cc["fits"][k], CUR["exp"][cc["fits"][k]["ID"]]
    try:
        need(isinstance(obj, MultiFits if cc["multi"] else Fits), lambda: f"{type(obj)} is loaded")
        need(obj.ID == name_of(q["ID"]), lambda: f"ID {obj.ID!r} instead of {name_of(q['ID'])!r}")
        names = cc["ismulti_names"][:len(cc["defs"])]
        if cc["multi"]:
            need(list(obj.config_names) == list(names), lambda: f"configs {obj.config_names}")
            parts = [getattr(obj.configs, n) for n in names]
            need(all(p.ID == obj.ID for p in parts), "IDs of the configs")
        else:
            parts = [obj]
        for a, v in exp["arg"].items():
            need(a in obj.reader_arg and obj.reader_arg[a] == v, lambda: f"reader_arg {obj.reader_arg} instead of {exp['arg']}")
        cs = definitions(cc, k)
        save = cc["save"]
        if cc["aux"] and save != "noaux":
            x, y = obj.aux_data, aux_of(cc, k)
            need(list(x.columns) == list(y.columns) and np.array_equal(x.values, y.values) and list(x.index) == list(y.index),
                 lambda: f"aux_data\n{x}\ninstead of\n{y}")
        else:
            need(getattr(obj, "aux_data", None) is None, "aux_data is not expected")
        if save == "nodata":
            check_nodata(parts, cs)
        for j, (fit, c) in enumerate(zip(parts, cs)):
            ref = f.make_fit(c, lsq_kwargs=dict(max_nfev=cc["nfev"], ftol=1e-4))
            need(fit.lsq_kwargs == ref.lsq_kwargs, lambda: f"lsq_kwargs {fit.lsq_kwargs}")
            need((fit.sig0, fit.dB, fit.int_Q) == (ref.sig0, ref.dB, ref.int_Q), "sig0 / dB / int_Q")
            a, b = fit.defdict.to_dict("dict"), ref.defdict.to_dict("dict")
            need(list(a) == list(b) and a == b, lambda: f"definitions {a} instead of {b}")
            if save == "noresults":
                need(not getattr(fit, "res_dict", None), "results are not expected")
            else:
                need(set(fit.res_dict) == set(exp["res"][j]) and
                     all(np.array_equal(np.asarray(fit.res_dict[a], float), v) for a, v in exp["res"][j].items()),
                     lambda: f"results {fit.res_dict} instead of {exp['res'][j]}")
                if fit.dataset is None and save == "nodata":
                    continue
                df = fit.res_df
                need(list(df.index) == list(exp["df"][j].index), "index of res_df")
                cmp_frames(df[exp["df"][j].columns], exp["df"][j], "res_df")
            if save == "nodata":
                # only the columns required to assign the results (manual dynamics) are stored
                continue
            need(fit.dataset is not None, "no dataset")
            need(list(fit.dataset.columns) == list(ref.dataset.columns) and
                 list(fit.dataset.index) == list(ref.dataset.index) and
                 np.array_equal(fit.dataset.values.astype(float), ref.dataset.values.astype(float)),
                 lambda: f"dataset\n{fit.dataset}\ninstead of\n{ref.dataset}")
            cmp_group(fit, ref)
            res = {a: v for a, v in exp["res"][j].items()}
            x = fit.calc_model(res_dict=res, return_components=True)
            cmp_frames(x, ref.calc_model(res_dict=res, return_components=True), "calc_model")
            if save != "noresults":
                cmp_frames(fit.calc_model(return_components=True), x, "calc_model of the stored results")
    except Exception as e:
        e.args = (f"[{what}] {e.args[0] if e.args else ''}",) + tuple(e.args[1:])
        raise


def run(cc, rec):
    from rt1._rtprocess_writer import RT1_processor
    from rt1.rtresults import HDFaccessor, RTresults

    n = len(cc["fits"])
    f.describe(cc["defs"][0], rec)
    rec.tag("save-" + cc["save"], "multi" if cc["multi"] else "single", f"fits-{n}")
    CUR.clear()
    CUR.update(case=cc, exp={})
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        T = Path(tmp) / "store"
        for s in ("cfg", "results", "dumps"):
            (T / s).mkdir(parents=True)
        dst = T / "results" / "fit_db.h5"
        kw = dict(min_itemsize={"index": 99, "values": 3000}) if cc["seed"] % 2 else {}
        with vproc.virtual(cc["seed"], 0.1) as vr:
            for part in (range(cc["cut"]), range(n)):
                if len(part) == 0:
                    continue
                with RT1_processor.writer_pool(n_worker=cc["workers"], n_combiner=1 + cc["seed"] % 2, dst_path=dst,
                                               write_chunk_size=cc["chunk"], **kw) as w:
                    w.run_starmap(arg_list=[reader_arg(cc, k) for k in part], process_func=process,
                                  ID_getter=lambda a: name_of(a["ID"]))
            for p in vr.procs:
                need(p.exc is None, lambda: f"{p.name} failed with {p.exc!r}")
        need(dst.exists(), "no results are stored")
        with HDFaccessor(dst) as h:
            got = {str(i): int(k) for k, i in h.IDs.ID.items()}
            want = sorted(name_of(q["ID"]) for q in cc["fits"])
            need(len(h.IDs) == n and sorted(got) == want, lambda: f"stored IDs {sorted(got)} instead of {want}")
            if list(h.IDs.index) != sorted(h.IDs.index):
                rec.tag("position-differs", "nontrivial")
            if n > 1 and (cc["multi"] and len(cc["defs"]) > 1):
                rec.tag("nontrivial")
            for k, how in cc["load"]:
                nm = name_of(cc["fits"][k]["ID"])
                if how == "name":
                    check(h.load_fit(nm), cc, k, f"fit {k} by name")
                elif how == "num":
                    check(h.load_fit(got[nm]), cc, k, f"fit {k} by number")
            x = h.load_fit(None)
            need(x.ID in got, "random fit")
            check(x, cc, want_index(cc, x.ID), "random fit")
        res = RTresults(T)
        try:
            for k, how in cc["load"]:
                nm = name_of(cc["fits"][k]["ID"])
                if how == "results":
                    check(res.store.load_fit(nm), cc, k, f"fit {k} via RTresults")
                elif how == "named":
                    fit, ID = res.store.load_fit(nm, return_ID=True)
                    need(ID == nm, lambda: f"ID {ID!r} is returned instead of {nm!r}")
                    check(fit, cc, k, f"fit {k} via RTresults with ID")
                elif how == "rnum":
                    check(res["store"].load_fit(got[nm]), cc, k, f"fit {k} via RTresults by number")
            ids = list(res.store.dump_files)
            need(sorted(ids) == sorted(got), lambda: f"listed IDs {ids}")
        finally:
            res.store.fit_db.close()


def want_index(cc, ID):
    return [name_of(q["ID"]) for q in cc["fits"]].index(ID)


SUBS = [Sub("hdf", case, run, 120, 2500, shards=6, tshards=8)]
