"""P13: storing, loading, copying and re-initialising fits"""
import copy
import os
import pickle
import tempfile

import numpy as np
import sympy as sp
from hypothesis import strategies as st

from .. import fitgen as f
from ..core import Sub, need
from .p12 import _lsq, cmp_frames, cmp_group

RULE = ("A case is a fit-definition and a sequence of fits, pickles, dumps (mini / full / to an unavailable path), "
        "deep-copies, re-initialisations with overrides, conversions via init_dict and edits of any of the objects "
        "created so far. Non-trivial: at least two objects derived from each other, one of them with results.")
ASSUMPTIONS = ["oracle: a new object with the expected definition (its correctness is decided by P08-P11) and the "
               "results of the original object"]

OVER = ["sig0", "dB", "int_Q", "lsq", "rows", "freq", "const", "style", "N", "aux"]


@st.composite
def ops(draw):
    k = st.integers(0, 5)
    one = st.one_of(
        st.tuples(st.just("fit"), k), st.tuples(st.just("fit"), k),
        st.tuples(st.just("pickle"), k), st.tuples(st.just("deepcopy"), k),
        st.tuples(st.just("dump"), k, st.booleans()), st.tuples(st.just("dump"), k, st.booleans()),
        st.tuples(st.just("faildump"), k),
        st.tuples(st.just("reinit"), k, st.lists(st.sampled_from(OVER), max_size=3, unique=True), k),
        st.tuples(st.just("initdict"), k),
        st.tuples(st.just("reinit"), k, st.lists(st.sampled_from(OVER), max_size=1, unique=True), k),
        st.tuples(st.just("edit"), k, st.sampled_from(["freq", "const", "lsq", "rows", "funcs", "setting"]), k),
        st.tuples(st.just("edit"), k, st.sampled_from(["infuncs", "infuncs", "lsq", "const"]), k),
    ).map(list)
    return draw(st.lists(one, min_size=2, max_size=7))


@st.composite
def case(draw, int_Q):
    c = draw(f.definition(nmax=4, maxrep=2, maxpar=3, maxn=2, int_Q=int_Q, auxstart=True))
    return dict(c=c, ops=draw(ops()), aux=draw(st.booleans()), n=draw(st.integers(1, 3)))


def change(c, kind, k):
    """the definition `c` after a change"""
    c = copy.deepcopy(c)
    if kind in ("sig0", "dB", "int_Q"):
        c[kind] = not c[kind]
    elif kind == "freq":
        for nm, d in c["params"]:
            if d["fit"]:
                d.update(freq=[None, "index", 2][k % 3], interp=False, hi=0.75)
    elif kind == "const":
        for nm, d in c["params"]:
            if not d["fit"] or d["val"] != "auxiliary":
                d["val"] = [0.15, 0.25, 0.4][k % 3]
                d.pop("ctype", None)
    elif kind == "style":
        c["style"] = "call" if c["style"] == "dict" else "dict"
    elif kind == "N":
        if c["N"] not in dict(c["params"]) and not isinstance(c["N"], str):
            c["N"] = [0.11, 0.22][k % 2]
    elif kind == "rows":
        n = max(1, len(c["obs"]) - k)
        c["obs"] = c["obs"][:n]
        c["cols"] = {a: v[:n] for a, v in c["cols"].items()}
        c.pop("order", None)
    return c


class St:
    def __init__(self, fit, c, nfev, ds=None, backend=None):
        self.fit, self.c, self.nfev = fit, c, nfev
        self.res = self.df = self.mod = None
        self.mini = False

    def child(self, fit):
        s = St(fit, copy.deepcopy(self.c), self.nfev)
        s.res, s.df, s.mod = copy.deepcopy(self.res), self.df, self.mod
        s.mini = self.mini
        return s


def fresh(s):
    return f.make_fit(s.c, lsq_kwargs=dict(max_nfev=s.nfev))


def verify(s, what, heavy=True):
    fit = s.fit
    try:
        need(bool(fit.sig0) == bool(s.c["sig0"]) and bool(fit.dB) == bool(s.c["dB"]), "sig0 / dB")
        need(bool(fit.int_Q) == bool(s.c["int_Q"]), "int_Q")
        need(fit.lsq_kwargs == dict(max_nfev=s.nfev), lambda: f"lsq_kwargs {fit.lsq_kwargs}")
        ref = fresh(s)
        need(list(fit.defdict) == list(ref.defdict), lambda: f"parameters {list(fit.defdict)} / {list(ref.defdict)}")
        a, b = fit.defdict.to_dict(), ref.defdict.to_dict()
        need({k: list(v) for k, v in a.items()} == {k: list(v) for k, v in b.items()},
             lambda: f"definitions {a} / {b}")
        need(list(fit.dataset.columns) == list(ref.dataset.columns) and
             np.array_equal(np.asarray(fit.dataset.index), np.asarray(ref.dataset.index)) and
             np.array_equal(fit.dataset.values.astype(float), ref.dataset.values.astype(float)), "dataset differs")
        if not heavy:
            return
        cmp_group(fit, ref)
        v = f.group_values(s.c, 3)
        res = {k: np.array(x) for k, x in v.items()}
        cmp_frames(fit.calc_model(res_dict=res), ref.calc_model(res_dict=res), "calc_model")
        if s.res is not None:
            need(set(fit.res_dict) == set(s.res) and all(
                np.array_equal(np.asarray(fit.res_dict[k], float), s.res[k]) for k in s.res),
                lambda: f"results {fit.res_dict} instead of {s.res}")
            cmp_frames(fit.res_df, s.df, "res_df")
            cmp_frames(fit.calc_model(return_components=True), s.mod, "calc_model()")
            out = fit.fit_output
            if s.mini:
                need(isinstance(out, dict) and {"fit_success", "fit_status", "fit_optimality"} <= set(out),
                     lambda: f"fit_output of a mini-dump: {out}")
            else:
                need(hasattr(out, "cost") and hasattr(out, "x"), lambda: f"fit_output is lost: {str(out)[:200]}")
    except Exception as e:
        e.args = (f"[{what}] {e.args[0] if e.args else ''}",) + tuple(e.args[1:])
        raise


def keep(s):
    s.res = {k: np.array(v, dtype=float) for k, v in s.fit.res_dict.items()}
    s.df = s.fit.res_df.copy()
    s.mod = s.fit.calc_model(return_components=True).copy()
    s.mini = False


def run(cc, rec):
    import cloudpickle

    from rt1 import rtfits

    c = cc["c"]
    f.describe(c, rec)
    tmp = tempfile.mkdtemp(dir=os.environ.get("RTV_SCRATCH"))
    first = St(None, c, cc["n"])
    first.fit = fresh(first)
    objs = [first]
    auxd = f.make_dataset(c)[["sig"]] if cc["aux"] else None
    if cc["aux"]:
        first.fit.aux_data = auxd
    has_aux = {id(first): cc["aux"]}
    try:
        for i, o in enumerate(cc["ops"]):
            s = objs[o[1] % len(objs)]
            rec.tag(o[0])
            what = f"op {i}: {o}"
            if o[0] == "fit":
                if _lsq(s.fit):
                    keep(s)
                continue
            if o[0] == "edit":
                edit(s, o[2], o[3])
                continue
            new = None
            if o[0] == "pickle":
                new = s.child(pickle.loads(cloudpickle.dumps(s.fit)))
            elif o[0] == "deepcopy":
                new = s.child(copy.deepcopy(s.fit))
            elif o[0] == "dump":
                path = os.path.join(tmp, f"f{i}.dump")
                s.fit.dump(path, mini=o[2])
                new = s.child(rtfits.load(path))
                os.unlink(path)
                new.mini = new.mini or o[2]
                need(new.fit.ID == s.fit.ID, "ID is not preserved")
            elif o[0] == "faildump":
                try:
                    s.fit.dump(os.path.join(tmp, "missing-folder", "x.dump"))
                except OSError:
                    pass
                new = s.child(pickle.loads(cloudpickle.dumps(s.fit)))
            elif o[0] == "initdict":
                fit = s.fit.reinit_object(set_V_SRF=init_dicts(s))
                new = s.child(fit)
                new.res = None
                has = has_aux[id(s)]
            elif o[0] == "reinit":
                kw, nc, nfev, has = {}, copy.deepcopy(s.c), s.nfev, has_aux[id(s)]
                for kind in o[2]:
                    rec.tag("override-" + kind)
                    if kind == "aux":
                        kw["share_auxdata"] = bool(o[3] % 2)
                        has = has and bool(o[3] % 2)
                        continue
                    if kind == "lsq":
                        nfev = o[3] + 1
                        kw["lsq_kwargs"] = dict(max_nfev=nfev)
                        continue
                    nc = change(nc, kind, o[3])
                    if kind in ("sig0", "dB", "int_Q"):
                        kw[kind] = nc[kind]
                    elif kind in ("freq", "const"):
                        kw["defdict"] = f.defdict(nc)
                    elif kind in ("style", "N"):
                        kw["set_V_SRF"] = f.set_V_SRF(nc)
                    elif kind == "rows":
                        kw["dataset"] = f.make_dataset(nc)
                new = St(s.fit.reinit_object(**kw), nc, nfev)
            if o[0] in ("pickle", "deepcopy", "dump", "faildump"):
                has = has_aux[id(s)]
            has_aux[id(new)] = has
            got = getattr(new.fit, "aux_data", None)
            need((got is not None) == has, lambda: f"[{what}] aux_data {'is missing' if has else 'is shared'}")
            need(new.fit is not s.fit, "no new object")
            verify(new, what)
            objs.append(new)
            if s.res is not None:
                rec.tag("nontrivial")
            verify(s, what + ", original")
        for i, s in enumerate(objs):
            verify(s, f"final state of object {i}")
    finally:
        for n in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)


def init_dicts(s):
    V, S = f.set_V_SRF(dict(s.c, style="call"))(**{n: sp.Symbol(n) for n, _ in s.c["params"]})
    return dict(V_props=V.init_dict, SRF_props=S.init_dict)


def edit(s, kind, k):
    """change one of the objects: all others must be unaffected"""
    fit = s.fit
    if kind in ("freq", "const"):
        s.c = change(s.c, kind, k)
        for nm, d in s.c["params"]:
            var = fit.defdict[nm]
            if d["fit"]:
                var.freq, var.interpQ, var.maxval = f.defdict(s.c)[nm][2], bool(d["interp"]), d["hi"]
            var.val = d["val"]
        fit._clear_cache()
    elif kind == "lsq":
        s.nfev = k + 1
        fit.lsq_kwargs["max_nfev"] = s.nfev
        return
    elif kind == "rows":
        s.c = change(s.c, kind, k)
        fit.dataset = f.make_dataset(s.c)
    elif kind == "funcs":
        s.c = change(s.c, "style", k)
        fit.set_V_SRF = f.set_V_SRF(s.c)
    elif kind == "infuncs":
        if isinstance(fit.set_V_SRF, dict):
            # in-place change of the (deep-copied) dictionary
            fit.set_V_SRF["V_props"]["omega"] = 0.123
            fit._clear_cache()
            s.c = dict(s.c, omega=0.123, style="dict")
    elif kind == "setting":
        s.c["sig0"] = not s.c["sig0"]
        fit.sig0 = s.c["sig0"]
    s.res = None


SUBS = [
    Sub("store", lambda: case(False), run, 260, 6000, shards=4),
    Sub("store-int", lambda: case(True), run, 60, 1200, shards=4),
]
