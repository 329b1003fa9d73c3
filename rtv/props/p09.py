"""P09: evaluation of fitted models = per-observation evaluation of the equations"""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from ..core import Skip, Sub, fail, need

RULE = ("A case is a dataset with fitted / constant / auxiliary parameters, model inputs defined as numbers, "
        "parameters or functions of parameters, values for all parameter-groups and a unit. Non-trivial: at "
        "least two distinct parameter combinations or incidence-angles are evaluated.")
ASSUMPTIONS = ["reference: closed-form equations and numerical quadrature of the interaction integral evaluated "
               "for each observation separately"]
COLS = ["tot", "surf", "vol", "inter"]


def _tol(c):
    return 3e-3 if any(d.get("interp") for _, d in f.fitted(c)) else 1e-6


def _units(ref, inc, c):
    """array [.., 4] -> units (nan for non-positive values in dB)"""
    with np.errstate(all="ignore"):
        return f.to_units(ref, inc, c["sig0"], c["dB"])


def _cmp(got, want, lin_want, scale, c, what, extra=1.0):
    """compare in linear units relative to the total; skip undefined dB values"""
    got, want = float(got), float(want)
    if c["dB"]:
        if not np.isfinite(want) or lin_want <= 1e-7 * scale:
            return
        tol = 10 / np.log(10) * _tol(c) * extra * scale / lin_want
    else:
        tol = _tol(c) * extra * scale
    need(np.isfinite(got) and abs(got - want) <= tol + 1e-10 * abs(want),
         lambda: f"{what}: {got!r} instead of {want!r}")


def case(int_Q=None, interp=True, maxn=2):
    return f.definition(int_Q=int_Q, nmax=4, maxrep=2, interp=interp, maxn=maxn)


def _sorted_case(c, fit):
    """the case in the row-order of the (sorted) dataset"""
    ds = fit.dataset
    return dict(c, obs=[[o[0], float(a), float(b), o[3]] for o, a, b in zip(c["obs"], ds.inc, ds.sig)],
                cols={k: ds[k].tolist() for k in c["cols"]})


def _reference(cs, vals):
    P = f.obs_params(cs, vals)
    ref = np.array([f.ref_point(cs, o[1], p) for o, p in zip(cs["obs"], P)])
    return ref, P


def evaluate(c, rec):
    f.describe(c, rec)
    fit = f.make_fit(c)
    cs = _sorted_case(c, fit)
    vals = f.group_values(cs)
    order = sorted(vals) if len(c["obs"]) % 2 else list(vals)
    rd = {k: np.array(vals[k]) for k in order}
    ref, P = _reference(cs, vals)
    if len({(o[1], tuple(sorted(p.items()))) for o, p in zip(cs["obs"], P)}) > 1:
        rec.tag("nontrivial")
    inc = np.array([o[1] for o in cs["obs"]])[:, None]
    want = _units(ref, inc, c)
    idx = f.index_of(cs)
    ncol = 4 if c["int_Q"] else 3
    outs = [("calc_model(res_dict)", fit.calc_model(res_dict={k: v.copy() for k, v in rd.items()}), 1),
            ("calc_model(components)", fit.calc_model(res_dict={k: v.copy() for k, v in rd.items()},
                                                      return_components=True), ncol)]
    fit.res_dict = {k: v.copy() for k, v in rd.items()}
    outs.append(("calc_model()", fit.calc_model(), 1))
    need(all(np.array_equal(fit.res_dict[k], rd[k]) for k in rd), "res_dict was changed by an evaluation")
    for what, df, n in outs:
        need(list(df.columns) == COLS[:n], lambda: f"{what} returned columns {list(df.columns)}")
        need(len(df) == len(idx), lambda: f"{what}: {len(df)} values for {len(idx)} observations")
        for t in sorted(set(idx)):
            rows = [i for i in range(len(idx)) if idx[i] == t]
            sub = df[df.index == t]
            need(len(sub) == len(rows), f"{what}: values at {t}")
            # match repeated dates by their totals
            a = sub.iloc[np.argsort(sub["tot"].values)]
            b = sorted(rows, key=lambda i: want[i, 0] if np.isfinite(want[i, 0]) else np.inf)
            if not all(np.isfinite(want[i, 0]) for i in rows):
                continue
            for (_, r), i in zip(a.iterrows(), b):
                for j in range(n):
                    _cmp(r.iloc[j], want[i, j], ref[i, j], max(abs(ref[i]).max(), 1e-12), c,
                         f"{what} {COLS[j]} at {t} (inc={cs['obs'][i][1]}, {P[i]})")


@st.composite
def calc_case(draw):
    c = draw(f.definition(nmax=2, maxrep=1, interp=False, styles=("dict", "call"), weights=False)
             if False else f.definition(nmax=2, maxrep=1, interp=False))
    m, k = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    c["calc"] = dict(
        vals={n: draw(st.lists(g.num(0.05, 0.6), min_size=m, max_size=m)) for n, d in c["params"] if d["fit"]},
        fixed={n: draw(st.lists(g.num(0.05, 0.6), min_size=m, max_size=m)) for n, d in c["params"]
               if not d["fit"] and d["val"] == "auxiliary"},
        inc=draw(st.lists(g.num(0.1, 1.2), min_size=k, max_size=k)),
        perm=draw(st.integers(0, 5)), comp=draw(st.booleans()), df=draw(st.booleans()),
        scalars=draw(st.booleans()))
    return c


def calc(c, rec):
    f.describe(c, rec)
    q = c["calc"]
    fit = f.make_fit(c)
    names = list(q["vals"])
    rs = np.random.RandomState(q["perm"])
    names = [names[i] for i in rs.permutation(len(names))]
    m, k = len(next(iter(q["vals"].values()))), len(q["inc"])
    if m * k > 1:
        rec.tag("nontrivial")
    par = {n: (q["vals"][n][0] if m == 1 and q["scalars"] else list(q["vals"][n])) for n in names}
    fixed = {n: list(v) for n, v in q["fixed"].items()} or None
    if q["df"]:
        rec.tag("DataFrame")
        ix = [f"r{i}" for i in range(m)]
        par = pd.DataFrame({n: q["vals"][n] for n in names}, index=ix)
        if fixed is not None:
            fixed = pd.DataFrame(fixed, index=ix).iloc[::-1]  # aligned by label
    res = fit.calc(par, np.array(q["inc"]), return_components=q["comp"], fixed_param=fixed)
    const = {n: d["val"] for n, d in c["params"] if not d["fit"] and d["val"] != "auxiliary"}
    res = list(res) if q["comp"] else [res]
    need(len(res) == ((4 if c["int_Q"] else 3) if q["comp"] else 1), lambda: f"{len(res)} contributions returned")
    for i in range(m):
        P = {**const, **{n: v[i] for n, v in q["vals"].items()}, **{n: v[i] for n, v in q["fixed"].items()}}
        for j, inc in enumerate(q["inc"]):
            ref = f.ref_point(c, inc, P)
            want = _units(ref, inc, c)
            for l, r in enumerate(res):
                r = np.asarray(r, float)
                try:
                    v = np.broadcast_to(r, (m, k))[i, j]
                except ValueError:
                    fail(f"result has shape {r.shape} instead of {(m, k)}")
                _cmp(v, want[l], ref[l], max(abs(ref).max(), 1e-12), c, f"calc {COLS[l]} (inc={inc}, {P})")


SUBS = [
    Sub("no-interaction", lambda: case(False), evaluate, 800, 12000, shards=2, tshards=3),
    Sub("interaction", lambda: case(True), evaluate, 200, 4000, shards=3, tshards=4),
    Sub("calc", calc_case, calc, 350, 6000, shards=3, tshards=4),
]
