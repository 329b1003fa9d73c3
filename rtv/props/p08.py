"""P08: grouping of observations and parameters"""
import random
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from ..core import Skip, Sub, close, fail, need

RULE = ("A case is a dataset (repeated dates, unsorted rows, weights) together with fitted parameters of any "
        "dynamics. Non-trivial: at least two observations and a parameter with at least two groups.")
ASSUMPTIONS = ["reference grouping re-implemented from the documented meaning of 'freq' with plain "
               "calendar arithmetic"]


def group_case(freqs=None, **kw):
    return f.definition(freqs=freqs, int_Q=False, nmax=9, maxrep=4, lin=False, styles=("dict",), **kw)


def _nontriv(c, rec):
    return len(c["obs"]) > 1 and any(len(set(f.labels(c, n, d))) > 1 for n, d in f.fitted(c))


def _rows(idx, *cols):
    return Counter(zip([int(t) for t in pd.DatetimeIndex(idx).as_unit("ns").asi8],
                       *[[float(x) for x in c] for c in cols]))


def grouping(c, rec):
    f.describe(c, rec)
    fit = f.make_fit(c)
    idx = f.index_of(c)
    n = len(idx)
    # ---- dynamics: same value <-> same group
    pdd = fit.param_dyn_dict
    need(list(pdd) and set(pdd) == {k for k, _ in f.fitted(c)}, lambda: f"param_dyn_dict has keys {list(pdd)}")
    # rows of equal date may be re-ordered when an unsorted dataset is sorted
    src = f.make_dataset(c)
    ds = fit.dataset
    need(ds.index.is_monotonic_increasing and len(ds) == n, "dataset is not sorted / incomplete")
    need(_rows(ds.index, ds.inc, ds.sig) == _rows(src.index, src.inc, src.sig), "rows of the dataset changed")
    cs = dict(c, obs=[[o[0], float(r.inc), float(r.sig), float(r.get("data_weights", 1))] for o, (_, r) in
                      zip(c["obs"], ds.iterrows())],
              cols={k: ds[k].tolist() for k in c["cols"]})
    vals = f.group_values(cs)
    rk = {}
    for nm, d in f.fitted(cs):
        rk[nm] = f.ranks(f.labels(cs, nm, d))
        got = f.ranks(list(pdd[nm]))
        need(got == rk[nm], lambda: f"{nm} (freq={d['freq']}): groups {got} instead of {rk[nm]}")
    # ---- every observation is used exactly once, paddings are masked
    ok = ~np.asarray(fit.mask, bool)
    need(ok.shape == fit.inc.shape == fit.data.shape, "shapes of inc/data/mask differ")
    need(int(ok.sum()) == n, lambda: f"{int(ok.sum())} of {n} observations are used")
    combos = f.ranks(list(zip(*rk.values())))
    need(ok.shape[0] == max(combos) + 1, lambda: f"{ok.shape[0]} groups instead of {max(combos) + 1}")
    want = Counter()
    for k, o in zip(combos, cs["obs"]):
        want[(k, o[1], o[2]) + ((o[3],) if c["weights"] else ())] += 1
    got = Counter()
    w = np.broadcast_to(np.asarray(fit.data_weights, float), fit.inc.shape)
    for i, j in zip(*np.nonzero(ok)):
        got[(int(i), float(fit.inc[i, j]), float(fit.data[i, j])) + ((float(w[i, j]),) if c["weights"] else ())] += 1
    need(got == want, lambda: f"grouped observations {dict(got)} instead of {dict(want)}")
    for i in range(ok.shape[0]):  # documented: padding repeats the last value of each row
        m = int(ok[i].sum())
        need(ok[i, :m].all() and np.all(fit.inc[i, m:] == fit.inc[i, m - 1])
             and np.all(fit.data[i, m:] == fit.data[i, m - 1]), f"padding of row {i}")
    if not c["weights"]:
        need(np.all(w == 1), "weights without a data_weights column")
    # ---- unique index values & mean dates
    ix = [[int(t) for t, k in zip(idx.as_unit("ns").asi8, combos) if k == kk] for kk in range(max(combos) + 1)]
    want = [t for i in ix for t in dict.fromkeys(i)]
    gi = [int(t) for t in pd.DatetimeIndex(fit.index).as_unit("ns").asi8]
    need(gi == want, lambda: f"index {gi} instead of {want}")
    for nm, d in f.fitted(cs):
        mt = f.mean_times(cs, f.labels(cs, nm, d))
        gm = [float(t) for t in pd.DatetimeIndex(fit.meandatetimes[nm]).as_unit("ns").asi8]
        need(len(gm) == len(mt) and np.all(np.abs(np.subtract(gm, mt)) < 1e6),
             lambda: f"meandatetimes of {nm}: {gm} instead of {mt}")
    gm = pd.DatetimeIndex(fit.meandatetimes_group).as_unit("ns").asi8.astype(float)
    mt = f.mean_times(cs, combos)
    need(len(gm) == len(mt) and np.all(np.abs(gm - mt) < 1e6), "meandatetimes_group")
    # ---- parameter time-series
    for nm, d in f.fitted(cs):
        if d["interp"] and f.interp_values(cs, f.labels(cs, nm, d), vals[nm]) is None:
            rec.tag("interp-undefined")  # several appearances of groups with the same mean-date
            return
    fit.res_dict = {k: np.array(v) for k, v in vals.items()}
    rd = fit.res_df
    need(sorted(rd.columns) == sorted(vals) and list(rd.index) == sorted(set(idx)), "index/columns of res_df")
    for nm, d in f.fitted(cs):
        lab = f.labels(cs, nm, d)
        if d["interp"]:
            pv = f.interp_values(cs, lab, vals[nm])
        else:
            pv = [vals[nm][k] for k in rk[nm]]
        for t, x in rd[nm].items():
            cand = [v for v, ti in zip(pv, idx) if ti == t]
            tol = 1e-4 if d["interp"] else 1e-12
            need(any(abs(x - v) <= tol * max(1, abs(v)) for v in cand),
                 lambda: f"res_df of {nm} at {t}: {x} instead of {cand}")
    if not any(d["interp"] for _, d in f.fitted(cs)):
        rg = fit.res_df_group
        for nm in vals:
            wv = [vals[nm][rk[nm][combos.index(k)]] for k in range(max(combos) + 1)]
            need(close(rg[nm].values, wv), lambda: f"res_df_group of {nm}: {rg[nm].tolist()} instead of {wv}")


@st.composite
def manual_case(draw):
    """manual dynamics with arbitrary identifiers"""
    c = draw(f.definition(freqs=["manual", "D + manual", "int + manual", "index", None], int_Q=False, lin=False,
                          styles=("dict",), shuffle=False, maxpar=3, interp=False))
    n = len(c["obs"])
    for k in list(c["cols"]):
        if k.endswith("_dyn"):
            pool = draw(st.sampled_from([
                [1.0, 2.0, 3.0], [0.5, 1.5, 1.25], [-1, -2, 1], ["a", "b", "ab"], ["spring", "summer"],
                [20180101000000000, 20180101000000001, 20180101000000002], [9007199254740992, 9007199254740993],
                [1514764800000000000, 1514764800000000001], [True, False], [0, 10, 100]]))
            c["cols"][k] = draw(st.lists(st.sampled_from(pool), min_size=n, max_size=n))
    return c


@st.composite
def many_case(draw):
    """more than 10 (or 100) groups for several parameters"""
    c = draw(f.definition(freqs=["manual"], int_Q=False, lin=False, styles=("dict",), shuffle=False, maxpar=3, interp=False, aux=False).filter(lambda c: len(c["params"]) > 1))
    for _, d in c["params"]:
        if not d["fit"]:
            d.update(fit=True, freq="manual", lo=0.05, hi=0.8, interp=False)
            d.pop("ctype", None)
    m = draw(st.sampled_from([11, 13, 23, 23, 105]))
    few = [i for i in (0, 1, 2, 3, 10, 11, 12, 20, 21, 22, 100, 101) if i < m]
    names = [nm for nm, d in c["params"] if d["fit"]]
    off = [draw(st.integers(0, m - 1)) for _ in names]
    rng = random.Random(draw(st.integers(0, 10**6)))
    extra = [[rng.choice(few) for _ in names] for _ in range(draw(st.sampled_from([1, 8, 14, 20])))]
    # (the identifiers are numbered in the order of their appearance)
    rows = [[(i + o) % m for o in off] for i in range(m)] + [[(i + o) % m for i, o in zip(r, off)] for r in extra]
    # one date for all of the first rows (or different dates)
    step = draw(st.sampled_from([0, 1, 1500]))
    c["obs"] = [[min(i, m) * step + max(0, i - m) * 7, 0.2 + 0.001 * i, 0.1 + 0.001 * (i % 37), 1.0 + 0.01 * i] for i in range(len(rows))]
    c["cols"] = {nm + "_dyn": [r[k] for r in rows] for k, nm in enumerate(names)}
    for nm, d in c["params"]:
        if d["fit"] and len(names) > 1 and draw(st.integers(0, 5)) == 0:
            d["freq"] = draw(st.sampled_from(["index", "D", None, "D + manual"]))
        if d["fit"] and "manual" not in str(d["freq"]):
            c["cols"].pop(nm + "_dyn")
    return c


@st.composite
def manypar_case(draw):
    """many parameters with many groups each (all combinations of the groups are distinct)"""
    total = draw(st.sampled_from([0, 0, 18, 19, 19, 19, 20, 20, 21]))
    if total == 0:
        widths = draw(st.lists(st.sampled_from([1, 2, 2, 3, 3]), min_size=4, max_size=11))
    else:  # the number of digits of a combined index
        widths = [1] if total == 19 else [2]
        while sum(widths) < total:
            widths.append(min(draw(st.sampled_from([1, 2, 2, 3])), total - sum(widths)))
    n = {1: 10, 2: 34, 3: 240}[max(widths)]
    quiet = draw(st.integers(0, len(widths) - 1))  # the first parameters do not change at the end
    names = ["omega", "NormBRDF"] + [f"k{i}" for i in range(len(widths) - 2)]
    names = draw(st.permutations(names))
    c = dict(start="2018-01-01", weights=False, cols={}, V=dict(c="Rayleigh", a=[-1.0, 1.0, 1.0]),
             S=dict(c="Iso", a=[1.0, 1.0, 1.0]), omega="omega", N="NormBRDF",
             tau="+".join(x for x in names if x[0] == "k"), params=[], sig0=False, dB=False, int_Q=False,
             style="dict")
    c["obs"] = [[i * 26, 0.2 + 0.001 * i, 0.1 + 0.001 * (i % 37), 1.0] for i in range(n)]
    rng = random.Random(draw(st.integers(0, 10**6)))
    for k, (nm, w) in enumerate(zip(names, widths)):
        m = min(n, {1: rng.choice([9, 10, 10]), 2: rng.choice([11, 18, 19, 34]), 3: rng.choice([101, 225, 240])}[w])
        kind = rng.choice(["manual", "manual", "D"]) if m == n else "manual"
        c["params"].append([nm, dict(fit=True, val=0.3, freq=kind, lo=0.05, hi=0.8, interp=False)])
        if kind == "manual":
            first = list(range(m))
            c["cols"][nm + "_dyn"] = first + [rng.randrange(m) if k >= quiet and rng.random() < 0.3 else m - 1 for _ in range(n - m)]
    return c


SUBS = [
    Sub("grouping", group_case, grouping, 2000, 24000, _nontriv, shards=4, tshards=6),
    Sub("manual-ids", manual_case, grouping, 600, 8000, _nontriv, shards=2),
    Sub("many-groups", many_case, grouping, 160, 2500, _nontriv, shards=2),
    Sub("many-params", manypar_case, grouping, 64, 1200, _nontriv, shards=2),
]
