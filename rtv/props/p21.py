"""P21: metrics equal their statistical definition on the matching observations"""
import contextlib
import io

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from ..core import Sub, need

RULE = ("fit: random fits (grouping, repeated dates, units, additional columns with gaps and with names that exist in several sources) "
        "and random pairs of variables; non-trivial: variables of different sources and at least three matching observations of which "
        "at least two differ. series: pairs of Series; non-trivial: at least three values and no constant series.")
ASSUMPTIONS = ["correlations, regressions and ratios are compared only if they are well-conditioned (no constant series)",
               "mape: reference-values different from 0"]
METRICS = ["pearson", "spearman", "linregress", "rmsd", "ub_rmsd", "bias", "mae", "mape", "std_ratio"]


# ---------------------------------------------------------------------- reference
def rank(x):
    s = np.sort(x)
    return np.array([(np.searchsorted(s, v, "left") + np.searchsorted(s, v, "right") + 1) / 2 for v in x])


def reference(name, x, y):
    """(value, conditioned) of a metric"""
    from scipy.stats import t as tdist

    n = len(x)
    if n == 0:
        return None
    mx, my = x.mean(), y.mean()
    sxx, syy, sxy = ((x - mx) ** 2).sum(), ((y - my) ** 2).sum(), ((x - mx) * (y - my)).sum()
    const = sxx <= 1e-16 * n * (mx ** 2 + 1e-6) or syy <= 1e-16 * n * (my ** 2 + 1e-6)
    if name == "pearson":
        return None if n < 2 or const else sxy / np.sqrt(sxx * syy)
    if name == "spearman":
        # (values that are equal except for rounding do not have a unique rank)
        if n < 2 or const or any(0 < abs(a - b) < 1e-9 * (abs(a) + abs(b)) for v in (np.sort(x), np.sort(y)) for a, b in zip(v, v[1:])):
            return None
        return reference("pearson", rank(x), rank(y))
    if name == "linregress":
        if n < 3 or const:
            return None
        slope, r = sxy / sxx, sxy / np.sqrt(sxx * syy)
        se = np.sqrt(max(0, 1 - r ** 2) * syy / sxx / (n - 2))
        out = dict(slope=slope, intercept=my - slope * mx, rvalue=r, stderr=se)
        if 1 - abs(r) > 1e-6:
            out["pvalue"] = 2 * tdist.sf(abs(r) * np.sqrt((n - 2) / (1 - r ** 2)), n - 2)
            out["intercept_stderr"] = se * np.sqrt(sxx / n + mx ** 2)
        else:
            out.pop("stderr")
        return out
    if name == "rmsd":
        return np.sqrt(((x - y) ** 2).mean())
    if name == "ub_rmsd":
        return np.sqrt((((x - mx) - (y - my)) ** 2).mean())
    if name == "bias":
        return mx - my
    if name == "mae":
        return np.abs(x - y).mean()
    if name == "mape":
        return None if (np.abs(x) < 1e-6).any() else np.abs((x - y) / x).mean()
    if name == "std_ratio":
        return None if n < 2 or const else np.sqrt(sxx / syy)


def close(a, b, s):
    return a is not None and np.isclose(a, b, rtol=1e-6, atol=1e-7 * s)


def compare(name, got, x, y, what):
    want = reference(name, x, y)
    if want is None:
        return
    s = 1 + max(np.abs(x).max(), np.abs(y).max())
    if name == "linregress":
        s *= 1 + abs(want["slope"])
        need(isinstance(got, dict) and set(want) - {"intercept_stderr"} <= set(got), lambda: f"{what}: linregress = {got}")
        for k, v in want.items():
            if k in got:
                need(close(got[k], v, s), lambda: f"{what}: linregress[{k}] = {got[k]} instead of {v}")
    else:
        need(close(got, want, s), lambda: f"{what}: {name} = {got} instead of {want}\nx={x}\ny={y}")


def flat(d, pre=""):
    for k, v in d.items():
        if isinstance(v, dict):
            yield from flat(v, k + ".")
        elif isinstance(v, (float, int)):
            yield pre + k, float(v)


def check_outputs(obj, m, what, plot=False, names=None):
    """allmetrics, the printed table and the figure represent the same values"""
    import warnings

    alls = obj.allmetrics
    need(set(alls) == set(METRICS), lambda: f"{what}: allmetrics {list(alls)}")
    for k in METRICS:
        a, b = dict(flat({k: alls[k]})), dict(flat({k: m[k]}))
        need(set(a) == set(b) and all(np.isclose(a[i], b[i], rtol=1e-12, equal_nan=True) for i in a),
             lambda: f"{what}: allmetrics[{k}] = {alls[k]} instead of {m[k]}")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        obj.metrics_table
    vals, top = {}, ""
    for line in out.getvalue().splitlines()[2:]:
        if line.count("|") < 2:
            continue
        nm, v = [p.strip() for p in line.split("|")[:2]]
        if not v:
            top = nm.strip("- ") + "."
            continue
        sub = nm.startswith("-")
        vals[(top if sub else "") + nm.strip("- ")] = float(v)
    want = dict(flat(alls))
    need(set(vals) == set(want), lambda: f"{what}: table {out.getvalue()}")
    for k, v in want.items():
        need((np.isnan(v) and np.isnan(vals[k])) or v == vals[k] or abs(v - vals[k]) <= 1e-6 * max(1, abs(v)),
             lambda: f"{what}: {k} = {vals[k]} is printed instead of {v}")


# ---------------------------------------------------------------------- fits
@st.composite
def fit_case(draw):
    c = draw(f.definition(nmax=8, maxrep=3, interp=False, maxn=1, auxstart=True))
    n = len(c["obs"])
    names = [p for p, _ in c["params"]]
    val = g.num(0.05, 0.9, 3)
    for k in draw(st.lists(st.sampled_from(["sm", "T_1", "tot", "vol", *[p for p in names]]), max_size=3, unique=True)):
        if k not in c["cols"] and k + "_dyn" not in c["cols"]:
            gap = draw(st.booleans())
            c["cols"][k] = [draw(st.one_of(val, val, st.none() if gap else val)) for _ in range(n)]
    return dict(fit=c, txt=draw(st.booleans()), salt=draw(st.integers(0, 9)), pairs=draw(st.lists(st.tuples(st.integers(0, 99), st.integers(0, 99)).map(list),
                                                                                       min_size=2, max_size=8)), out=draw(st.integers(0, 3)) == 0)


def sources(cc, fit):
    """{key: (source, values)}, values: one per row of the dataset (dataset, calc_model) or {date: value} (res_df)"""
    c = cc["fit"]
    ds = fit.dataset
    out = [(k, "dataset", ds[k].to_numpy(dtype=float)) for k in ds.columns if k != "txt"]
    # rows in the order of the results: grouped (first appearance)
    srt = np.argsort([o[0] for o in c["obs"]], kind="stable")
    need(list(srt) == list(range(len(srt))), "harness: unsorted observations")
    dyn = [f.labels(c, n, d) for n, d in f.fitted(c) if d["freq"] is not None]
    grp = f.ranks(list(zip(*dyn))) if dyn else list(range(len(ds)))
    order = np.argsort(grp, kind="stable")
    mod = fit.calc_model(return_components=True)
    if not dyn and list(mod.index) != list(ds.index[order]):
        order = np.arange(len(ds))
    need(list(mod.index) == list(ds.index[order]), "index of the model results")
    for k in ["tot", "surf", "vol"] + ["inter"] * bool(c["int_Q"]):
        v = np.empty(len(ds))
        v[order] = mod[k].to_numpy()
        out.append((k, "calc_model", v))
    for k in fit.res_df:
        out.append((k, "res_df", dict(zip(fit.res_df.index, fit.res_df[k]))))
    cnt = [k for k, _, _ in out]
    return {(k if cnt.count(k) == 1 else f"{k}__{s}"): (s, v) for k, s, v in out}


def run_fit(cc, rec):
    c = {**cc["fit"]}
    # (columns of the dataset are sorted in time)
    c.pop("order", None)
    c["cols"] = {k: [np.nan if i is None else i for i in v] for k, v in c["cols"].items()}
    f.describe(c, rec)
    if cc["txt"]:
        fit = f.make_fit(c, dataset=f.make_dataset(c).assign(txt="abc"))
    else:
        fit = f.make_fit(c)
    fit.res_dict = f.group_values(c, cc["salt"])
    src = sources(dict(fit=c), fit)
    keys = list(src)
    with np.errstate(all="ignore"):
        metric = fit.metric
        need(all(hasattr(metric, k) for k in keys), lambda: f"keys {[k for k in keys if not hasattr(metric, k)]} are not available")
        dates = list(fit.dataset.index)
        for i, j in cc["pairs"]:
            i, j = i % len(keys), j % len(keys)
            if i == j:
                j = (j + 1) % len(keys)
            a, b = keys[i], keys[j]
            (sa, va), (sb, vb) = src[a], src[b]
            if sa == sb == "res_df":
                x, y = [np.array([v[t] for t in va]) for v in (va, vb)]
            else:
                x, y = [np.array([v[t] for t in dates]) if s == "res_df" else v for s, v in (src[a], src[b])]
            ok = ~(np.isnan(x) | np.isnan(y))
            if not np.isfinite(x[ok]).all() or not np.isfinite(y[ok]).all():
                rec.tag("infinite")
                continue
            x, y = x[ok], y[ok]
            rec.tag(f"{sa}-{sb}", "gaps" if not ok.all() else "no-gaps")
            if len(x) > 2 and sa != sb and np.ptp(x) and np.ptp(y):
                rec.tag("nontrivial")
            if not len(x):
                continue
            obj = getattr(getattr(metric, a), b)
            what = f"{a} vs. {b}"
            m = {}
            for name in METRICS:
                if len(x) < 2 and name in ("linregress", "pearson", "spearman"):
                    continue
                if name == "linregress" and (np.ptp(x) == 0 or len(x) < 3):
                    continue
                m[name] = getattr(obj, name)
                compare(name, m[name], x, y, what)
            if cc["out"] and len(m) == len(METRICS):
                check_outputs(obj, m, what)
                rec.tag("outputs")


# ---------------------------------------------------------------------- series
@st.composite
def series_case(draw):
    n = draw(st.integers(2, 9))
    v = st.one_of(g.num(0.01, 2, 3), g.num(0.01, 2, 3), st.integers(-3, 3).map(float), st.floats(1e3, 1e6).map(lambda x: round(x, 1)))
    return dict(x=[draw(v) for _ in range(n)], y=[draw(v) for _ in range(n)], perm=draw(st.permutations(list(range(n)))), plot=draw(st.integers(0, 29)) == 0,
                a=draw(st.sampled_from([1., 2., -1.5, 0.25])), b=draw(st.sampled_from([0., 1., -3.])), date=draw(st.booleans()))


def run_series(c, rec):
    from rt1.rtmetrics import RTmetrics as R

    n = len(c["x"])
    idx = pd.date_range("2020-01-01", periods=n) if c["date"] else pd.RangeIndex(n)
    x, y = pd.Series(c["x"], idx, name="x"), pd.Series(c["y"], idx, name="y")
    X, Y = x.to_numpy(), y.to_numpy()
    const = np.ptp(X) == 0 or np.ptp(Y) == 0
    if n > 2 and not const:
        rec.tag("nontrivial")
    xp, yp = x.iloc[c["perm"]], y.iloc[c["perm"]]
    with np.errstate(all="ignore"):
        for name in METRICS:
            if name == "linregress" and (const or n < 3):
                continue
            if (n < 3 or const) and name in ("pearson", "spearman"):
                continue
            fn = getattr(R, name)
            v = fn(x, y)
            compare(name, v, X, Y, "series")
            # order of the rows
            for k, w in flat({name: fn(xp, yp)}):
                a = dict(flat({name: v}))[k]
                need(np.isclose(a, w, rtol=1e-6, atol=1e-9 * (1 + max(abs(X).max(), abs(Y).max()) ** 2), equal_nan=True) or "stderr" in k or "pvalue" in k,
                     lambda: f"{k}: {a} / {w} after changing the order of the rows")
            # (anti-) symmetry
            if name in ("pearson", "spearman", "rmsd", "ub_rmsd", "mae"):
                need(np.isclose(v, fn(y, x), rtol=1e-9, equal_nan=True), lambda: f"{name} is not symmetric")
            elif name == "bias":
                need(np.isclose(v, -fn(y, x), rtol=1e-9), "bias is not anti-symmetric")
            elif name == "std_ratio" and not const:
                need(np.isclose(v * fn(y, x), 1, rtol=1e-9), "std_ratio is not reciprocal")
            # identical data
            if name in ("rmsd", "ub_rmsd", "bias", "mae"):
                need(abs(fn(x, x.copy())) <= 1e-9 * abs(X).max(), lambda: f"{name} of identical series: {fn(x, x.copy())}")
        # linear transformations
        sc = 1 + max(abs(X).max(), abs(Y).max())
        z = c["a"] * y + c["b"]
        if not const and n > 2:
            need(np.isclose(R.pearson(x, z), np.sign(c["a"]) * R.pearson(x, y), rtol=1e-6, atol=1e-9), "pearson of transformed data")
        need(np.isclose(R.ub_rmsd(x, y + c["b"]), R.ub_rmsd(x, y), rtol=1e-6, atol=1e-9 * sc), "ub_rmsd depends on an offset")
        need(np.isclose(R.rmsd(x, y) ** 2, R.ub_rmsd(x, y) ** 2 + R.bias(x, y) ** 2, rtol=1e-6, atol=1e-9 * sc ** 2), "rmsd^2 != ub_rmsd^2 + bias^2")
        if not const and n > 2:
            class O:
                allmetrics = R.allmetrics(x, y)

                @property
                def metrics_table(self):
                    return R.metrics_table(x, y)

            check_outputs(O(), {k: getattr(R, k)(x, y) for k in METRICS}, "series")
            if c["plot"]:
                plot(x, y, rec)


def plot(x, y, rec):
    import matplotlib.pyplot as plt
    import warnings

    from rt1.rtmetrics import RTmetrics as R

    rec.tag("plot")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        fig = R.scatterplot(x, y, "first", "second")
    try:
        ax, tab = fig.axes[:2]
        xy = np.asarray(ax.collections[0].get_offsets())
        need(np.allclose(xy, np.column_stack([x, y])), "points of the scatterplot")
        need((ax.get_xlabel(), ax.get_ylabel()) == ("first", "second"), "labels of the scatterplot")
        lr = R.linregress(x, y)
        line = ax.lines[0]
        need(np.allclose(line.get_ydata(), lr["intercept"] + lr["slope"] * np.asarray(line.get_xdata()), rtol=1e-6), "regression-line")
        # uncertainties of slope and intercept
        ends = np.array([np.min(x), np.max(x)])
        mid, i, m = ends.mean(), lr["intercept"], lr["slope"]
        want = [i + m * mid + (m + e) * (ends - mid) for e in (lr["stderr"], -lr["stderr"])]
        want += [i + e + m * ends for e in (lr["intercept_stderr"], -lr["intercept_stderr"])] if "intercept_stderr" in lr else []
        tol = 1e-6 * (1 + np.max(np.abs(want)))
        for w in want:
            need(any(np.allclose(np.interp(ends, *np.asarray(ln.get_data(), float)), w, rtol=1e-6, atol=tol) for ln in ax.lines[1:]),
                 lambda: f"no line {w} in the scatterplot: {[list(ln.get_ydata()) for ln in ax.lines]}")
        cells = tab.tables[0].get_celld()
        txt = {cells[k].get_text().get_text().strip(" -"): cells[(k[0], 0)].get_text().get_text() for k in cells if k[1] == -1}
        for k, v in flat(R.allmetrics(x, y)):
            k = k.split(".")[-1]
            need(k in txt and (txt[k] == "%1.3f" % v), lambda: f"{k}: {txt.get(k)} instead of {v} in the table of the scatterplot")
    finally:
        plt.close(fig)


SUBS = [Sub("fit", fit_case, run_fit, 600, 8000, shards=6, tshards=8), Sub("series", series_case, run_series, 1500, 20000)]
