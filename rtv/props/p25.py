"""P25: plots, sliders and hemispherical reflectances show exactly the values of the model and the fit"""
import itertools

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from numpy.polynomial.legendre import leggauss, legval

from .. import fitgen as f
from .. import rtgen as g
from ..core import Skip, Sub, need

RULE = ("A case is a phase-function / BRDF (with parameters) or a fit-definition with values for all parameter-groups "
        "together with plot-options and a history of slider- / button-events. Non-trivial: at least two observations "
        "(respectively an anisotropic function) are shown.")
ASSUMPTIONS = ["figures are evaluated with the Agg backend; the numbers of the lines, points and areas are compared "
               "(not colors, fonts or positions)",
               "scattering-functions, contributions and parameter-groups are re-computed from their definition",
               "components that are not positive are not compared in dB",
               "the development of the estimates is only shown for at least two iterations",
               "regression-lines are only requested for at least two different model-values"]
COMP = ["tot", "surf", "vol", "inter"]


def _plt():
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    return plt


class _figs:
    """close all figures afterwards"""

    def __enter__(self):
        import warnings
        self.w = warnings.catch_warnings()
        self.w.__enter__()
        warnings.simplefilter("ignore")
        return _plt()

    def __exit__(self, *a):
        _plt().close("all")
        self.w.__exit__(*a)


def _fl(x):
    return np.ma.filled(np.ma.asarray(x, float), np.nan)


def _times(x):
    """dates (datetimes, timestamps or matplotlib-dates) -> minutes since 1970"""
    x = np.asarray(x)
    if x.dtype.kind == "f":
        return np.round(x * 1440).astype("int64")
    return np.asarray([pd.Timestamp(t).value for t in x.ravel()]) // (60 * 10**9)


# ------------------------------------------------------------------ functions
def _coslobe_smooth(p):
    """Simpson / Gauss integration needs smooth functions"""
    return not any(q["c"] == "Cos" and q["i"] < 2 for q in ([x[1] for x in p["parts"]] if p["c"] == "Lin" else [p]))


@st.composite
def hem_case(draw):
    sym = draw(st.sampled_from([None, "x1", "x1*0.5"]))
    c = dict(spec=draw(g.s_spec(sym, 3)), x1=draw(g.num(0.05, 0.6)), x2=draw(g.num(0.05, 0.6)),
             N=draw(st.one_of(g.num(0.05, 1, 2), st.sampled_from(["x1", "x2", "x1*x2", "x2**2"]),
                              st.lists(g.num(0.05, 1, 2), min_size=1, max_size=3))),
             phi=draw(g.azimuth()), lo=draw(st.sampled_from([0.0, 5.0, 12.5])), step=draw(st.sampled_from([7.0, 20.0])),
             hi=draw(st.sampled_from([30.0, 61.0, 80.0])), via=draw(st.sampled_from(["SRF", "method", "R"])),
             plot=draw(st.booleans()), points=draw(st.booleans()))
    if c["via"] == "R" and isinstance(c["N"], list):
        c["N"] = c["N"][0]
    return c


def hem(c, rec):
    from rt1.rtplots import hemreflect
    N = g._val(c["N"])
    S = g.build_S(c["spec"], N)
    par = dict(x1=c["x1"], x2=c["x2"])
    kw = dict(phi_0=c["phi"], t_0_step=c["step"], t_0_min=c["lo"], t_0_max=c["hi"], simps_N=140, param_dict=par)
    if c["via"] == "R":
        from rt1.rt1 import RT1
        R = RT1(1.0, 0.3, 0.3, 0.0, np.pi, V=g.build_V(dict(c="Rayleigh"), omega=0.2, tau=0.5), SRF=S,
                verbosity=0, param_dict=par)
        call = lambda **k: hemreflect(R=R, **kw, **k)
    else:
        call = (lambda **k: S.hemreflect(**kw, **k)) if c["via"] == "method" else (
            lambda **k: hemreflect(SRF=S, **kw, **k))
    inc = np.arange(c["lo"], c["hi"], c["step"])
    x, w = leggauss(60)
    # kink-free integration of cosine-lobes is not possible: compare with the accuracy of the requested rule
    th, wt = (x + 1) * np.pi / 4, w * np.pi / 4
    ph, wp = (x + 1) * np.pi, w * np.pi
    ph = np.concatenate([ph / 2, ph / 2 + np.pi])
    wp = np.concatenate([wp, wp]) / 2
    T, P = np.meshgrid(th, ph, indexing="ij")
    norm = np.atleast_1d(g.pv(c["N"], par)).astype(float)
    want = np.array([np.sum(np.sin(T) * np.cos(T) * g.ref_func(c["spec"], False, par, t, T, c["phi"], P)
                            * wt[:, None] * wp[None, :]) for t in np.deg2rad(inc)])
    tol = 1e-4 if _coslobe_smooth(c["spec"]) else 5e-3
    scale = np.max(want)
    with _figs() as plt:
        if c["plot"]:
            fig = call(showpoints=c["points"])
            lines = fig.axes[0].lines
            k = 2 if c["points"] else 1
            need(len(lines) == k * len(norm), lambda: f"{len(lines)} lines for {len(norm)} BRDFs")
            got = []
            for i, ln in enumerate(lines):
                need(np.allclose(ln.get_xdata(), inc, atol=1e-9), lambda: f"angles {ln.get_xdata()}")
                if i % k == 0:
                    got.append(_fl(ln.get_ydata()))
                else:
                    need(np.array_equal(got[-1], _fl(ln.get_ydata())), "points do not coincide with the line")
            got = np.array(got)
        else:
            got = np.asarray(call(returnarray=True), float)
            if len(norm) > 1:
                need(got.shape == (len(norm), len(inc)), lambda: f"shape {got.shape}")
            else:
                need(got.shape == inc.shape, lambda: f"shape {got.shape}")
                got = got[None]
    for n, row in zip(norm, got):
        need(row.shape == want.shape and np.all(np.abs(row - n * want) <= tol * n * max(scale, 1e-3)),
             lambda: f"hemispherical reflectance {row.tolist()} instead of {(n * want).tolist()} (NormBRDF={n})")
    rec.tag("S:" + c["spec"]["c"], "via-" + c["via"], "plot" if c["plot"] else "array",
            "N-" + type(c["N"]).__name__)
    if c["spec"]["c"] != "Iso":
        rec.tag("nontrivial")


@st.composite
def polar_case(draw):
    vol = draw(st.booleans())
    sym = draw(st.sampled_from([None, None, "x1", "x1*0.5"]))
    k = draw(st.integers(1, 2))
    c = dict(vol=vol, spec=draw((g.v_spec if vol else g.s_spec)(sym, 4)),
             par=[draw(g.num(0.05, 0.6)) for _ in range(k)], single=draw(st.booleans()),
             inc=[float(x) for x in draw(st.lists(st.integers(0, 85), min_size=1, max_size=4, unique=True))],
             aprox=draw(st.booleans()), legend=draw(st.booleans()), own=draw(st.booleans()))
    if not sym:
        c["par"] = None
    return c


def polar(c, rec):
    X = (g.build_V if c["vol"] else g.build_S)(c["spec"])
    pars = [{}] if c["par"] is None else [dict(x1=x) for x in c["par"]]
    kw = dict(inc=list(c["inc"]), aprox=c["aprox"], legend=c["legend"])
    if c["par"] is not None:
        kw["param_dict"] = pars[0] if len(pars) == 1 and c["single"] else [dict(p) for p in pars]
    with _figs() as plt:
        if c["own"]:
            own = plt.figure()
            kw["polarax"] = own.add_subplot(111, projection="polar")
        fig = X.polarplot(**kw)
        if c["own"]:
            need(fig is own, "the provided axes are not used")
        ax = fig.axes[0]
        k = 2 if c["aprox"] else 1
        need(len(ax.lines) == k * len(c["inc"]) * len(pars), lambda: f"{len(ax.lines)} lines")
        it = iter(ax.lines)
        for p in pars:
            exp = g.ref_expansion(c["spec"], c["vol"], p)
            for t in c["inc"]:
                t0 = np.deg2rad(t)
                ln = next(it)
                x, y = _fl(ln.get_xdata()), _fl(ln.get_ydata())
                need(x.min() <= (0.0 if c["vol"] else -1.55) and x.max() >= (6.25 if c["vol"] else 1.55),
                     lambda: f"range of angles: {x.min()} - {x.max()}")
                ref = g.ref_func(c["spec"], c["vol"], p, t0, x, 0.0, 0.0)
                need(y.shape == x.shape and np.allclose(y, ref, rtol=1e-8, atol=1e-12),
                     lambda: f"function (inc={t}, {p}): {y[::60]} instead of {np.asarray(ref)[::60]}")
                if c["aprox"]:
                    ln = next(it)
                    x, y = _fl(ln.get_xdata()), _fl(ln.get_ydata())
                    ref = sum(legval(g.cosang(a, t0, x, 0.0, 0.0), cf) for a, cf in exp)
                    need(y.shape == x.shape and np.allclose(y, ref, rtol=1e-7, atol=1e-9),
                         lambda: f"expansion (inc={t}, {p}): {y[::60]} instead of {np.asarray(ref)[::60]}")
        if c["legend"]:
            txt = [s.get_text() for s in ax.get_legend().get_texts()]
            need(len(txt) == len(c["inc"]) + (k - 1) and all(f"{a:.1f}" in s for a, s in zip(c["inc"], txt)),
                 lambda: f"legend {txt} for {c['inc']}")
    rec.tag(("V:" if c["vol"] else "S:") + c["spec"]["c"], "own-axes" if c["own"] else "new-axes")
    if c["spec"]["c"] != "Iso":
        rec.tag("nontrivial")


# ----------------------------------------------------------------------- fits
class Truth:
    """reference values of a fit-definition: one entry for each (time-sorted) observation"""

    def __init__(self, c, fit, vals=None):
        ds = fit.dataset
        cs = dict(c, obs=[[o[0], float(a), float(b), o[3]] for o, a, b in zip(c["obs"], ds.inc, ds.sig)],
                  cols={k: ds[k].tolist() for k in c["cols"]})
        self.c, self.cs = c, cs
        self.vals = vals or f.group_values(cs)
        self.P = f.obs_params(cs, self.vals)
        self.inc = np.array([o[1] for o in cs["obs"]])
        self.sig = np.array([o[2] for o in cs["obs"]])
        self.t = _times(f.index_of(cs))
        self.ref = np.array([f.ref_point(cs, o[1], p) for o, p in zip(cs["obs"], self.P)])
        # parameter-groups
        labs = [f.ranks(f.labels(cs, n, d)) for n, d in f.fitted(cs)]
        self.groups = f.ranks(list(zip(*labs))) if labs else [0] * len(self.t)
        self.ngroups = max(self.groups) + 1
        self.rows = [[i for i, k in enumerate(self.groups) if k == j] for j in range(self.ngroups)]
        self.mean = np.array([m / 6e10 for m in f.mean_times(cs, self.groups)])  # minutes
        self.scale = max(np.max(np.abs(self.ref)), 1e-12)
        self.nc = 4 if c["int_Q"] else 3
        if np.any(self.ref[:, :3] <= 1e-6 * self.scale) and (c["dB"] or True):
            raise Skip("contribution is (almost) zero")
        self.int_ok = bool(np.all(self.ref[:, 3] > 1e-5 * self.scale))

    def comps(self):
        return COMP[:4 if self.nc == 4 and self.int_ok else 3]

    def lin(self, sig0, inc=None, ref=None):
        inc = self.inc if inc is None else inc
        ref = self.ref if ref is None else ref
        return (4 * np.pi * np.cos(inc)[..., None] if sig0 else 1.0) * ref

    def data_lin(self, sig0):
        """the data in linear units"""
        d = 10 ** (self.sig / 10) if self.c["dB"] else self.sig
        k = 4 * np.pi * np.cos(self.inc)
        if self.c["sig0"] and not sig0:
            return d / k
        if sig0 and not self.c["sig0"]:
            return d * k
        return d

    def unit(self):
        """total in units of the fit"""
        v = self.lin(self.c["sig0"])[:, 0]
        return 10 * np.log10(v) if self.c["dB"] else v


def _lin(y, dB):
    return 10 ** (np.asarray(y, float) / 10) if dB else np.asarray(y, float)


def _points(what, gx, gy, wx, wy, rtol=1e-5):
    """multiset of points (x exact up to 1e-6; y relative to the largest value)"""
    gx, gy, wx, wy = (np.asarray(v, float).ravel() for v in (gx, gy, wx, wy))
    need(len(gx) == len(wx), lambda: f"{what}: {len(gx)} points instead of {len(wx)}")
    if not len(wx):
        return

    def order(x, y):
        k = np.round(x, 5)
        return np.lexsort((y, k))
    a, b = order(gx, gy), order(wx, wy)
    gx, gy, wx, wy = gx[a], gy[a], wx[b], wy[b]
    need(np.allclose(gx, wx, rtol=1e-9, atol=2e-5), lambda: f"{what}: x = {gx.tolist()} instead of {wx.tolist()}")
    tol = rtol * max(np.max(np.abs(wy)), 1e-12)
    need(np.all(np.isfinite(gy)) and np.all(np.abs(gy - wy) <= tol),
         lambda: f"{what}: {gy.tolist()} instead of {wy.tolist()} (at {wx.tolist()})")


def _definition(int_Q=None, nmax=5, **kw):
    return f.definition(int_Q=int_Q, nmax=nmax, maxrep=3, interp=False, maxn=2, **kw)


@st.composite
def fit_case(draw, int_Q=None):
    kinds = ["scatter", "timeseries", "timeseries", "errors", "results", "results", "single"]
    kind = draw(st.sampled_from(kinds + ["timeseries"] * 3 if int_Q else kinds))
    if kind == "results" and draw(st.booleans()):
        # several groups of measurements
        c = draw(_definition(int_Q, nmin=4, freqs=["index", "manual", "12h", "D", "int"]))
    else:
        c = draw(_definition(int_Q))
    c["kind"] = kind
    c["pick"] = draw(st.lists(st.integers(0, 99), min_size=1, max_size=4))
    c["opt"] = draw(st.lists(st.booleans(), min_size=10, max_size=10))
    c["u"] = [draw(st.booleans()), draw(st.booleans())]
    return c


def _fit(c):
    fit = f.make_fit(c)
    T = Truth(c, fit)
    fit.res_dict = {k: np.array(v) for k, v in T.vals.items()}
    return fit, T


def _params_line(what, ln, T, name, sel=None):
    x, y = _times(ln.get_xdata()), _fl(ln.get_ydata())
    sel = np.ones(len(T.t), bool) if sel is None else sel
    want = sorted(set(T.t[sel].tolist()))
    need(sorted(x.tolist()) == want, lambda: f"{what}: parameter {name} is shown at {x.tolist()} instead of {want}")
    for t, v in zip(x, y):
        ok = [T.P[i][name] for i in np.flatnonzero(T.t == t)]
        need(any(abs(v - o) < 1e-9 for o in ok), lambda: f"{what}: {name} = {v} instead of {ok} at {t}")


def static(c, rec):
    f.describe(c, rec)
    rec.tag(c["kind"])
    fit, T = _fit(c)
    if len(T.t) > 1:
        rec.tag("nontrivial")
    if T.ngroups > 1:
        rec.tag("groups")
    if any(T.groups[i] > T.groups[i + 1] for i in range(len(T.t) - 1)):
        rec.tag("reappearing-groups")
    with _figs():
        dict(scatter=_scatter, timeseries=_timeseries, errors=_errors, results=_results,
             single=_single)[c["kind"]](c, fit, T)
    need(all(np.array_equal(fit.res_dict[k], v) for k, v in T.vals.items()), "a plot changed the results")


def _scatter(c, fit, T):
    est = T.unit()
    reg = bool(len(T.t) > 1 and np.ptp(est) > 1e-3 * np.max(np.abs(est)))
    ax = fit.plot.scatter(regression=reg).axes[0]
    pts = _fl(ax.collections[0].get_offsets())
    e = pts[:, 0]
    _points("scatter", pts[:, 1], _lin(e, c["dB"]), T.sig, _lin(est, c["dB"]))
    lo, hi = min(np.min(est), np.min(T.sig)), max(np.max(est), np.max(T.sig))
    d = ax.lines[0]
    need(np.allclose(d.get_xdata(), [lo, hi], rtol=1e-4, atol=1e-6)
         and np.array_equal(d.get_xdata(), d.get_ydata()),
         lambda: f"45-degree line {d.get_xdata()} {d.get_ydata()}")
    if reg:
        # regression of the shown points
        x, y = e - e.mean(), pts[:, 1] - pts[:, 1].mean()
        k = np.sum(x * y) / np.sum(x * x)
        r2 = 0.0 if np.sum(y * y) == 0 else np.sum(x * y) ** 2 / np.sum(x * x) / np.sum(y * y)
        ln = ax.lines[1]
        lx, ly = _fl(ln.get_xdata()), _fl(ln.get_ydata())
        need(np.allclose(ly, pts[:, 1].mean() + k * (lx - e.mean()), rtol=1e-6, atol=1e-8 * (1 + abs(k))),
             lambda: f"regression line {ly.tolist()} (slope {k})")
        txt = ax.texts[0].get_text()
        need(abs(float(txt.split("=")[1]) - r2) <= 0.0051, lambda: f"{txt} instead of {r2}")


def _timeseries(c, fit, T):
    dB, sig0 = c["u"]
    o = c["opt"]
    show = dict(tot=o[0], surf=o[1], vol=o[2], inter=o[3], data=o[4])
    if not any(show[k] for k in ("tot", "surf", "vol", "data")):
        show["tot"] = True
    idx = f.index_of(T.cs)
    sel = np.ones(len(idx), bool)
    kw = {}
    if o[5]:
        kw["years"] = sorted({int(idx[k % len(idx)].year) for k in c["pick"]})
        sel &= np.isin(idx.year, kw["years"])
    if o[6]:
        m = idx[sel]
        kw["months"] = sorted({int(m[k % len(m)].month) for k in c["pick"]})
        sel &= np.isin(idx.month, kw["months"])
    names = list(T.vals)
    if o[7]:
        kw["params"] = names[:1 + c["pick"][0] % len(names)]
    fig = fit.plot.fit_timeseries(dB=dB, sig0=sig0, printtot=show["tot"], printsurf=show["surf"],
                                  printvol=show["vol"], printint=show["inter"], printorig=show["data"],
                                  printinc=o[8], **kw)
    ax = fig.axes[0]
    lines = {ln.get_label(): ln for ln in ax.lines}
    lin = T.lin(sig0)
    want = {k: lin[:, i] for i, k in enumerate(COMP[:T.nc])}
    want["data"] = T.data_lin(sig0)
    want = {k: v for k, v in want.items() if show[k]}
    name = lambda k: "$\\sigma_0$ dataset" if k == "data" else k
    need(sorted(lines) == sorted(map(name, want)), lambda: f"timeseries of {sorted(lines)} instead of {sorted(want)}")
    ok = [k for k in want if k != "inter" or T.int_ok]
    for k in ok:
        x = _times(lines[name(k)].get_xdata())
        need(np.all(np.diff(x) >= 0), lambda: f"timeseries of {k} is not sorted")
        _points(f"timeseries of {k} (dB={dB}, sig0={sig0})", x, _lin(_fl(lines[name(k)].get_ydata()), dB),
                T.t[sel], want[k][sel])
    if o[8]:
        sc = [q for q in fig.axes[1].collections if hasattr(q, "get_sizes") and len(q.get_sizes())]
        need(len(sc) == len(want), lambda: f"{len(sc)} sets of incidence-angles for {len(want)} datasets")
        for k, q in zip([k for k in (*COMP, "data") if k in want], sc):
            if k not in ok:
                continue
            p = _fl(q.get_offsets())
            p = p[np.all(np.isfinite(p), axis=1)]
            _points(f"incidence-angle dependency of {k}", p[:, 0], _lin(p[:, 1], dB), np.rad2deg(T.inc[sel]),
                    want[k][sel])
        lc = [q for q in fig.axes[1].collections if q not in sc]
        need(len(lc) == len(want), lambda: f"{len(lc)} line-collections")
        for k, q in zip([k for k in (*COMP, "data") if k in want], lc):
            days = sorted(set(T.t[sel].tolist()))
            seg = [_fl(s) for s in q.get_segments()]
            need(len(seg) == len(days), lambda: f"{len(seg)} lines for {len(days)} dates")
            if k not in ok:
                continue
            for t, s in zip(days, seg):
                s = s[np.all(np.isfinite(s), axis=1)]
                s = np.array(sorted({(round(float(a), 9), float(b)) for a, b in s}))
                m = sel & (T.t == t)
                w = np.array(sorted({(round(float(a), 9), float(b)) for a, b in
                                     zip(np.rad2deg(T.inc[m]), want[k][m])}))
                _points(f"line of {k} at {t}", s[:, 0], _lin(s[:, 1], dB), w[:, 0], w[:, 1])
    if "params" in kw:
        p = {ln.get_label(): ln for a in fig.axes[1:] for ln in a.lines if ln.get_label() in names}
        need(sorted(p) == sorted(kw["params"]), lambda: f"parameters {sorted(p)} instead of {kw['params']}")
        for k, ln in p.items():
            _params_line("timeseries", ln, T, k, sel)


def _selection(c, T):
    return sorted({k % T.ngroups for k in c["pick"]}) if c["opt"][0] else "all"


def _errors(c, fit, T):
    sel = _selection(c, T)
    rel = c["opt"][1]
    fig = fit.plot.fit_errors(relative=rel, result_selection=sel)
    sel = range(T.ngroups) if sel == "all" else sel
    est = T.unit()
    res = np.abs(est - T.sig)
    if rel:
        if np.any(np.abs(est) < 1e-2 * np.max(np.abs(est))):
            raise Skip("relative residuals for estimates close to zero")
        res = res / est
    tol = 2e-5 * (max(1.0, np.max(np.abs(est))) if c["dB"] else np.max(est)) / (np.min(np.abs(est)) if rel else 1)
    ax, ax2 = fig.axes
    dots = [ln for ln in ax.lines if ln.get_marker() == "."]
    mean = [ln for ln in ax.lines if ln.get_marker() == "o"]
    tot = [ln for ln in ax.lines if ln.get_linestyle() == "--"]
    need(len(mean) == 1 and len(tot) == 1, "lines of fit_errors")
    rows = [i for j in sel for i in T.rows[j]]
    gx, gy = [], []
    for ln in dots:
        y = _fl(ln.get_ydata())
        x = _times(ln.get_xdata())
        gx.append(x[np.isfinite(y)]), gy.append(y[np.isfinite(y)])
    gx, gy = np.concatenate(gx), np.concatenate(gy)
    _abs("residuals per measurement", gx, gy, [T.mean[T.groups[i]] for i in rows], res[rows], tol)
    gm = [np.mean(res[T.rows[j]]) for j in sel]
    _abs("mean residual per measurement", _times(mean[0].get_xdata()), _fl(mean[0].get_ydata()),
         [T.mean[j] for j in sel], gm, tol)
    need(np.allclose(_fl(tot[0].get_ydata()), np.mean(gm), atol=tol, rtol=0),
         lambda: f"average of the mean residuals {tot[0].get_ydata()} instead of {np.mean(gm)}")
    single = [ln for ln in ax2.lines if ln.get_linestyle() == ":"]
    mean = [ln for ln in ax2.lines if ln.get_marker() == "o"]
    need(len(single) == len(sel) and len(mean) == 1, lambda: f"{len(single)} lines for {len(sel)} measurements")
    for j, ln in zip(sel, single):
        x, y = _fl(ln.get_xdata()), _fl(ln.get_ydata())
        x, y = x[np.isfinite(y)], y[np.isfinite(y)]
        need(np.all(np.diff(x) >= 0), lambda: f"residuals of measurement {j} are not sorted by incidence-angles")
        _abs(f"residuals of measurement {j}", x, y, np.rad2deg(T.inc[T.rows[j]]), res[T.rows[j]], tol, 1e-6)
    x, y = _fl(mean[0].get_xdata()), _fl(mean[0].get_ydata())
    ang = np.round(np.rad2deg(T.inc[rows]), 8)
    u = np.unique(ang)
    _abs("mean residual per incidence-angle", x, y, u, [np.mean(res[rows][ang == a]) for a in u], tol, 1e-6)


def _abs(what, gx, gy, wx, wy, tol, xtol=0.51):
    gx, gy, wx, wy = (np.asarray(v, float).ravel() for v in (gx, gy, wx, wy))
    need(len(gx) == len(wx), lambda: f"{what}: {len(gx)} values instead of {len(wx)}")
    left = list(range(len(wx)))
    for x, y in zip(gx, gy):
        m = [i for i in left if abs(wx[i] - x) <= xtol * (1 if xtol < 0.1 else 2)]
        need(m, lambda: f"{what}: unexpected x-value {x} (values at {wx.tolist()})")
        b = min(m, key=lambda i: abs(wy[i] - y))
        need(abs(wy[b] - y) <= tol, lambda: f"{what}: {y} at {x} instead of {[wy[i] for i in m]}")
        left.remove(b)


def _label(t, fmt="%d.%m.%Y %H:%M:%S"):
    return pd.Timestamp(int(t * 6e10)).strftime(fmt)


def _curve(what, ln, T, rows, y, dB, deg=False, nan=True):
    """a line that shows the values y of the rows (repeated points are allowed)"""
    x, v = _fl(ln.get_xdata()), _fl(ln.get_ydata())
    x, v = x[np.isfinite(v)], v[np.isfinite(v)]
    wx = np.rad2deg(T.inc[rows]) if deg else T.inc[rows]
    wy = np.asarray(y)[rows]
    got = sorted(zip(np.round(x, 8), _lin(v, dB)))
    want = sorted(zip(np.round(wx, 8), _lin(wy, dB)))
    s = max(abs(b) for _, b in want)
    for a, b in ((got, want), (want, got)):
        for p in a:
            need(any(abs(p[0] - q[0]) < 1e-6 and abs(p[1] - q[1]) <= 1e-5 * s for q in b),
                 lambda: f"{what}: {got} instead of {want}")


def _results(c, fit, T):
    sel = _selection(c, T)
    start, leg = c["opt"][1:3]
    fig = fit.plot.results(startvals=start, legend=leg, result_selection=sel)
    sel = list(range(T.ngroups)) if isinstance(sel, str) else sel
    ax, ax2 = fig.axes
    est = T.unit()
    lines = [ln for ln in ax.lines if ln.get_linestyle() != "--"]
    need(len(lines) == 2 * len(sel), lambda: f"{len(lines)} lines for {len(sel)} measurements")
    for j, a, b in zip(sel, lines[::2], lines[1::2]):
        _curve(f"fitted curve {j}", a, T, T.rows[j], est, c["dB"])
        _curve(f"data of measurement {j}", b, T, T.rows[j], T.sig, c["dB"])
        want = {_label(T.mean[j] + d) for d in (-1 / 60, 0, 1 / 60)}
        need(a.get_label() in want, lambda: f"label of measurement {j}: {a.get_label()} instead of {want}")
    dash = [ln for ln in ax.lines if ln.get_linestyle() == "--"]
    need(len(dash) == (len(sel) if start else 0), lambda: f"{len(dash)} start-curves")
    if start:
        d0 = dict(c["params"])
        P = [{n: (d0[n]["val"] if d0[n]["fit"] else v) for n, v in p.items()} for p in T.P]
        ref = np.array([f.ref_point(T.cs, i, p) for i, p in zip(T.inc, P)])
        v = T.lin(c["sig0"], ref=ref)[:, 0]
        if np.any(v <= 0):
            return
        v = 10 * np.log10(v) if c["dB"] else v
        for j, ln in zip(sel, dash):
            _curve(f"start-curve {j}", ln, T, T.rows[j], v, c["dB"])
    lines = {ln.get_label(): ln for ln in ax2.lines}
    need(sorted(lines) == sorted(T.vals), lambda: f"parameters {sorted(lines)} instead of {sorted(T.vals)}")
    for k, ln in lines.items():
        _params_line("results", ln, T, k)
    if len(sel) < T.ngroups:
        need([int(t.get_text()) for t in ax2.texts] == list(sel), "labels of the selected measurements")
        for j, t in zip(sel, ax2.texts):
            x = float(_times([t.get_position()[0]])[0])
            need(abs(x - T.mean[j]) < 1.1, lambda: f"measurement {j} is indicated at {x} instead of {T.mean[j]}")


def _single(c, fit, T):
    use, todB, hexb = c["opt"][:3]
    todB = todB and not c["dB"]
    est = T.unit()
    if todB and (np.any(est <= 0) or np.any(T.sig <= 0)):
        return
    args = dict(convertTodB=todB, hexbinQ=hexb)
    if use:
        days = [int(T.t[k % len(T.t)]) for k in c["pick"]]
        fig = fit.plot.single_results(fit_indexes=[np.datetime64(pd.Timestamp(d * 6 * 10**10)) for d in days], **args)
        cand = [sorted({T.groups[i] for i in np.flatnonzero(T.t == d)}) for d in days]
    else:
        cand = [[k % T.ngroups] for k in c["pick"]]
        fig = fit.plot.single_results(fit_numbers=[k[0] for k in cand], **args)
    ax = fig.axes[0]
    lines = [ln for ln in ax.lines if ln.get_alpha() != 0.0]
    data = [ln for ln in lines if ln.get_marker() == "."]
    fits = [ln for ln in lines if ln.get_marker() == "x"]
    need(len(data) == len(fits) == len(cand), lambda: f"{len(data)} datasets / {len(fits)} curves for {len(cand)}")
    dB = todB or c["dB"]
    e, s = (10 * np.log10(est), 10 * np.log10(T.sig)) if todB else (est, T.sig)
    for k, a, b in zip(cand, data, fits):
        errs = []
        for j in k:
            try:
                _curve(f"data of measurement {j}", a, T, T.rows[j], s, dB, deg=True)
                _curve(f"fitted curve {j}", b, T, T.rows[j], e, dB, deg=True)
                need(np.all(np.diff(_fl(b.get_xdata())) >= 0), "curve is not sorted")
                break
            except Exception as ex:
                errs.append(ex)
        else:
            raise errs[0]


# -------------------------------------------------------------------- sliders
@st.composite
def slider_case(draw, int_Q=None):
    many = draw(st.integers(0, 3)) > 0
    c = draw(_definition(int_Q, nmin=3 if many else 1, freqs=["index", "manual", "12h", "D", "int", None] if many else None))
    c["u"] = [draw(st.booleans()), draw(st.booleans())]
    c["index"] = draw(st.sampled_from(["groups", "dataset"]))
    c["r1"], c["r2"] = draw(st.integers(1, 3)), draw(st.sampled_from([None, 1, 2]))
    c["full"], c["c1"], c["c2"], c["bg"] = (draw(st.booleans()) for _ in range(4))
    move = st.tuples(st.integers(0, 1), st.integers(0, 20))
    zoom = st.tuples(st.just("zoom"), st.integers(0, 20), st.integers(0, 20), st.booleans())
    c["moves"] = draw(st.lists(st.one_of(move, move, zoom), max_size=4))
    c["inc"] = draw(st.lists(st.integers(1, 88), min_size=2, max_size=2, unique=True))
    return c


def _is_dashed(ln):
    return bool(ln.is_dashed())


def sliders(c, rec):
    f.describe(c, rec)
    rec.tag("by-" + c["index"], "full" if c["full"] else "no-full", "two-sliders" if c["r2"] else "one-slider")
    fit, T = _fit(c)
    dB, sig0 = c["u"]
    if c["index"] == "groups":
        if len({round(m) for m in T.mean}) < T.ngroups:
            raise Skip("groups with identical mean dates")
        sets = [T.rows[j] for j in np.argsort(T.mean)]
        when = np.sort(T.mean)
    else:
        when = np.array(sorted(set(T.t.tolist())), float)
        sets = [np.flatnonzero(T.t == t).tolist() for t in when]
    n = len(sets)
    if n > 1:
        rec.tag("nontrivial")
    if any(min(b) < max(a) for a, b in zip(sets[:-1], sets[1:])):
        rec.tag("reappearing-groups")
    lin = T.lin(sig0)
    data = T.data_lin(sig0)
    comps = T.comps()
    fitted = [k for k in T.vals]
    full_ok = [len({tuple(T.P[i][k] for k in fitted) for i in s}) == 1 for s in sets]

    def full_ref(d, inc):
        P = dict(T.P[sets[d][0]])
        for k in c["cols"]:
            if k in P and k not in fitted:
                P[k] = float(np.mean([T.P[i][k] for i in sets[d]]))
        return f.ref_point(T.cs, inc, P)

    with _figs():
        args = dict(range1=c["r1"], range2=c["r2"], use_index=c["index"], printfullt_0=c["full"], dB=dB, sig0=sig0,
                    printcomponents1=c["c1"], printcomponents2=c["c2"], printfulldata=c["bg"])
        r = fit.plot.printsig0analysis(**args)
        fig, sl = r[0], r[1:]
        need(len(sl) == (2 if c["r2"] else 1), "number of sliders")
        ax, ax1, ax2 = fig.axes[:3]
        pos = [0] * len(sl)

        def lines(axis, second, marker, color):
            return [ln for ln in axis.lines if _is_dashed(ln) == second and (ln.get_marker() == "o") == marker
                    and ln.get_color() == color and ln.get_marker() in ("o", "None") and ln.get_linestyle() != "None"]

        def check(msg):
            for k, rng in enumerate([c["r1"], c["r2"]][:len(sl)]):
                show = (c["c1"], c["c2"])[k]
                m = f"{msg}: slider {k + 1} at {pos[k]}"
                want = min(rng, n)
                mk = dict(tot="kr"[k], surf="y", vol="g", inter="c")
                dat = [ln for ln in ax.lines if ln.get_marker() == "s" and ln.get_color() == "kr"[k]]
                need(len(dat) == want, lambda: f"{m}: {len(dat)} datasets instead of {want}")
                ind = [ln for ln in ax2.lines if ln.get_color() == ("k", "gray")[k]]
                need(len(ind) == want, lambda: f"{m}: {len(ind)} date-indicators instead of {want}")
                for q in range(want):
                    d = pos[k] + q
                    if d >= n:
                        need(not dat[q].get_visible() and not ind[q].get_visible(), lambda: f"{m}: outdated data is shown")
                        continue
                    need(dat[q].get_visible() and ind[q].get_visible(), lambda: f"{m}: data {d} is hidden")
                    rows = sets[d]
                    _shown(f"{m}: data {d}", dat[q], T.inc[rows], data[rows], dB)
                    x = _times(ind[q].get_xdata())
                    need(np.all(np.abs(x - when[d]) <= 1.1),
                         lambda: f"{m}: the date-indicator is at {x} instead of {when[d]}")
                for co in COMP[:T.nc]:
                    if co == "inter" and not T.int_ok:
                        continue
                    i = COMP.index(co)
                    shown = co == "tot" or show
                    got = lines(ax, bool(k), True, mk[co])
                    need(len(got) == (want if shown else 0), lambda: f"{m}: {len(got)} lines of {co}")
                    frac = lines(ax1, bool(k), True, mk[co]) if co != "tot" else []
                    got_f = lines(ax, bool(k), False, mk[co]) if c["full"] and shown else []
                    frac_f = lines(ax1, bool(k), False, mk[co]) if c["full"] and co != "tot" else []
                    if c["full"]:
                        need(len(got_f) == (want if shown else 0) and len(frac_f) == (want if co != "tot" else 0),
                             lambda: f"{m}: {len(got_f)} / {len(frac_f)} curves of {co}")
                    for q in range(want):
                        d = pos[k] + q
                        vis = {x[q].get_visible() for x in ([got] if shown else []) + [frac, got_f, frac_f] if x}
                        need(vis <= {d < n}, lambda: f"{m}: outdated lines of {co} are shown / lines are hidden")
                        if d >= n:
                            continue
                        rows = sets[d]
                        if shown:
                            _shown(f"{m}: {co} of {d}", got[q], T.inc[rows], lin[rows, i], dB)
                        if frac:
                            _shown(f"{m}: fraction {co} of {d}", frac[q], T.inc[rows],
                                   T.ref[rows, i] / T.ref[rows, 0], False)
                        if c["full"] and full_ok[d]:
                            for deg in c["inc"]:
                                inc = np.deg2rad(deg)
                                ref = full_ref(d, inc)
                                if ref[i] <= 1e-6 * T.scale or ref[0] <= 1e-6 * T.scale:
                                    continue
                                if shown:
                                    _at(f"{m}: curve {co} of {d}", got_f[q], deg,
                                        ref[i] * (4 * np.pi * np.cos(inc) if sig0 else 1), dB)
                                if frac_f:
                                    _at(f"{m}: fraction-curve {co} of {d}", frac_f[q], deg, ref[i] / ref[0], False)

        check("initial")
        if c["bg"]:
            bg = [ln for ln in ax.lines if ln.get_marker() == "."]
            x = np.concatenate([_fl(ln.get_xdata()) for ln in bg])
            y = np.concatenate([_fl(ln.get_ydata()) for ln in bg])
            ok = np.isfinite(x) & np.isfinite(y)
            _points("full dataset", x[ok], _lin(y[ok], dB), np.rad2deg(T.inc), data)
        par = {ln.get_label(): ln for a in fig.axes for ln in a.lines if ln.get_label() in T.vals}
        need(sorted(par) == sorted(T.vals), lambda: f"parameters {sorted(par)} instead of {sorted(T.vals)}")
        for k, ln in par.items():
            _params_line("printsig0analysis", ln, T, k)
        for mv in c["moves"]:
            if mv[0] == "zoom":
                lo, hi = sorted((mv[1] % n, mv[2] % n))
                xs = [when[lo] / 1440, when[hi] / 1440]
                ax2.set_xlim(*([xs[0] - 1e-4, xs[1] + 1e-4] if mv[3] else [xs[1] + 1e-4, xs[1] + 2e-4]))
                rec.tag("zoom" if mv[3] else "zoom-empty")
                for x in sl:
                    need(0 <= x.valmin <= x.valmax <= n - 1, lambda: f"slider from {x.valmin} to {x.valmax} for {n} entries")
                    if mv[3]:
                        need(x.valmin <= lo and hi <= x.valmax, lambda: f"slider from {x.valmin} to {x.valmax} if {lo} to {hi} is shown")
                check(f"after {c['moves']}")
                continue
            k = mv[0] % len(sl)
            pos[k] = int(min(max(mv[1] % n, sl[k].valmin), sl[k].valmax))
            sl[k].set_val(pos[k])
            rec.tag("moved")
            txt = [t.get_text() for t in sl[k].ax.texts if t.get_text() and t.get_text()[0].isdigit() and ":" in t.get_text()]
            rng = (c["r1"], c["r2"])[k]
            ends = [when[pos[k]], when[min(pos[k] + rng, n) - 1]][:1 + (rng > 1)]
            want = {" - ".join(_label(t + o, "%d. %b %Y %H:%M") for t, o in zip(ends, off))
                    for off in itertools.product((-1 / 60, 0, 1 / 60), repeat=len(ends))}
            need(any(t in want for t in txt), lambda: f"label {txt} instead of {want}")
            check(f"after {c['moves']}")


def _shown(what, ln, inc, y, dB):
    """a line that shows the values y at the angles inc (line in degrees)"""
    gx, gy = _fl(ln.get_xdata()), _lin(_fl(ln.get_ydata()), dB)
    ok = np.isfinite(gx) & np.isfinite(gy)
    got = {(round(float(a), 6), float(b)) for a, b in zip(gx[ok], gy[ok])}
    want = {(round(float(a), 6), float(b)) for a, b in zip(np.rad2deg(inc), y)}
    s = max(abs(b) for _, b in want)
    for a, b in ((got, want), (want, got)):
        for p in a:
            need(any(abs(p[0] - q[0]) < 1e-5 and abs(p[1] - q[1]) <= 1e-5 * s for q in b),
                 lambda: f"{what}: {sorted(got)} instead of {sorted(want)}")


def _at(what, ln, deg, want, dB):
    x, y = _fl(ln.get_xdata()), _fl(ln.get_ydata())
    i = np.flatnonzero(np.abs(x - deg) < 1e-6)
    need(len(i) == 1, lambda: f"{what}: angles {x.tolist()}")
    v = float(_lin(y[i[0]], dB))
    need(abs(v - want) <= 1e-5 * abs(want), lambda: f"{what}: {v} at {deg} degrees instead of {want}")


# -------------------------------------------------------------- analyzemodel
@st.composite
def model_case(draw, int_Q=None):
    c = draw(_definition(int_Q, nmax=3))
    c["u"] = [draw(st.booleans()), draw(st.booleans())]
    c["res"] = draw(st.booleans())
    c["intq"] = draw(st.sampled_from([None, True, False])) if c["int_Q"] else None
    c["fill"] = draw(st.booleans())
    c["labels"] = draw(st.booleans())
    c["inc"] = draw(st.one_of(st.none(), st.lists(g.num(0.1, 1.2), min_size=2, max_size=5, unique=True).map(sorted)))
    c["events"] = draw(st.lists(st.tuples(st.sampled_from(["val", "val", "button", "min", "max", "fit"]),
                                          st.integers(0, 9), g.num(0, 1, 2)), max_size=6))
    return c


def model(c, rec):
    f.describe(c, rec)
    fit = f.make_fit(c)
    T = Truth(c, fit)
    if c["res"]:
        fit.res_dict = {k: np.array(v) for k, v in T.vals.items()}
    dB, sig0 = c["u"]
    pars = dict(c["params"])
    const = {n: d["val"] for n, d in c["params"] if not d["fit"] and d["val"] != "auxiliary"}
    names = [n for n in pars if n not in const]
    inc = None if c["inc"] is None else np.array(c["inc"])
    labels = {n: "label of " + n for n in names[::2]} if c["labels"] else None
    intq = c["int_Q"] if c["intq"] is None else c["intq"]
    comps = COMP[:4] if intq else COMP[:3]
    lab = dict(tot="total", surf="surface", vol="volume", inter="interaction")
    with _figs():
        fig, sl, tb = fit.plot.analyzemodel(inc=inc, labels=labels, dB=dB, sig0=sig0, int_Q=c["intq"],
                                            fillcomponents=c["fill"])
        ax = fig.axes[0]
        need(list(sl) == names, lambda: f"sliders {list(sl)} instead of {names}")
        use = np.deg2rad(np.linspace(1, 89, 100)) if inc is None else inc
        at = list(range(len(use)))[:3] if inc is not None else [5, 40]
        bounds, on = {}, {n: False for n in names}
        for n in names:
            d = pars[n]
            if d["fit"]:
                bounds[n] = [d["lo"], d["hi"]]
                v0 = [d["val"]] if not c["res"] else T.vals[n]
            else:
                v0 = c["cols"][n]
                bounds[n] = [min(v0), max(v0)]
            need(min(v0) - 1e-9 <= sl[n].val <= max(v0) + 1e-9,
                 lambda: f"start-value of {n}: {sl[n].val} instead of {v0}")
            need(abs(sl[n].valmin - bounds[n][0]) < 1e-9 and abs(sl[n].valmax - bounds[n][1]) < 1e-9,
                 lambda: f"range of {n}: {sl[n].valmin} - {sl[n].valmax} instead of {bounds[n]}")

        def ref(P, i):
            r = f.ref_point(T.cs, float(use[i]), P, interaction=True)
            return r, r * (4 * np.pi * np.cos(use[i]) if sig0 else 1.0)

        def check(msg):
            P = {**const, **{n: float(sl[n].val) for n in names}}
            shown = {ln.get_label(): ln for ln in ax.lines}
            for co in comps:
                ln = shown.get(lab[co] + " contribution")
                need(ln is not None, lambda: f"{msg}: the {lab[co]} contribution is not shown")
                x, y = _fl(ln.get_xdata()), _fl(ln.get_ydata()).ravel()
                need(len(x) == len(y) == len(use) and np.allclose(x, use), lambda: f"{msg}: angles {x.tolist()}")
                for i in at:
                    r, v = ref(P, i)
                    v = v[COMP.index(co)]
                    if dB and r[COMP.index(co)] <= 1e-6 * r[0]:
                        continue
                    g_ = float(_lin(y[i], dB))
                    need(abs(g_ - v) <= 2e-6 * max(abs(v), abs(r[0])),
                         lambda: f"{msg}: {co} = {g_} instead of {v} (inc={use[i]}, {P})")
            need(lab["inter"] + " contribution" not in shown or intq, "the interaction is shown")
            act = [n for n in names if on[n]]
            polys = [q for q in ax.collections if type(q).__name__ == "PolyCollection"]
            per = 1 + (len(comps) - 1 if c["fill"] else 0)
            need(len(polys) == per * len(act), lambda: f"{msg}: {len(polys)} areas for {act} instead of {per} each")
            for j, n in enumerate(act):
                for q, co in zip(polys[j * per:(j + 1) * per], comps):
                    vert = q.get_paths()[0].vertices if q.get_paths() else np.zeros((0, 2))
                    lo, hi = ({**P, n: b} for b in bounds[n])
                    for i in at:
                        k = COMP.index(co)
                        (r1, v1), (r2, v2) = ref(lo, i), ref(hi, i)
                        if dB and (min(r1[k], r2[k]) <= 1e-6 * max(r1[0], r2[0])):
                            continue
                        yy = _lin(vert[np.abs(vert[:, 0] - use[i]) < 1e-9, 1], dB)
                        tol = 2e-6 * max(abs(r1[0]), abs(r2[0]), abs(v1[k]), abs(v2[k]))
                        need(len(yy) and all(np.min(np.abs(yy - v[k])) <= tol for v in (v1, v2))
                             and np.max(yy) <= max(v1[k], v2[k]) + tol and np.min(yy) >= min(v1[k], v2[k]) - tol,
                             lambda: f"{msg}: variability of {co} due to {n}: {yy.tolist()} instead of "
                                     f"{[v1[k], v2[k]]} (inc={use[i]}, {P})")
            lcs = [q for q in ax.collections if type(q).__name__ == "LineCollection"]
            need(len(lcs) == (1 if on.get("fit") else 0), lambda: f"{msg}: {len(lcs)} sets of results")
            for q in lcs:
                seg = q.get_segments()
                days = sorted(set(T.t.tolist()))
                need(len(seg) == len(days), lambda: f"{msg}: {len(seg)} results for {len(days)} dates")
                for t, s in zip(days, seg):
                    rows = np.flatnonzero(T.t == t)
                    if len({tuple(T.P[i][k] for k in T.vals) for i in rows}) > 1:
                        continue
                    Pd = dict(T.P[rows[0]])
                    for k in c["cols"]:
                        if k in Pd and k not in T.vals:
                            Pd[k] = float(np.mean([T.P[i][k] for i in rows]))
                    for i in at[:1]:
                        r, v = ref(Pd, i)
                        need(abs(float(_lin(s[i][1], dB)) - v[0]) <= 1e-5 * abs(v[0]),
                             lambda: f"{msg}: result at {t}: {_lin(s[i][1], dB)} instead of {v[0]} (inc={use[i]})")

        check("initial")
        d = [ln for ln in ax.lines if ln.get_marker() == "."]
        need(len(d) == 1, "the dataset is not shown")
        _points("dataset", _fl(d[0].get_xdata()), _lin(_fl(d[0].get_ydata()), dB), T.inc, T.data_lin(sig0))
        for q, (kind, k, v) in enumerate(c["events"]):
            n = names[k % len(names)]
            if not bounds[n][1] > bounds[n][0]:
                continue
            if kind == "val":
                sl[n].set_val(bounds[n][0] + v * (bounds[n][1] - bounds[n][0]))
            elif kind == "button":
                on[n] = not on[n]
                tb["buttons"].set_active(names.index(n))
            elif kind == "fit":
                if not c["res"]:
                    continue
                on["fit"] = not on.get("fit", False)
                tb["buttons"].set_active(len(names))
            else:
                # new boundaries (the current value remains within the range)
                cur = float(sl[n].val)
                b = round(cur - 0.04 * v, 6) if kind == "min" else round(cur + 0.04 * v, 6)
                if not (0.001 < b < 0.95) or (kind == "min" and b > cur) or (kind == "max" and b < cur):
                    continue
                if (b >= bounds[n][1] if kind == "min" else b <= bounds[n][0]):
                    continue
                bounds[n][0 if kind == "min" else 1] = b
                tb[f"{n}_{kind}"].set_val(str(b))
            rec.tag("event-" + kind, "nontrivial")
            check(f"after {c['events'][:q + 1]}")
    if len(use) > 1:
        rec.tag("nontrivial")


# ----------------------------------------------------------------- iterations
@st.composite
def iter_case(draw):
    c = draw(_definition(False))
    c["err"] = draw(st.sampled_from(["abserr", "relerr"]))
    c["grp"] = draw(st.sampled_from(["groups", "dataset", "D", "7D", "inc", "param"]))
    c["bins"] = draw(st.integers(1, 3))
    c["nfev"] = draw(st.integers(1, 3))
    c["again"] = draw(st.booleans())
    return c


def iterations(c, rec):
    f.describe(c, rec)
    rec.tag("by-" + c["grp"], c["err"])
    fit = f.make_fit(c, lsq_kwargs=dict(max_nfev=c["nfev"]))
    T = Truth(c, fit)
    try:
        if c["again"]:
            fit.performfit(intermediate_results=c["nfev"] % 2 == 0)
        fit.performfit(intermediate_results=True)
    except Exception as ex:
        raise Skip(f"the fit is not possible: {ex}")
    ir = fit.intermediate_results
    k = len(ir["parameters"])
    need(k == len(ir["residuals"]) and 1 <= len(ir["jacobian"]) <= k,
         lambda: f"{k} parameters, {len(ir['residuals'])} residuals, {len(ir['jacobian'])} jacobians")
    need(k <= c["nfev"], lambda: f"{k} intermediate results for max_nfev={c['nfev']}")
    w = np.array([o[3] for o in c["obs"]]) if c.get("weights") else np.ones(len(T.t))
    if c.get("weights"):
        w = fit.dataset.data_weights.to_numpy()
    errs = []
    for p in ir["parameters"]:
        vals = {n: [float(x) for x in np.atleast_1d(p[n])] for n, d in f.fitted(c)}
        P = f.obs_params(T.cs, vals)
        ref = np.array([f.ref_point(T.cs, i, q)[0] for i, q in zip(T.inc, P)])
        if np.any(ref <= 1e-9):
            raise Skip("no backscatter")
        est = f.to_units(ref, T.inc, c["sig0"], c["dB"])
        e = w * (est - T.sig)
        errs.append(e / T.sig if c["err"] == "relerr" else e)
    errs = np.array(errs)
    if len(T.t) > 1:
        rec.tag("nontrivial")
    grp = c["grp"]
    if grp == "groups":
        sets = T.rows
        names = [_label(m) for m in T.mean]
        alt = [_label(m + 1 / 60) for m in T.mean], [_label(m - 1 / 60) for m in T.mean]
        arg = grp
    elif grp == "dataset":
        u = sorted(set(T.t.tolist()))
        sets = [np.flatnonzero(T.t == t).tolist() for t in u]
        names = [_label(t) for t in u]
        alt = names, names
        arg = grp
    elif grp in ("D", "7D"):
        d = 1440 * (1 if grp == "D" else 7)
        first = T.t.min() // 1440 * 1440
        b = (T.t - first) // d
        if b.max() > 60:
            raise Skip("too many empty intervals")
        sets = [np.flatnonzero(b == j).tolist() for j in range(int(b.max()) + 1)]
        names = [_label(first + j * d) for j in range(len(sets))]
        alt = names, names
        arg = grp
    else:
        if grp == "inc":
            x = T.inc
            arg = ("inc", c["bins"])
        else:
            nm = list(T.vals)[0]
            x = np.array([fit.res_df[nm].loc[t] for t in fit.dataset.index])
            arg = (nm, c["bins"])
        if np.ptp(x) < 1e-3:
            raise Skip("identical values")
        edges = np.linspace(x.min(), x.max(), c["bins"] + 1)
        if np.min(np.abs(x[:, None] - edges[None, 1:-1])) < 1e-6 if c["bins"] > 1 else False:
            raise Skip("values at the boundary of a group")
        b = np.clip(np.searchsorted(edges, x) - 1, 0, c["bins"] - 1)
        sets = [np.flatnonzero(b == j).tolist() for j in range(c["bins"])]
        names = None
    if names is not None and len(sets) == 1:
        pass
    with _figs():
        fig = fit.plot.intermediate_residuals(grp=arg, err=c["err"], plottype="2D", iter_slice=slice(None),
                                               fmt="%d.%m.%Y %H:%M:%S")
        ax = fig.axes[0]
        got = _fl(ax.images[0].get_array())
        need(got.shape == (len(sets), k), lambda: f"residuals of shape {got.shape} instead of {(len(sets), k)}")
        for j, s in enumerate(sets):
            for i in range(k):
                if not s:
                    need(np.isnan(got[j, i]), lambda: f"residual {got[j, i]} for an empty group")
                    continue
                want = abs(np.mean(errs[i][s]))
                tol = 1e-5 * (np.max(np.abs(errs[i][s])) + np.max(w / (T.sig if c["err"] == "relerr" else 1.0)))
                need(abs(got[j, i] - want) <= tol,
                     lambda: f"iteration {i}, group {j} ({grp}): residual {got[j, i]} instead of {want}")
        if names is not None:
            lab = [ax.yaxis.get_major_formatter()(float(j)) for j in range(len(sets))]
            need(all(a in (b, c1, c2) for a, b, c1, c2 in zip(lab, names, *alt)),
                 lambda: f"labels {lab} instead of {names}")
        if k > 1:
            fig = fit.plot.intermediate_results()
            lines = [ln for a in fig.axes for ln in a.lines]
            for n in T.vals:
                ts = len(fit.res_dict[n]) > 1
                ln = [q for q in lines if q.get_label() == (f"{n} (mean)" if ts else n)]
                need(len(ln) == 2, lambda: f"{len(ln)} lines for parameter {n}")
                y = _fl(ln[0].get_ydata())
                want = [np.mean(p[n]) for p in ir["parameters"]]
                need(np.allclose(y, want, rtol=1e-9), lambda: f"estimates of {n}: {y.tolist()} instead of {want}")
            for key, name in (("abserr", "absolute error"), ("relerr", "relative error")):
                ln = [q for q in lines if q.get_label() == name]
                y = _fl(ln[0].get_ydata())
                if key == c["err"]:
                    want = np.abs(errs.mean(axis=1))
                    tol = 1e-5 * (np.max(np.abs(errs)) + np.max(w / (T.sig if key == "relerr" else 1.0)))
                    need(len(ln) == 1 and y.shape == want.shape and np.all(np.abs(y - want) <= tol),
                         lambda: f"{name}: {y.tolist()} instead of {want.tolist()}")
    fit.performfit()
    need(not hasattr(fit, "intermediate_results"), "results of a previous fit are kept")


SUBS = [
    Sub("hemreflect", hem_case, hem, 120, 1600, shards=1, tshards=4),
    Sub("polarplot", polar_case, polar, 80, 1200, shards=1, tshards=4),
    Sub("static", lambda: fit_case(False), static, 340, 3500, shards=3, tshards=6),
    Sub("static-int", lambda: fit_case(True), static, 120, 1000, shards=2, tshards=4),
    Sub("sliders", slider_case, sliders, 120, 1000, shards=4, tshards=6),
    Sub("model", model_case, model, 80, 1000, shards=3, tshards=6),
    Sub("iterations", iter_case, iterations, 100, 1400, shards=1, tshards=4),
]
