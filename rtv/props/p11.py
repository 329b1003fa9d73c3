"""P11: results of performfit"""
import numpy as np
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from ..core import Skip, Sub, close, need

RULE = ("A case is a complete fit-definition with data. Non-trivial: the optimiser changed at least one value "
        "(or, for 'fixpoint', more than one optimised value).")
ASSUMPTIONS = ["reference model: closed-form equations + quadrature of the interaction integral",
               "global optimality is decided for problems that are convex (linear in the fitted values), the "
               "reference optimum is obtained by scipy.optimize.lsq_linear"]


def sorted_case(c, fit):
    ds = fit.dataset
    return dict(c, obs=[[o[0], float(a), float(b), float(w)] for o, a, b, w in
                        zip(c["obs"], ds.inc, ds.sig, ds.data_weights if c["weights"] else np.ones(len(ds)))],
                cols={k: ds[k].tolist() for k in c["cols"]})


def ref_tot(cs, vals):
    P = f.obs_params(cs, vals)
    out = []
    for o, p in zip(cs["obs"], P):
        t = f.ref_point(cs, o[1], p)[0]
        if cs["dB"] and t <= 0:
            raise Skip("non-positive total in dB")
        out.append(f.to_units(t, o[1], cs["sig0"], cs["dB"]))
    return np.array(out)


def ref_cost(cs, vals):
    r = ref_tot(cs, vals) - np.array([o[2] for o in cs["obs"]])
    w = np.array([o[3] for o in cs["obs"]]) if cs["weights"] else 1.0
    return 0.5 * float(np.sum((w * r) ** 2))


def start_values(cs):
    out = {}
    for n, d in f.fitted(cs):
        rk = np.array(f.ranks(f.labels(cs, n, d)))
        if d["val"] == "auxiliary":
            col = np.array(cs["cols"][n + "_start"])
            out[n] = [float(col[rk == k].mean()) for k in range(rk.max() + 1)]
        else:
            out[n] = [d["val"]] * (rk.max() + 1)
    return out


def result(fit, cs):
    """res_dict as lists + generic checks"""
    vals = {k: [float(x) for x in v] for k, v in fit.res_dict.items()}
    need(set(vals) == {n for n, _ in f.fitted(cs)}, lambda: f"fitted parameters: {list(vals)}")
    for n, d in f.fitted(cs):
        k = len(set(f.labels(cs, n, d)))
        need(len(vals[n]) == k, lambda: f"{len(vals[n])} values of {n} for {k} groups")
        need(all(d["lo"] <= x <= d["hi"] for x in vals[n]), lambda: f"{n}={vals[n]} exceeds [{d['lo']}, {d['hi']}]")
    return vals


def _unchanged(fit, c, before):
    need(fit.dataset.equals(before[0]), "the dataset was changed by the fit")
    need(repr(fit.defdict.to_dict()) == before[1], "the defdict was changed by the fit")


def general(c, rec):
    f.describe(c, rec)
    opts = c.get("opts", {})
    fit = f.make_fit(c, lsq_kwargs=dict(max_nfev=c["nfev"], **opts))
    cs = sorted_case(c, fit)
    s0 = start_values(cs)
    c0 = ref_cost(cs, s0)
    before = fit.dataset.copy(), repr(fit.defdict.to_dict())
    fit.performfit(intermediate_results=c["inter"], print_progress=c["prog"])
    _unchanged(fit, c, before)
    vals = result(fit, cs)
    if any(not close(vals[n], s0[n], rtol=1e-6) for n in vals):
        rec.tag("nontrivial")
    c1 = ref_cost(cs, vals)
    interp = any(d.get("interp") for _, d in f.fitted(cs))
    tol = 1e-3 if interp else 1e-6
    res = np.asarray(fit.fit_output.fun, float)
    need(abs(fit.fit_output.cost - 0.5 * np.sum(res**2)) <= 1e-9 * fit.fit_output.cost + 1e-15,
         "cost differs from the reported residuals")
    need(abs(fit.fit_output.cost - c1) <= tol * (c1 + c0) + 1e-14,
         lambda: f"reported cost {fit.fit_output.cost}, weighted misfit of the returned parameters {c1}")
    need(c1 <= c0 * (1 + 10 * tol) + 1e-12, lambda: f"cost {c1} exceeds the cost of the start-values {c0}")
    if c["inter"]:
        par = fit.intermediate_results["parameters"]
        need(len(par) >= 1 and all(close(par[0][n], s0[n], rtol=1e-6, atol=1e-8) for n in s0),
             lambda: f"first evaluated values {par[0]} instead of the start-values {s0}")
        need(any(all(np.array_equal(np.asarray(p[n]), np.asarray(fit.res_dict[n])) for n in s0) for p in par),
             "the returned values have never been evaluated")
        rec.tag("intermediate")


@st.composite
def gen_case(draw, int_Q=False, **kw):
    c = draw(f.definition(int_Q=int_Q, nmax=4, maxrep=3, auxstart=True, **kw))
    if int_Q:
        c["dB"] = False
    if c["dB"]:
        c["obs"] = [[o[0], o[1], round(10 * np.log10(o[2]), 4), o[3]] for o in c["obs"]]
    c["nfev"] = draw(st.integers(1, 8))
    c["inter"], c["prog"] = draw(st.booleans()), draw(st.integers(0, 5)) == 0
    if draw(st.integers(0, 3)) == 0:
        c["opts"] = draw(st.sampled_from([dict(x_scale="jac"), dict(ftol=1e-3, xtol=1e-3), dict(loss="linear")]))
    return c


# ------------------------------------------------------------------ fixpoint
def fixpoint(c, rec):
    """noise-free data of the start-values are reproduced"""
    f.describe(c, rec)
    vals = f.group_values(c)
    if sum(map(len, vals.values())) > 1:
        rec.tag("nontrivial")
    cols, params = dict(c["cols"]), []
    for n, d in c["params"]:
        if d["fit"]:
            rk = f.ranks(f.labels(c, n, d))
            cols[n + "_start"] = [vals[n][k] for k in rk]
            d = dict(d, val="auxiliary")
        params.append([n, d])
    c = dict(c, cols=cols, params=params)
    tot = ref_tot(c, vals)
    c["obs"] = [[o[0], o[1], float(t), o[3]] for o, t in zip(c["obs"], tot)]
    fit = f.make_fit(c, lsq_kwargs=dict(max_nfev=20))
    fit.performfit()
    cs = sorted_case(c, fit)
    got = result(fit, cs)
    tot2 = np.asarray(fit.calc_model()["tot"], float)
    ok = ~np.asarray(fit.mask, bool)
    need(np.allclose(tot2, np.asarray(fit.data)[ok], rtol=1e-5, atol=1e-7),
         lambda: f"noise-free data are not reproduced: {tot2} instead of {np.asarray(fit.data)[ok]}")
    if not c.get("order"):  # values have been drawn with respect to the sorted dataset
        for n in vals:
            need(np.allclose(got[n], vals[n], rtol=1e-4, atol=1e-5),
                 lambda: f"{n}: {got[n]} instead of {vals[n]}")


@st.composite
def fix_case(draw, int_Q):
    return draw(f.definition(int_Q=int_Q, nmax=4, maxrep=3, interp=False, shuffle=False))


# -------------------------------------------------------------------- linear
@st.composite
def lin_case(draw):
    """fitted values enter the model linearly: global optimum is known"""
    c = draw(f.definition(int_Q=False, nmax=7, maxrep=4, interp=False, lin=False, maxpar=1))
    n = len(c["obs"])
    c["V"] = draw(st.sampled_from([dict(c="Rayleigh", a=[-1.0, 1.0, 1.0]),
                                   dict(c="HG", t=0.4, n=2, a=[-1.0, 1.0, 1.0])]))
    c["S"] = draw(st.sampled_from([dict(c="Iso", a=[1.0, 1.0, 1.0]), dict(c="HG", t=0.3, n=2, a=[1.0, 1.0, 1.0])]))
    c["cols"], c["params"], c["dB"] = {}, [], False
    c["tau"] = draw(g.num(0.1, 0.8, 2))
    both = draw(st.integers(0, 3))
    for key, sl, on in (("NormBRDF", "N", both != 1), ("omega", "omega", both >= 1)):
        if not on:
            c[sl] = draw(g.num(0.1, 0.6, 2))
            continue
        c[sl] = key
        fr = draw(st.sampled_from(f.FREQS))
        if isinstance(fr, str) and "int" in fr:
            m = draw(st.integers(1, 4))
            fr = m if fr == "int" else f"{m} + manual"
        if isinstance(fr, str) and "manual" in fr:
            c["cols"][key + "_dyn"] = draw(st.lists(st.integers(1, 3), min_size=n, max_size=n))
        d = dict(fit=True, val=draw(g.num(0.1, 0.7, 2)), freq=fr, lo=draw(st.sampled_from([0.01, 0.05])),
                 hi=draw(st.sampled_from([0.8, 0.75, 1.0])))
        c["params"].append([key, d])
    if draw(st.booleans()):
        c["params"] = c["params"][::-1]
    k = 4 * np.pi if c["sig0"] else 1.0
    c["obs"] = [[o[0], o[1], round(o[2] * 0.15 * k, 5), o[3]] for o in c["obs"]]
    return c


def linear(c, rec):
    from scipy.optimize import lsq_linear

    f.describe(c, rec)
    fit = f.make_fit(c, lsq_kwargs=dict(ftol=1e-12, xtol=1e-12, gtol=1e-12, max_nfev=300))
    cs = sorted_case(c, fit)
    fit.performfit()
    vals = result(fit, cs)
    s0 = start_values(cs)
    if any(not close(vals[n], s0[n], rtol=1e-6) for n in vals):
        rec.tag("nontrivial")
    # design matrix
    rk = {n: f.ranks(f.labels(cs, n, d)) for n, d in f.fitted(cs)}
    cols = [(n, k) for n, d in f.fitted(cs) for k in range(max(rk[n]) + 1)]
    A, y = np.zeros((len(cs["obs"]), len(cols))), np.zeros(len(cs["obs"]))
    for i, o in enumerate(cs["obs"]):
        P = {n: 1.0 for n in rk}
        _, s, v, _ = f.ref_point(cs, o[1], P)
        u = 4 * np.pi * np.cos(o[1]) if c["sig0"] else 1.0
        w = o[3] if c["weights"] else 1.0
        y[i] = w * o[2]
        for val, key in ((s, "NormBRDF"), (v, "omega")):
            if key in rk:
                A[i, cols.index((key, rk[key][i]))] = w * u * val
            else:
                y[i] -= w * u * val
    x = np.array([vals[n][k] for n, k in cols])
    cost = 0.5 * np.sum((A @ x - y) ** 2)
    D = dict(c["params"])
    bnd = [[D[n][b] for n, _ in cols] for b in ("lo", "hi")]
    opt = lsq_linear(A, y, bounds=bnd, method="bvls" if A.shape[0] >= A.shape[1] else "trf", tol=1e-12)
    x0 = np.array([s0[n][k] for n, k in cols])
    c0 = 0.5 * np.sum((A @ x0 - y) ** 2)
    need(abs(fit.fit_output.cost - cost) <= 1e-6 * (cost + c0) + 1e-14,
         lambda: f"reported cost {fit.fit_output.cost}, weighted misfit of the returned parameters {cost}")
    need(cost <= opt.cost + 1e-3 * opt.cost + 1e-4 * c0 + 1e-10,
         lambda: f"cost {cost} of the fit exceeds the global optimum {opt.cost} (start: {c0}): {vals}")


SUBS = [
    Sub("general", lambda: gen_case(False), general, 300, 7000, shards=2, tshards=3),
    Sub("general-int", lambda: gen_case(True), general, 40, 900, shards=1, tshards=3),
    Sub("fixpoint", lambda: fix_case(False), fixpoint, 200, 4000, shards=1, tshards=2),
    Sub("fixpoint-int", lambda: fix_case(True), fixpoint, 60, 1200, shards=2, tshards=3),
    Sub("linear", lin_case, linear, 300, 6000, shards=2, tshards=3),
]
