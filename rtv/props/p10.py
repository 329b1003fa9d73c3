"""P10: the jacobian passed to the optimiser"""
import numpy as np
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from ..core import Skip, Sub, need

RULE = ("A case is a complete fit-definition; the jacobian is the one reported by the optimiser at the (varying) "
        "start-values. Non-trivial: at least 2 optimised values and an incidence-angle dependent model.")
ASSUMPTIONS = ["reference: 8th order finite differences of the closed-form equations of each observation",
               "derivatives with respect to tau may carry the known defect F-TAU (exactly), interpolated "
               "parameters the known defect F-INTERP"]
H = 2e-3
C1 = np.array([1 / 280, -4 / 105, 1 / 5, -4 / 5, 0, 4 / 5, -1 / 5, 4 / 105, -1 / 280])


def _fd(fun, x):
    return sum(w * fun(x + k * H) for w, k in zip(C1, range(-4, 5)) if w) / H


def _parts(c, inc, P, tau):
    V, S = f.num_dist(c["V"], P), f.num_dist(c["S"], P)
    om, N = f.slot_value(c["omega"], P), f.slot_value(c["N"], P)
    bsf = P.get("bsf", 0.0)
    return np.array([float(g.ref_surface(S, {}, 1.0, tau, N, bsf, inc, inc, 0.0, np.pi)),
                     float(g.ref_volume(V, {}, 1.0, om, tau, bsf, inc, inc, 0.0, np.pi))])


def ref_jac(c, inc, P, name):
    """(exact derivative, derivative with the known defect F-TAU, scale)"""
    def tau(x):
        return f.slot_value(c["tau"], {**P, name: x})
    x0 = P[name]
    rest = _fd(lambda x: _parts(c, inc, {**P, name: x}, tau(x0)), x0)
    dtau = _fd(tau, x0) if isinstance(c["tau"], str) else 0.0
    dt = _fd(lambda t: _parts(c, inc, P, t), tau(x0)) * dtau if dtau else np.zeros(2)
    s, v = _parts(c, inc, P, tau(x0))
    out = []
    for k in (1.0, (1 + np.cos(inc) ** 2) / 2):
        d = rest.sum() + dt[0] + k * dt[1]
        d *= 4 * np.pi * np.cos(inc) if c["sig0"] else 1.0
        tot = (s + v) * (4 * np.pi * np.cos(inc) if c["sig0"] else 1.0)
        out.append(10 / np.log(10) * d / tot if c["dB"] else d)
    scale = np.abs(rest).sum() + np.abs(dt).sum()
    scale *= 4 * np.pi * np.cos(inc) if c["sig0"] else 1.0
    if c["dB"]:
        scale *= 10 / np.log(10) / abs(tot)
    return out[0], out[1], scale + abs(out[0])


def jac(c, rec):
    f.describe(c, rec)
    # unique data-values identify the observations
    c = dict(c, obs=[[o[0], o[1], round(0.01 + 0.001 * i, 6), o[3]] for i, o in enumerate(c["obs"])])
    fit = f.make_fit(c, lsq_kwargs=dict(max_nfev=1))
    ds = fit.dataset
    cs = dict(c, obs=[[o[0], float(a), float(b), float(w)] for o, a, b, w in
                      zip(c["obs"], ds.inc, ds.sig, ds.data_weights if c["weights"] else np.ones(len(ds)))],
              cols={k: ds[k].tolist() for k in c["cols"]})
    fit.performfit()
    out = fit.fit_output
    J = np.asarray(out.jac.todense() if hasattr(out.jac, "todense") else out.jac, float)
    vals = {k: [float(x) for x in v] for k, v in fit.res_dict.items()}
    cols = [(k, i) for k, v in vals.items() for i in range(len(v))]
    need(np.array_equal(out.x, np.concatenate([v for v in vals.values()])), "res_dict differs from fit_output.x")
    n = len(cs["obs"])
    need(J.shape == (n, len(cols)), lambda: f"jacobian of shape {J.shape} for {n} observations, {len(cols)} values")
    rows = {round(float(x), 6): i for i, x in enumerate(np.asarray(fit.data)[~np.asarray(fit.mask, bool)])}
    P = f.obs_params(cs, vals)
    rk = {nm: f.ranks(f.labels(cs, nm, d)) for nm, d in f.fitted(cs)}
    if len(cols) > 1:
        rec.tag("nontrivial")
    strict = c.get("strict")
    for i, (o, p) in enumerate(zip(cs["obs"], P)):
        for nm in vals:
            a, b, sc = ref_jac(cs, o[1], p, nm)
            for k, (cn, ci) in enumerate(cols):
                if cn != nm:
                    continue
                got = J[rows[round(o[2], 6)], k]
                want, alt = (a * o[3], b * o[3]) if rk[nm][i] == ci else (0.0, 0.0)
                tol = 2e-6 * sc * o[3] + 1e-9
                if abs(got - want) <= tol:
                    continue
                if not strict and abs(got - alt) <= tol:
                    rec.tag("F-TAU")
                    continue
                need(False, f"d(sig)/d({nm}[{ci}]) of observation {i} (inc={o[1]}, {p}): {got!r} instead of {want!r}")


def case(**kw):
    kw = {**dict(int_Q=False, nmax=5, maxrep=3, interp=False, auxstart=True), **kw}
    return f.definition(**kw)


@st.composite
def shared(draw):
    """one parameter used by several model-inputs"""
    c = draw(case(maxpar=2))
    fit = [n for n, d in c["params"] if d["fit"] and n not in f.RESERVED]
    if not fit:
        c["params"].append(["p", dict(fit=True, val=0.3, freq="index", lo=0.01, hi=0.8, interp=False)]) \
            if "p" not in dict(c["params"]) else None
        fit = ["p"] if dict(c["params"])["p"]["fit"] else []
    for k in ("omega", "tau", "N"):
        if fit and draw(st.integers(0, 2)):
            c[k] = draw(st.sampled_from(f.EXPRS1)).format(draw(st.sampled_from(fit)))
    used = f.used_names(c) | {"bsf"}
    c["params"] = [[n, d] for n, d in c["params"] if n in used]
    if not any(d["fit"] for _, d in c["params"]):
        c["params"].append(["bsf", dict(fit=True, val=0.2, freq=None, lo=0.01, hi=0.8, interp=False)])
        c["params"] = list(dict((n, d) for n, d in c["params"]).items())
        c["params"] = [list(x) for x in c["params"]]
    return c


SUBS = [
    Sub("jacobian", case, jac, 400, 9000, shards=3, tshards=4),
    Sub("shared", shared, jac, 250, 6000, shards=3, tshards=4),
]


# ---------------------------------------------------- witnesses of known findings
def tau_strict(c, rec):
    jac(dict(c, strict=True), rec)


def interp_strict(c, rec):
    """jacobian of interpolated parameters vs. finite differences of the complete model"""
    fit = f.make_fit(c, lsq_kwargs=dict(max_nfev=1))
    fit.performfit()
    J = np.asarray(fit.fit_output.jac.todense() if hasattr(fit.fit_output.jac, "todense") else fit.fit_output.jac)
    vals = {k: [float(x) for x in v] for k, v in fit.res_dict.items()}

    def model(v):
        return np.array([f.to_units(f.ref_point(c, o[1], p, False)[0], o[1], c["sig0"], c["dB"])
                         for o, p in zip(c["obs"], f.obs_params(c, v))])
    k = 0
    for nm in vals:
        for i in range(len(vals[nm])):
            def fun(x):
                v = {a: list(b) for a, b in vals.items()}
                v[nm][i] = x
                return model(v)
            want = _fd(fun, vals[nm][i])
            need(np.allclose(J[:, k], want, rtol=1e-4, atol=1e-7),
                 lambda: f"d(sig)/d({nm}[{i}]): {J[:, k]} instead of {want}")
            k += 1


WITNESS = [Sub("tau_strict", case, tau_strict, 0, 0), Sub("interp_strict", case, interp_strict, 0, 0)]
