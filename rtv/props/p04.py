"""P04: phase functions / BRDFs: closed-form values, symbols, Legendre coefficients"""
import numpy as np
import sympy as sp
from hypothesis import strategies as st
from numpy.polynomial.legendre import legval

from .. import rtgen as g
from ..core import Sub, need

RULE = ("A case is one distribution-function (possibly a linear combination, possibly with symbolic "
        "parameters) with scalar/1D/2D angles. Non-trivial: anisotropic function evaluated at an "
        "off-nadir, off-plane direction or with symbols.")
ASSUMPTIONS = ["closed-form functions re-implemented in rtv/rtgen.py; expansion coefficients by "
               "300-point Gauss-Legendre projection", "cosine-lobe power >= 1"]


@st.composite
def value_case(draw):
    vol = draw(st.booleans())
    sym = draw(st.sampled_from([None, None] + g.SYMS))
    shape = draw(st.sampled_from([[], [1], [3], [2, 2], [3, 1]]))
    spec = draw((g.v_spec if vol else g.s_spec)(sym, 5))
    kp = ("scalar", "full", "col")
    params = {}
    if sym:
        params = {s: draw(g.values(g.num(0.05, 0.35), shape, kp)) for s in ("x1", "x2")}
        if draw(st.booleans()):
            params["x3"] = 0.5
        if draw(st.booleans()):
            params = dict(reversed(params.items()))
        if spec["c"] == "Lin" and draw(st.booleans()):
            spec["parts"][0][0] = draw(st.sampled_from(g.SYMS))
    c = dict(vol=vol, spec=spec, params=params)
    for k, el in (("t0", g.zenith()), ("tex", g.zenith()), ("p0", g.azimuth()), ("pex", g.azimuth())):
        c[k] = draw(g.values(el, shape, ("scalar", "full", "full")))
    return c


def value(c, rec):
    X = (g.build_V if c["vol"] else g.build_S)(c["spec"])
    f = X.p if c["vol"] else X.brdf
    args = [g._val(c[k]) for k in ("t0", "tex", "p0", "pex")]
    params = {k: g._val(v) for k, v in c["params"].items()}
    got = np.asarray(f(*args, param_dict=params), float)
    used = [np.asarray(a, float) for a in args]
    pv = {k: np.asarray(v, float) for k, v in params.items()}
    arrs = np.broadcast_arrays(*used, *pv.values())
    shape = arrs[0].shape
    got = np.broadcast_to(got, np.broadcast_shapes(got.shape, shape))
    if got.ndim and got.shape != shape and shape == ():
        shape = got.shape
        arrs = [np.broadcast_to(a, shape) for a in arrs]
    need(got.shape == shape, lambda: f"shape {got.shape} != {shape}")
    for i in np.ndindex(shape):
        ref = g.ref_func(c["spec"], c["vol"], dict(zip(pv, (float(a[i]) for a in arrs[4:]))),
                         *(float(a[i]) for a in arrs[:4]))
        need(np.isfinite(got[i]) and abs(got[i] - ref) <= 1e-8 * abs(ref) + 1e-14,
             lambda: f"value {got[i]!r} != closed form {ref!r} (element {i})")
    rec.tag(("V:" if c["vol"] else "S:") + c["spec"]["c"])
    if c["spec"]["c"] != "Iso" and (c["params"] or (np.any(used[0] > 0) and np.any(used[1] > 0))):
        rec.tag("nontrivial")


@st.composite
def coef_case(draw):
    vol = draw(st.booleans())
    part = draw((g.v_part if vol else g.s_part)(draw(st.sampled_from([None, "x1", "x1*0.5"])), 12))
    return dict(vol=vol, spec=part, x1=draw(g.num(0.05, 0.6)),
                angles=[draw(g.zenith()), draw(g.zenith()), draw(g.azimuth()), draw(g.azimuth())])


def coefs(c, rec):
    """expansion coefficients == projections; expansion returned for the interaction-term"""
    X = (g.build_V if c["vol"] else g.build_S)(c["spec"])
    params = dict(x1=c["x1"])
    n = sp.Symbol("n")
    nmax = X.ncoefs
    need(nmax == g.ncoefs(c["spec"]), "ncoefs")
    (a, ref), = g.ref_expansion(c["spec"], c["vol"], params)
    sub = {sp.Symbol("x1"): c["x1"]}
    got = [float(sp.sympify(X.legcoefs).xreplace({n: sp.Integer(k)}).xreplace(sub).evalf())
           for k in range(nmax)]
    need(np.all(np.abs(np.array(got) - ref) <= 1e-9 + 1e-8 * np.abs(ref)),
         lambda: f"Legendre coefficients {got} != projections {ref.tolist()}")
    # evaluate the truncated expansion at arbitrary angles
    t0, ts, p0, ps = c["angles"]
    S = sp.Symbol
    e = X.legexpansion(0.3, 0.4, 0.5, 0.6, "vvvv").doit()
    if c["vol"]:
        vals = {S("theta_0"): t0, S("phi_0"): p0, S("theta_s"): ts, S("phi_s"): ps}
        arg = g.cosang(a, np.pi - t0, ts, p0, ps)
    else:
        vals = {S("theta_ex"): t0, S("phi_ex"): p0, S("theta_s"): ts, S("phi_s"): ps}
        arg = g.cosang(a, ts, t0, ps, p0)
    v = float(sp.N(e.xreplace({**vals, **sub})))
    r = legval(arg, ref)
    need(abs(v - r) <= 1e-9 * (1 + np.sum(np.abs(ref))), lambda: f"expansion {v} != {r}")
    rec.tag(("V:" if c["vol"] else "S:") + c["spec"]["c"])
    if nmax > 1:
        rec.tag("nontrivial")


@st.composite
def norm_case(draw):
    vol = draw(st.booleans())
    part = draw((g.v_spec if vol else g.s_part)(None, 3))
    if vol:
        for p in ([q[1] for q in part["parts"]] if part["c"] == "Lin" else [part]):
            p["a"] = [-1.0, 1.0, 1.0]
    return dict(vol=vol, spec=part, t0=draw(g.num(0, 1.5)), p0=draw(g.azimuth()))


def norm(c, rec):
    """volume: integral over the sphere is 1; HG_nadirnorm: nadir reflectance is 1,
    isotropic: hemispherical reflectance is 1"""
    from numpy.polynomial.legendre import leggauss
    X = (g.build_V if c["vol"] else g.build_S)(c["spec"])
    x, w = leggauss(120)
    nph = 160
    ph = 2 * np.pi * np.arange(nph) / nph
    if c["vol"]:
        T, P = np.meshgrid(np.arccos(x), ph, indexing="ij")
        I = np.sum(X.p(c["t0"], T, c["p0"], P) * w[:, None]) * 2 * np.pi / nph
        need(abs(I - 1) < 1e-6, lambda: f"integral of phase-function = {I}")
        rec.tag("nontrivial", "volume")
    elif c["spec"]["c"] in ("Iso", "HGn"):
        x, w = (x + 1) / 2, w / 2
        T, P = np.meshgrid(np.arccos(x), ph, indexing="ij")
        t0 = 0.0 if c["spec"]["c"] == "HGn" else c["t0"]
        I = np.sum(X.brdf(t0, T, c["p0"], P) * (x * w)[:, None]) * 2 * np.pi / nph
        need(abs(I - 1) < 1e-6, lambda: f"hemispherical reflectance = {I}")
        rec.tag("nontrivial", "surface")


SUBS = [
    Sub("value", value_case, value, 800, 12000, shards=4, tshards=8),
    Sub("coefs", coef_case, coefs, 160, 2400, shards=8, tshards=8),
    Sub("norm", norm_case, norm, 120, 1500, shards=2, tshards=4),
]
