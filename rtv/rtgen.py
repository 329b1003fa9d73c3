"""Generators and independent references for the radiative-transfer core.

Cases are plain JSON.  All reference values are computed here from the published
equations (closed-form functions + numerical quadrature); nothing of rt1 is used.
"""
import numpy as np
import sympy as sp
from hypothesis import strategies as st
from functools import lru_cache

from numpy.polynomial.legendre import leggauss as _leggauss, legval

PI = np.pi
leggauss = lru_cache()(_leggauss)


# ----------------------------------------------------------------- strategies
def num(lo, hi, dec=3):
    k = 10**dec
    return st.integers(int(np.ceil(lo * k)), int(np.floor(hi * k))).map(lambda i: i / k)


def zenith(nadir=True):
    base = num(0.01, 1.45)
    return st.one_of(base, st.just(0.0)) if nadir else base


def azimuth():
    return num(0.0, 6.283)


def tau_vals():
    return st.one_of(num(0.05, 3.0), num(0.001, 0.05, 4), num(3.0, 12.0, 2))


# values of an asymmetry parameter
def asym(zero=True):
    base = st.one_of(num(0.02, 0.7), num(-0.7, -0.02))
    return st.one_of(base, st.just(0.0)) if zero else base


def a_vec(vol):
    s = -1.0 if vol else 1.0
    return st.one_of(
        st.just([s, 1.0, 1.0]),
        st.tuples(num(0.1, 1.0, 2), num(-1, 1, 2), num(-1, 1, 2)).map(
            lambda v: [s * v[0], v[1], v[2]]
        ),
        st.tuples(num(0.1, 1.0, 2), num(-1, 1, 2), num(-1, 1, 2)).map(
            lambda v: [-s * v[0], v[1], v[2]]
        ),
    )


def a_like(a):
    """vectors that agree with a in some of the components"""
    return st.tuples(*[st.one_of(st.just(i), st.just(i), num(0.1, 1.0, 2)) for i in a]).map(list)


@st.composite
def v_part(draw, sym=None, maxn=4):
    """spec of a single phase-function; sym: name of a symbol used for t"""
    c = draw(st.sampled_from(["HG", "HGR", "Rayleigh"]))
    if c == "Rayleigh":
        return dict(c=c, a=[-1.0, 1.0, 1.0])
    t = sym if sym and draw(st.booleans()) else draw(asym())
    return dict(c=c, t=t, n=draw(st.integers(1, maxn)), a=draw(a_vec(True)))


@st.composite
def s_part(draw, sym=None, maxn=4):
    c = draw(st.sampled_from(["HG", "Cos", "Iso", "HGn"]))
    if c == "Iso":
        return dict(c=c, a=[1.0, 1.0, 1.0])
    if c == "Cos":
        return dict(c=c, i=draw(st.integers(1, 6)), n=draw(st.integers(1, maxn)),
                    a=draw(a_vec(False)))
    if c == "HGn":
        t = sym if sym and draw(st.booleans()) else draw(asym(zero=False))
        a = draw(a_vec(False))
        a = [abs(a[0]), a[1], a[2]]
        return dict(c=c, t=t, n=draw(st.integers(1, maxn)), a=a)
    t = sym if sym and draw(st.booleans()) else draw(asym())
    return dict(c=c, t=t, n=draw(st.integers(1, maxn)), a=draw(a_vec(False)))


@st.composite
def v_spec(draw, sym=None, maxn=4, lincomb=True):
    if lincomb and draw(st.integers(0, 3)) == 0:
        k = draw(st.integers(1, 3))
        ws = draw(st.lists(st.integers(1, 9), min_size=k, max_size=k))
        parts = [[w / sum(ws), draw(v_part(sym, maxn))] for w in ws]
        if k > 1 and draw(st.booleans()):  # provoke parts with identical a
            for p in parts[1:]:
                if p[1]["c"] != "Rayleigh":
                    p[1]["a"] = draw(a_like(parts[0][1]["a"])) if draw(st.booleans()) else parts[0][1]["a"]
        return dict(c="Lin", parts=parts)
    return draw(v_part(sym, maxn))


@st.composite
def s_spec(draw, sym=None, maxn=4, lincomb=True):
    if lincomb and draw(st.integers(0, 3)) == 0:
        k = draw(st.integers(1, 3))
        parts = [[draw(num(0.05, 1.5, 2)), draw(s_part(sym, maxn))] for _ in range(k)]
        if k > 1 and draw(st.booleans()):
            for p in parts[1:]:
                if p[1]["c"] != "Iso":
                    a = draw(a_like(parts[0][1]["a"])) if draw(st.booleans()) else parts[0][1]["a"]
                    p[1]["a"] = [abs(a[0]), a[1], a[2]] if p[1]["c"] == "HGn" else a
        return dict(c="Lin", parts=parts)
    return draw(s_part(sym, maxn))


# ------------------------------------------------------------------- builders
def _val(v):
    if isinstance(v, str):
        return sp.sympify(v, locals={s: sp.Symbol(s) for s in ("x1", "x2", "x3")})
    if isinstance(v, list):
        return np.array(v, dtype=float)
    return v


def build_V(spec, omega=None, tau=None):
    from rt1 import volume

    kw = dict(omega=_val(omega), tau=_val(tau))
    c = spec["c"]
    if c == "Lin":
        return volume.LinCombV(
            Vchoices=[[_val(w), build_V(p)] for w, p in spec["parts"]], **kw)
    if c == "Rayleigh":
        return volume.Rayleigh(**kw)
    cls = dict(HG=volume.HenyeyGreenstein, HGR=volume.HGRayleigh)[c]
    return cls(t=_val(spec["t"]), ncoefs=spec["n"], a=list(spec["a"]), **kw)


def build_S(spec, NormBRDF=1.0):
    from rt1 import surface

    kw = dict(NormBRDF=_val(NormBRDF))
    c = spec["c"]
    if c == "Lin":
        return surface.LinCombSRF(
            SRFchoices=[[_val(w), build_S(p)] for w, p in spec["parts"]], **kw)
    if c == "Iso":
        return surface.Isotropic(**kw)
    if c == "Cos":
        return surface.CosineLobe(i=spec["i"], ncoefs=spec["n"], a=list(spec["a"]), **kw)
    cls = dict(HG=surface.HenyeyGreenstein, HGn=surface.HG_nadirnorm)[c]
    return cls(t=_val(spec["t"]), ncoefs=spec["n"], a=list(spec["a"]), **kw)


# ------------------------------------------------------- closed-form functions
def pv(v, params):
    """numeric value of a number / expression-string / list"""
    if isinstance(v, str):
        return eval(v, {"__builtins__": {}}, dict(params))  # own generated strings
    if isinstance(v, list):
        return np.array(v, dtype=float)
    return v


def cosang(a, t0, tex, p0, pex):
    return (a[0] * np.cos(t0) * np.cos(tex)
            + np.sin(t0) * np.sin(tex) * (a[1] * np.cos(p0) * np.cos(pex)
                                          + a[2] * np.sin(p0) * np.sin(pex)))


def nadir_refl(t, a0, N=200):
    """hemispherical reflectance (nadir incidence) of (1-t^2)/(pi (1+t^2-2 t x)^1.5)
    int_0^2pi int_0^1 f(a0*mu) mu dmu dphi"""
    x, w = leggauss(N)
    x, w = 0.5 * (x + 1), 0.5 * w
    t = np.asarray(t, float)[..., None]
    f = (1 - t**2) / (PI * (1 + t**2 - 2 * t * a0 * x) ** 1.5)
    return 2 * PI * np.sum(f * x * w, axis=-1)


def f1d(spec, params):
    """the function of the scattering-angle cosine"""
    c = spec["c"]
    if c == "Rayleigh":
        return lambda x: 3 / (16 * PI) * (1 + x * x)
    if c == "Iso":
        return lambda x: 1 / PI + 0 * x
    if c == "Cos":
        return lambda x: np.where(x > 0, np.abs(x) ** spec["i"], 0.0) / PI
    t = pv(spec["t"], params)
    return lambda x: _hg(spec, t, x)


def _hg(spec, t, x):
    c = spec["c"]
    hg = (1 - t**2) / (1 + t**2 - 2 * t * x) ** 1.5
    if c == "HG_V":
        return hg / (4 * PI)
    if c == "HG_S":
        return hg / PI
    if c == "HGR":
        return 3 / (8 * PI) / (2 + t**2) * (1 + x * x) * hg
    if c == "HGn":
        return hg / PI / nadir_refl(t, spec["a"][0])
    raise KeyError(c)


def _typed(spec, vol):
    if spec["c"] == "HG":
        return {**spec, "c": "HG_V" if vol else "HG_S"}
    return spec


def ref_func(spec, vol, params, t0, tex, p0, pex):
    """closed-form value of the phase-function / (un-normalised) BRDF"""
    if spec["c"] == "Lin":
        return sum(pv(w, params) * ref_func(p, vol, params, t0, tex, p0, pex)
                   for w, p in spec["parts"])
    spec = _typed(spec, vol)
    return f1d(spec, params)(cosang(spec["a"], t0, tex, p0, pex))


def ncoefs(spec):
    c = spec["c"]
    if c == "Lin":
        return max(ncoefs(p) for _, p in spec["parts"])
    return dict(Rayleigh=3, Iso=1).get(c) or spec["n"]


def proj(f, n, lo=-1.0, N=300):
    """Legendre-coefficients by projection"""
    x, w = leggauss(N)
    if lo == 0.0:
        x, w = 0.5 * (x + 1), 0.5 * w
    fx = f(x) * np.ones_like(x)
    out = []
    for k in range(n):
        c = np.zeros(k + 1)
        c[k] = 1
        out.append((2 * k + 1) / 2 * np.sum(w * fx * legval(x, c)))
    return np.array(out)


def ref_expansion(spec, vol, params):
    """[(a, coefficients)] of the truncated expansion (scalar params)"""
    if spec["c"] != "Lin":
        s = _typed(spec, vol)
        n = ncoefs(spec)
        if s["c"] == "Cos":
            return [(s["a"], proj(f1d(s, params), n, lo=0.0))]
        return [(s["a"], proj(f1d(s, params), n))]
    # distributions that share the same a are expanded up to the largest ncoefs
    groups = {}
    for w, p in spec["parts"]:
        groups.setdefault(tuple(p["a"]), []).append((w, p))
    out = []
    for a, ps in groups.items():
        n = max(ncoefs(p) for _, p in ps)
        tot = np.zeros(n)
        for w, p in ps:
            s = _typed(p, vol)
            tot += pv(w, params) * proj(f1d(s, params), n, lo=0.0 if s["c"] == "Cos" else -1.0)
        out.append((list(a), tot))
    return out


# --------------------------------------------------------------- interaction
_GL = leggauss(20)


def _panels(tau):
    lo = min(1e-4, tau * 1e-2)
    edges = [0.0]
    e = lo
    while e < 0.5:
        edges.append(e)
        e *= 2.0
    edges += [0.5, 0.75, 1.0]
    x, w = [], []
    for a, b in zip(edges[:-1], edges[1:]):
        x.append(0.5 * (b - a) * _GL[0] + 0.5 * (a + b))
        w.append(0.5 * (b - a) * _GL[1])
    return np.concatenate(x), np.concatenate(w)


def _expand_eval(exp, c, s, p, x, sx, ph):
    tot = 0.0
    for a, coef in exp:
        arg = (a[0] * c * x[:, None]
               + s * sx[:, None] * (a[1] * np.cos(p) * np.cos(ph) + a[2] * np.sin(p) * np.sin(ph)))
        tot = tot + legval(arg, coef)
    return tot


def _kernel(mu, x, tau):
    d = mu - x
    d = np.where(np.abs(d) < 1e-14, 1e-14, d)
    z = -tau * d / (x * mu)  # tau/mu - tau/x
    small = np.abs(z) < 1
    k = np.where(small, -np.exp(-tau / mu) * np.expm1(np.where(small, z, 0)),
                 np.exp(-tau / mu) - np.exp(-tau / x))
    return x / d * k


def F_int(vexp, sexp, t1, p1, t2, p2, tau, nphi):
    """-> value, absolute value of the scattered-and-reflected contribution"""
    x, w = _panels(tau)
    sx = np.sqrt(np.clip(1 - x * x, 0, None))
    ph = (2 * PI * (np.arange(nphi) + 0.5) / nphi)[None, :]
    P = _expand_eval(vexp, -np.cos(t1), np.sin(t1), p1, x, sx, ph)
    B = _expand_eval(sexp, np.cos(t2), np.sin(t2), p2, x, sx, ph)
    k = _kernel(np.cos(t1), x, tau) * w
    I = np.broadcast_to(P * B, (x.size, nphi))
    return (np.sum(I.sum(1) * k) * 2 * PI / nphi,
            np.sum(np.abs(I).sum(1) * np.abs(k)) * 2 * PI / nphi)


def ref_interaction(V, S, params, I0, omega, tau, N, bsf, t0, tex, p0, pex):
    """scalar reference of the interaction-term; returns (value, scale)"""
    if tau == 0:
        return 0.0, 0.0
    vexp, sexp = ref_expansion(V, True, params), ref_expansion(S, False, params)
    nphi = ncoefs(V) + ncoefs(S) + 4
    f1, a1 = F_int(vexp, sexp, t0, p0, tex, pex, tau, nphi)
    f2, a2 = F_int(vexp, sexp, tex, pex, t0, p0, tau, nphi)
    m0, mx = np.cos(t0), np.cos(tex)
    pre = I0 * m0 * omega * N * (1 - bsf)
    e1, e2 = np.exp(-tau / mx), np.exp(-tau / m0)
    return pre * (e1 * f1 + e2 * f2), abs(pre) * (e1 * a1 + e2 * a2)


def ref_surface(S, params, I0, tau, N, bsf, t0, tex, p0, pex):
    b = ref_func(S, False, params, t0, tex, p0, pex)
    m0, mx = np.cos(t0), np.cos(tex)
    return I0 * m0 * N * b * ((1 - bsf) * np.exp(-tau / m0 - tau / mx) + bsf)


def ref_volume(V, params, I0, omega, tau, bsf, t0, tex, p0, pex):
    p = ref_func(V, True, params, t0, tex, p0, pex)
    m0, mx = np.cos(t0), np.cos(tex)
    return (1 - bsf) * I0 * omega * m0 / (m0 + mx) * (-np.expm1(-tau / m0 - tau / mx)) * p


# ------------------------------------------------------------- full RT1 cases
GEOMS = ["mono"] + [a + b + c + d for a in "fv" for b in "fv" for c in "fv" for d in "fv"]
SYMS = ["x1", "x1*0.5", "x1+x2", "x2"]


@st.composite
def values(draw, elem, shape, kinds=("scalar", "full")):
    """scalar or (nested) list; kinds: scalar, full, col (shape [n, 1])"""
    k = draw(st.sampled_from(list(kinds)))
    if k == "scalar" or not shape:
        return draw(elem)
    if len(shape) == 1:
        return [draw(elem) for _ in range(shape[0])]
    m = 1 if k == "col" else shape[1]
    return [[draw(elem) for _ in range(m)] for _ in range(shape[0])]


@st.composite
def rt_case(draw, geoms=GEOMS, maxn=4, sym=True, nadir=True, lincomb=True, tau=None,
            backends=("symengine", "symengine", "sympy"), zero_tau=True):
    geom = draw(st.sampled_from(list(geoms))) if draw(st.integers(0, 2)) else (
        draw(st.sampled_from(["mono", "vvvv"])) if {"mono", "vvvv"} <= set(geoms) else geoms[0])
    shape = draw(st.sampled_from([[], [2], [3], [2, 2], [2, 3]]))
    use = sym and draw(st.booleans())
    V = draw(v_spec(draw(st.sampled_from(SYMS)) if use else None, maxn, lincomb))
    S = draw(s_spec(draw(st.sampled_from(SYMS)) if use else None, maxn, lincomb))
    kp = ("scalar", "full", "col")
    params = {}
    if use:
        for s in ("x1", "x2"):
            params[s] = draw(values(st.one_of(num(0.05, 0.35), num(0.05, 0.35), num(0.05, 0.35)),
                                    shape, kp))
        for X in (V, S):
            if X["c"] == "Lin" and draw(st.booleans()):
                X["parts"][0][0] = "x2"
    order = draw(st.booleans())
    if order:
        params = dict(reversed(params.items()))
    th, az = zenith(nadir), azimuth()
    fix = dict(zip(("t0", "tex", "p0", "pex"), geom)) if geom != "mono" else {}
    c = dict(geom=geom, V=V, S=S, params=params,
             backend=draw(st.sampled_from(list(backends))),
             I0=draw(st.sampled_from([1.0, 1.0, 0.4, 3.0])),
             bsf=draw(st.sampled_from([0.0, 0.0, 0.3, 1.0])),
             omega=draw(values(num(0.01, 1.0, 2), shape, kp)),
             N=draw(values(num(0.01, 1.0, 2), shape, kp)))
    tv = tau or tau_vals()
    c["tau"] = draw(values(tv, shape, kp))
    if zero_tau and draw(st.integers(0, 9)) == 0:
        c["tau"] = 0.0
    for k, el in (("t0", th), ("tex", th), ("p0", az), ("pex", az)):
        ks = ("scalar",) if fix.get(k) == "f" else ("scalar", "full", "full")
        c[k] = draw(values(el, shape, ks))
    if geom == "mono":
        c["p0"] = draw(az)
        c["tex"] = c["pex"] = 0.0
    return c


def make_rt(c, **kw):
    from rt1.rt1 import RT1

    return RT1(c["I0"], _val(c["t0"]), _val(c["tex"]), _val(c["p0"]), _val(c["pex"]),
               V=kw.pop("V", None) or build_V(c["V"], c["omega"], c["tau"]),
               SRF=kw.pop("SRF", None) or build_S(c["S"], c["N"]),
               geometry=kw.pop("geometry", c["geom"]), bsf=c["bsf"],
               param_dict=kw.pop("param_dict", {k: _val(v) for k, v in c["params"].items()}),
               lambda_backend=kw.pop("lambda_backend", c["backend"]),
               verbosity=0, **kw)


def elements(c):
    """iterate over the individual (scalar) evaluations: list of dicts + shape"""
    keys = ["t0", "tex", "p0", "pex", "omega", "tau", "N"] + list(c["params"])
    src = [c[k] for k in keys[:7]] + list(c["params"].values())
    arrs = np.broadcast_arrays(*[np.asarray(v, float) for v in src])
    shape = arrs[0].shape or (1,)
    arrs = [a.reshape(shape) for a in arrs]
    out = []
    for idx in np.ndindex(shape):
        d = dict(zip(keys, (float(a[idx]) for a in arrs)))
        if c["geom"] == "mono":
            d["tex"], d["pex"] = d["t0"], d["p0"] + PI
        d["params"] = {k: d[k] for k in c["params"]}
        d["idx"] = idx
        out.append(d)
    return out, shape


def describe(c, rec):
    rec.tag("geom:" + ("mono" if c["geom"] == "mono" else
                       "fixed" if "f" in c["geom"] else "vvvv"))
    rec.tag("V:" + c["V"]["c"], "S:" + c["S"]["c"], "backend:" + c["backend"])
    if c["params"]:
        rec.tag("symbolic")
    if isinstance(c["t0"], list):
        rec.tag("array%dd" % np.ndim(c["t0"]))
