"""P06: slopes and curvatures are the angular derivatives"""
import numpy as np
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from ..core import Skip, Sub, need

RULE = ("A case is a full setup (incl. linear combinations, symbols, bsf, arrays) and a choice of units. "
        "Non-trivial: tau>0 and an anisotropic member. Cases in which a cosine-lobe crosses its cut-off "
        "within the finite-difference stencil, or with a non-positive intensity in dB, are outside the "
        "domain.")
ASSUMPTIONS = ["reference: 8th order finite differences of the independent closed-form reference"]

C1 = np.array([1 / 280, -4 / 105, 1 / 5, -4 / 5, 0, 4 / 5, -1 / 5, 4 / 105, -1 / 280])
C2 = np.array([-1 / 560, 8 / 315, -1 / 5, 8 / 5, -205 / 72, 8 / 5, -1 / 5, 8 / 315, -1 / 560])
H = 8e-3


def fd(f, x):
    v = np.array([f(x + k * H) for k in range(-4, 5)])
    return C1 @ v / H, C2 @ v / H**2, v[4]


def _parts(spec):
    return [p for _, p in spec["parts"]] if spec["c"] == "Lin" else [spec]


def _kink(S, ang):
    """does any cosine-lobe change its sign within the stencil?"""
    for p in _parts(S):
        if p["c"] == "Cos":
            s = [np.sign(g.cosang(p["a"], *ang(k * H * 1.2))) for k in range(-5, 6)]
            if len(set(s)) > 1:
                return True
    return False


def to_units(I, t, sig0, dB):
    v = 4 * np.pi * np.cos(t) * I if sig0 else I
    return 10 * np.log10(v) if dB else v


@st.composite
def slope_case(draw):
    c = draw(g.rt_case(geoms=["mono"], maxn=3, nadir=False, zero_tau=False))
    c["t0"] = draw(g.values(g.num(0.05, 1.35), draw(st.sampled_from([[], [2], [3]])), ("scalar", "full")))
    n = len(c["t0"]) if isinstance(c["t0"], list) else 1
    for k in ("omega", "tau", "N"):
        if isinstance(c[k], list):
            v = np.ravel(np.asarray(c[k], float)).tolist()
            c[k] = (v * 3)[:n]
    c["params"] = {k: (np.ravel(np.asarray(v, float)).tolist() * 3)[:n] if isinstance(v, list) else v
                   for k, v in c["params"].items()}
    c["sig0"], c["dB"] = draw(st.booleans()), draw(st.booleans())
    return c


def slope(c, rec):
    g.describe(c, rec)
    R = g.make_rt(c, int_Q=False)
    els, shape = g.elements(c)
    kw = dict(sig0=c["sig0"], dB=c["dB"])
    got = {n: np.broadcast_to(np.asarray(getattr(R, n)(**kw), float), shape)
           for n in ("surface_slope", "surface_curv", "volume_slope", "volume_curv", "tot_slope", "tot_curv")}
    for d in els:
        def s(t):
            return g.ref_surface(c["S"], d["params"], c["I0"], d["tau"], d["N"], c["bsf"], t, t,
                                 d["p0"], d["p0"] + np.pi)

        def v(t):
            return g.ref_volume(c["V"], d["params"], c["I0"], d["omega"], d["tau"], c["bsf"], t, t,
                                d["p0"], d["p0"] + np.pi)
        if _kink(c["S"], lambda k: (d["t0"] + k, d["t0"] + k, d["p0"], d["p0"] + np.pi)):
            rec.tag("kink")
            continue
        for nm, fn in (("surface", s), ("volume", v), ("tot", lambda t: s(t) + v(t))):
            lin = fn(d["t0"])
            sc = abs(s(d["t0"])) + abs(v(d["t0"]))
            if c["dB"] and not lin > 1e-9 * max(sc, 1e-9):
                rec.tag("non-positive-dB")
                continue
            r1, r2, val = fd(lambda t: to_units(fn(t), t, c["sig0"], c["dB"]), d["t0"])
            # truncation errors grow towards grazing angles and with tau/cos(t)
            st_ = (1 + d["tau"] / np.cos(d["t0"])**2)
            tol = 1e-6 * (abs(val) + abs(r1) + abs(r2) * 0.1 + 1) * st_**2 if c["dB"] else \
                1e-6 * (max(abs(fn(d["t0"] + k * H)) for k in range(-4, 5)) * (4 * np.pi if c["sig0"] else 1)
                        * st_**2 * 20 + abs(r1) + abs(r2))
            x1, x2 = got[nm + "_slope"][d["idx"]], got[nm + "_curv"][d["idx"]]
            need(abs(x1 - r1) <= tol, lambda: f"{nm}_slope {x1} != {r1} (tol {tol:.2g}) at {d}")
            need(abs(x2 - r2) <= 30 * tol, lambda: f"{nm}_curv {x2} != {r2} (tol {30*tol:.2g}) at {d}")
            if d["tau"] > 0 and nm == "tot":
                rec.tag("nontrivial")


@st.composite
def diff_case(draw):
    vol = draw(st.booleans())
    sym = draw(st.sampled_from([None] + g.SYMS))
    geom = draw(st.sampled_from(["mono", "mono", "vvvv", "vvvv"] + g.GEOMS[1:]))
    shape = draw(st.sampled_from([[], [2], [3]]))
    c = dict(vol=vol, spec=draw((g.v_spec if vol else g.s_spec)(sym, 3)), geom=geom,
             params={s: draw(g.num(0.05, 0.35)) for s in ("x1", "x2")} if sym else {})
    md = dict(zip(("t0", "tex", "p0", "pex"), geom)) if geom != "mono" else dict(p0="f")
    for k, el in (("t0", g.num(0.05, 1.4)), ("tex", g.num(0.05, 1.4)), ("p0", g.azimuth()),
                  ("pex", g.azimuth())):
        c[k] = draw(g.values(el, shape, ("scalar",) if md.get(k) == "f" else ("scalar", "full")))
    if geom == "mono":
        c["tex"] = c["t0"]
        c["pex"] = c["p0"] + np.pi
    return c


def diff(c, rec):
    X = (g.build_V if c["vol"] else g.build_S)(c["spec"])
    fun = X.p_theta_diff if c["vol"] else X.brdf_theta_diff
    a = [g._val(c[k]) for k in ("t0", "tex", "p0", "pex")]
    args = np.broadcast_arrays(*[np.asarray(i, float) for i in a])
    args = [np.atleast_1d(i) for i in args]
    shape = args[0].shape
    rec.tag("geom:" + c["geom"])
    for n in (1, 2):
        got = np.asarray(fun(*[np.atleast_1d(np.asarray(i, float)) for i in a], geometry=c["geom"],
                           param_dict=c["params"], n=n), float)
        got = np.broadcast_to(got, shape)
        for i in np.ndindex(shape):
            t0, tex, p0, pex = (float(k[i]) for k in args)
            if c["geom"] == "mono":
                ang = lambda h: (t0 + h, t0 + h, p0, pex)
            else:
                ang = lambda h: (t0, tex + h, p0, pex)
            if not c["vol"] and _kink(c["spec"], ang):
                continue
            if c["geom"][1] == "f" and c["geom"] != "mono":
                r = 0.0
                sc = 1.0
            else:
                q = fd(lambda h: g.ref_func(c["spec"], c["vol"], c["params"], *ang(h)), 0.0)
                r = q[n - 1]
                sc = abs(q[0]) + abs(q[1]) + abs(q[2])
            need(abs(got[i] - r) <= 2e-6 * (sc + 1e-3) * (30 if n == 2 else 1),
                 lambda: f"derivative of order {n}: {got[i]} != {r} at {(t0, tex, p0, pex)}")
    if c["spec"]["c"] != "Iso":
        rec.tag("nontrivial")


def fit_case():
    return f.definition(int_Q=False, nmax=4, maxrep=2, maxn=2)


def fits(c, rec):
    """slopes and curvatures of the model of a fit-object"""
    f.describe(c, rec)
    fit = f.make_fit(c)
    ds = fit.dataset
    cs = dict(c, obs=[[o[0], float(a), float(b), o[3]] for o, a, b in zip(c["obs"], ds.inc, ds.sig)],
              cols={k: ds[k].tolist() for k in c["cols"]})
    vals = f.group_values(cs)
    if f.interp_undefined(cs):
        raise Skip("interpolation")
    P = f.obs_params(cs, vals)
    rd = {k: np.array(v) for k, v in vals.items()}
    fit.calc_model(res_dict={k: v.copy() for k, v in rd.items()})
    comp = len(c["obs"]) % 2 == 0
    if not hasattr(fit, "_calc_slope_curv"):  # internal helper
        raise Skip("not available")
    got = fit._calc_slope_curv(res_dict=rd, return_components=comp)
    names = ["tot", "surf", "vol"] if comp else ["tot"]
    ok = ~np.asarray(fit.mask)
    inc = np.asarray(fit.inc)
    interp = any(d.get("interp") for _, d in f.fitted(cs))
    rows = []
    for o, p in zip(cs["obs"], P):
        if _kink(f.num_dist(c["S"], p), lambda k: (o[1] + k, o[1] + k, 0.0, np.pi)):
            raise Skip("kink")
        ref = []
        for j in range(len(names)):
            lin = f.ref_point(cs, o[1], p, False)
            if c["dB"] and not lin[j] > 1e-7 * max(np.abs(lin).max(), 1e-9):
                ref.append(None)
                continue
            fn = lambda t: f.to_units(f.ref_point(cs, t, p, False)[j], t, c["sig0"], c["dB"])
            r1, r2, v = fd(fn, o[1])
            ta = abs(f.slot_value(c["tau"], p))
            s_ = (1 + ta / np.cos(o[1]) ** 2) ** 2
            m = max(np.abs(f.ref_point(cs, o[1] + k * H, p, False)).max() for k in range(-4, 5))
            if c["dB"]:
                tol = 1e-6 * (abs(v) + abs(r1) + abs(r2) + 1) * s_ * max(1, m / lin[j])
            else:
                tol = 1e-6 * (m * (13 if c["sig0"] else 1) * s_ * 20 + abs(r1) + abs(r2))
            tol = tol * 3e3 if interp else tol
            ref.append((r1, r2, tol))
        rows.append((o[1], ref))
    for j, nm in enumerate(names):
        s1, s2 = (np.broadcast_to(np.asarray(got[k][j] if comp else got[k], float), inc.shape) for k in ("slope", "curv"))
        have = [(inc[i], s1[i], s2[i]) for i in zip(*np.nonzero(ok))]
        need(len(have) == len(rows), "number of values")
        for t, ref in rows:
            if ref[j] is None:
                have = None
                break
            r1, r2, tol = ref[j]
            hit = [h for h in have if h[0] == t and abs(h[1] - r1) <= tol and abs(h[2] - r2) <= 30 * tol]
            need(hit, lambda: f"{nm}: slope/curvature {[h[1:] for h in have if h[0] == t]} instead of {(r1, r2)} (tol {tol:.2g})")
            have.remove(hit[0])
    if len(rows) > 1:
        rec.tag("nontrivial")


SUBS = [Sub("fits", fit_case, fits, 200, 3000, shards=4, tshards=8), Sub("slope", slope_case, slope, 240, 4000, shards=8, tshards=8),
        Sub("diff", diff_case, diff, 240, 3000, shards=8, tshards=8)]
