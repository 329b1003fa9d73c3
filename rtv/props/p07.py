"""P07: jacobian == derivative of (surface + volume)"""
import numpy as np
from hypothesis import strategies as st

from .. import rtgen as g
from ..core import Sub, need

RULE = ("A case is a full setup, a unit-choice (sig0/dB) and a list of parameters (omega, tau, NormBRDF, "
        "bsf and the symbols used in V and SRF). Non-trivial: >= 2 parameters, tau > 0.")
ASSUMPTIONS = ["reference: complex-free 4th order finite differences of the independent closed-form",
               "the interaction-term is documented to be neglected in the jacobian",
               "KNOWN finding F-TAU: the volume part of d/dtau uses mu_ex instead of 1/mu_ex; values that "
               "match exactly this formula are not reported (counted as class 'known:F-TAU')"]


@st.composite
def case(draw):
    c = draw(g.rt_case(maxn=2, geoms=["mono", "vvvv"], zero_tau=False))
    c["sig0"], c["dB"] = draw(st.booleans()), draw(st.booleans())
    keys = ["omega", "tau", "NormBRDF", "bsf"] + list(c["params"])
    c["keys"] = draw(st.lists(st.sampled_from(keys), min_size=1, max_size=len(keys), unique=True))
    c["reuse"] = draw(st.booleans())
    return c


def reuse(c):
    """an RT1-object that has been evaluated for other values (and another order) of the parameters before"""
    val = g._val
    R = g.make_rt({**c, "omega": 0.3, "tau": 0.6, "N": 0.1, "bsf": 0.2}, int_Q=False,
                  param_dict={k: 0.7 * val(v) for k, v in reversed(list(c["params"].items()))})
    R.jacobian(param_list=c["keys"])
    R.V.omega, R.V.tau, R.SRF.NormBRDF, R.bsf = val(c["omega"]), val(c["tau"]), val(c["N"]), c["bsf"]
    R.param_dict = {k: val(v) for k, v in c["params"].items()}
    return R


def fd(f, x, h):
    return (f(x - 2 * h) - 8 * f(x - h) + 8 * f(x + h) - f(x + 2 * h)) / (12 * h)


def check(c, rec, strict=False):
    g.describe(c, rec)
    els, shape = g.elements(c)
    R = reuse(c) if c["reuse"] else g.make_rt(c, int_Q=False)
    rec.tag("re-used" if c["reuse"] else "new")
    jac = R.jacobian(dB=c["dB"], sig0=c["sig0"], param_list=c["keys"])
    need(len(jac) == len(c["keys"]), "one row per parameter is required")
    for key, J in zip(c["keys"], jac):
        J = np.broadcast_to(np.asarray(J, float), shape)
        rec.tag("key:" + key)
        for d in els:
            ang = (d["t0"], d["tex"], d["p0"], d["pex"])

            def SV(val=None):
                q = {**d, "bsf": c["bsf"], "params": dict(d["params"])}
                if val is not None:
                    if key in q["params"]:
                        q["params"][key] = val
                    else:
                        q[{"NormBRDF": "N"}.get(key, key)] = val
                s = g.ref_surface(c["S"], q["params"], c["I0"], q["tau"], q["N"], q["bsf"], *ang)
                v = g.ref_volume(c["V"], q["params"], c["I0"], q["omega"], q["tau"], q["bsf"], *ang)
                return np.array([s, v])
            x0 = d["params"].get(key, {"omega": d["omega"], "tau": d["tau"], "NormBRDF": d["N"],
                                       "bsf": c["bsf"]}.get(key))
            h = 2e-3 * max(abs(x0), 1e-2) if key != "tau" else 2e-3 * min(max(x0, 1e-3), 0.3)
            dS, dV = fd(SV, x0, h)
            s0, v0 = SV()
            norm = 4 * np.pi * np.cos(d["t0"]) if c["sig0"] and not c["dB"] else 1.0
            if c["dB"]:
                if not (s0 + v0) > 1e-12:
                    rec.tag("non-positive-dB")
                    continue
                norm = 10 / np.log(10) / (s0 + v0)
            ref = norm * (dS + dV)
            tol = 1e-6 * abs(norm) * (abs(dS) + abs(dV) + abs(s0) + abs(v0)) + 1e-300
            got = J[d["idx"]]
            if abs(got - ref) <= tol:
                continue
            if key == "tau" and not strict:
                m0, mx = np.cos(d["t0"]), np.cos(d["tex"])
                known = norm * (dS + dV * (1 / m0 + mx) / (1 / m0 + 1 / mx))
                if abs(got - known) <= tol:
                    rec.tag("known:F-TAU")
                    continue
            need(False, f"jacobian for {key}: {got} != {ref} (tol {tol:.2g}) at {d}")
    if len(c["keys"]) > 1:
        rec.tag("nontrivial")


SUBS = [Sub("jacobian", case, check, 400, 6000, shards=8, tshards=8),
        # witness of the known finding (generates nothing)
        ]
WITNESS = [Sub("tau_strict", case, lambda c, r: check(c, r, strict=True), 0, 0)]
