"""P03: evaluation-mode independence (geometry, backend, vectorisation, object history)"""
import cloudpickle

import numpy as np
from hypothesis import strategies as st

from .. import rtgen as g
from ..core import Sub, need

RULE = ("modes: one setup evaluated with every applicable geometry-mode/backend/vectorisation; "
        "history: a sequence of re-assignments (angles, tau, omega, NormBRDF, bsf, I0, symbol-values, "
        "pickling, calc) on one object vs. a freshly created one. Non-trivial: >=2 modes or >=2 "
        "re-assignments of which at least one changes the value or shape of an angle or parameter.")
ASSUMPTIONS = ["rtol 1e-7 relative to the sum of absolute contributions"]


def eqres(a, b, what, rtol=1e-7):
    need(len(a) == len(b), f"{what}: number of outputs differs")
    sc = sum(np.abs(np.asarray(i, float)) for i in b[1:])
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = np.asarray(x, float), np.asarray(y, float)
        x, y = np.broadcast_arrays(x, y) if x.shape != y.shape and 1 in (x.size, y.size) else (x, y)
        need(x.shape == y.shape, lambda: f"{what}: output {i}: shape {x.shape} != {y.shape}")
        need(np.all(np.abs(x - y) <= rtol * sc + 1e-300),
             lambda: f"{what}: output {i}: {x.tolist()} != {y.tolist()}")


@st.composite
def modes_case(draw):
    c = draw(g.rt_case(geoms=["vvvv"], maxn=3, zero_tau=False))
    c["mono"] = draw(st.booleans())
    if c["mono"]:
        c["p0"] = draw(g.azimuth())
        c["tex"], c["pex"] = c["t0"], c["p0"] + np.pi
    c["geoms"] = draw(st.lists(st.sampled_from(g.GEOMS[1:]), min_size=1, max_size=3, unique=True))
    return c


def modes(c, rec):
    els, shape = g.elements(c)
    ref = g.make_rt(c).calc()
    other = "sympy" if c["backend"] == "symengine" else "symengine"
    eqres(g.make_rt(c, lambda_backend=other).calc(), ref, f"backend {other} vs {c['backend']}")
    n = 1
    ang = ("t0", "tex", "p0", "pex")
    for geom in c["geoms"]:
        if all(np.ndim(c[k]) == 0 for k, s in zip(ang, geom) if s == "f"):
            eqres(g.make_rt(c, geometry=geom).calc(), ref, f"geometry {geom} vs vvvv")
            rec.tag("fixed-geom")
            n += 1
    if c["mono"]:
        eqres(g.make_rt(c, geometry="mono").calc(), ref, "geometry mono vs vvvv")
        rec.tag("mono")
        n += 1
    # element-wise evaluation
    for d in els[:4]:
        cc = {**c, **{k: d[k] for k in ("t0", "tex", "p0", "pex", "omega", "tau", "N")},
              "params": d["params"]}
        one = g.make_rt(cc).calc()
        full = [np.broadcast_to(np.asarray(i, float), shape)[d["idx"]] for i in ref]
        eqres([np.ravel(i)[:1] for i in one], [np.array([i]) for i in full], f"element {d['idx']}")
    # pre-evaluated coefficients can be re-used
    A = g.make_rt(c)
    eqres(g.make_rt(c, fn_input=A.fn).calc(), ref, "re-used fn coefficients")
    A.calc()
    eqres(g.make_rt(c, _fnevals_input=A._fnevals).calc(), ref, "re-used fn functions")
    if n > 1 or len(els) > 1:
        rec.tag("nontrivial")


# -------------------------------------------------------------------- history
@st.composite
def history_case(draw):
    geom = draw(st.sampled_from(["mono", "vvvv", "vvvv", "vvff"]))
    c = draw(g.rt_case(geoms=[geom], maxn=3, zero_tau=False))
    c["geom"] = geom
    if geom == "mono":
        c["p0"] = draw(g.azimuth())
    for k in ("p0", "pex"):
        if geom == "vvff":
            c[k] = draw(g.azimuth())
    # 1-d re-assignments so that all shapes remain compatible
    n = draw(st.integers(1, 3))
    for k in ("t0", "tex", "p0", "pex", "omega", "tau", "N"):
        if isinstance(c[k], list):
            v = np.ravel(np.asarray(c[k], float)).tolist()
            c[k] = (v * 3)[:n]
    c["params"] = {k: (np.ravel(np.asarray(v, float)).tolist() * 3)[:n] if isinstance(v, list) else v
                   for k, v in c["params"].items()}
    ops = ["t0", "tau", "omega", "N", "bsf", "I0", "calc", "calc", "pickle", "int_Q", "jacobian"]
    if geom != "mono":
        ops += ["tex"]
    if geom == "vvvv":
        ops += ["p0", "pex"]
    if c["params"]:
        ops += ["params"]
    seq = []
    for _ in range(draw(st.integers(1, 6))):
        o = draw(st.sampled_from(ops))
        el = dict(t0=g.zenith(), tex=g.zenith(), p0=g.azimuth(), pex=g.azimuth(), tau=g.tau_vals(),
                  omega=g.num(0.01, 1, 2), N=g.num(0.01, 1, 2)).get(o)
        if el is not None:
            v = draw(g.values(el, [n]))
        elif o == "bsf":
            v = draw(st.sampled_from([0.0, 0.25, 0.8]))
        elif o == "I0":
            v = draw(st.sampled_from([1.0, 2.5]))
        elif o == "params":
            v = {k: draw(g.values(g.num(0.05, 0.35), [n])) for k in draw(st.permutations(list(c["params"])))}
        elif o == "int_Q":
            v = draw(st.booleans())
        else:
            v = None
        seq.append([o, v])
    c["ops"] = seq
    c["int_Q"] = draw(st.integers(0, 3)) > 0
    return c


def history(c, rec):
    R = g.make_rt(c, int_Q=c["int_Q"])
    cur = dict(c)
    changed = 0
    R.calc()
    for o, v in c["ops"] + [["calc", None]]:
        rec.tag("op:" + o)
        if o == "calc":
            eqres(R.calc(), g.make_rt(cur, int_Q=cur["int_Q"]).calc(), "result after re-assignments vs fresh object")
            continue
        if o == "pickle":
            R = cloudpickle.loads(cloudpickle.dumps(R))
            continue
        if o == "jacobian":
            keys = ["omega", "tau", "NormBRDF", "bsf"] + list(c["params"])
            eqres(R.jacobian(param_list=keys), g.make_rt(cur, int_Q=False).jacobian(param_list=keys), "jacobian after re-assignments vs fresh object")
            continue
        changed += 1
        val = g._val(v) if not isinstance(v, dict) else {k: g._val(x) for k, x in v.items()}
        if o == "t0":
            R.t_0 = val
        elif o == "tex":
            R.t_ex = val
        elif o == "p0":
            R.p_0 = val
        elif o == "pex":
            R.p_ex = val
        elif o == "tau":
            R.V.tau = val
        elif o == "omega":
            R.V.omega = val
        elif o == "N":
            R.SRF.NormBRDF = val
        elif o == "bsf":
            R.bsf = val
        elif o == "I0":
            R.I0 = val
        elif o == "int_Q":
            R.int_Q = v
        elif o == "params":
            R.param_dict = val
        cur = {**cur, ({"params": "params"}.get(o, o)): v}
    if changed >= 2:
        rec.tag("nontrivial")


SUBS = [
    Sub("modes", modes_case, modes, 160, 2400, shards=8, tshards=8),
    Sub("history", history_case, history, 160, 2400, shards=8, tshards=8),
]
