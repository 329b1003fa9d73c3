"""P05: linear combinations behave linearly in every contribution"""
import numpy as np
from hypothesis import strategies as st

from .. import rtgen as g
from ..core import Sub, need

RULE = ("A case is a linear combination of 1-4 volume phase-functions and 1-4 BRDFs (weights numeric or "
        "symbolic, scattering-angle parameters shared or different) and a geometry. Non-trivial: at "
        "least two members in one of the combinations.")
ASSUMPTIONS = ["all members of a combination use the same number of coefficients (otherwise members "
               "that share the scattering-angle parameters are documented to use the maximum)"]


@st.composite
def case(draw):
    c = draw(g.rt_case(maxn=2, geoms=["mono", "vvvv", "fvfv", "vvff"], zero_tau=False, lincomb=False,
                       sym=False))
    n = draw(st.integers(3, 4))
    use = draw(st.booleans())

    def comb(part, vol):
        k = draw(st.integers(1, 4))
        out = []
        for i in range(k):
            p = draw(part(draw(st.sampled_from(g.SYMS)) if use else None, 3))
            if "n" in p:
                p["n"] = n
            if i and p["c"] in ("HG", "HGR", "Cos"):
                like = draw(st.sampled_from(["other", "same", "partly"]))
                if like == "same":
                    p["a"] = out[0][1]["a"]
                elif like == "partly":
                    p["a"] = draw(g.a_like(out[0][1]["a"]))
            out.append([draw(g.num(0.05, 1.0, 2)), p])
        if vol:
            s = sum(w for w, _ in out)
            for o in out:
                o[0] = o[0] / s
        return out
    c["V"] = dict(c="Lin", parts=comb(g.v_part, True))
    c["S"] = dict(c="Lin", parts=comb(g.s_part, False))
    if use:
        c["params"] = dict(x1=draw(g.num(0.05, 0.35)), x2=draw(g.num(0.05, 0.35)))
        if draw(st.booleans()):
            c["V"]["parts"][0][0] = "x2"
        if draw(st.booleans()):
            c["S"]["parts"][-1][0] = "x1+x2"
    c["nest"] = draw(st.sampled_from(["none", "none", "V", "S"]))
    return c


def check(c, rec):
    full = g.make_rt(c).calc()
    els, shape = g.elements(c)
    tot = [0.0] * 4
    scale = 0.0
    w = lambda x: g.pv(x, c["params"])
    bc = lambda r: [np.broadcast_to(np.asarray(i, float), shape) for i in r]
    for i, (wv, V) in enumerate(c["V"]["parts"]):
        for j, (ws, S) in enumerate(c["S"]["parts"]):
            r = bc(g.make_rt({**c, "V": V, "S": S}).calc())
            if i == 0:
                tot[1] = tot[1] + w(ws) * r[1]
            if j == 0:
                tot[2] = tot[2] + w(wv) * r[2]
            tot[3] = tot[3] + w(wv) * w(ws) * r[3]
            scale = scale + abs(w(ws)) * (np.abs(r[1]) + np.abs(r[3])) + np.abs(r[2])
    tot[0] = tot[1] + tot[2] + tot[3]
    for nm, a, b in zip(("total", "surface", "volume", "interaction"), bc(full), tot):
        need(np.all(np.abs(a - b) <= 1e-7 * scale + 1e-300),
             lambda: f"{nm} of the combination {a.tolist()} != combined {np.asarray(b).tolist()}")
    rec.tag(f"members:{len(c['V']['parts'])}x{len(c['S']['parts'])}")
    if max(len(c["V"]["parts"]), len(c["S"]["parts"])) > 1:
        rec.tag("nontrivial")


def value(c, rec):
    """values and angular derivatives of the combined functions"""
    for vol, spec, scal in ((True, c["V"], ("omega", "tau")), (False, c["S"], ("N",))):
        X = (g.build_V if vol else g.build_S)(spec)
        ang = [np.array(a) for a in ([.2, .5, 1.1], [.3, .9, .4], [0.1, 1., 2.], [2., 3., 4.])]
        f = "p" if vol else "brdf"
        parts = [(g.pv(w, c["params"]), (g.build_V if vol else g.build_S)(p)) for w, p in spec["parts"]]
        got = getattr(X, f)(*ang, param_dict=c["params"])
        ref = sum(w * getattr(p, f)(*ang, param_dict=c["params"]) for w, p in parts)
        need(np.allclose(got, ref, rtol=1e-9, atol=1e-14), lambda: f"{f}: {got} != {ref}")
        for n in (1, 2):
            kw = dict(geometry="vvvv", param_dict=c["params"], n=n)
            got = getattr(X, f + "_theta_diff")(*ang, **kw)
            ref = sum(w * getattr(p, f + "_theta_diff")(*ang, **kw) for w, p in parts)
            need(np.allclose(np.array(got, float), np.array(ref, float), rtol=1e-7, atol=1e-11),
                 lambda: f"{f}_theta_diff (n={n}): {got} != {ref}")
    if max(len(c["V"]["parts"]), len(c["S"]["parts"])) > 1:
        rec.tag("nontrivial")


SUBS = [Sub("contributions", case, check, 96, 1600, shards=8, tshards=8),
        Sub("values", case, value, 96, 1200, shards=4, tshards=8)]
