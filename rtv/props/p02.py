"""P02: surface/volume/total contributions against the closed-form equations"""
import numpy as np
from hypothesis import strategies as st

from .. import rtgen as g
from ..core import Sub, need

RULE = ("A case is a full model-setup as in P01 plus (for 'laws') a second incident intensity/omega/"
        "NormBRDF. Non-trivial: tau>0 and (array-valued input or symbolic parameter or bsf>0).")
ASSUMPTIONS = ["reference: closed-form equations of doc/theory.rst implemented in rtv/rtgen.py"]
RT = 1e-9


def closed_form(c, rec):
    g.describe(c, rec)
    els, shape = g.elements(c)
    R = g.make_rt(c, int_Q=False)
    tot, sur, vol = R.calc()
    bc = [np.broadcast_to(np.asarray(i, float), shape) for i in (tot, sur, vol, R.surface())]
    for d in els:
        a = (d["t0"], d["tex"], d["p0"], d["pex"])
        s = g.ref_surface(c["S"], d["params"], c["I0"], d["tau"], d["N"], c["bsf"], *a)
        v = g.ref_volume(c["V"], d["params"], c["I0"], d["omega"], d["tau"], c["bsf"], *a)
        for name, got, ref in (("total", bc[0], s + v), ("surface", bc[1], s), ("volume", bc[2], v),
                               ("surface()", bc[3], s)):
            x = got[d["idx"]]
            sc = abs(s) + abs(v) if name == "total" else abs(ref)
            need(np.isfinite(x) and abs(x - ref) <= RT * sc + 1e-15 * c["I0"],
                 lambda: f"{name} contribution {x!r} != closed form {ref!r} at {d}")
    if els[0]["tau"] > 0 and (len(els) > 1 or c["params"] or c["bsf"] > 0):
        rec.tag("nontrivial")


@st.composite
def law_case(draw):
    c = draw(g.rt_case(maxn=2, sym=True, lincomb=True, geoms=["mono", "vvvv"],
                       backends=("symengine",), zero_tau=False))
    c["k"] = draw(st.sampled_from([0.5, 2.0, 7.0]))
    c["what"] = draw(st.sampled_from(["I0", "omega", "N", "bsf", "sum", "tau0", "tau0arr", "tau0arr", "intQ"]))
    c["zmask"] = draw(st.integers(1, 63))
    return c


def laws(c, rec):
    """metamorphic relations of the full result incl. the interaction-term"""
    w, k = c["what"], c["k"]
    rec.tag("law:" + w)
    base = g.make_rt(c).calc()
    els, shape = g.elements(c)
    bc = lambda r: [np.broadcast_to(np.asarray(i, float), shape) for i in r]
    T, S, V, I = bc(base)
    sc = np.abs(S) + np.abs(V) + np.abs(I) + 1e-14

    def eq(x, y, what, f=1.0):
        need(np.all(np.abs(np.asarray(x) - y) <= 1e-8 * f * (sc + np.abs(y))),
             lambda: f"law {w}: {what}: {np.asarray(x).tolist()} != {np.asarray(y).tolist()}")

    eq(T, S + V + I, "total = surface + volume + interaction")
    scale = lambda v: (np.asarray(v) * k).tolist()
    if w == "I0":
        n = bc(g.make_rt({**c, "I0": c["I0"] * k}).calc())
        for a, b, nm in zip(n, (T, S, V, I), ("tot", "surf", "vol", "int")):
            eq(a, b * k, nm, k)
    elif w == "omega":
        n = bc(g.make_rt({**c, "omega": scale(c["omega"])}).calc())
        eq(n[1], S, "surface is independent of omega")
        eq(n[2], V * k, "volume ~ omega", k)
        eq(n[3], I * k, "interaction ~ omega", k)
    elif w == "N":
        n = bc(g.make_rt({**c, "N": scale(c["N"])}).calc())
        eq(n[1], S * k, "surface ~ NormBRDF", k)
        eq(n[2], V, "volume is independent of NormBRDF")
        eq(n[3], I * k, "interaction ~ NormBRDF", k)
    elif w == "bsf":
        r0 = bc(g.make_rt({**c, "bsf": 0.0}).calc())
        r1 = bc(g.make_rt({**c, "bsf": 1.0}).calc())
        b = c["k"] / 10.0
        rb = bc(g.make_rt({**c, "bsf": b}).calc())
        for i, nm in enumerate(("tot", "surf", "vol", "int")):
            eq(rb[i], (1 - b) * r0[i] + b * r1[i], "bsf mixes linearly: " + nm)
        eq(r1[2], 0.0, "no volume for bsf=1")
        eq(r1[3], 0.0, "no interaction for bsf=1")
    elif w == "tau0":
        n = bc(g.make_rt({**c, "tau": 0.0}).calc())
        eq(n[2], 0.0, "no volume for tau=0")
        eq(n[3], 0.0, "no interaction for tau=0")
        bare = bc(g.make_rt({**c, "bsf": 1.0}).calc())
        eq(n[0], bare[0], "tau=0 equals bare soil")
    elif w == "tau0arr":
        # zero optical depth as array (as used when fitting)
        # (for some or all of the elements)
        z = np.zeros(shape, bool)
        z.flat[:] = [(c["zmask"] >> (i % 6)) & 1 for i in range(z.size)]
        tau = np.broadcast_to(np.asarray(c["tau"], float), shape)
        if z.any() and not z.all():
            rec.tag("tau0-partly")
        n = bc(g.make_rt({**c, "tau": np.where(z, 0.0, tau).tolist()}).calc())
        bare = bc(g.make_rt({**c, "bsf": 1.0}).calc())
        for i, (b, nm) in enumerate(((T, "tot"), (S, "surf"), (V, "vol"), (I, "int"))):
            b = np.where(z, (bare[0], bare[0], 0.0, 0.0)[i], b)
            eq(n[i], b, f"{nm}: neither volume nor interaction where tau=0 (array)")
    elif w == "intQ":
        n = g.make_rt(c, int_Q=False).calc()
        need(len(n) == 3, "int_Q=False must return (total, surface, volume)")
        n = bc(n)
        eq(n[0], S + V, "total without interaction")
    rec.tag("nontrivial")


SUBS = [
    Sub("closed_form", lambda: g.rt_case(maxn=3), closed_form, 800, 12000, shards=4, tshards=8),
    Sub("laws", law_case, laws, 240, 3000, shards=4, tshards=8),
]
