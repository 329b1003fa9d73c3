"""P01: interaction-term == independent numerical quadrature"""
import numpy as np

from .. import rtgen as g
from ..core import Sub, need

RULE = ("A case is a full model-setup (volume phase-function, BRDF, linear combinations, symbolic "
        "parameters, geometry-mode, backend, scalar/1D/2D angles and parameters). Non-trivial: "
        "tau>0, and at least one of the two distributions is anisotropic with >1 coefficients.")
ASSUMPTIONS = ["oracle: 20-point composite Gauss-Legendre in cos(theta_s) x equidistant azimuth sums, "
               "Legendre-coefficients by projection of the closed-form functions",
               "|a_i| <= 1, zenith <= 1.45 rad, tau in [0, 12], <= 6 coefficients per distribution"]
TOL = 2e-7


def check(c, rec):
    g.describe(c, rec)
    els, shape = g.elements(c)
    R = g.make_rt(c)
    res = R.calc()
    need(len(res) == 4, "calc() must return (total, surface, volume, interaction)")
    got = np.broadcast_to(np.asarray(res[3], float), shape)
    for d in els:
        ref, scale = g.ref_interaction(c["V"], c["S"], d["params"], c["I0"], d["omega"], d["tau"],
                                       d["N"], c["bsf"], d["t0"], d["tex"], d["p0"], d["pex"])
        v = got[d["idx"]]
        need(np.isfinite(v) and abs(v - ref) <= TOL * scale + 1e-300,
             lambda: f"interaction {v!r} != quadrature {ref!r} (scale {scale:.3g}) at {d}")
    if els[0]["tau"] > 0 and max(g.ncoefs(c["V"]), g.ncoefs(c["S"])) > 1 and c["bsf"] < 1:
        rec.tag("nontrivial")


SUBS = [
    Sub("interaction", lambda: g.rt_case(maxn=4), check, 640, 6000, shards=8, tshards=8),
    Sub("interaction_hi", lambda: g.rt_case(geoms=["mono", "vvvv"], maxn=7, sym=False), check,
        64, 800, shards=4, tshards=8),
]
