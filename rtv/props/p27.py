"""P27: summaries of definitions show the actual definitions"""
import ast
import re

import numpy as np
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from ..core import Sub, need

RULE = ("A case is a definition of a fit (parameters of any kind with integer, float or numpy-scalars as start-values, "
        "boundaries and constants; distributions; least-squares settings), with or without a dataset, as single fit "
        "or as configuration of a multi-fit, whose summary is parsed and compared to the definition. Non-trivial: at "
        "least one fitted and one further parameter, or at least two least-squares settings.")
ASSUMPTIONS = ["the summaries are read as the documented table (columns separated by '|', 'name = value' entries)"]
NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"
LSQ = {"ftol": 1e-5, "xtol": 2e-6, "gtol": 1e-7, "max_nfev": 17, "method": "trf", "loss": "linear", "x_scale": "jac",
       "tr_solver": "lsmr", "f_scale": 0.5}


@st.composite
def case(draw):
    c = draw(f.definition(int_Q=None, nmax=6, lin=True, auxstart=True))
    for n, d in c["params"]:
        if d["fit"]:
            k = draw(st.integers(0, 4))
            if k == 0:  # integers
                d.update(lo=0, hi=draw(st.sampled_from([1, 2, 10])))
                if d["val"] != "auxiliary":
                    d["val"] = draw(st.sampled_from([1, 0, 2]))
                d.pop("ctype", None)
            elif k == 1:
                d.update(lo=draw(st.sampled_from([-1.5, 1e-5, 0.0, -2.0])), hi=draw(st.sampled_from([0.9, 1.0, 12.25])))
        elif d["val"] != "auxiliary" and draw(st.integers(0, 4)) == 0:
            d["val"] = draw(st.sampled_from([1, 2, 0.1234567]))
            d.pop("ctype", None)
    for _, d in c["params"]:
        d.pop("spell", None)
    c["lsq"] = draw(st.lists(st.sampled_from(sorted(LSQ)), unique=True, max_size=7))
    c["data"] = draw(st.integers(0, 3)) > 0
    c["how"] = draw(st.sampled_from(["single", "single", "multi", "reinit"]))
    return c


def _nontriv(c, rec):
    return (len(c["params"]) > 1 and len(f.fitted(c)) > 0) or len(c["lsq"]) > 1


def build(c):
    from rt1.rtfits import MultiFits

    kw = dict(lsq_kwargs={k: LSQ[k] for k in c["lsq"]})
    if not c["data"]:
        kw["dataset"] = None
    fit = f.make_fit(c, **kw)
    if c["how"] == "reinit":
        return fit.reinit_object()
    if c["how"] == "multi":
        m = MultiFits()
        m.add_config("A", fit)
        m.add_config("B", fit.reinit_object(defdict={n: [False, 0.2] for n, _ in c["params"]}))
        if c["data"]:
            m.set_dataset(f.make_dataset(c))
        return m.accessor.config_fits["A"]
    return fit


def section(lines, start, what):
    """rows between a headline and the following empty line or separator"""
    pos = [i for i, s in enumerate(lines) if start in s]
    need(len(pos) == 1, lambda: f"{what}: {len(pos)} headlines")
    out = []
    for s in lines[pos[0] + 1:]:
        if not s.strip() or set(s.strip()) == {"-"} or s.startswith("# "):
            break
        out.append(s)
    return out


def number(txt, want, rtol, what):
    try:
        x = float(txt)
    except ValueError:
        x = None
    need(x is not None and abs(x - float(want)) <= rtol * abs(float(want)), lambda: f"{what}: {txt!r} instead of {want!r}")


def check_text(c, txt):
    lines = txt.split("\n")
    # ---- fitted parameters
    rows = section(lines, "FITTED PARAMETERS", "fitted parameters")[1:]
    got = {}
    for r in rows:
        col = [x.strip() for x in r.split("|")]
        need(len(col) >= 5 and col[0] not in got, lambda: f"row of the fitted parameters: {r!r}")
        got[col[0]] = col
    want = {n: d for n, d in c["params"] if d["fit"]}
    need(list(got) == list(want), lambda: f"fitted parameters {list(got)} instead of {list(want)}")
    for n, d in want.items():
        col = got[n]
        if d["val"] == "auxiliary":
            need(col[1] == "auxiliary", f"start of {n}: {col[1]!r}")
        else:
            number(col[1], d["val"], 1e-9, f"start of {n}")
        fr = d["freq"]
        fr = " & ".join(str(f.pandas_freq(p.strip())) for p in fr.split("+")) if isinstance(fr, str) else str(fr)
        need(col[2] == ("-" if d["freq"] is None else fr), lambda: f"variability of {n}: {col[2]!r} instead of {fr!r}")
        b = re.fullmatch(f"({NUM})-({NUM})", col[3])
        need(b, lambda: f"boundaries of {n}: {col[3]!r}")
        number(b.group(1), d["lo"], 1e-4, f"minimum of {n}")
        number(b.group(2), d["hi"], 1e-4, f"maximum of {n}")
        need(col[4] == str(bool(d.get("interp"))), lambda: f"interpolation of {n}: {col[4]!r}")
    # ---- constants and auxiliary data
    const, aux = {}, []
    for r in section(lines, "FIXED PARAMETERS", "fixed parameters"):
        m = re.fullmatch(r"(?:\s*(\w+)\s*=\s*(\S+))?\s*(?:\|\s*(\w+))?\s*", r)
        need(m, lambda: f"row of the fixed parameters: {r!r}")
        if m.group(1):
            need(m.group(1) not in const, "a constant is listed twice")
            const[m.group(1)] = m.group(2)
        if m.group(3):
            aux.append(m.group(3))
    wc = {n: d["val"] for n, d in c["params"] if not d["fit"] and d["val"] != "auxiliary"}
    need(list(const) == list(wc), lambda: f"constants {list(const)} instead of {list(wc)}")
    for n, v in wc.items():
        number(const[n], v, 1e-6, f"constant {n}")
    wa = [n for n, d in c["params"] if not d["fit"] and d["val"] == "auxiliary"]
    need(aux == wa, lambda: f"auxiliary parameters {aux} instead of {wa}")
    # ---- distributions
    rows = section(lines, "# SCATTERING FUNCTIONS", "functions")
    cols = [[x.strip() for x in r.split("|", 1)] for r in rows]
    need(cols[0] == ["VOLUME:", "SURFACE:"] and all(len(x) == 2 for x in cols), lambda: f"functions: {rows}")
    vname, sname = f.V_CLS[c["V"]["c"]], f.S_CLS[c["S"]["c"]]
    need(cols[1][0].startswith(vname) and cols[1][1].startswith(sname), lambda: f"functions {cols[1]}, not {vname}, {sname}")
    if c["style"] == "dict":
        props = f.set_V_SRF(c)
        for k, p in ((0, dict(props["V_props"])), (1, dict(props["SRF_props"]))):
            p.pop("V_name", None), p.pop("SRF_name", None)
            got = {}
            for x in cols[2:]:
                if x[k]:
                    nm, v = x[k].split(":", 1)
                    need(nm.strip() not in got, "a property is listed twice")
                    got[nm.strip()] = v.strip()
            need(got == {a: str(v) for a, v in p.items()}, lambda: f"properties {got} instead of {p}")
    # ---- settings
    q = [s for s in lines if "Interaction-contribution?" in s]
    need(len(q) == 1 and q[0].split("?")[1].strip() == str(c["int_Q"]), lambda: f"interaction: {q}")
    if c["lsq"]:
        got = {}
        for r in section(lines, "# LSQ PARAMETERS", "least-squares settings"):
            for nm, v in re.findall(r"(\w+)\s*= (\S+)", r):
                got[nm] = v
        need(got == {k: str(LSQ[k]) for k in c["lsq"]}, lambda: f"least-squares settings {got} instead of {c['lsq']}")
    else:
        need("LSQ PARAMETERS" not in txt, "least-squares settings are shown")
    # ---- dataset
    if c["data"] and want:
        rows = " ".join(section(lines, "# NUMBER OF ESIMATED VALUES", "number of values"))
        got = {a: int(b) for a, b in re.findall(r"(\w+): (\d+)", rows)}
        wn = {n: len(set(f.labels(c, n, d))) for n, d in want.items()}
        need(got == wn, lambda: f"number of estimated values {got} instead of {wn}")
    if c["data"]:
        idx = f.index_of(c)
        m = re.search(r"Start-date: (\S+ ?\S*?)\s*End-date: ([^\n]+)\n", txt)
        need(m and m.group(1).strip() == str(idx.min()) and m.group(2).strip() == str(idx.max()),
             lambda: f"dates {m and m.groups()} instead of {idx.min()}, {idx.max()}")


def summary(c, rec):
    f.describe(c, rec)
    rec.tag(c["how"], f"lsq{min(len(c['lsq']), 3)}")
    fit = build(c)
    txt = fit._model_definition
    need(isinstance(txt, str), "no text")
    check_text(c, txt)
    # ---- the definition-container shows each parameter with its values
    rep = repr(fit.defdict).split("\n")
    need([r.split(":")[0] for r in rep] == [n for n, _ in c["params"]], lambda: f"representation of defdict: {rep}")


def _reps(p, vol):
    """expected 'name=value' entries of the representation"""
    return {k: v for k, v in f._props(p, vol).items() if k not in ("V_name", "SRF_name")}


@st.composite
def rep_case(draw):
    vol = draw(st.booleans())
    p = draw(f._part(["p", "q"], vol, 4))
    return dict(vol=vol, p=p, w=draw(f.slot(["p", "q"])), w2=draw(f.slot(["p", "q"])))


def representation(c, rec):
    from rt1 import surface, volume
    import sympy as sp

    p = f._props(c["p"], c["vol"])
    name = p.pop("V_name" if c["vol"] else "SRF_name")
    rec.tag(name, "nontrivial") if len(p) else rec.tag(name)
    S = lambda x: sp.sympify(x, f._clash) if isinstance(x, str) else x  # noqa: E731
    kw = {k: S(v) if k == "t" else v for k, v in p.items()}
    extra = dict(tau=S(c["w"]), omega=S(c["w2"])) if c["vol"] else dict(NormBRDF=S(c["w"]))
    o = getattr(volume if c["vol"] else surface, name)(**kw, **extra)
    txt = repr(o)
    m = re.fullmatch(rf"{name}\w*\((.*)\)", txt, re.S)
    need(m, lambda: f"representation {txt!r}")
    got = dict(x.strip().split("=", 1) for x in m.group(1).split(",\n"))
    want = dict(kw, **extra)
    need(set(want) <= set(got), lambda: f"representation shows {sorted(got)} instead of {sorted(want)}")
    for k, v in want.items():
        t = got[k]
        if isinstance(v, list):
            ok = np.allclose(ast.literal_eval(t), v)
        else:
            ok = sp.simplify(sp.sympify(t.strip("[]"), f._clash) - v) == 0 or abs(
                float(sp.sympify(t.strip("[]"), f._clash).subs(dict(p=0.3, q=0.2))) - float(sp.sympify(v).subs(dict(p=0.3, q=0.2)))) < 1e-9
        need(ok, lambda: f"{k}={t} instead of {v}")


SUBS = [
    Sub("summary", case, summary, 600, 8000, _nontriv, shards=3),
    Sub("repr", rep_case, representation, 300, 4000, shards=2),
]
