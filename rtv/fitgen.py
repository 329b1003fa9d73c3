"""Generators and per-observation references for rtfits.Fits / MultiFits.

A *definition* is plain JSON:
  dict(obs=[[minutes, inc, sig, w], ...], start=iso-date, cols={name: [...]}, weights=bool,
       order=[...permutation of rows...] or None,
       params=[[name, def], ...], V={...}, S={...}, style='dict'|'call', sig0, dB, int_Q)
  def = dict(fit=bool, val=number|'auxiliary', freq, lo, hi, interp)
V / S hold slots (numbers or expression-strings of the parameter names).
"""
import numpy as np
import pandas as pd
import sympy as sp
from hypothesis import strategies as st
from sympy.abc import _clash

from . import rtgen as g
from .core import Skip, need

# ------------------------------------------------------------------ dataset
FREQS = [None, "index", "manual", "D", "2D", "7D", "12h", "W", "M", "Q", "int", "D + manual", "int + manual"]


@st.composite
def obs_list(draw, nmin=1, nmax=9, spread=None, maxrep=4):
    """[[minutes-since-start, inc, sig, w], ...] sorted by time, repeated dates allowed"""
    nd = draw(st.integers(nmin, nmax))
    spread = spread or draw(st.sampled_from([60, 1440, 1440, 10080, 40000]))
    t, out = draw(st.integers(0, 1439)), []
    for _ in range(nd):
        for _ in range(draw(st.integers(1, maxrep))):
            out.append([t, draw(g.num(0.1, 1.2)), draw(g.num(0.01, 0.4)), draw(g.num(0.1, 3.0, 2))])
        t += draw(st.integers(1, spread))
    return out


def index_of(c):
    return pd.DatetimeIndex(pd.Timestamp(c["start"]) + pd.to_timedelta([o[0] for o in c["obs"]], unit="min"))


def make_dataset(c):
    df = pd.DataFrame(dict(inc=[o[1] for o in c["obs"]], sig=[o[2] for o in c["obs"]]), index=index_of(c))
    if c.get("weights"):
        df["data_weights"] = [o[3] for o in c["obs"]]
    for k, v in c.get("cols", {}).items():
        df[k] = v
    if c.get("ixname"):
        df.index.name = c["ixname"]
    if c.get("order"):
        df = df.iloc[c["order"]]
    return df


# --------------------------------------------------- reference group labels
def _offset_labels(f, idx):
    s = pd.Series(idx)
    if f == "W":  # weeks end on sundays
        return [(t + pd.Timedelta(days=6 - t.weekday())).date().isoformat() for t in idx]
    if f == "M":
        return [(t.year, t.month) for t in idx]
    if f == "Q":
        return [(t.year, (t.month - 1) // 3) for t in idx]
    d = {"D": 1440, "2D": 2880, "7D": 10080, "12h": 720}[f]
    o = idx[0].normalize()
    return [int((t - o) / pd.Timedelta(minutes=1)) // d for t in s]


def _int_labels(n, idx):
    u = list(dict.fromkeys(idx))
    ng = max(1, len(u) // n)
    sizes = [len(u) // ng + (1 if i < len(u) % ng else 0) for i in range(ng)]
    lab, k = {}, 0
    for i, s in enumerate(sizes):
        for t in u[k:k + s]:
            lab[t] = i
        k += s
    return [lab[t] for t in idx]


def labels(c, name, d):
    """reference: one hashable group-label per (time-sorted) observation"""
    idx = index_of(c)
    f = d["freq"]
    man = c.get("cols", {}).get(name + "_dyn")
    if f is None:
        return [0] * len(idx)
    if f == "index":
        return list(idx)
    if f == "manual":
        return list(man)
    parts = [p.strip() for p in str(f).split("+")]
    base = [p for p in parts if p != "manual"][0]
    try:
        lab = _int_labels(int(base), idx)
    except ValueError:
        lab = _offset_labels(base, idx)
    if "manual" in parts:
        return list(zip(lab, man))
    return lab


def ranks(lab):
    """labels numbered by first appearance"""
    d = {}
    return [d.setdefault(x, len(d)) for x in lab]


def fitted(c):
    return [(n, d) for n, d in c["params"] if d["fit"]]


def pandas_freq(f):
    return {"M": "ME", "Q": "QE"}.get(f, f) if isinstance(f, str) else f


def defdict(c):
    out = {}
    for n, d in c["params"]:
        if d["fit"]:
            f = d["freq"]
            if isinstance(f, str):
                f = [pandas_freq(p.strip()) for p in f.split("+")]
                sp = d.get("spell", 0)
                f = (" + ", " + ", "+", "  +  ", " +", "+ ")[sp].join(f if sp != 1 else f[::-1])
            elif d.get("spell") and f is not None:
                f = str(f)
            out[n] = [True, d["val"], f, ([d["lo"]], [d["hi"]]), bool(d.get("interp"))]
            if d.get("ctype"):  # numpy-scalars as start-values and boundaries
                t = getattr(np, d["ctype"])
                out[n][1] = t(d["val"]) if d["val"] != "auxiliary" else d["val"]
                out[n][3] = ([t(d["lo"])], [t(d["hi"])])
        else:
            out[n] = [False, d["val"]]
            if d.get("ctype") and d["val"] != "auxiliary":  # numpy-scalars as constants
                out[n][1] = getattr(np, d["ctype"])(d["val"])
    return out


# -------------------------------------------------------------- model slots
EXPRS1 = ["{0}", "{0}", "{0}", "0.1 + 0.6*{0}", "{0}**2", "sqrt({0})", "exp(-{0})", "0.8*{0}"]
EXPRS2 = ["{0}*{1}", "({0} + {1})/2", "{0}*(1 - {1})", "0.5*{0} + 0.3*{1}**2"]


@st.composite
def slot(draw, names, direct=None, number=True):
    """value of a model input: number, parameter or function of parameters"""
    k = draw(st.integers(0, 9))
    if (number and k <= 1) or not names:
        return draw(g.num(0.05, 0.6, 2))
    if direct is not None and k <= 5:
        return direct
    if k <= 7 or len(names) < 2:
        return draw(st.sampled_from(EXPRS1)).format(draw(st.sampled_from(names)))
    a, b = draw(st.permutations(names))[:2]
    return draw(st.sampled_from(EXPRS2)).format(a, b)


def slot_value(s, P):
    if isinstance(s, str):
        return eval(s, {"__builtins__": {}, "sqrt": np.sqrt, "exp": np.exp}, P)
    return s


def slot_syms(s):
    return {str(x) for x in sp.sympify(s, _clash).free_symbols} if isinstance(s, str) else set()


V_CLS = {"HG": "HenyeyGreenstein", "HGR": "HGRayleigh", "Rayleigh": "Rayleigh", "Lin": "LinCombV"}
S_CLS = {"HG": "HenyeyGreenstein", "HGn": "HG_nadirnorm", "Cos": "CosineLobe", "Iso": "Isotropic", "Lin": "LinCombSRF"}


@st.composite
def _part(draw, names, vol, maxn):
    c = draw(st.sampled_from(["HG", "HG", "HGR", "Rayleigh"] if vol else ["HG", "HGn", "HGn", "Cos", "Iso"]))
    s = -1.0 if vol else 1.0
    if c in ("Rayleigh", "Iso"):
        return dict(c=c, a=[s, 1.0, 1.0])
    a = [s, 1.0, 1.0] if draw(st.booleans()) else [s * draw(g.num(0.3, 1.0, 2)), draw(g.num(0.3, 1, 2)), 1.0]
    if c == "Cos":
        return dict(c=c, i=draw(st.integers(1, 5)), n=draw(st.integers(1, maxn)), a=a)
    return dict(c=c, t=draw(slot(names)), n=draw(st.integers(1, maxn)), a=a)


@st.composite
def dist(draw, names, vol, maxn=2, lin=True):
    if lin and draw(st.integers(0, 4)) == 0:
        k = draw(st.integers(1, 2))
        return dict(c="Lin", parts=[[draw(slot(names)), draw(_part(names, vol, maxn))] for _ in range(k)])
    return draw(_part(names, vol, maxn))


def _props(p, vol):
    c = p["c"]
    out = {("V_name" if vol else "SRF_name"): (V_CLS if vol else S_CLS)[c]}
    if c == "Lin":
        out["Vchoices" if vol else "SRFchoices"] = [[w, _props(q, vol)] for w, q in p["parts"]]
        return out
    if c in ("HG", "HGR", "HGn"):
        out.update(t=p["t"], ncoefs=p["n"], a=list(p["a"]))
    elif c == "Cos":
        out.update(i=p["i"], ncoefs=p["n"], a=list(p["a"]))
    return out


def _obj(p, vol, S, **kw):
    from rt1 import surface, volume

    cls = getattr(volume if vol else surface, (V_CLS if vol else S_CLS)[p["c"]])
    c = p["c"]
    if c == "Lin":
        ch = [[S(w), _obj(q, vol, S)] for w, q in p["parts"]]
        return cls(**{"Vchoices" if vol else "SRFchoices": ch}, **kw)
    if c in ("HG", "HGR", "HGn"):
        return cls(t=S(p["t"]), ncoefs=p["n"], a=list(p["a"]), **kw)
    if c == "Cos":
        return cls(i=p["i"], ncoefs=p["n"], a=list(p["a"]), **kw)
    return cls(**kw)


class VSetter:
    """a (pickle-able) callable set_V_SRF"""

    def __init__(self, c):
        self.c = dict(V=c["V"], S=c["S"], omega=c["omega"], tau=c["tau"], N=c["N"])

    def __call__(self, **kw):
        def S(v):
            if isinstance(v, str):
                if v in kw:
                    return kw[v]
                return sp.sympify(v, locals={**_clash, **{k: sp.Symbol(k) for k in kw}}).xreplace(
                    {sp.Symbol(k): sp.sympify(x) for k, x in kw.items()})
            return v
        c = self.c
        return (_obj(c["V"], True, S, omega=S(c["omega"]), tau=S(c["tau"])),
                _obj(c["S"], False, S, NormBRDF=S(c["N"])))


def set_V_SRF(c):
    if c.get("style") == "call":
        return VSetter(c)
    return dict(V_props=dict(_props(c["V"], True), omega=c["omega"], tau=c["tau"]),
                SRF_props=dict(_props(c["S"], False), NormBRDF=c["N"]))


def used_names(c):
    out = set()
    for s in (c["omega"], c["tau"], c["N"]):
        out |= slot_syms(s)
    for d in (c["V"], c["S"]):
        for w, p in (d["parts"] if d["c"] == "Lin" else [[1, d]]):
            out |= slot_syms(w) | (slot_syms(p["t"]) if "t" in p else set())
    return out


RESERVED = ("omega", "tau", "NormBRDF", "bsf")


@st.composite
def definition(draw, freqs=None, nmax=7, maxrep=3, aux=True, int_Q=None, lin=True, interp=True, maxn=2,
               shuffle=True, styles=("dict", "call"), need_dyn=False, maxpar=5, auxstart=False, nmin=1):
    """a complete random fit-definition"""
    freqs = freqs or FREQS
    c = dict(start=draw(st.sampled_from(["2018-01-01", "2017-12-29", "2020-02-27"])),
             obs=draw(obs_list(nmin=nmin, nmax=nmax, maxrep=maxrep)), weights=draw(st.booleans()), cols={})
    n = len(c["obs"])
    if shuffle and draw(st.booleans()):
        c["order"] = draw(st.permutations(list(range(n))))
    if draw(st.integers(0, 3)) == 0:
        c["ixname"] = draw(st.sampled_from(["date", "time", "index"]))
    pool = draw(st.permutations(["omega", "tau", "NormBRDF", "p", "q", "v2", "x0", "N", "E", "count"]))
    k = draw(st.integers(1, maxpar))
    names = list(pool[:k])
    # "omega", "tau", "NormBRDF", "bsf" are reserved for the corresponding model-input
    free = [x for x in names if x not in RESERVED]
    for key, sl in (("omega", "omega"), ("tau", "tau"), ("NormBRDF", "N")):
        own = [key] if key in names else []
        c[sl] = draw(slot(free + own, own[0] if own else None))
    c["V"] = draw(dist(free, True, maxn, lin))
    c["S"] = draw(dist(free, False, maxn, lin))
    used = used_names(c)
    names = [x for x in names if x in used]
    if draw(st.integers(0, 4)) == 0 or not names:
        names.insert(draw(st.integers(0, len(names))), "bsf")
    c["params"] = []
    nfit = 0
    for i, nm in enumerate(names):
        fit = draw(st.integers(0, 3)) > 0 or (nfit == 0 and i == len(names) - 1)
        if fit:
            nfit += 1
            f = draw(st.sampled_from(freqs))
            if isinstance(f, str) and "int" in f:
                m = draw(st.integers(1, 4))
                f = m if f == "int" else f"{m} + manual"
            if isinstance(f, str) and "manual" in f:
                ids = draw(st.sampled_from([[1, 2, 3], [0, 1], [5, 5, 12, 7], [10, 9, 100], [1, 11, 111]]))
                c["cols"][nm + "_dyn"] = draw(st.lists(st.sampled_from(ids), min_size=n, max_size=n))
            d = dict(fit=True, val=draw(g.num(0.1, 0.6, 2)), freq=f, lo=draw(st.sampled_from([0.05, 0.05, 0.02, 0.01])), hi=draw(st.sampled_from([0.8, 0.8, 0.7, 0.9])),
                     interp=bool(interp and f is not None and draw(st.integers(0, 3)) == 0))
            if d["interp"] and nm + "_dyn" in c["cols"] and "manual" in f:
                # different groups within one date: several values for the same date, interpolation is not defined
                if len({(o[0], i) for o, i in zip(c["obs"], c["cols"][nm + "_dyn"])}) > len({o[0] for o in c["obs"]}):
                    d["interp"] = False
            if draw(st.integers(0, 4)) == 0:
                d["ctype"] = "float64"
            if draw(st.integers(0, 2)) == 0:
                d["spell"] = draw(st.integers(1, 5))
            if auxstart and draw(st.integers(0, 3)) == 0:
                d["val"] = "auxiliary"
                c["cols"][nm + "_start"] = draw(st.lists(g.num(0.1, 0.6, 2), min_size=n, max_size=n))
        elif aux and draw(st.booleans()):
            d = dict(fit=False, val="auxiliary")
            c["cols"][nm] = draw(st.lists(g.num(0.05, 0.6, 2), min_size=n, max_size=n))
        else:
            d = dict(fit=False, val=draw(g.num(0.05, 0.6, 2)))
            ct = draw(st.sampled_from([None, None, None, "float32", "float64"]))
            if ct:
                d.update(ctype=ct, val=float(getattr(np, ct)(d["val"])))
        c["params"].append([nm, d])
    c["sig0"], c["dB"] = draw(st.booleans()), draw(st.booleans())
    c["int_Q"] = draw(st.booleans()) if int_Q is None else int_Q
    c["style"] = draw(st.sampled_from(list(styles)))
    if draw(st.booleans()) and len(c["params"]) > 1:
        c["params"] = draw(st.permutations(c["params"]))
    return c


def make_fit(c, **kw):
    from rt1.rtfits import Fits

    args = dict(sig0=c["sig0"], dB=c["dB"], dataset=make_dataset(c), defdict=defdict(c),
                set_V_SRF=set_V_SRF(c), int_Q=c["int_Q"], verbose=0)
    args.update(kw)
    return Fits(**args)


# --------------------------------------------------------- reference results
def group_values(c, salt=0, lo=0.06, hi=0.6):
    """distinct deterministic values for every parameter-group (appearance order)"""
    out = {}
    for j, (n, d) in enumerate(fitted(c)):
        k = len(set(labels(c, n, d)))
        rs = np.random.RandomState(97 * salt + 13 * j + k)
        out[n] = [round(float(x), 6) for x in lo + (hi - lo) * rs.rand(k)]
    return out


def mean_times(c, lab):
    """mean time of every group (appearance order) in ns since epoch"""
    idx = index_of(c).as_unit("ns").asi8
    rk = np.array(ranks(lab))
    return [float(np.mean((idx[rk == k] - idx[0]).astype(float))) + float(idx[0]) for k in range(rk.max() + 1)]


def interp_values(c, lab, vals):
    """reference for the quadratic interpolation (None: outside of the stated domain)"""
    from scipy.interpolate import interp1d

    idx = index_of(c).as_unit("ns").asi8.astype(float)
    rk = ranks(lab)
    if len(vals) < 2:
        return [vals[k] for k in rk]
    # groups that re-appear in time: the value applies at the mean-date of each uninterrupted appearance
    runs = [0]
    for a, b in zip(rk[:-1], rk[1:]):
        runs.append(runs[-1] + (a != b))
    runs = np.array(runs)
    mt = [float(np.mean(idx[runs == k] - idx[0])) + idx[0] for k in range(runs[-1] + 1)]
    vals = [vals[rk[int(np.argmax(runs == k))]] for k in range(runs[-1] + 1)]
    t0, t1 = idx[0], idx[-1]
    if t0 == mt[0]:
        t0 += 1e6
    if t1 == mt[-1]:
        t1 -= 1e6
    x = np.array([t0, *mt, t1])
    if len(set(x)) < len(x):
        return None
    f = interp1d(x - idx[0], [vals[0], *vals, vals[-1]], fill_value="extrapolate", kind="quadratic")
    return [float(v) for v in f(idx - idx[0])]


def interp_undefined(c):
    """names of interpolated parameters that have several values at one date (time-sorted case)"""
    v = group_values(c)
    return [nm for nm, d in fitted(c) if d.get("interp") and interp_values(c, labels(c, nm, d), v[nm]) is None]


def obs_params(c, vals):
    """reference: list (one per time-sorted observation) of {parameter: value}"""
    n = len(c["obs"])
    out = [dict() for _ in range(n)]
    for nm, d in c["params"]:
        if d["fit"]:
            lab = labels(c, nm, d)
            if d.get("interp"):
                v = interp_values(c, lab, vals[nm])
                if v is None:
                    raise Skip("interpolation of re-appearing groups")
            else:
                v = [vals[nm][k] for k in ranks(lab)]
        elif d["val"] == "auxiliary":
            v = c["cols"][nm]
        else:
            v = [d["val"]] * n
        for o, x in zip(out, v):
            o[nm] = x
    return out


def num_dist(p, P):
    if p["c"] == "Lin":
        return dict(c="Lin", parts=[[slot_value(w, P), num_dist(q, P)] for w, q in p["parts"]])
    return {**p, "t": slot_value(p["t"], P)} if "t" in p else p


def ref_point(c, inc, P, interaction=True):
    """reference [tot, surf, vol, inter] intensity of one monostatic observation"""
    V, S = num_dist(c["V"], P), num_dist(c["S"], P)
    om, ta, N = (slot_value(c[k], P) for k in ("omega", "tau", "N"))
    bsf = P.get("bsf", 0.0)
    s = float(g.ref_surface(S, {}, 1.0, ta, N, bsf, inc, inc, 0.0, np.pi))
    v = float(g.ref_volume(V, {}, 1.0, om, ta, bsf, inc, inc, 0.0, np.pi))
    i = 0.0
    if interaction and c["int_Q"]:
        i = float(g.ref_interaction(V, S, {}, 1.0, om, ta, N, bsf, inc, inc, 0.0, np.pi)[0])
    return np.array([s + v + i, s, v, i])


def to_units(I, inc, sig0, dB):
    v = 4 * np.pi * np.cos(inc) * I if sig0 else I
    return 10 * np.log10(v) if dB else v


def describe(c, rec):
    rec.tag("sig0" if c["sig0"] else "int", "dB" if c["dB"] else "lin", "style-" + c["style"],
            "V-" + c["V"]["c"], "S-" + c["S"]["c"])
    for n, d in c["params"]:
        if d["fit"]:
            f = d["freq"]
            rec.tag("freq-" + ("int" if isinstance(f, int) else "int+manual" if str(f)[:1].isdigit()
                               and "manual" in str(f) else str(f)))
            if d.get("interp"):
                rec.tag("interp")
        else:
            rec.tag("aux" if d["val"] == "auxiliary" else "const")
    if c.get("order"):
        rec.tag("unsorted-input")
    if c["int_Q"]:
        rec.tag("interaction")
    if c.get("weights"):
        rec.tag("weights")
    for s in (c["omega"], c["tau"], c["N"]):
        if isinstance(s, str) and not s.isidentifier():
            rec.tag("function-valued")
