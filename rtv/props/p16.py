"""P16: configuration-files define exactly the described fits"""
import datetime as dt
import os
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from ..core import Sub, fail, need
from .p12 import cmp_frames, cmp_group

RULE = ("A case is a configuration-file rendered from a generated definition (parameters, dynamics, functions incl. "
        "linear combinations, least-squares and fit settings, typed process-specifications, modules, several "
        "configurations overriding single values) with random spacing, comments and interpolation. Non-trivial: a "
        "fitted parameter, a functional input or an overriding configuration (fits); at least 3 typed values (specs).")
ASSUMPTIONS = ["oracle: the same settings provided in Python (decided by P08-P13)",
               "excluded: overrides that switch to a function with other arguments (left-over arguments)"]

NAMES = {"cfg_0": 0, "B": 1, "run2": 2, "dry_1": 3}


# ---------------------------------------------------------------- rendering
class Out:
    """renders sections; `seed` decides on spacing, comments and interpolation"""

    def __init__(self, seed, interp):
        self.rs = np.random.RandomState(seed)
        self.interp = interp
        self.secs, self.vars = [], []

    def section(self, name, items):
        self.secs.append((name, list(items)))

    def value(self, v):
        v = str(v)
        if self.interp and self.rs.rand() < 0.25:
            k = f"v{len(self.vars)}"
            self.vars.append((k, v))
            return "${VARIABLES:%s}" % k
        return v

    def text(self):
        out = []
        for name, items in self.secs:
            body = [f"[{name}]"]
            for k, v in items:
                if self.rs.rand() < 0.15:
                    body.append("# a comment = 1")
                if self.rs.rand() < 0.1:
                    body.append("")
                sp = " " * self.rs.randint(0, 3)
                body.append(k if v is None else f"{k}{sp}={' ' * self.rs.randint(0, 3)}{self.value(v)}")
            out.append(body)
        if self.vars:
            out.insert(self.rs.randint(0, len(out) + 1), ["[VARIABLES]"] + [f"{k} = {v}" for k, v in self.vars])
        return "\n".join("\n".join(b) + "\n" for b in out)


def _join(vals, rs):
    return "[" + ",".join(" " * rs.randint(0, 3) + str(v) + " " * rs.randint(0, 2) for v in vals) + "]"


def r_def(d, rs):
    if not d["fit"]:
        return _join([False, d["val"]], rs)
    fr = d["freq"]
    if isinstance(fr, str):
        fr = (" + " if rs.rand() < 0.5 else "+").join([f.pandas_freq(x.strip()) for x in fr.split("+")][::-1 if d.get("spell") == 1 else 1])
    vals = [True, d["val"], fr, d["lo"], d["hi"]]
    if d.get("interp") or rs.rand() < 0.5:
        vals.append(bool(d.get("interp")))
    return _join(vals, rs)


LETTERS = ["ABCDE"]  # names of the members of linear-combinations in the current case


def r_props(p, vol, rs, pre=""):
    """list of (key, value) of a scattering-function"""
    out = [(pre + ("V_name" if vol else "SRF_name"), (f.V_CLS if vol else f.S_CLS)[p["c"]])]
    if p["c"] == "Lin":
        for L, (w, q) in zip(LETTERS[0], p["parts"]):
            if w != 1:
                out.append((f"{L}__frac", w))
            out += r_props(q, vol, rs, f"{L}__")
        return out
    if "t" in p:
        out.append((pre + "t", p["t"]))
    if "i" in p:
        out.append((pre + "i", p["i"]))
    if "n" in p:
        out.append((pre + "ncoefs", p["n"]))
        out.append((pre + "a", _join(p["a"], rs)))
    return out


LSQ = dict(verbose=st.integers(0, 1), ftol=st.sampled_from([1e-3, 1e-5, 1e-8]), gtol=st.sampled_from([1e-4, 1e-6]),
           xtol=st.sampled_from([1e-4, 1e-7]), max_nfev=st.integers(1, 4), method=st.sampled_from(["trf", "dogbox"]),
           x_scale=st.sampled_from(["jac"]), tr_solver=st.sampled_from(["lsmr", "exact"]),
           loss=st.sampled_from(["linear", "soft_l1"]), f_scale=st.sampled_from([0.5, 2.0]))


@st.composite
def lsq(draw):
    ks = draw(st.lists(st.sampled_from(sorted(LSQ)), max_size=6, unique=True))
    return {k: draw(LSQ[k]) for k in ks}


@st.composite
def override(draw, c):
    """changes of one configuration"""
    o = dict(defs=[], V=[], S=[], fits={}, lsq={})
    for nm, d in c["params"]:
        if draw(st.integers(0, 3)):
            continue
        if d["fit"] and draw(st.booleans()) and nm not in ("bsf",):
            d2 = dict(fit=False, val=draw(g.num(0.05, 0.6, 2)))
        else:
            d2 = dict(fit=True, val=draw(g.num(0.1, 0.6, 2)), freq=draw(st.sampled_from([None, "index", "D", 2])),
                      lo=0.05, hi=0.9, interp=False)
        o["defs"].append([nm, d2])
    if not any(d["fit"] for d in {**dict(c["params"]), **dict(o["defs"])}.values()):
        o["defs"] = []  # at least one parameter must be fitted
    for key, vol in (("V", True), ("S", False)):
        p = c[key]
        slots = [(s,) for s in (("omega", "tau") if vol else ("N",))]
        parts = [(i, q) for i, (w, q) in enumerate(p["parts"])] if p["c"] == "Lin" else [(None, p)]
        for i, q in parts:
            if i is not None:
                slots.append(("frac", i))
            for s in ("t", "n", "i", "a"):
                if s in q:
                    slots.append((s, i))
            if q["c"] in ("HG", "HGR", "HGn"):
                slots.append(("c", i))
        for s in draw(st.lists(st.sampled_from(slots), max_size=2, unique=True)):
            if s[0] == "n":
                v = draw(st.integers(1, 3))
            elif s[0] == "i":
                v = draw(st.integers(1, 4))
            elif s[0] == "a":
                v = [(-1 if vol else 1) * draw(st.sampled_from([0.5, 0.75, 1.0])), 0.7, 1.0]
            elif s[0] == "c":
                v = draw(st.sampled_from(["HG", "HGR"] if vol else ["HG", "HGn"]))
            else:
                v = draw(g.num(0.05, 0.6, 2))
            o[key].append([list(s), v])
    if draw(st.booleans()):
        o["fits"] = {k: draw(st.booleans()) for k in draw(st.lists(st.sampled_from(["sig0", "dB", "int_Q"]), max_size=2, unique=True))}
    if draw(st.booleans()):
        o["lsq"] = draw(lsq())
    return o


def apply_override(c, l, o):
    import copy

    c, l = copy.deepcopy(c), dict(l)
    P = dict((k, v) for k, v in c["params"])
    P.update({k: v for k, v in o["defs"]})
    c["params"] = [[k, v] for k, v in P.items()]
    for key in ("V", "S"):
        for s, v in o[key]:
            if len(s) == 1:
                c[s[0]] = v
            elif s[0] == "frac":
                c[key]["parts"][s[1]][0] = v
            else:
                q = c[key] if s[1] is None else c[key]["parts"][s[1]][1]
                q[s[0]] = v
    c.update(o["fits"])
    l.update(o["lsq"])
    return c, l


def r_override(out, name, o):
    rs = out.rs
    secs = []
    if o["defs"]:
        secs.append((f"#config {name} defdict", [(k, r_def(d, rs)) for k, d in o["defs"]]))
    for key, sec, vol in (("V", "RT1_V", True), ("S", "RT1_SRF", False)):
        items = []
        for s, v in o[key]:
            pre = "" if len(s) == 1 or s[1] is None else LETTERS[0][s[1]] + "__"
            k = {"n": "ncoefs", "N": "NormBRDF", "c": "V_name" if vol else "SRF_name"}.get(s[0], s[0])
            if s[0] == "c":
                v = (f.V_CLS if vol else f.S_CLS)[v]
            if s[0] == "a":
                v = _join(v, rs)
            items.append((pre + k, v))
        if items:
            secs.append((f"#config {name} {sec}", items))
    if o["fits"]:
        secs.append((f"#config {name} fits_kwargs", list(o["fits"].items())))
    if o["lsq"]:
        secs.append((f"#config {name} least_squares_kwargs", list(o["lsq"].items())))
    if not secs or rs.rand() < 0.2:
        secs.insert(0, (f"#config {name}", []))
    return secs


@st.composite
def fit_case(draw, multi):
    c = draw(f.definition(nmax=3, maxrep=2, maxpar=3, maxn=2, styles=("dict",), auxstart=True,
                          int_Q=None if draw(st.integers(0, 2)) == 0 else False))
    d = dict(c=c, lsq=draw(lsq()), seed=draw(st.integers(0, 99)), interp=draw(st.booleans()), verbose=draw(st.integers(0, 1)))
    if multi:
        names = draw(st.lists(st.sampled_from(sorted(NAMES)), min_size=1, max_size=3, unique=True))
        d["over"] = [[n, draw(override(c))] for n in names]
    return d


def write(d, folder, specs=(), modules=(), drop=None):
    c = d["c"]
    out = Out(d["seed"], d["interp"])
    rs = out.rs
    LETTERS[0] = "ABCDE" if rs.rand() < 0.4 else "".join(rs.permutation(list("ABCDEFGHIJKLMNOPQRSTUVWXYZ")))
    B = [("True", "False"), ("1", "0"), ("yes", "no"), ("on", "off"), ("true", "false")]
    b = B[rs.randint(0, 5)]
    secs = [("fits_kwargs", [(k, b[0] if c[k] else b[1]) for k in ("sig0", "dB", "int_Q")]
             + [("verbose", d["verbose"])] + ([("_fnevals_input", None)] if rs.rand() < 0.4 else [])),
            ("least_squares_kwargs", list(d["lsq"].items())),
            ("defdict", [(k, r_def(v, rs)) for k, v in c["params"]]),
            ("RT1_V", r_props(c["V"], True, rs) + [("omega", c["omega"]), ("tau", c["tau"])]),
            ("RT1_SRF", r_props(c["S"], False, rs) + [("NormBRDF", c["N"])]),
            ("CONFIGFILES", list(modules) or [("module__processing_cfg", str(folder / "proc.py"))]),
            ("PROCESS_SPECS", [("path__save_path", str(folder / "out")), ("dumpfolder", "d1")] + list(specs))]
    for n, o in d.get("over", []):
        secs += r_override(out, n, o)
    if rs.rand() < 0.5:
        secs = [secs[i] for i in rs.permutation(len(secs))]
    for s in secs:
        if s[0] == drop:
            continue
        out.section(s[0], [i for i in s[1] if i[0] != drop])
    p = folder / "config.ini"
    p.write_text(out.text())
    return p


def cmp_fit(fit, c, l, verbose, what):
    """the parsed fit `fit` vs. the same settings in Python"""
    try:
        ref = f.make_fit(c, lsq_kwargs=dict(l), verbose=verbose)
        for k in ("sig0", "dB", "int_Q", "verbose"):
            need(type(getattr(fit, k)) is type(getattr(ref, k)) and getattr(fit, k) == getattr(ref, k),
                 lambda: f"{k}: {getattr(fit, k)!r} instead of {getattr(ref, k)!r}")
        need(set(fit.lsq_kwargs) == set(l) and all(fit.lsq_kwargs[k] == l[k] for k in l),
             lambda: f"least-squares settings {fit.lsq_kwargs} instead of {l}")
        a, b = fit.defdict.to_dict("dict"), ref.defdict.to_dict("dict")
        need(set(a) == set(b), lambda: f"parameters {sorted(a)} instead of {sorted(b)}")
        for k in b:
            for q in b[k]:
                x, y = a[k][q], b[k][q]
                if q == "freq":
                    x, y = [None if i is None else str(i).replace(" ", "") for i in (x, y)]
                need(x == y and isinstance(x, bool) == isinstance(y, bool),
                     lambda: f"definition of {k}: {q} = {x!r} instead of {y!r}")
        cmp_group(fit, ref)
        res = {k: np.array(x) for k, x in f.group_values(c, 1).items()}
        cmp_frames(fit.calc_model(res_dict=res, return_components=True),
                   ref.calc_model(res_dict=res, return_components=True), "calc_model")
    except Exception as e:
        e.args = (f"[{what}] {e.args[0] if e.args else ''}",) + tuple(e.args[1:])
        raise


def describe(c, rec):
    f.describe(c, rec)
    if c["V"]["c"] == "Lin" or c["S"]["c"] == "Lin":
        rec.tag("lincomb")
    if f.fitted(c):
        rec.tag("nontrivial")


def single(d, rec):
    from rt1.rtfits import Fits
    from rt1.rtparse import RT1_configparser

    c = d["c"]
    describe(c, rec)
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        p = write(d, Path(tmp))
        cfg = RT1_configparser(p if d["seed"] % 2 else str(p))
        need(set(cfg.config_names) == set(), lambda: f"configs {cfg.config_names}")
        fit = cfg.get_fitobject()
        need(isinstance(fit, Fits), "no Fits object")
        need(fit.dataset is None, "a dataset is defined")
        fit.dataset = f.make_dataset(c)
        cmp_fit(fit, c, d["lsq"], d["verbose"], "single config")
        # parsing is repeatable
        fit = cfg.get_fitobject()
        fit.dataset = f.make_dataset(c)
        cmp_fit(fit, c, d["lsq"], d["verbose"], "parsed again")
        if "soft_l1" in str(d["lsq"]):
            rec.tag("robust-loss")


def multi(d, rec):
    from rt1.rtfits import MultiFits
    from rt1.rtparse import RT1_configparser

    c = d["c"]
    describe(c, rec)
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        p = write(d, Path(tmp))
        cfg = RT1_configparser(p)
        names = [n for n, o in d["over"]]
        need(sorted(cfg.config_names) == sorted(names), lambda: f"configs {cfg.config_names} instead of {names}")
        fit = cfg.get_fitobject()
        need(isinstance(fit, MultiFits), "no MultiFits object")
        need(sorted(fit.config_names) == sorted(names), lambda: f"configs {fit.config_names} instead of {names}")
        fit.set_dataset(f.make_dataset(c))
        for n, o in d["over"]:
            c2, l2 = apply_override(c, d["lsq"], o)
            if c2 != c or l2 != d["lsq"]:
                rec.tag("overrides", *["override-" + k for k in o if o[k]])
            if any(s[0] != "c" and len(s) > 1 and s[1] is not None for s, v in o["V"] + o["S"]):
                rec.tag("override-of-combination")
            cmp_fit(getattr(fit.configs, n), c2, l2, d["verbose"], f"config {n}")
        # the unspecific configuration remains the stated one
        base = cfg.get_config()
        need(all(base["lsq_kwargs"].get(k) == v for k, v in d["lsq"].items()) and len(base["lsq_kwargs"]) == len(d["lsq"]),
             lambda: f"unspecific least-squares settings: {base['lsq_kwargs']}")


# ------------------------------------------------------------ typed values
WORD = st.text("abcXYZ019_.-# ", min_size=1, max_size=8).map(lambda s: s.strip(" #") or "w").filter(
    lambda s: s not in ("None",))
FMTS = ["%Y-%m", "%Y", "%d.%m.%Y", "%Y-%m-%d", "%d-%m-%y %H:%M", "%Y%m%dT%H%M%S", "%Y/%m/%d %H:%M:%S.%f"]
DTS = st.datetimes(dt.datetime(1970, 1, 1), dt.datetime(2060, 1, 1))


@st.composite
def entry(draw, k):
    t = draw(st.sampled_from(["float", "int", "bool", "path", "datetime", "str", "none", "lfloat", "lint", "lbool",
                              "lstr", "ldatetime"]))
    # names that contain the type-prefixes themselves
    name = draw(st.sampled_from(["x", "int", "path_", "list_", "A__b", "float__z", "datetime", "fmt", "__", "lb"])) + str(k)
    base = t[1:] if t.startswith("l") else t
    n = draw(st.integers(0 if t != "lbool" else 1, 4)) if t.startswith("l") else 1
    el = {"float": st.one_of(st.integers(-5, 10**6).map(str), st.floats(-1e5, 1e5).map(repr), st.sampled_from(["1.e-4", ".5", "-3E2", "inf"])),
          "int": st.integers(-10**12, 10**12).map(str),
          "bool": st.sampled_from(["True", "False", "1", "0", "yes", "no", "on", "off", "TRUE", "false"]),
          "str": WORD, "none": st.just("None"), "path": st.sampled_from(["a/b", "/x/y z/q.nc", "rel.txt", "./s/t"]),
          "datetime": DTS.map(lambda x: x.isoformat())}[base]
    vals = [draw(el) for _ in range(n)]
    fmt = draw(st.sampled_from(FMTS + [None])) if base == "datetime" else None
    return dict(t=t, name=name, vals=vals, fmt=fmt)


def expect(e):
    base = e["t"][1:] if e["t"].startswith("l") else e["t"]

    def conv(v):
        if base == "float":
            return float(v)
        if base == "int":
            return int(v)
        if base == "bool":
            return v.lower() in ("true", "1", "yes", "on")
        if base == "path":
            return Path(v)
        if base == "none":
            return None
        if base == "datetime":
            fmt = e["fmt"] or "%Y-%m-%d %H:%M:%S.%f"
            return dt.datetime.strptime(dt.datetime.fromisoformat(v).strftime(fmt), fmt)
        return v
    out = [conv(v) for v in e["vals"]]
    return out if e["t"].startswith("l") else out[0]


def r_entry(e, rs):
    t = e["t"]
    base = t[1:] if t.startswith("l") else t
    key = ("list__" if t.startswith("l") else "") + ("" if base in ("str", "none") else base + "__") + e["name"]
    vals = e["vals"]
    tail = ""
    if base == "datetime":
        fmt = e["fmt"] or "%Y-%m-%d %H:%M:%S.%f"
        vals = [dt.datetime.fromisoformat(v).strftime(fmt) for v in vals]
        if e["fmt"]:
            tail = " " * rs.randint(1, 3) + "fmt=" + " " * rs.randint(0, 2) + fmt
    return key, (_join(vals, rs) if t.startswith("l") else vals[0]) + tail


@st.composite
def specs_case(draw):
    n = draw(st.integers(1, 7))
    return dict(e=[draw(entry(k)) for k in range(n)], seed=draw(st.integers(0, 999)), interp=draw(st.booleans()))


MINI = dict(c=dict(sig0=True, dB=False, int_Q=False, params=[["omega", dict(fit=True, val=0.3, freq=None, lo=0.01, hi=0.9)]],
                   V=dict(c="Rayleigh"), S=dict(c="Iso"), omega="omega", tau=0.3, N=0.2), lsq={}, verbose=0)


def specs(d, rec):
    from rt1.rtparse import RT1_configparser

    rs = np.random.RandomState(d["seed"] + 7)
    # plain names must not look like a typed name
    es = [e for e in d["e"] if not (e["t"] in ("str", "none", "lstr") and
                                    any(e["name"].startswith(q) for q in ("float__", "A__")))]
    ents = [r_entry(e, rs) for e in es]
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        p = write(dict(MINI, seed=d["seed"], interp=d["interp"]), Path(tmp), specs=ents)
        cfg = RT1_configparser(p)
        for rep in range(2):
            got = cfg.get_process_specs()
            want = {e["name"]: expect(e) for e in es}
            want.update(save_path=Path(tmp) / "out", dumpfolder="d1")
            need(set(got) == set(want), lambda: f"specifications {sorted(got)} instead of {sorted(want)}")
            for k, v in want.items():
                x = got[k]
                same = type(x) is type(v) and x == v
                if isinstance(v, list) and same:
                    same = [type(i) for i in x] == [type(i) for i in v]
                if isinstance(v, Path):
                    same = isinstance(x, Path) and x == v
                need(same, lambda: f"{k}: {x!r} instead of {v!r}\n{p.read_text()}")
    rec.tag(*["type-" + e["t"] for e in es])
    if len(es) >= 3:
        rec.tag("nontrivial")


# ----------------------------------------------------------------- modules
REQ = ["PROCESS_SPECS", "CONFIGFILES", "fits_kwargs", "least_squares_kwargs", "defdict", "RT1_V", "RT1_SRF",
       "path__save_path", "dumpfolder", "module__processing_cfg"]


@st.composite
def mod_case(draw):
    n = draw(st.integers(1, 4))
    mods = [dict(name=("processing_cfg" if i == 0 else draw(st.sampled_from(["m", "fun", "module__x"])) + str(i)),
                 sub=draw(st.sampled_from(["a", "b"])), stem=draw(st.sampled_from(["rtvmod", "rtvq"])) if draw(st.booleans()) else f"rtvm{i}",
                 val=draw(st.integers(0, 99)), cval=draw(st.one_of(st.none(), st.integers(100, 199)))) for i in range(n)]
    return dict(mods=mods, seed=draw(st.integers(0, 99)), interp=draw(st.booleans()), custom=draw(st.booleans()),
                drop=draw(st.sampled_from([None] * 3 + REQ)), ask=draw(st.lists(st.tuples(st.integers(0, 3), st.booleans()), max_size=5)))


def modules(d, rec):
    import sys

    from rt1.rtparse import RT1_configparser

    before = set(sys.modules)
    try:
        with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
            T = Path(tmp)
            mods, files, copies = [], {}, {}
            cf = T / "out" / "d1" / "cfg"
            for m in d["mods"]:
                fn = T / m["sub"] / (m["stem"] + ".py")
                if fn in files:
                    continue
                fn.parent.mkdir(exist_ok=True)
                fn.write_text(f"VALUE = {m['val']}\nNAME = __name__\n")
                files[fn] = m["val"]
                if m["cval"] is not None:
                    cf.mkdir(parents=True, exist_ok=True)
                    (cf / fn.name).write_text(f"VALUE = {m['cval']}\n")
                    copies[fn.name] = m["cval"]
                mods.append((m, fn))
            items = [("module__" + m["name"], str(fn)) for m, fn in mods]
            if d["custom"]:
                items = [(k if k != "module__processing_cfg" else "module__myproc", v) for k, v in items]
                items.append(("processing_cfg_module", "myproc"))
            drop = d["drop"]
            if drop == "module__processing_cfg" and d["custom"]:
                drop = "module__myproc"
            if drop == "module__processing_cfg":
                # no processing-module at all
                items = [i for i in items if i[0] != drop] or [("other", "1")]
            p = write(dict(MINI, seed=d["seed"], interp=d["interp"]), T, modules=items, drop=drop)
            try:
                cfg = RT1_configparser(p)
            except AssertionError:
                need(drop is not None, "a complete configuration is rejected")
                rec.tag("rejected", "nontrivial")
                return
            need(drop is None, lambda: f"a configuration without '{drop}' is accepted")
            names = {(k[8:]): fn for (k, v), (m, fn) in zip(items, mods)}
            allm = cfg.get_all_modules()
            need(set(allm) == set(names), lambda: f"modules {sorted(allm)} instead of {sorted(names)}")
            for n, fn in names.items():
                need(allm[n].VALUE == files[fn], lambda: f"module {n} is not the one at {fn}")
            keys = list(names)
            for i, cp in d["ask"]:
                n = keys[i % len(keys)]
                fn = names[n]
                if cp and fn.name not in copies:
                    try:
                        cfg.get_module(n, load_copy=True)
                        fail("a missing copy of a module is loaded")
                    except AssertionError:
                        continue
                v = cfg.get_module(n, load_copy=cp).VALUE
                need(v == (copies[fn.name] if cp else files[fn]), lambda: f"module {n} (copy: {cp}): VALUE = {v}")
                rec.tag("copy" if cp else "original")
            try:
                cfg.get_module("missing_module")
                fail("an undefined module is loaded")
            except AssertionError:
                pass
            if len(names) > 1:
                rec.tag("nontrivial")
    finally:
        for k in set(sys.modules) - before:
            if k.startswith("rtv") and not k.startswith("rtv."):
                del sys.modules[k]


# --------------------------------------------------------------- malformed
BAD = ["fitq", "fitq", "nolist", "nolist-config", "startval", "bound", "short", "a-nolist", "section", "section3", "spec-nolist", "int", "bool",
       "date"]


@st.composite
def bad_case(draw):
    d = draw(fit_case(draw(st.booleans())))
    d["bad"] = draw(st.sampled_from(BAD))
    d["word"] = draw(st.sampled_from(["true", "yes", "1", "", "fit", "FALSE", "None", "T"]))
    d["k"] = draw(st.integers(0, 5))
    return d


def malformed(d, rec):
    """a configuration-file that does not follow the format is rejected (and not translated to something else)"""
    import re

    from rt1.rtparse import RT1_configparser

    bad, w = d["bad"], d["word"]
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        p = write(dict(d, interp=False), Path(tmp))
        cfg = RT1_configparser(p)
        cfg.get_fitobject()
        cfg.get_process_specs()
        # `cfg` is the valid file; the malformed entry is inserted in a copy
        sec = "defdict"
        if bad.endswith("-config"):
            secs = [s for s in cfg.config if s.startswith("#config") and s.endswith(" defdict")]
            sec = secs[d["k"] % len(secs)] if secs else "defdict"
        ks = list(cfg.config[sec]) if sec in cfg.config else []
        k = ks[d["k"] % len(ks)]
        val = [i.strip() for i in cfg.config[sec][k].strip("[]").split(",")]
        fk = [i for i in cfg.config["defdict"] if cfg.config["defdict"][i].replace(" ", "").startswith("[True")]
        new = None
        if bad == "fitq":
            new = (sec, k, "[" + ",".join([w] + val[1:]) + "]")
        elif bad.startswith("nolist"):
            new = (sec, k, [",".join(val), "[" + ",".join(val), ",".join(val) + "]"][d["k"] % 3])
        elif bad == "startval":
            new = (sec, k, "[" + ",".join([val[0], "abc"] + val[2:]) + "]")
        elif bad in ("bound", "short"):
            if not fk:
                return
            k = fk[d["k"] % len(fk)]
            val = [i.strip() for i in cfg.config["defdict"][k].strip("[]").split(",")]
            if bad == "bound":
                val[3 + d["k"] % 2] = "x"
            else:
                val = val[:3 + d["k"] % 2]
            new = ("defdict", k, "[" + ",".join(val) + "]")
        elif bad == "a-nolist":
            q = [(s, i) for s in ("RT1_V", "RT1_SRF") for i in cfg.config[s] if i == "a" or i.endswith("__a")]
            if not q:
                return
            s, i = q[d["k"] % len(q)]
            new = (s, i, cfg.config[s][i].strip("[]"))
        elif bad == "section":
            new = ("#config A " + ["defdic", "RT1_v", "lsq"][d["k"] % 3], "x", "1")
        elif bad == "section3":
            new = ("#config A b defdict", "x", "1")
        elif bad == "spec-nolist":
            new = ("PROCESS_SPECS", ["list__x", "list__int__x", "list__bool__x"][d["k"] % 3], "1, 0")
        elif bad == "int":
            new = [("least_squares_kwargs", "max_nfev", "1.5"), ("PROCESS_SPECS", "int__x", "1.5"), ("fits_kwargs", "verbose", "x"),
                   ("PROCESS_SPECS", "float__x", "1,5"), ("PROCESS_SPECS", "list__int__x", "[1, 1.5]")][d["k"] % 5]
        elif bad == "bool":
            new = [("fits_kwargs", "sig0", "maybe"), ("PROCESS_SPECS", "bool__x", "2"), ("PROCESS_SPECS", "list__bool__x", "[True, tru]")][d["k"] % 3]
        elif bad == "date":
            new = [("PROCESS_SPECS", "datetime__x", "1.1.2018"), ("PROCESS_SPECS", "datetime__x", "2018-01-01 fmt=%d.%m.%Y"),
                   ("PROCESS_SPECS", "list__datetime__x", "[1.1.2018, 32.1.2018] fmt=%d.%m.%Y")][d["k"] % 3]
        sec, key, v = new
        if sec not in cfg.config:
            cfg.config.add_section(sec)
        cfg.config[sec][key] = v.replace("$", "$$")
        with open(p, "w") as fl:
            cfg.config.write(fl)
        txt = p.read_text()
        try:
            c2 = RT1_configparser(p)
            fit = c2.get_fitobject()
            sp = c2.get_process_specs()
        except Exception:
            rec.tag("nontrivial", "bad-" + bad)
            return
        fail(f"the entry '{key} = {v}' of the section [{sec}] is accepted: {getattr(fit, 'defdict', None)} {sp}\n{txt}")


SUBS = [
    Sub("single", lambda: fit_case(False), single, 300, 5000, shards=3),
    Sub("multi", lambda: fit_case(True), multi, 300, 5000, shards=3,
        nontrivial=lambda c, r: "overrides" in r.tags),
    Sub("specs", specs_case, specs, 1500, 10000, shards=1),
    Sub("malformed", bad_case, malformed, 250, 2000, shards=1),
    Sub("modules", mod_case, modules, 250, 2000, shards=1),
]
