"""P20: helper functions satisfy their specification"""
import datetime
import itertools
import math
from collections import OrderedDict

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from ..core import Sub, need

RULE = ("Each sub generates the arguments of one helper-function. Non-trivial: rows of different length (padding), several groups "
        "with interleaved members (grouping), an incomplete last chunk (chunking, splitting), gaps (missing numbers), a conversion "
        "that changes something, at least two different dates / values (averaging, scaling) and target-dates between the samples "
        "(interpolation).")
ASSUMPTIONS = ["rectangularize: non-empty rows of one dtype and dim >= the longest row; scale: at least two different values; "
               "interpolation: at least two distinct dates"]
fl = st.floats(-1e3, 1e3, allow_nan=False).map(lambda x: round(x, 3))
BASE = pd.Timestamp("2017-01-01")


def conv(kind, v):
    return dict(list=list, tuple=tuple, array=np.array, series=pd.Series)[kind](v)


# ---------------------------------------------------------------------- padding
@st.composite
def rect_case(draw):
    el = draw(st.sampled_from([fl, st.integers(-99, 99), st.booleans(), st.integers(0, 99).map(lambda d: f"d{d}")]))
    rows = draw(st.lists(st.lists(el, min_size=1, max_size=5), min_size=1, max_size=6))
    return dict(rows=rows, kind=draw(st.sampled_from(["list", "tuple", "array", "series"])), extra=draw(st.sampled_from([None, 0, 1, 3])),
                mode=draw(st.sampled_from(["plain", "mask", "masked"])), dtype=draw(st.sampled_from([None, None, "own", "float", "object"])),
                outer=draw(st.sampled_from(["list", "tuple", "dict"])))


def run_rect(c, rec):
    from rt1.general_functions import rectangularize

    rows = c["rows"]
    if isinstance(rows[0][0], str):
        rows = [[np.datetime64(BASE) + np.timedelta64(int(x[1:]), "D") for x in r] for r in rows]
    arr = [conv(c["kind"], r) for r in rows] if not isinstance(rows[0][0], np.datetime64) else [np.array(r) for r in rows]
    arr = dict(list=list, tuple=tuple, dict=lambda a: {i: x for i, x in enumerate(a)}.values())[c["outer"]](arr)
    m = max(map(len, rows))
    kw = {}
    if c["extra"] is not None:
        kw["dim"] = m = m + c["extra"]
    own = np.array(rows[0]).dtype
    if c["dtype"] and own.kind in "fi":
        kw["dtype"] = own if c["dtype"] == "own" else c["dtype"]
    if len({len(r) for r in rows}) > 1:
        rec.tag("nontrivial")
    want = [[*r, *[r[-1]] * (m - len(r))] for r in rows]
    wmask = [[False] * len(r) + [True] * (m - len(r)) for r in rows]
    if c["mode"] == "plain":
        got, mask = rectangularize(arr, **kw), None
    elif c["mode"] == "mask":
        got, mask = rectangularize(arr, return_mask=True, **kw)
    else:
        x = rectangularize(arr, return_masked=True, **kw)
        need(isinstance(x, np.ma.MaskedArray), "no masked array")
        got, mask = x.data, np.ma.getmaskarray(x)
    need(got.shape == (len(rows), m), lambda: f"shape {got.shape} instead of {(len(rows), m)}")
    need(got.dtype == np.dtype(kw.get("dtype", own)), lambda: f"dtype {got.dtype}")
    need((got == np.array(want, dtype=got.dtype)).all(), lambda: f"{got.tolist()} instead of {want}")
    need(mask is None or mask.tolist() == wmask, lambda: f"mask {mask.tolist()} instead of {wmask}")


# ---------------------------------------------------------------------- dates
@st.composite
def date_case(draw):
    return dict(d=draw(st.lists(st.integers(-10 ** 9, 10 ** 9), min_size=1, max_size=8)), f=draw(st.sampled_from([1, 60, 86400])),
                kind=draw(st.sampled_from(["np", "nparr", "ts", "py", "index"])))


def run_date(c, rec):
    from rt1.general_functions import meandatetime

    # (dates between 1954 and 2048)
    ds = [(BASE + pd.Timedelta(seconds=x // c["f"] * c["f"])) for x in c["d"]]
    if len(set(ds)) > 1:
        rec.tag("nontrivial")
    x = dict(np=lambda: [d.to_datetime64() for d in ds], nparr=lambda: np.array([d.to_datetime64() for d in ds]), ts=lambda: ds,
             py=lambda: [d.to_pydatetime() for d in ds], index=lambda: pd.DatetimeIndex(ds))[c["kind"]]()
    got = pd.Timestamp(meandatetime(x))
    want = sum((d.value for d in ds)) // len(ds)
    need(abs(got.value - want) <= 2000 * len(ds), lambda: f"mean of {ds} is {got} instead of {pd.Timestamp(want)}")
    # order does not matter
    if c["kind"] != "index":
        y = pd.Timestamp(meandatetime(x[::-1]))
        need(abs(y.value - want) <= 2000 * len(ds), lambda: f"mean of reversed {ds} is {y} instead of {pd.Timestamp(want)}")


def run_hms(c, rec):
    from rt1.general_functions import dt_to_hms

    td = datetime.timedelta(seconds=c["s"], microseconds=c["us"])
    d, h, m, s = dt_to_hms(td)
    if c["s"] > 86400:
        rec.tag("nontrivial")
    need(0 <= h < 24 and 0 <= m < 60 and 0 <= s < 60, lambda: f"{td} -> {(d, h, m, s)}")
    need(((d * 24 + h) * 60 + m) * 60 + s == c["s"], lambda: f"{td} -> {(d, h, m, s)}")


# ---------------------------------------------------------------------- units
@st.composite
def unit_case(draw):
    n = draw(st.integers(1, 5))
    return dict(v=[draw(st.floats(1e-4, 5)) for _ in range(n)], inc=[draw(st.floats(0, 1.5)) for _ in range(n)], f=[draw(st.booleans()) for _ in range(6)],
                scalar=draw(st.integers(0, 4)) == 0, series=draw(st.integers(0, 3)) == 0)


def run_unit(c, rec):
    from rt1.general_functions import dBsig0convert

    v, inc = np.array(c["v"]), np.array(c["inc"])
    if c["scalar"]:
        v, inc = c["v"][0], c["inc"][0]
    elif c["series"]:
        v, inc = pd.Series(v), pd.Series(inc)
    A, B, C = [tuple(c["f"][i:i + 2]) for i in (0, 2, 4)]  # (dB, sig0)

    def unit(x, u):  # linear sigma0 -> unit
        x = x if u[1] else x / (4 * np.pi * np.cos(inc))
        return 10 * np.log10(x) if u[0] else x

    close = lambda a, b: np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-9)
    a = unit(v, A)
    if A != B:
        rec.tag("nontrivial")
    a0 = np.array(a, float, copy=True)
    b = dBsig0convert(a, inc, B[0], B[1], A[0], A[1])
    need(np.array_equal(np.array(a, float), a0), "the input is changed")
    need(close(b, unit(v, B)), lambda: f"{A} -> {B}: {b} instead of {unit(v, B)}")
    need(close(dBsig0convert(b, inc, A[0], A[1], B[0], B[1]), a), "round-trip")
    need(close(dBsig0convert(b, inc, C[0], C[1], B[0], B[1]), dBsig0convert(a, inc, C[0], C[1], A[0], A[1])), "composition")


# ---------------------------------------------------------------------- iterables
@st.composite
def iter_case(draw):
    return dict(v=draw(st.lists(st.integers(-9, 9), max_size=14)), n=draw(st.integers(1, 5)), size=draw(st.integers(1, 16)),
                sizes=draw(st.lists(st.one_of(st.integers(0, 4), st.integers(0, 4), st.none()), max_size=6)),
                kind=draw(st.sampled_from(["list", "tuple", "array", "series", "str"])), gen=draw(st.booleans()))


def run_iter(c, rec):
    from rt1.general_functions import chunkit, pairwise, split_into

    v = c["v"]
    x = "".join(chr(65 + i) for i in v) if c["kind"] == "str" else conv(c["kind"], v)
    ref = list(x)
    if len(v) % c["size"] and len(v) > c["size"]:
        rec.tag("nontrivial")
    got = [list(i) for i in chunkit(x, c["size"])]
    want = [ref[i:i + c["size"]] for i in range(0, len(ref), c["size"])]
    need(got == want, lambda: f"chunkit: {got} instead of {want}")
    it = (lambda: iter(x)) if c["gen"] else (lambda: x)
    got, want = list(pairwise(it(), c["n"])), [tuple(ref[i:i + c["n"]]) for i in range(len(ref) - c["n"] + 1)]
    need(got == want, lambda: f"pairwise: {got} instead of {want}")
    need(list(pairwise(it())) == list(zip(ref, ref[1:])), "pairwise")
    want, p = [], 0
    for s in c["sizes"]:
        want.append(ref[p:] if s is None else ref[p:p + s])
        if s is None:
            break
        p += s
    got = list(split_into(it(), c["sizes"]))
    need(got == want, lambda: f"split_into: {got} instead of {want}")


def run_group(c, rec):
    from rt1.general_functions import groupby_unsorted

    v = c["v"]
    m = c["n"]
    keyf, getf = (lambda x: x % m), (lambda x: (x, "v"))
    ks = [keyf(i) for i in v]
    if len(set(ks)) > 1 and len(list(itertools.groupby(ks))) > len(set(ks)):
        rec.tag("nontrivial")
    for kw, k, g in (({}, lambda x: x, lambda x: x), (dict(key=keyf), keyf, lambda x: x), (dict(key=keyf, get=getf), keyf, getf)):
        want = {}
        for i in v:
            want.setdefault(k(i), []).append(g(i))
        got = groupby_unsorted(iter(v) if c["gen"] else v, **kw)
        need(list(got.items()) == list(want.items()), lambda: f"groupby_unsorted({kw}): {got} instead of {want}")
        got = groupby_unsorted(v, sort=True, **kw)
        need(isinstance(got, OrderedDict) and list(got.items()) == sorted(want.items()), lambda: f"sorted groupby_unsorted: {got}")


@st.composite
def miss_case(draw):
    return dict(v=draw(st.lists(st.integers(0, 25), max_size=12)), N=draw(st.one_of(st.none(), st.integers(0, 30))),
                kind=draw(st.sampled_from(["list", "tuple", "array", "index", "set"])))


def run_miss(c, rec):
    from rt1.general_functions import find_missing

    v = c["v"]
    x = dict(list=list, tuple=tuple, array=lambda a: np.array(a, int), index=lambda a: pd.Index(a, dtype="int64"), set=set)[c["kind"]](v)
    if v and set(v) != set(range(max(v) + 1)):
        rec.tag("nontrivial")
    n = 40 if c["N"] is None else c["N"]
    want = list(itertools.islice((i for i in itertools.count() if i not in v), n))
    got = find_missing(x, c["N"])
    got = list(itertools.islice(got, n)) if c["N"] is None else list(got)
    need(got == want, lambda: f"find_missing({v}, {c['N']}) = {got} instead of {want}")


@st.composite
def scale_case(draw):
    v = draw(st.lists(fl, min_size=2, max_size=9).filter(lambda x: max(x) - min(x) > 1e-2))
    lo, hi = draw(fl), draw(fl)
    return dict(v=v, lo=lo, hi=hi, nan=draw(st.booleans()), dom=draw(st.sampled_from([None, "minmax", "pct"])), series=draw(st.booleans()))


def run_scale(c, rec):
    from rt1.general_functions import scale

    v = np.array(c["v"] + [np.nan] * c["nan"])
    x = pd.Series(v) if c["series"] else v
    kw = {}
    a, b = np.nanmin(v), np.nanmax(v)
    if c["dom"] == "minmax":
        kw["domainfuncs"] = (np.nanmin, np.nanmax)
    elif c["dom"]:
        fs = (lambda q: np.nanpercentile(q, 10), lambda q: np.nanpercentile(q, 95))
        kw["domainfuncs"], (a, b) = fs, (fs[0](v), fs[1](v))
        if b - a < 1e-3:
            return
    rec.tag("nontrivial")
    got = scale(x, (c["lo"], c["hi"]), **kw)
    want = c["lo"] + (v - a) / (b - a) * (c["hi"] - c["lo"])
    tol = 1e-9 * (1 + np.nanmax(np.abs(v)) + abs(c["lo"]) + abs(c["hi"])) / min(1, b - a)
    need(np.allclose(np.asarray(got), want, rtol=1e-9, atol=tol, equal_nan=True), lambda: f"{got} instead of {want}")
    if not kw:
        need(np.allclose(np.asarray(scale(x)), (v - a) / (b - a), rtol=1e-9, atol=1e-9, equal_nan=True), "default range")


@st.composite
def interp_case(draw):
    n = draw(st.integers(2, 7))
    h = draw(st.lists(st.integers(0, 400), min_size=n, max_size=n, unique=True))
    return dict(h=h, v=[[draw(fl) for _ in range(n)] for _ in range(draw(st.integers(1, 3)))], t=draw(st.lists(st.integers(-50, 450), min_size=1, max_size=8)),
                kind=draw(st.sampled_from(["series", "frame", "list", "array"])), mode=draw(st.sampled_from([None, "fill", "nearest"])))


def run_interp(c, rec):
    from rt1.general_functions import interpolate_to_index

    idx = pd.DatetimeIndex([BASE + pd.Timedelta(hours=x) for x in c["h"]])
    tgt = pd.DatetimeIndex([BASE + pd.Timedelta(hours=x) for x in c["t"]])
    kw = dict(fill=dict(fill_value=(-5., -7.)), nearest=dict(kind="nearest")).get(c["mode"], {})
    cols = c["v"] if c["kind"] == "frame" else c["v"][:1]
    if any(min(c["h"]) < t < max(c["h"]) and t not in c["h"] for t in c["t"]):
        rec.tag("nontrivial")
    rec.tag(c["kind"])
    if c["kind"] == "frame":
        got = interpolate_to_index(pd.DataFrame({f"c{i}": v for i, v in enumerate(cols)}, idx), tgt, **kw)
        need(list(got.columns) == [f"c{i}" for i in range(len(cols))], "columns")
        got, gi = got.values.T, got.index
    else:
        if c["kind"] == "series":
            got = interpolate_to_index(pd.Series(cols[0], idx), tgt, **kw)
        else:
            got = interpolate_to_index(np.array(cols[0]) if c["kind"] == "array" else list(cols[0]), tgt, data_index=idx, **kw)
        got, gi = [got.values], got.index
    need(list(gi) == list(tgt), "index")
    hs = sorted(c["h"])
    for g, v in zip(got, cols):
        m = dict(zip(c["h"], v))
        for x, t in zip(g, c["t"]):
            if t < hs[0] or t > hs[-1]:
                want = [(-5. if t < hs[0] else -7.) if c["mode"] == "fill" else math.nan]
            elif t in m:
                # (julian dates of the first / last sample might be out of bounds due to rounding)
                want = [m[t]]
            else:
                a, b = [(p, q) for p, q in zip(hs, hs[1:]) if p < t < q][0]
                if c["mode"] == "nearest":
                    want = [m[a]] if t - a < b - t else [m[b]] if t - a > b - t else [m[a], m[b]]
                else:
                    want = [m[a] + (m[b] - m[a]) * (t - a) / (b - a)]
            need(any((math.isnan(w) and math.isnan(x)) or abs(x - w) < 1e-4 * (1 + max(map(abs, v))) for w in want),
                 lambda: f"value {x} at hour {t} instead of {want}")


@st.composite
def prog_case(draw):
    mx = draw(st.integers(1, 500))
    return dict(p=draw(st.integers(0, mx + 3)), mx=mx, title=draw(st.sampled_from(["", "x", "abc"])), p2=draw(st.sampled_from([None, 0, 7])))


def run_prog(c, rec):
    from rt1.general_functions import update_progress

    msg = update_progress(c["p"], c["mx"], title=c["title"], finalmsg="ready", progress2=c["p2"])
    if c["p"] >= c["mx"]:
        need("ready" in msg and "#" not in msg, lambda: f"final message {msg!r}")
        return
    if 0 < c["p"]:
        rec.tag("nontrivial")
    need(c["title"] in msg and f"{c['p']}" in msg and msg.rstrip().endswith(f"/ {c['mx']}"), lambda: f"message {msg!r}")
    need(c["p2"] is None or f"[{c['p2']}]" in msg, lambda: f"message {msg!r}")
    bar = [w for w in msg.split() if set(w) <= {"#", "-"}][0]
    n = bar.count("#")
    need(len(bar) == 20 and bar == "#" * n + "-" * (20 - n) and abs(n - 20 * c["p"] / c["mx"]) <= .5 + 1e-9, lambda: f"bar {bar!r} for {c}")


@st.composite
def hms_case(draw):
    return dict(s=draw(st.one_of(st.integers(0, 10 ** 4), st.integers(0, 10 ** 7))), us=draw(st.integers(0, 999999)))


@st.composite
def ident_case(draw):
    return dict(s=draw(st.one_of(st.text(max_size=6), st.sampled_from(["class", "None", "a b", "1a", "a1", "_", "ä", "match", "True", ""]),
                                 st.from_regex(r"[A-Za-z_][A-Za-z0-9_]{0,5}", fullmatch=True))))


def run_ident(c, rec):
    from rt1.general_functions import isidentifier
    import ast

    s = c["s"]
    try:
        t = ast.parse(s + " = 1", mode="exec") if s and "\n" not in s and "\0" not in s and "#" not in s else None
        want = bool(t and len(t.body) == 1 and isinstance(t.body[0], ast.Assign) and len(t.body[0].targets) == 1
                    and isinstance(t.body[0].targets[0], ast.Name) and s.strip() == s)
    except (SyntaxError, ValueError):
        want = False
    if want and len(s) > 1:
        rec.tag("nontrivial")
    got = isidentifier(s)
    if any(ord(ch) > 127 or ch in "()\t\f\\ " for ch in s):
        want = s.isidentifier()
    need(got is want, lambda: f"isidentifier({s!r}) = {got}")


SUBS = [Sub("rectangularize", rect_case, run_rect, 1500, 40000), Sub("dates", date_case, run_date, 1500, 40000),
        Sub("units", unit_case, run_unit, 1500, 40000), Sub("iter", iter_case, run_iter, 1500, 40000),
        Sub("group", iter_case, run_group, 1000, 20000), Sub("missing", miss_case, run_miss, 1000, 30000),
        Sub("scale", scale_case, run_scale, 1000, 30000), Sub("interp", interp_case, run_interp, 1000, 30000),
        Sub("progress", prog_case, run_prog, 800, 10000), Sub("hms", hms_case, run_hms, 800, 10000),
        Sub("identifier", ident_case, run_ident, 800, 10000)]
