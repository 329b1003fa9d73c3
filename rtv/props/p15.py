"""P15: the container of parameter-definitions is an ordered mapping"""
import copy
import pickle

from hypothesis import strategies as st

from ..core import Sub, need

RULE = ("A case is a history of operations (add / assign as list or dict / change single properties / remove / "
        "convert / copy / pickle) on one or two containers, compared with a plain dict after every step. "
        "Non-trivial: an existing parameter was changed, replaced or removed.")
NAMES = ["omega", "tau", "p", "x0", "keys", "items", "N"]
PROPS = ["fitQ", "val", "freq", "minval", "maxval", "interpQ"]
DEF = dict(fitQ=True, val=0.5, freq=None, minval=0.0, maxval=1.0, interpQ=False)

VAL = dict(fitQ=st.booleans(), val=st.one_of(st.sampled_from([0.1, 0.7, 1, "auxiliary"]),
                                             st.lists(st.sampled_from([0.1, 0.3]), min_size=1, max_size=3)),
           freq=st.sampled_from([None, "D", "index", "manual", 3, "2ME + manual"]),
           minval=st.sampled_from([0.0, 0.01, -1, 0.2]), maxval=st.sampled_from([1.0, 0.9, 5]), interpQ=st.booleans())


@st.composite
def partial(draw):
    return {k: draw(VAL[k]) for k in draw(st.lists(st.sampled_from(PROPS), unique=True))}


@st.composite
def aslist(draw):
    full = [draw(VAL["fitQ"]), draw(VAL["val"]), draw(VAL["freq"]), [[draw(VAL["minval"])], [draw(VAL["maxval"])]],
            draw(VAL["interpQ"])]
    return full[: draw(st.integers(1, 5))]


@st.composite
def op(draw):
    w = draw(st.integers(0, 1))
    nm = draw(st.sampled_from(["omega", "tau", "p"] * 3 + NAMES))
    k = draw(st.sampled_from(["add", "addpos", "attrlist", "attrdict", "prop", "item", "index", "remove", "todict",
                              "tolist", "copy", "pickle", "fromdict", "fromdict", "bad", "mutate"]))
    o = [k, w, nm]
    if k in ("add", "attrdict"):
        o.append(draw(partial()))
    elif k in ("addpos", "attrlist"):
        o.append(draw(aslist()))
    elif k in ("prop", "item"):
        p = draw(st.sampled_from(PROPS))
        o += [p, draw(VAL[p])]
    elif k == "index":
        i = draw(st.integers(0, 4))
        o += [i, [[draw(VAL["minval"])], [draw(VAL["maxval"])]] if i == 3 else draw(VAL[["fitQ", "val", "freq", "", "interpQ"][i]])]
    elif k == "fromdict":
        o.append([[n, draw(st.one_of(partial(), aslist()))] for n in draw(st.lists(st.sampled_from(NAMES), unique=True, max_size=4))])
        o.append(draw(st.booleans()))
    return o


def history():
    return st.lists(op(), min_size=3, max_size=14).map(lambda o: dict(ops=o))


def tup(l):
    """the documented list-shape uses a tuple for the bounds"""
    l = copy.deepcopy(l)
    if len(l) > 3:
        l[3] = tuple(l[3])
    return l


def from_list(l, default):
    m = dict(default)
    for k, v in zip(["fitQ", "val", "freq"], l):
        m[k] = v
    if len(l) > 3:
        m["minval"], m["maxval"] = l[3][0][0], l[3][1][0]
    if len(l) > 4:
        m["interpQ"] = l[4]
    return m


NONE = {k: None for k in PROPS}


def as_list(m):
    return [m["fitQ"], m["val"], m["freq"], ([m["minval"]], [m["maxval"]]), m["interpQ"]]


def verify(dd, m):
    need(list(dd) == list(m) and list(dd.keys()) == list(m), lambda: f"names {list(dd)} instead of {list(m)}")
    need(dd.to_dict() == {k: as_list(v) for k, v in m.items()}, lambda: f"to_dict: {dd.to_dict()} instead of {m}")
    need(list(dd.items()) == [(k, as_list(v)) for k, v in m.items()], lambda: f"items: {list(dd.items())}")
    for k, v in m.items():
        var = dd[k]
        need(getattr(dd.var, k) is var and dd.var[k] is var, "lookup")
        for p in PROPS:
            need(getattr(var, p) == v[p] and type(getattr(var, p)) is type(v[p]),
                 lambda: f"{k}.{p} = {getattr(var, p)!r} instead of {v[p]!r}")
            need(var[p] == v[p], lambda: f"{k}['{p}'] = {var[p]!r} instead of {v[p]!r}")
        need([var[i] for i in range(5)] == as_list(v), lambda: f"{k}: {[var[i] for i in range(5)]} instead of {v}")


def run(c, rec):
    from rt1._containers import _RT1_defdict as D
    from rt1.rtfits import Fits

    two = [[D(), {}], [Fits(verbose=0).defdict, {}]]
    for o in c["ops"]:
        k, w, nm = o[:3]
        dd, m = two[w]
        rec.tag(k)
        if nm in m and k in ("add", "addpos", "attrlist", "attrdict", "prop", "item", "index", "remove"):
            rec.tag("nontrivial")
        if k == "add":
            dd.add_variable(nm, **copy.deepcopy(o[3]))
            m[nm] = {**DEF, **o[3]}
        elif k == "addpos":
            a = list(o[3][:3]) + ([o[3][3][0][0], o[3][3][1][0]] if len(o[3]) > 3 else []) + list(o[3][4:])
            dd.add_variable(nm, *copy.deepcopy(a))
            m[nm] = from_list(o[3], DEF)
        elif k == "attrlist":
            setattr(dd, nm, tup(o[3]))
            m[nm] = from_list(o[3], DEF)
        elif k == "attrdict":
            setattr(dd, nm, copy.deepcopy(o[3]))
            m[nm] = {**DEF, **o[3]}
        elif k in ("prop", "item") and nm in m:
            if k == "prop":
                setattr(dd[nm], o[3], copy.deepcopy(o[4]))
            else:
                dd[nm][o[3]] = copy.deepcopy(o[4])
            m[nm][o[3]] = o[4]
        elif k == "index" and nm in m:
            i = o[3]
            dd[nm][i] = tuple(copy.deepcopy(o[4])) if i == 3 else copy.deepcopy(o[4])
            if i == 3:
                m[nm]["minval"], m[nm]["maxval"] = o[4][0][0], o[4][1][0]
            else:
                m[nm][["fitQ", "val", "freq", "", "interpQ"][i]] = o[4]
        elif k == "remove" and nm in m:
            dd.remove_variable(nm)
            m.pop(nm)
        elif k == "bad":
            try:
                setattr(dd, nm, 0.3)
            except AttributeError:
                pass
            else:
                need(False, f"assignment of a number as definition of {nm} was silently accepted")
        elif k == "todict":
            d = dd.to_dict(props="dict")
            need(d == m, lambda: f"to_dict('dict') = {d} instead of {m}")
            need(list(d) == list(m), "order of to_dict('dict')")
            two[w][0] = D.from_dict(d)
        elif k == "tolist":
            d = dd.to_dict()
            two[w][0] = D.from_dict(d)
        elif k == "copy":
            two[1 - w] = [copy.deepcopy(dd), copy.deepcopy(m)]
        elif k == "pickle":
            two[w][0] = pickle.loads(pickle.dumps(dd))
        elif k == "fromdict":
            src = {n: (tup(v) if isinstance(v, list) else copy.deepcopy(v)) for n, v in o[3]}
            if o[4]:
                new = D.from_dict(src)
            else:
                fit = Fits(defdict=src, verbose=0)
                new = fit.defdict
            two[w] = [new, {n: (from_list(v, NONE) if isinstance(v, list) else {**DEF, **v}) for n, v in o[3]}]
            for v in src.values():  # later changes of the source are not effective
                if isinstance(v, list):
                    if len(v) > 1 and isinstance(v[1], list):
                        v[1].append(99)
                    v[0] = "changed"
                else:
                    v["val"] = "changed"
        elif k == "mutate":
            d = dd.to_dict()
            for v in d.values():
                v[0], v[2] = "changed", "changed"
                v[3][0][0] = 99
            d.clear()
        for x, y in two:
            verify(x, y)


SUBS = [Sub("container", history, run, 1500, 40000, shards=2)]
