"""P12: results only depend on the current configuration, not on the history"""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from .. import fitgen as f
from .. import rtgen as g
from ..core import Sub, need

RULE = ("A case is a set of datasets / parameter-definitions / scattering functions and a history of "
        "re-assignments, in-place edits, evaluations, fits and pickling of a single fit-object (possibly next to "
        "a second object). Non-trivial: the configuration was changed after something was evaluated.")
ASSUMPTIONS = ["oracle: a new object created with the final configuration (whose correctness is decided by "
               "P08-P11)", "in-place edits of the parameter-definitions or the dataset are effective at the "
               "next performfit()"]
NAMES = ["p", "q", "NormBRDF"]


@st.composite
def params(draw, inplace=False):
    out, anyfit = [], False
    order = draw(st.permutations(NAMES)) if draw(st.integers(0, 2)) == 0 else NAMES
    for i, nm in enumerate(order):
        if draw(st.integers(0, 3)) or (i == len(order) - 1 and not anyfit):
            anyfit = True
            fr = draw(st.sampled_from([None, "index", "manual", "D", "W", 2, "D + manual"]))
            out.append([nm, dict(fit=True, val=draw(st.sampled_from([0.2, 0.35, "auxiliary"])), freq=fr, lo=0.05,
                                 hi=0.8, interp=fr in ("D", 2) and draw(st.integers(0, 3)) == 0)])
        else:
            out.append([nm, dict(fit=False, val=draw(st.sampled_from([0.25, 0.5, "auxiliary"])))])
    return out


@st.composite
def dataset(draw):
    obs = draw(f.obs_list(nmin=1, nmax=4, maxrep=2, spread=2000))
    n = len(obs)
    cols = {}
    for nm in NAMES:
        cols[nm] = draw(st.lists(g.num(0.1, 0.6, 2), min_size=n, max_size=n))
        cols[nm + "_start"] = draw(st.lists(g.num(0.1, 0.6, 2), min_size=n, max_size=n))
        cols[nm + "_dyn"] = draw(st.lists(st.integers(1, 3), min_size=n, max_size=n))
    return dict(start="2018-01-01", obs=obs, cols=cols, weights=draw(st.booleans()))


@st.composite
def functions(draw):
    free = ["p", "q"]
    c = dict(omega=draw(f.slot(free)), tau=draw(f.slot(free)),
             N=draw(st.sampled_from(["NormBRDF", "NormBRDF", "0.5*NormBRDF + 0.2*p"])),
             style=draw(st.sampled_from(["dict", "dict", "call"])))
    c["V"] = draw(f.dist(free, True, 2))
    c["S"] = draw(f.dist(free, False, 2))
    return c


def op(nd, np_, nf, int_Q):
    ix = st.integers(0, 5)
    o = [st.tuples(st.just("dataset"), st.integers(0, nd - 1)),
         st.tuples(st.just("params"), st.integers(0, np_ - 1)),
         st.tuples(st.just("funcs"), st.integers(0, nf - 1)),
         st.tuples(st.just("sig0"), st.booleans()),
         st.tuples(st.just("dB"), st.booleans()),
         st.tuples(st.just("eval"), st.integers(0, 3)),
         st.tuples(st.just("eval"), st.integers(0, 3)),
         st.tuples(st.just("touch"), ix),
         st.tuples(st.just("fit"), st.integers(0, 1)),
         st.tuples(st.just("metric")),
         st.tuples(st.just("calc"), ix),
         st.tuples(st.just("inplace"), st.sampled_from(NAMES), st.sampled_from(["freq", "val", "hi", "fit"]), ix),
         st.tuples(st.just("column"), st.sampled_from(["sig", "inc", "p", "NormBRDF_start", "q_dyn"]), ix),
         st.tuples(st.just("pickle")),
         st.tuples(st.just("other"), st.integers(0, 7)),
         st.tuples(st.just("nfev"), st.integers(1, 4))]
    if int_Q:
        o += [st.tuples(st.just("metric"))] * 3
        o += [st.tuples(st.just("int_Q"), st.booleans()),
              st.tuples(st.just("backend"), st.sampled_from(["symengine", "sympy"]))]
    return st.one_of(o).map(list)


@st.composite
def history(draw, int_Q, nops):
    nd, np_, nf = draw(st.integers(1, 2)), draw(st.integers(1, 3)), draw(st.integers(1, 2))
    return dict(D=[draw(dataset()) for _ in range(nd)], P=[draw(params()) for _ in range(np_)],
                F=[draw(functions()) for _ in range(nf)], int_Q=int_Q,
                ops=draw(st.sampled_from([[], [["fit", 0]], [["fit", 0], ["metric"]]]))
                + draw(st.lists(op(nd, np_, nf, int_Q), min_size=2, max_size=nops)))


class State:
    """the configuration that is expected to be effective"""

    def __init__(self, c):
        self.D = copy.deepcopy(c["D"])
        self.d, self.params, self.func = copy.deepcopy(c["D"][0]), copy.deepcopy(c["P"][0]), c["F"][0]
        self.sig0 = self.dB = False
        self.int_Q, self.nfev, self.backend = c["int_Q"], 2, None
        self.fixed = None

    def definition(self):
        return dict(self.d, params=self.params, sig0=self.sig0, dB=self.dB, int_Q=self.int_Q, **self.func)

    def fresh(self):
        return f.make_fit(self.definition(), lsq_kwargs=dict(max_nfev=self.nfev), lambda_backend=self.backend)


def _frame(df):
    return df.sort_index(kind="stable")


def cmp_group(a, b):
    pa, pb = a.param_dyn_dict, b.param_dyn_dict
    need(set(pa) == set(pb), lambda: f"grouped parameters {sorted(pa)} instead of {sorted(pb)}")
    for k in pb:
        need(f.ranks(list(pa[k])) == f.ranks(list(pb[k])), lambda: f"groups of {k}: {list(pa[k])} / {list(pb[k])}")
    for n in ("inc", "data", "mask"):
        need(np.array_equal(getattr(a, n), getattr(b, n)), lambda: f"'{n}' differs from a new object")
    need(np.array_equal(np.asarray(a.data_weights), np.asarray(b.data_weights)), "data_weights")
    need(list(a.index) == list(b.index), "index differs from a new object")


def cmp_frames(x, y, what):
    need(list(x.columns) == list(y.columns) and len(x) == len(y), lambda: f"{what}: shape/columns")
    need(np.allclose(x.values.astype(float), y.values.astype(float), rtol=1e-7, atol=1e-12, equal_nan=True),
         lambda: f"{what} differs from a new object:\n{x}\n{y}")


def values(s, salt):
    return {k: np.array(v) for k, v in f.group_values(s.definition(), salt).items()}


class Group:
    """a snapshot of the grouping of a fit"""

    def __init__(self, fit):
        self.param_dyn_dict = {k: list(v) for k, v in fit.param_dyn_dict.items()}
        for n in ("inc", "data", "mask", "data_weights", "index"):
            setattr(self, n, copy.deepcopy(getattr(fit, n)))


def evaluate(fit, s, salt):
    """evaluate the fit now, compare with a new object later on

    (creating new objects clears the caches of all others)"""
    v = values(s, salt)
    comp = salt % 2 == 1
    g = Group(fit) if salt < 3 else None
    x = fit.calc_model(res_dict={k: a.copy() for k, a in v.items()}, return_components=comp).copy()
    s = copy.deepcopy(s)

    def check():
        ref = s.fresh()
        if g is not None:
            cmp_group(g, ref)
        y = ref.calc_model(res_dict={k: a.copy() for k, a in v.items()}, return_components=comp)
        cmp_frames(x, y, "calc_model")
    return check


def _lsq(fit):
    try:
        fit.performfit()
    except ValueError as e:
        if "finite" in str(e):  # non-positive values in dB
            return False
        raise
    return True


def run_fit(fit, s):
    """(check, results)"""
    a = _lsq(fit)
    res = None
    if a:
        res = {k: np.asarray(v, float).copy() for k, v in fit.res_dict.items()}
        df, mod = fit.res_df.copy(), fit.calc_model(return_components=True).copy()
    s = copy.deepcopy(s)

    def check():
        ref = s.fresh()
        b = _lsq(ref)
        if not b or not a:
            need(a == b, "only one of the objects could be fitted")
            return
        need(set(res) == set(ref.res_dict), "fitted parameters differ from a new object")
        for k in ref.res_dict:
            need(np.allclose(res[k], np.asarray(ref.res_dict[k], float), rtol=1e-6, atol=1e-9),
                 lambda: f"fit-result of {k}: {res[k]} / new object: {ref.res_dict[k]}")
        cmp_frames(df, ref.res_df, "res_df")
        cmp_frames(mod, ref.calc_model(return_components=True), "calc_model()")
    return check, res


METRICS = [("sig", "tot", "rmsd"), ("vol", "surf", "bias"), ("inc", "sig", "mae"), ("tot", "vol", "ub_rmsd")]


def metrics(fit, int_Q):
    m = fit.metric
    need(hasattr(m, "inter") == int_Q, lambda: f"metrics of the interaction-contribution: int_Q={int_Q}")
    out = {}
    with np.errstate(all="ignore"):
        for a, b, k in METRICS + [("inter", "tot", "bias")] * bool(int_Q):
            out[a, b, k] = float(getattr(getattr(getattr(m, a), b), k))
    return out


def check_metric(fit, s, res):
    """metrics of the results of the last fit"""
    a = metrics(fit, s.int_Q)
    s = copy.deepcopy(s)

    def check():
        ref = s.fresh()
        ref.res_dict = {k: v.copy() for k, v in res.items()}
        b = metrics(ref, s.int_Q)
        for k in b:
            need(np.isclose(a[k], b[k], rtol=1e-7, atol=1e-10, equal_nan=True),
                 lambda: f"fit.metric.{'.'.join(k)} = {a[k]} / new object: {b[k]}")
    return check


def run(c, rec):
    s = State(c)
    res = None  # results that belong to the current configuration
    fit = s.fresh()
    evaluated = False
    checks = []
    pending = False  # in-place edits that are effective at the next performfit
    for nop, o in enumerate(c["ops"]):
        k = o[0]
        rec.tag(k)
        if k in ("dataset", "params", "funcs", "sig0", "dB", "int_Q", "inplace", "column") and evaluated:
            rec.tag("nontrivial")
        if k in ("dataset", "params", "funcs", "inplace", "column"):
            res = None
        if k == "dataset":
            s.d = copy.deepcopy(c["D"][o[1]])
            fit.dataset = f.make_dataset(s.d)
            pending = False
        elif k == "params":
            s.params = copy.deepcopy(c["P"][o[1]])
            fit.defdict = f.defdict(dict(params=s.params))
            pending = False
        elif k == "funcs":
            s.func = c["F"][o[1]]
            fit.set_V_SRF = f.set_V_SRF(s.func)
            pending = False
        elif k in ("sig0", "dB"):
            setattr(s, k, o[1])
            setattr(fit, k, o[1])
            pending = False
        elif k == "int_Q":
            s.int_Q = fit.int_Q = o[1]
        elif k == "backend":
            s.backend = fit.lambda_backend = o[1]
        elif k == "nfev":
            s.nfev = o[1]
            fit.lsq_kwargs["max_nfev"] = o[1]
        elif k == "pickle":
            import cloudpickle

            # lambdified functions are not part of a dump (mini=True)
            fit._rt1_dump_mini = True
            fit = pickle.loads(cloudpickle.dumps(fit))
        elif k == "other" and o[1] > 3:
            continue
        elif k == "other":  # a second object must not interfere
            t = State(c)
            t.d, t.params = copy.deepcopy(c["D"][-1]), copy.deepcopy(c["P"][o[1] % len(c["P"])])
            t.int_Q = False
            ot = t.fresh()
            ot.calc_model(res_dict=values(t, o[1]))
            if o[1] % 2:
                ot.dB = True
        elif k == "inplace":
            d = dict(s.params)[o[1]]
            var = fit.defdict[o[1]]
            if o[2] == "fit":
                if d["fit"] and sum(x["fit"] for _, x in s.params) > 1:
                    d.clear()
                    d.update(fit=False, val=0.3)
                    var.fitQ, var.val = False, 0.3
                elif not d["fit"]:
                    d.clear()
                    d.update(fit=True, val=0.3, freq="index", lo=0.05, hi=0.8, interp=False)
                    var.fitQ, var.val, var.freq, var.minval, var.maxval, var.interpQ = True, 0.3, "index", 0.05, 0.8, False
            elif o[2] == "val":
                d["val"] = [0.15, 0.25, 0.45][o[3] % 3]
                d.pop("ctype", None)
                var.val = d["val"]
            elif not d["fit"]:
                continue
            elif o[2] == "freq":
                d["freq"] = [None, "index", "manual", "D", 2, 3][o[3]]
                d.pop("spell", None)
                d["interp"] = False
                var.freq, var.interpQ = d["freq"], False
            else:
                d["hi"] = [0.7, 0.75][o[3] % 2]
                var.maxval = d["hi"]
            pending = True
        elif k == "column":
            n = len(s.d["obs"])
            if o[1] in ("sig", "inc"):
                j = 1 if o[1] == "inc" else 2
                for i, ob in enumerate(s.d["obs"]):
                    ob[j] = round(0.1 + 0.03 * ((i * 7 + o[2]) % 9), 3)
                fit.dataset[o[1]] = [ob[j] for ob in s.d["obs"]]
            else:
                s.d["cols"][o[1]] = [(i * 5 + o[2]) % 3 + 1 if o[1].endswith("_dyn") else
                                     round(0.1 + 0.05 * ((i * 7 + o[2]) % 9), 3) for i in range(n)]
                fit.dataset[o[1]] = s.d["cols"][o[1]]
            pending = True
        elif k == "fit":
            check, res = run_fit(fit, s)
            checks.append((nop, check))
            pending, evaluated = False, True
        elif pending:
            continue
        elif k == "eval":
            checks.append((nop, evaluate(fit, s, o[1])))
            evaluated = True
        elif k == "metric":
            if res is not None:
                rec.tag("metric-checked")
                checks.append((nop, check_metric(fit, s, res)))
                evaluated = True
        elif k == "touch":
            for nm in ("param_dyn_df", "meandatetimes", "R", "V", "SRF", "interp_vals", "fixed_dict"):
                getattr(fit, nm)
            evaluated = True
        elif k == "calc":
            inc = np.array([0.2, 0.5, 0.9][: o[1] % 3 + 1])
            par = {n: [0.2, 0.4] for n, d in s.params if d["fit"]}
            fx = {n: [0.3, 0.5] for n, d in s.params if not d["fit"] and d["val"] == "auxiliary"} or None
            a = [np.array(x, dtype=float) for x in fit.calc(par, inc, fixed_param=fx)]
            checks.append((nop, check_calc(a, copy.deepcopy(s), par, inc, fx)))
            evaluated = True
    if not pending:
        checks.append(("end", evaluate(fit, s, 2)))
    checks.append(("final fit", run_fit(fit, s)[0]))
    for nop, check in checks:
        try:
            check()
        except Exception as e:
            e.args = (f"[op {nop}] {e.args[0] if e.args else ''}",) + tuple(e.args[1:])
            raise


def check_calc(a, s, par, inc, fx):
    def check():
        b = s.fresh().calc(par, inc, fixed_param=fx)
        need(len(a) == len(b) and all(np.allclose(x, np.asarray(y, float), equal_nan=True)
                                      for x, y in zip(a, b)), "calc() differs from a new object")
    return check


SUBS = [
    Sub("history", lambda: history(False, 10), run, 300, 7000, shards=4, tshards=4),
    Sub("history-int", lambda: history(True, 8), run, 160, 2400, shards=4, tshards=4),
]
