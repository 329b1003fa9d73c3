"""P14: containers of several fit-configurations"""
import copy
import os
import pickle
import tempfile

import numpy as np
from hypothesis import strategies as st

from .. import fitgen as f
from ..core import Sub, need
from .p12 import Group, _lsq, cmp_frames, cmp_group, params, dataset, functions

RULE = ("A case is a set of datasets and fit-definitions and a history of container operations (add or replace "
        "configurations, set dataset / auxiliary data / ID, edit and fit single or all configurations via accessor, "
        "apply or iteration, dump + load, pickle). Non-trivial: at least two configurations and one operation on "
        "the container after something was evaluated.")
ASSUMPTIONS = ["oracle: stand-alone fit-objects with the same definition (their correctness is decided by P08-P12)"]
CFG = ["a", "cfg_1", "b", "Config2", "lower"]


@st.composite
def history(draw):
    k = st.integers(0, 5)
    nm = st.sampled_from(CFG)
    nd = draw(st.integers(1, 2))
    defs = []
    for _ in range(draw(st.integers(2, 3))):
        d = draw(functions())
        d.update(params=draw(params()), sig0=draw(st.booleans()), dB=draw(st.booleans()))
        defs.append(d)
    add = st.tuples(st.just("add"), nm, k)
    op = st.one_of(
        add, add, st.tuples(st.just("dataset"), k), st.tuples(st.just("dataset"), k), st.tuples(st.just("aux"), k),
        st.tuples(st.just("ID"), k), st.tuples(st.just("reader"), k),
        st.tuples(st.just("fitall"), st.integers(0, 2)), st.tuples(st.just("fitone"), k),
        st.tuples(st.just("eval"), st.integers(0, 3)), st.tuples(st.just("eval"), st.integers(0, 3)),
        st.tuples(st.just("edit"), k, st.sampled_from(["sig0", "dB", "params", "lsq", "freq"]), k),
        st.tuples(st.just("store"), st.sampled_from(["mini", "full", "pickle"])),
        st.tuples(st.just("props")), st.tuples(st.just("subset"), st.lists(k, max_size=3, unique=True)),
        st.tuples(st.just("bad"), st.sampled_from(["1a", "a b", "config_names", "configs", "_dataset", ""])),
    ).map(list)
    first = [["add", "a", 0], ["add", draw(nm), 1]]
    return dict(D=[draw(dataset()) for _ in range(nd)], defs=defs, n=draw(st.integers(1, 3)),
                ops=first[: draw(st.sampled_from([0, 1, 2, 2, 2]))] + draw(st.lists(op, min_size=2, max_size=9)))


def standalone(d, ds, n):
    return f.make_fit(dict(ds, int_Q=False, **d), lsq_kwargs=dict(max_nfev=n))


def vals(d, ds, salt):
    return {k: np.array(v) for k, v in f.group_values(dict(ds, **d), salt).items()}


def run(c, rec):
    from rt1 import rtfits

    ds = c["D"][0]
    aux = None
    state = {}  # name -> dict(d=definition, n=max_nfev, res)   (insertion-ordered)
    mf = rtfits.MultiFits(dataset=f.make_dataset(ds))
    checks = []
    evaluated = False

    def fits():
        return [(n, mf.configs[n]) for n in mf.config_names]

    def invariant():
        names = list(state)
        need(list(mf.config_names) == names, lambda: f"config_names {mf.config_names} instead of {names}")
        need([x.config_name for x in mf.configs] == names, "iteration over configs")
        need(list(mf.accessor.config_fits) == names, "accessor.config_fits")
        for i, n in enumerate(names):
            need(mf.configs[i] is mf.configs[n] and mf.configs[n] is getattr(mf.configs, n), "config lookup")
            need(mf.accessor.config_fits[n] is mf.configs[n], "accessor returns different objects")
            need(mf.configs[n].dataset is mf.dataset or mf.configs[n].dataset.equals(mf.dataset), "dataset of configs")
            a = getattr(mf.configs[n], "aux_data", None)
            need((a is None) == (aux is None) and (a is None or a.equals(aux)), "aux_data of configs")

    def snap_eval(fit, s, salt):
        d, n, dd = copy.deepcopy(s["d"]), s["n"], ds
        v = vals(d, dd, salt)
        g = Group(fit)
        x = fit.calc_model(res_dict={k: a.copy() for k, a in v.items()}, return_components=bool(salt % 2)).copy()

        def check():
            ref = standalone(d, dd, n)
            cmp_group(g, ref)
            y = ref.calc_model(res_dict={k: a.copy() for k, a in v.items()}, return_components=bool(salt % 2))
            cmp_frames(x, y, "calc_model")
        return check

    def snap_fit(fit, s, ok):
        d, n, dd = copy.deepcopy(s["d"]), s["n"], ds
        if ok:
            res = {k: np.asarray(v, float).copy() for k, v in fit.res_dict.items()}
            s["res"] = res
            df = fit.res_df.copy()

        def check():
            ref = standalone(d, dd, n)
            b = _lsq(ref)
            need(ok == b, "only one of the objects could be fitted")
            if not ok:
                return
            need(set(res) == set(ref.res_dict) and all(
                np.allclose(res[k], np.asarray(ref.res_dict[k], float), rtol=1e-6, atol=1e-9) for k in res),
                lambda: f"results {res} of the configuration / stand-alone fit: {ref.res_dict}")
            cmp_frames(df, ref.res_df, "res_df")
        return check

    def call(cb):
        try:
            cb()
        except ValueError as e:
            if "finite" in str(e):
                return False
            raise
        return True

    for i, o in enumerate(c["ops"]):
        k = o[0]
        rec.tag(k)
        if evaluated and len(state) > 1 and k in ("add", "dataset", "edit", "store", "fitall", "fitone"):
            rec.tag("nontrivial")
        names = list(state)
        if k == "add":
            d = copy.deepcopy(c["defs"][o[2] % len(c["defs"])])
            other = c["D"][o[2] % len(c["D"])] if o[2] % 2 else None
            fit = standalone(d, other or ds, c["n"])
            if other is None:
                fit.dataset = None
            mf.add_config(o[1], fit)
            state[o[1]] = dict(d=d, n=c["n"], res=None)
            need(mf.configs[o[1]] is fit, "added object")
        elif k == "bad":
            try:
                mf.add_config(o[1], standalone(c["defs"][0], ds, 1))
            except AssertionError:
                pass
            else:
                need(False, f"configuration with the name '{o[1]}' was accepted")
        elif k == "dataset":
            ds = c["D"][o[1] % len(c["D"])]
            n = max(1, len(ds["obs"]) - o[1] % 3)
            ds = dict(ds, obs=ds["obs"][:n], cols={a: v[:n] for a, v in ds["cols"].items()})
            df = f.make_dataset(ds)
            mf.set_dataset(df.iloc[::-1] if o[1] % 2 and len(set(df.index)) == len(df) else df)
            need(mf.dataset.index.is_monotonic_increasing, "dataset is not sorted")
        elif k == "aux":
            aux = f.make_dataset(c["D"][0])[["sig"]] + o[1] if o[1] else None
            mf.set_aux_data(aux)
        elif k == "ID":
            mf.set_ID(f"id_{o[1]}")
            need(all(fit.ID == f"id_{o[1]}" for _, fit in fits()), "set_ID")
            if names:
                need(mf.ID == f"id_{o[1]}", "ID")
        elif k == "reader":
            mf.set_reader_arg(dict(gpi=o[1]))
            need(mf.reader_arg == dict(gpi=o[1]) and all(x.reader_arg == dict(gpi=o[1]) for _, x in fits()),
                 "reader_arg")
        elif k == "fitall":
            ok = {}
            if o[1] == 0:
                cbs = mf.accessor.performfit()
                need(list(cbs) == names, "accessor.performfit()")
                for n, cb in cbs.items():
                    ok[n] = call(cb)
            elif o[1] == 1:
                def doit(fit):
                    return call(fit.performfit)
                ok = dict(mf.apply(doit))
            else:
                ok = {x.config_name: call(x.performfit) for x in mf.configs}
            need(list(ok) == names, "not all configurations were processed")
            for n, fit in fits():
                checks.append((i, snap_fit(fit, state[n], ok[n])))
            evaluated = True
        elif k == "fitone" and names:
            n = names[o[1] % len(names)]
            fit = mf.configs[n]
            ok = call(mf.accessor.performfit()[n])
            checks.append((i, snap_fit(fit, state[n], ok)))
            evaluated = True
        elif k == "eval":
            for n, fit in fits():
                checks.append((i, snap_eval(fit, state[n], o[1])))
                evaluated = True
            for n in names:
                v = vals(state[n]["d"], ds, 5)
                cbs = mf.accessor.calc_model(res_dict=None)
                need(list(cbs) == names, "accessor.calc_model()")
                x = cbs[n](res_dict=v, return_components=True)
                y = mf.configs[n].calc_model(res_dict=v, return_components=True)
                cmp_frames(x, y, "accessor.calc_model()")
                # positional arguments replace the initially provided ones
                ps = state[n]["d"]["params"]
                par = {q: [0.2] for q, d in ps if d["fit"]}
                fx = {q: [0.3] for q, d in ps if not d["fit"] and d["val"] == "auxiliary"} or None
                inc = np.array([0.2, 0.6])
                cbs = mf.accessor.calc({}, inc, True, fixed_param=fx)
                x, y = cbs[n](par), mf.configs[n].calc(par, inc, True, fixed_param=fx)
                need(np.allclose(x, y, equal_nan=True), "accessor.calc() with positional arguments")
                cbs[n](par, inc[:1])
                x = cbs[n](par)  # (arguments of previous calls are not preserved)
                need(np.shape(x) == np.shape(y) and np.allclose(x, y, equal_nan=True), "repeated accessor.calc()")
        elif k == "edit" and names:
            n = names[o[1] % len(names)]
            s, fit = state[n], mf.configs[n]
            if o[2] in ("sig0", "dB"):
                s["d"][o[2]] = not s["d"][o[2]]
                setattr(fit, o[2], s["d"][o[2]])
            elif o[2] == "params":
                s["d"]["params"] = copy.deepcopy(c["defs"][o[3] % len(c["defs"])]["params"])
                fit.defdict = f.defdict(s["d"])
            elif o[2] == "lsq":
                s["n"] = o[3] + 1
                fit.lsq_kwargs["max_nfev"] = s["n"]
            else:
                for nm, d in s["d"]["params"]:
                    if d["fit"]:
                        d.update(freq="index", interp=False)
                fit.defdict = f.defdict(s["d"])
        elif k == "store" and names:
            if o[1] == "pickle":
                import cloudpickle

                new = pickle.loads(cloudpickle.dumps(mf))
            else:
                tmp = tempfile.mkdtemp(dir=os.environ.get("RTV_SCRATCH"))
                path = os.path.join(tmp, "mf.dump")
                mf.dump(path, mini=o[1] == "mini")
                new = rtfits.load(path)
                os.unlink(path)
                os.rmdir(tmp)
            for n in names:
                need(new.configs[n] is not mf.configs[n], "no new object")
            mf = new
            for n, fit in fits():
                r = state[n]["res"]
                if r is not None:
                    need(set(fit.res_dict) == set(r) and all(np.array_equal(np.asarray(fit.res_dict[q], float), r[q])
                                                             for q in r), "stored results")
        elif k == "props":
            for q, w in (("sig0", "sig0"), ("dB", "dB")):
                got = getattr(mf.accessor, q)
                need(list(got) == names and [bool(x) for x in got.values()] == [bool(state[n]["d"][w]) for n in names],
                     lambda: f"accessor.{q}: {got}")
            got = mf.accessor.defdict
            need(list(got) == names and all(list(got[n]) == [x for x, _ in state[n]["d"]["params"]] for n in names),
                 "accessor.defdict")
            got = mf.accessor.lsq_kwargs
            need(got == {n: dict(max_nfev=state[n]["n"]) for n in names}, lambda: f"accessor.lsq_kwargs {got}")
        elif k == "subset" and names:
            sub = [names[j % len(names)] for j in o[1]]
            sub = list(dict.fromkeys(sub))
            got = list(mf.apply(lambda fit: fit.config_name, use_config=sub))
            need(got == [(n, n) for n in sub], lambda: f"apply(use_config={sub}): {got}")
            got = list(mf.apply(lambda fit, add: fit.config_name + add, use_config=names[0], add="x"))
            need(got == [(names[0], names[0] + "x")], "apply(use_config=str)")
            got = list(mf.apply(lambda fit: fit.config_name))
            need(got == [(n, n) for n in names], "apply()")
        invariant()
    for i, check in checks:
        try:
            check()
        except Exception as e:
            e.args = (f"[op {i}] {e.args[0] if e.args else ''}",) + tuple(e.args[1:])
            raise


SUBS = [Sub("multi", history, run, 300, 6000, shards=4)]
