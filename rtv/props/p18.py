"""P18: selections from a result-file are exact and complete"""
import os
import tempfile
from pathlib import Path

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from .. import vproc
from ..core import Sub, need
from .p17 import name_of

RULE = ("A case is a result-file written in generated sessions, order and chunks (tables with one row, several rows or no rows "
        "per identifier, constant tables and tables of configurations) and a list of selections. Non-trivial: at least one "
        "selection that covers some but not all of the identifiers of a file in which the stored order differs from the "
        "numbering or the number of rows differs between identifiers.")
ASSUMPTIONS = ["worker-, combiner- and writer-processes are virtual (threads working on pickled copies), see DESIGN.md",
               "numbers and names that are not stored, repeated identifiers in a selection and chunk-sizes < 1 are outside "
               "of the domain"]

NAMES = ["a", "b9", "7", "x1", "12a", "Zz", "class", "007", "ä1", "1_2", "B", "site", "1", "2", "0", "1.5"]
KEYS = ["dataset", "aux_data", "stat", "cfgA/dynamic", "cfgA/static", "B_2/dynamic", "reader_arg"]
MULTI = {"dataset", "aux_data", "cfgA/dynamic", "B_2/dynamic"}
CUR = {}


@st.composite
def op(draw, n, keys):
    kind = draw(st.sampled_from(["id", "id", "nids", "nids", "iter", "iter", "iter", "list", "list", "str", "select", "get_data", "index"]))
    o = dict(op=kind, key=draw(st.sampled_from(keys)), set_ID=draw(st.integers(0, 3)) == 0, cols=draw(st.integers(0, 3)) == 0)
    if kind in ("nids", "iter"):
        o.update(n=draw(st.integers(1, n + 2)), start=draw(st.sampled_from([None, None, 0, *range(1, n)])),
                 chunk=draw(st.sampled_from([None, None, *range(1, n + 2)])), progress=draw(st.integers(0, 7)) == 0)
    elif kind == "list":
        o.update(ids=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)), how=draw(st.sampled_from(["iter", "nids"])),
                 chunk=draw(st.sampled_from([None, None, *range(1, n + 2)])), names=draw(st.booleans()))
    elif kind in ("id", "str"):
        o.update(i=draw(st.integers(0, n - 1)), names=kind == "str" or draw(st.booleans()))
    elif kind in ("select", "get_data"):
        o.update(ids=draw(st.one_of(st.none(), st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True))))
    return o


@st.composite
def case(draw):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 24)))
    keys = ["reader_arg", "dataset"] + draw(st.lists(st.sampled_from([k for k in KEYS if k not in ("reader_arg", "dataset")]), unique=True))
    ids = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique_by=name_of)) if n <= 6 else [f"i{k}" for k in range(n)]
    rows = {k: draw(st.lists(st.integers(0 if k in ("aux_data", "stat") else 1, 3), min_size=n, max_size=n)) for k in keys if k != "reader_arg"}
    return dict(n=n, keys=keys, ids=ids, rows=rows, cut=draw(st.integers(0, n)), chunk=draw(st.sampled_from([1, 2, 3, 5, 30])),
                seed=draw(st.integers(0, 99)), workers=draw(st.integers(1, 3)),
                ops=draw(st.lists(op(n, keys), min_size=2, max_size=9)))


def frame(cc, key, k, num):
    """the rows of a table for one identifier"""
    j = cc["keys"].index(key)
    if key == "reader_arg":
        return pd.DataFrame(dict(ID=cc["ids"][k], lat=47. + k), pd.Index([num], name="ID"))
    r = cc["rows"][key][k]
    v = 100. * k + 1000 * j + np.arange(r)
    if key not in MULTI:
        return pd.DataFrame(dict(m=v[:1], z=v[:1] + .5), pd.Index([num] * min(1, r), name="ID", dtype="int64"))
    d = pd.to_datetime("2020-01-01") + pd.to_timedelta([(3 * k + (i // 2 if (k + j) % 2 else r - i)) for i in range(r)], "D")
    return pd.DataFrame(dict(sig=v, inc=v + .25, n=np.arange(r)), pd.MultiIndex.from_arrays([[num] * r, d], names=["ID", "date"]))


def process(arg):
    cc = CUR["case"]
    k, num = arg["k"], arg["_RT1_ID_num"]
    CUR["num"][k] = num
    out = {}
    for key in cc["keys"]:
        x = frame(cc, key, k, num)
        if not len(x):
            continue
        if "/" in key:
            a, b = key.split("/")
            out.setdefault(a, {})[b] = x
        else:
            out[("const__" if key in ("reader_arg", "stat") else "") + key] = x
    return out


def rows_of(df, key, set_ID):
    """{ID: [rows]} of the returned data"""
    if key in MULTI:
        need(isinstance(df.index, pd.MultiIndex), lambda: f"unexpected index {df.index}")
        ids, d = df.index.get_level_values(0), df.index.get_level_values(1)
    else:
        ids, d = df.index, [None] * len(df)
    out = {}
    for i, t, v in zip(ids, d, df.to_dict("records")):
        if not set_ID:
            need(not isinstance(i, str), lambda: f"unexpected index-value {i!r}")
        out.setdefault(i if set_ID else int(i), []).append((None if t is None else pd.Timestamp(t), v))
    return out


def expect(cc, key, ks, set_ID, cols=None):
    out = {}
    for k in ks:
        x = frame(cc, key, k, CUR["num"][k])
        if set_ID and key not in MULTI and "ID" in x:
            x = x.drop(columns="ID")
        if cols:
            x = x[[c for c in x if c in cols]]
        if len(x):
            out.update(rows_of(x.rename(index={CUR["num"][k]: name_of(cc["ids"][k])}, level=0 if key in MULTI else None) if set_ID else x, key, set_ID))
    return out


def run_op(o, h, cc, dst, order):
    """order: the (position of the) identifiers in the stored order"""
    from rt1._rtprocess_writer import RT1_processor

    key, sid, num = o["key"], o["set_ID"], CUR["num"]
    if o["op"] == "index":
        RT1_processor.create_index(dst, idx_levels=[None, "all", ["ID"], ["ID", "date"]][cc["seed"] % 4])
        return
    sel = h.datasets
    for part in key.split("/"):
        sel = getattr(sel, part)
    cols = ["inc", "z", "lat"] if o["cols"] else None
    kw = dict(columns=cols) if cols else {}
    nam = lambda k, names: name_of(cc["ids"][k]) if names else num[k]
    if o["op"] in ("id", "str"):
        k = order[o["i"]]
        got = [(sel.get_id if o["op"] == "id" else sel.get_nids)(nam(k, o["names"]), **kw)]
        want = [[k]]
    elif o["op"] == "list":
        ks = [order[i] for i in o["ids"]]
        if o["chunk"]:
            kw["read_chunksize"] = o["chunk"]
        got = list(sel.get_nids_iter([nam(k, o["names"]) for k in ks], **kw)) if o["how"] == "iter" else \
            [sel.get_nids([nam(k, o["names"]) for k in ks], **kw)]
        got, want = [pd.concat(got)] if len(got) else [], [ks]
    elif o["op"] in ("nids", "iter"):
        for a in ("start", "chunk"):
            if o[a] is not None:
                kw[dict(start="start", chunk="read_chunksize")[a]] = o[a]
        if o["progress"]:
            kw["print_progress"] = True
        ks = order[slice(o["start"], None)]
        want = [ks[i:i + o["n"]] for i in range(0, len(ks), o["n"])]
        if o["op"] == "nids":
            got, want = [sel.get_nids(o["n"], **kw)], want[:1]
        else:
            got = list(sel.get_nids_iter(o["n"], **kw))
    else:
        ks = order if o["ids"] is None else [order[i] for i in o["ids"]]
        nums = [num[k] for k in ks]
        if o["ids"] is not None:
            kw["where"] = f"{'ID' if key in MULTI else 'index'} in {nums}"
        if o["op"] == "select":
            got = [sel.select(**kw)]
        else:
            sid = False
            cfg, _, k0 = key.rpartition("/")
            got = [RT1_processor.get_data(dst, k0, cfg or None, **kw)]
        want = [ks]
    got = [rows_of(x, key, sid) for x in got]
    want = [expect(cc, key, w, sid, cols) for w in want]
    if o["op"] != "iter":
        need(len(got) == 1 or not any(want), lambda: f"{len(got)} frames")
    # (identifiers might not have any rows in a table)
    got, want = [x for x in got if x], [x for x in want if x]
    need(len(got) == len(want), lambda: f"{len(got)} instead of {len(want)} pieces\n{got}\n{want}")
    for a, b in zip(got, want):
        need(a == b, lambda: f"returned\n{a}\ninstead of\n{b}")


def run(cc, rec):
    from rt1._rtprocess_writer import RT1_processor
    from rt1.rtresults import HDFaccessor

    n = cc["n"]
    CUR.clear()
    CUR.update(case=cc, num={})
    with tempfile.TemporaryDirectory(dir=os.environ.get("RTV_SCRATCH")) as tmp:
        dst = Path(tmp) / "res.h5"
        with vproc.virtual(cc["seed"], 0.1) as vr:
            for part in (range(cc["cut"]), range(n)):
                if not len(part):
                    continue
                with RT1_processor.writer_pool(n_worker=cc["workers"], dst_path=dst, write_chunk_size=cc["chunk"],
                                               min_itemsize={"values": 9}) as w:
                    w.run_starmap(arg_list=[dict(ID=cc["ids"][k], k=k) for k in part], process_func=process,
                                  ID_getter=lambda a: name_of(a["ID"]))
            for p in vr.procs:
                need(p.exc is None, lambda: f"{p.name} failed with {p.exc!r}")
        back = {name_of(i): k for k, i in enumerate(cc["ids"])}
        h = None
        try:
            for j, o in enumerate(cc["ops"]):
                if h is not None and (h.set_ID != o["set_ID"] or o["op"] in ("index", "get_data")):
                    h.close()
                    h = None
                if h is None:
                    h = HDFaccessor(dst, set_ID=o["set_ID"])
                    need(len(h.IDs) == n and sorted(h.IDs.ID) == sorted(back), lambda: f"IDs {h.IDs}")
                    order = [back[i] for i in h.IDs.ID]
                    need([CUR["num"][k] for k in order] == list(h.IDs.index), lambda: f"IDs {h.IDs} instead of {CUR['num']}")
                    for key in cc["keys"]:
                        if key not in cc["rows"] or any(cc["rows"][key]):
                            x = h.datasets
                            for part in key.split("/"):
                                need(hasattr(x, part), lambda: f"no table {key!r}: {list(vars(h.datasets))}")
                                x = getattr(x, part)
                rec.tag("op-" + o["op"], "set_ID" if o["set_ID"] else "numeric")
                if o["key"] != "reader_arg" and not any(cc["rows"][o["key"]]):
                    continue
                rec.tag("multi-index" if o["key"] in MULTI else "index")
                if o["op"] != "index" and (list(h.IDs.index) != sorted(h.IDs.index) or len(set(cc["rows"]["dataset"])) > 1):
                    if len(o.get("ids") or []) < n and (o.get("n", 0) < n or o.get("start")) and n > 1:
                        rec.tag("nontrivial")
                if o["op"] in ("index", "get_data"):
                    h.close()
                try:
                    run_op(o, h, cc, dst, order)
                except Exception as e:
                    e.args = (f"[op {j}: {o}] {e.args[0] if e.args else ''}",) + tuple(e.args[1:])
                    raise
                if o["op"] in ("index", "get_data"):
                    h = None
        finally:
            if h is not None:
                h.close()


# ---------------------------------------------------------------------- iloc_level
@st.composite
def iloc_case(draw):
    nl = draw(st.integers(2, 3))
    sizes = [draw(st.integers(1, 4)) for _ in range(nl)]
    rows = draw(st.lists(st.tuples(*[st.integers(0, s - 1) for s in sizes]).map(list), min_size=1, max_size=8))
    idx = []
    for lev in range(draw(st.integers(1, nl))):
        m = len({r[lev] for r in rows})
        idx.append(draw(st.one_of(st.none(), st.integers(0, m - 1),
                                  st.lists(st.integers(0, m - 1), min_size=1, max_size=m, unique=True).map(sorted),
                                  st.tuples(st.integers(0, m - 1), st.integers(1, m)).map(lambda t: dict(sl=[min(t), max(t)])))))
    return dict(rows=sorted(rows), sizes=sizes, idx=idx, bare=draw(st.booleans()), unused=draw(st.booleans()))


def run_iloc(c, rec):
    from rt1.rtresults import iloc_level

    rows = c["rows"]
    full = rows + ([[0] * len(c["sizes"]), [s + 1 for s in c["sizes"]]] if c["unused"] else [])
    vals = [[10 * r[0]] + ["abcdefg"[i] for i in r[1:2]] + [pd.Timestamp(2020, 1, 1 + i) for i in r[2:]] for r in full]
    df = pd.DataFrame(dict(v=np.arange(len(full)) + .5), pd.MultiIndex.from_tuples(vals, names=["ID", "p", "d"][:len(c["sizes"])]))
    df = df.iloc[:len(rows)]
    idx = [slice(*i["sl"]) if isinstance(i, dict) else i for i in c["idx"]]
    keep = []
    for lev, i in enumerate(idx):
        u = sorted({r[lev] for r in rows})
        keep.append(set(u if i is None else u[i] if isinstance(i, slice) else [u[j] for j in i] if isinstance(i, list) else [u[i]]))
    want = [k for k, r in enumerate(rows) if all(r[lev] in s for lev, s in enumerate(keep))]
    if 0 < len(want) < len(rows):
        rec.tag("nontrivial")
    if c["bare"] and len(idx) == 1 and not isinstance(idx[0], list):
        idx = idx[0]
    try:
        got = iloc_level(df, idx)
    except KeyError:
        if want:
            raise
        rec.tag("no-match")
        return
    need(got.equals(df.iloc[want]), lambda: f"iloc_level({idx})\n{got}\ninstead of\n{df.iloc[want]}")


SUBS = [Sub("hdf", case, run, 240, 4000, shards=6, tshards=8), Sub("iloc", iloc_case, run_iloc, 400, 5000)]
