"""P26: log messages reach exactly the configured outputs"""
import io
import logging
import multiprocessing as mp
import re
import shutil
import tempfile
import time
import warnings
from pathlib import Path

from hypothesis import strategies as st

from ..core import Sub, need

RULE = ("history: start / stop / re-level of named log-files and the console mixed with messages of all levels (several lines, "
        "arguments, tracebacks). processes: several processes that send messages to the log of a processing-run. "
        "Non-trivial: at least two messages and at least one output that does not contain all messages, resp. at least two processes.")
ASSUMPTIONS = ["the text of a message is compared after removal of trailing blanks of the lines (continuation-lines are indented)",
               "the log-file of a processing run is written by a single listener-process; processes are real (forked) processes"]
LEVELS = [10, 20, 21, 30, 40, 50]
NAMES = {10: "DEBUG", 20: "INFO", 21: "PROG.", 30: "WARNING", 40: "ERROR", 50: "CRITICAL"}
CALL = {10: "debug", 20: "info", 21: "progress", 30: "warning", 40: "error", 50: "critical"}
HEAD = re.compile(r"^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d - .*?(DEBUG   |INFO    |PROG\.   |WARNING |ERROR   |CRITICAL)(.*)$")
TOKEN = re.compile(r"<<(\d+(?:\.\d+)?)>>")
ANSI = re.compile(r"\x1b\[[0-9;]*m")

text = st.one_of(st.sampled_from(["", "abc", "two\nlines", "a\n\n  indented\nend", "100 % {x}", "ä€", "2020-01-01 00:00:00 - x DEBUG y", "one\n2020-01-01 00:00:00 - x DEBUG y"]),
                 st.text("ab \n%{", max_size=12))


def records(txt):
    """[(level-name, [lines])] of a log"""
    out = []
    for line in txt.split("\n"):
        m = HEAD.match(line)
        if m:
            out.append((m.group(1).strip(), [m.group(2).rstrip()]))
        elif out:
            out[-1][1].append(line)
    return out


def parsed(txt):
    """[(token, level-name, message)] of the messages of the check"""
    out = []
    for lev, lines in records(txt):
        m = TOKEN.search(lines[0])
        if m:
            rest = [ln[51:] if ln.startswith(" " * 51) else ln for ln in lines[1:]]
            msg = "\n".join(x.rstrip() for x in [lines[0]] + rest).rstrip()
            out.append((m.group(1), lev, msg))
        else:
            need(not any(TOKEN.search(ln) for ln in lines[1:]), lambda: f"merged messages: {lines}")
    return out


def clean(msg):
    return "\n".join(x.rstrip() for x in msg.split("\n")).rstrip()


@st.composite
def case(draw):
    name = st.sampled_from([None, None, "second", "x"])
    lev = st.sampled_from(LEVELS)
    op = st.one_of(
        st.tuples(st.just("start"), st.integers(0, 2), name, st.one_of(st.none(), lev)),
        st.tuples(st.just("stop"), name),
        st.tuples(st.just("level"), st.one_of(name, st.just("rt1_consolehandler")), st.one_of(lev, st.sampled_from(["INFO", "ERROR"]))),
        st.tuples(st.just("log"), lev, text, st.integers(0, 3)),
        st.tuples(st.just("log"), lev, text, st.integers(0, 3)))
    return dict(ops=[list(o) for o in draw(st.lists(op, min_size=3, max_size=14))])


class isolated:
    """undo all changes of the logging-configuration"""

    def __enter__(self):
        import rt1

        self.log = rt1.log
        self.state = self.log.level, list(self.log.handlers), [(h, h.level) for h in self.log.handlers], logging.root.manager.disable
        logging.disable(logging.NOTSET)
        self.tmp = Path(tempfile.mkdtemp())
        return self

    def __exit__(self, *a):
        lev, handlers, levels, disable = self.state
        for h in list(self.log.handlers):
            if h not in handlers:
                self.log.removeHandler(h)
                h.close()
        for h in handlers:
            if h not in self.log.handlers:
                self.log.addHandler(h)
        for h, v in levels:
            h.setLevel(v)
        self.log.setLevel(lev)
        logging.disable(disable)
        shutil.rmtree(self.tmp, ignore_errors=True)


def history(c, rec):
    import rt1

    with isolated() as iso:
        con = [h for h in iso.log.handlers if h.name == "rt1_consolehandler"]
        need(len(con) == 1, "one console-handler is required")
        con, stream = con[0], con[0].stream
        con.stream = io.StringIO()
        try:
            active = {}  # name: [file, level]
            want = {k: [] for k in range(3)}
            cwant, clev, n = [], con.level, 0
            for o in c["ops"]:
                rec.tag(o[0])
                if o[0] in ("start", "stop", "level"):
                    name = o[2] if o[0] == "start" else o[1]
                    kw = {} if name is None else dict(name=name)
                    key = name or "rt1_filehandler"
                if o[0] == "start":
                    rt1.start_log_to_file(iso.tmp / f"f{o[1]}.log", **kw, **({} if o[3] is None else dict(level=o[3])))
                    active.pop(key, None)
                    active[key] = [o[1], 10 if o[3] is None else o[3]]
                elif o[0] == "stop":
                    rt1.stop_log_to_file(**kw)
                    active.pop(key, None)
                elif o[0] == "level":
                    num = dict(INFO=20, ERROR=40).get(o[2], o[2])
                    if name is None:
                        # (the default is the console)
                        rt1.set_log_handler_level(o[2])
                        clev = num
                    elif name == "rt1_consolehandler":
                        rt1.set_log_handler_level(o[2], name=name)
                        clev = num
                    elif key in active:
                        rt1.set_log_handler_level(o[2], key)
                        active[key][1] = num
                else:
                    n += 1
                    msg, lev, style = f"<<{n}>>{o[2]}", o[1], o[3]
                    fn = getattr(rt1.log, CALL[lev])
                    if style == 1:
                        fn("%s" + " %d%%", msg, n)
                        msg = f"{msg} {n}%"
                    elif style == 2:
                        rt1.log.log(lev, msg)
                    elif style == 3:
                        try:
                            raise ValueError("problem")
                        except ValueError:
                            rt1.log.exception(msg)
                        lev = 40
                    else:
                        fn(msg)
                    e = (str(n), NAMES[lev], clean(msg), style == 3)
                    for f, v in active.values():
                        if lev >= v:
                            want[f].append(e)
                    if lev >= clev:
                        cwant.append(e)
                    if any(lev < v for _, v in active.values()) or lev < clev:
                        rec.tag("filtered")
                    if len(active) > 1:
                        rec.tag("several-files")
            for f, w in want.items():
                p = iso.tmp / f"f{f}.log"
                got = parsed(p.read_text()) if p.exists() else []
                compare(got, w, f"file {f}")
            compare(parsed(ANSI.sub("", con.stream.getvalue())), cwant, "console")
            if n > 1 and {"filtered"} & set(rec.tags):
                rec.tag("nontrivial")
        finally:
            con.stream = stream


def compare(got, want, what):
    need([g[:2] for g in got] == [w[:2] for w in want], lambda: f"{what}: messages {[g[:2] for g in got]} instead of {[w[:2] for w in want]}")
    for g, w in zip(got, want):
        if w[3]:
            need(g[2].startswith(w[2]) and "ValueError: problem" in g[2][len(w[2]):], lambda: f"{what}: {g[2]!r} instead of {w[2]!r} + traceback")
        else:
            need(g[2] == w[2], lambda: f"{what}: {g[2]!r} instead of {w[2]!r}")


# ------------------------------------------------------------------- processes
@st.composite
def proc_case(draw):
    m = st.one_of(st.tuples(st.sampled_from(LEVELS), text), st.tuples(st.sampled_from(LEVELS), text), st.tuples(st.just("warn"), st.just("")))
    return dict(level=draw(st.sampled_from(LEVELS)), workers=[[list(x) for x in draw(st.lists(m, min_size=1, max_size=5))]
                                                              for _ in range(draw(st.integers(1, 4)))], main=draw(st.booleans()))


def worker(i, queue, level, msgs, barrier):
    from rt1 import log
    from rt1.rtprocess import RTprocess

    logging.disable(logging.NOTSET)
    RTprocess._worker_configurer(queue, level)
    warnings.resetwarnings()
    warnings.simplefilter("always")
    try:
        barrier.wait(10)
    except Exception:
        pass
    for k, (lev, txt) in enumerate(msgs):
        if lev == "warn":
            warnings.warn(f"<<{i}.{k}>>")
        else:
            getattr(log, CALL[lev])(f"<<{i}.{k}>>" + txt)


def processes(c, rec):
    from rt1.rtprocess import RTprocess

    ctx = mp.get_context("fork")
    W = c["workers"]
    with isolated() as iso:
        (iso.tmp / "cfg").mkdir()
        queue, barrier = ctx.Queue(), ctx.Barrier(len(W))
        listener = ctx.Process(target=RTprocess._listener_process, args=[queue, iso.tmp, c["level"]])
        procs = [ctx.Process(target=worker, args=(i, queue, c["level"], m, barrier)) for i, m in enumerate(W)]
        try:
            for p in [listener] + procs:
                p.start()
            for p in procs:
                p.join(60)
                need(p.exitcode == 0, lambda: f"a worker failed ({p.exitcode})")
            queue.put(None)
            listener.join(60)
            need(listener.exitcode == 0, lambda: f"the listener-process did not stop ({listener.exitcode})")
        finally:
            for p in [listener] + procs:
                if p.is_alive():
                    p.kill()
                    p.join()
        files = list((iso.tmp / "cfg").glob("*"))
        need(len(files) == 1 and re.match(r"RT1_process\([\d_]+\)\.log$", files[0].name), lambda: f"log-files: {files}")
        txt = files[0].read_text()
    got = parsed("\n".join(re.sub(r"^(.*WARNING )\S*:\d+: UserWarning: ", r"\1", ln) for ln in txt.split("\n")))
    for i, msgs in enumerate(W):
        want = []
        for k, (lev, t) in enumerate(msgs):
            num = 30 if lev == "warn" else lev
            if num >= c["level"]:
                want.append((f"{i}.{k}", NAMES[num], clean(f"<<{i}.{k}>>{t}"), lev == "warn"))
        mine = [g for g in got if g[0].startswith(f"{i}.")]
        need([g[:2] for g in mine] == [w[:2] for w in want], lambda: f"messages of process {i}: {[g[:2] for g in mine]} instead of {[w[:2] for w in want]}\n{txt}")
        for g, w in zip(mine, want):
            need(g[2] == w[2] or w[3] and g[2].startswith(w[2]), lambda: f"process {i}: {g[2]!r} instead of {w[2]!r}")
        if len(want) < len(msgs):
            rec.tag("filtered")
    need(all(int(g[0].split(".")[0]) < len(W) for g in got), "unknown messages")
    if len(W) > 1:
        rec.tag("nontrivial")


SUBS = [Sub("history", case, history, 1200, 15000, shards=4, tshards=8),
        Sub("processes", proc_case, processes, 60, 800, shards=4, tshards=8)]
