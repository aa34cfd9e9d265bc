"""Records and errors which must reach the log whatever they carry."""
from .lib import *
from .logs import MOD

LEVELNO = ("obj", ("levelno",), "int")
RECORD = ("obj", ("record",), "logging.LogRecord")
DUMPED = ("obj", ("dumped",), "label")
EXC_INFO = ("obj", ("exc_info",), "label")
LINE = ("obj", ("line",), "label")
DUMPS = ("sym", "dumps", "callable")
TEXT = ("obj", ("text",), "label")
STACK = ("obj", ("stack",), "label")
TIME = ("obj", ("time",), "label")
DATE = const("%H of %d")


class Format(Plain):
    exact_lists = True
    fresh_new = True
    max_depth = 10
    exc = EXC_INFO
    date = DATE

    def initial(self):
        return Mon(dumped=())

    def on_attr(self, it, base, name, st):
        if base == RECORD:
            return {"levelno": LEVELNO, "exc_info": self.exc}.get(name)
        if base[0] == "obj" and base[1] == ("formatter",):
            return {"datefmt": self.date, "dumps": DUMPS}.get(name)
        return None

    def has_key(self, it, coll, key, st):
        return False if key == LEVELNO else None

    def on_truth(self, it, v, st):
        if v[0] == "q" and "in" in str(v[1]) and mentions(v, LEVELNO):
            return False
        return None

    def on_call(self, it, ev, st):
        n, r = ev.name, ev.recv
        if ev.kind == "getitem" and LEVELNO in ev.args:
            return [("raise", ("exc", "KeyError", True, "level"), st)]
        if ev.kind != "call":
            return None
        if ev.callee == DUMPS:
            p = it.exact_dict(ev.args[0], st)
            return [("v", LINE, st.with_mon(st.mon.set(
                dumped=st.mon.dumped + (None if p is None else tuple(
                    sorted(p.items(), key=str)),))))]
        if r == RECORD and n == "getMessage":
            return [("v", TEXT, st)]
        f = ev.extra if isinstance(ev.extra, FuncInfo) else None
        name = f.name if f is not None else (n or "").rpartition(".")[2]
        if name == "formatException" or "format_exc" in name:
            return [("v", STACK, st)]
        if name == "formatTime" or name == "strftime":
            return [("v", TIME, st)]
        if is_ext(ev, "isinstance"):
            return [("v", TRUE, st)]
        return None


FUT = ("obj", ("future",), "asyncio.Future")
TASK = ("obj", ("task",), "asyncio.Task")
ERR = ("exc", "Exception", False, "user")
LOOP = ("obj", ("loop",), "asyncio.AbstractEventLoop")
LOGGER = ("obj", ("logger",), "logging.Logger")
CONTEXT = ("obj", ("context",), "dict")
THINGS = {x: ("obj", (x,), "label") for x in (
    "handle", "protocol", "transport", "socket", "message", "other",
    "source_traceback")}


class Hook(Plain):
    """state: of the future or task: pending, cancelled, failed."""
    exact_lists = True
    fresh_new = True
    max_depth = 10
    state = None
    log_calls = True

    def initial(self):
        return Mon(log=())

    def on_attr(self, it, base, name, st):
        if name == "logger" and base[0] == "obj" and base[1] == ("hook",):
            return LOGGER
        return None

    def on_call(self, it, ev, st):
        n, r = ev.name, ev.recv
        if ev.kind != "call":
            return None
        if r in (FUT, TASK):
            s = self.state
            if n == "done":
                return [("v", const(s != "pending"), st)]
            if n == "cancelled":
                return [("v", const(s == "cancelled"), st)]
            if n in ("exception", "result"):
                if s == "pending":
                    return [("raise", (
                        "exc", "asyncio.InvalidStateError", True, "p"), st)]
                if s == "cancelled":
                    return [("raise", ("exc", CANCELLED, True, "c"), st)]
                return [("v", ERR, st)] if n == "exception" else [
                    ("raise", ERR, st)]
        if r == LOGGER and n in ("error", "exception", "critical", "log",
                                 "warning"):
            k = {x: y for x, y in ev.kw.items()}
            extra = k.get("extra")
            d = it.exact_dict(extra, st) if extra is not None else {}
            return [("v", NONE, st.with_mon(st.mon.set(log=st.mon.log + ((
                n, tuple(ev.args), k.get("exc_info"),
                None if d is None else tuple(sorted(
                    (str(x[-1]) for x in d)))),))))]
        if is_ext(ev, "traceback.format_list"):
            return [("v", ("tuple", (STACK,)), st)]
        if r == THINGS["transport"] and n == "get_extra_info":
            return [("v", NONE, st)]
        return None


def drive(ctx, r, src, heap=None, **env):
    it = Interp(ctx.p, r)
    outs = it.harness(src, st=State(heap or {}, r.initial()), **env)
    ctx.absorb(it)
    return outs


STREAM = ("obj", ("stream",), "label")
KINDS = {           # handler, formatter
    "stream": ("logging.StreamHandler", "logging.Formatter"),
    "color": ("logging.StreamHandler", "colorlog.ColoredFormatter"),
    "json": ("logging.StreamHandler", "JSONLogFormatter"),
    "syslog": ("logging.handlers.SysLogHandler", "logging.Formatter"),
    "plain": ("logging.StreamHandler", "logging.Formatter"),
    "journald": ("logging_journald.JournaldLogHandler", "logging.Formatter"),
    "rich": ("rich.logging.RichHandler", "logging.Formatter"),
    "rich_tb": ("rich.logging.RichHandler", "logging.Formatter")}


class Create(Plain):
    """Mon.made: (handler or formatter, its arguments); Mon.set: formatter
    of every handler; Mon.file: what the console of rich writes to"""
    exact_lists = True
    fresh_new = True
    strings = True
    log_calls = True
    max_depth = 8

    def initial(self):
        return Mon(made=(), fmts=(), file=None, kept=())

    def on_call(self, it, ev, st):
        m = st.mon
        name = ev.name or ""
        if ev.kind == "new" and ev.extra is not None and getattr(
                ev.extra, "name", "") == "JSONLogFormatter":
            ob, st = it.alloc(("obj", ("json",), "JSONLogFormatter"), st)
            return [("v", ob, st.with_mon(m.set(made=m.made + ((
                ob, tuple(ev.args), tuple(sorted(ev.kw.items()))),))))]
        if ev.kind != "call":
            return None
        if ev.extra == "ext" and any(name in x for x in KINDS.values()):
            ob, st = it.alloc(("obj", (name,), name), st)
            return [("v", ob, st.with_mon(m.set(made=m.made + ((
                ob, tuple(ev.args), tuple(sorted(ev.kw.items()))),))))]
        if name == "setFormatter" and ev.recv is not None:
            return [("v", NONE, st.with_mon(m.set(
                fmts=m.fmts + ((ev.recv, ev.args[0]),))))]
        if name == "rich.reconfigure":
            return [("v", NONE, st.with_mon(m.set(
                file=dict(ev.kw).get("file", NONE))))]
        if name == "set" and ev.recv is not None and ev.recv[0] == "glob":
            return [("v", NONE, st.with_mon(m.set(
                kept=m.kept + (ev.args[0],))))]
        return None


def handlers(ctx, bad):
    fn = ctx.p.func("aiomisc_log.create_logging_handler")
    enum = [c for c in ctx.p.classes.values() if c.name == "LogFormat"]
    if not enum:
        raise AnalysisBroken("the formats of logs are not found")
    for name in enum[0].attrs:
        if name not in KINDS and name != "disabled":
            continue
        for date in (DATE, NONE):
            outs = drive(
                ctx, Create(ctx), "def driver(f, L, d, s):\n"
                "    return f(L.%s, d, stream=s)\n" % name,
                f=("func", fn.fid, None), L=("cls", enum[0].cid), d=date,
                s=STREAM)
            good = [o for o in outs if o[0] == "v"]
            if not good or any(
                    o[0] != "v" and name != "journald" for o in outs):
                bad["kind"] = "there is no handler for %s" % name
            for k, v, st in good:
                m = st.mon
                if name == "disabled":
                    if v != NONE:
                        bad["kind"] = "a disabled log has a handler"
                    continue
                kind, fmt = KINDS[name]
                made = {x: (a, dict(kw)) for x, a, kw in m.made}
                fs = [f for h, f in m.fmts if h == v]
                if unknown(v) or v not in made and it_is(v):
                    continue
                if v[-1] != kind or len(fs) != 1 or fs[0][-1] != fmt:
                    bad["kind"] = "%s has a handler of another kind" % name
                    continue
                if m.kept and m.kept[-1] != const_of(enum[0], name):
                    bad["kept"] = "another format is remembered for the " \
                        "worker processes"
                a, kw = made[v]
                fa, fkw = made.get(fs[0], ((), {}))
                if name in ("json", "color") and STREAM not in \
                        a + tuple(kw.values()):
                    bad["stream"] = "%s does not write to its stream" % name
                if name in ("rich", "rich_tb"):
                    if m.file != STREAM and "console" not in kw:
                        bad["stream"] = "%s does not write to its stream" \
                            % name
                    if kw.get("rich_tracebacks", FALSE) != const(
                            name == "rich_tb"):
                        bad["kind"] = "%s has other tracebacks" % name
                    if date == DATE and kw.get("log_time_format") != DATE:
                        bad["date"] = "%s loses the date format" % name
                if name in ("json", "color", "stream") and date == DATE \
                        and DATE not in fa + tuple(fkw.values()):
                    bad["date"] = "%s loses the date format" % name
                if name == "json" and date == NONE and not all(
                        x == NONE for x in fa[1:2] + tuple(
                            y for z, y in fkw.items() if z == "datefmt")):
                    bad["date"] = "json has a date nobody asked for"
                text = str([const_value(x, "") for x in
                            fa + tuple(fkw.values())])
                if name != "json" and all(
                        x[0] == "const" for x in fa[:1]) and \
                        "%(message)s" not in text:
                    bad["kind"] = "%s does not show the message" % name
    return fn


def it_is(v):
    return v[0] != "obj"


def const_of(enum, name):
    return ("const", "enum:" + enum.cid, name)


class Once(Plain):
    exact_lists = True
    fresh_new = True
    log_calls = True
    max_depth = 8

    def initial(self):
        return Mon(off=(), cleared=())

    def note(self, it, ev, st):
        if ev.kind == "attrset" and ev.name == "propagate":
            return st.with_mon(st.mon.set(off=st.mon.off + ((
                ev.recv, ev.value),)))
        return st

    def on_call(self, it, ev, st):
        if ev.kind != "call":
            return None
        if (ev.name or "").rpartition(".")[2] in ("getLogger", "getChild"):
            return [("v", LOGGER, st)]
        if ev.name == "clear" and ev.recv is not None and mentions(
                ev.recv, LOGGER):
            return [("v", NONE, st.with_mon(st.mon.set(cleared=(ev.recv,))))]
        return None


def hooks(ctx, bad):
    """A logger of unhandled errors does not pass them to the root logger,
    whose handlers it shares."""
    for cid in (MOD + ".UnhandledLoopHook",
                "aiomisc_log.UnhandledPythonHook"):
        outs = drive(ctx, Once(ctx), "def driver(C):\n    return C()\n",
                     C=("cls", ctx.p.cls(cid).cid))
        for k, v, st in outs:
            if k != "v":
                continue
            if not any(r == LOGGER and x == FALSE for r, x in st.mon.off):
                bad["once"] = "unhandled errors are logged twice"
            if not st.mon.cleared and st.get((
                    "H", LOGGER, "handlers")) is None:
                bad["once"] = "setting logging up again makes unhandled " \
                    "errors be logged twice"


def formats(ctx):
    RU = "log-format"
    ctx.rule(RU, "the JSON formatter makes one line with message, level, "
             "time and stack trace of every record, whatever its level; the "
             "hook of the loop logs each unhandled error once, with its "
             "exception, its message and its context, whatever the context "
             "contains")
    bad = {}
    cls = [c for c in ctx.p.classes.values() if c.name == "JSONLogFormatter"]
    if not cls:
        raise AnalysisBroken("the JSON formatter is not found")
    fm = cls[0].find_method("format")
    for exc in (EXC_INFO, NONE):
        for date in (DATE, NONE):
            r = Format(ctx)
            r.exc, r.date = exc, date
            outs = drive(ctx, r, "def driver(f, m, rec):\n    return f(m, rec)\n",
                         f=("func", fm.fid, None), rec=RECORD,
                         m=("obj", ("formatter",), cls[0].cid))
            if not any(k == "v" for k, v, s in outs):
                bad["line"] = "no record is formatted"
            for k, v, st in outs:
                if k == "raise" and v[-1] == "level":
                    bad["level"] = "a record of a custom level is lost"
                if k != "v":
                    continue
                d = st.mon.dumped
                if len(d) != 1 or v != LINE:
                    bad["line"] = "a record does not become one line"
                    continue
                if d[0] is None:
                    continue
                p = {x[-1]: y for x, y in d[0]}
                if p.get("msg") != TEXT:
                    bad["line"] = "the message is not in the line"
                if (exc != NONE) != (p.get("stackTrace") == STACK):
                    bad["stack"] = "the stack trace is not in the line" \
                        if exc != NONE else "there is a stack trace " \
                        "without an exception"
                if (date != NONE) != ("@timestamp" in p):
                    bad["time"] = "the time is not in the line as asked"
                if "level" not in p or "@fields" not in p:
                    bad["line"] = "level or fields are lost"
    hk = ctx.p.cls(MOD + ".UnhandledLoopHook")
    call = hk.find_method("__call__")
    full = dict(THINGS)
    for have, state in (
            (("exception",), None), (("exception", "future"), "failed"),
            (("exception", "task"), "pending"),
            (("future",), "failed"), (("future",), "pending"),
            (("future",), "cancelled"), (("task",), "failed"),
            (("task",), "pending"), (("task",), "cancelled"), ((), None)):
        for rest in ((), tuple(sorted(THINGS))):
            r = Hook(ctx)
            r.state = state
            d = {const(x): {"exception": ERR, "future": FUT,
                            "task": TASK}[x] for x in have}
            d.update({const(x): THINGS[x] for x in rest})
            outs = drive(
                ctx, r, "def driver(f, h, loop, c):\n    f(h, loop, c)\n",
                heap={("H", CONTEXT, "$dict"): tuple(d.items())},
                f=("func", call.fid, None), h=("obj", ("hook",), hk.cid),
                loop=LOOP, c=CONTEXT)
            what = "the context has %s%s" % (
                " and ".join(have) or "no exception",
                " (%s)" % state if state else "")
            if not any(k == "v" for k, v, s in outs):
                bad["hook"] = "the hook fails when " + what
            for k, v, st in outs:
                if k != "v":
                    if v[0] == "exc" and (v[-1] in ("p", "c") or v == ERR):
                        bad["hook"] = "the hook fails when " + what
                    continue
                log = st.mon.log
                if not log:
                    bad["hook"] = "an error is not logged when " + what
                    continue
                name, args, ei, extra = log[0]
                want = ERR if "exception" in have or state == "failed" \
                    else NONE
                if ei is None and name == "exception" and want == ERR or (
                        ei is not None and not unknown(ei) and (
                            ei == ERR) != (want == ERR)):
                    bad["exception"] = "the exception is not logged when " \
                        + what
                if rest and args[-1:] != (THINGS["message"],):
                    bad["message"] = "the message of the error is lost"
                if rest and extra is not None:
                    if not set(extra) >= {"handle", "protocol", "other"}:
                        bad["context"] = "the context is not logged"
                    if "message" in extra:
                        bad["hook"] = "the hook fails on a message"
                if rest and not any(mentions(x, STACK) for x in log[1:]) \
                        and len(log) < 2:
                    bad["context"] = "the place of the source is not logged"
    py = ctx.p.cls("aiomisc_log.UnhandledPythonHook").find_method("__call__")
    r = Hook(ctx)
    parts = [("obj", (x,), "label") for x in ("type", "value", "tb")]
    outs = drive(ctx, r, "def driver(f, h, a, b, c):\n    f(h, a, b, c)\n",
                 f=("func", py.fid, None), h=("obj", ("hook",), hk.cid),
                 **dict(zip("abc", parts)))
    for k, v, st in outs:
        log = st.mon.log
        if k != "v" or len(log) != 1 or log[0][2] is None or not unknown(
                log[0][2]) and log[0][2] not in (
                    ("tuple", tuple(parts)), parts[1]):
            bad["python"] = "an exception of the interpreter is not logged " \
                "with its traceback"
    hooks(ctx, bad)
    fn = handlers(ctx, bad)
    for x, f in (("kind", fn), ("stream", fn), ("date", fn), ("kept", fn),
                 ("line", fm), ("level", fm), ("stack", fm), ("time", fm),
                 ("python", py), ("once", py),
                 ("hook", call), ("exception", call), ("message", call),
                 ("context", call)):
        ctx.require(RU, x, x not in bad, "log-format:" + x, f.loc(),
                    bad.get(x, ""))
