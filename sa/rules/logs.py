"""Log handlers which hand their records to a thread."""
from .lib import *

MOD = "aiomisc.log"
TARGET = ("obj", ("target",), "logging.Handler")
R1, R2, R3, R4 = [("obj", ("record", i), "logging.LogRecord")
                  for i in range(4)]
RUN = ("sym", "run", "callable")
FULL = ("exc", "queue.Full", True, "full")
EMPTY = ("exc", "queue.Empty", True, "empty")
FAIL = ("exc", "Exception", False, "target")
QUEUES = ("queue.Queue", "queue.SimpleQueue", "queue.LifoQueue",
          "queue.PriorityQueue")
SETTINGS = {k: ("sym", k, "int") for k in ("size", "interval", "level")}


class Handling(Plain):
    """Mon.log: what happened, in order; Mon.flags: set events; Mon.lock:
    depth of the handler's lock; Mon.i: next item for the thread."""
    exact_lists = True
    fresh_new = True
    max_depth = 14
    fold = 4
    full = ()               # numbers of the records that do not fit
    script = ()
    real = False            # the queue contains what was put into it
    fails = ()              # records the target fails to handle

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.target = None

    def initial(self):
        return Mon(log=(), flags=(), lock=0, i=0, thread=False, q=())

    def add(self, st, *x):
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def note(self, it, ev, st):
        if ev.kind in ("entered", "exit") and self.is_lock(it, ev.recv):
            return st.with_mon(st.mon.set(
                lock=st.mon.lock + (1 if ev.kind == "entered" else -1)))
        if ev.kind == "augattr" and ev.name == "threads":
            return self.add(st, "threads", ev.extra)
        if ev.kind == "attrset" and ev.name == "threads":
            return self.add(st, "threads", ev.value[1] if
                            ev.value[0] == "op" else "set")
        return st

    def is_lock(self, it, v):
        return v is not None and v[0] in ("attr", "obj") and (
            v[-1] == "lock" or it.typeof(v) in (
                "threading.RLock", "threading.Lock"))

    def left(self, st):
        return [x for x in self.script[st.mon.i:] if x != EMPTY]

    def on_call(self, it, ev, st):
        n, r, m = ev.name, ev.recv, st.mon
        if ev.kind != "call":
            return None
        if is_ext(ev, "threading.Thread"):
            self.target = (kwarg(ev, "target", 1), kwarg(
                ev, "args", 3, ("tuple", ())), kwarg(ev, "daemon", 5, None))
            return [("v", ("obj", ("thread",), "threading.Thread"), st)]
        if ev.callee == RUN:
            fv, args, _ = self.target
            s = st.with_mon(m.set(thread=True))
            return it.call_value(fv, list(it.exact_parts(args, s) or ()), s)
        if r is None:
            return None
        ty = it.typeof(r)
        if ty == "threading.Event":
            if n in ("set", "clear"):
                f = [x for x in m.flags if x != r]
                if n == "set":
                    f.append(r)
                return [("v", NONE, st.with_mon(m.set(flags=tuple(f))))]
            if n == "is_set" and not m.thread:
                return [("v", TRUE if r in m.flags else FALSE, st)]
            if self.real and n in ("is_set", "wait"):
                return [("v", TRUE if r in m.flags else FALSE, st)]
            if n in ("is_set", "wait"):
                return [("v", TRUE, st), ("v", FALSE, st)]
        if ty == "threading.Thread" and r == ("obj", ("thread",), ty):
            return [("v", NONE, self.add(st, "thread", n))]
        if ty in QUEUES or r[0] == "obj" and r[1] == ("queue",):
            return self.queue(it, ev, st)
        if r == TARGET:
            if n in ("handle", "emit"):
                s = self.add(st, n, ev.args[0], m.lock)
                if ev.args[0] in self.fails:
                    return [("raise", FAIL, s)]
                return [("v", TRUE, s)]
            return [("v", NONE, st)]
        if n in ("acquire", "release") and not isinstance(
                ev.extra, FuncInfo):
            return [("v", TRUE, st.with_mon(m.set(
                lock=m.lock + (1 if n == "acquire" else -1))))]
        if n == "handleError":
            return [("v", NONE, self.add(st, "error", *ev.args))]
        if n == "raiseExceptions":
            return None
        return None

    def queue(self, it, ev, st):
        n, m = ev.name, st.mon
        if n in ("put", "put_nowait"):
            block = n == "put" and kwarg(ev, "block", 1, TRUE) != FALSE and \
                kwarg(ev, "timeout", 2, NONE) == NONE
            x = ev.args[0] if ev.args else dict(ev.kw)["item"]
            if self.real:
                st = st.with_mon(m.set(q=m.q + (x,)))
            if x in self.full and not block:
                return [("raise", FULL, self.add(st, "full", x))]
            return [("v", NONE, self.add(
                st, "put", x, block, n == "put" and kwarg(
                    ev, "block", 1, TRUE) != FALSE))]
        if n in ("get", "get_nowait") and self.real and m.q:
            return [("v", m.q[0], st.with_mon(m.set(q=m.q[1:])))]
        if n in ("get", "get_nowait") and self.real:
            block = n == "get" and kwarg(ev, "block", 0, TRUE) != FALSE and \
                kwarg(ev, "timeout", 1, NONE) == NONE
            return [] if block else [("raise", EMPTY, st)]
        if n in ("empty", "qsize") and self.real:
            return [("v", const(len(m.q)) if n == "qsize" else
                     FALSE if m.q else TRUE, st)]
        if n in ("get", "get_nowait"):
            block = n == "get" and kwarg(ev, "block", 0, TRUE) != FALSE and \
                kwarg(ev, "timeout", 1, NONE) == NONE
            i = m.i
            while block and self.script[i:i + 1] == (EMPTY,):
                i += 1
            if i >= len(self.script):
                return []
            s = st.with_mon(m.set(i=i + 1))
            x = self.script[i]
            if m.lock:
                s = self.add(s, "locked")
            return [("raise" if x == EMPTY else "v", x, s)]
        if n == "empty":
            return [("v", FALSE if self.left(st) else TRUE, st)]
        if n == "qsize":
            return [("v", const(len(self.left(st))), st)]
        return None


def handler(ctx):
    RU = "log-handler"
    ctx.rule(RU, "a buffered handler never blocks and never raises; a record "
             "is queued once; an unbuffered handler drops nothing; the thread "
             "hands every record to the target once and in order, whatever "
             "the target raises, without holding the handler's lock, until "
             "it meets the end put by close(); closing twice and logging "
             "after closing raise nothing")
    c = ctx.p.cls(MOD + ".ThreadedHandler")
    bad = {}
    loc = c.find_method("emit").loc()
    tloc = c.loc() if not hasattr(c, "node") else loc

    def drive(body, **opt):
        buffered = opt.pop("buffered", TRUE)
        r = Handling(ctx)
        for k, v in opt.items():
            setattr(r, k, v)
        it, outs = harness(
            ctx, r, "def driver(cls, target, r1, r2, r3, size, interval, "
            "buffered, run):\n"
            "    h = cls(target=target, flush_interval=interval, "
            "buffered=buffered, queue_size=size)\n" + "".join(
                "    %s\n" % x for x in body),
            cls=("cls", c.cid), target=TARGET, r1=R1, r2=R2, r3=R3,
            buffered=buffered, run=RUN, **{
                k: SETTINGS[k] for k in ("size", "interval")})
        return r, outs

    seen = False
    for buffered in (TRUE, FALSE):
        for full in ((), (R1,), (R2,), (R1, R2), (NONE,)):
            r, outs = drive(
                ["h.start()", "h.emit(r1)", "h.emit(r2)", "h.close()",
                 "h.close()"], full=full, buffered=buffered)
            if not outs:
                bad["emit"] = "records are not taken"
            for k, v, st in outs:
                log = st.mon.log
                puts = [x for x in log if x[0] == "put"]
                seen = seen or bool(puts)
                if k != "v":
                    bad["emit"] = "emitting a record or closing twice raises"
                    continue
                for x in puts:
                    if x[1] != NONE and x[3] and buffered == TRUE:
                        bad["block"] = "logging blocks though the handler " \
                            "is buffered"
                got = [x[1] for x in puts]
                want = [x for x in (R1, R2)
                        if buffered == FALSE or x not in full]
                if [x for x in got if x != NONE] != want:
                    bad["emit"] = "a record is not queued once"
                if NONE in got and got.index(NONE) < len(want):
                    bad["emit"] = "the end is queued before the records"
                if got.count(NONE) > 1:
                    bad["close"] = "closing twice ends the queue twice"
                if ("thread", "start") not in log:
                    bad["start"] = "the thread is not started"
                if st.mon.lock:
                    bad["lock"] = "the handler's lock is kept"
    for body in (["h.start()", "h.close()", "h.emit(r1)"],):
        for buffered in (TRUE, FALSE):
            r, outs = drive(body, buffered=buffered)
            if not outs or any(k != "v" for k, v, st in outs):
                bad["after"] = "logging after closing raises"
    # the thread
    for fails in ((), (R2,), (R1, R2, R3)):
        for script in ((R1, R2, R3, NONE), (R1, EMPTY, R2, R3, NONE),
                       (EMPTY, EMPTY, R1, R2, EMPTY, R3, NONE),
                       (R1, R2, R3, EMPTY, NONE)):
            r, outs = drive(["h.start()", "run()"], script=script,
                            fails=fails)
            if r.target is None:
                bad["start"] = "there is no thread"
                break
            if not outs:
                bad["stop"] = "the thread does not end"
            for k, v, st in outs:
                log = st.mon.log
                hs = [x for x in log if x[0] in ("handle", "emit")]
                if k != "v":
                    bad["survive"] = "the thread dies when the target fails"
                if [x[1] for x in hs] != [R1, R2, R3]:
                    bad["order"] = "a record is lost, doubled or overtaken"
                if any(x[0] == "emit" for x in hs):
                    bad["handle"] = "the target's filters and lock are " \
                        "passed over"
                if ("locked",) in log or any(x[2] for x in hs):
                    bad["lock"] = "the thread holds the lock of the handler"
                th = [x[1] for x in log if x[0] == "threads"]
                if th.count("Add") != th.count("Sub"):
                    bad["count"] = "the number of threads stays wrong"
    # the thread ends when the handler is closed
    for body in ([], ["h.emit(r1)"], ["h.emit(r1)", "h.emit(r2)"],
                 ["h.emit(r1)", "h.flush()", "h.emit(r2)"]):
        r, outs = drive(["h.start()"] + body + ["h.close()", "run()"],
                        real=True)
        n = sum("emit" in x for x in body)
        if not outs:
            bad["stop"] = "the thread does not end when the handler is closed"
        for k, v, st in outs:
            if k != "v" or [x[1] for x in st.mon.log if x[0] in (
                    "handle", "emit")] != [R1, R2][:n]:
                bad["order"] = "a record emitted before closing is lost"
    if not seen:
        bad["emit"] = "no record reaches a queue"
    for x in ("emit", "block", "close", "after", "start", "stop", "survive",
              "order", "handle", "lock", "count"):
        ctx.require(RU, x, x not in bad, "log-handler:" + x, loc,
                    bad.get(x, ""))


H1 = ("obj", ("h1",), "logging.Handler")
H2 = ("obj", ("h2",), "logging.Handler")
HX = ("obj", ("hx",), "logging.Handler")
LOOP = ("obj", ("loop",), "asyncio.AbstractEventLoop")
FUT = ("obj", ("future",), "asyncio.Future")
LEVEL = ("obj", ("level",), "aiomisc_log.enum.LogLevel")
FMT = ("obj", ("format",), "aiomisc_log.enum.LogFormat")
WRAP = ("sym", "wrap", "callable")


def TH(target):
    return ("obj", ("thread-handler", target), "logging.Handler")


def WR(h):
    return ("obj", ("wrapped", h), "logging.Handler")


class Config(Plain):
    """basic_config(); Mon.log: what was set up, in order."""
    exact_lists = True
    fresh_new = True
    max_depth = 12
    made = HX

    def initial(self):
        return Mon(log=(), cbs=())

    def add(self, st, *x):
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def on_call(self, it, ev, st):
        n, r, m = ev.name, ev.recv, st.mon
        if ev.kind == "new" and ev.extra.name == "ThreadedHandler":
            a = dict(ev.kw)
            for k, x in zip(("target", "flush_interval", "buffered",
                             "queue_size"), ev.args):
                a[k] = x
            t = TH(a.get("target", NONE))
            return [("v", t, self.add(
                st, "wrap", tuple(sorted(a.items()))))]
        if ev.kind == "new" and "Hook" in ev.extra.name:
            return [("v", ("obj", ("hook", ev.extra.name), "user"), st)]
        if ev.kind != "call":
            return None
        if ev.callee == RUN:
            cur = [("v", NONE, st)]
            for cb in m.cbs:
                nxt = []
                for o in cur:
                    nxt += it.call_value(cb, [FUT], o[2]) \
                        if o[0] == "v" else [o]
                cur = nxt
            return cur
        if ev.callee == WRAP:
            return [("v", WR(ev.args[0]), st)]
        f = ev.extra if isinstance(ev.extra, FuncInfo) else None
        if f is not None and f.module.name == "aiomisc_log" and \
                f.name == "basic_config" and self.outer:
            a = dict(ev.kw)
            hs = it.exact_parts(a.get("handlers", NONE), st)
            return [("v", NONE, self.add(
                st, "config", a.get("level"), a.get("log_format"),
                tuple(hs) if hs is not None else None))]
        if f is not None and f.name == "create_logging_handler":
            return [("v", self.made, self.add(st, "create", *ev.args))]
        if is_ext(ev, "isinstance") and not self.named:
            return [("v", FALSE, st)]
        if n == "set" and r is not None and r[0] == "glob" and \
                r[2] == "LOG_LEVEL":
            return [("v", NONE, self.add(st, "kept", ev.args[0]))]
        if is_ext(ev, "logging.basicConfig"):
            a = dict(ev.kw)
            hs = it.exact_parts(a.get("handlers", NONE), st)
            return [("v", NONE, self.add(
                st, "logging", a.get("level"), tuple(hs) if hs is not None
                else None, a.get("force", FALSE)))]
        if is_ext(ev, "int") and (ev.args == [LEVEL] or self.named):
            return [("v", ev.args[0], st)]
        if is_ext(ev, "logging.getLogger"):
            return [("v", ("obj", ("root",), "user"), st)]
        if is_ext(ev, "asyncio.gather"):
            return [("v", FUT, st)]
        if r is None:
            return None
        if n == "create_future":
            return [("v", FUT, st)]
        if n == "add_done_callback":
            return [("v", NONE, st.with_mon(m.set(
                cbs=m.cbs + (ev.args[0],))))]
        if r == LOOP:
            return [("v", NONE, self.add(st, n, *ev.args))]
        if r[0] == "obj" and r[1][0] in ("thread-handler", "hook"):
            return [("v", NONE, self.add(st, n, r, *ev.args))]
        if n == "clear":
            return [("v", NONE, self.add(st, "clear"))]
        return None

    outer = True
    named = False           # level and format are given by name

    def note(self, it, ev, st):
        if ev.kind == "attrset" and ev.name == "excepthook":
            return self.add(st, "excepthook", ev.value)
        return st


def config(ctx):
    RU = "log-config"
    ctx.rule(RU, "basic_config() gives every handler a started thread of its "
             "own with the given settings, makes it the handler of the "
             "root logger and of unhandled exceptions, and closes all of "
             "them when the loop ends; former handlers of the root logger "
             "are removed")
    fn = ctx.p.func(MOD + ".basic_config")
    bad = {}
    for hs in ((H1, H2), (H1,), ()):
        r = Config(ctx)
        it, outs = harness(
            ctx, r, "def driver(fn, loop, level, fmt, size, interval, hs, "
            "run):\n"
            "    fn(level=level, log_format=fmt, buffered=False, "
            "buffer_size=size, flush_interval=interval, loop=loop, "
            "handlers=hs)\n    run()\n",
            fn=("func", fn.fid, None), loop=LOOP, level=LEVEL, fmt=FMT,
            hs=("tuple", hs), run=RUN, size=SETTINGS["size"],
            interval=SETTINGS["interval"])
        if not outs:
            bad["run"] = "logging is not set up"
        for k, v, st in outs:
            log = st.mon.log
            if k != "v":
                bad["run"] = "setting logging up raises"
            w = [dict(x[1]) for x in log if x[0] == "wrap"]
            if [x.get("target") for x in w] != list(hs):
                bad["wrap"] = "a handler does not have a thread of its own"
            for x in w:
                if x.get("buffered") != FALSE or x.get("queue_size") != \
                        SETTINGS["size"] or x.get("flush_interval") != \
                        SETTINGS["interval"]:
                    bad["settings"] = "the settings do not reach a handler"
            cfg = [x for x in log if x[0] == "config"]
            if len(cfg) != 1 or cfg[0][1] != LEVEL or cfg[0][2] != FMT:
                bad["settings"] = "level or format are lost"
            elif cfg[0][3] is not None and \
                    cfg[0][3] != tuple(TH(h) for h in hs):
                bad["root"] = "the root logger does not get the handlers"
            hooks = [x for x in log if x[0] == "set_exception_handler"]
            if not hooks:
                bad["hook"] = "unhandled exceptions of the loop are not " \
                    "logged"
            for h in hs:
                st_ = [i for i, x in enumerate(log)
                       if x == ("start", TH(h))]
                if len(st_) != 1:
                    bad["start"] = "a thread is not started once"
                if ("close", TH(h)) not in log:
                    bad["close"] = "a handler is not closed with the loop"
                if hooks and ("add_handler", hooks[0][1], TH(h)) not in log:
                    bad["hook"] = "the unhandled exceptions of the loop do " \
                        "not reach a handler"
    fn2 = ctx.p.func("aiomisc_log.basic_config")
    for made in (HX, NONE):
        for hs in ((H1, H2), ()):
            r = Config(ctx)
            r.made, r.outer = made, False
            it, outs = harness(
                ctx, r, "def driver(fn, level, fmt, wrap, hs):\n"
                "    fn(level=level, log_format=fmt, handler_wrapper=wrap, "
                "handlers=hs)\n", fn=("func", fn2.fid, None), level=LEVEL,
                fmt=FMT, wrap=WRAP, hs=("tuple", hs))
            want = tuple(WR(h) for h in (made,) + hs if h != NONE)
            if not outs:
                bad["run"] = "logging is not set up"
            for k, v, st in outs:
                log = st.mon.log
                if k != "v":
                    bad["run"] = "setting logging up raises"
                    continue
                cfg = [i for i, x in enumerate(log) if x[0] == "logging"
                       and x[2] != ()] or [
                    i for i, x in enumerate(log) if x[0] == "logging"]
                if not cfg or log[cfg[-1]][2] not in (want, None) or \
                        log[cfg[-1]][1] != LEVEL:
                    bad["root"] = "the root logger does not get level and " \
                        "handlers"
                elif ("clear",) not in log[:cfg[-1]] and \
                        log[cfg[-1]][3] != TRUE:
                    bad["former"] = "former handlers stay"
                if [x[1] for x in log if x[0] == "kept"][-1:] != [LEVEL]:
                    bad["kept"] = "the level is not kept for processes"
                eh = [x[1] for x in log if x[0] == "excepthook"]
                if not eh:
                    bad["hook"] = "unhandled exceptions of the interpreter " \
                        "are not logged"
                elif [h for h in want
                      if ("add_handler", eh[-1], h) not in log]:
                    bad["hook"] = "unhandled exceptions do not reach a " \
                        "handler"
                hk = [x[2] for x in log if x[0] == "add_handler"]
                if [h for h in want if h not in hk]:
                    bad["hook"] = "unhandled exceptions do not reach a " \
                        "handler"
    enum = {c.name: c for c in ctx.p.classes.values()}
    r = Config(ctx)
    r.made, r.outer, r.named = HX, False, True
    it, outs = harness(
        ctx, r, "def driver(fn):\n"
        "    fn(level='error', log_format='json')\n",
        fn=("func", fn2.fid, None))
    for k, v, st in outs:
        for x in st.mon.log:
            for i, e, n in ((1, "LogLevel", "error"),
                            (1, "LogFormat", "json")):
                if x[0] == ("logging" if e == "LogLevel" else "create") \
                        and len(x) > 1 and x[i] is not None and \
                        x[i][0] == "const" and e in enum and x[i] != (
                            "const", "enum:" + enum[e].cid, n) and \
                        "NOTSET" not in str(x[i]) and not (
                            x[0] == "logging" and x[2] == ()):
                    bad["settings"] = "the name of a level or format is " \
                        "not respected"
    for x in ("run", "wrap", "settings", "root", "former", "hook", "start",
              "close", "kept"):
        ctx.require(RU, x, x not in bad, "log-config:" + x,
                    fn2.loc() if x == "former" else fn.loc(),
                    bad.get(x, ""))
