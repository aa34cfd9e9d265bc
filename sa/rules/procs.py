"""Services in processes and the process pool."""
from .lib import *

MOD = "aiomisc.service.process"
LOOP = ("obj", ("loop",), "asyncio.AbstractEventLoop")
RUN = ("sym", "run", "callable")
TICK = ("sym", "tick", "callable")
POLL = ("obj", ("poll",), "int")
GRACE = ("obj", ("grace",), "int")
INTERRUPT = ("exc", "KeyboardInterrupt", True, "interrupt")
FAIL = ("exc", "Exception", False, "failed")
PARAM = ("obj", ("param",), "user")
NO = ("sym", "no-process", "bool")


def PROC(i):
    return ("obj", ("proc", i), "multiprocessing.Process")


LEVEL = ("obj", ("level",), "label")


def EVENT(i):
    return ("obj", ("event", i), "multiprocessing.Event")


class Service(Plain):
    """Mon.log: what was done, in order; Mon.n: processes; Mon.e: events;
    Mon.thread: in a thread; Mon.dead: processes known to have exited."""
    exact_lists = True
    fresh_new = True
    gather_aw = True
    max_depth = 16
    fold = 4
    event = TRUE            # whether the function ends in time
    dies = True             # whether a signalled process exits
    gone = ()               # processes which exited on their own
    fails = False           # the function in the process raises
    sfails = False          # the supervisor ended with an error
    format = const("plain")     # of the logs, a name or a LogFormat

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.made = {}
        self.ticks = []
        self.bad = {}

    def initial(self):
        return Mon(log=(), n=0, e=0, thread=False, dead=(), locks=(),
                   flags=(), joined=())

    def add(self, st, *x):
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def note(self, it, ev, st):
        m = st.mon
        if ev.kind == "entered" and it.typeof(ev.recv) in (
                "threading.Lock", "threading.RLock"):
            return st.with_mon(m.set(locks=m.locks + (ev.recv,)))
        if ev.kind == "exit" and ev.recv in m.locks:
            return st.with_mon(m.set(locks=tuple(
                x for x in m.locks if x != ev.recv)))
        return st

    def on_attr(self, it, base, name, st):
        if base[0] == "obj" and base[1][:1] == ("proc",):
            if name in ("pid", "exitcode"):
                return ("obj", (name, base), "label")
        if name == "process_poll_timeout":
            return POLL
        if name == "process_stop_timeout":
            return GRACE
        return None

    def on_truth(self, it, v, st):
        if v[0] == "obj" and v[1][0] in ("proc", "pid", "event", "super"):
            return True
        return None

    def on_call(self, it, ev, st):
        n, r, m = ev.name, ev.recv, st.mon
        if ev.kind == "new" and ev.extra.name == "PeriodicCallback":
            self.ticks.append((ev.args[0], tuple(ev.args[1:])))
            return [("v", ("obj", ("super",), "supervisor"), st)]
        if ev.kind != "call":
            return None
        if ev.callee == RUN:
            fv, args, kw = self.made[m.n - 1]
            s = self.add(st, "child")
            outs = it.call_value(fv, args, s) if not kw else it.call_func(
                fv, args, kw, ev.node, ev.fr, s, ev, force=True)
            return [("v", NONE, self.add(x[2], "childend")) for x in outs]
        if ev.callee == TICK:
            fv, args = self.ticks[-1]
            return it.call_value(fv, list(args), st)
        short = n.rpartition(".")[2]
        if ev.extra == "ext" and short == "Process" or \
                short == "Process" and ev.extra in ("method", "ext"):
            kw = kwarg(ev, "kwargs", 4, None)
            d = {}
            if kw == ("obj", ("kwargs",), "dict"):
                d = {"param": PARAM}
            self.made[m.n] = (kwarg(ev, "target", 1), list(it.exact_parts(
                kwarg(ev, "args", 3, ("tuple", ())), st) or ()), d)
            return [("v", PROC(m.n), self.add(st.with_mon(m.set(
                n=m.n + 1)), "process", PROC(m.n)))]
        if short == "Event" and ev.extra in ("method", "ext"):
            return [("v", EVENT(m.e), st.with_mon(m.set(e=m.e + 1)))]
        if n == "get_process_kwargs":
            return [("v", ("obj", ("kwargs",), "dict"), st)]
        if n == "in_process" and not isinstance(ev.callee, str):
            s = self.add(st, "inside", tuple(ev.args), tuple(sorted(
                ev.kw.items())))
            if self.fails:
                return [("raise", self.fails, s)]
            return [("v", NONE, s)]
        if ev.extra == "super" or isinstance(ev.extra, FuncInfo) and \
                ev.extra.name == "basic_config":
            return [("v", NONE, self.add(st, "log", kwarg(
                ev, "level", 0, NONE), kwarg(ev, "log_format", 1, NONE)))]
        if n == "get" and r is not None and r[0] == "glob" and \
                r[2] in ("LOG_LEVEL", "LOG_FORMAT"):
            return [("v", LEVEL if r[2] == "LOG_LEVEL" else self.format,
                     st)]
        if is_ext(ev, "hasattr") and len(ev.args) == 2:
            v = st.get(("H", ev.args[0], const_value(ev.args[1])))
            return [("v", FALSE if v is None or v == ("unbound",) else TRUE,
                     st)]
        if is_ext(ev, "os.kill"):
            s = self.add(st, "signal", ev.args[0], str(ev.args[1]))
            return [("v", NONE, self.die(s, ev.args[0]))]
        if r is None:
            return None
        if n == "run_in_executor":
            return [("v", ("aw", "thread", tuple(ev.args[1:]), (), None),
                     st)]
        if r == ("obj", ("super",), "supervisor"):
            if n == "stop":
                return [("v", ("aw", "sstop", (), tuple(sorted(
                    ev.kw.items())), None), st)]
            return [("v", NONE, self.add(st, "super", n, *ev.args))]
        if r[0] == "obj" and r[1][:1] == ("event",):
            if n == "set":
                return [("v", NONE, self.add(st.with_mon(m.set(
                    flags=m.flags + (r,))), "set", r))]
            if n == "is_set":
                return [("v", TRUE, st), ("v", FALSE, st)]
            if n == "clear":
                return [("v", NONE, self.add(st, "clear", r))]
            if n == "wait":
                if not m.thread:
                    self.bad["block"] = "waiting for a process blocks the " \
                        "event loop"
                t = kwarg(ev, "timeout", 0, NONE)
                s = self.add(st, "wait", r, t)
                if any(x[0] in ("signal", "terminate") for x in m.log):
                    if t == NONE and self.event == FALSE:
                        return []
                    return [("v", self.event, s)]
                return [("v", TRUE, s)]
        if r[0] == "obj" and r[1][:1] == ("proc",):
            if n == "is_alive":
                v = [FALSE if r in m.dead or r in self.gone else TRUE]
                if r in m.dead and r not in m.joined and \
                        self.event == TRUE and not self.gone:
                    # its function has ended, it is about to exit
                    v.append(TRUE)
                return [("v", x, st) for x in v]
            if n == "join":
                if not m.thread:
                    self.bad["block"] = "waiting for a process blocks the " \
                        "event loop"
                t = kwarg(ev, "timeout", 0, NONE)
                if t == NONE and r not in m.dead:
                    return []
                return [("v", NONE, st.with_mon(m.set(
                    joined=m.joined + (r,))))]
            if n == "terminate":
                return [("v", NONE, self.die(self.add(
                    st, n, r), ("obj", ("pid", r), "label")))]
            if n == "kill":
                return [("v", NONE, self.add(st.with_mon(m.set(
                    dead=m.dead + (r,))), n, r))]
            return [("v", NONE, self.add(st, n, r))]
        return None

    def die(self, st, pid):
        m = st.mon
        if self.dies and pid[0] == "obj" and pid[1][0] == "pid":
            return st.with_mon(m.set(dead=m.dead + (pid[1][1],)))
        return st

    def on_await(self, it, ev, st):
        w = unwrap_aw(ev.value)
        if st.mon.locks and w[0] != "coro":
            self.bad["lock"] = "a lock of threads is held while awaiting"
        if w[0] == "aw" and w[1] == "sstop":
            s = self.add(st, "sstop")
            if self.sfails and dict(w[3]).get("return_exceptions") != TRUE:
                return [("raise", FAIL, s)]
            return [("v", NONE, s)]
        if w[0] == "aw" and w[1] == "thread":
            s = st.with_mon(st.mon.set(thread=True))
            outs = run_raw(it, w, ev, s)
            return [(k, x, s.with_mon(s.mon.set(thread=False)))
                    for k, x, s in outs]
        return None


def service(ctx):
    RU = "process-service"
    ctx.rule(RU, "start() starts one process and waits outside of the "
             "loop's thread until it runs; the process sets up logging and "
             "tells when its function ended, in any way; stop() interrupts "
             "the process, waits a limited time outside of the loop's thread "
             "and kills a process that stays; a respawning service replaces "
             "exited processes only, and not after stop()")
    c = ctx.p.cls(MOD + ".ProcessService")
    rc = ctx.p.cls(MOD + ".RespawningProcessService")
    bad = {}

    def drive(body, cls=c, **opt):
        r = Service(ctx)
        for k, v in opt.items():
            setattr(r, k, v)
        it, outs = harness(
            ctx, r, "async def driver(cls, loop, run, tick):\n"
            "    s = cls()\n    s.loop = loop\n" + "".join(
                "    %s\n" % b for b in body),
            cls=("cls", cls.cid), loop=LOOP, run=RUN, tick=TICK)
        bad.update(r.bad)
        return r, outs

    def names(log, *ns):
        return [x for x in log if x[0] in ns]

    for cls in (c, rc):
        for fails in (False, FAIL, INTERRUPT):
            r, outs = drive(["await s.start()", "run()"], cls=cls,
                            fails=fails)
            if not outs or any(k != "v" for k, v, st in outs):
                bad["start"] = "the service does not start"
            for k, v, st in outs:
                log = st.mon.log
                if k != "v":
                    continue
                if names(log, "process", "start") != [
                        ("process", PROC(0)), ("start", PROC(0))]:
                    bad["start"] = "not one process is started"
                w = names(log, "wait")
                inside = names(log, "inside", "set", "childend")
                kinds = [x[0] for x in inside]
                if kinds != ["set", "inside", "set", "childend"]:
                    bad["child"] = "the process does not tell when its " \
                        "function starts and ends"
                    continue
                if not w or w[0][1] != inside[0][1]:
                    bad["wait"] = "start() does not wait for the process"
                if ("param", PARAM) not in inside[1][2]:
                    bad["child"] = "the function does not get its arguments"
                lg = [i for i, x in enumerate(log) if x[0] == "log"]
                if not lg or NONE in log[lg[0]][1:]:
                    bad["log"] = "the process does not set up its logging"
                    continue
                level, fmt = log[lg[0]][1:]
                if not unknown(level) and not mentions(level, LEVEL):
                    bad["log"] = "the process logs at another level"
                if fmt[0] == "attr" and fmt[1] == const("plain"):
                    bad["log"] = "the process cannot be started unless " \
                        "logging was set up"
                elif not unknown(fmt) and not mentions(fmt, r.format):
                    bad["log"] = "the process logs in another format"
        for event in (TRUE, FALSE):
            for dies in (True, False):
                r, outs = drive(
                    ["await s.start()", "await s.stop()", "await s.stop()"]
                    if cls is c else ["await s.start()", "await s.stop()"],
                    cls=cls, event=event, dies=dies, sfails=True)
                if not outs or any(k != "v" for k, v, st in outs):
                    bad["stop"] = "stopping the service fails or hangs"
                for k, v, st in outs:
                    log = st.mon.log
                    if k != "v":
                        continue
                    sig = [x for x in log if x[0] in (
                        "signal", "terminate", "kill")]
                    pid = ("obj", ("pid", PROC(0)), "label")
                    if not sig or sig[0][0] == "kill" or sig[0][1] not in (
                            pid, PROC(0)):
                        bad["signal"] = "the process is not asked to end"
                        continue
                    if sig[0][0] == "terminate" or any(
                            x in str(sig[0][2:]) for x in (
                                "TERM", "HUP", "QUIT", "USR", "ABRT")):
                        bad["signal"] = "the process is not interrupted"
                    hard = [x for x in sig[1:] if x[0] == "kill" or
                            "KILL" in str(x[2:])]
                    if not dies and not hard:
                        bad["kill"] = "a process that stays is not killed"
                    if dies and hard:
                        bad["kill"] = "a process that exits is killed"
                    ws = names(log, "wait")
                    if len(ws) > 1 and ws[1][2] == NONE:
                        bad["stop"] = "stop() waits without limit"
                    if dies and not ws[1:] and event == TRUE and not \
                            names(log, "join"):
                        bad["grace"] = "the process gets no time to end"
                    if cls is rc:
                        i = [x[0] for x in log]
                        if "sstop" not in i or i.index("sstop") > min(
                                j for j, x in enumerate(i)
                                if x in ("signal", "terminate")):
                            bad["respawn"] = "the process is ended before " \
                                "its supervisor"
        r, outs = drive(["await s.start()", "await s.stop()"], cls=cls,
                        gone=(PROC(0),))
        for k, v, st in outs:
            if k != "v" or names(st.mon.log, "signal", "kill", "terminate"):
                bad["exited"] = "stopping an exited process fails"
    for gone, want in (((), 1), ((PROC(0),), 2), ((PROC(0), PROC(1)), 3)):
        r, outs = drive(["await s.start()", "await tick()",
                         "await tick()"], cls=rc, gone=gone)
        if not r.ticks:
            bad["respawn"] = "nobody watches the process"
        for k, v, st in outs:
            log = st.mon.log
            if k != "v":
                bad["respawn"] = "watching the process fails"
                continue
            if [x[1] for x in names(log, "start")] != [
                    PROC(i) for i in range(want)]:
                bad["respawn"] = "not exactly the exited processes are " \
                    "replaced"
            ws = [x[1] for x in names(log, "wait")]
            if len(set(ws)) != len(ws):
                bad["events"] = "processes share the events of others"
            evs = [{x for x in r.made[i][1] if x[0] == "obj" and
                    x[1][:1] == ("event",)} for i in range(want)
                   if i in r.made]
            cleared = {x[1] for x in names(log, "clear")}
            for a, b in zip(evs, evs[1:]):
                if a & b - cleared:
                    bad["events"] = "processes share the events of others"
            if ("super", "start", POLL) not in log:
                bad["respawn"] = "the process is not watched at the " \
                    "configured interval"
    r, outs = drive(["await s.start()", "await s.stop()", "await tick()"],
                    cls=rc)
    for k, v, st in outs:
        if len(names(st.mon.log, "start")) > 1:
            bad["respawn"] = "a stopped process is replaced"
    loc = c.find_method("stop").loc()
    for x in ("start", "wait", "block", "lock", "child", "log", "stop",
              "signal", "kill", "grace", "exited", "events", "respawn"):
        ctx.require(RU, x, x not in bad, "process-service:" + x,
                    rc.find_method("start").loc() if x in (
                        "respawn", "events") else loc, bad.get(x, ""))


FN = ("obj", ("fn",), "callable")
ARG = ("obj", ("arg",), "user")
KW = ("obj", ("kw",), "user")
WORKERS = ("obj", ("workers",), "int")
CONTEXT = ("obj", ("context",), "user")
FUT = ("obj", ("future",), "concurrent.futures.Future")
ERR = ("exc", "Exception", False, "user")


class Pool(Plain):
    """Mon.log: what was done, in order; Mon.cbs: callbacks."""
    exact_lists = True
    fresh_new = True
    max_depth = 12
    how = "value"

    def initial(self):
        return Mon(log=(), cbs=())

    def add(self, st, *x):
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def note(self, it, ev, st):
        if ev.kind == "augattr":
            return self.add(st, "count", ev.name, ev.extra, ev.value)
        if ev.kind == "attrset" and "tatistic" in str(ev.rtype):
            return self.add(st, "count", ev.name, "Set", ev.value)
        return st

    def on_call(self, it, ev, st):
        n, r, m = ev.name, ev.recv, st.mon
        if ev.kind != "call":
            return None
        if ev.callee == RUN:
            cur = [("v", NONE, st)]
            for cb in m.cbs:
                nxt = []
                for o in cur:
                    nxt += it.call_value(cb, [FUT], o[2]) \
                        if o[0] == "v" else [o]
                cur = nxt
            return cur
        if isinstance(ev.extra, FuncInfo):
            return None
        if n == "submit" and self.how == "refused":
            return [("raise", ERR, st)]
        if n == "submit":
            return [("v", FUT, self.add(st, "submit", tuple(ev.args), tuple(
                sorted(ev.kw.items()))))]
        if n == "__init__":
            return [("v", NONE, self.add(st, "init", tuple(ev.args), tuple(
                sorted(ev.kw.items()))))]
        if r == FUT:
            if n == "add_done_callback":
                return [("v", NONE, st.with_mon(m.set(
                    cbs=m.cbs + (ev.args[0],))))]
            if n == "cancelled":
                return [("v", TRUE if self.how == "cancel" else FALSE, st)]
            if n in ("exception", "result"):
                if self.how == "cancel":
                    return [("raise", CANCEL, st)]
                if n == "result" and self.how == "error":
                    return [("raise", ERR, st)]
                return [("v", ERR if self.how == "error" else NONE, st)]
            if n == "done":
                return [("v", TRUE, st)]
        return None


def delta(x):
    """By how much a counter grows, or None."""
    v = x[3]
    if x[2] == "Set" and v[0] == "op" and v[1] in ("Add", "Sub"):
        op, v = v[1], v[3] if v[1] == "Sub" or is_const(v[3]) else v[2]
    else:
        op = x[2]
    if op not in ("Add", "Sub") or not is_const(v) or v[1] != "int":
        return None
    return v[2] if op == "Add" else -v[2]


def pool(ctx):
    RU = "process-pool"
    ctx.rule(RU, "submit() hands function and arguments to the processes "
             "and returns their future; every future is counted once when "
             "submitted and once when done, as a success or an error, "
             "never raising in the callback; the size is the configured one")
    c = ctx.p.cls("aiomisc.process_pool.ProcessPoolExecutor")
    bad = {}
    for how in ("value", "error", "cancel"):
        r = Pool(ctx)
        r.how = how
        it, outs = harness(
            ctx, r, "def driver(cls, n, mp, fn, a, b, run):\n"
            "    p = cls(max_workers=n, mp_context=mp)\n"
            "    f = p.submit(fn, a, k=b)\n    run()\n    return f\n",
            cls=("cls", c.cid), n=WORKERS, mp=CONTEXT, fn=FN, a=ARG, b=KW,
            run=RUN)
        if not outs:
            bad["submit"] = "nothing is submitted"
        for k, v, st in outs:
            log = st.mon.log
            if k != "v":
                bad["callback"] = "counting fails"
                continue
            if v != FUT or [x for x in log if x[0] == "submit"] != [
                    ("submit", (FN, ARG), (("k", KW),))]:
                bad["submit"] = "function or arguments are lost"
            init = [x for x in log if x[0] == "init"]
            if not init or dict(init[0][2]).get("max_workers", (init[0][
                    1] + (None,))[0]) != WORKERS or \
                    dict(init[0][2]).get("mp_context") != CONTEXT:
                bad["init"] = "the options do not reach the executor"
            got = {}
            for x in log:
                n = delta(x) if x[0] == "count" else None
                if n is not None:
                    got[x[1]] = (got.get(x[1]) or 0) + n
                elif x[0] == "count" and x[1] not in (
                        "sum_time", "processes"):
                    got[x[1]] = None
            want = {"submitted": 1, "done": 1,
                    "success" if how == "value" else "error": 1}
            if {a: b for a, b in got.items() if b != 0 and a in (
                    "submitted", "done", "success", "error")} != want:
                bad["count"] = "a task with %s is not counted once as %s" % (
                    {"value": "a result", "error": "an error",
                     "cancel": "a cancellation"}[how], sorted(want))
            if not any(x[0] == "count" and x[1] == "processes" and
                       x[3] == WORKERS for x in log):
                bad["init"] = "the number of processes is not counted"
    r = Pool(ctx)
    r.how = "refused"
    it, outs = harness(
        ctx, r, "def driver(cls, fn):\n    return cls().submit(fn)\n",
        cls=("cls", c.cid), fn=FN)
    for k, v, st in outs:
        got = [delta(x) for x in st.mon.log if x[0] == "count" and
               x[1] != "processes"]
        if None not in got and sum(got):
            bad["count"] = "a task which was refused is counted"
        if k == "v":
            bad["submit"] = "a refused task looks accepted"
    for x in ("submit", "callback", "init", "count"):
        ctx.require(RU, x, x not in bad, "process-pool:" + x,
                    c.find_method("submit").loc(), bad.get(x, ""))
