"""Entrypoint: shutdown, lifecycle signals, start protocol, interrupts.

A most general client creates an entrypoint with two services in an abstract
event loop (aio.Tasks), enters and leaves it. Everything observable is written
to Mon.log in order."""
from .aio import *
from .lib import *

EP = "aiomisc.entrypoint.Entrypoint"
SVC = "aiomisc.service.base.Service"
SIG = "aiomisc.signal.Signal"
CTX = "aiomisc.context.Context"
POOLT = "aiomisc.thread_pool.ThreadPoolExecutor"
S = tuple(("obj", ("service", i), SVC) for i in range(3))
EVENTS = tuple(("obj", ("started", i), "asyncio.Event") for i in range(3))
LOOP = ("obj", ("loop",), "asyncio.AbstractEventLoop")
POOL = ("obj", ("pool",), POOLT)
MAIN = ("obj", ("main",), "asyncio.Task")
LEFT = ("obj", ("left",), "asyncio.Task")
BODY = ("sym", "body", "callable")
FIRE = ("sym", "fire", "callable")
SOON = ("sym", "soon", "callable")
FINISH = ("sym", "finish", "callable")
SIGNO = const(15)
TMO = ("obj", ("timeout",), "float")
PREV = ("obj", ("previous handler",), "callable")
ERRS = tuple(("exc", n, True, "service") for n in (
    "KeyError", "ValueError", "OSError"))
BODYERR = ("exc", "Exception", False, "body")
SIGNALS = ("pre_start", "post_start", "pre_stop", "post_stop")
STEPS = ("shutdown_asyncgens", "shutdown_default_executor")


class Life(Tasks, Plain):
    """starts/stops: behaviour of each service.

    start: "ends", "raises", "cancelled", "ready" (goes on after it announced
    its readiness), "hangs". stop: "ends", "raises", "cancelled", "refuses"
    (TypeError when called), "plain" (returns nothing to await)."""
    exact_lists = True
    fresh_new = True
    max_depth = 16
    starts = ("ends", "ends", "ends")
    stops = ("ends", "ends", "ends")
    owner = True
    body = (("v", NONE),)
    cut_from = None     # cancel only after this was logged

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bodies = 0
        self.after = []

    def initial(self):
        return self.task_mon(log=(), events=(), closed=False, ep=None,
                             handlers=(), soon=(), timers=(), insig=False,
                             waited=())

    def log(self, st, *x):
        if len(st.mon.log) > 60:
            return st
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    # hooks of the task model
    def who(self, t):
        if t in (MAIN, LEFT):
            return t[1][0]
        aw = unwrap_aw(t)
        if aw[0] == "aw" and aw[1].startswith("user:"):
            return (aw[1][5:], S.index(aw[2][0]))
        return "other"

    def task_cancelled(self, it, t, st):
        return self.log(st, "cancel", self.who(t))

    def task_ended(self, it, t, k, v, st):
        return self.log(st, "ended", self.who(t))

    def callback_raised(self, it, t, e, st):
        return self.log(st, "raised", e[1])

    def may_cut(self, it, v, st):
        return self.cut and (self.cut_from is None or any(
            x[0] == self.cut_from for x in st.mon.log))

    # values
    def on_attr(self, it, base, name, st):
        if base in S and name == "start_event":
            return EVENTS[base[1][1]]
        return None

    def inline(self, it, func, ev, st):
        return super().inline(it, func, ev, st) and \
            func.module.name != "aiomisc.log"

    def signal_name(self, v, st):
        ep = st.mon.ep
        for n in SIGNALS:
            if ep is not None and st.get(("H", ep, n)) == v:
                return n
        return None

    def on_call(self, it, ev, st):
        m = st.mon
        n, x = ev.name, ev.recv
        f = ev.extra if isinstance(ev.extra, FuncInfo) else None
        if ev.kind == "new" and ev.rtype == EP:
            return None
        if ev.kind == "new" and ev.rtype == CTX:
            st2 = self.log(st, "context")
            return [("v", ev.value, st2)]
        if ev.kind != "call":
            return None
        if ev.callee == BODY:
            self.bodies += 1
            return [(k, v, self.log(st, "body")) for k, v in self.body]
        if ev.callee == FIRE:
            return self.fire(it, st)
        if ev.callee == SOON:
            return self.soon(it, st)
        if ev.callee == FINISH:
            return self.finishing(it, ev, st)
        if x in S and n in ("start", "stop", "set_loop"):
            return self.service(it, ev, x[1][1], n, st)
        if x is not None and x in m.waited and n == "set":
            return [("v", NONE, self.log(st, "closing-set"))]
        if x is not None and x not in EVENTS and n == "wait" and \
                it.typeof(x) == "asyncio.Event":
            return [("v", ("aw", "closing", (x,), (), None), st)]
        if x in EVENTS:
            if n == "set":
                return [("v", NONE, st.with_mon(m.set(
                    events=m.events + (x,))))]
            if n == "is_set":
                return [("v", TRUE if x in m.events else FALSE, st)]
            if n == "wait":
                return [("v", ("aw", "event", (x,), (), None), st)]
        if f is not None and f.name == "create_default_event_loop":
            return [("v", ("tuple", (LOOP, POOL)), st)]
        if f is not None and f.module.name in ("aiomisc.log", "aiomisc_log"):
            return [("v", NONE, st)]
        if f is not None and f.cls is not None and f.cls.cid == CTX and \
                n == "close":
            return [("v", NONE, self.log(st, "context-closed"))]
        if f is not None and f.cls is not None and f.cls.cid == SIG and \
                n == "call":
            return [("v", ("aw", "signal", (x,) + tuple(ev.args),
                           tuple(sorted(ev.kw.items())), None), st)]
        if is_ext(ev, "float") and ev.args == [TMO]:
            return [("v", TMO, st)]
        if is_ext(ev, "asyncio.get_event_loop", "asyncio.get_running_loop"):
            return [("v", LOOP, st)]
        if is_ext(ev, "asyncio.current_task"):
            return [("v", self.running[-1] if self.running else MAIN, st)]
        if is_ext(ev, "asyncio.all_tasks"):
            ts = [MAIN, LEFT] + [
                t for t, s in m.tasks if s is None and t[0] == "task"
                and unwrap_aw(t)[1] != "gather"]
            g, st = self.group(it, ts, st)
            return [("v", g, st)]
        if is_ext(ev, "signal.getsignal"):
            return [("v", PREV, st)]
        if is_ext(ev, "signal.signal") and len(ev.args) > 1:
            if ev.args[1] == PREV:
                st = self.log(st, "restored", ev.args[0])
                hs = tuple(h for h in m.handlers if h[0] != ev.args[0])
            else:
                st = self.log(st, "installed", ev.args[0])
                hs = m.handlers + ((ev.args[0], ev.args[1]),)
            return [("v", PREV, st.with_mon(st.mon.set(handlers=hs)))]
        if x == POOL and n == "shutdown":
            return [("v", ("aw", "pool-shutdown", (), (), None),
                     self.log(st, "pool-shutdown"))]
        if x == LOOP:
            return self.loop_call(it, ev, n, st)
        return self.task_call(it, ev, st)

    def loop_call(self, it, ev, n, st):
        m = st.mon
        a = list(ev.args)
        if m.insig and n not in ("is_closed", "is_running", "time"):
            st = self.log(st, "in-signal", n)
            m = st.mon
        if n == "is_closed":
            return [("v", TRUE if m.closed else FALSE, st)]
        if n == "close":
            st = self.log(st, "loop-closed")
            return [("v", NONE, st.with_mon(st.mon.set(closed=True)))]
        if n == "stop":
            return [("v", NONE, self.log(st, "loop-stopped"))]
        if n == "run_until_complete" and a:
            return it.do_await(a[0], ev.node, ev.fr, st)
        if n in STEPS:
            return [("v", ("aw", n, (), (), None), st)]
        if n in ("call_soon", "call_soon_threadsafe") and a:
            if m.insig:
                return [("v", NONE, st.with_mon(m.set(
                    soon=m.soon + (tuple(a),))))]
            return [("v", NONE, s) if k == "v" else (k, v, s)
                    for k, v, s in it.call_value(a[0], a[1:], st)]
        if n in ("call_later", "call_at") and len(a) > 1:
            return [("v", ("obj", ("timer", len(m.timers)),
                           "asyncio.TimerHandle"),
                     st.with_mon(m.set(timers=m.timers + (tuple(a),))))]
        return self.task_call(it, ev, st)

    def service(self, it, ev, i, n, st):
        if n == "set_loop":
            return [("v", NONE, st)]
        if n == "stop":
            a = list(ev.args) + list(ev.kw.values())
            st = self.log(st, n, i, a[0] if a else NONE)
            if self.stops[i] == "refuses":
                return [("raise", ("exc", "TypeError", True, "stop"),
                         self.log(st, "stopped", i))]
            if self.stops[i] == "plain":
                return [("v", NONE, self.log(st, "stopped", i))]
        else:
            st = self.log(st, n, i)
        return [("v", ("aw", "user:" + n, (S[i],), (), None), st)]

    def on_await(self, it, ev, st):
        v = ev.value
        m = st.mon
        if v[0] == "aw" and v[1] == "closing":
            return [("v", TRUE, st.with_mon(m.set(
                waited=m.waited + (v[2][0],))))]
        if v[0] == "aw" and v[1] == "event":
            i = EVENTS.index(v[2][0])
            if v[2][0] in m.events or self.starts[i] == "ready" and any(
                    x == ("start", i) for x in m.log):
                return [("v", TRUE, st)]
            return []
        if v[0] == "aw" and v[1].startswith("user:"):
            n = v[1][5:]
            i = S.index(v[2][0])
            how = (self.starts if n == "start" else self.stops)[i]
            if how in ("ready", "hangs"):
                return self.interrupt(it, v, [], st)
            st = self.log(st, "started" if n == "start" else "stopped", i)
            if how == "raises":
                return [("raise", ERRS[i], st)]
            if how == "cancelled":
                return [("raise", CANCEL, st)]
            return [("v", NONE, st)]
        if v[0] == "aw" and v[1] == "signal":
            n = self.signal_name(v[2][0], st)
            kw = dict(v[3])
            ps = it.exact_parts(kw["services"], st) \
                if "services" in kw else None
            st = self.log(st, "signal", n, kw.get("entrypoint") == m.ep
                          and ps is not None and tuple(sorted(
                              x[1][1] for x in ps if x in S)))
            return self.interrupt(it, v, [], st) + [("v", NONE, st)]
        if v[0] == "aw" and v[1] in STEPS:
            return self.interrupt(it, v, [], st) + [
                ("v", NONE, self.log(st, v[1]))]
        if v[0] == "aw" and v[1] == "pool-shutdown":
            return [("v", NONE, st)]
        return self.task_await(it, ev, st)

    def note(self, it, ev, st):
        if ev.kind == "new" and ev.rtype == EP:
            return st.with_mon(st.mon.set(ep=ev.value))
        return st

    # the interrupt
    def fire(self, it, st):
        m = st.mon
        for no, h in m.handlers:
            out = []
            for k, v, s in it.call_value(h, [no, NONE], st.with_mon(
                    m.set(insig=True))):
                out.append((k, v, s.with_mon(s.mon.set(insig=False))))
            return out
        return [("v", NONE, self.log(st, "no-handler"))]

    def soon(self, it, st):
        cur = [st.with_mon(st.mon.set(soon=()))]
        for cb in st.mon.soon:
            cur = [s2 for s in cur for k, v, s2 in it.call_value(
                cb[0], list(cb[1:]), s)]
        return [("v", NONE, s) for s in cur]

    def finishing(self, it, ev, st):
        """The shutdown ends by itself or lasts too long."""
        m = st.mon
        left = [t for t, s in m.tasks if s is None and t[0] == "task"
                and self.who(t) == "other"]
        if not left:
            self.after.append(("unstarted", st))
            return []
        for t in left[-1:]:
            for s in self.run_task(it, t, st, ev):
                how = self.status(t, s)
                self.after.append((
                    "timeout" if how[0] == "raise" and how[1] == TIMEOUT
                    else "ended", s))
            for a in m.timers:
                if a[0] != TMO:
                    continue
                for k, v, s in it.call_value(a[1], list(a[2:]), st):
                    for s2 in self.run_task(it, t, s, ev):
                        self.after.append((
                            "timeout" if t in s2.mon.cancels
                            else "not-cancelled", s2))
        return []


SYNC = """
def driver(EP, a, b, body, sig, tmo, loop):
    with EP(a, b, catch_signals=(sig,), shutdown_timeout=tmo,
            log_config=False) as l:
        body()
"""
FOREIGN = """
def driver(EP, a, b, body, sig, tmo, loop):
    with EP(a, b, catch_signals=(sig,), shutdown_timeout=tmo, loop=loop,
            log_config=False) as l:
        body()
"""
TWO = """
def driver(EP, a, b, body, sig, tmo, loop, sig2):
    with EP(a, b, catch_signals=(sig, sig2), shutdown_timeout=tmo,
            log_config=False) as l:
        body()
"""
FORGOTTEN = """
def driver(EP, a, b, body, sig, tmo, loop):
    ep = EP(a, b, loop=loop, log_config=False)
    body(ep.loop)
    ep.__del__()
"""
ASYNC = """
async def driver(EP, a, b, body, sig, tmo, loop):
    async with EP(a, b, catch_signals=(sig,), shutdown_timeout=tmo,
                  log_config=False) as ep:
        body()
"""
CAREFUL = """
async def driver(EP, a, b, body, sig, tmo, loop):
    ep = EP(a, b, catch_signals=(sig,), shutdown_timeout=tmo, loop=loop,
            log_config=False)
    try:
        await ep.__aenter__()
        body()
    except BaseException:
        pass
    await ep.__aexit__(None, None, None)
"""
LATER = """
async def driver(EP, a, b, body, sig, tmo, loop, c):
    async with EP(a, b, catch_signals=(sig,), shutdown_timeout=tmo,
                  log_config=False) as ep:
        body()
        await ep.start_services(c)
        await ep.stop_services(c)
"""
CLOSING = """
async def driver(EP, a, b, body, sig, tmo, loop):
    async with EP(a, b, catch_signals=(sig,), shutdown_timeout=tmo,
                  log_config=False) as ep:
        body()
        await ep.closing()
"""
EMPTY = """
async def driver(EP, a, b, body, sig, tmo, loop):
    async with EP(catch_signals=(sig,), shutdown_timeout=tmo,
                  log_config=False) as ep:
        body()
"""
INTERRUPTED = """
def driver(EP, a, b, body, sig, tmo, loop, fire, soon, finish):
    with EP(a, b, catch_signals=(sig,), shutdown_timeout=tmo,
            log_config=False) as l:
        fire()
        soon()
        finish()
"""


def live(ctx, src, **kw):
    more = kw.pop("env", {})
    r = Life(ctx, **kw)
    r.src = src
    if ctx.p.cls(EP) is None:
        raise AnalysisBroken("no Entrypoint")
    it, outs = harness(ctx, r, src, EP=("cls", EP), a=S[0], b=S[1], body=BODY,
                       sig=SIGNO, tmo=TMO, loop=LOOP, **more)
    return r, it, outs


def pos(log, *x):
    return [i for i, y in enumerate(log) if y[:len(x)] == x]


STOPS = [("ends", "ends"), ("raises", "ends"), ("ends", "raises"),
         ("raises", "raises"), ("cancelled", "ends"), ("ends", "cancelled"),
         ("refuses", "ends"), ("ends", "refuses"), ("plain", "ends"),
         ("plain", "raises")]


def released(log, owner, sync, cut, started):
    """What is missing after an entrypoint was left."""
    bad = []
    for i in pos(log, "installed"):
        if not any(j > i for j in pos(log, "restored", log[i][1])):
            bad.append("signal handlers restored")
    if not pos(log, "context-closed"):
        bad.append("context closed")
    pools = pos(log, "pool-shutdown") or pos(
        log, "shutdown_default_executor")
    if owner and not pools and not cut:
        bad.append("thread pool shut down")
    if owner and sync and not pos(log, "loop-closed"):
        bad.append("own loop closed")
    if not owner and pos(log, "loop-closed"):
        bad.append("foreign loop left open")
    if cut:
        return bad
    ends = []
    for i in started:
        a, b = pos(log, "stop", i), pos(log, "stopped", i)
        if not a:
            bad.append("stop() of every registered service called")
        elif not b:
            bad.append("every stop() ran to its end")
        elif len(a) > 1:
            bad.append("stop() called once")
        ends += b
    c = pos(log, "cancel", "left")
    if not owner and c:
        bad.append("foreign tasks left alone")
    if owner and not (c and any(
            j > c[0] for j in pos(log, "ended", "left"))):
        bad.append("leftover tasks of an owned loop cancelled")
    if c and ends and c[0] < max(ends):
        bad.append("tasks cancelled only after services stopped")
    if pos(log, "cancel", "main"):
        bad.append("leftover tasks exclude the one shutting down")
    gens = pos(log, "shutdown_asyncgens")
    if not gens:
        bad.append("async generators shut down")
    elif c and c[0] > gens[-1]:
        bad.append("async generators shut down after their users")
    return bad


def shutdown(ctx):
    R = "shutdown-complete"
    ctx.rule(R, "on every path out of the entrypoint's exit, cancellation "
             "and failing services included: OS signal handlers restored, "
             "context closed, own thread pool shut down; and, unless the "
             "shutdown itself was cancelled, every service's stop() was "
             "called and ran to its end, leftover tasks of an owned loop "
             "cancelled after that, async generators shut down, own loop "
             "closed")
    bad = {}
    what = set()

    def judge(r, it, outs, owner, sync, label):
        ends = 0
        for k, v, s in outs:
            m = s.mon
            if not pos(m.log, "body"):
                continue
            ends += 1
            started = sorted({x[1] for x in m.log if x[0] == "start"})
            for b in released(m.log, owner, sync, m.cut, started):
                bad.setdefault(b, "not guaranteed %s" % label)
        if not ends:
            bad.setdefault("stop() is reached", "leaving the entrypoint "
                           "never ends %s" % label)
        what.add(label)

    bodies = (("v", NONE), ("raise", BODYERR), ("raise", CANCEL))
    for src, owner, sync in ((SYNC, True, True), (FOREIGN, False, True),
                             (ASYNC, False, False)):
        for stops in STOPS:
            if stops != ("ends", "ends") and not (sync and owner):
                continue
            label = "when the stops of two services: %s, %s" % stops
            judge(*live(ctx, src, owner=owner, stops=stops, body=bodies),
                  owner, sync, label)
        judge(*live(ctx, src, owner=owner, starts=("ready", "ends"),
                    body=bodies), owner, sync, "with a running start()")
        for stops in (("ends", "ends"), ("raises", "ends")):
            judge(*live(ctx, src, owner=owner, cut=True, cut_from="body",
                        stops=stops, starts=("ready", "ends")), owner, sync,
                  "when the shutdown is cancelled")
    judge(*live(ctx, TWO, env=dict(sig2=const(2))), True, True,
          "with two signals")
    for src, starts in ((SYNC, ("raises", "ends")), (ASYNC, (
            "raises", "ends")), (ASYNC, ("ends", "cancelled"))):
        r, it, outs = live(ctx, src, starts=starts, owner=src == SYNC)
        for k, v, s in outs:
            log = s.mon.log
            if {log[i][1] for i in pos(log, "installed")} - {
                    log[i][1] for i in pos(log, "restored")}:
                bad["signal handlers restored"] = "not guaranteed when the " \
                    "start fails"
    r, it, outs = live(ctx, FORGOTTEN, owner=False)
    for k, v, s in outs:
        if pos(s.mon.log, "body") and pos(s.mon.log, "loop-closed"):
            bad["foreign loop left open"] = "not guaranteed when the " \
                "entrypoint is deleted"
    f = ctx.p.func(EP + ".__aexit__")
    for w in sorted({
        "signal handlers restored", "context closed",
        "thread pool shut down", "own loop closed", "foreign loop left open",
        "stop() of every registered service called",
        "every stop() ran to its end", "stop() called once",
        "foreign tasks left alone",
        "leftover tasks of an owned loop cancelled",
        "tasks cancelled only after services stopped",
        "leftover tasks exclude the one shutting down",
        "async generators shut down", "stop() is reached",
        "async generators shut down after their users",
    } | set(bad)):
        ctx.require(R, w, w not in bad, "Entrypoint.__aexit__:" +
                    w.replace(" ", "-"), f.loc(), bad.get(w, ""))


def background(ctx):
    R = "start-tasks"
    ctx.rule(R, "on every path out of the entrypoint's exit that is not "
             "itself cancelled, the start() tasks kept for the background "
             "are cancelled - or all tasks of the loop are")
    bad = {}
    for src, owner in ((SYNC, True), (FOREIGN, False), (ASYNC, False)):
        for stops, two in ((("ends", "ends"), "ends"), (
                ("raises", "ends"), "ends"), (("ends", "ends"), "ready")):
            r, it, outs = live(ctx, src, owner=owner, stops=stops,
                               starts=("ready", two),
                               body=(("v", NONE), ("raise", BODYERR)))
            for k, v, s in outs:
                log = s.mon.log
                for i in range(1 + (two == "ready")):
                    c = pos(log, "cancel", ("start", i))
                    if not c:
                        bad["cancelled"] = "a start() running in the " \
                            "background is not cancelled at the shutdown"
                    elif not any(j > c[0] for j in pos(
                            log, "ended", ("start", i))):
                        bad["awaited"] = "the end of a start() running in " \
                            "the background is not awaited"
    f = ctx.p.func(EP + ".__aexit__")
    for w in ("cancelled", "awaited"):
        ctx.require(R, "background start() is " + w, w not in bad,
                    "Entrypoint.__aexit__:start-tasks-" + w, f.loc(),
                    bad.get(w, ""))


def start(ctx):
    R = "start-protocol"
    ctx.rule(R, "starting a service: it is registered for stop() before the "
             "first suspension, start_services() returns only when start() "
             "finished (its exception propagated) or start_event was set, "
             "never blocks on an unfinished start(), and keeps the "
             "unfinished start() task for cancellation")
    bad = {}
    for kinds in (("ends", "ends"), ("ready", "ends"), ("ready", "ready"),
                  ("ends", "ready")):
        r, it, outs = live(ctx, ASYNC, starts=kinds)
        if not r.bodies:
            bad["blocks"] = "entering the entrypoint waits for an " \
                "unfinished start() which announced its readiness" \
                if "ready" in kinds else "entering the entrypoint never ends"
        for k, v, s in outs:
            log = s.mon.log
            b = pos(log, "body")
            for i, how in enumerate(kinds):
                if b and not pos(log, "start", i):
                    bad["start-unreached"] = "services are not started"
                if b and how == "ends" and not any(
                        j < b[0] for j in pos(log, "started", i)):
                    bad["returns-early"] = "start_services() returns " \
                        "without waiting for start() or start_event"
                if len(pos(log, "start", i)) > 1:
                    bad["start-twice"] = "a service is started twice"
                if b and EVENTS[i] not in s.mon.events:
                    bad["event"] = "start_event of a started service is not " \
                        "set"
            if k == "raise":
                bad["spurious"] = "starting raises %s" % v[1]
            if "ready" in kinds and b and any(
                    i < b[0] for i in pos(log, "cancel")):
                bad["start-lost"] = "a start() that goes on is cancelled"
    for kinds in (("hangs", "ends"), ("ends", "hangs")):
        r, it, outs = live(ctx, ASYNC, starts=kinds)
        if r.bodies:
            bad["returns-early"] = "start_services() returns without " \
                "waiting for start() or start_event"
    for kinds in (("raises", "ends"), ("ends", "raises"),
                  ("cancelled", "ends"), ("raises", "ready")):
        r, it, outs = live(ctx, ASYNC, starts=kinds)
        want = [ERRS[i] if k == "raises" else CANCEL
                for i, k in enumerate(kinds) if k in ("raises", "cancelled")]
        if r.bodies or not any(k == "raise" for k, v, s in outs):
            bad["error-swallowed"] = "an exception of start() does not " \
                "propagate from start_services()"
        for k, v, s in outs:
            if k == "raise" and v not in want:
                bad["error-swallowed"] = "not the exception of start() is " \
                    "raised"
    for kinds, cut in ((("raises", "ends"), False), (("ends", "raises"),
                                                     False),
                       (("hangs", "ends"), True), (("ends", "ends"), True),
                       (("ready", "ends"), True)):
        r, it, outs = live(ctx, CAREFUL, starts=kinds, cut=cut,
                           cut_from="start")
        for k, v, s in outs:
            log = s.mon.log
            if k == "raise" and s.mon.cut and pos(log, "body"):
                continue    # the shutdown was cancelled
            for i in range(2):
                if pos(log, "start", i) and not pos(log, "stop", i):
                    bad["not-registered"] = "a service whose start() was " \
                        "called is not stopped when its start() fails or " \
                        "is cancelled"
    c = ctx.p.cls(SVC)
    it, outs = harness(
        ctx, Fresh(ctx), "def driver(s, loop, other):\n"
        "    s.__init__()\n    s.set_loop(loop)\n"
        "    a, l, b = s.start_event, s.loop, s.start_event\n"
        "    s.set_loop(other)\n    return a, b, s.start_event, l, s.loop\n",
        s=("obj", ("fresh service",), c.cid), loop=LOOP, other=OTHERLOOP)
    for k, v, s in outs:
        if k != "v" or v[0] != "tuple" or any(map(unknown, v[1])):
            continue
        a, b, again, l, l2 = v[1]
        if a != b or a == again:
            bad["event"] = "a service started again is not started with an " \
                "event of its own"
        if (l, l2) != (LOOP, OTHERLOOP):
            bad["event"] = "a service does not get the loop it is started in"
    f = ctx.p.func(EP + ".start_services")
    for w in ("start-unreached", "returns-early", "start-lost", "start-twice",
              "spurious", "error-swallowed", "blocks", "not-registered",
              "event"):
        ctx.require(R, w, w not in bad, "Entrypoint.start_services:" + w,
                    f.loc(), bad.get(w, ""))


class Own(Life):
    """The signals of two entrypoints; Mon.log: what is frozen."""
    def on_call(self, it, ev, st):
        f = ev.extra if isinstance(ev.extra, FuncInfo) else None
        if ev.kind == "call" and f is not None and f.cls is not None and \
                f.cls.cid == SIG:
            if f.name == "copy":
                n = len(pos(st.mon.log, "copied"))
                return [("v", ("obj", ("copy", n, ev.recv), SIG),
                         self.log(st, "copied"))]
            if f.name == "freeze":
                return [("v", NONE, self.log(st, "frozen", ev.recv))]
        if ev.callee == MINE:
            return [("v", NONE, self.log(st, "mine", tuple(ev.args)))]
        return super().on_call(it, ev, st)


class Fresh(Plain):
    """Every new event is another one."""
    exact_lists = True
    fresh_new = True

    def initial(self):
        return Mon(n=0)

    def on_call(self, it, ev, st):
        if is_ext(ev, "asyncio.Event"):
            n = st.mon.n
            return [("v", ("obj", ("event", n), "asyncio.Event"),
                     st.with_mon(st.mon.set(n=n + 1)))]
        return None


OTHERLOOP = ("obj", ("other loop",), "asyncio.AbstractEventLoop")
MINE = ("sym", "mine", "callable")
OWN = """
async def driver(EP, a, b, body, sig, tmo, loop, mine):
    one = EP(a, b, loop=loop, log_config=False)
    two = EP(a, b, loop=loop, log_config=False)
    mine(EP.PRE_START, EP.POST_START, EP.PRE_STOP, EP.POST_STOP)
    mine(one.pre_start, one.post_start, one.pre_stop, one.post_stop)
    mine(two.pre_start, two.post_start, two.pre_stop, two.post_stop)
    await one.__aenter__()
    body()
"""


def own(ctx, bad):
    it, outs = harness(ctx, Own(ctx), OWN, EP=("cls", EP), a=S[0], b=S[1],
                       body=BODY, sig=SIGNO, tmo=TMO, loop=LOOP, mine=MINE)
    for k, v, s in outs:
        log = s.mon.log
        mine = [log[i][1] for i in pos(log, "mine")]
        if len(mine) != 3 or any(map(unknown, sum(mine, ()))):
            continue
        base, one, two = mine
        if len(set(base + one + two)) != 12:
            bad["own"] = "entrypoints share their signals"
        for x, y in zip(one + two, base * 2):
            if x[0] == "obj" and x[1][:1] == ("copy",) and x[1][2] != y:
                bad["own"] = "a signal is the copy of another one"
        frozen = {log[i][1] for i in pos(log, "frozen")}
        if pos(log, "body") and not set(one) <= frozen:
            bad["frozen"] = "receivers can be connected to a signal of a " \
                "running entrypoint"
        if frozen & set(base + two):
            bad["own"] = "the signals of another entrypoint are frozen"


def lifecycle(ctx):
    R = "lifecycle-signals"
    ctx.rule(R, "pre_start is sent before any start(), post_start after, "
             "pre_stop before any stop(), post_stop after every stop() "
             "ended; the post signal is sent on every path on which the pre "
             "signal was, failing services included, exactly once, with the "
             "entrypoint and the services")
    bad = {}

    def judge(log, verb, ended, pre, post, services, full, wait):
        meth = "Entrypoint.%s_services:" % verb
        a, b = pos(log, "signal", pre), pos(log, "signal", post)
        calls = [i for n in services for i in pos(log, verb, n)]
        ends = [i for n in services for i in pos(log, ended, n)]
        if not a:
            if calls:
                bad[meth + pre + "-missing"] = 1
            return
        if not b:
            bad[meth + post + "-missing"] = 1
            return
        if len(a) > 1 or len(b) > 1:
            bad[meth + "sent-twice"] = 1
        if calls and min(calls) < a[0]:
            bad[meth + "%s-before-%s" % (verb, pre)] = 1
        if b[0] < a[0]:
            bad[meth + "%s-without-%s" % (post, pre)] = 1
        if calls and max(calls) > b[0]:
            bad[meth + "%s-after-%s" % (verb, post)] = 1
        if wait and ends and max(ends) > b[0]:
            bad[meth + "%s-early" % post] = 1
        if full and (len(calls) < len(services) or
                     wait and len(ends) < len(services)):
            bad[meth + "unreached"] = 1
        for i in a + b:
            if log[i][2] != tuple(services):
                bad[meth + "arguments"] = 1

    def start_judge(log, full, wait, services=(0, 1)):
        judge(log, "start", "started", "pre_start", "post_start", services,
              full, wait)

    def stop_judge(log, full, wait, services=(0, 1)):
        judge(log, "stop", "stopped", "pre_stop", "post_stop", services,
              full, wait)

    for kinds in (("ends", "ends"), ("ready", "ends"), ("raises", "ends"),
                  ("ends", "raises"), ("cancelled", "ends")):
        r, it, outs = live(ctx, ASYNC, starts=kinds)
        for k, v, s in outs:
            start_judge(s.mon.log, k == "v" and "ready" not in kinds,
                        k == "v")
    r, it, outs = live(ctx, ASYNC, cut=True, cut_from="start")
    for k, v, s in outs:
        start_judge(s.mon.log, False, False)
    for stops in STOPS:
        r, it, outs = live(ctx, SYNC, stops=stops,
                           body=(("v", NONE), ("raise", BODYERR)))
        for k, v, s in outs:
            stop_judge(s.mon.log, True, True)
    r, it, outs = live(ctx, SYNC, cut=True, cut_from="stop",
                       starts=("ready", "ends"))
    for k, v, s in outs:
        stop_judge(s.mon.log, False, False)
    r, it, outs = live(ctx, LATER, env=dict(c=S[2]))
    for k, v, s in outs:
        log = s.mon.log
        b = pos(log, "body")
        if not b:
            continue
        start_judge(log[:b[0]], True, True)
        mid = pos(log, "signal", "post_stop")
        if mid:
            start_judge(log[b[0]:mid[0] + 1], True, True, (2,))
            stop_judge(log[b[0]:mid[0] + 1], True, True, (2,))
            stop_judge(log[mid[0] + 1:], True, True)
        else:
            bad["Entrypoint.stop_services:post_stop-missing"] = 1
    mine = {}
    own(ctx, mine)
    for w in ("own", "frozen"):
        ctx.require(R, w, w not in mine, "Entrypoint:signals-" + w,
                    ctx.p.func(EP + ".__init__").loc(), mine.get(w, ""))
    for meth, verb, pre, post in (
        ("start_services", "start", "pre_start", "post_start"),
        ("stop_services", "stop", "pre_stop", "post_stop"),
    ):
        f = ctx.p.func(EP + "." + meth)
        for w in (pre + "-missing", post + "-missing", post + "-early",
                  verb + "-before-" + pre, verb + "-after-" + post,
                  post + "-without-" + pre, "sent-twice", "arguments",
                  "unreached"):
            key = "Entrypoint.%s:%s" % (meth, w)
            ctx.require(R, meth + " " + w, key not in bad, key, f.loc(),
                        "lifecycle order broken: " + w)


def interrupt(ctx):
    R = "interrupt"
    ctx.rule(R, "the OS signal callback only hands over to the loop with "
             "call_soon_threadsafe; the handler on the loop starts the "
             "shutdown, bounds it by shutdown_timeout and stops the loop on "
             "every outcome, exiting with an error only when it timed out")
    bad = {}
    n = "Entrypoint.interrupt"
    for stops in (("ends", "ends"), ("raises", "ends"),
                  ("cancelled", "ends"), ("ends", "refuses")):
        r, it, outs = live(ctx, INTERRUPTED, stops=stops, env=dict(
            fire=FIRE, soon=SOON, finish=FINISH))
        kinds = {k for k, s in r.after}
        if not r.after:
            bad["loop-not-stopped"] = "the shutdown on an OS signal never " \
                "ends"
        if "unstarted" in kinds:
            bad["shutdown-not-started"] = "no shutdown task is created"
            kinds.discard("unstarted")
        elif "timeout" not in kinds:
            bad["unbounded"] = "the shutdown is not cancelled after " \
                "shutdown_timeout"
        for k, s in r.after:
            log = s.mon.log
            ins = [x[1] for x in log if x[0] == "in-signal"]
            if pos(log, "no-handler"):
                bad["threadsafe"] = "no handler of the OS signal is " \
                    "installed"
            elif "call_soon_threadsafe" not in ins:
                bad["threadsafe"] = "the OS signal handler does not wake " \
                    "the loop with call_soon_threadsafe"
            elif set(ins) != {"call_soon_threadsafe"}:
                bad["threadsafe"] = "the OS signal handler touches the " \
                    "loop directly"
            if k == "unstarted":
                continue
            if not pos(log, "loop-stopped"):
                bad["loop-not-stopped"] = "the loop is not stopped when " \
                    "the shutdown %s" % (
                        "lasts too long" if k == "timeout" else "ended")
            out = pos(log, "raised", "SystemExit")
            if k == "timeout" and not out:
                bad["no-exit"] = "the process does not exit with an error " \
                    "when the shutdown timed out"
            if k == "ended" and pos(log, "raised") and \
                    stops[0] != "cancelled":
                bad["spurious-exit"] = "exits although the shutdown " \
                    "finished"
            if k == "ended" and not pos(log, "stop", 0):
                bad["not-graceful"] = "the task created on an interrupt " \
                    "does not stop the services"
            if k == "ended" and not (pos(log, "shutdown_asyncgens")):
                bad["not-graceful"] = "the task created on interrupt does " \
                    "not run the graceful shutdown"
    f = ctx.p.func(EP + ".__init__")
    for w in ("threadsafe", "shutdown-not-started", "unbounded",
              "loop-not-stopped", "no-exit", "spurious-exit", "not-graceful"):
        ctx.require(R, w, w not in bad, n + ":" + w, f.loc(),
                    bad.get(w, ""))


def leaving(ctx):
    R = "shutdown-outcome"
    ctx.rule(R, "stop() of every service gets the exception which ends the "
             "body, None when there is none, and one when a signal does; an "
             "error of a stop() is raised by the exit, otherwise the outcome "
             "of the body is that of the block; closing() returns as soon as "
             "the shutdown begins; all signals are sent without services, too")
    bad = {}
    for src, owner in ((SYNC, True), (FOREIGN, False), (ASYNC, False)):
        for stops in STOPS[:4] + STOPS[6:]:
            for body in (("v", NONE), ("raise", BODYERR)):
                r, it, outs = live(ctx, src, owner=owner, stops=stops,
                                   body=(body,))
                for k, v, s in outs:
                    log = s.mon.log
                    if not pos(log, "body"):
                        continue
                    want = NONE if body[0] == "v" else body[1]
                    got = {log[i][2] for i in pos(log, "stop")}
                    if not any(map(unknown, got)) and got != {want}:
                        bad["exception"] = "stop() does not get the " \
                            "exception which ended the entrypoint"
                    errs = [ERRS[i] for i in (0, 1) if stops[i] == "raises"]
                    if errs and (k != "raise" or v not in errs + [want]):
                        bad["error"] = "the error of a stop() is lost"
                    if not errs and (k == "raise") != (body[0] == "raise"):
                        bad["outcome"] = "the outcome of the body is not " \
                            "that of the entrypoint"
    r, it, outs = live(ctx, EMPTY)
    for k, v, s in outs:
        log = s.mon.log
        if tuple(log[i][1] for i in pos(log, "signal")) != SIGNALS:
            bad["empty"] = "an entrypoint without services does not send " \
                "all of its signals"
    r, it, outs = live(ctx, CLOSING, starts=("ready", "ends"))
    for k, v, s in outs:
        log = s.mon.log
        a = pos(log, "closing-set")
        b = sorted(pos(log, "stop") + pos(log, "cancel"))
        if s.mon.waited and (not a or b and a[0] > b[0]):
            bad["closing"] = "closing() does not return when the shutdown " \
                "begins"
    if not any(s.mon.waited for k, v, s in outs):
        bad["closing"] = "closing() does not wait for the shutdown"
    r, it, outs = live(ctx, INTERRUPTED, env=dict(
        fire=FIRE, soon=SOON, finish=FINISH))
    for how, s in r.after:
        log = s.mon.log
        for i in pos(log, "stop"):
            if log[i][2] == NONE:
                bad["interrupted"] = "stop() is not told that a signal " \
                    "ended the entrypoint"
    f = ctx.p.func(EP + ".__aexit__")
    for w in ("exception", "error", "outcome", "empty", "closing",
              "interrupted"):
        ctx.require(R, w, w not in bad, "Entrypoint.__aexit__:outcome-" + w,
                    f.loc(), bad.get(w, ""))
