"""Recurring, periodic and cron callbacks."""
from .coop import Coop
from .lib import *
from .world import LOOP

FN = ("sym", "fn", None)
STRAT = ("sym", "strategy", None)
RUN = ("sym", "run", None)
LATE = ("sym", "late", None)
RES = ("sym", "result", None)
KEY = ("exc", "KeyError", False, "user")
ZERO = ("exc", "ZeroDivisionError", True, "user")
REC = "aiomisc.recurring."
SKIP = ("exc", REC + "StrategySkip", True, "user")
STOP = ("exc", REC + "StrategyStop", True, "user")


A1, A2 = ("sym", "a1", None), ("sym", "a2", None)
OWN = ("obj", ("given loop",), "asyncio.AbstractEventLoop")
DELAY = ("obj", ("delay",), "float")
SKIPPED = ("skip",)
HOW = {"V": ("v", RES), "K": ("raise", KEY), "Z": ("raise", ZERO),
       "C": ("raise", CANCEL),
       "B": ("raise", ("exc", "SystemExit", True, "user"))}
ENDS = {"stop": STOP, "error": ZERO,
        "other stop": ("exc", REC + "StrategyException", True, "user")}


class Rec(Coop):
    """A recurrence: what the strategy answers, how the callback ends, and
    when the recurrence is cancelled: ("D", n) while it sleeps for the n-th
    time, ("W", n, late) while it waits for the callback the n-th time."""
    answers = ()
    calls = ()
    cancel = None
    is_async = True
    shielded = 0
    mains = 1
    alone = True        # no other recurrence in the scenario
    log_calls = True
    listed = False      # KeyError is suppressed

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def count(self, st, tag):
        return sum(1 for x in st.mon.log if x[0] == tag)

    def busy(self, st):
        return [t for t, x in st.mon.tasks if x is None and
                t[0] == "task" and t not in self.running]

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.name in ("exception", "error", "critical") and \
                ev.extra == "method":
            last = [x for x in m.log if x[0] in "SDF"][-1:]
            if last and last[0][0] == "F":
                if last[0][1] == "K" and self.listed:
                    self.bad["logged"] = "an error that is to be " \
                        "suppressed is logged"
                st = self.log(st, "logged")
            return [("v", NONE, st)]
        if is_ext(ev, "types.MappingProxyType"):
            return [("v", ev.args[0], st)]
        if ev.kind == "call" and ev.name == "create_task" and \
                ev.extra == "method":
            st = self.log(st, "on loop", ev.recv)
        if ev.kind == "call" and ev.callee == FN:
            if tuple(ev.args) != (A1,) or dict(ev.kw) != {"k": A2}:
                self.bad["arguments"] = "the callback is called with other " \
                    "arguments"
            if self.is_async:
                return [("v", ("aw", "$fn", (), (), len(m.log)), st)]
            return self.user(st)
        if ev.kind == "call" and ev.callee == STRAT:
            return [("v", ("aw", "$strategy", (), (), len(m.log)), st)]
        if is_ext(ev, "asyncio.iscoroutinefunction",
                  "inspect.iscoroutinefunction") and \
                ev.args[0] in (FN, STRAT):
            return [("v", TRUE if self.is_async else FALSE, st)]
        if is_ext(ev, "hasattr", "asyncio.iscoroutine", "asyncio.isfuture",
                  "inspect.isawaitable") and ev.args[0] in (RES,):
            return [("v", FALSE, st)]
        if ev.kind == "call" and ev.callee == RUN:
            main = self.main(-1, st)
            if main is None:
                return []
            return [self.outcome(main, s) for s in self.run_task(
                it, main, st, ev)]
        if ev.kind == "call" and ev.callee == LATE:
            # the first task ends now, its callbacks run
            main = self.main(0, st)
            out = []
            for s in self.finish(it, main, "raise", CANCEL, st):
                while s.mon.soon:
                    cb = s.mon.soon[0]
                    rs = it.call_value(cb[0], list(cb[1:]), self.put(
                        s, soon=s.mon.soon[1:]))
                    if any(k == "raise" for k, v, s2 in rs):
                        self.bad["callback-raises"] = "a done callback raises"
                    s = rs[0][2]
                out.append(("v", NONE, s))
            return out
        if ev.kind == "call" and ev.name in ("call_later", "call_at") and \
                ev.extra == "method" and self.running:
            st = self.log(st, "D", ev.args[0])
        return super().on_call(it, ev, st)

    def main(self, i, st):
        ts = [t for t, x in st.mon.tasks if t[0] == "task"]
        return ts[i] if ts else None

    def add_task(self, t, st, status=None):
        if t[0] == "task" and self.running and self.shielded == 0 and \
                self.busy(st):
            self.bad["overlap"] = "the callback is started again while it " \
                "runs"
        return super().add_task(t, st, status)

    def callback_raised(self, it, t, e, st):
        self.bad["callback-raises"] = "a done callback raises"
        return st

    def user(self, st):
        n = self.count(st, "F")
        how = self.calls[n] if n < len(self.calls) else "V"
        self.seen.add("shielded" if self.shielded else "plain")
        k, v = HOW[how]
        return [(k, v, self.log(st, "F", how))]

    def ask(self, st):
        if self.busy(st):
            self.bad["overlap"] = "the strategy is asked while the " \
                "callback runs"
        n = self.count(st, "S")
        a = self.answers[n] if n < len(self.answers) else "stop"
        st = self.log(st, "S", a)
        if a == "skip":
            return [("raise", SKIP, st)]
        if a in ENDS:
            return [("raise", ENDS[a], st)]
        return [("v", const(a), st)]

    def run_all(self, it, ev, st):
        """-> states after everything else in the loop ran."""
        if not st.mon.soon and not self.busy(st):
            return [st]
        return self.run_loop(it, ev, st)

    def cut_at(self, it, ev, st, *where):
        return self.cancel is not None and self.cancel[:2] == where and \
            not st.mon.cut

    def on_await(self, it, ev, st):
        v = ev.value
        m = st.mon
        if v[0] == "aw" and v[1] == "$fn":
            return self.user(st)
        if v[0] == "aw" and v[1] == "$strategy":
            return self.ask(st)
        if v[0] == "aw" and v[1] == "sleep":
            n = self.count(st, "D")
            d = v[2][0] if v[2] else NONE
            st = self.log(st, "D", d)
            if self.cut_at(it, ev, st, "D", n):
                return [("raise", CANCEL, self.put(st, cut=True))]
            return [("v", NONE, s) for s in self.run_all(it, ev, st)]
        if v[0] == "aw" and v[1] == "shield":
            self.shielded += 1
            try:
                return super().on_await(it, ev, st)
            finally:
                self.shielded -= 1
        if len(self.running) == self.mains and (
                v[0] == "task" or self.is_future(v) or v[0] == "aw"
                and v[1] in ("wait", "wait_for", "gather", "$wait")):
            n = self.count(st, "W")
            st = self.log(st, "W")
            if self.cut_at(it, ev, st, "W", n):
                return self.cut_waiting(it, ev, v, st)
            if self.is_future(v) or v[1] == "$wait":
                out = []
                for s in self.run_all(it, ev, st):
                    out += super().on_await(it, ev, s)
                return out
        return super().on_await(it, ev, st)

    def cut_waiting(self, it, ev, v, st):
        st = self.put(st, cut=True)
        if self.cancel[2]:
            # just when the callback ended
            return [("raise", CANCEL, s) for s in self.run_all(it, ev, st)]
        cur = [st]
        if v[0] == "task" or v[0] == "aw" and v[1] in ("wait_for", "gather"):
            # cancelling the waiter cancels what it waits for
            for t in [v] if v[0] == "task" else v[2]:
                if t[0] == "task" and self.status(t, st) is None:
                    cur = [s3 for s in cur for k, x, s2 in self.cancel_task(
                        it, t, s) for s3 in self.run_task(it, t, s2, ev)]
        return [("raise", CANCEL, s) for s in cur]

    def task_ended(self, it, t, k, v, st):
        if t[0] == "task" and k == "raise" and v[1] == "SystemExit":
            st = self.log(st, "exit")
        if self.alone and t == self.main(0, st) and self.busy(st):
            self.bad["left-running"] = "the callback goes on running after " \
                "its recurrence ended"
        return st


DRIVER = ("async def driver(cls, fn, strat, loop, shield, ign, a, b):\n"
          "    rc = cls(fn, a, k=b)\n"
          "    task = rc.start(strat, loop=loop, shield=shield,\n"
          "                    suppress_exceptions=ign)\n"
          "    return await task\n")
# answers of the strategy, ends of the callback, cancellation
SCRIPTS = [
    ((5, -3, "stop"), ("V", "K"), None),
    ((5, 0.5, "stop"), ("Z", "V"), None),
    ((5, 5, "stop"), ("C", "V"), None),
    ((5, "stop"), ("B",), None),
    (("skip", 5, "stop"), ("V",), None),
    ((5, "skip", "skip", 5, "other stop"), ("K", "Z"), None),
    (("x",), (), None), ((5, None), ("V",), None), (("stop",), (), None),
    ((5, "error"), ("V",), None), (("other stop",), (), None),
    ((5, 5), ("V",), ("D", 0)), ((5, 5), ("V",), ("D", 1)),
    (("skip", 5), ("V",), ("D", 0)),
    ((5, 5), ("V",), ("W", 0, False)), ((5, 5), ("V",), ("W", 0, True)),
    ((5, 5), ("Z",), ("W", 0, True)), ((5, 5), ("C",), ("W", 0, True)),
    ((5, 5, 5), ("V", "V"), ("W", 1, False)),
]


def recurring(ctx):
    R = "recurring-protocol"
    ctx.rule(R, "strategy -> delay -> one call of the callback -> strategy; "
             "the strategy is asked only after the callback ended; errors of "
             "the callback never end the recurrence; a skip only sleeps, a "
             "stop or a wrong delay ends it, a negative delay means none; a "
             "cancellation ends it after cancelling and awaiting the "
             "running callback")
    c = ctx.p.cls(REC + "RecurringCallback")
    f = c.find_method("start")
    bad = {}
    ran = set()
    for shield in (FALSE, TRUE):
        for ign in (("tuple", ()), ("tuple", (("ext", "KeyError"),))):
            for is_async in (True, False):
                for i, (answers, calls, cancel) in enumerate(SCRIPTS):
                    if not is_async and "C" in calls:
                        continue
                    r = Rec(ctx, answers=answers, calls=calls,
                            cancel=cancel, is_async=is_async,
                            listed=bool(ign[1]))
                    it, outs = harness(
                        ctx, r, DRIVER, cls=("cls", c.cid), fn=FN, a=A1,
                        b=A2, strat=STRAT, loop=LOOP, shield=shield,
                        ign=ign)
                    bad.update(r.bad)
                    if ("plain" if shield == TRUE else
                            "shielded") in r.seen:
                        bad["shield"] = "the shield option is not respected"
                    for k, v, s in outs:
                        if not cancel or s.mon.cut:
                            ran.add(i)
                        if "B" in calls:
                            if k == "v" and "exit" not in [
                                    x[0] for x in s.mon.log]:
                                bad["exit"] = "an exit in the callback " \
                                    "does not end the program"
                            continue
                        log = [x for x in s.mon.log if x[0] in "SDF"]
                        check(bad, answers, calls, cancel, log, k, v)
                        silent(bad, r, s.mon.log)
    for i, (answers, calls, cancel) in enumerate(SCRIPTS):
        # a recurrence which never waits is not cancelled there
        if i not in ran and cancel is None:
            bad.setdefault("hangs", "the recurrence does not go on or end")
    if other_loop(ctx, c, ", loop=own") or other_loop(ctx, c, ", own"):
        bad["other-loop"] = "the recurrence does not run in the given loop"
    for x in sorted({"overlap", "left-running", "hangs", "callback-raises",
                     "ended-by-callback", "wrong-delay", "not-called",
                     "called-after-stop", "cancel-lost", "shield",
                     "skip-ignored", "outcome", "logged", "silent",
                     "arguments", "other-loop", "exit"} | set(bad)):
        ctx.require(R, x, x not in bad, "RecurringCallback:" + x, f.loc(),
                    bad.get(x, ""))


def silent(bad, r, log):
    """Errors which are not to be suppressed are logged."""
    log = [x for x in log if x[0] in ("S", "F", "logged")]
    for x, y in zip(log, log[1:]):
        if x[0] == "F" and (x[1] == "Z" or x[1] == "K" and not r.listed) \
                and y[0] != "logged" and not r.cancel:
            bad["silent"] = "an error of the callback is not logged"


def other_loop(ctx, c, args):
    """Is a task of the callback created in another loop than the given?"""
    r = Rec(ctx, answers=("stop",))
    it, outs = harness(
        ctx, r, "def driver(cls, fn, own, x, a, b):\n"
        "    rc = cls(fn, a, k=b)\n    rc.start(x%s)\n" % args,
        cls=("cls", c.cid), fn=FN, own=OWN, x=STRAT, a=A1, b=A2)
    return any(x[0] == "on loop" and x[1] != OWN
               for k, v, s in outs for x in s.mon.log)


def check(bad, answers, calls, cancel, log, k, v):
    """Is this what the answers ask for?"""
    log = list(log)
    cut = False
    calls = list(calls)
    nd = nw = 0
    for a in answers + ("stop",):
        if not log or log[0][:2] != ("S", a):
            if log and log[0][0] == "F":
                bad["not-called"] = "the callback is called once more"
            elif log:
                bad["not-called"] = "the strategy is not asked once a call"
            else:
                bad["ended-by-callback"] = "the recurrence ends though its " \
                    "strategy did not"
            return
        log.pop(0)
        if a in ENDS or not isinstance(a, (int, float)) and a != "skip":
            if log:
                bad["called-after-stop"] = "the recurrence goes on " \
                    "after the strategy ended it"
            elif a == "error":
                if (k, v) != ("raise", ZERO):
                    bad["outcome"] = "an error of the strategy is lost"
            elif k != "v":
                bad["outcome"] = "a stopped recurrence raises"
            return
        d = None
        if log and log[0][0] == "D":
            d = log.pop(0)[1]
            cut = cancel == ("D", nd)
            nd += 1
            if cut:
                break
        if a == "skip":
            if d is None or is_const(d):
                bad["wrong-delay"] = "a skip sleeps a wrong time"
            if log and log[0][0] == "F":
                bad["skip-ignored"] = "a skipped call is made"
                return
            continue
        if d is None and a > 0 or d is not None and d != const(max(a, 0)):
            bad["wrong-delay"] = "the delay of the strategy (%s) is not " \
                "used" % a
        cut = cancel is not None and cancel[:2] == ("W", nw)
        nw += 1
        if log and log[0][0] == "F":
            log.pop(0)
        elif not cut:
            bad["not-called"] = "the callback is not called after the delay"
            return
        if cut:
            break
    if cut:
        if log:
            bad["cancel-lost"] = "the recurrence goes on after its " \
                "cancellation"
        elif not (k == "raise" and is_cancel(v)):
            bad["cancel-lost"] = "a cancellation is swallowed"


def delays(s):
    return [x[1] for x in s.mon.log if x[0] == "D"]


def periodic(ctx):
    R = "periodic-protocol"
    ctx.rule(R, "the first call comes after delay, the following after "
             "interval; a running callback cannot be started again; stop() "
             "cancels the running task and returns an awaitable of its end; "
             "a callback never started reports RuntimeError; after stop() it "
             "can be started again and the end of an old run does not detach "
             "the new one")
    for cls, arg, cron in (("aiomisc.periodic.PeriodicCallback", 10, False),
                           ("aiomisc.cron.CronCallback", "* * * * *", True)):
        c = ctx.p.cls(cls)
        f = c.find_method("start")
        name = c.name
        bad = {}

        def drive(lines, sh=FALSE, **kw):
            r = Rec(ctx, **kw)
            it, outs = harness(
                ctx, r, "async def driver(cls, fn, loop, arg, run, late, sh, "
                "a, b, ign):"
                "\n    pc = cls(fn, a, k=b)\n    " + "\n    ".join(
                    lines) + "\n",
                cls=("cls", c.cid), fn=FN, loop=LOOP, run=RUN, late=LATE,
                arg=const(arg), sh=sh, a=A1, b=A2,
                ign=("tuple", (("ext", "KeyError"),)))
            bad.update(r.bad)
            return r, it, outs

        if not cron:
            for first, opt in ((3, ", delay=3"), (0, ", delay=0"), (0, "")):
                r, it, outs = drive([
                    "pc.start(arg, loop=loop%s)" % opt, "return run()"],
                    cancel=("D", 3))
                if not outs:
                    bad["delays"] = "the callback is not repeated"
                for k, v, s in outs:
                    ds = delays(s)
                    log = [x[0] for x in s.mon.log if x[0] in "DF"]
                    if not first and log[:1] == ["F"]:
                        ds = [const(0)] + ds    # no wait is needed
                    want = [const(first)] + [const(10)] * 4
                    if ds != want[:len(ds)] or len(ds) < 4:
                        bad["delays"] = "the delays are not delay, " \
                            "interval, interval..."
                    if k == "v":
                        bad["ends"] = "the recurrence ends by itself"
            # run again: delay applies again
            r, it, outs = drive([
                "pc.start(arg, loop=loop, delay=3)", "pc.stop()",
                "pc.start(arg, loop=loop, delay=4)", "return run()"],
                cancel=("D", 1))
            if not any(const(4) in delays(s) for k, v, s in outs):
                bad["delays"] = "the delay of a restart is not used"
        for shield, wrong in ((TRUE, "plain"), (FALSE, "shielded")):
            r, it, outs = drive(["pc.start(arg, loop=loop, shield=sh)",
                                 "return run()"], sh=shield, cancel=("D", 1))
            if wrong in r.seen or not r.seen:
                bad["shield"] = "the shield option is not respected"
        for calls in ("KK", "ZZ"):
            r, it, outs = drive([
                "pc.start(arg, loop=loop, suppress_exceptions=ign)",
                "return run()"], cancel=("D", 2), calls=calls, listed=True)
            for k, v, s in outs:
                silent(bad, r, s.mon.log)
        if other_loop(ctx, c, ", loop=own"):
            bad["other-loop"] = "the callback does not run in the given loop"
        # started twice
        r, it, outs = drive(["pc.start(arg, loop=loop)",
                             "pc.start(arg, loop=loop)"])
        for k, v, s in outs:
            if not (k == "raise" and "InvalidStateError" in v[1]):
                bad["started-twice"] = "a running callback is started again"
            if len(tasks(s)) != 1:
                bad["started-twice"] = "two tasks run the callback"
        # stopped; stopped, restarted while the first run ends late, stopped
        wait = ["aw = pc.stop()", "try:", "    await aw",
                "except BaseException:", "    pass"]
        r, it, outs = drive(["pc.start(arg, loop=loop)"] + wait)
        stopped(bad, "not-cancelled", "not-awaitable", outs, 1)
        r, it, outs = drive(
            ["pc.start(arg, loop=loop)", "pc.stop()"] + (
                ["late()"] if cron else []) +
            ["pc.start(arg, loop=loop)"] + (
                [] if cron else ["late()"]) + wait, alone=False)
        stopped(bad, "restart", "restart", outs, 2)
        # never started
        r, it, outs = drive(["await pc.stop()"])
        for k, v, s in outs:
            if k != "raise" or "RuntimeError" not in v[1]:
                bad["not-started"] = "stop() of a callback that was not " \
                    "started does not report it"
        for x in sorted({"delays", "ends", "started-twice", "not-cancelled",
                         "shield", "not-awaitable", "restart", "not-started",
                         "arguments", "logged", "silent", "other-loop"}
                        | set(bad)):
            ctx.require(R, "%s %s" % (name, x), x not in bad,
                        "%s:%s" % (name, x), f.loc(), bad.get(x, ""))
    cron_next(ctx, R)


def tasks(s):
    return [t for t, x in s.mon.tasks if t[0] == "task"]


def stopped(bad, not_cancelled, not_awaited, outs, n):
    if not outs:
        bad[not_awaited] = "what stop() returned does not end"
    for k, v, s in outs:
        ts = tasks(s)
        if k != "v" or len(ts) != n:
            bad[not_cancelled] = "the callback cannot be stopped"
        elif ts[-1] not in s.mon.cancels:
            bad[not_cancelled] = "stop() does not cancel the task"
        elif dict(s.mon.tasks)[ts[-1]] is None:
            bad[not_awaited] = "stop() does not return an awaitable of " \
                "the end of the task"


class Clock(Plain):
    def initial(self):
        return Mon(now=(), base=None)

    def on_call(self, it, ev, st):
        if is_method(ev, "get_next"):
            b = ev.args[1] if len(ev.args) > 1 else ev.kw.get("start_time")
            return [("v", ("sym", "next", "float"), st.with_mon(
                st.mon.set(base=b)))]
        return None


def cron_next(ctx, R):
    c = ctx.p.cls("aiomisc.cron.CronCallback")
    m = c.find_method("get_next")
    if m is None:
        ctx.note("CronCallback.get_next is gone: delay not decided")
        return
    r = Clock(ctx)
    it, outs = harness(
        ctx, r, "def driver(cls, cron, rc):\n"
        "    return cls.get_next(cron, rc)\n", cls=("cls", c.cid),
        cron=("sym", "cron", "croniter.croniter"), rc=("sym", "rc", None))
    nxt = ("sym", "next", "float")
    ok = bool(outs)
    for k, v, s in outs:
        base = s.mon.base
        if k != "v" or v != ("op", "Sub", nxt, base) or base is None:
            ok = False
    ctx.require(R, "cron: the delay is next tick minus the time it was "
                "computed from", ok, "CronCallback:next", m.loc(),
                "the delay is not the next tick after now minus now")
