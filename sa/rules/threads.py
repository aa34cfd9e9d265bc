"""Thread pool, new threads, waiting for coroutines from threads.

Drivers submit abstract functions in an abstract world of threads and loops
(world.World); what a function does, when threads run and who intrudes is
enumerated."""
from .lib import *
from .world import LOOP, LOOP2, World

TP = "aiomisc.thread_pool.ThreadPoolExecutor"
MOD = "aiomisc.thread_pool"
N = 4
FNS = tuple(("obj", ("fn", i), "label") for i in range(N))
ARGS = tuple(("sym", "arg%d" % i, None) for i in range(N))
RETS = tuple(("sym", "returned%d" % i, None) for i in range(N))
ERR = ("exc", "Exception", False, "job")
BASEUSER = ("exc", "BaseException", False, "user")
CANCELLED_JOB = ("exc", CANCELLED, True, "job")
OUTCOMES = ("returns", "raises an exception", "raises any BaseException",
            "raises CancelledError")
SHUTDOWN = ("shutdown",)


class Jobs(World):
    """how[i]: what job i does; inside: the step taken while it runs."""
    marks = ("go", "cancel", "begin", "close_loop2", "use", "later", "arm")
    how = {}
    inside = {}
    steps = ()
    intruder = None

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.reached = set()

    def initial(self):
        return self.world_mon(armed=False, pool=None, subs=())

    def env(self):
        return {n: ("sym", "$" + n, "callable") for n in self.marks}

    def outcome_of(self, i):
        return {
            "returns": ("v", RETS[i]), "raises an exception": ("raise", ERR),
            "raises any BaseException": ("raise", BASEUSER),
            "raises CancelledError": ("raise", CANCELLED_JOB),
        }[self.how.get(i, "returns")]

    def act(self, it, ev, step, st):
        if step == SHUTDOWN:
            return [s for k, v, s in self.as_who(
                it, "closer", st, lambda q: self.method(
                    it, ev, q.mon.pool, "shutdown", [FALSE], q))]
        if step[0] == "submit":
            i = step[1]
            out = []
            for k, v, s in self.as_who(
                    it, "other", st, lambda q: self.method(
                        it, ev, q.mon.pool, "submit",
                        [FNS[i], ARGS[i]], q, {"k": ARGS[i]})):
                out.append(self.put(s, subs=s.mon.subs + ((i, v),))
                           if k == "v" else s)
            return out
        if step[0] == "cancel":
            out = []
            for k, v, s in self.cancel_task(
                    it, dict(st.mon.subs)[step[1]], st):
                out.append(s)
            return out
        if step[0] == "stuck":
            self.block(it, ev, st, lambda s: None)
            return []
        return super().act(it, ev, step, st)

    def method(self, it, ev, obj, name, args, st, kw={}):
        f = it.classinfo(obj).find_method(name)
        return it.call(("bm", obj, f.fid), args, dict(kw), self.place(
            1 if name == "submit" else 2), it.top_frame(), st)

    def on_attr(self, it, base, name, st):
        if name == "name" and "Statistic" in str(it.typeof(base)):
            return NONE
        return super().on_attr(it, base, name, st)

    def preempt(self, it, node, fr, st):
        out = [st]
        m = st.mon
        if m.armed and m.who == "caller" and fr.func.module.name == MOD:
            out += self.act(it, Ev("preempt", node, fr), self.intruder,
                            self.put(st, armed=False))
        return out

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind == "new" and ev.rtype == TP:
            return None
        if ev.kind == "call" and ev.callee in FNS:
            i = FNS.index(ev.callee)
            self.reached.add(i)
            st = self.log(st, "ran", i, m.ctx, list(ev.args) == [ARGS[i]]
                          and ev.kw == {"k": ARGS[i]}, m.who)
            cur = [st]
            if i in self.inside:
                cur = self.act(it, ev, self.inside[i], st)
            return [self.outcome_of(i) + (s,) for s in cur]
        if ev.kind == "call" and ev.callee is not None and \
                ev.callee[0] == "sym" and str(ev.callee[1])[:1] == "$":
            return self.mark(it, ev, ev.callee[1][1:], list(ev.args), st)
        if is_ext(ev, "callable") and ev.args[0] in FNS:
            return [("v", TRUE, st)]
        if is_ext(ev, "asyncio.iscoroutinefunction",
                  "inspect.isgeneratorfunction",
                  "inspect.iscoroutinefunction"):
            return [("v", FALSE, st)]
        return super().on_call(it, ev, st)

    def mark(self, it, ev, n, a, st):
        m = st.mon
        if n == "begin":       # the next submission
            return [("v", NONE, self.put(st, phase=a[0][2]))]
        if n == "later":       # a submitted job
            return [("v", NONE, self.put(st, subs=m.subs + (
                (a[0][2], a[1]),)))]
        if n == "arm":
            return [("v", NONE, self.put(st, armed=a[0] == TRUE))]
        if n == "cancel":
            return [("v", NONE, s) for s in self.act(
                it, ev, ("cancel", a[0][2]), st)]
        if n == "use":         # the current loop
            return [("v", NONE, self.put(
                st, loop=LOOP if a[0][2] == 1 else LOOP2))]
        if n == "close_loop2":
            return [("v", NONE, self.put(st, closed=(LOOP2,)))]
        if n == "go":
            cur = [self.put(st, plan=self.steps)]
            res = []
            while cur:
                s = cur.pop()
                if s.mon.plan:
                    cur += self.next_step(it, ev, s)
                else:
                    res.append(s)
            return [("v", NONE, s) for s in res]
        raise AssertionError(n)

    def note(self, it, ev, st):
        if ev.kind == "new" and ev.rtype == TP:
            return self.put(st, pool=ev.value)
        return super().note(it, ev, st)


POOL = """
def driver(TP, new, f0, f1, f2, f3, a0, a1, a2, a3, M):
    p = TP(4)
    begin(1)
    later(0, p.submit(f0, a0, k=a0))
    go()
"""
POOL2 = """
def driver(TP, new, f0, f1, f2, f3, a0, a1, a2, a3, M):
    p = TP(4)
    begin(1)
    later(0, p.submit(f0, a0, k=a0))
    begin(2)
    later(1, p.submit(f1, a1, k=a1))
    begin(3)
    go()
"""
NEW = """
def driver(TP, new, f0, f1, f2, f3, a0, a1, a2, a3, M):
    begin(1)
    later(0, new(f0, (a0,), {"k": a0}))
    begin(2)
    go()
"""
CANCEL_FIRST = "    cancel(0)\n    go()\n"
GROWN = """
def driver(TP, new, f0, f1, f2, f3, a0, a1, a2, a3, M):
    p = TP(4)
    later(0, p.submit(f0, a0, k=a0))
    later(1, p.submit(f1, a1, k=a1))
    later(2, p.submit(f2, a2, k=a2))
    later(3, p.submit(f3, a3, k=a3))
    go()
"""
WAITING = """
def driver(TP, new, f0, f1, f2, f3, a0, a1, a2, a3, M):
    p = TP(4)
    later(0, p.submit(f0, a0, k=a0))
    go()
    plan(1)
    p.shutdown()
    go()
"""
TWICE = WAITING + "    p.shutdown()\n    p.shutdown(False)\n"
STUCK = WAITING.replace("shutdown()", "shutdown(wait=False)")
CLOSED = """
def driver(TP, new, f0, f1, f2, f3, a0, a1, a2, a3, M):
    p = TP(4)
    later(0, p.submit(f0, a0, k=a0))
    use(2)
    later(1, p.submit(f1, a1, k=a1))
    use(1)
    later(2, p.submit(f2, a2, k=a2))
    close_loop2()
    go()
    later(3, p.submit(f3, a3, k=a3))
"""
RACE = """
def driver(TP, new, f0, f1, f2, f3, a0, a1, a2, a3, M):
    p = TP(4)
    later(0, p.submit(f0, a0, k=a0))
    arm(True)
    try:
        later(1, p.submit(f1, a1, k=a1))
    except Exception:
        pass
    arm(False)
    go()
"""
REFUSED = """
def driver(TP, new, f0, f1, f2, f3, a0, a1, a2, a3, M):
    p = TP(4)
    later(0, p.submit(f0, a0, k=a0))
    arm(True)
    later(1, p.submit(f1, a1, k=a1))
"""
RACE2 = """
def driver(TP, new, f0, f1, f2, f3, a0, a1, a2, a3, M):
    p = TP(4)
    later(0, p.submit(f0, a0, k=a0))
    arm(True)
    p.shutdown(False)
    arm(False)
    go()
"""


def run(ctx, src, rule_cls=Jobs, **kw):
    rule = rule_cls(ctx, **kw)
    new = ctx.p.func(MOD + ".run_in_new_thread")
    env = dict(TP=("cls", ctx.p.cls(TP).cid), new=("func", new.fid, None),
               M=NONE)
    env.update(("f%d" % i, x) for i, x in enumerate(FNS))
    env.update(("a%d" % i, x) for i, x in enumerate(ARGS))
    names = rule.env()
    src = src.replace(", M)", ", %s)" % ", ".join(names))
    env.pop("M")
    env.update(names)
    it, outs = harness(ctx, rule, src, **env)
    return rule, it, outs


class Verdicts:
    def __init__(self, ctx, R, *names):
        self.ctx, self.R, self.names, self.bad = ctx, R, names, {}

    def add(self, name, msg):
        self.bad.setdefault(name, msg)

    def done(self, who, loc):
        for x in self.names:
            self.ctx.require(self.R, who + " " + x, x not in self.bad,
                             who + ":" + x, loc, self.bad.get(x, ""))


def ran(m, i):
    return [x for x in m.log if x[0] == "ran" and x[1] == i]


def jobs(ctx):
    """Each job's future is settled once, from its loop, with its outcome."""
    R = "job-settled"
    ctx.rule(R, "a function handed to the pool / a new thread (returning, "
             "raising Exception, BaseException, CancelledError): after the "
             "thread and the loop ran, its future has exactly that outcome, "
             "the function ran once with its arguments, no method of the "
             "future or unsafe method of the loop was called in the thread; "
             "a job cancelled before is not run, one cancelled meanwhile "
             "is not settled again")
    for who, src, fid in (("submit", POOL, TP + ".submit"),
                          ("run_in_new_thread", NEW,
                           MOD + ".run_in_new_thread")):
        v = Verdicts(ctx, R, "never-run", "run-twice", "wrong-arguments",
                     "wrong-outcome", "unsettled", "touched-in-thread",
                     "settled-twice", "cancelled-runs", "escapes")
        steps = (("loop",), ("threads",), ("loop",))
        for how in OUTCOMES:
            for case in ("plain", "cancelled before", "cancelled meanwhile"):
                kw = dict(how={0: how}, steps=steps)
                s = src
                if case == "cancelled before":
                    s = src.replace("    go()\n", CANCEL_FIRST)
                if case == "cancelled meanwhile":
                    kw["inside"] = {0: ("cancel", 0)}
                rule, it, outs = run(ctx, s, **kw)
                ends = [st for k, x, st in outs if k == "v"]
                if not ends:
                    v.add("unsettled", "submitting does not return")
                for st in ends:
                    job_end(v, rule, st, how, case)
        v.done(who, ctx.p.func(fid).loc())


def job_end(v, rule, st, how, case):
    m = st.mon
    n = ran(m, 0)
    fut = dict(m.subs)[0]
    status = rule.status(fut, st)
    for x in m.log:
        if x[0] == "touched":
            v.add("touched-in-thread", "%s() is called on loop objects from "
                  "the worker thread" % x[1])
        if x[0] == "callback-raised":
            v.add("settled-twice", "a future that is done is settled again")
        if x[0] == "thread-raised":
            v.add("escapes", "an exception (%s) leaves the thread when the "
                  "function %s" % (x[2], how))
    if case == "cancelled before":
        if n:
            v.add("cancelled-runs", "a job cancelled before it starts is "
                  "executed anyway")
        return
    if not n:
        v.add("never-run", "the submitted function is never called")
        return
    if len(n) > 1:
        v.add("run-twice", "the function is executed twice")
    if not n[0][3]:
        v.add("wrong-arguments", "the function gets other arguments")
    if n[0][4][0] != "thread":
        v.add("never-run", "the function does not run in a thread")
    if case != "plain":
        return
    if status is None:
        v.add("unsettled", "the future stays pending when the function "
              + how)
    elif status != rule.outcome_of(0):
        v.add("wrong-outcome", "the function %s, the future gets %s" % (
            how, status[1][1]))


def context_copied(ctx):
    R = "context-copied"
    ctx.rule(R, "every function executed in a thread runs inside "
             "Context.run of a contextvars context that was copied during "
             "its own submission, by the submitter; each job has its own")
    for who, src, fid in (("submit", POOL2, TP + ".submit"),
                          ("run_in_new_thread", NEW,
                           MOD + ".run_in_new_thread")):
        v = Verdicts(ctx, R, "no-context", "context-not-copied")
        rule, it, outs = run(ctx, src, steps=(("loop",), ("threads",)))
        n = 0
        for k, x, st in outs:
            for r in [r for r in st.mon.log if r[0] == "ran"]:
                n += 1
                if r[2] is None:
                    v.add("no-context", "the function runs outside of a "
                          "context")
                    continue
                if not any(c == r[2] and w == "caller" and ph == r[1] + 1
                           for c, w, ph in st.mon.made):
                    v.add("context-not-copied", "the context a job runs in "
                          "is not copied at its submission")
        if not n:
            ctx.note("no job ran for %s: not decided" % who)
        v.done(who, ctx.p.func(fid).loc())


def pool_threads(ctx):
    R = "pool-threads-survive"
    ctx.rule(R, "a thread of the pool that ran a job (any outcome, cancelled "
             "before or meanwhile) runs the next one and then waits for "
             "more; when the pool is shut down, every thread ends, also "
             "those waiting and those busy; shutdown() returns when they "
             "did, or after a time if one is stuck")
    loc = ctx.p.func(TP + ".shutdown").loc()
    v = Verdicts(ctx, R, "killed", "ends", "never-ends", "returns-early",
                 "hangs")
    for how in OUTCOMES:
        for case in ("plain", "cancelled before", "cancelled meanwhile"):
            kw = dict(how={0: how}, steps=(("thread", 0), ("loop",)))
            s = POOL2
            if case == "cancelled before":
                s = s.replace("    go()\n", CANCEL_FIRST)
            if case == "cancelled meanwhile":
                kw["inside"] = {0: ("cancel", 0)}
            rule, it, outs = run(ctx, s, **kw)
            for k, x, st in outs:
                if any(y[0] == "thread-raised" for y in st.mon.log):
                    v.add("killed", "an exception of a job ends the thread")
                elif any(y[0] == "thread-ended" for y in st.mon.log):
                    v.add("ends", "the thread ends although the pool is "
                          "open (a job that %s, %s)" % (how, case))
                elif not ran(st.mon, 1):
                    v.add("ends", "the next job is not run (after a job "
                          "that %s, %s)" % (how, case))
    # all threads end
    for case, inside in (("waiting", {}), ("busy", {0: SHUTDOWN})):
        steps = (("thread", 0), ("thread", 1), ("thread", 2), ("thread", 3))
        if case == "waiting":
            steps += (SHUTDOWN,)
        rule, it, outs = run(ctx, GROWN, steps=steps, inside=inside)
        for k, x, st in outs:
            for t in st.mon.threads:
                if t[4] != "ended":
                    v.add("never-ends", "a %s thread does not end when the "
                          "pool is shut down (%s)" % (
                              case if t[4] == "blocked" else "new", t[4]))
    # shutdown() waits, a bounded time
    for case in ("ending", "stuck"):
        rule, it, outs = run(
            ctx, WAITING, Waiting, pauses=(("thread", 0), ("thread", 1)),
            steps=(("thread", 0),) if case == "stuck" else (),
            inside={0: ("stuck",)} if case == "stuck" else {})
        ends = [st for k, x, st in outs if k == "v"]
        if not ends:
            v.add("hangs", "shutdown() waits for ever when a thread is %s"
                  % case)
        for st in ends:
            if case == "ending" and st.mon.now < 5 and any(
                    t[4] != "ended" for t in st.mon.threads):
                v.add("returns-early", "shutdown() returns while threads "
                      "are running")
            if case == "ending" and st.mon.now > 50 and all(
                    t[4] == "ended" for t in st.mon.threads):
                v.add("hangs", "shutdown() waits on when all threads have "
                      "ended")
    v.done("pool", loc)


class Waiting(Jobs):
    """plan(1): the threads run while somebody waits."""
    marks = Jobs.marks + ("plan",)

    def mark(self, it, ev, n, a, st):
        if n == "plan":
            return [("v", NONE, self.put(st, plan=self.pauses))]
        return super().mark(it, ev, n, a, st)


def pool_shutdown(ctx):
    R = "pool-shutdown"
    ctx.rule(R, "futures of three jobs (one done, one of a closed loop) when "
             "the pool is shut down from another thread: every other one is "
             "failed on its loop, nothing is settled twice; a later submit() "
             "raises; shutdown() between any two statements of submit() and "
             "submit() between any two statements of shutdown(): the job is "
             "refused or its future is settled")
    sd = ctx.p.func(TP + ".shutdown").loc()
    v = Verdicts(ctx, R, "pending-left", "not-failed", "accepted",
                 "settled-twice", "touched-in-thread", "fails",
                 "race-pending", "waits")

    def look(st, rule, also=()):
        for x in st.mon.log:
            if x[0] == "touched":
                v.add("touched-in-thread", "%s() is called on a future of "
                      "another thread" % x[1])
            if x[0] == "callback-raised":
                v.add("settled-twice", "a future that is done is settled "
                      "again")
    for case in ("idle", "cancelled", "running"):
        steps = (SHUTDOWN, ("loop",), ("threads",), ("loop",))
        kw = dict(steps=steps)
        s = CLOSED
        if case == "cancelled":
            s = s.replace("    go()\n", CANCEL_FIRST)
        if case == "running":
            kw = dict(steps=(("thread", 0),) + steps[1:],
                      inside={0: SHUTDOWN})
        rule, it, outs = run(ctx, s, **kw)
        n = 0
        for k, x, st in outs:
            n += 1
            look(st, rule)
            subs = dict(st.mon.subs)
            if k == "v":
                v.add("accepted", "a job is accepted after shutdown()")
            for i in (0, 2):
                status = rule.status(subs[i], st)
                if status is None:
                    v.add("pending-left", "a pending future is left by "
                          "shutdown() (%s)" % case)
                elif case == "idle" and (
                        status[0] != "raise" or is_cancel(status[1])):
                    v.add("not-failed", "a pending future is not failed")
        if not n:
            v.add("fails", "shutdown() does not return (%s)" % case)
    for case in ("again", "not waiting"):
        rule, it, outs = run(
            ctx, TWICE if case == "again" else STUCK, Waiting,
            pauses=(("thread", 0), ("thread", 1)), steps=(("thread", 0),),
            inside={0: ("stuck",)} if case != "again" else {})
        ends = [st for k, x, st in outs if k == "v"]
        if not ends:
            v.add("fails", "shutdown() %s does not return" % case)
        if case != "again" and any(st.mon.now > 5 for st in ends):
            v.add("waits", "shutdown(wait=False) waits for busy threads")
    for src, step in ((RACE, SHUTDOWN), (RACE2, ("submit", 1))):
        rule, it, outs = run(
            ctx, src, preempts=True, intruder=step,
            steps=(SHUTDOWN, ("loop",), ("threads",), ("loop",)))
        for k, x, st in outs:
            look(st, rule)
            for i, f in st.mon.subs:
                if rule.status(f, st) is None:
                    v.add("race-pending", "a job submitted while the pool "
                          "is shut down is left pending")
    rule, it, outs = run(
        ctx, REFUSED, preempts=True, intruder=SHUTDOWN,
        steps=(SHUTDOWN, ("loop",), ("threads",), ("loop",)))
    for k, x, st in outs:
        if k == "raise" and x[1] != "RuntimeError":
            v.add("accepted", "submit() while the pool is shut down raises "
                  "%s" % x[1])
    v.done("shutdown", sd)


CORO = ("sym", "coro", "coroutine")
CALL = ("sym", "corofunc", "callable")
OUT = ("sym", "outcome", None)
WARG = ("sym", "argument", None)


class Waiter(World):
    """A foreign thread waits for a coroutine."""
    how = "returns"

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.cuts = []

    def initial(self):
        return self.put(State({}, self.world_mon()), who="foreign",
                        plan=(("loop",),)).mon

    def res(self):
        return {"returns": ("v", OUT), "raises an exception": ("raise", ERR),
                "raises any BaseException": ("raise", BASEUSER),
                "raises CancelledError": ("raise", CANCEL)}[self.how]

    def next_step(self, it, ev, st):
        keep, self.cuts = self.cuts, []
        r = super().next_step(it, ev, st)
        r = r + [self.put(s, who=st.mon.who) for s in self.cuts]
        self.cuts = keep
        return r

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind == "call" and ev.callee == CALL:
            return [("v", CORO, self.log(st, "called", list(
                ev.args) == [WARG] and ev.kw == {"k": WARG}, m.who))]
        if ev.kind == "call" and ev.extra == "method" and ev.name == "get" \
                and "ContextVar" in str(it.typeof(ev.recv)):
            return [("v", LOOP, st)]
        if is_ext(ev, "asyncio.iscoroutine", "inspect.iscoroutine",
                  "inspect.isawaitable") and ev.args[0] == CORO:
            return [("v", TRUE, st)]
        if is_method(ev, "result", "exception") and self.is_future(
                ev.recv) and m.who == "foreign":
            def ready(s):
                if self.status(ev.recv, s) is not None:
                    return self.task_call(it, ev, s)
            return self.block(it, ev, st, ready)
        return super().on_call(it, ev, st)

    def note(self, it, ev, st):
        if is_method(ev, "set") and ev.rtype == "threading.Event" and \
                st.mon.who == "loop" and ev.recv not in st.mon.events:
            # the waiting thread may go on at this very moment
            self.cuts.append(self.put(
                st, events=st.mon.events + (ev.recv,)))
        return super().note(it, ev, st)

    def on_await(self, it, ev, st):
        if ev.value == CORO:
            return [self.res() + (self.log(st, "awaited", st.mon.who),)]
        return super().on_await(it, ev, st)


def waiter(ctx):
    """sync_await / wait_coroutine release the thread with the outcome."""
    R = "thread-wait"
    ctx.rule(R, "a thread waiting for a coroutine that returns, raises "
             "Exception, BaseException (possibly falsy) or is cancelled: it "
             "is released (also at the very moment its event is set) and "
             "gets exactly that outcome; the coroutine runs once, on its "
             "loop only")
    for name, src in (
            ("wait_coroutine", "return fn(coro)"),
            ("sync_await", "return fn(call, arg, k=arg)"),
            ("sync_wait_coroutine", "return fn(None, call, arg, k=arg)")):
        f = ctx.p.func(MOD + "." + name)
        v = Verdicts(ctx, R, "touches-loop", "never-runs", "hang",
                     "wrong-outcome", "error-lost", "cancel-lost",
                     "wrong-arguments")
        for how in OUTCOMES:
            rule = Waiter(ctx, how=how)
            it, outs = harness(
                ctx, rule, "def driver(fn, coro, call, arg):\n    %s\n" % src,
                fn=("func", f.fid, None), coro=CORO, call=CALL, arg=WARG)
            if rule.blocked or not outs:
                v.add("hang", "the waiting thread is not released when the "
                      "coroutine " + how)
            for k, x, st in outs:
                m = st.mon
                runs = [y for y in m.log if y[0] == "awaited"]
                if any(y[0] == "touched" for y in m.log):
                    v.add("touches-loop", "the coroutine is scheduled from "
                          "the foreign thread")
                if any(y[0] == "called" and not y[1] for y in m.log):
                    v.add("wrong-arguments", "the function gets other "
                          "arguments")
                if len(runs) != 1 or runs[0][1] != "loop":
                    v.add("never-runs", "the coroutine does not run once on "
                          "the loop")
                    continue
                if (k, x) == rule.res() or how == OUTCOMES[3] and (
                        k == "raise" and is_cancel(x)):
                    continue
                if k == "v" and how == OUTCOMES[3]:
                    v.add("cancel-lost", "a cancelled coroutine looks "
                          "finished")
                elif k == "v" and how != OUTCOMES[0]:
                    v.add("error-lost", "an exception of the coroutine is "
                          "not raised (a falsy one, for example)")
                else:
                    v.add("wrong-outcome", "the thread does not get what "
                          "the coroutine " + how.split()[0])
        v.done(name, f.loc())
