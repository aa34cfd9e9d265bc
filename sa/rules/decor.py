"""The decorators which move functions to threads, and their helpers."""
from .threads import *
from .threads import MOD

EX = ("obj", ("executor",), "concurrent.futures.Executor")
DETACH = ("sym", "detach", None)
SNAME = ("sym", "statistic name", None)
SIZE = const(5)
ITER = MOD.replace("thread_pool", "iterator_wrapper") + ".IteratorWrapper"
SEP = MOD + ".IteratorWrapperSeparate"


class Helpers(Jobs):
    """A function of the user (kind) goes through a decorator."""
    marks = Jobs.marks + ("awaken", "probe")
    kind = "function"
    running = True
    made_iterators = None

    def initial(self):
        return self.world_mon(armed=False, pool=None, subs=(),
                              running=self.running, wrapped=())

    def on_call(self, it, ev, st):
        m, n, a = st.mon, ev.name, list(ev.args)
        if is_ext(ev, "asyncio.iscoroutinefunction",
                  "inspect.iscoroutinefunction"):
            return [("v", TRUE if self.kind == "coroutine" else FALSE, st)]
        if is_ext(ev, "inspect.isgeneratorfunction"):
            return [("v", TRUE if self.kind == "generator" else FALSE, st)]
        if is_ext(ev, "isinstance") and a[0] in FNS and any(
                x == ("ext", t) for x in atoms(a[1]) for t in (
                    "int", "bool", "float", "str")):
            return [("v", FALSE, st)]
        if is_ext(ev, "inspect.isasyncgenfunction"):
            return [("v", FALSE, st)]
        if is_ext(ev, "asyncio.get_running_loop", "asyncio.get_event_loop",
                  "asyncio._get_running_loop") and not m.running:
            if "_get" in n:
                return [("v", NONE, st)]
            return [("raise", ("exc", "RuntimeError", True, "no loop"), st)]
        if ev.kind == "call" and n == "run_in_executor" and not isinstance(
                ev.extra, FuncInfo):
            if len(a) == 2:
                return [("v", ("aw", "job", (a[1],), (), None),
                         self.log(st, "executor", a[0]))]
        if ev.kind == "new" and ev.rtype in (ITER, SEP):
            w = ("obj", ("wrapper", len(m.wrapped)), ev.rtype)
            return [("v", w, self.put(st, wrapped=m.wrapped + ((
                w, kwarg(ev, "gen_func", 0, NONE),
                kwarg(ev, "max_size", 2, const(0))),)))]
        if ev.kind == "new" and ev.extra.name == "ThreadPoolStatistic":
            return [("v", ("obj", ("statistic",), ev.rtype), self.log(
                st, "statistic", kwarg(ev, "name", 0, NONE)))]
        if is_ext(ev, "threading.Thread"):
            st = self.log(st, "daemon", kwarg(ev, "daemon", 5, NONE))
            return self.world_call(it, ev, st)
        return super().on_call(it, ev, st)

    def note(self, it, ev, st):
        if ev.kind == "attrset" and ev.name == "daemon" and \
                it.typeof(ev.recv) == "threading.Thread":
            return self.log(st, "daemon", ev.value)
        return super().note(it, ev, st)

    def on_await(self, it, ev, st):
        if ev.value[0] == "aw" and ev.value[1] == "job":
            return self.as_who(it, "caller", st, lambda q: it.call_value(
                ev.value[2][0], [], q))
        return super().on_await(it, ev, st)

    def mark(self, it, ev, n, a, st):
        if n == "awaken":
            return [("v", NONE, self.put(st, running=True))]
        if n == "probe":       # the thread starts to iterate
            for w, g, size in st.mon.wrapped:
                if w == a[0]:
                    return it.call_value(g, [], self.log(
                        st, "iterator", w[2], size))
            return [("v", NONE, st)]
        return super().mark(it, ev, n, a, st)


def helper(ctx, name, body, **kw):
    rule = Helpers(ctx, **{k: v for k, v in kw.items() if k not in ("d",)})
    f = ctx.p.func(MOD + "." + name)
    env = dict(t=("func", f.fid, None), f=FNS[0], a=ARGS[0], ex=EX,
               d=kw.get("d", DETACH), s=SNAME, size=SIZE)
    names = rule.env()
    env.update(names)
    it, outs = harness(
        ctx, rule, "async def driver(%s):\n    %s\n" % (
            ", ".join(env), body.replace("\n", "\n    ")), **env)
    return rule, it, outs


def same(v, log, msg, rule, outs):
    """The function ran once, with its arguments, and its outcome is ours."""
    for k, x, st in outs:
        r = ran(st.mon, 0)
        if len(r) != 1 or not r[0][3]:
            v.add("arguments", "%s does not call the function once with the "
                  "arguments given" % msg)
        elif (k, x) != rule.outcome_of(0):
            v.add("outcome", "%s does not give the outcome of the function"
                  % msg)
    if not outs:
        v.add("outcome", "%s never ends" % msg)


def decorators(ctx):
    R = "threaded-decorators"
    ctx.rule(R, "threaded, threaded_separate, threaded_iterable, "
             "threaded_iterable_separate, run_in_executor and "
             "run_in_new_thread: the function is called once with exactly "
             "the arguments given, its outcome is that of the await; "
             "coroutine functions raise TypeError; executor, detach, "
             "no_return, max_size and statistic name are those given")
    names = ("arguments", "outcome", "executor", "coroutine", "iterable",
             "options", "thread")
    # threaded and run_in_executor
    for name, calls, ex in (
            ("threaded", ("t(f)(a, k=a)",), NONE),
            ("run_in_executor", ("t(f, ex, (a,), {'k': a})",
                                 "t(f, executor=ex, args=(a,), "
                                 "kwargs={'k': a})"), EX)):
        v = Verdicts(ctx, R, *names[:5])
        for call in calls:
            for running in (True, False):
                for how in OUTCOMES:
                    rule, it, outs = helper(
                        ctx, name, "r = %s\nawaken()\nreturn await r" % call,
                        running=running, how={0: how})
                    outs = [o for o in outs if not how == OUTCOMES[2] or
                            ran(o[2].mon, 0) or o[0] == "v"]
                    same(v, None, name, rule, outs)
                    for k, x, st in outs:
                        es = [y[1] for y in st.mon.log
                              if y[0] == "executor"]
                        if es != [ex]:
                            v.add("executor", "%s does not use the executor "
                                  "given, or the default one" % name)
        if name == "threaded":
            rule, it, outs = helper(ctx, name, "t(f)", kind="coroutine")
            if any(k == "v" or x[1] != "TypeError" for k, x, st in outs):
                v.add("coroutine", "a coroutine function is accepted")
            rule, it, outs = helper(ctx, name, "w = t(f)(a, k=a)\n"
                                    "return probe(w)", kind="generator")
            iterators(v, rule, outs, name, ITER, const(0))
        v.done(name, ctx.p.func(MOD + "." + name).loc())
    # new threads
    go = "later(0, %s)\nbegin(2)\ngo()"
    steps = (("loop",), ("threads",), ("loop",))
    for name, calls in (
            ("run_in_new_thread", (
                ("t(f, (a,), {'k': a})", TRUE, NONE, True),
                ("t(f, args=(a,), kwargs={'k': a}, detach=d, "
                 "statistic_name=s)", DETACH, SNAME, True),
                ("t(f, (a,), {'k': a}, detach=d, no_return=True)", DETACH,
                 NONE, False))),
            ("threaded_separate", (
                ("t(f)(a, k=a)", TRUE, NONE, True),
                ("t(f, detach=d)(a, k=a)", DETACH, NONE, True),
                ("t(True, detach=d)(f)(a, k=a)", DETACH, NONE, True)))):
        v = Verdicts(ctx, R, *names[:2], "options", "thread", "coroutine")
        for call, detach, sname, settled in calls:
            for how in OUTCOMES:
                rule, it, outs = helper(ctx, name, go % call, how={0: how},
                                        steps=steps)
                ends = [o for o in outs if o[0] == "v"]
                if not ends:
                    v.add("outcome", name + " does not return")
                for k, x, st in ends:
                    m = st.mon
                    r = ran(m, 0)
                    if len(r) != 1 or not r[0][3]:
                        v.add("arguments", "%s does not call the function "
                              "once with the arguments given" % name)
                        continue
                    if r[0][4][0] != "thread":
                        v.add("thread", "the function does not run in a "
                              "thread of its own")
                    status = rule.status(dict(m.subs)[0], st)
                    if settled and status != rule.outcome_of(0):
                        v.add("outcome", "%s does not give the outcome of "
                              "the function" % name)
                    if not settled and status is not None:
                        v.add("options", "no_return is not respected")
                    if [y[1] for y in m.log
                            if y[0] == "daemon"][-1:] != [detach]:
                        v.add("options", "detach is not respected")
                    if [y[1] for y in m.log
                            if y[0] == "statistic"] != [sname]:
                        v.add("options", "the name of the statistic is lost")
        if name == "threaded_separate":
            rule, it, outs = helper(ctx, name, "t(f)", kind="coroutine")
            if any(k == "v" or x[1] != "TypeError" for k, x, st in outs):
                v.add("coroutine", "a coroutine function is accepted")
        v.done(name, ctx.p.func(MOD + "." + name).loc())
    # iterables
    for name, cls in (("threaded_iterable", ITER),
                      ("threaded_iterable_separate", SEP)):
        v = Verdicts(ctx, R, "iterable", "arguments", "options", "thread")
        for call, size in (
                ("t(f)", const(0)), ("t()(f)", const(0)), ("t(5)(f)", SIZE),
                ("t(max_size=size)(f)", SIZE), ("t(f, size)", SIZE)):
            rule, it, outs = helper(
                ctx, name, "w = %s(a, k=a)\nreturn probe(w)" % call,
                kind="generator")
            iterators(v, rule, outs, "%s used as %s" % (name, call), cls,
                      size)
        f = ctx.p.cls(cls).find_method("_run")
        rule = Helpers(ctx)
        it, outs = harness(
            ctx, rule, "def driver(run, w):\n    run(w)\n",
            run=("func", f.fid, None), w=("obj", ("wrapper",), cls))
        for k, x, st in outs:
            es = [y for y in st.mon.log if y[0] == "executor"]
            if k == "v" and len(st.mon.threads) + len(es) != 1 or \
                    cls == SEP and es or cls != SEP and st.mon.threads:
                v.add("thread", "the generator is not iterated in the "
                      "kind of thread asked for")
        v.done(name, ctx.p.func(MOD + "." + name).loc())


def iterators(v, rule, outs, name, cls, size):
    for k, x, st in outs:
        log = [y for y in st.mon.log if y[0] == "iterator"]
        if k != "v" or len(log) != 1 or log[0][1] != cls:
            v.add("iterable", "%s gives no iterator in such a thread" % name)
            continue
        if log[0][2] != size and size is not None:
            v.add("options" if "options" in v.names else "iterable",
                  "%s: max_size is not respected" % name)
        r = ran(st.mon, 0)
        if len(r) != 1 or not r[0][3]:
            v.add("arguments", "%s does not call the function once with the "
                  "arguments given" % name)
    if not outs:
        v.add("iterable", "%s does not return" % name)


GROWTH = """
def driver(TP, new, f0, f1, f2, f3, a0, a1, a2, a3, M):
    p = TP(%d)
    begin(0)
%s"""
SOME = "    later(%d, p.submit(f0, a0, k=a0))\n    begin(%d)\n"


class Growing(Jobs):
    """Counts the threads after each submission."""

    def initial(self):
        return self.world_mon(armed=False, pool=None, subs=(), counts=())

    def on_call(self, it, ev, st):
        if is_ext(ev, "callable") and is_const(ev.args[0]):
            return [("v", FALSE, st)]
        return super().on_call(it, ev, st)

    def act(self, it, ev, step, st):
        if step == ("forget",):
            return [s for k, v, s in self.method(
                it, ev, st.mon.pool, "__del__", [], st)]
        return super().act(it, ev, step, st)

    def mark(self, it, ev, n, a, st):
        if n == "begin":
            m = st.mon
            return [("v", NONE, self.put(st, counts=m.counts + (len(
                [t for t in m.threads if t[4] != "new"]),)))]
        return super().mark(it, ev, n, a, st)


def growth(ctx):
    R = "pool-size"
    ctx.rule(R, "a pool of n workers never has more than n threads, at least "
             "one from the beginning, and, with j unfinished jobs, at least "
             "min(j, n) started threads; submit() refuses what cannot be "
             "called; a pool that is forgotten ends its threads")
    f = ctx.p.func(TP + ".submit")
    v = Verdicts(ctx, R, "too-many", "too-few", "not-callable", "forgotten")
    for n in (1, 2, 3, 5, 8):
        rule, it, outs = run(
            ctx, GROWTH % (n, "".join(SOME % (i, i) for i in range(n + 1))),
            Growing)
        ends = 0
        for k, x, st in outs:
            if k != "v":
                continue
            ends += 1
            for j, c in enumerate(st.mon.counts):
                if c > n:
                    v.add("too-many", "a pool of %d workers has %d threads"
                          % (n, c))
                if c < max(1, min(j, n)):
                    v.add("too-few", "a pool of %d workers has %d threads "
                          "for %d jobs" % (n, c, j))
        if not ends:
            v.add("too-few", "submitting jobs fails")
    for x in ("None", "5", "'x'"):
        rule, it, outs = run(ctx, GROWTH % (2, "    p.submit(%s)\n" % x),
                             Growing)
        if any(k == "v" or x[1] not in ("ValueError", "TypeError")
               for k, x, st in outs):
            v.add("not-callable", "submit(%s) is accepted" % x)
    if "__del__" in ctx.p.cls(TP).methods:
        rule, it, outs = run(ctx, GROWTH % (2, SOME % (0, 0)
                                            + "    go()\n"), Growing,
                             steps=(("thread", 0), ("thread", 1),
                                    ("forget",)))
        for k, x, st in outs:
            if any(t[4] != "ended" for t in st.mon.threads):
                v.add("forgotten", "the threads of a pool nobody uses any "
                      "more go on for ever")
    else:
        v.add("forgotten", "the threads of a pool nobody uses any more go "
              "on for ever")
    v.done("pool", f.loc())
