"""Aggregated calls in an abstract loop.

Callers are started one by one; where one has to wait, the steps of its plan
happen: other callers, time, cancellations. A caller whose plan is over stays
where it waits. The executions of the batch function are recorded."""
from .coop import CANCELLED_WAIT, OVER, Coop, call, seq
from .lib import *

MOD = "aiomisc.aggregate"
XS = tuple(("sym", "x%d" % i, None) for i in range(15))
FN = ("sym", "$fn", "callable")
FN2 = ("sym", "$fn2", "callable")
UEXC = ("exc", "Exception", False, "user")
TIMEOUT = ("exc", "TimeoutError", True, "t")
LEEWAY = 10     # ms
FNS = {FN: "fn", FN2: "fn2"}


def R(x):
    return ("sym", "result of " + x[1], None) if x[0] == "sym" else x




class Agg(Coop):
    """how: outcome of execution number i; raced: another caller of the batch
    executes it while one waits for the lock."""
    skip = ("_has_variadic_positional",)
    how = {}
    raced = ()
    inside = {}
    equal = False       # every caller gives the same argument

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.target = {}

    def initial(self):
        return self.coop_mon(futs=(), ws=())

    # callers --------------------------------------------------------------
    def act(self, it, ev, step, st):
        if step[0] == "cancel future":
            return [s2 for f, j in st.mon.futs if j == step[1]
                    for k, v, s2 in self.cancel_task(it, f, st)]
        return super().act(it, ev, step, st)

    def behaviour(self, it, ev, j, st):
        return self.awaited(it, 10 + j, st.mon.ws[0 if j < 4 else 1],
                            [XS[0] if self.equal else XS[j]], st)

    def new_future(self, st):
        f, st = super().new_future(st)
        return f, self.put(st, futs=st.mon.futs + ((f, self.me(st)),))

    def call_back(self, it, t, cbs, st):
        return super().call_back(it, t, cbs, st) if cbs else [st]

    # hooks ----------------------------------------------------------------
    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind == "call" and ev.callee in FNS:
            return [("v", ("aw", "$fn", (ev.callee,) + tuple(ev.args),
                           tuple(sorted(ev.kw.items())), len(m.log)), st)]
        if ev.kind == "call" and ev.callee == ("sym", "$go", "callable"):
            cur = [self.put(st, ws=m.ws + (ev.args[0],))]
            if len(m.ws) + 1 == self.targets:
                cur = self.act(it, ev, ("seq", self.steps), cur[0])
            return [("v", NONE, s) for s in cur]
        if is_ext(ev, "inspect.signature"):
            return [("v", ("sym", "signature", None), st)]
        return super().on_call(it, ev, st)

    def lock(self, it, ev, x, st):
        """Another caller of the batch may be the first."""
        j = self.me(st)
        if j in self.raced:
            m = st.mon
            for f, i in m.futs:
                if i in self.raced[j]:
                    st, = self.finish(it, f, "v", R(XS[i]), st)
            st = self.log(st, "raced", j)
        return super().lock(it, ev, x, st)

    def note(self, it, ev, st):
        if ev.kind == "made" and ev.name == "asyncio.Future":
            st = self.add_task(ev.value, st)
            return self.put(st, futs=st.mon.futs + ((
                ev.value, self.me(st)),))
        return super().note(it, ev, st)

    def on_await(self, it, ev, st):
        v = ev.value
        if v[0] == "aw" and v[1] == "wait_for" and v[2] and \
                v[2][0][0] == "aw" and v[2][0][1] == "$wait":
            kw = dict(v[3])
            return self.wait(it, ev, v[2][0][2][0], kw.get(
                "timeout", v[2][1] if len(v[2]) > 1 else NONE), st)
        if v[0] == "aw" and v[1] == "$wait":
            return self.wait(it, ev, v[2][0], NONE, st)
        if v[0] == "aw" and v[1] == "$fn":
            return self.execute(it, ev, v, st)
        return super().on_await(it, ev, st)

    def wait(self, it, ev, event, limit, st):
        m = st.mon
        lim = limit[2] if limit[0] == "const" and limit != NONE else None
        st = self.log(st, "joined", self.me(st), lim, m.now, limit == NONE)
        me = self.me(st)
        cur, out = [st], []
        while cur:
            s = cur.pop()
            p = s.mon.plan
            if p and p[0] == CANCELLED_WAIT:
                out.append(("raise", CANCEL, self.put(s, plan=p[1:])))
            elif p and p[0] == OVER:
                s = self.put(s, plan=p[1:])
                if limit != NONE:
                    s = self.put(s, now=round(s.mon.now + 1, 6))
                    out.append(("raise", TIMEOUT, s))
                elif s.mon.soon:
                    cur += self.run_loop(it, ev, s)
                else:
                    self.blocked.append((ev.loc(), s.mon.who, s))
            elif event in s.mon.events:
                out.append(("v", TRUE, s))
            elif p:
                cur += self.next_step(it, ev, s)
            else:
                self.blocked.append((ev.loc(), s.mon.who,
                                     self.log(s, "parked", me, event)))
        return it.dedupe(out)

    # executing the batch ---------------------------------------------------
    def execute(self, it, ev, v, st):
        m = st.mon
        n = len([x for x in m.log if x[0] == "begin"])
        args = []
        for a in v[2][1:]:
            if a[0] == "star":
                ps = it.exact_parts(a[1], st)
                args += [None] if ps is None else list(ps)
            else:
                args.append(a)
        if None in args:
            return None
        vals, futs = [], []
        for a in args:
            x = st.get(("H", a, "value"))
            vals.append(a if x is None else x)
            futs.append(st.get(("H", a, "future")))
        st = self.log(st, "begin", FNS[v[2][0]], tuple(vals), self.me(st), n)
        cur = [st]
        if n in self.inside:
            cur = self.act(it, ev, self.inside[n], st)
        out = []
        for s in cur:
            out += self.outcome_of(it, ev, n, vals, futs, s)
        return out

    def outcome_of(self, it, ev, n, vals, futs, st):
        how = self.how.get(n, "ok")
        if how == "stuck":
            self.blocked.append((ev.loc(), st.mon.who, st))
            return []
        st = self.log(st, "finish", n, how)
        if how == "cancelled":
            return [("raise", CANCEL, st)]
        if how == "raises":
            return [("raise", UEXC, st)]
        if self.plain:
            # a sequence of results
            keep = vals[:-1] if how == "forgets" else vals
            if how == "forgets all":
                keep = ()
            return [("v", ("tuple", tuple(
                self.result(n, i, x) for i, x in enumerate(keep))), st)]
        if futs and how == "cancelled later":
            st = self.give(it, futs[0], "v", R(vals[0]), st)
            return [("raise", CANCEL, st)]
        if futs and how == "raises later":
            st = self.give(it, futs[0], "v", R(vals[0]), st)
            return [("raise", UEXC, st)]
        end = {"forgets": -1, "forgets all": 0}.get(how)
        for i, (x, f) in list(enumerate(zip(vals, futs)))[:end]:
            st = self.give(it, f, "v", self.result(n, i, x), st)
        return [("v", NONE, st)]

    def result(self, n, i, x):
        return R(XS[10 * n + i] if self.equal and n < 2 and i < 4 else x)

    def give(self, it, f, k, v, st):
        if f is None or self.status(f, st) is not None:
            return st
        st, = self.finish(it, f, k, v, st)
        return st


DRIVER = """
def driver(C, fn, fn2, l, m, go):
    w = C(fn, leeway_ms=l, max_count=m)
    go(w.aggregate)
"""
DECORATED = """
def driver(C, fn, fn2, l, m, go):
    go(C(leeway_ms=l, max_count=m)(fn))
"""
TWO = """
def driver(C, fn, fn2, l, m, go):
    w = C(fn, leeway_ms=l, max_count=m)
    w2 = C(fn2, leeway_ms=l, max_count=m)
    go(w.aggregate)
    go(w2.aggregate)
"""


def scenario(ctx, c, maxc, *steps, src=DRIVER, targets=1, **kw):
    r = Agg(ctx, **kw)
    r.steps, r.targets = steps, targets
    r.plain = c.name in ("Aggregator", "aggregate")
    cv = ("func", c.fid, None) if src is DECORATED else ("cls", c.cid)
    it, outs = harness(ctx, r, src, C=cv, fn=FN, fn2=FN2, l=const(LEEWAY),
                       m=const(maxc), go=("sym", "$go", "callable"))
    ends = []
    for k, v, s in outs:
        if k == "raise" and not s.mon.ws:
            continue            # refused by the constructor
        ends.append(End(r, k, v, s))
        ends[-1].maxc = maxc
    if not ends:
        raise AnalysisBroken("no aggregated call analysed")
    return ends


class End:
    def __init__(self, r, k, v, s):
        self.r, self.k, self.v, self.st = r, k, v, s
        self.log = s.mon.log

    def runs(self, fn="fn"):
        return [x[2] for x in self.log if x[0] == "begin" and x[1] == fn]

    def ended(self, j):
        for x in self.log:
            if x[0] == "ended" and x[1] == j:
                return x[2], x[3]
        return None

    def future(self, j):
        for f, i in self.st.mon.futs:
            if i == j:
                return self.r.status(f, self.st)
        return None

    def outcome(self, j):
        """What the caller got or will get."""
        e = self.ended(j)
        if e is None:
            e = self.future(j)
        return e

    def woken(self, j):
        ev = [x[2] for x in self.log if x[0] == "parked" and x[1] == j]
        return not ev or ev[-1] in self.st.mon.events


def is_missing(o):
    return o is not None and o[0] == "raise" and \
        "ResultNotSet" in repr(o[1])


NAMES = ("not-executed", "too-early", "executed-twice", "wrong-batch", "too-late",
         "unbounded", "wrong-outcome", "lost-caller", "not-woken",
         "error-lost", "forgotten", "cancel-lost", "cancel-spreads",
         "not-shared", "settled-twice")


def aggregated(ctx):
    R_ = "aggregated-call"
    ctx.rule(R_, "callers are started, wait, are woken, run out of time and "
             "are cancelled in every arrangement of a list of scenarios (1-4 "
             "callers, limits 1, 2, 3, none): the batches the function is "
             "executed with are exactly the expected ones, each caller's "
             "outcome is the one of its own argument, failures reach every "
             "caller of the batch, missing results fail, a cancelled "
             "execution is taken over, done futures are not settled again, "
             "waiting is bounded by the leeway of the first call")
    for cn in ("AggregatorAsync", "Aggregator"):
        c = ctx.p.cls(MOD + "." + cn)
        f = c.find_method("aggregate")
        bad = {}
        for fn in (single, batches, takes_over, failures, cancelled,
                   separate):
            fn(ctx, c, lambda n, msg: bad.setdefault(n, msg))
        d = ctx.p.func(MOD + (".aggregate" if cn == "Aggregator"
                              else ".aggregate_async"))
        for e in scenario(ctx, d, 2, call(0, call(1)), src=DECORATED):
            same(e, [(0, 1)], (0, 1), "through the decorator",
                 lambda n, msg: bad.setdefault(n, msg))
        for x in NAMES:
            ctx.require(R_, cn + " " + x, x not in bad, cn + ":" + x,
                        f.loc(), bad.get(x, ""))


def same(e, batches, ok, what, add, fn="fn"):
    """The expected batches were executed once, those callers got theirs."""
    want = [tuple(sorted(XS[i] for i in b)) for b in batches]
    got = [tuple(sorted(b)) for b in e.runs(fn)]
    if e.k == "raise":
        add("wrong-outcome", "%s: %s" % (what, e.v[1]))
        return
    if got != want:
        flat = [x for b in got for x in b]
        name = "wrong-batch"
        if not got:
            name = "not-executed"
        elif len(flat) != len(set(flat)):
            name = "executed-twice"
        elif len(flat) < sum(map(len, want)):
            name = "lost-caller"
        add(name, "%s: the function is executed with %s, expected %s" % (
            what, show(got), show(want)))
        return
    for j in ok:
        o = e.outcome(j)
        if o is None:
            add("lost-caller", "%s: caller %d gets no outcome" % (what, j))
        elif o != ("v", R(XS[j])):
            add("wrong-outcome", "%s: caller %d gets %s" % (
                what, j, o[1][1] if len(o[1]) > 1 else o[1]))
        if e.maxc in [len(b) for b in batches if j in b] and \
                not e.woken(j):
            add("not-woken", "%s: caller %d is not woken when its batch is "
                "full" % (what, j))


def show(bs):
    return [[x[1] for x in b] for b in bs]


def single(ctx, c, add):
    for e in scenario(ctx, c, 1, call(0)):
        same(e, [(0,)], (0,), "a limit of one call", add)
    for maxc in (None, 3):
        for e in scenario(ctx, c, maxc, call(0, OVER)):
            if not [x for x in e.log if x[0] == "joined"]:
                if not e.runs():
                    add("not-executed", "a single call is not executed")
            same(e, [(0,)], (0,), "one call until its time is over", add)
    # the time limit counts from the first call of the batch
    for e in scenario(ctx, c, 3, call(0), ("tick", 0.004), call(1, OVER)):
        for x in e.log:
            if x[0] == "joined":
                if x[4]:
                    add("unbounded", "a call waits without a time limit for "
                        "others")
                elif x[2] is not None and x[3] + x[2] > 0.0101:
                    add("too-late", "a call that joins %d ms after the first "
                        "one waits %.0f ms, the leeway is %d" % (
                            x[3] * 1000, x[2] * 1000, LEEWAY))


def batches(ctx, c, add):
    for e in scenario(ctx, c, 2, call(1), call(0)):
        same(e, [(0, 1)], (0, 1), "the last call of a batch", add)
    for e in scenario(ctx, c, 3, call(1), call(2), call(0)):
        same(e, [(0, 1, 2)], (0, 1, 2), "the last call of three", add)
    for e in scenario(ctx, c, 2, call(0, call(1))):
        same(e, [(0, 1)], (0, 1), "a batch filled by another call", add)
    for e in scenario(ctx, c, 2, call(0, seq(call(1), OVER))):
        same(e, [(0, 1)], (0, 1), "a batch filled when its time is over",
             add)
    for e in scenario(ctx, c, 2, call(0, call(1), OVER)):
        same(e, [(0, 1)], (0, 1), "time over after the batch was filled",
             add)
    for e in scenario(ctx, c, 3, call(1), call(0, OVER)):
        same(e, [(0, 1)], (0, 1), "two of three calls, time over", add)
    # calls while the batch is executed
    for e in scenario(ctx, c, 3, call(1), call(0, OVER), call(3, OVER),
                      inside={0: call(2)}):
        same(e, [(0, 1), (2, 3)], (0, 1, 2, 3),
             "a call while a batch is executed", add)
    for e in scenario(ctx, c, 2, call(1), call(0), call(3),
                      inside={0: call(2)}):
        same(e, [(0, 1), (2, 3)], (0, 1, 2, 3),
             "a call while a full batch is executed", add)
    # the next batch was opened while this one ended
    for e in scenario(ctx, c, 2, call(0, seq(call(1), call(2))), call(3)):
        same(e, [(0, 1), (2, 3)], (0, 1, 2, 3),
             "a new batch while a woken caller goes on", add)
    for e in scenario(ctx, c, 2, call(0, seq(call(1), call(2)), OVER),
                      call(3)):
        same(e, [(0, 1), (2, 3)], (0, 1, 2, 3),
             "a new batch while the time is over", add)


    # nobody is the first one twice
    for e in scenario(ctx, c, 2, call(1), call(0), ("tick", 5.0),
                      call(2, call(3))):
        same(e, [(0, 1), (2, 3)], (0, 1, 2, 3), "a later batch", add)
        for x in e.log:
            if x[0] == "joined" and x[1] == 2 and x[2] is not None and \
                    x[2] < 0.0099:
                add("too-early", "the first call of a later batch waits "
                    "only %.0f ms for others" % (x[2] * 1000))
    # the same argument in every call
    for n, steps in (
        (2, (call(1), call(0))),
        (4, (call(0, seq(call(1), call(2)), OVER), call(3))),
        (4, (call(0, seq(call(1), call(2))), call(3))),
    ):
        for e in scenario(ctx, c, 2, *steps, equal=True):
            outs = {e.outcome(j) for j in range(n)}
            if [len(b) for b in e.runs()] != [2] * (n // 2):
                add("wrong-batch", "equal arguments: the function is "
                    "executed with %s" % show(e.runs()))
            elif len(outs) != n or any(
                    o is None or o[0] != "v" for o in outs):
                add("wrong-outcome", "equal arguments: two calls get one "
                    "result, or none")


def takes_over(ctx, c, add):
    # the executing caller is cancelled
    for e in scenario(ctx, c, 2, call(0, call(1)), how={0: "cancelled"}):
        o = e.outcome(1)
        if o is None or o[0] != "raise" or not is_cancel(o[1]):
            add("cancel-lost", "a caller cancelled while it executes the "
                "batch does not end as cancelled")
        if len(e.runs()) != 2 or e.outcome(0) != ("v", R(XS[0])):
            add("cancel-spreads", "the batch of a cancelled caller is not "
                "executed by the other callers")
    for e in scenario(ctx, c, 3, call(1), call(0, OVER),
                      how={0: "cancelled"}):
        if e.future(1) is not None:
            add("cancel-spreads", "a cancelled execution settles the calls "
                "of the others")
    # ... after it has settled one of the calls
    if c.name == "AggregatorAsync":
        for e in scenario(ctx, c, 3, call(0, call(1, call(2))),
                          how={0: "cancelled later"}):
            for j in (0, 1):
                if e.outcome(j) != ("v", R(XS[j])):
                    add("cancel-spreads", "the batch of a cancelled caller "
                        "is not finished by the other callers")
    # another caller of the batch is executing it
    for e in scenario(ctx, c, 2, call(0, call(1)), how={0: "stuck"}):
        if len(e.runs()) > 1:
            add("executed-twice", "two callers execute the same batch at "
                "the same time")
    for e in scenario(ctx, c, 2, call(0, seq(call(1), call(2), call(3))),
                      how={0: "stuck"}):
        if sorted(map(sorted, e.runs())) != [
                [XS[0], XS[1]], [XS[2], XS[3]]]:
            add("executed-twice", "while one batch is executed and another "
                "one was, the function is executed with %s" % show(e.runs()))
    # ... and has done so while this one waited for its turn
    for e in scenario(ctx, c, 3, call(1), call(0, OVER),
                      raced={0: (0, 1)}):
        if e.runs() and any(x[0] == "raced" for x in e.log):
            add("executed-twice", "a batch is executed again although "
                "another caller has done it meanwhile")
        if e.outcome(0) != ("v", R(XS[0])):
            add("wrong-outcome", "a call does not return the result another "
                "caller of the batch got for it")


def failures(ctx, c, add):
    hows = ["raises"] + ["raises later"] * (c.name == "AggregatorAsync")
    for how in hows:
        for steps in ((call(1), call(0)), (call(0, call(1)),)):
            for e in scenario(ctx, c, 2, *steps, how={0: how}):
                first = 1 if len(steps) == 2 else 0
                for j in (0, 1):
                    o = e.outcome(j)
                    if how == "raises later" and j == first:
                        if o != ("v", R(XS[j])):
                            add("settled-twice", "a result set before the "
                                "function failed is lost")
                    elif o != ("raise", UEXC):
                        add("error-lost", "the function %s: a caller of the "
                            "batch gets %s" % (how, o))
                if len(e.runs()) != 1:
                    add("executed-twice", "a failed batch is executed again")
    for e in scenario(ctx, c, 2, call(1), call(0), how={0: "forgets all"}):
        for j in (0, 1):
            if not is_missing(e.outcome(j)):
                add("forgotten", "a call without a result gets %s" % (
                    e.outcome(j),))
    for e in scenario(ctx, c, 2, call(1), call(0), how={0: "forgets"}):
        if not is_missing(e.outcome(0)):
            add("forgotten", "a call without a result gets %s" % (
                e.outcome(0),))
        if e.outcome(1) != ("v", R(XS[1])):
            add("wrong-outcome", "a call loses its result when the function "
                "forgets another one")


def cancelled(ctx, c, add):
    # while waiting for others
    for e in scenario(ctx, c, 2, call(0, CANCELLED_WAIT), call(1, OVER)):
        o = e.ended(0)
        if o is None or o[0] != "raise" or not is_cancel(o[1]):
            add("cancel-lost", "a caller cancelled while it waits does not "
                "end as cancelled")
        if e.outcome(1) != ("v", R(XS[1])):
            add("cancel-spreads", "a caller gets no result when another "
                "caller of its batch was cancelled")
    # while the batch is executed
    for j in (0, 1, 2):
        for how in ("ok", "raises", "forgets"):
            for e in scenario(ctx, c, 3, call(1), call(2), call(0),
                              how={0: how},
                              inside={0: ("cancel future", j)}):
                for i in (0, 1, 2):
                    o = e.outcome(i)
                    if i == j:
                        if o is None or o[0] != "raise" or \
                                not is_cancel(o[1]):
                            add("settled-twice", "a cancelled call is "
                                "settled again")
                    elif how == "ok" and o != ("v", R(XS[i])):
                        add("cancel-spreads", "a caller gets %s when another "
                            "caller of its batch was cancelled" % (o,))
                    elif how == "raises" and o != ("raise", UEXC):
                        add("error-lost", "a caller of the batch gets %s" % (
                            o,))
                    elif o is None:
                        add("lost-caller", "a caller gets no outcome when "
                            "another one was cancelled")


def separate(ctx, c, add):
    """Two aggregated functions have nothing in common."""
    for e in scenario(ctx, c, 2, call(0), call(4), call(1), src=TWO,
                      targets=2):
        if e.runs("fn2") or [sorted(b) for b in e.runs()] != [[
                XS[0], XS[1]]]:
            add("not-shared", "the calls of two aggregated functions get "
                "into one batch")
