"""Histories of a circuit breaker at given times."""
from .lib import *
from .breaker import CB, MOD

CALL, AT = ("sym", "call", None), ("sym", "at", None)
DELAY = ("sym", "delay", None)
OKFN, BADFN = ("sym", "okfn", None), ("sym", "badfn", None)
RES = ("sym", "result", None)
KEY = ("exc", "KeyError", True, "user")
BUCKETS = 4


class Hist(Plain):
    """The clock stands where at() puts it.  Mon.log: what calls gave."""
    fold = 40
    max_depth = 16
    fresh_new = True
    random = 0.5

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.unsure = False

    def initial(self):
        return Mon(now=0, log=(), cnt=(), n=0, limits=(), broken=None)

    def put(self, st, **kw):
        return st.with_mon(st.mon.set(**kw))

    def on_attr(self, it, base, name, st):
        return const(BUCKETS) if name == "BUCKET_COUNT" else None

    def on_truth(self, it, v, st):
        if v[0] == "attr" and v[2] == "_loop":
            return True
        if v[0] == "obj" and v[1][0] == "dq":
            ps = st.get(("H", v, "$parts"))
            if ps is not None:
                return bool(ps)
        return None

    def on_call(self, it, ev, st):
        m, a, x = st.mon, list(ev.args), ev.recv
        if ev.kind == "getitem":
            if x is not None and x[0] == "obj" and x[1][0] == "counter":
                return [("v", const(dict(m.cnt).get((x, a[0]), 0)), st)]
            return None
        if ev.kind != "call":
            return None
        if ev.callee == AT:
            return [("v", NONE, self.put(st, now=a[0][2]))]
        if ev.callee == CALL:
            return self.make(it, ev, a, st)
        if ev.callee == OKFN:
            return [("v", RES, st)]
        if ev.callee == BADFN:
            return [("raise", KEY, st)]
        if is_ext(ev, "frozenset", "set") and a and a[0][0] == "tuple":
            return [("v", a[0], st)]
        if is_ext(ev, "max", "min", "pow", "abs", "sum") and a and \
                not ev.kw:
            ps = a
            if len(a) == 1 and ev.name != "abs":
                ps = it.exact_parts(a[0], st)
            if ps is not None and all(is_const(y) for y in ps):
                xs = [y[2] for y in ps]
                try:
                    return [("v", const(
                        pow(*xs) if ev.name == "pow" else abs(*xs)
                        if ev.name == "abs" else sum(xs)
                        if ev.name == "sum" else max(xs)
                        if ev.name == "max" else min(xs)), st)]
                except (TypeError, ValueError, ArithmeticError):
                    return None
        if is_method(ev, "time") or is_ext(
                ev, "time.monotonic", "time.time"):
            return [("v", const(m.now), st)]
        if is_ext(ev, "random.random"):
            return [("v", const(self.random), st)]
        if is_ext(ev, "collections.Counter"):
            if a or ev.kw:
                self.unsure = True
            return [("v", ("obj", ("counter", m.n), "collections.Counter"),
                     self.put(st, n=m.n + 1))]
        if x is not None and x[0] == "obj" and x[1][0] == "counter":
            if ev.name == "__setitem__":
                if not is_const(a[1]):
                    self.unsure = True
                    return []
                d = dict(m.cnt)
                d[x, a[0]] = a[1][2]
                return [("v", NONE, self.put(st, cnt=tuple(d.items())))]
            ps = it.exact_parts(a[0], st) if ev.name == "update" and \
                len(a) == 1 and not ev.kw else None
            if ps is not None:
                d = dict(m.cnt)
                for y in ps:
                    d[x, y] = d.get((x, y), 0) + 1
                return [("v", NONE, self.put(st, cnt=tuple(d.items())))]
            if ev.name in ("get", "__getitem__"):
                return [("v", const(dict(m.cnt).get((x, a[0]), 0)), st)]
            self.unsure = True
        if is_ext(ev, "collections.deque"):
            lim = kwarg(ev, "maxlen", 1, NONE)
            if a and it.exact_parts(a[0], st) != [] or not is_const(lim):
                self.unsure = True
                return None
            q = ("obj", ("dq", m.n), "collections.deque")
            return [("v", q, self.put(st.set(("H", q, "$parts"), ()).set(
                ("H", q, "[]"), frozenset()), n=m.n + 1, limits=m.limits + (
                    (q, lim[2]),)))]
        if x is not None and x[0] == "obj" and x[1][0] == "dq":
            ps = st.get(("H", x, "$parts"))
            if ps is None:
                self.unsure = True
                return None
            lim = dict(m.limits).get(x)
            if ev.name == "clear":
                return [("v", NONE, st.set(("H", x, "$parts"), ()).set(
                    ("H", x, "[]"), frozenset()))]
            if ev.name in ("append", "appendleft"):
                ps = tuple(ps) + (a[0],) if ev.name == "append" else (
                    a[0],) + tuple(ps)
                if lim is not None and len(ps) > lim:
                    ps = ps[len(ps) - lim:] if ev.name == "append" else \
                        ps[:lim]
                return [("v", NONE, st.set(("H", x, "$parts"), ps).set(
                    ("H", x, "[]"), frozenset(ps)))]
        return None

    def note(self, it, ev, st):
        if ev.kind == "new" and getattr(ev.extra, "name", "") == \
                "CircuitBroken":
            a = list(ev.args)
            return self.put(st, broken=a[0] if a else ev.kw.get(
                "last_exception", NONE))
        return st

    def make(self, it, ev, a, st):
        cb, fn = a
        c = it.classinfo(cb)
        f = c and c.find_method("call")
        if not f:
            self.unsure = True
            return []
        out = []
        st = self.put(st, broken=None)
        for k, v, s in it.call(("bm", cb, f.fid), [fn], {}, ev.node,
                               ev.fr, st):
            if k == "v":
                r = "ok" if v == RES else "other"
            elif v == KEY:
                r = "bad"
            elif v[1].endswith("CircuitBroken"):
                r = "broken"
            else:
                r = v[1]
            e = (s.mon.now, "ok" if fn == OKFN else "bad", r, s.mon.broken)
            out.append(("v", NONE, self.put(s, log=s.mon.log + (e,))))
        return out


def play(ctx, steps, ratio=0.5, **kw):
    """steps: (time, "ok" | "bad").  The log, or None if not decided."""
    r = Hist(ctx, **kw)
    c = ctx.p.cls(CB)
    body = ["cb = cls(%r, %d, exceptions=(KeyError,), broken_time=5, "
            "passing_time=2, recovery_time=6)" % (ratio, BUCKETS)]
    for t, w in steps:
        body.append("at(%r)" % t)
        body.append("call(cb, %sfn)" % w)
    it, outs = harness(
        ctx, r, "def driver(cls, okfn, badfn, call, at):\n    %s\n"
        "    return cb\n" % "\n    ".join(body), cls=("cls", c.cid),
        okfn=OKFN, badfn=BADFN, call=CALL, at=AT)
    logs = {s.mon.log for k, v, s in outs if k == "v"}
    if r.unsure or len(logs) != 1 or any(k != "v" for k, v, s in outs):
        return None
    return next(iter(logs))


def every(step, until, *calls, since=100):
    return [(t, w) for t in range(since, until, step) for w in calls]


def results(log, since=0):
    return [e[2] for e in log if e[0] >= since]


def histories(ctx):
    R = "circuit-history"
    ctx.rule(R, "calls at given times, the window being of four parts: a "
             "circuit breaks if the ratio of failures reaches the given one "
             "in every recent part (parts older than the response time do "
             "not matter), not if it does in none; a rejected call raises "
             "CircuitBroken with the last counted exception; a recovering "
             "circuit passes after the recovery time if calls succeed and "
             "breaks if they fail")
    f = ctx.p.cls(CB).find_method("context") or \
        ctx.p.cls(CB).find_method("call")
    n = 0

    def check(name, steps, test, msg, **kw):
        nonlocal n
        log = play(ctx, steps, **kw)
        if log is None:
            return
        n += 1
        ctx.require(R, name, test(log), "CircuitBreaker:" + name, f.loc(),
                    msg)

    down = every(1, 108, "bad", "bad")
    for ratio in (0.5, 1.0):
        check("all-fail-%s" % ratio, down,
              lambda log: "broken" in results(log, 106),
              "a circuit does not break though every call fails",
              ratio=ratio)
    check("half-fail", every(1, 108, "bad", "ok"),
          lambda log: "broken" in results(log),
          "a circuit does not break though the ratio of failures is the "
          "given one")
    check("sparse", every(2, 120, "bad", "bad"),
          lambda log: "broken" in results(log),
          "failures older than the response time keep a circuit from "
          "breaking")
    check("recent", every(1, 106, "ok", "ok", "ok") + every(
        2, 126, "bad", "bad", since=120),
          lambda log: "broken" in results(log, 124),
          "successes older than the response time keep a circuit from "
          "breaking")
    check("some-fail", every(1, 112, "ok", "bad", "ok"),
          lambda log: "broken" not in results(log),
          "a circuit breaks though the ratio of failures is below the given "
          "one")
    check("none-fail", every(1, 112, "ok", "ok"),
          lambda log: set(results(log)) == {"ok"},
          "a circuit breaks though no call fails")
    check("last-exception", down, lambda log: all(
        e[3] == KEY for e in log if e[2] == "broken"),
        "CircuitBroken does not carry the last exception")
    check("refused-exception", down + [(109, "ok"), (109.5, "ok")],
          lambda log: all(e[3] == KEY for e in log if e[2] == "broken"),
          "CircuitBroken of a recovering circuit does not carry the last "
          "exception")
    for name, t, w in (("recovered", 116, "ok"), ("relapsed", 114, "bad")):
        steps = down + [(109, "ok")] + every(1, 118, w, w, since=110)
        if w == "ok":
            check(name, steps + every(1, 126, "ok", "ok", since=118),
                  lambda log: set(results(log, 119)) == {"ok"},
                  "a recovering circuit does not pass though its calls "
                  "succeed", random=0.99)
        else:
            check(name, steps, lambda log: results(log).count(
                "bad") < 12,
                "a recovering circuit does not break though its calls fail",
                random=0.1)
    for ratio, time, ok in ((0.5, 0, 0), (0.5, -1, 0), (-0.1, 1, 0),
                            (1.1, 1, 0), (0.0, 1, 1), (1.0, 0.5, 1)):
        r = Hist(ctx)
        it, outs = harness(
            ctx, r, "def driver(cls):\n    return cls(%r, %r)\n" % (
                ratio, time), cls=("cls", ctx.p.cls(CB).cid))
        ends = {v[1] if k == "raise" else "" for k, v, s in outs}
        ctx.require(R, "new(%r, %r)" % (ratio, time), (
            ends == {""} if ok else "" not in ends),
            "CircuitBreaker:arguments", f.loc(), "a circuit breaker with "
            "error ratio %r and response time %r is %s" % (
                ratio, time, "refused" if ok else "accepted"))
    ctx.rule(R + " (histories)", "%d histories are followed to the end" % n)
