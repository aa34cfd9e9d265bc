"""Circuit breaker: admission, accounting and state changes."""
from .lib import *

MOD = "aiomisc.circuit_breaker"
CB = MOD + ".CircuitBreaker"
FN = ("sym", "fn", None)
PIN = ("sym", "pin", None)
INS = ("sym", "inspector", None)
RES = ("sym", "result", None)
KEY = ("exc", "KeyError", False, "user")
ZERO = ("exc", "ZeroDivisionError", True, "user")
NOW = 100
A1, A2 = ("sym", "a1", None), ("sym", "a2", None)


def window(it, v):
    """Is it the deque of recent counters?"""
    o = it.origin.get(v)
    return it.typeof(v) == "collections.deque" or (
        o is not None and o.name == "collections.deque")


KEYS = {"OK": 0, "FAIL": 1, "TOTAL": 2}


def counter(it, v):
    """Is it a counter of calls?"""
    if v is None:
        return False
    o = it.origin.get(v)
    return it.typeof(v) == "collections.Counter" or (
        o is not None and o.name == "collections.Counter")


class Call(Plain):
    fold = 12
    opaque = False
    fresh = ()
    inspect = True
    skip = ("recovery_ratio", "bucket")

    def __init__(self, ctx, field, state, stuck=0, recovery_at=0, full=True,
                 sync=False):
        super().__init__(ctx)
        self.field, self.state = field, state
        self.stuck, self.rec, self.full = stuck, recovery_at, full
        self.sync = sync
        self.bad = {}
        self.cb = None

    def initial(self):
        return Mon(called=0, end=None, cnt=(0, 0, 0), trans=None, ins=None,
                   cleared=False, live=False)

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind == "call" and ev.callee == PIN:
            self.cb = ev.args[0]
            st = st.set(("F", ("truth", INS)), True)
            st = st.set(("H", self.cb, self.field), self.state)
            if self.stuckf:
                st = st.set(("H", self.cb, self.stuckf), const(self.stuck))
                st = st.set(("H", self.cb, self.recf), const(self.rec))
            return [("v", NONE, st.with_mon(m.set(live=True)))]
        if is_ext(ev, "frozenset", "set") and ev.args and \
                ev.args[0][0] == "tuple":
            return [("v", ev.args[0], st)]
        if is_method(ev, "time"):
            return [("v", const(NOW), st)]
        if is_ext(ev, "time.monotonic", "time.time"):
            return [("v", const(NOW), st)]
        if is_ext(ev, "len") and ev.args and window(it, ev.args[0]):
            return [("v", const(10 if self.full else 9), st)]
        if is_ext(ev, "asyncio.iscoroutinefunction"):
            return [("v", FALSE if self.sync else TRUE, st)]
        if ev.kind == "call" and ev.callee == INS:
            return [("v", const("yes"), st.with_mon(m.set(ins=1))),
                    ("v", const(""), st.with_mon(m.set(ins=0))),
                    ("raise", ZERO, st.with_mon(m.set(ins=1)))]
        if ev.kind == "call" and ev.callee == FN:
            cur = st.get(("H", self.cb, self.field))
            if cur is not None and cur[2] == "BROKEN":
                self.bad["admitted"] = "the function is called in the " \
                    "broken state"
            if tuple(ev.args) != (A1,) or dict(ev.kw) != {"k": A2}:
                self.bad["arguments"] = "the function is called with other " \
                    "arguments"
            s = m.set(called=m.called + 1)
            if self.sync:
                return self.user(st.with_mon(s))
            return [("v", ("aw", "userfn", (), (), "fn"), st.with_mon(s))]
        return None

    def user(self, st):
        m = st.mon
        out = [("v", RES, st.with_mon(m.set(end="V"))),
               ("raise", KEY, st.with_mon(m.set(end="K"))),
               ("raise", ZERO, st.with_mon(m.set(end="Z")))]
        if not self.sync:
            out.append(("raise", CANCEL, st.with_mon(m.set(end="C"))))
        return out

    def on_await(self, it, ev, st):
        v = ev.value
        if v[0] == "aw" and v[1] == "userfn":
            return self.user(st)
        return None

    def note(self, it, ev, st):
        m = st.mon
        if is_method(ev, "__setitem__") and len(ev.args) == 2 and m.live:
            k, v = ev.args
            if k[0] == "const" and k[1].endswith("CounterKey"):
                i = KEYS.get(k[2])
                n = None
                if v[0] == "op" and v[1] == "Add":
                    for x in v[2:]:
                        if is_const(x) and not isinstance(x[2], str):
                            n = int(x[2])
                if i is not None and n is not None:
                    c = list(m.cnt)
                    c[i] = min(c[i] + n, 3)
                    return st.with_mon(m.set(cnt=tuple(c)))
                if i is not None:
                    self.seen.add("opaque-count")
        if ev.kind == "call" and m.live and (
                counter(it, ev.recv) or "CounterKey" in repr(ev.args)) and \
                ev.name not in ("__setitem__", "__getitem__", "get"):
            ps = it.exact_parts(ev.args[0], st) if ev.name == "update" and \
                len(ev.args) == 1 and not ev.kw else None
            ks = [KEYS.get(x[2]) for x in ps or () if x[0] == "const" and
                  x[1].endswith("CounterKey")]
            if ps is None or len(ks) != len(ps):
                self.opaque = ev.extra == "method" or self.opaque
                return st
            c = list(m.cnt)
            for i in ks:
                c[i] = min(c[i] + 1, 3)
            return st.with_mon(m.set(cnt=tuple(c)))
        if is_method(ev, "clear") and m.live and window(it, ev.recv):
            return st.with_mon(m.set(cleared=True))
        if ev.kind == "attrset" and m.live and ev.recv == self.cb and (
                ev.value == self.fresh or window(it, ev.value) or
                it.exact_parts(ev.value, st) == []):
            return st.with_mon(m.set(cleared=True))
        if ev.kind == "attrset" and m.live and ev.recv == self.cb and \
                ev.name == self.field:
            old = st.get(("H", self.cb, self.field))
            if old != ev.value:
                if m.trans is not None:
                    self.bad["jump"] = "the state changes twice in one call"
                return st.with_mon(m.set(trans=(old[2], ev.value[2])))
        return st


def fields(ctx, c):
    """Names of the fields: state, time of the block, time of recovery."""
    r = Plain(ctx)
    it, outs = harness(ctx, r, "def driver(cls):\n    return cls(0.5, 10)\n",
                       cls=("cls", c.cid))
    state = None
    for k, v, s in outs:
        if k != "v":
            continue
        for kk, vv in s.d.items():
            if kk[0] == "H" and kk[1] == v and vv[0] == "const" and \
                    vv[1].endswith("CircuitBreakerStates"):
                state = kk[2]
                init = vv
    if state is None:
        raise AnalysisBroken("state of the circuit breaker not found")
    return state, init


def scenario(ctx, c, state, stuckf, recf, name, stuck, rec, full, sync=False,
             times="broken_time=7, passing_time=3, recovery_time=10,"):
    enum = "enum:%s.CircuitBreakerStates" % MOD
    r = Call(ctx, state, ("const", enum, name), stuck, rec, full, sync)
    r.stuckf, r.recf = stuckf, recf
    call = "cb.call(fn, a, k=b)" if sync else \
        "await cb.call_async(fn, a, k=b)"
    src = ("%sdef driver(cls, fn, pin, ins, exc, a, b):\n"
           "    cb = cls(0.5, 10, exceptions=exc, exception_inspector=ins,\n"
           "             %s)\n"
           "    pin(cb)\n"
           "    return %s\n" % ("" if sync else "async ", times, call))
    it, outs = harness(ctx, r, src, cls=("cls", c.cid), fn=FN, pin=PIN,
                       ins=INS, exc=("tuple", (("ext", "KeyError"),)), a=A1,
                       b=A2)
    return r, it, [o for o in outs if o[2].mon.live]


def time_fields(ctx, c, state):
    """Fields of the recovery start / end of the minimal time, by value."""
    found = {}
    for name, value in (("BROKEN", NOW), ("RECOVERING", NOW + 7)):
        r, it, outs = scenario(ctx, c, state, None, None, name, 0, 0, True)
        for k, v, s in outs:
            for kk, vv in s.d.items():
                if kk[0] == "H" and kk[1] == r.cb and vv == const(value):
                    found[name] = kk[2]
    return found.get("RECOVERING"), found.get("BROKEN")


def breaker(ctx):
    R = "circuit-breaker"
    ctx.rule(R, "passing: the function is called once, its outcome passes "
             "unchanged; broken: never called, CircuitBroken raised; "
             "recovering: one or the other; every real call is counted once "
             "in the total and as success or (listed, not excused by the "
             "inspector) failure, a rejected one not at all; states change "
             "only PASSING->BROKEN->RECOVERING->(PASSING|BROKEN), never "
             "during the minimal time of a state, which starts at the "
             "change; the statistic restarts when the circuit breaks")
    c = ctx.p.cls(CB)
    f = c.find_method("call_async") or c.find_method("context")
    state, init = fields(ctx, c)
    stuckf, recf = time_fields(ctx, c, state)
    bad = {}
    if stuckf is None or recf is None:
        ctx.require(R, "times of the states", False, "CircuitBreaker:times",
                    f.loc(), "the minimal time of a state or the recovery "
                    "does not start when the state changes")
        return
    if init[2] != "PASSING":
        bad["transition"] = "a new circuit breaker is not passing"
    trans = {}
    for sync in (False, True):
        for name in ("PASSING", "BROKEN", "RECOVERING"):
            for stuck, rec, full in (
                (150, 95, True), (100, 95, True), (0, 95, True),
                (0, 90, True), (0, 95, False), (0, 92, True),
                (0, 90, False),
            ):
                r, it, outs = scenario(ctx, c, state, stuckf, recf, name,
                                       stuck, rec, full, sync)
                bad.update(r.bad)
                admission(bad, r, outs, name, c, state)
                for k, v, s in outs:
                    changes(bad, r, s, name, stuck, rec, full, stuckf, recf)
                    if s.mon.trans:
                        trans.setdefault((s.mon.trans, stuck, rec),
                                         set()).add(full)
                if name == "BROKEN" and stuck <= NOW and any(
                        not s.mon.trans for k, v, s in outs):
                    bad["never-recovers"] = "a broken circuit is not " \
                        "recovering after the minimal time"
    have = {t[0] for t in trans}
    if (("RECOVERING", "PASSING"), 0, 90) in trans and False not in trans[
            ("RECOVERING", "PASSING"), 0, 90]:
        bad["waits-for-window"] = "a recovering circuit does not pass " \
            "after the recovery time until the window is full"
    for a, b in (("PASSING", "BROKEN"), ("RECOVERING", "BROKEN"),
                 ("RECOVERING", "PASSING"), ("BROKEN", "RECOVERING")):
        if (a, b) not in have:
            bad["no-" + a + "-" + b] = "%s never becomes %s" % (a, b)
    counted(ctx, bad, c)
    decorated(ctx, bad, state)
    # default times
    r, it, outs = scenario(ctx, c, state, stuckf, recf, "PASSING", 0, 0,
                           True, times="")
    for k, v, s in outs:
        if s.mon.trans == ("PASSING", "BROKEN") and s.get(
                ("H", r.cb, stuckf)) != const(NOW + 10):
            bad["no-minimal-time"] = "the default minimal time of the " \
                "broken state is not the response time"
    for x in sorted({
        "admitted", "rejected", "called-twice", "outcome-changed",
        "not-broken-error", "miscounted", "arguments", "transition", "decorator", "stuck-ignored",
        "jump", "no-minimal-time", "lost-count", "statistic-kept", "never-recovers",
    } | set(bad)):
        ctx.require(R, x, x not in bad, "CircuitBreaker:" + x, f.loc(),
                    bad.get(x, ""))


class Deco(Call):
    """cutout(): its circuit breaker is pinned."""
    inspect = False

    def on_call(self, it, ev, st):
        if ev.kind == "call" and ev.callee == PIN:
            for (tag, base, name), v in [
                    x for x in st.d.items() if x[0][0] == "H"]:
                if name == self.field and v[1].endswith(
                        "CircuitBreakerStates"):
                    self.cb = base
                    st = st.set(("H", base, name), self.state)
                    st = st.set(("H", base, self.stuckf), const(150))
            return [("v", NONE, st.with_mon(st.mon.set(
                live=self.cb is not None)))]
        return super().on_call(it, ev, st)


def decorated(ctx, bad, state):
    f = ctx.p.func(MOD + ".cutout")
    stuckf, recf = time_fields(ctx, ctx.p.cls(CB), state)
    for sync in (False, True):
        for name in ("BROKEN", "PASSING"):
            r = Deco(ctx, state, (
                "const", "enum:%s.CircuitBreakerStates" % MOD, name),
                sync=sync)
            r.stuckf, r.recf = stuckf, recf
            src = ("%sdef driver(co, fn, pin, exc, a, b):\n"
                   "    g = co(0.5, 10, exc)(fn)\n"
                   "    pin(g)\n"
                   "    return %sg(a, k=b)\n" % (
                       ("", "") if sync else ("async ", "await ")))
            it, outs = harness(ctx, r, src, co=("func", f.fid, None), fn=FN,
                               pin=PIN, exc=("ext", "KeyError"), a=A1, b=A2)
            bad.update(r.bad)
            outs = [o for o in outs if o[2].mon.live]
            if not outs:
                bad["decorator"] = "cutout() does not guard the function"
            admission(bad, r, outs, name, None, state)


class Window(Plain):
    fold = 12
    skip = ("bucket",)

    def initial(self):
        return Mon(new=())

    def note(self, it, ev, st):
        if is_method(ev, "append") and window(it, ev.recv) and ev.args and \
                ev.args[0][0] == "tuple":
            return st.with_mon(st.mon.set(new=ev.args[0][1]))
        return st


def counted(ctx, bad, c):
    """The counter of a call belongs to the window of recent counters."""
    m = c.find_method("counter")
    if m is None:
        return
    r = Window(ctx)
    it, outs = harness(ctx, r, "def driver(cls):\n"
                       "    cb = cls(0.5, 10)\n    return cb.counter()\n",
                       cls=("cls", c.cid))
    n = 0
    for k, v, s in outs:
        if k != "v":
            continue
        if v in s.mon.new:
            n += 1
        elif not any(window(it, x) for x in atoms(v)) and (
                v[0] == "obj" or counter(it, v)):
            bad["lost-count"] = "calls are counted outside of the window " \
                "of recent calls"
    if not n and not any(s.mon.new for k, v, s in outs):
        bad["lost-count"] = "no counter is added to the window"


def admission(bad, r, outs, name, c, state):
    if not outs:
        bad["rejected"] = "calls do not end"
    for k, v, s in outs:
        m = s.mon
        now = s.get(("H", r.cb, state))
        now = now[2] if now else name
        if m.called > 1:
            bad["called-twice"] = "the function is called twice"
        if not m.called:
            if m.cnt != (0, 0, 0):
                bad["miscounted"] = "a rejected call is counted"
            if not (k == "raise" and v[1].endswith("CircuitBroken")):
                bad["not-broken-error"] = "a rejected call does not raise " \
                    "CircuitBroken"
            if now == "PASSING":
                bad["rejected"] = "a call is rejected in the passing state"
            continue
        ok = {"V": k == "v" and v == RES,
              "K": k == "raise" and v == KEY,
              "Z": k == "raise" and v == ZERO,
              "C": k == "raise" and is_cancel(v)}[m.end or "V"]
        if not ok:
            bad["outcome-changed"] = "the outcome of the function is changed"
        want = {"V": (1, 0, 1), "K": (0, m.ins if r.inspect else 1, 1), "Z": (0, 0, 1),
                "C": (0, 0, 1)}[m.end or "V"]
        if m.cnt != want and "opaque-count" not in r.seen and \
                not r.opaque:
            bad["miscounted"] = "a call is counted as (ok, fail, total) = " \
                "%s instead of %s" % (m.cnt, want)


ALLOWED = {("PASSING", "BROKEN"), ("BROKEN", "RECOVERING"),
           ("RECOVERING", "BROKEN"), ("RECOVERING", "PASSING")}


def changes(bad, r, s, name, stuck, rec, full, stuckf, recf):
    t = s.mon.trans
    if t is None:
        return
    if t not in ALLOWED:
        bad["transition"] = "%s becomes %s" % t
        return
    if stuck > NOW:
        bad["stuck-ignored"] = "the state changes before its minimal time " \
            "is over"
    if t == ("PASSING", "BROKEN") and not full:
        bad["transition"] = "the circuit breaks without a full statistic"
    st = s.get(("H", r.cb, stuckf))
    if t[1] == "BROKEN":
        if st != const(NOW + 7):
            bad["no-minimal-time"] = "the minimal time of the broken state " \
                "does not start with it"
        if not s.mon.cleared:
            bad["statistic-kept"] = "the statistic survives the break"
    if t == ("RECOVERING", "PASSING"):
        if st != const(NOW + 3):
            bad["no-minimal-time"] = "the minimal time of the passing " \
                "state does not start with it"
        if NOW - rec < 10:
            bad["transition"] = "passing before the recovery time is over"
    if t == ("BROKEN", "RECOVERING") and s.get(
            ("H", r.cb, recf)) != const(NOW):
        bad["no-minimal-time"] = "the recovery does not start with the state"
