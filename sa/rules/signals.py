"""Signals and statistics."""
from .lib import *

F = ("obj", ("F",), "user")
G = ("obj", ("G",), "user")
X = ("obj", ("x",), "user")
Y = ("obj", ("y",), "user")
ERR = ("exc", "Exception", False, "receiver")


class Sig(Plain):
    exact_lists = True
    fail = False
    coro = True

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(calls=(), running=())

    def on_call(self, it, ev, st):
        if ev.kind != "call":
            return None
        if is_ext(ev, "inspect.iscoroutinefunction",
                  "asyncio.iscoroutinefunction"):
            return [("v", TRUE if self.coro else FALSE, st)]
        if is_ext(ev, "isinstance") and "frozenset" in repr(ev.args[1]):
            ty = it.typeof(ev.args[0])
            if ty in ("set", "frozenset"):
                return [("v", TRUE if ty == "frozenset" else FALSE, st)]
        if ev.callee in (F, G):
            if ev.args != [X] or ev.kw != {"k": Y}:
                self.bad["arguments"] = "receivers do not get the arguments"
            return [("v", ("coro", ev.callee, (), ()), st)]
        return None

    def on_await(self, it, ev, st):
        v = ev.value
        m = st.mon
        if v[0] == "coro" and v[1] in (F, G):
            st = st.with_mon(m.set(calls=m.calls + (v[1],)))
            if self.fail:
                return [("raise", ERR, st)]
            return [("v", NONE, st)]
        if v[0] == "aw" and v[1] in ("gather", "wait"):
            self.bad["sequence"] = "receivers run at the same time"
        return None


def signals(ctx):
    R = "signals"
    ctx.rule(R, "calling a signal awaits every connected receiver once, one "
             "after another, with the arguments, and raises what a receiver "
             "raised; only coroutine functions are connected, nothing to a "
             "frozen signal; a copy is independent and not frozen")
    c = ctx.p.cls("aiomisc.signal.Signal")
    dec = ctx.p.func("aiomisc.signal.receiver")
    bad = {}

    def drive(body, **opt):
        r = Sig(ctx, **opt)
        src = ("async def driver(cls, dec, f, g, x, y):\n    s = cls()\n"
               + "".join("    %s\n" % b for b in body))
        it, outs = harness(ctx, r, src, cls=("cls", c.cid), f=F, g=G, x=X,
                           y=Y, dec=("func", dec.fid, None))
        bad.update(r.bad)
        if not outs:
            bad["called"] = "%s has no end" % body
        return outs
    CALL = "await s.call(x, k=y)"
    for body, want, what in (
        (["s.connect(f)", "s.connect(g)", CALL], (F, G), "called"),
        (["dec(s)(f)", CALL], (F,), "decorator"),
        (["s.connect(f)", "s.connect(f)", CALL], (F,), "once"),
        (["s.connect(f)", CALL, CALL], (F, F), "again"),
        (["s.connect(f)", "s.connect(g)", "s.disconnect(f)", CALL], (G,),
         "disconnected"),
        (["s.disconnect(f)", "s.connect(g)", CALL], (G,), "disconnected"),
        (["s.connect(f)", "s.freeze()", CALL], (F,), "frozen-call"),
        (["s.connect(f)", "s.freeze()", "s = s.copy()", "s.connect(g)", CALL],
         (F, G), "copy"),
        (["s.connect(f)", "t = s.copy()", "t.connect(g)", CALL], (F,),
         "copy"),
        (["s.connect(f)", "t = s.copy()", "s.connect(g)", "s = t", CALL],
         (F,), "copy"),
        (["s.connect(f)", "t = s.copy()", "t.disconnect(f)", CALL], (F,),
         "copy"),
        ([CALL], (), "called"),
    ):
        for kind, v, s in drive(body):
            if kind != "v" or s.mon.calls != want and sorted(
                    s.mon.calls) != sorted(want):
                bad[what] = "%s: calls %d receivers instead of %d" % (
                    "; ".join(body), len(s.mon.calls), len(want))
    for kind, v, s in drive(["return dec(s)(f)"]):
        if (kind, v) != ("v", F):
            bad["decorator"] = "the decorator does not return the function"
    for body, what, opt in (
        (["s.connect(f)"], "not a coroutine function", {"coro": False}),
        (["s.freeze()", "s.connect(f)"], "connected to a frozen signal", {}),
        (["s.connect(f)", "s.freeze()", "s.disconnect(f)"],
         "disconnected from a frozen signal", {}),
        (["s.freeze()", "t = s.copy()", "t.freeze()", "t.connect(f)"],
         "connected to a frozen signal", {}),
    ):
        for kind, v, s in drive(body, **opt):
            if kind != "raise" or v[1] != "RuntimeError":
                bad["refused"] = "%s: not refused" % what
    for kind, v, s in drive(["s.connect(f)", CALL], fail=True):
        if (kind, v) != ("raise", ERR):
            bad["exception"] = "the exception of a receiver is lost"
    for x in sorted({"called", "arguments", "sequence", "once", "again",
                     "disconnected", "copy", "refused", "exception",
                     "decorator", "frozen-call"} | set(bad)):
        ctx.require(R, x, x not in bad, "Signal:" + x,
                    c.find_method("call").loc(), bad.get(x, ""))
