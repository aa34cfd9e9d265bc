"""select, cancel_tasks, shield, awaitable, timeout."""
from .lib import *

A = ("sym", "a", None)
B = ("sym", "b", None)
RA = ("obj", ("ra",), "user")
RB = ("obj", ("rb",), "user")
EA = ("exc", "Exception", False, "a")
EB = ("exc", "Exception", False, "b")
EV = ("exc", "ValueError", True, "value")
IDX = {A: 0, B: 1}


class Sel(Plain):
    """Mon.done: (index, kind, value) in the order of their ends."""
    timeout = NONE
    raising = True
    results = (RA, RB)
    max_depth = 14
    exact_lists = True

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(done=(), ended=(), tasks=(), cancelled=(), awaited=(),
                   waited=0, cut=False)

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind != "call":
            return None
        if is_ext(ev, "isinstance") and ev.args[0][0] == "task":
            return [("v", TRUE, st)]
        if ev.recv is not None and ev.recv[0] == "task":
            if ev.name == "done":
                return [("v", TRUE if ev.recv in m.ended else FALSE, st)]
            if ev.name == "cancel":
                if ev.recv in m.ended:
                    return [("v", FALSE, st)]
                return [("v", TRUE, st.with_mon(m.set(
                    cancelled=m.cancelled + (ev.recv,))))]
        return None

    def wait(self, it, ev, v, st):
        kw = dict(v[3])
        rw = kw.get("return_when")
        ts = it.exact_parts(v[2][0], st) or it.elements(v[2][0], st)
        ts = [t for t in ts if t[0] == "task"]
        m = st.mon
        if len(ts) != 2:
            self.bad["incomplete"] = "not all awaitables are waited for"
            return []
        st = st.with_mon(m.set(waited=1, tasks=tuple(ts)))
        if rw is None or "FIRST_COMPLETED" not in repr(rw):
            self.bad["first"] = "waits for more than the first one"
        if (kw.get("timeout", NONE) != self.timeout):
            self.bad["timeout"] = "the timeout is not respected"
        out = [("raise", CANCEL, st.with_mon(st.mon.set(cut=True)))]
        sets = [(0,), (1,), (0, 1), (1, 0)]
        if self.timeout != NONE:
            sets.append(())
        for order in sets:
            cur = [st]
            for i in order:
                nx = []
                for s in cur:
                    for k, x, s2 in it.do_await(ts[i][2], ev.node, ev.fr, s):
                        if k == "raise":
                            self.bad["waiter"] = "a task of select() fails " \
                                "by itself"
                        nx.append(s2.with_mon(s2.mon.set(
                            ended=s2.mon.ended + (ts[i],))))
                cur = nx
            for s in cur:
                d = ("obj", ("doneset",) + order, "set")
                p = ("obj", ("pendset",) + order, "set")
                ds = tuple(t for t in ts if t in s.mon.ended)
                ps = tuple(t for t in ts if t not in s.mon.ended)
                s = s.set(("H", d, "[]"), frozenset(ds))
                s = s.set(("H", p, "[]"), frozenset(ps))
                s = s.set(("H", d, "$parts"), ds)
                s = s.set(("H", p, "$parts"), ps)
                out.append(("v", ("tuple", (d, p)), s))
        return out

    def on_await(self, it, ev, st):
        v = ev.value
        m = st.mon
        if v in IDX:
            out = []
            for k, x in (("v", self.results[IDX[v]]), ("v", NONE),
                         ("raise", EA if v == A else EB)):
                if k == "raise" and not self.raising:
                    continue
                out.append((k, x, st.with_mon(m.set(
                    done=m.done + ((IDX[v], k, x),)))))
            return out
        if v[0] == "aw" and v[1] == "wait" and not m.waited:
            return self.wait(it, ev, v, st)
        if v[0] == "coro":
            return None
        ls = set(leaves(it, unwrap_aw(v), st)) | {v}
        ts = tuple(t for t in m.tasks if t in ls or t[2] in ls)
        if ts:
            return [("v", NONE, st.with_mon(m.set(
                awaited=m.awaited + ts)))]
        return None


def untyped(v):
    """Tokens of exceptions without what handlers learned of their class."""
    if v[0] == "exc":
        return "exc", v[3]
    if v[0] == "tuple":
        return "tuple", tuple(untyped(x) for x in v[1])
    return v


def select(ctx):
    R = "select"
    ctx.rule(R, "select() waits for the first of its awaitables and returns "
             "- or raises, unless exceptions are to be returned - its "
             "outcome under its index; the others are cancelled and awaited "
             "before it returns (awaited unless wait=False, nothing "
             "cancelled with cancel=False); a cancelled select() cancels "
             "and awaits all of them")
    c = ctx.p.cls("aiomisc.utils.SelectAwaitable")
    bad = {}
    src = ("async def driver(sel, a, b, cancel, rexc, wait, tmo):\n"
           "    r = await sel(a, b, cancel=cancel, return_exceptions=rexc,\n"
           "        wait=wait, timeout=tmo)\n"
           "    return r.result_idx, r.value, r.is_exception, r.done()\n")
    for cancel, rexc, wait, tmo in (
            (TRUE, FALSE, TRUE, NONE), (TRUE, TRUE, TRUE, NONE),
            (TRUE, FALSE, FALSE, NONE), (FALSE, FALSE, TRUE, NONE),
            (TRUE, FALSE, TRUE, const(5)), (TRUE, TRUE, TRUE, const(0))):
        r = Sel(ctx, timeout=tmo)
        it, outs = harness(ctx, r, src, sel=("cls", c.cid), a=A, b=B,
                           cancel=cancel, rexc=rexc, wait=wait, tmo=tmo)
        bad.update(r.bad)
        kinds = set()
        for k, v, s in outs:
            m = s.mon
            kinds.add(k)
            left = [t for t in m.tasks if t not in m.ended]
            if m.cut:
                if k != "raise" or not is_cancel(v):
                    bad["cancellation"] = "a cancelled select() goes on"
                if set(left) - set(m.cancelled) or \
                        set(left) - set(m.awaited):
                    bad["cancellation"] = "a cancelled select() leaves " \
                        "tasks running"
                continue
            if wait == FALSE and set(left) & set(m.awaited):
                bad["not-awaited"] = "wait=False waits for the others"
            if cancel == TRUE:
                if set(left) - set(m.cancelled):
                    bad["left-running"] = "the other awaitables are not " \
                        "cancelled"
                elif wait == TRUE and set(left) - set(m.awaited):
                    bad["not-awaited"] = "the end of the cancelled " \
                        "awaitables is not awaited"
            elif m.cancelled:
                bad["cancelled"] = "cancel=False cancels awaitables"
            if not m.done:
                continue
            i, kind, x = m.done[0]
            if k == "v":
                want = ("tuple", (const(i), x, TRUE if kind == "raise"
                                  else FALSE, TRUE))
                if untyped(v) != untyped(want) or kind == "raise" and rexc == FALSE:
                    bad["result"] = "the outcome of the first awaitable " \
                        "is not what select() returns"
            elif kind == "v" or untyped(v) != untyped(x) or rexc == TRUE:
                bad["result"] = "the exception of the first awaitable is " \
                    "not handled as requested"
        if "v" not in kinds or rexc == FALSE and "raise" not in kinds:
            bad["incomplete"] = "select() does not wait for its awaitables"
    # what the result gives, also for results that are exceptions
    for rexc, raising in ((FALSE, False), (TRUE, True)):
        for res in (EV, NONE, FALSE, RA):
            r = Sel(ctx)
            r.raising, r.results = raising, (res, RB)
            it, outs = harness(
                ctx, r, "async def driver(sel, a, b, rexc):\n"
                "    r = await sel(a, b, return_exceptions=rexc)\n"
                "    n = r.__len__()\n    xs = []\n"
                "    for x in r.__iter__():\n        xs.append(x)\n"
                "    return r.result(), xs[0], xs[1], n, r.done()\n",
                sel=("cls", c.cid), a=A, b=B, rexc=rexc)
            bad.update(r.bad)
            for k, v, s in outs:
                if s.mon.cut or not s.mon.done:
                    continue
                i, kind, x = s.mon.done[0]
                want = tuple(x if i == j else NONE for j in range(2))
                if kind == "raise" and (
                        k != "raise" or untyped(v) != untyped(x)):
                    bad["result"] = "result() does not raise the exception"
                elif kind == "v" and (k, v) != ("v", ("tuple", (
                        x,) + want + (const(2), TRUE))) and not unknown(v):
                    bad["result"] = "the result is not that of the first " \
                        "awaitable"
    loc = c.find_method("__await__").loc() if c.find_method(
        "__await__") else None
    for x in sorted({"incomplete", "first", "timeout", "cancellation",
                     "left-running", "not-awaited", "cancelled", "result"}
                    | set(bad)):
        ctx.require(R, x, x not in bad, "select:" + x, loc, bad.get(x, ""))


T1 = ("obj", ("T1",), "asyncio.Task")
T2 = ("obj", ("T2",), "asyncio.Task")
F1 = ("obj", ("F1",), "asyncio.Future")
F2 = ("obj", ("F2",), "asyncio.Future")
OTHER = ("obj", ("other",), "user")
DONE = (T2, F2)


class Cancel(Plain):
    exact_lists = True

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(cancelled=(), set_=(), awaited=(), own=())

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind != "call":
            return None
        x = ev.recv
        if is_ext(ev, "isinstance") and ev.args[0] in (T1, T2, F1, F2, OTHER):
            n = repr(ev.args[1])
            x = ev.args[0]
            if x == OTHER:
                return [("v", FALSE, st)]
            return [("v", TRUE if "Future" in n or x in (T1, T2)
                     else FALSE, st)]
        if is_ext(ev, "asyncio.isfuture", "hasattr"):
            return [("v", FALSE if ev.args[0] == OTHER else TRUE, st)]
        if x in (T1, T2, F1, F2):
            if ev.name == "done":
                return [("v", TRUE if x in DONE or x in m.cancelled or
                         x in m.set_ else FALSE, st)]
            if ev.name == "cancelled":
                return [("v", FALSE, st)]
            if ev.name == "cancel":
                return [("v", FALSE if x in DONE else TRUE, st.with_mon(
                    m.set(cancelled=m.cancelled + (x,))))]
            if ev.name in ("set_exception", "set_result"):
                if x in DONE or x in m.set_ or x in (T1, T2):
                    self.bad["settled"] = "the outcome of a finished " \
                        "future or of a task is set"
                    return [("raise", ("exc", "asyncio.InvalidStateError",
                                       True, "set"), st)]
                return [("v", NONE, st.with_mon(m.set(
                    set_=m.set_ + (x,))))]
            return None
        if x == OTHER and ev.name == "done":
            return [("v", FALSE, st)]
        if x == OTHER:
            self.bad["other"] = "an object that is no future is used"
        if ev.recv is not None and ev.recv[0] == "obj" and \
                ev.name == "set_result":
            return [("v", NONE, st.with_mon(m.set(own=m.own + (x,))))]
        return None

    def on_await(self, it, ev, st):
        v = unwrap_aw(ev.value)
        m = st.mon
        ls = set(leaves(it, v, st)) | {v}
        out = []
        if ls & {T1, T2}:
            if not (v[0] == "aw" and v[1] == "wait" or dict(
                    v[3] if v[0] == "aw" else ()).get(
                        "return_exceptions") == TRUE):
                self.bad["outcome"] = "the end of a cancelled task is " \
                    "raised"
            return [("v", NONE, st.with_mon(m.set(
                awaited=m.awaited + tuple(x for x in (T1, T2)
                                          if x in ls))))]
        if v[0] == "obj" and v not in m.own and \
                it.typeof(v) == "asyncio.Future":
            self.bad["hang"] = "waits for a future nobody settles"
        return None


def cancelling(ctx):
    R = "cancel-tasks"
    ctx.rule(R, "cancel_tasks() cancels every task that is not done, breaks "
             "every pending plain future, leaves finished ones alone and "
             "returns an awaitable of the end of all cancelled tasks that "
             "does not raise their outcomes")
    f = ctx.p.func("aiomisc.utils.cancel_tasks")
    bad = {}
    n = 0
    for ts in ((T1, T2, F1, F2, OTHER), (T2, F1), (T1,), (F2,), ()):
        r = Cancel(ctx)
        it, outs = harness(
            ctx, r, "async def driver(f, ts):\n    await f(ts)\n",
            f=("func", f.fid, None), ts=("tuple", ts))
        bad.update(r.bad)
        for k, v, s in outs:
            n += 1
            m = s.mon
            if k == "raise":
                bad["raises"] = "cancel_tasks() fails with " + v[1]
                continue
            if T1 in ts and T1 not in m.cancelled:
                bad["not-cancelled"] = "a task is not cancelled"
            elif T1 in ts and T1 not in m.awaited:
                bad["not-awaited"] = "the end of a cancelled task is not " \
                    "awaited"
            if F1 in ts and F1 not in m.set_ + m.cancelled:
                bad["future"] = "a pending future is left pending"
    if not n:
        bad["raises"] = "cancel_tasks() does not end"
    for x in sorted({"settled", "outcome", "hang", "raises", "not-cancelled",
                     "not-awaited", "future"} | set(bad)):
        ctx.require(R, x, x not in bad, "cancel_tasks:" + x, f.loc(),
                    bad.get(x, ""))


FN = ("sym", "fn", None)
X = ("obj", ("x",), "user")
RES = ("obj", ("result",), "user")
KEYE = ("exc", "Exception", False, "user")
CORO = ("obj", ("coro",), "coroutine")
CUSTOM = ("obj", ("awaitable",), "user")


class Deco(Plain):
    """A decorated function: coro is what it returns."""
    result = CORO
    is_coro = TRUE

    args = (X,)

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(how=(), called=0)

    def on_call(self, it, ev, st):
        if ev.kind != "call":
            return None
        if ev.callee == FN:
            if tuple(ev.args) != self.args or dict(ev.kw) != {"k": X}:
                self.bad["args"] = "the function does not get its arguments"
            return [("v", self.result, st.with_mon(st.mon.set(
                called=st.mon.called + 1)))]
        if is_ext(ev, "asyncio.iscoroutinefunction",
                  "inspect.iscoroutinefunction"):
            return [("v", self.is_coro, st)]
        if is_ext(ev, "asyncio.iscoroutine", "asyncio.isfuture",
                  "inspect.iscoroutine"):
            return [("v", TRUE if ev.args[0] == CORO else FALSE, st)]
        if is_ext(ev, "hasattr", "inspect.isawaitable", "isinstance") and \
                ev.args[0] in (CORO, CUSTOM, RES):
            return [("v", FALSE if ev.args[0] == RES else TRUE, st)]
        return None

    def on_await(self, it, ev, st):
        v = ev.value
        how = []
        while v[0] == "aw" and v[1] in ("wait_for", "shield") or \
                v[0] == "task":
            if v[0] == "task":
                v = v[2]
                continue
            how.append((v[1], dict(v[3]).get("timeout", v[2][1] if len(
                v[2]) > 1 else None)))
            v = v[2][0]
        if v in (CORO, CUSTOM):
            s = st.with_mon(st.mon.set(how=tuple(how)))
            out = [("v", RES, s), ("raise", KEYE, s)]
            if any(h[0] == "wait_for" for h in how):
                out.append(("raise", ("exc", "TimeoutError", True,
                                      "wait_for"), s))
            return out
        if v[0] == "coro" and v != ev.value:
            return it.do_await(v, ev.node, ev.fr, st)
        return None


def decorators(ctx):
    R = "coroutine-decorators"
    ctx.rule(R, "@shield runs the coroutine shielded from cancellation of "
             "its caller; @timeout limits every call by its value and "
             "refuses functions that are not coroutine functions; @awaitable "
             "makes every result awaitable and changes none; all of them "
             "pass arguments, results and exceptions on")
    bad = {}
    src = ("async def driver(d, fn, x, n):\n    w = d(fn)\n"
           "    return await w(x, k=x)\n")
    locs = {}
    for name, deco, what in (
            ("aiomisc.utils.shield", "d", "shield"),
            ("aiomisc.timeout.timeout", "d(n)", "timeout"),
            ("aiomisc.utils.awaitable", "d", "awaitable")):
        f = ctx.p.func(name)
        locs[what] = f.loc()
        # keyword arguments only
        r = Deco(ctx, args=(), is_coro=FALSE if what == "awaitable" else
                 TRUE)
        harness(ctx, r, src.replace("d(fn)", deco + "(fn)").replace(
            "w(x, k=x)", "w(k=x)"), d=("func", f.fid, None), fn=FN, x=X,
            n=const(7))
        for b in r.bad:
            bad[what + " " + b] = r.bad[b]
        for res in (CORO, CUSTOM) if what == "awaitable" else ():
            # what can be awaited is not wrapped
            r = Deco(ctx, is_coro=FALSE, result=res)
            it, outs = harness(
                ctx, r, "def driver(d, fn, x):\n    w = d(fn)\n"
                "    return w(x, k=x)\n", d=("func", f.fid, None), fn=FN,
                x=X)
            if any(k != "v" or v != res for k, v, s in outs):
                bad["awaitable outcome"] = "an awaitable is not given back " \
                    "as it is"
        for coro in ((TRUE, FALSE) if what == "awaitable" else (TRUE,)):
            for res in ((CORO, CUSTOM, RES) if coro == FALSE else (CORO,)):
                r = Deco(ctx, is_coro=coro, result=res)
                it, outs = harness(
                    ctx, r, src.replace("d(fn)", deco + "(fn)"),
                    d=("func", f.fid, None), fn=FN, x=X, n=const(7))
                for b in r.bad:
                    bad[what + " " + b] = r.bad[b]
                got = set()
                for k, v, s in outs:
                    got.add((k, (v[3] if v[3] == "user" else v[1])
                             if k == "raise" else v))
                    h = s.mon.how
                    if s.mon.called != 1:
                        bad[what + " calls"] = "the function is called " \
                            "%d times" % s.mon.called
                    if what == "shield" and [x[0] for x in h] != ["shield"]:
                        bad["shield cancelled"] = "cancelling the caller " \
                            "cancels the shielded coroutine"
                    if what == "timeout" and h != (("wait_for", const(7)),):
                        bad["timeout limit"] = "a call is not limited by " \
                            "the timeout"
                want = {("v", RES)} | (set() if res == RES
                                       else {("raise", "user")})
                if what == "timeout":
                    want.add(("raise", "TimeoutError"))
                if got != want:
                    bad[what + " outcome"] = "results or exceptions are " \
                        "not passed on (%s)" % sorted(
                            str(x) for x in got ^ want)
    f = ctx.p.func("aiomisc.timeout.timeout")
    r = Deco(ctx)
    it, outs = harness(ctx, r, src.replace("d(fn)", "d(n)(fn)"),
                       d=("func", f.fid, None), fn=FN, x=X, n=const(0))
    if not outs or any(s.mon.how != (("wait_for", const(0)),)
                       for k, v, s in outs):
        bad["timeout limit"] = "a call is not limited by a timeout of 0"
    r = Deco(ctx, is_coro=FALSE)
    f = ctx.p.func("aiomisc.timeout.timeout")
    it, outs = harness(ctx, r, "def driver(d, fn, n):\n"
                       "    return d(n)(fn)\n", d=("func", f.fid, None),
                       fn=FN, n=const(7))
    if any(k == "v" for k, v, s in outs):
        bad["timeout function"] = "a function that is not a coroutine " \
            "function is accepted"
    for x in sorted({w + y for w in locs for y in (
            " args", " calls", " outcome")} | {
                "shield cancelled", "timeout limit", "timeout function"}
            | set(bad)):
        ctx.require(R, x, x not in bad, x.replace(" ", ":"),
                    locs[x.split()[0]], bad.get(x, ""))
