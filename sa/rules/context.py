"""Context items, select, cancel_tasks, shield, awaitable, timeout."""
from .lib import *

LOOP = ("obj", ("loop",), "asyncio.AbstractEventLoop")
OTHER = ("obj", ("other loop",), "asyncio.AbstractEventLoop")
KEYV = ("sym", "key", None)
V1 = ("obj", ("v1",), "user")
V2 = ("obj", ("v2",), "user")
RUN = ("sym", "run", None)


class Ctx_(Maps, Plain):
    """Mon.done: values of the futures; queue: scheduled callbacks."""
    closed = FALSE
    current = LOOP
    keys = ()
    max_depth = 10

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(maps=(), done=(), queue=(), running=False, n=0)

    def future(self, st):
        m = st.mon
        f = ("obj", ("fut", m.n), "asyncio.Future")
        return f, st.with_mon(m.set(n=m.n + 1))

    def missing(self, it, ev, base, key, st):
        fac = st.get(("H", base, "$arg0"))
        if it.typeof(base) != "collections.defaultdict" or fac is None:
            return [("raise", KEYERR, st)]
        if key != KEYV and key not in self.keys:
            self.bad["key"] = "items are not kept under their key"
        f, st = self.future(st)
        d = self.maps_of(st)
        d[(base, key)] = f
        return [("v", f, self.put_map(st, d))]

    def isfut(self, v):
        return v[0] == "obj" and v[1][0] == "fut"

    def on_call(self, it, ev, st):
        m = st.mon
        r = self.map_call(it, ev, st)
        if r is not None:
            return r
        if ev.kind != "call":
            return None
        if is_method(ev, "create_future") or is_ext(ev, "asyncio.Future"):
            f, st = self.future(st)
            return [("v", f, st)]
        if is_ext(ev, "asyncio.get_event_loop", "asyncio.get_running_loop"):
            return [("v", self.current, st)]
        if is_method(ev, "is_closed"):
            return [("v", self.closed, st)]
        if is_method(ev, "call_soon", "call_soon_threadsafe", "call_later",
                     "call_at"):
            if ev.name != "call_soon_threadsafe":
                self.bad["threadsafe"] = "setting an item uses %s(), which " \
                    "is not allowed in other threads" % ev.name
            q = (ev.args[0], tuple(ev.args[1:]))
            return [("v", NONE, st.with_mon(m.set(queue=m.queue + (q,))))]
        if ev.callee == RUN:
            outs = [("v", NONE, st.with_mon(m.set(queue=(), running=True)))]
            for f, a in m.queue:
                nx = []
                for k, v, s in outs:
                    nx += it.call_value(f, list(a), s) if k == "v" else \
                        [(k, v, s)]
                outs = nx
            for k, v, s in outs:
                if k != "v":
                    self.bad["lost"] = "setting an item fails in the loop " \
                        "with " + str(v[1])
            return [("v", NONE, s.with_mon(s.mon.set(running=False)))
                    for k, v, s in outs]
        if ev.recv is not None and self.isfut(ev.recv):
            done = dict(m.done)
            if ev.name == "done":
                return [("v", TRUE if ev.recv in done else FALSE, st)]
            if ev.name == "cancelled":
                return [("v", FALSE, st)]
            if ev.name in ("set_result", "set_exception"):
                if not m.running:
                    self.bad["threadsafe"] = "the future of an item is set " \
                        "in the thread of the caller"
                if ev.recv in done:
                    self.bad["lost"] = "a future is set twice"
                    return [("raise", ("exc", "asyncio.InvalidStateError",
                                       True, "set"), st)]
                done[ev.recv] = ev.args[0]
                return [("v", NONE, st.with_mon(m.set(done=tuple(sorted(
                    done.items(), key=repr)))))]
            if ev.name == "result":
                if ev.recv in done:
                    return [("v", done[ev.recv], st)]
        return None

    def on_await(self, it, ev, st):
        v = ev.value
        shielded = False
        while v[0] in ("aw", "task"):
            if v[0] == "task":
                # a task of its own: cancelling a waiter that awaits it
                # cancels it, and so the future
                v = v[2]
                continue
            if v[1] not in ("shield", "wait_for") or not v[2]:
                break
            shielded = shielded or v[1] == "shield"
            v = v[2][0]
        if v[0] == "coro" and v != ev.value:
            return it.do_await(v, ev.node, ev.fr, st)
        if not self.isfut(v):
            return None
        done = dict(st.mon.done)
        if not shielded and v not in done:
            self.bad["shared"] = "all who wait for an item await the same " \
                "future: cancelling one of them cancels the others"
        self.seen.add("awaited")
        return [("v", done.get(v, ("sym", "pending", None)), st)]


def items(ctx):
    R = "context-items"
    ctx.rule(R, "whoever waits for an item of a context gets its value, "
             "before or after it was set, and the last one when it was set "
             "again; waiters are independent of each other's cancellation; "
             "setting works from any thread; the context is found by its "
             "loop until it is closed")
    c = ctx.p.cls("aiomisc.context.Context")
    get = ctx.p.func("aiomisc.context.get_context")
    env = dict(cls=("cls", c.cid), loop=LOOP, key=KEYV, v1=V1, v2=V2,
               run=RUN, get=("func", get.fid, None))
    bad = {}

    def drive(body, want=None, what="", **opt):
        r = Ctx_(ctx, **opt)
        src = ("async def driver(cls, loop, key, v1, v2, run, get):\n"
               "    ctx = cls(loop)\n" + "".join(
                   "    %s\n" % x for x in body))
        it, outs = harness(ctx, r, src, **env)
        bad.update(r.bad)
        for k, v, s in outs:
            if want is not None and (k != "v" or v != want):
                bad[what] = {
                    "before": "who waits before an item is set does not get "
                    "its value", "after": "who asks for an item that is set "
                    "does not get its value", "again": "an item that was "
                    "set again keeps its old value",
                    "reset": "who waited for the first value does not get a "
                    "value when it is set again"}[what]
        if not outs:
            bad[what or "lost"] = "the scenario %s has no end" % what
        return r, outs
    drive(["await ctx[key]"])
    drive(["a = ctx[key]", "ctx[key] = v1", "run()", "return await a"],
          V1, "before")
    drive(["ctx[key] = v1", "run()", "a = ctx[key]", "b = ctx[key]",
           "await a", "return await b"], V1, "after")
    drive(["ctx[key] = v1", "run()", "ctx[key] = v2", "run()",
           "return await ctx[key]"], V2, "again")
    drive(["a = ctx[key]", "ctx[key] = v1", "ctx[key] = v2", "run()",
           "await a", "return await ctx[key]"], V2, "again")
    for x in (NONE, FALSE, const(0)):
        drive(["a = ctx[key]", "ctx[key] = %r" % (x[2],), "run()",
               "return await a"], x, "before")
        drive(["ctx[key] = v1", "run()", "ctx[key] = %r" % (x[2],), "run()",
               "return await ctx[key]"], x, "again")
    # items and contexts are independent
    drive(["a = ctx[key]", "b = ctx[v1]", "ctx[v1] = v2", "ctx[key] = v1",
           "run()", "await b", "return await a"], V1, "before", keys=(V1,))
    drive(["o = cls(v1)", "a = ctx[key]", "o[key] = v2", "ctx[key] = v1",
           "run()", "return await a"], V1, "before")
    for q, opt in (("get(loop)", {}), ("get()", {}),
                   ("get(loop)", {"current": OTHER})):
        r, outs = drive(["return %s is ctx" % q], **opt)
        for k, v, s in outs:
            if (k, v) != ("v", TRUE):
                bad["registered"] = "the context of a loop is not found"
    r, outs = drive(["o = cls(v1)", "o.close()", "return get(loop) is ctx"])
    for k, v, s in outs:
        if (k, v) != ("v", TRUE):
            bad["registered"] = "closing a context closes another one"
    r, outs = drive(["ctx.close()", "return get(loop)"])
    for k, v, s in outs:
        if k == "v":
            bad["closed"] = "a closed context is still given out"
    r, outs = drive(["return get(loop)"], closed=TRUE)
    for k, v, s in outs:
        if (k, v[1]) != ("raise", "RuntimeError"):
            bad["loop-closed"] = "the context of a closed loop is given out"
    for x in sorted({"shared", "threadsafe", "lost", "before", "after",
                     "again", "registered", "closed", "loop-closed"}
                    | set(bad)):
        ctx.require(R, x, x not in bad, "Context:" + x,
                    c.find_method("__getitem__").loc(), bad.get(x, ""))
