"""Coroutines next to each other in an abstract loop.

A scenario starts actors one by one. Where an actor has to wait, the steps of
its plan happen: other actors, time, its own cancellation. An actor whose plan
is over stays where it waits: it is logged as waiting and does not go on."""
from .lib import *
from .world import World

QUEUES = ("asyncio.Queue", "asyncio.queues.Queue", "asyncio.LifoQueue")
SEMS = ("asyncio.Semaphore", "asyncio.BoundedSemaphore",
        "asyncio.locks.Semaphore", "asyncio.locks.BoundedSemaphore")
QEMPTY = ("exc", "asyncio.QueueEmpty", True, "queue")


def call(j, *plan):
    return ("call", j, plan)


def seq(*steps):
    return ("seq", steps)


OVER = ("time over",)
CANCELLED_WAIT = ("cancelled",)


class Coop(World):
    def coop_mon(self, **kw):
        return self.world_mon(sems=(), **kw)

    def initial(self):
        return self.coop_mon()

    # actors ---------------------------------------------------------------
    def act(self, it, ev, step, st):
        if step[0] == "seq":
            cur = [st]
            for x in step[1]:
                cur = [s2 for s in cur for s2 in self.act(it, ev, x, s)]
            return cur
        if step[0] == "call":
            return self.start(it, ev, step[1], step[2], st)
        if step[0] == "tick":
            return [self.put(st, now=round(st.mon.now + step[1], 6))]
        if step in (OVER, CANCELLED_WAIT):
            return [st]         # nobody waits any more
        return super().act(it, ev, step, st)

    def start(self, it, ev, j, plan, st):
        return self.actor(it, j, plan, st,
                          lambda s: self.behaviour(it, ev, j, s))

    def behaviour(self, it, ev, j, st):
        """Outcomes of what actor j does."""
        raise NotImplementedError

    def awaited(self, it, n, fv, args, st):
        """Outcomes of `await fv(*args)`."""
        out = []
        for k, v, s in it.call(fv, list(args), {}, self.place(n),
                               it.top_frame(), st):
            if k == "raise":
                out.append((k, v, s))
            else:
                out += it.do_await(v, self.place(500 + n), it.top_frame(), s)
        return out

    def actor(self, it, j, plan, st, body, what="called"):
        m = st.mon
        keep, self.blocked = self.blocked, []
        old = m.plan
        outs = self.as_who(it, ("caller", j), self.put(
            self.log(st, what, j, m.now), plan=plan), body)
        res = [self.log(self.put(s, plan=old), "ended", j, k, v)
               for k, v, s in outs]
        for loc, who, s in self.blocked:
            if who == ("caller", j):
                res.append(self.log(self.put(s, who=m.who, ctx=m.ctx,
                                             plan=old), "waits", j))
            else:
                keep.append((loc, who, s))
        self.blocked = keep
        return res

    def me(self, st):
        w = st.mon.who
        return w[1] if w[0] == "caller" else None

    def interrupted(self, it, ev, st, ready):
        """Like block(); the plan may cancel who waits."""
        out, cur = [], [st]
        while cur:
            s = cur.pop()
            p = s.mon.plan
            r = ready(s)
            if p and p[0] == CANCELLED_WAIT and r is None:
                out.append(("raise", CANCEL, self.put(s, plan=p[1:])))
            elif r is not None:
                out += r
            elif p:
                cur += self.next_step(it, ev, s)
            else:
                self.blocked.append((ev.loc(), s.mon.who, s))
        return it.dedupe(out)

    # hooks ----------------------------------------------------------------
    def on_call(self, it, ev, st):
        m, n = st.mon, ev.name
        t = ev.rtype
        if t == "asyncio.Event" and ev.kind == "call":
            if n == "wait":
                return [("v", ("aw", "$wait", (ev.recv,), ()), st)]
            if n == "set":
                return [("v", NONE, st if ev.recv in m.events else self.put(
                    st, events=m.events + (ev.recv,)))]
            if n == "clear":
                return [("v", NONE, self.put(st, events=tuple(
                    e for e in m.events if e != ev.recv)))]
            if n == "is_set":
                return [("v", TRUE if ev.recv in m.events else FALSE, st)]
        if t == "asyncio.Lock":
            if ev.kind == "enter":
                return self.lock(it, ev, ev.recv, st)
            if ev.kind == "call" and n == "acquire":
                return [("v", ("aw", "$lock", (ev.recv,), ()), st)]
            if ev.kind == "call" and n == "release":
                return [("v", NONE, self.release(ev.recv, st))]
            if ev.kind == "call" and n == "locked":
                return [("v", TRUE if any(h[0] == ev.recv for h in m.held)
                         else FALSE, st)]
        if is_ext(ev, *SEMS):
            k = kwarg(ev, "value", 0, const(1))
            if k[0] == "const" and isinstance(k[2], int):
                x = ("obj", ("semaphore", len(m.sems)), n)
                return [("v", x, self.put(st, sems=m.sems + ((
                    x, k[2], k[2] if "Bounded" in n else None),)))]
        if t in SEMS and (ev.kind == "enter" or ev.extra == "method"):
            r = self.semaphore(it, ev, st)
            if r is not None:
                return r
        if t in QUEUES and ev.kind == "call" and ev.extra == "method":
            r = self.async_queue(it, ev, st)
            if r is not None:
                return r
        if ev.kind == "call" and n == "time" and ev.extra == "method" \
                and it.typeof(ev.recv) == "asyncio.AbstractEventLoop":
            return [("v", const(m.now), st)]
        if ev.kind == "call" and n in ("call_later", "call_at") and \
                ev.extra == "method" and len(ev.args) > 1:
            return [("v", ("obj", ("timer",), "asyncio.TimerHandle"),
                     self.put(st, soon=m.soon + (tuple(ev.args[1:]),)))]
        return super().on_call(it, ev, st)

    def async_queue(self, it, ev, st):
        n, q = ev.name, ev.recv
        if n in ("get", "put", "join"):
            return [("v", ("aw", "$queue." + n, (q,) + tuple(ev.args), (),
                           len(st.mon.log)), st)]
        if n == "get_nowait":
            xs = self.items(q, st)
            if not xs:
                return [("raise", QEMPTY, st)]
            return [("v", xs[0], self.put_items(q, xs[1:], st))]
        if n == "task_done":
            return [("v", NONE, st)]
        if n in ("put_nowait", "qsize", "empty"):
            return self.queue_call(it, ev, q, n, st)
        return None

    # semaphores
    def permits(self, x, st):
        for s, n, top in st.mon.sems:
            if s == x:
                return n
        return None

    def add_permits(self, x, d, st):
        return self.put(st, sems=tuple(
            (s, n + d, top) if s == x else (s, n, top)
            for s, n, top in st.mon.sems))

    def semaphore(self, it, ev, st):
        x, n = ev.recv, ev.name
        if self.permits(x, st) is None:
            return None
        if ev.kind == "enter":
            return self.take_permit(it, ev, x, st)
        if n == "acquire":
            return [("v", ("aw", "$permit", (x,), (), len(st.mon.log)), st)]
        if n == "release":
            top = [s[2] for s in st.mon.sems if s[0] == x][0]
            if top is not None and self.permits(x, st) >= top:
                return [("raise", ("exc", "ValueError", True, "released too "
                                   "many times"), st)]
            return [("v", NONE, self.add_permits(x, 1, st))]
        if n == "locked":
            return [("v", FALSE if self.permits(x, st) > 0 else TRUE, st)]
        return None

    def take_permit(self, it, ev, x, st):
        return self.interrupted(it, ev, st, lambda s: [(
            "v", TRUE, self.add_permits(x, -1, s))] if self.permits(
                x, s) > 0 else None)

    def lock(self, it, ev, x, st):
        return self.block(it, ev, st, lambda s: None if any(
            h[0] == x for h in s.mon.held) else [("v", TRUE, self.put(
                s, held=s.mon.held + ((x, s.mon.who),)))])

    def note(self, it, ev, st):
        if ev.kind == "exit" and ev.rtype == "asyncio.Lock":
            return self.release(ev.recv, st)
        if ev.kind == "exit" and ev.rtype in SEMS and \
                self.permits(ev.recv, st) is not None:
            return self.add_permits(ev.recv, 1, st)
        if ev.kind == "made" and ev.name == "asyncio.Future":
            return self.add_task(ev.value, st)
        return super().note(it, ev, st)

    def on_await(self, it, ev, st):
        v = ev.value
        if v[0] == "aw" and v[1] == "$lock":
            return self.lock(it, ev, v[2][0], st)
        if v[0] == "aw" and v[1] == "$permit":
            return self.take_permit(it, ev, v[2][0], st)
        if v[0] == "aw" and v[1] == "$queue.get":
            q = v[2][0]

            def ready(s):
                xs = self.items(q, s)
                if xs:
                    return [("v", xs[0], self.put_items(q, xs[1:], s))]
            return self.interrupted(it, ev, st, ready)
        if v[0] == "aw" and v[1] == "$queue.put":
            return [("v", NONE, self.put_items(
                v[2][0], self.items(v[2][0], st) + (v[2][1],), st))]
        if v[0] == "aw" and v[1] == "$wait":
            return self.interrupted(it, ev, st, lambda s: [(
                "v", TRUE, s)] if v[2][0] in s.mon.events else None)
        if self.is_future(v) and self.status(v, st) is None:
            # settled by somebody else, or never
            return self.block(it, ev, st, lambda s: None if self.status(
                v, s) is None else [self.outcome(v, s)])
        if v[0] == "aw" and v[1] == "sleep":
            return self.block(it, ev, st, lambda s: None if s.mon.plan else [
                ("v", NONE, s)])
        return super().on_await(it, ev, st)
