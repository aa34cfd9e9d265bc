"""An abstract model of asyncio tasks and futures, shared by rules.

A task is started when somebody waits for it. Who is cancelled before that
ends as cancelled. Futures end when somebody settles them."""
from .lib import *

TIMEOUT = ("exc", "TimeoutError", True, "timeout")
INVALID = ("exc", "asyncio.InvalidStateError", True, "state")


class Tasks:
    """Mixin of a rule. Mon.tasks: ((task, status)), status is None,
    ("v", value) or ("raise", exc); Mon.cancels: asked to end; Mon.cbs:
    ((task, callback)); Mon.cut: the current task was cancelled."""
    cut = False         # may the current task be cancelled?
    running = ()

    def task_mon(self, **kw):
        return Mon(tasks=(), cancels=(), cbs=(), cut=False, **kw)

    # hooks -------------------------------------------------------------
    def task_cancelled(self, it, t, st):
        return st

    def task_ended(self, it, t, k, v, st):
        return st

    def may_cut(self, it, v, st):
        return self.cut

    def callback_raised(self, it, t, e, st):
        return st

    # state -------------------------------------------------------------
    def status(self, t, st):
        for x, s in st.mon.tasks:
            if x == t:
                return s
        return None

    def known(self, t, st):
        return any(x == t for x, s in st.mon.tasks)

    def is_future(self, v):
        return v[0] == "obj" and v[2] in ("asyncio.Future", "asyncio.Task")

    def add_task(self, t, st, status=None):
        m = st.mon
        return st.with_mon(m.set(tasks=m.tasks + ((t, status),)))

    def new_task(self, aw, st):
        if aw[0] == "task" or self.is_future(aw):
            if not self.known(aw, st):
                st = self.add_task(aw, st)
            return aw, st
        t = ("task", ("t", len(st.mon.tasks)), aw)
        return t, self.add_task(t, st)

    def new_future(self, st):
        f = ("obj", ("future", len(st.mon.tasks)), "asyncio.Future")
        return f, self.add_task(f, st)

    def finish(self, it, t, k, v, st):
        """-> states after t ended and its callbacks ran"""
        m = st.mon
        if not self.known(t, st):
            st = self.add_task(t, st)
            m = st.mon
        st = st.with_mon(m.set(tasks=tuple(
            (x, (k, v) if x == t else s) for x, s in m.tasks)))
        st = self.task_ended(it, t, k, v, st)
        return self.call_back(it, t, [cb for x, cb in m.cbs if x == t], st)

    def call_back(self, it, t, cbs, st):
        """-> states after the done callbacks of t"""
        cur = [st]
        for cb in cbs:
            nx = []
            for s in cur:
                for k2, v2, s2 in it.call_value(cb, [t], s):
                    if k2 == "raise":
                        s2 = self.callback_raised(it, t, v2, s2)
                    nx.append(s2)
            cur = nx
        return [s.with_mon(s.mon.set(cbs=tuple(
            c for c in s.mon.cbs if c[0] != t))) for s in cur]

    def run_task(self, it, t, st, ev):
        """-> states in which t ended; none if it can not end"""
        if self.status(t, st) is not None:
            return [st]
        if t in st.mon.cancels:
            return self.finish(it, t, "raise", CANCEL, st)
        if t[0] != "task" or t in self.running:
            return []
        self.running += (t,)
        try:
            outs = it.do_await(t[2], ev.node, ev.fr, st)
        finally:
            self.running = self.running[:-1]
        res = []
        for k, v, s in outs:
            res += self.finish(it, t, k, v, s)
        return res

    def cancel_task(self, it, t, st):
        if self.status(t, st) is not None:
            return [("v", FALSE, st)]
        if not self.known(t, st):
            st = self.add_task(t, st)
        m = st.mon
        if t not in m.cancels:
            st = st.with_mon(m.set(cancels=m.cancels + (t,)))
        st = self.task_cancelled(it, t, st)
        if t[0] != "task" and t[2] == "asyncio.Future":
            return [("v", TRUE, s) for s in self.finish(
                it, t, "raise", CANCEL, st)]
        return [("v", TRUE, st)]

    # calls -------------------------------------------------------------
    def task_call(self, it, ev, st):
        """Outcomes of a call which is about tasks, or None."""
        if ev.kind != "call":
            return None
        n, x = ev.name, ev.recv
        if ev.extra in ("method", "ext") and ev.args and n in (
                "create_task", "asyncio.create_task",
                "asyncio.ensure_future", "asyncio.wrap_future"):
            a = ev.args[0]
            if a[0] == "const":
                return [("raise", ("exc", "TypeError", True, "task"), st)]
            return [("v",) + self.new_task(a, st)]
        if ev.extra == "method" and n == "create_future" or is_ext(
                ev, "asyncio.Future"):
            return [("v",) + self.new_future(st)]
        if is_ext(ev, "hasattr", "asyncio.iscoroutine", "asyncio.isfuture",
                  "inspect.isawaitable", "inspect.iscoroutine") and ev.args:
            a = ev.args[0]
            fut = a[0] == "task" or self.is_future(a)
            if fut or a[0] in ("aw", "coro"):
                ok = {"asyncio.iscoroutine": not fut,
                      "inspect.iscoroutine": not fut,
                      "asyncio.isfuture": fut}.get(n, True)
                return [("v", TRUE if ok else FALSE, st)]
            if a[0] == "const":
                return [("v", FALSE, st)]
        if is_ext(ev, "isinstance") and (
                ev.args[0][0] == "task" or self.is_future(ev.args[0])):
            a = ev.args[0]
            w = repr(ev.args[1])
            task = a[0] == "task" or a[2] == "asyncio.Task"
            ok = "Future" in w or "Awaitable" in w or "Task" in w and task
            return [("v", TRUE if ok else FALSE, st)]
        if x is None or not (x[0] == "task" or self.is_future(x)):
            return None
        s = self.status(x, st)
        if n == "done":
            return [("v", FALSE if s is None else TRUE, st)]
        if n == "cancelled":
            return [("v", TRUE if s and s[0] == "raise" and is_cancel(s[1])
                     else FALSE, st)]
        if n in ("result", "exception"):
            if s is None:
                return [("raise", INVALID, st)]
            if s[0] == "raise" and (is_cancel(s[1]) or n == "result"):
                return [("raise", s[1], st)]
            return [("v", s[1] if (n == "result") == (s[0] == "v") else NONE,
                     st)]
        if n == "cancel":
            return self.cancel_task(it, x, st)
        if n in ("set_result", "set_exception"):
            if s is not None:
                return [("raise", INVALID, st)]
            k = "v" if n == "set_result" else "raise"
            return [("v", NONE, s2) for s2 in self.finish(
                it, x, k, ev.args[0] if ev.args else NONE, st)]
        if n == "add_done_callback":
            if s is not None:
                return [("v", NONE, s2) for k, v, s2 in it.call_value(
                    ev.args[0], [x], st)]
            m = st.mon
            return [("v", NONE, st.with_mon(m.set(
                cbs=m.cbs + ((x, ev.args[0]),))))]
        if n == "remove_done_callback":
            m = st.mon
            return [("v", NONE, st.with_mon(m.set(cbs=tuple(
                c for c in m.cbs if c != (x, ev.args[0])))))]
        return None

    # awaits ------------------------------------------------------------
    def each(self, it, args, st):
        """Tasks of the arguments of gather() or wait(), or None."""
        ts = []
        for a in args:
            ps = [a]
            if a[0] == "star":
                ps = it.exact_parts(a[1], st)
                if ps is None:
                    return None, st
            for p in ps:
                t, st = self.new_task(p, st)
                ts.append(t)
        return ts, st

    def group(self, it, ts, st):
        d = ("obj", ("group",) + tuple(ts), "set")
        st = st.set(("H", d, "[]"), frozenset(ts))
        return d, st.set(("H", d, "$parts"), tuple(ts))

    def interrupt(self, it, v, ts, st):
        """The current task is cancelled while it waits."""
        out = []
        if not st.mon.cut and self.may_cut(it, v, st):
            s = st.with_mon(st.mon.set(cut=True))
            cur = [s]
            for t in ts:
                cur = [s3 for s2 in cur
                       for k, x, s3 in self.cancel_task(it, t, s2)]
            out = [("raise", CANCEL, s) for s in cur]
        return out

    def outcome(self, t, st):
        return self.status(t, st) + (st,)

    def task_await(self, it, ev, st):
        """Outcomes of an await which is about tasks, or None."""
        v = ev.value
        if v[0] == "task" or self.is_future(v):
            out = []
            if self.status(v, st) is None:
                out = self.interrupt(it, v, [v], st)
            return out + [self.outcome(v, s) for s in self.run_task(
                it, v, st, ev)]
        if v[0] != "aw":
            return None
        kw = dict(v[3])
        if v[1] == "gather":
            ts, st = self.each(it, v[2], st)
            if ts is None:
                return None
            return self.interrupt(it, v, ts, st) + self.gathered(
                it, ts, kw.get("return_exceptions") == TRUE, ev, st)
        if v[1] == "wait" and v[2]:
            ps = it.exact_parts(v[2][0], st)
            if ps is None:
                return None
            ts, st = self.each(it, ps, st)
            rw = kw.get("return_when", v[2][2] if len(v[2]) > 2 else None)
            first = rw is not None and "ALL_COMPLETED" not in repr(rw)
            return self.interrupt(it, v, [], st) + self.waited(
                it, ts, first, kw.get("timeout", v[2][1] if len(v[2]) > 1
                                      else NONE), ev, st)
        if v[1] == "wait_for" and v[2]:
            t, st = self.new_task(v[2][0], st)
            out = self.interrupt(it, v, [t], st)
            out += [self.outcome(t, s) for s in self.run_task(
                it, t, st, ev)]
            limit = kw.get("timeout", v[2][1] if len(v[2]) > 1 else NONE)
            if limit != NONE and self.status(t, st) is None:
                for k, x, s in self.cancel_task(it, t, st):
                    for s2 in self.finish(it, t, "raise", CANCEL, s):
                        out.append(("raise", TIMEOUT, s2))
            return out
        if v[1] == "shield" and v[2]:
            t, st = self.new_task(v[2][0], st)
            return self.interrupt(it, v, [], st) + [
                self.outcome(t, s) for s in self.run_task(it, t, st, ev)]
        return None

    def gathered(self, it, ts, keep, ev, st):
        out = []
        cur = [(st, None, False)]
        for t in ts:
            nx = []
            for s, exc, stuck in cur:
                ss = self.run_task(it, t, s, ev)
                if not ss:
                    nx.append((s, exc, True))
                for s2 in ss:
                    k, v = self.status(t, s2)
                    if k == "raise" and not keep and exc is None:
                        out.append(("raise", v, s2))
                        nx.append((s2, v, stuck))
                    else:
                        nx.append((s2, exc, stuck))
            cur = nx
        for s, exc, stuck in cur:
            if exc is not None:
                out.append(("raise", exc, s))
            elif not stuck:
                out.append(("v", ("tuple", tuple(
                    self.status(t, s)[1] for t in ts)), s))
        return out

    def waited(self, it, ts, first, limit, ev, st):
        ended = [t for t in ts if self.status(t, st) is not None]
        if first and ended:
            orders = [()]
        elif first:
            orders = [(t,) for t in ts]
            if len(ts) > 1:
                orders += [tuple(ts), tuple(reversed(ts))]
        else:
            orders = [tuple(ts)]
        if limit != NONE:
            orders.append(())
        out = []
        for order in orders:
            cur = [st]
            for t in order:
                cur = [s2 for s in cur for s2 in self.run_task(
                    it, t, s, ev)]
            for s in cur:
                d, s = self.group(it, [
                    t for t in ts if self.status(t, s) is not None], s)
                p, s = self.group(it, [
                    t for t in ts if self.status(t, s) is None], s)
                out.append(("v", ("tuple", (d, p)), s))
        return it.dedupe(out)
