"""An abstract world of threads, locks, events and queues next to a loop.

Threads are run when the scenario says so (Mon.plan): whoever has to wait for
something lets the next step of the plan happen. What then still waits is
recorded in `blocked` and does not go on."""
from .aio import *
from .lib import *

LOOP = ("obj", ("loop",), "asyncio.AbstractEventLoop")
LOOP2 = ("obj", ("other loop",), "asyncio.AbstractEventLoop")
LOOPS = (LOOP, LOOP2)
QUEUES = ("queue.SimpleQueue", "queue.Queue", "queue.LifoQueue",
          "collections.deque")
EVENT = ("threading.Event",)
LOCKS = ("threading.Lock", "threading.RLock", "threading.Condition",
         "threading.Semaphore", "threading.BoundedSemaphore")
FLAT = ("touched", "early")


class World(Tasks, Plain):
    """Mon.who acts now. Mon.log: everything observable in order."""
    exact_lists = True
    fresh_new = True
    max_depth = 16
    fold = 2000
    max_log = 60
    loop_only = ("call_soon", "call_later", "call_at", "create_task")
    settle = ("set_result", "set_exception", "cancel")
    watch = ("add_done_callback", "remove_done_callback")

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.blocked = []

    def world_mon(self, **kw):
        return self.task_mon(
            log=(), threads=(), queues=(), soon=(), events=(), held=(),
            who="caller", plan=(), now=0, ctx=None, made=(), loop=LOOP,
            closed=(), floops=(), phase=0, **kw)

    def initial(self):
        return self.world_mon()

    def log(self, st, *x):
        if len(st.mon.log) > self.max_log:
            return st
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def put(self, st, **kw):
        return st.with_mon(st.mon.set(**kw))

    # steps of the plan ---------------------------------------------------
    def act(self, it, ev, step, st):
        """-> states after the step"""
        if step[0] == "thread":
            return self.run_thread(it, ev, step[1], st)
        if step[0] == "threads":
            cur = [st]
            for i in range(len(st.mon.threads)):
                cur = [s2 for s in cur
                       for s2 in self.run_thread(it, ev, i, s)]
            return cur
        if step[0] == "loop":
            return self.run_loop(it, ev, st)
        raise AssertionError(step)

    def next_step(self, it, ev, st):
        p = st.mon.plan
        return self.act(it, ev, p[0], self.put(st, plan=p[1:]))

    def as_who(self, it, who, st, f):
        """Outcomes of f(state), acting as somebody else."""
        old, ctx = st.mon.who, st.mon.ctx
        out = []
        for k, v, s in f(self.put(st, who=who, ctx=None)):
            out.append((k, v, self.put(s, who=old, ctx=ctx)))
        return out

    def run_thread(self, it, ev, i, st):
        m = st.mon
        if i >= len(m.threads) or m.threads[i][4] != "started":
            return [st]
        t, target, args, kw, status = m.threads[i]

        def how(s, x):
            return self.put(s, threads=tuple(
                q[:4] + (x,) if q[0] == t else q for q in s.mon.threads))
        keep, self.blocked = self.blocked, []
        outs = self.as_who(it, ("thread", i), how(st, "running"), lambda s:
                           it.call(target, list(args), dict(kw),
                                   self.place(100 + i), it.top_frame(), s))
        res = []
        for k, v, s in outs:
            s = how(s, "ended")
            res.append(self.log(s, "thread-ended", i) if k == "v" else
                       self.log(s, "thread-raised", i, v[1]))
        for loc, who, s in self.blocked:
            if who == ("thread", i):
                s = self.put(s, who=m.who, ctx=m.ctx)
                res.append(self.log(how(s, "blocked"), "thread-waits", i))
            else:
                keep.append((loc, who, s))
        self.blocked = keep
        return res

    def place(self, n):
        """A call site of its own: frames of nested steps differ."""
        return ast.Pass(lineno=900000 + n, col_offset=0)

    def run_loop(self, it, ev, st):
        """Run the callbacks of the loop, then the tasks."""
        cur, res = [st], []
        for _ in range(8):
            nx = []
            for s in cur:
                m = s.mon
                if m.soon:
                    cb = m.soon[0]
                    for k, v, s2 in self.as_who(
                            it, "loop", self.put(s, soon=m.soon[1:]),
                            lambda q: it.call_value(
                                cb[0], list(cb[1:]), q)):
                        if k == "raise":
                            s2 = self.log(s2, "callback-raised", v[1])
                        nx.append(s2)
                    continue
                ts = [t for t, x in m.tasks if x is None and
                      t[0] == "task" and t not in self.running]
                if ts:
                    old = s.mon.who
                    for s2 in self.run_task(
                            it, ts[0], self.put(s, who="loop"), ev):
                        nx.append(self.put(s2, who=old))
                    continue
                res.append(s)
            cur = nx
            if not cur:
                break
        return res + cur

    def call_back(self, it, t, cbs, st):
        m = st.mon
        return [self.put(st, soon=m.soon + tuple((cb, t) for cb in cbs),
                         cbs=tuple(c for c in m.cbs if c[0] != t))]

    def block(self, it, ev, st, ready):
        """Outcomes of waiting until ready(state) tells the outcomes."""
        out, cur = [], [st]
        while cur:
            s = cur.pop()
            r = ready(s)
            if r is not None:
                out += r
            elif s.mon.plan:
                cur += self.next_step(it, ev, s)
            else:
                self.blocked.append((ev.loc(), s.mon.who, s))
        return it.dedupe(out)

    # queues ---------------------------------------------------------------
    def queue_of(self, it, v):
        if v is None:
            return None
        if v[0] == "super":
            q = self.queue_of(it, v[1])
            return q
        if it.typeof(v) in QUEUES:
            return v
        c = it.classinfo(v)
        if c is not None and any(b in QUEUES for b in c.ext_bases()):
            return v
        return None

    def items(self, q, st):
        return dict(st.mon.queues).get(q, ())

    def put_items(self, q, items, st):
        d = dict(st.mon.queues)
        d[q] = tuple(items)
        return self.put(st, queues=tuple(d.items()))

    def queue_call(self, it, ev, q, n, st):
        a = list(ev.args)
        if n in ("put", "put_nowait", "append") and a:
            return [("v", NONE, self.put_items(
                q, self.items(q, st) + (a[0],), st))]
        if n in ("qsize", "__len__"):
            return [("v", const(len(self.items(q, st))), st)]
        if n == "empty":
            return [("v", FALSE if self.items(q, st) else TRUE, st)]
        if n in ("get", "get_nowait", "popleft"):
            wait = n == "get" and FALSE not in (
                kwarg(ev, "block", 0, TRUE),) and kwarg(
                    ev, "timeout", 1, NONE) == NONE

            def ready(s):
                xs = self.items(q, s)
                if xs:
                    return [("v", xs[0], self.put_items(q, xs[1:], s))]
                if not wait:
                    return [("raise", (
                        "exc", "IndexError" if n == "popleft" else
                        "queue.Empty", True, "empty"), s)]
            return self.block(it, ev, st, ready)
        return None

    def on_truth(self, it, v, st):
        if it.typeof(v) == "collections.deque" and v[0] == "obj":
            return bool(self.items(v, st))
        return None

    # events, locks, threads -----------------------------------------------
    def world_call(self, it, ev, st):
        """Outcomes of a call the world knows, or None."""
        m, n, x = st.mon, ev.name, ev.recv
        if ev.kind == "enter" and ev.rtype in LOCKS:
            return self.acquire(it, ev, st)
        if ev.kind != "call" or isinstance(ev.extra, FuncInfo):
            return None
        if is_ext(ev, "time.monotonic", "time.time", "time.perf_counter"):
            return [("v", const(m.now), st)]
        if is_ext(ev, "len") and ev.args and it.typeof(
                ev.args[0]) == "collections.deque" and \
                ev.args[0][0] == "obj":
            return [("v", const(len(self.items(ev.args[0], st))), st)]
        if is_ext(ev, "time.sleep"):
            return self.sleep(it, ev, st)
        if is_ext(ev, "threading.Thread"):
            t = ("obj", ("thread", len(m.threads)), "threading.Thread")
            a = kwarg(ev, "args", 3, ("tuple", ()))
            k = it.exact_dict(kwarg(ev, "kwargs", 4, NONE), st) or {}
            return [("v", t, self.put(st, threads=m.threads + ((
                t, kwarg(ev, "target", 1, NONE),
                tuple(it.exact_parts(a, st) or ()),
                tuple((y[2], z) for y, z in k.items()), "new"),)))]
        if is_ext(ev, "threading.current_thread", "threading.get_ident"):
            return [("v", ("obj", ("thread id", m.who), "threading.Thread"),
                     st)]
        if is_ext(ev, "asyncio.get_event_loop", "asyncio.get_running_loop",
                  "asyncio.events.get_event_loop"):
            return [("v", m.loop, st)]
        if is_ext(ev, "contextvars.copy_context"):
            c = ("obj", ("context", len(m.made)), "contextvars.Context")
            return [("v", c, self.put(st, made=m.made + (
                (c, m.who, m.phase),)))]
        if is_ext(ev, "asyncio.run_coroutine_threadsafe") and ev.args:
            f, st = self.new_future(st)
            return [("v", f, self.put(st, soon=st.mon.soon + ((
                ("ext", "$relay"), ev.args[0], f),)))]
        if x is None:
            return self.task_call(it, ev, st)
        if n == "run" and it.typeof(x) == "contextvars.Context" and ev.args:
            old = m.ctx
            return [(k, v, self.put(s, ctx=old)) for k, v, s in it.call(
                ev.args[0], list(ev.args[1:]), ev.kw, ev.node, ev.fr,
                self.put(st, ctx=x))]
        q = self.queue_of(it, x)
        if q is not None:
            r = self.queue_call(it, ev, q, n, st)
            if r is not None:
                return r
        if ev.rtype in EVENT:
            if n == "set":
                return [("v", NONE, st if x in m.events else self.put(
                    st, events=m.events + (x,)))]
            if n == "clear":
                return [("v", NONE, self.put(st, events=tuple(
                    e for e in m.events if e != x)))]
            if n == "is_set":
                return [("v", TRUE if x in m.events else FALSE, st)]
            if n == "wait":
                return self.wait_event(it, ev, x, st)
        if ev.rtype in LOCKS:
            if n == "acquire":
                return self.acquire(it, ev, st)
            if n == "release":
                return [("v", NONE, self.release(x, st))]
        if ev.rtype == "threading.Thread":
            if n == "start":
                return [("v", NONE, self.put(st, threads=tuple(
                    t[:4] + ("started",) if t[0] == x else t
                    for t in m.threads)))]
            st_ = [t[4] for t in m.threads if t[0] == x]
            if n == "is_alive" and st_:
                return [("v", FALSE if st_[0] in ("new", "ended") else TRUE,
                         st)]
            if n == "join" and st_:
                lim = kwarg(ev, "timeout", 0, NONE)

                def ready(s):
                    if [t for t in s.mon.threads if t[0] == x][0][4] in (
                            "ended", "new"):
                        return [("v", NONE, s)]
                    if lim != NONE and not s.mon.plan:
                        return [("v", NONE, self.put(
                            s, now=s.mon.now + 100))]
                return self.block(it, ev, st, ready)
        if x in LOOPS or n in ("call_soon_threadsafe", "is_closed") and \
                not self.known(x, st):
            return self.loop_call(it, ev, n, st)
        if (x[0] == "task" or self.is_future(x)) and (
                n in self.settle and m.who not in ("loop", "caller")
                or n in self.watch and m.who[0] == "thread"):
            st = self.log(st, "touched", n)
        if (x[0] == "task" or self.is_future(x)) and n == "get_loop":
            return [("v", dict(m.floops).get(x, LOOP), st)]
        return self.task_call(it, ev, st)

    def loop_call(self, it, ev, n, st):
        m, a = st.mon, list(ev.args)
        if ev.recv in m.closed and (n in self.loop_only
                                    or n == "call_soon_threadsafe"):
            return [("raise", ("exc", "RuntimeError", True, "closed"), st)]
        if n in self.loop_only and m.who not in ("loop", "caller"):
            st = self.log(st, "touched", n)
            m = st.mon
        if n in ("call_soon", "call_soon_threadsafe") and a:
            return [("v", ("obj", ("handle",), "asyncio.Handle"), self.put(
                st, soon=m.soon + (tuple(a),)))]
        if n == "is_closed":
            return [("v", TRUE if ev.recv in m.closed else FALSE, st)]
        if n == "create_future":
            f, st = self.new_future(st)
            return [("v", f, self.put(st, floops=st.mon.floops + (
                (f, ev.recv),)))]
        if n == "is_running":
            return [("v", TRUE, st)]
        return self.task_call(it, ev, st)

    def wait_event(self, it, ev, x, st):
        lim = kwarg(ev, "timeout", 0, NONE)

        def ready(s):
            if x in s.mon.events:
                return [("v", TRUE, s)]
            if lim != NONE:
                if s.mon.plan:
                    return [("v", TRUE if x in s2.mon.events else FALSE,
                             self.put(s2, now=s2.mon.now + 1))
                            for s2 in self.next_step(it, ev, s)]
                return [("v", FALSE, self.put(s, now=s.mon.now + 100))]
        return self.block(it, ev, st, ready)

    def sleep(self, it, ev, st):
        if st.mon.plan:
            return [("v", NONE, self.put(s, now=s.mon.now + 1))
                    for s in self.next_step(it, ev, st)]
        if st.mon.now > 500:
            return []
        return [("v", NONE, self.put(st, now=st.mon.now + 100))]

    def acquire(self, it, ev, st):
        """Nobody who is kept out of a lock gets on in this scenario."""
        x, m = ev.recv, st.mon
        mine = [h for h in m.held if h[0] == x]
        if mine and (mine[0][1] != m.who or ev.rtype == "threading.Lock"):
            if kwarg(ev, "blocking", 0, TRUE) == FALSE:
                return [("v", FALSE, st)]
            self.kept_out(ev, st)
            return []
        return [("v", TRUE, self.put(st, held=m.held + ((x, m.who),)))]

    def kept_out(self, ev, st):
        pass

    def release(self, x, st):
        held = list(st.mon.held)
        for h in reversed(held):
            if h[0] == x:
                held.reverse()
                held.remove(h)
                held.reverse()
                break
        return self.put(st, held=tuple(held))

    def relay(self, it, ev, st):
        """The callback of run_coroutine_threadsafe()."""
        coro, fut = ev.args
        t, st = self.new_task(coro, st)
        return [("v", NONE, s2) for s in self.run_task(it, t, st, ev)
                for s2 in self.finish(it, fut, *self.status(t, s), s)]

    def on_call(self, it, ev, st):
        if ev.kind == "call" and ev.callee == ("ext", "$relay"):
            return self.relay(it, ev, st)
        return self.world_call(it, ev, st)

    def note(self, it, ev, st):
        if ev.kind == "made" and ev.name == "contextvars.copy_context":
            return self.put(st, made=st.mon.made + ((
                ev.value, st.mon.who, st.mon.phase),))
        if ev.kind == "exit" and ev.rtype in LOCKS:
            return self.release(ev.recv, st)
        return st

    def on_await(self, it, ev, st):
        return self.task_await(it, ev, st)
