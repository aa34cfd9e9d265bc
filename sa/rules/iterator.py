"""Threaded iterators end to end: thread, channel, consumer and closing."""
from .lib import *
from .world import *

MOD = "aiomisc.iterator_wrapper"
W = MOD + ".IteratorWrapper"
GEN = ("obj", ("gen",), "generator")
FN = ("sym", "fn", None)
EX = ("obj", ("executor",), "concurrent.futures.Executor")
MARKS = {n: ("sym", n, None) for n in ("keep", "got", "drop", "went",
                                       "pause", "cut")}
BASE = ("exc", "BaseException", True, "user")
EXC = ("exc", "ValueError", True, "user")
RTE = ("exc", "RuntimeError", True, "user")
GENEXC = ("exc", "queue.Empty", True, "user")
STOP = ("exc", "StopIteration", True, "end")
ERRITEM = ("exc", "KeyError", True, "item")
ITEMS = (NONE, FALSE, const(0), ERRITEM, ("obj", ("item",), "label"))
FUTURE = "asyncio.Future"
LONG = 60


class Iterators(World):
    """script: what the generator does; forever: it starts again."""
    script = ()
    forever = False
    generator = True
    alive = True
    thrown = "raise"      # what the generator does with thrown exceptions
    fails = None
    race = False

    def initial(self):
        return self.world_mon(pos=0, futs=(), proxy=None, wrapper=None, finals=(),
                              sizes=(), gens=0, dead=False, sick=False)

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.unsure = False
        self.started = 0
        self.naps = set()

    # threads -------------------------------------------------------------
    def run_thread(self, it, ev, i, st):
        out = []
        for s in super().run_thread(it, ev, i, st):
            m = s.mon
            f = dict(m.futs).get(i)
            if f is None or m.threads[i][4] != "ended" or self.status(
                    f, s) is not None:
                out.append(s)
                continue
            last = [x for x in m.log if x[0] in (
                "thread-ended", "thread-raised") and x[1] == i][-1]
            k, v = ("v", NONE) if last[0] == "thread-ended" else (
                "raise", last[2])
            out += self.finish(it, f, k, v, s)
        return out

    def bound(self, it, x, name):
        c = it.classinfo(x)
        f = c and c.find_method(name)
        if not f:
            self.unsure = True
            return ("sym", name, None)
        return ("bm", x, f.fid)

    def act(self, it, ev, step, st):
        ev = Ev("step", self.place(300 + len(st.mon.plan)), it.top_frame())
        if step[0] == "idle":
            return [st]
        if step[0] == "next":
            p = st.mon.proxy
            out = []
            for k, v, s in self.as_who(it, "loop", st, lambda q: it.call(
                    self.bound(it, p, "__anext__"), [], {}, self.place(
                        300 + len(st.mon.plan)), it.top_frame(), q)):
                if k == "v":
                    for k2, v2, s2 in self.as_who(
                            it, "loop", s, lambda q: it.do_await(
                                v, ev.node, ev.fr, q)):
                        out.append(self.log(
                            s2, "got" if k2 == "v" else "end", v2))
            return out
        if step[0] == "close":
            return [s for k, v, s in self.as_who(
                it, "loop", st, lambda q: it.call(
                    self.bound(
                    it, q.mon.wrapper, "close"), [], {}, self.place(
                        400 + len(st.mon.plan)), it.top_frame(), q))]
        return super().act(it, ev, step, st)

    # calls ---------------------------------------------------------------
    def produce(self, it, st):
        m = st.mon
        if m.dead or m.pos >= len(self.script) and not self.forever:
            return [("raise", STOP, self.put(st, dead=True))]
        x = self.script[m.pos % len(self.script)]
        st = self.put(st, pos=m.pos + 1)
        if x[0] == "raise":
            return [("raise", x[1], self.put(st, dead=True))]
        return [("v", x[1], self.log(st, "made", x[1]))]

    def next_of(self, it, coll, ev, st):
        return self.produce(it, st) if coll == GEN else None

    def on_call(self, it, ev, st):
        m, n, x, a = st.mon, ev.name, ev.recv, list(ev.args)
        if ev.callee == FN:
            st = self.put(st, gens=m.gens + 1)
            if m.who[0] != "thread":
                st = self.log(st, "outside")
            return [("raise", self.fails, st)] if self.fails else [
                ("v", GEN, st)]
        if ev.callee in MARKS.values():
            return self.mark(it, ev, ev.callee[1], a, st)
        if is_ext(ev, "iter") and a[0] == GEN:
            return [("v", GEN, st)]
        if is_ext(ev, "inspect.isgenerator", "inspect.isgeneratorfunction",
                  "isinstance", "hasattr") and a and a[0] == GEN:
            return [("v", TRUE if self.generator else FALSE, st)]
        if x == GEN or is_ext(ev, "next") and a[:1] == [GEN]:
            if n in ("next", "__next__", "send"):
                r = self.produce(it, st)
                if n == "next" and len(a) > 1:
                    return [("v", a[1], s) if k == "raise" and v == STOP
                            else (k, v, s) for k, v, s in r]
                return r
            if n == "__iter__":
                return [("v", GEN, st)]
            if n in ("throw", "close"):
                st = self.log(self.put(st, dead=True), "thrown")
                if n == "close":
                    return [("v", NONE, st)]
                if self.thrown == "raise":
                    return [("raise", a[0] if a[0][0] == "exc" else EXC,
                             st)]
                return [("raise", STOP, st)] if self.thrown == "end" else [
                    ("v", ITEMS[-1], st)]
        if ev.kind == "new" and "Statistic" in ev.extra.name:
            return [("v", ("obj", ("statistic",), None), st)]
        if is_ext(ev, "weakref.finalize", "weakref.ref") and len(a) > 1:
            return [("v", ("obj", ("finalizer",), None), self.put(
                st, finals=m.finals + (tuple(a),)))]
        if is_ext(ev, "queue.Queue", "queue.LifoQueue", "collections.deque",
                  "queue.SimpleQueue"):
            q = ("obj", ("queue", len(m.sizes)), n)
            s = kwarg(ev, "maxsize", 0, const(0)) if "Queue" in n else \
                kwarg(ev, "maxlen", 1, const(0))
            return [("v", q, self.put(st, sizes=m.sizes + ((q, s),)))]
        if is_ext(ev, "asyncio.sleep"):
            return [("v", ("aw", "nap", (a[0],), (), None), st)]
        if x is not None and n == "__await__" and x[0] in (
                "aw", "task", "coro"):
            return [("v", x, st)]
        if n == "run_in_executor" and not isinstance(ev.extra, FuncInfo) \
                and len(a) > 1:
            t = ("obj", ("thread", len(m.threads)), "threading.Thread")
            f, st = self.new_future(st)
            self.started = max(self.started, len(m.threads) + 1)
            return [("v", f, self.put(
                self.log(st, "executor", x, a[0]), threads=m.threads + ((
                    t, a[1], tuple(a[2:]), (), "started"),),
                futs=m.futs + ((len(m.threads), f),)))]
        if x is not None and it.typeof(x) == "asyncio.Event" and \
                ev.kind == "call":
            if n == "set":
                if m.who[0] == "thread":
                    st = self.log(st, "touched", "event")
                return [("v", NONE, self.put(
                    st, events=st.mon.events + (x,)))]
            if n == "is_set":
                return [("v", TRUE if x in m.events else FALSE, st)]
            if n == "wait":
                return [("v", ("aw", "event", (x,), (), None), st)]
        if n == "is_running" and x in LOOPS:
            return [("v", TRUE if self.alive else FALSE, st)]
        if n == "call_soon_threadsafe" and x in LOOPS:
            st = self.log(st, "told", x)
            return self.loop_call(it, ev, n, st)
        return super().on_call(it, ev, st)

    def mark(self, it, ev, n, a, st):
        if n == "keep":
            return [("v", NONE, st.with_mon(st.mon.set(
                wrapper=a[0], proxy=a[1])))]
        if n == "cut":      # a consumer is cancelled where it waits
            return [("v", NONE, self.put(s, sick=False))
                    for s in self.act(it, ev, ("next",), self.put(
                        st, sick=True))]
        if n == "pause":
            return [("v", NONE, s) for s in self.next_step(it, ev, st)]
        if n == "drop":
            # nobody holds the iterator which __aiter__() has returned
            cur, p = [st], st.mon.proxy
            for f in st.mon.finals:
                if f[0] == p:
                    cur = [s2 for s in cur for k, v, s2 in it.call(
                        f[1], list(f[2:]), {}, self.place(500),
                        it.top_frame(), s)]
            c = it.classinfo(p)
            d = c is not None and c.find_method("__del__")
            if d:
                cur = [s2 for s in cur for k, v, s2 in it.call(
                    self.bound(it, p, "__del__"), [], {}, self.place(501),
                    it.top_frame(), s)]
            return [("v", NONE, s2) for s in cur for s2 in self.drain(
                it, ev, self.put(s, plan=((
                "thread", 0), ("loop",), ("loop",))))]
        return [("v", NONE, self.log(st, n, *a))]

    def drain(self, it, ev, st):
        return [s3 for s in self.run_loop(it, ev, st)
                for s2 in self.run_thread(it, ev, 0, s)
                for s3 in self.run_loop(it, ev, s2)]

    def queue_call(self, it, ev, q, n, st):
        a = list(ev.args)
        size = dict(st.mon.sizes).get(q, const(0))
        if size[0] == "const" and isinstance(size[2], int) and \
                size[2] > 0 and n in ("put", "put_nowait", "append") and a:
            now = n != "put" or kwarg(ev, "block", 1, TRUE) == FALSE
            lim = kwarg(ev, "timeout", 2, NONE)

            def ready(s):
                if len(self.items(q, s)) < size[2]:
                    return [("v", NONE, self.put_items(
                        q, self.items(q, s) + (a[0],), s))]
                if s.mon.plan:
                    if not now and lim == NONE:
                        return None
                    return [r for s2 in self.next_step(it, ev, s)
                            for r in (
                                [("raise", ("exc", "queue.Full", True,
                                            "full"), s2)]
                                if len(self.items(q, s2)) >= size[2] else
                                ready(s2))]
                if now or lim != NONE:
                    if s.mon.now > 500:
                        return None
                    return [("raise", ("exc", "queue.Full", True, "full"),
                             self.put(s, now=s.mon.now + 100))]
            return self.block(it, ev, st, ready)
        if self.race and n in ("get", "get_nowait", "popleft") and \
                self.of_loop(st) and not self.items(q, st):
            # the thread goes on right after the channel was found empty
            e = ("exc", "IndexError" if n == "popleft" else "queue.Empty",
                 True, "empty")
            return [("raise", e, s) for s in (
                self.next_step(it, ev, st) if st.mon.plan else [st])]
        if n == "get" and self.of_loop(st):
            # the loop must not wait
            if kwarg(ev, "block", 0, TRUE) != FALSE and not self.items(
                    q, st):
                st = self.log(st, "loop-waits")
        if n in ("pop",) and "deque" in (it.typeof(q) or ""):
            xs = self.items(q, st)
            if xs:
                return [("v", xs[-1], self.put_items(q, xs[:-1], st))]
            return [("raise", ("exc", "IndexError", True, "empty"), st)]
        return super().queue_call(it, ev, q, n, st)

    def of_loop(self, st):
        return st.mon.who in ("loop", "caller")

    # awaits ----------------------------------------------------------------
    def on_await(self, it, ev, st):
        v = ev.value
        if st.mon.sick and (v[0] == "aw" or self.is_future(v)):
            return [("raise", CANCEL, self.put(st, sick=False))]
        if v[0] == "aw" and v[1] == "nap":
            return self.nap(it, ev, v[2][0], st)
        if v[0] == "aw" and v[1] == "event":
            return self.block(it, ev, st, lambda s: [("v", TRUE, s)] if
                              v[2][0] in s.mon.events else None)
        if self.is_future(v) and self.known(v, st):
            return self.block(it, ev, st, lambda s: None if self.status(
                v, s) is None else [self.outcome(v, s)])
        return super().on_await(it, ev, st)

    def gathered(self, it, ts, keep, ev, st):
        """Whoever has to wait lets the plan go on."""
        r = super().gathered(it, ts, keep, ev, st)
        if r or not st.mon.plan:
            return r
        return [x for s in self.next_step(it, ev, st)
                for x in self.gathered(it, ts, keep, ev, s)]

    def nap(self, it, ev, x, st):
        if x[0] == "const" and not isinstance(x[2], (int, float)):
            return [("raise", ("exc", "TypeError", True, "nap"), st)]
        if x[0] == "const" and x[2] > LONG:
            self.naps.add(x[2])
        if st.mon.plan:
            return [("v", NONE, self.put(s, now=s.mon.now + 1))
                    for s in self.next_step(it, ev, st)]
        if st.mon.now > 500:
            self.blocked.append((ev.loc(), st.mon.who, st))
            return []
        return [("v", NONE, self.put(st, now=st.mon.now + 100))]

    def note(self, it, ev, st):
        if ev.kind in ("iter_start", "iter_end") and ev.value == GEN or \
                ev.kind == "await" and ev.name == "anext":
            self.unsure = True
        return super().note(it, ev, st)


THREAD, RUN = ("thread", 0), ("loop",)
START = "w = cls(fn%s)\np = w.__aiter__()\nkeep(w, p)\n"
NEXT = "got(await p.__anext__())\n"


def run(ctx, body, plan=(THREAD, RUN, RUN), args="", coro=True, **kw):
    rule = Iterators(ctx, **kw)
    c = ctx.p.cls(W)
    env = dict(cls=("cls", c.cid), fn=FN, ex=EX, loop=LOOP2, **MARKS)
    body = (START % args if "cls(" not in body else "") + body
    st = State({}, rule.initial().set(plan=tuple(plan)))
    it = Interp(ctx.p, rule)
    outs = it.harness("%sdef driver(%s):\n    %s\n" % (
        "async " if coro else "", ", ".join(env), body.rstrip().replace(
            "\n", "\n    ")), st=st, **env)
    ctx.absorb(it)
    return rule, outs


def of(log, *kinds):
    return [x for x in log if x[0] in kinds]


class Verdict:
    def __init__(self, ctx, R, keys):
        self.ctx, self.R, self.keys, self.bad = ctx, R, keys, {}

    def add(self, key, msg):
        assert key in self.keys
        self.bad.setdefault(key, msg)

    def done(self, loc):
        for k in self.keys:
            self.ctx.require(self.R, k, k not in self.bad, "iterator:" + k,
                             loc, self.bad.get(k, ""))


def consumed(v, rule, outs, want, end, msg):
    """The items arrived in order, then the end."""
    if rule.unsure:
        return
    if rule.naps:
        v.add("pauses", "waiting for the next item pauses for %s seconds" %
              sorted(rule.naps)[-1])
    if not outs and msg:
        v.add("hangs", "%s: the iteration never ends" % msg)
    for k, x, st in outs:
        log = st.mon.log
        got = [y[1] for y in of(log, "got")]
        if tuple(got) != tuple(want):
            v.add("items", "%s: %s arrive instead of %s" % (
                msg, shown(got), shown(want)))
        if k == "v":
            v.add("end", "%s: the iteration goes on" % msg)
        elif end is None and x[1] != "StopAsyncIteration":
            v.add("end", "%s: %s instead of the end of the iteration" % (
                msg, x[1]))
        elif end is not None and x != end:
            v.add("error", "%s: %s instead of the exception of the "
                  "generator" % (msg, x[1]))
        if of(log, "touched"):
            v.add("thread-safe", "%s: the thread touches %s" % (
                msg, of(log, "touched")[0][1]))
        if of(log, "outside"):
            v.add("thread-safe", "%s: the generator is created outside of "
                  "the thread" % msg)
        if of(log, "loop-waits"):
            v.add("thread-safe", "%s: the event loop blocks" % msg)


def shown(xs):
    return "[%s]" % ", ".join(
        str(x[2] if x[0] == "const" else x[1])
        if x[0] in ("const", "exc") else "an object" for x in xs)


def iterators(ctx):
    R = "thread-iterator-world"
    ctx.rule(R, "a threaded iterator with its thread, channel and consumer: "
             "whatever objects the generator yields arrive once and in "
             "order, then its exception or the end; the generator is at "
             "most max_size items (plus the one in hand) ahead; close(), "
             "leaving the context, or dropping the iterator ends the thread "
             "wherever it is and close() returns normally after it ended; "
             "one thread per iterator, in the executor and loop given; "
             "pauses between looks at the channel stay bounded; starting "
             "without a running loop raises RuntimeError")
    c = ctx.p.cls(W)
    v = Verdict(ctx, R, ("items", "end", "error", "hangs", "pauses",
                         "thread-safe", "bounded", "close", "close-waits",
                         "early", "once", "executor", "loop", "stopped"))
    ys = [("v", x) for x in ITEMS]
    three = ys[:3]
    loops = (THREAD, RUN, RUN, RUN)
    # unbounded and bounded, to the end
    for gen in (True, False):
        for end in (None, BASE, EXC, GENEXC, RTE):
            script = ys + ([("raise", end)] if end else [])
            for at in (0, 2):
                rule, outs = run(
                    ctx, NEXT * 6, (RUN,) * at + loops, generator=gen,
                    script=tuple(script))
                consumed(v, rule, outs, ITEMS, end, "%d items%s" % (
                    len(ys), ", then %s" % end[1] if end else ""))
    for args in ("", ", max_size=2"):
        rule, outs = run(ctx, NEXT * 3, (THREAD,) + (RUN,) * 6, race=True,
                         script=tuple(ys[:2]), args=args)
        consumed(v, rule, outs, ITEMS[:2], None, "the thread ends while the "
                 "consumer looks at the channel")
    for body in ("cut()\n", "pause()\ncut()\n"):
        rule, outs = run(ctx, body + NEXT * 3, loops, script=tuple(ys[:2]))
        consumed(v, rule, outs, ITEMS[:2], None, "another consumer is "
                 "cancelled while it waits")
    rule, outs = run(ctx, NEXT, (), script=tuple(ys))
    consumed(v, rule, [], (), None, "")
    for end, size, idle in [(e, n, i) for e in (None, EXC) for n in (1, 2)
                            for i in ((), (("idle",),))]:
        script = three + ([("raise", end)] if end else [])
        rule, outs = run(
            ctx, NEXT * 4, (THREAD,) + (idle + (("next",),)) * (
                3 - size + bool(end)) + (RUN,) * 3,
            args=", max_size=%d" % size, script=tuple(script))
        # the nested consumers take what the first one has not got
        for k, x, st in outs if not rule.unsure else ():
            got = [y[1] for y in of(st.mon.log, "got")]
            if any(y not in ITEMS[:3] for y in got) or \
                    len(got) < 3 or [y for y in ITEMS[:3]
                                     if y not in got]:
                v.add("items", "max_size=%d: %s arrive" % (
                    size, shown(got)))
            ends = [y[1] for y in of(st.mon.log, "end")] + [x]
            if end is not None and end not in ends or k == "v":
                v.add("error", "max_size=%d: the exception of the generator "
                      "is lost" % size)
            ahead = n = 0
            for y in st.mon.log:
                n += {"made": 1, "got": -1}.get(y[0], 0)
                ahead = max(n, ahead)
            if ahead > size + 2:
                v.add("bounded", "max_size=%d: the generator is %d "
                      "items ahead" % (size, ahead))
        if not outs and not rule.unsure:
            v.add("hangs", "max_size=%d: the iteration never ends" %
                  size)
    for size in (1, 2, 3):
        # nobody takes anything until the iterator is closed
        rule, outs = run(
            ctx, "await w.close()\nwent()\n" + NEXT,
            (THREAD, ("close",), RUN, RUN, RUN),
            args=", max_size=%d" % size, script=tuple(ys), forever=True)
        if rule.unsure:
            continue
        for k, x, st in outs:
            if len(of(st.mon.log, "made")) > size + 1:
                v.add("bounded", "max_size=%d: the generator is %d items "
                      "ahead" % (size, len(of(st.mon.log, "made"))))
    # nobody asks: the thread must fill the channel and then wait
    for size in (1, 2, 3):
        rule, outs = run(
            ctx, NEXT, (RUN, THREAD, RUN, ("close",), RUN, RUN, RUN),
            args=", max_size=%d" % size, script=tuple(ys), forever=True)
        if rule.unsure:
            continue
        made = [len(of(s.mon.log, "made")) for k, x, s in outs]
        if made and max(made) > size + 1:
            v.add("bounded", "max_size=%d: the generator is %d items "
                  "ahead" % (size, max(made)))
        if not outs:
            v.add("stopped", "closing a full channel does not end the "
                  "thread")
        for k, x, st in outs:
            if not of(st.mon.log, "got"):
                v.add("items", "items put before close() are lost")
    # closing
    where = {
        "not started": ((RUN, THREAD, RUN, RUN, RUN, RUN), ""),
        "a full channel": ((THREAD, ("close",), RUN, RUN, RUN),
                           ", max_size=1"),
        "full for a while": ((THREAD, ("idle",), ("close",), RUN, RUN, RUN),
                             ", max_size=1"),
    }
    for what, (plan, args) in where.items():
        for thrown in ("raise", "end", "yield"):
            for end in (None, EXC):
                script = ys[:1] + [("raise", end)] if end else ys
                rule, outs = run(
                    ctx, "pause()\nawait w.close()\nwent()\n", plan,
                    args=args,
                    script=tuple(script), forever=end is None,
                    thrown=thrown)
                closes(v, rule, outs, "closing (%s)" % what)
    rule, outs = run(ctx, "w = cls(fn)\nawait w.close()\nwent()\n", ())
    closes(v, rule, outs, "closing an iterator that was never started")
    for args in ("", ", max_size=1"):
        for fin in ("", "raise ValueError\n"):
            rule, outs = run(
                ctx, "w = cls(fn%s)\nasync with w:\n    p = w.__aiter__()\n"
                "    keep(w, p)\n%swent()\n" % (
                    args, fin and "    " + fin),
                (RUN, THREAD, RUN, RUN, RUN), script=tuple(ys))
            closes(v, rule, outs, "leaving the context", not fin)
    # closed meanwhile: the end comes when the thread has ended
    rule, outs = run(ctx, "w.close()\n" + NEXT, (RUN, RUN, THREAD) + loops,
                     script=tuple(ys), forever=True)
    if not rule.unsure:
        if not outs:
            v.add("hangs", "the iteration of a closed iterator never ends")
        for k, x, st in outs:
            if k == "v" or x[1] != "StopAsyncIteration":
                v.add("end", "the iteration of a closed iterator goes on")
            elif st.mon.threads and st.mon.threads[0][4] == "started":
                v.add("close-waits", "the iteration ends although the "
                      "thread has not")
    # dropped
    rule, outs = run(ctx, "drop()\n", (), script=tuple(ys), forever=True)
    if not rule.unsure:
        if not outs or any(
                not s.mon.threads or s.mon.threads[0][4] != "ended"
                for k, x, s in outs):
            v.add("early", "the thread of an iterator nobody holds any "
                  "more goes on")
    # again
    rule, outs = run(ctx, "w.__aiter__()\n" + NEXT * 6, loops,
                     script=tuple(ys))
    if rule.started > 1 or any(s.mon.gens > 1 for k, x, s in outs):
        v.add("once", "a second __aiter__() starts the generator again")
    for more in ("w.__aiter__()\n", "q = w.__aiter__()\n"
                 "await q.__anext__()\n"):
        rule, outs = run(
            ctx, NEXT * 5 + "try:\n    %sexcept StopAsyncIteration:\n"
            "    pass\nwent()\n%sawait w.close()\nwent()\n" % (NEXT, more),
            loops, script=tuple(ys))
        if rule.started > 1 or any(s.mon.gens > 1 for k, x, s in outs):
            v.add("once", "an iterator that has ended is started again")
    rule, outs = run(ctx, NEXT * 6, loops, script=tuple(ys),
                     args=", executor=ex, loop=loop")
    for k, x, st in outs:
        for e in of(st.mon.log, "executor"):
            if e[2] != EX:
                v.add("executor", "the generator does not run in the "
                      "executor given")
            if e[1] != LOOP2:
                v.add("loop", "the loop given is not used")
        if any(e[1] != LOOP2 for e in of(st.mon.log, "told")):
            v.add("loop", "the thread reports to another loop")
    rule, outs = run(ctx, NEXT * 6, loops, script=tuple(ys))
    for k, x, st in outs:
        if any(e[2] != NONE for e in of(st.mon.log, "executor")):
            v.add("executor", "not the default executor")
    rule, outs = run(ctx, "w = cls(fn)\nw.__aiter__()\n", (), coro=False,
                     alive=False)
    for k, x, st in outs:
        if k == "v" or x[1] != "RuntimeError" or st.mon.threads:
            v.add("loop", "an iterator is started without a running event "
                  "loop")
    v.done(c.find_method("__aiter__").loc())


def closes(v, rule, outs, msg, ok=True):
    if rule.unsure:
        return
    if not outs:
        v.add("close", "%s never ends" % msg)
    for k, x, st in outs:
        if (k == "raise") == ok:
            v.add("close", "%s raises %s" % (msg, x[1]) if ok else
                  "%s swallows the exception" % msg)
        if st.mon.threads and st.mon.threads[0][4] not in ("ended",):
            v.add("close-waits", "%s does not wait for the thread" % msg)
