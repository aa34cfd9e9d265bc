"""Worker pool: authentication, jobs, closing."""
from .lib import *

MOD = "aiomisc.worker_pool"
CB = ("sym", "cb", None)
PIN = ("sym", "pin", None)
FN = ("sym", "fn", None)
RES = ("sym", "result", None)
RD = ("sym", "reader", "asyncio.StreamReader")
WR = ("sym", "writer", "asyncio.StreamWriter")
PID = const(77)
ARGS = ("obj", ("args",), "tuple")
KW = ("obj", ("kwargs",), "dict")
KEY = ("exc", "KeyError", False, "user")
PICKLE = ("exc", "pickle.PicklingError", True, "pickle")
EOF = ("exc", "asyncio.IncompleteReadError", True, "eof")
RESET = ("exc", "ConnectionResetError", True, "reset")
PIPE = ("exc", "BrokenPipeError", True, "pipe")
ABORT = ("exc", "ConnectionAbortedError", True, "abort")
BROKEN = tuple(x[1] for x in (EOF, RESET, PIPE, ABORT))
NOPROC = ("exc", "ProcessLookupError", True, "kill")
INVALID = ("exc", "asyncio.InvalidStateError", True, "future")
SUSPEND = ("exc", "SystemError", True, "suspended")
PAYLOAD = ("sym", "payload", None)
SERVER = ("obj", ("server",), "asyncio.AbstractServer")


def pt(name):
    return ("const", "enum:aiomisc_worker.PacketTypes", name)


def fut(n):
    return ("obj", ("fut", n), "asyncio.Future")


def is_fut(v):
    return v[0] == "obj" and v[1][0] == "fut"


class Wp(Plain):
    """Futures are explicit: Mon.f[n] in None / (kind, value)."""
    max_depth = 14
    fold = 4
    skip = ("bind_socket", "basic_config", "cancel_tasks", "set_exception")
    hello = ("AUTH", b"w1", "good")
    closing = None

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}
        self.cb = None
        self.cls = ctx.p.cls(MOD + ".WorkerPool")

    def initial(self):
        return Mon(f=(), live=False, nrecv=0, out=(), jobs=0, hand=False,
                   pid=False, sent=False, killed=(), put=None, awaited=None,
                   resp=None, conn=None, closes=(), pftake=None, err=None,
                   rftake=None)

    # -- futures
    def state(self, st, v):
        return dict(st.mon.f).get(v)

    def settle(self, st, v, x):
        d = dict(st.mon.f)
        d[v] = x
        return st.with_mon(st.mon.set(f=tuple(sorted(d.items()))))

    def future_call(self, it, ev, st):
        x = self.state(st, ev.recv)
        n = ev.name
        if n == "done":
            return [("v", FALSE if x is None else TRUE, st)]
        if n == "cancelled":
            return [("v", TRUE if x and x[0] == "cancelled" else FALSE, st)]
        if n == "cancel":
            if x is not None:
                return [("v", FALSE, st)]
            return [("v", TRUE, self.settle(st, ev.recv, ("cancelled", 1)))]
        if n in ("set_result", "set_exception"):
            if x is not None:
                self.bad["settled-twice"] = "a future that is done already " \
                    "is settled (%s)" % ev.loc()
                return [("raise", INVALID, st)]
            return [("v", NONE, self.settle(
                st, ev.recv, (n, ev.args[0] if ev.args else NONE)))]
        return None

    # -- calls
    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind != "call":
            return None
        if ev.callee == CB:
            return [("v", self.cb, st)]
        if ev.callee == PIN:
            return [("v", NONE, self.pin(it, ev, st))]
        if is_ext(ev, "asyncio.start_server"):
            self.cb = ev.args[0] if ev.args else None
            return [("v", ("aw", "listen", (), (), "s"), st)]
        if is_ext(ev, "os.urandom"):
            return [("v", const(b"cookie"), st)]
        if is_method(ev, "create_future"):
            v = fut(len(m.f))
            return [("v", v, self.settle(st, v, None))]
        if ev.extra == "method" and ev.recv is not None and is_fut(ev.recv):
            return self.future_call(it, ev, st)
        if ev.name == "cancel_tasks":
            els = []
            for x in bound(ev):
                els += list(leaves(it, x, st))
            for x in els:
                if is_fut(x) and self.state(st, x) is None:
                    st = self.settle(st, x, ("set_exception", CANCEL))
            tasks = tuple(x for x in els if x[0] == "task")
            return [("v", ("aw", "cancel_tasks", tasks, (), "c"),
                     st.with_mon(st.mon.set(
                         closes=st.mon.closes + ("cancel",))))]
        if ev.name == "set_exception" and ev.extra != "method":
            a = bound(ev)
            exc = a[1] if len(a) > 1 else CANCEL
            if exc == KEY:
                self.seen.add("set_exception")
            for x in leaves(it, a[0], st):
                if is_fut(x) and self.state(st, x) is None:
                    st = self.settle(st, x, ("set_exception", exc))
            return [("v", NONE, st)]
        if is_ext(ev, "os.kill"):
            st2 = st.with_mon(m.set(killed=m.killed + (tuple(ev.args),)))
            return [("v", NONE, st2), ("raise", NOPROC, st2)]
        return self.more(it, ev, st)

    def pin(self, it, ev, st):
        return st

    def more(self, it, ev, st):
        return None

    def queue(self, it, recv):
        o = it.origin.get(recv)
        return (it.typeof(recv) or "") in (
            "asyncio.Queue", "asyncio.queues.Queue") or (
            o is not None and (o.name or "").endswith("Queue"))

    def on_await(self, it, ev, st):
        v, m = ev.value, st.mon
        if v[0] == "aw" and v[1] == "listen":
            return [("v", SERVER, st)]
        if v[0] == "aw" and v[1] == "thread":
            return [("v", ("obj", ("supervisor",), "subprocess.Popen"), st)]
        if v[0] == "aw" and v[1] == "shield":
            self.seen.add("shield")
            return it.do_await(v[2][0], ev.node, ev.fr, st)
        if v[0] == "task" and v[2][0] in ("coro", "aw"):
            return it.do_await(v[2], ev.node, ev.fr, st)
        return None


class Handler(Wp):
    """One worker connection.  rf/pf: positions of the futures in a job."""
    responses = (("RESULT", PAYLOAD), ("EXCEPTION", KEY), ("CANCELLED", CANCEL))
    shape = None
    maxjobs = 2

    def pin(self, it, ev, st):
        pool = ev.args[0]
        st = st.set(("H", pool, "worker_ids"),
                    ("tuple", (const(b"w1"), const(b"w2"))))
        rf, pf = self.job_futures()
        st = self.settle(self.settle(st, rf, None), pf, None)
        return st.with_mon(st.mon.set(live=True))

    def job_futures(self):
        items = self.shape
        return items["rf"], items["pf"]

    def digest(self, key, msg):
        return const("good") if key == const(b"cookie") and \
            msg == const(self.hello[1]) else const("other")

    def more(self, it, ev, st):
        m = st.mon
        if is_ext(ev, "hmac.HMAC", "hmac.new", "hmac.digest"):
            a = list(ev.args)
            key = ev.kw.get("key", a[0] if a else NONE)
            msg = ev.kw.get("msg", a[1] if len(a) > 1 else NONE)
            d = self.digest(key, msg)
            if ev.name == "hmac.digest":
                return [("v", d, st)]
            return [("v", ("obj", ("hmac", d[2]), None), st)]
        if is_method(ev, "update") and ev.recv[0] == "obj" and \
                ev.recv[1][0] == "hmac":
            self.bad.pop("hmac", None)
            self.seen.add("hmac update")
        if is_method(ev, "digest", "hexdigest") and ev.recv[0] == "obj" and \
                ev.recv[1][0] == "hmac":
            return [("v", const(ev.recv[1][1]), st)]
        if is_ext(ev, "hmac.compare_digest", "secrets.compare_digest"):
            same = ev.args[0] == ev.args[1]
            return [("v", TRUE if same else FALSE, st)]
        if not m.live:
            return None
        if is_ext(ev, "pickle.loads"):
            if m.nrecv == 0:
                t, w, d = self.hello
                return [("v", ("tuple", (pt(t), const(w), const(d), PID)),
                         st.with_mon(m.set(nrecv=1)))]
            if self.hello[0] == "BAD_INITIALIZER":
                return [("v", ("tuple", (pt("EXCEPTION"), KEY)),
                         st.with_mon(m.set(err=True)))]
            out = []
            for k, x in self.responses:
                out.append(("v", ("tuple", (pt(k), x)), st.with_mon(
                    m.set(resp=(k, x)))))
            out.append(("raise", PICKLE, st.with_mon(m.set(resp="broken"))))
            return out
        if is_ext(ev, "pickle.dumps"):
            x = ev.args[0]
            if x[0] == "const" and x[1].startswith("enum:"):
                return [("v", ("sym", "packed", "bytes"), st.with_mon(
                    m.set(out=(m.out + (x[2],))[-3:])))]
            if x[0] == "tuple" and x[1] and x[1][0] == pt("REQUEST"):
                self.seen.add("request")
                self.request = x[1]
                want = tuple(self.shape["job"][i]
                             for i in self.shape["call"])
                if tuple(x[1][1:]) != want:
                    self.bad["request"] = "the request sent to the worker " \
                        "is not the call that was submitted"
                if m.pftake is not None or m.rftake is not None:
                    self.bad["stale"] = "a task that is done or cancelled " \
                        "already is sent to a worker"
                return [("v", ("sym", "packed", "bytes"), st.with_mon(
                    m.set(sent=True))),
                    ("raise", PICKLE, st.with_mon(m.set(resp="broken")))]
            return None
        if is_method(ev, "at_eof"):
            return [("v", TRUE, st), ("v", FALSE, st)]
        if is_method(ev, "get", "get_nowait") and self.queue(it, ev.recv):
            return [("v", ("aw", "job", (), (), "q"), st)]
        if is_method(ev, "add") and ev.args and ev.args[0] == PID:
            return [("v", NONE, st.with_mon(m.set(pid=True)))]
        if is_method(ev, "discard", "remove") and ev.args and \
                ev.args[0] == PID:
            return [("v", NONE, st.with_mon(m.set(pid=False)))]
        if is_method(ev, "readexactly"):
            return [("v", ("aw", "read", (), (), "r"), st)]
        if is_method(ev, "drain"):
            return [("v", ("aw", "drain", (), (), "d"), st)]
        if ev.name == "close" and ev.recv is not None and \
                it.typeof(ev.recv) == self.cls.cid:
            return [("v", ("aw", "close", (), (), "x"), st)]
        return None

    def interfere(self, st):
        """The caller may cancel its task while the handler waits."""
        rf, pf = self.job_futures()
        out = [st]
        if st.mon.hand and self.state(st, rf) is None:
            out.append(self.settle(st, rf, ("cancelled", 0)))
        return out

    def on_await(self, it, ev, st):
        v, m = ev.value, st.mon
        if m.live and v[0] == "aw":
            if v[1] == "read":
                out = []
                for s in self.interfere(st):
                    out.append(("v", ("sym", "bytes", "bytes"), s))
                    for e in (EOF, RESET, ABORT, CANCEL):
                        out.append(("raise", e, s.with_mon(
                            s.mon.set(conn=e[1]))))
                return out
            if v[1] == "drain":
                out = []
                for s in self.interfere(st):
                    out.append(("v", NONE, s))
                    for e in (RESET, PIPE, CANCEL):
                        out.append(("raise", e, s.with_mon(
                            s.mon.set(conn=e[1]))))
                return out
            if v[1] == "job":
                return self.take(it, ev, st)
            if v[1] == "close":
                self.seen.add("closed pool")
                return [("v", NONE, st.with_mon(m.set(
                    closes=m.closes + ("close",))))]
        return super().on_await(it, ev, st)

    def take(self, it, ev, st):
        m = st.mon
        ok = self.hello == ("AUTH", b"w1", "good")
        if not ok:
            self.bad["unauthenticated"] = "a job is given to a worker that " \
                "did not authenticate (%s, %s, %s digest)" % self.hello
            return []
        if "AUTH_OK" not in m.out and not m.jobs:
            self.bad["no-auth-ok"] = "a job is taken before the worker " \
                "was told that it is accepted"
        if not m.pid:
            self.bad["pid"] = "the worker is not registered while it " \
                "waits for jobs"
        self.finished(st, "before the next job")
        if m.conn in BROKEN:
            self.bad["dead-worker"] = "a job is given to a worker whose " \
                "connection is broken"
        out = [("raise", CANCEL, st.with_mon(m.set(hand=False)))]
        if m.jobs >= self.maxjobs:
            return out
        rf, pf = self.job_futures()
        job = ("tuple", tuple(self.shape["job"]))
        self.seen.add("job %d after %s" % (
            m.jobs, m.resp if m.resp is None or isinstance(m.resp, str)
            else m.resp[0]))
        if m.hand:
            how = "a finished task" if m.pftake is not None else \
                "a task cancelled while it runs" if self.state(st, rf) == (
                    "cancelled", 0) and isinstance(m.resp, tuple) else ""
            self.seen.add("job after " + how)
        for a, b in ((None, None), (("cancelled", 0), ("cancelled", 0)),
                     (None, ("cancelled", 0))):
            s = self.settle(self.settle(st, rf, a), pf, b)
            out.append(("v", job, s.with_mon(s.mon.set(
                jobs=m.jobs + 1, hand=True, resp=None, conn=None,
                sent=False, rftake=a, pftake=b))))
        return out

    def finished(self, st, where):
        m = st.mon
        if not m.hand:
            return
        rf, pf = self.job_futures()
        x, y = self.state(st, rf), self.state(st, pf)
        if m.pftake is not None or m.rftake is not None:
            return
        if y is None or y[0] == "set_result" and y[1] != PID:
            self.bad["pid-unknown"] = "the caller is not told which " \
                "process executes its task"
        if x is None:
            self.bad["unsettled"] = "a task taken by a worker is left " \
                "without outcome (%s, %s)" % (m.resp or m.conn, where)
            return
        if x == ("cancelled", 0):
            return
        if m.conn in BROKEN:
            if x[0] != "set_exception":
                self.bad["wrong-outcome"] = "the death of a worker is not " \
                    "reported as an error"
            return
        if isinstance(m.resp, tuple):
            k, p = m.resp
            want = ("set_result" if k == "RESULT" else "set_exception", p)
            if x != want:
                self.bad["wrong-outcome"] = "a %s of the worker does not " \
                    "become the outcome of its task" % k
        elif m.resp == "broken" and x[0] != "set_exception":
            self.bad["wrong-outcome"] = "what could not be serialized is " \
                "not reported as an error"


SRC = ("async def driver(cls, cb, pin, rd, wr):\n"
       "    p = cls(2)\n"
       "    await p.start()\n"
       "    pin(p)\n"
       "    await cb()(rd, wr)\n")


INITSRC = """
async def driver(cls, cb, pin, rd, wr, fn):
    p = cls(2)
    await p.start()
    try:
        await p.create_task(fn)
    except SystemError:
        pass
    try:
        await p.create_task(fn)
    except SystemError:
        pass
    pin(p)
    await cb()(rd, wr)
"""


class Initializer(Handler):
    """The initializer fails while two tasks are pending."""
    hello = ("BAD_INITIALIZER", b"w1", "good")

    def pin(self, it, ev, st):
        return st.with_mon(st.mon.set(live=True))

    def more(self, it, ev, st):
        if is_method(ev, "put", "put_nowait") and self.queue(it, ev.recv):
            return [("v", NONE if ev.name == "put_nowait" else
                     ("aw", "put", (), (), "p"), st)]
        return super().more(it, ev, st)

    def interfere(self, st):
        return [st]

    def on_await(self, it, ev, st):
        v = ev.value
        if v[0] == "aw" and v[1] == "put":
            return [("v", NONE, st)]
        if is_fut(v) and not st.mon.live:
            return [("raise", SUSPEND, st)]
        return super().on_await(it, ev, st)


class Task(Wp):
    """create_task(): the caller's side."""
    pidi = None
    job = None

    def more(self, it, ev, st):
        m = st.mon
        if is_method(ev, "put", "put_nowait") and self.queue(it, ev.recv):
            j = ev.args[0]
            if m.put is not None:
                self.bad["twice"] = "a task is submitted twice"
            self.job = j
            st2 = st.with_mon(m.set(put=True))
            if ev.name == "put_nowait":
                return [("v", NONE, st2)]
            return [("v", ("aw", "put", (), (), "p"), st2)]
        return None

    def on_await(self, it, ev, st):
        v, m = ev.value, st.mon
        if v[0] == "aw" and v[1] == "put":
            return [("v", NONE, st),
                    ("raise", CANCEL, st.with_mon(m.set(err="put")))]
        if is_fut(v):
            x = self.state(st, v)
            if x is not None:
                return None
            if self.pidi is None:
                return [("v", ("sym", "value %d" % v[1][1], None), st)]
            out = [("raise", CANCEL, self.settle(
                st.with_mon(m.set(err="caller", awaited=v)), v,
                ("cancelled", 0)))]
            if v == self.pidi:
                out.append(("v", PID, self.settle(
                    st, v, ("set_result", PID))))
                out.append(("raise", CANCEL, self.settle(
                    st.with_mon(m.set(err="closed", awaited=v)), v,
                    ("set_exception", CANCEL))))
                return out
            out.append(("v", RES, self.settle(
                st.with_mon(m.set(awaited=v)), v, ("set_result", RES))))
            out.append(("raise", KEY, self.settle(
                st.with_mon(m.set(awaited=v)), v, ("set_exception", KEY))))
            out.append(("raise", CANCEL, self.settle(
                st.with_mon(m.set(err="worker", awaited=v)), v,
                ("set_exception", CANCEL))))
            return out
        return super().on_await(it, ev, st)


def task_src():
    return ("async def driver(cls, fn, args, kw):\n"
            "    p = cls(2)\n"
            "    await p.start()\n"
            "    return await p.create_task(fn, *args, **kw)\n")


def submit(ctx):
    """What a job looks like: its items and the role of its futures."""
    c = ctx.p.cls(MOD + ".WorkerPool")
    r = Task(ctx)
    src = ("async def driver(cls, fn, a, b):\n"
           "    p = cls(2)\n"
           "    await p.start()\n"
           "    return await p.create_task(fn, a, x=b)\n")
    it, outs = harness(ctx, r, src, cls=("cls", c.cid), fn=FN,
                       a=const(5), b=const(6))
    rfs = {v for k, v, s in outs if k == "v"}
    if r.job is None or r.job[0] != "tuple" or len(rfs) != 1:
        raise AnalysisBroken("the job of a worker pool is not recognised")
    rv = next(iter(rfs))
    if rv[0] != "sym" or not rv[1].startswith("value"):
        raise AnalysisBroken("create_task() does not return a future's value")
    rf = fut(int(rv[1].split()[1]))
    items = list(r.job[1])
    pf = [x for x in items if is_fut(x) and x != rf]
    if rf not in items or len(pf) != 1:
        raise AnalysisBroken("the job of a worker pool is not recognised")
    call = [i for i, x in enumerate(items) if not is_fut(x)]
    return items, rf, pf[0], call, r


def tasks(ctx):
    R = "worker-tasks"
    ctx.rule(R, "a task given to a worker pool is sent at most once, to an "
             "authenticated worker, and its future gets exactly the "
             "response, ProcessError when the worker dies, the error when "
             "it cannot be serialized; a future is settled only while it is "
             "pending; a finished or cancelled task is not sent; a broken "
             "connection ends its handler and unregisters the process; "
             "cancelling the caller interrupts that process only")
    c = ctx.p.cls(MOD + ".WorkerPool")
    f = c.find_method("create_task")
    items, rf, pf, call, r0 = submit(ctx)
    bad = {}
    plain = [items[i] for i in call]
    if len(plain) != 3 or plain[0] != FN:
        bad["request"] = "the job does not carry the function and its " \
            "arguments"
    # the caller
    r = Task(ctx)
    r.pidi = pf
    it, outs = harness(ctx, r, task_src(), cls=("cls", c.cid), fn=FN,
                       args=("tuple", (const(1),)), kw=KW)
    seen = set()
    for k, v, s in outs:
        m = s.mon
        seen.add((k, m.err))
        if not m.put:
            bad["not-submitted"] = "the task is not given to the workers"
            continue
        x = r.state(s, rf)
        kills = m.killed
        if m.err == "caller" and m.awaited == rf:
            if len(kills) == 1 and len(kills[0]) == 2 and not any(
                    x in str(kills[0][1]) for x in ("SIGUSR2", "SIGNAL")) or \
                    "INT_SIGNAL" in str(kills):
                bad["not-interrupted"] = "cancelling the caller does not " \
                    "send the signal the worker handles"
            if len(kills) != 1 or kills[0][0] != PID:
                bad["not-interrupted"] = "cancelling the caller does not " \
                    "interrupt the process of its task"
        elif kills:
            bad["interrupts"] = "a process is interrupted although its " \
                "task is not cancelled by its caller (%s)" % (
                    m.err or "outcome")
        if m.err:
            if k != "raise" or not is_cancel(v):
                bad["cancel-lost"] = "a cancellation is lost"
        elif k == "v" and v != RES or k == "raise" and v != KEY:
            bad["outcome"] = "the outcome of the task is changed"
        if m.err == "put" and r.state(s, pf) is None and x is None:
            bad["zombie"] = "a task whose caller is gone can still be " \
                "executed"
    bad.update(r.bad)
    for want in (("v", None), ("raise", None), ("raise", "caller"),
                 ("raise", "worker"), ("raise", "put")):
        if want not in seen:
            bad["incomplete"] = "no path of create_task() with %s" % (want,)
    # the handler
    auth = {}
    hs = set()
    for hello in (("AUTH", b"w1", "good"), ("AUTH", b"w1", "bad"),
                  ("AUTH", b"w1", ""), ("AUTH", b"w1", "goo"),
                  ("AUTH", b"w1", None), ("AUTH_OK", b"w1", "good"),
                  ("AUTH", b"xx", "good"), ("AUTH", b"xx", "bad"),
                  ("REQUEST", b"w1", "good"), ("RESULT", b"w1", "bad"),
                  ("BAD_INITIALIZER", b"w1", "good")):
        h = Handler(ctx)
        h.hello = hello
        h.shape = dict(job=items, rf=rf, pf=pf, call=call)
        it, outs = harness(ctx, h, SRC, cls=("cls", c.cid), cb=CB, pin=PIN,
                           rd=RD, wr=WR)
        good = hello == ("AUTH", b"w1", "good")
        if good:
            hs = h.seen
            for k, v, s in outs:
                if s.mon.pid:
                    h.bad["pid"] = "a process stays registered after its " \
                        "connection ended"
                if not (k == "raise" and is_cancel(v)):
                    h.finished(s, "at the end")
            bad.update(h.bad)
        else:
            for k, v, s in outs:
                if s.mon.pid:
                    auth["registered"] = "an unauthenticated process is " \
                        "registered"
                if "AUTH_OK" in s.mon.out:
                    auth["accepted"] = "a worker that did not authenticate " \
                        "is accepted"
            if hello[0] == "BAD_INITIALIZER" and (
                    "closed pool" not in h.seen
                    or "set_exception" not in h.seen):
                bad["initializer"] = "a failing initializer does not fail " \
                    "the tasks and close the pool"
            auth.update(h.bad)
    h = Initializer(ctx)
    it, outs = harness(ctx, h, INITSRC, cls=("cls", c.cid), cb=CB, pin=PIN,
                       rd=RD, wr=WR, fn=FN)
    for k, v, s in outs:
        if k == "v" and (len(s.mon.f) < 4 or any(
                x is None or x == ("set_result", NONE)
                for f, x in s.mon.f)):
            bad["initializer"] = "a task is left pending by a failing " \
                "initializer"
    for x in ("job after a finished task",
              "job after a task cancelled while it runs",
              "job 1 after RESULT", "job 1 after EXCEPTION",
              "job 1 after CANCELLED", "job 1 after broken"):
        if x not in hs:
            bad["stops"] = "the worker gets no further %s" % x
    for x in sorted({"not-submitted", "not-interrupted", "interrupts",
                     "cancel-lost", "outcome", "zombie", "settled-twice",
                     "unsettled", "wrong-outcome", "stale", "request",
                     "dead-worker", "pid", "stops", "initializer",
                     "incomplete"} | set(bad)):
        ctx.require(R, x, x not in bad, "WorkerPool:" + x, f.loc(),
                    bad.get(x, ""))
    R2 = "worker-auth"
    ctx.rule(R2, "a connection is given jobs and is registered only after "
             "its first packet was AUTH with a known worker id and the HMAC "
             "of that id keyed with the cookie of the pool; every other "
             "greeting gets no AUTH_OK, no job and no registration")
    for x in sorted({"unauthenticated", "registered", "accepted"}
                    | set(auth)):
        ctx.require(R2, x, x not in auth, "WorkerPool:" + x, f.loc(),
                    auth.get(x, ""))


class Close(Wp):
    """close() in the middle of the life of a pool."""
    slow = True
    waits = ()

    def initial(self):
        return super().initial().set(waiting=False, ctasks=(), cwait=(),
                                     srv=False, term=False, late=False,
                                     blocked=None)

    def more(self, it, ev, st):
        m = st.mon
        if ev.callee == ("sym", "mark", None):
            return [("v", NONE, st.with_mon(m.set(live=True)))]
        if is_method(ev, "put", "put_nowait") and self.queue(it, ev.recv):
            if m.live:
                self.bad["accepted"] = "a closed pool accepts tasks"
                return [("raise", SUSPEND, st)]
            return [("v", ("aw", "put", (), (), "p"), st)]
        if not m.live:
            return None
        t = it.typeof(ev.recv) if ev.recv is not None else None
        if is_method(ev, "close") and ev.recv == (
                "obj", ("server",), "asyncio.AbstractServer"):
            return [("v", NONE, st.with_mon(m.set(srv=True)))]
        if is_method(ev, "wait_closed"):
            return [("v", ("aw", "wait_closed", (), (), "w"), st)]
        if is_method(ev, "poll"):
            return [("v", NONE, st), ("v", const(0), st.with_mon(
                m.set(term=True)))]
        if is_method(ev, "kill", "terminate", "send_signal") and \
                t == "subprocess.Popen":
            return [("v", NONE, st.with_mon(m.set(term=True)))]
        return None

    def on_call(self, it, ev, st):
        if is_ext(ev, "os.kill"):
            # a process that was not waited for can be signalled
            return [("v", NONE, st.with_mon(st.mon.set(term=True)))]
        if ev.kind == "call" and st.mon.live and ev.name == "cancel_tasks":
            out = super().on_call(it, ev, st)
            return [(k, v, s.with_mon(s.mon.set(
                ctasks=s.mon.ctasks + v[2]))) for k, v, s in out]
        return super().on_call(it, ev, st)

    def on_await(self, it, ev, st):
        v, m = ev.value, st.mon
        if v[0] == "aw" and v[1] == "wait_closed":
            return [("v", NONE, st), ("raise", KEY, st)]
        if v[0] == "aw" and v[1] == "gather" and dict(v[3]).get(
                "return_exceptions") == TRUE:
            return [("v", ("sym", "results", None), st)]
        if v[0] == "aw" and v[1] in ("wait_for", "gather") and any(
                unwrap_aw(x)[1] == "wait_closed" for x in v[2]):
            return [("v", NONE, st), ("raise", KEY, st), (
                "raise", ("exc", "TimeoutError", True, "limit"), st)]
        if v[0] == "aw" and v[1] == "cancel_tasks":
            return [("v", NONE, st.with_mon(m.set(cwait=m.cwait + v[2])))]
        if v[0] in ("task", "aw") and unwrap_aw(v)[1] == "put" or \
                v[0] == "task" and not m.live:
            return [("raise", SUSPEND, st.with_mon(m.set(blocked=v)))]
        return super().on_await(it, ev, st)


class Leave(Wp):
    skip = Wp.skip + ("start", "close")

    def initial(self):
        return super().initial().set(order=())

    def on_call(self, it, ev, st):
        if ev.kind == "call" and ev.name in ("start", "close") and \
                ev.recv is not None and it.typeof(ev.recv) == self.cls.cid:
            return [("v", ("aw", "step", (const(ev.name),), (), "l"), st)]
        return super().on_call(it, ev, st)

    def on_await(self, it, ev, st):
        v = ev.value
        if v[0] == "aw" and v[1] == "step":
            return [("v", NONE, st.with_mon(st.mon.set(
                order=st.mon.order + (v[2][0][2],))))]
        return super().on_await(it, ev, st)


def leaving(ctx, bad):
    c = ctx.p.cls(MOD + ".WorkerPool")
    for body in ("pass", "raise x", "return p"):
        r = Leave(ctx)
        it, outs = harness(
            ctx, r, "async def driver(cls, x):\n    q = cls(2)\n"
            "    async with q as p:\n        %s\n"
            "    return None\n" % body, cls=("cls", c.cid), x=KEY)
        for k, v, s in outs:
            if s.mon.order != ("start", "close"):
                bad["leaving"] = "leaving the context does not close the pool"
            if body == "raise x" and k != "raise":
                bad["leaving"] = "the context swallows an exception"
            if body == "return p" and it.typeof(v) != c.cid:
                bad["leaving"] = "the context does not give the pool"
        if not outs:
            bad["leaving"] = "entering the pool fails"


def closing(ctx):
    R = "worker-close"
    ctx.rule(R, "close() of a worker pool refuses new tasks, terminates the "
             "supervisor, closes the server, cancels and awaits every "
             "connection handler and pending submission and settles every "
             "future handed out - also when closing the server fails or "
             "lasts too long")
    c = ctx.p.cls(MOD + ".WorkerPool")
    f = c.find_method("close")
    bad = {}
    r = Close(ctx)
    src = ("async def driver(cls, fn, cb, mark, rd, wr):\n"
           "    p = cls(2)\n"
           "    await p.start()\n"
           "    t = cb()(rd, wr)\n"
           "    try:\n"
           "        await p.create_task(fn, 1)\n"
           "    except SystemError:\n"
           "        pass\n"
           "    mark()\n"
           "    await p.close()\n"
           "    return t\n")
    it, outs = harness(ctx, r, src, cls=("cls", c.cid), fn=FN, cb=CB,
                       mark=("sym", "mark", None), rd=RD, wr=WR)
    n = 0
    for k, v, s in outs:
        m = s.mon
        if not m.f:
            bad["incomplete"] = "no future is handed out"
            continue
        n += 1
        if k == "raise":
            bad["fails"] = "close() fails with %s when closing the server " \
                "fails" % v[1]
        for w, x in m.f:
            if x is None:
                bad["pending"] = "a future handed out stays pending after " \
                    "close()"
        if k == "v" and v not in m.cwait:
            bad["handlers"] = "a connection handler is not cancelled and " \
                "awaited"
        if m.blocked and m.blocked not in m.cwait and m.blocked[0] != "obj":
            bad["blocked"] = "a caller waiting for a free place in the " \
                "queue waits for ever"
        if not m.srv:
            bad["server"] = "the server is not closed"
        if not m.term:
            bad["supervisor"] = "the supervisor process is not terminated"
    if not n:
        bad["incomplete"] = "close() does not end"
    if "shield" not in r.seen and not any(
            (ctx.p.dotted(d) or "").rpartition(".")[2] == "shield"
            for d in f.decorators):
        bad["shielded"] = "a cancelled close() leaves the pool half closed"
    bad.update(r.bad)
    r = Close(ctx)
    src = ("async def driver(cls, fn, mark):\n"
           "    p = cls(2)\n"
           "    await p.start()\n"
           "    mark()\n"
           "    await p.close()\n"
           "    return await p.create_task(fn, 1)\n")
    it, outs = harness(ctx, r, src, cls=("cls", c.cid), fn=FN,
                       mark=("sym", "mark", None))
    for k, v, s in outs:
        if k != "raise" or is_cancel(v):
            bad["accepted"] = "a closed pool accepts tasks"
    bad.update(r.bad)
    leaving(ctx, bad)
    for x in sorted({"fails", "pending", "handlers", "server", "blocked",
                     "leaving", "shielded", "supervisor",
                     "accepted", "incomplete"} | set(bad)):
        ctx.require(R, x, x not in bad, "WorkerPool:" + x, f.loc(),
                    bad.get(x, ""))
