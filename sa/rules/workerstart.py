"""From WorkerPool(...) to a running worker process, end to end."""
from .lib import *
from .workerproc import pieces

X, Y = ("sym", "init arg", None), ("sym", "init kwarg", None)
INIT = ("obj", ("initializer",), "label")
CHILD = ("sym", "become the supervisor", None)
CLOSE = ("sym", "close", None)
FAIL = ("exc", "KeyError", False, "user")
BASE = ("exc", "KeyboardInterrupt", True, "user")
EXIT = ("exc", "SystemExit", True, "exit")
PATH = const("/tmp/worker.sock")
LEVEL, FORMAT = ("sym", "level", None), ("sym", "format", None)
SERVER = ("obj", ("server",), "asyncio.AbstractServer")
SUP = ("obj", ("sup",), "subprocess.Popen")
PIPE = ("obj", ("pipe",), "io.BufferedWriter")
COOKIE = const(b"cookie")


def wid(n):
    return const(b"id%d" % n)


class Start(Plain):
    """Mon.sent: objects pickled into the pipe; Mon.log: what happened in
    the supervisor and in the worker forked last (Mon.child)."""
    max_depth = 14
    fold = 5
    exact_lists = True
    fresh_new = True
    fresh_kwargs = True
    module_state = ("aiomisc_worker.forking",)
    skip = ("bind_socket", "basic_config", "worker", "bad_initializer")
    fails = None
    race = None
    inner = False

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}
        self.pool = None

    def initial(self):
        return Mon(sent=(), i=0, log=(), ids=0, pipe="open", child=None,
                   pid=100, live=False, forks=0)

    def on_truth(self, it, v, st):
        if v[0] == "obj" and v[1][0] in ("pipe", "proc", "sup"):
            return True
        return None

    def add(self, st, *x):
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def on_attr(self, it, base, name, st):
        if base == SUP and name == "stdin":
            return PIPE
        if base[0] == "obj" and base[1][0] == "uuid" and name in (
                "bytes", "hex"):
            return wid(base[1][1])
        return None

    def on_call(self, it, ev, st):
        m, n, a = st.mon, ev.name, ev.args
        if ev.kind == "thread":
            return None
        if ev.kind != "call":
            return None
        if ev.callee == CHILD:
            f = self.p_main
            return it.call_value(("func", f.fid, None), [], st.with_mon(
                m.set(live=True)))
        if n == "bind_socket":
            st = self.add(st, "bind", kwarg(ev, "address", 2, NONE))
            return [("v", ("obj", ("socket",), "socket.socket"), st)]
        if is_ext(ev, "tempfile.mktemp"):
            return [("v", PATH, st)]
        if is_ext(ev, "os.chmod", "os.umask", "os.fchmod"):
            return [("v", NONE, self.add(st, n.rpartition(".")[2], *a))]
        if is_ext(ev, "os.urandom", "secrets.token_bytes"):
            return [("v", COOKIE, self.add(st, "cookie", *a))]
        if n == "fast_uuid4" or is_ext(ev, "uuid.uuid4"):
            st = st.with_mon(m.set(ids=m.ids + 1))
            return [("v", ("obj", ("uuid", m.ids), "label"), st)]
        if is_ext(ev, "asyncio.Queue"):
            return [("v", ("obj", ("queue",), "asyncio.Queue"), self.add(
                st, "queue", kwarg(ev, "maxsize", 0, const(0))))]
        if is_ext(ev, "asyncio.start_server", "asyncio.start_unix_server"):
            return [("v", ("aw", "listen", (), (), "s"), self.add(
                st, "listen", kwarg(ev, "sock", 3, NONE)))]
        if is_ext(ev, "subprocess.Popen") and not m.live:
            return [("v", SUP, self.add(st, "popen"))]
        if is_ext(ev, "pickle.dumps"):
            return [("v", ("op", "dumps", a[0]), st)]
        if is_method(ev, "pack"):
            return [("v", const(b"<header>"), st)]
        if ev.recv == PIPE:
            if n in ("write", "writelines"):
                if m.pipe != "open":
                    self.bad["pipe"] = "the pipe is closed too early"
                xs = tuple(y[2] for y in pieces(it, a[0], st)
                           if y[:2] == ("op", "dumps"))
                st = st.with_mon(m.set(sent=m.sent + xs))
            if n == "close":
                st = st.with_mon(m.set(pipe="closed"))
            return [("v", NONE, st)]
        if not m.live:
            if is_method(ev, "poll"):
                return [("v", NONE, st)]
            if is_ext(ev, "os.kill"):
                return [("v", NONE, st)]
            if n.rpartition(".")[2] == "getEffectiveLevel":
                return [("v", LEVEL, st)]
            if is_method(ev, "get") and ev.recv != PIPE:
                t = str(ev.recv)
                if "LOG_LEVEL" in t:
                    return [("v", LEVEL, st)]
                if "LOG_FORMAT" in t:
                    return [("v", FORMAT, st)]
            return None
        return self.inside(it, ev, st)

    def inside(self, it, ev, st):
        m, n, a = st.mon, ev.name, ev.args
        if is_ext(ev, "pickle.loads"):
            if m.i >= len(m.sent):
                self.bad["starved"] = "the worker process expects more than " \
                    "the pool sends"
                return []
            return [("v", m.sent[m.i], st.with_mon(m.set(i=m.i + 1)))]
        if is_method(ev, "unpack"):
            return [("v", ("tuple", (const(3),)), st)]
        if is_method(ev, "read") or n == "sys.stdin.buffer.read":
            return [("v", ("sym", "bytes", "bytes"), st)]
        if n == "basic_config":
            return [("v", NONE, self.add(
                st, "config", kwarg(ev, "level", 0, NONE),
                kwarg(ev, "log_format", 1, NONE)))]
        if ev.callee == INIT:
            # the kwargs by default are an immutable empty mapping
            st = self.add(st, "init", tuple(a), tuple(sorted(
                x for x in ev.kw.items() if x[0] != "**")))
            if self.fails:
                return [("raise", self.fails, st)]
            return [("v", const(0), st)]
        if n == "bad_initializer":
            return [("v", NONE, self.add(st, "bad", *bound(ev)))]
        if is_ext(ev, "os.fork"):
            if m.child is not None:
                self.bad["ids"] = "a worker process starts workers"
                return []
            s = st.with_mon(m.set(forks=m.forks + 1))
            return [("v", const(m.pid + m.forks), s), (
                "v", const(0), s.with_mon(s.mon.set(child=m.forks)))]
        if is_ext(ev, "signal.signal") and len(a) == 2:
            return [("v", NONE, self.add(st, "signal", *a))]
        if is_ext(ev, "atexit.register"):
            return [("v", NONE, self.add(st, "atexit", a[0]))]
        if n == "worker" and ev.extra not in ("ext", "method"):
            return [("v", NONE, self.add(st, "worker", *bound(ev)))]
        if is_ext(ev, "os.wait", "os.waitpid"):
            if m.child is not None:
                self.bad["ids"] = "a worker process goes on as a supervisor"
                return []
            return [("raise", BASE, self.add(st, "wait"))]
        if is_ext(ev, "exit", "sys.exit", "os._exit"):
            return [("raise", EXIT, st)]
        if is_method(ev, "is_set"):
            return [("v", FALSE, st)]
        return None

    def on_await(self, it, ev, st):
        v, m = ev.value, st.mon
        if v[0] == "aw" and v[1] == "listen":
            return [("v", SERVER, st)]
        if v[0] == "aw" and v[1] == "thread":
            call = lambda q: run_raw(it, v, ev, q)      # noqa
            if self.race and v[2][0][0] == "bm":
                c = it.p.cls("aiomisc.worker_pool.WorkerPool")
                out = []
                pool = v[2][0][1]
                for k, x, s in it.call_value(
                        ("bm", pool, c.find_method("close").fid), [], st):
                    out += call(s)
                return out
            return call(st)
        if v[0] == "aw" and v[1] in ("gather", "wait_for", "cancel_tasks"):
            return [("v", NONE, st)]
        if v[0] == "aw" and v[1] == "shield":
            return it.do_await(v[2][0], ev.node, ev.fr, st)
        return None


ORDER = ("bound", "private", "cookie", "queue", "pipe", "workers", "closed",
         "logging", "initializer", "arguments", "bad-initializer", "ids",
         "signals", "exit", "starved", "starts")
SRC = ("async def driver(cls, child, init, x, y):\n"
       "    p = cls(%d, %d%s)\n"
       "    await p.start()\n"
       "    return child()\n")
BARE = ", initializer=init"
OPT = ", initializer=init, initializer_args=(x, 0), initializer_kwargs={" \
    "'k': y, 'n': None}"


def started(ctx):
    R = "worker-start"
    ctx.rule(R, "start() of a pool of n workers binds a socket that only its "
             "user may connect to, creates a queue of the size given and "
             "starts one supervisor, unless the pool is closed by then; the "
             "supervisor configures logging, calls the initializer once with "
             "its arguments before it forks n workers with the address, the "
             "cookie and one id each; a failing initializer is reported with "
             "its exception and nothing is forked")
    c = ctx.p.cls("aiomisc.worker_pool.WorkerPool")
    f = c.find_method("start")
    main = ctx.p.func("aiomisc_worker.forking.main")
    inner = ctx.p.func("aiomisc_worker.process_inner.worker_inner")
    bad = {}

    def drive(n, ov, opts, who=main, **kw):
        r = Start(ctx)
        r.p_main = who
        for k, v in kw.items():
            setattr(r, k, v)
        it, outs = harness(ctx, r, SRC % (n, ov, opts), cls=("cls", c.cid),
                           child=CHILD, init=INIT, x=X, y=Y)
        bad.update(r.bad)
        return it, outs

    def common(it, outs, n, ov, given, fails):
        kids = {}
        for k, v, s in outs:
            m = s.mon
            log = m.log
            kinds = [x[0] for x in log]
            if "popen" not in kinds or not m.live:
                continue
            if kinds.count("popen") != 1:
                bad["starts"] = "start() starts several supervisors"
            if ("chmod", PATH, const(0o600)) not in log and \
                    ("umask", const(0o177)) not in log or (
                        "listen" in kinds and "chmod" in kinds and
                        kinds.index("chmod") > kinds.index("listen")):
                bad["private"] = "everyone may connect to the socket of a " \
                    "pool"
            if [x[1:] for x in log if x[0] == "listen"] != [(
                    ("obj", ("socket",), "socket.socket"),)] or [
                    x[1] for x in log if x[0] == "bind"] != [PATH]:
                bad["bound"] = "the pool does not listen at the address it " \
                    "tells its workers"
            size = [x[1] for x in log if x[0] == "cookie"]
            if len(size) != 1 or const_value(size[0], 99) < 16:
                bad["cookie"] = "the secret of a pool can be guessed"
            if [x[1] for x in log if x[0] == "queue"] != [const(ov)]:
                bad["queue"] = "max_overflow is not the size of the queue"
            if m.pipe != "closed":
                bad["pipe"] = "the pipe to the supervisor stays open"
            if m.i != len(m.sent):
                bad["starved"] = "the pool sends more than the supervisor " \
                    "reads"
            cfg = [x[1:] for x in log if x[0] == "config"]
            if len(cfg) != 1 or len(m.sent) < 1 or m.sent[0] != (
                    "tuple", cfg[0]) or not (
                        cfg[0][0] == LEVEL and cfg[0][1] in (
                            FORMAT, const("color"))):
                bad["logging"] = "the workers do not log with the level " \
                    "and the format of the pool"
            calls = [x for x in log if x[0] == "init"]
            if len(calls) != bool(given):
                bad["initializer"] = "the initializer is called %d times" \
                    % len(calls)
            for x in calls:
                if x[1:] != (((X, const(0)), (("k", Y), ("n", NONE)))
                             if given is OPT else ((), ())):
                    bad["arguments"] = "the initializer does not get its " \
                        "arguments"
                if "signal" in kinds and False or (
                        m.forks and kinds.index("init") > min(
                            [i for i, q in enumerate(kinds)
                             if q in ("worker", "wait")] or [999])):
                    bad["initializer"] = "the initializer is called after " \
                        "the workers were started"
            if fails and given:
                b = [x for x in log if x[0] == "bad"]
                if m.forks or len(b) != 1 or b[0][1:3] != (PATH, COOKIE) or \
                        b[0][3] not in [wid(i) for i in range(n)] or \
                        b[0][4] != fails:
                    bad["bad-initializer"] = "a failing initializer is not " \
                        "reported to the pool with its exception"
                if k != "raise" or v[1] != "SystemExit":
                    bad["bad-initializer"] = "the process goes on after its " \
                        "initializer failed"
                continue
            if "bad" in kinds:
                bad["bad-initializer"] = "an initializer that did not fail " \
                    "is reported"
            if m.child is None:
                if m.forks != n:
                    bad["workers"] = "a pool of %d workers starts %d" % (
                        n, m.forks)
                sig = [x for x in log if x[0] == "signal"]
                if not sig or sig[-1][2][0] not in ("func", "lam", "closure"):
                    bad["signals"] = "the supervisor does not stop when it " \
                        "is interrupted"
                if "atexit" not in kinds:
                    bad["exit"] = "the workers are not terminated when the " \
                        "supervisor ends"
            else:
                w = [x[1:] for x in log if x[0] == "worker"]
                if len(w) != 1 or w[0][:2] != (PATH, COOKIE):
                    bad["ids"] = "a worker does not get the address and the " \
                        "cookie of the pool"
                    continue
                kids.setdefault(m.child, set()).add(w[0][2])
                sig = {}
                for x in log:
                    if x[0] == "signal":
                        sig[x[1]] = x[2]
                if any(x[0] in ("func", "lam", "closure")
                       for x in sig.values()):
                    bad["signals"] = "a worker inherits the handlers of " \
                        "the supervisor"
                if k != "raise" or v[1] != "SystemExit":
                    bad["ids"] = "a worker goes on as a supervisor"
        if not fails or not given:
            ids = [x for k in sorted(kids) for x in kids[k]]
            if len(kids) != n or len(ids) != n or set(ids) != {
                    wid(i) for i in range(n)}:
                bad["ids"] = "%d workers do not get one id each" % n

    for n, ov in ((1, 0), (2, 7), (3, 1)):
        for given in ("", BARE, OPT)[:3 if n < 3 else 1]:
            it, outs = drive(n, ov, given)
            if not any(s.mon.live for k, v, s in outs):
                bad["starts"] = "a pool can not be started"
            common(it, outs, n, ov, given, None)
    for e in (FAIL, BASE):
        it, outs = drive(2, 0, OPT, fails=e)
        common(it, outs, 2, 0, OPT, e)
    it, outs = drive(2, 0, "", race=True)
    if not outs:
        bad["closed"] = "closing a pool that starts is not decided"
    for k, v, s in outs:
        if any(x[0] == "popen" for x in s.mon.log):
            bad["closed"] = "a pool that is closed while it starts starts " \
                "its supervisor"
    for x in sorted(set(ORDER) | set(bad)):
        ctx.require(R, x, x not in bad, "WorkerPool:" + x, f.loc(),
                    bad.get(x, ""))


INNER = ("sym", "run the worker process", None)
LEAVE = ("sym", "leave", None)


def proc(n):
    return ("obj", ("proc", n), "subprocess.Popen")


def pipe(n):
    return ("obj", ("pipe", n), "io.BufferedWriter")


class Separate(Start):
    """The supervisor that starts worker processes instead of forking.

    Mon.kids: per process the objects sent to it; Mon.dead: who died;
    Mon.killed: who was signalled; Mon.shut: whose pipe is closed."""
    module_state = ("aiomisc_worker.process",)
    maxdead = 2

    def initial(self):
        return super().initial().set(kids=(), dead=(), killed=(), shut=(),
                                     hooks=(), naps=0, stage="supervisor")

    def on_attr(self, it, base, name, st):
        if base[0] == "obj" and base[1][0] == "proc":
            n = base[1][1]
            if name == "stdin":
                return pipe(n)
            if name == "pid":
                return const(100 + n)
            if name == "returncode":
                return const(1) if n in st.mon.dead else NONE
        return super().on_attr(it, base, name, st)

    def on_call(self, it, ev, st):
        if ev.callee == INNER:
            m = st.mon
            f = it.p.func("aiomisc_worker.process_inner.worker_inner")
            n = const_value(ev.args[0])
            if n >= len(m.kids):
                return []
            return it.call_value(("func", f.fid, None), [], st.with_mon(
                m.set(sent=m.kids[n], i=0, log=(), stage="worker")))
        if ev.callee == LEAVE:
            outs = [("v", NONE, st)]
            for h in reversed(st.mon.hooks):
                nx = []
                for o in outs:
                    nx += it.call_value(h, [], o[2]) if o[0] == "v" else [o]
                outs = nx
            return outs
        return super().on_call(it, ev, st)

    def inside(self, it, ev, st):
        m, n, a, r = st.mon, ev.name, ev.args, ev.recv
        if is_ext(ev, "subprocess.Popen"):
            if len(m.kids) > self.n + len(m.dead):
                self.bad["replaced"] = "a worker that runs is replaced"
                return []
            return [("v", proc(len(m.kids)), st.with_mon(m.set(
                kids=m.kids + ((),))))]
        if r is not None and r[0] == "obj" and r[1][0] == "pipe":
            i = r[1][1]
            if n == "close":
                return [("v", NONE, st.with_mon(m.set(shut=m.shut + (i,))))]
            if n in ("write", "writelines"):
                xs = tuple(y[2] for y in pieces(it, a[0], st)
                           if y[:2] == ("op", "dumps"))
                ks = list(m.kids)
                ks[i] = ks[i] + xs
                return [("v", NONE, st.with_mon(m.set(kids=tuple(ks))))]
            return [("v", NONE, st)]
        if r is not None and r[0] == "obj" and r[1][0] == "proc":
            i = r[1][1]
            if n == "poll":
                return [("v", const(1) if i in m.dead else NONE, st)]
            if n in ("kill", "terminate", "send_signal"):
                return [("v", NONE, self.kill(st, i))]
        if is_ext(ev, "os.kill"):
            s = self.kill(st, const_value(a[0], 99) - 100)
            return [("v", NONE, s), (
                "raise", ("exc", "OSError", True, "kill"), s)]
        if is_ext(ev, "atexit.register"):
            st = super().inside(it, ev, st)[0][2]
            return [("v", a[0], st.with_mon(st.mon.set(
                hooks=m.hooks + (a[0],))))]
        if is_ext(ev, "atexit.unregister"):
            return [("v", NONE, st.with_mon(m.set(hooks=tuple(
                h for h in m.hooks if h != a[0]))))]
        if is_ext(ev, "time.sleep") or is_method(ev, "wait"):
            self.nap(m)
            out = [("raise", BASE, st)]
            if m.naps < 3:
                s = m.set(naps=m.naps + 1)
                out.append(("v", NONE, st.with_mon(s)))
                if len(m.dead) < self.maxdead:
                    for i in range(len(m.kids)):
                        if i in m.dead:
                            continue
                        out.append(("v", NONE, st.with_mon(s.set(
                            dead=m.dead + (i,)))))
            return out
        return super().inside(it, ev, st)

    def kill(self, st, i):
        m = st.mon
        if i in m.dead:
            self.bad["stale"] = "a process that ended is signalled"
        return st.with_mon(m.set(killed=m.killed + (i,)))

    def nap(self, m):
        if len(m.kids) != self.n + len(m.dead):
            self.bad["replaced"] = "the supervisor of %d workers runs %d" % (
                self.n, len(m.kids) - len(m.dead))
        self.seen.add("nap after %d" % len(m.dead))


def separate(ctx):
    R = "worker-processes"
    ctx.rule(R, "where processes cannot be forked the supervisor starts one "
             "process per worker, hands over address, cookie, its own id, "
             "logging and initializer, replaces one that ended with the "
             "same id, ends when interrupted and then terminates exactly "
             "the processes still running")
    c = ctx.p.cls("aiomisc.worker_pool.WorkerPool")
    f = ctx.p.func("aiomisc_worker.process.main")
    bad = {}
    names = ("replaced", "ids", "stale", "orphans", "interrupt", "logging",
             "initializer", "bad-initializer", "pipe", "starved")
    src = ("async def driver(cls, child, init, x, y, inner, leave):\n"
           "    p = cls(2, 0%s)\n"
           "    await p.start()\n"
           "    child()\n"
           "    %s\n")
    for given in ("", BARE, OPT):
        for fails in (None, FAIL, BASE)[:3 if given is OPT else 1]:
            for last in ("leave()", "inner(0)", "inner(1)", "inner(2)",
                         "inner(3)"):
                if fails and last != "inner(1)":
                    continue
                r = Separate(ctx)
                r.p_main, r.n, r.fails = f, 2, fails
                it, outs = harness(
                    ctx, r, src % (given, last),
                    cls=("cls", c.cid), child=CHILD, init=INIT, x=X, y=Y,
                    inner=INNER, leave=LEAVE)
                bad.update(r.bad)
                check(bad, r, outs, last, given, fails)
    for x in sorted(set(names) | set(bad)):
        ctx.require(R, x, x not in bad, "process:" + x, f.loc(),
                    bad.get(x, ""))


def check(bad, r, outs, last, given, fails):
    n = 0
    for k, v, s in outs:
        m = s.mon
        if not m.live:
            continue
        if m.stage == "supervisor":
            if k == "raise":
                bad["interrupt"] = "the supervisor fails with %s" % v[1]
            alive = set(range(len(m.kids))) - set(m.dead)
            if alive - set(m.killed):
                bad["orphans"] = "a worker process outlives the supervisor"
            if set(range(len(m.kids))) - set(m.shut):
                bad["pipe"] = "the pipe to a worker stays open"
            n += 1
            continue
        n += 1
        i = int(last[6])
        if i >= 2 and not m.dead:
            bad["replaced"] = "a worker that runs is replaced"
            continue
        want = i
        while want >= 2 and want - 2 < len(m.dead):
            want = m.dead[want - 2]
        want = wid(want)
        log = m.log
        kinds = [x[0] for x in log]
        if m.i != len(m.sent):
            bad["starved"] = "more is sent than the worker reads"
        if [x[1:] for x in log if x[0] == "config"] not in (
                [(LEVEL, FORMAT)], [(LEVEL, const("color"))]):
            bad["logging"] = "the workers do not log with the level and " \
                "the format of the pool"
        calls = [x[1:] for x in log if x[0] == "init"]
        want_calls = {"": [], BARE: [((), ())], OPT: [
            ((X, const(0)), (("k", Y), ("n", NONE)))]}[given]
        if calls != want_calls:
            bad["initializer"] = "the initializer is not called once with " \
                "its arguments"
        if fails:
            b = [x[1:] for x in log if x[0] == "bad"]
            if b != [(PATH, COOKIE, want, fails)] or "worker" in kinds:
                bad["bad-initializer"] = "a failing initializer is not " \
                    "reported to the pool"
        else:
            w = [x[1:] for x in log if x[0] == "worker"]
            if w != [(PATH, COOKIE, want)]:
                bad["ids"] = "a worker does not get the address, the " \
                    "cookie and its own id"
    if not n:
        bad["replaced"] = "no worker process is started or replaced"
