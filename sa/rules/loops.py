"""Event loops made by aiomisc and the options of an entrypoint."""
from .lib import *

UTILS = "aiomisc.utils."
CUR = ("obj", ("current loop",), "asyncio.AbstractEventLoop")
GIVEN = ("obj", ("given loop",), "asyncio.AbstractEventLoop")
POLICY = ("obj", ("policy",), "asyncio.AbstractEventLoopPolicy")
OTHER = ("obj", ("other policy",), "asyncio.AbstractEventLoopPolicy")
SIZE = const(7)
DEBUG = ("sym", "debug", None)
INT, TERM = (("ext", "signal." + n) for n in ("SIGINT", "SIGTERM"))
THREADS = tuple(("obj", (n,), "threading.Thread")
                for n in ("main thread", "other thread"))
NOLOOP = ("exc", "RuntimeError", True, "no loop")
OPTIONS = ("log_level", "log_format", "log_buffering", "log_buffer_size",
           "log_date_format", "log_flush_interval")


class Loops(Plain):
    """`current`: is there a loop in this thread and is it running?"""
    fresh_new = True
    current = None
    main = True

    def initial(self):
        return Mon(policy=None, loops=(), made=(), now=None, pools=(),
                   default=(), debug=(), context=(), conf=())

    def put(self, st, **kw):
        return st.with_mon(st.mon.set(**kw))

    def inline(self, it, func, ev, st):
        return func.module.name not in ("aiomisc.log", "aiomisc.thread_pool")

    def on_call(self, it, ev, st):
        m, n, x, a = st.mon, ev.name, ev.recv, list(ev.args)
        f = ev.extra if isinstance(ev.extra, FuncInfo) else None
        if ev.kind == "new" and ev.extra.name == "ThreadPoolExecutor":
            ob = ("obj", ("pool", len(m.pools)), "ThreadPoolExecutor")
            return [("v", ob, self.put(st, pools=m.pools + (
                (ob, kwarg(ev, "max_workers", 0)),)))]
        if ev.kind == "new" and ev.extra.name == "Context":
            return [("v", ev.value, st)]
        if ev.kind != "call":
            return None
        if is_ext(ev, "asyncio.get_event_loop", "asyncio._get_running_loop",
                  "asyncio.get_running_loop"):
            n = n.rpartition(".")[2]
            run = n != "get_event_loop"
            if m.now is not None and not run:
                return [("v", m.now, st)]
            if self.current == "running" or self.current == "idle" and \
                    not run:
                return [("v", CUR, st)]
            if n == "_get_running_loop":
                return [("v", NONE, st)]
            return [("raise", NOLOOP, st)]
        if x == CUR and n == "is_running":
            return [("v", TRUE if self.current == "running" else FALSE, st)]
        if is_ext(ev, "asyncio.set_event_loop_policy"):
            return [("v", NONE, self.put(st, policy=a[0]))]
        if is_ext(ev, "asyncio.get_event_loop_policy"):
            return [("v", m.policy or OTHER, st)]
        if is_ext(ev, "asyncio.new_event_loop") or \
                n == "new_event_loop" and x in (POLICY, OTHER):
            ob = ("obj", ("loop", len(m.loops)), "asyncio.AbstractEventLoop")
            return [("v", ob, self.put(st, loops=m.loops + (
                (ob, x or m.policy),)))]
        if is_ext(ev, "asyncio.set_event_loop") or \
                n == "set_event_loop" and x in (POLICY, OTHER):
            return [("v", NONE, self.put(st, now=a[0]))]
        loops = [l for l, _ in m.loops] + [GIVEN]
        if x in loops and n == "set_debug":
            return [("v", NONE, self.put(st, debug=m.debug + ((x, a[0]),)))]
        if x in loops and n == "set_default_executor":
            return [("v", NONE, self.put(
                st, default=m.default + ((x, a[0]),)))]
        if f is not None and f.name == "set" and f.cls is not None and \
                "ContextVar" in f.cls.name:
            return [("v", NONE, self.put(st, context=m.context + (
                (x, a[0]),)))]
        if n == "basic_config" and f is not None:
            kw = dict(zip(f.params, a))
            kw.update(ev.kw)
            return [("v", NONE, self.put(st, conf=m.conf + (
                (f.module.name, tuple(sorted(kw.items()))),)))]
        if is_ext(ev, "threading.main_thread"):
            return [("v", THREADS[0], st)]
        if is_ext(ev, "threading.current_thread"):
            return [("v", THREADS[not self.main], st)]
        if is_ext(ev, "float") and len(a) == 1:
            return [("v", a[0], st)]
        return None


def drive(ctx, src, r=None, **env):
    r = r or Loops(ctx)
    it, outs = harness(ctx, r, src, policy=POLICY, x=SIZE, d=DEBUG,
                       given=GIVEN, **env)
    if not outs:
        raise AnalysisBroken("making a loop does not end")
    return outs


def made(v, s, size, debug):
    """What is wrong with the loop and the pool of these states?"""
    m = s.mon
    loop, pool = v
    if unknown(loop):
        return None
    if not any(l == loop and p == POLICY for l, p in m.loops):
        return "policy", "the loop is not one of the given policy"
    if m.now != loop:
        return "current", "the new loop is not the current one"
    on = [b for l, b in m.debug if l == loop]
    if on[-1:] != [debug] and not (not on and debug == FALSE):
        return "debug", "the debug mode of the new loop is not the given one"
    ex = [p for l, p in m.default if l == loop]
    sizes = dict(m.pools)
    if not ex or ex[-1] not in sizes:
        return "executor", "the new loop has no thread pool as its executor"
    if pool is not None and not unknown(pool) and pool != ex[-1]:
        return "pool", "the pool returned is not the executor of the loop"
    got = sizes[ex[-1]]
    if size == SIZE and got != SIZE or size != SIZE and got in (
            NONE, const(0)) or len(m.pools) != 1:
        return "size", "the thread pool does not have the size asked for"
    return None


def creation(ctx):
    R = "loop-creation"
    ctx.rule(R, "the loop made for a policy, size and debug mode has these, "
             "is the current one and executes in the returned pool; nothing "
             "is changed while a loop is running in the thread")
    f = ctx.p.func(UTILS + "create_default_event_loop")
    new = ctx.p.func(UTILS + "new_event_loop")
    fv, nv = (("func", x.fid, None) for x in (f, new))
    bad = {}
    for cur in ("none", "idle", "running"):
        for kw, size, debug in (
                ("pool_size=x, policy=policy, debug=d", SIZE, DEBUG),
                ("x, policy, d", SIZE, DEBUG),
                ("x, policy", SIZE, FALSE),
                ("policy=policy, debug=True", NONE, TRUE),
                ("pool_size=None, policy=policy", NONE, FALSE)):
            for fn, pair in ((fv, True), (nv, False)):
                if not pair and debug != FALSE:
                    continue
                for k, v, s in drive(
                        ctx, "def driver(make, policy, x, d, given):\n"
                        "    return make(%s)\n" % kw, current(ctx, cur),
                        make=fn):
                    if cur == "running":
                        m = s.mon
                        if k == "v" or v[1] != "RuntimeError" or m.policy \
                                or m.loops or m.now or m.pools:
                            bad["running"] = "a loop is made, or something " \
                                "is changed, in a thread whose loop is " \
                                "running"
                        continue
                    if k != "v":
                        bad["refused"] = "no loop is made though none is " \
                            "running in the thread"
                        continue
                    if pair:
                        ps = v[1] if v[0] == "tuple" else None
                        if ps is None or len(ps) != 2:
                            bad["pair"] = "not a loop and a pool is returned"
                            continue
                    else:
                        ps = v, None
                    x = made(ps, s, size, debug)
                    if x:
                        bad[x[0]] = x[1]
    for x in ("running", "refused", "pair", "policy", "current", "debug",
              "executor", "pool", "size"):
        ctx.require(R, x, x not in bad, "create_default_event_loop:" + x,
                    f.loc(), bad.get(x, ""))


def current(ctx, cur):
    r = Loops(ctx)
    r.current = cur
    return r


def options(ctx):
    R = "entrypoint-options"
    ctx.rule(R, "an entrypoint uses the loop it is given, or makes one, "
             "once, for the given policy, pool size and debug mode; every "
             "log option reaches the log configuration, nothing configures "
             "logs when log_config is off; it is the current entrypoint")
    c = ctx.p.cls("aiomisc.entrypoint.Entrypoint")
    f = c.find_method("__init__")
    loc = f.loc()
    ep = ("cls", c.cid)
    bad = {}
    head = "def driver(EP, policy, x, d, given):\n"
    for kw, size, debug in (
            ("pool_size=x, policy=policy, debug=d", SIZE, DEBUG),
            ("pool_size=None, policy=policy, debug=False", NONE, FALSE)):
        for cur in ("none", "idle"):
            for k, v, s in drive(
                    ctx, head + "    e = EP(log_config=False, %s)\n"
                    "    return e, e.loop, e.loop\n" % kw,
                    current(ctx, cur), EP=ep):
                if k != "v":
                    bad["refused"] = "the entrypoint has no loop"
                    continue
                e, l1, l2 = v[1]
                x = made((l1, None), s, size, debug)
                if x:
                    bad[x[0]] = x[1]
                if l1 != l2 or len(s.mon.loops) > 1:
                    bad["once"] = "an entrypoint makes more than one loop"
                if s.mon.conf:
                    bad["off"] = "logs are configured though log_config is " \
                        "off"
                vs = [b for a, b in s.mon.context]
                if e not in vs:
                    bad["current"] = "the entrypoint is not the current one"
                if l1 not in vs:
                    bad["context"] = "the loop of the entrypoint is not the " \
                        "one of the context"
    for k, v, s in drive(
            ctx, head + "    e = EP(loop=given, policy=policy, pool_size=x,"
            " log_config=False)\n    return e, e.loop\n", EP=ep):
        if k != "v":
            bad["refused"] = "an entrypoint with a loop of the user is " \
                "refused"
        elif v[1][1] != GIVEN or s.mon.loops or s.mon.policy or s.mon.now:
            bad["given"] = "the entrypoint does not use the loop it is given"
        elif GIVEN not in [b for a, b in s.mon.context]:
            bad["context"] = "the loop of the entrypoint is not the one of " \
                "the context"
    env = {o: ("sym", "given " + o, None) for o in OPTIONS}
    names = {"log_level": "level", "log_format": "log_format",
             "log_buffering": "buffered", "log_buffer_size": "buffer_size",
             "log_date_format": "date_format",
             "log_flush_interval": "flush_interval"}
    hs = ("sym", "handler", None)
    for k, v, s in drive(
            ctx, "async def driver(EP, policy, x, d, given, h, %s):\n"
            "    e = EP(loop=given, log_config=True, log_handlers=(h,), %s)\n"
            "    await e.__aenter__()\n" % (
                ", ".join(env), ", ".join("%s=%s" % (o, o) for o in env)),
            Starting(ctx), EP=ep, h=hs, **env):
        if k != "v":
            continue
        for mod, kw in s.mon.conf:
            kw = dict(kw)
            for o in ("log_level", "log_format", "log_date_format") + (
                    OPTIONS if mod == "aiomisc.log" else ()):
                if kw.get(names[o]) != env[o]:
                    bad["log"] = "%s of the entrypoint does not reach the " \
                        "log configuration" % o
        full = [dict(kw) for mod, kw in s.mon.conf if mod == "aiomisc.log"]
        if not full:
            bad["log"] = "the entrypoint does not configure logs"
        elif full[-1].get("loop") != GIVEN or full[-1].get(
                "handlers") != ("tuple", (hs,)):
            bad["log"] = "the loop and handlers of the entrypoint do not " \
                "reach the log configuration"
    for main in (True, False):
        for given, want in (
                ("None", (INT, TERM) if main else ()),
                ("()", ()), ("(x,)", (SIZE,))):
            r = Starting(ctx)
            r.main = main
            for k, v, s in drive(
                    ctx, "async def driver(EP, policy, x, d, given):\n"
                    "    e = EP(loop=given, log_config=False, "
                    "catch_signals=%s)\n"
                    "    await e.__aenter__()\n" % given, r, EP=ep):
                if k == "v" and set(s.mon.handled) != set(want):
                    bad["signals"] = "not exactly the signals given, or " \
                        "those of the default in the main thread only, are " \
                        "handled"
    for x in ("refused", "policy", "debug", "executor", "size", "once",
              "off", "current", "context", "given", "log", "signals"):
        ctx.require(R, x, x not in bad, "Entrypoint:" + x, loc,
                    bad.get(x, ""))


CORO = ("sym", "coroutine", None)
RESULT = ("sym", "result", None)
FAILED = ("exc", "ValueError", True, "failed")
SERVICES = tuple(("obj", ("service", i), "label") for i in (0, 1))


class Starting(Loops):
    """Also ends the start and the stop of the services."""
    result = ("v", RESULT)

    def initial(self):
        return super().initial().set(started=None, ran=0, handled=())

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind == "call":
            if ev.name == "start_services":
                return [("v", ("aw", "services", (), (), None), self.put(
                    st, started=tuple(ev.args)))]
            if ev.name == "graceful_shutdown" or \
                    ev.name == "shutdown_default_executor":
                return [("v", ("aw", "services", (), (), None), st)]
            if is_ext(ev, "signal.signal"):
                if ev.args[1] != ("sym", "previous", None):
                    st = self.put(st, handled=m.handled + (ev.args[0],))
                return [("v", NONE, st)]
            if is_ext(ev, "signal.getsignal"):
                return [("v", ("sym", "previous", None), st)]
            if ev.name == "run_until_complete":
                if ev.args[0] == CORO:
                    return [self.result + (self.put(st, ran=m.ran + 1),)]
                return it.do_await(ev.args[0], ev.node, ev.fr, st)
            if ev.name == "is_closed":
                return [("v", FALSE, st)]
        return super().on_call(it, ev, st)

    def on_await(self, it, ev, st):
        if ev.value == ("aw", "services", (), (), None):
            return [("v", NONE, st)]
        return None


def runs(ctx):
    R = "run"
    ctx.rule(R, "run() starts the services given, with the options given, "
             "runs the coroutine once and gives its result or its error")
    f = ctx.p.func("aiomisc.entrypoint.run")
    bad = {}
    for res in (("v", RESULT), ("v", NONE), ("raise", FAILED)):
        r = Starting(ctx)
        r.result = res
        n = 0
        for k, v, s in drive(
                ctx, "def driver(run, policy, x, d, given, coro, a, b):\n"
                "    return run(coro, a, b, policy=policy, pool_size=x,"
                " debug=d, log_config=False, catch_signals=())\n", r,
                run=("func", f.fid, None), coro=CORO, a=SERVICES[0],
                b=SERVICES[1]):
            n += 1
            if s.mon.ran != 1 or (k, v) != res:
                bad["result"] = "run() does not give the outcome of the " \
                    "coroutine"
            if s.mon.started is None or set(s.mon.started) != set(SERVICES):
                bad["services"] = "run() does not start the services given"
            x = s.mon.loops and made(
                (s.mon.loops[0][0], None), s, SIZE, DEBUG)
            if x or not s.mon.loops:
                bad["options"] = "run() does not use the options given"
        if not n:
            raise AnalysisBroken("run() does not end")
    for x in ("result", "services", "options"):
        ctx.require(R, x, x not in bad, "run:" + x, f.loc(), bad.get(x, ""))
