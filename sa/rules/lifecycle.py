"""Services release in stop() what they started in start()."""
from .lib import *

LOOP = ("obj", ("loop",), "asyncio.AbstractEventLoop")
F = ("obj", ("F",), "user")
G = ("obj", ("G",), "user")
X = ("obj", ("x",), "user")
Y = ("obj", ("y",), "user")
SOCK = ("obj", ("sock",), "socket.socket")
SERVER = ("obj", ("server",), "asyncio.AbstractServer")
RUNNER = ("obj", ("runner",), "asyncio.AbstractServer")
SITE = ("obj", ("site",), "asyncio.AbstractServer")
APP = ("obj", ("app",), "external")
PROF = ("obj", ("prof",), "external")
SSLCTX = ("obj", ("sslctx",), "ssl.SSLContext")
HERR = ("exc", "Exception", False, "failed")


BOUND_ = ("obj", ("bound",), "socket.socket")
ASGI = ("obj", ("asgi",), "external")
APPL = ("obj", ("application",), "external")
RESOURCE = ("obj", ("resource",), "external")
CARBON = ("obj", ("carbon",), "external")
RUN = ("sym", "run", None)
CRED = ("obj", ("credentials",), "user")
FMT = ("obj", ("format",), "user")
EXTRA = ("obj", ("extra",), "user")


def OPT(name):
    return ("obj", ("opt", name), "user")


class Life(Plain):
    """Mon.log: events in order."""
    exact_lists = True
    max_depth = 16
    gather_aw = True
    fresh_new = True
    cb_raises = False
    fail = ()

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(log=(), thread=False, cb=False)

    def add(self, st, *x):
        if st.mon.log[-1:] == (x,):
            return st       # in a loop
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def res(self, it, st, what, v=NONE):
        out = [("v", v, self.add(st, what))]
        if what in self.fail:
            out = [("raise", HERR, self.add(st, what))]
        return out

    def mapping(self, it, ev, st):
        """Named arguments, those of an expanded dictionary included."""
        yield from sorted((k, v) for k, v in ev.kw.items()
                          if isinstance(k, str) and k != "**")

    def on_attr(self, it, base, name, st):
        if self.options and name in self.options:
            return OPT(name)
        return None

    options = ()

    def periodic(self, it, v):
        c = it.classinfo(v) if v is not None else None
        return c is not None and c.name in ("PeriodicCallback",
                                            "CronCallback",
                                            "RecurringCallback")

    def on_call(self, it, ev, st):
        n = ev.name
        if ev.kind == "new" and ev.extra.name in (
                "PeriodicCallback", "CronCallback"):
            # one object per callback
            ob = ("obj", ("cb", n) + tuple(ev.args[:1]), ev.extra.cid)
            return [("v", ob, self.add(st, "callback", ob, tuple(ev.args)))]
        if ev.kind == "new" and ev.extra.name == "SSLOptions":
            ps = [kwarg(ev, k, i) for i, k in enumerate((
                "cert", "key", "ca", "verify", "require_client_cert",
                "purpose"))]
            if ps[5] is not None and ps[5] != ("ext",
                                               "ssl.Purpose.CLIENT_AUTH"):
                self.bad["tls"] = "the TLS context is not a server's one"
            if ps[:5] != [F, G, X, Y, LOOP]:
                self.bad["tls"] = "the TLS options are not the given ones"
        if ev.kind != "call":
            return None
        if self.periodic(it, ev.recv):
            if n == "start":
                return [("v", NONE, self.add(
                    st, "started", ev.recv, tuple(ev.args),
                    tuple(sorted(ev.kw.items()))))]
            if n == "stop":
                rx = kwarg(ev, "return_exceptions", 0, FALSE)
                return [("v", ("aw", "pstop", (ev.recv, rx), (), None), st)]
        if is_ext(ev, "tracemalloc.start", "tracemalloc.stop"):
            return [("v", NONE, self.add(st, n))]
        if ev.extra == "ext" and n.startswith("aiocarbon.protocol."):
            return [("v", CARBON, self.add(
                st, "carbon", n, tuple(ev.args), tuple(sorted(
                    ev.kw.items()))))]
        if is_ext(ev, "aiocarbon.setup.set_client"):
            return [("v", NONE, self.add(st, "client", tuple(ev.args)))]
        if is_ext(ev, "cProfile.Profile"):
            return [("v", PROF, st)]
        if ev.recv == PROF:
            return [("v", NONE, self.add(st, n))]
        if ev.extra == "ext" and n.rpartition(".")[2] in (
                "AppRunner", "ServerRunner"):
            return [("v", RUNNER, self.add(st, "runner", ev.args[0],
                                           tuple(sorted(ev.kw.items()))))]
        if ev.extra == "ext" and n.rpartition(".")[2] in (
                "SockSite", "TCPSite", "UnixSite"):
            return [("v", SITE, self.add(st, "site", tuple(ev.args), dict(
                ev.kw).get("ssl_context", NONE)))]
        if ev.recv in (RUNNER, SITE):
            return [("v", ("aw", "ext", (ev.recv, n), (), None), st)]
        if ev.name == "create_application":
            return [("v", ("aw", "app", (), (), None), st)]
        if n == "bind_socket":
            return [("v", ("obj", ("bound",), "socket.socket"), st)]
        if ev.extra == "ext" and n in ("uvicorn.Server", "grpc.aio.server",
                                       "uvicorn.server.Server"):
            return [("v", SERVER, self.add(st, "server", tuple(
                ev.args) + tuple(self.mapping(it, ev, st))))]
        if ev.extra == "ext" and n in ("uvicorn.Config",
                                       "uvicorn.config.Config"):
            return [("v", ("obj", ("config",), "external"), self.add(
                st, "config", tuple(sorted(ev.kw.items()))))]
        if ev.extra == "ext" and n.rpartition(".")[2] == \
                "enable_server_reflection":
            return [("v", NONE, self.add(st, "reflection", tuple(ev.args)))]
        if ev.recv == SERVER:
            if n.startswith("add_") and "port" in n:
                return [("v", ("obj", ("port", n, ev.args[0]), "int"),
                         self.add(st, n, tuple(ev.args)))]
            if n.startswith("add_"):
                return [("v", NONE, self.add(st, n, tuple(ev.args)))]
            return [("v", ("aw", "srv", (n,) + tuple(ev.args), tuple(sorted(
                ev.kw.items())), None), st)]
        if is_method(ev, "run_in_executor"):
            return [("v", ("aw", "exec", tuple(ev.args), (), None), st)]
        if n == "create_context":
            if not st.mon.thread:
                self.bad["tls"] = "TLS files are read in the thread of the " \
                    "event loop"
            return [("v", SSLCTX, st)]
        if ev.callee == RUN:
            outs = [("v", NONE, st)]
            for x in [x for x in st.mon.log if x[0] == "callback"]:
                nx = []
                for k, v, s in outs:
                    for k2, v2, s2 in it.call_value(
                            x[2][0], list(x[2][1:]), s.with_mon(
                                s.mon.set(cb=True))):
                        if k2 == "v" and v2[0] in ("coro", "aw", "task"):
                            nx += it.do_await(v2, ev.node, ev.fr, s2)
                        else:
                            nx.append((k2, v2, s2))
                outs = [(k, v, s.with_mon(s.mon.set(cb=False)))
                        for k, v, s in nx]
            return outs
        if is_ext(ev, "tracemalloc.take_snapshot") and st.mon.cb and \
                not st.mon.thread:
            self.bad["thread"] = "the memory is examined in the thread of " \
                "the event loop"
        if is_ext(ev, "pstats.Stats") and ev.args and ev.args[0] == PROF:
            # making statistics ends the profiling
            return [("v", ("obj", ("stats",), "external"), self.add(
                st, "disable"))]
        if ev.recv == ("obj", ("stats",), "external"):
            out = [("v", ev.recv, st)]
            if n == "dump_stats":
                out.append(("raise", HERR, st))
            return out
        if n in ("set_result",) and ev.recv is not None:
            return [("v", NONE, self.add(st, "result", ev.recv, ev.args[0]))]
        if is_ext(ev, "inspect.iscoroutinefunction", "callable",
                  "asyncio.iscoroutinefunction") or n == "is_valid":
            return [("v", TRUE, st)]
        if is_ext(ev, "hasattr") and ev.args[1][0] == "const":
            k = ("H", ev.args[0], ev.args[1][2])
            return [("v", TRUE if st.get(k) is not None else FALSE, st)]
        return None

    def on_await(self, it, ev, st):
        v = ev.value
        w = unwrap_aw(v)
        if w[0] == "aw" and w[1] == "pstop":
            out = [("v", NONE, self.add(st, "stopped", w[2][0]))]
            if self.cb_raises and w[2][1] != TRUE:
                out.append(("raise", HERR, self.add(st, "stopped",
                                                    w[2][0])))
            return out
        if w[0] == "aw" and w[1] == "exec":
            outs = it.call_value(w[2][1], list(w[2][2:]), st.with_mon(
                st.mon.set(thread=True)))
            return [(k, x, s.with_mon(s.mon.set(thread=False)))
                    for k, x, s in outs]
        if w[0] == "aw" and w[1] == "app":
            return [("v", APP, st)]
        if w[0] == "aw" and w[1] == "ext":
            return self.res(it, st, "%s.%s" % (w[2][0][1][0], w[2][1]))
        if w[0] == "aw" and w[1] == "srv":
            exit_ = st.get(("H", SERVER, "should_exit"), FALSE)
            return [("v", NONE, self.add(st, "server." + w[2][0], w[2][1:],
                                         w[3], exit_))]
        if w[0] == "coro" and w != v:
            return it.do_await(w, ev.node, ev.fr, st)
        return None


ENV = dict(loop=LOOP, f=F, g=G, x=X, y=Y, sock=SOCK, run=RUN, cred=CRED,
           fmt=FMT, extra=EXTRA)
CASES = (
    ("aiomisc.service.periodic.PeriodicService", "interval=x, delay=y",
     []),
    ("aiomisc.service.cron.CronService", "",
     ["s.register(f, 'a')",
      "s.register(g, 'b', shield=True, suppress_exceptions=(KeyError,))"]),
    ("aiomisc.service.tracer.MemoryTracer", "", []),
    ("aiomisc.service.profiler.Profiler", "", []),
    ("aiomisc.service.carbon.CarbonSender", "", [
        "s.host = x", "s.port = y", "s.protocol = 'tcp'",
        "s.namespace = ['', 'Some where', 'b']", "s.storage = f",
        "s.send_interval = g"]),
)


def drive(ctx, cid, args, body, bad, **opt):
    c = ctx.p.cls(cid)
    r = Life(ctx, **opt)
    src = ("async def driver(cls, loop, f, g, x, y, sock, run, cred, fmt, "
           "extra):\n"
           "    s = cls(%s)\n    s.set_loop(loop)\n" % args +
           "".join("    %s\n" % b for b in body))
    it, outs = harness(ctx, r, src, cls=("cls", c.cid), **ENV)
    for k, v in r.bad.items():
        bad[c.name, k] = v
    return it, [o for o in outs if o[2].mon.log]


def callbacks(ctx):
    RU = "service-lifecycle"
    ctx.rule(RU, "a service that starts periodic or cron callbacks, a "
             "profiler or a tracer in start() stops all of them in stop() - "
             "and awaits that - whatever the callbacks raised")
    bad = {}
    for cid, args, pre in CASES:
        name = cid.rpartition(".")[2]
        for cb in (False, True):
            it, outs = drive(ctx, cid, args, pre + [
                "await s.start()", "await s.stop(None)", "return 1"], bad,
                cb_raises=cb)
            n = 0
            for k, v, s in outs:
                log = s.mon.log
                st_ = [x for x in log if x[0] == "started"]
                if not st_:
                    continue
                n += 1
                objs = {x[1] for x in st_}
                stopped = {x[1] for x in log if x[0] == "stopped"}
                if k != "v":
                    bad[name, "raises"] = "%s.stop() raises what its callback " \
                        "raised" % name
                if objs - stopped:
                    bad[name, "stopped"] = "%s: a callback goes on after " \
                        "stop()" % name
                if name == "CronService" and len(objs) != 2:
                    bad[name, "started"] = "CronService does not start all of its " \
                        "callbacks"
                names = [x[0] for x in log]
                if names.count("tracemalloc.start") != names.count(
                        "tracemalloc.stop"):
                    bad[name, "released"] = "tracing goes on after stop()"
                if "tracemalloc.stop" in names and "stopped" in names and \
                        names.index("tracemalloc.stop") < names.index(
                            "stopped"):
                    bad[name, "released"] = "the report of the tracer may " \
                        "run after tracing stopped"
                on = [x for x in names if x in ("enable", "disable")]
                if on and "stopped" in names and "disable" not in names[
                        names.index("stopped"):]:
                    bad[name, "released"] = "the profiler's report may " \
                        "enable it again after stop()"
                if on and on[-1] != "disable":
                    bad[name, "released"] = "the profiler goes on after stop()"
                for x in log:
                    if x[0] == "carbon" and (
                            "tcp" not in x[1] or tuple(
                                y for o, y in zip(("host", "port"), x[2])) + \
                            tuple(v for o, v in x[3] if o in (
                                "host", "port")) != (X, Y)):
                        bad[name, "arguments"] = "the metrics are not sent " \
                            "to the given host, port and protocol"
                    if x[0] == "client" and x[1] != (CARBON,):
                        bad[name, "arguments"] = "the client that sends is " \
                            "not the one that collects"
                if name == "CarbonSender" and any(
                        x[0] == "carbon" for x in log) and (
                            "client" not in names or [x[2][0] for x in log
                            if x[0] == "callback"] != [
                                ("attr", CARBON, "send")] or any(
                            x[2][:1] != (G,) and dict(x[3]).get(
                                "interval") != G for x in st_)):
                    bad[name, "arguments"] = "the metrics are not sent in " \
                        "the given interval"
                for x in st_:
                    kw = dict(x[3])
                    if name == "PeriodicService" and (
                            x[2][:1] + (kw.get("interval"),))[0] not in (
                                X,) and kw.get("interval") != X:
                        bad[name, "arguments"] = "PeriodicService does not " \
                            "respect its interval"
                    if name == "PeriodicService" and kw.get(
                            "delay", x[2][1] if len(x[2]) > 1 else
                            None) != Y:
                        bad[name, "arguments"] = "PeriodicService does not " \
                            "respect its delay"
                    if name == "CronService":
                        spec = kw.get("spec", x[2][0] if x[2] else NONE)
                        fn = x[1][1][2]
                        if spec != const("a" if fn == F else "b"):
                            bad[name, "arguments"] = "CronService starts a " \
                                "callback with the spec of another one"
                        sup = kw.get("suppress_exceptions", NONE)
                        sup = it.exact_parts(sup, s)
                        for o, good in (
                                ("shield", kw.get("shield") == (
                                    FALSE if fn == F else TRUE)),
                                ("suppress_exceptions", sup is None or [
                                    x[-1] if x[0] == "ext" else x
                                    for x in sup] == (
                                        [] if fn == F else ["KeyError"]))):
                            if o not in kw or not good:
                                bad[name, "arguments"] = "CronService does not " \
                                    "respect " + o
            if not n:
                bad[name, "started"] = "%s starts nothing" % name
    for i in (2, 3):
        cid, args, pre = CASES[i]
        name = cid.rpartition(".")[2]
        it, outs = drive(ctx, cid, args, ["s.path = x", "await s.start()",
                                          "run()"], bad)
        for k, v, s in outs:
            on = [x[0] for x in s.mon.log if x[0] in ("enable", "disable")]
            if on and on[-1] != "enable":
                bad[name, "continues"] = "%s ends with its first report" % (
                    name)
        if (name, "thread") in bad:
            bad[name, "continues"] = bad.pop((name, "thread"))
    r = Life(ctx)
    it, outs = harness(
        ctx, r, "async def driver(cls, loop):\n    s = cls()\n"
        "    s.set_loop(loop)\n    s.interval = 0\n    await s.start()\n",
        cls=("cls", ctx.p.cls(CASES[0][0]).cid), loop=LOOP)
    if any(k == "v" for k, v, s in outs):
        bad["PeriodicService", "arguments"] = "PeriodicService starts without an interval"
    report(ctx, RU, bad, [x[0] for x in CASES], (
        "started", "stopped", "raises", "released", "arguments",
        "continues"))


def report(ctx, RU, bad, cids, what):
    for cid in cids:
        c = ctx.p.cls(cid)
        for x in what:
            ctx.require(RU, c.name + " " + x, (c.name, x) not in bad,
                        c.name + ":" + x, (c.find_method(
                            "stop" if x in ("stopped", "raises", "released",
                                            "stop") else "start") or
                            c).loc(), bad.get((c.name, x), ""))


def served(x):
    """The sockets the server was told to serve on."""
    return dict(x[2]).get("sockets", (x[1] + (None,))[0])


def http(ctx):
    RU = "http-services"
    ctx.rule(RU, "an HTTP or gRPC service sets up its runner before its site "
             "and serves on its own socket; stopping it stops the site and "
             "cleans the runner up, even when the former fails; it does not "
             "start twice; a uvicorn server is told to exit and awaited; a "
             "gRPC server announces its ports and is stopped gracefully")
    bad = {}
    A = "aiomisc.service.aiohttp."
    U, GR = "UvicornService", "GRPCService"
    opts = "sock=sock, shutdown_timeout=7, runner_kwargs={" \
        "'access_log_format': fmt, 'keepalive_timeout': extra}, " \
        "handler_cancellation=cred"
    for name, args in (("AIOHTTPService", opts),
                       ("AIOHTTPSSLService", "cert=f, key=g, ca=x, "
                        "verify=y, require_client_cert=loop, " + opts)):
        for fail in ((), ("site.stop",)):
            it, outs = drive(ctx, A + name, args, [
                "await s.start()", "await s.stop(None)"], bad, fail=fail)
            n = 0
            for k, v, s in outs:
                names = [x[0] for x in s.mon.log]
                if "site" not in names:
                    continue
                n += 1
                i = [names.index(x) if x in names else -1 for x in (
                    "runner", "runner.setup", "site", "site.start")]
                if i != sorted(i) or -1 in i:
                    bad[name, "setup"] = "%s: the runner is not set up before the " \
                        "site is started" % name
                kw = dict(s.mon.log[names.index("runner")][2])
                for o, w in (("shutdown_timeout", const(7)),
                             ("access_log_format", FMT),
                             ("keepalive_timeout", EXTRA),
                             ("handler_cancellation", CRED)):
                    if kw.get(o) != w:
                        bad[name, "options"] = "%s: the runner does not " \
                            "get %s" % (name, o)
                site = s.mon.log[names.index("site")]
                if site[1][:2] != (RUNNER, SOCK):
                    bad[name, "socket"] = "%s does not serve on its socket" % name
                if ("SSL" in name) != (site[2] == SSLCTX):
                    bad[name, "tls"] = "%s: TLS is not set up" % name
                if s.mon.log[names.index("runner")][1] != APP:
                    bad[name, "setup"] = "%s does not serve its application" % name
                if "site.stop" not in names:
                    bad[name, "stop"] = "%s: the site is not stopped" % name
                if names[-1] != "runner.cleanup":
                    bad[name, "stop"] = "%s: the runner is not cleaned up%s" % (
                        name, " when stopping the site fails" if fail
                        else "")
            if not n:
                bad[name, "setup"] = "%s never starts" % name
        it, outs = drive(ctx, A + name, args, [
            "await s.start()", "await s.start()"], bad)
        for k, v, s in outs:
            if k == "v" or [x[0] for x in s.mon.log].count("site") > 1:
                bad[name, "twice"] = "%s starts twice" % name
    it, outs = drive(ctx, "aiomisc.service.uvicorn.UvicornService", "", [
        "s.sock = sock", "await s.start()", "await s.stop(None)"], bad)
    n = 0
    for k, v, s in outs:
        sv = [x for x in s.mon.log if x[0] == "server.serve"]
        if not [x for x in s.mon.log if x[0] == "server"]:
            continue
        n += 1
        if not sv:
            bad[U, "uvicorn"] = "the end of the server is not awaited"
            continue
        if sv[0][3] != TRUE:
            bad[U, "uvicorn"] = "the server is not told to exit"
        sk = served(sv[0])
        if s.get(("H", SERVER, "force_exit"), FALSE) != FALSE:
            bad[U, "uvicorn"] = "the server does not end its requests"
        if sk in (None, NONE) or (it.exact_parts(sk, s) or [SOCK]) != [
                SOCK]:
            bad[U, "uvicorn"] = "the server does not serve on the socket"
    if not n:
        bad[U, "uvicorn"] = "the server never starts"
    asgi(ctx, bad, A)
    fields = set(ctx.p.cls("aiomisc.service.uvicorn.UvicornService").attrs)
    it, outs = drive(ctx, "aiomisc.service.uvicorn.UvicornService", "", [
        "s.sock = None", "await s.start()", "await s.stop(None)"], bad)
    for k, v, s in outs:
        for x in s.mon.log:
            sk = served(x) if x[0] == "server.serve" else None
            if sk is not None and (it.exact_parts(sk, s) or [BOUND_]) != [
                    BOUND_]:
                bad[U, "uvicorn"] = "the server does not serve on the " \
                    "socket it bound"
    it, outs = drive(ctx, "aiomisc.service.uvicorn.UvicornService", "", [
        "s.sock = sock", "await s.start()"], bad, options=fields - {"sock"})
    for k, v, s in outs:
        for x in s.mon.log:
            for n_, a in x[1] if x[0] == "config" else ():
                if n_ in fields and a != OPT(n_):
                    bad[U, "options"] = "uvicorn's %s is not the one of the " \
                        "service" % n_
    A_ = ("interceptors", "handlers", "options", "maximum_concurrent_rpcs",
          "compression", "migration_thread_pool")
    vals = dict(zip(A_, (F, G, X, Y, FMT, EXTRA)))
    it, outs = drive(
        ctx, "aiomisc.service.grpc_server.GRPCService",
        "interceptors=f, handlers=g, options=x, maximum_concurrent_rpcs=y, "
        "compression=fmt, migration_thread_pool=extra", [
            "a = s.add_insecure_port(x)", "b = s.add_secure_port(y, cred)",
            "c = s.add_insecure_port(x)", "s.add_generic_rpc_handlers((f,))",
            "s.add_generic_rpc_handlers((g,))",
            "s.add_registered_method_handlers('n', {'m1': f})",
            "s.add_registered_method_handlers('n', {'m2': g})",
            "await s.start()", "await s.stop(None)", "return a, b, c"], bad,
        strings=True)
    n = 0
    for k, v, s in outs:
        names = [x[0] for x in s.mon.log]
        if "server" not in names or k != "v" or v[0] != "tuple":
            if "server" in names:
                bad[GR, "grpc"] = "the gRPC service fails"
            continue
        n += 1
        made = [x for x in s.mon.log if x[0] == "server"][0][1]
        kw = dict(x for x in made if isinstance(x[0], str))
        for o in A_:
            if o in kw and kw[o] != vals[o]:
                bad[GR, "options"] = "the gRPC server does not get %s" % o
        res = {x[1]: x[2] for x in s.mon.log if x[0] == "result"}
        for fut, meth, addr in zip(v[1], (
                "add_insecure_port", "add_secure_port",
                "add_insecure_port"), (X, Y, X)):
            if res.get(fut) != ("obj", ("port", meth, addr), "int"):
                bad[GR, "grpc"] = "the port of %s() is not announced" % meth
        for x in s.mon.log:
            if x[0] == "add_secure_port" and x[1] != (Y, CRED):
                bad[GR, "grpc"] = "a secure port does not get its " \
                    "credentials"
        gen = [x[1] for x in s.mon.log
               if x[0] == "add_generic_rpc_handlers"]
        ps = [it.exact_parts(x[0], s) for x in gen]
        if None not in ps and {y for p in ps for y in p} != {F, G}:
            bad[GR, "handlers"] = "a handler is not registered"
        reg = [x[1] for x in s.mon.log
               if x[0] == "add_registered_method_handlers"]
        ds = [it.exact_dict(x[1], s) for x in reg]
        if None not in ds and (
                {x[0] for x in reg} != {const("n")} or
                {y: z for d in ds for y, z in d.items()} != {
                    const("m1"): F, const("m2"): G}):
            bad[GR, "handlers"] = "a registered method is lost"
        if "server.start" not in names or "server.stop" not in names:
            bad[GR, "grpc"] = "the gRPC server is not started or not stopped"
        elif any(i > names.index("server.start")
                 for i, x in enumerate(names) if x.startswith("add_")):
            bad[GR, "grpc"] = "the gRPC server gets its ports or handlers " \
                "too late"
        else:
            x = s.mon.log[names.index("server.stop")]
            if not x[1] and not x[2] or NONE in x[1]:
                bad[GR, "grpc"] = "the gRPC server is not stopped gracefully"
    if not n:
        bad[GR, "grpc"] = "the gRPC server never starts"
    for on in (TRUE, FALSE):
        it, outs = drive(
            ctx, "aiomisc.service.grpc_server.GRPCService",
            "reflection=%s" % on[2], ["await s.start()"], bad)
        for k, v, s in outs:
            if k == "v" and any(x[0] == "reflection" for x in s.mon.log) != (
                    on == TRUE):
                bad[GR, "options"] = "reflection is not served as asked"
    for name, args in (("AIOHTTPService", ""), (
            "AIOHTTPSSLService", "cert=f, key=g, ca=x, ")):
        it, outs = drive(
            ctx, A + name, args + "sock=sock, runner_kwargs=(given := "
            "{'access_log_format': fmt})", [
                "await s.start()", "return given"], {})
        for k, v, s in outs:
            d = it.exact_dict(v, s) if k == "v" else None
            if d is not None and d != {const("access_log_format"): FMT}:
                bad[name, "options"] = "%s changes the options it was " \
                    "given" % name
    report(ctx, RU, bad, (A + "AIOHTTPService", A + "AIOHTTPSSLService"), (
        "setup", "socket", "tls", "stop", "twice", "options"))
    report(ctx, RU, bad, ["aiomisc.service.uvicorn." + U],
           ("uvicorn", "options"))
    report(ctx, RU, bad, ["aiomisc.service.grpc_server." + GR],
           ("grpc", "options", "handlers"))
    report(ctx, RU, bad, ["aiomisc.service.asgi.ASGIHTTPService",
                          "aiomisc.service.asgi.ASGIHTTPSSLService"],
           ("application",))


class Asgi(Plain):
    """The application an ASGI service is served by."""
    exact_lists = True
    fresh_new = True
    max_depth = 8

    def initial(self):
        return Mon(log=())

    def add(self, st, *x):
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def on_call(self, it, ev, st):
        n, r = ev.name, ev.recv
        if ev.kind != "call":
            return None
        if n == "create_asgi_app":
            return [("v", ("aw", "asgi", (), (), None), st)]
        if ev.extra == "ext" and n.rpartition(".")[2] == "Application":
            return [("v", APPL, self.add(st, "made"))]
        if ev.extra == "ext" and n.rpartition(".")[2] == "ASGIResource":
            return [("v", RESOURCE, self.add(
                st, "resource", kwarg(ev, "app", 0, NONE), kwarg(
                    ev, "root_path", 1, const(""))))]
        if n == "register_resource":
            return [("v", NONE, self.add(st, "registered", r, *ev.args))]
        if n == "lifespan_mount":
            return [("v", NONE, self.add(st, "mounted", r, *ev.args))]
        return None

    def on_await(self, it, ev, st):
        w = unwrap_aw(ev.value)
        if w[:2] == ("aw", "asgi"):
            return [("v", ASGI, st)]
        return None


def asgi(ctx, bad, A):
    for name in ("ASGIHTTPService", "ASGIHTTPSSLService"):
        c = ctx.p.cls("aiomisc.service.asgi." + name)
        it, outs = harness(
            ctx, Asgi(ctx), "async def driver(f, s):\n"
            "    return await f(s)\n", s=("obj", ("service",), c.cid),
            f=("func", c.find_method("create_application").fid, None))
        for k, v, s in outs:
            log = s.mon.log
            if k != "v" or v != APPL:
                bad[name, "application"] = "no application is made"
                continue
            if [x[1:] for x in log if x[0] == "resource"] != [
                    (ASGI, const("/"))] and not any(
                        unknown(y) for x in log for y in x[1:]):
                bad[name, "application"] = "not the ASGI application of " \
                    "the service is served, at the root"
            if [x[-1] for x in log if x[0] == "registered"] != [RESOURCE] \
                    or ("attr", APPL, "router") not in [
                        x[1] for x in log if x[0] == "registered"]:
                bad[name, "application"] = "the ASGI application is not " \
                    "registered"
            if [x[1:] for x in log if x[0] == "mounted"] != [
                    (RESOURCE, APPL)]:
                bad[name, "application"] = "the lifespan of the ASGI " \
                    "application is not that of the service"
