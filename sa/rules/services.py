"""Stopping of server and client services."""
from .lib import *

LOOP = ("obj", ("loop",), "asyncio.AbstractEventLoop")
ADDR = ("obj", ("addr",), "str")
PORT = ("obj", ("port",), "int")
SOCK = ("obj", ("sock",), "socket.socket")
SERVER = ("obj", ("server",), "asyncio.AbstractServer")
TRANSPORT = ("obj", ("transport",), "asyncio.DatagramTransport")
SSLCTX = ("obj", ("sslctx",), "ssl.SSLContext")
R = ("obj", ("reader",), "user")
W = ("obj", ("writer",), "user")
DATA = ("obj", ("data",), "user")
PEER = ("obj", ("peer",), "user")
ACCEPT = ("sym", "accept", None)
FINISH = ("sym", "finish", None)
STOPPING = ("sym", "stopping", None)
HERR = ("exc", "Exception", False, "handler")


OPTS = ("obj", ("opts",), "user")
CA = ("obj", ("ca",), "pathlib.Path")
CERT = ("obj", ("cert",), "pathlib.Path")
KEY = ("obj", ("key",), "pathlib.Path")
VER = ("sym", "verify", None)
REQ = ("sym", "require", None)
MINV = ("obj", ("minv",), "user")
MAXV = ("obj", ("maxv",), "user")
CIPHERS = ("obj", ("ciphers",), "user")
TLSENV = dict(ca=CA, cert=CERT, key=KEY, ver=VER, req=REQ, minv=MINV,
              maxv=MAXV, ciphers=CIPHERS)
TLSARGS = ", cert=cert, key=key, ca=ca, verify=ver"


def in_thread(it, v, st):
    outs = it.call_value(v[2][1], list(v[2][2:]), st.with_mon(
        st.mon.set(thread=True)))
    return [(k, x, s.with_mon(s.mon.set(thread=False))) for k, x, s in outs]


def options_used(rule, ev, st, purpose):
    """SSLOptions.create_context() is called."""
    def val(n):
        return st.get(("H", ev.recv, n))
    want = [("ca", CA), ("cert", CERT), ("key", KEY), ("verify", VER),
            ("require_client_cert", REQ if purpose == "CLIENT_AUTH"
             else FALSE)]
    if purpose == "CLIENT_AUTH":
        want += [("minimum_version", MINV), ("maximum_version", MAXV),
                 ("ciphers", CIPHERS)]
    for n, v in want:
        if val(n) != v:
            rule.bad["options"] = "the TLS option %s is not respected" % n
    if purpose not in repr(val("purpose")):
        rule.bad["options"] = "TLS is set up for the other side"
    if not st.mon.thread:
        rule.bad["ssl"] = "files are read in the thread of the event loop"
    return [("v", SSLCTX, st)]


class Srv(Plain):
    """Mon.tasks: created; cancelled/awaited/ended; closed: no clients any
    more; late: how many arrived while stopping."""
    exact_lists = True
    max_depth = 16
    plain = False
    results = (("v", NONE),)

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(tasks=(), cancelled=(), awaited=(), ended=(), cbs=(),
                   handler=None, proto=None, closed=False, stopping=False,
                   late=0, handled=(), ssl=None, waited=False, order=(),
                   sock=None, sent=(), thread=False, socks=0)

    def arrive(self, it, st):
        m = st.mon
        if m.handler is not None:
            return it.call_value(m.handler, [R, W], st)
        if m.proto is not None:
            return it.call_value(("attr", m.proto, "$recv"), [], st)
        return [("v", NONE, st)]

    def inline(self, it, func, ev, st):
        return super().inline(it, func, ev, st) and func.name not in (
            "bind_socket",)

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind != "call":
            return None
        n = ev.name
        if ev.callee == ACCEPT:
            return self.arrive(it, st)
        if ev.callee == STOPPING:
            return [("v", NONE, st.with_mon(m.set(stopping=True)))]
        if ev.callee == FINISH:
            t = m.tasks[0] if m.tasks else None
            if t is None:
                return [("v", NONE, st)]
            outs = [("v", NONE, st.with_mon(m.set(ended=m.ended + (t,))))]
            for x, cb in m.cbs:
                if x == t:
                    nx = []
                    for k, v, s in outs:
                        nx += it.call_value(cb, [t], s)
                    outs = nx
            return outs
        if n in ("handle_client", "handle_datagram", "handle_connection") \
                and ev.recv is not None:
            if self.plain:
                return [("v", NONE, st.with_mon(m.set(
                    handled=m.handled + (tuple(ev.args),))))]
            return [("v", ("coro", ("sym", "user-handler", None), tuple(
                ev.args), ()), st)]
        if ev.callee is not None and ev.callee[0] == "attr" and \
                ev.callee[2] == "$recv":
            c = it.classinfo(ev.callee[1])
            f = c and c.find_method("datagram_received")
            if f is None:
                self.bad["handled"] = "the protocol does not receive"
                return [("v", NONE, st)]
            return it.call_value(("bm", ev.callee[1], f.fid), [DATA, PEER],
                                 st)
        if self.plain and is_ext(ev, "asyncio.iscoroutinefunction",
                                 "inspect.iscoroutinefunction"):
            return [("v", FALSE, st)]
        if n == "bind_socket" and ev.kw.get("options") != OPTS or \
                n == "bind_socket" and (ev.kw.get("address"), ev.kw.get(
                    "port")) != (ADDR, PORT):
            if not set(ev.kw) - {"address", "port", "options"} and \
                    not ev.args:
                self.bad["socket"] = "the socket is not bound to the " \
                    "given address with the given options"
        if n == "bind_socket" or is_ext(ev, "socket.socket"):
            return [("v", SOCK, st.with_mon(m.set(socks=m.socks + 1)))]
        if is_ext(ev, "weakref.WeakSet", "weakref.WeakKeyDictionary",
                  "weakref.WeakValueDictionary", "weakref.ref"):
            self.bad["forgotten"] = "the tasks are only weakly referenced"
            return None
        if is_ext(ev, "asyncio.start_server") or is_method(
                ev, "create_datagram_endpoint"):
            return [("v", ("aw", "listen", tuple(ev.args), tuple(sorted(
                ev.kw.items())), None), st)]
        if is_method(ev, "run_in_executor"):
            return [("v", ("aw", "exec", tuple(ev.args), (), None), st)]
        if is_ext(ev, "pathlib.Path") and ev.args and \
                ev.args[0] in (CA, CERT, KEY):
            return [("v", ev.args[0], st)]
        if n == "create_context":
            return options_used(self, ev, st, "CLIENT_AUTH")
        if is_ext(ev, "isinstance") and ev.args[0][0] == "task":
            return [("v", TRUE, st)]
        if ev.recv == SERVER or ev.recv == TRANSPORT:
            if n in ("close", "abort"):
                return [("v", NONE, st.with_mon(m.set(closed=True)))]
            if n == "wait_closed":
                return [("v", ("aw", "closed", (), (), None), st)]
            if n == "sendto":
                return [("v", NONE, st.with_mon(m.set(
                    sent=m.sent + (tuple(ev.args),))))]
        if n in ("create_task", "ensure_future") and ev.extra in (
                "method", "ext") and ev.args:
            t = ("task", ("t", len(m.tasks)), ev.args[0])
            return [("v", t, st.with_mon(m.set(tasks=m.tasks + (t,))))]
        x = ev.recv
        if x is not None and x[0] == "task":
            if n == "done":
                return [("v", TRUE if x in m.ended else FALSE, st)]
            if n == "cancel":
                return [("v", TRUE, st.with_mon(m.set(
                    cancelled=m.cancelled + (x,))))]
            if n == "add_done_callback":
                return [("v", NONE, st.with_mon(m.set(
                    cbs=m.cbs + ((x, ev.args[0]),))))]
            if n in ("cancelled", "exception"):
                return [("v", NONE if n == "exception" else FALSE, st)]
        return None

    def on_await(self, it, ev, st):
        v = ev.value
        m = st.mon
        if v[0] == "coro" and v[1][0] == "sym":
            return [("v", NONE, st.with_mon(m.set(
                handled=m.handled + (v[2],))))]
        if v[0] == "aw" and v[1] == "listen":
            kw = dict(v[3])
            st = st.with_mon(m.set(ssl=kw.get("ssl"), sock=kw.get("sock")))
            if len(v[2]) and "sock" in kw and it.func_of(v[2][0]) is not \
                    None and it.func_of(v[2][0]).params[-2:] != [] and \
                    self.kind != "udp":
                return [("v", SERVER, st.with_mon(st.mon.set(
                    handler=v[2][0])))]
            if self.kind == "udp":
                out = []
                for k, p, s in it.call_value(v[2][0], [], st):
                    if k == "v":
                        out.append(("v", ("tuple", (TRANSPORT, p)),
                                    s.with_mon(s.mon.set(proto=p))))
                return out
            return [("v", SERVER, st.with_mon(st.mon.set(
                handler=v[2][0])))]
        if v[0] == "aw" and v[1] == "exec":
            return in_thread(it, v, st)
        if v == NONE and self.plain:
            self.bad["task"] = "the result of a handler that is no " \
                "coroutine function is awaited"
        if v[0] == "coro":
            return None
        ls = set(leaves(it, unwrap_aw(v), st)) | {v}
        ts = tuple(t for t in m.tasks if t in ls or t[2] in ls)
        outs = [st]
        if m.stopping and not m.closed and m.late < 2:
            # a client comes while the service waits
            st2 = st.with_mon(m.set(late=m.late + 1))
            outs = [s for k, x, s in self.arrive(it, st2)] + outs
        res = []
        for s in outs:
            if ts:
                s = s.with_mon(s.mon.set(awaited=s.mon.awaited + ts))
            if v[0] == "aw" and v[1] == "closed":
                s = s.with_mon(s.mon.set(waited=True))
            res.append(("v", NONE, s))
        return res


def servers(ctx):
    RU = "server-services"
    ctx.rule(RU, "a server service handles every client in a task of its "
             "own; stopping it first closes the server and then cancels and "
             "awaits all of these tasks, those of clients that come "
             "meanwhile included; stopping a service that did not start is "
             "no error; tasks that ended are forgotten")
    bad = {}
    todo = [("aiomisc.service.tcp.TCPServer", "tcp"),
            ("aiomisc.service.tls.TLSServer", "tls"),
            ("aiomisc.service.udp.UDPServer", "udp")]
    for name, kind in todo:
        c = ctx.p.cls(name)

        def drive(body, **opt):
            r = Srv(ctx, kind=kind, **opt)
            kw = TLSARGS + ", require_client_cert=req, minimum_version=minv, " \
                "maximum_version=maxv, ciphers=ciphers" if kind == "tls" else ""
            src = ("async def driver(cls, loop, addr, port, accept, finish, "
                   "stopping, data, peer, ca, cert, key, ver, req, minv, "
                   "maxv, ciphers, exc, opts):\n"
                   "    s = cls(address=addr, port=port, options=opts%s)\n"
                   "    s.set_loop(loop)\n" % kw +
                   "".join("    %s\n" % b for b in body))
            it, outs = harness(ctx, r, src, cls=("cls", c.cid), loop=LOOP,
                               addr=ADDR, port=PORT, accept=ACCEPT,
                               finish=FINISH, stopping=STOPPING, data=DATA,
                               peer=PEER, exc=HERR, opts=OPTS,
                               **TLSENV)
            bad.update(r.bad)
            return it, outs

        it, outs = harness(
            ctx, Srv(ctx, kind=kind), "def driver(cls, addr, ca, cert, key):"
            "\n    return cls(address=addr, port=0%s)\n" % (
                TLSARGS.replace("ver", "True") if kind == "tls" else ""),
            cls=("cls", c.cid), addr=ADDR, ca=CA, cert=CERT, key=KEY)
        if any(k != "v" for k, v, s in outs):
            bad["port"] = "%s: port 0 (any free one) is refused" % c.name

        it, outs = harness(
            ctx, Srv(ctx, kind=kind), "async def driver(cls, loop, sock, ca, "
            "cert, key):\n    s = cls(sock=sock%s)\n    s.set_loop(loop)\n"
            "    await s.start()\n" % (
                TLSARGS.replace("ver", "True") if kind == "tls" else ""),
            cls=("cls", c.cid), loop=LOOP, sock=SOCK, ca=CA, cert=CERT,
            key=KEY)
        if any(s.mon.handler or s.mon.proto for k, v, s in outs) and not any(
                s.mon.sock == SOCK for k, v, s in outs):
            bad["socket"] = "%s: does not listen on the given socket" % c.name

        def started(outs):
            return [o for o in outs if o[2].mon.handler is not None
                    or o[2].mon.proto is not None]
        n = 0
        for clients, reason in ((1, "None"), (0, "None"), (1, "exc"),
                                (0, "exc")):
            it, outs = drive(["await s.start()"] + ["accept()"] * clients + [
                "stopping()", "await s.stop(%s)" % reason, "return s.tasks"])
            for k, v, s in started(outs):
                m = s.mon
                n += 1
                if k != "v":
                    bad["stop"] = "%s: stopping fails with %s" % (c.name, v[1])
                    continue
                if not m.closed:
                    bad["closed"] = "%s: the server is not closed" % c.name
                left = set(m.tasks) - set(m.ended)
                if left - set(m.cancelled):
                    bad["late" if len(m.tasks) > 1 else "cancelled"] = \
                        "%s: a task of a client is not cancelled%s" % (
                            c.name, " (it came while the service was stopping)"
                            if len(m.tasks) > 1 else "")
                elif left - set(m.awaited):
                    bad["awaited"] = "%s: the cancelled tasks are not " \
                        "awaited" % c.name
                if kind != "udp" and not m.waited:
                    bad["closed"] = "%s: the end of the server is not " \
                        "awaited" % c.name
                if m.sock != SOCK or m.socks != 1:
                    bad["socket"] = "%s: does not listen on its socket" % c.name
                if kind == "tls" and m.ssl != SSLCTX:
                    bad["ssl"] = "%s: TLS is not set up (in the executor)" % (
                        c.name)
        if not n:
            bad["stop"] = "%s: never starts or never stops" % c.name
        it, outs = drive(["await s.start()", "accept()", "finish()",
                          "return s.tasks"])
        for k, v, s in started(outs):
            ps = it.exact_parts(v, s) if k == "v" else None
            if len(s.mon.tasks) != 1:
                bad["task"] = "%s: a client is not handled in one task" % (
                    c.name)
                continue
            if ps is not None and s.mon.tasks[0] in ps:
                bad["forgotten"] = "%s: ended tasks are kept" % c.name
        want = (DATA, PEER) if kind == "udp" else (R, W)
        for plain in (False, True):
            it, outs = drive(["await s.start()", "accept()"], plain=plain)
            for k, v, s in started(outs):
                if len(s.mon.tasks) != 1:
                    continue
                co = s.mon.tasks[0][2]
                if plain and co[0] not in ("coro", "aw"):
                    bad["task"] = "%s: a handler that is no coroutine " \
                        "function does not work" % c.name
                    continue
                for k2, v2, s2 in it.do_await(
                        co, it.top_frame().func.node
                        if hasattr(it.top_frame(), "func") else None,
                        it.top_frame(), s):
                    if [x[-2:] for x in s2.mon.handled] != [want]:
                        bad["handled"] = "%s: the handler is not called " \
                            "once with the client" % c.name
            bad.update(it.rule.bad)
        it, outs = drive(["if stopping() is None:",
                          "    await s.stop(None)"])
        for k, v, s in outs:
            if s.mon.stopping and k != "v":
                bad["unstarted"] = "%s: stopping before it started fails" % (
                    c.name)
        if kind == "udp":
            it, outs = drive(["await s.start()", "s.sendto(data, peer)"])
            for k, v, s in started(outs):
                if k != "v" or s.mon.sent != ((DATA, PEER),):
                    bad["handled"] = "sendto() does not send"
    loc = ctx.p.cls("aiomisc.service.base.SimpleServer").find_method(
        "stop").loc()
    for x in sorted({"stop", "closed", "late", "cancelled", "awaited",
                     "socket", "ssl", "task", "options", "forgotten", "handled",
                     "unstarted", "port"} | set(bad)):
        ctx.require(RU, x, x not in bad, "servers:" + x, loc, bad.get(x, ""))


RESET = "ConnectionResetError"
CONNERR = ("exc", "ConnectionRefusedError", True, "refused")
OSERR = ("exc", "OSError", True, "os")
T = ("obj", ("retry",), "user")
T2 = ("obj", ("reconnect",), "user")


class Cli(Plain):
    """Mon.log: what happened, in order."""
    exact_lists = True
    max_depth = 16
    fold = 6
    limit = 3

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(log=(), thread=False)

    def add(self, st, *x):
        return st.with_mon(st.mon.set(log=st.mon.log + x))

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind != "call":
            return None
        if is_ext(ev, "asyncio.open_connection"):
            return [("v", ("aw", "open", tuple(ev.args), tuple(sorted(
                ev.kw.items())), None), st)]
        if is_method(ev, "run_in_executor"):
            return [("v", ("aw", "exec", tuple(ev.args), (), None), st)]
        if is_ext(ev, "pathlib.Path") and ev.args and \
                ev.args[0] in (CA, CERT, KEY):
            return [("v", ev.args[0], st)]
        if ev.name == "create_context":
            return options_used(self, ev, st, "SERVER_AUTH")
        if ev.name == "handle_connection" and ev.recv is not None:
            if ev.args[-2:] != [R, W]:
                self.bad["streams"] = "the handler does not get the streams"
            return [("v", ("coro", ("sym", "handler", None), (), ()), st)]
        if ev.name in ("call_soon", "call_soon_threadsafe") and \
                ev.recv == LOOP:
            return it.call_value(ev.args[0], list(ev.args[1:]), st)
        if ev.recv is not None and it.typeof(ev.recv) == "asyncio.Event":
            k = ("H", ev.recv, "$set")
            if ev.name == "set":
                return [("v", NONE, st.set(k, TRUE))]
            if ev.name == "clear":
                return [("v", NONE, st.set(k, FALSE))]
            if ev.name == "is_set":
                return [("v", st.get(k, FALSE), st)]
        if ev.name in ("exception", "info", "warning", "debug", "error") \
                and ev.extra == "method":
            return [("v", NONE, st)]
        return None

    def on_await(self, it, ev, st):
        v = ev.value
        while v[0] == "task":
            v = v[2]
        m = st.mon
        if v[0] == "aw" and v[1] == "open":
            kw = dict(v[3])
            where = v[2] + tuple(kw[k] for k in ("host", "port")[len(v[2]):]
                                 if k in kw)
            if where[:2] != (ADDR, PORT):
                self.bad["address"] = "connects to another address"
            ssl = dict(v[3]).get("ssl", NONE)
            if self.tls != (ssl == SSLCTX) or not self.tls and ssl != NONE:
                self.bad["ssl"] = "TLS is not set up (in the executor) for " \
                    "the connection"
            if len([x for x in m.log if x[0] == "open"]) >= self.limit:
                return []
            return [("v", ("tuple", (R, W)), self.add(st, ("open", "ok"))),
                    ("raise", ("exc", CONNERR[1] if m.log else RESET, True,
                               "refused%d" % len(m.log)),
                     self.add(st, ("open", "refused"))),
                    ("raise", OSERR, self.add(st, ("open", "error")))]
        if v[0] == "aw" and v[1] == "exec":
            return in_thread(it, v, st)
        if v[0] == "aw" and v[1] == "sleep":
            return [("v", NONE, self.add(st, ("sleep", v[2][0]))),
                    ("raise", CANCEL, self.add(st, ("cancel",)))]
        if v[0] == "coro" and v[1] == ("sym", "handler", None):
            return [("v", NONE, self.add(st, ("handled", "end"))),
                    ("raise", HERR, self.add(st, ("handled", "error"))),
                    ("raise", CANCEL, self.add(st, ("cancel",)))]
        if v[0] == "coro" and v != ev.value:
            return it.do_await(v, ev.node, ev.fr, st)
        return None


def clients(ctx):
    RU = "client-services"
    ctx.rule(RU, "connect() gives the streams of the first connection that "
             "works, tries again - after connect_retry_timeout, up to "
             "connect_attempts times - only when the connection failed, and "
             "then raises the last error; a robust client connects again "
             "after reconnect_timeout when its handler failed, and ends when "
             "it is cancelled or its handler ended")
    bad = {}
    for name in ("tcp.TCPClient", "tcp.RobustTCPClient", "tls.TLSClient",
                 "tls.RobustTLSClient"):
        c = ctx.p.cls("aiomisc.service." + name)
        tls = name.startswith("tls")

        def drive(body, **opt):
            r = Cli(ctx, tls=tls, **opt)
            kw = TLSARGS if tls else ""
            src = ("async def driver(cls, loop, addr, port, t, t2, ca, cert, "
                   "key, ver, req, minv, maxv, ciphers):\n"
                   "    s = cls(addr, port%s)\n"
                   "    s.set_loop(loop)\n"
                   "    s.connect_attempts = 2\n"
                   "    s.connect_retry_timeout = t\n"
                   "    s.reconnect_timeout = t2\n" % kw +
                   "".join("    %s\n" % b for b in body))
            it, outs = harness(ctx, r, src, cls=("cls", c.cid), loop=LOOP,
                               addr=ADDR, port=PORT, t=T, t2=T2, **TLSENV)
            bad.update({k: "%s: %s" % (c.name, x) for k, x in r.bad.items()})
            return it, outs
        it, outs = drive(["return await s.connect()"])
        n = 0
        for k, v, s in outs:
            log = s.mon.log
            if not log:
                continue
            n += 1
            ends = [x[1] for x in log if x[0] == "open"]
            if ("cancel",) in log:
                if k != "raise" or not is_cancel(v):
                    bad["cancel"] = "%s.connect() goes on when it is " \
                        "cancelled" % c.name
                continue
            for a, b in zip(log, log[1:]):
                if a == ("open", "refused") and b[0] == "open" or \
                        b[0] == "open" and a != ("sleep", T):
                    bad["retry"] = "%s.connect() does not wait " \
                        "connect_retry_timeout between attempts" % c.name
            if "error" in ends:
                if (k, v) != ("raise", OSERR) or ends[-1] != "error":
                    bad["retry"] = "%s.connect() goes on after an error " \
                        "that is not a failed connection" % c.name
            elif "ok" in ends:
                if (k, v) != ("v", ("tuple", (R, W))) or ends[-1] != "ok":
                    bad["streams"] = "%s.connect() does not return the " \
                        "streams" % c.name
            elif k != "raise" or v[1] not in (CONNERR[1], RESET) or v[3:] != (
                    "refused%d" % max(i for i, x in enumerate(log)
                                      if x[0] == "open"),) \
                    or len(ends) != 2:
                bad["attempts"] = "%s.connect() makes %d attempts instead " \
                    "of 2, or loses the error" % (c.name, len(ends))
        if n < 3:
            bad["attempts"] = "%s.connect() does not connect" % c.name
        it, outs = drive(["await s.start()", "return s.start_event.is_set()"],
                         limit=2)
        n = 0
        for k, v, s in outs:
            log = [x for x in s.mon.log if x != ("sleep", T)]
            if not log:
                continue
            n += 1
            if log[-1] == ("cancel",):
                if k != "raise" or not is_cancel(v):
                    bad["cancel"] = "%s goes on when it is cancelled" % (
                        c.name)
                continue
            if ("cancel",) in log:
                bad["cancel"] = "%s goes on when it is cancelled" % c.name
            ok = ("open", "ok") in log
            if ok and (k != "v" or v != TRUE) and (
                    "Robust" in name or k == "v"):
                bad["event"] = "%s does not say that it started" % c.name
            if "Robust" in name:
                for i, x in enumerate(log):
                    if x == ("handled", "error") and log[i + 1:i + 2] != [
                            ("sleep", T2)]:
                        bad["reconnect"] = "%s does not wait " \
                            "reconnect_timeout, or does not connect again " \
                            "when its handler failed" % c.name
                    if x == ("sleep", T2) and (
                            log[i + 1:i + 2] or [("", )])[0][0] != "open":
                        bad["reconnect"] = "%s does not connect again" % (
                            c.name)
                if ("handled", "end") in log[:-1]:
                    bad["reconnect"] = "%s goes on when its handler " \
                        "ended" % c.name
                if k == "v" and log[-1] == ("handled", "error"):
                    bad["reconnect"] = "%s ends when its handler fails" % (
                        c.name)
            elif k == "raise" and ("handled", "error") in log:
                bad["handler"] = "%s fails with the error of its handler" % (
                    c.name)
        if not n:
            bad["event"] = "%s never starts" % c.name
    loc = ctx.p.cls("aiomisc.service.tcp.TCPClient").find_method(
        "connect").loc()
    for x in sorted({"address", "ssl", "options", "streams", "retry", "attempts",
                     "cancel", "event", "reconnect", "handler"} | set(bad)):
        ctx.require(RU, x, x not in bad, "clients:" + x, loc, bad.get(x, ""))


CTX = ("obj", ("ctx",), "ssl.SSLContext")


class Tls(Plain):
    exact_lists = True
    distinct_ext = True
    exists = TRUE

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(loaded=(), chain=(), purpose=None, ciphers=())

    def mode(self, st):
        """(verify_mode, check_hostname) of the context."""
        d = "CERT_REQUIRED" if self.server is False else "CERT_NONE"
        m = st.get(("H", CTX, "verify_mode"))
        h = st.get(("H", CTX, "check_hostname"))
        if m is not None:
            d = m[1].rpartition(".")[2] if m[0] == "ext" else repr(m)
        return d, (not self.server) if h is None else h == TRUE

    def note(self, it, ev, st):
        if ev.kind == "attrset" and ev.recv == CTX:
            d, h = self.mode(st)
            if d == "CERT_NONE" and h:
                self.bad["hostname"] = "verification is switched off while " \
                    "check_hostname is on, which is an error"
        return st

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind != "call":
            return None
        if is_ext(ev, "ssl.create_default_context"):
            p = kwarg(ev, "purpose", 0)
            self.server = "CLIENT_AUTH" in repr(p)
            return [("v", CTX, st.with_mon(m.set(purpose=repr(p))))]
        if ev.recv == CTX:
            if ev.name == "load_verify_locations":
                return [("v", NONE, st.with_mon(m.set(loaded=m.loaded + (
                    kwarg(ev, "cafile", 0, kwarg(ev, "capath", 1)),))))]
            if ev.name == "load_cert_chain":
                return [("v", NONE, st.with_mon(m.set(chain=m.chain + ((
                    kwarg(ev, "certfile", 0), kwarg(ev, "keyfile", 1)),))))]
            if ev.name == "set_ciphers":
                return [("v", NONE, st.with_mon(m.set(ciphers=m.ciphers + (
                    ev.args[0],))))]
            return [("v", NONE, st)]
        if ev.name in ("exists", "is_file") and ev.recv == CA:
            return [("v", self.exists, st)]
        if ev.name == "join" and ev.args == [CIPHERS]:
            return [("v", CIPHERS, st)]
        if is_ext(ev, "str", "pathlib.Path", "os.fspath") and ev.args and \
                ev.args[0] in (CA, CERT, KEY):
            return [("v", ev.args[0], st)]
        return None


def tls(ctx):
    RU = "tls-options"
    ctx.rule(RU, "a context made of SSLOptions verifies the server unless "
             "verify=False, verifies clients exactly when they must have a "
             "certificate, uses the given CA, certificate, versions and "
             "ciphers, and fails when the CA is missing; services make their "
             "contexts of the options they were given")
    c = ctx.p.cls("aiomisc.service.tls.SSLOptions")
    bad = {}
    src = ("def driver(cls, cert, key, ca, verify, require, purpose, a, b, "
           "ci):\n    o = cls(cert, key, ca, verify, require, purpose, a, b, "
           "ci)\n    return o.create_context()\n")
    n = 0
    for purpose in ("SERVER_AUTH", "CLIENT_AUTH"):
        for verify in (TRUE, FALSE):
            for require in (TRUE, FALSE):
                for ca, exists in ((CA, TRUE), (CA, FALSE), (NONE, TRUE)):
                    r = Tls(ctx, exists=exists, server=None)
                    it, outs = harness(
                        ctx, r, src, cls=("cls", c.cid), cert=CERT, key=KEY,
                        ca=ca, verify=verify, require=require,
                        purpose=("ext", "ssl.Purpose." + purpose), a=MINV,
                        b=MAXV, ci=CIPHERS)
                    bad.update(r.bad)
                    for k, v, s in outs:
                        n += 1
                        m = s.mon
                        if exists == FALSE:
                            if k != "raise":
                                bad["ca"] = "a missing CA is ignored"
                            continue
                        if (k, v) != ("v", CTX):
                            bad["context"] = "no context is made (%s)" % (
                                v[1],)
                            continue
                        o = s.get(("H", CTX, "options"))
                        if o is not None and (o[0] in ("const", "ext") or (
                                o[0] == "op" and not mentions(o, CTX) and
                                not unknown(o))):
                            bad["default-options"] = "the secure default " \
                                "options of the context are lost"
                        if purpose not in m.purpose:
                            bad["purpose"] = "the purpose is not respected"
                        mode, host = r.mode(s)
                        if purpose == "SERVER_AUTH":
                            if verify == TRUE and (mode, host) != (
                                    "CERT_REQUIRED", True):
                                bad["unverified"] = "a client does not " \
                                    "verify the server"
                            if verify == FALSE and require == FALSE and (
                                    mode, host) != ("CERT_NONE", False):
                                bad["verify"] = "verify=False is ignored"
                        else:
                            want = "CERT_REQUIRED" if require == TRUE \
                                else "CERT_NONE"
                            if mode != want:
                                bad["client-cert"] = "a server with " \
                                    "require_client_cert=%s uses %s" % (
                                        require[2], mode)
                        if m.loaded != ((CA,) if ca == CA else ()):
                            bad["ca"] = "the CA is not used"
                        if m.chain != ((CERT, KEY),):
                            bad["certificate"] = "the certificate is not used"
                        if s.get(("H", CTX, "minimum_version")) != MINV or \
                                s.get(("H", CTX, "maximum_version")) != MAXV:
                            bad["versions"] = "the protocol versions are " \
                                "not respected"
                        if m.ciphers != (CIPHERS,):
                            bad["ciphers"] = "the ciphers are not respected"
    if not n:
        bad["context"] = "no context is made"
    loc = c.find_method("create_context").loc()
    for x in sorted({"hostname", "unverified", "verify", "client-cert", "ca",
                     "certificate", "versions", "default-options", "ciphers", "purpose",
                     "context"} | set(bad)):
        ctx.require(RU, x, x not in bad, "SSLOptions:" + x, loc,
                    bad.get(x, ""))
