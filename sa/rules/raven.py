"""The transports that carry events to Sentry."""
from .coop import Coop
from .lib import *
from .world import LOOP

MOD = "aiomisc.service.raven."
RUN = ("sym", "run", None)
KEEP = ("sym", "keep", None)
WHO = ("sym", "who", None)
OK = ("sym", "ok", None)
FAIL = ("sym", "fail", None)
T = ("obj", ("timeout",), "user")
URL, HEAD = ("obj", ("url",), "user"), ("obj", ("headers",), "user")
DATA = [("obj", ("data", i), "user") for i in range(4)]
CERR = ("exc", "aiohttp.ClientError", True, "post")
FULL = ("exc", "asyncio.QueueFull", True, "queue")
LATE = ("exc", "TimeoutError", True, "wait_for")


class Sentry(Coop):
    """answers: how the n-th request ends; Mon.posts, Mon.calls: what was
    sent and which callbacks were called."""
    answers = ()
    late = ()       # events that come during the first request
    ending = None   # how waiting for the transport ends early
    keepalive = True

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return self.coop_mon(posts=(), calls=(), sessions=(), closed_s=(),
                             released=0, conn=(), transport=None, cutting=False,
                             limits=())

    def queue_call(self, it, ev, q, n, st):
        top = st.get(("H", q, "$kw:maxsize")) or st.get(("H", q, "$arg0"))
        if n == "put_nowait" and top is not None and top[0] == "const" and \
                top[2] > 0 and len(self.items(q, st)) >= top[2]:
            return [("raise", FULL, st)]
        return super().queue_call(it, ev, q, n, st)

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind == "call" and ev.callee == RUN:
            return [("v", NONE, s) for s in self.callbacks(it, st)]
        if ev.kind == "call" and ev.name == "__init__" and \
                ev.recv is not None and ev.recv[0] == "super" and \
                not isinstance(ev.extra, FuncInfo) and len(ev.args) < 3:
            # raven's HTTPTransport keeps what it is given
            for i, a in enumerate(("timeout", "verify_ssl")):
                st = st.set(("H", ev.recv[1], a), kwarg(ev, a, i, TRUE))
            return [("v", NONE, st)]
        if ev.kind == "call" and ev.callee == WHO:
            return [("v", NONE, self.put(
                st, who=("thread", T) if ev.args else "caller"))]
        if ev.kind == "call" and ev.callee == KEEP:
            return [("v", NONE, self.put(st, transport=ev.args[0]))]
        for w, nm in ((OK, "ok"), (FAIL, "fail")):
            if ev.kind == "call" and ev.callee is not None and \
                    ev.callee[0] == "partial" and ev.callee[1] == w:
                return [("v", NONE, self.put(st, calls=m.calls + ((
                    nm, ev.callee[2][0]),)))]
            if ev.kind == "call" and ev.callee == w:
                return [("v", NONE, self.put(st, calls=m.calls + ((
                    nm, ev.args[0]),)))]
        if is_ext(ev, "aiohttp.ClientSession"):
            x = ("obj", ("session", len(m.sessions)), "external")
            own = kwarg(ev, "connector_owner", 2, TRUE) != FALSE
            return [("v", x, self.put(st, sessions=m.sessions + ((
                x, kwarg(ev, "connector", 1), own),)))]
        if is_ext(ev, "aiohttp.TCPConnector"):
            x = ("obj", ("connector", len(m.conn)), "external")
            return [("v", x, self.put(st, conn=m.conn + ((x, tuple(sorted(
                ev.kw.items()))),)))]
        x = ev.recv
        if ev.kind == "call" and x is not None and x[0] == "obj":
            if x[1][:1] in (("session",), ("connector",)) and \
                    ev.name == "close":
                return [("v", ("aw", "$closed", (x,), ()), st)]
            if x[1][:1] == ("session",):
                if x in m.closed_s:
                    self.bad["session"] = "a closed session is used"
                return [("v", ("aw", "$post", (x,) + tuple(
                    ev.args), tuple(sorted(ev.kw.items())), len(m.posts)),
                    st)]
            if x[1][:1] == ("response",):
                if ev.name in ("release", "close"):
                    return [("v", NONE, self.put(
                        st, released=m.released + 1))]
            if x == ("obj", ("answer headers",), "user") and ev.name == "get":
                return [("v", const("9") if ev.args[0] == const("retry-after")
                         else const("message"), st)]
        return super().on_call(it, ev, st)

    def call_back(self, it, t, cbs, st):
        # before those who wait for the task go on
        cur = super().call_back(it, t, cbs, st)
        return [s2 for s in cur for s2 in self.callbacks(it, s)]

    def callbacks(self, it, st):
        out, cur = [], [st]
        while cur:
            s = cur.pop()
            if not s.mon.soon:
                out.append(s)
                continue
            cb = s.mon.soon[0]
            cur += [s2 for k, v, s2 in it.call_value(
                cb[0], list(cb[1:]), self.put(s, soon=s.mon.soon[1:]))]
        return out

    def on_attr(self, it, base, name, st):
        if base[0] == "obj" and base[1][:1] == ("response",):
            if name == "status":
                return const(base[1][1])
            if name == "headers":
                return ("obj", ("answer headers",), "user")
        return super().on_attr(it, base, name, st)

    def on_await(self, it, ev, st):
        w = unwrap_aw(ev.value)
        m = st.mon
        if w[0] == "aw" and w[1] == "$closed":
            return [("v", NONE, self.put(st, closed_s=m.closed_s + (
                w[2][0],)))]
        if w[0] == "aw" and w[1] == "$post":
            kw = dict(w[3])
            d = kw.get("data", w[2][2] if len(w[2]) > 2 else NONE)
            n = len(m.posts)
            how = self.answers[n] if n < len(self.answers) else 200
            st = self.put(st, posts=m.posts + ((w[2][0], d, how),))
            st = self.put(st, limits=st.mon.limits + (
                kw.get("timeout", NONE),))
            if w[2][1:2] != (URL,) or kw.get("headers") != HEAD:
                self.bad["sent"] = "the event is not sent as given"
            cur = [st]
            if n == 0 and self.late:
                cur = [s2 for s in cur for s2 in self.more(it, ev, s)]
            if isinstance(how, int):
                return [("v", ("obj", ("response", how, n), "external"), s)
                        for s in cur]
            return [("raise", CANCEL if how == "cancel" else CERR, s)
                    for s in cur]
        v = ev.value
        if v[0] == "aw" and v[1] == "wait_for" and v[2] and \
                v[2][0][0] in ("coro", "task"):
            if self.ending is None:
                # in time
                return it.do_await(v[2][0], ev.node, ev.fr, st)
            out = []
            for k, x, s in it.do_await(v[2][0], ev.node, ev.fr, self.put(
                    st, cutting=True)):
                s = self.put(s, cutting=False)
                out.append(("raise", self.ending, s)
                           if k == "raise" and is_cancel(x) else (k, x, s))
            return out
        if m.cutting and w[0] in ("aw", "task") and (
                w[0] == "task" or w[1] in ("gather", "wait")):
            return [("raise", CANCEL, st)]
        return super().on_await(it, ev, st)

    def more(self, it, ev, st):
        """An event comes while another one is being sent."""
        t = it.top_frame()
        cur = [st]
        for j in self.late:
            nx = []
            for s in cur:
                tr = s.mon.transport
                f = it.classinfo(tr).find_method("async_send")
                for k, v, s2 in it.call(
                        ("bm", tr, f.fid), [
                            URL, DATA[j], HEAD, ("partial", OK, (DATA[j],),
                                                 ()),
                            ("partial", FAIL, (DATA[j],), ())], {},
                        self.place(700 + j), t, s):
                    nx += self.callbacks(it, s2)
            cur = nx
        return cur


def transports(ctx):
    RU = "sentry-transports"
    ctx.rule(RU, "every event handed to a transport ends in exactly one "
             "callback - success exactly when the server accepted it - also "
             "those that are pending when the transport is closed, that find "
             "the queue full or come too late; answers are released, "
             "sessions are closed")
    bad = {}
    classes = ("AioHttpTransport", "QueuedAioHttpTransport",
               "QueuedKeepaliveAioHttpTransport")
    A = ((), (500,), ("error",), (200, 500, "error"), (429, 200),
         ("error", 200, 429))
    for name in classes:
        c = ctx.p.cls(MOD + name)
        queued = name.startswith("Queued")

        def drive(args, body, **opt):
            r = Sentry(ctx, **opt)
            it, outs = harness(
                ctx, r, "async def driver(cls, loop, run, ok, fail, url, "
                "head, d0, d1, d2, d3, partial, timeout, keep, who):\n"
                "    t = cls(%s)\n    keep(t)\n" % args + "".join(
                    "    %s\n" % (
                        "t.async_send(url, d%s, head, partial(ok, d%s), "
                        "partial(fail, d%s))" % ((b[4],) * 3)
                        if b.startswith("send") else b) for b in body),
                cls=("cls", c.cid), loop=LOOP, run=RUN, ok=OK, fail=FAIL,
                url=URL, head=HEAD, partial=("ext", "functools.partial"),
                timeout=T, keep=KEEP, who=WHO,
                **{"d%d" % i: d for i, d in enumerate(DATA)})
            for k, v in r.bad.items():
                bad[name, k] = "%s: %s" % (name, v)
            return it, outs

        def judge(outs, n, dropped=0, ends=True, timeout=None):
            """Every one of n events ends once."""
            seen = 0
            for k, v, s in outs:
                m = s.mon
                if k != "v" and (ends or not is_cancel(v)):
                    bad[name, "close"] = "%s: closing fails (%s)" % (
                        name, v[1])
                    continue
                seen += 1
                if timeout is not None and any(
                        x != timeout for x in m.limits):
                    bad[name, "options"] = "%s: a request does not have " \
                        "the configured timeout" % name
                if any(x[0] == "touched" for x in m.log):
                    bad[name, "thread"] = "%s: async_send() is not safe in " \
                        "other threads" % name
                for d in DATA[:n] if ends else ():
                    cs = [x[0] for x in m.calls if x[1] == d]
                    ps = [x[2] for x in m.posts if x[1] == d]
                    if len(cs) != 1:
                        bad[name, "once"] = "%s: an event ends in %d " \
                            "callbacks" % (name, len(cs))
                    elif (cs[0] == "ok") != (ps == [200]):
                        bad[name, "outcome"] = "%s: success is reported " \
                            "for an event the server did not accept, or " \
                            "the other way round" % name
                    if len(ps) > 1:
                        bad[name, "once"] = "%s: an event is sent twice" % (
                            name)
                if ends and len(m.posts) != n - dropped:
                    bad[name, "sent"] = "%s: %d of %d events are sent" % (
                        name, len(m.posts), n - dropped)
                if m.released != len([x for x in m.posts
                                      if isinstance(x[2], int)]):
                    bad[name, "released"] = "%s: an answer is not released" \
                        % name
                for x, conn, own in m.sessions:
                    if x not in m.closed_s:
                        bad[name, "session"] = "%s: a session is not " \
                            "closed" % name
                    if not own and conn not in m.closed_s:
                        bad[name, "session"] = "%s: the connector is not " \
                            "closed" % name
            if not seen:
                bad[name, "close"] = "%s: closing never ends" % name
        kinds = [""]
        if name != classes[2]:
            kinds.append("keepalive=False")
        if queued:
            kinds += [x + ("" if not x else ", ") + "workers=2"
                      for x in list(kinds)]
        for args in kinds:
            for ans in A:
                it, outs = drive(args, [
                    "send0", "send1", "run()", "send2", "run()",
                    "await t.close(timeout=timeout)", "return 1"],
                    answers=ans)
                judge(outs, 3)
            it, outs = drive(args, ["send0", "run()", "await t.close()",
                                    "return 1"], late=(1, 2)
                             if not queued else (), answers=("error",))
            judge(outs, 1)
            # too late, and closing twice
            it, outs = drive(args, [
                "send0", "run()", "await t.close()", "send1", "run()",
                "await t.close()", "return 1"])
            judge(outs, 2, dropped=1)
            it, outs = drive(args, ["await t.close()", "return 1"])
            judge(outs, 0)
            # from another thread
            it, outs = drive(args, [
                "who(1)", "send0", "send1", "who()", "run()",
                "await t.close()", "return 1"])
            judge(outs, 2)
            # closing ends early
            for cut in (LATE, CANCEL):
                it, outs = drive(args, [
                    "send0", "send1", "run()",
                    "await t.close(timeout=timeout)", "return 1"], ending=cut)
                judge(outs, 2, ends=False)
        if queued:
            # the queue is full
            it, outs = drive("qsize=2", [
                "send0", "send1", "send2", "run()", "await t.close()",
                "return 1"])
            judge(outs, 3, dropped=2)
        opts = "verify_ssl=d0, timeout=d1, family=d2"
        names = {"verify_ssl": 0, "family": 2}
        if name == classes[2]:
            opts += ", dns_cache_ttl=d3, connection_limit=url, " \
                "connection_limit_host=head, dns_cache=timeout"
            names.update(ttl_dns_cache=3, limit=URL, limit_per_host=HEAD,
                         use_dns_cache=T)
        it, outs = drive(opts, ["send0", "run()", "await t.close()",
                                "return 1"])
        judge(outs, 1, timeout=DATA[1])
        for k, v, s in outs:
            for x, kw in s.mon.conn:
                kw = dict(kw)
                kw.setdefault("verify_ssl", kw.get("ssl"))
                for a, w in names.items():
                    if kw.get(a) != (DATA[w] if isinstance(w, int) else w):
                        bad[name, "options"] = "%s: connections are not " \
                            "made with the configured %s" % (name, a)
        if not queued:
            # a cancelled request does not keep others from ending
            it, outs = drive("", ["send0", "send1", "send2", "run()",
                                  "await t.close()", "return 1"],
                             answers=("cancel",))
            for k, v, s in outs:
                if k != "v" or len(s.mon.calls) != 2:
                    bad[name, "once"] = "%s: a cancelled request keeps " \
                        "others from ending" % name
            # the error of a cancelled request is not swallowed
            r = Sentry(ctx, answers=("cancel",))
            it, outs = harness(
                ctx, r, "async def driver(cls, url, head, d, ok, fail):\n"
                "    t = cls()\n"
                "    await t._do_send(url, d, head, ok, fail)\n",
                cls=("cls", c.cid), url=URL, head=HEAD, d=DATA[0],
                ok=("partial", OK, (DATA[0],), ()),
                fail=("partial", FAIL, (DATA[0],), ())) if c.find_method(
                    "_do_send") else (None, [])
            for k, v, s in outs:
                if s.mon.posts and (k != "raise" or not is_cancel(v)):
                    bad[name, "cancel"] = "a cancelled request goes on"
    for name in classes:
        c = ctx.p.cls(MOD + name)
        for x in ("once", "outcome", "sent", "released", "session", "close",
                  "cancel", "thread", "options"):
            ctx.require(RU, name + " " + x, (name, x) not in bad,
                        name + ":" + x, c.find_method("_close").loc(),
                        bad.get((name, x), ""))


DSN = ("obj", ("dsn",), "label")
LEVEL = ("obj", ("level",), "label")
FILTERS = [("obj", ("filter", i), "user") for i in range(2)]
OPTIONS = ("obj", ("options",), "user")
CLIENT = ("obj", ("client",), "external")
ROOT = ("obj", ("root logger",), "external")
HANDLERS = ("obj", ("root handlers",), "external")
HANDLER = ("obj", ("sentry handler",), "external")
REMOTE = ("obj", ("remote",), "external")
CLOSED = ("exc", "OSError", True, "close")


class Sender(Plain):
    """Mon.log: what was done to the client, its handler and the loggers;
    Mon.cur: the transport the client uses."""
    distinct_ext = True
    log_calls = True
    fails = False

    def initial(self):
        return Mon(log=(), cur="real")

    def add(self, st, *x):
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def inline(self, it, func, ev, st):
        return True

    def on_attr(self, it, base, name, st):
        if base[0] == "obj" and base[1] == ("service",):
            return {"sentry_dsn": st.get(("H", base, name)) or DSN,
                    "min_level": LEVEL,
                    "filters": ("tuple", tuple(FILTERS)),
                    "client_options": OPTIONS}.get(name)
        if base == CLIENT and name == "remote":
            return REMOTE
        if base == ROOT and name == "handlers":
            return HANDLERS
        return None

    def on_call(self, it, ev, st):
        n, r = ev.name, ev.recv
        if ev.kind == "await":
            return None
        if is_ext(ev, "raven.Client"):
            return [("v", CLIENT, self.add(
                st, "client", tuple(ev.args), tuple(sorted(ev.kw.items()))))]
        if is_ext(ev, "raven.handlers.logging.SentryHandler"):
            return [("v", HANDLER, self.add(
                st, "handler", tuple(ev.args), tuple(sorted(
                    ev.kw.items()))))]
        if is_ext(ev, "logging.getLogger"):
            if not ev.args and not ev.kw or ev.args == [NONE]:
                return [("v", ROOT, st)]
            return [("v", ("obj", ("a logger",), "external"), st)]
        if is_ext(ev, "yarl.URL", "str", "repr") and ev.args:
            return [("v", ev.args[0], st)]
        if r == DSN and n in ("with_password", "with_user"):
            return [("v", ("obj", ("half", n), "label"), st)]
        if r is not None and r[0] == "obj" and r[1][:1] == ("half",):
            if n in ("with_password", "with_user") and n != r[1][1]:
                return [("v", ("obj", ("public dsn",), "label"), st)]
            return [("v", r, st)]
        if ev.kind == "call" and r == REMOTE and n == "get_transport":
            return [("v", ("obj", ("transport", st.mon.cur), "external"),
                     self.add(st, "get", st.mon.cur))]
        if ev.kind == "call" and r == CLIENT and n == "set_dsn":
            a = list(ev.args) + [NONE, NONE]
            tr = ev.kw.get("transport", a[1])
            st = self.add(st, "dsn", a[0], tr)
            return [("v", NONE, st.with_mon(st.mon.set(cur="dummy")))]
        if ev.kind == "call" and r is not None and r[0] == "obj" and \
                r[1][:1] == ("transport",) and n == "close":
            return [("v", ("aw", "$closed", (r,), ()), self.add(
                st, "closing", r[1][1]))]
        if ev.kind == "call" and r == HANDLER:
            if n in ("setLevel", "addFilter") and ev.args:
                return [("v", NONE, self.add(st, n, ev.args[0]))]
            return [("v", NONE, st)]
        if ev.kind == "call" and (
                (r, n) in ((HANDLERS, "append"), (ROOT, "addHandler"))
                or r == HANDLERS and n == "insert"):
            return [("v", NONE, self.add(st, "attached", ev.args[-1]))]
        if ev.kind == "call" and r == ROOT and n == "removeHandler":
            return [("v", NONE, self.add(st, "detached", ev.args[-1]))]
        if ev.kind == "call" and n in (
                "debug", "info", "warning", "error", "critical", "log",
                "exception") and not isinstance(ev.extra, FuncInfo):
            if any(mentions(x, DSN) or mentions(x, ("half", "with_user"))
                   for x in ev.args):
                st = self.add(st, "secret")
            return [("v", NONE, st)]
        return None

    def on_await(self, it, ev, st):
        w = unwrap_aw(ev.value)
        if w[0] == "aw" and w[1] == "$closed":
            if self.fails:
                return [("raise", CLOSED, st)]
            return [("v", NONE, self.add(st, "closed", w[2][0][1][1]))]
        return None


def sender(ctx):
    RU = "sentry-sender"
    ctx.rule(RU, "start() makes the client for the configured DSN with an "
             "asynchronous transport and attaches its handler, with the "
             "configured level and filters, to the root logger; stop() "
             "closes the transport that was in use, and no other; the "
             "password is not logged")
    bad = {}
    c = ctx.p.cls(MOD + "RavenSender")
    SELF = ("obj", ("service",), c.cid)
    base = ctx.p.cls(MOD + "AioHttpTransportBase")

    def run(src, **kw):
        r = Sender(ctx)
        for k, v in kw.items():
            setattr(r, k, v)
        it, outs = harness(ctx, r, src, svc=SELF)
        return it, [(k, v, s) for k, v, s in outs]

    it, outs = run("async def driver(svc):\n    await svc.start()\n")
    if not outs:
        bad["start"] = "start() never ends"
    for k, v, s in outs:
        lg = s.mon.log
        if k != "v":
            bad["start"] = "start() fails (%s)" % (v[1],)
            continue
        mk = [x for x in lg if x[0] == "client"]
        if len(mk) != 1 or mk[0][1][:1] != (DSN,) and dict(
                mk[0][2]).get("dsn") != DSN:
            bad["start"] = "there is not one client for the configured DSN"
        else:
            kw = dict(mk[0][2])
            t = kw.get("transport")
            t = t and ctx.p.classes.get(t[1]) if t and t[0] == "cls" else None
            if t is None or base not in t.mro():
                bad["start"] = "the client does not use the asynchronous " \
                    "transport"
            if not any(mentions(x, OPTIONS) for x in mk[0][2]) and \
                    not any(mentions(x, OPTIONS) for x in mk[0][1]):
                bad["start"] = "the options are not given to the client"
        if ("get", "real") not in lg:
            bad["start"] = "the transport is not made by start()"
        hs = [x for x in lg if x[0] == "handler"]
        if len(hs) != 1 or lg.count(("attached", HANDLER)) != 1 or \
                ("detached", HANDLER) in lg:
            bad["handler"] = "the handler is not attached to the root logger"
        for x in hs:
            kw = dict(x[2])
            if kw.get("client") != CLIENT and x[1][:1] != (CLIENT,):
                bad["handler"] = "the handler does not use the client"
            if kw.get("level") != LEVEL and ("setLevel", LEVEL) not in lg:
                bad["handler"] = "the handler does not have the level"
        if [x[1] for x in lg if x[0] == "addFilter"] != FILTERS:
            bad["handler"] = "the handler does not have the filters"
        if ("secret",) in lg:
            bad["secret"] = "the password of the DSN is logged"
    for fails in (False, True):
        it, outs = run(
            "async def driver(svc):\n    await svc.start()\n"
            "    await svc.stop()\n", fails=fails)
        if not outs:
            bad["stop"] = "stop() never ends"
        for k, v, s in outs:
            lg = s.mon.log
            if (k != "v") != fails:
                bad["stop"] = "stop() %s" % (
                    "hides that closing failed" if fails else "fails")
            if [x for x in lg if x[0] == "closing"] != [("closing", "real")]:
                bad["stop"] = "stop() does not close the transport in use"
            if not fails and ("closed", "real") not in lg:
                bad["stop"] = "stop() does not wait for the transport"
            if not [x for x in lg if x[0] == "dsn" and x[1] == const("")
                    and x[2][0] == "cls" and base not in
                    ctx.p.classes[x[2][1]].mro()]:
                bad["stop"] = "the stopped client still sends"
            if ("secret",) in lg:
                bad["secret"] = "the password of the DSN is logged"
    for x in ("start", "handler", "stop", "secret"):
        f = c.find_method("stop" if x == "stop" else "start")
        ctx.require(RU, "RavenSender " + x, x not in bad, "sender:" + x,
                    f.loc(), bad.get(x, ""))
