"""The systemd watchdog service."""
from .lib import *

MOD = "aiomisc.service.sdwatchdog"
LOOP = ("obj", ("loop",), "asyncio.AbstractEventLoop")
SOCK = ("obj", ("sock",), "socket.socket")
OTHER = ("obj", ("other",), "user")
X = ("obj", ("x",), "float")
SENDERR = ("exc", "OSError", True, "send")
TIMER = "aiomisc.periodic.PeriodicCallback"


class Watch(Plain):
    """Mon.log: what was sent and done, in order; Mon.thread: in a thread."""
    exact_lists = True
    max_depth = 16
    addr = const("/run/x")
    send_fails = False
    gather_aw = True

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(log=(), thread=False, socks=0)

    def add(self, st, *x):
        if st.mon.log[-1:] == (x,):
            return st
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def on_call(self, it, ev, st):
        n = ev.name
        if ev.kind == "new" and ev.extra.name == "PeriodicCallback":
            return [("v", ("obj", ("timer",), ev.extra.cid), self.add(
                st, "timer", tuple(ev.args)))]
        if ev.kind != "call":
            return None
        if ev.recv is not None and ev.recv == ("obj", ("timer",), TIMER):
            quiet = kwarg(ev, "return_exceptions", 0) == TRUE
            return [("v", ("aw", "tstop", (quiet,), (), None) if n == "stop"
                     else NONE, st if n == "stop" else self.add(
                         st, "t" + n, tuple(ev.args)))]
        if is_ext(ev, "os.getenv", "os.environ.get"):
            return [("v", self.addr if ev.args[0] == const("NOTIFY_SOCKET")
                     else const("2500000") if ev.args[0] == const(
                         "WATCHDOG_USEC") else NONE, st)]
        if ev.extra == "opaque" and "get_current_loop" in str(ev.callee) or \
                n == "get_current_loop" or is_ext(
                ev, "asyncio.get_running_loop", "asyncio.get_event_loop"):
            return [("v", LOOP, st)]
        if is_ext(ev, "isinstance") and ev.args[0] == OTHER:
            return [("v", FALSE, st)]
        if is_ext(ev, "isinstance") and len(ev.args) == 2 and \
                ev.args[1][0] == "cls":
            c = it.classinfo(ev.args[0])
            if c is not None:
                return [("v", TRUE if ev.args[1][1] in [
                    m.cid for m in c.mro() if hasattr(m, "cid")]
                    else FALSE, st)]
        if is_ext(ev, "hasattr") and ev.args[1] == const("socket"):
            v = st.get(("H", ev.args[0], "socket"))
            return [("v", FALSE if v is None or v[0] == "unbound" else TRUE,
                     st)]
        if is_ext(ev, "socket.socket"):
            i = st.mon.socks
            return [("v", ("obj", ("sock", i) if i else ("sock",),
                           "socket.socket"),
                     self.add(st.with_mon(st.mon.set(socks=i + 1)), "new"))]
        if ev.recv is not None and ev.recv[0] == "obj" and \
                ev.recv[1][:1] == ("sock",):
            return [("v", NONE, self.add(st, n, tuple(ev.args),
                                         st.mon.thread, ev.recv))]
        if n == "sock_sendall":
            return [("v", ("aw", "sent", tuple(ev.args), (), None), st)]
        if n == "encode" and ev.recv is not None:
            return [("v", ev.recv, st)]
        if n in ("run_in_executor",) and ev.recv is not None:
            return [("v", ("aw", "thread", tuple(ev.args[1:]), (), None),
                     st)]
        return None

    def on_await(self, it, ev, st):
        w = unwrap_aw(ev.value)
        if w[0] == "aw" and w[1] == "sent":
            s = self.add(st, "send", w[2])
            out = [("v", NONE, s)]
            if self.send_fails:
                out = [("raise", SENDERR, s)]
            return out
        if w[0] == "aw" and w[1] == "tstop":
            s = self.add(st, "tstop")
            return [("v", NONE, s)] + ([] if w[2][0] else [
                ("raise", ("exc", "ValueError", True, "timer"), s)])
        if w[0] == "aw" and w[1] == "thread":
            s = st.with_mon(st.mon.set(thread=True))
            outs = run_raw(it, w, ev, s)
            return [(k, x, s.with_mon(s.mon.set(thread=False)))
                    for k, x, s in outs]
        return None


STAGES = ("pre_start", "start", "post_start", "pre_stop", "stop",
          "post_stop")


def watchdog(ctx):
    RU = "watchdog"
    ctx.rule(RU, "systemd is told about every stage of the life of the "
             "entrypoint, in order - READY only when all services started, "
             "STOPPING when it ends - and gets a sign of life twice per "
             "watchdog interval while the service runs; without a socket "
             "nothing is sent; failing notifications disturb nobody; the "
             "socket is made outside the loop's thread, does not block, and "
             "is closed in the end")
    c = ctx.p.cls(MOD + ".SDWatchdogService")
    mod = ctx.p.modules[MOD]
    bad = {}
    # which receiver is connected to which signal
    recv = {}

    class Setup(Plain):
        def on_call(self, it, ev, st):
            if ev.kind == "call" and ev.name == "connect" and \
                    ev.recv is not None and ev.args:
                r = ev.recv
                nm = r[2] if r[0] in ("attr", "glob") else None
                recv.setdefault(nm, set()).add(ev.args[0])
                return [("v", NONE, st)]
            return None

    fs = {f.name: f for f in ctx.p.funcs.values() if f.module is mod and
          f.cls is None and "." not in f.qualname}
    if "setup" not in fs:
        ctx.require(RU, "signals", False, "watchdog:signals",
                    c.find_method("start").loc(),
                    "there is no setup() to connect the receivers")
        return
    harness(ctx, Setup(ctx), "def driver(f):\n    f()\n",
            f=("func", fs["setup"].fid, None))
    env = {}
    for sig in ("PRE_START", "POST_START", "PRE_STOP", "POST_STOP"):
        got = recv.get(sig) or set()
        if len(got) != 1 or next(iter(got))[0] != "func":
            bad["signals"] = "%s has no receiver" % sig
        else:
            env[sig] = next(iter(got))
    if bad:
        ctx.require(RU, "signals", False, "watchdog:signals",
                    fs["setup"].loc(), bad["signals"])
        return
    ctx.require(RU, "signals", True, "", "", "")

    def life(args, body, **opt):
        r = Watch(ctx, **opt)
        it, outs = harness(
            ctx, r, "async def driver(cls, other, loop, x, PRE_START, "
            "POST_START, PRE_STOP, POST_STOP):\n    s = cls(%s)\n"
            "    ss = (other, s)\n" % args +
            "".join("    %s\n" % b for b in body), cls=("cls", c.cid),
            other=OTHER, loop=LOOP, x=X, **env)
        bad.update(r.bad)
        return outs

    full = ["await PRE_START(services=ss)", "s.set_loop(loop)",
            "await s.start()", "await POST_START(services=ss)",
            "await PRE_STOP(services=ss)", "await s.stop(None)",
            "await POST_STOP(services=ss)", "await s.send('LATE')"]

    def text(v):
        if v[0] == "const":
            return v[2]
        if v[0] == "fstr" or v[0] == "op":
            return str(v)
        return str(v)

    for fails in (False, True):
        outs = life("watchdog_interval=x", full, send_fails=fails)
        if not outs:
            bad["order"] = "the service never starts"
        for k, v, st in outs:
            log = st.mon.log
            if k != "v":
                bad["errors"] = "a failing notification is raised" if fails \
                    else "the service fails"
                continue
            names = [x[0] for x in log]
            sent = [text(x[1][1]) for x in log if x[0] == "send" and
                    len(x[1]) > 1]
            if any(x[1][0] != SOCK for x in log if x[0] == "send"):
                bad["order"] = "notifications are sent elsewhere"
            ix = {}
            for w in ("Starting", "Started", "READY=1", "Stopping",
                      "STOPPING=1", "LATE"):
                ix[w] = [i for i, x in enumerate(log) if x[0] == "send" and
                         w in text(x[1][1])]
            order = [ix[w][0] if ix[w] else -1 for w in (
                "Starting", "Started", "READY=1", "Stopping", "STOPPING=1")]
            if -1 in order or order != sorted(order) or any(
                    len(v_) > 1 for v_ in ix.values()):
                bad["order"] = "the stages are not announced in order, " \
                    "each once"
            if ix["LATE"]:
                bad["close"] = "something is sent after the end"
            if "close" not in names or names.count("close") > 1 or \
                    order[-1] > names.index("close"):
                bad["close"] = "the socket is not closed after the last " \
                    "notification"
            ts = [x for x in log if x[0] == "tstart"]
            half = ("op", "Div", X, const(2))
            if not ts:
                bad["timer"] = "the watchdog timer does not start"
            elif ts[0][1][:1] != (half,) and ts[0][1][:1] != (
                    ("op", "Mult", X, const(0.5)),):
                bad["timer"] = "the interval of the timer is not half of " \
                    "the watchdog's"
            if "tstart" in names and ("tstop" not in names or names.index(
                    "tstop") < names.index("tstart")):
                bad["timer"] = "the timer is not stopped"
            if "timer" not in names or const("WATCHDOG=1") not in log[
                    names.index("timer")][1]:
                bad["timer"] = "the timer does not send WATCHDOG=1"
            for i, x in enumerate(log):
                if x[0] in ("connect", "close") and not x[2]:
                    bad["thread"] = "the socket blocks the event loop"
            if "connect" not in names or "setblocking" not in names or \
                    log[names.index("setblocking")][1] != (FALSE,) or \
                    names.index("setblocking") > order[0] >= 0:
                bad["thread"] = "the socket blocks the event loop"
            elif log[names.index("connect")][1] != (Watch.addr,):
                bad["order"] = "notifications are sent elsewhere"
    two = [b.replace("services=ss", "services=(s, other, s2)") for b in full]
    two[0:0] = ["s2 = cls(watchdog_interval=x)"]
    two[3:3] = ["s2.set_loop(loop)", "await s2.start()"]
    two[-2:-2] = ["await s2.stop(None)"]
    for k, v, st in life("watchdog_interval=x", two):
        for w in ("Starting", "Started", "READY=1", "Stopping", "STOPPING=1"):
            to = [x[1][0] for x in st.mon.log if x[0] == "send" and
                  w in text(x[1][1])]
            if k == "v" and len(set(to)) != 2:
                bad["order"] = "of two watchdog services only one " \
                    "announces %r" % w
        if len({x[3] for x in st.mon.log if x[0] == "close"}) != 2:
            bad["close"] = "of two watchdog services only one closes its " \
                "socket"
    for k, v, st in life("watchdog_interval=2.5", full):
        for x in st.mon.log:
            if x[0] == "send" and "WATCHDOG_USEC" in text(x[1][1]) and \
                    x[1][1][0] == "const" and text(x[1][1]) not in (
                        "WATCHDOG_USEC=2500000", b"WATCHDOG_USEC=2500000"):
                bad["interval"] = "an interval of 2.5 s is announced as %s" \
                    % text(x[1][1])
    f = fs.get("_get_watchdog_interval")
    if f is not None:
        r = Watch(ctx)
        it, outs = harness(ctx, r, "def driver(f):\n    return f()\n",
                           f=("func", f.fid, None))
        for k, v, st in outs:
            if k != "v" or v[0] == "const" and v[2] is not None and abs(
                    v[2] - 2.5) > 1e-9:
                bad["interval"] = "an interval of 2500000 us is read as %s" \
                    % (v,)
    for k, v, st in life("watchdog_interval=x", full, addr=NONE):
        if k != "v" or any(x[0] in ("send", "new", "tstart")
                           for x in st.mon.log):
            bad["nosocket"] = "without a socket something is sent"
    for k, v, st in life("watchdog_interval=None", full):
        if k != "v" or any(x[0] == "tstart" for x in st.mon.log):
            bad["timer"] = "without an interval the timer starts"
        elif not any(x[0] == "send" and "READY" in text(x[1][1])
                     for x in st.mon.log):
            bad["order"] = "without an interval READY is not sent"
    for k, v, st in life("watchdog_interval=x", full,
                         addr=const("@abstract")):
        if any(x[0] == "connect" and x[1] != (const("\0abstract"),)
               for x in st.mon.log):
            bad["address"] = "an abstract socket address is not translated"
    loc = c.find_method("start").loc()
    for x in ("order", "errors", "close", "timer", "thread", "nosocket",
              "address", "interval"):
        ctx.require(RU, x, x not in bad, "watchdog:" + x, loc,
                    bad.get(x, ""))
