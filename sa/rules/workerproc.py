"""The worker processes: requests, responses, framing, supervision."""
from .lib import *

FN = ("sym", "fn", None)
RES = ("sym", "result", None)
KEY = ("exc", "KeyError", False, "user")
UCONN = ("exc", "ConnectionError", True, "user")
BASE = ("exc", "KeyboardInterrupt", True, "user")
RESET = ("exc", "ConnectionResetError", True, "ipc")
PIPE = ("exc", "BrokenPipeError", True, "ipc")
PICKLE = ("exc", "pickle.PicklingError", True, "pickle")
ADDR = ("sym", "address", None)
COOKIE = const(b"cookie")
WID = const(b"w1")
KWARGS = ("obj", ("kw",), "dict")
STOP = ("exc", "SystemError", True, "enough")


def pt(name):
    return ("const", "enum:aiomisc_worker.PacketTypes", name)


class Proc(Plain):
    """Mon.req: what happened to the current request."""
    skip = ("receive", "send", "basic_config")
    auth = "AUTH_OK"
    fold = 4

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}
        self.ends = set()

    def initial(self):
        return Mon(auth=0, n=0, req=None, fate=None, resp=(), tried=0,
                   err=None, hello=None)

    def close_request(self, st, where):
        m = st.mon
        if m.fate is None:
            return
        good = [x for x in m.resp if x[2]]
        tried = list(m.resp)
        if not tried:
            self.bad["no-response"] = "a request gets no response (%s, %s)" \
                % (m.fate, where)
        if len(good) > 1:
            self.bad["two-responses"] = "a request gets two responses"
        if not good and m.err is None:
            self.bad["no-response"] = "a request gets no response after " \
                "the first one could not be sent (%s)" % where
        for t, v, ok in good[:1]:
            first = m.resp[0][2]
            want = {"V": ("RESULT", RES), "K": ("EXCEPTION", KEY),
                    "U": ("EXCEPTION", UCONN)}.get(m.fate)
            if m.fate == "C":
                if t not in ("CANCELLED", "EXCEPTION"):
                    self.bad["wrong-response"] = "a cancelled request is " \
                        "answered with " + t
            elif first and want is not None and (t, v) != want:
                self.bad["wrong-response"] = "the response to a request " \
                    "that %s is %s" % ({"V": "returned"}.get(
                        m.fate, "failed"), t)
            elif not first and t != "EXCEPTION":
                self.bad["wrong-response"] = "an answer that cannot be " \
                    "sent is not reported as an exception"

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind != "call":
            return None
        if is_ext(ev, "hmac.HMAC", "hmac.new", "hmac.digest"):
            a = list(ev.args)
            key = ev.kw.get("key", a[0] if a else NONE)
            msg = ev.kw.get("msg", a[1] if len(a) > 1 else NONE)
            d = const("good" if key == COOKIE and msg == WID else "bad")
            return [("v", d if ev.name == "hmac.digest" else
                     ("obj", ("hmac", d[2]), None), st)]
        if is_method(ev, "digest") and ev.recv[0] == "obj" and \
                ev.recv[1][0] == "hmac":
            return [("v", const(ev.recv[1][1]), st)]
        if is_ext(ev, "os.getpid"):
            return [("v", const(77), st)]
        if ev.name == "receive":
            if not m.auth:
                if m.hello is None:
                    self.bad["no-hello"] = "the worker waits before it " \
                        "introduced itself"
                return [("v", pt(self.auth), st.with_mon(m.set(auth=1))),
                        ("raise", RESET, st.with_mon(m.set(err="conn")))]
            if self.auth != "AUTH_OK":
                self.bad["works"] = "the worker goes on although it was " \
                    "not accepted"
                return []
            if m.err == "conn":
                self.bad["dead"] = "the worker goes on with a broken " \
                    "connection"
                return []
            self.close_request(st, "next request")
            if m.fate is not None:
                self.ends.add((m.fate, bool(m.resp and m.resp[0][2])))
            if m.n >= 2:
                return [("raise", RESET, st.with_mon(m.set(
                    err="conn", fate=None)))]
            return [("v", ("tuple", (pt("REQUEST"), FN, (
                "tuple", (const(5),)), KWARGS)),
                st.with_mon(m.set(n=m.n + 1, fate=None, resp=(), err=None))),
                ("raise", RESET, st.with_mon(m.set(err="conn", fate=None)))]
        if ev.callee == FN:
            if not mentions(tuple(ev.kw.items()), KWARGS):
                self.bad["args"] = "the function is not called with its " \
                    "keyword arguments"
            if tuple(ev.args)[:1] == (const(5),) or ev.args and \
                    ev.args[0] == ("star", ("tuple", (const(5),))):
                self.seen.add("args")
            out = []
            for k, v, f in (("v", RES, "V"), ("raise", KEY, "K"),
                            ("raise", UCONN, "U"), ("raise", CANCEL, "C"),
                            ("raise", BASE, "B")):
                out.append((k, v, st.with_mon(m.set(fate=f))))
            return out
        if ev.name == "send":
            x = ev.args[0]
            if not m.auth:
                self.hello(x)
                return [("v", NONE, st.with_mon(m.set(hello=x)))]
            if x[0] != "tuple" or x[1][0][0] != "const":
                self.bad["wrong-response"] = "a response of unknown form"
                return [("v", NONE, st)]
            t, v = x[1][0][2], x[1][1]
            if len(m.resp) > 3:
                return []
            out = [
                ("v", NONE, st.with_mon(m.set(
                    resp=m.resp + ((t, v, True),)))),
                ("raise", PIPE, st.with_mon(m.set(
                    resp=m.resp + ((t, v, False),), err="conn"))),
            ]
            if not (m.resp and not m.resp[-1][2]):
                out.append(("raise", PICKLE, st.with_mon(m.set(
                    resp=m.resp + ((t, v, False),)))))
            return out
        return None

    def hello(self, x):
        want = (pt("AUTH"), WID, const("good"), const(77))
        if x != ("tuple", want):
            self.bad["hello"] = "the worker does not introduce itself with " \
                "its id and the HMAC of it"


class Failed(Proc):
    """Telling the pool that the initializer failed."""

    def on_call(self, it, ev, st):
        if ev.kind == "call" and ev.name == "send" and ev.args:
            return [("v", NONE, st.with_mon(st.mon.set(
                resp=st.mon.resp + (ev.args[0],))))]
        return super().on_call(it, ev, st)


def failure(ctx, bad):
    f = ctx.p.func("aiomisc_worker.worker.bad_initializer")
    r = Failed(ctx)
    it, outs = harness(
        ctx, r, "def driver(w, addr, cookie, wid, exc):\n"
        "    return w(addr, cookie, wid, exc)\n", w=("func", f.fid, None),
        addr=ADDR, cookie=COOKIE, wid=WID, exc=KEY)
    want = (("tuple", (pt("BAD_INITIALIZER"), WID, const("good"),
                       const(77))), ("tuple", (pt("EXCEPTION"), KEY)))
    if not any(s.mon.resp == want for k, v, s in outs) or any(
            k == "v" and s.mon.resp != want for k, v, s in outs):
        bad["initializer"] = "the failure of the initializer is not " \
            "reported with its exception"
    # how the interrupting signal is handled
    m = ctx.p.modules["aiomisc_worker.worker"]
    hs = []
    for mod in (m, ctx.p.modules["aiomisc_worker"]):
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and (
                    ctx.p.dotted(n.func) or "").rpartition(".")[2] in (
                    "signal", "sigaction") and len(n.args) == 2:
                hs.append((ctx.p.dotted(n.args[0]), n.args[1]))
    if not any((a or "").rpartition(".")[2] == "SIGNAL" for a, b in hs):
        bad["interrupted"] = "a worker does not handle the signal that " \
            "cancels its task"
    for a, b in hs:
        if (a or "").rpartition(".")[2] != "SIGNAL" or not isinstance(
                b, ast.Name):
            continue
        r = ctx.p.symbol(m, b.id)
        if r and r[0] == "func":
            it, outs = harness(
                ctx, Failed(ctx), "def driver(f, x):\n    return f(12, x)\n",
                f=("func", r[1].fid, None), x=("sym", "frame", None))
            if any(k != "raise" or not is_cancel(v) for k, v, s in outs):
                bad["interrupted"] = "the signal of a cancelled caller " \
                    "does not cancel the task"


def worker(ctx):
    R = "worker-loop"
    ctx.rule(R, "a worker process introduces itself with its id and HMAC, "
             "works only after AUTH_OK, answers every request exactly once - "
             "result, exception of any kind, cancellation, answer that "
             "cannot be serialized - and takes the next one; only a broken "
             "connection or a BaseException of the function ends it")
    f = ctx.p.func("aiomisc_worker.worker.worker")
    src = ("def driver(w, addr, cookie, wid):\n"
           "    return w(addr, cookie, wid)\n")
    r = Proc(ctx)
    env = dict(w=("func", f.fid, None), addr=ADDR, cookie=COOKIE, wid=WID)
    it, outs = harness(ctx, r, src, **env)
    bad = r.bad
    for k, v, s in outs:
        m = s.mon
        if k == "v" and m.err != "conn":
            bad["ends"] = "the worker ends although its connection is alive"
        if k == "raise" and m.fate != "B" and not (
                m.err is None and m.resp and not m.resp[-1][2]):
            if m.err == "conn":
                bad["conn-error"] = "a broken connection is not a normal " \
                    "end of a worker (%s)" % v[1]
            else:
                bad["ends"] = "%s ends the worker" % v[1]
    for want in (("V", True), ("K", True), ("U", True), ("C", True),
                 ("V", False)):
        if want not in r.ends:
            bad["ends"] = "no further request is taken after a function " \
                "that %s" % {"V": "returned", "K": "raised", "C": "was "
                             "cancelled", "U": "raised ConnectionError"}[
                                 want[0]]
    if "args" not in r.seen:
        bad["args"] = "the function is not called with its arguments"
    for other in ("AUTH_FAIL", "BAD_PACKET", "AUTH", "RESULT"):
        r2 = Proc(ctx)
        r2.auth = other
        it, outs = harness(ctx, r2, src, **env)
        bad.update(r2.bad)
    failure(ctx, bad)
    for x in sorted({"no-response", "two-responses", "wrong-response",
                     "hello", "no-hello", "works", "dead", "ends",
                     "conn-error", "args", "initializer", "interrupted"}
                    | set(bad)):
        ctx.require(R, x, x not in bad, "worker:" + x, f.loc(),
                    bad.get(x, ""))


CHUNK = ("sym", "chunk", "bytes")


DATA = b"0123456789"


class Frame(Plain):
    """A stream of known bytes: Mon.got of them were taken."""
    fold = 12
    max_heads = 2000
    buffers = True
    fresh_new = True

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}

    def initial(self):
        return Mon(got=0, ended=False)

    def on_call(self, it, ev, st):
        m = st.mon
        if is_method(ev, "recv_into", "makefile", "recvfrom"):
            return []           # not decided here
        if not is_method(ev, "recv"):
            return None
        n = ev.args[0] if ev.args else NONE
        if n[0] != "const" or not isinstance(n[2], int):
            return []           # not decided here
        left = self.size - m.got
        if m.ended:
            self.bad["eof"] = "reads on after the end of the connection"
            return []
        if n[2] > left or left <= 0:
            self.bad["overread"] = "more bytes are taken from the stream " \
                "than the packet has"
            return []
        out = [("v", const(b""), st.with_mon(m.set(ended=True)))]
        for i in range(1, n[2] + 1):
            out.append(("v", const(DATA[m.got:m.got + i]), st.with_mon(
                m.set(got=m.got + i))))
        return out


def reading(ctx, bad):
    c = ctx.p.cls("aiomisc_worker.protocol.SocketIOProtocol")
    src = ("def driver(cls, sock):\n"
           "    return cls(sock)._read(%d)\n")
    for size in (1, 3, 4):
        r = Frame(ctx)
        r.size = size
        it, outs = harness(ctx, r, src % size, cls=("cls", c.cid),
                           sock=("sym", "sock", "socket.socket"))
        for k, v, s in outs:
            m = s.mon
            if k == "v" and m.ended:
                bad["eof"] = "the end of the connection in the middle of a " \
                    "packet is not noticed"
            elif k == "v" and v[0] == "const" and v[2] != DATA[:size]:
                bad["short-read"] = "%d bytes are taken for a packet of %d" \
                    % (len(v[2] or b""), size)
            elif k == "raise" and not m.ended:
                bad["short-read"] = "a partial read fails with " + v[1]
            elif k == "raise" and "Connection" not in v[1] and \
                    "EOF" not in v[1]:
                bad["eof"] = "the end of the connection is reported as " + \
                    v[1]
        bad.update(r.bad)


class Pack(Plain):
    """Packets: <length of the payload><payload>."""
    fold = 4

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}
        self.sent = []

    def initial(self):
        return Mon(reads=(), wrote=(), drained=False, part=False)

    def is_header(self, v):
        return (v[0] in ("attr", "glob") and "HEADER" in str(v)) or \
            v[0] in ("res", "obj")

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind != "call":
            return None
        if is_ext(ev, "pickle.dumps"):
            return [("v", ("op", "dumps", ev.args[0]), st)]
        if is_ext(ev, "pickle.loads"):
            return [("v", ("op", "loads", ev.args[0]), st)]
        if is_method(ev, "pack"):
            return [("v", ("op", "pack", ev.recv, tuple(ev.args)), st)]
        if is_method(ev, "unpack"):
            return [("v", ("tuple", (("op", "unpack", ev.recv, ev.args[0]),)),
                     st)]
        if is_ext(ev, "len"):
            return [("v", ("op", "len", ev.args[0]), st)]
        if is_method(ev, "read", "readexactly", "recv", "_read") or \
                ev.name == "_read":
            v = ("op", "bytes", len(m.reads), ev.args[0])
            st2 = st.with_mon(m.set(reads=m.reads + (ev.args[0],)))
            if ev.name == "readexactly":
                return [("v", ("aw", "read", (v,), (), "r"), st2)]
            if ev.name == "read" and (
                    it.typeof(ev.recv) or "").startswith("asyncio"):
                self.bad["short-read"] = "read() of a stream may return a " \
                    "part of the packet"
                return [("v", ("aw", "read", (v,), (), "r"), st2)]
            return [("v", v, st2)]
        if is_method(ev, "write", "sendall", "_write", "send",
                     "writelines") or ev.name == "_write" and \
                "_write" in self.skip:
            if ev.name == "send":
                self.bad["partial"] = "send() may write a part of the packet"
            return [("v", NONE, st.with_mon(m.set(
                wrote=m.wrote + (ev.args[0],))))]
        if is_method(ev, "drain"):
            return [("v", ("aw", "drain", (), (), "d"), st)]
        return None

    def on_await(self, it, ev, st):
        v = ev.value
        if v[0] == "aw" and v[1] == "read":
            return [("v", v[2][0], st)]
        if v[0] == "aw" and v[1] == "drain":
            return [("v", NONE, st.with_mon(st.mon.set(drained=True)))]
        return None


def flat(v):
    """Operands of a concatenation, in order."""
    if v[0] in ("bin", "op", "binop") and v[1] in ("+", "add", "Add"):
        rest = v[2:] if not isinstance(v[2], tuple) or v[2] and \
            isinstance(v[2][0], str) else v[2]
        for x in rest:
            yield from flat(x)
    elif v[0] == "obj":
        yield v
    else:
        yield v


def framing(ctx):
    R = "worker-framing"
    ctx.rule(R, "both ends of the protocol write the length of the payload, "
             "then the payload, in one piece that is written completely; "
             "they read exactly a header, then exactly as many bytes as it "
             "says; partial reads are continued and the end of the stream "
             "is an error")
    bad = {}
    payload = ("sym", "payload", None)
    hdr = set()
    for name, asyn, args in (
            ("SocketIOProtocol", False, 1), ("FileIOProtocol", False, 1),
            ("AsyncProtocol", True, 2)):
        c = ctx.p.cls("aiomisc_worker.protocol." + name)
        ch = [("a", ("sym", "reader", "asyncio.StreamReader" if asyn else (
            "socket.socket" if name[0] == "S" else "io.BufferedIOBase"))),
            ("b", ("sym", "writer", "asyncio.StreamWriter"))][:args]
        names = ", ".join(n for n, v in ch)
        aw, df = ("await ", "async def") if asyn else ("", "def")
        r = Pack(ctx)
        it, outs = harness(
            ctx, r, "%s driver(cls, x, %s):\n    p = cls(%s)\n"
            "    %sp.send(x)\n" % (df, names, names, aw),
            cls=("cls", c.cid), x=payload, **dict(ch))
        bad.update(r.bad)
        for k, v, s in outs:
            ps = [y for w in s.mon.wrote for y in pieces(it, w, s)]
            data = ("op", "dumps", payload)
            if len(ps) != 2 or ps[1] != data or ps[0][:2] != (
                    "op", "pack") or ps[0][3] != (("op", "len", data),):
                bad["send"] = "%s.send() does not write the length of the " \
                    "pickled payload and the payload" % name
            else:
                hdr.add(ps[0][2])
        r = Pack(ctx)
        r.skip = ("_read",) if name == "SocketIOProtocol" else ()
        it, outs = harness(
            ctx, r, "%s driver(cls, %s):\n    p = cls(%s)\n"
            "    return %sp.receive()\n" % (df, names, names, aw),
            cls=("cls", c.cid), **dict(ch))
        bad.update(r.bad)
        for k, v, s in outs:
            rs = s.mon.reads
            okay = (
                k == "v" and len(rs) == 2 and v[:2] == ("op", "loads")
                and v[2] == ("op", "bytes", 1, rs[1])
                and rs[1][:2] == ("op", "unpack")
                and rs[1][3] == ("op", "bytes", 0, rs[0])
                and rs[0][0] == "attr" and rs[0][2] == "size"
                and rs[0][1] == rs[1][2])
            if not okay:
                bad["receive"] = "%s.receive() does not read one header " \
                    "and then exactly the payload" % name
            else:
                hdr.add(rs[1][2])
    reading(ctx, bad)
    forms = set()
    for h in hdr:
        forms.add(struct_format(ctx, h))
    if len(forms) > 1:
        bad["header"] = "the ends of the protocol use different headers"
    for n in ast.walk(ctx.p.modules["aiomisc_worker.protocol"].tree):
        if isinstance(n, ast.Call) and (ctx.p.dotted(n.func) or "").rpartition(
                ".")[2] == "Struct" and n.args and isinstance(
                    n.args[0], ast.Constant):
            import struct
            if struct.calcsize(n.args[0].value) < 4:
                bad["header"] = "packets of more than 64 kB do not fit " \
                    "their header"
    for x in sorted({"send", "receive", "partial", "short-read", "overread",
                     "eof", "header"} | set(bad)):
        c = ctx.p.cls("aiomisc_worker.protocol.SocketIOProtocol")
        ctx.require(R, x, x not in bad, "protocol:" + x,
                    c.find_method("send").loc(),
                    bad.get(x, ""))


def struct_format(ctx, h):
    """The class attribute a header struct comes from, resolved."""
    if h[0] == "glob":
        cid, name = h[1], h[2]
        for _ in range(4):
            try:
                c = ctx.p.cls(cid)
            except Exception:
                return h
            for b in c.node.body:
                tg = b.targets[0] if isinstance(b, ast.Assign) else (
                    b.target if isinstance(b, ast.AnnAssign) else None)
                if isinstance(tg, ast.Name) and tg.id == name:
                    v = b.value
                    if isinstance(v, ast.Attribute) and isinstance(
                            v.value, ast.Name):
                        r = ctx.p.symbol(c.module, v.value.id)
                        if r and r[0] == "class":
                            cid, name = r[1].cid, v.attr
                            break
                    return ast.dump(v)
            else:
                return h
    return h


def pieces(it, w, s):
    ps = s.get(("H", w, "$parts")) if w[0] == "obj" else None
    if ps:
        out = []
        for p in ps:
            out += pieces(it, p, s)
        return out
    return list(flat(w))


IDS = ("tuple", (const(b"w1"), const(b"w2")))
MARK = ("sym", "mark", None)
INIT = ("sym", "initializer", None)


class Super(Plain):
    """The supervisor: fork() returns twice, wait() reports a death.

    Mon.alive: processes which run; Mon.hist: the deaths reported so far;
    Mon.hooks: what runs when the process exits; Mon.killed: signalled."""
    skip = ("receive", "send", "basic_config", "bad_initializer", "worker")
    fold = 6
    exact_lists = True
    fresh_new = True
    module_state = ("aiomisc_worker.forking",)
    init = NONE

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}
        self.ids = {}

    def initial(self):
        return Mon(n=0, pid=100, alive=(), child=None, hist=(), dead=None,
                   told=False, ran=None, hooks=(), killed=(), after=0,
                   end=False)

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind != "call":
            return None
        if ev.callee == MARK:
            # the process exits
            st = st.with_mon(m.set(end=True))
            outs = [("v", NONE, st)]
            for h in reversed(m.hooks):
                nx = []
                for o in outs:
                    nx += it.call_value(h, [], o[2]) if o[0] == "v" else [o]
                outs = nx
            return outs
        if is_ext(ev, "atexit.register") and ev.args:
            return [("v", ev.args[0], st.with_mon(m.set(
                hooks=m.hooks + (ev.args[0],))))]
        if is_ext(ev, "os.kill"):
            return [("v", NONE, st.with_mon(m.set(
                killed=m.killed + (ev.args[0],)))),
                ("raise", ("exc", "ProcessLookupError", True, "gone"),
                 st.with_mon(m.set(killed=m.killed + (ev.args[0],))))]
        if ev.name == "receive":
            xs = (("tuple", (const(10), const("plain"))), ADDR, COOKIE, IDS,
                  ("tuple", (self.init, ("tuple", ()),
                             ("obj", ("kw",), "dict"))))
            if m.n >= len(xs):
                return []
            return [("v", xs[m.n], st.with_mon(m.set(n=m.n + 1)))]
        if ev.callee == INIT:
            return [("v", RES, st), ("raise", KEY, st.with_mon(
                m.set(dead="init"))), ("raise", BASE, st.with_mon(
                    m.set(dead="init")))]
        if ev.name == "bad_initializer":
            return [("v", NONE, st.with_mon(m.set(told=True)))]
        if is_ext(ev, "os.fork"):
            if m.dead == "init":
                self.bad["init"] = "workers are started although the " \
                    "initializer failed"
            if m.child:
                self.bad["fork-bomb"] = "a worker process starts workers"
                return []
            n = m.set(pid=m.pid + 1, after=m.after + 1)
            return [("v", const(m.pid), st.with_mon(n.set(
                        alive=m.alive + (m.pid,)))),
                    ("v", const(0), st.with_mon(n.set(child=m.pid)))]
        if ev.name == "worker" and ev.extra not in ("ext", "method"):
            self.seen.add("worker")
            if not m.child:
                self.bad["parent-works"] = "the supervisor runs the worker " \
                    "itself"
            a = bound(ev)
            if tuple(a[:2]) != (ADDR, COOKIE):
                self.bad["args"] = "a worker gets a wrong address or cookie"
            self.ids.setdefault((m.hist, m.child), set()).add(
                a[2] if len(a) > 2 else None)
            return [("v", NONE, st.with_mon(m.set(ran=True))),
                    ("raise", KEY, st.with_mon(m.set(ran=True)))]
        if is_method(ev, "is_set"):
            return [("v", FALSE, st), ("v", TRUE, st)]
        if is_ext(ev, "os.wait", "os.waitpid"):
            if m.child:
                self.bad["child-supervises"] = "a worker process goes on " \
                    "as a supervisor"
                return []
            self.check(m)
            out = [("raise", BASE, st.with_mon(m.set(dead="stop")))]
            if len(m.hist) >= 2:
                return out
            for p in m.alive[:1] + m.alive[-1:] + (999,):
                for x in (0, 1):
                    out.append(("v", ("tuple", (const(p), const(x))),
                                st.with_mon(m.set(
                                    hist=m.hist + ((p, x),), after=0,
                                    dead=x if p != 999 else "unknown",
                                    alive=tuple(q for q in m.alive
                                                if q != p)))))
            return out
        if is_ext(ev, "exit", "sys.exit", "os._exit"):
            return [("raise", ("exc", "SystemExit", True, "exit"), st)]
        return None

    def check(self, m):
        if not m.hist and m.after != 2:
            self.bad["started"] = "not every worker is started"
        if m.hist and m.dead == 1 and m.after != 1:
            self.bad["not-replaced"] = "a worker that died is not replaced"
        if m.hist and m.dead == 0 and m.after:
            self.bad["replaced"] = "a worker that ended normally is replaced"
        if m.hist and m.dead == "unknown" and m.after:
            self.bad["unknown"] = "a process that is no worker is replaced"
        if m.hist and m.dead == 1:
            self.seen.add("replaced")

    def born(self, hist, pid):
        """The id of the process with this number, or None."""
        for i in range(len(hist) + 1):
            ids = self.ids.get((hist[:i], pid))
            if ids:
                return ids
        return None


def supervisor(ctx):
    R = "worker-supervisor"
    ctx.rule(R, "the supervisor starts one process per worker id, replaces "
             "one that died with the same id, does not replace one that "
             "ended normally, reports a failing initializer and starts "
             "nothing then, ends when interrupted and then terminates the "
             "processes which still run; a worker process never returns "
             "into the supervisor and terminates no other one")
    f = ctx.p.func("aiomisc_worker.forking.main")
    bad = {}
    for init in (NONE, INIT):
        r = Super(ctx)
        r.init = init
        it, outs = harness(ctx, r, "def driver(main, mark):\n"
                           "    try:\n"
                           "        return main()\n"
                           "    finally:\n"
                           "        mark()\n",
                           main=("func", f.fid, None), mark=MARK)
        bad.update(r.bad)
        for k, v, s in outs:
            m = s.mon
            if m.child and not m.ran:
                bad["idle"] = "a worker process does not work"
            if m.child and k == "v":
                bad["child-supervises"] = "a worker process returns into " \
                    "the supervisor"
            if m.dead == "init" and not m.told:
                bad["init"] = "a failing initializer is not reported to " \
                    "the pool"
            if k == "raise" and v[1] == "KeyboardInterrupt" and not m.child:
                bad["interrupt"] = "an interrupted supervisor fails"
            if m.child and m.killed:
                bad["siblings"] = "a worker process terminates others when " \
                    "it ends"
            if not m.child and {const(p) for p, x in m.hist} & set(
                    m.killed):
                bad["stale"] = "the number of a process that ended long " \
                    "ago is signalled"
            if not m.child and {const(x) for x in m.alive} - set(m.killed):
                bad["orphans"] = "a worker process outlives the supervisor"
        if "worker" not in r.seen or "replaced" not in r.seen:
            bad["incomplete"] = "no path starts or replaces a worker"
        if {x for p in (100, 101) for x in r.ids.get(((), p), ())} != {
                const(b"w1"), const(b"w2")}:
            bad["ids"] = "the workers do not get the ids of the pool"
        for (hist, pid), ids in r.ids.items():
            if hist and hist[-1][1] == 1 and pid > 101:
                old = r.born(hist[:-1], hist[-1][0])
                if old and ids != old:
                    bad["ids"] = "a replacement does not get the id of the " \
                        "worker that died"
    for x in sorted({"started", "not-replaced", "replaced", "init", "ids",
                     "child-supervises", "fork-bomb", "parent-works", "idle",
                     "args", "interrupt", "incomplete", "unknown",
                     "siblings", "orphans", "stale"} | set(bad)):
        ctx.require(R, x, x not in bad, "supervisor:" + x, f.loc(),
                    bad.get(x, ""))
