"""bind_socket()."""
from .lib import *

PORT = ("obj", ("port",), "int")
OPTS = tuple(("tuple", tuple(("obj", (x, i), "int") for x in "lov"))
             for i in range(2))
SOCK = ("obj", ("sock",), "socket.socket")
NAME = ("obj", ("name",), "str")


class Bind(Plain):
    """Mon.log: calls on the socket, in order."""
    exact_lists = True
    distinct_ext = True
    max_depth = 10
    family = None

    def initial(self):
        return Mon(log=())

    def add(self, st, *x):
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def on_attr(self, it, base, name, st):
        if base == SOCK and name == "family":
            for x in st.mon.log:
                if x[0] == "new" and len(x) > 1:
                    return x[1]
            return ("ext", "socket.AF_INET")
        if base == SOCK and name == "proto":
            return ("ext", "socket.IPPROTO_TCP")
        return None

    def on_call(self, it, ev, st):
        n, r = ev.name, ev.recv
        if ev.kind != "call":
            return None
        if is_ext(ev, "socket.socket"):
            a = list(ev.args) + [v for k, v in sorted(ev.kw.items())]
            return [("v", SOCK, self.add(st, "new", *a))]
        if is_ext(ev, "hasattr"):
            return [("v", TRUE, st)]
        if is_ext(ev, "getattr") and ev.args[0] == ("mod", "socket"):
            return [("v", ("ext", "socket." + const_value(ev.args[1])), st)]
        if r == SOCK and n == "getsockname":
            fam = self.on_attr(it, SOCK, "family", st)
            if "UNIX" in str(fam):
                return [("v", const("/name"), st)]
            parts = (NAME, PORT)
            if "INET6" in str(fam):
                parts += (const(0), const(0))
            return [("v", ("tuple", parts), st)]
        if r == SOCK:
            return [("v", NONE, self.add(st, n, *ev.args))]
        if is_ext(ev, "isinstance") and ev.args[1] == ("ext", "str"):
            v = ev.args[0]
            return [("v", TRUE if v[0] == "const" and v[1] == "str"
                     else FALSE, st)]
        return None


def bind(ctx):
    RU = "bind-socket"
    ctx.rule(RU, "bind_socket() makes a socket of the given or matching "
             "family, not blocking, with every option set before it is bound "
             "to the given address, and returns it")
    fn = ctx.p.func("aiomisc.utils.bind_socket")
    bad = {}
    INET, INET6, UNIX, STREAM, DGRAM = [("ext", "socket." + x) for x in (
        "AF_INET", "AF_INET6", "AF_UNIX", "SOCK_STREAM", "SOCK_DGRAM")]
    SOL, ADDR, RPORT = [("ext", "socket." + x) for x in (
        "SOL_SOCKET", "SO_REUSEADDR", "SO_REUSEPORT")]
    for args, addr, want in (
            ((), "127.0.0.1", INET), ((), "::1", INET6),
            ((INET, STREAM), "0.0.0.0", INET),
            ((INET, DGRAM), "0.0.0.0", INET),
            ((INET6, STREAM), "::", INET6), ((UNIX, STREAM), "/x", UNIX),
            ((UNIX, STREAM), "a.sock", UNIX), ((UNIX, DGRAM), "/a:b", UNIX),
            ((), "localhost", INET)):
        for ra in (TRUE, FALSE):
            for rp in (TRUE, FALSE):
                r = Bind(ctx)
                it, outs = harness(
                    ctx, r, "def driver(fn, args, addr, port, ra, rp, "
                    "opts):\n    return fn(*args, address=addr, port=port, "
                    "options=opts, reuse_addr=ra, reuse_port=rp)\n",
                    fn=("func", fn.fid, None), args=("tuple", args),
                    addr=const(addr), port=PORT, ra=ra, rp=rp,
                    opts=("tuple", OPTS))
                if not outs:
                    bad["bind"] = "no socket is made"
                for k, v, st in outs:
                    log = st.mon.log
                    if k != "v" or v != SOCK:
                        bad["bind"] = "binding fails"
                        continue
                    new = [x for x in log if x[0] == "new"]
                    if len(new) != 1 or new[0][1:2] != (want,) or (
                            args and new[0][1:] != args) or (
                            not args and new[0][2:3] != (STREAM,)):
                        bad["family"] = "the socket is of another family"
                    i = [j for j, x in enumerate(log) if x[0] == "bind"]
                    target = const(addr) if want == UNIX else (
                        "tuple", (const(addr), PORT))
                    if len(i) != 1 or log[i[0]][1] != target:
                        bad["bind"] = "the socket is not bound to the " \
                            "given address"
                        continue
                    before = log[:i[0]]
                    if ("setblocking", FALSE) not in log and not any(
                            x[0] == "settimeout" and x[1] in (
                                const(0), const(0.0)) for x in log):
                        bad["blocking"] = "the socket blocks"
                    opts = [x[1:] for x in before if x[0] == "setsockopt"]
                    if [x for x in opts if x[0][:1] == ("obj",)] != [
                            x[1] for x in OPTS]:
                        bad["options"] = "the options are not set before " \
                            "binding"

                    def is_set(o):
                        vs = [x[2] for x in opts if x[:2] == (SOL, o)]
                        return bool(vs) and vs[-1] not in (
                            const(0), FALSE) and not mentions(
                                vs[-1], FALSE)
                    if is_set(ADDR) != (ra == TRUE):
                        bad["reuse"] = "reuse_addr is not respected"
                    if is_set(RPORT) != (rp == TRUE and want != UNIX):
                        bad["reuse"] = "reuse_port is not respected"
    for x in ("bind", "family", "blocking", "options", "reuse"):
        ctx.require(RU, x, x not in bad, "bind-socket:" + x, fn.loc(),
                    bad.get(x, ""))
