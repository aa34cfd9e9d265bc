"""Asynchronous file operations (aiomisc.io)."""
from .lib import *

PATH = ("obj", ("path",), "str")
EXE = ("obj", ("executor",), "concurrent.futures.Executor")
LOOP = ("obj", ("loop",), "asyncio.AbstractEventLoop")
FP = ("obj", ("fp",), "file")
X = ("obj", ("x",), "user")
Y = ("obj", ("y",), "user")
LINE = ("obj", ("line",), "label")
SHORT = ("obj", ("blank line",), "label")
EMPTY = const("")
OSERR = ("exc", "OSError", True, "io")
OPENERS = ("open", "io.open", "builtins.open", "gzip.open", "bz2.open",
           "lzma.open")
QUICK = ("readable", "seekable", "writable", "fileno", "isatty")


class Io(Plain):
    """Mon.ops: (name, args) done on the file; thread: inside the executor;
    locks: locks held."""
    max_depth = 14
    follow_getattr = True
    fail = False
    closed = FALSE
    callables = TRUE

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.bad = {}
        self.lines = set()

    def initial(self):
        return Mon(ops=(), opened=(), thread=False, locks=(), read_locks=(),
                   exe=(), loops=())

    def in_executor(self, it, exe, fn, args, st):
        m = st.mon
        if exe[0] == "tuple":       # with its loop
            m = m.set(loops=m.loops + (exe[1][1],))
            exe = exe[1][0]
        outs = it.call_value(fn, args, st.with_mon(m.set(
            thread=True, exe=m.exe + (exe,))))
        return [(k, v, s.with_mon(s.mon.set(thread=False)))
                for k, v, s in outs]

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind != "call":
            return None
        if is_ext(ev, "asyncio.get_event_loop", "asyncio.get_running_loop"):
            return [("v", LOOP, st)]
        if is_method(ev, "run_in_executor"):
            t = ("task", it.site(ev.fr, ev.node), ("aw", "exec", tuple(
                [("tuple", (ev.args[0], ev.recv))] + list(ev.args[1:])),
                (), None))
            return [("v", t, st)]
        if ev.rtype == "asyncio.Lock" and ev.extra == "method":
            if ev.name == "acquire":
                return [("v", ("aw", "acquire", (ev.recv,), (), None), st)]
            if ev.name == "release":
                return [("v", NONE, self.leave(ev.recv, st))]
        if is_ext(ev, *OPENERS):
            if not m.thread:
                self.bad["blocking"] = "the file is opened in the thread " \
                    "of the event loop"
            st = st.with_mon(m.set(opened=m.opened + ((
                ev.name, tuple(ev.args), tuple(sorted(ev.kw.items()))),)))
            return [("v", FP, st)]
        if ev.recv == FP and ev.name not in QUICK:
            if not m.thread and "__del__" not in repr(ev.where()):
                self.bad["blocking"] = "%s() of the file is called in the " \
                    "thread of the event loop" % ev.name
            st = st.with_mon(m.set(
                ops=m.ops + ((ev.name, tuple(ev.args)),),
                read_locks=m.read_locks + (m.locks,)))
            if self.fail:
                return [("raise", OSERR, st)]
            if ev.name == "readline" and self.lines:
                return [("v", x, st) for x in self.lines]
            return [("v", ("obj", ("result", ev.name), "user"), st)]
        if is_ext(ev, "len") and ev.args[0] in (LINE, SHORT):
            return [("v", const(3 if ev.args[0] == LINE else 1), st)]
        if is_ext(ev, "str", "os.fspath") and ev.args[:1] == [PATH]:
            return [("v", PATH, st)]
        if is_ext(ev, "callable"):
            return [("v", self.callables, st)]
        return None

    def on_attr(self, it, base, name, st):
        if base == FP and name == "closed":
            return self.closed
        return None

    def note(self, it, ev, st):
        m = st.mon
        if ev.kind == "entered" and \
                ev.rtype == "asyncio.Lock":
            return st.with_mon(m.set(locks=m.locks + (ev.recv,)))
        if ev.kind == "exit" and ev.recv in m.locks:
            return self.leave(ev.recv, st)
        return st

    def leave(self, lock, st):
        m = st.mon
        return st.with_mon(m.set(locks=tuple(
            x for x in m.locks if x != lock)))

    def on_await(self, it, ev, st):
        v = unwrap_aw(ev.value)
        if v[0] == "aw" and v[1] == "acquire":
            m = st.mon
            return [("v", TRUE, st.with_mon(m.set(locks=m.locks + v[2])))]
        if v[0] == "aw" and v[1] == "exec":
            return self.in_executor(it, v[2][0], v[2][1], list(v[2][2:]), st)
        if v[0] == "aw" and v[1] == "to_thread":
            return self.in_executor(it, NONE, v[2][0], list(v[2][1:]), st)
        if v[0] == "coro" and v != ev.value:
            return it.do_await(v, ev.node, ev.fr, st)
        return None


OPS = [("read", "x", (X,)), ("readline", "x", (X,)), ("readlines", "x", (X,)),
       ("write", "x", (X,)), ("writelines", "x", (X,)),
       ("truncate", "x", (X,)), ("seek", "x, y", (X, Y)), ("tell", "", ()),
       ("flush", "", ()), ("close", "", ()), ("readinto", "x", (X,)),
       ("detach", "", ())]


ALL = ("blocking", "executor", "operation", "result", "exception", "opened",
       "twice", "unopened", "exit", "iterate", "end", "serial", "finalizer",
       "opener", "mode", "aenter")


def files(ctx):
    R = "file-operations"
    ctx.rule(R, "every operation of an asynchronous file runs in the file's "
             "executor, exactly once, with its arguments, and returns or "
             "raises what it did; opening happens once; leaving the context "
             "closes the file; iteration gives the lines up to the end of "
             "the file, one read at a time; async_open() chooses opener and "
             "mode by compression and mode")
    bad = {}
    c = ctx.p.cls("aiomisc.io.AsyncFileIO")
    classes = [k for k in ctx.p.classes.values() if k.module is c.module
               and k.is_subclass(c.cid)]
    env = dict(path=PATH, exe=EXE, x=X, y=Y)

    def drive(body, cls, lines=(), **opt):
        r = Io(ctx, **opt)
        r.lines = lines
        src = ("async def driver(cls, path, exe, x, y):\n"
               "    f = cls(path, 'r', exe)\n" + "".join(
                   "    %s\n" % b for b in body))
        it, outs = harness(ctx, r, src, cls=("cls", cls.cid), **env)
        bad.update(r.bad)
        for k, v, s in outs:
            if set(s.mon.exe) - {EXE}:
                bad["executor"] = "the executor of the file is not used"
        return r, outs
    base = [k for k in classes if k.name in ("AsyncBinaryIO", "AsyncTextIO")]
    for k in base or classes:
        for name, args, want in OPS:
            for fail in (False, True):
                r, outs = drive(["await f.open()",
                                 "return await f.%s(%s)" % (name, args)], k,
                                fail=fail)
                for kind, v, s in outs:
                    ops = [o for o in s.mon.ops]
                    if ops != [(name, want)] or len(s.mon.opened) != 1:
                        bad["operation"] = "%s() does not run the " \
                            "operation once with its arguments" % name
                    elif fail and (kind, v) != ("raise", OSERR):
                        bad["exception"] = "%s() loses the exception of " \
                            "the operation" % name
                    elif not fail and (kind != "v" or v[1:2] != (
                            ("result", name),) and name not in (
                                "writelines", "flush", "close")):
                        bad["result"] = "%s() loses the result of the " \
                            "operation" % name
                if not outs:
                    bad["operation"] = "%s() never ends" % name
        for body, n in (
            (["await f", "async with f:", "    await f.tell()"], "with"),
            (["await f.open()", "return await f"], "await"),
            (["async with f as g:", "    return g is f"], "as"),
        ):
            r, outs = drive(body, k)
            for kind, v, s in outs:
                if kind != "v":
                    continue
                if len(s.mon.opened) != 1:
                    bad["twice"] = "the file is opened %d times" % len(
                        s.mon.opened)
                elif s.mon.opened[0][1] != (PATH, const("r")):
                    bad["opened"] = "the file is not opened with its " \
                        "arguments"
                if n == "as" and v != TRUE:
                    bad["aenter"] = "entering the file does not give the file"
                if n == "await" and it_type(v) != k.cid:
                    bad["aenter"] = "awaiting the file does not give the file"
                if n != "await":
                    o = s.mon.ops[-1:]
                    if not o or o[0][0] not in ("__exit__", "close"):
                        bad["exit"] = "leaving the context does not close " \
                            "the file"
        r, outs = drive(["async with f:", "    raise x"], k)
        for kind, v, s in outs:
            o = s.mon.ops[-1:]
            if not o or o[0][0] not in ("__exit__", "close"):
                bad["exit"] = "leaving the context with an exception does " \
                    "not close the file"
            if o and o[0][0] == "__exit__" and len(o[0][1]) != 3:
                bad["exit"] = "the file is left without the exception"
        r, outs = drive(["await f.read(x)"], k)
        for kind, v, s in outs:
            if kind == "v":
                bad["unopened"] = "a file that is not open can be read"
        for lines, n in (((LINE,), "line"), ((SHORT,), "line"),
                         ((const("\n"),), "line"), ((EMPTY,), "empty")):
            r, outs = drive(["await f.open()", "await f.__anext__()",
                             "return await f.__anext__()"], k, lines=lines)
            for kind, v, s in outs:
                if n == "line":
                    if (kind, v) != ("v", lines[0]):
                        bad["iterate"] = "iteration does not give the lines"
                    if len(s.mon.ops) != 2 or set(
                            x[0] for x in s.mon.ops) != {"readline"}:
                        bad["iterate"] = "iteration does not read one line " \
                            "per step"
                elif kind != "raise" or v[1] != "StopAsyncIteration":
                    bad["end"] = "iteration does not stop at the end of " \
                        "the file"
                ls = set(s.mon.read_locks)
                if len(ls) != 1 or not all(ls):
                    bad["serial"] = "concurrent iterations read the file " \
                        "at once"
        for st_, n in ((["f.__del__()"], 0), (
                ["await f.open()", "f.__del__()"], 1)):
            r, outs = drive(st_, k, closed=FALSE)
            for kind, v, s in outs:
                if kind != "v" or [o[0] for o in s.mon.ops] != \
                        ["close"] * n:
                    bad["finalizer"] = "the finalizer of %s file fails or " \
                        "does not close it" % ("an open" if n else
                                               "a never opened")
        r, outs = drive(["await f.open()", "f.__del__()"], k, closed=TRUE)
        for kind, v, s in outs:
            if kind != "v":
                bad["finalizer"] = "the finalizer of a closed file fails"
    fn = ctx.p.func("aiomisc.io.async_open")
    comp = ctx.p.cls("aiomisc.io.Compression")
    for name, op in (("NONE", "open"), ("GZIP", "gzip.open"),
                     ("BZ2", "bz2.open"), ("LZMA", "lzma.open")):
        for mode, binary in (("r", False), ("w", False), ("rt", False),
                             ("rb", True), ("wb", True)):
            r = Io(ctx)
            src = ("async def driver(fn, path, comp, mode, enc):\n"
                   "    f = fn(path, mode, comp.%s, enc)\n"
                   "    await f.open()\n    return f\n" % name)
            it, outs = harness(ctx, r, src, fn=("func", fn.fid, None),
                               path=PATH, comp=("cls", comp.cid),
                               mode=const(mode), enc=X)
            bad.update(r.bad)
            for kind, v, s in outs:
                o = s.mon.opened
                if kind != "v" or len(o) != 1 or o[0][0].split(".")[-2:] != \
                        op.split(".")[-2:] and o[0][0] not in (
                            "io.open", "builtins.open"):
                    bad["opener"] = "a file with compression %s is opened " \
                        "with %s()" % (name, o[0][0] if o else "nothing")
                    continue
                a, kw = o[0][1], dict(o[0][2])
                md = a[1] if len(a) > 1 else kw.get("mode", NONE)
                have = set(str(const_value(md, "")))
                if a[:1] != (PATH,) or have - {"t"} != set(mode) - {"t"} or \
                        ("t" in have) == binary:
                    bad["mode"] = "mode %r opens the file with %r" % (
                        mode, const_value(md))
                k = ctx.p.classes.get(it_type(v))
                if k is None or not k.is_subclass(
                        "aiomisc.io.AsyncBinaryIO" if binary else
                        "aiomisc.io.AsyncTextIO"):
                    bad["mode"] = "mode %r gives a %s" % (mode, it_type(v))
                if not binary and kw.get("encoding") != X:
                    bad["mode"] = "the encoding is lost"
            if not outs:
                bad["opener"] = "no way to open a file"
    for x in sorted(set(ALL) | set(bad)):
        ctx.require(R, x, x not in bad, "AsyncFileIO:" + x,
                    c.find_method("__init__").loc(), bad.get(x, ""))


def it_type(v):
    return v[2] if v[0] == "obj" else None


LOOP2 = ("obj", ("other loop",), "asyncio.AbstractEventLoop")
SIMPLE = {"closed()": "closed", "fileno()": "fileno", "isatty()": "isatty",
          "await readable()": "readable", "await seekable()": "seekable",
          "await writable()": "writable", "mode": "mode", "name": "name"}
TEXT = {n: n for n in ("newlines", "errors", "line_buffering", "encoding")}


class Params(Io):
    """Attributes and quick questions are answered by the file."""

    def on_attr(self, it, base, name, st):
        if base == FP and name in tuple(SIMPLE.values()) + tuple(
                TEXT.values()) + ("extra", "buffer"):
            if name not in QUICK:
                return ("obj", ("attribute", name), "user")
        return None

    def on_call(self, it, ev, st):
        if ev.kind == "call" and ev.recv == FP and ev.name in QUICK:
            return [("v", ("obj", ("attribute", ev.name), "user"), st)]
        return super().on_call(it, ev, st)


def parameters(ctx):
    R = "file-parameters"
    ctx.rule(R, "mode, further arguments, options, executor and loop given "
             "to a file, open_fp() or async_open() are those the file is "
             "opened and used with; what is asked of the file (closed, mode, "
             "name, fileno, ...) is answered by the underlying one; awaiting "
             "the file opens it")
    bad = {}
    c = ctx.p.cls("aiomisc.io.AsyncFileIO")
    comp = ctx.p.cls("aiomisc.io.Compression")
    keys = ("arguments", "executor", "loop", "again", "attributes", "closed",
            "open_fp", "await", "mode")
    env = dict(path=PATH, exe=EXE, x=X, y=Y, loop=LOOP2, fp=FP)

    def drive(cls, body, rule=Io, **opt):
        r = rule(ctx, **opt)
        it, outs = harness(
            ctx, r, "async def driver(cls, %s):\n    %s\n" % (
                ", ".join(env), body.replace("\n", "\n    ")),
            cls=("cls", cls.cid), **env)
        return r, outs

    def used(outs, what):
        for k, v, s in outs:
            if set(s.mon.exe) - {EXE}:
                bad["executor"] = "%s does not use the executor given" % what
            if set(s.mon.loops) - {LOOP2}:
                bad["loop"] = "%s does not use the loop given" % what
    for k in ("AsyncBinaryIO", "AsyncTextIO"):
        k = ctx.p.cls("aiomisc.io." + k)
        r, outs = drive(k, "f = cls(path, 'r', exe, x, loop=loop, k=y)\n"
                        "await f.open()\nawait f.tell()\nreturn f")
        used(outs, "a file")
        if not outs:
            bad["arguments"] = "a file can not be opened"
        for kind, v, s in outs:
            o = s.mon.opened
            if kind != "v" or len(o) != 1 or o[0][1] != (
                    PATH, const("r"), X) or o[0][2] != (("k", Y),):
                bad["arguments"] = "the file is not opened with the " \
                    "arguments given"
        r, outs = drive(k, "f = cls(path, 'r', exe, loop=loop)\n"
                        "g = await f\nawait g.tell()\nreturn g is f")
        used(outs, "a file")
        for kind, v, s in outs:
            if (kind, v) != ("v", TRUE) or len(s.mon.opened) != 1 or [
                    o[0] for o in s.mon.ops] != ["tell"]:
                bad["await"] = "awaiting a file does not open it"
        r, outs = drive(k, "f = cls.open_fp(fp, exe, loop)\n"
                        "await f.open()\nreturn await f.read(x)")
        used(outs, "open_fp()")
        if not outs:
            bad["open_fp"] = "open_fp() fails"
        for kind, v, s in outs:
            if kind != "v" or s.mon.opened or s.mon.ops != (
                    ("read", (X,)),):
                bad["open_fp"] = "open_fp() does not use the file given"
        for q, name in list(SIMPLE.items()) + list(
                TEXT.items() if k.name == "AsyncTextIO" else ()):
            r, outs = drive(k, "f = cls.open_fp(fp)\nreturn %sf.%s" % (
                q[:q.rfind(" ") + 1], q[q.rfind(" ") + 1:]), Params)
            for kind, v, s in outs:
                if not unknown(v) and (kind, v) != ("v", (
                        "obj", ("attribute", name), "user")):
                    bad["attributes"] = "%s is not that of the file" % name
        r, outs = drive(k, "f = cls.open_fp(fp)\nreturn await f.extra()",
                        Params, callables=FALSE)
        for kind, v, s in outs:
            if not unknown(v) and (kind, v) != ("v", (
                    "obj", ("attribute", "extra"), "user")):
                bad["attributes"] = "attributes of the file are lost"
        if k.name == "AsyncTextIO":
            r, outs = drive(k, "f = cls.open_fp(fp, exe, loop)\n"
                            "return await f.buffer().read(x)", Params)
            used(outs, "the buffer of a text file")
            if not any(s.mon.exe for kind, v, s in outs):
                bad["attributes"] = "the buffer of a file can not be read"
        r, outs = drive(k, "f = cls.open_fp(fp)\nawait f.close()\n"
                        "return f.closed()", Params)
        for kind, v, s in outs:
            if kind != "v":
                bad["closed"] = "a closed file can not be asked whether it " \
                    "is closed"
    fn = ctx.p.func("aiomisc.io.async_open")
    for name in ("NONE", "GZIP"):
        for mode in ("rb", "r+b", "rb+", "br", "w+b", "xb", "r", "rt", "tr",
                     "w+", "w+t", "a", "x"):
            r = Io(ctx)
            src = ("async def driver(fn, path, comp, mode, enc, exe, x, y, "
                   "loop):\n    f = fn(path, mode, comp.%s, enc, exe, x, "
                   "loop=loop, k=y)\n    await f.open()\n    await f.tell()"
                   "\n    return f\n" % name)
            it, outs = harness(
                ctx, r, src, fn=("func", fn.fid, None), path=PATH,
                comp=("cls", comp.cid), mode=const(mode),
                enc=("obj", ("encoding",), "label"), exe=EXE, x=X, y=Y,
                loop=LOOP2)
            used(outs, "async_open()")
            binary = "b" in mode
            for kind, v, s in outs:
                o = s.mon.opened
                if kind != "v" or len(o) != 1:
                    bad["mode"] = "mode %r can not be used" % mode
                    continue
                a, kw = o[0][1], dict(o[0][2])
                md = str(const_value(a[1] if len(a) > 1 else NONE, ""))
                if sorted(md) != sorted(mode if binary or "t" in mode else
                                        mode + "t") and (
                        binary or sorted(md) != sorted(mode)):
                    bad["mode"] = "mode %r opens the file with %r" % (
                        mode, md)
                if a[2:] != (X,) or kw.get("k") != Y or not binary and \
                        kw.get("encoding") != ("obj", ("encoding",),
                                               "label"):
                    bad["arguments"] = "async_open() loses arguments"
            if not outs:
                bad["mode"] = "mode %r can not be used" % mode
    for x in keys:
        ctx.require(R, x, x not in bad, "AsyncFileIO:" + x,
                    c.find_method("__init__").loc(), bad.get(x, ""))
