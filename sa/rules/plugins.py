"""Plugins; the current event loop."""
from .lib import *

EPS = {g: tuple(("obj", ("ep", g, i), "entrypoint") for i in (0, 1))
       for g in ("aiomisc.plugins", "aiomisc")}
ERR = ("exc", "Exception", False, "user")
ENVVAR = "AIOMISC_NO_PLUGINS"
DISTS = [("obj", ("dist", i), "distribution") for i in (0, 1)]
GROUPS = ("group", "group.more", "gr")
EXC = ("obj", ("exception",), "RuntimeError")
LOOP = ("obj", ("own",), "asyncio.AbstractEventLoop")
MARK = ("sym", "mark", "callable")
CV = ("obj", ("contextvar",), "contextvar")


class Plugins(Plain):
    """Mon.log: what was loaded and set up, and how that ended."""
    exact_lists = True
    fresh_new = True
    max_depth = 8
    off = False
    found = True

    def initial(self):
        return Mon(log=())

    def add(self, st, *x):
        return st.with_mon(st.mon.set(log=st.mon.log + (x,)))

    def on_attr(self, it, base, name, st):
        if base[0] == "obj" and base[1][:1] == ("ep",) and name == "name":
            return const("%s %d" % base[1][1:])
        return None

    def variable(self, ev):
        return any(const_value(x, None) == ENVVAR for x in ev.args)

    def has_key(self, it, coll, key, st):
        return self.off if const_value(key, None) == ENVVAR else None

    def on_call(self, it, ev, st):
        n, r = ev.name, ev.recv
        if ev.kind == "getitem" and self.variable(ev):
            return [("v", const("1"), st)] if self.off else [
                ("raise", ("exc", "KeyError", True, "key"), st)]
        if ev.kind != "call":
            return None
        if self.variable(ev) and n.rpartition(".")[2] in ("getenv", "get"):
            return [("v", const("1") if self.off else (
                list(ev.args[1:]) + list(ev.kw.values()) + [NONE])[0], st)]
        if isinstance(ev.extra, FuncInfo) and self.found and \
                n == "entry_pont_iterator":
            g = const_value(bound(ev)[0], None)
            return [("v", ("tuple", EPS.get(g, ())), self.add(
                st, "group", g))]
        if r is not None and r[0] == "obj" and r[1][:1] == ("ep",) and \
                n == "load":
            i = r[1][1:]
            return [("v", ("obj", ("plugin",) + i, "plugin"), self.add(
                st, "loaded", i)),
                ("raise", ERR, self.add(st, "unloaded", i))]
        if r is not None and r[0] == "obj" and r[1][:1] == ("plugin",) and \
                n == "setup":
            i = r[1][1:]
            return [("v", NONE, self.add(st, "setup", i)),
                    ("raise", ERR, self.add(st, "failed", i))]
        if ev.callee == MARK:
            return [("v", NONE, self.add(st, "found", ev.args[0]))]
        if is_ext(ev, "types.MappingProxyType") and ev.args:
            return [("v", ev.args[0], st)]
        if is_ext(ev, "importlib.metadata.Distribution.discover") or \
                n == "discover":
            return [("v", ("tuple", tuple(DISTS)), st)]
        return None


def plugins(ctx):
    RU = "plugins"
    ctx.rule(RU, "every entry point of both groups is loaded once and every "
             "loaded plugin set up once; one that can not be loaded does "
             "not affect the others, one that can not be set up is told; "
             "AIOMISC_NO_PLUGINS leaves all of them out")
    bad = {}
    fn = ctx.p.func("aiomisc.plugins.setup_plugins")
    everything = {(g, i) for g, x in EPS.items() for i in (0, 1)}
    for off in (False, True):
        r = Plugins(ctx)
        r.off = off
        it, outs = harness(ctx, r, "def driver(f):\n    return f()\n",
                           f=("func", fn.fid, None))
        if not any(k == "v" for k, v, s in outs):
            bad["all"] = "the plugins can not be set up"
        for k, v, s in outs:
            log = s.mon.log
            tried = [x[1] for x in log if x[0] in ("loaded", "unloaded")]
            ok = [x[1] for x in log if x[0] == "loaded"]
            up = [x[1] for x in log if x[0] == "setup"]
            failed = [x for x in log if x[0] == "failed"]
            if off:
                if k != "v" or tried or up or failed:
                    bad["off"] = "plugins are loaded although they are off"
                continue
            if k != "v":
                if not failed:
                    bad["all"] = "a plugin that can not be loaded affects " \
                        "the others"
                continue
            if failed:
                bad["failed"] = "the failure of a plugin is not told"
                continue
            if sorted(tried) != sorted(everything):
                bad["all"] = "not every plugin is loaded once"
            if sorted(up) != sorted(ok):
                bad["setup"] = "not every loaded plugin is set up once"
            d = it.exact_dict(v, s)
            if d is not None and sorted(x[1][1:] for x in d.values()
                                        if x[0] == "obj") != sorted(ok):
                bad["setup"] = "not every loaded plugin is told"
    groups(ctx, bad)
    for x in ("all", "off", "failed", "setup", "group"):
        ctx.require(RU, x, x not in bad, "plugins:" + x, fn.loc(),
                    bad.get(x, ""))


class Group(Plugins):
    found = False

    def on_attr(self, it, base, name, st):
        if base in DISTS and name == "entry_points":
            i = base[1][1]
            return ("tuple", tuple(("obj", ("point", i, g), "entrypoint")
                                   for g in GROUPS))
        if base[0] == "obj" and base[1][:1] == ("point",) and \
                name == "group":
            return const(base[1][2])
        return None


def groups(ctx, bad):
    fns = [f for f in ctx.p.all_functions()
           if f.name == "entry_pont_iterator"
           and f.module.name == "aiomisc.compat"]
    for fn in fns:
        if "discover" not in ast.unparse(fn.node):
            continue
        it, outs = harness(
            ctx, Group(ctx), "def driver(f, g, mark):\n    for x in f(g):\n"
            "        mark(x)\n", f=("func", fn.fid, None), g=const("group"),
            mark=MARK)
        for k, v, s in outs:
            got = [x[1] for x in s.mon.log if x[0] == "found"]
            if k == "v" and not any(unknown(x) for x in got) and sorted(
                    got) != sorted(("obj", ("point", i, "group"),
                                    "entrypoint") for i in (0, 1)):
                bad["group"] = "not the plugins of exactly the given group " \
                    "are found"


class Current(Plain):
    """The context variable and the loops which are running."""
    exact_lists = True
    fresh_new = True
    max_depth = 8
    follow_getattr = True
    value = None

    def initial(self):
        return Mon(loops=0, stored=())

    def on_attr(self, it, base, name, st):
        return None

    def on_call(self, it, ev, st):
        n, r = ev.name, ev.recv
        if ev.kind != "call":
            return None
        if is_ext(ev, "contextvars.ContextVar"):
            return [("v", CV, st)]
        if r == CV and n == "get":
            if self.value is not None:
                return [("v", self.value, st)]
            d = list(ev.args) + list(ev.kw.values())
            return [("v", d[0], st)] if d else [
                ("raise", ("exc", "LookupError", True, "unset"), st)]
        if r == CV and n == "set":
            return [("v", NONE, st.with_mon(st.mon.set(
                stored=st.mon.stored + tuple(ev.args))))]
        if is_ext(ev, "asyncio.get_running_loop", "asyncio.get_event_loop"):
            i = st.mon.loops
            if i > 3:
                return None
            return [("v", ("obj", ("running", i),
                           "asyncio.AbstractEventLoop"),
                     st.with_mon(st.mon.set(loops=i + 1)))]
        return None


def current(ctx):
    RU = "current-loop"
    ctx.rule(RU, "a strict context variable gives what was set, whatever it "
             "is, and raises its error when nothing was; the loop of an "
             "object is the one running when it is first asked for")
    bad = {}
    c = ctx.p.cls("aiomisc._context_vars.StrictContextVar")
    new = "def driver(cls, e, v):\n    x = cls('name', e)\n"
    for value in (None, const(0), FALSE, const(""),
                  ("obj", ("value",), "label")):
        r = Current(ctx)
        r.value = value
        it, outs = harness(ctx, r, new + "    return x.get()\n",
                           cls=("cls", c.cid), e=EXC, v=NONE)
        for k, v, s in outs:
            if value is None and k == "v":
                bad["unset"] = "reading it unset does not raise"
            elif value is None and v[0] == "exc" and v[1] in (
                    "TypeError", "AttributeError", "LookupError"):
                bad["unset"] = "reading it unset raises another error"
            elif value is not None and (k != "v" or v != value):
                bad["value"] = "a value which is %s is not given" % (
                    const_value(value, "set"),)
    it, outs = harness(ctx, Current(ctx), new + "    x.set(v)\n",
                       cls=("cls", c.cid), e=EXC, v=MARK)
    if any(k != "v" or s.mon.stored != (MARK,) for k, v, s in outs):
        bad["value"] = "the value is not set"
    m = ctx.p.cls("aiomisc.compat.EventLoopMixin")
    for pre, want in (("x._loop = None\n    ", None), (
                          "x._loop = v\n    ", LOOP)):
        it, outs = harness(
            ctx, Current(ctx), "def driver(cls, v):\n    x = cls()\n    " +
            pre + "return (x.loop, x.loop)\n", cls=("cls", m.cid), v=LOOP)
        for k, v, s in outs:
            w = want or ("obj", ("running", 0), "asyncio.AbstractEventLoop")
            if k != "v" or not unknown(v) and v != ("tuple", (w, w)):
                bad["loop"] = "the loop of an object is not the one of its " \
                    "first use"
    f = c.find_method("get")
    for x in ("unset", "value", "loop"):
        ctx.require(RU, x, x not in bad, "current:" + x, (
            m.find_method("loop") if x == "loop" else f).loc(),
            bad.get(x, ""))
