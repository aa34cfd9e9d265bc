"""Parameters of services."""
from .lib import *

BASE = "aiomisc.service.base."
X, Y, Z = (("sym", n, None) for n in ("x", "y", "z"))
COPY = ("obj", ("copy",), BASE + "Service")
REQ = ("obj", ("required",), "frozenset")
MISSING = ("exc", "AttributeError", True, "no such attribute")


class Params(Plain):
    fresh_new = True
    fresh_kwargs = True
    required = ()

    def on_attr(self, it, base, name, st):
        if name == "__required__":
            return REQ
        return None

    def on_call(self, it, ev, st):
        if ev.kind == "call" and ev.recv is not None and \
                ev.recv[0] == "super":
            if ev.name == "__setattr__":
                k, v = ev.args
                return [("v", NONE, st.set(("H", ev.recv[1], k[2]), v))]
            if ev.name == "__new__":
                x, st = it.alloc(("obj", ("made",), BASE + "Service"), st)
                return [("v", x, st)]
        return None


def drive(ctx, r, src, **env):
    it = Interp(ctx.p, r)
    names = tuple(map(const, r.required))
    outs = it.harness(src, st=State({
        ("H", REQ, "$parts"): names, ("H", REQ, "[]"): frozenset(names)},
        r.initial()), x=X, y=Y, z=Z, **env)
    ctx.absorb(it)
    if not outs:
        raise AnalysisBroken("creating a service does not end")
    return outs


HEAD = "def driver(cls, x, y, z):\n"


def parameters(ctx):
    R = "service-parameters"
    ctx.rule(R, "keyword arguments of a service become its attributes "
             "whatever their values; names it does not have raise "
             "AttributeError; a missing required one refuses creation, one "
             "that is None does not; the pickled state has the current "
             "values of exactly the parameters and restores them")
    c = ctx.p.cls(BASE + "Service")
    f = c.find_method("__init__")
    bad = {}
    cv = ("cls", c.cid)
    for a, av in (("x", X), ("None", NONE), ("False", FALSE)):
        for k, v, s in drive(
                ctx, Params(ctx), HEAD +
                "    s = cls.__new__(cls)\n    s.__init__(a=%s, b=y)\n    cls.__setattr__(s, 'c', z)\n"
                "    st = s.__getstate__()\n"
                "    return s.a, s.b, s.c, st['a'], st['b'], 'c' in st, "
                "cls.__getattr__(s, 'a')\n" % a, cls=cv):
            if k != "v" or not unknown(v) and v != ("tuple", (
                    av, Y, Z, av, Y, FALSE, av)):
                bad["attributes"] = "the parameters of a service (a=%s) " \
                    "are not its attributes and its state" % a
        for k, v, s in drive(
                ctx, Params(ctx), HEAD +
                "    s = cls.__new__(cls)\n    s.__init__(a=z, b=y)\n    cls.__setattr__(s, 'a', %s)\n"
                "    st = s.__getstate__()\n"
                "    return s.a, st['a'], st['b'], cls.__getattr__(s, 'a')\n"
                % a, cls=cv):
            if k != "v" or not unknown(v) and v != ("tuple", (
                    av, av, Y, av)):
                bad["stale-state"] = "the state of a service does not have " \
                    "the value %s a parameter was set to" % a
        for k, v, s in drive(
                ctx, Params(ctx), HEAD +
                "    s = cls.__new__(cls)\n    s.__init__(a=%s, b=y)\n"
                "    n = cls.__new__(cls)\n"
                "    n.__setstate__(s.__getstate__())\n"
                "    st = n.__getstate__()\n"
                "    return n.a, n.b, st['a'], st['b']\n" % a, cls=cv):
            if k != "v" or not unknown(v) and v != ("tuple", (
                    av, Y, av, Y)):
                bad["restored"] = "a copy made from the state of a service " \
                    "(a=%s) does not have its parameters" % a
    for k, v, s in drive(ctx, Params(ctx), HEAD +
                         "    s = cls.__new__(cls)\n    s.__init__(a=x)\n"
                         "    return cls.__getattr__(s, 'b')\n", cls=cv):
        if k != "raise" or v[1] != "AttributeError":
            bad["missing"] = "an attribute a service does not have does not " \
                "raise AttributeError"
    for k, v, s in drive(ctx, Params(ctx), HEAD +
                         "    s = cls.__new__(cls)\n    s.__init__(a=x)\n    t = cls.__new__(cls)\n    t.__init__(b=y)\n"
                         "    cls.__setattr__(s, 'a', z)\n"
                         "    st = t.__getstate__()\n"
                         "    return 'a' in st, st['b']\n", cls=cv):
        if k != "v" or not unknown(v) and v != ("tuple", (FALSE, Y)):
            bad["shared"] = "two services share their parameters"
    for given, req, ok in (("a=x", "q", False), ("q=None", "q", True),
                           ("q=x", "qr", False), ("", "q", False),
                           ("r=x, q=False, a=y", "qr", True)):
        r = Params(ctx)
        r.required = tuple(req)
        ks = {k for k, v, s in drive(
            ctx, r, HEAD + "    s = cls.__new__(cls)\n"
            "    s.__init__(%s)\n    return s\n" % given, cls=cv)}
        if ok and "raise" in ks:
            bad["refused"] = "a service with all of its required " \
                "parameters is refused"
        if not ok and "v" in ks:
            bad["required"] = "a service is created without a required " \
                "parameter"
    for x in ("attributes", "stale-state", "restored", "missing", "shared",
              "refused", "required"):
        ctx.require(R, x, x not in bad, "Service:" + x, f.loc(),
                    bad.get(x, ""))
    forwarded(ctx, R)


class Forward(Plain):
    """Construction of a concrete service."""
    fresh_new = True

    def initial(self):
        return Mon(seen=())

    def on_attr(self, it, base, name, st):
        if name == "__required__":
            return REQ
        return None

    def on_call(self, it, ev, st):
        if ev.kind == "call" and (
                ev.name == "setattr" and len(ev.args) == 3 or
                ev.name == "__setattr__"):
            k, v = ev.args[-2:]
            if v == X:
                return [("v", NONE, st.with_mon(st.mon.set(
                    seen=st.mon.seen + (k,))))]
        return None


def forwarded(ctx, R):
    """Do the constructors of all services pass parameters on?"""
    base = ctx.p.cls(BASE + "Service")
    for c in sorted(ctx.p.subclasses(base.cid), key=lambda c: c.cid):
        m = c.find_method("__init__")
        if m is None or c.module.name.startswith("<"):
            continue
        a = m.node.args
        if a.kwarg is None:
            continue
        pos = a.posonlyargs + a.args[1:]
        need = pos[:len(pos) - len(a.defaults)] + [
            x for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        env = {x.arg: ("sym", "given " + x.arg, None) for x in need}
        full = {x.arg: ("sym", "given " + x.arg, None)
                for x in pos + a.kwonlyargs}
        ends = []
        for env in (env, full):
            r = Forward(ctx)
            it = Interp(ctx.p, r)
            outs = it.harness(
                "def driver(cls, marker, %s):\n    return cls(%s)\n" % (
                    ", ".join(env), ", ".join(
                        ["%s=%s" % (n, n) for n in env] +
                        ["marker=marker"])),
                st=State({("H", REQ, "$parts"): (),
                          ("H", REQ, "[]"): frozenset()}, r.initial()),
                cls=("cls", c.cid), marker=X, **env)
            ctx.absorb(it)
            ends += [s for k, v, s in outs if k == "v"]
        ctx.require(R, "%s passes parameters on" % c.name,
                    bool(ends) and all(
                        const("marker") in s.mon.seen for s in ends),
                    "%s:forwarded" % c.name, m.loc(),
                    "keyword arguments of %s are lost or refused" % c.name)


class Meta(Plain):
    fresh_new = True

    def __init__(self, ctx, plain=()):
        super().__init__(ctx)
        self.plain = plain
        self.bad = {}

    def initial(self):
        return Mon(checked=())

    def on_attr(self, it, base, name, st):
        if base == COPY and name == "__async_required__":
            return ("tuple", (const("start"), const("stop")))
        if base == COPY and name == "__required__":
            return ("tuple", (const("a"),))
        return None

    def on_call(self, it, ev, st):
        if ev.kind == "call" and ev.recv is not None and \
                ev.recv[0] == "super" and ev.name == "__new__":
            return [("v", COPY, st)]
        if ev.kind == "call" and ev.name == "getattr" and \
                ev.args[0] == COPY and is_const(ev.args[1]):
            n = ev.args[1][2]
            r = self.on_attr(it, COPY, n, st)
            return [("v", r or ("sym", "method " + n, "function"), st)]
        if is_ext(ev, "asyncio.iscoroutinefunction",
                  "inspect.iscoroutinefunction"):
            x = ev.args[0]
            n = x[1].split()[-1] if x[0] == "sym" else "?"
            return [("v", FALSE if n in self.plain else TRUE, st)]
        return None


def metaclass(ctx):
    R = "service-classes"
    ctx.rule(R, "defining a service class whose start() or another required "
             "method is no coroutine function raises TypeError; other "
             "classes are accepted")
    c = ctx.p.cls(BASE + "ServiceMeta")
    f = c.find_method("__new__")
    bad = {}
    for plain in ((), ("start",), ("stop",), ("start", "stop")):
        it, outs = harness(
            ctx, Meta(ctx, plain), "def driver(meta, bases, x):\n"
            "    return meta.__new__(meta, 'name', bases, {'start': x})\n",
            meta=("cls", c.cid), bases=("tuple", ()), x=X)
        for k, v, s in outs:
            if plain and k == "v":
                bad["accepted"] = "a class whose %s() is no coroutine " \
                    "function is accepted" % plain[0]
            elif not plain and (k, v) != ("v", COPY):
                bad["refused"] = "a class whose methods are coroutine " \
                    "functions is refused"
            elif plain and v[1] != "TypeError":
                bad["accepted"] = "no TypeError is raised for a class " \
                    "whose methods are no coroutine functions"
    for x in ("accepted", "refused"):
        ctx.require(R, x, x not in bad, "ServiceMeta:" + x, f.loc(),
                    bad.get(x, ""))
