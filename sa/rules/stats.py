"""Statistic counters."""
from .lib import *

MOD = "aiomisc.counters"
NAME = ("obj", ("name",), "label")
VAL = ("obj", ("value",), "int")
COUNTERS = ("obj", ("counter",), "collections.Counter")
A, B = const("first"), const("second")
METRICS = ("tuple", (A, B))


class Counting(Maps, Plain):
    """Mon.maps: the counters; Mon.log: attributes and instances."""
    exact_lists = True
    fresh_new = True
    max_depth = 10
    metrics = True

    def initial(self):
        return Mon(maps=(), log=(), cur=None)

    def add(self, st, *x):
        if x in st.mon.log:
            return st
        return st.with_mon(st.mon.set(log=tuple(sorted(
            st.mon.log + (x,), key=str))))

    def inline(self, it, func, ev, st):
        return True

    def on_attr(self, it, base, name, st):
        if name == "__metrics__":
            return METRICS
        if name == "__instances__":
            return ("obj", ("instances",), "user")
        return None

    def note(self, it, ev, st):
        if ev.kind == "attrset":
            return self.add(st, "set", ev.recv, ev.name, ev.value)
        return st

    def missing(self, it, ev, base, key, st):
        return [("v", const(0), st)]

    def on_call(self, it, ev, st):
        x = self.map_call(it, ev, st)
        if x is not None:
            return x
        n, r = ev.name, ev.recv
        if ev.kind == "new" and ev.extra.name == "Metric" and not \
                self.metrics:
            a = dict(ev.kw)
            for k, v in zip(("name", "counter", "default"), ev.args):
                a[k] = v
            return [("v", ("obj", ("metric", a.get("name"),
                                   a.get("counter")), ev.extra.cid), st)]
        if ev.kind == "new" and ev.extra.name == "StatisticResult":
            a = dict(ev.kw)
            for k, v in zip(("kind", "name", "metric", "value"), ev.args):
                a[k] = v
            return [("v", NONE, self.add(
                st, "result", st.mon.cur, *[a.get(k) for k in (
                    "kind", "name", "metric", "value")]))]
        if ev.kind != "call":
            return None
        if r == ("obj", ("instances",), "user"):
            return [("v", NONE, self.add(st, "instance", n, *ev.args))]
        if is_ext(ev, "isinstance") and str(ev.args[1]).count("Metric"):
            v = ev.args[0]
            return [("v", TRUE if v[0] == "obj" and v[1][:1] == ("metric",)
                     else FALSE, st)]
        if n == "__setattr__" and not isinstance(ev.extra, FuncInfo):
            return [("v", NONE, self.add(
                st, "plain", *(ev.args[-2:])))]
        if is_ext(ev, "issubclass"):
            s = self.add(st, "issub", *ev.args)
            return [("v", TRUE, s.with_mon(s.mon.set(cur="in"))),
                    ("v", FALSE, self.add(s.with_mon(
                        s.mon.set(cur="out")), "other"))]
        return None


INST = [("obj", ("inst", i), "stat") for i in (0, 1)]
COUNTS = [("obj", ("counts", i), "dict") for i in (0, 1)]
FIRST, SECOND = const(0), VAL


class Report(Counting):
    """Every class has two instances with two metrics each."""

    def is_map(self, it, v, st):
        return v not in COUNTS and super().is_map(it, v, st)

    def on_attr(self, it, base, name, st):
        if name == "__instances__":
            return ("tuple", tuple(INST))
        if base in INST:
            i = INST.index(base)
            return {"_counter": COUNTS[i],
                    "name": NAME if i else NONE}.get(name)
        return None


KLASS = ("obj", ("klass",), "statclass")
BASE1 = ("obj", ("base", 1), "statclass")
BASE2 = ("obj", ("base", 2), "statclass")
NOTES = {KLASS: ("obj", ("notes", 0), "dict"),
         BASE1: ("obj", ("notes", 1), "dict"),
         BASE2: ("obj", ("notes", 2), "dict")}


class Making(Plain):
    """The creation of a class of statistics."""
    exact_lists = True
    fresh_new = True
    distinct_ext = True
    max_depth = 8

    def initial(self):
        return Mon(metrics=(), stored=())

    def inline(self, it, func, ev, st):
        return True

    def on_attr(self, it, base, name, st):
        if name == "__annotations__":
            return NOTES.get(base)
        return None

    def note(self, it, ev, st):
        if ev.kind == "attrset" and ev.recv == KLASS and \
                ev.name == "__metrics__":
            ps = it.exact_parts(ev.value, st)
            return st.with_mon(st.mon.set(metrics=st.mon.metrics + (
                None if ps is None else tuple(sorted(ps)),)))
        return st

    def on_call(self, it, ev, st):
        if ev.kind != "call":
            return None
        if ev.name == "__new__" and not isinstance(ev.extra, FuncInfo):
            return [("v", KLASS, st)]
        if is_ext(ev, "issubclass"):
            return [("v", const(ev.args[0] != BASE2), st)]
        if is_ext(ev, "hasattr"):
            return [("v", TRUE, st)]
        if ev.name == "startswith" and ev.recv[0] == ev.args[0][0] == \
                "const":
            return [("v", const(ev.recv[2].startswith(ev.args[0][2])), st)]
        if ev.name == "add" and KLASS in ev.args:
            return [("v", NONE, st.with_mon(st.mon.set(
                stored=st.mon.stored + (ev.recv,))))]
        return None


def making(ctx, bad):
    mc = [c for c in ctx.p.classes.values() if c.module.name == MOD and
          c.find_method("__new__") is not None and "type" in [
              x for x in c.mro() if isinstance(x, str)]]
    if not mc:
        ctx.note("no metaclass of statistics")
        return
    r = Making(ctx)
    i, f, s = (("ext", x) for x in ("int", "float", "str"))
    heap = {("H", NOTES[KLASS], "$dict"): (
        (const("a"), i), (const("b"), f), (const("c"), s)),
        ("H", NOTES[BASE1], "$dict"): (
            (const("d"), f), (const("e"), s), (const("_g"), i)),
        ("H", NOTES[BASE2], "$dict"): ((const("h"), i),)}
    it = Interp(ctx.p, r)
    outs = it.harness(
        "def driver(f, m, n, bases, d):\n    return f(m, n, bases, d)\n",
        st=State(heap, r.initial()),
        f=("func", mc[0].find_method("__new__").fid, None),
        m=("cls", mc[0].cid), n=const("Some"), d=("obj", ("ns",), "dict"),
        bases=("tuple", (BASE2, BASE1)))
    ctx.absorb(it)
    want = tuple(sorted(const(x) for x in "abd"))
    for k, v, st in outs:
        m = st.mon
        if k != "v":
            continue
        if m.metrics and None not in m.metrics and m.metrics[-1] != want:
            bad["metrics"] = "not exactly the numbers of a class and of its " \
                "bases are its metrics"
        if v != KLASS:
            bad["metrics"] = "another class is made"
    if not any(o[2].mon.stored for o in outs):
        bad["metrics"] = "a class of statistics is not reported"


def counters(ctx):
    RU = "statistics"
    ctx.rule(RU, "each statistic counts in a counter of its own; adding, "
             "subtracting and assigning change exactly the named metric; "
             "get_statistics() reports name and value of each metric of each "
             "instance of the demanded kinds")
    bad = {}
    mc = ctx.p.cls(MOD + ".Metric")
    sc = ctx.p.cls(MOD + ".Statistic")
    fn = ctx.p.func(MOD + ".get_statistics")

    def run(src, **env):
        r = Counting(ctx)
        r.metrics = env.pop("metrics", True)
        it, outs = harness(ctx, r, src, mc=("cls", mc.cid),
                           sc=("cls", sc.cid), c=COUNTERS, a=A, b=B, v=VAL,
                           name=NAME, **env)
        return outs

    for op, want in (("__iadd__", "Add"), ("__isub__", "Sub")):
        outs = run(
            "def driver(mc, sc, c, a, b, v, name):\n    m = mc(a, c, name)\n"
            "    n = mc(b, c)\n    r = m.%s(v)\n    return r is m\n" % op)
        if not outs:
            bad["metric"] = "metrics can not be counted"
        for k, v, st in outs:
            m = dict(st.mon.maps)
            if k != "v" or v != TRUE or m.get((COUNTERS, B)) != const(0) or \
                    m.get((COUNTERS, A)) not in (
                        ("op", want, NAME, VAL), ("op", "Add", VAL, NAME)
                        if want == "Add" else None):
                bad["metric"] = "%s does not change its metric, and only " \
                    "that" % op
    for k, v, st in run("def driver(mc, sc, c, a, b, v, name):\n"
                        "    m = mc(a, c)\n    m.__set__(v)\n"
                        "    return m.__get__()\n"):
        if k != "v" or v != VAL:
            bad["metric"] = "the value of a metric is not read back"
    outs = run("def driver(mc, sc, c, a, b, v, name):\n"
               "    s = sc(name)\n    t = sc(name=None)\n"
               "    return (s, t, s.name, t.name)\n", metrics=False)
    if not outs:
        bad["instance"] = "statistics can not be made"
    for k, v, st in outs:
        if k != "v":
            bad["instance"] = "statistics can not be made"
            continue
        s, t, sn, tn = v[1]
        got = {}
        for x in st.mon.log:
            if x[0] == "set" and x[3][0] == "obj" and \
                    x[3][1][:1] == ("metric",):
                if const(x[2]) != x[3][1][1]:
                    bad["instance"] = "a metric has the name of another"
                got.setdefault(x[1], []).append(x[3][1][2])
        for o in (s, t):
            if len(got.get(o, ())) != 2 or len(set(got[o])) != 1:
                bad["instance"] = "an instance does not have all metrics"
            if ("instance", "add", o) not in st.mon.log:
                bad["instance"] = "an instance is not reported"
        if s in got and t in got and set(got[s]) & set(got[t]):
            bad["own"] = "instances share their counter"
        if sn != NAME or tn != NONE:
            bad["instance"] = "the name is lost"
    sm = sc.find_method("__setattr__")
    if sm is None:
        bad["assign"] = "assigning a value replaces the metric"
    else:
        for key, val in ((A, VAL), (const("other"), VAL),
                         (A, ("obj", ("metric", A, COUNTERS), mc.cid))):
            r = Counting(ctx)
            it, outs = harness(
                ctx, r, "def driver(f, s, k, v, c):\n    s._counter = c\n"
                "    f(s, k, v)\n", f=("func", sm.fid, None),
                s=("obj", ("stat",), sc.cid), k=key, v=val, c=COUNTERS)
            for k, v, st in outs:
                m = dict(st.mon.maps)
                plain = ("plain", key, val) in st.mon.log
                if k != "v":
                    bad["assign"] = "assigning raises"
                elif key == A and val == VAL:
                    if plain or m.get((COUNTERS, A)) != VAL:
                        bad["assign"] = "assigning a value replaces the " \
                            "metric"
                elif not plain or m:
                    bad["assign"] = "other attributes can not be set"
    for kinds in ((), (("cls", sc.cid),)):
        r = Counting(ctx)
        it, outs = harness(
            ctx, r, "def driver(fn, kinds):\n"
            "    for x in fn(*kinds):\n        pass\n",
            fn=("func", fn.fid, None), kinds=("tuple", kinds))
        some = False
        for k, v, st in outs:
            if k != "v":
                bad["report"] = "reporting fails"
            for x in st.mon.log:
                if x[0] == "issub":
                    if x[2] not in (("tuple", kinds),) + kinds:
                        bad["kinds"] = "other kinds are reported"
                if x[0] == "result":
                    some = True
                    cur, kind, nm, me, va = x[1:]
                    if kinds and cur is None or cur == "out":
                        bad["kinds"] = "other kinds are reported"
                    if nm[0] != "attr" or nm[2] != "name" or nm[1] == kind:
                        bad["report"] = "the name is not the instance's"
                    if "_counter" not in str(me) + str(va) or me == va:
                        bad["report"] = "the value is not the counted one"
            if not kinds and any(x == ("other",) for x in st.mon.log):
                bad["kinds"] = "kinds are left out"
        if not some:
            bad["report"] = "nothing is reported"
    for x in ("metric", "instance", "own", "assign", "report", "kinds"):
        ctx.require(RU, x, x not in bad, "statistics:" + x,
                    fn.loc() if x in ("report", "kinds") else
                    (mc if x == "metric" else sc).find_method(
                        "__init__").loc(), bad.get(x, ""))


def report(ctx):
    RU = "statistics-reported"
    ctx.rule(RU, "the metrics of a class are the public numbers declared by "
             "it and its bases; every metric of every instance is reported "
             "under the name of the instance, whatever its value")
    bad = {}
    fn = ctx.p.func(MOD + ".get_statistics")
    r = Report(ctx)
    it = Interp(ctx.p, r)
    outs = it.harness(
        "def driver(fn):\n    for x in fn():\n        pass\n",
        st=State({("H", c, "$dict"): ((A, FIRST), (B, SECOND))
                  for c in COUNTS}, r.initial()),
        fn=("func", fn.fid, None))
    ctx.absorb(it)
    want = {(n, m, v) for n in (NAME, NONE) for m, v in (
        (A, FIRST), (B, SECOND))}
    for k, v, st in outs:
        got = {tuple(x[3:]) for x in st.mon.log if x[0] == "result"}
        if k == "v" and got and not any(
                unknown(y) for x in got for y in x[1:]) and got != want:
            bad["report"] = "not every metric of every instance is " \
                "reported under its name"
    making(ctx, bad)
    for x in ("report", "metrics"):
        ctx.require(RU, x, x not in bad, "statistics:all-" + x, fn.loc(),
                    bad.get(x, ""))
