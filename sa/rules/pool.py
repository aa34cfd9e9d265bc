"""Connection pools as scenarios of users, failures and time.

The instances are tokens: created, checked and destroyed by a subclass which
does what the scenario says at each of these awaits, and lets others act
there. Everything is decided from what can be observed: who owns which
instance, what was checked, destroyed, and what len() tells meanwhile."""
from .coop import CANCELLED_WAIT, Coop
from .lib import *
from .world import LOOP

MOD = "aiomisc.pool"
GO = ("sym", "$go", "callable")
BODY = ("sym", "$body", "callable")
KEY = ("exc", "KeyError", False, "user")
BASEX = ("exc", "KeyboardInterrupt", True, "user")
RESULT = ("sym", "result of the body", None)
MAX = 2
REC = 10
HOW = {"raises": KEY, "cancelled": CANCEL, "exits": BASEX}
OURS = ("_create_instance", "_check_instance", "_destroy_instance")
NAMES = {
    "acquire": ("permits", "miscounted", "too-many", "lost", "shared",
                "unchecked", "hangs", "fails", "error-lost"),
    "release": ("expiry", "dropped", "outcome", "reuse", "fails"),
    "lifecycle": ("recycler-ends", "not-destroyed", "destroyed-twice",
                  "in-use", "not-closed", "close-hangs", "close-fails",
                  "tasks-left")}


def enter(j, *plan):
    return ("enter", j, plan)


def leave(j):
    return ("leave", j)


class PoolRule(Coop):
    """create, check, destroy: number -> (how, what others do meanwhile)."""
    max_log = 200
    max_depth = 24
    rand = 0.5
    create = {}
    check = {}
    destroy = {}
    body = ("ok", ())

    def initial(self):
        return self.coop_mon(cms=(), alive=(), counts=(), lim=(), api=())

    # steps ----------------------------------------------------------------
    def act(self, it, ev, step, st):
        k = step[0]
        p, acq, ent, ext, length, close, using = st.mon.api
        if k in ("enter", "again"):
            j = step[1]

            def body(s):
                old = dict(s.mon.cms).get(j)
                if k == "again":
                    return self.awaited(it, 40 + j, ent, [old], s)
                out = []
                for k2, v, s2 in it.call(acq, [], {}, self.place(10 + j),
                                         it.top_frame(), s):
                    if k2 == "raise":
                        out.append((k2, v, s2))
                        continue
                    s2 = self.put(s2, cms=tuple(
                        c for c in s2.mon.cms if c[0] != j) + ((j, v),))
                    out += self.awaited(it, 20 + j, ent, [v], s2)
                return out
            return self.settled(it, self.actor(
                it, j, step[2] if len(step) > 2 else (), st, body, k))
        if k == "leave":
            j = step[1]
            if j not in self.inside(st):
                return [st]
            for x in reversed(st.mon.log):
                if x[0] == "ended" and x[1] == j and x[2] == "v":
                    st = self.expire(st, x[3])
                    break
            return self.settled(it, self.actor(
                it, j, (), st, lambda s: self.awaited(it, 60 + j, ext, [
                    dict(s.mon.cms)[j]], s), k))
        if k == "use":
            j = step[1]
            return self.settled(it, self.actor(
                it, j, step[2] if len(step) > 2 else (), st, lambda s:
                self.awaited(it, 80 + j, using, [p, BODY], s), k))
        if k == "leave all":
            cur = [st]
            for j in self.inside(st):
                cur = [s2 for s in cur for s2 in self.act(
                    it, ev, leave(j), s)]
            return cur
        if k == "recycle":
            return self.recycle(it, ev, step[1:], st)
        if k == "close":
            return self.actor(it, "close", (), st, lambda s: self.awaited(
                it, 95, close, [step[1]], s), k)
        return super().act(it, ev, step, st)

    def inside(self, st):
        js = []
        for x in st.mon.log:
            if x[0] == "ended" and x[2] == "v" and x[3][0] == "obj":
                js.append(x[1])
            elif x[0] == "leave" and x[1] in js:
                js.remove(x[1])
        return js

    def settled(self, it, states):
        return [s2 for s in states for s2 in self.measure(it, s)]

    def expire(self, st, inst):
        """What is given back may be too old."""
        born = [x[2] for x in st.mon.log if x[:2] == ("born", inst)]
        age = st.mon.now - born[0] if born else 0
        if self.rec and age > 2 * self.rec:
            st = self.gone(st, inst)
            st = self.log(st, "old", inst)
        elif self.rec and age > self.rec:
            st = self.log(st, "may be old", inst)
        return st

    def gone(self, st, x):
        return self.put(st, alive=tuple(y for y in st.mon.alive if y != x))

    def measure(self, it, st):
        """What len() of the pool tells at this moment."""
        out = []
        for k, v, s in it.call(st.mon.api[4], [], {}, self.place(96),
                               it.top_frame(), st):
            out.append(self.log(s, "len", v[2] if k == "v" and is_const(v)
                                else None, len(s.mon.alive)))
        return out

    def recycle(self, it, ev, plan, st):
        """The tasks of the pool go on for as long as they can."""
        m = st.mon
        res = [st]
        for t, status in m.tasks:
            if t[0] != "task" or status is not None or t in self.running:
                continue
            nx = []
            for s in res:
                keep, self.blocked = self.blocked, []
                outs = []
                for k, v, s2 in self.as_who(it, ("task", t), self.put(
                        s, plan=plan), lambda q: [
                            ("v", NONE, x) for x in self.run_task(
                                it, t, q, ev)]):
                    k, v = self.status(t, s2)
                    outs.append(self.log(self.put(s2, plan=s.mon.plan),
                                         "task over", k, v))
                for loc, who, s2 in self.blocked:
                    if who == ("task", t):
                        outs.append(self.put(s2, who=s.mon.who,
                                             ctx=s.mon.ctx, plan=s.mon.plan))
                    else:
                        keep.append((loc, who, s2))
                self.blocked = keep
                nx += outs
            res = nx
        return [self.log(s, "recycled") for s in res]

    # hooks ----------------------------------------------------------------
    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind == "call" and ev.callee == GO:
            st = self.put(st, api=tuple(ev.args))
            return [("v", NONE, s) for s in self.act(
                it, ev, ("seq", self.steps), st)]
        if ev.kind == "call" and ev.callee == BODY:
            return [("v", ("aw", "$body", tuple(ev.args), (), len(m.log)),
                     st)]
        if ev.kind == "call" and ev.name in OURS and ev.extra != "ext":
            return [("v", ("aw", ev.name, tuple(ev.args), (), len(m.log)),
                     st)]
        if is_ext(ev, "random.random"):
            return [("v", const(self.rand), st)]
        return super().on_call(it, ev, st)

    def on_attr(self, it, base, name, st):
        return LOOP if name == "_loop" else None

    def lock(self, it, ev, x, st):
        if any(h[0] == x for h in st.mon.held):
            st = self.log(st, "at lock", self.me(st))
        return super().lock(it, ev, x, st)

    def note(self, it, ev, st):
        if ev.kind == "await" and ev.value[0] == "aw" and \
                ev.value[1] == "wait_for":
            v = ev.value
            limit = dict(v[3]).get(
                "timeout", v[2][1] if len(v[2]) > 1 else NONE)
            st = self.put(st, lim=st.mon.lim + (limit,))
        return super().note(it, ev, st)

    def on_await(self, it, ev, st):
        v = ev.value
        if v[0] != "aw" or v[1] not in OURS + ("$body",):
            return super().on_await(it, ev, st)
        m = st.mon
        what = v[1].strip("$_").split("_")[0]
        n = dict(m.counts).get(what, 0)
        st = self.put(st, counts=tuple(
            c for c in m.counts if c[0] != what) + ((what, n + 1),))
        me = self.me(st)
        if what == "body":
            how, inside = self.body
            x = v[2][0]
        elif what == "create":
            how, inside = self.create.get(n, ("ok", ()))
            x = ("obj", ("instance", n), None)
            st = self.put(st, alive=st.mon.alive + (x,))
        else:
            how, inside = getattr(self, what).get(n, ("ok", ()))
            x = v[2][-1] if v[2] else NONE
            if what == "destroy":
                st = self.gone(st, x)
        st = self.log(st, what, x, me)
        cur = [st] if what == "destroy" else self.measure(it, st)
        for step in inside:
            cur = [s2 for s in cur for s2 in self.act(it, ev, step, s)]
        out = []
        for s in cur:
            if how == "stuck":
                self.blocked.append((ev.loc(), s.mon.who, s))
                continue
            s = self.log(s, what + "d", x, how, me)
            if what == "create":
                if how == "ok":
                    s = self.log(s, "born", x, s.mon.now)
                else:
                    s = self.gone(s, x)
            if what == "check" and how in ("bad", "raises"):
                s = self.gone(s, x)
            if what == "body":
                s = self.expire(s, x)
            if how in HOW:
                out.append(("raise", HOW[how], s))
            elif what == "create":
                out.append(("v", x, s))
            elif what == "check":
                out.append(("v", FALSE if how == "bad" else TRUE, s))
            else:
                out.append(("v", RESULT if what == "body" else NONE, s))
        return out


DRIVER = """
async def driver(C, n, rec, go):
    p = C(n, rec)
    async def ent(c):
        return await c.__aenter__()
    async def ext(c):
        return await c.__aexit__(None, None, None)
    async def close(t):
        return await p.close(t)
    async def using(p, body):
        async with p.acquire() as x:
            return await body(x)
    go(p, p.acquire, ent, ext, lambda: len(p), close, using)
"""


class End:
    def __init__(self, r, s):
        self.r, self.st, self.log = r, s, s.mon.log


def scenario(ctx, *steps, rec=None, **kw):
    c = ctx.p.cls(MOD + ".PoolBase")
    r = PoolRule(ctx, steps=steps, rec=rec, **kw)
    it, outs = harness(ctx, r, DRIVER, C=("cls", c.cid), n=const(MAX),
                       rec=const(rec), go=GO)
    ends = [End(r, s) for k, v, s in outs if s.mon.api]
    if not ends:
        raise AnalysisBroken("no scenario of the pool analysed")
    return ends


def holders(log):
    """Who certainly has a permit, and who is in the middle of acquire()."""
    have, inside = set(), set()
    for x in log:
        if x[0] in ("create", "check") and x[2] is not None:
            inside.add(x[2])
        elif x[0] == "at lock":
            inside.add(x[1])
        elif x[0] in ("enter", "use"):
            inside.discard(x[1])
        elif x[0] == "body":
            inside.discard(x[2])
            have.add(x[2])
        elif x[0] == "leave":
            have.discard(x[1])
        elif x[0] == "ended":
            inside.discard(x[1])
            if x[2] == "v" and x[3][0] == "obj":
                have.add(x[1])
            else:
                have.discard(x[1])
        elif x[0] == "waits" and x[1] in have:
            have.discard(x[1])
    return have | inside


def judge(e, add):
    """Everything which holds in every scenario."""
    owner, good, dead, dropped, kept, born = {}, {}, [], [], [], []
    closing = False
    what = {}
    injected = {}
    for i, x in enumerate(e.log):
        k = x[0]
        if k in ("enter", "leave", "use", "again", "close"):
            what[x[1]] = k
            injected.setdefault(x[1], [])
            if k == "leave":
                for o in [o for o, j in owner.items() if j == x[1]]:
                    del owner[o]
                    good.pop(o, None)
            closing = closing or k == "close"
        elif k == "born":
            born.append(x[1])
        elif k == "len":
            if x[1] is not None and x[1] != x[2]:
                add("acquire", "miscounted", "%d instances are counted as %d"
                    % (x[2], x[1]))
            if x[2] > MAX:
                add("acquire", "too-many", "the pool has %d instances, its "
                    "maximum is %d" % (x[2], MAX))
        elif k == "check":
            if x[1] in dead:
                add("lifecycle", "in-use", "a destroyed instance is used "
                    "again")
        elif k in ("checkd", "created", "bodyd"):
            if k == "checkd":
                good[x[1]] = x[2] == "ok"
                if x[2] in ("bad", "raises"):
                    dropped.append(x[1])
            if x[2] in HOW and not (k == "checkd" and x[2] == "raises"):
                injected.setdefault(x[3], []).append(HOW[x[2]])
        elif k == "destroy":
            if x[1] in dead:
                add("lifecycle", "destroyed-twice", "an instance is "
                    "destroyed twice")
            if not closing and x[1] in owner:
                add("lifecycle", "in-use", "an instance is destroyed while "
                    "it is in use")
            elif not closing and x[1] not in dropped:
                add("release", "dropped", "an instance is dropped although "
                    "nothing is wrong with it")
            dead.append(x[1])
        elif k == "body":
            get(owner, good, dead, x[1], x[2], add)
        elif k in ("old", "may be old"):
            dropped.append(x[1])
            if k == "old":
                kept.append(x[1])
        elif k == "waits":
            w = what.get(x[1])
            if w == "close":
                continue
            if w == "leave":
                add("release", "fails", "giving an instance back does not "
                    "end")
            elif ("at lock", x[1]) not in e.log and len(
                    holders(e.log[:i]) - {x[1]}) < MAX:
                add("acquire", "hangs", "acquire() waits although less than "
                    "%d instances are in use" % MAX)
        elif k == "ended":
            end(e, i, x, what.get(x[1]), owner, good, dead, injected, add)
        elif k == "task over":
            if not closing:
                add("lifecycle", "recycler-ends", "a task of the pool is "
                    "over: %s" % (x[2][1] if x[1] == "raise" else "return"))
        elif k == "recycled":
            for y in dropped:
                if y not in dead and (y in kept or not good.get(y)):
                    name = "expiry" if y in kept else "not-destroyed"
                    add("release" if y in kept else "lifecycle", name,
                        "an instance which is too old or failed its check "
                        "is not destroyed")
    return dead, born


def get(owner, good, dead, x, j, add):
    if x in owner and owner[x] != j:
        add("acquire", "shared", "an instance is handed out twice at the "
            "same time")
    if not good.get(x):
        add("acquire", "unchecked", "an instance is handed out which did "
            "not pass its check right before")
    if x in dead:
        add("lifecycle", "in-use", "a destroyed instance is handed out")
    owner[x] = j


def end(e, i, x, w, owner, good, dead, injected, add):
    j, k, v = x[1:4]
    if w == "again":
        if k == "v":
            add("release", "reuse", "a context is entered twice")
        return
    if w == "enter" and k == "v":
        if v[0] != "obj" or v[1][0] != "instance":
            add("acquire", "lost", "acquire() gives %s" % (v[1],))
        else:
            get(owner, good, dead, v, j, add)
    elif w == "enter":
        inj = injected.get(j, [])
        if v in inj or is_cancel(v) and CANCELLED_WAIT in e.r.flat:
            return
        add("acquire", "error-lost" if inj else "fails",
            "acquire() fails with %s" % v[1])
    elif w == "leave" and k == "raise":
        add("release", "fails", "giving an instance back fails with %s" %
            v[1])
    elif w == "use":
        inj = injected.get(j, [])
        how = e.r.body[0]
        want = ("raise", HOW[how]) if how in HOW else ("v", RESULT)
        if ("body", j) not in [(y[0], y[2]) for y in e.log if y[0] == "body"]:
            return
        if (k, v) != want:
            add("release", "outcome", "the body ends with %s, its context "
                "with %s" % (want[1][1], v[1] if v != NONE else None))
        for o in [o for o, q in owner.items() if q == j]:
            del owner[o]
            good.pop(o, None)


def probe(n=0):
    """MAX more users get an instance each, another one waits."""
    return tuple(enter(80 + i) for i in range(n, MAX + 1))


def failing(how):
    return {0: (how, ())}


def flat(steps):
    out = []
    for s in steps:
        if isinstance(s, tuple):
            if s and isinstance(s[0], str):
                out.append(s)
            out += flat(s)
    return out


def acquired():
    """Scenarios of users."""
    yield "three users", (enter(0), enter(1), enter(2)), {}
    yield "the third waits for the first", (
        enter(0), enter(1), enter(2, leave(0)), enter(3, leave(1))), {}
    yield "cancelled while waiting", (
        enter(0), enter(1), enter(2, CANCELLED_WAIT), leave(0), leave(1)), {}
    yield "used again", (enter(0), leave(0), enter(1), leave(1)), {}
    yield "idle instances", (
        enter(0), enter(1), leave(0), leave(1), enter(2), enter(3)), {}
    for how in ("raises", "cancelled", "exits"):
        yield "creation " + how, (enter(0),), dict(create=failing(how))
        yield "creation %s, others meanwhile" % how, (enter(0), leave(1)), \
            dict(create={0: (how, (enter(1), enter(2)))})
        yield "second creation " + how, (enter(0), enter(1), leave(0)), \
            dict(create={1: (how, ())})
        yield "creation %s after a check" % how, (enter(0),), \
            dict(check=failing("bad"), create={1: (how, ())})
    for how in ("bad", "raises", "cancelled", "exits"):
        yield "check " + how, (enter(0),), dict(check=failing(how))
        yield "check %s, others meanwhile" % how, (enter(0), leave(1)), \
            dict(check={0: (how, (enter(1),))})
        yield "check of an idle instance " + how, (
            enter(0), enter(1), leave(0), leave(1), enter(2)), \
            dict(check={2: (how, (enter(3),))})
        yield "check %s twice" % how, (
            enter(0), enter(1), leave(0), leave(1), enter(2)), \
            dict(check={2: (how, ()), 3: (how, ())})
        yield "check %s, the pool is full" % how, (
            enter(0), enter(1), leave(0), enter(2)), \
            dict(check={2: (how, (enter(3, leave(1)),))})
    yield "others while one is created", (enter(0),), \
        dict(create={0: ("ok", (enter(1), enter(2)))})
    yield "others leave while one is created", (enter(0), enter(1)), \
        dict(create={1: ("ok", (leave(0), enter(2)))})
    yield "two created at once", (enter(0),), dict(create={
        0: ("ok", (enter(1),)), 1: ("ok", (enter(2),))})
    yield "others while one is checked", (enter(0),), \
        dict(check={0: ("ok", (enter(1), leave(1), enter(2), enter(3)))})
    yield "a failed one is replaced by others", (
        enter(0), enter(1), leave(0), leave(1), enter(2)), dict(
            check={2: ("bad", (enter(3),))},
            create={2: ("ok", (leave(3), enter(4)))})
    yield "both failed", (
        enter(0), enter(1), leave(0), leave(1), enter(2)), dict(
            check={2: ("bad", (enter(3),)), 3: ("bad", ())})


def released():
    """Scenarios of contexts: bodies, ages."""
    for how in ("ok",) + tuple(HOW):
        yield "a body which " + how, (("use", 0), enter(1), leave(1)), dict(
            body=(how, (enter(2), leave(2))))
        yield "a body of an old instance which " + how, (
            ("use", 0), ("recycle",), enter(1)), dict(body=(how, (
                ("tick", 2 * REC + 5),)), rec=REC)
    for dt in (1, 9, 21, 25):
        for r in (0.0, 0.5, 0.999):
            yield "given back after %d s" % dt, (
                enter(0), ("tick", dt), leave(0), ("recycle",)), dict(
                    rec=REC, rand=r)
        yield "used twice within %d s" % dt, (
            enter(0), ("tick", 1), leave(0), ("tick", dt - 1), enter(1),
            ("recycle",), leave(1), ("recycle",)), dict(rec=REC)
        yield "two, given back after %d s" % dt, (
            enter(0), enter(1), ("tick", dt), leave(0), enter(2), leave(1),
            leave(2), ("recycle",)), dict(rec=REC)
        yield "given back after %d s to somebody who waits" % dt, (
            enter(0), enter(1), ("tick", dt), enter(2, leave(0)),
            ("recycle",)), dict(rec=REC)
    yield "a long creation", (enter(0), leave(0), ("recycle",)), dict(
        create={0: ("ok", (("tick", 50),))}, rec=REC)
    yield "after years", (enter(0), ("tick", 10 ** 6), leave(0),
                          ("recycle",)), {}
    yield "entered again", (enter(0), ("again", 0), leave(0)), {}
    yield "entered again after it was left", (
        enter(0), leave(0), ("again", 0)), {}
    yield "entered again while full", (
        enter(0), enter(1), leave(1), ("again", 1)), {}


def ended():
    """Scenarios of the end of instances and of the pool."""
    for how in ("ok", "raises"):
        yield "dropped instances whose end " + how, (
            enter(0), ("recycle",), enter(1), ("recycle",)), dict(
                check={0: ("bad", ()), 2: ("bad", ())},
                destroy={0: (how, ())})
        yield "several dropped instances, the end of one " + how, (
            enter(0), ("recycle",)), dict(
                check={0: ("bad", ()), 1: ("bad", ()), 2: ("raises", ())},
                destroy={1: (how, ())})
    yield "dropped while another one is destroyed", (
        enter(0), ("recycle", enter(1))), dict(
            check={0: ("bad", ()), 2: ("bad", ())},
            destroy={0: ("raises", (leave(0),))})
    for how in ("ok", "raises"):
        for k in (0, 1, 2):
            yield "closing, the end of instance %d %s" % (k, how), (
                enter(0), enter(1), leave(0)), dict(
                    check={1: ("bad", ())}, destroy={k: (how, ())},
                    only=True)
    yield "closing with instances in use", (enter(0), enter(1)), dict(
        only=True)
    yield "closing with idle instances", (
        enter(0), enter(1), leave(0), leave(1)), dict(only=True)
    yield "closing an unused pool", (), dict(only=True)
    yield "closing twice", (enter(0), ("close", NONE)), dict(only=True)


def run_all(ctx, add):
    for fam in (acquired, released, ended):
        for name, steps, kw in fam():
            kw = dict(kw)
            only, rec = kw.pop("only", False), kw.pop("rec", None)
            tails = [()]
            if not only:
                tails.append((("leave all",), ("recycle",)) + probe())
            for tail in tails:
                one(ctx, name, tuple(steps) + tail + (
                    ("close", NONE),), kw, rec, add)
    # an end of an instance which takes for ever
    for k in (0, 1):
        ends = scenario(ctx, enter(0), enter(1), ("close", const(5)),
                        destroy={k: ("stuck", ())})
        over = [e for e in ends if any(x[:2] == ("ended", "close")
                                       for x in e.log)]
        if not over:
            add("lifecycle", "close-hangs", "close() does not end when its "
                "time is over")
        if any(x != const(5) for e in over for x in e.st.mon.lim):
            add("lifecycle", "close-hangs", "close() does not keep to its "
                "timeout")
        if len({x[1] for e in ends for x in e.log if x[0] == "destroy"}) < 2:
            add("lifecycle", "not-closed", "an instance is not destroyed "
                "when the end of another one hangs")


def one(ctx, name, steps, kw, rec, add):
    for e in scenario(ctx, *steps, rec=rec, flat=flat((steps,)), **kw):
        def add2(what, n, msg):
            add(what, n, "%s: %s" % (name, msg))
        dead, born = judge(e, add2)
        over = [x for x in e.log if x[:2] == ("ended", "close")]
        if not over:
            add2("lifecycle", "close-hangs", "close() does not end")
            continue
        if over[-1][2] == "raise":
            add2("lifecycle", "close-fails", "close() fails with %s" %
                 over[-1][3][1])
            continue
        for x in born:
            if x not in dead:
                add2("lifecycle", "not-closed", "an instance is not "
                     "destroyed when the pool is closed")
        for t, status in e.st.mon.tasks:
            if t[0] == "task" and status is None:
                add2("lifecycle", "tasks-left", "a task of the pool is left "
                     "when it is closed")


def findings(ctx):
    bad = {}
    run_all(ctx, lambda what, n, msg: bad.setdefault((what, n), msg))
    return bad


def report(ctx, R, what, desc):
    ctx.rule(R, desc)
    f = ctx.p.cls(MOD + ".PoolBase").find_method(
        "close" if what == "lifecycle" else "acquire")
    bad = findings(ctx)
    for x in NAMES[what]:
        ctx.require(R, what + " " + x, (what, x) not in bad, "PoolBase:" + x,
                    f.loc(), bad.get((what, x), ""))


def acquiring(ctx):
    report(ctx, "pool-users", "acquire",
           "users enter, wait, leave, fail and are cancelled in every "
           "arrangement of a list of scenarios, with others acting at each "
           "creation and check: never more than maxsize instances, counted "
           "exactly; each is handed out checked and to one user at a time; "
           "acquire() waits only while maxsize are in use and fails only "
           "with the error of a creation or with the cancellation of its "
           "user; afterwards maxsize users find an instance again")


def releasing(ctx):
    report(ctx, "pool-contexts", "release",
           "contexts whose body ends in every way, at every age of the "
           "instance: the outcome is the one of the body, an instance older "
           "than its recycle time is dropped and a younger one is not; a "
           "context is entered once")


def lifecycle(ctx):
    report(ctx, "pool-lifecycle", "lifecycle",
           "every instance created in any scenario is destroyed exactly "
           "once, never while it is in use: dropped ones by the recycler "
           "task, which goes on after errors, all others by close(), which "
           "keeps to its timeout and leaves no task")
