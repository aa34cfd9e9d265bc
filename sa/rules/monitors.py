"""What the memory tracer, the profiler and the Carbon sender report."""
from .lib import *
from .lifecycle import Life, LOOP, RUN, PROF, HERR

INTERVAL = ("obj", ("interval",), "int")
OUT = ("sym", "out", "callable")
STATS = [("obj", ("statdiff", i), "statdiff") for i in range(3)]
DIFF = ("obj", ("diff",), "list")
COLUMNS = ("count", "count_diff", "size", "size_diff", "traceback")
REPORT = ("obj", ("report",), "label")
STREAM = ("obj", ("stream",), "label")
STREAMS = (STREAM, ("attr", STREAM, "$entered"))
STORAGE = ("obj", ("storage",), "label")
SPACES = ("", "Some where", "b-c")
PSTATS = ("obj", ("pstats",), "external")
NAME = ("obj", ("name",), "label")
PATH = ("obj", ("path",), "label")
ORDER = ("obj", ("order",), "label")
TOP = ("obj", ("top",), "label")


def SNAP(i):
    return ("obj", ("snapshot", i), "snapshot")


def STRIPPED(v):
    return ("obj", ("stripped", v), "label")


class Monitor(Life):
    seen = joined = ()

    def on_attr(self, it, base, name, st):
        if base in STATS:
            self.seen.add((base[1][1], name))
        return super().on_attr(it, base, name, st)

    def on_call(self, it, ev, st):
        n, r = ev.name, ev.recv
        if ev.kind == "enter" and r == STREAM:
            return [("v", STREAM, st)]
        log = st.mon.log
        if ev.kind == "call":
            if is_ext(ev, "tracemalloc.take_snapshot"):
                i = len([x for x in log if x[0] == "snap"])
                return [("v", SNAP(i), self.add(st, "snap", i))]
            if r is not None and r[:1] == ("obj",) and r[1][:1] == (
                    "snapshot",) and n == "compare_to":
                return [("v", DIFF, self.add(
                    st, "compare", r, kwarg(ev, "old_snapshot", 0, NONE),
                    kwarg(ev, "key_type", 1, NONE)))]
            if isinstance(ev.extra, FuncInfo) and n == "humanize":
                return [("v", ("obj", ("human",) + tuple(ev.args), "label"),
                         st)]
            if isinstance(ev.extra, FuncInfo) and n == "strip_carbon_ns":
                return [("v", STRIPPED(bound(ev)[0]), st)]
            if n == "join" and r == const(".") and ev.args:
                ps = it.exact_parts(ev.args[0], st)
                if ps is None:
                    ps = it.elements(ev.args[0], st)
                self.joined.append(tuple(ps or ()))
            if ev.callee == NAME:
                return [("v", STORAGE, st)]
            if ev.callee == OUT:
                return [("v", NONE, self.add(st, "out", tuple(ev.args)))]
            if is_ext(ev, "pstats.Stats"):
                return [("v", PSTATS, self.add(
                    st, "stats", tuple(ev.args), kwarg(
                        ev, "stream", 99, NONE)))]
            if r == PSTATS:
                out = [("v", PSTATS, self.add(st, n, tuple(ev.args) + tuple(
                    v for k, v in sorted(ev.kw.items()))))]
                if n == "dump_stats":
                    out.append(("raise", HERR, out[0][2]))
                return out
            if is_ext(ev, "io.StringIO"):
                return [("v", STREAM, st)]
            if r == STREAM and n == "__enter__":
                return [("v", STREAM, st)]
            if r in STREAMS and n == "getvalue":
                return [("v", REPORT, self.add(st, "getvalue"))]
            if n in ("info", "warning", "debug", "error") and \
                    REPORT in ev.args:
                return [("v", NONE, self.add(st, "logged", REPORT))]
        return super().on_call(it, ev, st)

    def on_await(self, it, ev, st):
        w = unwrap_aw(ev.value)
        if w[0] == "aw" and w[1] == "thread":
            return [(k, v, s.with_mon(s.mon.set(thread=False)))
                    for k, v, s in run_raw(it, w, ev, st.with_mon(
                        st.mon.set(thread=True)))]
        return super().on_await(it, ev, st)


T = "aiomisc.service.tracer.MemoryTracer"
P = "aiomisc.service.profiler.Profiler"
C = "aiomisc.service.carbon.CarbonSender"


def drive(ctx, name, body, **opt):
    c = ctx.p.cls(name)
    r = Monitor(ctx, **opt)
    r.log_calls = True
    r.seen, r.joined = set(), []
    src = ("async def driver(cls, loop, run, out, i, n, p, o, t, g):\n"
           "    s = cls()\n    s.set_loop(loop)\n    s.interval = i\n" +
           "".join("    %s\n" % b for b in body))
    heap = {("H", DIFF, "$parts"): tuple(STATS),
            ("H", DIFF, "[]"): frozenset(STATS)}
    it = Interp(ctx.p, r)
    outs = it.harness(src, st=State(heap, r.initial()), cls=("cls", c.cid),
                      loop=LOOP, run=RUN, out=OUT, i=INTERVAL, n=NAME,
                      p=PATH, o=ORDER, t=TOP, g=("const", "enum:aiomisc.service.tracer.GroupBy", "filename"))
    ctx.absorb(it)
    return it, outs


def tracer(ctx, bad):
    it, outs = drive(ctx, T, [
        "s.logger = out", "s.top_results = 2", "s.group_by = g",
        "s.name = n", "await s.start()", "run()", "run()", "return 1"])
    if not any(k == "v" and [x for x in s.mon.log if x[0] == "out"]
               for k, v, s in outs):
        bad["tracer"] = "the tracer reports nothing"
    for k, v, s in outs:
        log = s.mon.log
        if k != "v":
            continue
        if [x[1:3] for x in log if x[0] == "compare"] != [
                (SNAP(1), SNAP(0)), (SNAP(2), SNAP(0))]:
            bad["tracer"] = "not the current snapshot is compared to the " \
                "one of the start"
        if any(x[3] != const("filename") and not unknown(x[3])
               for x in log if x[0] == "compare"):
            bad["tracer"] = "the memory is grouped otherwise"
        if len([x for x in log if x[0] == "out"]) != 2:
            bad["tracer"] = "the differences are not reported each time"
        interval(log, bad, "tracer")
    seen = {x for x in it.rule.seen if x[1] in COLUMNS}
    if not {(i, c) for i in (0, 1) for c in COLUMNS} <= seen:
        bad["tracer"] = "a part of the differences is not reported"
    if any(i == 2 for i, c in seen):
        bad["tracer"] = "more differences are reported than asked for"


def interval(log, bad, name):
    for x in log:
        if x[0] == "started" and (x[2] + (dict(x[3]).get("interval"),)
                                  )[0] != INTERVAL:
            bad[name] = "the interval is another one"


def profiler(ctx, bad):
    for path in (PATH, NONE):
        it, outs = drive(ctx, P, [
            "s.path = p" if path == PATH else "s.path = None",
            "s.order = o", "s.top_results = t", "await s.start()", "run()",
            "run()"])
        if not outs:
            bad["profiler"] = "the profiler does not start"
        for k, v, s in outs:
            log = s.mon.log
            interval(log, bad, "profiler")
            if k != "v":
                continue
            names = [x[0] for x in log]
            if names.count("logged") != 2 or names.count("stats") != 2:
                bad["profiler"] = "the statistics are not logged each time"
            for x in log:
                if x[0] == "stats" and (
                        x[1][:1] != (PROF,) or x[2] not in STREAMS):
                    bad["profiler"] = "not the statistics of the profiler " \
                        "are logged"
                if x[0] == "sort_stats" and x[1] != (ORDER,):
                    bad["profiler"] = "the statistics have another order"
                if x[0] == "print_stats" and x[1] != (TOP,):
                    bad["profiler"] = "not as many results are printed as " \
                        "asked for"
                if x[0] == "dump_stats" and x[1] != (path,):
                    bad["profiler"] = "the statistics are written elsewhere"
            if names.count("sort_stats") != 2 or \
                    names.count("print_stats") != 2:
                bad["profiler"] = "the statistics are not printed in order"
            if names.count("dump_stats") != (2 if path == PATH else 0):
                bad["profiler"] = "the statistics are not written to the path"
            i = [j for j, x in enumerate(names) if x in (
                "print_stats", "getvalue")]
            if [names[j] for j in i] != ["print_stats", "getvalue"] * 2:
                bad["profiler"] = "the statistics are logged before they " \
                    "are printed"


def carbon(ctx, bad):
    for proto in ("udp", "tcp", "pickle"):
        it, outs = drive(ctx, C, [
            "s.namespace = %r" % list(SPACES), "s.storage = n",
            "s.protocol = %r" % proto, "await s.start()"])
        if not outs:
            bad["carbon"] = "the sender does not start"
        for x in it.rule.joined:
            if x and not any(unknown(y) for y in x) and x != tuple(
                    STRIPPED(const(y)) for y in SPACES):
                bad["carbon"] = "the namespace is another one"
        for k, v, s in outs:
            for x in s.mon.log:
                if x[0] != "carbon":
                    continue
                if proto not in x[1].lower():
                    bad["carbon"] = "the protocol is another one"
                if dict(x[3]).get("storage") != STORAGE:
                    bad["carbon"] = "the storage is another one"
    it, outs = drive(ctx, C, ["s.protocol = 'other'", "await s.start()"])
    if any(x[0] == "carbon" for k, v, s in outs for x in s.mon.log):
        bad["carbon"] = "an unknown protocol is not refused"


def monitors(ctx):
    RU = "monitors"
    ctx.rule(RU, "the memory tracer compares every snapshot with the one of "
             "its start, grouped and limited as configured; the profiler "
             "prints and dumps its statistics as configured; the Carbon "
             "sender uses the namespace and storage it was given")
    bad = {}
    tracer(ctx, bad)
    profiler(ctx, bad)
    carbon(ctx, bad)
    for x, cid, f in (
            ("tracer", T, "show_stats"), ("profiler", P, "save_stats"),
            ("carbon", C, "start")):
        c = ctx.p.cls(cid)
        ctx.require(RU, x, x not in bad, "monitors:" + x,
                    (c.find_method(f) or c).loc(), bad.get(x, ""))
