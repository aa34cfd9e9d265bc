"""chunk_list(): nothing is lost, moved or shared."""
from .lib import *

OUT = ("sym", "out", None)
XS = ("obj", ("xs",), "list")
ITEMS = (NONE, ("obj", ("x1",), "label"), const(0), FALSE, const(""))
ENOUGH = ("exc", "KeyError", True, "enough")


class Chunks(Plain):
    fold = 12
    fresh_new = True

    def __init__(self, ctx, **kw):
        super().__init__(ctx, **kw)
        self.unsure = False

    def initial(self):
        return Mon(out=())

    def on_call(self, it, ev, st):
        if ev.kind != "call" or ev.callee != OUT:
            return None
        m = st.mon
        if len(m.out) > 8:
            return [("raise", ENOUGH, st)]
        ps = it.exact_parts(ev.args[0], st)
        if ps is None or any(x[0] == "star" for x in ps):
            self.unsure = True
            return []
        return [("v", NONE, st.with_mon(m.set(out=m.out + (
            (ev.args[0], tuple(ps)),))))]


def chunks(ctx):
    R = "chunks"
    ctx.rule(R, "the chunks of chunk_list(), one after the other, are the "
             "elements of its argument in their order; every chunk but the "
             "last has exactly the size asked for, the last one is not "
             "empty, and a chunk handed out is not changed afterwards")
    f = ctx.p.func("aiomisc.utils.chunk_list")
    bad = {}
    n = 0
    for kind in ("list", "iterator"):
        for count in range(len(ITEMS) + 1):
            for size in (1, 2, 3, 7):
                r = Chunks(ctx)
                xs = ITEMS[:count]
                st = State({("H", XS, "$parts"): xs,
                            ("H", XS, "[]"): frozenset(xs)}, r.initial())
                it = Interp(ctx.p, r)
                outs = it.harness(
                    "def driver(chunk_list, xs, n, out):\n"
                    "    for c in chunk_list(%s, n):\n"
                    "        out(c)\n" % (
                        "xs" if kind == "list" else "iter(xs)"), st=st,
                    chunk_list=("func", f.fid, None), xs=XS, n=const(size),
                    out=OUT)
                ctx.absorb(it)
                if r.unsure:
                    continue
                want = [xs[i:i + size] for i in range(0, count, size)]
                if not outs:
                    bad["ends"] = "the chunks of %d elements never end" % \
                        count
                for k, v, s in outs:
                    n += 1
                    got = [x[1] for x in s.mon.out]
                    what = "%d elements (%s) in chunks of %d: %s" % (
                        count, kind, size, [len(x) for x in got])
                    if k == "raise" and v == ENOUGH:
                        bad["ends"] = "the chunks of %d elements never " \
                            "end" % count
                    elif k == "raise":
                        bad["raises"] = "%d elements raise %s" % (
                            count, v[1])
                    elif [x for c in got for x in c] != list(xs):
                        bad["elements"] = what
                    elif got != want:
                        bad["sizes"] = what
                    for c, ps in s.mon.out:
                        if it.exact_parts(c, s) not in (None, ps, list(ps)):
                            bad["shared"] = "a chunk is changed after it " \
                                "was handed out"
    for x in ("ends", "raises", "elements", "sizes", "shared"):
        ctx.require(R, x, x not in bad, "chunk_list:" + x, f.loc(),
                    bad.get(x, ""))
