"""Retries: what is retried, how often, what comes out."""
from .lib import *

FN = ("sym", "fn", None)
GU = ("sym", "giveup", None)
RES = ("sym", "result", None)
KEY = ("exc", "KeyError", False, "user")
ZERO = ("exc", "ZeroDivisionError", True, "user")
BASE = ("exc", "KeyboardInterrupt", True, "user")
LISTED = ("tuple", (("ext", "KeyError"),))


MARK = ("sym", "mark", None)
YES, NO = const("yes"), const("")
A1, A2 = ("sym", "a1", None), ("sym", "a2", None)


class Tries(Plain):
    giveup = False
    fold = 6
    cap = 3

    def __init__(self, ctx, at=None, dl=None, pause=1, **kw):
        super().__init__(ctx, **kw)
        self.at, self.dl, self.pause = at, dl, pause
        self.bad = {}

    def initial(self):
        return Mon(seq=(), bound=None, paused=True, gu=None, slept=False)

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind == "call" and ev.callee == MARK:
            return [("v", NONE, st.with_mon(self.initial()))]
        if ev.kind == "call" and ev.callee == FN:
            if self.giveup and m.seq and m.gu is not False:
                self.bad["giveup-ignored"] = "the function is called again " \
                    "without (or against) giveup()"
            if m.seq and not m.paused and self.pause:
                self.bad["no-pause"] = "the function is called again " \
                    "without the pause (%s)" % ev.loc()
            if tuple(ev.args) != (A1,) or dict(ev.kw) != {"k": A2}:
                self.bad["arguments"] = "the function is called with other " \
                    "arguments"
            return [("v", ("aw", "userfn", tuple(ev.args), (), "fn"), st)]
        if ev.kind == "call" and ev.callee == GU:
            if m.paused:
                self.bad["giveup-late"] = "giveup() is asked after a pause"
            return [("v", YES, st.with_mon(m.set(gu=True))),
                    ("v", NO, st.with_mon(m.set(gu=False)))]
        if is_ext(ev, "asyncio.iscoroutinefunction", "callable"):
            return [("v", TRUE, st)]
        return None

    def limit(self, v):
        x = dict(v[3]).get("timeout", v[2][1] if len(v[2]) > 1 else NONE)
        return x

    def on_await(self, it, ev, st):
        v = ev.value
        m = st.mon
        if v[0] == "aw" and v[1] == "wait_for":
            lim = self.limit(v)
            inner = unwrap_aw(v)
            if inner[0] == "aw" and inner[1] == "userfn":
                if lim == const(self.at):
                    self.seen.add("attempt")
                elif self.at is not None and lim != NONE:
                    self.bad["wrong-limit"] = "an attempt is limited by a " \
                        "wrong time"
                st2 = st.with_mon(m.set(bound=lim))
                return self.user(it, st2, lim)
            if lim == const(self.dl):
                self.seen.add("deadline")
            return None
        if v[0] == "aw" and v[1] == "userfn":
            return self.user(it, st, NONE)
        if v[0] == "aw" and v[1] == "asyncio.sleep" or (
                v[0] == "aw" and v[1] == "sleep"):
            ok = bool(v[2]) and v[2][0] == const(self.pause)
            if not ok:
                self.bad["no-pause"] = "the pause differs from the " \
                    "configured one"
            return [("v", NONE, st.with_mon(m.set(paused=True))),
                    ("raise", CANCEL, st.with_mon(
                        m.set(seq=m.seq + ("S",))))]
        return None

    def user(self, it, st, lim):
        m = st.mon
        if self.at is not None and lim == NONE:
            self.seen.add("unbounded")

        def step(x):
            return st.with_mon(m.set(seq=m.seq + (x,), paused=False,
                                     gu=None))
        if len(m.seq) >= self.cap:
            return [("v", RES, step("V"))]
        out = [("v", RES, step("V")), ("raise", KEY, step("K")),
               ("raise", ZERO, step("Z")), ("raise", CANCEL, step("C")),
               ("raise", BASE, step("B"))]
        if lim != NONE:
            out.append(("raise", ("exc", "TimeoutError", True, "limit"),
                        step("T")))
        return out


def run(ctx, r, how, mt=None, gu=None, exc=LISTED, twice=False,
        positional=""):
    r.giveup = bool(gu)
    p = ctx.p
    f = p.func("aiomisc.backoff." + how)
    env = dict(bo=("func", f.fid, None), fn=FN, a=A1, b=A2, mt=const(mt),
               exc=exc or NONE,
               gu=GU if gu else NONE, pause=const(r.pause))
    if how == "asyncbackoff":
        src = ("async def driver(bo, fn, at, dl, pause, exc, mt, gu, a, b, mark):\n"
               "    d = bo(at, dl, pause, exceptions=exc, max_tries=mt,\n"
               "           giveup=gu)\n"
               "    g = d(fn)\n"
               "    try:\n"
               "        await g(a, k=b)\n"
               "    except BaseException:\n"
               "        pass\n"
               "    mark()\n"
               "    return await g(a, k=b)\n" if twice else
               "async def driver(bo, fn, at, dl, pause, exc, mt, gu, a, b):\n"
               "    d = bo(at, dl, pause, " + positional +
               "exceptions=exc,\n"
               "           max_tries=mt, giveup=gu)\n"
               "    return await d(fn)(a, k=b)\n")
        env.update(at=const(r.at), dl=const(r.dl))
        if twice:
            env.update(mark=MARK)
            r.cap = 2
    else:
        src = ("async def driver(bo, fn, pause, exc, mt, gu, a, b):\n"
               "    d = bo(mt, %spause=pause, giveup=gu)\n" % (
                   "exceptions=exc, " if exc else "") +
               "    return await d(fn)(a, k=b)\n")
    it = Interp(ctx.p, r)
    outs = it.harness(src, st=State({("F", ("truth", GU)): True},
                                    r.initial()), **env)
    ctx.absorb(it)
    return outs


EXC = {"K": KEY, "Z": ZERO, "B": BASE}


def judge(bad, r, outs, mt=None, gu=False, listed="K", may=""):
    retry = set(listed) | (
        {"T", "C"} if r.at is not None else set())
    seqs = set()
    for k, v, s in outs:
        seq = s.mon.seq
        if not seq:
            continue
        seqs.add((seq, k))
        last = seq[-1]
        attempts = [x for x in seq if x != "S"]
        for x in attempts[:-1]:
            if x not in retry and x not in may:
                bad["retried"] = "the function is called again after %s" % {
                    "Z": "an exception that is not listed",
                    "C": "its cancellation", "V": "it returned",
                    "B": "a BaseException"}.get(x, x)
        if mt is not None and len(attempts) > mt:
            bad["too-many"] = "more attempts than max_tries"
        timedout = r.dl is not None and k == "raise" and not is_cancel(v)
        if last == "V" and not (k == "v" and v == RES):
            bad["result-lost"] = "the result is not returned"
        elif last in ("Z", "B") and last not in retry and not (
                k == "raise" and v == EXC[last]):
            bad["error-changed"] = "another exception is raised than the " \
                "one of the function"
        elif last == "S" or last == "C" and r.at is None:
            ks = [x for x in attempts if x in EXC]
            if k == "v":
                bad["cancel-lost"] = "a cancellation is swallowed"
            elif is_cancel(v):
                pass
            elif not timedout and r.at is None:
                bad["cancel-lost"] = "a cancellation is turned into %s" % \
                    v[1]
            elif ks and v != EXC[ks[-1]]:
                bad["deadline-error"] = "after the deadline the last " \
                    "exception of the function is not raised"
            elif not ks and v[1].rpartition(".")[2] != "TimeoutError":
                bad["deadline-error"] = "a call that runs into its " \
                    "deadline at once raises %s" % v[1]
        elif last in retry:
            full = mt is not None and len(attempts) >= mt
            if last == "C" and is_cancel(v):
                continue
            if k == "v":
                bad["error-lost"] = "returns although the function failed"
            elif not full and not (gu and s.mon.gu):
                bad["gives-up"] = "the function is not called again after " \
                    "a listed exception"
            elif last in EXC and v != EXC[last]:
                bad["error-changed"] = "another exception is raised than " \
                    "the one of the function"
        if gu and last == "V" and s.mon.gu:
            bad["giveup-ignored"] = "the function is called again although " \
                "giveup() said no"
    return seqs


def refuses(ctx, bad):
    """Limits nobody can mean."""
    f = ctx.p.func("aiomisc.backoff.asyncbackoff")
    for what in ("at=-1", "dl=-1", "pause=-1", "mt=0", "mt=-1"):
        kw = dict(at="None", dl="None", pause="0", mt="None")
        kw.update([what.split("=")])
        r = Tries(ctx)
        it, outs = harness(
            ctx, r, "def driver(bo):\n    return bo(%(at)s, %(dl)s, "
            "%(pause)s, max_tries=%(mt)s)\n" % kw,
            bo=("func", f.fid, None))
        if any(k == "v" for k, v, s in outs):
            bad["accepted"] = "%s is accepted" % what.replace(
                "at=", "attempt_timeout=").replace("dl=", "deadline=").replace(
                "mt=", "max_tries=")


def retries(ctx):
    R = "retry-protocol"
    ctx.rule(R, "backoff/retry: only listed exceptions (and the attempt's "
             "own timeout) are retried, after the configured pause, at most "
             "max_tries times and never after giveup() agreed; any other "
             "exception, BaseException or a cancellation ends the call at "
             "once; attempts and the whole call are bounded by their limits; "
             "the result or the function's last exception comes out")
    f = ctx.p.func("aiomisc.backoff.asyncbackoff")
    bad = {}
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncbackoff", mt=2), mt=2)
    bad.update(r.bad)
    r = Tries(ctx)
    seqs = judge(bad, r, run(ctx, r, "asyncbackoff"))
    bad.update(r.bad)
    if not any(s[:3] == ("K", "K", "K") for s, k in seqs):
        bad["gives-up"] = "retrying ends although there is no limit"
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncbackoff", mt=1), mt=1)
    bad.update(r.bad)
    r = Tries(ctx)
    outs = run(ctx, r, "asyncbackoff", gu=True)
    judge(bad, r, outs, gu=True)
    bad.update(r.bad)
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncbackoff", mt=2, twice=True), mt=2)
    r = Tries(ctx, dl=7)
    judge(bad, r, run(ctx, r, "asyncbackoff", twice=True))
    # a cancellation is not retried, whatever is listed
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncbackoff", mt=2, exc=(
        "tuple", (("ext", "BaseException"),
                  ("ext", "asyncio.CancelledError")))), mt=2, listed="KZ", may="B")
    r = Tries(ctx, at=5)
    judge(bad, r, run(ctx, r, "asyncbackoff", mt=2), mt=2)
    if "attempt" not in r.seen or "unbounded" in r.seen:
        bad["attempt-unlimited"] = "an attempt is not bounded by " \
            "attempt_timeout"
    bad.update(r.bad)
    # all of no time
    for at, dl in ((0, None), (None, 0)):
        r = Tries(ctx, at=at, dl=dl)
        judge(bad, r, run(ctx, r, "asyncbackoff", mt=2), mt=2)
        bad.update(r.bad)
        if at is not None and ("attempt" not in r.seen or
                               "unbounded" in r.seen):
            bad["attempt-unlimited"] = "an attempt_timeout of 0 is no limit"
        if dl is not None and "deadline" not in r.seen:
            bad["no-deadline"] = "a deadline of 0 is no limit"
    # exceptions by position, too
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncbackoff", mt=2,
                      positional="ZeroDivisionError, "), mt=2, listed="KZ")
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncbackoff", mt=2, exc=("tuple", ()),
                      positional="ZeroDivisionError, "), mt=2, listed="Z")
    refuses(ctx, bad)
    r = Tries(ctx, dl=7)
    judge(bad, r, run(ctx, r, "asyncbackoff"))
    if "deadline" not in r.seen:
        bad["no-deadline"] = "the attempts are not bounded by the deadline"
    bad.update(r.bad)
    for x in ("retried", "too-many", "gives-up", "giveup-ignored",
              "giveup-late", "arguments", "accepted",
              "no-pause", "result-lost", "error-lost", "error-changed",
              "cancel-lost", "deadline-error", "attempt-unlimited",
              "wrong-limit", "no-deadline"):
        ctx.require(R, "asyncbackoff " + x, x not in bad,
                    "asyncbackoff:" + x, f.loc(), bad.get(x, ""))
    f = ctx.p.func("aiomisc.backoff.asyncretry")
    bad = {}
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncretry", mt=2), mt=2)
    bad.update(r.bad)
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncretry", gu=True), gu=True)
    bad.update(r.bad)
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncretry", mt=2,
                      exc=("tuple", (("ext", "Exception"),))), mt=2,
          listed="KZ")
    bad.update(r.bad)
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncretry", mt=2, exc=None), mt=2,
          listed="KZ")
    r = Tries(ctx)
    judge(bad, r, run(ctx, r, "asyncretry", mt=2, exc=("tuple", ())), mt=2,
          listed="")
    for x in sorted({"retried", "too-many", "gives-up", "giveup-ignored",
                     "giveup-late", "arguments", "no-pause",
                     "cancel-lost"} | set(bad)):
        ctx.require(R, "asyncretry " + x, x not in bad, "asyncretry:" + x,
                    f.loc(), bad.get(x, ""))
    # @timeout
    f = ctx.p.func("aiomisc.timeout.timeout")
    r = Tries(ctx, at=5)
    it, outs = harness(
        ctx, r, "async def driver(to, fn, a, b):\n    return await to(5)(fn)(a, k=b)\n",
        to=("func", f.fid, None), fn=FN, a=A1, b=A2)
    ctx.require(R, "timeout() bounds the call", "attempt" in r.seen and
                "unbounded" not in r.seen, "timeout:unbounded", f.loc(),
                "the call is not bounded by the given time")
    r2 = Tries(ctx, at=0)
    harness(ctx, r2, "async def driver(to, fn, a, b):\n"
            "    return await to(0)(fn)(a, k=b)\n",
            to=("func", f.fid, None), fn=FN, a=A1, b=A2)
    ctx.require(R, "timeout(0) bounds the call", "attempt" in r2.seen and
                "unbounded" not in r2.seen, "timeout:zero", f.loc(),
                "a call with a limit of 0 is not bounded")
    bad = dict(timeout=r.bad["arguments"]) if "arguments" in r.bad else {}
    for k, v, s in outs:
        seq = s.mon.seq
        if len(seq) > 1:
            bad["timeout"] = "called more than once"
        if seq == ("V",) and v != RES or seq and seq[-1] in EXC and \
                v != EXC[seq[-1]]:
            bad["timeout"] = "the outcome of the function is changed"
        if seq == ("T",) and (k == "v" or v[1] != "TimeoutError"):
            bad["timeout"] = "an expired time does not raise TimeoutError"
    ctx.require(R, "timeout() outcome", not bad, "timeout:outcome", f.loc(),
                bad.get("timeout", ""))
