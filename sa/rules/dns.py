"""The DNS store, its zones, and the servers."""
from ..interp import cat
from .lib import *

PKG = "aiomisc.service.dns."


def LABEL(n):
    return ("obj", ("label", n), "label")


def NAME(*labels):
    """A domain name; a tuple of labels has no dot in between."""
    out = []
    for x in labels:
        out += [LABEL(y) for y in x] + [const(".")]
    return cat(out)


def REC(n):
    return ("obj", ("rec", n), "record")


T1 = ("obj", ("t1",), "rtype")
T2 = ("obj", ("t2",), "rtype")
NAMES = {
    "p": NAME("b", "c"), "q": NAME("a", "b", "c"), "o": NAME("e", "c"),
    "root": const("."),
    "np": NAME("d", "b", "c"), "nq": NAME("d", "a", "b", "c"),
    "no": NAME("d", "e", "c"), "nx": NAME("x", "b", "c"),
    "glued": NAME(("d", "b"), "c"), "far": NAME("z"),
    "wild": NAME("y", "d", "b", "c"),
    "top": NAME("c"), "gap": NAME("b", "z", "c"),
}
SHORT = {k: cat(v[1][:-1] + (const(""),)) for k, v in NAMES.items()
         if v[0] == "cat"}
# record: (name, type)
RECORDS = {
    "rp": ("np", T1), "rp2": ("np", T2), "rq": ("nq", T1),
    "rcut": ("nq", T1), "ro": ("no", T1), "rg": ("glued", T1),
    "rgap": ("gap", T1), "rp3": ("np", T1), "rown": ("p", T1), "rfar": ("far", T1),
}


class Dns(Maps, Plain):
    exact_lists = True
    strings = True
    fresh_new = True
    max_depth = 14

    def __init__(self, ctx, data=()):
        super().__init__(ctx)
        self.data = data

    def initial(self):
        return Mon(maps=())

    def missing(self, it, ev, base, key, st):
        ty = it.typeof(base)
        if ty == "collections.defaultdict":
            kind = st.get(("H", base, "$arg0"))
            q = kind[1].rpartition(".")[2] if kind and kind[0] == "ext" \
                else None
            if q in ("set", "list"):
                ob, s = it.alloc(("obj", ("dd", base, key), q), st)
                s = s.set(("H", ob, "[]"), frozenset())
                s = s.set(("H", ob, "$parts"), ())
                d = self.maps_of(s)
                d[(base, key)] = ob
                return [("v", ob, self.put_map(s, d))]
        return [("raise", KEYERR, st)]

    def on_attr(self, it, base, name, st):
        if base[0] == "obj" and base[2] == "record":
            r = RECORDS[base[1][1]]
            return {"name": NAMES[r[0]], "type": r[1]}.get(name)
        return None

    def on_call(self, it, ev, st):
        if ev.recv == ("obj", ("data",), "user") and ev.name == "items":
            return [("v", ("tuple", tuple(
                ("tuple", (NAMES[n], ("tuple", tuple(map(REC, rs)))))
                for n, rs in self.data)), st)]
        if is_ext(ev, "isinstance"):
            return [("v", TRUE, st)]
        return self.map_call(it, ev, st)


def run(ctx, body, data=(), maps=None):
    """Outcomes of a scenario: ("raise", exc) or the returned collections;
    the numbers of entries of all mappings are added to `maps`."""
    r = Dns(ctx, data)
    env = {n: v for n, v in NAMES.items()}
    env.update({"s_" + n: v for n, v in SHORT.items()})
    env.update({n: REC(n) for n in RECORDS})
    it, outs = harness(
        ctx, r, "def driver(Store, Zone, data, T1, T2, %s):\n" % ", ".join(
            sorted(env)) + "".join("    %s\n" % b for b in body),
        Store=("cls", ctx.p.cls(PKG + "store.DNSStore").cid),
        Zone=("cls", ctx.p.cls(PKG + "zone.DNSZone").cid),
        data=("obj", ("data",), "user"), T1=T1, T2=T2, **env)
    res = []
    for k, v, st in outs:
        if k != "v":
            res.append(("raise", v[1]))
            continue
        if maps is not None:
            maps.add(len(st.mon.maps))
        vals = []
        for x in v[1] if v[0] == "tuple" else [v]:
            ps = it.exact_parts(x, st)
            if ps is None and x[0] != "const":
                vals = None     # not determined
                break
            vals.append(x if ps is None else frozenset(ps))
            if ps is not None and len(set(ps)) != len(ps):
                vals[-1] = ("repeated",)
        res.append(vals if vals is None else tuple(vals))
    if it.incomplete:
        res.append(None)
    return res


def E(*rs):
    return frozenset(map(REC, rs))


TWO = ["s = Store()", "zp = Zone(p, rp, rp2, rown)", "zq = Zone(q, rq)",
       "zp.add_record(rcut)", "s.add_zone(zp)", "s.add_zone(zq)"]
CASES = (
    # key, what fails, body, expected outcome
    ("exact", "records of another name or type are returned, or some are "
     "missing", TWO + ["return s.query(np, T1), s.query(np, T2), "
                       "s.query(nq, T2), s.query(nx, T1), s.query(wild, T1)"],
     (E("rp"), E("rp2"), E(), E(), E())),
    ("dots", "a name without the last dot is not found", [
        "s = Store()", "z = Zone(s_p, rp)", "s.add_zone(z)",
        "return s.query(s_np, T1), s.query(np, T1), z.get_records(s_np, T1)",
    ], (E("rp"),) * 3),
    ("closest", "a zone does not hide what a parent zone knows about its "
     "names", TWO + ["return s.query(nq, T1), s.query(np, T1)"],
     (E("rq"), E("rp"))),
    ("closest", "the order in which zones are added matters", [
        "s = Store()", "s.add_zone(Zone(q, rq))", "s.add_zone(Zone(p, rp))",
        "return s.query(nq, T1), s.query(np, T1)"], (E("rq"), E("rp"))),
    ("closest", "a zone answers for names that are not below it", [
        "s = Store()", "s.add_zone(Zone(top, rgap))",
        "s.add_zone(Zone(p, rp))",
        "return s.query(gap, T1), s.query(np, T1)"], (E("rgap"), E("rp"))),
    ("foreign", "a name outside of all zones is answered", TWO + [
        "return s.query(no, T1), s.query(far, T1), s.query(glued, T1)"],
     (E(), E(), E())),
    ("siblings", "sibling zones are mixed up", TWO + [
        "s.add_zone(Zone(o, ro))",
        "return s.query(no, T1), s.query(np, T1), s.query(nq, T1)"],
     (E("ro"), E("rp"), E("rq"))),
    ("remove", "a removed zone still answers, or hides its parent", TWO + [
        "s.remove_zone(q)", "return s.query(nq, T1), s.query(np, T1), "
        "s.get_zone(q) is None"], (E("rcut"), E("rp"), TRUE)),
    ("remove", "removing a parent zone removes its children", TWO + [
        "s.remove_zone(p)", "return s.query(nq, T1), s.query(np, T1)"],
     (E("rq"), E())),
    ("remove", "a removed zone can not be added again", TWO + [
        "s.remove_zone(q)", "s.add_zone(Zone(q))",
        "return s.query(nq, T1), s.query(np, T1)"], (E(), E("rp"))),
    ("remove", "a zone is removed under the name of another one", TWO + [
        "try:", "    s.remove_zone(nq)", "except ValueError:", "    pass",
        "else:", "    return 0", "return s.query(nq, T1), s.query(np, T1)"],
     (E("rq"), E("rp"))),
    ("twice", "a second zone of the same name replaces the first", TWO + [
        "try:", "    s.add_zone(Zone(p, rp3))", "except ValueError:",
        "    pass", "else:", "    return 0",
        "return s.query(np, T1), s.query(nq, T1)"], (E("rp"), E("rq"))),
    ("belongs", "a record of a name that only ends like the zone's is "
     "accepted", ["z = Zone(p)", "try:", "    z.add_record(rg)",
                  "except ValueError:",
                  "    return z.get_records(glued, T1), 1", "return 0"],
     (E(), const(1))),
    ("belongs", "a foreign record is accepted", [
        "try:", "    z = Zone(p, rp, ro)", "except ValueError:",
        "    return 1", "return 0"], (const(1),)),
    ("belongs", "a record of the zone's own name is refused", [
        "z = Zone(p, rown)", "return z.get_records(p, T1), 1"], (E("rown"), const(1))),
    ("belongs", "the root zone refuses a record", [
        "z = Zone(root, rp, rfar)",
        "return z.get_records(np, T1), z.get_records(far, T1)"],
     (E("rp"), E("rfar"))),
    ("root", "records of the root zone are not found", [
        "s = Store()", "s.add_zone(Zone(root, rp, rfar))",
        "s.add_zone(Zone(p, rp3))",
        "return s.query(far, T1), s.query(np, T1), s.query(no, T1)"],
     (E("rfar"), E("rp3"), E())),
    ("records", "adding or removing a record changes others", [
        "z = Zone(p, rp, rp2, rp3)", "z.add_record(rp)",
        "z.remove_record(rp)", "z.remove_record(rown)",
        "a = z.get_records(np, T1)", "z.remove_record(rp3)",
        "z.remove_record(rp3)",
        "z.add_record(rp)", "z.remove_record(rp3)", "z.remove_record(rp)",
        "return a, z.get_records(np, T1), z.get_records(np, T2)"],
     (E("rp3"), E(), E("rp2"))),
    ("records", "a zone returns its own collection of records", [
        "z = Zone(p, rp)", "a = z.get_records(np, T1)",
        "z.add_record(rp3)", "return a, z.get_records(np, T1)"],
     (E("rp"), E("rp", "rp3"))),
    ("zone-replace", "replacing the records of a zone keeps old ones or "
     "loses new ones", [
         "z = Zone(p, rp, rp2)", "z.replace((rp3, rown))",
         "return z.get_records(np, T1), z.get_records(np, T2), "
         "z.get_records(p, T1)"], (E("rp3"), E(), E("rown"))),
    ("zone-replace", "a failing replacement changes the zone", [
        "z = Zone(p, rp, rp2)", "try:", "    z.replace((rp3, rg, rown))",
        "except ValueError:", "    pass", "else:", "    return 0",
        "return z.get_records(np, T1), z.get_records(np, T2), "
        "z.get_records(p, T1)"], (E("rp"), E("rp2"), E())),
)
REPLACE = (
    ("store-replace", "replacing all zones keeps old zones or loses new "
     "ones", TWO + ["s.replace(data)", "return s.query(np, T1), "
                    "s.query(np, T2), s.query(nq, T1), s.query(no, T1)"],
     (("p", ("rp3",)), ("o", ("ro",))),
     (E("rp3"), E(), E(), E("ro"))),
    ("store-replace", "a failing replacement changes the store", TWO + [
        "try:", "    s.replace(data)", "except ValueError:", "    pass",
        "else:", "    return 0", "return s.query(np, T1), s.query(np, T2), "
        "s.query(nq, T1), s.query(no, T1)"],
     (("p", ("rp3",)), ("o", ("ro", "rg"))),
     (E("rp"), E("rp2"), E("rq"), E())),
)


def store(ctx):
    RU = "dns-store"
    ctx.rule(RU, "the answer to a query is made of the records of that name "
             "and type in the closest enclosing zone and of nothing else; "
             "zones accept only records of names inside them, do not "
             "influence each other, and a replacement happens entirely or "
             "not at all")
    loc = ctx.p.cls(PKG + "store.DNSStore").find_method("query").loc()
    zloc = ctx.p.cls(PKG + "zone.DNSZone").find_method("add_record").loc()
    bad = {}
    for case in CASES + REPLACE:
        key, msg, body, want = case[0], case[1], case[2], case[-1]
        res = run(ctx, body, case[3] if len(case) == 5 else ())
        # every label is a symbol and every step determined: a scenario has
        # one outcome, more of them mean that something is not modelled
        if None in res or want in res and len(set(res)) > 1:
            ctx.note("not determined: %s: %s" % (key, " ".join(body)))
        elif want not in res:
            bad.setdefault(key, msg)
    sizes = []
    for body in (["return 1"], ["s.query(nx, T1)", "s.query(nx, T2)",
                                "s.query(far, T1)", "s.get_zone(o)",
                                "zp.get_records(nx, T1)", "return 1"]):
        sizes.append(set())
        run(ctx, TWO + body, (), sizes[-1])
    if sizes[0] and sizes[1] - sizes[0]:
        bad["kept"] = "asking for a name that does not exist changes the " \
            "store"
    for k in sorted({c[0] for c in CASES + REPLACE} | {"kept"}):
        ctx.require(RU, k, k not in bad, "dns:" + k,
                    zloc if k in ("belongs", "records", "zone-replace")
                    else loc, bad.get(k, ""))


# ------------------------------------------------------------------ servers
MSG = ("obj", ("msg",), "dnslib.DNSRecord")
QUESTION = ("obj", ("question",), "external")
QNAME = ("obj", ("qname",), "str")
QTYPE = ("obj", ("qtype",), "int")
DATA = ("obj", ("bytes",), "bytes")
ADDR = ("obj", ("addr",), "tuple")
STORE = ("obj", ("store",), "user")
READER = ("obj", ("reader",), "asyncio.StreamReader")
WRITER = ("obj", ("writer",), "asyncio.StreamWriter")
R1 = ("obj", ("r1",), "user")
R2 = ("obj", ("r2",), "user")
FAIL = ("exc", "Exception", False, "failed")
EOF = ("exc", "asyncio.IncompleteReadError", True, "eof")
LOST = ("exc", "ConnectionResetError", True, "lost")


def BODY(reply):
    return ("obj", ("body", reply), "bytes")


OPT = ("obj", ("opt",), "external")
LIMIT = ("sym", "limit", "int")
OTHER = ("obj", ("other",), "external")
WRONG = ("sym", "wrong", "int")


class Answer(Plain):
    """handle_request(); Mon.made: replies; Mon.ans: (reply, answer) pairs;
    Mon.codes: (reply, code) pairs; Mon.packed: packed replies."""
    exact_lists = True
    fresh_new = True
    max_depth = 14
    records = ()
    extra = ()
    distinct_ext = True
    fail = None

    def initial(self):
        return Mon(made=0, ans=(), codes=(), packed=(), tc=None, sent=None)

    def on_attr(self, it, base, name, st):
        if base == MSG and name == "ar":
            return ("tuple", self.extra)
        if base == OPT and name == "rtype":
            return ("ext", "dnslib.QTYPE.OPT")
        if base == OPT and name == "edns_len":
            return LIMIT
        if base == OTHER and name == "rtype":
            return ("ext", "dnslib.QTYPE.TSIG")
        if base == OTHER and name == "edns_len":
            return WRONG
        if base == QUESTION and name == "qtype":
            return QTYPE
        if base[0] == "obj" and base[1][:1] == ("reply",) and \
                name == "header":
            return ("obj", ("header", base), "external")
        return None

    def failing(self, st, what, v):
        if self.fail == what:
            return [("raise", FAIL, st)]
        return [("v", v, st)]

    def note(self, it, ev, st):
        if ev.kind == "attrset" and ev.name == "rcode" and \
                ev.recv is not None and ev.recv[1][:1] == ("header",):
            return self.code(st, ev.recv[1][1], ev.value)
        if ev.kind == "attrset" and ev.name == "tc" and \
                ev.recv is not None and ev.recv[1][:1] == ("header",):
            return st.with_mon(st.mon.set(tc=ev.value))
        return st

    def code(self, st, reply, c):
        return st.with_mon(st.mon.set(codes=st.mon.codes + ((reply, c),)))

    def on_call(self, it, ev, st):
        n, r, m = ev.name, ev.recv, st.mon
        if ev.kind == "new" and n == "RecordType":
            return self.failing(st, "type", ("obj", ("rtype",), "int"))
        if ev.kind != "call":
            return None
        if n.endswith("DNSRecord.parse") or n == "parse" and ev.args:
            return self.failing(st, "parse", MSG)
        if n == "sendto":
            return [("v", NONE, st.with_mon(m.set(sent=ev.args[0])))]
        if r == MSG and n == "get_q":
            return [("v", QUESTION, st)]
        if r == MSG and n == "reply":
            ob = ("obj", ("reply", m.made), "dnslib.DNSRecord")
            return [("v", ob, st.with_mon(m.set(made=m.made + 1)))]
        if r == QUESTION and n == "get_qname":
            return [("v", QNAME, st)]
        if is_ext(ev, "str") and ev.args == [QNAME]:
            return [("v", QNAME, st)]
        if n == "query" and r == STORE:
            if list(ev.args) != [QNAME, ("obj", ("rtype",), "int")]:
                self.bad["lookup"] = "the store is asked something else " \
                    "than the client"
            return self.failing(st, "query", ("tuple", self.records))
        if n == "rr" and r in (R1, R2):
            if list(ev.args) != [QTYPE]:
                self.bad["lookup"] = "an answer is of another type"
            return self.failing(st, "rr", ("obj", ("rr", r), "external"))
        if r is not None and r[0] == "obj" and r[1][:1] == ("reply",):
            if n == "add_answer":
                return [("v", NONE, st.with_mon(m.set(ans=m.ans + tuple(
                    (r, a) for a in ev.args))))]
            if n == "pack":
                s = st.with_mon(m.set(packed=m.packed + (r,)))
                return self.failing(s, "pack" if r[1][1] == 0 else "",
                                    BODY(r))
            return [("v", NONE, st)]
        if r is not None and r[0] == "obj" and r[1][:1] == ("header",):
            if n == "set_rcode":
                return [("v", NONE, self.code(st, r[1][1], ev.args[0]))]
            return [("v", NONE, st)]
        if is_ext(ev, "len") and ev.args and ev.args[0][0] == "obj" and \
                ev.args[0][1][:1] == ("body",):
            return [("v", self.size, st)]
        return None

    size = const(100)


class Serve(Plain):
    """One connection: Mon.i next read, Mon.log what was written."""
    exact_lists = True
    fold = 4
    max_depth = 14
    script = ()
    drop = None

    def initial(self):
        return Mon(i=0, log=(), asked=())

    def on_call(self, it, ev, st):
        n, r, m = ev.name, ev.recv, st.mon
        if ev.kind != "call":
            return None
        if n == "handle_request":
            a = dict(ev.kw)
            for k, x in zip(("addr", "data"), ev.args):
                a[k] = x
            s = st.with_mon(m.set(asked=m.asked + ((
                a.get("addr"), a.get("data"), a.get("should_truncate",
                                                    FALSE)),)))
            return [("v", ("tuple", (BODY(a.get("data")), a.get("addr"))),
                     s)]
        if n == "get_extra_info":
            return [("v", ADDR, st)]
        if r == READER:
            return [("v", ("aw", "read", (n,) + tuple(ev.args), (), None),
                     st)]
        if n == "unpack":
            # a header stands for the length it announces
            return [("v", ("tuple", (("op", "length", ev.args[-1]),)), st)]
        if n.endswith("from_bytes"):
            return [("v", ("op", "length", ev.args[0]), st)]
        if n == "pack":
            return [("v", ("op", "header", ev.args[-1]), st)]
        if n == "to_bytes" and r is not None:
            return [("v", ("op", "header", r), st)]
        if is_ext(ev, "len"):
            if ev.args[0][:1] == ("obj",) and ev.args[0][1][0] == "head":
                return [("v", const(2), st)]
            return [("v", ("op", "len", ev.args[0]), st)]
        if n == "sendto":
            return [("v", NONE, st.with_mon(m.set(log=m.log + ((
                "sendto",) + tuple(ev.args),))))]
        if r == WRITER:
            if n == "drain" and self.drop:
                return [("v", ("aw", "lost", (), (), None), st)]
            args = tuple(ev.args)
            if n == "writelines":
                n, args = "write", tuple(it.exact_parts(args[0], st) or ())
            s = st.with_mon(m.set(log=m.log + ((n,) + args,)))
            if n in ("drain", "wait_closed"):
                return [("v", ("aw", "ok", (n,), (), None), s)]
            return [("v", FALSE if n == "is_closing" else NONE, s)]
        return None

    def on_await(self, it, ev, st):
        w = ev.value
        if w[0] == "aw" and w[1] == "read":
            i = st.mon.i
            if i >= len(self.script):
                return []
            s = st.with_mon(st.mon.set(i=i + 1, log=st.mon.log + ((
                "read", i) + w[2],)))
            x = self.script[i]
            return [("raise" if x[0] == "exc" else "v", x, s)]
        if w[0] == "aw" and w[1] == "lost":
            return [("raise", LOST, st)]
        if w[0] == "aw" and w[1] == "ok":
            return [("v", NONE, st)]
        return None


def HEAD(i):
    return ("obj", ("head", i), "bytes+")


def PACKET(i):
    return ("obj", ("packet", i), "bytes+")


def server(ctx):
    RU = "dns-server"
    ctx.rule(RU, "every parsed request gets one reply: all records of its "
             "name and type, NXDOMAIN without records, a bare SERVFAIL when "
             "anything fails; UDP replies go to the sender; TCP messages "
             "carry their own length, requests are read whole, and the "
             "connection is closed in the end")
    c = ctx.p.cls(PKG + "service.DNSServer")
    loc = c.find_method("handle_request").loc()
    bad = {}

    def ask(**opt):
        r = Answer(ctx)
        r.bad = bad
        for k, v in opt.items():
            setattr(r, k, v)
        it, outs = harness(
            ctx, r, "def driver(cls, store, data, addr):\n    s = cls()\n"
            "    s.store = store\n"
            "    return s.handle_request(data=data, addr=addr)\n",
            cls=("cls", c.cid), store=STORE, data=DATA, addr=ADDR)
        return outs

    def codes(st, reply):
        return [x for r, x in st.mon.codes if r == reply]

    def named(v, what):
        return v[0] in ("ext", "attr", "glob", "const") and what in str(v)

    for recs in ((), (R1,), (R1, R2)):
        for k, v, st in ask(records=recs):
            if k != "v" or v[0] != "tuple" or v[1][1:] != (ADDR,) or \
                    v[1][0][:1] != ("obj",) or v[1][0][1][:1] != ("body",):
                bad["reply"] = "a request gets no reply"
                continue
            reply = v[1][0][1][1]
            got = [a for r, a in st.mon.ans if r == reply]
            if got != [("obj", ("rr", r), "external") for r in recs]:
                bad["answers"] = "the reply does not have each record once"
            nx = [x for x in codes(st, reply) if named(x, "NXDOMAIN")]
            if bool(nx) != (not recs):
                bad["nxdomain"] = "NXDOMAIN does not mean that there are " \
                    "no records"
            if [x for x in codes(st, reply) if named(x, "SERVFAIL")]:
                bad["reply"] = "a good request gets a failure"
    for what in ("query", "type", "rr", "pack"):
        for k, v, st in ask(records=(R1, R2), fail=what):
            if k != "v" or v[0] != "tuple" or v[1][1:] != (ADDR,) or \
                    v[1][0][1][:1] != ("body",):
                bad["failure"] = "a failing request gets no reply"
                continue
            reply = v[1][0][1][1]
            cs = codes(st, reply)
            if not cs or not named(cs[-1], "SERVFAIL"):
                bad["failure"] = "a failing request does not get SERVFAIL"
            if [a for r, a in st.mon.ans if r == reply]:
                bad["failure"] = "a failing request gets some answers"
    # datagrams
    u = ctx.p.cls(PKG + "service.UDPDNSServer")
    r = Serve(ctx)
    it, outs = harness(
        ctx, r, "async def driver(cls, data, addr, store):\n"
        "    s = cls(address=data, port=addr, store=store)\n"
        "    s.store = store\n    await s.handle_datagram(data, addr)\n",
        cls=("cls", u.cid), data=DATA, addr=ADDR, store=STORE)
    outs = [o for o in outs if o[2].mon.asked or o[0] == "v"]
    for k, v, st in outs:
        if k != "v" or st.mon.log != (("sendto", BODY(DATA), ADDR),):
            bad["udp"] = "the sender does not get the reply"
        elif st.mon.asked[0][:2] != (ADDR, DATA):
            bad["udp"] = "another request is handled than the received one"
    if not outs:
        bad["udp"] = "datagrams are not handled"

    def datagram(**opt):
        r = Answer(ctx)
        r.bad = bad
        r.records = (R1,)
        for k, v in opt.items():
            setattr(r, k, v)
        it, outs = harness(
            ctx, r, "async def driver(cls, data, addr, store):\n"
            "    s = cls(address=data, port=addr, store=store)\n"
            "    s.store = store\n    await s.handle_datagram(data, addr)\n",
            cls=("cls", u.cid), data=DATA, addr=ADDR, store=STORE)
        return [st.mon for k, v, st in outs if st.mon.sent is not None]

    for size, want in ((100, False), (700, True)):
        for m in datagram(size=const(size)):
            if (m.tc not in (None, FALSE, const(0))) != want:
                bad["limit"] = "a long reply is not marked as truncated" \
                    if want else "a short reply is marked as truncated"
    if not any("'limit'" in str(m.sent) for m in datagram(extra=(OPT,))):
        bad["limit"] = "a datagram is longer than the client accepts"
    for extra in ((OTHER,), (OTHER, OPT)):
        for m in datagram(extra=extra, size=const(700)):
            if "'wrong'" in str(m.sent):
                bad["limit"] = "another record than EDNS limits the reply"
    if not any("'limit'" in str(m.sent) for m in datagram(
            extra=(OTHER, OPT))):
        bad["limit"] = "a datagram is longer than the client accepts"
    # streams
    t = ctx.p.cls(PKG + "service.TCPDNSServer")
    two = (HEAD(1), PACKET(1), HEAD(2), PACKET(2), EOF)
    for script, drop, n in (
            (two, None, 2), ((HEAD(1), EOF), None, 0), ((EOF,), None, 0),
            (two[:3] + (EOF,), None, 1), (two, True, 1),
            ((LOST,), None, 0), ((HEAD(1), LOST), None, 0)):
        r = Serve(ctx)
        r.script, r.drop = script, drop
        it, outs = harness(
            ctx, r, "async def driver(cls, reader, writer, addr, store):\n"
            "    s = cls(address=addr, port=addr, store=store)\n"
            "    s.store = store\n"
            "    await s.handle_client(reader, writer)\n",
            cls=("cls", t.cid), reader=READER, writer=WRITER, addr=ADDR,
            store=STORE)
        outs = [o for o in outs if o[2].mon.log]
        if not outs:
            bad["tcp"] = "connections are not handled"
        for k, v, st in outs:
            log = st.mon.log
            names = [x[0] for x in log]
            lost = drop or LOST in script
            if k != "v" and not lost:
                bad["end"] = "the end of a connection is an error"
            if "close" not in names or names[-1] not in (
                    "close", "wait_closed"):
                bad["end"] = "the connection is not closed"
            reads = [x for x in log if x[0] == "read"]
            for x in reads:
                want = None if x[1] % 2 == 0 else ("op", "length", HEAD(
                    x[1] // 2 + 1))
                if x[2] != "readexactly" or want is not None and \
                        x[3] != want:
                    bad["framing"] = "a request is not read whole"
                if want is None and x[3] != const(2) and \
                        not str(x[3]).count("size"):
                    bad["framing"] = "the length of a request has two bytes"
            if [x[1] for x in st.mon.asked] != [
                    PACKET(i + 1) for i in range(n)]:
                bad["tcp"] = "not every request is handled"
            sent = [y for x in log if x[0] == "write" for y in x[1:]]
            want = [y for i in range(n) for y in (
                ("op", "header", ("op", "len", BODY(PACKET(i + 1)))),
                BODY(PACKET(i + 1)))]
            flat = []
            for y in sent:
                flat += list(y[2:]) if y[0] == "op" and y[1] == "Add" \
                    else [y]
            if flat != want:
                bad["framing"] = "a reply does not follow its length"
            if any(x[2] not in (FALSE, None) for x in st.mon.asked):
                bad["tcp"] = "replies over TCP are truncated"
    for n in ast.walk(t.module.tree):
        if not isinstance(n, ast.Call):
            continue
        a = [x.value for x in n.args + [k.value for k in n.keywords]
             if isinstance(x, ast.Constant)]
        d = (ctx.p.dotted(n.func) or "").rpartition(".")[2]
        if d in ("Struct", "pack", "unpack") and isinstance(
                a[0] if a else None, (str, bytes)) and \
                a and a[0] not in ("!H", ">H", b"!H", b">H"):
            bad["framing"] = "a length is not two bytes in network order"
        if isinstance(n.func, ast.Attribute) and n.func.attr in (
                "from_bytes", "to_bytes") and "little" in a:
            bad["framing"] = "a length is not two bytes in network order"
    for x in ("reply", "answers", "nxdomain", "failure", "lookup", "limit", "udp",
              "tcp", "framing", "end"):
        ctx.require(RU, x, x not in bad, "dns-server:" + x,
                    t.find_method("handle_client").loc() if x in (
                        "tcp", "framing", "end") else loc, bad.get(x, ""))


# ------------------------------------------------------------------ records
NUMBERS = {
    "A": 1, "A6": 38, "AAAA": 28, "AFSDB": 18, "ANY": 255, "APL": 42,
    "AXFR": 252, "CAA": 257, "CDNSKEY": 60, "CDS": 59, "CERT": 37,
    "CNAME": 5, "CSYNC": 62, "DHCID": 49, "DLV": 32769, "DNAME": 39,
    "DNSKEY": 48, "DS": 43, "EUI48": 108, "EUI64": 109, "HINFO": 13,
    "HTTPS": 65, "IPSECKEY": 45, "IXFR": 251, "KEY": 25,
    "KX": 36, "LOC": 29, "MX": 15, "NAPTR": 35, "NS": 2, "NSEC": 47,
    "NSEC3": 50, "NSEC3PARAM": 51, "NULL": 10, "OPENPGPKEY": 61, "OPT": 41,
    "PTR": 12, "RP": 17, "RRSIG": 46, "SIG": 24, "SOA": 6, "SPF": 99,
    "SRV": 33, "SSHFP": 44, "SVCB": 64, "TA": 32768, "TKEY": 249,
    "TLSA": 52, "TSIG": 250, "TXT": 16, "URI": 256, "ZONEMD": 63}
CLASSES = {"IN": 1, "CS": 2, "CH": 3, "NONE": 254}


class Record(Plain):
    """The data object made of the arguments; the record made of it."""
    exact_lists = True
    fresh_new = True
    max_depth = 10
    kind = None

    def initial(self):
        return Mon(data=None, made=(), rr=())

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind == "new" and ev.rtype == self.kind:
            out = []
            for x in list(ev.args) + [v for k, v in sorted(ev.kw.items())]:
                out += self.flat(it, x, st)
            return [("v", ("obj", ("data",), "external"), st.with_mon(
                m.set(data=(tuple(out), bool(ev.kw)))))]
        if ev.kind == "new" and ev.extra is not None and getattr(
                ev.extra, "name", "") == "DNSRecord":
            f = {n: kwarg(ev, n, i, None) for i, n in enumerate((
                "name", "type", "data", "cls", "ttl"))}
            return [("v", ("obj", ("record",), ev.rtype), st.with_mon(
                m.set(made=m.made + (tuple(sorted(
                    (k, v) for k, v in f.items() if v is not None)),))))]
        if is_ext(ev, "dnslib.RR"):
            f = {n: kwarg(ev, n, i, NONE) for i, n in enumerate((
                "rname", "rtype", "rclass", "ttl", "rdata"))}
            return [("v", ("obj", ("rr",), "external"), st.with_mon(
                m.set(rr=m.rr + (f.__class__ and tuple(sorted(
                    f.items())),))))]
        return None

    def flat(self, it, v, st):
        if v[0] == "obj" and v[1][:1] == ("item",):
            return [param(v[1][1])]
        if v[0] == "obj" and v[1][:1] == ("param",) or v[0] == "const":
            return [v]
        ps = it.exact_parts(v, st)
        if ps is None:
            els = [x for x in leaves(it, v, st)]
            return els if els and els != [v] else [v]
        return [y for x in ps for y in self.flat(it, x, st)]

    def on_attr(self, it, base, name, st):
        if base == ("obj", ("pinned",), "pinned") and name in (
                "name", "type", "data", "cls", "ttl"):
            return ("obj", ("field", name), "label")
        return None


# what dnslib's classes keep their data in
ATTRS = {
    "MX": ("preference", "label"), "CNAME": ("label",), "NS": ("label",),
    "PTR": ("label",), "DNAME": ("label",),
    "SOA": ("mname", "rname", "times"),
    "SRV": ("priority", "weight", "port", "target"),
    "NAPTR": ("order", "preference", "flags", "service", "regexp",
              "replacement"),
    "DS": ("key_tag", "algorithm", "digest_type", "digest"),
    "DNSKEY": ("flags", "protocol", "algorithm", "key"),
    "RRSIG": ("covered", "algorithm", "labels", "orig_ttl", "sig_exp",
              "sig_inc", "key_tag", "name", "sig"),
    "NSEC": ("label", "rrlist"), "HTTPS": ("priority", "target", "params"),
    "SSHFP": ("algorithm", "fp_type", "fingerprint"),
    "TLSA": ("cert_usage", "selector", "matching_type", "cert_data"),
    "RP": ("mbox", "txt")}
POOR = ("CAA", "LOC")       # dnslib compares these by no value
LISTS = {"TXT": ("data",), "NSEC": ("rrlist",), "HTTPS": ("params",)}


def own_attrs(ctx, c):
    """`attrs` as the project's own classes give it"""
    for k in c.mro():
        x = k.attrs.get("attrs") if not isinstance(k, str) else None
        if isinstance(x, (ast.Tuple, ast.List)) and x.elts and all(
                isinstance(y, ast.Constant) for y in x.elts):
            return tuple(y.value for y in x.elts)
    return ()


class Hash(Plain):
    exact_lists = True
    fresh_new = True
    max_depth = 10
    names = lists = ()

    def initial(self):
        return Mon(lost=None, bare=None)

    def on_attr(self, it, base, name, st):
        if base == ("obj", ("self",), base[-1]):
            if name == "attrs":
                return ("tuple", tuple(const(x) for x in self.names))
            if name in self.names:
                return ("obj", ("value", name), "list") \
                    if name in self.lists else const("the " + name)
            if not name.startswith("__"):
                return ("obj", ("lost", name), "lost")
        return None

    def on_call(self, it, ev, st):
        m = st.mon
        if ev.kind == "call" and is_ext(ev, "getattr") and len(
                ev.args) > 1 and ev.args[0][:2] == ("obj", ("self",)):
            n = const_value(ev.args[1], None)
            if n is not None and n not in self.names and len(ev.args) < 3:
                return [("raise", ("exc", "AttributeError", n),
                         st.with_mon(m.set(lost=n)))]
        if ev.kind == "call" and is_ext(ev, "hash") and ev.args:
            todo = [ev.args[0]]
            while todo:
                x = todo.pop()
                if x[0] == "obj" and x[1][:1] == ("value",) and \
                        x[2] == "list":
                    return [("raise", ("exc", "TypeError", "hash"),
                             st.with_mon(m.set(bare=x[1][1])))]
                if x[0] == "obj" and x[2] == "lost":
                    return [("raise", ("exc", "AttributeError", x[1][1]),
                             st.with_mon(m.set(lost=x[1][1])))]
                if x[0] == "tuple":
                    todo += list(x[1])
                elif x[0] in ("obj", "coll"):
                    todo += list(it.exact_parts(x, st) or ())
            return [("v", ("obj", ("hash",), "int"), st)]
        return None


def param(n):
    return ("obj", ("param", n), "label")


def records(ctx):
    RU = "dns-records"
    ctx.rule(RU, "create() of a record class makes a record of that class's "
             "type whose data gets every argument in its place and which "
             "has the name and the ttl given; rr() gives all of them to the "
             "reply; the type numbers are the assigned ones")
    mod = ctx.p.modules[PKG + "records"]
    bad = {}
    rd = ctx.p.cls(PKG + "records.RD")
    kinds = [c for c in ctx.p.classes.values() if c.module is mod
             and c.is_subclass(rd.cid) and c is not rd
             and c.name in NUMBERS]
    if len(kinds) < 10:
        raise AnalysisBroken("the classes of DNS records are not found")
    for c in kinds:
        f = c.find_method("create")
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args][1:] + [
            x.arg for x in a.kwonlyargs]
        if "name" not in names or "ttl" not in names:
            ctx.note("create() of %s has another form" % c.name)
            continue
        own = [n for n in names if n not in ("name", "ttl")]
        # the lists among the arguments have one item
        heap = {}
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None and ast.unparse(
                    x.annotation).rpartition(".")[2].partition("[")[0] in (
                        "Iterable", "List", "Sequence", "list"):
                item = ("obj", ("item", x.arg), "label")
                heap["H", param(x.arg), "$parts"] = (item,)
                heap["H", param(x.arg), "[]"] = frozenset((item,))
        for ttl in (True, False):
            r = Record(ctx)
            r.kind = c.cid
            use = [n for n in names if ttl or n != "ttl"]
            it, outs = harness(
                ctx, r, "def driver(C, %s):\n    return C.create(%s)\n" % (
                    ", ".join("p_" + n for n in names),
                    ", ".join("%s=p_%s" % (n, n) for n in use)),
                st=State(heap, r.initial()),
                C=("cls", c.cid), **{"p_" + n: param(n) for n in names})
            if not any(k == "v" for k, v, s in outs):
                bad[c.name] = "%s.create() fails" % c.name
            for k, v, s in outs:
                m = s.mon
                if k != "v":
                    continue
                if len(m.made) != 1 or v != ("obj", ("record",), v[2]):
                    bad[c.name] = "%s.create() gives no record" % c.name
                    continue
                rec = dict(m.made[0])
                want = tuple(param(n) for n in own)
                if m.data is None or m.data[0] != want and not (
                        m.data[1] and set(m.data[0]) == set(want)) and all(
                            x[0] == "obj" for x in m.data[0]):
                    bad[c.name] = "%s: an argument of create() is not in " \
                        "its place" % c.name
                if rec.get("name") != param("name") or rec.get(
                        "data") != ("obj", ("data",), "external"):
                    bad[c.name] = "%s: the record has another name or data" \
                        % c.name
                t = rec.get("type")
                if t is not None and t[0] == "glob":
                    x = ctx.p.classes[t[1]].attrs.get(t[2]) \
                        if t[1] in ctx.p.classes else None
                    t = const(ast.unparse(x)) if x is not None else t
                if not unknown(t) and str(const_value(t, t)).rpartition(
                        ".")[2] != c.name:
                    bad[c.name] = "%s: the record is of type %s" % (
                        c.name, const_value(t, t))
                if ttl and rec.get("ttl") != param("ttl"):
                    bad[c.name] = "%s: the ttl of the record is lost" % c.name
                if "cls" in rec and "IN" not in str(rec["cls"]):
                    bad[c.name] = "%s: the record is of another class" \
                        % c.name
    rec = ctx.p.cls(PKG + "records.DNSRecord")
    it, outs = harness(
        ctx, Record(ctx), "def driver(f, rec, q):\n    return f(rec, q)\n",
        f=("func", rec.find_method("rr").fid, None), q=param("query"),
        rec=("obj", ("pinned",), "pinned"))
    want = {"rname": "name", "rclass": "cls", "ttl": "ttl", "rdata": "data"}
    for k, v, s in outs:
        if k != "v" or len(s.mon.rr) != 1:
            bad["rr"] = "rr() gives no resource record"
            continue
        got = dict(s.mon.rr[0])
        for x, y in want.items():
            if got[x] != ("obj", ("field", y), "label"):
                bad["rr"] = "the %s of a record is lost in the reply" % y
        if got["rtype"] not in (param("query"), (
                "obj", ("field", "type"), "label")):
            bad["rr"] = "the type of a record is lost in the reply"
    for cname, table, key in (("RecordType", NUMBERS, "numbers"),
                              ("DNSClass", CLASSES, "numbers")):
        e = ctx.p.cls(PKG + "records." + cname)
        for n, v in e.attrs.items():
            if isinstance(v, ast.Constant) and n in table and \
                    v.value != table[n]:
                bad[key] = "%s.%s is %s, not %d" % (
                    cname, n, v.value, table[n])
    for c in kinds:
        h, own = c.find_method("__hash__"), own_attrs(ctx, c)
        names = own or ATTRS.get(c.name, ("data",))
        if c.name in POOR and not own and not c.find_method("__eq__"):
            bad[c.name] = "%s: records with different values are taken for " \
                "equal ones or cannot be compared" % c.name
            continue
        if h is None:
            ctx.note("%s has no __hash__ of its own" % c.name)
            continue
        r = Hash(ctx)
        r.names, r.lists = names, LISTS.get(c.name, ())
        heap = {}
        for x in r.lists:
            ob = ("obj", ("value", x), "list")
            heap[("H", ob, "$parts")] = part = (const("part"),)
            heap[("H", ob, "[]")] = frozenset(part)
        it, outs = harness(ctx, r, "def driver(f, d):\n    return f(d)\n",
                           f=("func", h.fid, None), st=State(heap, r.initial()),
                           d=("obj", ("self",), c.cid))
        for k, v, st in outs:
            if st.mon.lost:
                bad[c.name] = "%s: the hash reads %r, which the data does " \
                    "not have" % (c.name, st.mon.lost)
            elif st.mon.bare:
                bad[c.name] = "%s: the list %r is hashed" % (
                    c.name, st.mon.bare)
    for x in sorted({c.name for c in kinds} | {"rr", "numbers"} | set(bad)):
        k = [c for c in kinds if c.name == x]
        ctx.require(RU, x, x not in bad, "records:" + x,
                    (k[0].find_method("create") if k else rec.find_method(
                        "rr")).loc(), bad.get(x, ""))
