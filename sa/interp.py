"""Disjunctive (path-sensitive) abstract interpreter over the project's AST.

It decides path properties in the style of ESP: a finite abstract state (a
store over access paths and allocation sites, remembered branch facts, and the
monitor state of one rule) is pushed through the syntax of a function, with
project callees inlined at their call sites, every raising call / await given
an exceptional exit, and every loop run to a fixpoint.  Nothing is executed
and no solver is involved: a branch is pruned only when a remembered fact or a
constant decides it.

Values are tuples tagged by their first item:
  ('const', typename, v)   ('sym', name, type)     ('attr', base, name)
  ('ver', base, name, site) (a field re-read after a suspension)
  ('obj', site, class)     ('func', fid, frame)    ('bm', self, fid)
  ('cls', cid) ('ext', dotted) ('mod', name)       ('partial', f, args, kw)
  ('coro', f, args, kw)    ('aw', kind, args, kw, site)  ('task', site, inner)
  ('tuple', items)         ('elem', collection)    ('item', base, key)
  ('res', site, type)      ('q', method, base, args)     ('op', op, a, b)
  ('exc', class, exact, origin)   ('glob', mod, name, type)
  ('suppress', classes)    ('cm', f, args, kw)     ('gen', f, args, kw)
  ('super', self, cid)     ('extsub', base...)     ('coll', kind, site, parts)
"""
import ast
import builtins
import time
from http import HTTPStatus

from .project import (
    AnalysisBroken, ClassInfo, FuncInfo, mangle, RETURN_TYPES, Undecided,
)

# limits of one analysis: statements interpreted, and the end of the time of
# the process (set by check.py)
MAX_STEPS = 100000
DEADLINE = [float("inf")]

NONE = ("const", "NoneType", None)
TRUE = ("const", "bool", True)
FALSE = ("const", "bool", False)

CANCELLED = "asyncio.CancelledError"
EXC_CANCEL = ("exc", CANCELLED, True, "cancel")


def is_marker(v):
    """The result of object(): equal to nothing else."""
    return v[0] == "obj" and v[2] == "object"


DISTINCT = ("const", "obj", "exc", "tuple", "func", "bm", "cls", "sym",
            "coro", "task", "aw", "partial", "gen", "mod", "ext", "cat")


def const(v):
    return ("const", type(v).__name__, v)


def plain_const(v):
    return v[0] == "const" and isinstance(
        v[2], (int, float, str, bytes, type(None)))


def small(x):
    if isinstance(x, (str, bytes)):
        return len(x) <= 200
    return x is None or isinstance(x, bool) or isinstance(
        x, (int, float)) and abs(x) < 1e18


PURE = {"int": int, "float": float, "str": str, "abs": abs, "round": round,
        "ord": ord, "chr": chr, "hasattr": hasattr, "repr": repr,
        "hex": hex}
PURE_METHODS = frozenset((
    "split", "rsplit", "splitlines", "partition", "rpartition", "encode",
    "decode", "upper", "lower", "strip", "lstrip", "rstrip", "startswith",
    "endswith", "replace", "join", "isdigit", "isalpha", "isalnum", "title",
    "capitalize", "find", "rfind", "index", "count", "removeprefix",
    "removesuffix", "zfill", "ljust", "rjust", "isidentifier"))


def is_const(v):
    return v[0] == "const"


class State:
    """Immutable store; the hash is maintained incrementally."""
    __slots__ = ("d", "mon", "_h")

    def __init__(self, d=None, mon=None, h=None):
        self.d = d if d is not None else {}
        self.mon = mon
        if h is None:
            h = 0
            for it in self.d.items():
                h ^= hash(it)
        self._h = h

    def get(self, key, default=None):
        return self.d.get(key, default)

    def set(self, key, value):
        h = self._h
        old = self.d.get(key)
        if old is not None:
            if old is value or old == value:
                return self
            h ^= hash((key, old))
        elif key in self.d:
            if value is None:
                return self
            h ^= hash((key, old))
        d = dict(self.d)
        d[key] = value
        return State(d, self.mon, h ^ hash((key, value)))

    def update(self, items):
        d = dict(self.d)
        h = self._h
        for k, v in items.items():
            if k in d:
                h ^= hash((k, d[k]))
            d[k] = v
            h ^= hash((k, v))
        return State(d, self.mon, h)

    def drop(self, pred):
        ks = [k for k in self.d if pred(k)]
        if not ks:
            return self
        d = dict(self.d)
        h = self._h
        for k in ks:
            h ^= hash((k, d[k]))
            del d[k]
        return State(d, self.mon, h)

    def with_mon(self, mon):
        if mon == self.mon:
            return self
        return State(self.d, mon, self._h)

    @property
    def key(self):
        return self

    def __hash__(self):
        return self._h ^ hash(self.mon)

    def __eq__(self, o):
        return self is o or (
            self._h == o._h and self.mon == o.mon and self.d == o.d)

    def __repr__(self):
        return "State(%s)" % (self.d,)


class Mon:
    """Tiny immutable mapping used as monitor state."""
    __slots__ = ("m", "_h")

    def __init__(self, **kw):
        self.m = kw
        self._h = None

    def __getattr__(self, n):
        try:
            return self.m[n]
        except KeyError:
            raise AttributeError(n)

    def set(self, **kw):
        m = dict(self.m)
        m.update(kw)
        return Mon(**m)

    def __eq__(self, o):
        return isinstance(o, Mon) and self.m == o.m

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __repr__(self):
        return "Mon(%s)" % self.m


class Frame:
    __slots__ = (
        "id", "func", "parent", "module", "cls", "hole", "caller", "callnode",
        "depth", "stack",
    )


class Ev:
    """One event handed to a rule."""
    __slots__ = (
        "kind", "node", "fr", "callee", "recv", "rtype", "name", "args",
        "kw", "value", "site", "extra", "star",
    )

    def __init__(self, kind, node, fr, **kw):
        self.kind = kind
        self.node = node
        self.fr = fr
        self.callee = kw.get("callee")
        self.recv = kw.get("recv")
        self.rtype = kw.get("rtype")
        self.name = kw.get("name")
        self.args = kw.get("args", ())
        self.kw = kw.get("kw", {})
        self.value = kw.get("value")
        self.site = kw.get("site")
        self.extra = kw.get("extra")
        self.star = kw.get("star", False)

    def loc(self):
        return self.fr.func.loc(self.node)

    def where(self):
        return "%s in %s" % (self.loc(), self.fr.func.qualname)

    def __repr__(self):
        return "<Ev %s %s %s %s>" % (
            self.kind, self.name, self.rtype, self.args,
        )


# ---------------------------------------------------------------- exceptions

EXT_EXC = {
    CANCELLED: BaseException,
    "asyncio.QueueEmpty": Exception,
    "asyncio.QueueFull": Exception,
    "asyncio.InvalidStateError": Exception,
    "asyncio.IncompleteReadError": EOFError,
    "asyncio.LimitOverrunError": Exception,
    "queue.Empty": Exception,
    "queue.Full": Exception,
    "socket.error": OSError,
    "json.JSONDecodeError": ValueError,
    "dnslib.DNSError": Exception,
    "subprocess.TimeoutExpired": Exception,
}


def exc_chain(project, name):
    """All superclasses of an exception class name, itself included."""
    out = [name]
    c = project.classes.get(name)
    if c is not None:
        for b in c.mro()[1:]:
            n = b if isinstance(b, str) else b.cid
            out.append(n)
            if isinstance(b, str):
                out.extend(exc_chain(project, b)[1:])
        return out
    if name in EXT_EXC:
        b = EXT_EXC[name]
        out.extend(k.__name__ for k in b.__mro__ if k is not object)
        return out
    b = getattr(builtins, name, None)
    if isinstance(b, type) and issubclass(b, BaseException):
        return [k.__name__ for k in b.__mro__ if k is not object]
    out.extend(["Exception", "BaseException"])
    return out


def exc_match(project, tok, handler):
    """'yes' / 'no' / 'maybe': does handler class catch the token?"""
    cls, exact = tok[1], tok[2]
    if handler in exc_chain(project, cls):
        return "yes"
    if not exact and cls in exc_chain(project, handler):
        return "maybe"
    return "no"


# ------------------------------------------------------------------- tables

QUERY_METHODS = {
    "done", "is_set", "closed", "is_closed", "locked", "cancelled", "empty",
    "qsize", "full", "is_alive", "is_closing", "is_running", "can_write_eof",
    "fileno", "isEnabledFor", "poll", "is_dir", "exists", "startswith",
    "endswith", "time", "upper", "lower", "strip", "keys", "values", "items",
    "copy", "get_name", "getsockname", "isoformat", "union", "split",
    "at_eof", "rstrip", "lstrip", "format", "rsplit",
}
# query facts that stay true once true
MONOTONE_TRUE = {"done", "is_closed", "cancelled", "is_closing"}

NORAISE_METHODS = {
    "append", "add", "discard", "clear", "set", "is_set", "done", "cancelled",
    "is_closed", "closed", "locked", "qsize", "empty", "full", "time",
    "add_done_callback", "remove_done_callback", "create_future", "items",
    "create_task",
    "keys", "values", "copy", "get_loop", "get_debug", "set_debug",
    "extend", "update", "appendleft", "setdefault", "is_alive", "is_running",
    "get_name", "cancel", "discard", "is_closing", "can_write_eof",
    "union", "startswith", "endswith", "monotonic", "perf_counter",
    "strip", "split", "rsplit", "upper", "lower", "format", "at_eof",
    "release",
    "reverse", "sort", "insert", "getpid", "get_task_factory",
    "call_soon_threadsafe", "call_soon", "call_later", "call_at",
    "task_done", "close", "difference", "intersection", "task",
}
NORAISE_EXT = {
    "len", "isinstance", "issubclass", "hasattr", "id", "repr", "str", "list",
    "tuple", "set", "frozenset", "dict", "bool", "range", "zip", "enumerate",
    "map", "filter", "sorted", "reversed", "min", "max", "abs", "round",
    "hash", "callable", "type", "print", "super", "object", "all", "any",
    "sum", "iter", "getattr", "setattr", "int", "float", "vars", "bytes",
    "functools.partial", "functools.wraps", "asyncio.get_event_loop",
    "asyncio.get_running_loop", "asyncio.Event", "asyncio.Lock",
    "asyncio.Queue", "asyncio.Semaphore", "asyncio.Condition",
    "asyncio.Future", "asyncio.create_task", "asyncio.ensure_future",
    "asyncio.gather", "asyncio.wait", "asyncio.wait_for", "asyncio.shield",
    "asyncio.sleep", "asyncio.iscoroutinefunction", "asyncio.iscoroutine",
    "asyncio.current_task", "asyncio.all_tasks", "asyncio.isfuture",
    "inspect.isawaitable", "inspect.iscoroutinefunction",
    "inspect.isgeneratorfunction", "inspect.signature",
    "time.time", "time.monotonic", "time.perf_counter", "time.sleep",
    "threading.Event", "threading.Lock", "threading.RLock",
    "threading.Condition", "threading.Thread", "threading.current_thread",
    "threading.main_thread", "queue.Queue", "queue.SimpleQueue",
    "collections.deque", "collections.defaultdict", "collections.OrderedDict",
    "contextvars.copy_context", "weakref.WeakSet", "weakref.finalize",
    "contextlib.suppress", "contextlib.closing", "os.getpid", "os.getppid",
    "random.random", "datetime.datetime.now", "types.MappingProxyType",
    "logging.getLogger", "warnings.warn", "uuid.uuid4", "itertools.count",
    "os.environ.get", "os.getenv", "sys.exc_info", "os.path.join",
    "contextlib.AsyncExitStack", "contextlib.ExitStack", "ssl.SSLContext",
}
TASK_FACTORIES = {
    "asyncio.create_task", "asyncio.ensure_future",
}
LOGGER_TYPES = {"logging.Logger", "logging.getLogger"}
CONTAINER_TYPES = {
    "list", "set", "dict", "frozenset", "tuple", "collections.deque",
    "collections.defaultdict", "collections.OrderedDict", "asyncio.Queue",
    "queue.Queue", "queue.SimpleQueue", "weakref.WeakSet",
}
ALWAYS_TRUE_TYPES = {
    "object",      # object() itself
    "bytes+",      # non-empty bytes of a scenario
    "asyncio.Event", "asyncio.Lock", "asyncio.Semaphore", "asyncio.Future",
    "asyncio.Task", "threading.Event", "threading.Lock", "threading.RLock",
    "asyncio.Condition", "asyncio.TimerHandle", "asyncio.Handle",
    "asyncio.Queue", "queue.Queue", "queue.SimpleQueue",
    "threading.Thread", "threading.Condition", "asyncio.AbstractServer",
    "asyncio.DatagramTransport", "asyncio.AbstractEventLoop",
    "pathlib.Path", "socket.socket", "logging.Handler",
}

ORDERED = ("tuple", "list", "collections.deque")
NEGOPS = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}


class Rule:
    """Base of all monitors; override what a rule needs."""
    max_depth = 14
    max_heads = 600
    fold = -1       # integers folded inside loops up to this value
    user_exc = (("exc", "Exception", False, "user"),)
    lib_exc = (("exc", "Exception", False, "lib"),)
    cancel = True              # awaits may raise CancelledError
    fresh_new = False          # every allocation is an object of its own
    # keyword arguments are dictionaries that can be changed elsewhere
    fresh_kwargs = False
    strings = False            # follow strings made of symbolic labels
    gather_aw = False          # gather() awaits library awaitables too
    lib_raises = True
    havoc = True

    buffers = False            # follow the contents of byte buffers
    follow_getattr = False
    distinct_ext = False       # differently named library constants differ

    module_state = ()       # modules whose global containers are exact

    def on_attr(self, it, base, name, st):
        """Value of a field the scenario fixes, or None."""
        return None

    def next_of(self, it, coll, ev, st):
        """Outcomes of the next step of an iterator of the scenario."""
        return None

    def on_truth(self, it, v, st):
        """Truth of a value the scenario knows, or None."""
        return None

    def initial(self):
        return None

    def note(self, it, ev, st):
        return st

    def on_call(self, it, ev, st):
        return None

    def on_await(self, it, ev, st):
        return None

    def inline(self, it, func, ev, st):
        return True

    def raises(self, it, ev, st):
        return it.default_raises(ev, st)

    def stable(self, it, base, name):
        return False

    log_calls = False       # calls of loggers are given to on_call

    # follow append() and add() exactly (scenarios without unbounded loops)
    exact_lists = True

    # may somebody else act between two statements?
    preempts = False

    def preempt(self, it, node, fr, st):
        """States in which the next statement may start."""
        return [st]

    def has_key(self, it, coll, key, st):
        """Is key in coll?  True/False, None: unknown."""
        return None

    def match_handler(self, it, tok, node, fr, st):
        return None

    def on_recursion(self, it, ev, st):
        return None

    def on_suspend(self, it, ev, st):
        return st

    def live(self, live, st):
        """Add values the monitor state still refers to."""


IN_PLACE = {
    ("list", "Add"): "extend", ("collections.deque", "Add"): "extend",
    ("set", "BitOr"): "update", ("set", "Sub"): "difference_update",
    ("set", "BitAnd"): "intersection_update", ("dict", "BitOr"): "update"}


def known_one_by_one(x):
    return x[0] == "const" or x[0] == "obj" and isinstance(
        x[1], tuple) or x[0] in ("task", "func", "cls", "exc")


class Interp:
    def __init__(self, project, rule):
        self.p = project
        self.rule = rule
        self.frames = {}
        self._frame_ids = {}
        self._sites = {}
        self.roots = set()
        self.visited_funcs = set()
        self.n_events = 0
        self.n_states = 0
        self.steps = 0
        self.n_calls = set()
        self.incomplete = []
        self.origin = {}
        self.elem_types = {}

    # -------------------------------------------------------------- plumbing
    def site(self, fr, node, tag=""):
        return (fr.id, node.lineno, node.col_offset, tag)

    def new_frame(self, func, parent_id, caller, callnode, hole=None):
        key = (
            caller.id if caller else None,
            (callnode.lineno, callnode.col_offset) if callnode is not None
            and hasattr(callnode, "lineno") else None,
            func.fid, parent_id,
        )
        i = self._frame_ids.get(key)
        if i is None:
            i = len(self._frame_ids) + 1
            self._frame_ids[key] = i
        fr = Frame()
        fr.id = i
        fr.func = func
        fr.parent = parent_id
        fr.module = func.module
        fr.cls = func.cls
        fr.hole = hole
        fr.caller = caller
        fr.callnode = callnode
        fr.depth = caller.depth + 1 if caller else 0
        fr.stack = (caller.stack if caller else ()) + (func.fid,)
        self.frames[i] = fr
        self.visited_funcs.add(func.module.name + "." + func.qualname)
        return fr

    def dedupe(self, outs):
        seen = set()
        res = []
        for o in outs:
            k = (o[0], o[1], o[2].key)
            if k not in seen:
                seen.add(k)
                res.append(o)
        self.n_states += len(res)
        return res

    def emit(self, ev, st):
        self.n_events += 1
        r = self.rule.note(self, ev, st)
        return st if r is None else r

    # ----------------------------------------------------------------- types
    def typeof(self, v, st=None):
        t = v[0]
        if t in ("sym", "glob", "obj", "res"):
            return v[-1] if isinstance(v[-1], str) else None
        if t == "const":
            return v[1]
        if t == "task":
            return "asyncio.Task"
        if t in ("attr", "ver"):
            bt = self.typeof(v[1])
            c = self.p.classes.get(bt) if bt else None
            if c is not None:
                ts = c.field_types().get(v[2])
                if ts and len(ts) == 1:
                    return next(iter(ts))
                if ts:
                    ts2 = {x for x in ts if x in self.p.classes}
                    if len(ts2) == 1:
                        return next(iter(ts2))
                    return sorted(ts)[0]
            return None
        if t == "tuple":
            return "tuple"
        if t == "exc":
            return v[1]
        if t == "coll":
            return v[1]
        if t == "cat":
            return "str"
        if t == "elem":
            return self.elem_type(v[1])
        return None

    def elem_type(self, coll):
        """Type of the elements of an abstract collection."""
        while coll[0] == "coll" and coll[1] == "copyof":
            coll = coll[3][0]
        if coll in self.elem_types:
            return self.elem_types[coll]
        if coll[0] == "q" and coll[1] == "copy":
            return self.elem_type(coll[2])
        if coll[0] in ("attr", "ver"):
            c = self.classinfo(coll[1])
            if c is not None:
                ts = c.field_elem_types().get(coll[2])
                if ts and len(ts) == 1:
                    return next(iter(ts))
        return None

    def field_role(self, v):
        return v

    def classinfo(self, v):
        t = self.typeof(v)
        return self.p.classes.get(t) if t else None

    # ----------------------------------------------------------------- names
    def lookup(self, name, fr, st, node):
        f = fr
        while f is not None:
            if name in f.func.locals:
                v = st.get(("L", f.id, name))
                if v is None:
                    if f is fr:
                        return None
                    return ("sym", "?%s@%d" % (name, f.id), None)
                return v
            if f.parent is None:
                break
            f = self.frames[f.parent]
        v = st.get(("G", fr.module.name, name))
        if v is not None:
            return v
        return self.global_value(fr.module, name)

    def store_key(self, name, fr):
        f = fr
        while f is not None:
            if name in f.func.locals:
                return ("L", f.id, name)
            if f.parent is None:
                break
            f = self.frames[f.parent]
        return ("G", fr.module.name, name)

    def global_value(self, module, name):
        r = self.p.symbol(module, name)
        return self.sym_to_value(r, module, name)

    def sym_to_value(self, r, module, name):
        if r is None:
            return ("glob", module.name, name, None)
        k = r[0]
        if k == "func":
            return ("func", r[1].fid, None)
        if k == "class":
            return ("cls", r[1].cid)
        if k == "mod":
            return ("mod", r[1].name)
        if k == "ext":
            if r[1] in ("True", "False", "None"):
                return const({"True": True, "False": False, "None": None}[r[1]])
            return ("ext", r[1])
        if k == "value":
            node = r[2]
            if isinstance(node, ast.Constant):
                return const(node.value)
            if isinstance(node, ast.UnaryOp) and isinstance(
                    node.operand, ast.Constant):
                try:
                    return const(ast.literal_eval(node))
                except Exception:
                    pass
            t = None
            if isinstance(node, ast.Call):
                rr = self.p.resolve_expr(r[1], node.func)
                t = rr[1].cid if rr[0] == "class" else (
                    rr[1] if rr[0] == "ext" else None)
            return ("glob", r[1].name, name, t)
        return ("glob", module.name, name, None)

    # ------------------------------------------------------------- attribute
    def get_attr(self, v, name, node, fr, st):
        """-> outcomes"""
        tag = v[0]
        if tag == "mod":
            m = self.p.modules[v[1]]
            return [("v", self.sym_to_value(
                self.p.symbol(m, name), m, name), st)]
        if tag == "ext":
            if v[1] == "http.HTTPStatus" and name in HTTPStatus.__members__:
                return [("v", const(int(HTTPStatus[name])), st)]
            q = v[1] + "." + name
            from .project import ALIASES
            return [("v", ("ext", ALIASES.get(q, q)), st)]
        if tag == "cls":
            return self.class_attr(v, name, node, fr, st, None)
        if tag == "super":
            c = self.p.classes[v[2]]
            mro = self.inst_mro(v[1], c)
            try:
                i = mro.index(c)
            except ValueError:
                i = 0
            for k in mro[i + 1:]:
                if isinstance(k, ClassInfo) and name in k.methods:
                    return [("v", ("bm", v[1], k.methods[name].fid), st)]
            return [("v", ("attr", ("super", v[1], v[2]), name), st)]
        name = mangle(name, fr.cls)
        h = st.get(("H", v, name))
        if h is None:
            h = self.rule.on_attr(self, v, name, st)
        if h == ("unbound",):
            return [("raise", ("exc", "AttributeError", True, "deleted"),
                     st)]
        if h is not None:
            return [("v", h, st)]
        if tag == "const" and isinstance(v[1], str) and \
                v[1].startswith("enum:"):
            ec = self.p.classes.get(v[1][5:])
            if name == "name":
                return [("v", const(v[2]), st)]
            if ec is not None:
                member = v[2] if name == "value" else name
                own, a = ec.find_attr(member)
                if own is not None and name == "value":
                    if isinstance(a, ast.Constant):
                        return [("v", const(a.value), st)]
                    if isinstance(a, ast.Tuple) and all(isinstance(
                            x, (ast.Name, ast.Attribute)) for x in a.elts):
                        return [("v", ("tuple", tuple(self.sym_to_value(
                            self.p.resolve_expr(own.module, x), own.module,
                            name) for x in a.elts)), st)]
                elif own is not None:
                    return [("v", ("const", v[1], name), st)]
        c = self.classinfo(v)
        if c is not None:
            m = c.find_method(name)
            if m is not None:
                decs = [self.p.dotted(d) or "" for d in m.decorators]
                if any(d == "property" or d.endswith("cached_property")
                       for d in decs):
                    if any("abstractmethod" in d for d in decs):
                        return [("v", ("attr", v, name), st)]
                    return self.call_func(
                        ("func", m.fid, None), [v], {}, node, fr, st,
                        Ev("call", node, fr, callee=("bm", v, m.fid),
                           recv=v, name=name, extra="property"),
                    )
                if "staticmethod" in decs:
                    return [("v", ("func", m.fid, None), st)]
                if "classmethod" in decs:
                    return [("v", ("bm", ("cls", c.cid), m.fid), st)]
                return [("v", ("bm", v, m.fid), st)]
            own, a = c.find_attr(name)
            if own is None and c.find_nested(name) is not None:
                return [("v", ("cls", c.find_nested(name).cid), st)]
            if own is not None and name not in self.inst_fields(c):
                return self.class_attr(("cls", own.cid), name, node, fr, st, v)
            m = c.find_method("__getattr__")
            if m is not None and self.rule.follow_getattr and \
                    name not in self.inst_fields(c):
                return self.invoke(v, m, [const(name)], node, fr, st)
        if v == NONE and not name.startswith("__"):
            return [("raise", ("exc", "AttributeError", True, "none"), st)]
        r = ("attr", v, name)
        if reach(r) > 9:
            r = ("res", self.site(fr, node, "deep"), None)
            st = self.forget(r, st)
        return [("v", r, st)]

    def inst_fields(self, c):
        f = getattr(c, "_inst_fields", None)
        if f is None:
            f = set()
            for k in c.mro():
                if not isinstance(k, ClassInfo):
                    continue
                for m in k.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.Attribute) and isinstance(
                                n.ctx, ast.Store):
                            f.add(mangle(n.attr, k))
            c._inst_fields = f
        return f

    def inst_mro(self, selfv, c):
        ci = self.classinfo(selfv)
        if selfv[0] == "cls":
            ci = self.p.classes.get(selfv[1])
        return (ci or c).mro()

    def class_attr(self, v, name, node, fr, st, inst):
        c = self.p.classes[v[1]]
        nm = mangle(name, fr.cls)
        h = st.get(("H", v, nm))
        if h is not None:
            return [("v", h, st)]
        m = c.find_method(nm)
        if m is not None:
            decs = [self.p.dotted(d) or "" for d in m.decorators]
            if "classmethod" in decs:
                return [("v", ("bm", v, m.fid), st)]
            return [("v", ("func", m.fid, None), st)]
        inner = c.find_nested(name)
        if inner is not None:
            return [("v", ("cls", inner.cid), st)]
        own, a = c.find_attr(nm)
        if own is not None:
            if own.is_subclass("enum.Enum") or own.is_subclass(
                    "enum.IntEnum") or own.is_subclass("enum.Flag"):
                return [("v", ("const", "enum:" + own.cid, nm), st)]
            if isinstance(a, ast.Constant):
                return [("v", const(a.value), st)]
            if isinstance(a, (ast.Name, ast.Attribute)):
                r = self.p.resolve_expr(own.module, a)
                if r[0] in ("func", "class", "ext"):
                    return [("v", self.sym_to_value(r, own.module, nm), st)]
                if isinstance(a, ast.Name) and a.id in own.attrs:
                    return self.class_attr(("cls", own.cid), a.id, node, fr,
                                           st, inst)
            if isinstance(a, ast.Tuple):
                try:
                    return [("v", ("tuple", tuple(
                        const(x) for x in ast.literal_eval(a))), st)]
                except Exception:
                    pass
            t = None
            if isinstance(a, ast.Call):
                t = self.p.ctor_type(own.module, a)
            elif isinstance(a, ast.Dict):
                t = "dict"
            return [("v", ("glob", own.cid, nm, t), st)]
        return [("v", ("attr", inst if inst is not None else v, nm), st)]

    # ------------------------------------------------------------- condition
    def truth(self, v):
        """Constant truth of a value or None."""
        t = v[0]
        if t == "const":
            if isinstance(v[1], str) and v[1].startswith("enum:"):
                return None
            return bool(v[2])
        if t == "exc" and not v[2]:
            return None     # an exception class may define __bool__
        if t in ("func", "bm", "cls", "mod", "partial", "coro", "task", "aw",
                 "exc", "super", "cm", "gen"):
            return True
        if t == "obj":
            ty = v[2]
            if ty in CONTAINER_TYPES or ty is None:
                return None
            c = self.p.classes.get(ty)
            if c is not None:
                if c.find_method("__len__") or c.find_method("__bool__"):
                    return None
                return True
            if ty in ALWAYS_TRUE_TYPES or ty == "label":
                return True
            return None
        if t == "tuple":
            return bool(v[1])
        if t == "cat":
            return True
        return None

    def assume(self, term, want, st):
        """Assume fact term == want; None if contradictory."""
        known = st.get(("F", term))
        if known is not None:
            return st if known == want else None
        upd = {("F", term): want}
        k = term[0]
        if k == "truth" and want:
            n = ("isnone", term[1])
            if st.get(("F", n)) is True:
                return None
            upd[("F", n)] = False
        if k == "isnone" and want:
            n = ("truth", term[1])
            if st.get(("F", n)) is True:
                return None
            upd[("F", n)] = False
        if k == "eqc" and want:
            # term = ('eqc', v, const): other constants are excluded
            for kk, vv in st.d.items():
                if kk[0] == "F" and kk[1][0] == "eqc" and (
                    kk[1][1] == term[1] and kk[1][2] != term[2] and vv
                ):
                    return None
        if k == "lt" and want:
            if st.get(("F", ("lt", term[2], term[1]))) is True:
                return None
        return st.update(upd)

    def branch_term(self, term, st):
        out = []
        for b in (True, False):
            s = self.assume(term, b, st)
            if s is not None:
                out.append((b, s))
        return out

    def branch_value(self, v, st):
        t = self.truth(v)
        if t is None:
            t = self.rule.on_truth(self, v, st)
        if t is not None:
            return [(t, st)]
        if v[0] == "not":
            return [(not b, s) for b, s in self.branch_value(v[1], st)]
        if v[0] == "cond":
            return self.branch_term(v[1], st)
        if v[0] == "exc":
            return [(True, st)]
        ty = self.typeof(v)
        if ty in ALWAYS_TRUE_TYPES and v[0] not in ("attr", "ver", "sym",
                                                    "res", "elem"):
            return [(True, st)]
        if v[0] == "obj" and ty in ("list", "set", "dict") or \
                v[0] == "kwdict":
            ps = self.exact_parts(v, st)
            if ps:
                return [(True, st)]
            if ps is not None and v[0] == "kwdict":
                return [(False, st)]
        if v[0] == "obj" and ty == "bytearray" and \
                self.buffer_of(v, st) is not None:
            return [(bool(self.buffer_of(v, st)), st)]
        if v[0] == "obj" and ty in ("list", "set", "dict"):
            el = st.get(("H", v, "[]"))
            if el is not None and not el and st.get(
                    ("H", v, "$open")) is None:
                return [(False, st)]
        if v[0] == "attr" and st.get(("F", ("isnone", v))) is True:
            return [(False, st)]
        return self.branch_term(("truth", v), st)

    def compare(self, op, a, b, st):
        """-> list[(bool, state)]"""
        if type(op) in NEGOPS:
            return [
                (not x, s)
                for x, s in self.compare(NEGOPS[type(op)](), a, b, st)
            ]
        if isinstance(op, (ast.Is, ast.Eq)):
            return self.equal(a, b, isinstance(op, ast.Is), st)
        if isinstance(op, ast.In):
            return self.contains(a, b, st)
        if is_const(a) and is_const(b):
            try:
                x, y = a[2], b[2]
                r = {
                    ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                    ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y,
                }[type(op)]()
                return [(r, st)]
            except Exception:
                pass
        if isinstance(op, ast.Lt):
            return self.branch_term(("lt", a, b), st)
        if isinstance(op, ast.Gt):
            return self.branch_term(("lt", b, a), st)
        if isinstance(op, ast.GtE):
            return [(not x, s)
                    for x, s in self.branch_term(("lt", a, b), st)]
        if isinstance(op, ast.LtE):
            return [(not x, s)
                    for x, s in self.branch_term(("lt", b, a), st)]
        return [(True, st), (False, st)]

    def contains(self, a, b, st):
        if b[0] == "tuple" and is_const(a) and all(map(is_const, b[1])):
            return [(a in b[1], st)]
        if b[0] == "tuple" and a[0] == "ext" and self.rule.distinct_ext \
                and all(x[0] == "ext" for x in b[1]):
            return [(a in b[1], st)]
        if is_const(a) and is_const(b) and a[1] == b[1] and a[1] in (
                "str", "bytes"):
            return [(a[2] in b[2], st)]
        if self.rule.strings and b[0] == "cat" and is_const(a) and \
                isinstance(a[2], str) and len(a[2]) == 1:
            return [(a in units(b), st)]
        if b[0] == "tuple" and all(map(is_const, b[1])) and len(b[1]) <= 6:
            # x in (A, B): disjunction of equalities
            res = []
            cur = [st]
            for c in b[1]:
                nxt = []
                for s in cur:
                    for r, s2 in self.equal(a, c, False, s):
                        if r:
                            res.append((True, s2))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(False, s) for s in cur]
        r = self.rule.has_key(self, b, a, st)
        if r is not None:
            return [(r, st)]
        if self.rule.exact_lists and known_one_by_one(a):
            ps = self.exact_parts(b, st)
            if ps is not None and (a in ps or all(
                    map(known_one_by_one, ps))):
                return [(a in ps, st)]
        return self.branch_term(("in", a, b), st)

    def fresh_local(self, v):
        return v[0] in ("obj", "task", "coro", "func", "partial", "bm")

    def equal(self, a, b, ident, st):
        if a == b:
            if a[0] in ("res", "elem", "op", "q", "item", "opaque") and (
                    not ident and a[0] in ("opaque",)):
                return [(True, st), (False, st)]
            return [(True, st)]
        if is_marker(a) and b[0] in DISTINCT or \
                is_marker(b) and a[0] in DISTINCT:
            return [(False, st)]
        if is_const(b) and not is_const(a):
            pass
        elif is_const(a) and not is_const(b):
            a, b = b, a
        if is_const(a) and is_const(b):
            return [(a[2] == b[2] and (
                not ident or "bool" not in (a[1], b[1]) or a[1] == b[1])
                if not a[1].startswith("enum:")
                and not b[1].startswith("enum:") else a == b, st)]
        if self.rule.strings and is_string(a) and is_string(b):
            return [(False, st)]    # labels differ from each other
        if b == NONE:
            if a[0] in ("cat", "func", "bm", "cls", "obj", "task", "coro", "tuple",
                        "exc", "partial", "mod", "aw", "cm", "gen", "elemof"):
                return [(False, st)]
            if a[0] == "glob" and a[3]:
                return [(False, st)]
            if st.get(("F", ("truth", a))) is True:
                return [(False, st)]
            return self.branch_term(("isnone", a), st)
        if is_const(b):
            if b == TRUE or b == FALSE:
                if ident or a[0] == "q":
                    return [(x == b[2], s)
                            for x, s in self.branch_value(a, st)]
            if a[0] in ("func", "bm", "cls", "task", "coro", "tuple", "exc",
                        "partial", "mod", "aw", "gen") or \
                    a[0] == "obj" and b[2] is ...:
                return [(False, st)]
            return self.branch_term(("eqc", a, b), st)
        if not ident and a[0] in ("tuple", "obj") and b[0] in (
                "tuple", "obj"):
            ta, tb = self.container(a), self.container(b)
            if ta is not None and tb is not None and ta != tb:
                return [(False, st)]
            if ta is not None and ta == tb:
                return self.equal_parts(
                    self.exact_parts(a, st) if ta in ORDERED else None,
                    self.exact_parts(b, st) if ta in ORDERED else None,
                    a, b, st)
        if self.fresh_local(a) and self.fresh_local(b):
            return [(False, st)]
        if a[0] == b[0] == "ext" and self.rule.distinct_ext:
            return [(False, st)]
        for x, y in ((a, b), (b, a)):
            if x[0] == "obj" and y[0] in ("attr", "sym", "glob"):
                # allocated here, the other existed before
                return [(False, st)]
        t = ("eq",) + tuple(sorted((a, b), key=repr))
        return self.branch_term(t, st)

    def container(self, v):
        t = "tuple" if v[0] == "tuple" else v[2]
        return t if t in ORDERED or t in ("dict", "set") else None

    def equal_parts(self, xs, ys, a, b, st):
        if xs is None or ys is None:
            return self.branch_term(
                ("eq",) + tuple(sorted((a, b), key=repr)), st)
        if len(xs) != len(ys):
            return [(False, st)]
        out, cur = [], [st]
        for x, y in zip(xs, ys):
            nxt = []
            for s in cur:
                for r, s2 in [(True, s)] if x == y else self.equal(
                        x, y, False, s):
                    if r:
                        nxt.append(s2)
                    else:
                        out.append((False, s2))
            cur = nxt
        return self._dd(out + [(True, s) for s in cur])

    def cond(self, node, fr, st):
        """Evaluate node as a condition.

        -> (list[(bool, state)], list of raise outcomes)
        """
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            br, rs = self.cond(node.operand, fr, st)
            return [(not b, s) for b, s in br], rs
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            cur, out, rs = [st], [], []
            for i, v in enumerate(node.values):
                nxt = []
                for s in cur:
                    br, r = self.cond(v, fr, s)
                    rs.extend(r)
                    for b, s2 in br:
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((b, s2))
                cur = nxt
            out.extend((is_and, s) for s in cur)
            return self._dd(out), rs
        if isinstance(node, ast.Compare):
            out, rs = [], []
            for o in self.ev_seq([node.left] + node.comparators, fr, st):
                if o[0] != "v":
                    rs.append(o)
                    continue
                vals = o[1]
                cur = [o[2]]
                for i, op in enumerate(node.ops):
                    nxt = []
                    for s in cur:
                        for b, s2 in self.compare(
                                op, vals[i], vals[i + 1], s):
                            if b:
                                nxt.append(s2)
                            else:
                                out.append((False, s2))
                    cur = nxt
                out.extend((True, s) for s in cur)
            return self._dd(out), rs
        if isinstance(node, ast.NamedExpr):
            out, rs = [], []
            for o in self.ev(node, fr, st):
                if o[0] != "v":
                    rs.append(o)
                else:
                    out.extend(self.branch_value(o[1], o[2]))
            return self._dd(out), rs
        out, rs = [], []
        for o in self.ev(node, fr, st):
            if o[0] != "v":
                rs.append(o)
            else:
                out.extend(self.branch_value(o[1], o[2]))
        return self._dd(out), rs

    def _dd(self, prs):
        seen = set()
        res = []
        for b, s in prs:
            k = (b, s.key)
            if k not in seen:
                seen.add(k)
                res.append((b, s))
        return res

    # ----------------------------------------------------------- expressions
    def ev_seq(self, nodes, fr, st):
        """Evaluate nodes left to right -> [('v', [vals], st)|raise]"""
        cur = [("v", [], st)]
        outs = []
        for n in nodes:
            nxt = []
            for _, vals, s in cur:
                for o in self.ev(n, fr, s):
                    if o[0] == "v":
                        nxt.append(("v", vals + [o[1]], o[2]))
                    else:
                        outs.append(o)
            cur = nxt
        return cur + outs

    def ev(self, node, fr, st):
        m = getattr(self, "ev_" + type(node).__name__, None)
        if m is None:
            self.incomplete.append(
                "expr %s at %s" % (type(node).__name__, fr.func.loc(node)))
            return [("v", ("res", self.site(fr, node), None), st)]
        return m(node, fr, st)

    def ev_Constant(self, node, fr, st):
        return [("v", const(node.value), st)]

    def ev_Name(self, node, fr, st):
        v = self.lookup(node.id, fr, st, node)
        if v is None:
            return [("raise", ("exc", "UnboundLocalError", True,
                               "unbound:" + node.id), st)]
        if v == ("ext", "Ellipsis"):
            v = const(...)
        return [("v", v, st)]

    def ev_Attribute(self, node, fr, st):
        out = []
        for o in self.ev(node.value, fr, st):
            if o[0] != "v":
                out.append(o)
                continue
            s = o[2]
            for r in self.get_attr(o[1], node.attr, node, fr, s):
                if r[0] == "v":
                    s2 = self.emit(
                        Ev("attrget", node, fr, recv=o[1],
                           name=mangle(node.attr, fr.cls), value=r[1]), r[2])
                    out.append(("v", r[1], s2))
                else:
                    out.append(r)
        return out

    def frozen_item(self, b, i):
        """An item of a module's MappingProxyType({...})."""
        mod = self.p.modules.get(b[1])
        r = mod and self.p.symbol(mod, b[2])
        if not r or r[0] != "value" or not isinstance(r[2], ast.Call) or \
                self.p.resolve_expr(r[1], r[2].func) != (
                    "ext", "types.MappingProxyType") or not r[2].args or \
                not isinstance(r[2].args[0], ast.Dict):
            return None
        for k, v in zip(r[2].args[0].keys, r[2].args[0].values):
            if not isinstance(k, ast.Constant):
                return None
            if k.value == i[2]:
                if isinstance(v, ast.Constant):
                    return const(v.value)
                x = self.p.resolve_expr(r[1], v)
                return None if x[0] in ("?", "value") else \
                    self.sym_to_value(x, r[1], b[2])
        return None

    def ev_Subscript(self, node, fr, st):
        out = []
        for o in self.ev_seq([node.value, node.slice], fr, st):
            if o[0] != "v":
                out.append(o)
                continue
            b, i = o[1]
            s = o[2]
            if b[0] == "tuple" and is_const(i) and isinstance(i[2], int):
                try:
                    out.append(("v", b[1][i[2]], s))
                    continue
                except IndexError:
                    pass
            sub = None
            if i[0] == "slice" and all(is_const(q) for q in i[1:]):
                sub = slice(*[q[2] for q in i[1:]])
            elif is_const(i) and isinstance(i[2], int):
                sub = i[2]
            if b[0] == "tuple" and isinstance(sub, slice) and not any(
                    q[0] == "star" for q in b[1]):
                out.append(("v", ("tuple", b[1][sub]), s))
                continue
            if self.rule.exact_lists and isinstance(sub, int) and \
                    b[0] == "obj" and b[2] in ("list", "collections.deque"):
                ps = self.exact_parts(b, s)
                if ps is not None:
                    out.append(("v", ps[sub], s) if -len(ps) <= sub < len(ps)
                               else ("raise", ("exc", "IndexError", True,
                                               "index"), s))
                    continue
            if self.rule.exact_lists and isinstance(sub, slice) and \
                    b[0] == "obj" and b[2] == "list":
                ps = self.exact_parts(b, s)
                if ps is not None:
                    ob, s = self.alloc(("obj", self.site(fr, node), "list"),
                                       s)
                    ps = tuple(ps)[sub]
                    s = s.set(("H", ob, "[]"), frozenset(ps))
                    out.append(("v", ob, s.set(("H", ob, "$parts"), ps)))
                    continue
            if self.rule.strings and sub is not None and b[0] == "cat" and (
                    isinstance(sub, slice) or -len(units(b)) <= sub < len(
                        units(b))):
                u = units(b)
                # labels have an unknown length: only from the known end
                if isinstance(sub, int) and u[sub][0] == "const" and not any(
                        x[0] != "const" for x in (
                            u[sub:] if sub < 0 else u[:sub])):
                    out.append(("v", u[sub], s))
                    continue
                if isinstance(sub, slice) and sub.step is None and \
                        sub.start is None and sub.stop is not None and \
                        sub.stop < 0 and all(
                            x[0] == "const" for x in u[sub.stop:]):
                    out.append(("v", cat(u[sub]), s))
                    continue
            if sub is not None and is_const(b) and isinstance(
                    b[2], (str, bytes)):
                try:
                    out.append(("v", const(b[2][sub]), s))
                except IndexError:
                    out.append(("raise", ("exc", "IndexError", True,
                                          "string"), s))
                continue
            if b[0] in ("ext", "cls", "glob") and isinstance(
                    node.value, (ast.Name, ast.Attribute)) and b[0] != "glob":
                out.append(("v", b, s))  # typing subscript
                continue
            if b[0] == "glob" and is_const(i) and s.get(
                    ("G", b[1], b[2])) is None:
                x = self.frozen_item(b, i)
                if x is not None:
                    out.append(("v", x, s))
                    continue
            ev = Ev("getitem", node, fr, recv=b, rtype=self.typeof(b),
                    name="[]", args=(i,))
            s = self.emit(ev, s)
            r = self.rule.on_call(self, ev, s)
            if r is None:
                r = self.dunder(b, "__getitem__", [i], node, fr, s)
            if r is None:
                r = self.dict_op(b, "[]", [i], {}, node, fr, s)
            if r is not None:
                out.extend(r)
                continue
            for e in self.rule.raises(self, ev, s):
                out.append(("raise", e, s))
            h = s.get(("H", b, ("[]", i)))
            if h is None:
                h = ("item", b, i)
                if reach(h) > 9:
                    h = ("res", self.site(fr, node, "deep"), None)
                    s = self.forget(h, s)
            out.append(("v", h, s))
        return out

    def dunder(self, b, name, args, node, fr, st):
        """A special method of a project class, or None."""
        ci = self.classinfo(b) if b[0] != "cls" else None
        m = ci.find_method(name) if ci is not None else None
        if m is None or isinstance(m, str):
            return None
        return self.call(("bm", b, m.fid), args, {}, node, fr, st)

    def ev_Slice(self, node, fr, st):
        ns = [n for n in (node.lower, node.upper, node.step) if n is not None]
        out = []
        for o in self.ev_seq(ns, fr, st):
            if o[0] != "v":
                out.append(o)
            else:
                it = iter(o[1])
                parts = tuple(
                    next(it) if n is not None else NONE
                    for n in (node.lower, node.upper, node.step))
                out.append(("v", ("slice",) + parts, o[2]))
        return out

    def _display(self, node, fr, st, kind):
        if any(isinstance(e, ast.Starred) for e in node.elts):
            out = []
            for o in self.ev_seq([
                e.value if isinstance(e, ast.Starred) else e
                for e in node.elts
            ], fr, st):
                if o[0] != "v":
                    out.append(o)
                    continue
                parts = []
                ok = True
                for e, v in zip(node.elts, o[1]):
                    if isinstance(e, ast.Starred):
                        ps = self.exact_parts(v, o[2])
                        if ps is not None:
                            parts.extend(ps)
                        else:
                            ok = False
                            parts.append(("star", v))
                    else:
                        parts.append(v)
                if ok and kind == "tuple":
                    out.append(("v", ("tuple", tuple(parts)), o[2]))
                else:
                    ob = ("obj", self.site(fr, node), kind)
                    els = set()
                    for x in parts:
                        if x[0] == "star":
                            els |= set(self.elements(x[1], o[2]))
                        else:
                            els.add(x)
                    ob, s = self.alloc(ob, o[2])
                    s = s.set(("H", ob, "[]"), frozenset(els))
                    s = s.set(("H", ob, "$parts"), tuple(parts))
                    out.append(("v", ob, s))
            return out
        out = []
        for o in self.ev_seq(node.elts, fr, st):
            if o[0] != "v":
                out.append(o)
            elif kind == "tuple":
                out.append(("v", ("tuple", tuple(o[1])), o[2]))
            else:
                ob = ("obj", self.site(fr, node), kind)
                ob, s = self.alloc(ob, o[2])
                s = s.set(("H", ob, "[]"), frozenset(o[1]))
                s = s.set(("H", ob, "$parts"), tuple(o[1]))
                out.append(("v", ob, s))
        return out

    def ev_Tuple(self, node, fr, st):
        return self._display(node, fr, st, "tuple")

    def ev_List(self, node, fr, st):
        return self._display(node, fr, st, "list")

    def ev_Set(self, node, fr, st):
        return self._display(node, fr, st, "set")

    def ev_Dict(self, node, fr, st):
        keys = [k for k in node.keys if k is not None]
        out = []
        for o in self.ev_seq(keys + node.values, fr, st):
            if o[0] != "v":
                out.append(o)
                continue
            ob = ("obj", self.site(fr, node), "dict")
            ob, s = self.alloc(ob, o[2])
            ks = iter(o[1][:len(keys)])
            d = {}
            for kn, v in zip(node.keys, o[1][len(keys):]):
                if kn is not None:
                    k = next(ks)
                    s = s.set(("H", ob, ("[]", k)), v)
                    if d is not None:
                        d[k] = v
                else:
                    x = self.exact_dict(v, s)
                    d = None if d is None or x is None else {**d, **x}
            s = s.set(("H", ob, "[]"), frozenset(o[1][:len(keys)]))
            out.append(("v", ob, self.put_dict(ob, d, s)))
        return out

    # mappings whose keys are all known: ("H", ob, "$dict") -> ((key, value))
    def exact_dict(self, v, st):
        if v[0] == "kwdict":
            return {const(k): x for k, x in v[1]}
        if v[0] == "obj":
            d = st.get(("H", v, "$dict"))
            if d is not None:
                return dict(d)
        return None

    def put_dict(self, ob, d, st):
        """Record (or, with None, forget) the contents of a mapping."""
        st = st.drop(lambda k: k == ("H", ob, "$dict"))
        if d is None or not self.rule.exact_lists or len(d) > 16 or not all(
                is_const(k) or k[0] in ("func", "cls", "task") or
                k[0] == "obj" and isinstance(k[1], tuple) for k in d):
            return st
        return st.set(("H", ob, "$dict"), tuple(d.items()))

    def dict_op(self, b, name, a, kw, node, fr, st):
        """A method of a mapping whose contents are known, or None."""
        d = self.exact_dict(b, st)
        if d is None:
            return None
        known = not a or is_const(a[0]) or a[0][0] in (
            "func", "cls", "task") or a[0][0] == "obj" and isinstance(
                a[0][1], tuple)
        key = a[0] if a else None

        def put(d, s=st):
            old = s.get(("H", b, "$dict"))
            s = s.drop(lambda k: k[0] == "H" and k[1] == b and isinstance(
                k[2], tuple) and k[2][0] == "[]")
            s = s.update({("H", b, ("[]", k)): v for k, v in d.items()})
            s = s.set(("H", b, "[]"), frozenset(d))
            return self.put_dict(b, d, s)
        absent = [("raise", ("exc", "KeyError", True, "key"), st)]
        if name in ("[]", "__getitem__"):
            if not known:
                return None
            fac = st.get(("H", b, "$factory"))
            if key not in d and fac is not None:
                return [(k, v, put({**dict(self.exact_dict(b, s) or d),
                                    key: v}, s) if k == "v" else s)
                        for k, v, s in self.call(fac, [], {}, node, fr, st)]
            return [("v", d[key], st)] if key in d else absent
        if name == "get" and known and a:
            return [("v", d.get(key, a[1] if len(a) > 1 else NONE), st)]
        if name in ("keys", "values", "items", "copy") and not a:
            if name == "copy":
                ob, st = self.alloc(("obj", self.site(fr, node), "dict"), st)
                return [("v", ob, self.put_dict(ob, d, st))]
            return [("v", ("tuple", tuple(
                d if name == "keys" else d.values() if name == "values"
                else (("tuple", kv) for kv in d.items()))), st)]
        if b[0] != "obj":
            return None
        if name == "__setitem__" and known:
            return [("v", NONE, put({**d, key: a[1]}))]
        if name == "setdefault" and known and a:
            v = d.get(key, a[1] if len(a) > 1 else NONE)
            return [("v", v, put({**d, key: v}))]
        if name in ("pop", "__delitem__") and known and a:
            if key in d:
                return [("v", d[key], put(
                    {k: v for k, v in d.items() if k != key}))]
            return [("v", a[1], st)] if len(a) > 1 else absent
        if name == "clear":
            return [("v", NONE, put({}))]
        if name == "update":
            d = dict(d)
            for x in a:
                e = self.exact_dict(x, st)
                if e is None:
                    return None
                d.update(e)
            d.update((const(k), v) for k, v in kw.items() if k != "**")
            return [("v", NONE, put(d))] if "**" not in kw else None
        return None

    def alloc(self, ob, st):
        """The object a site makes; a fresh one each time if asked for."""
        if not self.rule.fresh_new:
            return ob, self.clear_obj(ob, st)
        first = ob
        for i in range(1, 16):
            if st.get(("N", ob)) is None:
                return ob, st.set(("N", ob), TRUE)
            ob = (first[0], first[1] + (i,)) + first[2:]
        self.incomplete.append("many objects of %s" % (first[1],))
        return first, self.clear_obj(first, st)

    def clear_obj(self, ob, st):
        """A site allocates again: facts about the old object do not carry."""
        return st.drop(
            lambda k: (k[0] == "H" and k[1] == ob) or
            (k[0] == "F" and mentions(k[1], ob)))

    def ev_JoinedStr(self, node, fr, st):
        ns = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                ns.append(v.value)
        out = []
        for o in self.ev_seq(ns, fr, st):
            if o[0] != "v":
                out.append(o)
            elif all(v[0] == "const" and v[1] in ("str", "int")
                     for v in o[1]) and all(
                    isinstance(v, ast.Constant) or v.conversion == -1
                    and v.format_spec is None for v in node.values):
                vs = iter(o[1])
                out.append(("v", const("".join(
                    str(v.value) if isinstance(v, ast.Constant)
                    else str(next(vs)[2]) for v in node.values)), o[2]))
            elif self.rule.strings and all(
                    isinstance(v, ast.Constant) or v.conversion in (-1, 115)
                    and v.format_spec is None for v in node.values) and \
                    all(map(is_string, o[1])):
                vs = iter(o[1])
                out.append(("v", cat(
                    const(v.value) if isinstance(v, ast.Constant)
                    else next(vs) for v in node.values), o[2]))
            else:
                out.append(("v", ("res", self.site(fr, node), "str"), o[2]))
        return out

    def ev_FormattedValue(self, node, fr, st):
        return self.ev(node.value, fr, st)

    def ev_Starred(self, node, fr, st):
        return [
            ("v", ("star", o[1]), o[2]) if o[0] == "v" else o
            for o in self.ev(node.value, fr, st)
        ]

    def ev_IfExp(self, node, fr, st):
        br, rs = self.cond(node.test, fr, st)
        out = list(rs)
        for b, s in br:
            out.extend(self.ev(node.body if b else node.orelse, fr, s))
        return self.dedupe(out)

    def ev_BoolOp(self, node, fr, st):
        is_and = isinstance(node.op, ast.And)
        cur, out = [st], []
        for i, v in enumerate(node.values):
            last = i == len(node.values) - 1
            nxt = []
            for s in cur:
                for o in self.ev(v, fr, s):
                    if o[0] != "v":
                        out.append(o)
                    elif last:
                        out.append(o)
                    else:
                        for b, s2 in self.branch_value(o[1], o[2]):
                            if b == is_and:
                                nxt.append(s2)
                            else:
                                out.append(("v", o[1], s2))
            cur = nxt
        return self.dedupe(out)

    def ev_UnaryOp(self, node, fr, st):
        if isinstance(node.op, ast.Not):
            br, rs = self.cond(node.operand, fr, st)
            return rs + [("v", FALSE if b else TRUE, s) for b, s in br]
        out = []
        for o in self.ev(node.operand, fr, st):
            if o[0] != "v":
                out.append(o)
                continue
            v = o[1]
            if is_const(v) and isinstance(v[2], (int, float)):
                if isinstance(node.op, ast.USub):
                    v = const(-v[2])
                elif isinstance(node.op, ast.Invert) and isinstance(
                        v[2], int):
                    v = const(~v[2])
                out.append(("v", v, o[2]))
            else:
                out.append(("v", self.mkop(
                    type(node.op).__name__, v, NONE), o[2]))
        return out

    def mkop(self, op, a, b):
        v = ("op", op, a, b)
        if depth(v) > 8:
            return ("top",)
        return v

    def ev_BinOp(self, node, fr, st):
        out = []
        for o in self.ev_seq([node.left, node.right], fr, st):
            if o[0] != "v":
                out.append(o)
                continue
            a, b = o[1]
            r = self.exact_binop(node, a, b, fr, o[2])
            if r is not None:
                out.append(r)
                continue
            out.append(("v", self.binop(node.op, a, b, node, fr), o[2]))
        return out

    def exact_binop(self, node, a, b, fr, st):
        """Lists and sets whose elements are known, combined."""
        if not self.rule.exact_lists or a[0] not in ("obj", "tuple"):
            return None
        t, u = self.typeof(a), self.typeof(b)
        sets = ("set", "frozenset")
        if a[0] == "tuple":     # with these operators: a view of keys
            t = "set"
        if isinstance(node.op, ast.Add) and t == "list" and u == t:
            x, y = self.exact_parts(a, st), self.exact_parts(b, st)
            if x is None or y is None or len(x) + len(y) > 8:
                return None
            ps = x + y
        elif isinstance(node.op, ast.Mult) and t == "list" and is_const(b) \
                and isinstance(b[2], int):
            x = self.exact_parts(a, st)
            if x is None or len(x) * b[2] > 8:
                return None
            ps = x * b[2]
        elif t in sets and (u in sets or b[0] in ("coll", "tuple")):
            n = {ast.BitOr: "union", ast.BitAnd: "intersection",
                 ast.Sub: "difference"}.get(type(node.op))
            r = n and self.set_op(a, n, [b], node, fr, st)
            return r[0] if r else None
        else:
            return None
        ob, st = self.alloc(("obj", self.site(fr, node), t), st)
        st = st.set(("H", ob, "[]"), frozenset(ps))
        return ("v", ob, st.set(("H", ob, "$parts"), tuple(ps)))

    def binop(self, op, a, b, node, fr):
        if is_const(a) and is_const(b):
            try:
                x, y = a[2], b[2]
                f = {
                    ast.Add: lambda: x + y, ast.Sub: lambda: x - y,
                    ast.Mult: lambda: x * y, ast.Div: lambda: x / y,
                    ast.FloorDiv: lambda: x // y, ast.Mod: lambda: x % y,
                    ast.Pow: lambda: x ** y if abs(x) <= 16 and
                    abs(y) <= 16 else None + x,
                }.get(type(op))
                if f and not isinstance(x, str) and abs(
                        len(repr(x)) + len(repr(y))) < 40:
                    r = f()
                    if isinstance(r, int) and abs(r) > max(
                            self.rule.fold, 16) and in_loop(fr.func, node):
                        return ("top",)
                    return const(r)
            except Exception:
                pass
        if isinstance(op, ast.Add) and is_const(a) and is_const(b) and \
                isinstance(a[2], (str, bytes)) and type(a[2]) is type(b[2]) \
                and len(a[2]) + len(b[2]) < 80 and not in_loop(fr.func, node):
            return const(a[2] + b[2])
        if self.rule.strings and isinstance(op, ast.Add) and \
                is_string(a) and is_string(b) and not (
                    is_const(a) and is_const(b)):
            return cat((a, b))
        if a == ("tuple", ()) and isinstance(op, (ast.Sub, ast.BitAnd)):
            return a        # a set without elements
        if a[0] == "tuple" and b[0] == "tuple" and isinstance(op, ast.Add):
            return ("tuple", a[1] + b[1])
        return self.mkop(type(op).__name__, a, b)

    def ev_Compare(self, node, fr, st):
        br, rs = self.cond(node, fr, st)
        return rs + [("v", TRUE if b else FALSE, s) for b, s in br]

    def ev_NamedExpr(self, node, fr, st):
        out = []
        for o in self.ev(node.value, fr, st):
            if o[0] != "v":
                out.append(o)
            else:
                out.append((
                    "v", o[1],
                    o[2].set(self.store_key(node.target.id, fr), o[1])))
        return out

    def ev_Lambda(self, node, fr, st):
        fi = self.p.nested(fr.func, node)
        return [("v", ("func", fi.fid, fr.id), st)]

    def ev_Yield(self, node, fr, st):
        if node.value is not None:
            outs = self.ev(node.value, fr, st)
        else:
            outs = [("v", NONE, st)]
        res = []
        for o in outs:
            if o[0] != "v":
                res.append(o)
                continue
            hole = fr.hole
            if hole is None:
                s = self.emit(Ev("yield", node, fr, value=o[1]), o[2])
                r = self.rule.on_call(
                    self, Ev("yield", node, fr, value=o[1], name="yield"), s)
                if r is not None:
                    res.extend(r)
                    continue
                s = self.suspend(Ev("yield", node, fr, value=o[1]), s)
                res.append(("v", ("res", self.site(fr, node), None), s))
                res.append(("raise", ("exc", "GeneratorExit", True, "gen"), s))
            else:
                res.extend(hole(o[1], o[2]))
        return res

    def ev_YieldFrom(self, node, fr, st):
        res = []
        for o in self.ev(node.value, fr, st):
            if o[0] != "v":
                res.append(o)
                continue
            v = o[1]
            if v[0] == "gen":
                res.extend(self.run_gen(v, node, fr, o[2], fr.hole))
            elif v[0] in ("coro", "aw", "task"):
                res.extend(self.do_await(v, node, fr, o[2]))
            elif fr.hole is not None and (
                    v[0] in ("tuple", "coll") or v[0] == "obj" and
                    o[2].get(("H", v, "[]")) is not None):
                res.extend(self.yield_all(v, node, fr, o[2]))
            else:
                s = self.suspend(Ev("yield", node, fr, value=v), o[2])
                res.append(("v", ("res", self.site(fr, node), None), s))
                for e in self.rule.raises(
                        self, Ev("await", node, fr, value=v), s):
                    res.append(("raise", e, s))
        return res

    def yield_all(self, v, node, fr, st):
        """Each element of a collection goes to whoever iterates."""
        t = ast.copy_location(ast.Name(id="$yf", ctx=ast.Store()), node)

        def body(s):
            return [("next", None, o[2]) if o[0] == "v" else o
                    for o in fr.hole(s.get(self.store_key("$yf", fr)), s)]
        return [("v", NONE, s) if k == "next" else (k, x, s)
                for k, x, s in self.loop_over(v, t, body, node, fr, st)]

    def run_gen(self, gv, node, fr, st, hole):
        """Inline a generator with the given hole -> expr outcomes."""
        _, f, args, kw = gv
        return self.call_func(
            f, list(args), dict(kw), node, fr, st, None, hole=hole,
            force=True)

    # ------------------------------------------------------- comprehensions
    def _comp(self, node, fr, st, kind, elt, value=None):
        ob = ("obj", self.site(fr, node), kind)
        ob, st = self.alloc(ob, st)
        st = st.set(("H", ob, "[]"), frozenset())
        gens = node.generators

        def run(i, s):
            if i == len(gens):
                res = []
                nodes = [elt] + ([value] if value is not None else [])
                for o in self.ev_seq(nodes, fr, s):
                    if o[0] != "v":
                        res.append(("raise", o[1], o[2]))
                        continue
                    vv = o[1][-1]
                    els = o[2].get(("H", ob, "[]"), frozenset())
                    s2 = o[2].set(("H", ob, "[]"), els | {vv})
                    ps = s2.get(("H", ob, "$parts"))
                    if ps is not None and kind != "dict":
                        if kind != "set" or vv not in ps:
                            s2 = s2.set(("H", ob, "$parts"), ps + (vv,))
                    if kind == "dict":
                        kk = o[1][0]
                        s2 = s2.set(("H", ob, ("[]", kk)), vv)
                        d = self.exact_dict(ob, s2)
                        if d is not None:
                            s2 = self.put_dict(ob, {**d, kk: vv}, s2)
                    s2 = self.emit(Ev(
                        "comp_elt", node, fr, value=vv, recv=ob), s2)
                    res.append(("next", None, s2))
                return res
            g = gens[i]
            res = []
            for o in self.ev(g.iter, fr, s):
                if o[0] != "v":
                    res.append(("raise", o[1], o[2]))
                    continue
                it_v = o[1]
                s0 = o[2]
                if not g.is_async and (self.rule.exact_lists or len(
                        gens) == 1 and not g.ifs):
                    ps = self.exact_parts(it_v, s0)
                    if ps is None or len(ps) > 8:
                        s0 = s0.drop(lambda k: k in (
                            ("H", ob, "$parts"), ("H", ob, "$dict")))
                    elif i == 0 and kind == "dict":
                        s0 = self.put_dict(ob, {}, s0)
                    elif i == 0:
                        s0 = s0.set(("H", ob, "$parts"), ())
                else:
                    s0 = s0.drop(lambda k: k in (
                        ("H", ob, "$parts"), ("H", ob, "$dict")))

                def body(s1):
                    cur = [s1]
                    rs = []
                    skip = []
                    for c in g.ifs:
                        nx = []
                        for s3 in cur:
                            br, r = self.cond(c, fr, s3)
                            rs.extend(("raise", x[1], x[2]) for x in r)
                            for b, s4 in br:
                                if b:
                                    nx.append(s4)
                                else:
                                    skip.append(("next", None, self.emit(
                                        Ev("comp_skip", node, fr, recv=ob),
                                        s4)))
                        cur = nx
                    out = rs + skip
                    for s3 in cur:
                        out.extend(run(i + 1, s3))
                    return self.dedupe(out)

                res.extend(self.loop_over(
                    it_v, g.target, body, node, fr, s0,
                    is_async=g.is_async))
            return self.dedupe(res)

        out = []
        for k, v, s in run(0, st):
            if k == "raise":
                out.append(("raise", v, s))
            else:
                src = None
                out.append(("v", ob, s))
        return self.dedupe(out)

    def ev_ListComp(self, node, fr, st):
        return self._comp(node, fr, st, "list", node.elt)

    def ev_SetComp(self, node, fr, st):
        return self._comp(node, fr, st, "set", node.elt)

    def ev_GeneratorExp(self, node, fr, st):
        return self._comp(node, fr, st, "list", node.elt)

    def ev_DictComp(self, node, fr, st):
        return self._comp(node, fr, st, "dict", node.key, node.value)

    # ----------------------------------------------------------------- loops
    def elements(self, v, st):
        """May-set of element values of a collection value."""
        if v[0] == "tuple":
            return list(v[1])
        if v[0] == "obj":
            els = st.get(("H", v, "[]"))
            if els is not None and st.get(("H", v, "$open")) is None:
                return sorted(els, key=repr)
            if els is not None:
                return sorted(els, key=repr) + [("elem", v)]
        if v[0] == "coll":
            k = v[1]
            if k == "copyof":
                return self.elements(v[3][0], st)
            if k == "zip":
                parts = []
                for p in v[3]:
                    es = self.elements(p, st)
                    parts.append(es[0] if len(es) == 1 else ("elem", p))
                return [("tuple", tuple(parts))]
            if k == "enumerate":
                return [("tuple", (("res", v[2], "int"), e))
                        for e in self.elements(v[3][0], st)]
        if v[0] == "q" and v[1] in ("items", "values", "keys"):
            if v[1] == "items":
                return [("tuple", (("elem", ("q", "keys", v[2], ())),
                                   ("elem", ("q", "values", v[2], ()))))]
            return [("elem", v)]
        return [("elem", v)]

    def exact_parts(self, v, st):
        """Exact ordered elements if known, else None."""
        if v[0] == "tuple":
            return list(v[1])
        if v[0] == "coll" and v[1] == "copyof":
            return self.exact_parts(v[3][0], st)
        if v[0] == "coll" and v[1] in ("enumerate", "zip") and all(
                x[0] != "star" for x in v[3]):
            ps = [self.exact_parts(x, st) for x in v[3]]
            if any(x is None for x in ps):
                return None
            if v[1] == "zip":
                return [("tuple", x) for x in zip(*ps)]
            if len(ps) == 1:
                return [("tuple", (const(i), x))
                        for i, x in enumerate(ps[0])]
            return None
        if v[0] == "obj":
            parts = st.get(("H", v, "$parts"))
            if parts is not None and not any(
                    x[0] == "star" for x in parts) and (
                        v[2] != "$iter" or st.get(
                            ("H", v, "$rest")) is None):
                return list(parts)
        d = self.exact_dict(v, st)
        if d is not None:
            return list(d)
        return None

    def loop_over(self, coll, target, body, node, fr, st, is_async=False):
        """Run body(state) for each element; -> stmt outcomes (next/...)."""
        exits = []
        if coll[0] == "gen" and not is_async:
            return self.loop_over_gen(coll, target, body, node, fr, st)
        ev = Ev("next", node, fr, value=coll)
        if not is_async and self.rule.next_of(self, coll, ev, st):
            cur, out, seen = [st], [], set()
            while cur:
                nxt = []
                for s in cur:
                    if s.key in seen:
                        continue
                    seen.add(s.key)
                    for k, v, s2 in self.rule.next_of(self, coll, ev, s):
                        if k == "raise":
                            out.append(
                                ("next", None, s2) if v[1] ==
                                "StopIteration" else (k, v, s2))
                            continue
                        for k2, v2, s3 in self.assign_then(
                                target, v, node, fr, s2, body):
                            if k2 in ("next", "continue"):
                                nxt.append(s3)
                            elif k2 == "break":
                                out.append(("brk", None, s3))
                            else:
                                out.append((k2, v2, s3))
                cur = self._ddstates(nxt)
            return self.dedupe(out)
        parts = None if is_async else self.exact_parts(coll, st)
        if coll[0] == "obj" and coll[2] == "$iter" and parts is not None:
            cur, out, done = [st], [], []
            while cur:
                nxt = []
                for s in cur:
                    ps = s.get(("H", coll, "$parts"))
                    if not ps:
                        done.append(s)
                        continue
                    s = s.set(("H", coll, "$parts"), ps[1:])
                    for k, v, s2 in self.assign_then(
                            target, ps[0], node, fr, s, body):
                        if k in ("next", "continue"):
                            nxt.append(s2)
                        elif k == "break":
                            out.append(("brk", None, s2))
                        else:
                            out.append((k, v, s2))
                cur = self._ddstates(nxt)
            return self.dedupe(out + [("next", None, s) for s in done])
        if parts is not None and len(parts) <= 8 and not any(
                p[0] == "star" for p in parts):
            cur = [st]
            out = []
            for i, pv in enumerate(parts):
                nxt = []
                for s in cur:
                    for k, v, s2 in self.assign_then(
                            target, pv, node, fr, s, body):
                        if k in ("next", "continue"):
                            nxt.append(s2)
                        elif k == "break":
                            out.append(("brk", None, s2))
                        else:
                            out.append((k, v, s2))
                cur = self._ddstates(nxt)
            out.extend(("next", None, s) for s in cur)
            return self.dedupe(out)
        s0 = self.emit(Ev("loop_start", node, fr, value=coll), st)
        heads = [s0]
        seen = set()
        out = []
        while heads:
            h = self.gc(heads.pop())
            if h.key in seen:
                continue
            seen.add(h.key)
            if len(seen) > self.rule.max_heads:
                self.incomplete.append(
                    "loop state cap at %s" % fr.func.loc(node))
                break
            hs = [h]
            if is_async:
                evn = Ev("await", node, fr, value=("aw", "anext", (coll,),
                                                   (), self.site(fr, node)),
                         name="anext")
                hs = []
                for o in self.do_await_opaque(evn, h):
                    if o[0] == "v":
                        hs.append(o[2])
                    else:
                        out.append(("raise", o[1], o[2]))
            for h1 in hs:
                # exhausted
                out.append(("next", None, self.emit(
                    Ev("loop_exit", node, fr, value=coll), h1)))
                for el in self.elements(coll, h1):
                    s = self.forget(el, h1) if contains_elem(el) else h1
                    s = self.emit(Ev(
                        "iter_start", node, fr, value=coll, extra=el), s)
                    for k, v, s2 in self.assign_then(
                            target, el, node, fr, s, body):
                        if k in ("next", "continue"):
                            s2 = self.emit(Ev(
                                "iter_end", node, fr, value=coll, extra=el),
                                s2)
                            heads.append(s2)
                        elif k == "break":
                            out.append(("brk", None, s2))
                        else:
                            out.append((k, v, s2))
        return self.dedupe(out)

    def loop_over_gen(self, gv, target, body, node, fr, st):
        pend = []

        def hole(v, s):
            res = []
            for k, val, s2 in self.assign_then(target, v, node, fr, s, body):
                if k in ("next", "continue"):
                    res.append(("v", NONE, s2))
                elif k == "raise":
                    res.append(("raise", ("exc", "GeneratorExit", True,
                                          "gen"), s2))
                    pend.append((k, val, s2))
                else:
                    pend.append((k if k != "break" else "brk", val, s2))
            return res

        outs = []
        for o in self.run_gen(gv, node, fr, st, hole):
            if o[0] == "v":
                outs.append(("next", None, o[2]))
            elif o[1][1] != "GeneratorExit":
                outs.append(o)
        return self.dedupe(outs + pend)

    def _ddstates(self, sts):
        seen = {}
        for s in sts:
            seen.setdefault(s.key, s)
        return list(seen.values())

    def assign_then(self, target, v, node, fr, st, body):
        out = []
        for k, val, s in self.assign(target, v, fr, st):
            if k == "raise":
                out.append((k, val, s))
            else:
                out.extend(body(s))
        return out

    def forget(self, v, st):
        """A symbol is rebound to a new object: drop facts on the old one."""
        subs = [x for x in atoms(v) if x[0] in ("elem", "res")]
        if not subs:
            return st
        ss = set(subs)

        def pred(k):
            if k[0] == "F":
                return any(mentions(k[1], x) for x in ss)
            if k[0] == "H":
                return any(mentions(k[1], x) for x in ss)
            return False
        return st.drop(pred)

    # ----------------------------------------------------------------- await
    def ev_Await(self, node, fr, st):
        out = []
        for o in self.ev(node.value, fr, st):
            if o[0] != "v":
                out.append(o)
            else:
                out.extend(self.do_await(o[1], node, fr, o[2]))
        return self.dedupe(out)

    def do_await(self, v, node, fr, st):
        ev = Ev("await", node, fr, value=v, name=self.aw_name(v),
                rtype=self.typeof(v), extra=self.origin.get(v))
        r = self.rule.on_await(self, ev, st)
        if r is not None:
            return r
        if v[0] == "coro":
            return self.call_func(
                v[1], list(v[2]), dict(v[3]), node, fr, st, ev, force=True)
        if v[0] == "aw" and v[1] == "wait_for":
            inner = v[2][0] if v[2] else NONE
            limit = dict(v[3]).get("timeout", v[2][1] if len(v[2]) > 1
                                   else None)
            out = []
            for o in self.do_await(inner, node, fr, st):
                out.append(o)
                if o[0] == "raise" and o[1][1] == CANCELLED and \
                        limit != NONE:
                    out.append((
                        "raise", ("exc", "TimeoutError", True, "wait_for"),
                        o[2]))
            return out
        if v[0] == "aw" and v[1] == "shield":
            st = self.emit(ev, st)
            return self.finish_await(ev, st)
        if v[0] == "aw" and v[1] == "gather":
            return self.await_gather(v, ev, node, fr, st)
        if v[0] not in ("exc", "cls") and self.classinfo(v) is not None:
            m = self.classinfo(v).find_method("__await__")
            if m is not None and not m.is_gen and not self.recursing(m, fr):
                out = []
                for o in self.call_func(
                        ("func", m.fid, None), [v], {}, node, fr, st, ev,
                        force=True):
                    if o[0] == "v" and o[1] != v:
                        out.extend(self.do_await(o[1], node, fr, o[2]))
                    elif o[0] == "v":
                        out.extend(self.finish_await(ev, o[2]))
                    else:
                        out.append(o)
                return self.dedupe(out)
            if m is not None and not self.recursing(m, fr):
                return self.call_func(
                    ("func", m.fid, None), [v], {}, node, fr, st, ev,
                    force=True, hole=lambda val, s: self.finish_await(ev, s))
        return self.do_await_opaque(ev, st)

    def recursing(self, f, fr):
        return f.fid in fr.stack

    def do_await_opaque(self, ev, st):
        st = self.emit(ev, st)
        return self.finish_await(ev, st)

    def finish_await(self, ev, st):
        st = self.suspend(ev, st)
        out = []
        for e in self.rule.raises(self, ev, st):
            out.append(("raise", e, st))
        rv = ("res", self.site(ev.fr, ev.node, "await"), None)
        st = self.forget(rv, st)
        out.append(("v", rv, st))
        return out

    def await_gather(self, v, ev, node, fr, st):
        kw = dict(v[3])
        ret_exc = kw.get("return_exceptions") == TRUE
        st = self.emit(ev, st)
        cur = [st]
        out = []
        parts = []
        for a in v[2]:
            if a[0] == "star":
                ps = self.exact_parts(a[1], st)
                if ps is not None:
                    parts.extend(("one", x) for x in ps)
                else:
                    parts.append(("many", a[1]))
            else:
                parts.append(("one", a))
        for kind, a in parts:
            nxt = []
            for s in cur:
                els = [a] if kind == "one" else self.elements(a, s)
                if kind == "many":
                    nxt.append(s)
                for e in els:
                    if e[0] != "coro" and not (
                            self.rule.gather_aw and e[0] in ("aw", "task")):
                        nxt.append(s)
                        continue
                    for o in self.do_await(e, node, fr, s):
                        if o[0] == "v" or (
                            ret_exc and o[1] != EXC_CANCEL
                        ):
                            nxt.append(o[2])
                        else:
                            out.append(o)
            cur = self._ddstates(nxt)
        for s in cur:
            out.extend(self.finish_await(ev, s))
        return self.dedupe(out)

    def aw_name(self, v):
        if v[0] == "aw":
            return v[1]
        if v[0] == "coro":
            f = self.func_of(v[1])
            return f.name if f else None
        if v[0] == "task":
            return "task"
        if v[0] == "res" or v[0] == "opaque":
            return "res"
        return None

    def func_of(self, fv):
        if fv[0] == "func":
            return self.p.funcs.get(fv[1])
        if fv[0] == "bm":
            return self.p.funcs.get(fv[2])
        return None

    def suspend(self, ev, st):
        """Other tasks run: shared mutable facts are forgotten."""
        st = self.rule.on_suspend(self, ev, st)
        if not self.rule.havoc:
            return st
        site = (ev.node.lineno, ev.node.col_offset)
        upd = {}
        for root in self.roots:
            c = self.classinfo(root)
            if c is None:
                continue
            for fld in c.fields_written_outside_init():
                if self.rule.stable(self, root, fld):
                    continue
                upd[("H", root, fld)] = ("ver", root, fld, site)
        if upd:
            st = st.update(upd)

        def pred(k):
            if k[0] != "F":
                return False
            t = k[1]
            if t[0] == "truth":
                if t[1][0] == "q":
                    return not (t[1][1] in MONOTONE_TRUE and st.d[k])
                ty = self.typeof(t[1])
                if ty in CONTAINER_TYPES:
                    return True
                if t[1][0] == "ver" and t[1][3] == site:
                    return True
                return False
            if mentions_tag(t, "q"):
                return True
            if t[0] == "in":
                return True
            if any(x[0] == "ver" and x[3] == site for x in atoms(t)):
                return True
            return False
        return st.drop(pred)

    # ----------------------------------------------------------------- calls
    def ev_Call(self, node, fr, st):
        out = []
        for o in self.ev_callee(node, fr, st):
            if o[0] != "v":
                out.append(o)
                continue
            fv, s = o[1], o[2]
            argnodes = [
                a.value if isinstance(a, ast.Starred) else a
                for a in node.args
            ] + [k.value for k in node.keywords]
            na = len(node.args)
            for a in self.ev_seq(argnodes, fr, s):
                if a[0] != "v":
                    out.append(a)
                    continue
                vals, s2 = a[1], a[2]
                args = []
                for n, v in zip(node.args, vals[:na]):
                    if isinstance(n, ast.Starred):
                        ps = self.exact_parts(v, s2)
                        if ps is not None and len(ps) <= 8:
                            args.extend(ps)
                        else:
                            args.append(("star", v))
                    else:
                        args.append(v)
                kw = {}
                for k, v in zip(node.keywords, vals[na:]):
                    if k.arg is None:
                        d = self.exact_dict(v, s2)
                        if d is not None and all(
                                is_const(x) and isinstance(x[2], str)
                                for x in d):
                            kw.update((x[2], y) for x, y in d.items())
                        else:
                            kw["**"] = v
                    else:
                        kw[k.arg] = v
                out.extend(self.call(fv, args, kw, node, fr, s2))
        return self.dedupe(out)

    def ev_callee(self, node, fr, st):
        f = node.func
        if isinstance(f, ast.Name) and f.id == "super" and not node.args:
            pass
        return self.ev(f, fr, st)

    def call(self, fv, args, kw, node, fr, st):
        tag = fv[0]
        if tag == "partial":
            nkw = dict(fv[3])
            nkw.update(kw)
            return self.call(fv[1], list(fv[2]) + args, nkw, node, fr, st)
        if tag == "cmfunc":
            return [("v", ("cm", fv[1], tuple(args), tuple(kw.items())), st)]
        if tag == "thrfunc":
            # calling a @threaded function: awaitable run off the loop
            return self.call_thr(fv, args, kw, node, fr, st)
        self.n_calls.add((fr.func.fid, node.lineno, node.col_offset))
        if tag == "func":
            f = self.p.funcs[fv[1]]
            dec = self.decorated_kind(f, fv)
            if dec:
                return self.call((dec, fv), args, kw, node, fr, st)
            ev = Ev("call", node, fr, callee=fv, name=f.name, args=args,
                    kw=kw, extra=f)
            return self.call_project(fv, f, list(args), kw, node, fr, st, ev)
        if tag == "bm":
            f = self.p.funcs[fv[2]]
            dec = self.decorated_kind(f, fv)
            if dec:
                return self.call((dec, fv), args, kw, node, fr, st)
            ev = Ev("call", node, fr, callee=fv, recv=fv[1], name=f.name,
                    rtype=self.typeof(fv[1]), args=args, kw=kw, extra=f)
            return self.call_project(
                ("func", fv[2], None), f, [fv[1]] + list(args), kw, node, fr,
                st, ev)
        if tag == "cls":
            return self.instantiate(fv, args, kw, node, fr, st)
        if tag == "ext":
            return self.call_ext(fv[1], args, kw, node, fr, st)
        if tag == "attr":
            return self.call_method(fv, args, kw, node, fr, st)
        if tag == "thrbound":
            return self.call(fv[1], args, kw, node, fr, st)
        ci = self.classinfo(fv) if tag in ("obj", "sym", "item", "res") \
            else None
        if ci is not None and ci.find_method("__call__") is not None:
            return self.call(("bm", fv, ci.find_method("__call__").fid),
                             args, kw, node, fr, st)
        # opaque callable value (a user callback, usually)
        ev = Ev("call", node, fr, callee=fv, name=None, args=args, kw=kw,
                extra="opaque")
        return self.opaque_call(ev, st)

    def decorated_kind(self, f, fv):
        """'cmfunc' / 'thrfunc' for special decorators."""
        if f.is_lambda:
            return None
        for d in f.decorators:
            q = d.func if isinstance(d, ast.Call) else d
            r = self.p.resolve_expr(f.module, q)
            if r[0] == "ext" and r[1] in (
                "contextlib.contextmanager", "contextlib.asynccontextmanager",
            ):
                return "cmfunc"
            if r[0] == "func" and r[1].module.name == "aiomisc.thread_pool" \
                    and r[1].name.startswith("threaded"):
                return "thrfunc"
        return None

    def call_thr(self, fv, args, kw, node, fr, st):
        inner = fv[1]
        f = self.func_of(inner)
        a = list(args)
        recv = inner[1] if inner[0] == "bm" else None
        ev = Ev("call", node, fr, callee=fv, recv=recv, name=f.name, args=a,
                kw=kw, extra=f)
        ev.kind = "thread"
        st = self.emit(ev, st)
        r = self.rule.on_call(self, ev, st)
        if r is not None:
            return r
        return [("v", ("aw", "thread", (inner,) + tuple(a),
                       tuple(kw.items()), self.site(fr, node)), st)]

    def is_abstract(self, f):
        return any(
            "abstractmethod" in (self.p.dotted(d) or "")
            for d in f.decorators
        )

    def call_project(self, fv, f, args, kw, node, fr, st, ev):
        st = self.emit(ev, st)
        r = self.rule.on_call(self, ev, st)
        if r is not None:
            return r
        if self.is_abstract(f):
            if f.is_async:
                return [("v", ("aw", "abstract:" + f.name, tuple(args),
                               tuple(kw.items()), self.site(fr, node)), st)]
            return self.opaque_result(ev, st, emit=False)
        if f.is_gen and not f.is_async:
            return [("v", ("gen", fv, tuple(args), tuple(kw.items())), st)]
        if f.is_async:
            return [("v", ("coro", fv, tuple(args), tuple(kw.items())), st)]
        return self.call_func(fv, args, kw, node, fr, st, ev)

    def call_func(self, fv, args, kw, node, fr, st, ev, hole=None,
                  force=False):
        """Inline a project function (or run a coroutine's body)."""
        f = self.p.funcs[fv[1] if fv[0] == "func" else fv[2]]
        if fv[0] == "bm":
            args = [fv[1]] + list(args)
        if ev is None:
            ev = Ev("call", node, fr, callee=fv, name=f.name, args=args,
                    kw=kw, extra=f)
        if fr is not None and self.recursing(f, fr) or (
                fr is not None and fr.depth >= self.rule.max_depth):
            if fr.depth >= self.rule.max_depth:
                self.incomplete.append(
                    "inline depth at %s" % fr.func.loc(node))
            rec = Ev("recursion", node, fr, callee=fv, name=f.name,
                     args=args, kw=kw, extra=f)
            r = self.rule.on_recursion(self, rec, st)
            if r is not None:
                return r
            if f.is_async:
                return self.do_await_opaque(
                    Ev("await", node, fr, value=("res", self.site(fr, node),
                                                 None), name="recursion"), st)
            return self.opaque_result(ev, st, emit=False)
        if not self.rule.inline(self, f, ev, st):
            if ev.kind == "await" or f.is_async:
                ev2 = Ev("await", node, fr, value=(
                    "coro", fv, tuple(args), tuple(kw.items())), name=f.name)
                return self.do_await_opaque(ev2, st)
            return self.opaque_result(ev, st, emit=False)
        nf = self.new_frame(f, fv[2] if fv[0] == "func" else None, fr, node,
                            hole)
        if f.is_lambda or f.parent is not None:
            if nf.parent is None and f.parent is not None:
                nf.parent = None
        out = []
        for b in self.bind(nf, args, kw, fr, st):
            if b[0] == "raise":
                out.append(b)
                continue
            out.extend(self.run_body(nf, b[2]))
        return self.dedupe(out)

    def bind(self, nf, args, kw, fr, st):
        f = nf.func
        a = f.node.args
        st = st.drop(lambda k: k[0] == "L" and k[1] == nf.id)
        names = list(f.params)
        upd = {}
        star = [x for x in args if x[0] == "star"]
        pos = list(args)
        i = 0
        unknown_tail = False
        extra = []
        for v in pos:
            if v[0] == "star":
                unknown_tail = True
                extra.append(v)
                # a starred argument may fill remaining positional params
                while i < len(names):
                    upd[names[i]] = ("item", v[1], const(i))
                    i += 1
                continue
            if i < len(names):
                upd[names[i]] = v
                i += 1
            else:
                extra.append(v)
        if f.vararg:
            if len(extra) == 1 and extra[0][0] == "star":
                upd[f.vararg] = extra[0][1]
            elif any(x[0] == "star" for x in extra):
                upd[f.vararg] = ("coll", "copyof", ("va", nf.id), (
                    [x[1] for x in extra if x[0] == "star"][0],))
            else:
                upd[f.vararg] = ("tuple", tuple(extra))
        kwrest = {}
        for k, v in kw.items():
            if k == "**":
                kwrest[k] = v
            elif k in names or k in f.kwonly:
                upd[k] = v
            else:
                kwrest[k] = v
        if f.kwarg:
            if list(kwrest) == ["**"]:
                upd[f.kwarg] = kwrest["**"]
            else:
                upd[f.kwarg] = ("kwdict", tuple(sorted(
                    kwrest.items(), key=repr)))
                if "**" not in kwrest and (
                        self.rule.fresh_kwargs or changes_kwargs(f)):
                    ob, st = self.alloc(
                        ("obj", ("kwargs", nf.id), "dict"), st)
                    st = st.update({
                        ("H", ob, ("[]", const(k))): v
                        for k, v in kwrest.items()})
                    st = st.set(("H", ob, "[]"), frozenset(
                        const(k) for k in kwrest))
                    upd[f.kwarg] = ob
                    st = self.put_dict(ob, {const(k): v for k, v in
                                            kwrest.items()}, st)
        # defaults are evaluated in the defining scope
        cur = [("v", None, st)]
        outs = []
        dfl = {}
        if a.defaults:
            for n, d in zip(names[-len(a.defaults):], a.defaults):
                dfl[n] = d
        for n, d in zip(f.kwonly, a.kw_defaults):
            if d is not None:
                dfl[n] = d
        deffr = self.frames.get(nf.parent) if nf.parent else None
        for n in names + f.kwonly:
            if n in upd:
                continue
            if "**" in kwrest:
                upd[n] = ("item", kwrest["**"], const(n))
            elif n in dfl:
                dn = dfl[n]
                if isinstance(dn, ast.Constant):
                    upd[n] = const(dn.value)
                elif deffr is not None:
                    for o in self.ev(dn, deffr, st):
                        if o[0] == "v":
                            upd[n] = o[1]
                            st = o[2]
                            break
                elif isinstance(dn, ast.Name) and f.cls is not None and \
                        isinstance(f.cls.attrs.get(dn.id), ast.Constant):
                    upd[n] = const(f.cls.attrs[dn.id].value)
                else:
                    upd[n] = self.default_value(f, dn) or (
                        "sym", "default:%s:%s" % (f.qualname, n),
                        self.p.param_type(f, n))
            else:
                upd[n] = ("sym", "missing:%s:%s" % (f.qualname, n), None)
        st = st.update({("L", nf.id, n): v for n, v in upd.items()})
        return [("v", None, st)]

    def default_value(self, f, dn):
        if isinstance(dn, ast.Constant):
            return const(dn.value)
        if isinstance(dn, ast.Tuple):
            xs = [self.default_value(f, x) for x in dn.elts]
            return None if None in xs else ("tuple", tuple(xs))
        r = self.p.resolve_expr(f.module, dn)
        if r[0] in ("func", "class", "ext", "value"):
            return self.sym_to_value(r, f.module, self.p.dotted(dn) or "?")
        return None

    def run_body(self, nf, st):
        """-> expr outcomes of executing the function body."""
        f = nf.func
        if f.is_lambda:
            outs = self.ev(f.node.body, nf, st)
        else:
            outs = []
            for k, v, s in self.block(f.node.body, nf, st):
                if k == "next":
                    outs.append(("v", NONE, s))
                elif k == "return":
                    outs.append(("v", v, s))
                elif k == "raise":
                    outs.append(("raise", v, s))
                elif k == "$pending":
                    outs.append((k, v, s))
                else:
                    outs.append(("v", NONE, s))
        if not f.has_nested:
            fid = nf.id
            outs = [
                (k, v, self.gc(s.drop(
                    lambda q: q[0] in ("L", "X") and q[1] == fid), v))
                for k, v, s in self.dedupe(outs)
            ]
        return self.dedupe(outs)

    def gc(self, st, extra=None):
        """Drop facts about results no live variable refers to."""
        if not any(k[0] == "F" for k in st.d):
            return st
        live = set()
        for k, v in st.d.items():
            if k[0] != "F":
                collect(v, live)
                if k[0] == "H":
                    collect(k[1], live)
        if extra is not None:
            collect(extra, live)
        self.rule.live(live, st)

        def dead(k):
            return k[0] == "F" and not (volatile(k[1]) <= live)
        return st.drop(dead)

    def instantiate(self, cv, args, kw, node, fr, st):
        c = self.p.classes[cv[1]]
        ob = ("obj", self.site(fr, node, "new"), c.cid)
        if self.rule.fresh_new:
            ob, st = self.alloc(ob, st)
        ev = Ev("new", node, fr, callee=cv, name=c.name, args=args, kw=kw,
                value=ob, rtype=c.cid, extra=c)
        st = self.emit(ev, st)
        r = self.rule.on_call(self, ev, st)
        if r is not None:
            return r
        if c.is_subclass("enum.Enum") or c.is_subclass("enum.IntEnum"):
            rv = ("res", self.site(fr, node), c.cid)
            out = [("v", rv, self.forget(rv, st))]
            for e in self.rule.raises(self, ev, st):
                out.append(("raise", ("exc", "ValueError", True, "enum"), st))
            return out
        if any(b.endswith("Exception") or b.endswith("Error")
               for b in c.ext_bases()) and c.find_method("__init__") is None:
            return [("v", ("exc", c.cid, True, self.site(fr, node)), st)]
        if not self.rule.fresh_new:
            st = self.clear_obj(ob, st)
        init = c.find_method("__init__")
        if init is None:
            st = self.dataclass_init(c, ob, args, kw, st)
            return [("v", ob, st)]
        if any(b.endswith("Exception") or b.endswith("Error")
               for b in c.ext_bases()):
            ob = ("exc", c.cid, True, self.site(fr, node))
        if self.recursing(init, fr) or not self.rule.inline(
                self, init, ev, st):
            return [("v", ob, st)]
        out = []
        for o in self.call_func(
                ("func", init.fid, None), [ob] + list(args), kw, node, fr,
                st, Ev("call", node, fr, callee=("bm", ob, init.fid),
                       recv=ob, name="__init__", args=args, kw=kw,
                       extra=init)):
            if o[0] == "v":
                out.append(("v", ob, o[2]))
            else:
                out.append(o)
        return out

    def dataclass_fields(self, c):
        names = []
        for k in reversed(c.mro()):
            if isinstance(k, ClassInfo):
                for n in k.annots:
                    if n not in names:
                        names.append(n)
        return names

    def field_default(self, own, call, n, ob):
        """Value of dataclasses.field(default=..|default_factory=..)."""
        if self.p.resolve_expr(own.module, call.func) != (
                "ext", "dataclasses.field"):
            return None
        for k in call.keywords:
            if k.arg == "default" and isinstance(k.value, ast.Constant):
                return const(k.value.value)
            if k.arg == "default_factory":
                r = self.p.resolve_expr(own.module, k.value)
                q = r[1] if r and r[0] in ("ext", "builtin") else (
                    k.value.id if isinstance(k.value, ast.Name) else None)
                if not isinstance(q, str):
                    return ("res", ob[1] + (n,), None)
                typ = {"contextvars.copy_context": "contextvars.Context"
                       }.get(q, q)
                rv = ("res", ob[1] + (n,), typ)
                self.origin[rv] = Ev("call", call, None, callee=("ext", q),
                                     name=q, args=[], kw={}, extra="ext")
                return rv
        return None

    def factory_made(self, v, ob, n, st):
        """What a default factory returns when the object is made."""
        if v[2] == "tuple":
            return ("tuple", ()), st
        if v[2] in ("dict", "list", "set"):
            o = ("obj", ob[1] + (n,), v[2])
            st = st.set(("H", o, "[]"), frozenset())
            if v[2] == "dict":
                return o, self.put_dict(o, {}, st)
            return o, st.set(("H", o, "$parts"), ())
        ev = self.origin.get(v)
        if ev is not None:
            st = self.rule.note(self, Ev(
                "made", ev.node, None, value=v, name=ev.name), st)
        return v, st

    def dataclass_init(self, c, ob, args, kw, st):
        upd = {}
        names = self.dataclass_fields(c)
        for n, v in zip(names, args):
            if v[0] == "star":
                break
            upd[("H", ob, n)] = v
        for k, v in kw.items():
            if k in names:
                upd[("H", ob, k)] = v
        for n in names:
            if ("H", ob, n) in upd:
                continue
            own, a = c.find_attr(n)
            if isinstance(a, ast.Constant):
                upd[("H", ob, n)] = const(a.value)
            elif isinstance(a, ast.Call):
                v = self.field_default(own, a, n, ob)
                if v is not None:
                    if self.rule.exact_lists and v[0] == "res":
                        v, st = self.factory_made(v, ob, n, st)
                    upd[("H", ob, n)] = v
        st = st.update(upd)
        if not upd and args:
            st = st.set(("H", ob, "args"), ("tuple", tuple(args)))
        return st

    # -------------------------------------------------- library call models
    def call_ext(self, q, args, kw, node, fr, st):
        ev = Ev("call", node, fr, callee=("ext", q), name=q, args=args,
                kw=kw, extra="ext")
        st = self.emit(ev, st)
        r = self.rule.on_call(self, ev, st)
        if r is not None:
            return r
        site = self.site(fr, node)
        a0 = args[0] if args else None

        def val(v, s=st):
            return [("v", v, s)]

        if not kw and args and q in PURE and all(map(plain_const, args)):
            try:
                x = PURE[q](*[a[2] for a in args])
            except Exception as e:
                return [("raise", ("exc", type(e).__name__, True, site), st)]
            if small(x):
                return val(const(x))
        if q == "functools.partial" and a0 is not None:
            return val(("partial", a0, tuple(args[1:]), tuple(kw.items())))
        if q == "object" and not args and not kw:
            ob, s = self.alloc(("obj", site, "object"), st)
            return val(ob, s)
        if q == "tuple" and not kw:
            if a0 is None:
                return val(("tuple", ()))
            if a0[0] == "tuple" and not any(
                    x[0] == "star" for x in a0[1]):
                return val(a0)
        if q in ("functools.wraps",):
            return val(("ext", "$identity"))
        if q in ("$identity", "typing.cast", "functools.update_wrapper"):
            return val(args[-1] if q == "typing.cast" else a0)
        if q == "contextlib.suppress":
            return val(("suppress", tuple(args)))
        if q == "super":
            if not args:
                f = fr
                while f is not None and f.func.parent is not None:
                    f = self.frames.get(f.parent) if f.parent else None
                f = f or fr
                selfn = f.func.params[0] if f.func.params else None
                sv = st.get(("L", f.id, selfn)) if selfn else None
                if sv is not None and f.func.cls is not None:
                    return val(("super", sv, f.func.cls.cid))
            elif len(args) == 2 and a0[0] == "cls":
                return val(("super", args[1], a0[1]))
            return val(("res", site, None))
        if q == "weakref.WeakSet" and self.rule.exact_lists:
            q = "set"
        if q in ("list", "tuple", "set", "frozenset", "sorted", "iter",
                 "reversed"):
            if a0 is None:
                ob = ("obj", site, q)
                ob, s = self.alloc(ob, st)
                s = s.set(("H", ob, "[]"), frozenset())
                s = s.set(("H", ob, "$parts"), ())
                return val(ob, s)
            if self.rule.exact_lists and q == "iter" and len(args) == 1:
                it = self.new_iter(a0, node, fr, st)
                if it is not None:
                    return val(*it)
            if self.rule.exact_lists and q in ("tuple", "reversed"):
                ps = self.exact_parts(a0, st)
                if ps is not None and not any(x[0] == "star" for x in ps):
                    return val(("tuple", tuple(
                        ps if q == "tuple" else ps[::-1])))
            if a0[0] == "gen" or a0[0] == "lazy":
                return self.materialise(a0, node, fr, st)
            if a0[0] == "tuple" and q == "list" and self.rule.exact_lists \
                    and not any(x[0] == "star" for x in a0[1]):
                ob, s = self.alloc(("obj", site, "list"), st)
                return val(ob, s.update({
                    ("H", ob, "$parts"): tuple(a0[1]),
                    ("H", ob, "[]"): frozenset(a0[1])}))
            if a0[0] == "obj" and q not in ("iter", "reversed") and (
                    st.get(("H", a0, "[]")) is not None
                    and st.get(("H", a0, "$open")) is None):
                # a snapshot of known contents
                els = st.get(("H", a0, "[]"))
                parts = st.get(("H", a0, "$parts"))
                if parts is None and self.exact_dict(a0, st) is not None:
                    parts = tuple(self.exact_dict(a0, st))
                ob = ("obj", site, "list" if q == "sorted" else q)
                if self.rule.fresh_new:
                    ob, s = self.alloc(ob, st)
                else:
                    s = self.clear_obj(ob, st) if ob != a0 else st
                s = s.set(("H", ob, "[]"), els)
                if parts is not None and (
                        q in ("list", "tuple") or self.rule.exact_lists
                        and q != "sorted"):
                    s = s.set(("H", ob, "$parts"), parts)
                return val(ob, s)
            return val(("coll", "copyof", site, (a0,)))
        if q == "range" and self.rule.exact_lists and args and all(
                a[0] == "const" and a[1] == "int" for a in args):
            rg = range(*[a[2] for a in args])
            if len(rg) <= 6:
                return val(("tuple", tuple(const(i) for i in rg)))
        if q == "dict" and (not args and not kw or self.rule.exact_lists):
            d = {}
            for a in args:
                x = self.exact_dict(a, st)
                ps = self.exact_parts(a, st) if x is None else None
                if ps is not None and all(
                        y[0] == "tuple" and len(y[1]) == 2 for y in ps):
                    x = {y[1][0]: y[1][1] for y in ps}
                d = None if d is None or x is None else {**d, **x}
            if d is not None and "**" not in kw:
                d.update((const(k), v) for k, v in kw.items())
                ob, s = self.alloc(("obj", site, "dict"), st)
                s = s.update({("H", ob, ("[]", k)): v for k, v in d.items()})
                return val(ob, self.put_dict(ob, d, s))
        if q in ("zip", "enumerate"):
            return val(("coll", q, site, tuple(args)))
        if q == "next" and a0 is not None and a0[0] == "obj" and \
                a0[2] == "$iter":
            return self.next_of(a0, args, st)
        if q == "itertools.islice" and self.rule.exact_lists and \
                len(args) == 2 and args[1][0] == "const" and \
                isinstance(args[1][2], int):
            if a0[0] == "obj" and a0[2] == "$iter" and st.get(
                    ("H", a0, "$rest")) is None:
                ps = st.get(("H", a0, "$parts"))
                return val(("tuple", tuple(ps[:args[1][2]])), st.set(
                    ("H", a0, "$parts"), ps[args[1][2]:]))
            ps = self.exact_parts(a0, st)
            if ps is not None and not any(x[0] == "star" for x in ps):
                return val(("tuple", tuple(ps[:args[1][2]])))
        if q in ("itertools.repeat", "itertools.cycle") and len(args) == 1 \
                and self.rule.exact_lists:
            ps = (a0,) if q == "itertools.repeat" else self.exact_parts(
                a0, st)
            if ps is not None and len(ps) == 1:
                ob, s = self.alloc(("obj", site, "$iter"), st)
                return val(ob, s.update({("H", ob, "$parts"): (),
                                         ("H", ob, "$rest"): ps[0]}))
        if q == "itertools.chain" and self.rule.exact_lists and args:
            rest = st.get(("H", args[-1], "$rest"))
            ps = [self.exact_parts(a, st) for a in (
                args if rest is None else args[:-1])]
            if rest is not None and all(p is not None for p in ps):
                ob, s = self.alloc(("obj", site, "$iter"), st)
                return val(ob, s.update({
                    ("H", ob, "$parts"): tuple(x for p in ps for x in p),
                    ("H", ob, "$rest"): rest}))
            if all(p is not None for p in ps):
                return val(("tuple", tuple(x for p in ps for x in p)))
        if q == "map" and len(args) > 2 and self.rule.exact_lists:
            ps = [self.exact_parts(a, st) for a in args[1:]]
            if all(p is not None and len(p) <= 8 for p in ps):
                return self.map_many(a0, list(zip(*ps)), node, fr, st)
        if q == "map" and len(args) == 2:
            return self.run_map(args[0], args[1], node, fr, st, True)
        if q == "filter" and len(args) == 2:
            return self.run_map(args[0], args[1], node, fr, st, False)
        if q == "isinstance" and len(args) == 2:
            return self.isinstance_(args[0], args[1], st)
        if q in ("getattr", "hasattr") and len(args) >= 2 and is_const(
                args[1]) and st.get(("H", a0, mangle(
                    str(args[1][2]), fr.cls))) == ("unbound",):
            if q == "hasattr":
                return val(FALSE)
            if len(args) > 2:
                return val(args[2])
        if q == "hasattr" and len(args) == 2 and is_const(args[1]) and (
                st.get(("H", a0, mangle(str(args[1][2]), fr.cls)))
                is not None or self.rule.on_attr(
                    self, a0, str(args[1][2]), st) is not None):
            return val(TRUE)
        if q == "getattr" and len(args) >= 2 and is_const(args[1]):
            return self.get_attr(a0, str(args[1][2]), node, fr, st)
        if q == "setattr" and len(args) == 3 and is_const(args[1]):
            return [
                ("v", NONE, s) if k == "next" else (k, v, s)
                for k, v, s in self.set_attr(
                    a0, str(args[1][2]), args[2], node, fr, st)
            ]
        if q in ("bytearray", "io.BytesIO") and self.rule.buffers and \
                len(args) <= 1 and not kw:
            b = b"" if a0 is None else self.buffer_of(a0, st)
            if b is not None:
                ob, s = self.alloc(("obj", site, q), st)
                return val(ob, s.set(("H", ob, "$bytes"), b))
        if q in ("bytes", "memoryview", "len") and a0 is not None and \
                a0[0] == "obj" and self.buffer_of(a0, st) is not None:
            b = self.buffer_of(a0, st)
            return val(const(len(b) if q == "len" else b))
        if q == "bytes" and a0 is not None and a0[0] == "const" and \
                a0[1] == "bytes":
            return val(a0)
        if q == "len" and a0 is not None:
            ps = self.exact_parts(a0, st)
            if ps is not None:
                return val(const(len(ps)))
            if a0[0] == "const" and a0[1] in ("str", "bytes"):
                return val(const(len(a0[2])))
            c = self.classinfo(a0)
            m = c and c.find_method("__len__")
            if m is not None and self.rule.fresh_new:
                return self.invoke(a0, m, [], node, fr, st)
            return val(("q", "len", a0, ()))
        if q in ("bool",) and a0 is not None:
            return [("v", TRUE if b else FALSE, s)
                    for b, s in self.branch_value(a0, st)]
        if q in TASK_FACTORIES and a0 is not None:
            t = ("task", site, a0)
            return val(*self.alloc(t, st))
        if q == "asyncio.wait_for":
            return val(("aw", "wait_for", tuple(args), tuple(
                sorted(kw.items())), site))
        if q == "asyncio.gather":
            return val(("aw", "gather", tuple(args), tuple(
                sorted(kw.items())), site))
        if q == "asyncio.shield":
            return val(("aw", "shield", tuple(args), (), site))
        if q == "asyncio.sleep":
            return val(("aw", "sleep", tuple(args), (), site))
        if q == "asyncio.wait":
            return val(("aw", "wait", tuple(args), tuple(
                sorted(kw.items())), site))
        if q in ("asyncio.iscoroutinefunction", "callable", "hasattr",
                 "inspect.isgeneratorfunction", "asyncio.iscoroutine",
                 "asyncio.isfuture", "issubclass",
                 "inspect.isawaitable", "inspect.iscoroutinefunction",
                 "inspect.isgenerator", "inspect.isasyncgenfunction",
                 "os.path.exists", "os.path.isfile"):
            if q.endswith("iscoroutinefunction") and a0 and a0[0] in (
                    "func", "bm"):
                f = self.func_of(a0)
                return val(TRUE if f.is_async else FALSE)
            if a0 is not None and a0[0] in ("const", "tuple") and q != \
                    "hasattr" and q[:7] in ("asyncio", "inspect"):
                return val(FALSE)
            return [
                ("v", TRUE if b else FALSE, s)
                for b, s in self.branch_term(
                    (q,) + tuple(args), st)
            ]
        if q in ("asyncio.get_event_loop", "asyncio.get_running_loop",
                 "asyncio.new_event_loop"):
            return val(("sym", "$running_loop" if "new" not in q
                        else "$new_loop", "asyncio.AbstractEventLoop"))
        if q in ("time.monotonic", "time.time", "random.random",
                 "time.perf_counter"):
            rv = ("res", site, "float")
            return val(rv, self.forget(rv, st))
        if q == "asyncio.Future":
            rv = ("obj", site, "asyncio.Future")
            return val(*self.alloc(rv, st))
        last = q.rpartition(".")[2]
        if q in ("all", "any") and self.rule.exact_lists and \
                a0 is not None and a0[0] != "gen":
            ps = self.exact_parts(a0, st)
            if ps is not None:
                out, cur = [], [st]
                for x in ps:
                    nx = []
                    for s in cur:
                        for b, s2 in self.branch_value(x, s):
                            if b == (q == "any"):
                                out.append((
                                    "v", TRUE if b else FALSE, s2))
                            else:
                                nx.append(s2)
                    cur = nx
                return out + [("v", TRUE if q == "all" else FALSE, s)
                              for s in cur]
        if q in ("max", "min") and not kw:
            ps = args if len(args) > 1 else self.exact_parts(
                a0, st) if self.rule.exact_lists else None
            if ps and all(x[0] == "const" and x[1] in ("int", "float")
                          for x in ps):
                return val(const((max if q == "max" else min)(
                    x[2] for x in ps)))
        if q in ("max", "min"):
            return val(("op", q) + tuple(args)
                       if len(args) == 2 and depth(("op",) + tuple(args)) < 7
                       else ("res", site, None))
        if (last[:1].isupper() or q == "collections.defaultdict") and (
            q in ALWAYS_TRUE_TYPES or q in CONTAINER_TYPES or
            "." in q and not last.endswith("Error")
        ) and not getattr(builtins, q, None):
            ob = ("obj", site, q)
            ob, s = self.alloc(ob, st)
            s = s.update({("H", ob, "$arg%d" % i): v
                          for i, v in enumerate(args)})
            s = s.update({("H", ob, "$kw:" + k): v for k, v in kw.items()})
            if q in ("collections.defaultdict", "collections.OrderedDict") \
                    and self.rule.exact_lists and self.rule.fresh_new and (
                        not kw and len(args) <= (q[-11:] == "defaultdict")):
                s = self.put_dict(ob, {}, s.set(("H", ob, "[]"), frozenset()))
                if args and a0 != NONE:
                    s = s.set(("H", ob, "$factory"), a0)
            out = [("v", ob, s)]
            for e in self.rule.raises(self, ev, st):
                out.append(("raise", e, st))
            return out
        b = getattr(builtins, q, None)
        if isinstance(b, type) and issubclass(b, BaseException) or \
                q in EXT_EXC:
            return val(("exc", q, True, site))
        return self.opaque_result(ev, st, emit=False)

    def buffer_of(self, v, st):
        """Contents of bytes or of a byte buffer, or None."""
        if v[0] == "const" and v[1] == "bytes":
            return v[2]
        if v[0] == "obj" and self.rule.buffers:
            return st.get(("H", v, "$bytes"))
        return None

    def buffer_op(self, base, name, args, st):
        """A method of a byte buffer, or None."""
        b = self.buffer_of(base, st) if base[0] == "obj" else None
        if b is None:
            return None
        if name in ("write", "extend") and args:
            x = self.buffer_of(args[0], st)
            if x is None:
                return None
            return [("v", const(len(x)) if name == "write" else NONE,
                     st.set(("H", base, "$bytes"), b + x))]
        if name in ("tell", "__len__") and not args:
            return [("v", const(len(b)), st)]
        if name in ("getvalue", "getbuffer", "tobytes"):
            return [("v", const(b), st)]
        return None

    def map_many(self, fv, rows, node, fr, st):
        cur, out = [((), st)], []
        for row in rows:
            nxt = []
            for vs, s in cur:
                for o in self.call(fv, list(row), {}, node, fr, s):
                    if o[0] == "v":
                        nxt.append((vs + (o[1],), o[2]))
                    else:
                        out.append(o)
            cur = nxt
        return out + [("v", ("tuple", vs), s) for vs, s in cur]

    def new_iter(self, v, node, fr, st):
        """An exact iterator over known elements, or None."""
        if v[0] == "obj" and v[2] == "$iter":
            return v, st
        ps = self.exact_parts(v, st)
        if ps is None or len(ps) > 8 or any(x[0] == "star" for x in ps):
            return None
        ob, st = self.alloc(("obj", self.site(fr, node), "$iter"), st)
        return ob, st.set(("H", ob, "$parts"), tuple(ps)).set(
            ("H", ob, "[]"), frozenset(ps))

    def next_of(self, ob, args, st):
        ps = st.get(("H", ob, "$parts"))
        rest = st.get(("H", ob, "$rest"))
        if ps:
            return [("v", ps[0], st.set(("H", ob, "$parts"), ps[1:]))]
        if rest is not None:
            return [("v", rest, st)]
        if len(args) > 1:
            return [("v", args[1], st)]
        return [("raise", ("exc", "StopIteration", True, "next"), st)]

    def run_map(self, fv, coll, node, fr, st, is_map):
        site = self.site(fr, node)
        ob = ("obj", site, "list")
        st = self.clear_obj(ob, st)
        parts = self.exact_parts(coll, st)
        if parts is not None and is_map and len(parts) <= 8:
            cur = [("v", [], st)]
            out = []
            for p in parts:
                nxt = []
                for _, vs, s in cur:
                    for o in self.call(fv, [p], {}, node, fr, s):
                        if o[0] == "v":
                            nxt.append(("v", vs + [o[1]], o[2]))
                        else:
                            out.append(o)
                cur = nxt
            for _, vs, s in cur:
                # distinct sites per position
                vs = [
                    ("task", v[1] + (i,), v[2]) if v[0] == "task" and
                    v in vs[:i] else v for i, v in enumerate(vs)
                ]
                out.append(("v", ("tuple", tuple(vs)), s))
            return out
        if parts is not None and not is_map and len(parts) <= 8 and \
                self.rule.exact_lists:
            cur, out = [((), st)], []
            for p in parts:
                nxt = []
                for vs, s in cur:
                    for o in [("v", p, s)] if fv == NONE else self.call(
                            fv, [p], {}, node, fr, s):
                        if o[0] != "v":
                            out.append(o)
                            continue
                        nxt += [(vs + (p,) if b else vs, s2)
                                for b, s2 in self.branch_value(o[1], o[2])]
                cur = nxt
            return out + [("v", ("tuple", vs), s) for vs, s in cur]
        st = st.set(("H", ob, "[]"), frozenset())
        st = st.set(("H", ob, "$src"), coll)

        def body(s):
            el = s.get(("L", fr.id, "$mapel"))
            res = []
            for o in self.call(fv, [el], {}, node, fr, s):
                if o[0] != "v":
                    res.append(("raise", o[1], o[2]))
                elif is_map:
                    els = o[2].get(("H", ob, "[]"), frozenset())
                    res.append(("next", None, self.emit(
                        Ev("comp_elt", node, fr, value=o[1], recv=ob),
                        o[2].set(("H", ob, "[]"), els | {o[1]}))))
                else:
                    for b, s2 in self.branch_value(o[1], o[2]):
                        if b:
                            els = s2.get(("H", ob, "[]"), frozenset())
                            res.append(("next", None, self.emit(
                                Ev("comp_elt", node, fr, value=el, recv=ob),
                                s2.set(("H", ob, "[]"), els | {el}))))
                        else:
                            res.append(("next", None, self.emit(Ev(
                                "comp_skip", node, fr, recv=ob), s2)))
            return res
        tgt = ast.Name(id="$mapel", ctx=ast.Store())
        fr.func.locals.add("$mapel")
        out = []
        for k, v, s in self.loop_over(coll, tgt, body, node, fr, st):
            if k == "raise":
                out.append(("raise", v, s))
            else:
                out.append(("v", ob, s))
        return self.dedupe(out)

    def materialise(self, gv, node, fr, st):
        ob = ("obj", self.site(fr, node), "list")
        ob, st = self.alloc(ob, st)
        st = st.set(("H", ob, "[]"), frozenset())

        if self.rule.exact_lists:
            st = st.set(("H", ob, "$parts"), ())

        def hole(v, s):
            els = s.get(("H", ob, "[]"), frozenset())
            ps = s.get(("H", ob, "$parts"))
            if ps is not None:
                s = s.set(("H", ob, "$parts"), ps + (v,)) \
                    if len(ps) < 8 else s.drop(
                        lambda k: k == ("H", ob, "$parts"))
            return [("v", NONE, s.set(("H", ob, "[]"), els | {v}))]
        return [
            ("v", ob, o[2]) if o[0] == "v" else o
            for o in self.run_gen(gv, node, fr, st, hole)
        ]

    def isinstance_(self, v, c, st):
        names = []
        cs = c[1] if c[0] == "tuple" else [c]
        for x in cs:
            if x[0] == "cls":
                names.append(x[1])
            elif x[0] == "ext":
                names.append(x[1])
            else:
                return [("v", TRUE if b else FALSE, s) for b, s in
                        self.branch_term(("isinst", v, c), st)]
        t = None
        if v[0] == "const":
            try:
                bs = tuple(getattr(builtins, n) for n in names
                           if hasattr(builtins, n))
                if len(bs) == len(names):
                    return [("v", TRUE if isinstance(v[2], bs) else FALSE,
                             st)]
            except TypeError:
                pass
        if v[0] == "exc":
            rs = [exc_match(self.p, v, n) for n in names]
            if "yes" in rs:
                return [("v", TRUE, st)]
            if all(r == "no" for r in rs):
                return [("v", FALSE, st)]
        elif v[0] == "obj":
            t = v[2]
            ci = self.p.classes.get(t)
            if ci is not None:
                return [("v", TRUE if any(
                    ci.is_subclass(n) for n in names) else FALSE, st)]
            if t in names:
                return [("v", TRUE, st)]
        return [("v", TRUE if b else FALSE, s) for b, s in
                self.branch_term(("isinst", v, tuple(sorted(names))), st)]

    def fold_method(self, b, name, args, site, st):
        """A method of a literal called with literals."""
        if name == "join":
            ps = len(args) == 1 and self.exact_parts(args[0], st)
            if not ps or not all(map(plain_const, ps)):
                return None
            vs = [[x[2] for x in ps]]
        elif all(map(plain_const, args)):
            vs = [a[2] for a in args]
        else:
            return None
        try:
            x = getattr(b, name)(*vs)
        except Exception as e:
            return [("raise", ("exc", type(e).__name__, True, site), st)]
        if isinstance(x, (list, tuple)):
            if len(x) > 12 or not all(map(small, x)):
                return None
            ps = tuple(map(const, x))
            if isinstance(x, tuple):
                return [("v", ("tuple", ps), st)]
            ob, st = self.alloc(("obj", site, "list"), st)
            st = st.set(("H", ob, "[]"), frozenset(ps))
            return [("v", ob, st.set(("H", ob, "$parts"), ps))]
        return [("v", const(x), st)] if small(x) else None

    def call_method(self, fv, args, kw, node, fr, st):
        base, name = fv[1], fv[2]
        rtype = self.typeof(base)
        ev = Ev("call", node, fr, callee=fv, recv=base, rtype=rtype,
                name=name, args=args, kw=kw, extra="method")
        if rtype in LOGGER_TYPES:
            r = self.rule.on_call(self, ev, st) if self.rule.log_calls \
                else None
            return [("v", NONE, st)] if r is None else r
        st = self.emit(ev, st)
        r = self.rule.on_call(self, ev, st)
        if r is not None:
            return r
        if base[0] == "super" and name == "__init__" and (
                args or kw) and base[1][0] == "obj":
            c = self.p.classes[base[2]]
            mro = self.inst_mro(base[1], c)
            for k in mro[mro.index(c) + 1:] if c in mro else ():
                if isinstance(k, ClassInfo) and any(
                        "dataclass" in (self.p.dotted(
                            d.func if isinstance(d, ast.Call) else d) or "")
                        for d in k.node.decorator_list):
                    return [("v", NONE, self.dataclass_init(
                        k, base[1], args, kw, st))]
        site = self.site(fr, node)
        if base[0] == "const" and base[1] in ("str", "bytes") and not kw \
                and name in PURE_METHODS:
            r = self.fold_method(base[2], name, args, site, st)
            if r is not None:
                return r
        if self.rule.strings and name == "join" and args and \
                is_string(base):
            ps = self.exact_parts(args[0], st)
            if ps is not None and all(map(is_string, ps)):
                return [("v", cat([x for p in ps for x in (base, p)][1:]),
                         st)]
        if self.rule.strings and is_string(base) and not kw:
            r = string_method(base, name, args)
            if isinstance(r, list):
                ob, st = self.alloc(("obj", site, "list"), st)
                st = st.set(("H", ob, "[]"), frozenset(r))
                return [("v", ob, st.set(("H", ob, "$parts"), tuple(r)))]
            if r is not None:
                return [("v", r, st)]
        if self.rule.buffers:
            r = self.buffer_op(base, name, args, st)
            if r is not None:
                return r
            if name == "join" and base[0] == "const" and base[1] == "bytes":
                ps = args and self.exact_parts(args[0], st)
                bs = [self.buffer_of(x, st) for x in ps or ()]
                if ps is not None and None not in bs:
                    return [("v", const(base[2].join(bs)), st)]
        if base[0] in ("obj", "kwdict"):
            r = self.dict_op(base, name, args, kw, node, fr, st)
            if r is not None:
                return r
            if base[0] == "obj" and rtype == "dict" and name in (
                    "pop", "popitem", "update", "setdefault", "clear"):
                st = self.put_dict(base, None, st)
        if self.rule.exact_lists and rtype in ("set", "frozenset") and not kw:
            r = self.set_op(base, name, args, node, fr, st)
            if r is not None:
                return r
        if base[0] == "obj" and rtype in ("list", "set",
                                          "collections.deque") and name in (
                "append", "add", "insert", "extend", "update",
                "appendleft", "clear", "discard", "remove", "pop",
                "popleft", "sort", "reverse", "rotate", "extendleft",
                "difference_update", "intersection_update",
                "symmetric_difference_update"):
            els = st.get(("H", base, "[]"), frozenset())
            if name in ("append", "add", "appendleft") and args:
                st = st.set(("H", base, "[]"), els | {args[0]})
            elif name in ("extend", "update", "extendleft",
                          "symmetric_difference_update") and args:
                st = st.set(("H", base, "[]"), els | frozenset(
                    self.elements(args[0], st)))
            elif name == "clear":
                st = st.set(("H", base, "[]"), frozenset())
            elif name == "insert" and len(args) > 1:
                st = st.set(("H", base, "[]"), els | {args[1]})
            ps = st.get(("H", base, "$parts"))
            st = st.drop(lambda k: k == ("H", base, "$parts"))
            if self.rule.exact_lists and ps is not None and \
                    self.exact_parts(base, st.set(
                        ("H", base, "$parts"), ps)) is not None:
                r = self.exact_edit(base, rtype, name, ps, args, st)
                if r is not None:
                    return r
            if name in ("pop", "popleft"):
                st = self.touch(base, st)
                outs = [("v", e, st) for e in sorted(els, key=repr)]
                return outs or [("v", ("elem", base), st)]
            st = self.touch(base, st)
            return [("v", NONE, st)]
        if name == "copy" and not args and base[0] == "obj" and rtype in (
                "list", "set", "frozenset", "collections.deque") and st.get(
                    ("H", base, "[]")) is not None and st.get(
                        ("H", base, "$open")) is None:
            ob = ("obj", site, rtype)
            if self.rule.fresh_new:
                ob, s = self.alloc(ob, st)
            else:
                s = self.clear_obj(ob, st) if ob != base else st
            s = s.set(("H", ob, "[]"), st.get(("H", base, "[]")))
            if st.get(("H", base, "$parts")) is not None:
                s = s.set(("H", ob, "$parts"), st.get(("H", base, "$parts")))
            return [("v", ob, s)]
        if name == "__await__" and base[0] in ("coro", "aw", "task", "res"):
            # the iterator stands for what it iterates
            return [("v", base, st)]
        if name == "create_task" and args:
            t = ("task", site, args[0])
            return [("v",) + self.alloc(t, st)]
        if name == "create_future":
            rv = ("obj", site, "asyncio.Future")
            return [("v",) + self.alloc(rv, st)]
        if name in QUERY_METHODS:
            if base[0] == "const" and isinstance(base[2], str):
                return [("v", ("res", site, "str"), st)]
            out = []
            for e in self.rule.raises(self, ev, st):
                out.append(("raise", e, st))
            if name == "time":
                rv = ("res", site, "float")
                return out + [("v", rv, self.forget(rv, st))]
            return out + [("v", ("q", name, base, tuple(args)), st)]
        if name == "run" and rtype == "contextvars.Context" and args:
            return self.call(args[0], list(args[1:]), kw, node, fr, st)
        st = self.touch(base, st)
        if name == "set" and rtype in ("asyncio.Event", "threading.Event"):
            st = st.set(("F", ("truth", ("q", "is_set", base, ()))), True)
        if name == "clear" and rtype in ("asyncio.Event", "threading.Event"):
            st = st.set(("F", ("truth", ("q", "is_set", base, ()))), False)
        if name in ("set_result", "set_exception"):
            st = st.set(("F", ("truth", ("q", "done", base, ()))), True)
        return self.opaque_result(ev, st, emit=False)

    def set_op(self, base, name, args, node, fr, st):
        """Set algebra on sets whose elements are known, or None."""
        names = {"union": 0, "intersection": 1, "difference": 2,
                 "intersection_update": 1, "difference_update": 2,
                 "issubset": 3, "issuperset": 4, "isdisjoint": 5}
        op = names.get(name)
        ps = self.exact_parts(base, st)
        qs = [self.exact_parts(a, st) for a in args]
        if op is None or ps is None or any(
                q is None or not all(map(known_one_by_one, q))
                for q in qs) or not all(map(known_one_by_one, ps)):
            return None
        ps = list(dict.fromkeys(ps))
        for q in qs:
            if op > 2:
                r = {3: set(ps) <= set(q), 4: set(ps) >= set(q),
                     5: not set(ps) & set(q)}[op]
                return [("v", TRUE if r else FALSE, st)]
            if op == 0:
                ps = list(dict.fromkeys(ps + q))
            else:
                ps = [x for x in ps if (x in q) == (op == 1)]
        if name.endswith("_update"):
            if base[0] != "obj":
                return None
            ob, r = base, NONE
        else:
            ob, st = self.alloc(("obj", self.site(fr, node), "set"), st)
            r = ob
        st = st.set(("H", ob, "[]"), frozenset(ps))
        return [("v", r, st.set(("H", ob, "$parts"), tuple(ps)))]

    def exact_edit(self, base, rtype, name, ps, args, st):
        """Edit a list or set whose elements are known one by one."""
        known = known_one_by_one
        ps = list(ps)
        res = NONE
        uniq = rtype == "set"
        if name in ("append", "add") and len(args) == 1:
            new = [args[0]]
        elif name in ("extend", "update") and len(args) == 1:
            new = self.exact_parts(args[0], st)
            if new is None:
                return None
        elif name == "reverse":
            new, ps = ps[::-1], []
        elif name in ("discard", "remove", "insert", "appendleft", "pop",
                      "clear", "popleft"):
            new = []
            if name == "clear":
                ps = []
            elif name == "appendleft":
                ps.insert(0, args[0])
            elif name == "insert":
                if not is_const(args[0]) or not isinstance(args[0][2], int):
                    return None
                ps.insert(args[0][2], args[1])
            elif name == "pop" and uniq and ps and all(map(known, ps)):
                outs = []
                for x in ps:
                    r = tuple(y for y in ps if y != x)
                    outs.append(("v", x, st.set(
                        ("H", base, "[]"), frozenset(r)).set(
                            ("H", base, "$parts"), r)))
                return outs
            elif name in ("pop", "popleft"):
                if uniq or not ps:
                    return None
                i = const(0) if name == "popleft" else args[0] if args \
                    else const(-1)
                if not is_const(i) or not isinstance(i[2], int) or \
                        not -len(ps) <= i[2] < len(ps):
                    return None
                res = ps.pop(i[2])
            elif not all(map(known, ps)) or not known(args[0]):
                return None
            elif args[0] in ps:
                ps.remove(args[0])
            elif name == "remove":
                return [("raise", ("exc", "KeyError" if uniq else
                                   "ValueError", True, "remove"), st)]
        else:
            return None
        for x in new:
            if not uniq or x not in ps:
                ps.append(x)
        if len(ps) > 8:
            return None
        st = st.set(("H", base, "$parts"), tuple(ps))
        return [("v", res, st.set(("H", base, "[]"), frozenset(ps)))]

    def touch(self, base, st):
        """base is mutated: forget query facts about it."""
        def pred(k):
            if k[0] != "F":
                return False
            t = k[1]
            if t[0] == "truth":
                if t[1] == base:
                    ty = self.typeof(base)
                    return ty in CONTAINER_TYPES or ty is None
                if t[1][0] == "q" and t[1][2] == base:
                    return not (t[1][1] in MONOTONE_TRUE and st.d[k])
                return False
            if t[0] == "in" and t[2] == base:
                return True
            return any(x[0] == "q" and x[2] == base for x in atoms(t))
        return st.drop(pred)

    def opaque_call(self, ev, st):
        st = self.emit(ev, st)
        r = self.rule.on_call(self, ev, st)
        if r is not None:
            return r
        return self.opaque_result(ev, st, emit=False)

    def opaque_result(self, ev, st, emit=True):
        if emit:
            st = self.emit(ev, st)
        out = []
        for e in self.rule.raises(self, ev, st):
            out.append(("raise", e, st))
        rt = None
        if ev.extra == "method":
            rt = RETURN_TYPES.get(ev.name)
        rv = ("res", self.site(ev.fr, ev.node), rt)
        st = self.forget(rv, st)
        self.origin[rv] = ev
        out.append(("v", rv, st))
        return out

    def default_raises(self, ev, st):
        r = self.rule
        if ev.kind == "getitem":
            return []
        if ev.kind in ("await",):
            v = ev.value
            out = []
            if r.cancel:
                out.append(EXC_CANCEL)
            if v[0] == "aw" and v[1] in ("sleep", "wait"):
                return out
            if v[0] == "aw" and v[1] == "gather":
                if dict(v[3]).get("return_exceptions") == TRUE:
                    return out
                return out + list(r.user_exc)
            if ev.name in ("lock.acquire",):
                return out
            return out + list(r.user_exc)
        if ev.kind in ("call", "new", "enter"):
            if ev.extra == "ext":
                if ev.name in NORAISE_EXT:
                    return []
                return list(r.lib_exc) if r.lib_raises else []
            if ev.extra == "method":
                if ev.name in NORAISE_METHODS or ev.rtype in LOGGER_TYPES:
                    return []
                return list(r.lib_exc) if r.lib_raises else []
            if ev.kind == "new":
                return []
            return list(r.user_exc)
        return []

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr, st):
        cur = [st]
        done = []
        for s in stmts:
            nxt = []
            if self.rule.preempts:
                cur = self._ddstates(
                    x for c in cur
                    for x in self.rule.preempt(self, s, fr, c))
            for c in cur:
                for o in self.stmt(s, fr, c):
                    if o[0] == "next":
                        nxt.append(o[2])
                    else:
                        done.append(o)
            cur = self._ddstates(nxt)
            if not cur:
                break
        return self.dedupe(done + [("next", None, c) for c in cur])

    def stmt(self, node, fr, st):
        self.steps += 1
        if self.steps > MAX_STEPS or self.steps % 512 == 0 and \
                time.monotonic() > DEADLINE[0]:
            raise Undecided("too many paths at %s" % fr.func.loc(node))
        m = getattr(self, "st_" + type(node).__name__, None)
        if m is None:
            self.incomplete.append(
                "stmt %s at %s" % (type(node).__name__, fr.func.loc(node)))
            return [("next", None, st)]
        return m(node, fr, st)

    def from_expr(self, outs, f):
        res = []
        for o in outs:
            if o[0] == "v":
                res.extend(f(o[1], o[2]))
            else:
                res.append(o)
        return res

    def st_Expr(self, node, fr, st):
        return self.dedupe(self.from_expr(
            self.ev(node.value, fr, st), lambda v, s: [("next", None, s)]))

    def st_Pass(self, node, fr, st):
        return [("next", None, st)]

    st_Global = st_Nonlocal = st_Pass

    def st_Import(self, node, fr, st):
        for a in node.names:
            nm = a.asname or a.name.split(".")[0]
            q = a.name if a.asname else nm
            v = ("mod", q) if q in self.p.modules else ("ext", q)
            st = st.set(self.store_key(nm, fr), v)
        return [("next", None, st)]

    def st_ImportFrom(self, node, fr, st):
        base = fr.module.import_base(node)
        for a in node.names:
            m = self.p.modules.get(base)
            if m is not None:
                v = self.sym_to_value(self.p.symbol(m, a.name), m, a.name)
            else:
                v = ("ext", base + "." + a.name)
            st = st.set(self.store_key(a.asname or a.name, fr), v)
        return [("next", None, st)]

    def st_FunctionDef(self, node, fr, st):
        fi = self.p.nested(fr.func, node)
        v = ("func", fi.fid, fr.id)
        cur = [("v", v, st)]
        for d in reversed(node.decorator_list):
            q = d.func if isinstance(d, ast.Call) else d
            r = self.p.resolve_expr(fr.module, q)
            if r[0] == "ext" and r[1] in (
                "functools.wraps", "contextlib.contextmanager",
            ):
                continue
            if r[0] == "func" and r[1].name.startswith("threaded"):
                continue
            nxt = []
            for o in cur:
                if o[0] != "v":
                    nxt.append(o)
                    continue
                for dv in self.ev(d, fr, o[2]):
                    if dv[0] != "v":
                        nxt.append(dv)
                    else:
                        nxt.extend(self.call(
                            dv[1], [o[1]], {}, d, fr, dv[2]))
            cur = nxt
        return self.from_expr(
            cur, lambda v, s: [("next", None, s.set(
                self.store_key(node.name, fr), v))])

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, node, fr, st):
        ci = self.p.add_class(
            fr.module, node, fr.func.qualname + ".<locals>." + node.name,
            fr.func)
        return [("next", None, st.set(
            self.store_key(node.name, fr), ("cls", ci.cid)))]

    def st_Return(self, node, fr, st):
        if node.value is None:
            return [("return", NONE, st)]
        return self.dedupe(self.from_expr(
            self.ev(node.value, fr, st), lambda v, s: [("return", v, s)]))

    def st_Assign(self, node, fr, st):
        def go(v, s):
            cur = [s]
            rs = []
            for t in node.targets:
                nx = []
                for c in cur:
                    for o in self.assign(t, v, fr, c):
                        if o[0] == "next":
                            nx.append(o[2])
                        else:
                            rs.append(o)
                cur = nx
            return rs + [("next", None, c) for c in cur]
        return self.dedupe(self.from_expr(self.ev(node.value, fr, st), go))

    def st_AnnAssign(self, node, fr, st):
        if node.value is None:
            return [("next", None, st)]
        return self.dedupe(self.from_expr(
            self.ev(node.value, fr, st),
            lambda v, s: self.assign(node.target, v, fr, s)))

    def st_AugAssign(self, node, fr, st):
        t = node.target
        load = ast.copy_location(_as_load(t), t)

        def go(vals, s):
            cur, rhs = vals
            data = self.buffer_of(rhs, s)
            if data is not None and isinstance(node.op, ast.Add) and \
                    cur[0] == "obj" and self.buffer_of(cur, s) is not None:
                return [("next", None, s.set(
                    ("H", cur, "$bytes"), self.buffer_of(cur, s) + data))]
            name = IN_PLACE.get((self.typeof(cur), type(node.op).__name__))
            if name and cur[0] == "obj" and self.rule.exact_lists:
                # the container itself changes
                out = []
                for o in self.call_method(
                        ("attr", cur, name), [rhs], {}, node, fr, s):
                    out += put(cur, rhs, o[2]) if o[0] == "v" else [o]
                return out
            r = self.exact_binop(node, cur, rhs, fr, s)
            if r is not None:
                return put(r[1], rhs, r[2])
            nv = self.binop(node.op, cur, rhs, node, fr)
            if in_loop(fr.func, node) and not (
                    is_const(nv) and isinstance(nv[2], (int, float))
                    and abs(nv[2]) <= self.rule.fold):
                nv = ("res", self.site(fr, node, "aug"), None)
                s = self.forget(nv, s)
            return put(nv, rhs, s)

        def put(nv, rhs, s):
            if isinstance(t, ast.Attribute):
                out = []
                for o in self.ev(t.value, fr, s):
                    if o[0] != "v":
                        out.append(o)
                        continue
                    ev = Ev("augattr", node, fr, recv=o[1],
                            name=mangle(t.attr, fr.cls), value=rhs,
                            rtype=self.typeof(o[1]),
                            extra=type(node.op).__name__)
                    s2 = self.emit(ev, o[2])
                    if nv[0] == "op" and depth(nv) > 3:
                        nv2 = ("top",)
                    else:
                        nv2 = nv
                    out.append(("next", None, self.write_attr(
                        o[1], mangle(t.attr, fr.cls), nv2, s2)))
                return out
            return self.assign(t, nv, fr, s)
        return self.dedupe(self.from_expr(
            self.ev_seq([load, node.value], fr, st), go))

    def st_Delete(self, node, fr, st):
        cur = [st]
        out = []
        for t in node.targets:
            nx = []
            for s in cur:
                if isinstance(t, ast.Attribute):
                    for o in self.ev(t.value, fr, s):
                        if o[0] != "v":
                            out.append(o)
                            continue
                        nm = mangle(t.attr, fr.cls)
                        s2 = self.emit(Ev(
                            "delattr", node, fr, recv=o[1], name=nm), o[2])
                        if self.classinfo(o[1]) is not None:
                            nx.append(self.write_attr(
                                o[1], nm, ("unbound",), s2))
                            continue
                        nx.append(s2.drop(
                            lambda k: k == ("H", o[1], nm)))
                elif isinstance(t, ast.Subscript):
                    for o in self.ev_seq([t.value, t.slice], fr, s):
                        if o[0] != "v":
                            out.append(o)
                            continue
                        ev = Ev("call", node, fr, recv=o[1][0],
                                rtype=self.typeof(o[1][0]),
                                name="__delitem__", args=[o[1][1]],
                                extra="method")
                        s2 = self.emit(ev, o[2])
                        r = self.rule.on_call(self, ev, s2)
                        if r is None:
                            r = self.dunder(o[1][0], "__delitem__",
                                            [o[1][1]], node, fr, s2)
                        if r is not None:
                            for x in r:
                                if x[0] == "v":
                                    nx.append(x[2])
                                else:
                                    out.append(x)
                            continue
                        b, i = o[1]
                        ps = self.exact_parts(b, s2) if b[0] == "obj" and \
                            b[2] in ("list", "collections.deque") else None
                        s2 = self.touch(b, s2)
                        if ps is not None:
                            s2 = s2.drop(lambda k: k == ("H", b, "$parts"))
                            if self.rule.exact_lists and is_const(i) and \
                                    isinstance(i[2], int) and \
                                    -len(ps) <= i[2] < len(ps):
                                del ps[i[2]]
                                s2 = s2.set(("H", b, "$parts"), tuple(ps))
                                s2 = s2.set(("H", b, "[]"), frozenset(ps))
                        nx.append(s2)
                elif isinstance(t, ast.Name):
                    k = self.store_key(t.id, fr)
                    nx.append(s.drop(lambda q: q == k))
                else:
                    nx.append(s)
            cur = nx
        return out + [("next", None, s) for s in cur]

    def assign(self, t, v, fr, st):
        """-> stmt outcomes"""
        if isinstance(t, ast.Name):
            return [("next", None, st.set(self.store_key(t.id, fr), v))]
        if isinstance(t, ast.Attribute):
            out = []
            for o in self.ev(t.value, fr, st):
                if o[0] != "v":
                    out.append(o)
                else:
                    out.extend(self.set_attr(o[1], t.attr, v, t, fr, o[2]))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for o in self.ev_seq([t.value, t.slice], fr, st):
                if o[0] != "v":
                    out.append(o)
                    continue
                b, i = o[1]
                ev = Ev("call", t, fr, recv=b, rtype=self.typeof(b),
                        name="__setitem__", args=[i, v], extra="method")
                s = self.emit(ev, o[2])
                r = self.rule.on_call(self, ev, s)
                if r is None:
                    r = self.dunder(b, "__setitem__", [i, v], t, fr, s)
                if r is None:
                    r = self.dict_op(b, "__setitem__", [i, v], {}, t, fr, s)
                if r is not None:
                    out.extend(("next", None, x[2]) if x[0] == "v" else x
                               for x in r)
                    continue
                ps = self.exact_parts(b, s) if b[0] == "obj" and b[2] in (
                    "list", "collections.deque") else None
                s = self.touch(b, s)
                sl = t.slice
                if ps is not None and self.rule.exact_lists and isinstance(
                        sl, ast.Slice) and not (
                            sl.lower or sl.upper or sl.step):
                    ns = self.exact_parts(v, s)
                    if ns is not None and not any(
                            x[0] == "star" for x in ns):
                        s = s.set(("H", b, "$parts"), tuple(ns))
                        out.append(("next", None, s.set(
                            ("H", b, "[]"), frozenset(ns))))
                        continue
                if ps is not None:
                    j = i[2] if is_const(i) and isinstance(i[2], int) \
                        else None
                    if j is not None and self.rule.exact_lists:
                        if not -len(ps) <= j < len(ps):
                            out.append(("raise", ("exc", "IndexError", True,
                                                  "index"), s))
                            continue
                        ps[j] = v
                        s = s.set(("H", b, "$parts"), tuple(ps))
                        s = s.set(("H", b, "[]"), frozenset(ps))
                        out.append(("next", None, s))
                        continue
                    s = s.drop(lambda k: k == ("H", b, "$parts"))
                    s = s.set(("H", b, "[]"), frozenset(ps) | {v})
                s = self.put_dict(b, None, s)
                s = s.set(("H", b, ("[]", i)), v)
                if b[0] == "obj" and b[2] == "dict" and s.get(
                        ("H", b, "[]")) is not None:
                    s = s.set(("H", b, "[]"), s.get(("H", b, "[]")) | {i})
                out.append(("next", None, s))
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = None
            ps = self.exact_parts(v, st)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts)
                    if isinstance(e, ast.Starred)]
            if star:
                cur = [st]
                at = star[0]
                for i, e in enumerate(t.elts):
                    nx = []
                    j = i if i <= at else i - n
                    x = ("item", v, const(j))
                    if ps is not None and len(ps) >= n - 1:
                        x = ps[j] if i != at else (
                            "tuple", tuple(ps[at:len(ps) - (n - 1 - at)]))
                    for s in cur:
                        tt = e.value if isinstance(e, ast.Starred) else e
                        nx.extend(y[2] for y in self.assign(tt, x, fr, s))
                    cur = nx
                return [("next", None, s) for s in cur]
            if ps is not None and len(ps) == n:
                vals = ps
            else:
                vals = [("item", v, const(i)) for i in range(n)]
            cur = [st]
            rs = []
            for e, x in zip(t.elts, vals):
                nx = []
                for s in cur:
                    for o in self.assign(e, x, fr, s):
                        if o[0] == "next":
                            nx.append(o[2])
                        else:
                            rs.append(o)
                cur = nx
            return rs + [("next", None, s) for s in cur]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, fr, st)
        return [("next", None, st)]

    def write_attr(self, base, name, v, st):
        """Raw heap write (with the mild aliasing discipline of the model)."""
        return st.set(("H", base, name), v)

    def set_attr(self, base, attr, v, node, fr, st):
        name = mangle(attr, fr.cls)
        c = self.classinfo(base)
        if c is not None:
            sm = c.find_method(name + "!setter")
            if sm is not None:
                return [
                    ("next", None, o[2]) if o[0] == "v" else o
                    for o in self.call_func(
                        ("func", sm.fid, None), [base, v], {}, node, fr, st,
                        None)
                ]
        ev = Ev("attrset", node, fr, recv=base, name=name, value=v,
                rtype=self.typeof(base))
        st = self.emit(ev, st)
        return [("next", None, self.write_attr(base, name, v, st))]

    def st_If(self, node, fr, st):
        arm = self.p.static_if(node.test)
        if arm is not None:
            return self.block(node.body if arm else node.orelse, fr, st)
        br, rs = self.cond(node.test, fr, st)
        out = list(rs)
        for b, s in br:
            out.extend(self.block(node.body if b else node.orelse, fr, s))
        return self.dedupe(out)

    def st_While(self, node, fr, st):
        heads = [self.emit(Ev("while_start", node, fr), st)]
        seen = set()
        out = []
        while heads:
            h = self.gc(heads.pop())
            if h.key in seen:
                continue
            seen.add(h.key)
            if len(seen) > self.rule.max_heads:
                self.incomplete.append(
                    "loop state cap at %s" % fr.func.loc(node))
                break
            br, rs = self.cond(node.test, fr, h)
            out.extend(rs)
            for b, s in br:
                if not b:
                    out.extend(self.block(node.orelse, fr, self.emit(
                        Ev("while_exit", node, fr), s)))
                    continue
                s = self.emit(Ev("while_iter", node, fr), s)
                for k, v, s2 in self.block(node.body, fr, s):
                    if k in ("next", "continue"):
                        heads.append(self.emit(
                            Ev("while_back", node, fr), s2))
                    elif k == "break":
                        out.append(("next", None, s2))
                    else:
                        out.append((k, v, s2))
        return self.dedupe(out)

    def st_For(self, node, fr, st):
        is_async = isinstance(node, ast.AsyncFor)

        def go(cv, s):
            out = []
            for k, v, s2 in self.loop_over(
                    cv, node.target,
                    lambda q: self.block(node.body, fr, q), node, fr, s,
                    is_async=is_async):
                if k == "next":
                    out.extend(self.block(node.orelse, fr, s2))
                elif k == "brk":
                    out.append(("next", None, s2))
                else:
                    out.append((k, v, s2))
            return out
        return self.dedupe(self.from_expr(self.ev(node.iter, fr, st), go))

    st_AsyncFor = st_For

    def st_Break(self, node, fr, st):
        return [("break", None, st)]

    def st_Continue(self, node, fr, st):
        return [("continue", None, st)]

    def st_Assert(self, node, fr, st):
        br, rs = self.cond(node.test, fr, st)
        out = list(rs)
        for b, s in br:
            if b:
                out.append(("next", None, s))
            else:
                out.append(("raise", ("exc", "AssertionError", True,
                                      "assert"), s))
        return self.dedupe(out)

    def to_exc(self, v, st, fr, node):
        if v[0] == "exc":
            return v
        if v[0] == "cls":
            return ("exc", v[1], True, self.site(fr, node))
        if v[0] == "ext":
            return ("exc", v[1], True, self.site(fr, node))
        if v[0] == "obj":
            return ("exc", v[2], True, v)
        return ("exc", "BaseException", False, v)

    def st_Raise(self, node, fr, st):
        if node.exc is None:
            cur = self.current_exc(fr, st)
            return [("raise", cur, st)]
        ns = [node.exc] + ([node.cause] if node.cause is not None else [])

        def go(vals, s):
            return [("raise", self.to_exc(vals[0], s, fr, node), s)]
        return self.dedupe(self.from_expr(self.ev_seq(ns, fr, st), go))

    def current_exc(self, fr, st):
        f = fr
        while f is not None:
            e = st.get(("X", f.id))
            if e is not None:
                return e
            f = f.caller
        return ("exc", "RuntimeError", True, "no active exception")

    def handler_classes(self, hnode, fr, st):
        """-> list of class names or None when dynamic"""
        if hnode is None:
            return ["BaseException"], st
        nodes = hnode.elts if isinstance(hnode, ast.Tuple) else [hnode]
        names = []
        for n in nodes:
            outs = [o for o in self.ev(n, fr, st) if o[0] == "v"]
            if not outs:
                return None, st
            v = outs[0][1]
            vs = list(v[1]) if v[0] == "tuple" else [v]
            for x in vs:
                if x[0] == "cls":
                    names.append(x[1])
                elif x[0] == "ext":
                    names.append(x[1])
                elif x[0] == "glob" and x[3] is None:
                    g = self.global_tuple(x)
                    if g is None:
                        return None, st
                    names.extend(g)
                else:
                    return None, st
        return names, st

    def global_tuple(self, gv):
        m = self.p.modules.get(gv[1])
        node = None
        mod = m
        if m is not None:
            s = m.symbols.get(gv[2])
            if s and s[0] == "value":
                node = s[1]
        else:
            c = self.p.classes.get(gv[1])
            if c is not None:
                own, node = c.find_attr(gv[2])
                mod = own.module if own else None
        if isinstance(node, (ast.Tuple, ast.List)) and mod is not None:
            out = []
            for e in node.elts:
                r = self.p.resolve_expr(mod, e)
                if r[0] == "class":
                    out.append(r[1].cid)
                elif r[0] == "ext":
                    out.append(r[1])
                else:
                    return None
            return out
        return None

    def st_Try(self, node, fr, st):
        body = self.block(node.body, fr, st)
        out = []
        prevx = ("X", fr.id)
        for k, v, s in body:
            if k == "next":
                out.extend(self.block(node.orelse, fr, s))
            elif k == "raise":
                out.extend(self.handlers(node, v, fr, s))
            else:
                out.append((k, v, s))
        out = self.dedupe(out)
        if not node.finalbody:
            return out
        res = []
        for k, v, s in out:
            saved = s.get(prevx)
            if k == "raise":
                s = s.set(prevx, v)
            for k2, v2, s2 in self.block(node.finalbody, fr, s):
                if k == "raise":
                    s2 = s2.set(prevx, saved) if saved is not None else \
                        s2.drop(lambda q: q == prevx)
                if k2 == "next":
                    res.append((k, v, s2))
                else:
                    if k == "raise" and k2 in ("return", "break",
                                               "continue"):
                        s2 = self.emit(Ev(
                            "swallow", node, fr, value=v, name="finally"),
                            s2)
                    res.append((k2, v2, s2))
        return self.dedupe(res)

    st_TryStar = st_Try

    def handlers(self, node, tok, fr, st):
        out = []
        prevx = ("X", fr.id)
        pending = [(tok, st)]
        for h in node.handlers:
            nxt = []
            for t, s in pending:
                m = self.rule.match_handler(self, t, h.type, fr, s)
                refined = t
                if m is None:
                    names, s = self.handler_classes(h.type, fr, s)
                    if names is None:
                        # dynamic tuple of Exception classes
                        if "Exception" in exc_chain(self.p, t[1]) or \
                                t[1] in ("Exception",):
                            m = "maybe"
                        elif t[1] == "BaseException" and not t[2]:
                            m = "maybe"
                        else:
                            m = "no"
                    else:
                        ms = [(exc_match(self.p, t, n), n) for n in names]
                        if any(x == "yes" for x, _ in ms):
                            m = "yes"
                        elif any(x == "maybe" for x, _ in ms):
                            m = "maybe"
                            mn = [n for x, n in ms if x == "maybe"]
                            if len(mn) == 1:
                                refined = ("exc", mn[0], False, t[3])
                        else:
                            m = "no"
                if m in ("yes", "maybe"):
                    s2 = s
                    saved = s2.get(prevx)
                    s2 = s2.set(prevx, refined)
                    s2 = self.emit(Ev("caught", h, fr, value=refined,
                                      extra=m), s2)
                    if h.name:
                        s2 = s2.set(self.store_key(h.name, fr), refined)
                    for k, v, s3 in self.block(h.body, fr, s2):
                        s3 = s3.set(prevx, saved) if saved is not None \
                            else s3.drop(lambda q: q == prevx)
                        if k != "raise":
                            s3 = self.emit(Ev(
                                "handled", h, fr, value=refined, extra=k),
                                s3)
                        if h.name and k == "next":
                            kk = self.store_key(h.name, fr)
                            s3 = s3.drop(lambda q: q == kk)
                        out.append((k, v, s3))
                if m in ("no", "maybe"):
                    nxt.append((t, s))
            pending = nxt
        out.extend(("raise", t, s) for t, s in pending)
        return self.dedupe(out)

    # ------------------------------------------------------------------ with
    def st_With(self, node, fr, st):
        is_async = isinstance(node, ast.AsyncWith)
        return self.with_items(node.items, node, fr, st, is_async)

    st_AsyncWith = st_With

    def with_items(self, items, node, fr, st, is_async):
        if not items:
            return self.block(node.body, fr, st)
        item = items[0]

        def inner(s):
            return self.with_items(items[1:], node, fr, s, is_async)

        def go(cv, s):
            return self.do_with(cv, item.optional_vars, inner, item, node,
                                fr, s, is_async)
        return self.dedupe(self.from_expr(
            self.ev(item.context_expr, fr, st), go))

    def do_with(self, cv, target, inner, item, node, fr, st, is_async):
        ctxnode = item.context_expr
        if cv[0] == "suppress":
            out = []
            names = []
            for x in cv[1]:
                names.append(x[1] if x[0] in ("cls", "ext") else None)
            for k, v, s in inner(st):
                if k != "raise":
                    out.append((k, v, s))
                    continue
                ms = [exc_match(self.p, v, n) for n in names if n]
                if None in names:
                    ms.append("maybe")
                if "yes" in ms or "maybe" in ms:
                    out.append(("next", None, self.emit(Ev(
                        "handled", ctxnode, fr, value=v, extra="suppress"),
                        s)))
                if "yes" not in ms:
                    out.append((k, v, s))
            return self.dedupe(out)
        if cv[0] == "cm":
            return self.with_cm(cv, target, inner, node, fr, st)
        c = self.classinfo(cv)
        en = "__aenter__" if is_async else "__enter__"
        ex = "__aexit__" if is_async else "__exit__"
        if c is not None and c.find_method(en) is not None and \
                c.find_method(ex) is not None:
            return self.with_class(cv, c, en, ex, target, inner, ctxnode, fr,
                                   st)
        rtype = self.typeof(cv)
        ev = Ev("enter", ctxnode, fr, recv=cv, rtype=rtype, name=en,
                extra="with")
        st = self.emit(ev, st)
        r = self.rule.on_call(self, ev, st)
        entered = []
        out = []
        if r is None:
            if is_async:
                ev2 = Ev("await", ctxnode, fr, value=("aw", "enter", (cv,),
                                                      (), None),
                         name="lock.acquire" if rtype in (
                             "asyncio.Lock", "asyncio.Semaphore",
                             "asyncio.Condition") else "enter", rtype=rtype)
                for o in self.finish_await(ev2, st):
                    if o[0] == "v":
                        entered.append(o[2])
                    else:
                        out.append(o)
            else:
                entered.append(st)
        else:
            for o in r:
                if o[0] == "v":
                    entered.append(o[2])
                else:
                    out.append(o)
        for s in entered:
            s = self.emit(Ev("entered", ctxnode, fr, recv=cv, rtype=rtype,
                             name=en), s)
            if target is not None:
                rs = self.assign(target, cv if self.buffer_of(
                    cv, s) is not None else ("attr", cv, "$entered"), fr, s)
            else:
                rs = [("next", None, s)]
            for k0, v0, s1 in rs:
                if k0 != "next":
                    out.append((k0, v0, s1))
                    continue
                for k, v, s2 in inner(s1):
                    s2 = self.emit(Ev("exit", ctxnode, fr, recv=cv,
                                      rtype=rtype, name=ex, extra=k,
                                      value=v), s2)
                    if is_async and rtype not in (
                        "asyncio.Lock", "asyncio.Semaphore",
                        "asyncio.Condition",
                    ):
                        ev3 = Ev("await", ctxnode, fr, value=(
                            "aw", "exit", (cv,), (), None), name="exit",
                            rtype=rtype)
                        s2 = self.suspend(ev3, s2)
                    out.append((k, v, s2))
        return self.dedupe(out)

    def with_class(self, cv, c, en, ex, target, inner, node, fr, st):
        out = []
        fe, fx = c.find_method(en), c.find_method(ex)
        for o in self.invoke(cv, fe, [], node, fr, st):
            if o[0] != "v":
                out.append(o)
                continue
            if target is not None:
                rs = self.assign(target, o[1], fr, o[2])
            else:
                rs = [("next", None, o[2])]
            for k0, v0, s1 in rs:
                if k0 != "next":
                    out.append((k0, v0, s1))
                    continue
                for k, v, s2 in inner(s1):
                    if k == "raise":
                        xa = [v, v, NONE]
                    else:
                        xa = [NONE, NONE, NONE]
                    for x in self.invoke(cv, fx, xa, node, fr, s2):
                        if x[0] != "v":
                            out.append(x)
                        elif k == "raise":
                            for b, s3 in self.branch_value(x[1], x[2]):
                                if b:
                                    out.append(("next", None, s3))
                                else:
                                    out.append((k, v, s3))
                        else:
                            out.append((k, v, x[2]))
        return self.dedupe(out)

    def invoke(self, recv, f, args, node, fr, st):
        ev = Ev("call", node, fr, callee=("bm", recv, f.fid), recv=recv,
                name=f.name, rtype=self.typeof(recv), args=args, extra=f)
        outs = self.call_project(
            ("func", f.fid, None), f, [recv] + args, {}, node, fr, st, ev)
        res = []
        for o in outs:
            if o[0] == "v" and o[1][0] == "coro":
                res.extend(self.do_await(o[1], node, fr, o[2]))
            else:
                res.append(o)
        return res

    def with_cm(self, cv, target, inner, node, fr, st):
        """@contextmanager generator inlined around the with body."""
        key = ("P", fr.id, node.lineno)

        def hole(v, s):
            res = []
            if target is not None:
                rs = self.assign(target, v, fr, s)
            else:
                rs = [("next", None, s)]
            for k0, v0, s1 in rs:
                if k0 != "next":
                    res.append(("raise", v0, s1))
                    continue
                for k, val, s2 in inner(s1):
                    if k == "next":
                        res.append(("v", NONE, s2))
                    elif k == "raise":
                        res.append(("raise", val, s2))
                    else:
                        res.append(("v", NONE, s2.set(key, (k, val))))
            return res

        _, f, args, kw = cv
        out = []
        for o in self.call_func(f, list(args), dict(kw), node, fr, st, None,
                                hole=hole, force=True):
            if o[0] == "v":
                pend = o[2].get(key)
                s = o[2].drop(lambda q: q == key)
                if pend is None:
                    out.append(("next", None, s))
                else:
                    out.append((pend[0], pend[1], s))
            else:
                s = o[2].drop(lambda q: q == key)
                out.append((o[0], o[1], s))
        return self.dedupe(out)

    # ------------------------------------------------------------ entrypoint
    def run(self, func, self_val=None, args=None, st=None, roots=(),
            closure=None, kw=None):
        """Analyse a function from symbolic arguments -> outcomes."""
        st = st if st is not None else State({}, self.rule.initial())
        fr = self.new_frame(func, closure, None, None)
        vals = {}
        names = list(func.params)
        args = dict(args or {})
        if self_val is None and func.cls is not None and names and (
                func.parent is None) and names[0] in ("self", "cls"):
            self_val = ("sym", "self", func.cls.cid)
        if self_val is not None and names and func.parent is None:
            vals[names[0]] = self_val
            if self_val[0] == "sym":
                self.roots.add(self_val)
            names = names[1:]
        for n in names + func.kwonly:
            vals[n] = args.get(n) or (
                "sym", n, self.p.param_type(func, n))
        if func.vararg:
            vals[func.vararg] = args.get(func.vararg) or (
                "sym", "*" + func.vararg, "tuple")
        if func.kwarg:
            vals[func.kwarg] = args.get(func.kwarg) or (
                "sym", "**" + func.kwarg, "dict")
        for r in roots:
            self.roots.add(r)
        for n, v in vals.items():
            t = self.p.param_elem_type(func, n)
            if t and v[0] == "sym":
                self.elem_types[v] = t
        st = st.update({("L", fr.id, n): v for n, v in vals.items()})
        return self.run_body(fr, st)

    def module_state(self, st):
        """Containers made when the modules of the rule are imported."""
        up = {}
        for mn in self.rule.module_state:
            m = self.p.modules.get(mn)
            for name, x in sorted(m.symbols.items()) if m else ():
                node = x[1] if x[0] == "value" else None
                t = {ast.Dict: "dict", ast.List: "list"}.get(type(node))
                if isinstance(node, ast.Call) and not node.args and \
                        not node.keywords:
                    q = self.p.resolve_expr(m, node.func)
                    if q[0] == "ext" and q[1] in (
                            "dict", "list", "set", "collections.deque"):
                        t = q[1]
                elif t and ast.unparse(node) not in ("{}", "[]"):
                    t = None
                if t is None:
                    continue
                ob = ("obj", ("module", mn, name), t)
                up["G", mn, name] = ob
                up["H", ob, "[]"] = frozenset()
                up["H", ob, "$dict" if t == "dict" else "$parts"] = ()
        return st.update(up) if up else st

    def harness(self, src, st=None, roots=(), **env):
        """Analyse a driver written as source text; env binds its params."""
        node = ast.parse(src).body[0]
        m = HarnessModule(self.p)
        f = self.p.add_func(m, node, "<driver>.%s" % node.name)
        self._keep = getattr(self, "_keep", [])
        self._keep.append(node)
        for v in env.values():
            if v[0] == "sym":
                self.roots.add(v)
        if self.rule.module_state:
            st = self.module_state(st or State({}, self.rule.initial()))
        return self.run(f, args=env, st=st, roots=roots)

    def call_value(self, fv, args, st, fr=None, node=None):
        """Run a function value (callback) to completion, awaiting coros."""
        if fr is None:
            fr = self.top_frame()
        if node is None:
            node = ast.Pass(lineno=0, col_offset=len(self._frame_ids))
        out = []
        for o in self.call(fv, list(args), {}, node, fr, st):
            if o[0] == "v" and o[1][0] == "coro":
                out.extend(self.do_await(o[1], node, fr, o[2]))
            else:
                out.append(o)
        return out

    def top_frame(self):
        m = next(iter(self.p.modules.values()))
        node = ast.parse("def __harness__():\n    pass").body[0]
        f = self.p.add_func(m, node, "__harness__")
        self._harness = node
        return self.new_frame(f, None, None, None)


class HarnessModule:
    """Module of a driver: its free names are marker functions."""

    def __init__(self, project):
        self.project = project
        self.name = "<driver>"
        self.relpath = "<driver>"
        self.symbols = {}

    def import_base(self, node):
        return node.module or ""


# ------------------------------------------------------------------- helpers

def is_string(v):
    """A constant, a symbolic label or a concatenation of them."""
    return v[0] == "cat" or v[0] == "const" and v[1] == "str" or (
        v[0] == "obj" and v[2] == "label")


def units(v):
    """A string as a list of characters and labels."""
    out = []
    for p in v[1] if v[0] == "cat" else (v,):
        out.extend([const(c) for c in p[2]] if p[0] == "const" else [p])
    return out


def string_method(base, name, args):
    """A method of a string of labels; labels are not empty, without dots,
    and differ from each other and from every constant."""
    us = units(base)
    arg = args[0] if args else None
    if name in ("endswith", "startswith") and len(args) == 1 and \
            is_string(arg):
        a = units(arg)
        part = us[len(us) - len(a):] if name == "endswith" else us[:len(a)]
        return TRUE if len(us) >= len(a) and part == a else FALSE
    if name in ("strip", "lstrip", "rstrip") and (
            arg is None or is_const(arg) and isinstance(arg[2], str)):
        cs = " \t\n\r" if arg is None else arg[2]
        while name != "rstrip" and us and us[0][0] == "const" and \
                us[0][2] in cs:
            us = us[1:]
        while name != "lstrip" and us and us[-1][0] == "const" and \
                us[-1][2] in cs:
            us = us[:-1]
        return cat(us)
    if name in ("split", "partition", "rpartition", "rsplit",
                "count") and arg == const("."):
        parts, cur = [], []
        for u in us:
            if u == arg:
                parts.append(cat(cur))
                cur = []
            else:
                cur.append(u)
        parts.append(cat(cur))
        if name == "count":
            return const(len(parts) - 1)
        if name in ("partition", "rpartition"):
            i = 1 if name == "partition" else len(parts) - 1
            if len(parts) == 1:
                e = const("")
                return ("tuple", (base, e, e) if i else (e, e, base))

            def join(ps):
                return cat([x for p in ps for x in (arg, p)][1:])
            return ("tuple", (join(parts[:i]), arg, join(parts[i:])))
        if len(args) == 2 and is_const(args[1]) and args[1][2] >= 0:
            n = args[1][2]

            def join(ps):
                return cat([x for p in ps for x in (arg, p)][1:])
            if name == "split" and len(parts) > n + 1:
                parts = parts[:n] + [join(parts[n:])]
            elif name == "rsplit" and len(parts) > n + 1:
                k = len(parts) - n
                parts = [join(parts[:k])] + parts[k:]
        elif len(args) > 1:
            return None
        return parts
    if name in ("removesuffix", "removeprefix") and arg is not None and \
            is_string(arg):
        a = units(arg)
        if name == "removesuffix" and us[len(us) - len(a):] == a:
            us = us[:len(us) - len(a)]
        elif name == "removeprefix" and us[:len(a)] == a:
            us = us[len(a):]
        return cat(us)
    return None


def cat(vs):
    """The concatenation, in normal form."""
    ps = []
    for v in vs:
        for p in v[1] if v[0] == "cat" else (v,):
            if p[0] == "const" and ps and ps[-1][0] == "const":
                ps[-1] = const(ps[-1][2] + p[2])
            elif p != const(""):
                ps.append(p)
    if not ps:
        return const("")
    return ps[0] if len(ps) == 1 else ("cat", tuple(ps))


def changes_kwargs(func):
    """Does the function change the mapping of its keyword arguments?"""
    c = getattr(func, "_changes_kw", None)
    if c is None:
        def own(n):
            return isinstance(n, ast.Name) and n.id == func.kwarg
        c = func._changes_kw = any(
            isinstance(n, ast.Subscript) and own(n.value)
            and not isinstance(n.ctx, ast.Load)
            or isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
            and own(n.func.value) and n.func.attr in (
                "setdefault", "update", "pop", "popitem", "clear")
            for n in ast.walk(func.node))
    return c


def in_loop(func, node):
    """Is the statement lexically inside a loop of the function?"""
    c = getattr(func, "_loop_nodes", None)
    if c is None:
        c = set()
        for n in ast.walk(func.node):
            if isinstance(n, (ast.While, ast.For, ast.AsyncFor)):
                for m in ast.walk(n):
                    c.add(id(m))
        func._loop_nodes = c
    return id(node) in c


def _as_load(t):
    if isinstance(t, ast.Name):
        n = ast.Name(id=t.id, ctx=ast.Load())
    elif isinstance(t, ast.Attribute):
        n = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    else:
        n = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return ast.copy_location(n, t)


_VOL = {}


def volatile(t):
    """'res'/'obj'/'task' atoms of a term."""
    r = _VOL.get(t)
    if r is None:
        r = frozenset(
            x for x in atoms(t) if x[0] in ("res", "obj", "task", "top"))
        _VOL[t] = r
    return r


def collect(v, out):
    if isinstance(v, frozenset):
        for x in v:
            collect(x, out)
    elif isinstance(v, tuple) and v:
        try:
            out |= volatile(v)
        except TypeError:
            pass


_DEPTH = {}


def depth(v):
    if not isinstance(v, tuple) or not v:
        return 0
    r = _DEPTH.get(v)
    if r is None:
        r = 1 + max(depth(x) for x in v)
        _DEPTH[v] = r
    return r


def reach(v):
    """How far from something known is a part of it?"""
    n = 0
    while v[0] in ("attr", "item"):
        v = v[1]
        n += 1
    return n + (0 if v[0] in ("task", "coro", "aw") else depth(v))


def atoms(v):
    """All sub-tuples of a value."""
    if isinstance(v, tuple):
        if v and isinstance(v[0], str):
            yield v
        for x in v:
            yield from atoms(x)
    elif isinstance(v, frozenset):
        for x in v:
            yield from atoms(x)


def mentions(v, sub):
    if v == sub:
        return True
    if isinstance(v, (tuple, frozenset)):
        return any(mentions(x, sub) for x in v)
    return False


def mentions_tag(v, tag):
    return any(x[0] == tag for x in atoms(v))


def contains_elem(v):
    return any(x[0] in ("elem", "res") for x in atoms(v))
