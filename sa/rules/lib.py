"""Shared pieces of the rules: exploration, value predicates, base rules."""
import ast

from ..interp import (
    CANCELLED, EXC_CANCEL, FALSE, NONE, TRUE, Ev, Interp, Mon, Rule, State,
    atoms, const, exc_chain, is_const, mentions,
)
from ..project import AnalysisBroken, ClassInfo, FuncInfo, mangle

__all__ = [n for n in dir() if not n.startswith("__")] + [
    "explore", "facts", "is_cancel", "leaves", "false_fact", "Base",
    "bound", "harness", "abstract_aw", "fields_of_type", "attr_of", "unwrap_aw",
    "is_user_exc", "resolve_callable", "callable_matches", "own_methods",
    "const_value", "kwarg", "reached_functions", "cause_of", "base_attr",
    "calls_in", "deep_calls", "self_sym", "USER", "Plain", "is_ext",
    "is_method", "CANCEL", "Maps", "KEYERR", "DICTS", "run_raw", "unknown",
]

USER = ("exc", "Exception", False, "user")


def self_sym(cls, name="self"):
    return ("sym", name, cls if isinstance(cls, str) else cls.cid)


class Base(Rule):
    """Rule with a context; reports through self.bad()."""
    lib_raises = False

    def __init__(self, ctx, **kw):
        self.ctx = ctx
        self.seen = set()
        for k, v in kw.items():
            setattr(self, k, v)

    def initial(self):
        return Mon()


class Plain(Base):
    """Scenario: nothing raises or changes unless the rule says so."""
    max_depth = 12
    skip = ()

    def initial(self):
        return Mon(x=0)

    def raises(self, it, ev, st):
        return []

    def inline(self, it, func, ev, st):
        return "counters" not in func.module.name and \
            func.name not in self.skip

    def stable(self, it, base, name):
        return True


DICTS = ("dict", "collections.defaultdict", "collections.OrderedDict",
         "collections.Counter", "weakref.WeakKeyDictionary",
         "weakref.WeakValueDictionary")
KEYERR = ("exc", "KeyError", True, "missing")


class Maps:
    """Mixin: an abstract model of mappings with distinct symbolic keys.

    Mon.maps holds ((mapping, key), value) pairs. Rules call map_call() from
    on_call for the values whose mappings they follow (is_map)."""

    def is_map(self, it, v, st):
        return v[0] in ("obj", "attr", "glob", "sym") and \
            it.typeof(v) in DICTS

    def missing(self, it, ev, base, key, st):
        """Outcomes of reading an absent key."""
        return [("raise", KEYERR, st)]

    def may_have(self, base, key):
        """Keys the mapping may have had before the scenario."""
        return None

    def maps_of(self, st):
        return dict(st.mon.maps)

    def put_map(self, st, d):
        return st.with_mon(st.mon.set(maps=tuple(sorted(
            d.items(), key=repr))))

    def has_key(self, it, coll, key, st):
        if coll[0] == "q" and coll[1] == "keys":
            coll = coll[2]
        if self.is_map(it, coll, st):
            return (coll, key) in self.maps_of(st)
        return None

    def map_call(self, it, ev, st):
        b = ev.recv
        if b is None or not self.is_map(it, b, st):
            return None
        d = self.maps_of(st)
        n, a = ev.name, list(ev.args)
        if ev.kind == "getitem" or n == "__getitem__":
            if (b, a[0]) in d:
                return [("v", d[(b, a[0])], st)]
            return self.missing(it, ev, b, a[0], st)
        if ev.kind != "call" or isinstance(ev.extra, FuncInfo):
            return None
        if n == "__setitem__":
            d[(b, a[0])] = a[1]
            return [("v", NONE, self.put_map(st, d))]
        if n == "__delitem__" or n == "pop" and a:
            if (b, a[0]) in d:
                v = d.pop((b, a[0]))
                return [("v", v, self.put_map(st, d))]
            if n == "pop" and len(a) > 1:
                return [("v", a[1], st)]
            return [("raise", KEYERR, st)]
        if n == "get":
            return [("v", d.get((b, a[0]), a[1] if len(a) > 1 else NONE),
                     st)]
        if n == "setdefault":
            if (b, a[0]) not in d:
                d[(b, a[0])] = a[1] if len(a) > 1 else NONE
            return [("v", d[(b, a[0])], self.put_map(st, d))]
        if n == "clear":
            return [("v", NONE, self.put_map(
                st, {k: v for k, v in d.items() if k[0] != b}))]
        return None


CANCEL = ("exc", CANCELLED, True, "cancelled")


def is_ext(ev, *names):
    return ev.kind == "call" and ev.extra == "ext" and ev.name in names


def is_method(ev, *names):
    return ev.kind == "call" and ev.extra == "method" and ev.name in names


def explore(ctx, rule, func, self_val=None, **kw):
    it = Interp(ctx.p, rule)
    outs = it.run(func, self_val=self_val, **kw)
    ctx.absorb(it)
    return it, outs


def harness(ctx, rule, src, **env):
    it = Interp(ctx.p, rule)
    outs = it.harness(src, **env)
    ctx.absorb(it)
    return it, outs


def is_cancel(tok):
    return tok[0] == "exc" and tok[1] == CANCELLED


def is_user_exc(tok):
    return tok[0] == "exc" and tok[3] == "user"


def facts(st):
    for k, v in st.d.items():
        if k[0] == "F":
            yield k[1], v


def base_attr(v):
    """(base, name) of a field value, re-read or not."""
    if v[0] in ("attr", "ver"):
        return v[1], v[2]
    return None, None


def false_fact(st, pred):
    """Is a value satisfying pred known to be falsy / None on this path?"""
    for t, v in facts(st):
        if t[0] == "truth" and v is False and pred(t[1]):
            return True
        if t[0] == "isnone" and v is True and pred(t[1]):
            return True
    return False


def abstract_aw(name, args, site):
    return ("aw", name, tuple(args), (), site)


def unwrap_aw(v):
    """The awaitable inside wait_for / shield / a task."""
    while True:
        if v[0] == "aw" and v[1] in ("wait_for", "shield") and v[2]:
            v = v[2][0]
        elif v[0] == "task":
            v = v[2]
        else:
            return v


def leaves(it, v, st, _depth=0):
    """Awaitables reachable from a gather/wait argument or a collection."""
    if _depth > 8:
        return
    if v[0] == "star":
        yield from leaves(it, v[1], st, _depth + 1)
        return
    if v[0] == "aw" and v[1] in ("gather", "wait"):
        for a in v[2]:
            yield from leaves(it, a, st, _depth + 1)
        return
    if v[0] == "aw" and v[1] in ("wait_for", "shield"):
        yield from leaves(it, v[2][0], st, _depth + 1)
        return
    if v[0] == "tuple":
        for a in v[1]:
            yield from leaves(it, a, st, _depth + 1)
        return
    if v[0] == "coll" or (v[0] == "obj" and st.get(("H", v, "[]"))
                          is not None):
        for e in it.elements(v, st):
            if e != v:
                yield from leaves(it, e, st, _depth + 1)
        return
    yield v


def fields_of_type(ctx, cls, typ):
    """Attributes of a class that hold (only) objects of a type."""
    c = ctx.p.cls(cls) if isinstance(cls, str) else cls
    types = typ if isinstance(typ, (set, tuple, list)) else {typ}
    return {
        n for n, ts in c.field_types().items() if ts & set(types)
    }


def attr_of(selfv, name):
    return ("attr", selfv, name)


def resolve_callable(it, fv):
    """Function a callback value will run, through partials."""
    pre = ()
    while fv[0] == "partial":
        pre = tuple(fv[2]) + pre
        fv = fv[1]
    return it.func_of(fv), pre, fv


def callable_matches(it, fv, base, name):
    """fv is the bound (library) method `name` of base."""
    return fv[0] == "attr" and fv[2] == name and fv[1] == base


def own_methods(c):
    return [m for m in c.methods.values() if not m.name.endswith("!setter")]


def const_value(v, default=None):
    return v[2] if v[0] == "const" else default


def kwarg(ev, name, pos=None, default=None):
    if name in ev.kw:
        return ev.kw[name]
    if pos is not None and pos < len(ev.args):
        return ev.args[pos]
    return default


def cause_of(tok):
    return tok[1]


def calls_in(func_node):
    """Call nodes of a function body, nested functions excluded."""
    out = []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            return
        if isinstance(n, ast.Call):
            out.append(n)
        for c in ast.iter_child_nodes(n):
            visit(c)
    body = func_node.body if isinstance(func_node.body, list) else [
        func_node.body]
    for b in body:
        visit(b)
    return out


def deep_calls(func_node):
    return [n for n in ast.walk(func_node) if isinstance(n, ast.Call)]


def reached_functions(ctx, start, depth=6):
    """Project functions reachable through resolvable calls/attributes."""
    seen = {}
    todo = [(start, 0)]
    while todo:
        f, d = todo.pop()
        if f.fid in seen or d > depth:
            continue
        seen[f.fid] = f
        for n in ast.walk(f.node):
            tgt = None
            if isinstance(n, ast.Attribute) and f.cls is not None and (
                    isinstance(n.value, ast.Name)
                    and n.value.id in ("self", "cls")):
                tgt = f.cls.find_method(mangle(n.attr, f.cls))
            elif isinstance(n, ast.Name):
                r = ctx.p.symbol(f.module, n.id)
                if r and r[0] == "func":
                    tgt = r[1]
            if tgt is not None:
                todo.append((tgt, d + 1))
    return list(seen.values())


def run_raw(it, w, ev, st):
    """Run the function of a @threaded call's awaitable, undecorated."""
    fv, args = w[2][0], list(w[2][1:])
    if fv[0] == "bm":
        args = [fv[1]] + args
        fv = ("func", fv[2], None)
    if fv[0] != "func":
        return it.call_value(fv, args, st)
    return it.call_func(fv, args, dict(w[3]), ev.node, ev.fr, st, ev,
                        force=True)


def bound(ev):
    """The arguments of a project function by position, however passed."""
    a = ev.extra.node.args
    out = [kwarg(ev, x.arg, i, None)
           for i, x in enumerate(a.posonlyargs + a.args)]
    while out and out[-1] is None:
        out.pop()
    return [NONE if x is None else x for x in out]


def unknown(v):
    """Is a part of the value not determined?"""
    return any(x[0] in ("op", "item", "elem", "top", "opaque", "q", "star")
               for x in atoms(v))
