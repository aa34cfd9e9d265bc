"""Loads the project under analysis from its current source and resolves it.

Nothing here executes code of the project: files are read and parsed with
``ast``; names are resolved through imports, module globals, class scopes and
lexical scopes.
"""
import ast
import builtins
import os

REPO = os.environ.get("VERIF_REPO", "/repo")
PACKAGES = ("aiomisc", "aiomisc_log", "aiomisc_worker")


class AnalysisBroken(Exception):
    """The analysis lost its anchor: neither a pass nor a violation."""


class Undecided(Exception):
    """A limit of the analysis was reached: nothing is known."""


class FuncInfo:
    def __init__(self, project, module, node, qualname, cls=None, parent=None):
        self.project = project
        self.module = module
        self.node = node
        self.qualname = qualname
        self.cls = cls
        self.parent = parent
        self.is_lambda = isinstance(node, ast.Lambda)
        self.is_async = isinstance(node, ast.AsyncFunctionDef)
        self.name = "<lambda>" if self.is_lambda else node.name
        self.fid = "%s:%s@%d:%d" % (
            module.name, qualname, node.lineno, node.col_offset,
        )
        self._scan()
        decs = [] if self.is_lambda else node.decorator_list
        self.decorators = decs

    def _scan(self):
        """Own scope facts: assigned names, nonlocal/global, yields."""
        self.locals = set()
        self.nonlocals = set()
        self.globals = set()
        self.is_gen = False
        self.has_nested = False
        self.children = {}
        node = self.node
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.locals.update(self.params)
        self.locals.update(self.kwonly)
        if self.vararg:
            self.locals.add(self.vararg)
        if self.kwarg:
            self.locals.add(self.kwarg)
        body = [node.body] if self.is_lambda else node.body

        def visit(n, in_comp=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.locals.add(n.name)
                self.has_nested = True
                for d in n.decorator_list:
                    visit(d)
                for d in n.args.defaults + [
                    x for x in n.args.kw_defaults if x
                ]:
                    visit(d)
                return
            if isinstance(n, ast.Lambda):
                self.has_nested = True
                return
            if isinstance(n, ast.ClassDef):
                self.locals.add(n.name)
                self.has_nested = True
                return
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
            if isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del),
            ):
                self.locals.add(n.id)
            if isinstance(n, ast.ExceptHandler) and n.name:
                self.locals.add(n.name)
            if isinstance(n, ast.Nonlocal):
                self.nonlocals.update(n.names)
            if isinstance(n, ast.Global):
                self.globals.update(n.names)
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    self.locals.add((al.asname or al.name).split(".")[0])
            for c in ast.iter_child_nodes(n):
                visit(c)

        for b in body:
            visit(b)
        self.locals -= self.nonlocals
        self.locals -= self.globals

    def loc(self, node=None):
        n = node if node is not None and hasattr(node, "lineno") else self.node
        return "%s:%d" % (self.module.relpath, n.lineno)

    def __repr__(self):
        return "<F %s.%s>" % (self.module.name, self.qualname)


class ClassInfo:
    def __init__(self, project, module, node, qualname, parent_func=None):
        self.project = project
        self.module = module
        self.node = node
        self.name = node.name
        self.qualname = qualname
        self.parent_func = parent_func
        self.cid = module.name + "." + qualname
        self.methods = {}
        self.nested = {}
        self.attrs = {}
        self.annots = {}
        self._mro = None
        self._ftypes = None
        self._alternative = False
        for st in node.body:
            self._member(st)

    def _member(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fi = self.project.add_func(
                self.module, st, self.qualname + "." + st.name, cls=self,
            )
            decs = [self.project.dotted(d) for d in st.decorator_list]
            if any(d and d.endswith(".setter") for d in decs):
                self.methods.setdefault(mangle(st.name, self) + "!setter", fi)
                return
            if self._alternative and mangle(st.name, self) in self.methods:
                return
            self.methods[mangle(st.name, self)] = fi
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.attrs[mangle(t.id, self)] = st.value
                elif isinstance(t, ast.Tuple):
                    for e in t.elts:
                        if isinstance(e, ast.Name):
                            self.attrs[mangle(e.id, self)] = None
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            nm = mangle(st.target.id, self)
            self.annots[nm] = st.annotation
            if st.value is not None:
                self.attrs[nm] = st.value
        elif isinstance(st, ast.ClassDef):
            self.nested[st.name] = self.project.add_class(
                self.module, st, self.qualname + "." + st.name)
        elif isinstance(st, (ast.If, ast.Try)):
            # both arms are members of the class; a version test picks the
            # arm valid for the interpreter that builds the project
            if isinstance(st, ast.If):
                arm = self.project.static_if(st.test)
                if arm is True:
                    bodies = [st.body]
                elif arm is False:
                    bodies = [st.orelse]
                else:
                    bodies = [st.body, st.orelse]
            else:
                bodies = [st.body]
            for i, b in enumerate(bodies):
                old, self._alternative = self._alternative, \
                    self._alternative or i > 0
                for s in b:
                    self._member(s)
                self._alternative = old

    def bases(self):
        out = []
        for b in self.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            out.append(self.project.resolve_expr(self.module, b))
        return out

    def mro(self):
        if self._mro is None:
            seqs = []
            direct = []
            for kind, v in self.bases():
                if kind == "class":
                    seqs.append(list(v.mro()))
                    direct.append(v)
                elif kind == "ext":
                    seqs.append([v])
                    direct.append(v)
            seqs.append(list(direct))
            res = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    c = seqs[0][0]
                res.append(c)
                for s in seqs:
                    if s and s[0] == c:
                        del s[0]
                    elif c in s:
                        s.remove(c)
            self._mro = res
        return self._mro

    def find_method(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.methods:
                return c.methods[name]
        return None

    def find_nested(self, name):
        for k in self.mro():
            if isinstance(k, ClassInfo) and name in k.nested:
                return k.nested[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c, c.attrs[name]
        return None, None

    def ext_bases(self):
        return [c for c in self.mro() if isinstance(c, str)]

    def is_subclass(self, name):
        for c in self.mro():
            if isinstance(c, str):
                if c == name:
                    return True
            elif c.cid == name:
                return True
        return False

    def field_types(self):
        """attr -> set of type tags, from constructors and annotations."""
        if self._ftypes is None:
            ft = {}
            self._ftypes = ft
            for c in reversed(self.mro()):
                if not isinstance(c, ClassInfo):
                    continue
                for name, ann in c.annots.items():
                    t = self.project.annotation_type(c.module, ann)
                    if t:
                        ft.setdefault(name, set()).add(t)
                for m in c.methods.values():
                    for n in ast.walk(m.node):
                        tgt, val, ann = None, None, None
                        if isinstance(n, ast.Assign) and len(n.targets) == 1:
                            tgt, val = n.targets[0], n.value
                        elif isinstance(n, ast.AnnAssign):
                            tgt, val, ann = n.target, n.value, n.annotation
                        if not isinstance(tgt, ast.Attribute):
                            continue
                        if not (
                            isinstance(tgt.value, ast.Name)
                            and m.params and tgt.value.id == m.params[0]
                        ):
                            continue
                        nm = mangle(tgt.attr, c)
                        if ann is not None:
                            t = self.project.annotation_type(c.module, ann)
                            if t:
                                ft.setdefault(nm, set()).add(t)
                        if isinstance(val, ast.BoolOp):
                            val = val.values[-1]
                        if isinstance(val, ast.Call):
                            t = self.project.ctor_type(c.module, val, m)
                            if t:
                                ft.setdefault(nm, set()).add(t)
                        elif isinstance(val, (ast.List, ast.ListComp)):
                            ft.setdefault(nm, set()).add("list")
                        elif isinstance(val, (ast.Dict, ast.DictComp)):
                            ft.setdefault(nm, set()).add("dict")
                        elif isinstance(val, (ast.Set, ast.SetComp)):
                            ft.setdefault(nm, set()).add("set")
                        elif isinstance(val, ast.Name):
                            # parameter with annotation
                            t = self.project.param_type(m, val.id)
                            if t:
                                ft.setdefault(nm, set()).add(t)
        return self._ftypes

    def field_elem_types(self):
        """attr -> type of the elements of the collection it holds."""
        if getattr(self, "_felems", None) is not None:
            return self._felems
        fe = {}
        self._felems = fe

        def put(nm, t):
            if t:
                fe.setdefault(nm, set()).add(t)
        for c in reversed(self.mro()):
            if not isinstance(c, ClassInfo):
                continue
            for name, ann in c.annots.items():
                put(name, self.project.elem_annotation(c.module, ann))
            for m in c.methods.values():
                for n in ast.walk(m.node):
                    tgt, val, ann = None, None, None
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    elif isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    if not isinstance(tgt, ast.Attribute):
                        continue
                    nm = mangle(tgt.attr, c)
                    if ann is not None:
                        put(nm, self.project.elem_annotation(c.module, ann))
                    if isinstance(val, (ast.ListComp, ast.SetComp,
                                        ast.GeneratorExp)) and isinstance(
                            val.elt, ast.Call):
                        put(nm, self.project.ctor_type(
                            c.module, val.elt, m))
        return fe

    def fields_written_outside_init(self):
        out = set()
        for c in self.mro():
            if not isinstance(c, ClassInfo):
                continue
            for m in c.methods.values():
                if m.name == "__init__":
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(
                        n.ctx, (ast.Store, ast.Del),
                    ) and isinstance(n.value, ast.Name) and (
                        n.value.id == "self"
                    ):
                        out.add(mangle(n.attr, c))
        return out

    def __repr__(self):
        return "<C %s>" % self.cid


def mangle(name, cls):
    if cls is not None and name.startswith("__") and not name.endswith("__"):
        return "_" + cls.name.lstrip("_") + name
    return name


class ModuleInfo:
    def __init__(self, project, name, path):
        self.project = project
        self.name = name
        self.path = path
        self.relpath = os.path.relpath(path, project.root)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        with open(path) as fp:
            self.source = fp.read()
        self.tree = ast.parse(self.source, path)
        self.symbols = {}
        self.toplevel = []

    def package(self):
        return self.name if self.is_pkg else self.name.rpartition(".")[0]

    def collect(self):
        self._collect(self.tree.body)

    def _collect(self, body, overwrite=True):
        def put(k, v):
            if overwrite or k not in self.symbols:
                self.symbols[k] = v
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                put(st.name, (
                    "func", self.project.add_func(self, st, st.name),
                ))
            elif isinstance(st, ast.ClassDef):
                ci = self.project.add_class(self, st, st.name)
                put(st.name, ("class", ci))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        put(a.asname, ("modref", a.name))
                    else:
                        top = a.name.split(".")[0]
                        put(top, ("modref", top))
            elif isinstance(st, ast.ImportFrom):
                base = self.import_base(st)
                for a in st.names:
                    put(a.asname or a.name, ("import", base, a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        put(t.id, ("value", st.value))
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    put(st.target.id, ("value", st.value))
            elif isinstance(st, ast.If):
                arm = self.project.static_if(st.test)
                if arm is True:
                    self._collect(st.body, overwrite)
                elif arm is False:
                    self._collect(st.orelse, overwrite)
                else:
                    self._collect(st.body, overwrite)
                    self._collect(st.orelse, False)
            elif isinstance(st, ast.Try):
                self._collect(st.body, overwrite)
                for h in st.handlers:
                    self._collect(h.body, False)
                self._collect(st.orelse, overwrite)
                self._collect(st.finalbody, overwrite)

    def import_base(self, st):
        if not st.level:
            return st.module or ""
        parts = self.package().split(".")
        parts = parts[: len(parts) - (st.level - 1)]
        base = ".".join(parts)
        if st.module:
            base += "." + st.module
        return base


RETURN_TYPES = {
    "create_future": "asyncio.Future",
    "create_task": "asyncio.Task",
    "call_later": "asyncio.TimerHandle",
    "call_at": "asyncio.TimerHandle",
    "call_soon": "asyncio.Handle",
}

ALIASES = {
    "asyncio.futures.Future": "asyncio.Future",
    "asyncio.locks.Lock": "asyncio.Lock",
    "asyncio.exceptions.TimeoutError": "TimeoutError",
    "asyncio.TimeoutError": "TimeoutError",
    "asyncio.exceptions.CancelledError": "asyncio.CancelledError",
    "concurrent.futures.CancelledError": "asyncio.CancelledError",
    "builtins.TimeoutError": "TimeoutError",
    "concurrent.futures.thread.ThreadPoolExecutor":
        "concurrent.futures.ThreadPoolExecutor",
}


class Project:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self._func_by_node = {}
        for pkg in PACKAGES:
            base = os.path.join(self.root, pkg)
            for dp, dn, fn in sorted(os.walk(base)):
                dn[:] = sorted(d for d in dn if d != "__pycache__")
                for f in sorted(fn):
                    if not f.endswith(".py"):
                        continue
                    path = os.path.join(dp, f)
                    rel = os.path.relpath(path, self.root)[:-3]
                    name = rel.replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[: -len(".__init__")]
                    try:
                        self.modules[name] = ModuleInfo(self, name, path)
                    except SyntaxError as e:
                        raise AnalysisBroken("cannot parse %s: %s" % (path, e))
        for m in list(self.modules.values()):
            m.collect()
        if not self.modules:
            raise AnalysisBroken("no modules under %s" % self.root)

    # ---- registration
    def add_func(self, module, node, qualname, cls=None, parent=None):
        key = id(node)
        fi = self._func_by_node.get(key)
        if fi is None:
            fi = FuncInfo(self, module, node, qualname, cls, parent)
            self._func_by_node[key] = fi
            self.funcs[fi.fid] = fi
        return fi

    def nested(self, parent, node):
        nm = "<lambda>" if isinstance(node, ast.Lambda) else node.name
        return self.add_func(
            parent.module, node, parent.qualname + ".<locals>." + nm,
            cls=parent.cls, parent=parent,
        )

    def add_class(self, module, node, qualname, parent_func=None):
        for c in self.classes.values():
            if c.node is node:
                return c
        ci = ClassInfo(self, module, node, qualname, parent_func)
        self.classes[ci.cid] = ci
        return ci

    # ---- static tests
    @staticmethod
    def static_if(test):
        """Value of ``sys.version_info`` / TYPE_CHECKING tests, else None."""
        import sys
        if isinstance(test, ast.Compare) and len(test.ops) == 1:
            l, r = test.left, test.comparators[0]
            if isinstance(l, ast.Attribute) and l.attr == "version_info":
                try:
                    rv = tuple(ast.literal_eval(r))
                except Exception:
                    return None
                lv = (3, 12, 3)
                op = test.ops[0]
                return {
                    ast.GtE: lv >= rv, ast.Gt: lv > rv, ast.Lt: lv < rv,
                    ast.LtE: lv <= rv,
                }.get(type(op))
            if isinstance(l, ast.Attribute) and l.attr == "platform":
                try:
                    rv = ast.literal_eval(r)
                except Exception:
                    return None
                if isinstance(test.ops[0], ast.Eq):
                    return rv == "linux"
                if isinstance(test.ops[0], ast.NotEq):
                    return rv != "linux"
            plat = isinstance(l, ast.Attribute) and l.attr == "platform" or \
                isinstance(l, ast.Call) and isinstance(
                    l.func, ast.Attribute) and l.func.attr == "system"
            if plat and isinstance(test.ops[0], (
                    ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                try:
                    rv = ast.literal_eval(r)
                except Exception:
                    return None
                rv = rv if isinstance(rv, (tuple, list, set)) else (rv,)
                here = bool({"linux", "Linux"} & set(rv))
                return here == isinstance(test.ops[0], (ast.Eq, ast.In))
        if isinstance(test, ast.Call) and isinstance(
                test.func, ast.Name) and test.func.id == "hasattr" and \
                len(test.args) == 2 and isinstance(
                    test.args[1], ast.Constant) and \
                test.args[1].value == "AF_UNIX":
            return True
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            v = Project.static_if(test.operand)
            return None if v is None else not v
        if isinstance(test, ast.Name) and test.id == "TYPE_CHECKING":
            return False
        if isinstance(test, ast.Attribute) and test.attr == "TYPE_CHECKING":
            return False
        return None

    # ---- name resolution
    @staticmethod
    def dotted(node):
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if isinstance(node, ast.Call):
            return Project.dotted(node.func)
        if isinstance(node, ast.Name):
            parts.append(node.id)
            return ".".join(reversed(parts))
        return None

    def symbol(self, module, name, _depth=0):
        """Resolve a global name of a module.

        -> ('func', FuncInfo) | ('class', ClassInfo) | ('mod', ModuleInfo)
         | ('ext', dotted) | ('value', module, node) | ('builtin', name) | None
        """
        if _depth > 12:
            return None
        s = module.symbols.get(name)
        if s is None:
            sub = self.modules.get(module.name + "." + name)
            if sub is not None:
                return ("mod", sub)
            if hasattr(builtins, name):
                return ("ext", ALIASES.get("builtins." + name, name))
            return None
        if s[0] in ("func", "class"):
            return s
        if s[0] == "modref":
            m = self.modules.get(s[1])
            if m is not None:
                return ("mod", m)
            return ("ext", s[1])
        if s[0] == "import":
            base, nm = s[1], s[2]
            m = self.modules.get(base)
            if m is not None:
                sub = self.modules.get(base + "." + nm)
                if nm in m.symbols:
                    return self.symbol(m, nm, _depth + 1)
                if sub is not None:
                    return ("mod", sub)
                return None
            q = base + "." + nm
            return ("ext", ALIASES.get(q, q))
        if s[0] == "value":
            # follow plain aliases
            r = None
            if isinstance(s[1], (ast.Name, ast.Attribute)):
                r = self.resolve_expr(module, s[1], _depth + 1)
                if r[0] in ("func", "class", "mod", "ext"):
                    return r
            return ("value", module, s[1])
        return None

    def resolve_expr(self, module, node, _depth=0):
        """Resolve Name/Attribute chains at module level; ('?', None) if not."""
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode="eval").body
            except SyntaxError:
                return ("?", None)
        if isinstance(node, ast.Name):
            r = self.symbol(module, node.id, _depth)
            return r if r is not None else ("?", None)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value, _depth)
            if b[0] == "mod":
                r = self.symbol(b[1], node.attr, _depth + 1)
                return r if r is not None else ("?", None)
            if b[0] == "ext":
                q = b[1] + "." + node.attr
                return ("ext", ALIASES.get(q, q))
            if b[0] == "class":
                m = b[1].find_method(node.attr)
                if m:
                    return ("func", m)
                return ("?", None)
            return ("?", None)
        if isinstance(node, ast.Subscript):
            return self.resolve_expr(module, node.value, _depth)
        return ("?", None)

    # ---- types
    def annotation_type(self, module, ann):
        if ann is None:
            return None
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript):
            head = self.dotted(ann.value)
            if head in (
                "Optional", "typing.Optional", "Final", "ClassVar", "Type",
            ):
                if head == "Type":
                    return None
                return self.annotation_type(module, ann.slice)
            if head in ("Union", "typing.Union"):
                elts = ann.slice.elts if isinstance(
                    ann.slice, ast.Tuple) else [ann.slice]
                ts = [self.annotation_type(module, e) for e in elts]
                ts = [t for t in ts if t and t != "None"]
                return ts[0] if len(ts) == 1 else None
            return self.annotation_type(module, ann.value)
        if isinstance(ann, ast.Constant) and ann.value is None:
            return "None"
        if isinstance(ann, (ast.Name, ast.Attribute)):
            r = self.resolve_expr(module, ann)
            if r[0] == "class":
                return r[1].cid
            if r[0] == "ext":
                t = r[1]
                return {
                    "typing.Set": "set", "typing.List": "list",
                    "typing.Dict": "dict", "typing.DefaultDict": "dict",
                    "typing.Deque": "collections.deque",
                    "typing.Any": None, "typing.Tuple": "tuple",
                    "typing.FrozenSet": "frozenset",
                    "typing.Callable": None,
                }.get(t, t)
        return None

    def elem_annotation(self, module, ann):
        """Element type of a container annotation, if it names one."""
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode="eval").body
            except SyntaxError:
                return None
        if not isinstance(ann, ast.Subscript):
            return None
        head = (self.dotted(ann.value) or "").rpartition(".")[2]
        if head in ("Optional", "Final", "ClassVar"):
            return self.elem_annotation(module, ann.slice)
        if head in ("Set", "List", "FrozenSet", "Deque", "Iterable",
                    "MutableSet", "Sequence", "Collection", "Iterator",
                    "set", "list", "frozenset", "deque", "AbstractSet"):
            return self.annotation_type(module, ann.slice)
        if head in ("Tuple", "tuple") and isinstance(
                ann.slice, ast.Tuple) and len(ann.slice.elts) == 2 and (
                isinstance(ann.slice.elts[1], ast.Constant)
                and ann.slice.elts[1].value is Ellipsis):
            return self.annotation_type(module, ann.slice.elts[0])
        return None

    def param_elem_type(self, func, name):
        a = func.node.args
        if a.vararg is not None and a.vararg.arg == name:
            return self.annotation_type(func.module, a.vararg.annotation)
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == name:
                return self.elem_annotation(func.module, p.annotation)
        return None

    def ctor_type(self, module, call, func=None):
        r = self.resolve_expr(module, call.func)
        if r[0] == "class":
            return r[1].cid
        if r[0] == "ext":
            last = r[1].rpartition(".")[2]
            if r[1] in ("list", "set", "dict", "frozenset", "tuple"):
                return r[1]
            if last[:1].isupper():
                return r[1]
            if r[1] == "collections.deque":
                return r[1]
            if r[1] == "collections.defaultdict":
                return "dict"
            if r[1] == "socket.socket":
                return r[1]
        if isinstance(call.func, ast.Attribute):
            t = RETURN_TYPES.get(call.func.attr)
            if t:
                return t
        return None

    def param_type(self, func, name):
        a = func.node.args
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.arg == name:
                return self.annotation_type(func.module, p.annotation)
        return None

    # ---- lookup helpers used by rules
    def cls(self, dotted):
        c = self.classes.get(dotted)
        if c is None:
            mod, _, nm = dotted.rpartition(".")
            m = self.modules.get(mod)
            if m is not None:
                r = self.symbol(m, nm)
                if r and r[0] == "class":
                    return r[1]
            raise AnalysisBroken("class %s not found" % dotted)
        return c

    def func(self, dotted):
        """module.func or module.Class.method (through the MRO)."""
        parts = dotted.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = self.modules.get(".".join(parts[:i]))
            if m is None:
                continue
            r = self.symbol(m, parts[i])
            rest = parts[i + 1:]
            if r is None:
                break
            if r[0] == "func" and not rest:
                return r[1]
            if r[0] == "class" and len(rest) == 1:
                f = r[1].find_method(rest[0])
                if f is None:
                    f = r[1].find_method(mangle(rest[0], r[1]))
                if f is not None:
                    return f
            break
        raise AnalysisBroken("function %s not found" % dotted)

    def subclasses(self, cid):
        return [
            c for c in self.classes.values()
            if c.cid != cid and c.is_subclass(cid)
        ]

    def all_functions(self):
        """Every function in the project, nested ones and lambdas included."""
        out = []
        for m in self.modules.values():
            self._walk_funcs(m, m.tree, "", None, None, out)
        return out

    def _walk_funcs(self, m, node, qual, cls, parent, out):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda)):
                nm = "<lambda>" if isinstance(c, ast.Lambda) else c.name
                if parent is not None:
                    fi = self.nested(parent, c)
                else:
                    fi = self.add_func(m, c, qual + nm, cls=cls)
                out.append(fi)
                self._walk_funcs(m, c, fi.qualname + ".<locals>.", cls, fi,
                                 out)
            elif isinstance(c, ast.ClassDef):
                ci = None
                for k in self.classes.values():
                    if k.node is c:
                        ci = k
                if ci is None:
                    ci = self.add_class(m, c, qual + c.name, parent)
                self._walk_funcs(m, c, qual + c.name + ".", ci, None, out)
            else:
                self._walk_funcs(m, c, qual, cls, parent, out)
