"""Abstract interpretation of the Python modules of the generator.

Functions are interpreted on their syntax trees over symbolic values; nothing
of /repo is imported or executed. Paths are enumerated: every undecided
condition splits a path, loops over containers whose content is not known are
summarised by one iteration for a generic element (or none), loops over known
content are unrolled, calls of functions of the analysed modules are inlined.

Values are terms (tuples) or Obj (containers, instances, functions). Terms:
  ("c", v)              constant
  ("sym", name)         input
  ("attr", t, name) ("item", t, key) ("el", container, L)
  ("call", name, args)  result of something unknown
  ("fstr", parts)       text
"""
import ast
import os
import re

from .frontend import AnalysisError, REPO

PYDIR = os.path.join(REPO, "python")
MAXPATHS = 20000
MAXDEPTH = 25


class Infeasible(Exception):
    pass


class Raised(Exception):
    def __init__(self, exc, where):
        Exception.__init__(self)
        self.exc, self.where = exc, where


class Return(Exception):
    def __init__(self, value):
        Exception.__init__(self)
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Obj:
    """something on the heap"""
    n = 0

    def __init__(self, kind, site, **kw):
        self.kind, self.site = kind, site
        self.items = []        # list, set: (value | ("ext", term), binders); dict: (key, value, binders)
        self.attrs = {}
        self.acc = []          # loops whose earlier iterations may have added to it
        self.depth = 0
        self.__dict__.update(kw)

    def __repr__(self):
        if self.kind in ("list", "set"):
            return "%s[%s]" % (self.kind, ", ".join(show(v) for v, b in self.items))
        if self.kind == "dict":
            return "{%s}" % ", ".join("%s: %s" % (show(k), show(v)) for k, v, b in self.items)
        if self.kind == "inst":
            return "%s(%s)" % (self.cls.name, ", ".join("%s=%s" % (k, show(v)) for k, v in sorted(self.attrs.items())))
        return "<%s %s>" % (self.kind, getattr(self, "name", self.site))


def C(v):
    return ("c", v)


def is_c(t):
    return isinstance(t, tuple) and t[0] == "c"


def show(t):
    if isinstance(t, Obj):
        return repr(t)
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "c":
        return repr(t[1])
    if k == "sym":
        return t[1]
    if k == "attr":
        return "%s.%s" % (show(t[1]), t[2])
    if k == "item":
        return "%s[%s]" % (show(t[1]), show(t[2]))
    if k == "el":
        return "element of %s" % show(t[1])
    if k == "tup":
        return "(%s)" % ", ".join(show(x) for x in t[1])
    if k == "not":
        return "not " + show(t[1])
    if k in ("in", "eq", "lt", "le"):
        return "%s %s %s" % (show(t[1]), {"in": "in", "eq": "==", "lt": "<", "le": "<="}[k], show(t[2]))
    if k == "truthy":
        return show(t[1])
    if k == "fstr":
        return "f'%s'" % "".join(p[1] if is_c(p) and isinstance(p[1], str) else "{%s}" % show(p) for p in t[1])
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(show(x) for x in t[2]))
    return "%s(%s)" % (k, ", ".join(show(x) if isinstance(x, (tuple, Obj)) else str(x) for x in t[1:]))


class Module:
    cache = {}

    def __init__(self, name, path):
        self.name, self.path = name, path
        try:
            with open(path, encoding="utf-8") as f:
                self.tree = ast.parse(f.read())
        except (OSError, SyntaxError) as e:
            raise AnalysisError("cannot read %s: %s" % (path, e))
        self.rel = os.path.relpath(path, REPO)
        self.defs, self.imports, self.assigns = {}, {}, {}
        for n in self.tree.body:
            self.top(n)

    def top(self, n):
        if isinstance(n, ast.FunctionDef):
            self.defs[n.name] = Obj("fn", n.name, name=n.name, node=n, mod=self, cls=None, env=None)
        elif isinstance(n, ast.ClassDef):
            self.defs[n.name] = Obj("cls", n.name, name=n.name, node=n, mod=self, outer=None)
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                self.imports[a.asname or a.name] = (n.module or "", a.name)
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.imports[a.asname or a.name.split(".")[0]] = (a.name, None)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.assigns[t.id] = n.value
        elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
            self.assigns[n.target.id] = n.value
        elif isinstance(n, (ast.If, ast.Try)):
            for x in n.body:
                self.top(x)


def module(name):
    if name not in Module.cache:
        p = os.path.join(PYDIR, *name.split(".")) + ".py"
        if not os.path.exists(p):
            return None
        Module.cache[name] = Module(name, p)
    return Module.cache[name]


class Outcome:
    def __init__(self, kind, value, run, where=""):
        self.kind, self.value, self.where = kind, value, where
        self.events, self.conds, self.run = run.events, run.conds, run

    def path(self):
        out = []
        for e in self.events:
            if e[0] == "br":
                out.append(("" if e[2] else "not ") + "(" + show(e[1]) + ")")
        return " and ".join(out) or "(unconditional)"


MUTATING = {"append", "extend", "add", "update", "insert", "remove", "pop", "clear", "setdefault", "discard", "sort", "reverse"}
BASES = {"FileNotFoundError": ("OSError", "IOError", "EnvironmentError"), "UnicodeDecodeError": ("UnicodeError", "ValueError"),
         "KeyError": ("LookupError",), "IndexError": ("LookupError",)}
SEQ = ("list", "tuple", "set", "sorted", "frozenset", "iter", "reversed")


class Py:
    """Interprets functions; mode "solo": of the loops (over unknown content)
    next to each other at most one is entered on a path; "once": all are"""

    def __init__(self, mode="solo", opaque=(), scenario=None, raising=None, strict=False, hook=None, copies=False):
        self.copies = copies             # copies of unknown things are told from them
        self.hook = hook                 # hook(run, name, args, kw, where): the value of a call of something unknown, or None
        self.mode, self.opaque = "scenario" if scenario else mode, set(opaque)
        self.scenario = scenario
        self.raising = raising or {}     # opaque function -> exceptions it may raise
        self.learned = set()
        self.strict = strict             # instances only have the attributes that were set

    # ------------------------------------------------------------ exploration
    def explore(self, start):
        """all paths of start(run)"""
        while True:
            before = len(self.learned)
            outs, stack = [], [[]]
            while stack:
                dec = stack.pop()
                run = Run(self, dec)
                try:
                    v = start(run)
                    outs.append(Outcome("ret", v, run))
                except Raised as e:
                    outs.append(Outcome("raise", e.exc, run, e.where))
                except Infeasible:
                    pass
                for i in range(len(dec), len(run.taken)):
                    c, n = run.taken[i]
                    for alt in range(c + 1, n):
                        stack.append([x[0] for x in run.taken[:i]] + [alt])
                if len(outs) + len(stack) > MAXPATHS:
                    raise AnalysisError("too many paths in the generator code")
            if len(self.learned) == before:
                return outs

    def function(self, fn, args, kwargs=None):
        return self.explore(lambda r: r.call(fn, args() if callable(args) else args, (kwargs() if callable(kwargs) else kwargs) or {}, None))


class Frame:
    def __init__(self, fn, mod, env, parent=None):
        self.fn, self.mod, self.env, self.parent = fn, mod, env, parent


class Run:
    """one path"""

    def __init__(self, eng, dec):
        self.eng, self.dec = eng, dec
        self.taken = []
        self.conds, self.events = {}, []
        self.loops = []          # (L, container) that are open
        self.entered = [False]   # per nesting level
        self.overlay = {}        # changes of symbolic containers
        self.depth = 0
        self.handlers = []       # names of exceptions that someone handles
        self.sites = {}
        self.alive = []
        self.called = set()      # functions that were interpreted
        self.free = []           # atoms that nothing decides

    # -------------------------------------------------------------- decisions
    def choose(self, n):
        i = len(self.taken)
        c = self.dec[i] if i < len(self.dec) else 0
        self.taken.append((c, n))
        return c

    def decide(self, atom, where=""):
        while isinstance(atom, tuple) and atom[0] == "not":
            return not self.decide(atom[1], where)
        if atom in self.conds:
            return self.conds[atom]
        v = self.eng.scenario.decide(atom) if self.eng.scenario else None
        if v is None:
            v = self.choose(2) == 0
            self.free.append(atom)
        self.conds[atom] = v
        self.events.append(("br", atom, v, where))
        return v

    def new(self, kind, node, **kw):
        s = (kind, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        k = self.sites[s] = self.sites.get(s, 0) + 1
        o = Obj(kind, s + (k,), **kw)
        o.depth = len(self.loops)
        self.alive.append(o)
        return o

    def mutated(self, o):
        for L, X in self.loops[o.depth:]:
            self.eng.learned.add((L[0], o.site))

    # ------------------------------------------------------------------ truth
    def truth(self, v, where=""):
        if isinstance(v, bool):
            return v
        if isinstance(v, Obj):
            if v.kind == "comp":
                return self.comp_truth(v)
            if v.kind in ("list", "set", "dict"):
                vals = [x[0] for x in v.items]
                if any(not (isinstance(x, tuple) and x[0] == "ext") for x in vals if v.kind != "dict") or (v.kind == "dict" and vals):
                    return True
                exts = [x[1] for x in vals]
                if not exts and not v.acc:
                    return False
                for x in exts:
                    if self.truth(x):
                        return True
                return bool(v.acc) and self.decide(("truthy", ("prev", v)))
            return True
        if v[0] == "c":
            return bool(v[1])
        if v[0] == "tup":
            return bool(v[1])
        if v[0] == "not":
            return not self.truth(v[1], where)
        if v[0] == "bin" and v[1] == "BitOr":
            return self.truth(v[2], where) or self.truth(v[3], where)
        if v[0] in ("in", "eq", "lt", "le", "isinst", "isnone"):
            return self.decide(v, where)
        while v[0] in ("keys", "seq"):
            v = v[-1]
            if isinstance(v, Obj) or v[0] in ("c", "tup"):
                return self.truth(v, where)
        if v[0] == "setop":
            return self.setop_truth(v)
        if v[0] == "fstr":
            return True
        return self.decide(("truthy", v), where)

    def comp_truth(self, v):
        """is there an element that a comprehension would yield"""
        res = {}

        def found(val):
            res["hit"] = val
        if self.choose(2) == 0:
            # none: generic elements do not pass the filters
            def no(val):
                raise Infeasible()
            self.run_comp(v, no, force=None)
            return False
        self.run_comp(v, found, force=True)
        if "hit" not in res:
            raise Infeasible()
        return True

    def setop_truth(self, v):
        op, a, b = v[1:]
        if op == "-":
            if self.choose(2) == 0:
                def no(x):
                    if not self.contains(x, b):
                        raise Infeasible()
                self.each(a, no, None)
                return False
            ok, depth = [], len(self.loops)

            def some(x):
                if self.contains(x, b):
                    if len(self.loops) > depth:
                        raise Infeasible()
                    return
                ok.append(x)
            self.each(a, some, None, force=True)
            if not ok:
                raise Infeasible()
            return True
        return self.decide(("truthy", v))

    # ------------------------------------------------------------- containers
    def base(self, t):
        """the container that a view or copy has the elements of"""
        while isinstance(t, tuple) and (t[0] in ("keys",) or t[0] == "seq"):
            t = t[-1]
        return t

    def contains(self, x, c, where=""):
        c = self.base(c)
        if isinstance(c, Obj):
            if c.kind == "comp":
                hit = []

                def see(v):
                    hit.append(self.equal(x, v))
                self.run_comp(c, see, force=None)
                return any(hit)
            if c.kind in ("list", "set", "dict"):
                for it in c.items:
                    if isinstance(it[0], tuple) and it[0][0] == "ext":
                        if self.contains(x, it[0][1], where):
                            return True
                    elif self.equal(x, it[0], where, quiet=it[-1]):
                        return True
                for L in c.acc:
                    if self.decide(("in", x, ("prev", c, L)), where):
                        return True
                if self.eng.scenario and is_other(x) and any(len(it[-1]) > c.depth for it in c.items):
                    return self.decide(("in", x, ("prev", c)), where)
                return False
            return self.decide(("in", x, c), where)
        if c[0] == "tup":
            if is_c(x) and all(is_c(y) for y in c[1]):
                return any(x[1] == y[1] for y in c[1])
            if all(is_c(y) for y in c[1]):
                for y in c[1]:
                    if self.conds.get(eq(x, y)):
                        return True
                return self.decide(("in", x, ("tup", tuple(sorted(c[1], key=repr)))), where)
            return any([self.equal(x, y, where) for y in c[1]])
        if c[0] == "c":
            if is_c(x) and isinstance(c[1], (str, tuple)):
                try:
                    return x[1] in c[1]
                except TypeError:
                    pass
        if c[0] == "setop":
            op, a, b = c[1:]
            if op == "-":
                return self.contains(x, a, where) and not self.contains(x, b, where)
            if op == "&":
                return self.contains(x, a, where) and self.contains(x, b, where)
            if op == "|":
                return self.contains(x, a, where) or self.contains(x, b, where)
        if x[:2] == ("el", c) if isinstance(x, tuple) else False:
            return True
        ov = self.overlay.get(("key", c, x))
        if ov is not None:
            return ov
        return self.decide(("in", x, c), where)

    def equal(self, a, b, where="", quiet=None):
        if a is b or (not isinstance(a, Obj) and not isinstance(b, Obj) and a == b):
            return True
        if is_c(a) and is_c(b):
            return a[1] == b[1]
        if isinstance(a, Obj) or isinstance(b, Obj):
            oa, ob = isinstance(a, Obj), isinstance(b, Obj)
            if oa and ob and a.kind in ("fn", "cls") and b.kind in ("fn", "cls"):
                return False
            if oa and ob and a.kind == b.kind == "inst" and self.by_identity(a.cls) and self.by_identity(b.cls):
                return False
            return self.decide(("eq", a, b), where)
        if a[0] == "enum" and b[0] == "enum":
            return False
        if a[0] == "tup" and b[0] == "tup":
            return len(a[1]) == len(b[1]) and all(self.equal(x, y, where) for x, y in zip(a[1], b[1]))
        if is_c(a) or is_c(b):
            x, k = (b, a) if is_c(a) else (a, b)
            for at, v in self.conds.items():
                if v and at[0] == "in" and at[1] == x and at[2][0] == "tup" and k not in at[2][1]:
                    return False
                if v and at[0] == "eq" and at != eq(x, k) and x in at[1:] and any(is_c(y) for y in at[1:]):
                    return False
                if not v and at[0] == "in" and at[1] == x and at[2][0] == "tup" and k in at[2][1]:
                    return False
        return self.decide(eq(a, b), where)

    def by_identity(self, cls):
        """are the instances of the class only equal to themselves"""
        return all(not c.node.decorator_list and not any(isinstance(n, ast.FunctionDef) and n.name == "__eq__" for n in c.node.body)
                   for c in self.mro(cls)) and not self.basenames(cls) & {"NamedTuple", "Enum", "IntEnum", "str", "tuple"}

    def each(self, c, body, node, force=None, key=None):
        """runs body(element) for the elements of c"""
        if isinstance(c, tuple) and c[0] == "seq":
            c = c[-1]
        if isinstance(c, tuple) and c[0] == "enum":
            n = [0]

            def with_index(v):
                body(("tup", (("idx", show(c[1]), n[0]), v)))
                n[0] += 1
            return self.each(c[1], with_index, node, force)
        if isinstance(c, tuple) and c[0] == "items" and isinstance(c[1], tuple):
            return self.sym_loop(c[1], lambda e: body(("tup", (e, self.item(c[1], e, node)))), node, force)
        if isinstance(c, tuple) and c[0] == "values" and isinstance(c[1], tuple):
            return self.sym_loop(c[1], lambda e: body(self.item(c[1], e, node)), node, force)
        if isinstance(c, tuple) and c[0] in ("items", "values", "keys") and isinstance(c[1], Obj):
            d = c[1]
            for k, v, b in list(d.items):
                val = ("tup", (k, v)) if c[0] == "items" else k if c[0] == "keys" else v
                if len(b) > 0:
                    self.bound_loop(d, val, b, body, node, force)
                else:
                    body(val)
            return None
        if isinstance(c, tuple) and c[0] == "tup":
            for x in c[1]:
                body(x)
            return None
        if isinstance(c, tuple) and c[0] == "setop" and c[1] in ("-", "&", "|", "^"):
            op, a, b = c[1:]

            def filtered(x):
                if op == "|" or self.contains(x, b) == (op == "&"):
                    body(x)
            self.each(a, filtered, node, force)
            if op in ("|", "^"):
                def rest(x):
                    if not self.contains(x, a):
                        body(x)
                self.each(b, rest, node, force)
            return None
        if isinstance(c, tuple) and c[0] == "chain":
            for x in c[1]:
                self.each(x, body, node, force)
            return None
        if isinstance(c, Obj):
            if c.kind == "comp":
                return self.run_comp(c, body, force=force)
            if c.kind == "dict":
                return self.each(("keys", c), body, node, force)
            if c.kind in ("list", "set"):
                for v, b in list(c.items):
                    if isinstance(v, tuple) and v[0] == "ext":
                        self.each(v[1], body, node, force)
                    elif len(b) > c.depth:
                        self.bound_loop(c, v, b, body, node, force)
                    else:
                        body(v)
                return None
            raise AnalysisError("iteration over %r" % c)
        if is_c(c):
            if isinstance(c[1], (str, tuple, list)):
                for x in c[1]:
                    body(C(x))
                return None
            raise Raised(("exc", "TypeError", ()), self.where(node))
        return self.sym_loop(self.base(c), body, node, force)

    def bound_loop(self, c, v, binders, body, node, force):
        """elements that a summarised loop has added to a container"""
        L = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), len(self.loops), "b", show(v))
        if self.eng.scenario and force is None and isinstance(node, ast.For) and isinstance(v, tuple) and leaves(node) and self.choose(2) == 1:
            # another element comes before and ends the loop
            other = another(v, binders)
            if other == v:
                raise Infeasible()
            self.leave(L, c, lambda: body(other))
            raise Infeasible()
        if not self.enter(L, c, force):
            return
        self.leave(L, c, lambda: body(v))

    def sym_loop(self, c, body, node, force):
        L = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), len(self.loops))
        el = ("el", c, L)
        if self.eng.scenario:
            known = self.eng.scenario.elements(c)
            if known is not None:
                for k in known:
                    body(C(k))
                return
            other = ("el", c, L + ("other",))
            if force is True and (not self.eng.scenario.enter(c) or self.choose(2) == 1):
                el = other
            elif force is None and isinstance(node, ast.For) and leaves(node) and self.choose(2) == 1:
                # another element comes before and ends the loop
                self.leave(L, c, lambda: body(other))
                raise Infeasible()
        if not self.enter(L, c, force):
            return
        self.leave(L, c, lambda: body(el))

    def enter(self, L, c, force):
        if force is True:
            go = True
        elif self.eng.mode == "once":
            go = True
        elif self.eng.mode == "scenario":
            go = self.eng.scenario.enter(c)
        elif self.entered[-1]:
            go = False
        else:
            go = self.choose(2) == 0
        if not go:
            self.events.append(("skip", L, c))
            return False
        self.entered[-1] = True
        return True

    def leave(self, L, c, go):
        self.events.append(("loop", L, c))
        for o in self.alive:
            if (L[0], o.site) in self.eng.learned and L not in o.acc:
                o.acc.append(L)
        self.loops.append((L, c))
        self.entered.append(False)
        try:
            go()
            self.events.append(("endloop", L, c))
        except Continue:
            self.events.append(("endloop", L, c))
        except Break:
            self.events.append(("break", L, c))
            raise
        finally:
            self.loops.pop()
            self.entered.pop()

    def run_comp(self, comp, emit, force=None):
        node, fr = comp.node, comp.frame
        env = dict(fr.env)
        sub = Frame(fr.fn, fr.mod, env, fr.parent)

        def gen(i):
            if i == len(node.generators):
                if isinstance(node, ast.DictComp):
                    emit(("tup", (self.ev(node.key, sub), self.ev(node.value, sub))))
                else:
                    emit(self.ev(node.elt, sub))
                return
            g = node.generators[i]
            src = comp.first if i == 0 else self.ev(g.iter, sub)

            def one(v):
                self.bind(g.target, v, sub)
                for f in g.ifs:
                    if not self.truth(self.ev(f, sub), self.where(f)):
                        return
                gen(i + 1)
            self.each(src, one, g.iter, force)
        gen(0)

    def force_comp(self, comp, kind="list"):
        """a comprehension as a container"""
        out = self.new(kind, comp.node)

        def add(v):
            b = tuple(self.loops)[out.depth:]
            if kind == "dict":
                out.items.append((v[1][0], v[1][1], b))
            else:
                out.items.append((v, tuple(self.loops)))
        self.run_comp(comp, add)
        return out

    def item(self, o, k, node):
        if isinstance(o, Obj):
            if o.kind == "dict":
                for kk, v, b in reversed(o.items):
                    if kk == k:
                        return v
                syms = [x for x in o.items if not (is_c(x[0]) and is_c(k))]
                for kk, v, b in reversed(syms):
                    if self.equal(k, kk):
                        return v
                return ("item", o, k)
            if o.kind == "list":
                if is_c(k) and isinstance(k[1], int) and all(not (isinstance(v, tuple) and v[0] == "ext") and len(b) <= o.depth for v, b in o.items):
                    if -len(o.items) <= k[1] < len(o.items):
                        return o.items[k[1]][0]
                return ("item", o, k)
            return ("item", o, k)
        if o[0] == "tup" and is_c(k) and isinstance(k[1], int) and -len(o[1]) <= k[1] < len(o[1]):
            return o[1][k[1]]
        if o[0] == "c" and is_c(k):
            try:
                return C(o[1][k[1]])
            except Exception:
                raise Raised(("exc", "IndexError", ()), self.where(node))
        if (o, k) in self.overlay:
            return self.overlay[(o, k)]
        if any("KeyError" in h or "*" in h for h in self.handlers) and not (isinstance(k, tuple) and k[:2] == ("el", o)):
            if not self.contains(k, o):
                raise Raised(("exc", "KeyError", ()), self.where(node))
        return ("item", o, k)

    def setitem(self, o, k, v):
        if isinstance(o, Obj):
            self.mutated(o)
            if o.kind == "dict":
                b = tuple(self.loops)[o.depth:]
                for i, (kk, vv, bb) in enumerate(o.items):
                    if kk == k:
                        o.items[i] = (k, v, b)
                        return
                o.items.append((k, v, b))
            return
        self.overlay[(o, k)] = v
        self.overlay[("key", o, k)] = True
        self.conds[("in", k, o)] = True

    # ---------------------------------------------------------------- helpers
    def where(self, n):
        f = self.stack[-1] if getattr(self, "stack", None) else None
        return "%s:%d" % (f.mod.rel if f else "?", getattr(n, "lineno", 0))

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.parent
        return self.glob(name, fr.mod)

    def glob(self, name, mod):
        if name in mod.defs:
            return mod.defs[name]
        if name in mod.assigns:
            return self.ev(mod.assigns[name], Frame(None, mod, {}))
        if name in mod.imports:
            m, n = mod.imports[name]
            if n is None:
                return ("ext", m)
            other = module(m)
            if other is not None:
                if n in other.defs or n in other.assigns or n in other.imports:
                    return self.glob(n, other)
            return ("ext", m + "." + n)
        return ("ext", name)

    def mro(self, cls):
        out = [cls]
        for b in cls.node.bases:
            v = self.ev(b, Frame(None, cls.mod, {}))
            if isinstance(v, Obj) and v.kind == "cls":
                out += self.mro(v)
        return out

    def basenames(self, cls):
        out = set()
        for c in self.mro(cls):
            out.add(c.name)
            for b in c.node.bases:
                out.add(ast.unparse(b).split(".")[-1])
        return out

    def member(self, cls, name):
        for c in self.mro(cls):
            for n in c.node.body:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    decos = [ast.unparse(d) for d in n.decorator_list]
                    return Obj("fn", name, name=name, node=n, mod=c.mod, cls=c, env=None, decos=decos)
                if isinstance(n, ast.ClassDef) and n.name == name:
                    return Obj("cls", name, name=name, node=n, mod=c.mod, outer=c)
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    return self.ev(n.value, Frame(None, c.mod, self.classenv(c, n)))
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                    return self.ev(n.value, Frame(None, c.mod, self.classenv(c, n)))
        return None

    def classenv(self, c, upto):
        env = {}

        class Lazy(dict):
            def __contains__(s, k):
                return any(isinstance(n, ast.Assign) and n is not upto and any(isinstance(t, ast.Name) and t.id == k for t in n.targets)
                           for n in c.node.body)

            def __getitem__(s, k):
                return self.member(c, k)
        return Lazy(env)

    def getattr(self, o, name, node):
        if isinstance(o, Obj):
            if o.kind == "inst":
                if name in o.attrs:
                    return o.attrs[name]
                m = self.member(o.cls, name)
                if m is not None:
                    if isinstance(m, Obj) and m.kind == "fn":
                        if "property" in m.decos or "cached_property" in m.decos:
                            return self.call(m, [o], {}, node)
                        if "staticmethod" in m.decos:
                            return m
                        if "classmethod" in m.decos:
                            return Obj("bm", name, fn=m, self_=o.cls, name=name)
                        return Obj("bm", name, fn=m, self_=o, name=name)
                    return m
                if self.eng.strict and getattr(o, "sym", None) is None:
                    raise Raised(("exc", "AttributeError", ()), self.where(node) if node is not None else "")
                return ("attr", getattr(o, "sym", None) or o, name)
            if o.kind == "cls":
                if "IntEnum" in self.basenames(o) or "Enum" in self.basenames(o):
                    m = self.member(o, name)
                    if m is not None and not (isinstance(m, Obj)):
                        return ("enum", o.name, name)
                m = self.member(o, name)
                if m is not None:
                    if isinstance(m, Obj) and m.kind == "fn":
                        if "classmethod" in m.decos:
                            return Obj("bm", name, fn=m, self_=o, name=name)
                    return m
                if name == "__name__":
                    return C(o.name)
            return Obj("bm", name, fn=None, self_=o, name=name)
        if o[0] == "ext":
            return ("ext", o[1] + "." + name)
        if (o, "." + name) in self.overlay:
            return self.overlay[(o, "." + name)]
        return ("attr", o, name)

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw, node, star=False):
        if isinstance(f, Obj):
            if f.kind == "bm" and f.fn is not None:
                return self.call(f.fn, [f.self_] + list(args), kw, node)
            if f.kind == "bm":
                return self.method(f.self_, f.name, args, kw, node)
            if f.kind == "fn":
                if f.name in self.eng.opaque:
                    t = ("call", f.name, tuple(args) + tuple(v for k, v in sorted(kw.items())))
                    self.events.append(("call", f.name, tuple(args), self.where(node), kw, t))
                    for x in self.eng.raising.get(f.name, ()):
                        if self.choose(2) == 1:
                            self.events.append(("raised", f.name, x))
                            raise Raised(("exc", x, ()), self.where(node))
                    return t
                return self.inline(f, args, kw, node)
            if f.kind == "lam":
                env = {}
                for p, a in zip(f.node.args.args, args):
                    env[p.arg] = a
                return self.ev(f.node.body, Frame(f.frame.fn, f.frame.mod, env, f.frame))
            if f.kind == "cls":
                return self.construct(f, args, kw, node)
            raise AnalysisError("call of %r" % f)
        if f[0] == "ext":
            return self.builtin(f[1], args, kw, node)
        if f[0] == "attr":
            return self.method(f[1], f[2], args, kw, node)
        t = ("call", show(f), tuple(args))
        self.events.append(("call", show(f), tuple(args), self.where(node), kw, t))
        return self.hooked(show(f), args, kw, node, t)

    def hooked(self, name, args, kw, node, t):
        if self.eng.hook is None:
            return t
        v = self.eng.hook(self, name, args, kw, self.where(node) if node is not None else "")
        return t if v is None else v

    def construct(self, cls, args, kw, node):
        bn = self.basenames(cls)
        if "Exception" in bn:
            return ("exc", cls.name, tuple(args))
        o = self.new("inst", node, cls=cls)
        init = self.member(cls, "__init__")
        if init is not None and isinstance(init, Obj):
            if cls.name in self.eng.opaque:
                o.args = tuple(args)
                o.kw = kw
            else:
                self.call(init, [o] + list(args), kw, node)
            return o
        # dataclass, NamedTuple
        fields = []
        for c in reversed(self.mro(cls)):
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    fields.append((n.target.id, n.value, c))
        for (nm, dv, c), a in zip(fields, args):
            o.attrs[nm] = a
        o.attrs.update(kw)
        for nm, dv, c in fields:
            if nm not in o.attrs and dv is not None:
                o.attrs[nm] = self.ev(dv, Frame(None, c.mod, {}))
        return o

    def inline(self, f, args, kw, node):
        if self.depth >= MAXDEPTH:
            return ("call", f.name, tuple(args))
        a = f.node.args
        env = {}
        names = [p.arg for p in a.posonlyargs + a.args]
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = ("tup", tuple(args[len(names):]))
        rest = {}
        for k, v in kw.items():
            if k in names or any(p.arg == k for p in a.kwonlyargs):
                env[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            d = self.new("dict", f.node)
            for k, v in rest.items():
                d.items.append((C(k), v, ()))
            env[a.kwarg.arg] = d
        dfr = Frame(None, f.mod, self.classenv(f.cls, None) if f.cls else {})
        for p, dv in zip(reversed(a.posonlyargs + a.args), reversed(a.defaults)):
            if p.arg not in env:
                env[p.arg] = self.ev(dv, dfr)
        for p, dv in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and dv is not None:
                env[p.arg] = self.ev(dv, dfr)
        for n in names:
            if n not in env:
                env[n] = ("sym", n)
        fr = Frame(f, f.mod, env, f.env)
        if not hasattr(self, "stack"):
            self.stack = []
        self.stack.append(fr)
        self.called.add("%s:%s" % (f.mod.name, (f.cls.name + "." if f.cls else "") + f.name))
        self.depth += 1
        keep, self.entered = self.entered, self.entered
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(f.node))
        out = None
        if gen:
            out = self.new("list", f.node)
            fr.env["*yield"] = out
        try:
            self.block(f.node.body, fr)
            return out if gen else C(None)
        except Return as r:
            return out if gen else r.value
        finally:
            self.stack.pop()
            self.depth -= 1

    def unknown(self, name, args, kw, node):
        t = ("call", name, tuple(args) + tuple(("kw", k, v) for k, v in sorted(kw.items())))
        self.events.append(("call", name, tuple(args), self.where(node) if node is not None else "", kw, t))
        return self.hooked(name, args, kw, node, t)

    def builtin(self, name, args, kw, node):
        short = name.split(".")[-1]
        a = args[0] if args else None
        if name in ("list", "tuple", "set", "sorted", "frozenset", "iter", "reversed"):
            kind = "set" if name in ("set", "frozenset") else "list"
            if a is None:
                return self.new(kind, node)
            if isinstance(a, tuple) and a[0] == "keys":
                a = a[1]
            if isinstance(a, Obj) and a.kind == "comp":
                a = self.force_comp(a, kind)
                if name == "sorted":
                    a.sorted = True
                    if kw and a.kind == "list":
                        self.container_method(a, "sort", [], kw, node)
                return a
            if isinstance(a, Obj) and a.kind in ("list", "set", "dict"):
                o = self.new(kind, node)
                pre = tuple(self.loops)[:a.depth] if a.kind == "dict" else ()
                o.items = [(x[0], pre + x[-1]) for x in a.items]
                o.acc = list(a.acc)
                if name == "sorted" and kw:
                    self.container_method(o, "sort", [], kw, node)
                return o
            if isinstance(a, tuple) and a[0] in ("tup",):
                o = self.new(kind, node)
                o.items = [(x, ()) for x in a[1]]
                return o
            if isinstance(a, tuple) and a[0] == "seq":
                a = a[-1]
            if name == "set" or name == "frozenset":
                return ("seq", "set", a)
            if name == "list":
                o = self.new("list", node)
                o.items = [(("ext", a), ())]
                return o
            return ("seq", name, a)
        if name == "dict" and isinstance(a, Obj) and a.kind == "comp":
            return self.force_comp(a, "dict")
        if name == "dict":
            o = self.new("dict", node)
            if isinstance(a, Obj) and a.kind == "dict":
                o.items = list(a.items)
            elif a is not None:
                return a
            for k, v in kw.items():
                o.items.append((C(k), v, ()))
            return o
        if name in ("any", "all"):
            return self.quantifier(name, a, node)
        if name == "re.compile" and is_c(a):
            return ("regex", a[1])
        if name == "isinstance":
            return self.isinstance(a, args[1])
        if name == "len":
            if isinstance(a, Obj) and a.kind in ("list", "set", "dict") and not a.acc and \
                    all(not (isinstance(x[0], tuple) and x[0][0] == "ext") and len(x[-1]) <= a.depth for x in a.items) and a.kind != "set":
                return C(len(a.items))
            if isinstance(a, Obj) and a.kind == "comp":
                return ("len", a)
            if is_c(a) and hasattr(a[1], "__len__"):
                return C(len(a[1]))
            if isinstance(a, tuple) and a[0] == "tup":
                return C(len(a[1]))
            return ("len", a)
        if name == "bool":
            return C(self.truth(a))
        if name in ("copy.deepcopy", "deepcopy", "copy.copy"):
            return self.copy(a, node)
        if name == "enumerate":
            return ("enum", a)
        if name in ("itertools.chain", "chain"):
            return ("chain", tuple(args))
        if name == "getattr" and len(args) >= 2 and is_c(args[1]):
            return self.getattr(a, args[1][1], node)
        if name == "hasattr":
            return C(self.decide(("has", a, args[1])))
        if name == "zip":
            if all(isinstance(x, tuple) and x[0] == "tup" for x in args):
                return ("tup", tuple(("tup", t) for t in zip(*[x[1] for x in args])))
            return self.unknown(name, args, kw, node)
        if name == "int":
            if is_c(a):
                try:
                    return C(int(a[1]))
                except (ValueError, TypeError):
                    raise Raised(("exc", "ValueError", ()), self.where(node))
            if any("ValueError" in h for h in self.handlers) and self.decide(("notint", a)):
                raise Raised(("exc", "ValueError", ()), self.where(node))
            return ("int", a)
        if name == "str":
            if is_c(a):
                return C(str(a[1]))
            return ("fstr", (a,))
        if name == "super":
            fr = self.stack[-1]
            return ("super", fr.fn.cls, fr.env[fr.fn.node.args.args[0].arg])
        if name == "sys.exit" or name == "exit":
            raise Raised(("exc", "SystemExit", tuple(args)), self.where(node))
        if name in ("Exception", "ValueError", "KeyError", "TypeError", "RuntimeError", "NotImplementedError", "AttributeError", "IndexError", "FileNotFoundError"):
            return ("exc", name, tuple(args))
        return self.unknown(name, args, kw, node)

    def copy(self, a, node):
        if isinstance(a, Obj) and a.kind in ("list", "set", "dict"):
            o = self.new(a.kind, node)
            o.items = list(a.items)
            o.acc = list(a.acc)
            return o
        return ("copy", a) if self.eng.copies and not is_c(a) else a

    def quantifier(self, name, a, node):
        if isinstance(a, Obj) and a.kind == "comp":
            want = name == "any"
            if self.choose(2) == 0:
                # for all elements the opposite
                def other(v):
                    if self.truth(v) == want:
                        raise Infeasible()
                self.run_comp(a, other)
                return C(not want)
            hit, depth = [], len(self.loops)

            def some(v):
                if self.truth(v) != want:
                    if not hit and len(self.loops) > depth:
                        raise Infeasible()
                    return
                hit.append(1)
            self.run_comp(a, some, force=True)
            if not hit:
                raise Infeasible()
            return C(want)
        vals = []
        if isinstance(a, Obj) and a.kind in ("list", "set") or isinstance(a, tuple) and a[0] == "tup":
            self.each(a, lambda v: vals.append(self.truth(v)), node)
            return C(any(vals) if name == "any" else all(vals))
        return self.unknown(name, [a], {}, node)

    def isinstance(self, x, cls):
        cs = cls[1] if isinstance(cls, tuple) and cls[0] == "tup" else (cls,)
        for c in cs:
            if isinstance(c, Obj) and isinstance(x, Obj) and x.kind == "inst":
                if any(m.name == c.name for m in self.mro(x.cls)):
                    return C(True)
                continue
            nm = c.name if isinstance(c, Obj) else show(c)
            if isinstance(x, Obj):
                if x.kind == nm:
                    return C(True)
                continue
            # a value has one class
            known = [a[2] for a, v in self.conds.items() if v and a[0] == "isinst" and a[1] == x]
            if known and nm not in known and not any(nm in getattr(self, "supers", {}).get(k, ()) for k in known):
                continue
            if self.decide(("isinst", x, nm)):
                return C(True)
        return C(False)

    def method(self, o, name, args, kw, node):
        a = args[0] if args else None
        if isinstance(o, tuple) and o[0] == "super":
            for c in self.mro(o[1])[1:]:
                m = self.member(c, name)
                if isinstance(m, Obj) and m.kind == "fn":
                    return self.call(m, [o[2]] + list(args), kw, node)
            return C(None)
        if isinstance(o, Obj) and o.kind == "inst":
            return self.unknown("%s.%s" % (o.cls.name, name), [o] + list(args), kw, node)
        if isinstance(o, Obj) and o.kind == "comp":
            if name in MUTATING:
                f = self.force_comp(o, "set" if isinstance(o.node, ast.SetComp) else "list")
                o.kind, o.items, o.acc, o.depth = f.kind, f.items, f.acc, f.depth
            else:
                o = self.force_comp(o)
        if name == "keys" and not args:
            return ("keys", o) if isinstance(o, tuple) or o.kind == "dict" else o
        if name in ("items", "values") and not args:
            return (name, o)
        if isinstance(o, tuple) and o[0] == "regex" and name in ("match", "search", "fullmatch") and is_c(a):
            return C(True if getattr(re.compile(o[1]), name)(a[1]) else None)
        if name == "get" and args:
            return self.get(o, a, args[1] if len(args) > 1 else C(None), node)
        if name == "copy" and not args:
            if isinstance(o, Obj):
                return self.copy(o, node)
            c = self.new("list", node)
            c.items = [(("ext", o), ())]
            c.copyof = o
            return c
        if name in ("difference", "intersection", "union", "symmetric_difference") and args:
            op = {"difference": "-", "intersection": "&", "union": "|", "symmetric_difference": "^"}[name]
            return ("setop", op, norm_set(o), norm_set(a))
        if name == "issubset":
            return C(not self.setop_truth(("setop", "-", norm_set(o), norm_set(a))))
        if name == "issuperset":
            return C(not self.setop_truth(("setop", "-", norm_set(a), norm_set(o))))
        if isinstance(o, Obj) and o.kind in ("list", "set", "dict"):
            r = self.container_method(o, name, args, kw, node)
            if r is not None:
                return r
        if isinstance(o, tuple) and o[0] == "c" and isinstance(o[1], str):
            if name == "join" and args:
                if isinstance(a, Obj) and a.kind == "comp":
                    a = self.force_comp(a)
                return ("call", "str.join", (o, a))
            if all(is_c(x) for x in args) and not kw and name in ("replace", "split", "strip", "startswith", "endswith", "lower", "upper",
                                                                  "lstrip", "rstrip", "rsplit", "find", "format", "title", "capitalize"):
                r = getattr(o[1], name)(*[x[1] for x in args])
                if isinstance(r, list):
                    return ("tup", tuple(C(x) for x in r))
                return C(r)
        if isinstance(o, tuple) and o[0] not in ("c", "call", "fstr") and name in MUTATING:
            self.events.append(("change", name, o, tuple(args), self.where(node)))
            if name == "pop" and args:
                v = self.item(o, a, node) if len(args) < 2 else self.get(o, a, args[1], node)
                self.overlay[("key", o, a)] = False
                return v
            if name == "setdefault":
                return self.get(o, a, args[1] if len(args) > 1 else C(None), node)
            return C(None)
        t = ("call", "." + name, (o,) + tuple(args) + tuple(("kw", k, v) for k, v in sorted(kw.items())))
        self.events.append(("call", "." + name, (o,) + tuple(args), self.where(node), kw, t))
        return self.hooked("." + name, [o] + list(args), kw, node, t)

    def get(self, o, k, default, node):
        if isinstance(o, Obj) and o.kind == "dict":
            for kk, v, b in reversed(o.items):
                if kk == k or self.equal(kk, k, quiet=b):
                    return v
            if o.acc and self.decide(("in", k, ("prev", o, o.acc[-1]))):
                return ("item", o, k)
            return default
        if isinstance(o, Obj):
            return ("item", o, k)
        if self.contains(k, o, self.where(node)):
            return self.item(o, k, node)
        return default

    def container_method(self, o, name, args, kw, node):
        a = args[0] if args else None
        b = tuple(self.loops)
        if name in MUTATING:
            self.mutated(o)
            self.events.append(("change", name, o, tuple(args), self.where(node)))
        if name in ("append", "add") and len(args) == 1:
            o.items.append((a, b))
            return C(None)
        if name == "insert" and len(args) == 2:
            o.items.append((args[1], b))
            return C(None)
        if name in ("extend", "update") and len(args) == 1:
            if o.kind == "dict":
                if isinstance(a, Obj) and a.kind == "dict":
                    for k, v, bb in a.items:
                        self.setitem(o, k, v)
                return C(None)
            if isinstance(a, Obj) and a.kind == "comp":
                a = self.force_comp(a)
            if isinstance(a, Obj) and a.kind in ("list", "set"):
                o.items += [(v, bb if len(bb) > len(b) else b if len(b) > o.depth else bb) for v, bb in a.items]
                o.acc += [x for x in a.acc if x not in o.acc]
                return C(None)
            if isinstance(a, tuple) and a[0] == "tup":
                o.items += [(v, b) for v in a[1]]
                return C(None)
            o.items.append((("ext", self.base(a)), b))
            return C(None)
        if name in ("remove", "discard") and len(args) == 1:
            for i, (v, bb) in enumerate(o.items):
                if v is a or v == a:
                    del o.items[i]
                    return C(None)
            return C(None)
        if name == "pop":
            if o.kind == "dict" and args:
                for i, (k, v, bb) in enumerate(o.items):
                    if k == a:
                        del o.items[i]
                        return v
                return args[1] if len(args) > 1 else ("item", o, a)
            if o.items and o.kind == "list" and not args:
                return o.items.pop()[0]
            return ("item", o, C("pop"))
        if name == "clear":
            del o.items[:]
            return C(None)
        if name == "setdefault":
            v = None
            for k, vv, bb in o.items:
                if k == a:
                    v = vv
            if v is None:
                v = args[1] if len(args) > 1 else C(None)
                self.setitem(o, a, v)
            return v
        if name == "sort" and "key" in kw and o.kind == "list" and not any(isinstance(v, tuple) and v[0] == "ext" for v, b in o.items):
            keys = [self.call(kw["key"], [v], {}, node) for v, b in o.items]
            if all(is_c(k) for k in keys):
                o.items = [o.items[i] for i in sorted(range(len(keys)), key=lambda i: keys[i][1], reverse=kw.get("reverse") == C(True))]
            elif all(isinstance(k, tuple) and k[0] == "tup" and k[1] and is_c(k[1][0]) for k in keys):
                o.items = [o.items[i] for i in sorted(range(len(keys)), key=lambda i: keys[i][1][0][1], reverse=kw.get("reverse") == C(True))]
            return C(None)
        if name in ("sort", "reverse"):
            return C(None)
        if name == "count" and len(args) == 1:
            return ("call", ".count", (o, a))
        return None

    # ------------------------------------------------------------- statements
    def block(self, body, fr):
        for s in body:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError("%s:%d: statement %s is not supported" % (fr.mod.rel, s.lineno, type(s).__name__))
        m(s, fr)

    def st_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        v = self.ev(s.value, fr)
        if isinstance(v, Obj) and v.kind == "comp":
            self.force_comp(v)

    def st_Pass(self, s, fr):
        pass

    def st_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.bind(t, v, fr)

    def st_AnnAssign(self, s, fr):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, fr), fr)

    def st_AugAssign(self, s, fr):
        cur = self.ev(s.target, fr)
        v = self.ev(s.value, fr)
        if isinstance(cur, Obj) and cur.kind in ("list", "set") and isinstance(s.op, (ast.Add, ast.BitOr)):
            self.container_method(cur, "extend", [v], {}, s)
            return
        self.bind(s.target, self.binop(s.op, cur, v, s), fr)

    def st_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else C(None)
        if isinstance(v, Obj) and v.kind == "comp" and isinstance(v.node, (ast.ListComp, ast.SetComp, ast.DictComp)):
            pass
        raise Return(v)

    def st_If(self, s, fr):
        if self.truth(self.ev(s.test, fr), self.where(s.test)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def st_For(self, s, fr):
        c = self.ev(s.iter, fr)

        def one(v):
            self.bind(s.target, v, fr)
            try:
                self.block(s.body, fr)
            except Continue:
                pass
        try:
            self.each(c, one, s)
        except Break:
            return
        self.block(s.orelse, fr)

    def st_While(self, s, fr):
        L = (s.lineno, s.col_offset, len(self.loops))
        if not self.truth(self.ev(s.test, fr)):
            self.block(s.orelse, fr)
            return
        try:
            self.leave(L, ("while",), lambda: self.block(s.body, fr))
        except Break:
            return

    def st_Break(self, s, fr):
        raise Break()

    def st_Continue(self, s, fr):
        raise Continue()

    def st_Raise(self, s, fr):
        if s.exc is None:
            raise Raised(getattr(self, "current", ("exc", "?", ())), self.where(s))
        v = self.ev(s.exc, fr)
        if isinstance(v, Obj) and v.kind == "cls":
            v = ("exc", v.name, ())
        if isinstance(v, tuple) and v[0] == "ext":
            v = ("exc", v[1], ())
        raise Raised(v, self.where(s))

    def st_Try(self, s, fr):
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append("*")
            elif isinstance(h.type, ast.Tuple):
                names += [ast.unparse(x) for x in h.type.elts]
            else:
                names.append(ast.unparse(h.type))
        self.handlers.append(names)
        try:
            try:
                try:
                    self.block(s.body, fr)
                finally:
                    self.handlers.pop()
            except Raised as e:
                nm = e.exc[1] if isinstance(e.exc, tuple) and e.exc[0] == "exc" else "?"
                for h in s.handlers:
                    hn = ["*"] if h.type is None else [ast.unparse(x) for x in h.type.elts] if isinstance(h.type, ast.Tuple) else [ast.unparse(h.type)]
                    if nm in hn or "*" in hn or any(b in hn for b in BASES.get(nm, ())) or "Exception" in hn and nm != "SystemExit":
                        self.current = e.exc
                        if h.name:
                            fr.env[h.name] = e.exc
                        self.block(h.body, fr)
                        return
                raise
            else:
                self.block(s.orelse, fr)
        finally:
            self.block(s.finalbody, fr)

    def st_With(self, s, fr):
        for i in s.items:
            v = self.ev(i.context_expr, fr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, fr)
        self.block(s.body, fr)

    def st_FunctionDef(self, s, fr):
        fr.env[s.name] = Obj("fn", s.name, name=s.name, node=s, mod=fr.mod, cls=None, env=fr)

    def st_ClassDef(self, s, fr):
        fr.env[s.name] = Obj("cls", s.name, name=s.name, node=s, mod=fr.mod, outer=None)

    def st_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise Raised(("exc", "AssertionError", ()), self.where(s))

    def st_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
                if isinstance(o, Obj):
                    self.container_method(o, "pop" if o.kind == "dict" else "remove", [k], {}, s)
                else:
                    self.events.append(("change", "del", o, (k,), self.where(s)))
                    self.overlay[("key", o, k)] = False

    def st_Import(self, s, fr):
        for a in s.names:
            fr.env[a.asname or a.name.split(".")[0]] = ("ext", a.name)

    def st_ImportFrom(self, s, fr):
        for a in s.names:
            other = module(s.module or "")
            fr.env[a.asname or a.name] = self.glob(a.name, other) if other and (a.name in other.defs or a.name in other.assigns) else \
                ("ext", "%s.%s" % (s.module, a.name))

    def st_Global(self, s, fr):
        pass

    st_Nonlocal = st_Global

    def bind(self, t, v, fr):
        if isinstance(t, ast.Name):
            f = fr
            while f is not None:
                if any(isinstance(n, ast.Nonlocal) and t.id in n.names for n in (f.fn.node.body if f.fn is not None and f is fr else ())):
                    f = f.parent
                    continue
                break
            (f or fr).env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if star:
                    self.bind(e.value if isinstance(e, ast.Starred) else e, ("item", v, C(i)), fr)
                else:
                    self.bind(e, self.item(v, C(i), t), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            self.events.append(("set", o, t.attr, v, self.where(t)))
            if isinstance(o, Obj):
                o.attrs[t.attr] = v
            else:
                self.overlay[(o, "." + t.attr)] = v
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, fr), self.ev(t.slice, fr)
            self.events.append(("setitem", o, k, v, self.where(t)))
            self.setitem(o, k, v)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError("%s:%d: expression %s is not supported" % (fr.mod.rel, e.lineno, type(e).__name__))
        return m(e, fr)

    def ev_Constant(self, e, fr):
        return C(e.value)

    def ev_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def ev_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr, e)

    def ev_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower, fr) if e.slice.lower else C(None)
            hi = self.ev(e.slice.upper, fr) if e.slice.upper else C(None)
            if isinstance(o, tuple) and o[0] in ("c", "tup") and is_c(lo) and is_c(hi) and e.slice.step is None:
                v = o[1][lo[1]:hi[1]]
                return ("tup", v) if o[0] == "tup" else C(v)
            return ("slice", o, lo, hi)
        if isinstance(o, Obj) and o.kind == "comp":
            o = self.force_comp(o)
        return self.item(o, self.ev(e.slice, fr), e)

    def ev_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                if isinstance(v, tuple) and v[0] == "tup":
                    out += v[1]
                    continue
                if isinstance(v, Obj) and v.kind in ("list", "set"):
                    out += [i[0] for i in v.items]
                    continue
                o = self.new("list", e)
                o.items = [(i, tuple(self.loops)) for i in out] + [(("ext", v), tuple(self.loops))]
                return o
            out.append(self.ev(x, fr))
        return ("tup", tuple(out))

    def ev_List(self, e, fr):
        return self.display("list", e, fr)

    def ev_Set(self, e, fr):
        return self.display("set", e, fr)

    def display(self, kind, e, fr):
        o = self.new(kind, e)
        b = tuple(self.loops)
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                self.container_method(o, "extend", [v], {}, e)
            else:
                o.items.append((self.ev(x, fr), b))
        return o

    def ev_Dict(self, e, fr):
        o = self.new("dict", e)
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)
                if isinstance(src, Obj) and src.kind == "dict":
                    o.items += src.items
                continue
            o.items.append((self.ev(k, fr), self.ev(v, fr), ()))
        return o

    def comp(self, e, fr):
        o = Obj("comp", (e.lineno, e.col_offset), node=e, frame=Frame(fr.fn, fr.mod, dict(fr.env), fr.parent))
        o.first = self.ev(e.generators[0].iter, fr)
        return o

    def ev_ListComp(self, e, fr):
        c = self.comp(e, fr)
        if self.eng.mode == "once" or not any(g.ifs for g in e.generators):
            return self.force_comp(c)
        return c

    def ev_SetComp(self, e, fr):
        return self.force_comp(self.comp(e, fr), "set") if self.eng.mode == "once" else self.comp(e, fr)

    def ev_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def ev_DictComp(self, e, fr):
        return self.force_comp(self.comp(e, fr), "dict")

    def ev_BoolOp(self, e, fr):
        v = None
        for x in e.values:
            v = self.ev(x, fr)
            t = self.truth(v, self.where(x))
            if isinstance(e.op, ast.And) != t:
                return v if not isinstance(v, tuple) or v[0] not in ("in", "eq", "lt", "le", "isinst", "isnone", "not") else C(t)
        if isinstance(v, tuple) and v[0] in ("in", "eq", "lt", "le", "isinst", "isnone", "not"):
            return C(t)
        return v

    def ev_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return C(not self.truth(v, self.where(e)))
        if is_c(v) and isinstance(e.op, ast.USub):
            return C(-v[1])
        return ("un", type(e.op).__name__, v)

    def ev_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr), self.where(e.test)) else e.orelse, fr)

    def ev_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, fr)
            if not self.compare(op, l, r, e):
                return C(False)
            l = r
        return C(True)

    def compare(self, op, l, r, e):
        w = self.where(e)
        if isinstance(op, ast.In):
            return self.contains(l, r, w)
        if isinstance(op, ast.NotIn):
            return not self.contains(l, r, w)
        if isinstance(op, (ast.Is, ast.IsNot)):
            neg = isinstance(op, ast.IsNot)
            if is_c(r) and r[1] is None:
                if isinstance(l, Obj) or is_c(l) or l[0] in ("tup", "fstr"):
                    return (is_c(l) and l[1] is None) != neg
                if self.conds.get(("truthy", l)):
                    return neg
                if l[0] == "item" and isinstance(l[1], Obj) and l[1].kind == "dict" and l[1].items and \
                        all(isinstance(v, Obj) or v[0] in ("el", "fstr") or is_c(v) and v[1] is not None for k, v, b in l[1].items):
                    return neg
                return self.decide(("isnone", l), w) != neg
            return self.equal(l, r, w) != neg
        if isinstance(op, ast.Eq):
            return self.eq_sets(l, r, w)
        if isinstance(op, ast.NotEq):
            return not self.eq_sets(l, r, w)
        if is_c(l) and is_c(r):
            try:
                return {ast.Lt: l[1] < r[1], ast.LtE: l[1] <= r[1], ast.Gt: l[1] > r[1], ast.GtE: l[1] >= r[1]}[type(op)]
            except TypeError:
                pass
        if isinstance(l, tuple) and l[0] == "len" and is_c(r) or isinstance(r, tuple) and r[0] == "len" and is_c(l):
            t = self.len_compare(op, l, r)
            if t is not None:
                return t
        if isinstance(op, (ast.LtE, ast.Lt)) and isinstance(l, tuple) and l[0] in ("seq", "setop", "keys"):
            return not self.setop_truth(("setop", "-", norm_set(l), norm_set(r)))
        if isinstance(op, (ast.GtE, ast.Gt)) and isinstance(r, tuple) and r[0] in ("seq", "setop", "keys"):
            return not self.setop_truth(("setop", "-", norm_set(r), norm_set(l)))
        a, b = (l, r) if isinstance(op, (ast.Lt, ast.LtE)) else (r, l)
        # a < b, a <= b; a <= b is the negation of b < a
        if isinstance(op, (ast.Lt, ast.Gt)):
            return self.decide(("lt", a, b), w)
        return not self.decide(("lt", b, a), w)

    def eq_sets(self, l, r, w):
        l, r = [self.force_comp(x, "set" if isinstance(x.node, ast.SetComp) else "list") if isinstance(x, Obj) and x.kind == "comp" else x for x in (l, r)]
        if isinstance(l, Obj) and isinstance(r, Obj) and l.kind == r.kind and l.kind in ("set", "list", "dict"):
            if l is r or not l.items and not r.items and not l.acc and not r.acc:
                return True
            v = self.eng.scenario and self.eng.scenario.same_content(l, r)
            return v if v is not None else self.decide(("eq", l, r), w)
        if isinstance(l, tuple) and l[0] == "len" and is_c(r) or isinstance(r, tuple) and r[0] == "len" and is_c(l):
            t = self.len_compare(ast.Eq(), l, r)
            if t is not None:
                return t
        return self.equal(l, r, w)

    def len_compare(self, op, l, r):
        if is_c(l):
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}
            return self.len_compare(flip[type(op)](), r, l)
        n = r[1]
        if (isinstance(op, ast.Gt) and n == 0) or (isinstance(op, ast.GtE) and n == 1):
            return self.truth(l[1])
        if (isinstance(op, ast.Eq) and n == 0) or (isinstance(op, ast.Lt) and n == 1):
            return not self.truth(l[1])
        return None

    def ev_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr), e)

    def binop(self, op, a, b, e):
        if is_c(a) and is_c(b):
            try:
                if isinstance(op, ast.Add):
                    return C(a[1] + b[1])
                if isinstance(op, ast.Mod):
                    return C(a[1] % b[1])
                if isinstance(op, ast.Sub):
                    return C(a[1] - b[1])
                if isinstance(op, ast.Mult):
                    return C(a[1] * b[1])
            except TypeError:
                pass
        if isinstance(op, ast.Add):
            if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == "tup" and b[0] == "tup":
                return ("tup", a[1] + b[1])
            if any(isinstance(x, tuple) and x[0] == "fstr" or is_c(x) and isinstance(x[1], str) for x in (a, b)):
                parts = ()
                for x in (a, b):
                    parts += x[1] if isinstance(x, tuple) and x[0] == "fstr" else (x,)
                return ("fstr", parts)
            if any(isinstance(x, Obj) and x.kind in ("list", "comp") or isinstance(x, tuple) and x[0] == "tup" for x in (a, b)):
                o = self.new("list", e)
                for x in (a, b):
                    self.container_method(o, "extend", [x], {}, e)
                return o
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)):
            s = {ast.Sub: "-", ast.BitAnd: "&", ast.BitOr: "|"}[type(op)]
            if any(isinstance(x, Obj) and x.kind in ("set", "comp") or isinstance(x, tuple) and x[0] in ("seq", "keys", "setop") for x in (a, b)):
                return ("setop", s, norm_set(a), norm_set(b))
        return ("bin", type(op).__name__, a, b)

    def ev_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(C(v.value))
            else:
                x = self.ev(v.value, fr)
                if isinstance(x, Obj) and x.kind == "comp":
                    x = ("comp", x)
                if isinstance(x, tuple) and x[0] == "fstr" and v.conversion == -1:
                    parts += x[1]
                else:
                    parts.append(x)
        if all(is_c(p) for p in parts):
            return C("".join(str(p[1]) for p in parts))
        return ("fstr", tuple(parts))

    def ev_Lambda(self, e, fr):
        return Obj("lam", (e.lineno, e.col_offset), node=e, frame=fr, name="lambda")

    def ev_Starred(self, e, fr):
        return self.ev(e.value, fr)

    def ev_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.bind(e.target, v, fr)
        return v

    def ev_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else C(None)
        f = fr
        while f is not None and "*yield" not in f.env:
            f = f.parent
        if f is not None:
            f.env["*yield"].items.append((v, tuple(self.loops)))
        return C(None)

    def ev_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)
        self.container_method(fr.env["*yield"], "extend", [v], {}, e)
        return C(None)

    def ev_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, fr)
                if isinstance(v, tuple) and v[0] == "tup":
                    args += v[1]
                elif isinstance(v, Obj) and v.kind == "list":
                    args += [i[0] for i in v.items]
                else:
                    args.append(("star", v))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                v = self.ev(k.value, fr)
                if isinstance(v, Obj) and v.kind == "dict":
                    for kk, vv, b in v.items:
                        if is_c(kk):
                            kw[kk[1]] = vv
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw, e)


def walk_own(fn):
    """nodes of a function without those of functions inside of it"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def leaves(loop):
    """does the body of the loop end it early"""
    todo = [(n, False) for n in loop.body]
    while todo:
        n, inner = todo.pop()
        if isinstance(n, ast.Return) or isinstance(n, ast.Break) and not inner:
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += [(x, inner or isinstance(n, (ast.For, ast.While))) for x in ast.iter_child_nodes(n)]
    return False


def norm(t):
    """a term without the place of the loops that its elements come from"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "el":
        return ("el", norm(t[1])) + (("other",) if len(t) > 2 and t[2][-1] == "other" else ())
    if t and t[0] == "eq":
        return eq(norm(t[1]), norm(t[2]))
    return tuple(norm(x) for x in t)


class Scenario:
    """Inputs with particular properties: facts about atoms, values of terms,
    the keys of dictionaries, and the containers whose generic element matters"""

    def __init__(self, enter=(), keys=None, values=None, facts=None, rules=(), same=False, alias=None):
        self.alias = dict(alias or {})
        self.chain = set(enter)
        self.keys, self.values, self.facts = dict(keys or {}), dict(values or {}), dict(facts or {})
        self.rules, self.same = list(rules), same

    def norm(self, t):
        t = norm(t)
        if self.alias:
            t = renamed(t, self.alias)
        return strip_other(t) if self.same else t

    def same_content(self, l, r):
        """do containers with the elements of generic loops have the same ones"""
        a, b = [[self.norm(("tup", x[:-1])) for x in o.items] for o in (l, r)]
        if any(isinstance(x[0], tuple) and x[0][0] == "ext" for o in (l, r) for x in o.items):
            return None
        return a == b if l.kind == "list" and not getattr(l, "sorted", False) else set(a) == set(b)

    def enter(self, c):
        return not isinstance(c, tuple) or strip_other(self.norm(c)) in self.chain

    def elements(self, c):
        c = self.norm(c) if isinstance(c, tuple) else c
        return sorted(self.keys[c]) if isinstance(c, tuple) and c in self.keys else None

    def value(self, t):
        if is_c(t):
            return t
        if t in self.values:
            return C(self.values[t])
        if isinstance(t, tuple) and t[0] == "len" and isinstance(t[1], tuple) and norm_set(t[1]) in self.keys:
            return C(len(self.keys[norm_set(t[1])]))
        return None

    def decide(self, atom):
        a = self.norm(atom)
        if a in self.facts:
            return self.facts[a]
        for r in self.rules:
            v = r(a)
            if v is not None:
                return v
        if a[0] == "in" and a[1] == ("el", norm_set(a[2])):
            return True
        if a[0] == "eq" and a[1] == a[2]:
            return True
        if a[0] == "eq":
            x, y = self.value(a[1]), self.value(a[2])
            if x is not None and y is not None:
                return x[1] == y[1]
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                # not equal to any element of something it is not in
                if isinstance(y, tuple) and y[0] == "el" and self.facts.get(("in", x, y[1])) is False:
                    return False
        if a[0] == "in" and isinstance(a[2], tuple):
            x, c = self.value(a[1]), norm_set(a[2])
            if x is not None and c in self.keys:
                return x[1] in self.keys[c]
            if x is not None and c[0] == "tup" and all(is_c(y) for y in c[1]):
                return x[1] in [y[1] for y in c[1]]
        if a[0] == "truthy":
            x = self.value(a[1])
            if x is not None:
                return bool(x[1])
            if isinstance(a[1], tuple) and norm_set(a[1]) in self.keys:
                return bool(self.keys[norm_set(a[1])])
        if a[0] == "isnone":
            x = self.value(a[1])
            if x is not None:
                return x[1] is None
        if a[0] == "lt":
            x, y = self.value(a[1]), self.value(a[2])
            if x is not None and y is not None:
                return x[1] < y[1]
        return None


def renamed(t, alias):
    if not isinstance(t, tuple):
        return t
    t = tuple(renamed(x, alias) for x in t)
    if t and t[0] == "eq":
        t = eq(t[1], t[2])
    return alias.get(t, t)


def another(t, binders):
    """the value for another element of the loops that it comes from"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "el" and len(t) > 2 and any(t[2] == L for L, X in binders):
        return ("el", t[1], t[2] + ("other",))
    return tuple(another(x, binders) for x in t)


def is_other(t):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "el" and len(t) > 2 and isinstance(t[2], tuple) and t[2][-1] == "other":
        return True
    return any(is_other(x) for x in t)


def strip_other(t):
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "el":
        return ("el", strip_other(t[1]))
    if t and t[0] == "eq":
        return eq(strip_other(t[1]), strip_other(t[2]))
    return tuple(strip_other(x) for x in t)


def norm_set(t):
    while isinstance(t, tuple) and t[0] in ("keys", "seq"):
        t = t[-1]
    return t


def eq(a, b):
    return ("eq",) + tuple(sorted((a, b), key=repr))
