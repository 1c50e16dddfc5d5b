"""Where the order of things comes from: dataflow over the syntax trees of the generator.

Values carry tags, each with the place they come from:
  U  a set: its elements have no order that is the same for every run
  K  the keys of a dictionary (set operations on them give sets)
  O  a sequence or dictionary whose order was taken from a set
  V  something that may differ between two runs (the text of a set, one element
     of a set, the time, an address, the environment, content of the output folder)
  P  a path in the output folder
  H  a file handle
What a loop over an unordered container does to ordered things outside of the
loop makes these O, what a branch on V does makes them V. Sorting removes U and
O, if the order is total. Attributes and the constant keys of dictionaries are
tracked by their name, calls by the name of what they call, with one summary for
every combination of tags of the arguments.
"""
import ast
import os

from .frontend import AnalysisError, REPO

PYDIR = os.path.join(REPO, "python")

VARYING = {
    "time": "the time", "datetime": "the time", "random": "a random number", "uuid": "a random number", "secrets": "a random number",
    "getpid": "the process id", "getcwd": "the working directory", "getenv": "the environment", "environ": "the environment",
    "gethostname": "the host name", "getlogin": "the user name", "getuser": "the user name", "platform": "the platform",
    "id": "an address", "hash": "a hash", "mkdtemp": "a temporary name", "mkstemp": "a temporary name", "mktemp": "a temporary name",
    "NamedTemporaryFile": "a temporary name", "TemporaryDirectory": "a temporary name", "perf_counter": "the time", "monotonic": "the time",
    "time_ns": "the time", "urandom": "a random number", "getmtime": "a time stamp", "getctime": "a time stamp", "getatime": "a time stamp",
    "process_time": "the time", "getnode": "the host", "shuffle": "a random number", "sample": "a random number", "get_ident": "the thread",
}
LISTING = {"listdir", "scandir", "walk", "iterdir", "glob", "iglob", "rglob", "fwalk"}
ASKING = {"exists", "isfile", "isdir", "stat", "lstat", "getsize", "islink", "lexists", "samefile", "is_file", "is_dir", "read_text", "read_bytes",
          "cmp", "access"}
SETOPS = {"difference", "union", "intersection", "symmetric_difference"}
SETMUT = {"add", "discard", "difference_update", "intersection_update", "symmetric_difference_update"}
PATHS = {"join", "abspath", "realpath", "normpath", "dirname", "Path", "PurePath", "fspath", "expanduser", "with_suffix", "joinpath", "relpath"}
NOORDER = {"len", "any", "all", "bool", "isinstance", "issubclass", "hasattr", "callable", "sum", "type", "min", "max"}


class Val:
    __slots__ = ("tags", "elem", "ref", "fn")

    def __init__(self, tags=None, elem=None, ref=None, fn=None):
        self.tags = tags or {}
        self.elem = elem
        self.ref = ref
        self.fn = fn        # (node, closure env) of local functions

    def has(self, *ts):
        return any(t in self.tags for t in ts)

    def why(self, *ts):
        for t in ts or ("V", "O", "U"):
            if t in self.tags:
                return self.tags[t]
        return None

    def key(self):
        return ("".join(sorted(self.tags)), self.elem.key() if self.elem else None, self.ref, id(self.fn[0]) if self.fn else 0)

    def noref(self):
        return Val(self.tags, self.elem, None, self.fn) if self.ref else self

    def __repr__(self):
        return "%s%s" % ("".join(sorted(self.tags)) or "-", "[%r]" % self.elem if self.elem else "")


CLEAN = Val()
MAXD = 3


def cut(v, d=MAXD):
    if v is None or not v.elem:
        return v
    if d == 0:
        t = dict(v.tags)
        w = deep(v)
        if w:
            t.setdefault("V", w)
        return Val(t, None, v.ref, v.fn)
    return Val(v.tags, cut(v.elem, d - 1), v.ref, v.fn)


def deep(v):
    """why something made from all of the value differs between runs"""
    while v is not None:
        w = v.why("V", "O", "U")
        if w:
            return w
        v = v.elem
    return None


def path(v):
    """why text holds the path of the output folder"""
    while v is not None:
        if v.has("P"):
            return "the path of the output folder"
        v = v.elem
    return None


def join(a, b):
    if a is None or a is b:
        return b
    if b is None:
        return a
    t = dict(b.tags)
    t.update(a.tags)
    return cut(Val(t, join(a.elem, b.elem), a.ref if a.ref == b.ref else (a.ref or b.ref), a.fn or b.fn))


def tagged(v, t, why):
    if t in v.tags:
        return v
    n = dict(v.tags)
    n[t] = why
    return Val(n, v.elem, v.ref, v.fn)


def untag(v, *ts):
    return Val({t: w for t, w in v.tags.items() if t not in ts}, v.elem, v.ref, v.fn)


class Fn:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name
        self.qual = "%s.%s" % (cls, node.name) if cls else node.name


class Mod:
    def __init__(self, path):
        self.path = path
        self.rel = os.path.relpath(path, REPO)
        with open(path, encoding="utf-8") as f:
            try:
                self.tree = ast.parse(f.read())
            except SyntaxError as e:
                raise AnalysisError("%s: %s" % (self.rel, e))


def generator_files():
    out = [os.path.join(PYDIR, "podio_class_generator.py"), os.path.join(PYDIR, "podio_schema_evolution.py")]
    d = os.path.join(PYDIR, "podio_gen")
    out += [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".py") and not f.startswith("test_")]
    return [f for f in out if os.path.isfile(f)]


class Order:
    def __init__(self):
        self.mods = [Mod(p) for p in generator_files()]
        self.fns, self.classes, self.all = {}, {}, []
        for m in self.mods:
            self.collect(m, m.tree.body, None)
        self.fields = {}
        self.globals = {}
        self.memo = {}
        self.changed = False
        self.reports = {}
        self.sinks = set()
        self.sorts = set()
        self.loops = set()
        self.round = 0

    def collect(self, m, body, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = Fn(m, s, cls)
                self.fns.setdefault(s.name, []).append(f)
                self.all.append(f)
            elif isinstance(s, ast.ClassDef) and cls is None:
                self.classes.setdefault(s.name, []).append((m, s))
                self.collect(m, s.body, s.name)
            elif isinstance(s, (ast.If, ast.Try)):
                self.collect(m, s.body, cls)

    # fields are tracked by name
    def field(self, k):
        v = self.fields.get(k)
        return Val(v.tags, v.elem, k) if v else Val(ref=k)

    def store(self, k, v):
        v = v.noref()
        old = self.fields.get(k)
        new = join(old, v).noref() if old else v
        if old is None or old.key() != new.key():
            self.fields[k] = new
            self.changed = True

    def run(self):
        for self.round in range(30):
            self.changed = False
            self.memo = {}
            self.reports, self.sinks, self.sorts, self.loops = {}, set(), set(), set()
            for m in self.mods:
                a = An(self, m, None, {}, None)
                self.globals[m.rel] = a.env
                a.block(m.tree.body)
                for c in m.tree.body:
                    if isinstance(c, ast.ClassDef):
                        b = An(self, m, None, {}, None)
                        b.outer = a.env
                        b.block([s for s in c.body if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))])
                        for n, v in b.env.items():
                            self.store("attr:" + n, v)
            for f in self.all:
                n = len(f.node.args.args) + len(f.node.args.kwonlyargs)
                self.call(f, {}, None)
            if not self.changed:
                return
        raise AnalysisError("the dataflow of the generator does not settle")

    def call(self, f, args, ctx):
        """args: parameter name -> Val; gives the returned value and what the call did to its arguments"""
        k = (id(f.node), tuple(sorted((n, v.key()) for n, v in args.items() if v.tags or v.elem or v.fn)), bool(ctx) and ctx[0])
        if k in self.memo:
            r = self.memo[k]
            return r if r is not None else (CLEAN, {})
        self.memo[k] = None
        last = None
        for _ in range(4):
            a = An(self, f.mod, f, args, ctx)
            a.body()
            r = (a.ret or CLEAN, a.effects)
            rk = (r[0].key(), tuple(sorted((p, v.key()) for p, v in r[1].items())))
            self.memo[k] = r
            if rk == last or not a.recursive:
                break
            last = rk
        return r


class An:
    """analysis of one function for one combination of arguments"""

    def __init__(self, od, mod, fn, args, ctx):
        self.od, self.mod, self.fn = od, mod, fn
        self.env = {}
        self.args = args
        self.ctx = ctx            # (tag, why): what is done now depends on an order (O) or on something varying (V)
        self.fresh = None         # names made in this iteration of an unordered loop
        self.ret = None
        self.effects = {}
        self.params = set()
        self.outer = None
        self.recursive = False
        self.ended = False

    def at(self, n):
        return "%s:%d" % (self.mod.rel, getattr(n, "lineno", 0))

    def body(self):
        a = self.fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            names.append(a.vararg.arg)
        if a.kwarg:
            names.append(a.kwarg.arg)
        for n in names:
            v = self.args.get(n, CLEAN)
            if n in ("install_dir", "targetdir"):
                v = tagged(v, "P", "the output folder")
            self.env[n] = Val(v.tags, v.elem, ("param", n), v.fn)
            self.params.add(n)
        if self.ctx:
            self.fresh = set()
        self.block(self.fn.node.body)

    # ---- statements
    def block(self, body):
        for s in body:
            getattr(self, "st_" + type(s).__name__, self.st_other)(s)

    def st_other(self, s):
        for c in ast.iter_child_nodes(s):
            if isinstance(c, ast.expr):
                self.ev(c)

    def st_Expr(self, s):
        self.ev(s.value)

    def st_FunctionDef(self, s):
        if self.fn is not None or self.outer is not None:
            self.env[s.name] = Val(fn=(s, self.env))

    def st_ClassDef(self, s):
        pass

    def st_Import(self, s):
        pass

    st_ImportFrom = st_Import

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            if isinstance(t, (ast.Name, ast.Attribute)) and self.idempotent(t, s.value):
                self.bind(t, v, s.value, commutes=True)
            else:
                self.bind(t, v, s.value)

    def idempotent(self, t, e):
        """x = a or x, x = True: the same for every order"""
        if isinstance(e, ast.Constant):
            return True
        return isinstance(e, ast.BoolOp) and any(ast.dump(x).replace("Load()", "Store()") == ast.dump(t) for x in e.values)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value), s.value)

    def st_NamedExpr(self, s):
        self.ev(s)

    def st_AugAssign(self, s):
        v = self.ev(s.value)
        cur = self.ev(s.target)
        if cur.has("U") or (isinstance(s.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and not cur.has("V")):
            self.mutate(s.target, elem=v.elem, commutes=True)
            return
        if v.has("U", "O"):
            self.mutate(s.target, tag=("O", v.why("U", "O")), elem=v.elem)
        elif isinstance(s.op, (ast.Add,)) and not isinstance(s.value, ast.Constant):
            # text, numbers or lists
            if cur.elem is not None or cur.has("O"):
                self.mutate(s.target, elem=v.elem or v)
            else:
                new = join(cur, v)
                if self.ctx and not self.is_number(s.value):
                    new = tagged(new, "V" if v.elem is None else "O", self.ctx[1])
                self.bind(s.target, new, s.value, commutes=True)
                return
        w = v.why("V")
        if w:
            self.mutate(s.target, tag=("V", w))

    def is_number(self, e):
        return isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) or \
            isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("len", "int", "sum")

    def st_Return(self, s):
        v = self.ev(s.value) if s.value is not None else CLEAN
        if self.ctx and s.value is not None and (self.ctx[0] == "V" or self.in_loop_of_own()) and not isinstance(s.value, ast.Constant):
            v = tagged(v, "V", self.ctx[1])
        elif self.ctx and self.ctx[0] == "V":
            v = tagged(v, "V", self.ctx[1])
        self.ret = join(self.ret, v) if self.ret else v
        self.ended = True

    own_loop = 0

    def in_loop_of_own(self):
        return self.own_loop > 0

    def st_If(self, s):
        c = self.ev(s.test)
        self.branch([s.body, s.orelse], c.why("V"))

    def branch(self, bodies, varying):
        keep, fresh = self.ctx, self.fresh
        start = dict(self.env)
        outs = []
        later = None
        for b in bodies:
            self.env = dict(start)
            if varying:
                self.ctx = ("V", varying)
                self.fresh = set()
            self.ended = False
            self.block(b)
            if not self.ended:
                outs.append(self.env)
            elif varying:
                later = ("V", varying)
        self.ctx, self.fresh = keep, fresh
        self.ended = not outs
        self.env = self.merge(outs, start) if outs else start
        if later and not (self.ctx and self.ctx[0] == "V"):
            # what follows happens only if the branch did not return
            self.ctx = later
            self.fresh = set()

    def merge(self, envs, start):
        out = dict(envs[0])
        for e in envs[1:]:
            for n, v in e.items():
                out[n] = join(out.get(n), v) if n in out else v
        return out

    def st_For(self, s):
        it = self.ev(s.iter)
        self.loop(s, it, lambda: self.bind(s.target, self.element(it), None, loop=True), s.body, s.orelse)

    st_AsyncFor = st_For

    def element(self, it):
        e = it.elem or CLEAN
        if it.has("V"):
            e = tagged(e, "V", it.why("V"))
        return e.noref() if e.ref and not isinstance(e.ref, str) else e

    def ordered(self, it):
        return it.why("U", "O")

    def loop(self, s, it, bind, body, orelse):
        why = self.ordered(it)
        keep, fresh = self.ctx, self.fresh
        start = dict(self.env)
        if why:
            self.od.loops.add((self.at(s), why))
        v = it.why("V")
        for rnd in range(3):
            before = {n: x.key() for n, x in self.env.items()}
            if why and not (keep and keep[0] == "V"):
                self.ctx = ("O", "%s, in the loop at %s" % (why, self.at(s)))
                self.fresh = set()
                self.own_loop += 1
            if v:
                self.ctx = ("V", v)
                self.fresh = set()
            bind()
            self.ended = False
            self.block(body)
            if why and not (keep and keep[0] == "V"):
                self.own_loop -= 1
            self.env = self.merge([start, self.env], start)
            if why and rnd == 0:
                assigned = {x.id for b in body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                const = self.constant_only(body)
                tgt = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)} if hasattr(s, "target") else set()
                for n in (assigned - const) | tgt:
                    if n in self.env and n not in self.accumulated(body):
                        self.env[n] = tagged(self.env[n], "V", "%s (what the last iteration of the loop at %s left)" % (why, self.at(s)))
            self.ctx, self.fresh = keep, fresh
            if {n: x.key() for n, x in self.env.items()} == before:
                break
        self.ended = False
        self.block(orelse)

    def accumulated(self, body):
        """names that are only changed by += and alike: handled where it happens"""
        plain, aug = set(), set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                    aug.add(x.target.id)
                elif isinstance(x, ast.Assign):
                    for t in x.targets:
                        idem = isinstance(t, ast.Name) and self.idempotent(t, x.value)
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                (aug if idem else plain).add(n.id)
                elif isinstance(x, (ast.For, ast.comprehension, ast.NamedExpr)):
                    plain.update(n.id for n in ast.walk(x.target) if isinstance(n, ast.Name))
        return aug - plain

    def constant_only(self, body):
        vals = {}
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                vals.setdefault(n.id, set()).add(ast.dump(x.value) if isinstance(x.value, ast.Constant) and t is n else None)
                elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                    for n in ast.walk(x.target):
                        if isinstance(n, ast.Name):
                            vals.setdefault(n.id, set()).add(None)
        return {n for n, v in vals.items() if len(v) == 1 and None not in v}

    def st_While(self, s):
        def cond():
            self.ev(s.test)
        c = self.ev(s.test)
        fake = Val({"V": c.why("V")} if c.has("V") else {})
        self.loop(s, fake, cond, s.body, s.orelse)

    def st_Try(self, s):
        start = dict(self.env)
        self.ended = False
        self.block(s.body)
        self.block(s.orelse)
        outs = [] if self.ended else [self.env]
        for h in s.handlers:
            self.env = self.merge([start, self.env], start)
            if h.name:
                self.env[h.name] = CLEAN
            self.ended = False
            self.block(h.body)
            if not self.ended:
                outs.append(self.env)
        self.ended = not outs
        self.env = self.merge(outs, start) if outs else start
        if s.finalbody:
            e = self.ended
            self.block(s.finalbody)
            self.ended = self.ended or e

    st_TryStar = st_Try

    def st_With(self, s):
        for i in s.items:
            v = self.ev(i.context_expr)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, i.context_expr)
        self.block(s.body)

    def st_Raise(self, s):
        self.ended = True

    def st_Break(self, s):
        self.ended = True

    st_Continue = st_Break

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.ev(t.value)

    def st_Pass(self, s):
        pass

    st_Global = st_Nonlocal = st_Assert = st_Pass

    def st_Match(self, s):
        c = self.ev(s.subject)
        for case in s.cases:
            for x in ast.walk(case.pattern):
                if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                    self.env[x.name] = join(c, c.elem or CLEAN)
        self.branch([x.body for x in s.cases] + [[]], c.why("V"))

    # ---- binding and changing
    def bind(self, t, v, src, commutes=False, loop=False):
        if isinstance(t, (ast.Tuple, ast.List)):
            es = src.elts if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) else None
            for i, x in enumerate(t.elts):
                if es is not None and not any(isinstance(y, ast.Starred) for y in es):
                    self.bind(x, self.ev(es[i]), es[i], commutes, loop)
                    continue
                e = self.element(v)
                w = self.ordered(v)
                if w and len(t.elts) > 1:
                    e = tagged(e, "V", w)
                if isinstance(x, ast.Starred):
                    self.bind(x.value, Val(dict(v.tags), v.elem), None, commutes, loop)
                else:
                    self.bind(x, e, None, commutes, loop)
            return
        if isinstance(t, ast.Starred):
            return self.bind(t.value, v, None, commutes, loop)
        if self.ctx and self.ctx[0] == "V" and not loop:
            v = tagged(v, "V", self.ctx[1])
        if isinstance(t, ast.Name):
            if t.id in self.params:
                v = v.noref() if v.ref == ("param", t.id) else v
            self.env[t.id] = v
            if self.fresh is not None:
                self.fresh.add(t.id)
            return
        if self.ctx and not commutes and not self.local(t) and self.ctx[0] == "O" and not isinstance(src, ast.Constant):
            if isinstance(t, ast.Attribute) and self.in_loop_of_own():
                v = tagged(v, "V", "%s (what the last iteration left)" % self.ctx[1])
        if isinstance(t, ast.Attribute):
            self.ev(t.value)
            self.od.store("attr:" + t.attr, self.out_folder(t.attr, v))
            return
        if isinstance(t, ast.Subscript):
            k = t.slice
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                base = self.ev(t.value)
                self.od.store("item:" + k.value, v)
                self.mutate(t.value, elem=v)
            else:
                kv = self.ev(k)
                w = kv.why("V")
                self.mutate(t.value, tag=("V", w) if w else None, elem=v)

    def out_folder(self, name, v):
        return tagged(v, "P", "the output folder") if name in ("install_dir", "targetdir") else v

    def root(self, t):
        while isinstance(t, (ast.Attribute, ast.Subscript, ast.Call)):
            t = t.func if isinstance(t, ast.Call) else t.value
        return t.id if isinstance(t, ast.Name) else None

    def local(self, t):
        """something that was made in this iteration"""
        r = self.root(t)
        if self.fresh is None or r is None or r not in self.fresh:
            return False
        v = self.env.get(r)
        return not (v is not None and isinstance(v.ref, str) and v.ref.startswith("attr:"))

    def mutate(self, t, tag=None, elem=None, commutes=False, sort=None):
        """the container t is changed: it gets more elements (elem), a tag, or is sorted"""
        tags = {}
        if tag and tag[1]:
            tags[tag[0]] = tag[1]
        if self.ctx and not commutes and not self.local(t):
            tags.setdefault("V" if self.ctx[0] == "V" else "O", self.ctx[1])
        elem = elem.noref() if elem is not None else None
        add = Val(tags, elem)
        if isinstance(t, ast.Call):
            if isinstance(t.func, ast.Attribute) and t.func.attr in ("setdefault", "get"):
                self.mutate(t.func.value, tag, None, commutes)
            return
        if isinstance(t, ast.Name):
            cur = self.look(t.id)
            new = cut(Val({**add.tags, **cur.tags}, join(cur.elem, elem) if elem is not None else cur.elem, cur.ref, cur.fn))
            self.env[t.id] = new
            if isinstance(cur.ref, str) and (tags or elem is not None):
                self.od.store(cur.ref, add)
            elif isinstance(cur.ref, tuple) and (tags or (elem is not None and (elem.tags or elem.elem))):
                p = cur.ref[1]
                self.effects[p] = join(self.effects.get(p), add)
            return
        if isinstance(t, ast.Attribute):
            self.od.store("attr:" + t.attr, add)
            return
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str):
                self.od.store("item:" + t.slice.value, add)
            else:
                self.mutate(t.value, None, add, commutes)
            return

    # ---- expressions
    def look(self, n):
        if n in self.env:
            return self.env[n]
        o = self.outer
        if o is not None and n in o:
            return o[n]
        g = self.od.globals.get(self.mod.rel, {})
        if n in g:
            return g[n]
        for m in self.od.mods:      # imported from another module of the generator
            g = self.od.globals.get(m.rel, {})
            if n in g and m is not self.mod and n.isupper():
                return g[n]
        return CLEAN

    def ev(self, e):
        if e is None:
            return CLEAN
        return getattr(self, "ev_" + type(e).__name__, self.ev_other)(e)

    def ev_other(self, e):
        out = {}
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                v = self.ev(c)
                if v.has("V"):
                    out["V"] = v.why("V")
        return Val(out)

    def ev_Constant(self, e):
        return CLEAN

    def ev_Name(self, e):
        return self.look(e.id)

    def ev_Attribute(self, e):
        if e.attr == "environ":
            return Val({"V": "the environment at " + self.at(e)}, Val({"V": "the environment at " + self.at(e)}))
        b = self.ev(e.value)
        if e.attr == "__dict__":
            return Val(b.tags)
        f = self.od.field("attr:" + e.attr)
        f = Val(self.out_folder(e.attr, f).tags, f.elem, f.ref)
        if b.has("V"):
            f = tagged(f, "V", b.why("V"))
        return f

    def ev_Subscript(self, e):
        b = self.ev(e.value)
        k = e.slice
        if isinstance(k, ast.Constant) and isinstance(k.value, str):
            f = self.od.field("item:" + k.value)
            if b.elem is not None and not f.tags and not f.elem:
                f = Val(f.tags, f.elem, f.ref)
            return tagged(f, "V", b.why("V")) if b.has("V") else f
        if isinstance(k, ast.Slice):
            for x in (k.lower, k.upper, k.step):
                self.ev(x)
            w = b.why("O", "U")
            return tagged(b, "V", w) if w else b
        kv = self.ev(k)
        out = b.elem or CLEAN
        w = b.why("V") or kv.why("V")
        if isinstance(k, (ast.Constant, ast.UnaryOp)) and b.has("O", "U"):
            w = w or b.why("O", "U")
        if w:
            out = tagged(out, "V", w)
        return out

    def ev_Tuple(self, e):
        el, tags = None, {}
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                w = v.why("U", "O")
                if w:
                    tags["O"] = w
                if v.has("V"):
                    tags["V"] = v.why("V")
                v = v.elem
            else:
                v = self.ev(x)
            if v is not None:
                el = join(el, v.noref())
        return cut(Val(tags, el))

    ev_List = ev_Tuple

    def ev_Set(self, e):
        v = self.ev_Tuple(e)
        if len(e.elts) == 1 and not isinstance(e.elts[0], ast.Starred):
            return v
        return Val({"U": "the set at %s" % self.at(e)}, v.elem)

    def ev_Dict(self, e):
        el, tags = None, {}
        for k, v in zip(e.keys, e.values):
            x = self.ev(v)
            if k is None:
                for t in ("O", "V"):
                    if x.has(t):
                        tags[t] = x.why(t)
                el = join(el, x.elem)
                continue
            kv = self.ev(k)
            if kv.has("V"):
                tags["V"] = kv.why("V")
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                self.od.store("item:" + k.value, x)
            if x.tags or x.elem:
                el = join(el, x.noref())
        return cut(Val(tags, el))

    def comp(self, e, make):
        start = dict(self.env)
        kc, kf = self.ctx, self.fresh
        why = var = None
        for g in e.generators:
            it = self.ev(g.iter)
            why = why or self.ordered(it)
            var = var or it.why("V")
            self.ctx, self.fresh = kc, kf
            self.bind(g.target, self.element(it), None, loop=True)
            for c in g.ifs:
                var = var or self.ev(c).why("V")
        if why:
            self.od.loops.add((self.at(e), why))
            if not (kc and kc[0] == "V"):
                self.ctx, self.fresh = ("O", "%s, in the comprehension at %s" % (why, self.at(e))), set()
        out = make(why, var)
        self.ctx, self.fresh = kc, kf
        self.env = start
        return cut(out)

    def ev_ListComp(self, e):
        def make(why, var):
            v = self.ev(e.elt).noref()
            t = {}
            if why:
                t["O"] = why
            if var:
                t["V"] = var
            return Val(t, v)
        return self.comp(e, make)

    ev_GeneratorExp = ev_ListComp

    def ev_SetComp(self, e):
        def make(why, var):
            v = self.ev(e.elt).noref()
            t = {"U": "the set at %s" % self.at(e)}
            if var:
                t["V"] = var
            return Val(t, v)
        return self.comp(e, make)

    def ev_DictComp(self, e):
        def make(why, var):
            k, v = self.ev(e.key), self.ev(e.value).noref()
            t = {}
            if why:
                t["O"] = why
            if var or k.has("V"):
                t["V"] = var or k.why("V")
            return Val(t, v)
        return self.comp(e, make)

    def ev_BoolOp(self, e):
        out = None
        for x in e.values:
            out = join(out, self.ev(x))
        return out

    def ev_UnaryOp(self, e):
        v = self.ev(e.operand)
        return Val({"V": v.why("V")} if v.has("V") else {})

    def ev_IfExp(self, e):
        c = self.ev(e.test)
        v = join(self.ev(e.body), self.ev(e.orelse))
        return tagged(v, "V", c.why("V")) if c.has("V") else v

    def ev_Compare(self, e):
        vs = [self.ev(x) for x in [e.left] + e.comparators]
        w = None
        for v in vs:
            w = w or v.why("V") or (v.elem and v.elem.why("V"))
        if any(isinstance(o, (ast.Eq, ast.NotEq)) for o in e.ops):
            # two sequences in an order that varies
            o = [v for v in vs if v.has("O")]
            w = w or (o and o[0].why("O"))
        return Val({"V": w}) if w else CLEAN

    def ev_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and (a.has("U", "K") or b.has("U", "K")):
            t = {"U": a.why("U") or b.why("U") or "the set at %s" % self.at(e)}
            if a.has("V") or b.has("V"):
                t["V"] = a.why("V") or b.why("V")
            return Val(t, join(a.elem, b.elem))
        if isinstance(e.op, ast.Mod) and (a.elem is None):
            w = deep(b) or a.why("V")
            return Val({"V": w} if w else {})
        return untag(join(a, b), "K").noref()

    def ev_JoinedStr(self, e):
        t = {}
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.ev(x.value)
                w = deep(v)
                if w:
                    t["V"] = w
                if v.has("P"):
                    t["P"] = v.why("P")
                if x.format_spec is not None:
                    w = self.ev(x.format_spec).why("V")
                    if w:
                        t["V"] = w
        return Val(t)

    def ev_Lambda(self, e):
        return Val(fn=(e, self.env))

    def ev_Starred(self, e):
        return self.ev(e.value)

    def ev_NamedExpr(self, e):
        v = self.ev(e.value)
        self.bind(e.target, v, e.value)
        return v

    def ev_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else CLEAN
        t = {}
        if self.ctx:
            t["V" if self.ctx[0] == "V" else "O"] = self.ctx[1]
        self.ret = join(self.ret, Val(t, v.noref()))
        return CLEAN

    def ev_YieldFrom(self, e):
        v = self.ev(e.value)
        w = v.why("U", "O")
        t = {"O": w} if w else {}
        if v.has("V"):
            t["V"] = v.why("V")
        self.ret = join(self.ret, Val(t, v.elem))
        return CLEAN

    # ---- calls
    def ev_Call(self, e):
        f = e.func
        if isinstance(f, ast.Name):
            name, base = f.id, None
            lv = self.env.get(name) or (self.outer or {}).get(name)
            if lv is not None and lv.fn:
                return self.local_call(lv, e)
        elif isinstance(f, ast.Attribute):
            name, base = f.attr, f.value
        else:
            v = self.ev(f)
            if v.fn:
                return self.local_call(v, e)
            name, base = "", None
        bv = self.ev(base) if base is not None else None
        own = self.candidates(name, base)
        if name in self.od.classes:
            return self.construct(name, e)
        if own and not (base is not None and self.container(bv, name, base)):
            return self.own_call(own, base, e)
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        kw = {k.arg: self.ev(k.value) for k in e.keywords}
        star = {i for i, a in enumerate(e.args) if isinstance(a, ast.Starred)}
        if base is not None:
            r = self.method(base, bv, name, args, kw, e, star)
            if r is not None:
                return r
        else:
            r = self.builtin(name, args, kw, e, star)
            if r is not None:
                return r
        return self.unknown(name, bv, args, kw, e)

    def family(self, cls, up=True, down=True):
        """a class of the generator with what it inherits from and what inherits from it"""
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            if c in out or c not in self.od.classes:
                continue
            out.append(c)
            if up:
                for m, n in self.od.classes[c]:
                    todo += [b.id for b in n.bases if isinstance(b, ast.Name)] + [b.attr for b in n.bases if isinstance(b, ast.Attribute)]
        if down:
            for c, defs in self.od.classes.items():
                if c not in out and cls in self.family(c, True, False):
                    out += [x for x in self.family(c, True, False) if x not in out]
        return out

    def candidates(self, name, base):
        own = self.od.fns.get(name, [])
        if base is None:
            return [x for x in own if x.cls is None]
        own = [x for x in own if x.cls is not None] or own
        cls = self.fn.cls if self.fn else None
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "super":
            fam = self.family(cls, True, False)[1:] if cls else []
            return [x for x in own if x.cls in fam]
        if isinstance(base, ast.Name) and base.id in ("self", "cls") and cls:
            fam = self.family(cls)
            return [x for x in own if x.cls in fam] or ([] if name == "__init__" else own)
        if isinstance(base, ast.Name) and base.id in self.od.classes:
            fam = self.family(base.id, True, False)
            return [x for x in own if x.cls in fam]
        return [] if name == "__init__" else own

    def container(self, bv, name, base):
        """a method of a container rather than one of the generator's"""
        return bool(bv.tags.keys() & {"U", "O", "K"}) and name in ("update", "add", "get", "items", "keys", "values", "remove", "union")

    def arguments(self, f, base, e):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.node.decorator_list)
        if f.cls is not None and not static and names:
            names = names[1:]
        out = {}
        defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)][len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults))
        for i, x in enumerate(e.args):
            v = self.ev(x.value if isinstance(x, ast.Starred) else x)
            if isinstance(x, ast.Starred):
                el = self.element(v)
                w = self.ordered(v)
                for n in names[i:]:
                    out[n] = tagged(el, "V", w) if w else el
                if a.vararg:
                    out[a.vararg.arg] = v
                break
            if i < len(names):
                out[names[i]] = v
            elif a.vararg:
                out[a.vararg.arg] = join(out.get(a.vararg.arg), Val({}, v.noref()))
        every = set(names) | {x.arg for x in a.kwonlyargs}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg in every:
                out[k.arg] = v
        return out

    def own_call(self, fns, base, e):
        ret = None
        exprs = {}
        for f in fns:
            args = self.arguments(f, base, e)
            r, eff = self.od.call(f, args, self.ctx)
            if f.node is (self.fn and self.fn.node):
                self.recursive = True
            r = self.resolve(r, args)
            ret = join(ret, r) if ret is not None else r
            a = f.node.args
            names = [x.arg for x in a.posonlyargs + a.args]
            if f.cls is not None and names and not any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in f.node.decorator_list):
                names = names[1:]
            for p, v in eff.items():
                if p in names and names.index(p) < len(e.args):
                    self.mutate(e.args[names.index(p)], elem=v.elem, commutes=True)
                    for t, w in v.tags.items():
                        self.mutate(e.args[names.index(p)], tag=(t, w), commutes=True)
        return ret

    def resolve(self, v, args):
        if isinstance(v.ref, tuple):
            a = args.get(v.ref[1])
            return Val(v.tags, v.elem, a.ref if a is not None else None, v.fn)
        return v

    def local_call(self, v, e):
        node, env = v.fn
        a = An(self.od, self.mod, self.fn, {}, self.ctx)
        a.outer = {**(self.outer or {}), **env}
        ps = [x.arg for x in node.args.posonlyargs + node.args.args]
        for i, x in enumerate(e.args):
            val = self.ev(x.value if isinstance(x, ast.Starred) else x)
            if i < len(ps):
                a.env[ps[i]] = val.noref()
        for k in e.keywords:
            a.env[k.arg] = self.ev(k.value).noref()
        for p in ps + [x.arg for x in node.args.kwonlyargs]:
            a.env.setdefault(p, CLEAN)
        if self.depth_of() > 6:
            return CLEAN
        a.depth = self.depth_of() + 1
        if isinstance(node, ast.Lambda):
            return a.ev(node.body).noref()
        a.block(node.body)
        for n, val in a.env.items():      # changes of what belongs to the function around it
            if n not in ps and n in env and n not in {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}:
                env[n] = join(env[n], val)
                if n in self.env:
                    self.env[n] = join(self.env[n], val)
        return (a.ret or CLEAN).noref()

    depth = 0

    def depth_of(self):
        return self.depth

    def construct(self, name, e):
        for m, c in self.od.classes[name]:
            inits = [f for f in self.od.fns.get("__init__", []) if f.cls == name]
            if inits:
                self.own_call(inits, None, e)
                continue
            names = self.fieldnames(c)
            for i, x in enumerate(e.args):
                v = self.ev(x.value if isinstance(x, ast.Starred) else x)
                if i < len(names):
                    self.od.store("attr:" + names[i], v)
            for k in e.keywords:
                if k.arg:
                    self.od.store("attr:" + k.arg, self.ev(k.value))
        return CLEAN

    def fieldnames(self, c):
        out = []
        for b in c.bases:
            if isinstance(b, ast.Name) and b.id in self.od.classes:
                out += self.fieldnames(self.od.classes[b.id][0][1])
        return out + [s.target.id for s in c.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]

    def key_total(self, k, e):
        """does sorting by the key put everything in a total order"""
        if k is None or isinstance(k, ast.Constant) and k.value is None:
            return True
        if isinstance(k, ast.Name) and k.id in ("str", "repr"):
            return True
        if isinstance(k, ast.Name) and k.id in self.env and self.env[k.id].fn:
            k = self.env[k.id].fn[0]
            if isinstance(k, ast.FunctionDef):
                rs = [s.value for s in ast.walk(k) if isinstance(s, ast.Return)]
                return bool(rs) and all(self.carries(r, k.args.args[0].arg if k.args.args else None) for r in rs)
        if isinstance(k, ast.Lambda):
            return self.carries(k.body, k.args.args[0].arg if k.args.args else None)
        return False

    def carries(self, r, p):
        if isinstance(r, ast.Name):
            return r.id == p
        if isinstance(r, ast.Tuple):
            return any(self.carries(x, p) for x in r.elts)
        if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id in ("str", "repr") and r.args:
            return self.carries(r.args[0], p)
        if isinstance(r, ast.IfExp):
            return self.carries(r.body, p) and self.carries(r.orelse, p)
        return False

    def keyword(self, e, n):
        for k in e.keywords:
            if k.arg == n:
                return k.value
        return None

    def sort(self, v, e):
        k = self.keyword(e, "key")
        kv = None
        if k is not None:
            f = self.ev(k)
            if f.fn:
                fake = ast.Call(func=k, args=[], keywords=[])
                ast.copy_location(fake, e)
                a = An(self.od, self.mod, self.fn, {}, None)
                a.outer = {**(self.outer or {}), **f.fn[1]}
                node = f.fn[0]
                if node.args.args:
                    a.env[node.args.args[0].arg] = (v.elem or CLEAN).noref()
                if isinstance(node, ast.Lambda):
                    kv = a.ev(node.body)
                else:
                    a.block(node.body)
                    kv = a.ret
            elif isinstance(k, ast.Name) and k.id in ("hash", "id"):
                kv = Val({"V": "%s at %s" % (VARYING[k.id], self.at(e))})
        if kv is not None and (kv.has("V") or kv.elem and kv.elem.has("V")):
            return tagged(v, "O", "sorting by " + (kv.why("V") or kv.elem.why("V")))
        if self.key_total(k, e):
            if v.has("U", "O"):
                self.od.sorts.add(self.at(e))
            return untag(v, "U", "O", "K")
        w = v.why("U", "O")
        if w:
            return tagged(untag(v, "U", "K"), "O", w + ", not ordered totally by the sorting at " + self.at(e))
        return untag(v, "K")

    def builtin(self, n, args, kw, e, star):
        a = args[0] if args else None
        if n in ("set", "frozenset"):
            el = a.elem if a is not None else None
            t = {"U": "the set at %s" % self.at(e)}
            if a is not None and a.has("V"):
                t["V"] = a.why("V")
            return Val(t, el)
        if n == "sorted" and a is not None:
            return self.sort(a.noref(), e)
        if n in ("list", "tuple", "iter", "reversed", "enumerate", "dict", "deque", "OrderedDict"):
            if a is None:
                out = Val()
            else:
                out = untag(a.noref(), "K")
                if out.has("U"):
                    out = tagged(untag(out, "U"), "O", a.why("U"))
            for k, v in kw.items():
                if k:
                    self.od.store("item:" + k, v)
                if v.tags or v.elem:
                    out = Val(out.tags, join(out.elem, v.noref()))
            return cut(out)
        if n in ("zip", "map", "filter", "chain"):
            t, el = {}, None
            for v in args:
                w = self.ordered(v)
                if w:
                    t["O"] = w
                if v.has("V"):
                    t["V"] = v.why("V")
                el = join(el, v.elem)
            if n == "map" and isinstance(e.args[0], (ast.Lambda, ast.Name)):
                f = self.ev(e.args[0])
                if f.fn and args[1:]:
                    b = An(self.od, self.mod, self.fn, {}, self.ctx)
                    b.outer = {**(self.outer or {}), **f.fn[1]}
                    node = f.fn[0]
                    for p, v in zip(node.args.args, args[1:]):
                        b.env[p.arg] = self.element(v).noref()
                    if isinstance(node, ast.Lambda):
                        el = b.ev(node.body).noref()
                elif isinstance(e.args[0], ast.Name) and e.args[0].id in ("str", "repr"):
                    w = deep(el)
                    el = Val({"V": w} if w else {})
            return cut(Val(t, el))
        if n in NOORDER:
            if n in ("min", "max") and a is not None:
                w = a.why("U", "O") if self.keyword(e, "key") is not None and not self.key_total(self.keyword(e, "key"), e) else None
                out = a.elem or CLEAN
                w = w or a.why("V")
                return tagged(out, "V", w) if w else out
            w = a.why("V") if a is not None else None
            if n in ("any", "all", "sum") and a is not None and a.elem is not None:
                w = w or a.elem.why("V")
            return Val({"V": w} if w else {})
        if n == "next" and a is not None:
            w = self.ordered(a) or a.why("V")
            return tagged(self.element(a), "V", w) if w else self.element(a)
        if n in ("str", "repr", "format", "ascii"):
            w = deep(a) if a is not None else None
            t = {"V": w} if w else {}
            if a is not None and a.has("P"):
                t["P"] = a.why("P")
            return Val(t)
        if n in ("hash", "id"):
            return Val({"V": "%s at %s" % (VARYING[n], self.at(e))})
        if n in ("int", "float", "bool", "abs", "round"):
            return Val({"V": a.why("V")} if a is not None and a.has("V") else {})
        if n in ("print", "super", "range", "exit"):
            return CLEAN
        if n == "defaultdict":
            return Val(elem=Val({"U": "the sets made at %s" % self.at(e)}) if e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == "set" else None)
        if n == "getattr" and len(e.args) > 1:
            if isinstance(e.args[1], ast.Constant):
                return join(self.od.field("attr:%s" % e.args[1].value), args[2] if len(args) > 2 else None)
            return CLEAN
        if n == "setattr" and len(e.args) > 2 and isinstance(e.args[1], ast.Constant):
            self.od.store("attr:%s" % e.args[1].value, args[2])
            return CLEAN
        if n in ("copy", "deepcopy") and a is not None:
            return a.noref()
        if n == "vars" and a is not None:
            return CLEAN
        if n == "open":
            return self.opened(a, args, kw, e)
        return None

    def mode(self, e):
        m = self.keyword(e, "mode")
        if m is None and len(e.args) > 1:
            m = e.args[1]
        return m.value if isinstance(m, ast.Constant) and isinstance(m.value, str) else ("r" if m is None else "?")

    def opened(self, a, args, kw, e):
        t = {"H": self.at(e)}
        if a is not None and a.has("P") and any(c in self.mode(e) for c in "r+?"):
            t["V"] = "what was in the output folder, read at %s" % self.at(e)
        if a is not None and a.has("V"):
            t["V"] = a.why("V")
        return Val(t)

    def report(self, what, v, e, name):
        w = deep(v) or path(v)
        self.od.sinks.add((self.at(e), name))
        if w:
            self.od.reports.setdefault((self.at(e), name), w)

    def method(self, base, bv, n, args, kw, e, star):
        a = args[0] if args else None
        mod = isinstance(base, ast.Name) and base.id
        if isinstance(base, ast.Call) and isinstance(base.func, ast.Name) and base.func.id == "__import__" and base.args and isinstance(base.args[0], ast.Constant):
            mod = base.args[0].value
        # modules
        if mod in ("copy",) and n in ("copy", "deepcopy") and a is not None:
            return a.noref()
        if mod in ("time", "random", "uuid", "datetime", "secrets", "platform", "socket", "getpass") and mod not in self.env:
            return Val({"V": "%s at %s" % (VARYING.get(mod, mod), self.at(e))})
        if mod == "itertools" and n == "chain":
            return self.builtin("chain", args, kw, e, star)
        if n in VARYING and n not in ("id", "hash", "sample", "shuffle", "time", "platform") or n in ("now", "today", "utcnow"):
            return Val({"V": "%s at %s" % (VARYING.get(n, "the time"), self.at(e))})
        if n == "get" and bv.has("V"):
            return Val({"V": bv.why("V")})
        if n in LISTING and (mod in ("os", "glob") or n in ("iterdir", "rglob", "glob")):
            t = {"O": "the order of the files at %s" % self.at(e)}
            src = a if a is not None else bv
            if src.has("P") or bv.has("P"):
                t["V"] = "what is in the output folder, asked at %s" % self.at(e)
                t["P"] = "the output folder"
            return Val(t)
        if n in ASKING and ((a is not None and a.has("P")) or bv.has("P")):
            return Val({"V": "what is in the output folder, asked at %s" % self.at(e)})
        if n == "open" and mod in ("io", "codecs", "os"):
            return self.opened(a, args, kw, e)
        if n == "open" and bv.has("P"):
            return self.opened(bv, args, kw, e)
        # files and templates
        if n in ("write", "writelines") and bv.has("H"):
            for v in args:
                self.report("written", v, e, "what is written")
            return CLEAN
        if n in ("write_text", "write_bytes"):
            for v in args:
                self.report("written", v, e, "what is written")
            return CLEAN
        if n in ("read", "readlines", "readline") and bv.has("H"):
            return Val({"V": bv.why("V")} if bv.has("V") else {}, Val({"V": bv.why("V")}) if bv.has("V") else None)
        if n == "render":
            for v in list(args) + list(kw.values()):
                self.report("rendered", Val({"V": v.why("V")} if v.has("V") else {}), e, "what the template is filled with")
            return Val({"V": x.why("V") for x in list(args) + list(kw.values()) if x.has("V")})
        if n == "Environment":
            return CLEAN      # the cache of compiled templates is keyed by the text of the template
        if n in ("append", "insert", "appendleft", "push"):
            v = args[-1] if args else CLEAN
            self.mutate(base, elem=v)
            return CLEAN
        if n in ("extend", "extendleft"):
            w = a.why("U", "O") if a is not None else None
            self.mutate(base, tag=("O", w) if w else None, elem=a.elem if a is not None else None)
            if a is not None and a.has("V"):
                self.mutate(base, tag=("V", a.why("V")))
            return CLEAN
        if n in SETMUT:
            self.mutate(base, elem=a if n == "add" else (a.elem if a is not None else None), commutes=True)
            if n == "add" and not bv.has("U"):
                self.mutate(base, tag=("U", "the set at %s" % self.at(e)), commutes=True)
            return CLEAN
        if n == "update":
            for i, v in enumerate(args):
                x = v.elem if i in star and v.elem is not None else v
                if bv.has("U"):
                    self.mutate(base, elem=x.elem, commutes=True)
                    if x.has("V"):
                        self.mutate(base, tag=("V", x.why("V")), commutes=True)
                    continue
                w = x.why("O")
                if x.has("U"):
                    self.mutate(base, tag=("U", x.why("U")), elem=x.elem, commutes=True)
                else:
                    self.mutate(base, tag=("O", w) if w else None, elem=x.elem)
                if x.has("V"):
                    self.mutate(base, tag=("V", x.why("V")))
            for k, v in kw.items():
                if k:
                    self.od.store("item:" + k, v)
                self.mutate(base, elem=v)
            return CLEAN
        if n == "sort":
            new = self.sort(bv.noref(), e)
            if isinstance(base, ast.Name):
                cur = self.look(base.id)
                self.env[base.id] = Val(new.tags, new.elem, cur.ref, cur.fn)
            elif not bv.has("V"):
                k = ("attr:" + base.attr) if isinstance(base, ast.Attribute) else None
                if new.has("O") and not bv.has("O"):
                    self.mutate(base, tag=("O", new.why("O")), commutes=True)
            return CLEAN
        if n in SETOPS:
            t = {"U": bv.why("U") or (a is not None and a.why("U")) or "the set at %s" % self.at(e)}
            for v in [bv] + args:
                if v.has("V"):
                    t["V"] = v.why("V")
            el = bv.elem
            for v in args:
                el = join(el, v.elem)
            return Val(t, el)
        if n == "items":
            t = {k: w for k, w in bv.tags.items() if k in ("O", "V")}
            t["K"] = ""
            return Val(t, cut(Val({}, bv.elem.noref())) if bv.elem is not None else None)
        if n == "keys":
            t = {k: w for k, w in bv.tags.items() if k in ("O", "V")}
            t["K"] = ""
            return Val(t)
        if n == "values":
            return Val({k: w for k, w in bv.tags.items() if k in ("O", "V")}, bv.elem)
        if n in ("get", "setdefault", "pop"):
            if n == "pop" and not args or n == "pop" and isinstance(e.args[0], (ast.Constant, ast.UnaryOp)) and not isinstance(getattr(e.args[0], "value", None), str):
                w = self.ordered(bv) or bv.why("V")
                return tagged(self.element(bv), "V", w) if w else self.element(bv)
            d = args[1] if len(args) > 1 else kw.get("default")
            if n == "setdefault":
                self.mutate(base, elem=d)
            if e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str):
                f = self.od.field("item:" + e.args[0].value)
                return join(f, d)
            out = self.element(bv)
            w = a.why("V") if a is not None else None
            if w:
                out = tagged(out, "V", w)
            return join(out, d)
        if n == "popitem":
            w = self.ordered(bv)
            return tagged(self.element(bv), "V", w) if w else self.element(bv)
        if n == "copy" and not args:
            return bv.noref()
        if n == "fromkeys" and a is not None:
            w = self.ordered(a)
            return Val({"O": w} if w else {})
        if n == "join" and a is not None and len(args) == 1 and not mod == "path" and not (isinstance(base, ast.Attribute) and base.attr == "path"):
            w = deep(a) or bv.why("V")
            t = {"V": w} if w else {}
            if path(a):
                t["P"] = path(a)
            return Val(t)
        if n in ("format", "format_map"):
            w = bv.why("V")
            t = {}
            for v in list(args) + list(kw.values()):
                w = w or deep(v)
                if path(v):
                    t["P"] = path(v)
            if w:
                t["V"] = w
            return Val(t)
        if n == "isdisjoint" or n == "issubset" or n == "issuperset" or n == "count":
            return Val({"V": bv.why("V")} if bv.has("V") else {})
        if n in ("remove", "clear", "reverse"):
            return CLEAN
        if n == "index":
            w = self.ordered(bv) or bv.why("V")
            return Val({"V": w} if w else {})
        if n in ("dump", "dumps", "encode", "safe_dump"):
            w = None
            for v in args:
                w = w or deep(v)
            return Val({"V": w} if w else {})
        if n in ("split", "strip", "splitlines", "rsplit", "lstrip", "rstrip", "removeprefix", "removesuffix", "replace", "lower", "upper",
                 "capitalize", "partition", "rpartition", "decode", "title"):
            w = bv.why("V")
            for v in args:
                w = w or deep(v)
            t = {"V": w} if w else {}
            if bv.has("P"):
                t["P"] = bv.why("P")
            return Val(t, Val({"V": w}) if w else None)
        return None

    def unknown(self, n, bv, args, kw, e):
        t = {}
        for v in list(args) + list(kw.values()) + ([bv] if bv is not None else []):
            w = v.why("V")
            if n not in ("isinstance",):
                w = w or (v.why("U", "O") and "%s, given to '%s' at %s" % (v.why("U", "O"), n, self.at(e)))
                if not w and v.elem is not None and v.elem.has("V"):
                    w = v.elem.why("V")
            if w:
                t["V"] = w
            if v.has("P") and n in PATHS:
                t["P"] = v.why("P")
            if v.has("H"):
                t["H"] = v.why("H")
        return Val(t)
