"""Path sensitive (trace partitioned) dataflow over the control flow graphs.

Values and locations are access path terms (nested tuples); a state carries a
store for the locations written so far, the branch decisions taken and the trace
of effects.  Every loop is summarised by one iteration with the variables that
it changes replaced by induction/unknown terms, functions of the analysed code
base are expanded at their call sites up to a depth bound.  There is no solver:
branch decisions are only correlated when they are about the identical term."""
import re
import sys

sys.setrecursionlimit(20000)

NULL = ("c", None)
TRUE = ("c", True)
FALSE = ("c", False)


class TooComplex(Exception):
    pass


_strip_cache = {}


def base_name(q):
    """qualified name without template arguments"""
    r = _strip_cache.get(q)
    if r is None:
        s, depth = [], 0
        i = 0
        opm = re.search(r"operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)", q)
        while i < len(q):
            if opm and i == opm.start():
                s.append(opm.group(0).replace(" ", ""))
                i = opm.end()
                continue
            ch = q[i]
            if ch == "<":
                depth += 1
            elif ch == ">":
                depth -= 1
            elif depth == 0:
                s.append(ch)
            i += 1
        r = "".join(s)
        _strip_cache[q] = r
    return r


def C(v):
    return ("c", v)


def is_c(t):
    return isinstance(t, tuple) and t and t[0] == "c"


def show(t, d=0):
    """readable rendering of a term"""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if d > 12:
        return "..."
    s = lambda x: show(x, d + 1)
    if k == "c":
        return "nullptr" if t[1] is None else (t[1][4:] if isinstance(t[1], str) and t[1].startswith("str:") else str(t[1]))
    if k == "this":
        return "*this"
    if k == "par":
        return t[1].split("@")[0]
    if k == "f":
        if t[1] == ("this",):
            return t[2]
        return s(t[1]) + "." + t[2]
    if k == "deref":
        return "*(" + s(t[1]) + ")"
    if k == "addr":
        return "&" + s(t[1])
    if k == "elem":
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == "get":
        return "%s.<%s>" % (s(t[1]), t[2])
    if k == "size":
        return "size(%s)" % s(t[1])
    if k == "ind":
        return "i%s" % (t[1][-1] if isinstance(t[1], tuple) else t[1])
    if k == "call":
        return "%s(%s)" % (t[1], ", ".join(s(x) for x in t[2:4] if x is not None))
    if k in ("eq", "lt"):
        return "%s %s %s" % (s(t[1]), "==" if k == "eq" else "<", s(t[2]))
    if k == "nz":
        return s(t[1])
    if k == "not":
        return "!(%s)" % s(t[1])
    if k == "has":
        return "%s in %s" % (s(t[2]), s(t[1]))
    if k == "obj":
        return "new<%s>" % (t[2],)
    if k == "var":
        return t[2].split("@")[0]
    if k == "agg":
        return "{%s}" % ", ".join("%s" % s(v) for _, v in t[2])
    return "%s(%s)" % (k, ", ".join(s(x) for x in t[1:]))


class State:
    __slots__ = ("store", "vals", "env", "seq", "ev", "conds", "held", "loops", "ver", "nobj", "res", "act", "used")

    def __init__(self):
        self.store = {}
        self.vals = {}
        self.env = {}
        self.seq = 0
        self.ev = None
        self.conds = {}
        self.held = ()
        self.loops = {}
        self.ver = {}
        self.nobj = 0
        self.act = ()        # loops whose body is being executed (solo)
        self.used = False    # a loop body has been executed (solo)

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.vals = dict(self.vals)
        s.env = dict(self.env)
        s.seq = self.seq
        s.ev = self.ev
        s.conds = dict(self.conds)
        s.held = self.held
        s.loops = dict(self.loops)
        s.ver = dict(self.ver)
        s.nobj = self.nobj
        s.act = self.act
        s.used = self.used
        return s

    def emit(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out


def root_of(t):
    while isinstance(t, tuple) and t and t[0] in ("f", "elem", "get", "deref", "addr"):
        t = t[1]
    return t


COPIED = ("this", "deref", "par", "f", "var")


def has_prefix(t, p):
    while True:
        if t == p:
            return True
        if isinstance(t, tuple) and t and t[0] in ("f", "elem", "get", "deref"):
            t = t[1]
        else:
            return False


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def contains(t, p):
    if t == p:
        return True
    if isinstance(t, tuple):
        return any(contains(x, p) for x in t if isinstance(x, tuple))
    return False


def deref(v):
    if v[0] == "addr":
        return v[1]
    if v[0] == "it":
        return ("elem", v[1], v[2])
    return ("deref", v)


def addr(loc):
    if loc[0] == "deref":
        return loc[1]
    return ("addr", loc)


def neg(t):
    if t[0] == "not":
        return t[1]
    if is_c(t):
        return C(not t[1])
    return ("not", t)


def truth(t):
    """normalise a term in boolean context"""
    k = t[0]
    if k in ("not", "eq", "lt", "nz", "has", "isa"):
        return t
    if k == "c":
        return C(bool(t[1]))
    if k == "addr" or k == "obj" or k == "some":
        return TRUE
    if k == "nullopt":
        return FALSE
    if k == "agg" or k == "lam":
        return TRUE
    return ("nz", t)


def mk_eq(a, b):
    if a == b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if y[0] == "c" and (y[1] is None or y[1] is False or (y[1] == 0 and not isinstance(y[1], str))):
            return neg(truth(x)) if x[0] != "it" else ("eq", x, y)
        if y[0] == "c" and y[1] is True:
            return truth(x)
        if y[0] == "nullopt":
            return neg(truth(x))
        if y[0] == "some":
            return mk_eq(x, y[1])
        if x[0] == "it" and y[0] == "it" and x[1] == y[1]:
            if y[2] == ("size", y[1]) or (y[2][0] == "size" and y[2][1] == y[1]):
                if x[2][0] in ("key", "pos"):
                    return neg(("has", x[2][1] if x[2][0] == "pos" else x[1], x[2][-1]))
                return mk_eq(x[2], y[2])
    if a[0] == "c" and b[0] == "c":
        return C(a[1] == b[1])
    if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
        return mk_eq(a[2], b[2])
    # fresh objects are different from everything else
    if a[0] == "addr" and a[1][0] == "obj" and b[0] == "addr" and b[1][0] == "obj":
        return FALSE
    x, y = sorted((a, b), key=repr)
    return ("eq", x, y)


def projected(cont, pr):
    """the sequence of one part of all elements of a container"""
    if pr and pr[0][0] == "addr" and pr[0][1][0] == "field":
        return ("proj", cont, pr[0][1][1])
    return ("proj", cont, pr[0]) if pr and pr[0][0] in ("fn", "lam", "addr") else cont


def part_of(el, pr):
    if not pr:
        return el
    if pr[0][0] == "addr" and pr[0][1][0] == "field":
        f = pr[0][1][1]
        return ("get", el, 0) if f == "first" else ("get", el, 1) if f == "second" else ("f", el, f)
    return ("call", "proj", pr[0], (el,)) if pr[0][0] in ("fn", "lam", "addr") else el


def mk_lt(a, b):
    if a == b:
        return FALSE
    if a[0] == "c" and b[0] == "c" and not isinstance(a[1], str) and not isinstance(b[1], str) \
            and a[1] is not None and b[1] is not None:
        return C(a[1] < b[1])
    if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
        return mk_lt(a[2], b[2])
    if a == C(0) and b[0] in ("size",):
        return truth(b)
    if b == C(1) and a[0] in ("size",):
        return neg(truth(a))
    return ("lt", a, b)


def mk_add(a, b):
    if a == C(0):
        return b
    if b == C(0):
        return a
    num = lambda t: t[0] == "c" and isinstance(t[1], int) and not isinstance(t[1], bool)
    if num(a) and num(b):
        return C(a[1] + b[1])
    if a[0] == "it":
        return ("it", a[1], mk_add(a[2], b))
    if b[0] == "it":
        return ("it", b[1], mk_add(b[2], a))
    if num(a) and not num(b):
        a, b = b, a
    if num(b) and a[0] == "add" and num(a[2]):
        return mk_add(a[1], C(a[2][1] + b[1]))
    if not num(b):
        a, b = sorted((a, b), key=repr)
    return ("add", a, b)


def mk_sub(a, b):
    if b == C(0):
        return a
    if a == b:
        return C(0)
    if a[0] == "it" and b[0] == "it" and a[1] == b[1]:
        return mk_sub(a[2], b[2])
    if a[0] == "it":
        return ("it", a[1], mk_sub(a[2], b))
    if b[0] == "c" and isinstance(b[1], int):
        return mk_add(a, C(-b[1]))
    if a[0] == "add" and a[2] == b:
        return a[1]
    if a[0] == "add" and a[1] == b:
        return a[2]
    return ("sub", a, b)


SMART = ("std::unique_ptr", "std::shared_ptr", "podio::utils::MaybeSharedPtr", "std::__shared_ptr",
         "std::__shared_ptr_access", "std::__uniq_ptr_impl")
CONT = ("std::vector", "std::deque", "std::map", "std::unordered_map", "std::set", "std::unordered_set",
        "std::multimap", "std::array", "std::basic_string", "std::basic_string_view", "std::initializer_list",
        "std::_Base", "std::list", "std::span", "std::string", "std::string_view")
STRINGS = ("std::basic_string", "std::basic_string_view", "std::filesystem::path", "std::string", "std::string_view")
LOCKS = ("std::lock_guard", "std::unique_lock", "std::scoped_lock", "std::shared_lock")
IDENT = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::move_if_noexcept",
         "std::addressof_", "std::launder", "std::to_underlying", "std::string_view",
         "std::forward_like"}


class Frame:
    __slots__ = ("fn", "this", "depth", "stack", "key", "env0", "loopheads")

    def __init__(self, fn, this, depth, stack, key):
        self.fn, self.this, self.depth, self.stack, self.key = fn, this, depth, stack, key


class Outcome:
    """one abstract path through a function"""

    def __init__(self, kind, value, state, fn):
        self.kind, self.value, self.state, self.fn = kind, value, state, fn
        self._ev = None

    @property
    def events(self):
        if self._ev is None:
            self._ev = self.state.events()
        return self._ev

    @property
    def held(self):
        return self.state.held

    @property
    def conds(self):
        return self.state.conds

    @property
    def tests(self):
        """every condition that was tested on the path with its outcome when
        it was first tested (conds: those that still hold at the end)"""
        if not hasattr(self, "_tests"):
            d = {}
            for e in self.events:
                if e[0] == "br":
                    d.setdefault(e[1], e[2])
            for a, v in self.conds.items():
                d.setdefault(a, v)
            self._tests = d
        return self._tests

    def calls(self, *names):
        return [e for e in self.events if e[0] == "call" and (not names or e[1] in names or e[1].split("::")[-1] in names)]

    def writes(self):
        return [e for e in self.events if e[0] == "wr"]

    def load(self, loc):
        return INTERP_LOAD(self.state, loc)

    def path(self):
        out = []
        for e in self.events:
            if e[0] == "br":
                out.append(("" if e[2] else "!") + "(" + show(e[1]) + ")")
        return " && ".join(out) or "(unconditional)"


def INTERP_LOAD(st, loc, depth=0):
    v = st.store.get(loc)
    if v is not None:
        return v
    if depth > 30:
        return loc
    if loc[0] in ("f", "get"):
        b = loc[1]
        vb = INTERP_LOAD(st, b, depth + 1)
        if vb == b:
            return loc
        return project(st, vb, loc[0], loc[2], depth)
    if loc[0] == "elem":
        b = loc[1]
        vb = INTERP_LOAD(st, b, depth + 1)
        if vb == b:
            return loc
        if vb[0] == "agg":
            i = loc[2]
            if is_c(i) and isinstance(i[1], int) and i[1] < len(vb[2]):
                return vb[2][i[1]][1]
            return loc
        if vb[0] in ("f", "get", "elem", "deref", "par", "var", "obj", "call", "get"):
            return INTERP_LOAD(st, ("elem", vb, loc[2]), depth + 1)
        return loc
    return loc


def project(st, v, kind, name, depth=0):
    if v[0] == "agg":
        if kind == "f":
            for n, x in v[2]:
                if n == name:
                    return x
        elif kind == "get" and isinstance(name, int) and name < len(v[2]):
            return v[2][name][1]
        return (kind, v, name)
    if v[0] in ("f", "get", "elem", "deref", "par", "var", "obj", "this", "g"):
        return INTERP_LOAD(st, (kind, v, name), depth + 1)
    return (kind, v, name)


SMALL = {"char", "signed char", "unsigned char", "short", "unsigned short", "char8_t", "char16_t"}


def narrowed(to, frm, x):
    """the value of a conversion that can lose values"""
    if x[0] == "c" or x[0] == "narrow" and x[1] == to:
        return x
    if to not in SMALL and to not in ("float", "double") and frm and frm.split(" ")[0] not in ("float", "double") and counts(x):
        return x    # there are never more than 2^31 objects
    return ("narrow", to, x)


def counts(x):
    if x[0] in ("add", "sub"):
        return all(counts(y) for y in x[1:])
    return x[0] in ("size", "ind", "pos", "c", "length", "distance")


class Interp:
    def __init__(self, prog, maxdepth=8, opaque=None, track=None, maxstates=6000, expand_virtual=False, inline_dtors=False, once=False, solo=False):
        self.prog = prog
        self.maxdepth = maxdepth
        self.opaque = opaque or (lambda ref: False)
        self.track = track
        self.maxstates = maxstates
        self.nstates = 0
        self.expand_virtual = expand_virtual
        self.inline_dtors = inline_dtors
        # once: only follow the paths on which every loop body is executed
        self.once = once or solo
        # solo: on each path the body of at most one outermost loop is
        # executed, the others only have their effect on variables summarised
        self.solo = solo
        self.analysed = set()
        self.uid = 0

    # ------------------------------------------------------------------ API
    def run(self, fn, this=("this",), args=None, state=None):
        """all abstract paths through fn"""
        self.nstates = 0
        st = state or State()
        if args is None:
            args = [("par", p["v"]) for p in fn.params]
        outs = []
        for kind, val, s in self.call_function(fn, this, args, st, 0, (), ("top",)):
            outs.append(Outcome(kind, val, s, fn))
        return outs

    # ------------------------------------------------------------ functions
    def call_function(self, fn, this, args, st, depth, stack, key):
        """args: list of terms (locations for references, values otherwise).
        yields (kind, value, state)"""
        self.analysed.add(fn.id)
        fr = Frame(fn, this, depth, stack + (fn.id,), key)
        saved = (st.env, st.vals, st.loops)
        st = st.copy()
        st.env = {}
        st.vals = {}
        st.loops = {}
        for p, a in zip(fn.params, args):
            if p["isref"]:
                st.env[p["v"]] = a
            else:
                loc = ("var", key, p["v"])
                st.env[p["v"]] = loc
                st.store[loc] = a
        if "lambda" in fn.raw or (fn.raw.get("rec") or "").startswith("(lambda") or "lambda" in str(fn.rec):
            pass
        act = st.act
        outs = self.exec_cfg(fr, st)
        for kind, val, s in outs:
            s.act = act
            s.env, s.vals, s.loops = dict(saved[0]), dict(saved[1]), dict(saved[2])
            yield kind, val, s

    def call_lambda(self, lam, args, st, depth, stack, key):
        fn = self.prog.funcs.get(lam[1])
        if fn is None or lam[1] in stack:
            return None
        self.analysed.add(fn.id)
        fr = Frame(fn, None, depth, stack + (fn.id,), key)
        saved = (st.env, st.vals, st.loops)
        st = st.copy()
        st.env = {}
        st.vals = {}
        st.loops = {}
        for nm, isref, t in lam[2]:
            if nm == "this":
                fr.this = t
            elif isref:
                st.env[nm] = t
            else:
                loc = ("var", key, "cap " + nm)
                st.env[nm] = loc
                st.store[loc] = t
        for p, a in zip(fn.params, args):
            if p["isref"]:
                st.env[p["v"]] = a
            else:
                loc = ("var", key, p["v"])
                st.env[p["v"]] = loc
                st.store[loc] = self.load(st, a)
        out = []
        for kind, val, s in self.exec_cfg(fr, st):
            s.env, s.vals, s.loops = dict(saved[0]), dict(saved[1]), dict(saved[2])
            out.append((kind, val, s))
        return out

    def loop_info(self, fn):
        """loop heads with the variables that are changed in the loop"""
        info = getattr(self, "_loopinfo", None)
        if info is None:
            info = self._loopinfo = {}
        if fn.id in info:
            return info[fn.id]
        preds = {}
        for b in fn.blocks.values():
            for s in b["s"]:
                if s >= 0:
                    preds.setdefault(s, []).append(b["b"])
        # find back edges by DFS
        heads = {}
        color = {}
        stack = [(fn.entry, iter(fn.blocks[fn.entry]["s"]))]
        color[fn.entry] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s < 0 or s not in fn.blocks:
                    continue
                if color.get(s, 0) == 0:
                    color[s] = 1
                    stack.append((s, iter(fn.blocks[s]["s"])))
                    break
                if color[s] == 1:
                    heads.setdefault(s, set()).add(b)
            else:
                color[b] = 2
                stack.pop()
        res = {}
        where = {}
        for h, tails in heads.items():
            body = {h}
            work = list(tails)
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(preds.get(x, []))
            changed = {}
            nodes = {}
            home = {}
            for b in body:
                for e in fn.blocks[b]["e"]:
                    nodes[e["i"]] = e
                    home[e["i"]] = b

            def var_of(i):
                n = nodes.get(i) or fn.pend.get(i)
                while n and n["k"] in ("cast", "alias", "load"):
                    n = nodes.get(n.get("x"))
                if n and n["k"] == "var":
                    return n["v"]
                if n and n["k"] == "binding":
                    bound[(n["v"], n["n"])] = n
                    return (n["v"], n["n"])
                return None

            bound = {}
            declared = set()
            for n in nodes.values():
                if n["k"] == "decl":
                    declared.add(n["v"])
            for n in nodes.values():
                v, how = None, "any"
                if n["k"] == "asg":
                    v = var_of(n["x"])
                    if v and n.get("op") == "+":
                        y = nodes.get(n["y"]) or fn.pend.get(n["y"])
                        if y and y["k"] == "lit" and isinstance(y.get("val"), int):
                            how = y["val"]
                elif n["k"] == "un" and n["op"] in ("++", "--"):
                    v = var_of(n["x"])
                    how = 1 if n["op"] == "++" else -1
                elif n["k"] == "call" and n.get("f", {}).get("op") in ("++", "--", "+=", "="):
                    o = n.get("obj")
                    if o is None and n["a"]:
                        o = n["a"][0]
                    v = var_of(o)
                    if n["f"]["op"] == "++":
                        how = 1
                    elif n["f"]["op"] == "--":
                        how = -1
                if v and v not in declared and not (isinstance(v, tuple) and v[0] in declared):
                    if v in changed:
                        changed[v] = "any"
                    else:
                        changed[v] = how if not isinstance(how, int) or self.each_round(fn, h, body, home[n["i"]]) else "any"
                        where[(h, v)] = home[n["i"]]
            for k in list(changed):
                if isinstance(k, tuple):
                    changed[(k, id(bound[k]))] = (bound[k], changed.pop(k))
            res[h] = (body, changed)
        for (h, v), b in where.items():
            # done several times per round by an inner loop
            if not isinstance(v, tuple) and isinstance(res[h][1][v], int) and any(h2 != h and h2 in res[h][0] and b in res[h2][0] for h2 in res):
                res[h][1][v] = "any"
        info[fn.id] = res
        return res

    @staticmethod
    def each_round(fn, h, body, blk):
        """is block blk part of every round of the loop with header h"""
        if blk == h:
            return True
        seen, work = set(), [h]
        while work:
            b = work.pop()
            for s in fn.blocks[b]["s"]:
                if s == h:
                    return False
                if s in body and s != blk and s not in seen:
                    seen.add(s)
                    work.append(s)
        return True

    # --------------------------------------------------------------- CFG walk
    def exec_cfg(self, fr, st0):
        fn = fr.fn
        loops = self.loop_info(fn)
        work = [(fn.entry, 0, st0)]
        results = []
        while work:
            b, idx, st = work.pop()
            self.nstates += 1
            if self.nstates > self.maxstates:
                raise TooComplex("more than %d abstract states in %s" % (self.maxstates, fn))
            blk = fn.blocks[b]
            if idx == 0 and st.act and any(k == fr.key and b not in loops[h][0] for k, h in st.act):
                st.act = tuple(x for x in st.act if x[0] != fr.key or b in loops[x[1]][0])
            if idx == 0 and b in loops:
                n = st.loops.get(b, 0)
                if n == 0:
                    self.enter_loop(fr, st, b, loops[b])
                    st.loops[b] = 1
                elif n == 1:
                    st.loops[b] = 2
                    st.act = tuple(x for x in st.act if x != (fr.key, b))
                    st.emit("endloop", (fr.key, b))
                else:
                    # nested loop entered again
                    self.enter_loop(fr, st, b, loops[b])
                    st.loops[b] = 1
            if b == fn.exit:
                results.append(("ret", st.vals.get("$ret"), st))
                continue
            els = blk["e"]
            stopped = False
            while idx < len(els):
                r = self.exec_node(fr, st, els[idx])
                if r is None:
                    idx += 1
                    continue
                # list of (state | ('throw', term, state))
                conts = []
                for x in r:
                    if x[0] == "throw":
                        results.append(("throw", x[1], x[2]))
                    elif x[0] == "go":
                        conts.append(x[1])
                if not conts:
                    stopped = True
                    break
                for s2 in conts[1:]:
                    work.append((b, idx + 1, s2))
                st = conts[0]
                idx += 1
            if stopped:
                continue
            if blk.get("noret"):
                continue
            succs = blk["s"]
            tk = blk.get("tk")
            live = [s for s in succs if s >= 0]
            if tk == "SwitchStmt" and "c" in blk:
                self.do_switch(fr, st, blk, work)
                continue
            if len(succs) == 2 and "c" in blk and tk not in ("CXXTryStmt",):
                t = truth(self.value(fr, st, blk["c"]))
                if tk == "BinaryOperator" and False:
                    pass
                self.branch(fr, st, t, succs[0], succs[1], work, b, loops, blk)
                continue
            if tk == "CXXForRangeStmt" and len(succs) == 2:
                self.branch(fr, st, ("nz", ("unk", fr.key, b)), succs[0], succs[1], work, b, loops, blk)
                continue
            if not live:
                results.append(("ret", st.vals.get("$ret"), st))
                continue
            for s in live[1:]:
                work.append((s, 0, st.copy()))
            work.append((live[0], 0, st))
        return results

    def branch(self, fr, st, t, tb, fb, work, b, loops, blk):
        force = None
        # second arrival at a loop head: leave
        inner = [h for h, (body, _) in loops.items() if b in body and st.loops.get(h) == 2]
        for h in inner:
            body = loops[h][0]
            tin, fin = tb in body, fb in body
            if tin != fin:
                force = not tin
        pol = True
        a = t
        if a[0] == "not":
            a, pol = a[1], False
        if is_c(a):
            val = bool(a[1]) == pol
            if force is not None and force != val:
                # constant loop conditions (while true): only leave through break
                return
            nxt = tb if val else fb
            if nxt >= 0:
                work.append((nxt, 0, st))
            return
        if force is not None:
            st.emit("br", a, force == pol)
            nxt = tb if force else fb
            if nxt >= 0:
                work.append((nxt, 0, st))
            return
        known = st.conds.get(a)
        if known is None and a[0] == "nz":
            # size known through another comparison etc.: not tracked
            pass
        if known is not None:
            nxt = tb if known == pol else fb
            if nxt >= 0:
                work.append((nxt, 0, st))
            return
        isloop = any(b in body and ((tb in body) != (fb in body)) for body, _ in loops.values())
        vals = (True, False)
        enter = None
        if self.once and isloop:
            inb = [h for h, (body, _) in loops.items() if b in body and (tb in body) != (fb in body) and st.loops.get(h) == 1]
            # the exit condition that is evaluated before anything else in the loop
            if any(self.is_head_exit(fr.fn, h, loops[h][0], b) for h in inb):
                vals = (True,) if any(tb in loops[h][0] for h in inb) else (False,)
                if self.solo and not st.act:
                    body = vals[0]
                    vals = (not body,) if st.used else (body, not body)
                    enter = (body, (fr.key, inb[0]))
        for val in vals:
            nxt = tb if val else fb
            if nxt < 0:
                continue
            s2 = st.copy()
            if enter is not None and val == enter[0]:
                s2.act += (enter[1],)
                s2.used = True
            av = (val == pol)
            s2.conds[a] = av
            s2.emit("br", a, av, blk.get("tl"), isloop)
            work.append((nxt, 0, s2))

    def is_head_exit(self, fn, h, body, b):
        """is b part of the loop condition (and not a break in the body)"""
        tk = fn.blocks[b].get("tk")
        return b == h or tk in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt")

    def do_switch(self, fr, st, blk, work):
        v = self.value(fr, st, blk["c"])
        fn = fr.fn
        cases = []
        dflt = None
        for s in blk["s"]:
            if s < 0:
                continue
            tb = fn.blocks[s]
            if "casev" in tb:
                cases.append((s, C(tb["casev"])))
            elif "case" in tb:
                cases.append((s, self.value(fr, st, tb["case"])))
            else:
                dflt = s
        negs = []
        for s, cv in cases:
            t = mk_eq(v, cv)
            if t == FALSE:
                continue
            a, pol = (t[1], False) if t[0] == "not" else (t, True)
            s2 = st.copy()
            for n in negs:
                na, np_ = (n[1], True) if n[0] == "not" else (n, False)
                s2.conds[na] = np_
                s2.emit("br", na, np_, blk.get("tl"), False)
            if not is_c(a):
                known = s2.conds.get(a)
                if known is not None and known != pol:
                    continue
                s2.conds[a] = pol
                s2.emit("br", a, pol, blk.get("tl"), False)
            work.append((s, 0, s2))
            if t == TRUE:
                return
            negs.append(t)
        if dflt is not None:
            s2 = st.copy()
            for n in negs:
                na, np_ = (n[1], True) if n[0] == "not" else (n, False)
                s2.conds[na] = np_
                s2.emit("br", na, np_, blk.get("tl"), False)
            work.append((dflt, 0, s2))

    def enter_loop(self, fr, st, b, info):
        body, changed = info
        L = (fr.key, b)
        for v, how in changed.items():
            if isinstance(v, tuple):
                loc = self.binding_loc(fr, st, how[0])
                v, how = how[0]["v"] + "." + how[0]["n"], how[1]
                if root_of(loc)[0] != "var":
                    continue
            else:
                loc = st.env.get(v)
            if loc is None:
                continue
            cur = self.load(st, loc)
            if isinstance(how, int):
                if cur[0] == "it":
                    nv = ("it", cur[1], ("ind", L, cur[2], how))
                else:
                    nv = ("ind", L, cur, how)
            elif cur[0] == "it":
                nv = ("it", cur[1], ("hav", L, v.split("@")[0]))
            else:
                nv = ("hav", L, v.split("@")[0])
            self.store(st, loc, nv)
            if nv[0] == "hav":
                st.emit("havoc", nv, cur)
        st.emit("loop", L)

    # ------------------------------------------------------------------ store
    def load(self, st, loc):
        if loc[0] in ("c", "add", "sub", "eq", "lt", "not", "nz", "addr", "call", "agg", "lam", "it", "ind", "hav",
                      "size", "has"):
            return loc
        return INTERP_LOAD(st, loc)

    def store(self, st, loc, val):
        if loc[0] in ("f", "elem", "get"):
            # records that were copied from here before keep the old content
            for k, v in [(k, v) for k, v in st.store.items() if v[0] in COPIED and v != loc and v != k and has_prefix(loc, v)]:
                part = rebase(loc, v, k)
                if part not in st.store and part != loc and not has_prefix(loc, k):
                    st.store[part] = INTERP_LOAD(st, part)
        for k in [k for k in st.store if k != loc and has_prefix(k, loc)]:
            del st.store[k]
        st.store[loc] = val
        self.fold(st, loc, val)
        # decisions about the old content do not hold any more
        if st.conds:
            for k in [k for k in st.conds if contains(k, loc)]:
                del st.conds[k]

    def fold(self, st, loc, val):
        """a list of values that a part of is replaced"""
        while loc[0] in ("f", "get", "elem"):
            b, n = loc[1], loc[2]
            vb = st.store.get(b)
            if vb is None:
                vb = INTERP_LOAD(st, b) if any(has_prefix(b, k) for k in st.store) else b
            if vb[0] != "agg":
                return
            if loc[0] != "f":
                if loc[0] == "elem":
                    n = n[1] if is_c(n) else None
                if not isinstance(n, int) or n >= len(vb[2]):
                    return
                n = vb[2][n][0]
            if not any(k == n for k, _ in vb[2]):
                return
            val = ("agg", vb[1], tuple((k, val if k == n else x) for k, x in vb[2]))
            st.store[b] = val
            loc = b

    def bump(self, st, loc):
        st.ver[loc] = st.ver.get(loc, 0) + 1
        for k in [k for k in st.conds if contains(k, loc)]:
            del st.conds[k]

    def write(self, fr, st, loc, val, node):
        self.use(fr, st, loc, "w", node)
        self.store(st, loc, val)
        st.emit("wr", loc, val, self.where(fr, node), st.held)

    def use(self, fr, st, loc, mode, node):
        if self.track is not None and isinstance(loc, tuple) and self.track(loc):
            st.emit("use", loc, mode, self.where(fr, node), st.held)

    def where(self, fr, node):
        return "%s:%d" % (fr.fn.file, node.get("l", fr.fn.line)) if node else fr.fn.loc

    # ------------------------------------------------------------------ nodes
    def val(self, fr, st, i):
        """term (value or location) of an operand node"""
        if i is None or i == -1:
            return NULL
        e = st.vals.get(i)
        if e is not None:
            return e[0]
        n = fr.fn.pend.get(i)
        if n is not None:
            self.exec_node(fr, st, n)
            e = st.vals.get(i)
            if e is not None:
                return e[0]
        return ("unk", fr.key, i)

    def value(self, fr, st, i):
        t = self.val(fr, st, i)
        if t[0] in ("f", "get", "elem", "deref", "par") and self.is_prvalue(fr, i):
            # a value that was read before; its origin may have changed since
            return t
        return self.load(st, t)

    def is_prvalue(self, fr, i):
        nd = self.node(fr, i)
        return nd is not None and "t" in nd and not nd.get("lv") and not nd.get("xv")

    def set(self, st, n, t):
        st.seq += 1
        st.vals[n["i"]] = (t, st.seq)

    def fresh(self, fr, node, ty):
        self.uid += 0
        return ("obj", (fr.key, node["i"]), short(ty))

    def exec_node(self, fr, st, n):
        k = n["k"]
        m = getattr(self, "n_" + k, None)
        if m is None:
            self.set(st, n, ("unk", fr.key, n["i"]))
            return None
        return m(fr, st, n)

    def n_load(self, fr, st, n):
        loc = self.val(fr, st, n["x"])
        self.use(fr, st, loc, "r", n)
        self.set(st, n, self.load(st, loc))

    def n_alias(self, fr, st, n):
        self.set(st, n, self.val(fr, st, n["x"]))

    def n_var(self, fr, st, n):
        if "cv" in n:
            self.set(st, n, C(n["cv"]))
            return
        v = n["v"]
        loc = st.env.get(v)
        if loc is None:
            loc = ("g", v.split("@")[0]) if n.get("glob") else ("var", fr.key, v)
            if n.get("glob") and v.startswith("static "):
                loc = ("g", fr.fn.q + "::" + v.split("@")[0])
        self.set(st, n, loc)

    def binding_loc(self, fr, st, n):
        loc = st.env.get(n["v"], ("var", fr.key, n["v"]))
        if n.get("f"):
            t = ("f", loc, n["f"])
            t = ("get", loc, {"first": 0, "second": 1}[n["f"]]) if n["f"] in ("first", "second") else t
        else:
            t = ("get", loc, self.bidx(fr, n))
        if loc[0] == "var" and t not in st.store:
            v = self.load(st, t)
            if v != t:
                st.store[t] = v
        return t

    def n_binding(self, fr, st, n):
        t = self.binding_loc(fr, st, n)
        if t[0] == "get" and t[1][0] == "agg":
            self.set(st, n, project(st, t[1], "get", t[2]))
            return
        v = st.store.get(t)
        if v is None:
            lv = self.load(st, t)
            if lv != t:
                t = lv
        self.set(st, n, t)

    def bidx(self, fr, n):
        # index was overwritten by the node id: derive it from the declaration
        names = self.bindnames(fr.fn).get(n["v"], [])
        return names.index(n["n"]) if n["n"] in names else 0

    def bindnames(self, fn):
        c = getattr(self, "_bn", None)
        if c is None:
            c = self._bn = {}
        if fn.id not in c:
            d = {}
            for b in fn.blocks.values():
                for e in b["e"]:
                    if e["k"] == "decl" and "bind" in e:
                        d[e["v"]] = e["bind"]
            c[fn.id] = d
        return c[fn.id]

    def n_fref(self, fr, st, n):
        self.set(st, n, ("fn", n["f"]["id"], base_name(n["f"]["q"])))

    def n_fieldref(self, fr, st, n):
        self.set(st, n, ("field", n["f"]))

    def n_this(self, fr, st, n):
        self.set(st, n, addr(fr.this) if fr.this is not None else ("par", "this"))

    def n_lit(self, fr, st, n):
        v = n.get("val")
        self.set(st, n, C(v))

    def n_zero(self, fr, st, n):
        t = n.get("t", "")
        if t.endswith("*"):
            self.set(st, n, NULL)
        elif t in ("bool",):
            self.set(st, n, FALSE)
        elif t.startswith("std::") or "::" in t:
            self.set(st, n, ("agg", short(t), ()))
        else:
            self.set(st, n, C(0))

    def n_mem(self, fr, st, n):
        b = self.val(fr, st, n["b"])
        if n["arrow"]:
            b = deref(self.load(st, b))
        f = n["f"]
        if f in ("first", "second") and ("pair" in n["rec"]):
            t = ("get", b, 0 if f == "first" else 1)
        else:
            t = ("f", b, f)
        # value objects: project directly
        if b[0] in ("agg", "call", "unk"):
            t = project(st, b, t[0], t[2])
        if n.get("isref"):
            t = self.load(st, t)
        self.set(st, n, t)

    def n_method(self, fr, st, n):
        b = self.val(fr, st, n["b"])
        self.set(st, n, b)

    def n_idx(self, fr, st, n):
        b = self.value(fr, st, n["x"])
        i = self.value(fr, st, n["y"])
        if b[0] == "it":
            t = ("elem", b[1], mk_add(b[2], i))
        elif b[0] == "addr" and b[1][0] == "elem":
            t = ("elem", b[1][1], mk_add(b[1][2], i))
        else:
            t = ("elem", deref(b) if b[0] != "f" else b, i)
        self.set(st, n, t)

    def n_cast(self, fr, st, n):
        x = self.val(fr, st, n["x"])
        if n["ck"] == "dynamic":
            x = self.load(st, x)
            t = ("dyncast", short(n["t"]), x)
            self.set(st, n, t)
            return
        if n.get("ckk") in ("IntegralCast", "IntegralToFloating", "FloatingCast", "FloatingToIntegral"):
            x = self.load(st, x)
        if n.get("lossy"):
            x = narrowed(n["t"], n.get("st"), x)
        if n["t"] == "bool" and x[0] not in ("c",) and not n.get("lv"):
            x = truth(self.load(st, x)) if x[0] != "fn" else x
        self.set(st, n, x)

    def n_un(self, fr, st, n):
        op = n["op"]
        if op == "&":
            self.set(st, n, addr(self.val(fr, st, n["x"])))
            return
        if op == "*":
            self.set(st, n, deref(self.value(fr, st, n["x"])))
            return
        if op in ("++", "--"):
            loc = self.val(fr, st, n["x"])
            self.use(fr, st, loc, "r", n)
            old = self.load(st, loc)
            new = mk_add(old, C(1 if op == "++" else -1))
            self.write(fr, st, loc, new, n)
            self.set(st, n, old if n["post"] else loc)
            return
        x = self.value(fr, st, n["x"])
        if op == "!":
            self.set(st, n, neg(truth(x)))
        elif op == "-":
            self.set(st, n, C(-x[1]) if is_c(x) and isinstance(x[1], (int, float)) else ("neg", x))
        elif op == "+":
            self.set(st, n, x)
        else:
            self.set(st, n, ("un", op, x))

    def n_bin(self, fr, st, n):
        a, b = self.value(fr, st, n["x"]), self.value(fr, st, n["y"])
        self.set(st, n, self.binop(n["op"], a, b))

    def binop(self, op, a, b):
        if op == "==":
            return mk_eq(a, b)
        if op == "!=":
            return neg(mk_eq(a, b))
        if op == "<":
            return mk_lt(a, b)
        if op == ">":
            return mk_lt(b, a)
        if op == "<=":
            return neg(mk_lt(b, a))
        if op == ">=":
            return neg(mk_lt(a, b))
        if op == "+":
            return mk_add(a, b)
        if op == "-":
            return mk_sub(a, b)
        if op in ("*", "|", "&", "^"):
            if a[0] == "c" and b[0] == "c" and isinstance(a[1], int) and isinstance(b[1], int):
                return C({"*": a[1] * b[1], "|": a[1] | b[1], "&": a[1] & b[1], "^": a[1] ^ b[1]}[op])
            a, b = sorted((a, b), key=repr)
        return ("bin", op, a, b)

    def n_asg(self, fr, st, n):
        loc = self.val(fr, st, n["x"])
        v = self.value(fr, st, n["y"])
        if n.get("op"):
            self.use(fr, st, loc, "r", n)
            v = self.binop(n["op"], self.load(st, loc), v)
        self.write(fr, st, loc, v, n)
        self.set(st, n, loc)

    def n_logic(self, fr, st, n):
        ex, ey = st.vals.get(n["x"]), st.vals.get(n["y"])
        if ey is None or (ex is not None and ey[1] < ex[1]):
            self.set(st, n, C(n["op"] == "||"))
        else:
            self.set(st, n, truth(self.load(st, ey[0])))

    def n_sel(self, fr, st, n):
        ex, ey = st.vals.get(n["x"]), st.vals.get(n["y"])
        sx, sy = ex[1] if ex else -1, ey[1] if ey else -1
        if sx < 0 and sy < 0:
            c = truth(self.value(fr, st, n["c"]))
            a, pol = (c[1], False) if c[0] == "not" else (c, True)
            known = st.conds.get(a)
            if known is not None:
                self.set(st, n, self.val(fr, st, n["x"] if known == pol else n["y"]))
            else:
                self.set(st, n, ("sel", c, self.val(fr, st, n["x"]), self.val(fr, st, n["y"])))
            return
        e = ex if sx > sy else ey
        t = e[0]
        self.set(st, n, t)

    def n_ilist(self, fr, st, n):
        args = [self.value(fr, st, a) for a in n["a"]]
        fs = n.get("fs")
        if len(args) == 1 and fs is None and not n["t"].endswith("]"):
            self.set(st, n, args[0])
            return
        if not args and fs is None:
            self.n_zero(fr, st, n)
            return
        if fs is not None and n.get("rec") and len(args) == 1 and False:
            pass
        names = fs if fs is not None else list(range(len(args)))
        if fs is not None and len(args) < len(names):
            self.set(st, n, ("agg", short(n["t"]), tuple(zip(names, args)) + tuple((x, ("dflt", x)) for x in names[len(args):])))
            return
        self.set(st, n, ("agg", short(n["t"]), tuple(zip(names, args))))

    def n_lambda(self, fr, st, n):
        caps = []
        for c in n["caps"]:
            if c.get("this"):
                caps.append(("this", True, fr.this))
            elif "init" in c:
                caps.append((c["var"], False, self.value(fr, st, c["init"])))
            elif c.get("ref"):
                caps.append((c["var"], True, st.env.get(c["var"], ("var", fr.key, c["var"]))))
            else:
                loc = st.env.get(c["var"], ("var", fr.key, c["var"]))
                caps.append((c["var"], False, self.load(st, loc)))
        self.set(st, n, ("lam", n["fn"], tuple(caps)))

    def n_typeid(self, fr, st, n):
        if "ty" in n:
            self.set(st, n, ("typeid", short(n["ty"])))
        else:
            self.set(st, n, ("typeid", self.val(fr, st, n["x"])))

    def n_throw(self, fr, st, n):
        t = n.get("et", "rethrow")
        v = self.value(fr, st, n["x"]) if "x" in n else NULL
        st.emit("throw", short(t), self.where(fr, n))
        return [("throw", ("exc", short(t), v), st)]

    def n_ret(self, fr, st, n):
        if "x" in n:
            rt = fr.fn.rt or ""
            if rt.endswith("&"):
                v = self.val(fr, st, n["x"])
            else:
                v = self.value(fr, st, n["x"])
                if rt == "bool":
                    v = truth(v)
            st.vals["$ret"] = v
            st.emit("ret", v, self.where(fr, n), fr.depth)
        else:
            st.vals["$ret"] = None
            st.emit("ret", None, self.where(fr, n), fr.depth)

    def n_decl(self, fr, st, n):
        v = n["v"]
        if n.get("isref"):
            if "x" in n:
                t = self.val(fr, st, n["x"])
                st.env[v] = t
                if n.get("bind"):
                    st.env[v] = t
            return
        if n.get("static"):
            loc = ("g", fr.fn.q + "::" + v.split("@")[0])
            st.env[v] = loc
            if "x" in n:
                st.emit("static", loc, self.value(fr, st, n["x"]), self.where(fr, n))
            return
        if "x" in n:
            t = self.val(fr, st, n["x"])
            if t[0] == "obj":
                st.env[v] = t
                if t in st.held_keys if False else False:
                    pass
                return
            loc = ("var", fr.key, v)
            st.env[v] = loc
            if t[0] == "lockguard":
                st.store[loc] = t
                return
            val = self.load(st, t)
            self.store(st, loc, val)
        else:
            loc = ("var", fr.key, v)
            st.env[v] = loc
            self.store(st, loc, ("undef", fr.key, v))

    def n_dtor(self, fr, st, n):
        loc = st.env.get(n["v"])
        t = base_name(short(n["t"]))
        if t in LOCKS:
            v = self.load(st, loc) if loc else None
            if v and v[0] == "lockguard":
                self.unlock(fr, st, v, n)
            return
        if loc is not None:
            st.emit("dtor", short(n["t"]), loc, self.where(fr, None))
            if self.inline_dtors:
                fn = self.prog.funcs.get(n.get("f"))
                if fn is not None and fn.id not in fr.stack and fr.depth < self.maxdepth:
                    return self.inlined(fr, st, n, fn, loc, [], None)

    def unlock(self, fr, st, v, n):
        held = list(st.held)
        for m in v[1]:
            if m in held:
                held.remove(m)
                st.emit("unlock", m)
        st.held = tuple(held)

    def n_mdtor(self, fr, st, n):
        st.emit("mdtor", n["f"], short(n["t"]))

    def n_minit(self, fr, st, n):
        if "f" in n:
            loc = ("f", fr.this, n["f"])
            t = self.val(fr, st, n["x"])
            v = t if n.get("isref") else self.value(fr, st, n["x"])
            if t[0] == "obj":
                # move the fields of the temporary into place
                self.store(st, loc, t)
                for k in list(st.store):
                    if k != loc and has_prefix(k, t) and k != t:
                        st.store[rebase(k, t, loc)] = st.store[k]
                if t in st.store:
                    st.store[loc] = st.store[t]
                st.emit("wr", loc, self.load(st, loc), self.where(fr, n), st.held, "init")
                return
            self.store(st, loc, v)
            st.emit("wr", loc, v, self.where(fr, n), st.held, "init")
        elif n.get("deleg") or "base" in n:
            t = self.val(fr, st, n["x"])
            if t[0] == "obj":
                for k in list(st.store):
                    if k != t and has_prefix(k, t):
                        st.store[rebase(k, t, fr.this)] = st.store[k]

    def n_new(self, fr, st, n):
        ty = n["at"]
        if "init" in n and n["init"] != -1:
            t = self.val(fr, st, n["init"])
            if t[0] == "obj" and t[2] == short(ty):
                st.emit("new", short(ty), t, self.where(fr, n))
                self.set(st, n, ("addr", t))
                return
            loc = self.fresh(fr, n, ty)
            self.store(st, loc, self.load(st, t))
        else:
            loc = self.fresh(fr, n, ty)
        st.emit("new", short(ty), loc, self.where(fr, n))
        self.set(st, n, ("addr", loc))

    def n_delete(self, fr, st, n):
        p = self.value(fr, st, n["x"])
        st.emit("delete", p, short(n["dt"]), self.where(fr, n), st.held)
        self.set(st, n, NULL)

    def n_other(self, fr, st, n):
        self.set(st, n, ("unk", fr.key, n["i"]))

    # ------------------------------------------------------------ constructors
    def n_ctor(self, fr, st, n):
        f = n["f"]
        rec = base_name(short(f.get("rec", "")))
        args = n["a"]
        if rec in LOCKS:
            ms = tuple(self.val(fr, st, a) for a in args)
            tags = [str(m[1]) for m in ms if m[0] == "g"]
            ms = tuple(m for m in ms if m[0] != "g")
            if rec == "std::shared_lock":
                ms = tuple(("shared", m) for m in ms)
            self.set(st, n, ("lockguard", ms))
            if any("defer_lock" in t or "try_to_lock" in t for t in tags):
                return
            # several locks of one guard are acquired without imposing an order
            before = st.held
            for i, m in enumerate(ms):
                if not any("adopt_lock" in t for t in tags):
                    st.emit("lock", m, self.where(fr, n), before + tuple(x for x in ms[:i] if x == m))
                    st.held = st.held + (m,)
                elif m not in st.held:
                    st.held = st.held + (m,)
            return
        if n["ct"] in ("copy", "move") and (n.get("trivial") or f["id"] not in self.prog.funcs):
            src = self.val(fr, st, args[0])
            v = self.load(st, src)
            self.use(fr, st, src, "r", n)
            if n["ct"] == "move" and rec in ("std::unique_ptr", "std::shared_ptr", "podio::utils::MaybeSharedPtr") and src[0] != "addr":
                self.store(st, src, NULL)
                st.emit("moved", src, self.where(fr, n))
            elif n["ct"] == "move" and src[0] in ("f", "var", "par", "elem", "deref", "get"):
                st.emit("moved", src, self.where(fr, n))
                if rec in STRINGS:
                    self.gone(fr, st, args[0], src)
            if src[0] == "obj" and st.store.get(src) is None:
                v = src
            elif v[0] in COPIED and v != src:
                # a copy of which parts were changed
                over = [(k, x) for k, x in st.store.items() if k != src and has_prefix(k, src)]
                fields = self.prog.recs.get(short(f.get("rec", "")), {}).get("fields")
                if over and fields:
                    loc = self.fresh(fr, n, f.get("rec", ""))
                    for k in [k for k in st.store if has_prefix(k, loc)]:
                        del st.store[k]
                    for x in fields:
                        st.store[("f", loc, x["n"])] = INTERP_LOAD(st, ("f", src, x["n"]))
                    for k, x in over:
                        st.store[rebase(k, src, loc)] = x
                    v = loc
            self.set(st, n, v)
            return
        if rec in SMART:
            return self.smart_ctor(fr, st, n, rec, args)
        if rec == "std::optional":
            if n["ct"] == "default":
                self.set(st, n, ("nullopt",))
            elif args:
                v = self.value(fr, st, args[0])
                if v[0] == "g" and "nullopt" in str(v[1]):
                    v = ("nullopt",)
                elif not any("optional<" in p.split("(")[0][:30] for p in f["pt"][:1]) and v[0] not in ("some", "nullopt"):
                    v = ("some", v)
                self.set(st, n, v)
            else:
                self.set(st, n, ("nullopt",))
            return
        if rec in ("std::function", "std::any", "std::reference_wrapper") and args:
            self.set(st, n, self.value(fr, st, args[0]))
            return
        if rec in STRINGS and args:
            a = self.value(fr, st, args[0])
            self.set(st, n, a)
            return
        fn = self.prog.funcs.get(f["id"])
        loc = self.fresh(fr, n, f.get("rec", ""))
        if fn is not None and not self.opaque(f) and fr.depth < self.maxdepth and f["id"] not in fr.stack:
            for k in [k for k in st.store if has_prefix(k, loc)]:
                del st.store[k]
            terms = self.argterms(fr, st, f, args)
            return self.inlined(fr, st, n, fn, loc, terms, loc)
        vs = tuple(self.value(fr, st, a) for a in args)
        if len(vs) == 1 and vs[0][0] == "it" and "iterator" in rec.lower() and rec.startswith(("std::", "__gnu_cxx::")) \
                and "reverse" not in rec:
            self.set(st, n, vs[0])
            return
        for a in args:
            self.use(fr, st, self.val(fr, st, a), "r", n)
        if rec in ("std::pair", "std::tuple") and vs:
            self.set(st, n, ("agg", rec, tuple(enumerate(vs))))
            return
        for k in [k for k in st.store if has_prefix(k, loc)]:
            del st.store[k]
        if rec in CONT or rec.startswith("std::"):
            if len(vs) == 1 and vs[0][0] == "agg":
                self.store(st, loc, vs[0])
            elif vs:
                self.store(st, loc, ("ctor", short(f.get("rec", "")), vs))
            st.ver.pop(loc, None)
            self.set(st, n, loc)
            return
        st.emit("call", base_name(f["q"]), loc, vs, loc, self.where(fr, n), st.held, f)
        if vs:
            self.store(st, loc, ("ctor", short(f.get("rec", "")), vs))
        self.set(st, n, loc)

    def smart_ctor(self, fr, st, n, rec, args):
        if not args:
            self.set(st, n, NULL)
            return
        src = self.val(fr, st, args[0])
        v = self.load(st, src)
        if n["ct"] == "move" and src[0] in ("f", "var", "par", "elem", "deref", "get"):
            self.store(st, src, NULL)
            st.emit("moved", src, self.where(fr, n))
        elif rec != "podio::utils::MaybeSharedPtr" and n["f"]["pt"] and n["f"]["pt"][0].endswith("&&") and \
                "_ptr<" in n["f"]["pt"][0] and src[0] in ("f", "var", "par", "elem", "deref", "get"):
            self.store(st, src, NULL)
            st.emit("moved", src, self.where(fr, n))
        if rec == "podio::utils::MaybeSharedPtr":
            st.emit("handle", v, "owned" if len(args) > 1 else n["ct"] if n["ct"] in ("copy", "move") else "unowned", self.where(fr, n))
        self.set(st, n, v)

    def gone(self, fr, st, arg, loc):
        """the content of a string was moved elsewhere"""
        if loc[0] in ("var", "par") and moved_arg(fr, self, arg):
            v = self.load(st, loc)
            if v[0] != "gone":
                self.store(st, loc, ("gone", v))

    def given(self, fr, st, args):
        """strings that are moved into a function"""
        for a in args:
            nd = self.node(fr, a)
            if nd and nd["k"] == "call" and nd.get("f", {}).get("q", "").startswith("std::move") and \
                    short(nd.get("t", "")).replace("&", "").strip() in ("std::string", "std::basic_string"):
                self.gone(fr, st, a, self.val(fr, st, a))

    def argterms(self, fr, st, f, args):
        out = []
        for i, a in enumerate(args):
            pt = f["pt"][i] if i < len(f["pt"]) else ""
            if pt.endswith("&"):
                out.append(self.val(fr, st, a))
            else:
                out.append(self.value(fr, st, a))
        return out

    def inlined(self, fr, st, n, fn, this, terms, result):
        key = fr.key + (n["i"],)
        conts = []
        for kind, val, s in self.call_function(fn, this, terms, st, fr.depth + 1, fr.stack, key):
            if kind == "throw":
                conts.append(("throw", val, s))
                continue
            r = result if result is not None else (val if val is not None else ("void",))
            s.seq += 1
            s.vals[n["i"]] = (r, s.seq)
            conts.append(("go", s))
        return conts

    # ------------------------------------------------------------------- calls
    def n_call(self, fr, st, n):
        f = n.get("f")
        if f is None:
            cal = self.value(fr, st, n["callee"]) if "callee" in n else ("unk",)
            args = [self.value(fr, st, a) for a in n["a"]]
            if cal[0] == "deref" and cal[1][0] == "fn":
                cal = cal[1]
            if cal[0] == "fn":
                fn = self.prog.funcs.get(cal[1])
                if fn is not None and fr.depth < self.maxdepth and fn.id not in fr.stack:
                    return self.inlined(fr, st, n, fn, None, [self.val(fr, st, a) for a in n["a"]], None)
            t = ("call", "indirect", cal, tuple(args))
            st.emit("call", "indirect", cal, tuple(args), t, self.where(fr, n), st.held, {})
            self.set(st, n, t)
            return
        q = base_name(f["q"])
        name = f["n"]
        args = n["a"]
        obj = None
        if "obj" in n:
            obj = self.val(fr, st, n["obj"])
            if n.get("arrow"):
                obj = deref(self.load(st, obj))
        rec = base_name(short(f.get("rec", "")))

        # lambda invocation
        if f.get("lambda") and name == "operator()":
            lam = self.load(st, obj)
            if lam[0] == "lam":
                if f["id"] in self.prog.funcs:
                    lam = (lam[0], f["id"]) + lam[2:]
                ts = self.argterms(fr, st, f, args)
                r = self.call_lambda(lam, ts, st, fr.depth + 1, fr.stack, fr.key + (n["i"],))
                if r is not None:
                    return self.finish_inline(r, n)
        if rec == "std::function" and name == "operator()":
            lam = self.load(st, obj)
            ts = [self.val(fr, st, a) for a in args]
            if lam[0] == "lam":
                r = self.call_lambda(lam, ts, st, fr.depth + 1, fr.stack, fr.key + (n["i"],))
                if r is not None:
                    return self.finish_inline(r, n)
            vs = tuple(self.load(st, x) for x in ts)
            self.use(fr, st, obj, "r", n)
            t = ("call", "()", lam, vs)
            st.emit("call", "()", lam, vs, t, self.where(fr, n), st.held, f)
            self.set(st, n, t)
            return

        if q in ("std::apply", "std::invoke") and args:
            lam = self.value(fr, st, args[0])
            lf = self.prog.funcs.get(lam[1]) if lam[0] == "lam" else None
            if lf is not None:
                if q == "std::invoke":
                    ts = [self.val(fr, st, a) for a in args[1:]]
                else:
                    tup = self.val(fr, st, args[1])
                    ts = [("get", tup, i) for i in range(len(lf.params))]
                r = self.call_lambda(lam, ts, st, fr.depth + 1, fr.stack, fr.key + (n["i"],))
                if r is not None:
                    return self.finish_inline(r, n)

        r = self.std_call(fr, st, n, f, q, rec, name, obj, args)
        if r is not NotImplemented:
            return r

        fn = self.prog.funcs.get(f["id"])
        if fn is not None and f.get("virt") and not self.virtual_ok(f, n, obj):
            fn = None
        if fn is not None and not self.opaque(f) and fr.depth < self.maxdepth and f["id"] not in fr.stack:
            terms = self.argterms(fr, st, f, args)
            this = obj
            if obj is not None and obj[0] in ("agg", "call", "ctor", "c"):
                # method on a temporary value: give it a location
                loc = ("tmp", (fr.key, n["i"]))
                self.store(st, loc, obj)
                this = loc
            return self.inlined(fr, st, n, fn, this, terms, None)
        return self.opaque_call(fr, st, n, f, q, obj, args)

    def virtual_ok(self, f, n, obj):
        return True

    def finish_inline(self, r, n):
        conts = []
        for kind, val, s in r:
            if kind == "throw":
                conts.append(("throw", val, s))
            else:
                s.seq += 1
                s.vals[n["i"]] = (val if val is not None else ("void",), s.seq)
                conts.append(("go", s))
        return conts

    def opaque_call(self, fr, st, n, f, q, obj, args):
        ts = [self.val(fr, st, a) for a in args]
        vs = tuple(self.load(st, t) for t in ts)
        ver = st.ver.get(obj, 0) if obj is not None else 0
        # state changing calls get a fresh result each time
        mut = (obj is not None and not f.get("const") and not f.get("static"))
        if obj is not None:
            self.use(fr, st, obj, "w" if mut else "r", n)
        for t in ts:
            if t[0] in ("f", "deref", "elem", "get", "this"):
                self.use(fr, st, t, "r", n)
        o = obj
        if obj is not None:
            lo = self.load(st, obj)
            if lo[0] in ("f", "get", "elem", "deref", "par", "call", "agg", "ctor"):
                o = lo
        targs = tuple(f.get("targs") or ())
        t = ("call", q, o, vs) + ((("ver", ver),) if ver else ()) + ((("targs", targs),) if targs else ())
        if mut and f.get("rt") != "void" or (obj is None and f.get("rt") not in ("void",) and self.impure(f)):
            t = t + (("at", fr.key, n["i"]),)
        st.emit("call", q, o, vs, t, self.where(fr, n), st.held, f)
        if mut:
            self.bump(st, obj)
        for i, a in enumerate(ts):
            pt = f["pt"][i] if i < len(f["pt"]) else ""
            if (pt.endswith("&") and not pt.startswith("const ") and not pt.endswith("&&")) and a[0] not in ("c",):
                # may be written by the callee
                self.store(st, a, ("out", t, i))
            elif pt.endswith("*") and not pt.startswith("const ") and a[0] == "addr" and a[1][0] in ("var", "f"):
                self.store(st, a[1], ("out", t, i))
        self.set(st, n, t)
        if f.get("noret"):
            return [("throw", ("exc", "noreturn", t), st)]

    def impure(self, f):
        return False

    # ---- library models
    def std_call(self, fr, st, n, f, q, rec, name, obj, args):
        V = lambda i: self.value(fr, st, args[i])
        T = lambda i: self.val(fr, st, args[i])
        op = f.get("op")
        if q in IDENT and args:
            self.set(st, n, T(0))
            return None
        if q in ("std::addressof", "std::__addressof"):
            self.set(st, n, addr(T(0)))
            return None
        if q in ("std::make_unique", "std::make_shared"):
            return self.make_smart(fr, st, n, f, args)
        if q == "std::make_optional" and args:
            self.set(st, n, ("some", V(0)))
            return None
        if q in ("std::get",) and args and f.get("targs"):
            try:
                i = int(str(f["targs"][0]).rstrip("UL"))
                b = T(0)
                t = ("get", b, i)
                if b[0] in ("agg",):
                    t = project(st, b, "get", i)
                self.set(st, n, t)
                return None
            except ValueError:
                return NotImplemented
        if q in ("std::tie", "std::forward_as_tuple", "std::make_tuple", "std::make_pair"):
            self.set(st, n, ("agg", "std::tuple", tuple((i, T(i) if q in ("std::tie", "std::forward_as_tuple") else V(i)) for i in range(len(args)))))
            return None
        if q == "std::swap" and len(args) == 2:
            a, b = T(0), T(1)
            va, vb = self.load(st, a), self.load(st, b)
            self.write(fr, st, a, vb, n)
            self.write(fr, st, b, va, n)
            self.set(st, n, ("void",))
            return None
        if q == "std::exchange" and len(args) == 2:
            a = T(0)
            va = self.load(st, a)
            self.write(fr, st, a, V(1), n)
            self.set(st, n, va)
            return None
        if q.startswith("std::ranges::") and op == "()":
            q = "std::" + base_name(short(f.get("rec", ""))).split("::")[-1].strip("_").replace("_fn", "")
            alg = q[5:]
            r = self.algorithm(fr, st, n, alg, args)
            if r is not NotImplemented:
                return r
        if rec in SMART and not (fr.fn.rec and base_name(short(fr.fn.rec)) == rec):
            return self.smart_call(fr, st, n, f, rec, name, op, obj, args)
        if op in ("==", "!=") and rec == "" and args and any("_ptr" in p or "nullptr" in p for p in f["pt"]) and q.startswith("std::"):
            t = mk_eq(V(0), V(1))
            self.set(st, n, t if op == "==" else neg(t))
            return None
        if q.startswith("podio::utils::operator") and op in ("==", "!=", "<"):
            return NotImplemented
        if rec == "std::optional" or (rec.startswith("std::_Optional")):
            if name in ("has_value", "operator bool"):
                self.use(fr, st, obj, "r", n)
                self.set(st, n, truth(self.load(st, obj)))
                return None
            if name in ("value", "operator*", "operator->"):
                p = self.load(st, obj)
                res = p[1] if p[0] == "some" else obj
                if name == "operator->":
                    res = addr(res)
                if name != "value":
                    self.set(st, n, res)
                    return None
                st.emit("optvalue", p, self.where(fr, n))
                t = truth(p)
                s2 = st.copy()
                conts = []
                if self.assume(st, t, True, n):
                    self.set(st, n, res)
                    conts.append(("go", st))
                if self.assume(s2, t, False, n):
                    exc = ("exc", "std::bad_optional_access", ("ctor", "std::bad_optional_access", ()))
                    s2.emit("throw", exc, self.where(fr, n))
                    conts.append(("throw", exc, s2))
                return conts
            if name == "value_or":
                self.set(st, n, ("value_or", self.load(st, obj), V(0)))
                return None
            if name == "operator=":
                v = V(0)
                if v[0] == "g" and "nullopt" in str(v[1]):
                    v = ("nullopt",)
                elif v[0] not in ("some", "nullopt") and not any("optional<" in p[:30] for p in f["pt"]):
                    v = ("some", v)
                self.write(fr, st, obj, v, n)
                self.set(st, n, obj)
                return None
            if name == "emplace":
                self.write(fr, st, obj, V(0) if args else ("unk", fr.key, n["i"]), n)
                self.set(st, n, obj)
                return None
            if name == "reset":
                self.write(fr, st, obj, ("nullopt",), n)
                self.set(st, n, ("void",))
                return None
        if rec in LOCKS:
            if name == "unlock":
                v = self.load(st, obj)
                if v[0] == "lockguard":
                    self.unlock(fr, st, v, n)
                self.set(st, n, ("void",))
                return None
            if name == "lock":
                v = self.load(st, obj)
                if v[0] == "lockguard":
                    for m in v[1]:
                        st.emit("lock", m, self.where(fr, n), st.held)
                    st.held = st.held + v[1]
                self.set(st, n, ("void",))
                return None
        if rec in ("std::mutex", "std::recursive_mutex", "std::shared_mutex"):
            if name in ("lock", "lock_shared"):
                st.emit("lock", obj, self.where(fr, n), st.held)
                st.held = st.held + (obj,)
            elif name in ("unlock", "unlock_shared"):
                h = list(st.held)
                if obj in h:
                    h.remove(obj)
                st.held = tuple(h)
                st.emit("unlock", obj)
            self.set(st, n, ("void",))
            return None
        if rec in CONT or rec in ("std::_Vector_base", "std::set", "std::__cxx11::basic_string"):
            r = self.cont_call(fr, st, n, f, rec, name, op, obj, args)
            if r is not NotImplemented:
                return r
        # iterators
        if op and ("iterator" in rec or "Iterator" in rec) and q.startswith(("std::", "__gnu_cxx::")) and obj is not None:
            return self.iter_call(fr, st, n, op, obj, args)
        if op in ("==", "!=", "<", "-", "+", "<=", ">", ">=") and len(args) == 2 and (q.startswith("std::") or q.startswith("__gnu_cxx::") or q.startswith("podio::operator==") is False and q.startswith("std")):
            a, b = V(0), V(1)
            if op in ("==", "!=", "<", ">", "<=", ">=", "-", "+"):
                for i in (0, 1):
                    self.use(fr, st, T(i), "r", n)
                self.set(st, n, self.binop(op, a, b))
                return None
        if q in ("std::begin", "std::cbegin", "std::end", "std::cend", "std::size", "std::ssize", "std::empty", "std::data"):
            c = T(0)
            nm = q.split("::")[-1]
            if nm.startswith("c") and nm != "clear":
                nm = nm[1:]
            return self.cont_call(fr, st, n, f, "std::vector", {"ssize": "size"}.get(nm, nm), None, c, [])
        if q == "std::distance":
            self.set(st, n, mk_sub(V(1), V(0)))
            return None
        if q in ("std::next", "std::prev"):
            k = V(1) if len(args) > 1 else C(1)
            self.set(st, n, mk_add(V(0), k) if q == "std::next" else mk_sub(V(0), k))
            return None
        if q in ("std::advance", "std::ranges::advance") and len(args) == 2:
            self.write(fr, st, T(0), mk_add(V(0), V(1)), n)
            self.set(st, n, NULL)
            return None
        if q == "std::back_inserter":
            self.set(st, n, ("backins", T(0)))
            return None
        if q in ("std::min", "std::max") and len(args) == 2:
            a, b = sorted((V(0), V(1)), key=repr)
            self.set(st, n, (q[5:], a, b))
            return None
        if q.startswith("std::") and rec == "":
            r = self.algorithm(fr, st, n, q[5:], args)
            if r is not NotImplemented:
                return r
        if rec == "std::hash" or rec.startswith("std::__hash"):
            if name == "operator()" and f["id"] not in self.prog.funcs:
                self.set(st, n, ("hash", V(0)))
                return None
        if name == "operator=" and len(args) == 1 and obj is not None and f["id"] not in self.prog.funcs:
            # (implicit) value assignment
            v = V(0)
            src = T(0)
            self.use(fr, st, src, "r", n)
            self.write(fr, st, obj, v, n)
            if f["pt"] and f["pt"][0].endswith("&&") and src[0] in ("f", "var", "par", "elem", "deref", "get"):
                st.emit("moved", src, self.where(fr, n))
                if short(f.get("rec", "")) in STRINGS:
                    self.gone(fr, st, args[0], src)
            self.set(st, n, obj)
            return None
        return NotImplemented

    def make_smart(self, fr, st, n, f, args):
        ty = (f.get("targs") or ["?"])[0]
        loc = self.fresh(fr, n, ty)
        for k in [k for k in st.store if has_prefix(k, loc)]:
            del st.store[k]
        sh = short(ty)
        st.emit("new", sh, loc, self.where(fr, n))
        # find the constructor
        cands = [c for c in self.prog.by_rec.get(ty, []) if c.kind in ("ctor", "copyctor", "movector") and len(c.params) == len(args)]
        if len(cands) > 1:
            ats = []
            for a in args:
                nd = self.node(fr, a)
                ats.append(plain(nd["t"]) if nd and "t" in nd else "?")
            best = [c for c in cands if all(x == "?" or plain(p["t"]) == x for p, x in zip(c.params, ats))]
            if best:
                cands = best
            pt = f["pt"]
            if len(cands) > 1:
                best = [c for c in cands if all(p["t"].endswith("&&") == (q_.endswith("&&")) for p, q_ in zip(c.params, pt) if p["isref"])]
                if best:
                    cands = best
        if cands and not self.opaque(cands[0].raw) and fr.depth < self.maxdepth and cands[0].id not in fr.stack:
            fn = cands[0]
            if not (fn.raw.get("defaulted") and fn.kind in ("copyctor", "movector")):
                terms = [self.val(fr, st, a) if p["isref"] else self.value(fr, st, a) for p, a in zip(fn.params, args)]
                return self.inlined(fr, st, n, fn, loc, terms, ("addr", loc))
        vs = tuple(self.value(fr, st, a) for a in args)
        for a in args:
            self.use(fr, st, self.val(fr, st, a), "r", n)
        if len(vs) == 1 and sh.split("<")[0] not in CONT:
            self.store(st, loc, vs[0])
        elif vs:
            self.store(st, loc, ("ctor", sh, vs))
        self.set(st, n, ("addr", loc))
        return None

    def node(self, fr, i):
        if i in fr.fn.pend:
            return fr.fn.pend[i]
        c = getattr(self, "_nodes", None)
        if c is None:
            c = self._nodes = {}
        if fr.fn.id not in c:
            c[fr.fn.id] = {e["i"]: e for b in fr.fn.blocks.values() for e in b["e"]}
        return c[fr.fn.id].get(i)

    def smart_call(self, fr, st, n, f, rec, name, op, obj, args):
        self.use(fr, st, obj, "r", n) if obj is not None else None
        p = self.load(st, obj) if obj is not None else None
        if name in ("get", "operator->"):
            self.set(st, n, p)
            return None
        if name == "operator*":
            self.set(st, n, deref(p))
            return None
        if name == "operator[]":
            self.set(st, n, ("elem", deref(p), self.value(fr, st, args[0])))
            return None
        if name == "operator bool":
            self.set(st, n, truth(p))
            return None
        if name == "release":
            st.emit("release", p, obj, self.where(fr, n))
            if rec == "std::unique_ptr":
                self.store(st, obj, NULL)
            self.set(st, n, p)
            return None
        if name == "reset":
            v = self.value(fr, st, args[0]) if args else NULL
            st.emit("reset", obj, p, self.where(fr, n), st.held)
            self.write(fr, st, obj, v, n)
            self.set(st, n, ("void",))
            return None
        if name == "operator=":
            src = self.val(fr, st, args[0])
            v = self.load(st, src)
            st.emit("reset", obj, p, self.where(fr, n), st.held)
            self.write(fr, st, obj, v, n)
            if rec == "std::unique_ptr" and v != NULL and src[0] in ("f", "var", "par", "elem", "deref", "get"):
                self.store(st, src, NULL)
                st.emit("moved", src, self.where(fr, n))
            self.set(st, n, obj)
            return None
        if op in ("==", "!=", "<") and args:
            a = p if obj is not None else self.value(fr, st, args[0])
            b = self.value(fr, st, args[-1])
            self.set(st, n, self.binop(op, a, b))
            return None
        if name == "swap" and args:
            b = self.val(fr, st, args[0])
            vb = self.load(st, b)
            self.write(fr, st, obj, vb, n)
            self.write(fr, st, b, p, n)
            self.set(st, n, ("void",))
            return None
        if name == "unique" or name == "use_count":
            return NotImplemented
        return NotImplemented

    def sizeof(self, st, c):
        v = self.load(st, c)
        k = st.ver.get(c, 0)
        if k:
            return ("size", c, k)
        if v[0] == "agg":
            return C(len(v[2]))
        if v != c and v[0] in ("f", "get", "elem", "deref", "par", "call", "var"):
            return ("size", v)
        return ("size", c)

    def cont_call(self, fr, st, n, f, rec, name, op, obj, args):
        V = lambda i: self.value(fr, st, args[i])
        T = lambda i: self.val(fr, st, args[i])
        c = obj
        cv = self.load(st, c) if c is not None else None
        ismap = rec in ("std::map", "std::unordered_map", "std::multimap", "std::set", "std::unordered_set")
        # aliases: container value that is a pure copy of another one and not changed since
        key = c
        if cv is not None and cv != c and cv[0] in ("f", "get", "elem", "deref", "par", "call", "agg") and not st.ver.get(c):
            key = cv
        mode = "r"
        if name in ("push_back", "emplace_back", "clear", "resize", "insert", "emplace", "try_emplace", "erase", "pop_back",
                    "insert_or_assign", "swap", "assign", "append", "operator=", "operator+=", "push_front", "emplace_front", "reserve") or \
                (name == "operator[]" and ismap and not f.get("const")):
            mode = "w"
        if c is not None:
            self.use(fr, st, c, mode, n)
            if name in ("operator=", "swap") and args:
                self.use(fr, st, T(0), "r" if name == "operator=" else "w", n)
        if name in ("begin", "cbegin"):
            self.set(st, n, ("it", key, C(0)))
        elif name in ("end", "cend"):
            s = self.sizeof(st, c)
            self.set(st, n, ("it", key, s))
        elif name in ("rbegin", "crbegin"):
            self.set(st, n, ("rit", key, C(0)))
        elif name in ("rend", "crend"):
            self.set(st, n, ("rit", key, self.sizeof(st, c)))
        elif name in ("size", "length"):
            self.set(st, n, self.sizeof(st, c))
        elif name == "empty":
            self.set(st, n, neg(truth(self.sizeof(st, c))))
        elif name == "max_size":
            self.set(st, n, ("call", "max_size", key, ()))
        elif name == "data" and rec not in ("std::map",):
            self.set(st, n, ("it", key, C(0)))
        elif name == "c_str":
            self.set(st, n, cv)
        elif name in ("operator[]", "at"):
            i = V(0)
            if name == "at":
                st.emit("at", key, i, self.where(fr, n), st.held)
            if ismap:
                if name == "operator[]" and not f.get("const"):
                    st.emit("call", "map[]", c, (i,), None, self.where(fr, n), st.held, f)
                self.set(st, n, ("get", ("elem", key, ("key", i)), 1))
            else:
                self.set(st, n, ("elem", key, i))
        elif name == "front":
            self.set(st, n, ("elem", key, C(0)))
        elif name == "back":
            k = st.ver.get(c, 0)
            self.set(st, n, ("elem", key, mk_sub(("size", key) + ((k,) if k else ()), C(1))))
        elif name in ("push_back", "emplace_back"):
            if name == "push_back" or len(args) == 1:
                src = T(0)
                v = self.load(st, src)
                et = elem_type(short(f.get("rec", "")))
                if et and et.startswith("std::unique_ptr") and src[0] in ("f", "var", "par", "elem", "deref", "get"):
                    self.store(st, src, NULL)
                    st.emit("moved", src, self.where(fr, n))
            else:
                v = ("ctor", elem_type(short(f.get("rec", ""))), tuple(V(i) for i in range(len(args))))
            self.given(fr, st, args)
            st.emit("call", rec + "::push_back", c, (v,), None, self.where(fr, n), st.held, f)
            old = self.sizeof(st, c)
            self.bump(st, c)
            k = st.ver[c]
            if key != c and not st.store.get(c):
                pass
            self.grow(st, c)
            last = ("elem", c, mk_sub(("size", c, k), C(1)))
            st.store[last] = v
            st.store[("lastpos", c, k)] = old
            self.set(st, n, last)
        elif name in ("find",) and ismap:
            self.set(st, n, ("it", key, ("key", V(0))))
        elif name in ("find", "rfind", "find_first_of", "find_last_of") and rec in STRINGS:
            self.set(st, n, ("call", name, key, tuple(V(i) for i in range(len(args)))))
        elif name in ("contains", "count") and ismap:
            self.set(st, n, ("has", key, V(0)))
        elif name == "equal_range" and ismap:
            self.set(st, n, ("agg", "std::pair", ((0, ("it", ("rng", key, V(0)), C(0))), (1, ("it", ("rng", key, V(0)), ("size", ("rng", key, V(0))))))))
        elif name in ("lower_bound", "upper_bound") and ismap:
            r = ("rng", key, V(0))
            self.set(st, n, ("it", r, C(0) if name[0] == "l" else ("size", r)))
        elif name in ("emplace", "try_emplace", "insert", "insert_or_assign") and ismap:
            srcs = [T(i) for i in range(len(args))]
            vs = [self.load(st, s) for s in srcs]
            if len(vs) == 1 and vs[0][0] == "agg":
                vs = [x for _, x in vs[0][2]]
            if rec == "std::multimap" or (vs and vs[0][0] == "g" and "piecewise" in str(vs[0][1])):
                if vs and "piecewise" in str(vs[0]):
                    vs = [unwrap_tuple(x) for x in vs[1:]]
            for s, i in zip(srcs, range(len(srcs))):
                if i >= 1 and s[0] in ("f", "var", "par", "elem", "deref", "get") and moved_arg(fr, self, args[i]):
                    st.emit("moved", s, self.where(fr, n))
            self.given(fr, st, args)
            st.emit("call", rec + "::" + name, c, tuple(vs), None, self.where(fr, n), st.held, f)
            k = vs[0] if vs else ("unk",)
            nv = ("has", key, k)
            t = ("agg", "std::pair", ((0, ("it", c, ("key", k))), (1, ("inserted", key, k, st.ver.get(c, 0)))))
            absent = st.conds.get(nv) is False
            self.bump(st, c)
            if len(vs) == 2 and rec != "std::multimap" and (name == "insert_or_assign" or absent):
                st.store[("get", ("elem", c, ("key", k)), 1)] = vs[1]
            self.set(st, n, t)
        elif name in ("insert", "append", "assign", "erase", "pop_back", "push_front", "emplace_front", "swap", "clear", "resize",
                      "shrink_to_fit", "reserve", "operator+=", "emplace"):
            vs = tuple(self.load(st, T(i)) for i in range(len(args)))
            st.emit("call", rec + "::" + name, c, vs, None, self.where(fr, n), st.held, f)
            if name == "reserve" or name == "shrink_to_fit":
                self.set(st, n, ("void",))
                return None
            self.bump(st, c)
            self.grow(st, c)
            self.set(st, n, ("call", name, c, vs, ("at", fr.key, n["i"])) if name not in ("append", "operator+=", "assign") else c)
        elif name == "operator=":
            v = V(0)
            src = T(0)
            self.write(fr, st, c, v, n)
            st.ver.pop(c, None)
            self.set(st, n, c)
        elif name in ("substr", "compare", "starts_with", "ends_with"):
            self.set(st, n, ("call", name, key, tuple(V(i) for i in range(len(args)))))
        elif name in ("remove_prefix", "remove_suffix"):
            self.write(fr, st, c, ("call", name, cv, (V(0),)), n)
            self.set(st, n, ("void",))
        elif name in ("operator basic_string_view",) or name.startswith("operator std::basic_string_view"):
            self.set(st, n, cv)
        elif op in ("==", "!=", "<", ">", "<=", ">=") and args:
            self.set(st, n, self.binop(op, cv, V(0)))
        elif name == "key_comp":
            return NotImplemented
        else:
            return NotImplemented
        return None

    def grow(self, st, c):
        v = st.store.get(c)
        if v is not None and v[0] != "grown":
            st.store[c] = ("grown", v)

    def iter_call(self, fr, st, n, op, obj, args):
        v = self.load(st, obj)
        if op == "*":
            self.set(st, n, ("elem", v[1], v[2]) if v[0] == "it" else deref(v))
        elif op == "->":
            self.set(st, n, addr(("elem", v[1], v[2])) if v[0] == "it" else v)
        elif op in ("++", "--"):
            post = len(args) == 1
            nv = mk_add(v, C(1 if op == "++" else -1))
            self.store(st, obj, nv)
            self.set(st, n, v if post else obj)
        elif op in ("+=", "-="):
            d = self.value(fr, st, args[0])
            self.store(st, obj, mk_add(v, d) if op == "+=" else mk_sub(v, d))
            self.set(st, n, obj)
        elif op in ("+", "-"):
            d = self.value(fr, st, args[0])
            self.set(st, n, self.binop(op, v, d))
        elif op == "[]":
            d = self.value(fr, st, args[0])
            self.set(st, n, ("elem", v[1], mk_add(v[2], d)) if v[0] == "it" else ("elem", v, d))
        elif op in ("==", "!=", "<", ">", "<=", ">="):
            self.set(st, n, self.binop(op, v, self.value(fr, st, args[0])))
        elif op == "=":
            self.store(st, obj, self.value(fr, st, args[0]))
            self.set(st, n, obj)
        else:
            self.set(st, n, ("unk", fr.key, n["i"]))
        return None

    def algorithm(self, fr, st, n, alg, args):
        """algorithms with a callable: one iteration of the callable on an
        arbitrary element"""
        ts = [self.val(fr, st, a) for a in args]
        vs = [self.load(st, t) for t in ts]
        if not vs:
            return NotImplemented
        L = (fr.key, n["i"])
        # the sequence
        if vs[0][0] == "it":
            if len(vs) < 2:
                return NotImplemented
            cont, lo = vs[0][1], vs[0][2]
            hi = vs[1][2] if vs[1][0] == "it" else ("unk",)
            rest = vs[2:]
        else:
            cont, lo, hi = ts[0], C(0), None
            cvv = self.load(st, cont)
            if cvv != cont and cvv[0] in ("f", "get", "elem", "deref", "par", "call"):
                cont = cvv
            if hi is None:
                hi = ("size", cont)
            rest = vs[1:]
        lam = [x for x in rest if x[0] in ("lam", "fn")]
        if alg in ("find",) and rest and not lam:
            for t in ts:
                self.use(fr, st, t, "r", n)
            self.set(st, n, ("it", cont, ("pos", projected(cont, rest[1:]), rest[0])))
            return None
        if alg in ("contains",) and rest and not lam:
            self.set(st, n, ("has", projected(cont, rest[1:]), rest[0]))
            return None
        if alg in ("copy", "move") and rest and rest[-1][0] == "backins":
            dst = rest[-1][1]
            st.emit("call", "append_range", dst, (cont, lo, hi), None, self.where(fr, n), st.held, n.get("f", {}))
            self.bump(st, dst)
            self.set(st, n, rest[-1])
            return None
        if alg not in ("for_each", "transform", "find_if", "find_if_not", "any_of", "all_of", "none_of", "sort", "stable_sort", "remove_if",
                       "count_if", "copy_if", "accumulate", "replace_if", "generate", "for_each_n", "partition", "lower_bound", "adjacent_find", "upper_bound", "equal", "max_element"):
            return NotImplemented
        if not lam:
            return NotImplemented
        el = ("elem", cont, ("ind", L, lo, 1))
        self.use(fr, st, cont, "r", n)
        nargs = 2 if alg in ("sort", "stable_sort", "equal", "adjacent_find", "max_element") else 1
        fnargs = [el] if nargs == 1 else [el, ("elem", cont, ("ind", L + ("b",), lo, 1))]
        if alg == "accumulate":
            fnargs = [("hav", L, "acc"), el]
        if alg in ("lower_bound", "upper_bound"):
            fnargs = [el, rest[0]]
        fnargs = [part_of(x, rest[rest.index(lam[0]) + 1:]) if has_prefix(x, cont) else x for x in fnargs]
        conts = []
        # no element
        skip = not (self.once and alg not in ("find_if", "find_if_not", "any_of", "all_of", "none_of"))
        solo = self.solo and not st.act
        if solo:
            skip = True
        s0 = st.copy()
        at = ("lt", lo, hi) if lo != C(0) else ("nz", hi)
        s0.emit("br", at, False, n.get("l"), True)
        s0.emit("noloop", L)
        res0 = {"any_of": FALSE, "all_of": TRUE, "none_of": TRUE, "find_if": ("it", cont, hi), "find_if_not": ("it", cont, hi)}.get(alg, ("void",))
        s0.seq += 1
        s0.vals[n["i"]] = (res0, s0.seq)
        if solo and st.used and not alg.startswith(("find_if", "any_", "all_", "none_")):
            return [("go", s0)]
        s1 = st.copy()
        act = s1.act
        if solo:
            s1.act += ((None, L),)
            s1.used = True
        s1.emit("loop", L)
        s1.emit("br", at, True, n.get("l"), True)
        s1.emit("range", L, cont, lo, hi)
        lm = lam[0]
        if lm[0] == "lam":
            r = self.call_lambda(lm, fnargs, s1, fr.depth + 1, fr.stack, fr.key + (n["i"],))
        else:
            fn = self.prog.funcs.get(lm[1])
            r = None
            if fn is not None and fn.id not in fr.stack:
                r = list(self.call_function(fn, None, fnargs, s1, fr.depth + 1, fr.stack, fr.key + (n["i"],)))
        if r is None:
            r = [("ret", ("call", "()", lm, tuple(fnargs)), s1)]
        for kind, val, s in r:
            if kind == "throw":
                conts.append(("throw", val, s))
                continue
            s.act = act
            val = val if val is not None else ("void",)
            res = ("void",)
            if alg == "transform":
                out = rest[0]
                if out[0] == "backins":
                    s.emit("call", "std::vector::push_back", out[1], (self.load(s, val),), None, self.where(fr, n), s.held, n.get("f", {}))
                    self.bump(s, out[1])
                elif out[0] == "it":
                    s.emit("wr", ("elem", out[1], ("ind", L, out[2], 1)), self.load(s, val), self.where(fr, n), s.held)
                elif vs[0] == out:
                    pass
                res = out
            elif alg in ("find_if", "find_if_not"):
                tv = truth(self.load(s, val))
                if alg == "find_if_not":
                    tv = neg(tv)
                s.emit("endloop", L)
                # found / not found
                s2 = s.copy()
                self.assume(s, tv, True, n)
                s.seq += 1
                s.vals[n["i"]] = (("it", cont, ("ind", L, lo, 1)), s.seq)
                s.emit("found", L, cont, tv)
                conts.append(("go", s))
                if not self.assume(s2, tv, False, n):
                    continue
                s2.seq += 1
                s2.vals[n["i"]] = (("it", cont, hi), s2.seq)
                conts.append(("go", s2))
                continue
            elif alg in ("any_of", "all_of", "none_of"):
                tv = truth(self.load(s, val))
                s.emit("endloop", L)
                s2 = s.copy()
                if self.assume(s, tv, True, n):
                    s.seq += 1
                    s.vals[n["i"]] = ({"any_of": TRUE, "all_of": TRUE, "none_of": FALSE}[alg], s.seq)
                    conts.append(("go", s))
                if self.assume(s2, tv, False, n):
                    s2.seq += 1
                    s2.vals[n["i"]] = ({"any_of": FALSE, "all_of": FALSE, "none_of": TRUE}[alg], s2.seq)
                    conts.append(("go", s2))
                continue
            elif alg == "accumulate":
                res = ("call", "accumulate", cont, (rest[0], self.load(s, val)))
            elif alg in ("copy_if",):
                res = ("void",)
                out = [x for x in rest if x[0] == "backins"]
                if out:
                    tv = truth(self.load(s, val))
                    s2 = s.copy()
                    if self.assume(s2, tv, False, n):
                        s2.emit("endloop", L)
                        s2.seq += 1
                        s2.vals[n["i"]] = (res, s2.seq)
                        conts.append(("go", s2))
                    if not self.assume(s, tv, True, n):
                        continue
                    s.emit("call", "std::vector::push_back", out[0][1], (self.load(s, el),), None, self.where(fr, n), s.held, n.get("f", {}))
            elif alg in ("sort", "stable_sort"):
                s.emit("sortkey", cont, self.load(s, val), self.where(fr, n))
            elif alg in ("lower_bound", "upper_bound", "count_if", "adjacent_find", "equal", "max_element", "remove_if"):
                res = ("call", alg, cont, (self.load(s, val),))
            s.emit("endloop", L)
            s.seq += 1
            s.vals[n["i"]] = (res, s.seq)
            conts.append(("go", s))
        if skip or not any(c[0] == "go" for c in conts):
            conts.append(("go", s0))
        return conts

    def assume(self, s, t, val, n):
        a, pol = (t[1], False) if t[0] == "not" else (t, True)
        if is_c(a):
            return (bool(a[1]) == pol) == val
        known = s.conds.get(a)
        if known is not None:
            return (known == pol) == val
        s.conds[a] = (val == pol)
        s.emit("br", a, val == pol, n.get("l"), False)
        return True


def moved_arg(fr, itp, i):
    nd = itp.node(fr, i)
    return bool(nd and nd["k"] == "call" and nd.get("f", {}).get("q", "").startswith("std::move"))


def unwrap_tuple(t):
    if t[0] == "agg" and t[1] == "std::tuple":
        if len(t[2]) == 1:
            return t[2][0][1]
        return ("ctor", "", tuple(x for _, x in t[2]))
    return t


def rebase(k, old, new):
    if k == old:
        return new
    return (k[0], rebase(k[1], old, new)) + k[2:]


_short = {}


def short(t):
    r = _short.get(t)
    if r is None:
        r = t
        r = re.sub(r"std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string", r)
        r = re.sub(r"std::basic_string_view<char, std::char_traits<char>>", "std::string_view", r)
        prev = None
        while prev != r:
            prev = r
            r = re.sub(r", std::allocator<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*>", "", r)
            r = re.sub(r", std::default_delete<(?:[^<>]|<(?:[^<>]|<(?:[^<>]|<[^<>]*>)*>)*>)*>", "", r)
        _short[t] = r
    return r


def plain(t):
    t = t.strip()
    t = re.sub(r"\s*&+$", "", t)
    t = re.sub(r"^const ", "", t)
    return t.strip()


def elem_type(t):
    m = re.match(r"std::(?:vector|deque|list)<(.*)>$", t)
    return m.group(1) if m else None
