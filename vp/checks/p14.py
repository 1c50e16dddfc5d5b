"""P14: stored versions are dispatched to their own buffers and converters"""
from ..io import *
from ..reg import *
from . import p04
from .p29 import poly, same

LEVELS = {"AutoGenerated": 0, "UserDefined": 1}


def run(ck):
    ck.rule("create", "buffers are made by the function that is registered for exactly the requested type and version, and "
                      "there are none exactly if the type or version is unknown")
    ck.rule("register", "registering a function for a version makes it the one of this version and of those that had none, and "
                        "changes nothing that is registered for other types or versions")
    ck.rule("evolve", "data of a known older version passes through the converter at its version of its type; everything else "
                      "is passed through unchanged, with no access outside of what is registered")
    ck.rule("converter", "a registered converter is stored at the version and type it is looked up by, in a place of its own, and "
                         "changes no other")
    ck.rule("priority", "a converter registered by a user is used whatever is registered for the same version by generated code")
    ck.rule("carry", "moving buffers and the converter that does nothing keep every part of them")
    ck.rule("known", "every collection type is known to the schema evolution with all versions up to the current one")
    ck.rule("frame", "the frame has the buffers converted from the version and type they carry")
    prog = ck.load("core", "cover")
    slot = create(ck, prog)
    register(ck, prog, slot)
    conv = evolve(ck, prog)
    converter(ck, prog, conv)
    carry(ck, prog)
    known(ck, prog)
    p04.run(Sub(ck, "frame", {"convert"}))
    ck.need("create", 3)
    ck.need("register", 6)
    ck.need("evolve", 6)
    ck.need("converter", 10)
    ck.need("priority", 2)
    ck.need("carry", 20)
    ck.need("known", 60)
    ck.need("frame", 4)
    ck.assume("converters are registered for versions from 1 to the current one of their type")


# ------------------------------------------------------------ inequalities
def le(o):
    """linear expressions that are known not to be positive on a path"""
    out = []
    for a, v in o.tests.items():
        if a[0] == "lt":
            p = poly(("sub", a[1], a[2])) if v else poly(("sub", a[2], a[1]))
            if v:
                p[None] = p.get(None, 0) + 1
            out.append(p)
            # unsigned: n - 1 < m excludes n == 0 as well
            if v and a[1][0] == "add" and is_c(a[1][2]) and a[1][2][1] < 0:
                out.append(poly(("sub", C(-a[1][2][1]), a[1][1])))
        elif a[0] == "nz":
            p = poly(a[1])
            if v:
                out.append({**{k: -x for k, x in p.items()}, None: 1 - p.get(None, 0)})
            else:
                out.append(p)
        elif a[0] == "eq":
            if v:
                p = poly(("sub", a[1], a[2]))
                out += [p, {k: -x for k, x in p.items()}]
            else:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if x == C(0):
                        p = poly(y)
                        out.append({**{k: -c for k, c in p.items()}, None: 1 - p.get(None, 0)})
    return out


def implied(facts, goal):
    """does goal <= 0 follow from the facts"""
    goal = poly(goal) if not isinstance(goal, dict) else goal

    def weaker(p):
        ks = (set(p) | set(goal)) - {None}
        return all(p.get(k, 0) == goal.get(k, 0) for k in ks) and goal.get(None, 0) <= p.get(None, 0)
    plus = lambda p, q: {k: p.get(k, 0) + q.get(k, 0) for k in set(p) | set(q)}
    if weaker({}):
        return True
    return any(weaker(p) for p in facts) or any(weaker(plus(p, q)) for i, p in enumerate(facts) for q in facts[:i])


def offset(t, base):
    """the constant t - base, if it is one"""
    p = poly(("sub", t, base))
    if any(v for k, v in p.items() if k is not None):
        return None
    return p.get(None, 0)


def key_bound(t, key):
    """is a location only reached through the entry of key"""
    return any(s[0] == "elem" and s[2] == ("key", key) for s in subterms(t))


def exists(o, key):
    for a, v in o.tests.items():
        if a[0] == "has" and a[2] == key:
            return v
    return None


def calls(o):
    return [e for e in o.events if e[0] == "call" and e[1] == "()"]


# ---------------------------------------------------------------- factory
def create(ck, prog):
    fn = one_method(prog, FACTORY, "createBuffers")
    key, version, subset = (par(fn, i) for i in range(3))
    slot = None
    ks = {offset(e[2][2], version) for o in ck.outs(fn) for e in calls(o) if e[2][0] == "elem"} - {None}
    for o in ck.outs(fn):
        w = "%s on path: %s" % (fn.loc, o.path()[:300])
        inst = "createBuffers"
        cs = calls(o)
        facts = le(o)
        if o.kind != "ret":
            ck.ob("create", inst, any(e[0] == "at" for e in o.events), "ends with an exception", w)
            continue
        if not cs:
            ok = exists(o, key) is False or implied(facts, version) or any(
                a[0] == "nz" and not v and a[1][0] == "elem" for a, v in o.tests.items()) or any(
                implied(facts, ("sub", s, ("add", version, C(k)))) for a in o.tests for s in subterms(a)
                if s[0] == "size" and key_bound(s, key) for k in ks)
            ck.ob("create", inst, ok and contains(o.value, ("nullopt",)), "yields %s for a known version" % show(o.value), w)
            continue
        e = cs[0]
        loc = e[2]
        if loc[0] != "elem" or not key_bound(loc, key):
            ck.ob("create", inst, False, "asks %s" % show(loc), w)
            continue
        k = offset(loc[2], version)
        ck.ob("create", inst, len(cs) == 1 and k is not None, "asks the function at %s" % show(loc[2]), w)
        ck.ob("create", inst, exists(o, key) is True, "asks for a type that may be unknown", w)
        if k is None:
            continue
        checked = any(x[0] == "at" and x[1] == loc[1] and x[2] == loc[2] for x in o.events)
        hi = checked or any(implied(facts, ("add", ("sub", loc[2], s), C(1)))
                            for a in o.tests for s in subterms(a) if s[0] == "size" and s[1] == loc[1])
        lo = checked or k >= 0 or implied(facts, ("sub", C(0), loc[2]))
        ck.ob("create", inst, hi and lo, "accesses %s without knowing that it exists" % show(loc[2]), w)
        ck.ob("create", inst, e[3] == (subset,), "passes on %s" % [show(x) for x in e[3]], w)
        ck.ob("create", inst, contains(o.value, e[4]), "yields %s" % show(o.value), w)
        slot = k
    if slot is None:
        raise AnalysisError("createBuffers never makes any")
    return slot


def register(ck, prog, k):
    fn = one_method(prog, FACTORY, MAKE)
    key, version, func = (par(fn, i) for i in range(3))
    inst = MAKE
    for o in ck.outs(fn, once=True):
        w = "%s on path: %s" % (fn.loc, o.path()[:300])
        if o.kind != "ret":
            ck.ob("register", inst, False, "ends with an exception", w)
            continue
        facts = le(o)
        # where the versions of the type are on this path
        new = None
        for e in effects(o):
            if e.kind in ("emplace", "insert", "try_emplace", "insert_or_assign") and len(e.args) == 2:
                ck.ob("register", inst, e.args[0] == key, "adds %s" % show(e.args[0]), w)
                new = e.args[1]
        there = exists(o, key)
        seen, size, ranges, singles = None, None, [], []
        ok, why = True, ""
        if new is not None:
            V, S = new, C(0)
            ck.ob("register", inst, there is False or there is None, "replaces all versions", w)
            if new[0] == "ctor":
                V = None
                a = new[2]
                if len(a) >= 2:
                    ranges.append((C(0), a[0], a[1]))
                    size = a[0]
            elif o.load(new)[0] == "ctor" and len(o.load(new)[2]) >= 2:
                a = o.load(new)[2]
                ranges.append((C(0), a[0], a[1]))
                size = a[0]
        else:
            V = None
            for e in effects(o):
                for s in subterms(e.loc):
                    if s[0] == "get" and s[1][0] == "elem" and s[1][2] == ("key", key):
                        V = s
            S = ("size", V)
        for e in effects(o, local=True):
            if e.kind == "reserve" or e.loc[0] == "var":
                continue
            if e.loc == V and V is not None or e.loc[0] == "elem" and e.loc[1] == V and V is not None:
                pass
            elif is_local(e.loc):
                continue
            elif e.kind in ("emplace", "insert", "try_emplace", "insert_or_assign") and e.args[:1] == (key,):
                continue
            elif e.kind == "map[]" and e.args == (key,):
                continue
            else:
                ok, why = False, "changes %s" % e
                continue
            if e.kind == "wr" and e.loc[0] == "elem":
                i = e.loc[2]
                if i[0] == "ind":
                    r = loop_range(o, i)
                    if r:
                        ranges.append((r[0], r[1], e.args[0]))
                    else:
                        ok, why = False, "fills %s" % show(e.loc)
                else:
                    singles.append((i, e.args[0]))
            elif e.kind == "push_back":
                r = around(o, e.pos, V, version)
                if r is None:
                    singles.append((size or S, e.args[0]))
                    size = ("add", size or S, C(1))
                else:
                    n = ("add", size or S, ("sub", r[1], r[0])) if r[0] is not None else r[1]
                    ranges.append((size or S, n, e.args[0]))
                    size = n
            elif e.kind == "resize":
                n = e.args[0]
                if not implied(facts, ("sub", size or S, n)) and "std::max" not in str(n) and (size or S) != C(0):
                    ok, why = False, "may drop versions"
                if len(e.args) > 1:
                    ranges.append((size or S, n, e.args[1]))
                size = n
            elif e.kind == "assign" and new is not None and len(e.args) == 2:
                ranges.append((C(0), e.args[0], e.args[1]))
                size = e.args[0]
            elif e.kind == "insert" and len(e.args) == 3 and e.args[0][0] == "it":
                ranges.append((e.args[0][2], ("add", e.args[0][2], e.args[1]), e.args[2]))
                size = ("add", size or S, e.args[1])
            elif e.kind == "wr" and e.loc == V and new is not None:
                continue
            else:
                ok, why = False, "changes %s" % e
        for e in o.events:
            if e[0] == "call" and e[1] in ("std::fill", "std::ranges::fill") and len(e[3]) == 3 and e[3][0][0] == "it" and e[3][0][1] == V:
                ranges.append((e[3][0][2], e[3][1][2] if e[3][1][0] == "it" else e[3][1], e[3][2]))
            elif e[0] == "call" and e[1] == "std::fill_n" and e[3][0][0] == "it" and e[3][0][1] == V:
                ranges.append((e[3][0][2], ("add", e[3][0][2], e[3][1]), e[3][2]))
        ck.ob("register", inst, ok, why, w)
        at = ("add", version, C(k))
        ends = lambda hi: same(hi, ("add", at, C(1))) or size is not None and hi[0] == "size" and same(size, ("add", at, C(1)))
        done = any(same(i, at) and v == func for i, v in singles) or any(ends(hi) and v == func for lo, hi, v in ranges)
        ck.ob("register", inst, done, "the version does not get the function", w)
        ck.ob("register", inst, all(v == func for *_, v in ranges + singles), "stores something else", w)
        start = lambda lo: new is not None or same(lo, S)
        ck.ob("register", inst, all(same(i, at) for i, v in singles) and all(start(lo) for lo, hi, v in ranges),
              "other versions change: %s" % [show(i) for i, v in singles] + str([show(r[0]) for r in ranges]), w)
        if size is not None:
            full = any(same(lo, S) and (same(hi, size) or hi[0] == "size") for lo, hi, v in ranges)
            ck.ob("register", inst, full, "versions up to it have no function", w)


def around(o, pos, V, version):
    """(first, bound) of the loop that an event is in; (None, bound) for one that goes on until the size is reached"""
    L = None
    for e in o.events[:pos]:
        if e[0] == "loop":
            L = e[1]
        elif e[0] == "endloop" and e[1] == L:
            L = None
    if L is None:
        return None
    for e in o.events:
        if e[0] == "br" and e[1][0] == "lt":
            for s in subterms(e[1]):
                if s[0] == "ind" and s[1] == L:
                    return loop_range(o, s)
            if e[1][1][0] == "size" and e[1][1][1] == V:
                return None, e[1][2]
    return None


# --------------------------------------------------------------- evolution
def unchanged(o, v, p, fields):
    if v == p:
        return []
    if v[0] != "obj":
        return ["everything"]
    return [f for f in fields if o.load(F(v, f)) != F(p, f)]


def evolve(ck, prog):
    fn = one_method(prog, EVOLUTION, "evolveBuffers")
    old, version, key = (par(fn, i) for i in range(3))
    fields = [f["n"] for f in prog.recs["podio::CollectionReadBuffers"]["fields"]]
    inst = "evolveBuffers"
    found = None
    os_ = ck.outs(fn)
    cur = {x for o in os_ for a in o.tests if a[0] in ("eq", "lt") and contains(a, version) for x in poly(("sub", a[1], a[2]))
           if x is not None and x[0] == "f" and key_bound(x, key) and x[1][0] == "get"}
    if len(cur) != 1:
        raise AnalysisError("the current version of a type is not looked up: %s" % [show(c) for c in cur])
    cur = cur.pop()
    for o in os_:
        w = "%s on path: %s" % (fn.loc, o.path()[:300])
        facts = le(o)
        cs = calls(o)
        if o.kind != "ret":
            ck.ob("evolve", inst, exists(o, key) is False or any(e[0] == "at" for e in o.events) or implied(facts, version) or
                  implied(facts, ("sub", cur, version)), "rejects a known version", w)
            continue
        if not cs:
            ok = exists(o, key) is False or implied(facts, version) or implied(facts, ("sub", cur, version)) or \
                any(a[0] == "nz" and not v and a[1][0] == "elem" for a, v in o.tests.items()) or any(
                    implied(facts, ("sub", s, version)) for a in o.tests for s in subterms(a) if s[0] == "size" and key_bound(s, key))
            ck.ob("evolve", inst, ok, "does not convert a known old version", w)
            bad = unchanged(o, o.value, old, fields)
            ck.ob("evolve", inst, not bad, "changes %s" % bad, w)
            continue
        e = cs[0]
        loc = e[2]
        k = offset(loc[2], version) if loc[0] == "elem" else None
        if loc[0] != "elem" or not key_bound(loc, key) or k is None or len(cs) != 1:
            ck.ob("evolve", inst, False, "calls %s" % show(loc), w)
            continue
        ck.ob("evolve", inst, exists(o, key) is True, "converts a type that may be unknown", w)
        ck.ob("evolve", inst, cond(o, mk_eq(cur, version)) is False or implied(facts, ("add", ("sub", version, cur), C(1))),
              "converts current data", w)
        checked = any(x[0] == "at" and x[1] == loc[1] and x[2] == loc[2] for x in o.events)
        hi = checked or any(implied(facts, ("add", ("sub", loc[2], s), C(1)))
                            for a in o.tests for s in subterms(a) if s[0] == "size" and s[1] == loc[1])
        lo = checked or k >= 0 or implied(facts, ("sub", C(0), loc[2]))
        ck.ob("evolve", inst, hi and lo, "accesses %s without knowing that it exists" % show(loc[2]), w)
        ck.ob("evolve", inst, len(e[3]) == 2 and e[3][0] == old and e[3][1] == version, "passes on %s" % [show(x) for x in e[3]], w)
        ck.ob("evolve", inst, o.value == e[4] or contains(o.value, e[4]) or
              o.value[0] == "obj" and all(o.load(F(o.value, f)) == F(e[4], f) for f in fields), "yields %s" % show(o.value), w)
        found = loc
    if found is None:
        raise AnalysisError("evolveBuffers never converts")
    return found, cur, key, version


def replaced(t, sub):
    if t in sub:
        return sub[t]
    if isinstance(t, tuple):
        return tuple(replaced(x, sub) if isinstance(x, tuple) else x for x in t)
    return t


def value(t):
    """the number a constant stands for"""
    if is_c(t):
        if isinstance(t[1], str) and t[1].startswith("enum:"):
            return LEVELS.get(t[1].split("::")[-1], t[1])
        return t[1]
    if t[0] == "c":
        return t[1]
    return None


def holds(a, sub):
    """truth of an atom after replacing terms by constants"""
    a = replaced(a, sub)
    if a[0] in ("eq", "lt") and all(isinstance(x, tuple) for x in a[1:]):
        x, y = value(a[1]), value(a[2])
        if x is None or y is None:
            return None
        return x == y if a[0] == "eq" else x < y
    if a[0] == "nz":
        x = value(a[1])
        return None if x is None else bool(x)
    return None


def converter(ck, prog, conv):
    loc, cur, k_, v_ = conv
    fn = one_method(prog, EVOLUTION, EVOLVE)
    key, version, current, func, prio = (par(fn, i) for i in range(5))
    sub = {k_: key, v_: version}
    want, cur = replaced(loc, sub), replaced(cur, sub)
    entry = cur[1]
    inst = EVOLVE
    level = lambda n: ("c", "enum:podio::SchemaEvolution::Priority::" + n)
    user, auto = [], []
    for o in ck.outs(fn):
        w = "%s on path: %s" % (fn.loc, o.path()[:400])
        if o.kind != "ret":
            ck.ob("converter", inst, False, "ends with an exception", w)
            continue
        facts = le(o) + [poly(("sub", version, current))]
        fresh = exists(o, key) is False
        # what the parts of the entry are in the end
        parts = {s for s in subterms(want) if s[0] == "f" and has_prefix(s, entry) and s != entry}
        now = {s: o.load(s) for s in parts}
        final = {v: s for s, v in now.items() if v != s}
        norm = lambda t: replaced(t, final)
        size = {}
        wrote = None
        created = False
        state = {}
        for e in effects(o):
            if e.kind in ("emplace", "insert", "try_emplace", "insert_or_assign") and e.args[:1] == (key,):
                ck.ob("converter", inst, exists(o, key) is not True or e.kind != "insert_or_assign", "replaces what is known", w)
                continue
            if e.kind == "map[]" and e.args == (key,):
                continue
            if e.kind == "push_back" and e.loc[0] == "f" and e.loc[1] == THIS:
                # a place of its own: the last one, which the entry points to
                ok = any(v == ("size", e.loc) or v[0] == "size" for v in final)
                ck.ob("converter", inst, ok, "the new place is not that of the type", w)
                if want[0] == "elem" and contains(want[1], e.loc):
                    created = True
                continue
            if e.kind == "wr" and has_prefix(e.loc, entry):
                if e.loc == cur:
                    ck.ob("converter", inst, e.args[0] == current, "the current version becomes %s" % show(e.args[0]), w)
                continue
            if e.kind == "wr" and e.loc[0] == "agg":
                continue
            l = norm(e.loc)
            inside = key_bound(l, key)
            if e.kind == "resize" and inside:
                n = e.args[0]
                S = ("size", e.loc)
                if l == want[1]:
                    ck.ob("converter", inst, implied(facts, ("sub", S, n)) or "std::max" in str(n) or created, "may drop converters", w)
                size[l] = n
                continue
            if e.kind == "wr" and l == want:
                ck.ob("converter", inst, e.args[0] == func, "stores %s" % show(e.args[0]), w)
                wrote = e
                n = size.get(l[1], ("size", e.loc[1]))
                ck.ob("converter", inst, implied(facts, ("add", ("sub", l[2], n), C(1))) or "std::max" in str(n),
                      "is stored outside of what there is", w)
            elif e.kind == "wr" and inside:
                pass
            else:
                ck.ob("converter", inst, False, "changes %s" % e, w)
            if e.kind == "wr":
                state[l] = e.args[0]
        v = o.load(cur)
        if exists(o, key) is None and v == cur:
            # whatever there is stays as it is, and otherwise the new entry has it
            for e in effects(o):
                if e.kind in ("emplace", "insert", "try_emplace") and e.args[:1] == (key,) and e.args[1][0] == "agg":
                    v = dict(e.args[1][2]).get(cur[2], v)
        if exists(o, key) is not True:
            ck.ob("converter", inst, v == current, "the current version of the type becomes %s" % show(v), w)
        u = not any(holds(a, {prio: level("UserDefined")}) == (not t) for a, t in o.tests.items())
        g = not any(holds(a, {prio: level("AutoGenerated")}) == (not t) for a, t in o.tests.items())
        if u:
            ck.ob("converter", inst, wrote is not None, "a converter of a user is not stored", w)
            user.append({replaced(l, {}): replaced(x, {prio: level("UserDefined")}) for l, x in state.items()})
        if g:
            auto.append((o, wrote, created, norm, w))
            if wrote is None:
                ok = any(contains(norm(a), want[1][1] if want[1][0] == "elem" else want) or any(
                    s[0] == "elem" and s[2] == want[2] for s in subterms(a)) for a in o.tests)
                ck.ob("converter", inst, ok, "a converter of generated code is never stored", w)
    common = {}
    if user:
        common = {l: x for l, x in user[0].items() if all(u.get(l) == x for u in user)}
    for o, wrote, created, norm, w in auto:
        if wrote is None or created or exists(o, key) is False:
            ck.ob("priority", inst, True)
            continue
        sub = {l: x for l, x in common.items()}
        sub[prio] = level("AutoGenerated")
        sub[want] = C(True)
        contradiction = any(holds(norm(a), sub) == (not t) for a, t in o.tests.items())
        ck.ob("priority", inst, contradiction, "replaces the converter of a user", w)


def carry(ck, prog):
    rec = "podio::CollectionReadBuffers"
    fields = [f["n"] for f in prog.recs[rec]["fields"]]
    for fn in prog.by_rec[rec]:
        if fn.kind not in ("movector", "moveasg"):
            continue
        inst = "%s of buffers" % ("move assignment" if fn.kind == "moveasg" else "move constructor")
        src = par(fn, 0)
        for o in ck.outs(fn):
            w = "%s on path: %s" % (fn.loc, o.path()[:300])
            self_ = any(a[0] == "eq" and THIS in [deref(x) if x[0] == "addr" else x for x in a[1:]] and v or
                        a[0] == "eq" and src in str(a) and v for a, v in o.tests.items() if isinstance(a, tuple)) \
                if False else any(a[0] == "eq" and v and contains(a, src) for a, v in o.tests.items())
            if o.kind != "ret" or self_:
                continue
            for f in fields:
                ck.ob("carry", inst, o.load(F(THIS, f)) == F(src, f), "%s is %s" % (f, show(o.load(F(THIS, f)))), w)
    fn = one_method(prog, EVOLUTION, "noOpSchemaEvolution")
    for o in ck.outs(fn):
        bad = unchanged(o, o.value, par(fn, 0), fields)
        ck.ob("carry", "noOpSchemaEvolution", not bad, "changes %s" % bad, fn.loc)


def known(ck, prog):
    regs = registrations(ck)
    made = {text(prog, r.args[0]): number(prog, r.args[1]) for r in regs if r.kind == MAKE}
    seen = {}
    for r in regs:
        if r.kind != EVOLVE:
            continue
        name, n = text(prog, r.args[0]), number(prog, r.args[2])
        inst = "converters of %s" % name
        ck.ob("known", inst, name in made and n == made[name], "the current version is %s but %s for its buffers" % (n, made.get(name)),
              r.where)
        v = r.args[1]
        if v[0] == "ind":
            rng = loop_range(r.o, v)
            lo, hi = (number(prog, x) for x in rng) if rng else (None, None)
            if lo is None or hi is None:
                raise AnalysisError("%s: versions are unknown" % inst)
            seen.setdefault(name, set()).update(range(lo, hi))
        else:
            seen.setdefault(name, set()).add(number(prog, v))
        ck.ob("known", inst, "AutoGenerated" in str(r.args[4]), "has the priority of a user", r.where)
        fn = function(ck, r.args[3])
        ck.ob("known", inst, fn is not None and fn.name == "noOpSchemaEvolution" or fn is not None and fn.kind != "method",
              "is converted by %s" % show(r.args[3]), r.where)
    for name, n in made.items():
        got = seen.get(name, set())
        ck.ob("known", "versions of %s" % name, got and set(range(1, n)) <= got and got <= set(range(1, n + 1)),
              "has converters for %s of %s" % (sorted(got), n))
