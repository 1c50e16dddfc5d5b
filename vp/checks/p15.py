"""P15: the comparison of data models finds every difference and judges it"""
from ..py import *
from ..core import AnalysisError
from .p16 import A, I, E

NEW, OLD, EVO = ("sym", "new model"), ("sym", "old model"), ("sym", "evolution file")
TREE = {"Members": ("AddedMember", "DroppedMember"), "VectorMembers": ("AddedVectorMember", "DroppedVectorMember"),
        "OneToOneRelations": ("AddedSingleRelation", "DroppedSingleRelation"),
        "OneToManyRelations": ("AddedMultiRelation", "DroppedMultiRelation")}
UNSUPPORTED = [c for k, v in TREE.items() if k != "Members" for c in v]
READ = ("call", "read_yaml", (EVO,))


def S(n):
    return ("sym", n)


def mix(*ds):
    out = {}
    for d in ds:
        out.update(d)
    return out


class Cmp:
    def __init__(self, ck):
        self.ck = ck
        self.m = module("podio_schema_evolution")
        if self.m is None:
            raise AnalysisError("podio_schema_evolution is missing")
        self.where = self.m.rel

    def cls(self, name):
        c = self.m.defs.get(name)
        if c is None or c.kind != "cls":
            raise AnalysisError("%s has no class %s" % (self.m.rel, name))
        return c

    def explore(self, scn, start, opaque=("read_yaml",)):
        out = Py(scenario=scn, strict=True, opaque=opaque).explore(start)
        self.ck.paths += len(out)
        for o in out:
            self.ck.funcs.update(o.run.called)
        if not out:
            raise AnalysisError("no path")
        return out

    def elements(self, r, v):
        if not isinstance(v, Obj):
            raise AnalysisError("the changes are %s" % show(v))
        out = []
        r.each(v, out.append, None)
        return out


def key(scn, o):
    """what a reported change says: its class and the definitions it refers to"""
    if not isinstance(o, Obj) or o.kind != "inst":
        return ("?", show(o))
    return (o.cls.name, tuple(sorted((k, repr(scn.norm(v))) for k, v in o.attrs.items() if k != "description")))


def want(c, r, scn, *cs):
    """the same for a class and the arguments of its constructor"""
    return sorted((key(scn, r.construct(c.cls(x[0]), list(x[1:]), {}, None)) for x in cs), key=repr)


def unique(a):
    """names are unique"""
    if a[0] == "eq" and sum("'other'" in repr(x) for x in a[1:]) == 1:
        return False
    return None


def text(keys):
    return ", ".join(k[0] for k in keys) or "nothing"


# ------------------------------------------------------------------- compare
def compare(c, inst, expected, rule="finds", **kw):
    scn = Scenario(rules=[unique], **kw)
    cls = c.cls("DataModelComparator")

    def start(r):
        o = r.construct(cls, [NEW], {}, None)
        return c.elements(r, r.call(r.getattr(o, "compare", None), [OLD], {}, None)), want(c, r, scn, *expected)
    bad = None
    for o in c.explore(scn, start):
        if o.kind == "raise":
            bad = bad or "%s on path: %s" % (show(o.value), o.path())
            continue
        exp = o.value[1]
        got = sorted((key(scn, x) for x in o.value[0]), key=repr)
        if got != exp:
            bad = bad or "%s instead of %s on path: %s" % (text(got) if [g[0] for g in got] != [e[0] for e in exp] else text(got) + " with other content",
                                                           text(exp), o.path())
    c.ck.ob(rule, inst, not bad, "reports " + str(bad), c.where)


def comparison(c):
    for sec, what in (("components", "Component"), ("datatypes", "Datatype")):
        X, Y = A(NEW, sec), A(OLD, sec)
        n, o = E(X), E(Y)
        gone = {("in", n, Y): False, ("in", o, X): False, eq(n, o): False}
        nd, od = ("item", X, n), ("item", Y, o)
        compare(c, "added and removed %s" % what.lower(), [("Added" + what, nd, n), ("Dropped" + what, od, o)], enter={X, Y}, facts=gone)
        compare(c, "added %s" % what.lower(), [("Added" + what, nd, n)], enter={X}, facts=gone)
        compare(c, "removed %s" % what.lower(), [("Dropped" + what, od, o)], enter={Y}, facts=gone)
        for cat in (("Members",) if sec == "components" else TREE):
            add, drop = TREE[cat]
            M1, M2 = I(nd, cat), I(("item", Y, n), cat)
            m1, m2 = E(M1), E(M2)
            kept = {"alias": {o: n}, "facts": {("in", n, Y): True, ("in", n, X): True}}
            w = "%s of a %s" % (cat, what.lower())
            # the definitions have all categories
            for D in (nd, ("item", Y, n)):
                kept["facts"].update({("in", C(k), D): True for k in TREE})

            def go(name, exp, enter, facts=(), alias=(), rule="finds"):
                compare(c, "%s: %s" % (w, name), exp, rule, enter={X, Y} | enter, facts=mix(kept["facts"], dict(facts)),
                        alias=mix(kept["alias"], dict(alias)))
            N1, N2, T1, T2 = A(m1, "name"), A(m2, "name"), A(m1, "full_type"), A(m2, "full_type")
            diff = {eq(N1, N2): False}
            go("added and removed", [(add, m1, n), (drop, m2, n)], {M1, M2}, diff)
            go("added", [(add, m1, n)], {M1})
            go("removed", [(drop, m2, n)], {M2})
            go("type changed", [("ChangedMemberType", n, m2, m1)], {M1, M2}, {eq(T1, T2): False}, {N2: N1})
            go("unchanged", [], {M1, M2}, {}, {N2: N1, T2: T1}, rule="equal")
    for sec in ("components", "datatypes"):
        X, Y = A(NEW, sec), A(OLD, sec)
        n, o = E(X), E(Y)
        compare(c, "unchanged %s" % sec, [], "equal", enter={X, Y}, alias={o: n}, facts={("in", n, Y): True})


# --------------------------------------------------------------------- judge
class Case:
    """changes that are judged together"""

    def __init__(self, *changes, **kw):
        self.changes = changes
        self.evo = kw.pop("evo", None)
        self.kw = kw


def outcomes(c, case, changes):
    kw = dict(case.kw)
    facts = dict(kw.pop("facts", {}))
    enter = set(kw.pop("enter", ()))
    if case.evo:
        enter |= {READ, ("item", READ, E(READ))}
        facts.update(case.evo)
    scn = Scenario(enter=enter, facts=facts, **kw)
    cls = c.cls("SchemaEvolutionJudge")

    def start(r):
        r.stack = []
        j = r.construct(cls, [NEW, EVO if case.evo else C(None)], {}, None)
        given = [r.construct(c.cls(k), list(a), {}, None) for k, a in case.changes]
        lst = r.new("list", None)
        lst.items = [(g, ()) for g in given]
        r.events.append(("judged",))
        res = r.call(r.getattr(j, "judge", None), [OLD, lst], {}, None)
        if not isinstance(res, Obj) or res.kind != "inst":
            raise AnalysisError("judge returns %s" % show(res))
        out = {}
        for k in ("errors", "warnings", "schema_changes"):
            out[k] = c.elements(r, r.getattr(res, k, None))
        out["given"] = given
        out["alts"] = []
        for alt in (changes if isinstance(changes, list) else [changes] if changes is not None else []):
            out["alts"].append(sorted([("given", x) if isinstance(x, int) else want(c, r, scn, x)[0] for x in alt], key=repr))
        out["old"] = r.getattr(res, "old_datamodel", None)
        return out
    scn.facts.setdefault(("truthy", EVO), True)
    return scn, c.explore(scn, start)


def judge(c, rule, inst, case, fails=None, changes=None):
    """fails True: there is an error or a warning on every path, False: on none;
    changes: the changes that are left ("given" n: the one that was given, or
    a class and its content)"""
    scn, outs = outcomes(c, case, changes)
    bad = None
    for o in outs:
        p = "path: " + o.path()
        if o.kind == "raise":
            bad = bad or "ends with %s (%s) on %s" % (show(o.value), o.where, p)
            continue
        v = o.value
        if fails is True and not v["errors"] and not v["warnings"]:
            bad = bad or "is accepted on " + p
        if fails is False and (v["errors"] or v["warnings"]):
            bad = bad or "is refused on " + p
        if v["old"] != OLD:
            bad = bad or "the result refers to another model on " + p
        if changes is not None:
            got = []
            for x in v["schema_changes"]:
                g = [i for i, y in enumerate(v["given"]) if y is x]
                got.append(("given", g[0]) if g else key(scn, x))
            if sorted(got, key=repr) not in v["alts"]:
                names = [case.changes[g[1]][0] if g[0] == "given" else g[0] for g in got]
                bad = bad or "leaves the changes %s on %s" % (", ".join(names) or "(none)", p)
    c.ck.ob(rule, inst, not bad, str(bad), c.where)


K, K2, M1, M2 = S("type"), S("other type"), S("old member"), S("new member")


def described(kind, **eqs):
    """facts about the (generic) entry of an evolution file"""
    mig = E(("item", READ, E(READ)))
    t = {("eq",) + tuple(sorted((A(mig, "type"), ("enum", "ChangeType", k)), key=repr)): k == kind for k in ("RENAME_MEMBER", "RENAME_DATATYPE")}
    f = dict(t)
    for part, (term, val) in eqs.items():
        x = {"klass": E(READ), "frm": I(A(mig, "details"), "from"), "to": I(A(mig, "details"), "to")}[part]
        f[eq(x, term)] = val
    return f


def no_types(*terms):
    f = {}
    for t in terms:
        for mod in (OLD, NEW):
            for s in ("components", "datatypes", "interfaces", "links"):
                f[("in", t, A(mod, s))] = False
    return f


def unsupported(c):
    for u in UNSUPPORTED:
        judge(c, "refuses", u, Case((u, (M1, K))), True)
        judge(c, "refuses", u + " with an evolution description", Case((u, (M1, K)), evo=described("RENAME_MEMBER")), True)
        judge(c, "refuses", u + " after other changes", Case(("AddedMember", (M2, K2)), ("AddedComponent", (S("comp"), K2)), (u, (M1, K))), True)
    for a in UNSUPPORTED:
        if a.startswith("Added"):
            d = a.replace("Added", "Dropped")
            judge(c, "refuses", "%s and %s" % (d, a), Case((d, (M1, K)), (a, (M2, K)), facts={eq(A(M1, "full_type"), A(M2, "full_type")): True}), True)


def types(c):
    o, n = M1, M2
    OT, NT, OA, NA = A(o, "full_type"), A(n, "full_type"), A(o, "array_type"), A(n, "array_type")

    def go(rule, inst, fails, facts, oa=False, na=False, enter=(), extra=(), changes=(0,)):
        f = no_types(OT, NT, OA, NA)
        f.update({eq(OT, NT): False, eq(A(o, "name"), A(n, "name")): True})
        for m, arr in ((o, oa), (n, na)):
            f[("truthy", A(m, "is_array"))] = arr
            f[("truthy", A(m, "array_type"))] = arr
        f[eq(A(o, "is_array"), A(n, "is_array"))] = oa == na
        f[eq(OA, NA)] = False
        f.update({eq(x, y): False for x, y in ((OA, NT), (OT, NA))})
        f.update(facts)
        vals = {A(o, "is_array"): oa, A(n, "is_array"): na}
        if not oa:
            vals[OA] = None
        if not na:
            vals[NA] = None
        for ev in (None, described("RENAME_MEMBER")):
            judge(c, rule, inst + (" (with an evolution description)" if ev else ""),
                  Case(("ChangedMemberType", (K, o, n)), *extra, facts=f, values=vals, enter=enter, evo=ev), fails, changes)

    def known(t, mod, sec):
        return {("in", t, A(mod, sec)): True}
    go("refuses", "member that becomes an array", True, {}, na=True)
    go("refuses", "array that becomes a plain member", True, {}, oa=True)
    go("refuses", "component that becomes another component", True, mix(known(OT, OLD, "components"), known(NT, NEW, "components")))
    go("refuses", "component that becomes another component that existed before", True,
       mix(known(OT, OLD, "components"), mix(known(NT, NEW, "components"), known(NT, OLD, "components"))))
    go("refuses", "component that becomes a builtin type", True, known(OT, OLD, "components"))
    go("refuses", "component that becomes a builtin type while the component stays", True, mix(known(OT, OLD, "components"), known(OT, NEW, "components")))
    go("refuses", "builtin type that becomes a component", True, known(NT, NEW, "components"))
    go("refuses", "array of components that becomes an array of other components", True,
       mix(known(OA, OLD, "components"), known(NA, NEW, "components")), oa=True, na=True)
    go("refuses", "array of components that becomes an array of builtin types", True, known(OA, OLD, "components"), oa=True, na=True)
    go("refuses", "array of builtin types that becomes an array of components", True, known(NA, NEW, "components"), oa=True, na=True)
    go("supports", "builtin type that changes", False, {})
    go("supports", "array of builtin types that changes", False, {}, oa=True, na=True)
    rel = mix(known(OT, OLD, "datatypes"), known(NT, NEW, "datatypes"))
    go("refuses", "relation to another type", True, rel)
    go("refuses", "relation to another type while the type stays", True, mix(rel, known(OT, NEW, "datatypes")))
    IFT = I(("item", A(NEW, "interfaces"), NT), "Types")
    t = E(IFT)
    ifc = mix(known(OT, OLD, "datatypes"), known(NT, NEW, "interfaces"))
    ifc[("in", C("Types"), ("item", A(NEW, "interfaces"), NT))] = True
    no = {eq(A(x, "full_type"), OT): False for x in (t, t + ("other",))}
    go("refuses", "relation to an interface that does not have the type", True, mix(ifc, no), enter={IFT})
    go("refuses", "relation to an interface without types", True, mix(ifc, no))
    go("supports", "relation to an interface of the type", False, mix(ifc, {eq(A(t, "full_type"), OT): True}), enter={IFT})
    go("refuses", "relation to an interface that becomes one to a type", True, mix(known(OT, OLD, "interfaces"), known(NT, NEW, "datatypes")))
    # more than one change
    p, q = S("old member 2"), S("new member 2")
    PT, QT = A(p, "full_type"), A(q, "full_type")
    two = mix(no_types(OT, NT, PT, QT), {eq(OT, NT): False, eq(PT, QT): False, eq(A(o, "is_array"), A(n, "is_array")): True,
                                         eq(A(p, "is_array"), A(q, "is_array")): True})
    vals = {A(x, "is_array"): False for x in (o, n, p, q)}
    vals.update({A(x, "array_type"): None for x in (o, n, p, q)})
    both = (("ChangedMemberType", (K, o, n)), ("ChangedMemberType", (K2, p, q)))
    for w, order in (("second", both), ("first", tuple(reversed(both)))):
        for what, f in (("component that becomes another one", mix(known(PT, OLD, "components"), known(QT, NEW, "components"))),
                        ("relation to another type", mix(known(PT, OLD, "datatypes"), known(QT, NEW, "datatypes"))),
                        ("component that becomes a builtin type", known(PT, OLD, "components"))):
            judge(c, "refuses", "%s as the %s of two changes" % (what, w), Case(*order, facts=mix(two, f), values=vals), True, (0, 1))
    # the types have been renamed
    D1, D2 = S("old definition"), S("new definition")
    ren = {("in", C(k), D): True for k in TREE for D in (D1, D2)}
    extra = (("DroppedDatatype", (D1, S("old name"))), ("AddedDatatype", (D2, S("new name"))))
    ren.update(rel)
    ren.update({eq(OT, S("old name")): True, eq(NT, S("new name")): True})
    go("supports", "relation to a type that has been renamed", False, ren, extra=extra,
       changes=(0, ("RenamedDataType", S("old name"), S("new name"))))
    for k in ("old", "new"):
        f = dict(ren)
        f[eq(OT if k == "old" else NT, S(k + " name"))] = False
        go("refuses", "relation to another type while %s has been renamed" % ("another type" if k == "old" else "the type to something else"), True, f,
           extra=extra, changes=None)


def members(c):
    OT, NT = A(M1, "full_type"), A(M2, "full_type")
    same, other = {eq(OT, NT): True}, {eq(OT, NT): False}
    D, AD = ("DroppedMember", (M1, K)), ("AddedMember", (M2, K))
    nm = {eq(A(M1, "name"), A(M2, "name")): False}
    judge(c, "supports", "added member", Case(AD), False, (0,))
    judge(c, "supports", "removed member", Case(D), False, (0,))
    judge(c, "supports", "added and removed members of different types", Case(D, AD, facts=mix(other, nm)), False, (0, 1))
    judge(c, "supports", "members added to one and removed from another definition",
          Case(D, ("AddedMember", (M2, K2)), facts=mix(same, mix(nm, {eq(K, K2): False}))), False, (0, 1))
    judge(c, "refuses", "rename of a member that is not described", Case(D, AD, facts=mix(same, nm)), True, (0, 1))
    judge(c, "refuses", "rename of a member that is not described, the other way round", Case(AD, D, facts=mix(same, nm)), True, (0, 1))
    on, nn = A(M1, "name"), A(M2, "name")
    mig = E(("item", READ, E(READ)))
    frm, to = I(A(mig, "details"), "from"), I(A(mig, "details"), "to")
    full = dict(klass=(K, True), frm=(on, True), to=(nn, True))

    def d(kind="RENAME_MEMBER", **kw):
        f = described(kind, **mix(full, kw))
        f.update({eq(frm, nn): False, eq(to, on): False})
        return f
    rename = ("RenamedMember", E(READ), frm, to)
    for first, second, w in ((D, AD, ""), (AD, D, ", the other way round")):
        judge(c, "described", "rename of a member" + w, Case(first, second, facts=mix(same, nm), evo=d()), False, (rename,))
    judge(c, "described", "rename of a member next to other changes",
          Case(("AddedComponent", (S("comp"), K2)), D, ("ChangedMemberType", (K2, S("m3"), S("m4"))), AD,
               facts=mix(same, nm, no_types(*[A(S(x), k) for x in ("m3", "m4") for k in ("full_type", "array_type")]), {
                   eq(A(S("m3"), "full_type"), A(S("m4"), "full_type")): False, ("truthy", A(S("m3"), "array_type")): False,
                   ("truthy", A(S("m4"), "array_type")): False, eq(A(S("m3"), "is_array"), A(S("m4"), "is_array")): True}),
               evo=d()), False, (0, 2, rename))
    for w, kw in (("of another class", {"klass": (K, False)}), ("from another member", {"frm": (on, False)}), ("to another member", {"to": (nn, False)})):
        judge(c, "refuses", "rename of a member with a description %s" % w, Case(D, AD, facts=mix(same, nm), evo=d(**kw)), True, (0, 1))
    judge(c, "refuses", "rename of a member with a description of a datatype rename", Case(D, AD, facts=mix(same, nm), evo=d("RENAME_DATATYPE")), True, (0, 1))
    third = S("third member")
    TT = A(third, "full_type")
    apart = {eq(A(x, "name"), A(third, "name")): False for x in (M1, M2)}
    for w, one in (("added", ("AddedMember", (third, K))), ("removed", ("DroppedMember", (third, K)))):
        oth = mix(same, nm, apart, {eq(TT, OT): False, eq(TT, NT): False})
        for k, order in enumerate(((one, D, AD), (D, one, AD), (D, AD, one))):
            judge(c, "refuses", "rename that is not described with a member of another type that is %s (%d)" % (w, k), Case(*order, facts=oth), True, (0, 1, 2))
    P, Q = S("old member 2"), S("new member 2")
    D2, AD2 = ("DroppedMember", (P, K2)), ("AddedMember", (Q, K2))
    two = mix(same, nm, {eq(A(P, "full_type"), A(Q, "full_type")): True, eq(A(P, "name"), A(Q, "name")): False, eq(K, K2): False, eq(E(READ), K2): False})
    for w, order, left in (("after", (D, AD, D2, AD2), (2, 3, rename)), ("before", (D2, AD2, D, AD), (0, 1, rename)),
                           ("in between", (D2, D, AD, AD2), (0, 3, rename))):
        judge(c, "refuses", "rename of a member that is not described, %s one that is" % w, Case(*order, facts=two, evo=d()), True, left)
    third = {eq(A(M1, "full_type"), A(Q, "full_type")): False, eq(A(P, "full_type"), A(M2, "full_type")): False}
    for w, k in (("another type", K2), ("the same type", K)):
        oth = mix(two, third, {eq(A(P, "full_type"), A(Q, "full_type")): False, eq(A(P, "full_type"), A(M1, "full_type")): False})
        judge(c, "refuses", "rename that is not described next to other changes of %s" % w,
              Case(("DroppedMember", (P, k)), ("AddedMember", (Q, k)), D, AD, facts=oth), True, (0, 1, 2, 3))
        judge(c, "refuses", "rename that is not described followed by other changes of %s" % w,
              Case(D, AD, ("DroppedMember", (P, k)), ("AddedMember", (Q, k)), facts=oth), True, (0, 1, 2, 3))
    # a described rename with a change of the type is none
    judge(c, "supports", "described rename between members of different types", Case(D, AD, facts=mix(other, nm), evo=d()), None, (0, 1))


def datatypes(c):
    D1, D2, N1, N2 = S("old definition"), S("new definition"), S("old name"), S("new name")
    has = {("in", C(k), D): True for k in TREE for D in (D1, D2)}
    ch = (("DroppedDatatype", (D1, N1)), ("AddedDatatype", (D2, N2)))
    rename = ("RenamedDataType", N1, N2)
    enter, alias = set(), {}
    for k in TREE:
        a, b = I(D1, k), I(D2, k)
        enter |= {a, b}
        alias[A(E(b), "name")] = A(E(a), "name")
        alias[A(E(b), "full_type")] = A(E(a), "full_type")
    back = tuple(reversed(ch))
    for w, order in (("", ch), (", the other way round", back)):
        judge(c, "renames", "datatype with the same definition" + w, Case(*order, facts=has, enter=enter, alias=alias), False, (rename,))
    for w, one in (("dropped", ch[:1]), ("added", ch[1:])):
        judge(c, "supports", "datatype that is %s" % w, Case(*one, facts=has, enter=enter), False, (0,))
    for k in TREE:
        a, b = I(D1, k), I(D2, k)
        judge(c, "renames", "datatype with fewer %s" % k, Case(*ch, facts=has, enter=enter - {b}, alias=alias), False, (0, 1))
        judge(c, "renames", "datatype with more %s" % k, Case(*ch, facts=has, enter=enter - {a}, alias=alias), False, (0, 1))
        for at in ("name", "full_type"):
            al = dict(alias)
            del al[A(E(b), at)]
            f = dict(has)
            f[eq(A(E(a), at), A(E(b), at))] = False
            judge(c, "renames", "datatype with another %s in %s" % (at, k), Case(*ch, facts=f, enter=enter, alias=al), False, (0, 1))
    # every type is in one rename only
    D3, N3 = S("third definition"), S("third name")
    none = {("in", C(k), D): True for k in TREE for D in (D1, D2, D3)}
    two = (("DroppedDatatype", (D1, N1)), ("DroppedDatatype", (D3, N3)), ("AddedDatatype", (D2, N2)))
    judge(c, "renames", "two datatypes that could have become the same one", Case(*two, facts=none), None,
          [(1, rename), (0, ("RenamedDataType", N3, N2))])
    to2 = (("DroppedDatatype", (D1, N1)), ("AddedDatatype", (D2, N2)), ("AddedDatatype", (D3, N3)))
    judge(c, "renames", "datatype that could have become one of two", Case(*to2, facts=none), None, [(2, rename), (1, ("RenamedDataType", N1, N3))])
    mig = E(("item", READ, E(READ)))
    frm, to = I(A(mig, "details"), "from"), I(A(mig, "details"), "to")
    ren = ("RenamedDataType", frm, to)
    apart = {eq(x, y): False for x, y in ((N1, N2), (N1, N3), (N2, N3), (frm, N2), (to, N1))}

    def d(f, t, others):
        out = described("RENAME_DATATYPE", frm=(f, True), to=(t, True))
        out.update({eq(x, y): False for x, y in others})
        return mix(out, apart)
    judge(c, "described", "rename of a datatype", Case(*ch, facts=has, evo=d(N1, N2, ())), False, (ren,))
    judge(c, "described", "rename of the first of two datatypes", Case(*two, facts=none, evo=d(N1, N2, [(frm, N3), (to, N3)])), False, (1, ren))
    judge(c, "described", "rename of the second of two datatypes", Case(*two, facts=none, evo=dict(d(N3, N2, [(frm, N1), (to, N3)]))), False, (0, ren))
    judge(c, "described", "rename to the first of two datatypes", Case(*to2, facts=none, evo=d(N1, N2, [(frm, N3), (to, N3)])), False, (2, ren))
    judge(c, "described", "rename to the second of two datatypes", Case(*to2, facts=none, evo=mix(d(N1, N3, [(frm, N3)]), {eq(to, N2): False})), False, (1, ren))


def components(c):
    C1, C2 = S("old component"), S("new component")
    has = {("in", C("Members"), D): True for D in (C1, C2)}
    ch = (("DroppedComponent", (C1, S("old name"))), ("AddedComponent", (C2, S("new name"))))
    a, b = I(C1, "Members"), I(C2, "Members")
    judge(c, "supports", "component that is dropped", Case(ch[0], facts=has, enter={a}), False, (0,))
    judge(c, "supports", "component that is added", Case(ch[1], facts=has, enter={b}), False, (0,))
    for w, fails, al, fa in (("same", None, {A(E(b), "name"): A(E(a), "name")}, {}), ("different", False, {}, {eq(A(E(a), "name"), A(E(b), "name")): False})):
        judge(c, "supports", "component that is dropped while one with %s members is added" % w,
              Case(*ch, facts=mix(has, fa), enter={a, b}, alias=al), fails, (0, 1))


# -------------------------------------------------------------------- acting
def nonzero(v):
    """does sys.exit(v) signal a failure"""
    if not (isinstance(v, tuple) and v[0] == "exc" and v[1] == "SystemExit"):
        return isinstance(v, tuple) and v[0] == "exc"
    a = v[2]
    return bool(a) and (not is_c(a[0]) or a[0][1] not in (0, None, False))


def printing(c):
    cls = c.cls("DataModelComparator")
    for n in (0, 1):
        def start(r):
            r.stack = []
            o = r.construct(cls, [NEW], {}, None)
            err = r.new("list", None)
            err.items = [(S("an error"), ())] * n
            res = r.construct(c.cls("ComparisonResults"), [OLD, S("warnings"), err, S("changes")], {}, None)
            return C(r.truth(r.call(r.getattr(o, "print_comparison", None), [res], {}, None)))
        outs = c.explore(Scenario(), start)
        bad = [o for o in outs if o.kind == "raise" or o.value != C(n == 0)]
        c.ck.ob("acts", "print_comparison with%s errors" % ("" if n else "out"), not bad,
                "is %s on path: %s" % ("success" if n else "a failure", bad[0].path() if bad else ""), c.where)


def program(c):
    main = [n for n in c.m.tree.body if isinstance(n, ast.If) and "__main__" in ast.unparse(n.test)]
    if len(main) != 1:
        raise AnalysisError("the program of %s has another form" % c.m.rel)
    for ok in (True, False):
        def rule(a):
            if a[0] == "truthy" and isinstance(a[1], tuple) and a[1][:2] == ("call", "print_comparison"):
                return ok
            return None

        def start(r):
            r.stack = []
            fr = Frame(None, c.m, {})
            r.stack.append(fr)
            r.block(main[0].body, fr)
            return C(None)
        outs = c.explore(Scenario(rules=[rule]), start, ("read_yaml", "read", "compare", "judge", "print_comparison"))
        bad = None
        for o in outs:
            ends = o.kind == "raise" and nonzero(o.value)
            if ends == ok:
                bad = bad or "%s on path: %s" % ("fails" if ok else "succeeds", o.path())
            ev = {e[1]: e for e in o.events if e[0] == "call"}
            flow = [x in ev for x in ("read", "compare", "judge", "print_comparison")]
            if not all(flow):
                bad = bad or "does not judge the changes on path: " + o.path()
                continue
            args = {k: [a for a in ev[k][2]] + [v for kk, v in sorted(ev[k][4].items())] for k in ("compare", "judge", "print_comparison")}
            reads = [e[5] for e in o.events if e[0] == "call" and e[1] == "read"]
            comp = args["compare"]
            old = comp[1] if len(comp) > 1 else None
            new = [v for k, v in comp[0].attrs.items()] if isinstance(comp[0], Obj) else []
            if old not in reads or not any(n in reads and n != old for n in new):
                bad = bad or "does not compare the two models"
            elif old not in args["judge"] or ev["compare"][5] not in args["judge"]:
                bad = bad or "does not judge the changes that were found"
            elif ev["judge"][5] not in args["print_comparison"]:
                bad = bad or "does not report the judgement"
            else:
                names = [show(x) for x in reads if x == old] + [show(x) for x in reads if x != old]
                if ".old" not in names[0] or not any(".new" in n for n in names[1:]):
                    bad = bad or "takes the models for each other"
                j = args["judge"][0]
                jm = [v for v in j.attrs.values()] if isinstance(j, Obj) else []
                if not any(n in reads and n != old for n in jm):
                    bad = bad or "judges with the other model"
                if not any("evo" in show(v) for v in jm):
                    bad = bad or "ignores the description of the evolution"
        c.ck.ob("acts", "program on %s" % ("compatible models" if ok else "models with errors"), not bad, str(bad), c.where)


def generator(c):
    g = module("podio_gen.cpp_generator")
    cls = g and g.defs.get("CPPClassGenerator")
    if cls is None:
        raise AnalysisError("CPPClassGenerator is missing")
    where = g.rel
    FILES = ("attr", S("generator"), "old_yamlfiles")
    opaque = ("read_yaml", "read", "compare", "judge", "_identify_dropped_components", "_identify_renamed_datatypes", "_process_datatype", "_fill_templates",
              "_invert_interfaces", "_generate_component_code")
    def term(t, n):
        return isinstance(t, tuple) and t[0] == "attr" and t[2] == n and isinstance(t[1], tuple) and t[1][:2] == ("call", "judge")

    def run(err, warn, section=None):
        def rule(a):
            if a[0] == "truthy" and isinstance(a[1], tuple):
                for n, v in (("errors", err), ("warnings", warn)):
                    if term(a[1], n):
                        return v
                if a[1] == FILES:
                    return True
            if a[0] == "has" and a[2] == C("klassname"):
                return True
            if a[0] == "in" and isinstance(a[2], tuple) and a[2][0] == "attr" and a[2][2] in ("components", "datatypes") and section:
                return a[2][2] == section
            return None

        class Scn(Scenario):
            def enter(s, x):
                return not isinstance(x, tuple) or s.norm(x) == FILES or term(x, "schema_changes") or section is None and \
                    x[0] == "attr" and x[2] in ("components", "datatypes")
        scn = Scn(rules=[rule])

        def start(r):
            r.stack = []
            o = r.new("inst", None, cls=cls)
            o.sym = S("generator")
            r.call(r.getattr(o, "pre_process", None), [], {}, None)
            return o
        return scn, c.explore(scn, start, opaque)
    for err, warn in ((True, True), (True, False), (False, True), (False, False)):
        scn, outs = run(err, warn, "datatypes")
        bad = None
        for o in outs:
            ends = o.kind == "raise" and nonzero(o.value)
            if ends != (err or warn):
                bad = bad or "generates code on path: %s" % o.path() if err or warn else "fails on path: %s" % o.path()
            calls = [e for e in o.events if e[0] == "call" and e[1] == "judge"]
            f = ("el", FILES)
            if not any(contains(scn.norm(x), f) for e in calls for x in e[2]):
                bad = bad or "does not judge every old model, on path: %s" % o.path()
        c.ck.ob("acts", "generator on a model with %s" % (" and ".join(w for w, v in (("errors", err), ("warnings", warn)) if v) or "supported changes"), not bad,
                str(bad), where)
    scn, outs = run(False, False, "datatypes")
    bad = None
    for o in outs:
        if o.kind == "raise":
            continue
        for e in o.events:
            if e[0] == "call" and e[1] == "judge":
                cm = [x for x in e[2] if isinstance(x, tuple) and x[:2] == ("call", "compare")]
                rd = [x for x in e[2] if isinstance(x, tuple) and x[:2] == ("call", "read")]
                if not cm or not rd or rd[0] not in cm[0][2]:
                    bad = bad or "judges the changes of another model (%s)" % e[3]
                j = e[2][0]
                if isinstance(j, Obj) and not any(v == A(S("generator"), "evolution_file") for v in j.attrs.values()):
                    bad = bad or "ignores the description of the evolution (%s)" % e[3]
    c.ck.ob("acts", "generator judges the changes between the models", not bad, str(bad), where)
    for sec in ("components", "datatypes"):
        scn, outs = run(False, False, sec)
        bad = None
        for o in outs:
            if o.kind == "raise":
                continue
            hit = False
            for e in o.events:
                if e[0] == "change" and e[1] == "append" and "changed_%s" % sec in show(e[2]) and e[3] and isinstance(e[3][0], Obj):
                    d = {k[1]: v for k, v, b in e[3][0].items if is_c(k)}
                    ch = d.get("schema_change")
                    if ch is not None and scn.norm(ch)[0] == "el" and term(scn.norm(ch)[1], "schema_changes"):
                        hit = True
            if not hit:
                bad = bad or "are not kept on path: %s" % o.path()
        c.ck.ob("acts", "changes of %s that the generator handles" % sec, not bad, str(bad), where)


def contains(t, x):
    if t == x:
        return True
    if isinstance(t, Obj):
        return False
    return isinstance(t, tuple) and any(contains(y, x) for y in t)


def run(ck):
    c = Cmp(ck)
    ck.rule("finds", "every difference between two models is reported: added, removed and changed components, datatypes, members, vector members and relations, "
            "with the definition that it is about")
    ck.rule("equal", "no difference is reported between equal definitions")
    ck.rule("refuses", "changes that nothing supports and renames that nobody described lead to errors or warnings")
    ck.rule("supports", "changes that are supported stay in the list of changes and are not refused")
    ck.rule("described", "a rename that the user describes replaces the two changes it consists of")
    ck.rule("renames", "a datatype has been renamed exactly if the new one has the same members and relations, and it is in one rename only")
    ck.rule("acts", "the program and the code generator fail if there are errors (or unresolved warnings), and handle every other change")
    comparison(c)
    unsupported(c)
    types(c)
    members(c)
    datatypes(c)
    components(c)
    printing(c)
    program(c)
    generator(c)
