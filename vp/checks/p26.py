"""P26: the shared ownership of untracked objects is counted exactly"""
from ..edm import *

INC = {"operator++": 1, "fetch_add": 1, "operator+=": 1}
DEC = {"operator--": -1, "fetch_sub": -1, "operator-=": -1}


def run(ck):
    ck.rule("create", "taking over a pointer starts with one owner and the duty to delete it, refering to a pointer that "
                      "someone else owns does not count at all")
    ck.rule("copy", "a copy refers to the same object and adds exactly one owner")
    ck.rule("move", "moving passes the ownership on without changing the number of owners")
    ck.rule("assign", "assignment passes the old ownership on to something that gives it up, and takes over the one of the "
                      "other side, also if both sides are the same")
    ck.rule("destroy", "destruction removes exactly one owner; whoever removes the last one, as told by the removal itself, "
                       "deletes the counter, and the object if it has not been given away, and no one else does")
    ck.rule("release", "giving the object away leaves pointer and number of owners alone and removes the duty to delete it")
    ck.rule("swap", "swapping exchanges pointer and ownership of both sides")
    ck.rule("atomic", "the number of owners and the duty to delete are only changed by atomic operations")
    ck.rule("view", "access to the object changes no ownership")
    ck.rule("handle", "copying, converting, assigning and destroying a handle does the same with its shared pointer")
    ck.rule("share", "an object that a handle may own is only passed on together with its owner count; a new object has one "
                     "counter, or belongs to a collection")
    ck.rule("give", "an object that is given away becomes an element of a collection")
    prog = ck.load("core", "cover")
    recs = sorted(r for r in prog.recs if r and r.startswith("podio::utils::MaybeSharedPtr<") and
                  not r.endswith("::ControlBlock") and prog.by_rec.get(r))
    for r in recs:
        pointer(ck, prog, r)
    handles(ck, prog)
    ck.need("create", 2 * len(recs))
    ck.need("copy", len(recs))
    ck.need("move", len(recs) // 2)
    ck.need("assign", len(recs) // 2)
    ck.need("destroy", 2 * len(recs))
    ck.need("release", len(recs) // 2)
    ck.need("swap", 10)
    ck.need("handle", 100)
    ck.need("share", 100)
    ck.need("give", 20)


class Roles:
    def __init__(self, prog, r):
        self.ptr = self.ctrl = self.block = None
        for f in prog.recs[r]["fields"]:
            t = f["t"].rstrip()
            if not t.endswith("*"):
                continue
            rec = t[:-1].strip()
            if rec in prog.recs and any("atomic" in x["t"] or x["t"] in ("bool",) for x in prog.recs[rec]["fields"]) and rec.startswith(r):
                self.ctrl, self.block = f["n"], rec
            else:
                self.ptr = f["n"]
        if self.ptr is None or self.ctrl is None:
            raise AnalysisError("cannot find pointer and control block of " + r)
        self.count = self.owned = None
        for f in prog.recs[self.block]["fields"]:
            if "bool" in f["t"]:
                self.owned = f["n"]
            else:
                self.count = f["n"]
            self.types = {x["n"]: x["t"] for x in prog.recs[self.block]["fields"]}
        if self.count is None or self.owned is None:
            raise AnalysisError("cannot find counter and flag of " + self.block)


def num(t):
    return t[1] if is_c(t) and isinstance(t[1], int) and not isinstance(t[1], bool) else None


def counting(o, R):
    """[(control block, change, term of the result, is result the new value, effect position)]"""
    out = []
    for i, e in enumerate(o.events):
        if e[0] != "call" or e[2] is None or e[2][0] != "f" or e[2][2] != R.count:
            continue
        nm = e[1].split("::")[-1]
        res = ("call", e[1], e[2], e[3])
        if nm in ("operator++", "operator--"):
            d = 1 if nm == "operator++" else -1
            post = len(e[3]) == 1
            out.append((e[2][1], d, res, not post, i))
        elif nm in ("fetch_add", "fetch_sub", "operator+=", "operator-=") and e[3] and num(e[3][0]) is not None:
            d = num(e[3][0]) * (1 if nm in ("fetch_add", "operator+=") else -1)
            out.append((e[2][1], d, res, nm.startswith("operator"), i))
        elif nm in ("store", "exchange", "operator="):
            out.append((e[2][1], None, res, False, i))
    for e in effects(o):
        if e.kind == "wr" and e.loc[0] == "f" and e.loc[2] == R.count:
            out.append((e.loc[1], None, None, False, e.pos))
    return out


def set_ctrl(o, base, R):
    """is the control block of base known to exist (None: not tested)"""
    v = F(base, R.ctrl)
    t = o.tests.get(("nz", v), o.tests.get(v))
    if t is None:
        t = o.tests.get(mk_eq(v, NULL))
        t = None if t is None else not t
    return t


def last_owner(o, res, new):
    """does the path know whether the removal removed the last owner: True,
    False or None"""
    for a, v in o.tests.items():
        if not any(same_call(x, res) for x in subterms(a)):
            continue
        if a[0] == "nz" and same_call(a[1], res) and new:
            return not v
        if same_call(a, res) and new:
            return not v
        if a[0] == "eq":
            x = a[2] if same_call(a[1], res) else a[1]
            if num(x) == (0 if new else 1):
                return v
        if a[0] == "lt" and same_call(a[1], res) and num(a[2]) == (1 if new else 2):
            return v
    return None


def same_call(a, b):
    return a[0] == "call" and b is not None and a[1:4] == b[1:4]


def pointer(ck, prog, r):
    R = Roles(prog, r)
    base = r.split("<", 1)[1][:-1]
    for n in (R.count, R.owned):
        ck.ob("atomic", "%s of %s" % (n, base), "atomic" in R.types[n], "has type %s" % R.types[n], "MaybeSharedPtr.h")
    for fn in prog.by_rec[r]:
        outs = [o for o in ck.outs(fn, once=True) if o.kind == "ret"]
        for o in outs:
            w = "%s on path: %s" % (fn.loc, o.path()[:300])
            inst = "%s of %s" % (fn.name if fn.kind in ("method", "conv") else fn.kind, base)
            cs = counting(o, R)
            ptr, ctrl = o.load(F(THIS, R.ptr)), o.load(F(THIS, R.ctrl))
            dels = [(i, e) for i, e in enumerate(o.events) if e[0] == "delete"]
            news = [e for e in o.events if e[0] == "new"]
            for c in cs:
                ck.ob("atomic", inst, c[1] is not None, "the counter is overwritten", w)
            other = par(fn, 0) if fn.params else None
            same = fn.params and base_of(fn.params[0]["t"]) == r
            if fn.kind in ("ctor", "copyctor", "movector") and not same:
                ck.ob("create", inst, ptr == other, "does not keep the pointer", w)
                ck.ob("create", inst, not cs and not dels, "changes %s" % (cs or dels), w)
                if len(fn.params) > 1:
                    ok = len(news) == 1 and ctrl[0] == "addr" and ctrl[1][0] == "obj" and ctrl[1][2] == R.block
                    ck.ob("create", inst, ok, "no new control block", w)
                    if ok:
                        v, f = o.load(F(ctrl[1], R.count)), o.load(F(ctrl[1], R.owned))
                        ck.ob("create", inst, first(v) == 1, "starts with %s owners" % show(v), w)
                        ck.ob("create", inst, first(f) in (True, 1) or (first(f) is None and init_true(prog, R)),
                              "starts with the duty to delete %s" % show(f), w)
                else:
                    ck.ob("create", inst, ctrl == NULL and not news, "counts owners of a pointer that is not its own", w)
            elif fn.kind == "copyctor":
                oc = F(other, R.ctrl)
                ck.ob("copy", inst, ptr == F(other, R.ptr) and ctrl == oc, "refers to %s with control block %s" % (show(ptr), show(ctrl)), w)
                ck.ob("copy", inst, o.load(F(other, R.ptr)) == F(other, R.ptr) and o.load(oc) == oc, "changes the original", w)
                alive = set_ctrl(o, other, R)
                alive = set_ctrl(o, THIS, R) if alive is None else alive
                tot = [c[1] for c in cs if c[0] == deref(oc)]
                ck.ob("copy", inst, (sum(tot) if None not in tot else None) == (0 if alive is False else 1) and len(cs) == len(tot) and
                      (alive is not None or not cs), "changes the number of owners by %s%s" % (tot, " although there is no counter" if not alive else ""), w)
                ck.ob("copy", inst, not dels, "deletes something", w)
            elif fn.kind == "movector":
                oc = F(other, R.ctrl)
                ck.ob("move", inst, ptr == F(other, R.ptr) and ctrl == oc, "refers to %s with control block %s" % (show(ptr), show(ctrl)), w)
                gone = o.load(oc) == NULL
                bal = sum(c[1] or 0 for c in cs if c[0] == deref(oc))
                alive = set_ctrl(o, other, R)
                ck.ob("move", inst, (gone and bal == 0) or (not gone and (bal == 1 or alive is False)), "both sides own the object", w)
                ck.ob("move", inst, not dels, "deletes something", w)
            elif fn.kind in ("copyasg", "moveasg"):
                assign(ck, o, R, fn, inst, ptr, ctrl, cs, dels, w)
            elif fn.kind == "dtor":
                destroy(ck, o, R, inst, cs, dels, w)
            elif fn.name == "release":
                alive = set_ctrl(o, THIS, R)
                ck.ob("release", inst, o.value == F(THIS, R.ptr), "returns %s" % show(o.value), w)
                ck.ob("release", inst, ptr == F(THIS, R.ptr) and ctrl == F(THIS, R.ctrl), "forgets the object or its counter", w)
                ck.ob("release", inst, not cs and not dels, "changes the number of owners", w)
                f = flag_set(o, F(deref(F(THIS, R.ctrl)), R.owned))
                ck.ob("release", inst, alive is not None, "does not check whether there is a counter", w)
                if alive:
                    ck.ob("release", inst, f in (C(False), C(0)), "the duty to delete is %s" % (show(f) if f else "kept"), w)
                else:
                    ck.ob("release", inst, f is None, "uses a counter that does not exist", w)
            elif fn.kind in ("method", "conv") and fn.name in ("get", "operator->", "operator*", "operator bool"):
                bad = [e for e in effects(o) if e.kind != "call:swap"]
                ck.ob("view", inst, not bad and not cs and not dels, "changes %s" % bad, w)
    for fn in prog.funcs.values():
        if fn.name != "swap" or len(fn.params) != 2 or any(base_of(p["t"]) != r for p in fn.params):
            continue
        for o in ck.outs(fn, once=True):
            w = "%s on path: %s" % (fn.loc, o.path()[:300])
            a, b = par(fn, 0), par(fn, 1)
            ok = all(o.load(F(x, n)) == F(y, n) for x, y in ((a, b), (b, a)) for n in (R.ptr, R.ctrl))
            ck.ob("swap", base, ok and not counting(o, R), "does not exchange both", w)


def base_of(t):
    return t.replace("const ", "").rstrip("& ").strip()


def first(v):
    """the value a (wrapped) value was made from"""
    if is_c(v):
        return v[1]
    if v[0] == "ctor" and v[2]:
        return first(v[2][0])
    if v[0] == "agg" and v[2]:
        return first(v[2][0][1])
    return None


def init_true(prog, R):
    return any(f["n"] == R.owned and f.get("init") and f.get("lits") in ([True], ["true"], [1]) for f in prog.recs[R.block]["fields"])


def flag_set(o, loc):
    """the value an (atomic) flag is set to on a path"""
    v = None
    for e in o.events:
        if e[0] == "wr" and e[1] == loc:
            v = e[2]
        elif e[0] == "call" and e[2] == loc and e[1].split("::")[-1] in ("store", "exchange", "operator="):
            v = e[3][0] if e[3] else None
    return v


def assign(ck, o, R, fn, inst, ptr, ctrl, cs, dels, w):
    other = par(fn, 0)
    t = fn.params[0]["t"].rstrip()
    byval = not t.endswith("&")
    tc, oc, op = F(THIS, R.ctrl), F(other, R.ctrl), F(other, R.ptr)
    self_test = any(v for a, v in o.tests.items() if a[0] == "eq" and ("addr", THIS) in a[1:] + tuple(x for x in a[1:]) or
                    a[0] == "eq" and THIS in a[1:] and v)
    if self_test and not byval:
        ck.ob("assign", inst, ptr == F(THIS, R.ptr) and ctrl == tc and not cs and not dels, "self assignment changes something", w)
        return
    ck.ob("assign", inst, ptr == op and ctrl == oc, "refers to %s with control block %s" % (show(ptr), show(ctrl)), w)
    # something else that is destroyed later has the old ownership
    holder = [base for base in [other] + [k[1] for k in o.state.store if isinstance(k, tuple) and k[0] == "f" and k[2] == R.ctrl and k[1] != THIS]
              if o.load(F(base, R.ctrl)) == tc and o.load(F(base, R.ptr)) == F(THIS, R.ptr)]
    holder = [h for h in holder if h != other or byval or t.endswith("&&")]
    old = [c for c in cs if c[0] == deref(tc)]
    new = [c for c in cs if c[0] == deref(oc)]
    gone = set_ctrl(o, THIS, R) is False
    if byval:
        ck.ob("assign", inst, bool(holder) and not cs and not dels, "the old ownership is lost or given up twice", w)
        return
    ck.ob("assign", inst, gone or bool(holder) != bool([c for c in old if c[1] == -1]), "the old ownership is lost or given up twice", w)
    if old and not holder:
        destroy(ck, o, R, inst, old, dels, w, "assign")
    moved = t.endswith("&&") and o.load(oc) in (NULL, tc)
    nonew = set_ctrl(o, other, R) is False
    took = len([e for e in o.events if e[0] == "handle" and e[1] in (op, other) and e[2] == "copy"])
    ok = moved and not new or nonew or len([c for c in new if c[1] == 1]) + took == 1
    ck.ob("assign", inst, ok, "the number of owners of the new object is wrong", w)
    if old and new:
        ck.ob("assign", inst, min(c[4] for c in new) < min(c[4] for c in old), "self assignment deletes the object", w)


def destroy(ck, o, R, inst, cs, dels, w, rule="destroy"):
    tc, tp = F(THIS, R.ctrl), F(THIS, R.ptr)
    alive = set_ctrl(o, THIS, R)
    if alive is None:
        ck.ob(rule, inst, False, "does not check whether there is a counter", w)
        return
    kills = [(i, e[1]) for i, e in dels]
    if not alive:
        ck.ob(rule, inst, not cs and not kills, "gives up an ownership that it does not have", w)
        return
    cs = [c for c in cs if c[0] == deref(tc)]
    ck.ob(rule, inst, len(cs) == 1 and cs[0][1] == -1, "the number of owners is changed by %s" % [c[1] for c in cs], w)
    if len(cs) != 1:
        return
    last = last_owner(o, cs[0][2], cs[0][3])
    what = [t for _, t in kills]
    if last is None:
        ck.ob(rule, inst, False, "the removal does not decide whether this was the last owner", w)
        return
    if not last:
        ck.ob(rule, inst, not kills, "deletes %s while there are other owners" % [show(t) for t in what], w)
        return
    owned = flag_value(o, F(deref(tc), R.owned))
    ck.ob(rule, inst, what.count(tc) == 1, "the control block is deleted %d times" % what.count(tc), w)
    ck.ob(rule, inst, set(what) <= {tc, tp}, "deletes %s" % [show(t) for t in what], w)
    ck.ob(rule, inst, owned is not None, "does not check the duty to delete", w)
    ck.ob(rule, inst, what.count(tp) == (1 if owned else 0), "the object is deleted %d times although the duty to delete is %s" % (
        what.count(tp), owned), w)
    at = [i for i, t in kills if t == tc]
    if at:
        later = [e for e in o.events[at[0] + 1:] for x in e if isinstance(x, tuple) and e[0] in ("call", "wr", "rd") and contains(x, deref(tc))]
        ck.ob(rule, inst, not later, "uses the control block after it was deleted", w)


def flag_value(o, loc):
    for a, v in o.tests.items():
        t = a[1] if a[0] == "nz" else a
        if t == loc or (t[0] == "call" and t[2] == loc and t[1].split("::")[-1] in ("operator bool", "load", "exchange") or
                        t[0] == "call" and t[2] == loc and "operator" in t[1]):
            return v
    return None


def handles(ck, prog):
    hs = {}
    for a, b in handle_recs(prog):
        for h in (a, b):
            hs[h] = obj_field(prog, h)
    objs = {pointee(prog, h) for h in hs}
    fields = set(hs.values())
    is_handle_ptr = lambda t: t[0] == "f" and t[2] in fields
    colls = all_colls(ck)
    entries = set()
    colls_of_entries = {c.rec: c for c in colls}
    for c in colls:
        entries.add(c.entries[2])
    for h, hf in hs.items():
        for fn in prog.by_rec.get(h, []):
            if fn.kind not in ("copyctor", "movector", "copyasg", "moveasg", "dtor"):
                continue
            inst = "%s of %s" % (fn.kind, h)
            for o in ck.outs(fn, once=True):
                w = "%s on path: %s" % (fn.loc, o.path()[:300])
                if o.kind != "ret":
                    ck.ob("handle", inst, False, "throws", w)
                    continue
                ev = [e for e in o.events if e[0] == "handle"]
                if fn.kind == "dtor":
                    bad = [e for e in effects(o)]
                    ck.ob("handle", inst, not bad and not ev, "changes %s" % (bad or ev), w)
                    continue
                src = F(par(fn, 0), hf)
                modes = [e[2] for e in ev if e[1] == src]
                if fn.kind in ("copyctor", "movector"):
                    ck.ob("handle", inst, o.load(F(THIS, hf)) == src, "refers to %s" % show(o.load(F(THIS, hf))), w)
                    ck.ob("handle", inst, not set(modes) - {"copy", "move"} and
                          ("copy" in modes or fn.kind == "movector" or o.load(src) == NULL or not ev), "passes ownership by %s" % modes, w)
                else:
                    got = o.load(F(THIS, hf))
                    # by exchanging the parts, or by an assignment of the pointer
                    parts = {e.loc[2]: e.args[0] for e in effects(o) if e.kind == "wr" and e.loc[0] == "f" and e.loc[1] == F(THIS, hf)}
                    ok = got == src or (parts and all(v[0] == "f" and v[2] == k and v[1] == src for k, v in parts.items()) and len(parts) == 2)
                    ck.ob("handle", inst, ok, "refers to %s" % show(got), w)
    # ------------------------------------------------- sharing and giving away
    for fn in list(prog.funcs.values()):
        if fn.rec and fn.rec.startswith("podio::utils::MaybeSharedPtr<"):
            continue
        if "/models/" in fn.loc:
            continue
        try:
            outs = ck.outs(fn, solo=True) if fn.name in ("clear", "setReferences", "prepareForWrite", "operator<<") else ck.outs(fn, once=True)
        except AnalysisError:
            continue
        for o in outs:
            evs = [(i, e) for i, e in enumerate(o.events) if e[0] == "handle"]
            rel = [(i, e) for i, e in enumerate(o.events) if e[0] == "release" and is_handle_ptr(e[2]) or
                   e[0] == "release" and e[2][0] in ("var", "par", "obj")]
            if not evs and not rel or o.kind != "ret":
                continue
            w = "%s on path: %s" % (fn.loc, o.path()[:300])
            inst = fn.q or str(fn)
            added = {x for e in effects(o, local=True) if e.kind in ("push_back", "emplace_back", "insert", "emplace", "push_front", "wr")
                     and mentions_field(e.loc, entries) for x in e.args}
            owned = {}
            for i, e in evs:
                if e[2] == "owned":
                    fresh = e[1][0] == "addr" and e[1][1][0] == "obj" or e[1][0] == "obj"
                    ck.ob("share", inst, fresh or e[1][0] == "par", "takes over %s, which it did not create" % show(e[1]), w)
                    ck.ob("share", inst, owned.get(e[1]) is None, "a second counter for %s" % show(e[1]), w)
                    owned[e[1]] = i
                elif e[2] == "unowned":
                    if e[1] == NULL:
                        continue
                    ck.ob("share", inst, not is_handle_ptr(e[1]), "refers to the object of another handle without counting", w)
                    ck.ob("share", inst, e[1] not in owned, "refers to %s a second time without counting" % show(e[1]), w)
                    if e[1][0] == "addr" and e[1][1][0] == "obj" and e[1][1][2] in objs:
                        ck.ob("share", inst, e[1] in added, "a new object belongs to no one", w)
            if added:
                given = {e[1] for i, e in rel}
                c = colls_of_entries.get(fn.rec)
                for x in added:
                    if c and is_handle_ptr(x) and c.sub(o) is not True and fn.name in ("push_back", "emplace_back", "insert", "create"):
                        ck.ob("give", inst, x in given,
                              "the object becomes an element, but its handles still delete it", w)
            for i, e in rel:
                p = e[1]
                if not (is_handle_ptr(e[2]) or any(p == x[1][1] for x in evs) or is_handle_ptr(p)):
                    continue
                ck.ob("give", inst, p in added or deref(p) in added or any(p in subterms(x) for x in added),
                      "the object is given away but does not become an element", w)


def mentions_field(loc, names):
    return any(x[0] == "f" and x[2] in names for x in subterms(loc))
