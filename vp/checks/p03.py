"""P03: shared state is only touched under its lock (pairwise lockset analysis)"""
from ..sem import *

MUTEX = ("std::mutex", "std::recursive_mutex", "std::shared_mutex")
# these classes synchronise all of their operations, not only the constant ones
SELF_SYNC = ("podio::CollectionIDTable", "podio::GenericParameters")
FRAME = "podio::Frame::FrameModel<"
SPECIAL = ("ctor", "copyctor", "movector", "dtor", "copyasg", "moveasg")


def mutex_fields(rec):
    return {f["n"]: "recursive" in f["t"] for f in rec["fields"] if any(m in f["t"] for m in MUTEX)}


def touches(a, b):
    """do accesses to the locations a and b concern the same memory"""
    if a == b:
        return True
    if not has_prefix(a, b):
        a, b = b, a
    if not has_prefix(a, b):
        return False
    # a lies inside of b, unless only the pointer is stored there
    while a != b:
        if a[0] == "deref":
            return False
        a = a[1]
    return True


def mutex_of(h):
    return h[1] if h[0] == "shared" else h


def field_in(loc, names):
    """name of the mutex field that a held lock is"""
    for t in subterms(loc):
        if t[0] == "f" and t[1] == THIS and t[2] in names:
            return t[2]
    return None


def run(ck):
    ck.rule("lockset", "two accesses of operations that may run concurrently to the same part of the shared state, one of "
                       "which changes it, have a lock in common that both hold")
    ck.rule("guarded", "every operation that changes shared state holds a lock of the same object while it does so")
    ck.rule("order", "locks are acquired in one global order, and only recursive ones while they are already held")
    ck.rule("reenter", "no lock of a frame that requesting a collection needs, unless it is recursive, is held while "
                       "the relations of a collection are connected")
    ck.rule("released", "locks are released on every path through an operation")
    ck.rule("atomic-count", "the number of owners of an untracked object is an atomic counter")
    prog = ck.load("core", "cover")

    classes = []
    for ty, rec in prog.recs.items():
        if ty in prog.by_rec and mutex_fields(rec):
            classes.append((ty, rec))

    def opaque(ty):
        def f(f):
            return f.get("n") in ("evolveBuffers", "createBuffers", "operator<<", "to_json") or \
                f.get("n", "").startswith("MurmurHash3") or \
                f.get("q", "") == "podio::CollectionReadBuffers::CollectionReadBuffers" or \
                f.get("rec") in SELF_SYNC and f.get("rec") != ty
        return f

    order = {}
    for ty, rec in classes:
        mtx = mutex_fields(rec)
        sync = ty in SELF_SYNC or ty.startswith(FRAME)
        synced = {f["n"] for f in rec["fields"] if f["t"].replace("const ", "") in SELF_SYNC}

        def track(loc, mtx=mtx):
            if root_of(loc) != THIS or loc == THIS or loc == ("deref", THIS):
                return False
            for t in subterms(loc):
                if t[0] == "f" and t[1] == THIS and (t[2] in mtx or t[2] in synced):
                    return False
            return True

        acc = []      # (fn, location, mode, locks, where)
        op = opaque(ty)
        for fn in prog.by_rec[ty]:
            if (fn.kind in SPECIAL and fn.kind != "copyctor") or fn.static or fn.name == "operator=":
                continue
            kw = {"this": ("par", "copy"), "args": [THIS]} if fn.kind == "copyctor" else {}
            if fn.kind == "copyctor" and not sync:
                continue
            if not sync and not fn.const:
                continue
            if fn.acc != "public" and sync:
                # only reached through the public operations
                continue
            for o in ck.outs(fn, once=True, opaque=op, okey="p03" + ty, track=track, **kw):
                w = "%s on path: %s" % (fn.loc, o.path())
                own = []
                for e in o.events:
                    if e[0] == "use":
                        # an element that this path just put into a container
                        # and that nobody else can know yet
                        if any(has_prefix(e[1], ("deref", c)) or touches(e[1], c) for c, l in own if l <= set(e[4])):
                            continue
                        acc.append((fn, e[1], e[2], frozenset(e[4]), e[3]))
                    elif e[0] == "lock":
                        for h in e[3]:
                            a, b = field_in(mutex_of(h), mtx), field_in(mutex_of(e[1]), mtx)
                            if a is None or b is None or a == b and mtx[a]:
                                continue
                            order.setdefault((ty, a, b), e[2])
                    elif e[0] == "unlock":
                        own = [(c, l) for c, l in own if e[1] not in l]
                    elif e[0] == "br" and e[1][0] == "nz" and e[1][1][0] == "inserted" and e[2] is True:
                        own.append((("elem", e[1][1][1], ("key", e[1][1][2])), lastheld))
                    elif e[0] == "call":
                        if short_call(e[1]) in ("emplace", "try_emplace", "insert"):
                            lastheld = set(e[6])
                        if short_call(e[1]) == "setReferences":
                            bad = {field_in(mutex_of(h), mtx) for h in e[6]}
                            bad = [m for m in bad if m is not None and not mtx[m]]
                            ck.ob("reenter", "%s::%s" % (ty, fn.name), not bad, "connects relations, which requests other "
                                  "collections, with the lock %s held" % bad, e[5])
                        if e[2] is not None and e[7].get("rec") in SELF_SYNC and e[7].get("rec") != ty and root_of(e[2]) == THIS:
                            callee = prog.funcs.get(e[7]["id"])
                            refq = callee is not None and (callee.rt or "").endswith("&")
                            held = frozenset(e[6]) | (frozenset() if refq else frozenset([("internal", e[2])]))
                            acc.append((fn, e[2], "r" if e[7].get("const") else "w", held, e[5]))
                if o.kind == "ret":
                    ck.ob("released", "%s::%s" % (ty, fn.name), not o.held, "returns with %s still locked" % [show(h) for h in o.held], w)

        groups = {}
        for fn, loc, mode, held, where in acc:
            groups.setdefault((loc, held, mode), (fn, where))
        for (loc, held, m1), (fn, where) in groups.items():
            if m1 != "w":
                continue
            ck.ob("guarded", "%s: %s changes %s" % (ty, fn.name, show(loc)), bool([h for h in held if h[0] != "shared"]),
                  "%s::%s changes the shared %s without holding a lock" % (ty, fn.name, show(loc)), where)
            for (l2, h2, mode), (f2, w2) in groups.items():
                if not touches(loc, l2):
                    continue
                common = {mutex_of(h) for h in held if h[0] != "shared"} & {mutex_of(h) for h in h2}
                common |= {mutex_of(h) for h in held} & {mutex_of(h) for h in h2 if h[0] != "shared"}
                ck.ob("lockset", "%s: %s / %s: %s" % (ty, fn.name, f2.name, show(loc)), bool(common),
                      "%s changes %s holding %s while %s accesses it holding %s" % (
                          fn.name, show(loc), [show(h) for h in held], f2.name, [show(h) for h in h2]), w2)
    # lock order
    edges = {}
    for (ty, a, b), w in order.items():
        edges.setdefault(ty, {}).setdefault(a, {})[b] = w
    for ty, rec in classes:
        g = edges.get(ty, {})
        bad = None
        for a in g:
            todo, seen = list(g[a]), set()
            while todo:
                b = todo.pop()
                if b == a:
                    bad = (a, list(g[a].values())[0])
                if b in seen:
                    continue
                seen.add(b)
                todo += list(g.get(b, {}))
        ck.ob("order", ty, bad is None, "the lock %s can be requested while it is held or in opposite orders" % (bad and bad[0]), bad[1] if bad else "")
    for ty, rec in prog.recs.items():
        if ty.startswith("podio::utils::MaybeSharedPtr<") and ty.endswith("ControlBlock"):
            for f in rec["fields"]:
                if f["t"] == "bool" or f["t"].endswith("*"):
                    continue
                ck.ob("atomic-count", ty, "atomic" in f["t"], "the counter has the type " + f["t"], "%s:%s" % (rec["file"], rec["line"]))
    ck.assume("references that CollectionIDTable::names/ids and GenericParameters::getMap hand out are not used while other "
              "threads change the table or parameters; the uses inside of the library are analysed")
    ck.assume("construction, destruction, moving and assignment of an object do not overlap with its use")
    ck.need("lockset", 20)
    ck.need("guarded", 15)
    ck.need("order", 8)
    ck.need("reenter", 2)
    ck.need("released", 50)
    ck.need("atomic-count", 1)
