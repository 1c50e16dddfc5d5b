"""The intermediate representation as produced by podioir"""
import json

from . import frontend


class Func:
    __slots__ = ("id", "name", "q", "rec", "file", "line", "params", "kind", "blocks", "entry", "exit", "pend", "raw",
                 "const", "static", "acc", "targs", "rt", "pt")

    def __init__(self, d):
        self.raw = d
        self.id = d["id"]
        self.name = d["n"]
        self.q = d["q"]
        self.rec = d.get("rec")
        self.file = d["file"]
        self.line = d["line"]
        self.params = d["params"]
        self.kind = d["kind"]
        self.blocks = {b["b"]: b for b in d["blocks"]}
        self.entry, self.exit = d["entry"], d["exit"]
        self.pend = {p["i"]: p for p in d["pend"]}
        if self.kind != "ginit" and self.pend:
            self.hoist()
        self.const = d.get("const", False)
        self.static = d.get("static", False)
        self.acc = d.get("acc")
        self.targs = d.get("targs")
        self.rt = d.get("rt")
        self.pt = d.get("pt")

    def hoist(self):
        """default member initialisers are no elements of the blocks"""
        for b in self.blocks.values():
            if not any(n["k"] == "minit" and n.get("x", 0) in self.pend for n in b["e"]):
                continue
            out = []
            for n in b["e"]:
                if n["k"] == "minit" and n.get("x", 0) in self.pend:
                    self.add(out, n["x"], set())
                out.append(n)
            b["e"] = out

    def add(self, out, i, seen):
        if i in seen:
            return
        seen.add(i)
        n = self.pend[i]
        for k, v in n.items():
            if k not in ("i", "l", "f", "t"):
                for x in v if isinstance(v, list) else (v,):
                    if isinstance(x, int) and x < -1 and x in self.pend:
                        self.add(out, x, seen)
        out.append(n)

    def __repr__(self):
        return "<%s::%s %s:%d>" % (self.rec, self.name, self.file, self.line)

    @property
    def loc(self):
        return "%s:%d" % (self.file, self.line)


class Program:
    def __init__(self, files, scratch):
        self.funcs = {}
        self.recs = {}
        self.globals = {}
        self.scratch = scratch
        self.by_rec = {}
        for f in files:
            prefix = f.rsplit("/", 1)[-1]
            with open(f) as fh:
                txt = fh.read().replace(scratch + "/gen/", "gen:").replace(frontend.REPO + "/", "repo:")
            # lambdas only have ids that are unique to one translation unit
            txt = txt.replace('"lambda@', '"lambda@' + prefix + "@")
            for line in txt.splitlines():
                d = json.loads(line)
                k = d["rk"]
                if k == "func":
                    if d["id"] not in self.funcs:
                        self.funcs[d["id"]] = Func(d)
                elif k == "rec":
                    self.recs.setdefault(d["ty"], d)
                else:
                    self.globals.setdefault(d["q"], d)
        for fn in self.funcs.values():
            self.by_rec.setdefault(fn.rec, []).append(fn)

    def methods(self, rec, name=None, **kw):
        out = []
        for f in self.by_rec.get(rec, []):
            if name is not None and f.name != name:
                continue
            if all(getattr(f, k) == v for k, v in kw.items()):
                out.append(f)
        return out

    def named(self, q):
        return [f for f in self.funcs.values() if f.q == q]
