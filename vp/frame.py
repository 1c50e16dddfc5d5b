"""What the frame checks share: roles of the members of FrameModel"""
from .frontend import AnalysisError
from .sem import *

MODEL = "podio::Frame::FrameModel<"
IDT = "podio::CollectionIDTable"


def opaque(f):
    return f.get("n") in ("evolveBuffers", "MurmurHash3_x86_32") or f.get("rec") == IDT or \
        f.get("q", "") == "podio::CollectionReadBuffers::CollectionReadBuffers" or \
        f.get("q", "").startswith("podio::SchemaEvolution::instance")


class Model:
    """one instantiation of the frame model"""

    def __init__(self, ck, ty):
        self.ck, self.ty = ck, ty
        self.rec = ck._prog.recs[ty]
        g = methods(ck._prog, ty, "get", 1, pt=["string"])
        if len(g) != 1:
            raise AnalysisError("no unique %s::get(name)" % ty)
        self.get = g[0]
        self.byid = method(ck._prog, ty, "get", 2)
        self.put = method(ck._prog, ty, "put", 2)
        # the collection map is the associative member that get(name) looks in
        maps = [f for f in self.rec["fields"] if "map<" in f["t"] and "CollectionBase" in f["t"]]
        if len(maps) != 1:
            raise AnalysisError("no unique collection map in " + ty)
        self.mapfield = maps[0]
        self.map = F(THIS, maps[0]["n"])
        ids = [f for f in self.rec["fields"] if f["t"] == IDT]
        if len(ids) != 1:
            raise AnalysisError("no unique ID table in " + ty)
        self.ids = F(THIS, ids[0]["n"])

    def outs(self, fn):
        return self.ck.outs(fn, opaque=opaque, okey="frame")

    def slot(self, key):
        return ("get", ("elem", self.map, ("key", key)), 1)

    def present(self, o, key):
        """did the map hold the name before: True/False/None"""
        for a, v in o.tests.items():
            a = a[1] if a[0] == "nz" else a
            if a[0] == "inserted" and a[1] == self.map and a[2] == key:
                return not v
        for a, v in o.tests.items():
            if a[0] == "has" and a[1] == self.map and a[2] == key:
                return v
        return None


def models(ck):
    out = [Model(ck, ty) for ty in ck._prog.recs if ty.startswith(MODEL) and ck._prog.by_rec.get(ty)]
    if not out:
        raise AnalysisError("no instantiation of FrameModel")
    return out


def is_slot(m, v, key):
    """v is the collection that the map holds for key (as pointer)"""
    return v == m.slot(key) or v == ("f", m.slot(key), "get")
