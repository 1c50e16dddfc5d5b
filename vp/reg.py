"""What is registered when a library is loaded"""
from .edm import *

FACTORY = "podio::CollectionBufferFactory"
EVOLUTION = "podio::SchemaEvolution"
REGISTRY = "podio::DatamodelRegistry"
MAKE, EVOLVE, MODEL = "registerCreationFunc", "registerEvolutionFunc", "registerDatamodel"


def text(prog, t):
    """the text a term is known to be"""
    if is_c(t) and isinstance(t[1], str) and t[1].startswith("str:"):
        return t[1][4:]
    if t[0] == "ctor" and len(t[2]) == 1:
        return text(prog, t[2][0])
    if t[0] == "call" and t[1].endswith('operator""sv'):
        return text(prog, t[3][0])
    if t[0] == "g":
        g = prog.globals.get(t[1].lstrip(":"))
        return g.get("cs") if g else None
    return None


def number(prog, t):
    if is_c(t) and isinstance(t[1], int):
        return t[1]
    if t[0] == "g":
        g = prog.globals.get(t[1].lstrip(":"))
        return g.get("cv") if g else None
    return None


class Reg:
    def __init__(self, kind, args, where, o, init, loops):
        self.kind, self.args, self.where, self.o, self.init, self.loops = kind, args, where, o, init, loops

    def __repr__(self):
        return "%s at %s" % (self.kind, self.where)


def _opaque(f, *a):
    return f.get("n") in (MAKE, EVOLVE, MODEL)


def registrations(ck):
    """every call that registers something during the initialisation of the libraries"""
    prog = ck._prog
    out = []
    for fn in prog.funcs.values():
        if fn.kind != "ginit":
            continue
        for o in ck.outs(fn, once=True, opaque=_opaque, okey="reg"):
            loops = []
            for e in o.events:
                if e[0] == "loop":
                    loops.append(e[1])
                elif e[0] == "endloop" and loops:
                    loops.pop()
                elif e[0] == "call" and short_call(e[1]) in (MAKE, EVOLVE, MODEL):
                    out.append(Reg(short_call(e[1]), e[3], e[5], o, fn, tuple(loops)))
    return out


def function(ck, v):
    """the function that a function object calls"""
    if v[0] == "ctor" and len(v[2]) == 1:
        v = v[2][0]
    if v[0] in ("lam", "fn"):
        return ck._prog.funcs.get(v[1])
    return None
