"""Type-level witnesses: constant expressions over the API that clang has to
accept in a translation unit that is never linked or run"""
import os
import re

from . import frontend
from .frontend import AnalysisError

CLANG = "clang++"


def headers(names):
    out = []
    for n in names:
        out += frontend.unit(n).headers
    return out


def decide(ck, rule, items, names=("cover",), prelude="", strict=True):
    """items: (instance, boolean constant expression, what it means if it does not hold)"""
    d = os.path.join(frontend.scratch(), "witness")
    os.makedirs(d, exist_ok=True)
    incs = []
    for n in names:
        incs += frontend.unit(n).incs
    tu = os.path.join(d, "w_%s_%s.cc" % (ck.pid, rule))
    lines = ['#include "%s"' % h for h in headers(names)] + ["#include <type_traits>", "#include <utility>"] + prelude.splitlines()
    where = {}
    for i, (inst, expr, msg) in enumerate(items):
        where[len(lines) + 1] = i
        lines.append('static_assert(%s, "VPW#%d#");' % (expr, i))
    with open(tu, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = frontend.run([CLANG, "-fsyntax-only", "-ferror-limit=0", "-fno-caret-diagnostics"] + frontend.flags(incs) + [tu])
    bad, other = {}, []
    pending = None
    for ln in r.stdout.splitlines():
        m = re.search(r"VPW#(\d+)#", ln)
        if m and "error:" in ln:
            bad[int(m.group(1))] = None
            continue
        m = re.match(r"(.*?):(\d+):(\d+): (error|note|fatal error): (.*)", ln)
        if not m:
            continue
        f, n, kind, txt = m.group(1), int(m.group(2)), m.group(4), m.group(5)
        if "error" in kind:
            if pending:
                other.append(pending)
            pending = "%s:%d %s" % (f, n, txt)
        if pending and f == tu and n in where:
            bad[where[n]] = pending
            pending = None
    if pending:
        other.append(pending)
    if other and not bad:
        raise AnalysisError("the witnesses cannot be compiled: " + "; ".join(other[:3]))
    for i, (inst, expr, msg) in enumerate(items):
        if not strict and bad.get(i):
            continue     # about something that does not exist
        ck.ob(rule, inst, i not in bad, "%s (%s)%s" % (msg, expr, ": " + bad[i] if bad.get(i) else ""), "type-level witness")
