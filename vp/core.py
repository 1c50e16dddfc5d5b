"""Bookkeeping of one check: obligations, findings, evidence, exit status"""
import hashlib
import json
import os
import sys
import time
import traceback

from . import edm, frontend, interp
from .frontend import AnalysisError, VERIF

KNOWN = os.path.join(VERIF, "known_findings.json")


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obs = []          # (rule, instance, ok, message, where)
        self.counts = {}
        self.needs = {}
        self.rules = {}
        self.notes = []
        self.funcs = set()
        self.paths = 0
        self.assumptions = []
        self._prog = None
        self.partial = False
        self._memo = {}

    # ---------------------------------------------------------- analysis
    def load(self, *units):
        if self._prog is None:
            units = list(units)
            if self.tier == "thorough" and "cover" in units and "ext" not in units:
                units.append("ext")
            edm.LOADED[:] = [u for u in units if u in ("cover", "ext")] or ["cover"]
            self._prog = frontend.load(list(units))
        return self._prog

    def outs(self, fn, once=False, opaque=None, okey=None, maxdepth=8, this=("this",), args=None, assume=(), **kw):
        """All abstract paths of a function (memoised)"""
        key = (fn.id, once, okey or id(opaque) if opaque else None, maxdepth, this, str(args), assume, tuple(sorted(kw.items())))
        if key not in self._memo:
            it = interp.Interp(self._prog, maxdepth=maxdepth, opaque=opaque, once=once, **kw)
            st = None
            if assume:
                st = interp.State()
                st.conds.update(dict(assume))
            try:
                self._memo[key] = it.run(fn, this=this, args=args, state=st)
            except interp.TooComplex as e:
                raise AnalysisError("%r is too complex: %s" % (fn, e))
            self.funcs.add(fn.id)
            self.paths += len(self._memo[key])
        return self._memo[key]

    # ------------------------------------------------------- obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, inst, ok, msg="", where=""):
        if rule not in self.rules:
            raise AnalysisError("undeclared rule " + rule)
        self.obs.append((rule, inst, bool(ok), msg, where))
        self.counts[rule] = self.counts.get(rule, 0) + 1
        return ok

    def need(self, rule, n):
        """The rule must have been applied at least n times"""
        self.needs[rule] = n

    def assume(self, text):
        self.assumptions.append(text)

    # ----------------------------------------------------------- verdict
    def finish(self):
        for r, n in () if self.partial else self.needs.items():
            if self.counts.get(r, 0) < n:
                # a failed obligation elsewhere explains missing instances
                if any(not o[2] for o in self.obs):
                    continue
                raise AnalysisError("rule %s was only applied %d times (at least %d are known)" % (
                    r, self.counts.get(r, 0), n))
        for r in () if self.partial else self.rules:
            if r not in self.needs and not self.counts.get(r):
                raise AnalysisError("rule %s has no instances" % r)
        known = []
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                known = [k for k in json.load(f)["findings"] if k.get("status") == "known" and k["property"] == self.pid]
        bad, seen, hit = [], set(), {}
        for o in self.obs:
            if o[2] or (o[0], o[1], o[3]) in seen:
                continue
            seen.add((o[0], o[1], o[3]))
            k = next((k for k in known if k["rule"] == o[0] and k["instance"] == o[1]), None)
            if k is None:
                bad.append(o)
            else:
                hit[(k["rule"], k["instance"])] = k
        for k in hit.values():
            print("KNOWN-FINDING: property=%s %s [%s: %s]" % (self.pid, k["what"], k["rule"], k["instance"]))
        cov = {
            "explanation": "Static analysis of /repo's current sources and of code generated from them; nothing is "
                           "executed except the code generator itself. " + " ".join(self.notes),
            "rules": self.rules,
            "obligations_per_rule": self.counts,
            "obligations": len(self.obs),
            "discharged": sum(1 for o in self.obs if o[2]),
            "functions_analysed": len(self.funcs),
            "abstract_paths": self.paths,
            "functions_parsed": len(self._prog.funcs) if self._prog else 0,
            "known_findings_seen": len(hit),
            "samples": [{"rule": o[0], "instance": o[1], "where": o[4]} for o in self.obs[:: max(1, len(self.obs) // 12)]],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(bad)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if bad:
            d = os.path.join(VERIF, "build", "replay")
            os.makedirs(d, exist_ok=True)
            txt = []
            for o in bad:
                txt.append("%s\n  rule:     %s: %s\n  instance: %s\n  where:    %s\n" % (o[3], o[0], self.rules[o[0]], o[1], o[4]))
            body = "\n".join(txt)
            p = os.path.join(d, "%s_%s.txt" % (self.pid, hashlib.sha1(body.encode()).hexdigest()[:10]))
            with open(p, "w") as f:
                f.write(body)
            for o in bad[:20]:
                print("  %s [%s] %s: %s" % (o[4], o[0], o[1], o[3]))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
            return 1
        print("%s holds: %d obligations of %d rules, %d functions, %d abstract paths, %.1f s" % (
            self.pid, len(self.obs), len(self.rules), len(self.funcs), self.paths, time.time() - self.t0))
        return 0


def main(argv):
    pid = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in argv[2:]:
        if a.startswith("--tier="):
            tier = a.split("=", 1)[1]
    ck = None
    try:
        mod = __import__("vp.checks." + pid.lower(), fromlist=["run"])
        ck = Check(pid, tier)
        mod.run(ck)
        return ck.finish()
    except AnalysisError as e:
        if ck is not None and any(not o[2] for o in ck.obs):
            # what was found before counts
            print("ANALYSIS-ERROR %s: %s" % (pid, e))
            ck.partial = True
            return ck.finish() or 3
        print("ANALYSIS-ERROR %s: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        return 4
