#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decides one property on /repo's current tree.

Exit 0: every obligation was discharged (known findings are listed). Exit 1: at least one new
violation. Exit 2: the analysis could not be carried out."""
import importlib
import json
import os
import re
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "lib"), os.path.join(HERE, "checks")]
import prog as _prog  # noqa: E402


def known_findings():
    """{(property, key): text} of known-findings.txt."""
    out = {}
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"known: property=(\w+) key=(\S+) (.*)", line.strip())
            if m:
                out[(m[1], m[2])] = m[3]
    return out


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.counts, self.samples, self.viol, self.rules = {}, {}, [], {}
        self.assume = []
        self.und = {}
        self._prog = self._eff = None

    @property
    def prog(self):
        if self._prog is None:
            self._prog = _prog.load()
        return self._prog

    @property
    def eff(self):
        if self._eff is None:
            import effects
            self._eff = effects.Effects(self.prog)
        return self._eff

    def rule(self, kind, text):
        """What an obligation of this kind demands."""
        self.rules[kind] = text
        self.counts.setdefault(kind, 0)

    def ok(self, kind, site, n=1):
        self.counts[kind] = self.counts.get(kind, 0) + n
        s = self.samples.setdefault(kind, [])
        if len(s) < 4 and site not in s:
            s.append(site)

    def violate(self, kind, key, where, msg):
        self.counts[kind] = self.counts.get(kind, 0) + 1
        self.viol.append((kind, re.sub(r"\s+", "_", "%s:%s" % (kind, key)), where, msg))

    def judge(self, cond, kind, key, where, msg):
        """One obligation: holds if cond."""
        if cond:
            self.ok(kind, "%s %s" % (where, key))
        else:
            self.violate(kind, key, where, msg)
        return cond

    def undecided(self, kind, key, why):
        """An obligation the analysis cannot decide: reported in the evidence, never an alarm."""
        self.assume.append("undecided (%s, %s): %s" % (kind, key, why))
        self.und[kind] = self.und.get(kind, 0) + 1

    def floor(self, kind, n):
        """The rule matched at least n instances on the confirmed tree; far fewer means that the
        analysis no longer sees its subject."""
        if self.counts.get(kind, 0) + self.und.get(kind, 0) < n:
            raise _prog.Broken("%s: only %d instances of '%s' (expected at least %d)" %
                               (self.prop, self.counts.get(kind, 0), kind, n))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = importlib.import_module(prop.lower())
    ctx = Ctx(prop, tier)
    try:
        mod.check(ctx)
    except _prog.Broken as e:
        # violations found before the analysis gave up are still violations
        if not ctx.viol:
            print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
            return 2
        print("note: %s" % e)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        return 2
    known = known_findings()
    seen, new, old = set(), [], []
    for v in ctx.viol:
        k = (prop, v[1])
        if (v[1], v[2]) in seen:
            continue
        seen.add((v[1], v[2]))
        (old if k in known else new).append(v)
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join(evdir, prop + ".violations.txt")
    with open(replay, "w", encoding="utf-8") as fh:
        for kind, key, where, msg in new:
            fh.write("%s\n  rule: %s\n  at:   %s\n  key:  %s\n  %s\n" %
                     (kind, ctx.rules.get(kind, ""), where, key, msg))
    total = sum(ctx.counts.values())
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's current source (clang AST of every translation unit the "
                           "makefiles compile%s); obligations are enumerated by the rules below and each is "
                           "decided without running the code." % getattr(mod, "ALSO", ""),
            "obligations": total, "discharged": total - len(ctx.viol),
            "by_rule": {k: {"rule": ctx.rules.get(k, ""), "instances": c, "samples": ctx.samples.get(k, [])}
                        for k, c in sorted(ctx.counts.items())},
            "translation_units": len(ctx.prog.tus) if ctx._prog else 0,
            "functions": len(ctx.prog.functions) if ctx._prog else 0,
            "known_findings": [v[1] for v in old],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + ctx.assume,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(evdir, prop + ".json"), "w", encoding="utf-8") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")
    for k, c in sorted(ctx.counts.items()):
        print("%-28s %6d  %s" % (k, c, ctx.rules.get(k, "")))
    for kind, key, where, msg in old:
        print("KNOWN-FINDING: property=%s %s %s (%s)" % (prop, key, known[(prop, key)], where))
    for kind, key, where, msg in new:
        print("%s: %s [%s] %s" % (where, kind, key, msg))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    print("%s %s: %d obligations, %d violations, %d known findings, %.1f s" %
          (prop, tier, total, len(new), len(old), time.time() - t0))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
