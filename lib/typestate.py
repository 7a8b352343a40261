"""Typestate on the CFG with property simulation: abstract states are sets of tokens; per token set the
branch facts common to all paths that reach it are kept, so that correlated branches stay apart."""
import re

from facts import Facts

WORLD = re.compile(r"\b(fileexist|access|stat|fopen|opendir|lock_file)\(")     # another process may change the answer

class Typestate:
    LIMIT = 64

    def __init__(self, prog, f, facts=None):
        self.prog, self.f = prog, f
        self.F = facts or Facts(prog, f)
        self.cfg = f.cfg
        self.gave_up = False

    # -- to be overridden ---------------------------------------------------------------------
    def elem(self, T, e, S):
        """Token set after element e (facts S hold before)."""
        return T

    def edge(self, T, lits):
        """Token set after a branch on which the literals hold; None if the branch is impossible."""
        return T

    def leave(self, T, node, S):
        """The function is left at node with tokens T."""

    def start(self):
        return frozenset()

    # -- engine -------------------------------------------------------------------------------
    def run(self):
        cfg, F = self.cfg, self.F
        inn = {cfg.entry: {self.start(): frozenset()}}
        work = [cfg.entry]
        steps = 0
        while work:
            steps += 1
            if steps > 40 * len(cfg.b) + 400:
                self.gave_up = True
                break
            x = work.pop()
            b = cfg.b[x]
            for i, st in self.flow(b, inn[x]):
                s = b.succ[i]
                cur = inn.setdefault(s, {})
                ch = s not in inn or not cur and bool(st)
                for T, S in st.items():
                    if T not in cur:
                        if len(cur) >= self.LIMIT:
                            self.gave_up = True
                            continue
                        cur[T] = S
                        ch = True
                    else:
                        U = cur[T] & S
                        if U != cur[T]:
                            cur[T] = U
                            ch = True
                if ch and s not in work:
                    work.append(s)
        self.inn = inn
        # reports are made on the fixpoint only
        self.report = True
        for x in sorted(inn):
            b = cfg.b[x]
            for T, S in sorted(inn[x].items(), key=lambda z: sorted(map(str, z[0]))):
                for e in b.els:
                    T = self.elem(T, e, S)
                    S = F.step(S, e)
                last = b.els[-1] if b.els else None
                if b.noret or cfg.exit in b.succ:
                    self.leave(T, last if last is not None else self.f.body, S)
        return self

    report = False

    def flow(self, b, states):
        F = self.F
        out = {}
        for T, S in states.items():
            for e in b.els:
                T = self.elem(T, e, S)
                S = F.step(S, e)
            if b.noret:
                continue
            for i, s in enumerate(b.succ):
                if s < 0:
                    continue
                S2 = F.edge(b, i, S)
                new = [x for x in S2 - S if len(x) == 2]
                if any((k, not v) in S for k, v in new if not WORLD.search(k)):
                    continue
                # a value known to be zero contradicts being taken as non-zero through a definition
                T2 = self.edge(T, [x for x in S2 if len(x) == 2]) if len(b.succ) == 2 and b.cond is not None else T
                if T2 is None:
                    continue
                d = out.setdefault(i, {})
                d[T2] = d[T2] & S2 if T2 in d else S2
        return list(out.items())


def assigned(e):
    """lvalue that receives the value of expression e (through casts), or None."""
    n, p = e, e.p
    while p is not None:
        if p.k == "cast":
            n, p = p, p.p
            continue
        if p.k == "bin" and p.op == "=" and p.c[1] is n:
            return p.c[0].strip()
        if p.k == "var":
            return p
        return None
    return None
