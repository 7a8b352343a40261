"""Linear inequalities between integer expressions that hold at every program point.

A forward analysis over the CFG whose state is a set of forms f (meaning f >= 0). Assignments substitute or
drop, branches add, joins keep what both sides entail; at loop heads the set can only shrink, so what remains
is inductive. Entailment is Fourier-Motzkin elimination over the rationals on the relevant forms."""
import re
from math import gcd

from effects import ASSIGN
from facts import Facts, path

EMPTY = frozenset()


# -- forms as frozensets of (monomial, coefficient); monomial = sorted tuple of atom texts ---------
def freeze(d):
    g = 0
    for m, c in d.items():
        if m != ():
            g = gcd(g, abs(c))
    if g > 1:
        c0 = d.get((), 0)
        d = {m: (c // g) for m, c in d.items() if m != ()}
        c0 = c0 // g          # floor: integer tightening
        if c0:
            d[()] = c0
    return frozenset((m, c) for m, c in d.items() if c)


def fadd(a, b, s=1, t=1):
    d = {}
    for m, c in a.items() if isinstance(a, dict) else a:
        d[m] = d.get(m, 0) + s * c
    for m, c in b.items() if isinstance(b, dict) else b:
        d[m] = d.get(m, 0) + t * c
    return {m: c for m, c in d.items() if c}


def fmul(a, b):
    d = {}
    for m, c in a.items():
        for k, e in b.items():
            mm = tuple(sorted(m + k))
            d[mm] = d.get(mm, 0) + c * e
    return {m: c for m, c in d.items() if c}


def _split(s):
    """Top-level operator of a fully parenthesised text '(l op r)'."""
    depth = 0
    i, n = 1, len(s) - 1
    quote = False
    while i < n:
        ch = s[i]
        if quote:
            if ch == "\\":
                i += 1
            elif ch == '"':
                quote = False
        elif ch == '"':
            quote = True
        elif ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
            if depth < 0:
                return None
        elif depth == 0 and i > 1:
            for op in ("<<", ">>", "<=", ">=", "==", "!=", "&&", "||"):
                if s.startswith(op, i):
                    return s[1:i], op, s[i + len(op):-1]
            if ch in "+*/%<>&|^?" or ch == "-" and s[i - 1] not in "(":
                if ch == "-" and s[i + 1:i + 2] == ">":
                    i += 2
                    continue
                return s[1:i], ch, s[i + 1:-1]
        i += 1
    return None


_cache = {}


def tform(s):
    """Linear form (dict) of a canonical expression text."""
    r = _cache.get(s)
    if r is None:
        r = _cache[s] = _tform(s)
    return r


def _tform(s):
    if re.fullmatch(r"-?\d+", s):
        v = int(s)
        return {(): v} if v else {}
    if s.startswith("(") and s.endswith(")"):
        p = _split(s)
        if p:
            l, op, r = p
            if op == "+":
                return fadd(tform(l), tform(r))
            if op == "-":
                return fadd(tform(l), tform(r), 1, -1)
            if op == "*":
                return fmul(tform(l), tform(r))
    if s.startswith("-(") and s.endswith(")"):
        return fadd({}, tform(s[2:-1]), 1, -1)
    return {(s,): 1}


_lc = {}


def split(f):
    r = _lc.get(f)
    if r is None:
        k = 0
        for m, c in f:
            if m == ():
                k = c
        r = _lc[f] = (frozenset(x for x in f if x[0] != ()), k, tuple(sorted(f)))
    return r


def const(f):
    return split(f)[1]


def linear(f):
    return split(f)[0]


def order(f):
    return split(f)[2]


def atoms(f):
    return {a for m, _ in f for a in m}


def vids(f):
    return {int(x) for m, _ in f for a in m for x in re.findall(r"#(\d+)", a)}


def entails(S, T, limit=20):
    """Do the forms in S (all >= 0) imply T >= 0?"""
    lt, ct = linear(T), const(T)
    if not lt:
        return ct >= 0
    for f in S:
        if linear(f) == lt and const(f) <= ct:
            return True
    # relevant subset: connected through monomials
    neg = fadd({}, dict(T), 1, -1)
    neg = fadd(neg, {(): -1})
    rel = {m for m, _ in lt}
    cand = []
    rest = sorted(S, key=order)
    for _ in range(4):
        add = [f for f in rest if any(m in rel for m, _ in f if m != ())]
        if not add:
            break
        cand += add
        rest = [f for f in rest if f not in add]
        for f in add:
            rel |= {m for m, _ in f if m != ()}
        if len(cand) > limit:
            break
    cand = cand[:limit + 10]
    return infeasible([freeze(neg)] + cand)


def infeasible(sys_, cap=70):
    sys_ = set(sys_)
    while True:
        for f in sys_:
            if not linear(f) and const(f) < 0:
                return True
        sys_ = {f for f in sys_ if linear(f)}
        if not sys_:
            return False
        occ = {}
        for f in sys_:
            for m, c in f:
                if m != ():
                    p, n = occ.get(m, (0, 0))
                    occ[m] = (p + (c > 0), n + (c < 0))
        # eliminate the monomial with the fewest combinations
        m = min(occ, key=lambda x: (occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1], x))
        pos, neg, rest = [], [], set()
        for f in sys_:
            c = dict(f).get(m, 0)
            (pos.append((f, c)) if c > 0 else neg.append((f, -c)) if c < 0 else rest.add(f))
        for a, ca in pos:
            for b, cb in neg:
                rest.add(freeze(fadd(dict(a), dict(b), cb, ca)))
        # keep only the tightest of parallel forms
        best = {}
        for f in rest:
            l, c = linear(f), const(f)
            if l not in best or c < best[l]:
                best[l] = c
        rest = {freeze(dict(l, **{}) | ({(): c} if c else {})) for l, c in best.items()}
        if len(rest) > cap:
            return False
        sys_ = rest


class Ineq:
    """State before every node of f. assume: forms that hold on entry (as text pairs (l, r) for l <= r)."""

    def __init__(self, prog, f, facts=None, assume=(), names=None):
        self.prog, self.f = prog, f
        self.F = facts or Facts(prog, f)
        self.cfg = f.cfg
        self.base = frozenset(freeze(fadd(tform(r), tform(l), 1, -1)) for l, r in assume)
        self.rel = self._relevant(names) if names is not None else None
        self._run()

    def _relevant(self, names):
        """Variables that can matter for the given atoms: their definitions and what they are compared with."""
        rel = {int(x) for a in names for x in re.findall(r"#(\d+)", a)}
        pairs, defs = [], {}
        for n in self.f.walk():
            if n.k == "bin" and n.op in ("<", "<=", ">", ">=", "==", "!="):
                pairs.append({m.a["d"] for m in n.walk() if m.k == "ref" and "d" in m.a})
            elif n.k == "bin" and n.op in ASSIGN and n.c[0].strip().k == "ref":
                defs.setdefault(n.c[0].strip().a.get("d"), set()).update(
                    m.a["d"] for m in n.c[1].walk() if m.k == "ref" and "d" in m.a)
            elif n.k == "var" and n.c:
                defs.setdefault(n.a["d"], set()).update(m.a["d"] for m in n.walk() if m.k == "ref" and "d" in m.a)
        for _ in range(3):
            new = set()
            for d in rel:
                new |= defs.get(d, set())
            if new <= rel:
                break
            rel |= new
        for p in pairs:
            if p & rel and len(p) <= 3:
                rel |= p
        return rel

    # forms implied by a condition
    def cond(self, n, pol, here):
        out = []
        for key, t in self.F.literals(n, pol, None, 0, here):
            out += self.lit(key, t)
        return [x for x in out if self.rel is None or vids(x) <= self.rel]

    def lit(self, key, t):
        p = _split(key) if key.startswith("(") and key.endswith(")") else None
        if p and p[1] == "<":
            l, r = tform(p[0]), tform(p[2])
            if t:       # l < r  ->  r-l-1 >= 0
                return [freeze(fadd(fadd(r, l, 1, -1), {(): -1}))]
            return [freeze(fadd(l, r, 1, -1))]
        if p and p[1] == "==" and t:
            l, r = tform(p[0]), tform(p[2])
            d = fadd(l, r, 1, -1)
            return [freeze(d), freeze(fadd({}, d, 1, -1))]
        if not t and not (p and p[1] in ("==", "<", "&&", "||")):
            d = tform(key)          # expression == 0
            return [freeze(d), freeze(fadd({}, d, 1, -1))]
        return []

    def kill_var(self, S, d):
        return frozenset(f for f in S if d not in vids(f))

    def set_var(self, S, node, rhs):
        """node := rhs (rhs None: unknown)."""
        d = node.a.get("d")
        if node.t is not None and node.t.kind == "float":
            return self.kill_var(S, d)
        me = "%s#%d" % (node.name, d)
        if rhs is None or self.rel is not None and d not in self.rel:
            return self.kill_var(S, d)
        r = rhs.strip()
        if rhs.t is not None and rhs.t.kind == "float" or r.t is not None and r.t.kind == "float":
            return self.kill_var(S, d)
        e = tform(path(rhs))
        if any(d in vids([(m, 1)]) for m in e):
            # v := v + c  (v' - c replaces v)
            if e.get((me,)) == 1 and not any(d in vids([(m, 1)]) for m in e if m != (me,)):
                delta = {m: c for m, c in e.items() if m != (me,)}
                return self.subst(S, d, me, fadd({(me,): 1}, delta, 1, -1))
            return self.kill_var(S, d)
        S = self.kill_var(S, d)
        add = []
        if r.k == "call" and (r.callee or "").endswith(("abs",)):
            add.append(freeze({(me,): 1}))
        elif r.k == "cond":
            # both alternatives under their condition
            c, a, b = r.c
            try:
                sa = S | frozenset(self.cond(c, True, None))
                sb = S | frozenset(self.cond(c, False, None))
            except Exception:
                sa = sb = S
            ea, eb = tform(path(a)), tform(path(b))
            for x, other, so in ((ea, eb, sb), (eb, ea, sa)):
                lo = freeze(fadd(other, x, 1, -1))       # other >= x  ->  v >= x
                if entails(so, lo):
                    add.append(freeze(fadd({(me,): 1}, x, 1, -1)))
                up = freeze(fadd(x, other, 1, -1))
                if entails(so, up):
                    add.append(freeze(fadd(x, {(me,): 1}, 1, -1)))
            for k in ({},):
                if entails(sa, freeze(ea)) and entails(sb, freeze(eb)):
                    add.append(freeze({(me,): 1}))
        elif len(e) <= 4:
            # variables with the same base differ by a constant
            le = frozenset((m, c) for m, c in e.items() if m != ())
            for f in S:
                g = dict(f)
                ones = [m for m, c in g.items() if len(m) == 1 and c in (1, -1) and re.fullmatch(r"\w+#\d+", m[0])]
                for m in ones:
                    # f: c*(u - x) >= 0
                    x = {k: -g[m] * c for k, c in g.items() if k != m}
                    if frozenset((k, c) for k, c in x.items() if k != ()) == le:
                        diff = e.get((), 0) - x.get((), 0)      # v - u
                        # u - x >= 0 (g[m]=1): u >= x, v = e: v - u <= diff
                        fm = fadd({m: 1, (me,): -1}, {(): diff}) if g[m] == 1 else fadd({(me,): 1, m: -1}, {(): -diff})
                        add.append(freeze(fm))
            add += [freeze(fadd({(me,): 1}, e, 1, -1)), freeze(fadd(e, {(me,): 1}, 1, -1))]
            add += self.axioms(r, me)
        return S | frozenset(x for x in add if linear(x) and (self.rel is None or vids(x) <= self.rel))

    def axioms(self, r, me):
        """Facts about integer division and remainder."""
        out = []
        if r.k == "bin" and r.op == "/" and r.c[1].strip().v is not None and isinstance(r.c[1].strip().v, int) and r.c[1].strip().v > 0:
            k = r.c[1].strip().v
            x = tform(path(r.c[0]))
            # non-negative numerators: k*v <= x <= k*v+k-1
            self._div = True
            out += [freeze(fadd(x, {(me,): k}, 1, -1)), freeze(fadd({(me,): k, (): k - 1}, x, 1, -1))]
        return out

    def subst(self, S, d, me, repl):
        out = set()
        for f in S:
            if d not in vids(f):
                out.add(f)
                continue
            g, bad = {}, False
            for m, c in f:
                if me in m:
                    if m.count(me) > 1:
                        bad = True
                        break
                    rest = tuple(a for a in m if a != me)
                    if any(re.search(r"#%d\b" % d, a) for a in rest):
                        bad = True
                        break
                    g = fadd(g, fmul(repl, {rest: c}))
                elif any(re.search(r"#%d\b" % d, a) for a in m):
                    bad = True
                    break
                else:
                    g = fadd(g, {m: c})
            if not bad:
                out.add(freeze(g))
        return frozenset(out)

    def step(self, S, e):
        if e.k == "decl":
            for v in e.c:
                if v.k == "var" and v.c:
                    S = self.set_var(S, v, v.c[0])
                elif v.k == "var":
                    S = self.kill_var(S, v.a["d"])
            return S
        if e.k == "var":
            return self.set_var(S, e, e.c[0] if e.c else None)
        if e.k == "bin" and e.op in ASSIGN:
            l = e.c[0].strip()
            if l.k == "ref" and "d" in l.a:
                if e.op == "=":
                    r = e.c[1].strip()
                    if r.k == "bin" and r.op == "=":      # a = b = x
                        r = r.c[1].strip()
                    return self.set_var(S, l, r)
                if e.op in ("+=", "-=") and l.t.kind != "float" and not (e.c[1].t is not None and e.c[1].strip().t is not None and e.c[1].strip().t.kind == "float"):
                    me = "%s#%d" % (l.name, l.a["d"])
                    x = tform(path(e.c[1]))
                    if not any(l.a["d"] in vids([(m, 1)]) for m in x):
                        if e.p is not None and e.p.k in ("for", "comma") or e.p is not None and e.p.k == "bin" and e.p.op == ",":
                            # the step of a loop is positive (or the loop would not end)
                            S = S | {freeze(fadd(x, {(): -1}))} if any(m != () for m in x) else S
                        return self.subst(S, l.a["d"], me, fadd({(me,): 1}, x, 1, -1 if e.op == "+=" else 1))
                return self.kill_var(S, l.a["d"])
            m = l
            while m.k == "idx":
                m = m.c[0].strip()
            tag = "." + m.name if m.k == "mem" else path(m)
            S = frozenset(f for f in S if not any(tag in a for mm, _ in f for a in mm if a != tag) and
                          not any(a.startswith(tag) for mm, _ in f for a in mm))
            if e.op == "=" and l.t is not None and l.t.kind in ("int", "uint"):
                lp = path(l)
                if self.rel is not None and not {int(y) for y in re.findall(r"#(\d+)", lp)} <= self.rel:
                    return S
                x = tform(path(e.c[1]))
                if len(x) <= 3 and not any(lp in a for mm in x for a in mm) and not (e.c[1].strip().t is not None and e.c[1].strip().t.kind == "float"):
                    S = S | {freeze(fadd({(lp,): 1}, x, 1, -1)), freeze(fadd(x, {(lp,): 1}, 1, -1))}
                    S = frozenset(f for f in S if linear(f))
            return S
        if e.k == "un" and e.op in ("++", "--", "p++", "p--"):
            l = e.c[0].strip()
            if l.k == "ref" and "d" in l.a:
                me = "%s#%d" % (l.name, l.a["d"])
                dlt = 1 if "+" in e.op else -1
                return self.subst(S, l.a["d"], me, {(me,): 1, (): -dlt})
            tag = path(l)
            return frozenset(f for f in S if not any(tag in a for mm, _ in f for a in mm))
        if e.k == "call":
            ds = set()
            for a in e.args:
                s = a.strip() if a is not None else None
                if s is not None and s.k == "un" and s.op == "&":
                    b = s.c[0].strip()
                    while b.k in ("idx", "mem") and not b.a.get("arrow"):
                        b = b.c[0].strip()
                    if b.k == "ref" and "d" in b.a:
                        ds.add(b.a["d"])
            for d in ds:
                S = self.kill_var(S, d)
        return S

    def join(self, A, B, grow):
        keep = {f for f in A if f in B or entails(B, f)}
        if grow:
            keep |= {f for f in B if f not in keep and entails(A, f)}
        return frozenset(keep)

    def _run(self):
        cfg = self.cfg
        order = self._rpo()
        self.inn = {cfg.entry: self.base}
        visits = {}
        work = [cfg.entry]
        n = 0
        while work:
            n += 1
            if n > 40 * len(cfg.b) + 300:
                self.inn = {k: self.base for k in cfg.b}
                break
            work.sort(key=lambda x: -order.get(x, 0))
            x = work.pop()
            b = cfg.b[x]
            S = self.inn[x]
            for e in b.els:
                S = self.step(S, e)
            here = None
            for i, s in enumerate(b.succ):
                if s < 0:
                    continue
                T = S
                if b.cond is not None and len(b.succ) == 2 and not (b.term is not None and b.term.k == "switch"):
                    if here is None:
                        here = self.F.inn.get(x, EMPTY)
                        for e in b.els:
                            here = self.F.step(here, e)
                    T = S | frozenset(f for f in self.cond(b.cond, i == 0, here) if linear(f))
                visits[s] = visits.get(s, 0) + 1
                if s not in self.inn:
                    self.inn[s] = T
                    work.append(s)
                else:
                    U = self.join(self.inn[s], T, visits[s] <= 2) | self.base
                    if U != self.inn[s]:
                        self.inn[s] = U
                        if s not in work:
                            work.append(s)

    def _rpo(self):
        seen, out = set(), []
        st = [(self.cfg.entry, iter(self.cfg.b[self.cfg.entry].succ))]
        seen.add(self.cfg.entry)
        while st:
            x, it = st[-1]
            for s in it:
                if s >= 0 and s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.cfg.b[s].succ)))
                    break
            else:
                out.append(x)
                st.pop()
        out.reverse()
        return {b: i for i, b in enumerate(out)}

    def at(self, n):
        w = self.F.locate(n)
        if w is None or w[0] not in self.inn:
            return None
        c = self.__dict__.setdefault("_at", {})
        if w not in c:
            S = self.inn[w[0]]
            for i, e in enumerate(self.cfg.b[w[0]].els):
                c[(w[0], i)] = S
                S = self.step(S, e)
            c[(w[0], len(self.cfg.b[w[0]].els))] = S
        return c[w]

    def nonneg(self, n, text_or_form):
        S = self.at(n)
        if S is None:
            return True
        f = tform(text_or_form) if isinstance(text_or_form, str) else text_or_form
        return entails(S, freeze(f))
