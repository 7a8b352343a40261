"""P08: shared files are read, merged and written only under their lock, and every lock is released."""
import re

from effects import ASSIGN
from facts import path
from typestate import Typestate, assigned

ASSUMPTIONS = ["CPLLockFile/CPLUnlockFile behave as documented by GDAL (a lock file beside the locked path)",
               "two spellings of the same path inside one function use the same buffer"]

LOCK, UNLOCK = {"CPLLockFile": 0}, {"CPLUnlockFile": 0}
EXISTS = {"fileexist": 0, "access": 0, "stat": 0, "lstat": 0, "GDALIdentifyDriver": 0, "VSIStatL": 0}
# operation: (path argument, kind, does it return a handle)
OPEN = {"fopen": 0, "GDALOpen": 0, "GDALOpenEx": 0, "GDALCreate": 1, "GDALCreateCopy": 1, "freopen": 0, "GDALOpenShared": 0}
CHANGE = {"createdir": 0, "mkdir": 0, "remove": 0, "unlink": 0, "rename": 0, "GDALDeleteDataset": 1, "truncate": 0}
# many processes of these programs work on one datacube
CONCURRENT = ("force-l2ps.c", "force-higher-level.c")
# outputs without a lock
UNSHARED = {"src/modules/higher-level/sample-hl.c": "sample tables belong to one run; the run appends to them from one thread",
            "src/modules/lower-level/equi7-ll.c": "the tile dictionary is the same whoever writes it and is never read by the programs"}
CLOSE = {"fclose": 0, "GDALClose": 0, "GDALReleaseDataset": 0}


def clean(s):
    return re.sub(r"#\d+", "", s)


def lval(n):
    return "%s#%d" % (n.name, n.a["d"]) if n.k == "var" else path(n)


HELD = ("try", "held")


class Locks(Typestate):
    """tokens: ('try'|'held' (known to be obtained), variable, path, site) and ('open', variable, path, site)"""

    def __init__(self, prog, f, rules, ctx):
        super().__init__(prog, f)
        self.R, self.ctx = rules, ctx
        self.msgs = []
        self.returned = set()

    def say(self, kind, key, node, msg):
        if self.report:
            self.msgs.append((kind, key, node, msg))

    def elem(self, T, e, S):
        R = self.R
        if e.k == "call":
            fn = e.callee
            if fn in R.lock:
                a = e.args[R.lock[fn]]
                v = assigned(e)
                if v is not None:
                    T = self.drop(T, lval(v), e)
                    return T | {("try", lval(v), path(a), e.id)}
                up = e.p
                while up is not None and up.k == "cast":
                    up = up.p
                if up is not None and up.k == "return":
                    self.returned.add(path(a))
                    return T
                return T | {("try", "?", path(a), e.id)}
            if fn in R.unlock and len(e.args) > R.unlock[fn]:
                v = path(e.args[R.unlock[fn]])
                for t in T:
                    if t[0] in HELD and t[1] == v:
                        for o in T:
                            if o[0] == "open" and o[2] == t[2]:
                                self.say("closed-first", "%s:%s" % (self.f.name, clean(t[2])), e,
                                         "%s is unlocked while it is still open for writing or merging" % clean(t[2]))
                return frozenset(t for t in T if not (t[0] in HELD and t[1] == v))
            if fn in OPEN and len(e.args) > OPEN[fn]:
                v = assigned(e)
                if v is not None:
                    return T | {("open", lval(v), path(e.args[OPEN[fn]]), e.id)}
            if fn in R.close and len(e.args) > R.close[fn]:
                v = path(e.args[R.close[fn]])
                return frozenset(t for t in T if not (t[0] == "open" and t[1] == v))
            return T
        if e.k == "bin" and e.op in ASSIGN or e.k in ("decl", "var"):
            vs = e.c if e.k == "decl" else [e]
            for v in vs:
                l = v.c[0].strip() if v.k == "bin" else v
                r = v.c[1] if v.k == "bin" else (v.c[0] if v.c else None)
                if r is None or l.k not in ("ref", "var", "mem", "idx", "un"):
                    continue
                s = r.strip()
                if s.k == "call" and (s.callee in R.lock or s.callee in OPEN):
                    continue
                lk = lval(l)
                T = self.drop(T, lk, e)
                if s.k in ("ref", "mem"):       # the handle moves on
                    sk = path(s)
                    T = frozenset((t[0], lk) + t[2:] if t[1] == sk and t[0] in HELD else t for t in T)
            return T
        if e.k == "return" and e.c and e.c[0] is not None:
            r = path(e.c[0])
            for t in T:
                if t[0] in HELD and t[1] == r:
                    self.returned.add(t[2])
            return frozenset(t for t in T if not (t[0] in HELD and t[1] == r))
        return T

    def drop(self, T, lk, e):
        for t in T:
            if t[0] in HELD and t[1] == lk:
                self.say("released", "%s:%s" % (self.f.name, clean(t[2])), e,
                         "the lock of %s is lost: its handle is overwritten while the lock is held" % clean(t[2]))
        return frozenset(t for t in T if not (t[0] in HELD + ("open",) and t[1] == lk))

    def edge(self, T, lits):
        null = {k for k, v in lits if not v}
        got = {k for k, v in lits if v}
        return frozenset(("held",) + t[1:] if t[0] == "try" and t[1] in got else t for t in T if t[1] not in null)

    def leave(self, T, node, S):
        for t in T:
            if t[0] in HELD:
                self.say("released", "%s:%s" % (self.f.name, clean(t[2])), node,
                         "the function can be left here while %s is still locked: every later writer waits for a lock nobody holds" % clean(t[2]))


class Rules:
    def __init__(self, P):
        self.P = P
        self.lock, self.unlock, self.close = dict(LOCK), dict(UNLOCK), dict(CLOSE)
        self.op = {}        # helper -> [(kind, parameter, mode)] file operations on a path parameter
        for _ in range(3):
            for f in P.functions:
                pd = {"%s#%d" % (n, d): i for i, (n, d, _) in enumerate(f.params)}
                if f.name not in self.lock and f.ret is not None and f.ret.is_ptr:
                    for c in f.calls(*list(self.lock)):
                        a = path(c.args[self.lock[c.callee]])
                        if a in pd and not any(True for _ in f.calls(*list(self.unlock))):
                            self.lock[f.name] = pd[a]
                for tab in (self.unlock, self.close):
                    if f.name not in tab and len(f.params) == 1:
                        for c in f.calls(*list(tab)):
                            if path(c.args[tab[c.callee]]) in pd and not any(True for _ in f.calls(*list(self.lock))):
                                tab[f.name] = pd[path(c.args[tab[c.callee]])]
        for _ in range(3):
            for f in P.functions:
                if f.name in EXISTS or f.name in CHANGE or f.name in self.lock:
                    continue
                pd = {"%s#%d" % (n, d): i for i, (n, d, t) in enumerate(f.params) if t is not None and t.is_ptr}
                got = []
                for kind, p, mode, c in self.ops(f):
                    if p in pd:
                        got.append((kind, pd[p], mode))
                if got:
                    self.op[f.name] = sorted(set(got), key=str)

    def ops(self, f):
        """(kind, path text, mode, call) of the file operations in f, helpers included."""
        for c in f.calls():
            fn = c.callee
            for tab, kind in ((EXISTS, "exists"), (OPEN, "open"), (CHANGE, "change")):
                if fn in tab and len(c.args) > tab[fn]:
                    mode = "w"
                    if kind == "exists":
                        mode = "?"
                    elif fn == "fopen":
                        m = c.args[1].strip()
                        mode = m.a.get("s", "r+") if m.k == "str" else "r+"
                    elif fn.startswith("GDALOpen"):
                        v = c.args[1].strip().v
                        mode = "r" if isinstance(v, int) and not v & 1 else "r+"
                    yield kind, path(c.args[tab[fn]]), mode, c
            if fn in self.op and fn not in EXISTS and fn not in CHANGE:
                for kind, i, mode in self.op[fn]:
                    if i < len(c.args):
                        yield kind, path(c.args[i]), mode, c


def roles(P):
    """Functions that the concurrently run programs reach."""
    seen, st = set(), [f for f in P.functions if f.name == "main" and f.rel.endswith(CONCURRENT)]
    while st:
        f = st.pop()
        if id(f) in seen:
            continue
        seen.add(id(f))
        for c in f.calls():
            st += P.resolve(c)
    return seen


def check(ctx):
    P = ctx.prog
    ctx.rule("locked-output", "every file that the concurrently run programs create, append to or update is locked by the writing function "
                              "or, for helpers, by all their callers")
    ctx.rule("released", "on every way out of a function a lock that was obtained has been released (or is handed to the caller)")
    ctx.rule("under-lock", "a path that a function locks is opened, created, merged or appended only while that lock is held")
    ctx.rule("decide-under-lock", "whether a file is created, merged or appended (it exists) is decided while its lock is held")
    ctx.rule("one-window", "reading an existing file for merging and rewriting it happen under one and the same lock")
    ctx.rule("closed-first", "a locked file is closed before its lock is released")
    R = Rules(P)
    nlock = 0
    for f in P.functions:
        if f.name in R.lock or f.name in R.unlock:
            continue
        sites = [c for c in f.calls(*list(R.lock))]
        if not sites:
            continue
        nlock += len(sites)
        A = Locks(P, f, R, ctx).run()
        if A.gave_up:
            ctx.undecided("released", f.name, "too many paths")
            continue
        bad = {}
        for kind, key, node, msg in A.msgs:
            bad.setdefault((kind, key, node.line), (node, msg))
        for (kind, key, line), (node, msg) in sorted(bad.items(), key=str):
            ctx.violate(kind, key, node.where(), msg)
        locked = {path(c.args[R.lock[c.callee]]) for c in sites}
        for c in sites:
            for kind in ("released", "closed-first"):
                ctx.ok(kind, "%s %s" % (c.where(), f.name))
        # windows
        mods = {p for kind, p, mode, c in R.ops(f) if kind == "open" and mode[0] in "ra" or kind == "open" and "+" in mode}
        under, asked = {}, {}
        for kind, p, mode, c in R.ops(f):
            if p not in locked:
                continue
            under.setdefault(p, {}).setdefault(held_sites(A, c, p), c)
            held = must_held(A, c, p)
            if held is None:
                continue
            what = "%s:%s" % (f.name, clean(p))
            if kind == "exists":
                asked.setdefault(p, []).append((c, held))
                if p in mods:
                    ctx.judge(held, "decide-under-lock", what, c.where(),
                              "the existence of %s is tested without its lock, although it decides about merging: "
                              "another process may create the file in between" % clean(p))
            else:
                ctx.judge(held, "under-lock", what, c.where(),
                          "%s is accessed by %s without holding its lock on every path" % (clean(p), c.callee))
        for p, tests in sorted(asked.items()):
            if p not in mods and any(k == "open" and q == p for k, q, _, _ in R.ops(f)):
                c, held = next((x for x in tests if x[1]), tests[0])
                ctx.judge(held, "decide-under-lock", "%s:%s" % (f.name, clean(p)), c.where(),
                          "%s is created if it does not exist, but this is only tested without its lock: "
                          "another process may have created it in between" % clean(p))
        for p in sorted(under):
            sites = {k: c for k, c in under[p].items() if k}
            if p in mods:
                ctx.judge(len(sites) < 2, "one-window", "%s:%s" % (f.name, clean(p)), list(sites.values())[-1].where() if sites else f.name,
                          "%s is unlocked and locked again between reading and rewriting it: another process may change it in between" % clean(p))
    live = roles(P)
    locker = {}
    for f in P.functions:
        if id(f) not in live or f.name in R.lock or f.rel in UNSHARED:
            continue
        pd = {"%s#%d" % (n, d) for n, d, t in f.params}
        locked = {path(c.args[R.lock[c.callee]]) for c in f.calls(*list(R.lock))}
        for kind, p, mode, c in R.ops(f):
            if kind != "open" or mode[0] == "r" and "+" not in mode or p.startswith('"') or not p:
                continue
            if p in pd and p not in locked:
                continue        # judged where the helper is called
            what = "%s:%s" % (f.name, clean(p))
            held = p in locked or any_lock_at_callers(P, R, ctx, f, locker)
            ctx.judge(held, "locked-output", what, c.where(),
                      "%s is written without a lock although many processes work on the same files" % clean(p))
    ctx.floor("released", 4)
    ctx.floor("under-lock", 5)
    ctx.floor("locked-output", 4)


def any_lock_at_callers(P, R, ctx, f, memo):
    """Is f only ever called while its caller holds some lock?"""
    sites = [(g, c) for g in P.functions for c in g.calls(f.name) if f in P.resolve(c)]
    for g, c in sites:
        if id(g) not in memo:
            memo[id(g)] = Locks(P, g, R, ctx).run() if any(True for _ in g.calls(*list(R.lock))) else None
        if memo[id(g)] is None or not must_held(memo[id(g)], c, None):
            return False
    return bool(sites)


def held_sites(A, c, p):
    """Acquisitions of p that may be in force at c."""
    w = A.F.locate(c)
    out = set()
    if w is not None:
        for T, S in A.inn.get(w[0], {}).items():
            for e in A.cfg.b[w[0]].els[:w[1]]:
                T = A.elem(T, e, S)
                S = A.F.step(S, e)
            out |= {t[3] for t in T if t[0] == "held" and t[2] == p}
    return frozenset(out)


def must_held(A, c, p):
    w = A.F.locate(c)
    if w is None or w[0] not in A.inn:
        return None
    ok = True
    for T, S in A.inn[w[0]].items():
        for e in A.cfg.b[w[0]].els[:w[1]]:
            T = A.elem(T, e, S)
            S = A.F.step(S, e)
        ok = ok and any(t[0] == "held" and (p is None or t[2] == p) for t in T)
    return ok
