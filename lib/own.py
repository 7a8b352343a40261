"""Ownership of memory blocks and handles: per function and per access path, a typestate that follows
acquisition, release, moves and uses."""
import re

from effects import ASSIGN
from facts import Facts, iszero, path
from typestate import Typestate, assigned

# external functions that end the life of what their argument designates
RELEASE = {"free": 0, "fclose": 0, "pclose": 0, "closedir": 0, "GDALClose": 0, "json_decref": 0, "CSLDestroy": 0,
           "VSIFree": 0, "CPLFree": 0, "GDALDestroyWarpOptions": 0, "GDALDestroyGenImgProjTransformer": 0,
           "OGR_DS_Destroy": 0, "OGR_F_Destroy": 0, "OGR_Fld_Destroy": 0, "OGR_G_DestroyGeometry": 0,
           "OSRDestroySpatialReference": 0, "OCTDestroyCoordinateTransformation": 0, "curl_easy_cleanup": 0,
           "curl_slist_free_all": 0, "gsl_matrix_free": 0, "gsl_vector_free": 0, "gsl_permutation_free": 0,
           "gsl_eigen_symmv_free": 0, "gsl_min_fminimizer_free": 0, "gsl_multifit_linear_free": 0,
           "gsl_multifit_robust_free": 0, "gsl_multimin_fminimizer_free": 0, "freeaddrinfo": 0, "Py_DECREF": 0}
# external functions whose result is a block or handle the caller has to release
ACQUIRE = {"malloc", "calloc", "strdup", "fopen", "popen", "opendir", "GDALOpen", "GDALOpenEx", "GDALCreate",
           "GDALCreateCopy", "json_load_file", "GDALCreateWarpOptions", "GDALCreateGenImgProjTransformer",
           "OGR_Dr_CreateDataSource", "OGR_F_Create", "OGR_Fld_Create", "OGR_G_CreateGeometry", "CPLMalloc", "CPLCalloc",
           "CPLStrdup", "CSLDuplicate", "OSRNewSpatialReference", "curl_easy_init", "OCTNewCoordinateTransformation",
           "OGRCreateCoordinateTransformation", "GDALCreateGenImgProjTransformer2",
           "gsl_matrix_alloc", "gsl_matrix_calloc", "gsl_vector_alloc", "gsl_vector_calloc", "gsl_permutation_alloc",
           "gsl_eigen_symmv_alloc", "gsl_min_fminimizer_alloc", "gsl_multifit_linear_alloc",
           "gsl_multifit_robust_alloc", "gsl_multimin_fminimizer_alloc"}
OUT = {"alloc", "alloc_2D", "alloc_3D", "alloc_2DC"}
REOUT = {"re_alloc", "re_alloc_2D", "re_alloc_2DC", "re_alloc_3D"}
# external functions that keep a pointer they are given
KEEPS = re.compile(r"Directly$|AssignSpatial|set_thread_data|pthread_create|curl_easy_setopt|gsl_\w+minimizer_set$|"
                   r"^CSL(Set|Add)|^realloc$|^Py|Transformer|Initialize|^GDALApprox|^GDALReproject|SetProjection$")

# external functions that hand back what they were given
KEEPS_ARG = {("GDALVectorTranslate", 1)}
# external functions whose result lives as long as their first argument
DERIVED = {"GDALGetRasterBand", "GDALDatasetGetLayer", "OGR_DS_GetLayer", "GDALGetMetadata", "GDALGetMetadataItem",
           "GDALGetProjectionRef", "GDALGetRasterColorTable", "json_object_get", "json_array_get", "json_string_value",
           "OGR_F_GetGeometryRef", "OGR_F_GetFieldAsString", "OGR_L_GetSpatialRef", "GDALGetDescription", "readdir"}
BADNEWS = re.compile(r"fail|error|unable|could ?n|cannot|can't|can not|invalid|missing|unknown|overflow|mismatch|does not|no valid|not ",
                     re.I)


def lkey(n):
    return "%s#%d" % (n.name, n.a["d"]) if n.k == "var" else path(n)


def ids(k):
    return {int(x) for x in re.findall(r"#(\d+)", k)}


class Unit(Typestate):
    """State of one access path K: tokens ('live', site), ('dead', site), none = not known."""

    def __init__(self, own, f, K, facts):
        super().__init__(own.P, f, facts)
        self.own, self.K = own, K
        self.deps = ids(K)
        m = re.match(r"(\w+)#(\d+)$", K)
        self.local = int(m.group(2)) if m else None
        self.msgs = {}

    def say(self, kind, node, site, extra=None):
        if self.report:
            self.msgs.setdefault((kind, node.id), (kind, node, site, extra))

    def same(self, p, S):
        """The path p designates the tracked object."""
        if p == self.K:
            return True
        m = re.match(r"(\w+)#(\d+)$", p)
        for x in S:
            if len(x) == 3 and x[0] == "def":
                if self.local is not None and x[1] == self.local and path(self.f.byid[x[2]]) == p:
                    return True
                if m and x[1] == int(m.group(2)) and path(self.f.byid[x[2]]) == self.K:
                    return True
        return False

    def elem(self, T, e, S):
        K = self.K
        if e.k in ("decl", "var"):
            for v in (e.c if e.k == "decl" else [e]):
                if v.k == "var":
                    T = self.assign(T, lkey(v), v.c[0] if v.c else None, v, S, decl=True)
            return T
        if e.k == "bin" and e.op in ASSIGN:
            l = e.c[0].strip()
            if e.op == "=":
                return self.assign(T, path(l), e.c[1], e, S)
            if l.k == "ref" and l.a.get("d") in self.deps:
                return frozenset()
            return T
        if e.k == "un" and e.op in ("++", "--", "p++", "p--"):
            l = e.c[0].strip()
            if l.k == "ref" and l.a.get("d") in self.deps:
                return frozenset()
            return T
        if e.k == "other" and e.a.get("cls") == "CXXDeleteExpr":
            return self.release(T, e, e.c[0], S) if e.c and e.c[0] is not None else T
        if e.k == "call":
            return self.call(T, e, S)
        if e.k == "return":
            if e.c and e.c[0] is not None:
                r = e.c[0].strip()
                if self.mentions(r, S):
                    for t in T:
                        if t[0] == "dead" and self.same(path(r), S):
                            self.say("use", e, t[1], "returned")
                    return frozenset()
            return T
        # dereference of the dead object
        base = None
        if e.k == "idx":
            base = e.c[0]
        elif e.k == "mem" and e.a.get("arrow"):
            base = e.c[0]
        elif e.k == "un" and e.op == "*":
            base = e.c[0]
        if base is not None and base.strip().k == "ref" and any(t[0] == "stale" for t in T) and not self.address(e):
            for t in T:
                if t[0] == "stale" and t[1] == base.strip().a.get("d"):
                    self.say("use", e, t[2], "accessed through '%s'" % base.strip().name)
        if base is not None and any(t[0] == "dead" for t in T):
            if base.strip().k in ("ref", "mem", "idx", "un") and self.same(path(base), S) and not self.address(e):
                for t in T:
                    if t[0] == "dead":
                        self.say("use", e, t[1], "accessed")
        return T

    @staticmethod
    def address(e):
        p = e.p
        while p is not None and p.k in ("cast", "sizeof", "mem", "idx"):
            if p.k == "sizeof":
                return True
            p = p.p
        return False

    def mentions(self, e, S):
        for n in e.walk():
            if n.k in ("ref", "mem", "idx", "un") and self.same(path(n), S):
                return True
        return False

    def assign(self, T, lp, rhs, node, S, decl=False):
        K = self.K
        m = re.match(r"\w+#(\d+)$", lp)
        if m and any(t[0] in ("view", "stale") and t[1] == int(m.group(1)) for t in T):
            T = frozenset(t for t in T if not (t[0] in ("view", "stale") and t[1] == int(m.group(1))))
        if m and lp != K and rhs is not None:
            how = self.view(rhs.strip(), S)
            if how:
                T |= {("view", int(m.group(1)), how)}
        if rhs is not None and self.moves(rhs, S) and lp != K:
            # stored elsewhere: somebody else may release it from now on
            T = frozenset(t for t in T if t[0] != "live")
        if lp == K:
            for t in T:
                if t[0] == "live" and not decl and not (rhs is not None and self.mentions(rhs, S)):
                    self.lose(node, t[1])
            T = frozenset()
            if rhs is not None:
                s = rhs.strip()
                if s.k == "call" and self.own.acquires(s):
                    return frozenset({("live", s.id)})
            return T
        m = ids(lp)
        if lp in self.prefixes() or (re.match(r"\w+#\d+$", lp) and m & self.deps):
            return frozenset()
        return T

    def view(self, s, S):
        """How the value of an expression depends on the tracked object: a part of it, something its owner
        releases with it ('int': by a function of the program, 'ext': by a library)."""
        if s.k == "bin" and s.op in ("+", "-") and s.t is not None and s.t.is_ptr:
            return "part" if s.c[0].strip().k in ("ref", "mem") and self.same(path(s.c[0]), S) else None
        if s.k == "un" and s.op == "&":
            b = s.c[0].strip()
            return "part" if b.k == "idx" and b.c[0].strip().k in ("ref", "mem") and self.same(path(b.c[0]), S) else None
        if s.k == "call" and s.t is not None and s.t.is_ptr:
            if s.callee in DERIVED:
                a = s.args[0].strip() if s.args and s.args[0] is not None else None
                return "ext" if a is not None and a.k in ("ref", "mem") and self.same(path(a), S) else None
            gs = self.own.P.resolve(s)
            for i, a in enumerate(s.args):
                if a is not None and a.strip().k in ("ref", "mem") and self.same(path(a), S) and gs and \
                        all(self.own.eff.sum[id(g)][1] == {("p", i)} for g in gs):
                    return "int"
        return None

    def lose(self, node, site):
        """The only reference is overwritten. A site that may run again for unusual input only (conditional
        inside a loop) is not judged."""
        if node.id == site or any(x.id == site for x in node.walk()):
            for u in node.up():
                if u.k in ("for", "while", "do"):
                    break
                if u.k in ("if", "switch", "cond"):
                    return
        self.say("lost", node, site)

    def prefixes(self):
        c = self.__dict__.get("_pre")
        if c is None:
            c = self._pre = set()
            K = self.K
            for i, ch in enumerate(K):
                if ch in "[.":
                    c.add(K[:i])
        return c

    def moves(self, rhs, S):
        s = rhs.strip()
        if s.k == "cond":
            return any(self.moves(x, S) for x in s.c[1:])
        if s.k in ("ref", "mem", "idx", "un", "bin") and not (s.t is not None and s.t.is_num):
            return self.mentions(s, S)
        if s.k == "init":
            return any(self.moves(x, S) for x in s.c if x is not None)
        return False

    def release(self, T, e, a, S):
        if not self.same(path(a), S):
            return T
        for t in T:
            if t[0] == "dead":
                self.say("twice", e, t[1])
        if (self.K, False) in S:
            return T
        ext = e.k != "call" or e.callee in RELEASE
        return frozenset({("dead", e.id)} | {("stale", t[1], e.id) for t in T if t[0] == "view" and
                                             (t[2] == "part" or (t[2] == "ext") == ext)})

    def call(self, T, e, S):
        fn = e.callee
        own = self.own
        gs = own.P.resolve(e)
        for i, a in enumerate(e.args):
            if a is None:
                continue
            s = a.strip()
            if s.k == "un" and s.op == "&":
                lp = path(s.c[0])
                if lp == self.K:
                    if fn in OUT:
                        for t in T:
                            if t[0] == "live":
                                self.lose(e, t[1])
                        T = frozenset({("live", e.id)})
                    elif fn in REOUT:
                        for t in T:
                            if t[0] == "dead":
                                self.say("use", e, t[1], "reallocated")
                        T = frozenset({("live", e.id)})
                    elif own.gives(e, i):
                        for t in T:
                            if t[0] == "live":
                                self.lose(e, t[1])
                        T = frozenset({("live", e.id)})
                    else:
                        T = frozenset()
                elif lp in self.prefixes() or (ids(lp) & self.deps and re.match(r"\w+#\d+$", lp)):
                    T = frozenset()
                continue
            if s.k not in ("ref", "mem", "idx", "un", "bin", "cond"):
                continue
            p = path(s)
            if s.k == "ref" and s.t is not None and s.t.is_ptr:
                for t in T:
                    if t[0] == "stale" and t[1] == s.a.get("d"):
                        self.say("use", e, t[2], "passed to %s through '%s'" % (fn, s.name))
            if self.same(p, S):
                how = own.releases(e, i)
                if how == "must":
                    T = self.release(T, e, a, S)
                elif how == "may":
                    T = frozenset()
                else:
                    for t in T:
                        if t[0] == "dead" and not own.harmless(e, i):
                            self.say("use", e, t[1], "passed to %s" % fn)
                    if own.keeps(e, i):
                        T = frozenset(t for t in T if t[0] != "live")
            elif p in self.prefixes() and own.touches(e, i):
                T = frozenset()
            elif s.k in ("cond", "bin") and s.t is not None and s.t.is_ptr and self.mentions(s, S):
                T = frozenset(t for t in T if t[0] != "live") if own.keeps(e, i) else T
        return T

    def edge(self, T, lits):
        if (self.K, False) in lits:
            return frozenset(t for t in T if t[0] not in ("live", "view"))
        return T

    def escapes(self):
        """The block is stored in other storage somewhere in the function."""
        c = self.__dict__.get("_esc")
        if c is None:
            c = False
            for n in self.f.find("bin"):
                if n.op == "=" and n.c[0].strip().k != "ref" and self.local is not None:
                    r = n.c[1].strip()
                    if r.t is not None and r.t.is_ptr and any(m.k == "ref" and m.a.get("d") == self.local for m in r.walk()) and \
                            r.k in ("ref", "bin", "cond", "un"):
                        c = True
            self._esc = c
        return c

    def leave(self, T, node, S):
        if failing(self.f, node, S) or self.escapes():
            return
        for t in T:
            if t[0] == "live":
                self.say("leak", node, t[1])


def failing(f, node, S):
    """The function is left because something went wrong (or the process ends here)."""
    if f.name == "main" or node is None:
        return True
    if node.k == "call" and node.a.get("noret"):
        return True
    if node.k == "return" and node.c and node.c[0] is not None:
        r = node.c[0].strip()
        if f.ret is not None and f.ret.is_ptr:
            return iszero(r) or (path(r), False) in S
        if f.ret is not None and f.ret.is_num:
            v = r.v
            if r.k == "un" and r.op == "-":
                return True
            return v is not None and not isinstance(v, str) and (v != 0 if f.ret.kind == "int" else v < 0)
    if f.ret is None or f.ret.kind == "void":
        # a message about a problem right before leaving
        x = node
        while x.p is not None and x.p.k not in ("block", "if"):
            x = x.p
        b = x.p
        if b is not None and b.k == "block" and b is not f.body:
            for c in b.calls():
                if c.callee in ("printf", "fprintf", "perror") and any(
                        m.k == "str" and BADNEWS.search(m.a.get("s", "")) for a in c.args if a is not None for m in a.walk()):
                    return True
    return False


class Own:
    def __init__(self, P, eff):
        self.P, self.eff = P, eff
        self.rel = {}        # id(f) -> {param index: 'must'|'may'}
        self._keep = {}
        self._touch = {}
        self._facts = {}
        for _ in range(4):
            if not self._summaries():
                break

    def facts(self, f):
        if id(f) not in self._facts:
            self._facts[id(f)] = Facts(self.P, f)
        return self._facts[id(f)]

    def acquires(self, c):
        if c.callee in ACQUIRE or (c.k == "call" and c.a.get("new")):
            return True
        gs = self.P.resolve(c)
        return bool(gs) and all(self.fresh(g) for g in gs)

    def gives(self, c, i):
        """The callee leaves a new block in the variable whose address is argument i."""
        gs = self.P.resolve(c)
        return bool(gs) and all(self._gives(g, i) for g in gs)

    def _gives(self, g, i):
        memo = self.__dict__.setdefault("_gv", {})
        if (id(g), i) not in memo:
            res = False
            if i < len(g.params) and g.params[i][2] is not None and g.params[i][2].is_ptr and g.params[i][2].el is not None and \
                    g.params[i][2].el.is_ptr:
                d = g.params[i][1]
                src = []
                for n in g.find("bin"):
                    l = n.c[0].strip()
                    if n.op == "=" and (l.k == "un" and l.op == "*" or l.k == "idx" and iszero(l.c[1])) and l.c[0].strip().k == "ref" and \
                            l.c[0].strip().a.get("d") == d:
                        src.append(n.c[1])
                gone = {a.strip().a.get("d") for c in g.body.calls() for k, a in enumerate(c.args) if a is not None and
                        a.strip().k == "ref" and self.releases(c, k)}
                res = bool(src) and not any(s2.strip().a.get("d") in gone for s2 in src) and all(s2.strip().k == "ref" and all(r[0] == "fresh" for r, _ in self.eff.roots(g, s2)) and
                                        self.eff.roots(g, s2) for s2 in src)
            memo[(id(g), i)] = res
        return memo[(id(g), i)]

    def fresh(self, g):
        r = self.eff.sum[id(g)][1]
        if g.ret is None or not g.ret.is_ptr or r != {("fresh", 0)}:
            return False
        return True

    def releases(self, c, i):
        if c.callee in RELEASE and RELEASE[c.callee] == i:
            return "must"
        how = None
        for g in self.P.resolve(c):
            h = self.rel.get(id(g), {}).get(i)
            how = h if how is None else ("must" if how == h == "must" else "may")
        return how

    def harmless(self, c, i):
        return c.callee in ("printf", "fprintf") and c.callee != "fprintf" or c.callee == "fprintf" and i > 0

    def keeps(self, c, i):
        gs = self.P.resolve(c)
        if not gs:
            return bool(KEEPS.search(c.callee or "?")) or not c.callee or (c.callee, i) in KEEPS_ARG
        return any(self.kept(g, i) for g in gs)

    def kept(self, g, i, seen=()):
        """The function stores its argument somewhere, returns it, or releases it on some path."""
        key = (id(g), i)
        if key in self._keep:
            return self._keep[key]
        if i >= len(g.params) or key in seen:
            return i >= len(g.params)
        d = g.params[i][1]
        res = False
        al = {d}
        for n in g.walk():
            if n.k == "bin" and n.op == "=" or n.k == "var" and n.c:
                r = (n.c[1] if n.k == "bin" else n.c[0]).strip()
                while r.k == "un" and r.op == "&":
                    r = r.c[0].strip()
                    while r.k in ("mem", "idx"):
                        r = r.c[0].strip()
                if r.k == "ref" and r.a.get("d") in al:
                    l = n.c[0].strip() if n.k == "bin" else n
                    if l.k in ("ref", "var") and l.a.get("dk", "var") in ("var", "parm"):
                        al.add(l.a["d"])
                    else:
                        res = True
        if not res:
            for n in g.walk():
                if n.k == "return" and n.c and n.c[0] is not None:
                    r = n.c[0].strip()
                    if r.k == "ref" and r.a.get("d") in al:
                        res = True
                elif n.k == "call":
                    for j, a in enumerate(n.args):
                        if a is None:
                            continue
                        s = a.strip()
                        if s.k == "ref" and s.a.get("d") in al:
                            hs = self.P.resolve(n)
                            if self.releases(n, j) or (not hs and KEEPS.search(n.callee or "?")) or \
                                    any(self.kept(h, j, seen + (key,)) for h in hs):
                                res = True
        self._keep[key] = res
        return res

    def touches(self, c, i):
        """The callee may replace pointers inside the object it is given."""
        gs = self.P.resolve(c)
        if not gs:
            return False
        for g in gs:
            for root, ips in self.eff.sum[id(g)][0]:
                if root == ("p", i):
                    return True
            if i in self.rel.get(id(g), {}):
                return True
        return False

    def _summaries(self):
        ch = False
        for f in self.P.functions:
            cur = self.rel.setdefault(id(f), {})
            for i, (n, d, t) in enumerate(f.params):
                if t is None or not t.is_ptr or cur.get(i) == "must":
                    continue
                K = "%s#%d" % (n, d)
                sites = [c for c in f.body.calls() if any(
                    a is not None and a.strip().k == "ref" and a.strip().a.get("d") == d and self.releases(c, j)
                    for j, a in enumerate(c.args))]
                if not sites:
                    continue
                U = ParamUnit(self, f, K, self.facts(f)).run()
                new = "must" if U.exits and all(U.exits) and not U.gave_up else "may"
                if cur.get(i) != new:
                    cur[i] = new
                    ch = True
        return ch


class ParamUnit(Unit):
    def __init__(self, *a):
        super().__init__(*a)
        self.exits = []

    def leave(self, T, node, S):
        if node is not None and node.k == "call" and node.a.get("noret"):
            return
        if (self.K, False) in S and not any(t[0] == "was" for t in T):
            return
        self.exits.append(any(t[0] in ("dead", "was") for t in T))

    def assign(self, T, lp, rhs, node, S, decl=False):
        if lp == self.K and any(t[0] in ("dead", "was") for t in T):
            return frozenset({("was", 0)})
        return super().assign(T, lp, rhs, node, S, decl)


def candidates(own, f):
    """Access paths released in f, and local variables that acquire something."""
    out = {}
    for c in f.body.calls():
        for i, a in enumerate(c.args):
            if a is None:
                continue
            s = a.strip()
            if s.k in ("ref", "mem", "idx", "un") and own.releases(c, i):
                out.setdefault(path(s), c)
            if s.k == "un" and s.op == "&" and (c.callee in OUT | REOUT or own.gives(c, i)):
                out.setdefault(path(s.c[0]), c)
        if own.acquires(c):
            v = assigned(c)
            if v is not None:
                out.setdefault(lkey(v), c)
    for n in f.walk():
        if n.k == "other" and n.a.get("cls") == "CXXDeleteExpr" and n.c:
            out.setdefault(path(n.c[0]), n)
    return out
