"""Extents of buffers: how many bytes lie behind a destination, and how many a function may write there.

extent(f, e) is a set of possible sizes: integers, or linear forms over the variables of f (as frozen
dictionaries); None if unknown. Writers are derived bottom-up from the C library's bounded writers: parameter i
is written with at most "size parameter j" or at most a constant number of bytes."""
from effects import ASSIGN
from facts import path
from lin import form, mul

# destination, size (argument index), unit
LIB = {"strncpy": (0, 2), "snprintf": (0, 1), "vsnprintf": (0, 1), "fgets": (0, 1), "readlink": (1, 2), "getcwd": (0, 1),
       "strftime": (0, 1), "memcpy": (0, 2), "memmove": (0, 2), "memset": (0, 2), "gethostname": (0, 1),
       "realpath": (1, None), "fread": (0, (1, 2)), "__builtin___snprintf_chk": (0, 1)}
# allocation helpers: positions of the dimensions; the element size comes last
DIM = {"alloc": (1,), "alloc_2D": (1, 2), "alloc_3D": (1, 2, 3), "re_alloc": (2,), "re_alloc_2D": (3, 4), "re_alloc_3D": (4, 5, 6),
       "alloc_2DC": (1, 2), "re_alloc_2DC": (3, 4)}


def const(d):
    """Constant value of a form, or None."""
    if not d:
        return 0
    if set(d) == {()}:
        return d[()]
    return None


def iform(e):
    return form(e)


class Text:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self._members()
        self._locals = {}
        self._writers()

    # -- where storage comes from ----------------------------------------------------------------
    def _members(self):
        """Sizes given to pointer members: (record, field) -> list of (level, dims, element size)."""
        self.member = {}
        self.poison = set()
        for f in self.P.functions:
            for c in f.calls(*DIM):
                t = c.args[0].strip()
                if t.k == "un" and t.op == "&":
                    t = t.c[0].strip()
                    depth = 0
                    while t.k == "idx":
                        t = t.c[0].strip()
                        depth += 1
                    if t.k == "mem":
                        self.member.setdefault((t.a.get("rec"), t.name), []).append((f, c, depth))
            for n in f.find("bin"):
                if n.op == "=" and n.c[0].strip().k == "mem" and n.c[0].t is not None and n.c[0].t.kind == "ptr":
                    m = n.c[0].strip()
                    r = n.c[1].strip()
                    if r.k not in ("null", "zero") and r.v != 0:
                        self.poison.add((m.a.get("rec"), m.name))

    def locs(self, f):
        """Local pointers of f that only ever come from allocations: decl id -> [(call, depth)]."""
        r = self._locals.get(id(f))
        if r is None:
            r = {}
            bad = set()
            for n in f.walk():
                if n.k == "call" and n.callee in DIM:
                    t = n.args[0].strip()
                    if t.k == "un" and t.op == "&":
                        t = t.c[0].strip()
                        depth = 0
                        while t.k == "idx":
                            t = t.c[0].strip()
                            depth += 1
                        if t.k == "ref":
                            r.setdefault(t.a.get("d"), []).append((n, depth))
                elif n.k == "un" and n.op == "&" and n.c[0].strip().k == "ref":
                    p = n.p
                    while p is not None and p.k == "cast":
                        p = p.p
                    if not (p is not None and p.k == "call" and p.callee in DIM):
                        bad.add(n.c[0].strip().a.get("d"))
                elif n.k == "bin" and n.op in ASSIGN and n.c[0].strip().k == "ref":
                    if n.c[1].strip().k not in ("null", "zero") and n.c[1].strip().v != 0 or n.op != "=":
                        bad.add(n.c[0].strip().a.get("d"))
                elif n.k == "un" and n.op in ("++", "--", "p++", "p--") and n.c[0].strip().k == "ref":
                    bad.add(n.c[0].strip().a.get("d"))
                elif n.k == "var" and n.c and n.c[-1] is not None and n.t is not None and n.t.kind == "ptr":
                    i = n.c[-1].strip()
                    if i.k not in ("null", "zero") and i.v != 0:
                        bad.add(n.a["d"])
            for d in bad:
                r.pop(d, None)
            self._locals[id(f)] = r
        return r

    def _of_alloc(self, c, depth, level, same, first=False):
        """Bytes behind the pointer reached after 'level' further indexings of what call c allocated at depth."""
        dims = [c.args[i] for i in DIM[c.callee] if i < len(c.args)]
        size = iform(c.args[-1])
        level -= depth
        if level < 0 or level >= len(dims):
            return None
        if level < len(dims) - 1:
            d = mul(iform(dims[level]), {(): 8})
        else:
            d = mul(iform(dims[-1]), size)
            if c.callee.endswith("2DC") and first:      # the rows of such a table are contiguous
                d = mul(iform(dims[0]), d)
        if not same and const(d) is None:
            return None
        return d

    def extent(self, f, e):
        """List of possible sizes (linear forms) of the storage e points to, or None."""
        e = e.strip()
        if e.t is not None and e.t.kind == "arr" and e.t.size and e.t.size > 0 and e.k != "str":
            return [{(): e.t.size}]
        if e.k == "un" and e.op == "&":
            x = e.c[0].strip()
            if x.k == "idx":
                return self._off(f, x.c[0], x.c[1], x.t)
            if x.k in ("ref", "mem") and x.t is not None and x.t.size and x.t.size > 0:
                return [{(): x.t.size}]
            return None
        if e.k == "bin" and e.op == "+":
            for a, b in ((e.c[0], e.c[1]), (e.c[1], e.c[0])):
                t = a.strip().t
                if t is not None and t.is_ptr and t.el is not None:
                    return self._off(f, a, b, t.el)
            return None
        return self.level(f, e, 0, 3)

    def level(self, f, e, level, depth, first=False):
        """Sizes of the storage reached from e after 'level' further indexings."""
        e = e.strip()
        t = e.t
        if t is not None and t.kind == "arr" and e.k != "str":
            k = level
            while k and t is not None and t.kind == "arr":
                t = t.el
                k -= 1
            if not k and t is not None and t.kind == "arr" and t.size and t.size > 0:
                return [{(): t.size}]
            return None
        if e.k == "idx":
            return self.level(f, e.c[0], level + 1, depth, not level and e.c[1].v == 0)
        if e.k == "un" and e.op == "*":
            return self.level(f, e.c[0], level + 1, depth, not level)
        if e.k == "un" and e.op == "&" and level:
            return self.level(f, e.c[0], level - 1, depth)
        b = e
        if b.k == "ref" and b.a.get("dk") == "parm":
            i = f.param(b.a.get("d"))
            if not depth or i is None or self.reassigned(f, i):
                return None
            key = (id(f), i, level)
            if key not in self.memo:
                self.memo[key] = None
                self.memo[key] = self._from_callers(f, i, level, depth - 1)
            return self.memo[key]
        if b.k == "ref" and b.a.get("dk") == "var":
            src = self.locs(f).get(b.a.get("d"))
            if not src:
                return None
            out = [self._of_alloc(c, d, level, True, first) for c, d in src]
            out = [x for x in out if x is not None]
            return out or None
        if b.k == "mem":
            k = (b.a.get("rec"), b.name)
            if k in self.poison or k not in self.member:
                return None
            out = []
            for g, c, d in self.member[k]:
                x = self._of_alloc(c, d, level, False, first)
                if x is None and d <= level < d + len(DIM[c.callee]):
                    return None
                if x is not None:
                    out.append(x)
            return out or None
        return None

    def _callers(self):
        if not hasattr(self, "_calls"):
            self._calls = {}
            for g in self.P.functions:
                for c in g.calls():
                    for f in self.P.resolve(c):
                        self._calls.setdefault(id(f), []).append((g, c))
        return self._calls

    def _from_callers(self, f, i, level, depth):
        """What all callers pass, where these are constant sizes."""
        out = []
        for g, c in self._callers().get(id(f), []):
            if i >= len(c.args) or c.args[i] is None:
                return None
            a = c.args[i].strip()
            if a.k in ("null", "zero") or a.v == 0:
                continue
            x = self.extent(g, a) if not level else self.level(g, a, level, depth)
            if x is None or any(const(d) is None for d in x):
                return None
            out += x
        return out or None

    def _off(self, f, base, off, el):
        ext = self.extent(f, base)
        if ext is None or el is None or not el.size:
            return None
        o = mul(iform(off), {(): el.size})
        out = []
        for x in ext:
            d = dict(x)
            for m, c in o.items():
                d[m] = d.get(m, 0) - c
                if not d[m]:
                    del d[m]
            out.append(d)
        return out

    # -- who writes how much ------------------------------------------------------------------
    def _writers(self):
        """(function, parameter) -> set of ('p', j) / ('c', n): bytes it may write there."""
        self.W = {}
        change = True
        while change:
            change = False
            for f in self.P.functions:
                for c in f.calls():
                    for i, size in self.writes(c):
                        if i >= len(c.args):
                            continue
                        a = c.args[i].strip()
                        off = 0
                        if a.k == "bin" and a.op == "+" and a.c[1].strip().v is not None:
                            off = a.c[1].strip().v
                            a = a.c[0].strip()
                        if a.k != "ref" or a.a.get("dk") != "parm":
                            continue
                        p = f.param(a.a["d"])
                        if p is None or a.t is None or a.t.el is None:
                            continue
                        s = None
                        if isinstance(size, int):
                            s = ("c", size + off * (a.t.el.size or 1))
                        else:
                            v = const(size)
                            if v is not None:
                                s = ("c", v + off * (a.t.el.size or 1))
                            elif len(size) == 1 and not off:
                                (m, k), = size.items()
                                if len(m) == 1 and "#" in m[0] and m[0].rsplit("#", 1)[1].isdigit():
                                    j = f.param(int(m[0].rsplit("#", 1)[1]))
                                    if j is not None and not self.reassigned(f, j):
                                        s = ("p", j, k)
                        if s is not None and not self.reassigned(f, p):
                            S = self.W.setdefault(id(f), {}).setdefault(p, set())
                            if s not in S:
                                S.add(s)
                                change = True

    def reassigned(self, f, i):
        d = f.params[i][1]
        k = ("re", id(f), i)
        if k not in self.memo:
            self.memo[k] = any(
                (n.k == "bin" and n.op in ASSIGN or n.k == "un" and n.op in ("++", "--", "p++", "p--", "&"))
                and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == d for n in f.walk())
        return self.memo[k]

    def writes(self, c):
        """[(argument index, size form)] of the buffers a call fills."""
        n = c.callee
        if n in LIB and not self.P.resolve(c):
            d, s = LIB[n]
            if s is None:
                return [(d, {(): 4096})]
            if isinstance(s, tuple):
                if max(s) >= len(c.args):
                    return []
                return [(d, mul(iform(c.args[s[0]]), iform(c.args[s[1]])))]
            if s >= len(c.args):
                return []
            return [(d, iform(c.args[s]))]
        out = []
        for g in self.P.resolve(c):
            for p, S in self.W.get(id(g), {}).items():
                for s in S:
                    if s[0] == "c":
                        out.append((p, {(): s[1]}))
                    elif s[1] < len(c.args):
                        out.append((p, mul(iform(c.args[s[1]]), {(): s[2]})))
        return out
