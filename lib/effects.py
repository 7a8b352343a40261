"""Flow-insensitive, interprocedural memory effects: which storage a function writes and
through which parameters the written element is selected."""
import re

ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")

# external functions: arguments written (index), 'rest' = every argument from that index
EXT_WRITES = {
    "memset": [0], "memcpy": [0], "memmove": [0], "strcpy": [0], "strncpy": [0], "strcat": [0],
    "strncat": [0], "sprintf": [0], "snprintf": [0], "vsnprintf": [0], "fgets": [0], "fread": [0],
    "fscanf": ("rest", 2), "sscanf": ("rest", 2), "scanf": ("rest", 1), "qsort": [0], "frexp": [1],
    "modf": [1], "strtol": [1], "strtod": [1], "stat": [1], "lstat": [1], "time": [0], "realpath": [1],
    "getline": [0, 1], "sincos": [1, 2], "strtok_r": [0, 2], "localtime_r": [1], "asctime_r": [1],
    "strtok": [0], "free": [], "fprintf": [], "printf": [], "fflush": [], "fclose": [0],
}
FRESH = {"malloc", "calloc", "strdup", "fopen", "opendir", "realloc", "reallocarray"}
# allocators of the code base: argument 0 receives a fresh block
ALLOC_OUT = {"alloc", "alloc_2D", "alloc_3D", "alloc_2DC", "re_alloc", "re_alloc_2D", "re_alloc_2DC", "re_alloc_3D"}
# C library calls with hidden shared state
UNSAFE_EXT = {"strtok", "localtime", "gmtime", "asctime", "ctime", "rand", "srand", "drand48", "lrand48",
              "strerror", "setlocale", "putenv", "setenv", "tmpnam", "ttyname", "getpwnam", "readdir_r_"}


def lvalue_parts(n):
    """(base expression, [index expressions], derefs) of an lvalue."""
    idx = []
    deref = 0
    while True:
        if n.k == "cast":
            n = n.c[0]
        elif n.k == "idx":
            idx.append(n.c[1])
            if n.c[0].strip().t is not None and n.c[0].strip().t.kind not in ("arr", "vla"):
                deref += 1
            n = n.c[0]
        elif n.k == "mem":
            if n.a.get("arrow"):
                deref += 1
            n = n.c[0]
        elif n.k == "un" and n.op == "*":
            deref += 1
            n = n.c[0]
        elif n.k == "un" and n.op == "&":
            deref -= 1
            n = n.c[0]
        elif n.k == "bin" and n.op in ("+", "-") and n.t is not None and n.t.is_ptr:
            l, r = n.c
            if l.t is not None and l.t.is_ptr:
                idx.append(r)
                n = l
            else:
                idx.append(l)
                n = r
        else:
            return n, idx, deref


def writes_in(node):
    """Direct stores below node: (lvalue node, store node)."""
    for n in node.walk():
        if n.k == "bin" and n.op in ASSIGN:
            yield n.c[0], n
        elif n.k == "un" and n.op in ("++", "--", "p++", "p--"):
            yield n.c[0], n


def element_reads(node):
    """Top-level element accesses (x[i], *x of numeric type) below node that are not store targets."""
    tgt = set()
    for lv, st in writes_in(node):
        if st.k == "bin" and st.op == "=":
            tgt.add(lv.strip().id)
    for n in node.walk():
        if n.id in tgt or n.t is None or not n.t.is_num:
            continue
        if n.k == "idx" or (n.k == "un" and n.op == "*"):
            p = n.p
            if p is not None and p.k == "un" and p.op == "&":
                continue
            yield n


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.alias = {}      # func -> {decl: [(root expr)]}
        self.sum = {}        # func id -> (writes, returns)
        for f in prog.functions:
            self.alias[id(f)] = self._alias(f)
            self.sum[id(f)] = (set(), set())
        self.rsum = {id(f): set() for f in prog.functions}
        for _ in range(12):
            changed = False
            for f in prog.functions:
                s = self._summary(f)
                if s != self.sum[id(f)]:
                    self.sum[id(f)] = s
                    changed = True
            if not changed:
                break
        for _ in range(12):
            changed = False
            for f in prog.functions:
                s = self._rsummary(f)
                if s != self.rsum[id(f)]:
                    self.rsum[id(f)] = s
                    changed = True
            if not changed:
                break

    def _rsummary(self, f):
        """Elements read through pointer parameters: (param, params in the index)."""
        out = set()
        for n in element_reads(f.body):
            for r, ix in self.roots(f, n):
                if r[0] == "p":
                    ips = frozenset(self.params_in(f, ix))
                    if ips:
                        out.add((r[1], ips))
        for c in f.calls():
            for g in self.prog.resolve(c):
                for k, ips in self.rsum[id(g)]:
                    if k < len(c.args) and c.args[k] is not None:
                        xs = [c.args[i] for i in ips if i < len(c.args) and c.args[i] is not None]
                        for r, ix in self.roots(f, c.args[k]):
                            if r[0] == "p":
                                jps = frozenset(self.params_in(f, list(ix) + xs))
                                if jps:
                                    out.add((r[1], jps))
        return out

    def _alias(self, f):
        """local pointer variable -> expressions assigned to it (flow-insensitive)."""
        env = {}
        for n in f.walk():
            if n.k == "var" and n.c:
                env.setdefault(n.a["d"], []).append(n.c[0])
            elif n.k == "bin" and n.op == "=" and n.c[0].strip().k == "ref":
                env.setdefault(n.c[0].strip().a["d"], []).append(n.c[1])
            elif n.k == "call" and n.callee in ALLOC_OUT and len(n.c) > 1:
                b, _, _ = lvalue_parts(n.c[1])
                if b.k == "ref":
                    env.setdefault(b.a["d"], []).append("fresh")
            elif n.k == "call":
                # T *x; fill(&x): the callee decides what x points to
                for a in n.args:
                    s = a.strip() if a is not None else None
                    if s is not None and s.k == "un" and s.op == "&":
                        b = s.c[0].strip()
                        if b.k == "ref" and b.t is not None and b.t.is_ptr:
                            env.setdefault(b.a["d"], []).append("out")
        return env

    def roots(self, f, e, region=None, seen=None):
        """Storage a pointer expression may designate: set of (root, tuple of index exprs)."""
        seen = seen or frozenset()
        out = set()
        base, idx, _ = lvalue_parts(e)
        idx = tuple(idx)
        if base.k == "ref":
            dk, d = base.a["dk"], base.a["d"]
            if dk in ("global", "static"):
                out.add((("g", base.name), idx))
            elif dk in ("var", "parm"):
                i = f.param(d)
                src = self.alias[id(f)].get(d, [])
                isptr = base.t is not None and base.t.kind in ("ptr", "ref")
                if i is not None and isptr:
                    out.add((("p", i), idx))
                if not isptr:
                    out.add((("l", d), idx))
                elif d not in seen:
                    for s in src:
                        if s == "fresh":
                            out.add((("fresh", d), idx))
                        elif s == "out":
                            out.add((("out", d), idx))
                        else:
                            for r, ix in self.roots(f, s, region, seen | {d}):
                                out.add((r, ix + idx))
        elif base.k == "call":
            fn = base.callee
            if fn in FRESH:
                out.add((("fresh", base.id), idx))
            else:
                for g in self.prog.resolve(base):
                    for r in self.sum[id(g)][1]:
                        if r[0] == "p" and r[1] < len(base.args):
                            for r2, ix in self.roots(f, base.args[r[1]], region, seen):
                                out.add((r2, ix + tuple(a for a in base.args if a is not None and a.t is not None and a.t.is_num) + idx))
                        elif r[0] == "g":
                            out.add((r, idx))
                        else:
                            out.add((("fresh", base.id), idx))
        elif base.k == "cond":
            for x in base.c[1:]:
                for r, ix in self.roots(f, x, region, seen):
                    out.add((r, ix + idx))
        elif base.k == "bin" and base.op == "=":
            return self.roots(f, base.c[1], region, seen)
        return out

    def params_in(self, f, exprs):
        ps = set()
        work = list(exprs)
        seen = set()
        while work:
            e = work.pop()
            if isinstance(e, str):
                continue
            for n in e.walk():
                if n.k == "ref" and n.a["dk"] in ("var", "parm"):
                    i = f.param(n.a["d"])
                    if i is not None:
                        ps.add(i)
                    elif n.a["d"] not in seen:
                        seen.add(n.a["d"])
                        work += self.alias[id(f)].get(n.a["d"], [])
        return ps

    def call_writes(self, f, call):
        """Storage written by a call: (root, index exprs of this function, via)."""
        fn = call.callee
        gs = self.prog.resolve(call)
        args = call.args
        if gs:
            for g in gs:
                for (root, ips) in self.sum[id(g)][0]:
                    if root[0] == "p" and root[1] < len(args):
                        a = args[root[1]]
                        if a is None:
                            continue
                        ix2 = tuple(args[i] for i in ips if i < len(args) and args[i] is not None)
                        for r, ix in self.roots(f, a):
                            yield r, ix + ix2, a
                    elif root[0] == "g":
                        yield root, tuple(args[i] for i in ips if i < len(args) and args[i] is not None), None
        elif fn in EXT_WRITES:
            w = EXT_WRITES[fn]
            which = range(w[1], len(args)) if isinstance(w, tuple) else w
            for i in which:
                if i < len(args) and args[i] is not None:
                    for r, ix in self.roots(f, args[i]):
                        yield r, ix, args[i]
        elif fn in ALLOC_OUT:
            for r, ix in self.roots(f, args[0]):
                yield r, ix, args[0]

    def _summary(self, f):
        writes, rets = set(), set()
        for lv, st in writes_in(f.body):
            base, idx, deref = lvalue_parts(lv)
            if base.k == "ref" and deref <= 0 and base.a["dk"] in ("var", "parm"):
                if not (base.t is not None and base.t.kind == "ref"):
                    continue
            for r, ix in self.roots(f, lv):
                if r[0] in ("p", "g"):
                    writes.add((r, frozenset(self.params_in(f, ix))))
        for c in f.calls():
            for r, ix, _ in self.call_writes(f, c):
                if r[0] in ("p", "g"):
                    writes.add((r, frozenset(self.params_in(f, ix))))
        if f.ret is not None and f.ret.is_ptr:
            for n in f.find("return"):
                if n.c and n.c[0] is not None:
                    for r, ix in self.roots(f, n.c[0]):
                        if r[0] in ("p", "g"):
                            rets.add(r)
                        elif r[0] in ("fresh", "out"):
                            rets.add(("fresh", 0))
        return writes, rets
