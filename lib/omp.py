"""OpenMP data-sharing analysis: every store to storage shared by the team of a parallel region is
protected, or selects an element owned by the executing iteration."""
import lin
from effects import element_reads, writes_in, lvalue_parts, ASSIGN, ALLOC_OUT, UNSAFE_EXT, EXT_WRITES

PRIV = ("private", "firstprivate", "lastprivate", "reduction", "linear", "copyin")
ONE_THREAD = ("critical", "atomic", "single", "master", "masked", "ordered", "section", "task")


def is_parallel(n):
    return n.k == "omp" and "parallel" in n.a["dir"].split()


def is_ws(n):
    return n.k == "omp" and "for" in n.a["dir"].split()


def clause_vars(n, kinds):
    for c in n.a["cl"]:
        if c["k"] in kinds:
            for name, d in c["vars"]:
                yield d, c


def loop_var(f):
    """decl id of the counter of a for loop."""
    for part in (f.c[2], f.c[1], f.c[0]):
        if part is None:
            continue
        for lv, st in writes_in(part):
            b = lv.strip()
            if b.k == "ref":
                return b.a["d"]
        if part.k == "decl":
            for v in part.c:
                return v.a["d"]
    return None


def inside(n, anc):
    return n is anc or any(u is anc for u in n.up())


class Scope:
    """Code executed by one thread between two team synchronisations: a worksharing loop (with its
    partition variables) or the remainder of the region."""

    def __init__(self, region, ws):
        self.region, self.ws = region, ws
        node = region.node
        self.root = ws or node
        self.part = []          # [(decl, for node)]
        self.priv = set(region.priv)
        if ws is not None:
            self.priv |= set(d for d, _ in clause_vars(ws, PRIV))
            k = 1
            for c in ws.a["cl"]:
                if c["k"] == "collapse" and isinstance(c.get("n"), list):
                    k = c["n"][4].get("v", 1)
            body = ws.c[0] if ws.c else None
            while k > 0 and body is not None:
                while body is not None and body.k == "block":
                    body = body.c[0] if body.c else None
                if body is None or body.k != "for":
                    break
                d = loop_var(body)
                if d is not None:
                    self.part.append((d, body))
                    self.priv.add(d)
                body = body.c[3]
                k -= 1
        self.pd = set(d for d, _ in self.part)
        other = [w for w in region.ws if w is not ws]
        self.assigned = {}
        st = [node]
        while st:
            n = st.pop()
            if n in other and not (ws is not None and inside(ws, n)):
                continue
            if n.k == "var" and n.c:
                self.assigned.setdefault(n.a["d"], []).append(n.c[0])
            elif n.k == "bin" and n.op in ASSIGN and n.c[0].strip().k == "ref":
                self.assigned.setdefault(n.c[0].strip().a["d"], []).append(
                    n.c[1] if n.op == "=" else ("step", n.c[1]) if n.op in ("+=", "-=") else "step")
            elif n.k == "un" and n.op in ("++", "--", "p++", "p--") and n.c[0].strip().k == "ref":
                self.assigned.setdefault(n.c[0].strip().a["d"], []).append("step")
            elif n.k == "call":
                if n.callee in ALLOC_OUT and n.args:
                    b, _, _ = lvalue_parts(n.args[0])
                    if b.k == "ref":
                        self.assigned.setdefault(b.a["d"], []).append("fresh")
                else:
                    for a in n.args:
                        s = a.strip() if a is not None else None
                        if s is not None and s.k == "un" and s.op == "&" and s.c[0].strip().k == "ref":
                            self.assigned.setdefault(s.c[0].strip().a["d"], []).append("out")
            st += [x for x in n.c if x is not None]
        self.loops = {}
        for n in self.root.walk():
            if n.k == "for":
                d = loop_var(n)
                if d is not None:
                    self.loops.setdefault(d, []).append(n)

    # -- index forms ------------------------------------------------------------------------
    def form(self, e, depth=0, seen=()):
        def expand(ref):
            if ref.a["dk"] not in ("var", "parm"):
                return None
            d = ref.a["d"]
            if d in self.pd or d in self.loops or d not in self.assigned or d in seen or depth > 4:
                return None
            asg = self.assigned[d]
            if any(a in ("fresh", "out") for a in asg if isinstance(a, str)):
                return {("?out:" + ref.key,): 1}
            src = [a for a in asg if not isinstance(a, (str, tuple)) and not self._selfstep(a, d)]
            if not src:
                return None
            fs = [self.form(a, depth + 1, seen + (d,)) for a in src]
            r = fs[0]
            if any(x != r for x in fs[1:]):
                m = [x for x in fs if self.owns(x)]
                if len(m) != len(fs):
                    return None
                r = m[0]
            for a in asg:
                if a == "step" or (not isinstance(a, (str, tuple)) and self._selfstep(a, d)):
                    r = lin.add(r, {("step:" + ref.key,): 1})
                elif isinstance(a, tuple):
                    r = lin.add(r, lin.mul({("step:" + ref.key,): 1}, self.form(a[1], depth + 1, seen + (d,))))
            return r
        return self._form(e, expand)

    @staticmethod
    def _selfstep(a, d):
        """x = x + c"""
        a = a.strip()
        return a.k == "bin" and a.op in ("+", "-") and any(
            x.strip().k == "ref" and x.strip().a["d"] == d for x in a.c)

    def _form(self, e, expand):
        x = e.strip()
        if x.v is None and x.k == "bin":
            if x.op == "/":
                # counter / step of its own loop numbers the iterations
                l = x.c[0].strip()
                if l.k == "ref" and l.a.get("d") in self.pd and self.step_of(l.a["d"]) == x.c[1].key:
                    return {(l.key,): 1}
            if x.op in ("+", "-", "*"):
                a, b = self._form(x.c[0], expand), self._form(x.c[1], expand)
                return lin.mul(a, b) if x.op == "*" else lin.add(a, b, 1 if x.op == "+" else -1)
        return lin.form(e, expand)

    def step_of(self, d):
        for pd, n in self.part:
            if pd == d and n.c[2] is not None:
                for m in n.c[2].walk():
                    if m.k == "un" and m.op in ("++", "p++") and m.c[0].strip().get("d") == d:
                        return "1"
                    if m.k == "bin" and m.op == "+=" and m.c[0].strip().get("d") == d:
                        return m.c[1].key
        return None

    def below(self, atom, bound):
        """Inner counter that runs from 0 to less than bound (a key)."""
        if "#" not in atom or atom.startswith(("?", "step:")) or bound is None:
            return False
        try:
            d = int(atom.rsplit("#", 1)[1])
        except ValueError:
            return False
        loops = self.loops.get(d)
        if not loops:
            return False
        for n in loops:
            c = n.c[1].strip() if n.c[1] is not None else None
            if c is None or c.k != "bin" or c.op not in ("<", "<=", ">", ">="):
                return False
            lo, hi = (c.c[0], c.c[1]) if c.op in ("<", "<=") else (c.c[1], c.c[0])
            if lo.strip().get("d") != d:
                return False
            extra = 1 if c.op in ("<=", ">=") else 0
            ok = extra == 0 and hi.key == bound
            try:
                ok = ok or int(hi.key) + extra <= int(bound)
            except ValueError:
                pass
            if not ok or n.c[0] is None:
                return False
            init = [m.c[1] for m in n.c[0].walk() if m.k == "bin" and m.op == "=" and m.c[0].strip().get("d") == d]
            init += [v.c[0] for v in n.c[0].walk() if v.k == "var" and v.a["d"] == d and v.c]
            if not init or any(x.v != 0 for x in init):
                return False
        return True

    def owns(self, fm):
        return bool(self.part) and all(self._owns1(fm, d) for d in self.pd)

    def _owns1(self, fm, d):
        """Injective in the counter d: no other varying term has the same co-factor (row-major)."""
        suf = "#%d" % d
        cof, rest = set(), []
        for m, c in fm.items():
            mine = [a for a in m if a.endswith(suf) and not a.startswith(("?", "step:"))]
            if mine:
                mm = list(m)
                mm.remove(mine[0])
                cof.add(tuple(mm))
            else:
                rest.append(m)
        if not cof:
            return False
        for m in rest:
            for a in m:
                if self.varying(a):
                    mm = list(m)
                    mm.remove(a)
                    if tuple(mm) in cof and not self.below(a, self.step_of(d)):
                        return False
        return True

    def varying(self, atom):
        """Atom whose value changes within one iteration of the partitioned loop."""
        if atom.startswith(("step:", "?")):
            return True
        if "#" in atom and "->" not in atom and "." not in atom:
            return int(atom.rsplit("#", 1)[1]) in self.assigned
        return False

    def owned(self, idx):
        """The indices together select an element owned by the iteration."""
        if not self.part:
            return False
        need = set(self.pd)
        for e in idx:
            fm = self.form(e)
            for d in list(need):
                if self._owns1(fm, d):
                    need.discard(d)
        return not need

    def meets(self, wf, rf):
        """The element read can be the element another iteration writes (a fixed number of
        iterations, or an inner counter, away)."""
        if len(wf) != len(rf):
            return False
        diff = [k for k in range(len(wf)) if wf[k] != rf[k]]
        if len(diff) != 1:
            return False
        w, r = wf[diff[0]], rf[diff[0]]
        if any(a.startswith(("?", "step:")) for m in list(w) + list(r) for a in m):
            return False
        delta = lin.add(r, w, -1)
        for d, loop in self.part:
            suf = "#%d" % d
            strides = []
            for m, c in w.items():
                mine = [a for a in m if a.endswith(suf) and not a.startswith(("?", "step:"))]
                if mine:
                    mm = list(m)
                    mm.remove(mine[0])
                    strides.append(tuple(mm))
            if len(strides) != 1:
                continue
            st = self.step_of(d)
            stride = strides[0]
            if st is None:
                continue
            if st != "1":
                stride = tuple(sorted(stride + (st,)))
            for m in delta:
                if any(a.endswith(suf) for a in m):
                    continue
                rest = list(m)
                if not all(a in rest for a in stride):
                    continue
                for a in stride:
                    rest.remove(a)
                if not rest or (len(rest) == 1 and self.counter(rest[0])):
                    return True
        return False

    def counter(self, atom):
        if "#" not in atom or atom.startswith(("?", "step:")) or "->" in atom or "." in atom:
            return False
        return int(atom.rsplit("#", 1)[1]) in self.loops

    # -- storage ----------------------------------------------------------------------------
    def shared_roots(self, e, seen=frozenset(), lval=False):
        """(shared root name, index exprs) designated by pointer/lvalue expression e."""
        base, idx, deref = lvalue_parts(e)
        idx = tuple(idx)
        if base.k == "ref":
            d, dk = base.a["d"], base.a["dk"]
            if dk in ("global", "static"):
                return [(base.name, idx)]
            if dk not in ("var", "parm"):
                return []
            isptr = base.t is not None and base.t.kind in ("ptr", "ref")
            if d not in self.priv:
                return [(base.name, idx)]
            if not isptr or deref + (0 if lval else 1) <= 0 or d in seen:
                return []
            out = []
            srcs = self.assigned.get(d, [])
            if not srcs and any(x == d for x, c in clause_vars(self.region.node, ("firstprivate",))):
                return [(base.name, idx)]
            for s in srcs:
                if isinstance(s, (str, tuple)):
                    continue
                for r, ix in self.shared_roots(s, seen | {d}):
                    out.append((r, ix + idx))
            return out
        if base.k == "call":
            out = []
            for g in self.region.eff.prog.resolve(base):
                for r in self.region.eff.sum[id(g)][1]:
                    if r[0] == "p" and r[1] < len(base.args):
                        nums = tuple(a for a in base.args if a is not None and a.t is not None and a.t.is_num)
                        for r2, ix in self.shared_roots(base.args[r[1]], seen):
                            out.append((r2, ix + nums + idx))
                    elif r[0] == "g":
                        out.append((r[1], idx))
            return out
        if base.k == "cond":
            return [(r, ix + idx) for x in base.c[1:] for r, ix in self.shared_roots(x, seen)]
        if base.k == "bin" and base.op == "=":
            return self.shared_roots(base.c[1], seen)
        return []


class Region:
    def __init__(self, eff, f, node):
        self.eff, self.f, self.node = eff, f, node
        self.priv = set(d for d, _ in clause_vars(node, PRIV))
        for n in node.walk():
            if n.k == "var":
                self.priv.add(n.a["d"])
        self.ws = [n for n in node.walk() if is_ws(n)]
        self.scopes = {None: None}
        for w in self.ws:
            self.scopes[w.id] = Scope(self, w)
        self.scopes[None] = Scope(self, None)

    def context(self, n):
        """(scope, protection) at node n."""
        ws = prot = None
        x = n
        for u in n.up():
            if u is self.node.p:
                break
            if u.k == "omp":
                w = u.a["dir"].split()
                if "for" in w and ws is None:
                    ws = u
                if any(y in w for y in ONE_THREAD):
                    prot = u.a["dir"]
            elif u.k == "if" and u.c[0] is not None and x is not u.c[0]:
                if any(m.k == "call" and m.callee == "omp_get_thread_num" for m in u.c[0].walk()):
                    prot = "thread"
            x = u
            if u is self.node:
                break
        return self.scopes[ws.id if ws is not None else None], prot

    def stores(self):
        """Every store of the region: (node, scope, shared root, idx exprs, protection)."""
        eff = self.eff
        for lv, st in writes_in(self.node):
            sc, prot = self.context(st)
            for r, ix in sc.shared_roots(lv, lval=True):
                yield st, sc, r, ix, prot
        for c in self.node.calls():
            sc, prot = self.context(c)
            fn = c.callee
            gs = eff.prog.resolve(c)
            if fn in UNSAFE_EXT and not gs:
                yield c, sc, "state of %s()" % fn, (), prot
            for g in gs:
                for root, ips in eff.sum[id(g)][0]:
                    ixs = tuple(c.args[i] for i in ips if i < len(c.args) and c.args[i] is not None)
                    if root[0] == "p" and root[1] < len(c.args) and c.args[root[1]] is not None:
                        for r, ix in sc.shared_roots(c.args[root[1]]):
                            yield c, sc, r, ix + ixs, prot
                    elif root[0] == "g":
                        yield c, sc, root[1], ixs, prot
            if not gs:
                w = [0] if fn in ALLOC_OUT else EXT_WRITES.get(fn)
                if w is None:
                    continue
                which = range(w[1], len(c.args)) if isinstance(w, tuple) else w
                for i in which:
                    if i < len(c.args) and c.args[i] is not None:
                        for r, ix in sc.shared_roots(c.args[i]):
                            yield c, sc, r, ix, prot


def regions(eff):
    for f in eff.prog.functions:
        for n in f.walk():
            if is_parallel(n) and not any(is_parallel(u) for u in n.up() if u.k == "omp"):
                yield Region(eff, f, n)


def mark_const(st):
    """value key if the store writes a constant, else None"""
    if st.k == "bin" and st.op == "=" and st.c[1].v is not None:
        return st.c[1].v
    return None


def analyse(eff):
    """Yields per region: (region, number of stores, [violations])."""
    for R in regions(eff):
        stores = list(R.stores())
        bad = []
        by_root = {}
        for s in stores:
            by_root.setdefault(s[2], []).append(s)
        for st, sc, root, ix, prot in stores:
            if prot or sc.owned(ix):
                continue
            # idempotent mark: all stores of the region to this array write one constant and nothing
            # in the region reads it
            vals = set(mark_const(x[0]) for x in by_root[root])
            if ix and len(vals) == 1 and None not in vals and not reads_root(R, root, [x[0] for x in by_root[root]]):
                continue
            bad.append((st, root, ix))
        yield R, stores, bad


def reads_root(R, root, stores):
    lhs = set()
    for st in stores:
        for n in st.c[0].walk():
            lhs.add(n.id)
    for n in R.node.walk():
        if n.k == "ref" and n.name == root and n.id not in lhs:
            return True
    return False


# -- reads of elements another iteration writes ---------------------------------------------------

def path(e):
    """Access path of the accessed object: root and member names, indices left out."""
    out = []
    n = e
    while True:
        n = n.strip()
        if n.k == "idx":
            n = n.c[0]
        elif n.k == "mem":
            out.append(n.name)
            n = n.c[0]
        elif n.k == "un" and n.op in ("*", "&"):
            n = n.c[0]
        elif n.k == "bin" and n.op in ("+", "-") and n.t is not None and n.t.is_ptr:
            n = n.c[0] if n.c[0].t is not None and n.c[0].t.is_ptr else n.c[1]
        else:
            break
    return tuple(out)


def element_conflicts(R, stores):
    """Yields (node, what, conflicting?) for each read of an array the same worksharing loop writes.
    It conflicts when the read element lies a constant number of iterations away from the element
    the iteration owns."""
    eff = R.eff
    for w in R.ws:
        sc = R.scopes[w.id]
        wr = {}
        for st, s2, root, ix, prot in stores:
            if s2 is sc and not prot and ix and inside(st, w):
                lv = st.args if st.k == "call" else [st.c[0]]
                ps = set(path(a) for a in lv if a is not None and a.t is not None and
                         (st.k != "call" or a.t.is_ptr))
                wr.setdefault(root, []).append(([sc.form(e) for e in ix], ps))
        if not wr:
            continue
        reads = []
        for n in element_reads(w):
            for r, ix in sc.shared_roots(n, lval=True):
                reads.append((n, r, ix, path(n)))
        for c in w.calls():
            for g in eff.prog.resolve(c):
                for k, ips in eff.rsum[id(g)]:
                    if k < len(c.args) and c.args[k] is not None:
                        xs = tuple(c.args[i] for i in sorted(ips) if i < len(c.args) and c.args[i] is not None)
                        for r, ix in sc.shared_roots(c.args[k]):
                            reads.append((c, r, ix + xs, path(c.args[k])))
        for n, r, ix, pt in reads:
            if r not in wr or not ix:
                continue
            rf = [sc.form(e) for e in ix]
            yield n, r, any(pt in ps and sc.meets(wf, rf) for wf, ps in wr[r])


# -- private state carried from one iteration to the next -----------------------------------------

class Carried:
    """Must-assigned analysis of one iteration: scalars private to the thread that are read before the
    iteration assigned them although the loop also modifies them."""

    def __init__(self, body, tracked):
        self.body, self.tracked = body, tracked
        self.bad = {}
        self.mod = set()
        for lv, st in writes_in(body):
            b, _, deref = lvalue_parts(lv)
            if b.k == "ref" and deref <= 0:
                self.mod.add(b.a["d"])
        for n in body.walk():
            if n.k == "un" and n.op == "&":
                b, _, deref = lvalue_parts(n.c[0])
                if b.k == "ref" and deref <= 0:
                    self.mod.add(b.a["d"])
        self.brk, self.cont = [], []
        self.stmt(body, frozenset())

    def use(self, n, S):
        d = n.a["d"]
        if n.t is None or not (n.t.is_num or n.t.kind == "ptr"):
            return
        if S is not None and d in self.tracked and d not in S and d not in self.bad:
            if not self.reset_bound(n) and not self.companion(n, S):
                self.bad[d] = n

    def invariant(self, e):
        """The condition has the same value in every iteration."""
        for n in e.walk():
            if n.k in ("call", "idx") or (n.k == "un" and n.op in ("*", "++", "--", "p++", "p--")):
                return False
            if n.k == "ref" and n.a["dk"] in ("var", "parm", "global", "static") and n.a["d"] in self.mod:
                return False
        return True

    def reset_bound(self, n):
        """Read as the bound of a loop that only clears storage used by the previous iteration."""
        x = n
        for u in n.up():
            if u.k == "for":
                if x is not u.c[1]:
                    return False
                sts = [st for _, st in writes_in(u.c[3])]
                return bool(sts) and all(st.k == "bin" and st.op == "=" and st.c[1].v == 0 for st in sts) \
                    and not any(True for _ in u.c[3].calls())
            if u.k in ("block", "if", "while", "do"):
                return False
            x = u
        return False

    def companion(self, n, S):
        """Guarded by a variable that this iteration has assigned and that is assigned in every block
        assigning the variable read (a 'found' flag)."""
        d = n.a["d"]
        comp = None
        for lv, st in writes_in(self.body):
            if lv.strip().k != "ref" or lv.strip().a["d"] != d:
                continue
            blk = next((u for u in st.up() if u.k == "block"), None)
            if blk is None:
                return False
            here = set(l2.strip().a["d"] for c in blk.c if c is not None for l2, s2 in writes_in(c)
                       if l2.strip().k == "ref")
            comp = here if comp is None else comp & here
        comp = (comp or set()) - {d}
        comp &= set(S)
        if not comp:
            return False
        x = n
        for u in n.up():
            if u.k == "if" and x is not u.c[0] and self.mentions(u.c[0], comp):
                return True
            if u.k == "block":
                for c in u.c:
                    if c is x:
                        break
                    if c is not None and c.k == "if" and self.mentions(c.c[0], comp) and \
                            any(m.k in ("continue", "break", "return") for m in c.c[1].walk()):
                        return True
            if u is self.body:
                break
            x = u
        return False

    @staticmethod
    def mentions(e, ds):
        return any(m.k == "ref" and m.a["d"] in ds for m in e.walk())

    @staticmethod
    def meet(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a & b

    def expr(self, n, S):
        if n is None or S is None:
            return S
        k = n.k
        if k == "bin" and n.op in ASSIGN:
            l = n.c[0].strip()
            S = self.expr(n.c[1], S)
            if l.k == "ref":
                if n.op != "=":
                    self.use(l, S)
                return S | {l.a["d"]}
            return self.expr(l, S)
        if k == "bin" and n.op in ("&&", "||"):
            S = self.expr(n.c[0], S)
            self.expr(n.c[1], S)
            return S
        if k == "cond":
            S = self.expr(n.c[0], S)
            return self.meet(self.expr(n.c[1], S), self.expr(n.c[2], S))
        if k == "un" and n.op in ("++", "--", "p++", "p--") and n.c[0].strip().k == "ref":
            self.use(n.c[0].strip(), S)
            return S
        if k == "un" and n.op == "&" and n.c[0].strip().k == "ref":
            return S | {n.c[0].strip().a["d"]}
        if k == "ref":
            self.use(n, S)
            return S
        if k == "sizeof":
            return S
        if k == "var":
            S = self.expr(n.c[0], S) if n.c else S
            return S | {n.a["d"]}
        for c in n.c:
            if c is not None:
                S = self.expr(c, S)
        if k == "call" and n.a.get("noret"):
            return None
        return S

    def loop(self, n, S, cond, inc, body, post):
        sb, sc = self.brk, self.cont
        self.brk, self.cont = [], []
        if not post:
            S = self.expr(cond, S)
        S1 = self.stmt(body, S)
        for c in self.cont:
            S1 = self.meet(S1, c)
        S1 = self.expr(inc, S1)
        if post:
            S1 = self.expr(cond, S1)
        out = S1          # loops are taken to run at least once
        for b in self.brk:
            out = self.meet(out, b)
        self.brk, self.cont = sb, sc
        return out

    def stmt(self, n, S):
        if n is None or S is None:
            return S
        k = n.k
        if k == "block":
            for c in n.c:
                S = self.stmt(c, S)
            return S
        if k == "if":
            S = self.expr(n.c[0], S)
            a = self.stmt(n.c[1], S)
            b = self.stmt(n.c[2], S) if len(n.c) > 2 and n.c[2] is not None else S
            if a is not None and b is not None and self.invariant(n.c[0]):
                return a | b
            return self.meet(a, b)
        if k == "for":
            S = self.stmt(n.c[0], S)
            return self.loop(n, S, n.c[1], n.c[2], n.c[3], False)
        if k == "while":
            return self.loop(n, S, n.c[0], None, n.c[1], False)
        if k == "do":
            return self.loop(n, S, n.c[1], None, n.c[0], True)
        if k == "switch":
            S = self.expr(n.c[0], S)
            sb = self.brk
            self.brk = []
            cur, has = None, False
            body = n.c[1]
            todo = list(body.c) if body is not None and body.k == "block" else [body]
            for c in todo:
                x = c
                while x is not None and x.k in ("case", "default"):
                    has = has or x.k == "default"
                    cur = self.meet(cur, S)
                    x = x.c[-1] if x.c else None
                cur = self.stmt(x, cur)
            if not has:
                cur = self.meet(cur, S)
            for b in self.brk:
                cur = self.meet(cur, b)
            self.brk = sb
            return cur
        if k == "break":
            self.brk.append(S)
            return None
        if k == "continue":
            self.cont.append(S)
            return None
        if k == "return":
            for c in n.c:
                S = self.expr(c, S)
            return None
        if k == "decl":
            for v in n.c:
                S = self.expr(v, S)
                if S is not None and v.k == "var" and not v.c:
                    S = S - {v.a["d"]}
            return S
        if k == "omp":
            return self.stmt(n.c[0], S) if n.c else S
        return self.expr(n, S)


def carried(R):
    """Per worksharing loop: (loop, variables tracked, {decl: read}) for private values that flow
    between iterations."""
    for w in R.ws:
        sc = R.scopes[w.id]
        if not sc.part:
            continue
        skip = set(d for d, _ in clause_vars(w, ("reduction", "lastprivate"))) | \
            set(d for d, _ in clause_vars(R.node, ("reduction",)))
        body = sc.part[-1][1].c[3]
        if body is None:
            continue
        mod = set()
        for lv, st in writes_in(body):
            b = lv.strip()
            if b.k == "ref" and b.t is not None and (b.t.is_num or b.t.kind == "ptr"):
                mod.add(b.a["d"])
        tracked = (mod & sc.priv) - skip - sc.pd
        yield w, tracked, Carried(body, tracked).bad


def uninitialised(R):
    """(variables tracked, {decl: read}) for private variables read before the thread assigns them."""
    tr = set(d for d, c in clause_vars(R.node, ("private",)))
    for w in R.ws:
        tr -= R.scopes[w.id].pd
    return tr, Carried(R.node, tr).bad


def _extremum(st, d, op):
    """x = v for reduction(max|min: x): the guarding comparison with x has the direction of op."""
    v = st.c[1]
    x = st
    for u in st.up():
        if u.k == "if" and x is not u.c[0]:
            for m in u.c[0].walk():
                if m.k == "bin" and m.op in ("<", "<=", ">", ">="):
                    l, r = m.c[0].strip(), m.c[1].strip()
                    if l.get("d") == d and r.key == v.strip().key:
                        return (m.op in ("<", "<=")) == (op == "max")
                    if r.get("d") == d and l.key == v.strip().key:
                        return (m.op in (">", ">=")) == (op == "max")
        x = u
    return True


def reductions(R):
    """Updates of reduction variables inside the region: (store, name, operator, consistent?)."""
    red = {}
    for n in R.node.walk():
        if n.k == "omp":
            for c in n.a["cl"]:
                if c["k"] == "reduction":
                    for name, d in c["vars"]:
                        red[d] = (name, (c.get("op") or "").replace("operator", "").strip(), n)
    for lv, st in writes_in(R.node):
        b = lv.strip()
        if b.k != "ref" or b.a["d"] not in red:
            continue
        d = b.a["d"]
        name, op, dirn = red[d]
        if st.k == "un":
            yield st, name, op, op in ("+", "-")
        elif st.op == "=":
            v = st.c[1].strip()
            refs = any(m.k == "ref" and m.a["d"] == d for m in v.walk())
            if op in ("max", "min"):
                yield st, name, op, _extremum(st, d, op)
            elif not refs:
                # re-initialisation or a flag: a constant is fine for logical reductions only
                yield st, name, op, v.v is not None and op in ("||", "&&", "|", "&")
            else:
                yield st, name, op, v.k == "bin" and (v.op == op or (op in ("+", "-") and v.op in ("+", "-")))
        else:
            o = st.op[:-1]
            yield st, name, op, o == op or (op in ("+", "-") and o in ("+", "-"))


# -- private results of single iterations read after the loop --------------------------------------

def _overwrites(eff, g, k, depth=0):
    """The function replaces what its parameter k points to: it stores values there that do not
    derive from what was there before."""
    if k >= len(g.params):
        return False
    d = g.params[k][1]
    for lv, st in writes_in(g.body):
        b, _, deref = lvalue_parts(lv)
        if b.k == "ref" and b.a.get("d") == d and deref > 0 and st.k == "bin" and st.op == "=" and \
                not any(m.k == "ref" and m.a.get("d") == d for m in st.c[1].walk()):
            return True
    for c in g.body.calls():
        for i, a in enumerate(c.args):
            if a is not None and a.strip().k == "ref" and a.strip().a.get("d") == d:
                if c.callee in ("memset", "memmove", "memcpy") and i == 0:
                    return True
                if depth < 3 and any(_overwrites(eff, h, i, depth + 1) for h in eff.prog.resolve(c)):
                    return True
    return False


def _guarded_by(st, d, top):
    x = st
    for u in st.up():
        if u is top:
            return False
        if u.k in ("if", "cond") and x is not u.c[0] and Carried.mentions(u.c[0], {d}):
            return True
        x = u
    return False


def overwrites(R, w):
    """{decl: store} of the private variables, or storage behind private pointers, that an iteration
    of the worksharing loop replaces without regard to earlier iterations."""
    eff, sc = R.eff, R.scopes[w.id]
    out = {}
    skip = set(d for d, _ in clause_vars(w, ("reduction", "lastprivate"))) | \
        set(d for d, _ in clause_vars(R.node, ("reduction",)))
    for lv, st in writes_in(w):
        b, idx, deref = lvalue_parts(lv)
        if b.k != "ref" or b.a["d"] not in sc.priv or b.a["d"] in sc.pd | skip:
            continue
        d = b.a["d"]
        if st.k != "bin" or st.op != "=" or st.c[1].v is not None:
            continue
        if Carried.mentions(st.c[1], {d}) or _guarded_by(st, d, w):
            continue
        if deref > 0 and any(not lin_free(sc, e) for e in idx):
            continue
        out.setdefault((d, deref > 0), st)
    for c in w.calls():
        for i, a in enumerate(c.args):
            if a is None:
                continue
            s = a.strip()
            addr = s.k == "un" and s.op == "&"
            r = s.c[0].strip() if addr else s
            if r.k != "ref" or r.a.get("d") not in sc.priv or r.a["d"] in sc.pd | skip or r.t is None:
                continue
            if not addr and r.t.kind not in ("ptr", "array"):
                continue
            if (c.callee in ("memset", "memmove", "memcpy") and i == 0) or \
                    any(_overwrites(eff, g, i) for g in eff.prog.resolve(c)):
                out.setdefault((r.a["d"], not addr), c)
    return out


def lin_free(sc, e):
    """The index does not depend on the counter of the worksharing loop."""
    return not any(a.endswith("#%d" % d) for m in sc.form(e) for a in m for d in sc.pd)


def after(w, top):
    """Statements executed after w, within top, in order."""
    x = w
    for u in w.up():
        if u.k == "block":
            k = next((i for i, c in enumerate(u.c) if c is x), None)
            for c in u.c[k + 1:]:
                if c is not None:
                    yield c
        if u is top:
            return
        x = u


def leftover(R):
    """Values of single iterations that are read after the worksharing loop by the thread that ran
    them: (loop, variable, read, store)."""
    for w in R.ws:
        if w is R.node:
            continue
        ow = overwrites(R, w)
        for (d, pointee), st in sorted(ow.items(), key=lambda x: (x[1].id, x[0])):
            rd = first_read(R, w, d, pointee)
            yield w, d, rd, st


def first_read(R, w, d, pointee):
    for s in after(w, R.node):
        for n in s.walk():
            if n.k != "ref" or n.a.get("d") != d:
                continue
            # freed or reassigned
            u = next((x for x in n.up() if x.k not in ("cast", "paren", "idx")), None)
            if u is not None and u.k == "call" and (u.callee or "").startswith("free"):
                return None
            top = n
            for x in n.up():
                if x.k in ("cast", "paren"):
                    top = x
                    continue
                break
            par = top.p
            if par is not None and par.k == "bin" and par.op == "=" and par.c[0] is top:
                return None
            if par is not None and par.k == "un" and par.op == "&":
                return None
            if pointee:
                if par is not None and par.k == "idx":
                    gp = par.p
                    if gp is not None and gp.k == "bin" and gp.op == "=" and gp.c[0] is par:
                        return None
            return n
    return None


# -- per-thread buffers ----------------------------------------------------------------------------

def element(e):
    """(base reference, parts) of an lvalue: constant subscripts and fields by value, others as None."""
    parts = []
    while True:
        e = e.strip()
        if e.k == "idx":
            parts.append(e.c[1].strip().v)
            e = e.c[0]
        elif e.k == "mem":
            parts.append("." + e.name)
            e = e.c[0]
        elif e.k == "un" and e.op == "*":
            parts.append(None)
            e = e.c[0]
        elif e.k == "un" and e.op == "&":
            e = e.c[0].strip()
            if e.k == "idx" and e.c[1].strip().v == 0 and e.c[0].strip().k == "ref":
                pass
        elif e.k == "bin" and e.op in ("+", "-") and e.t is not None and e.t.is_ptr:
            parts.append(None)
            e = e.c[0] if e.c[0].t is not None and e.c[0].t.is_ptr else e.c[1]
        else:
            return e, tuple(reversed(parts))


def meets(a, b):
    """The paths may name the same storage, or one a part of the other."""
    return all(x is None or y is None or x == y for x, y in zip(a, b))


class Buffers(Carried):
    """Buffers of the thread whose content an iteration accumulates into, or reads, although nothing
    in the iteration has written to them before: what they hold stems from earlier iterations."""

    def __init__(self, R, body, tracked, number=frozenset(), sizes=None):
        self.R, self.number, self.sizes = R, number, sizes or {}
        self.known, self.written = frozenset(tracked), []
        for lv, st in writes_in(body):
            b, path = element(lv)
            if b.k == "ref" and b.a.get("d") in self.known:
                self.written.append((b.a["d"], path))
        for c in body.calls():
            for x in c.args:
                b, path = element(x) if x is not None else (None, ())
                if b is not None and b.k == "ref" and b.a.get("d") in self.known and (x.t is None or not x.t.is_num) and not cleared(c):
                    self.written.append((b.a["d"], path))
        Carried.__init__(self, body, tracked)

    def use(self, n, S):
        pass

    @staticmethod
    def meet(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, n, S):
        # a choice that depends on nothing but the iteration number: some iterations start without the write
        if n is not None and S is not None and n.k == "if" and self.numbered(n.c[0]):
            a = self.stmt(n.c[1], S)
            b = self.stmt(n.c[2], S) if len(n.c) > 2 and n.c[2] is not None else S
            return a & b if a is not None and b is not None else Buffers.meet(a, b)
        return Carried.stmt(self, n, S)

    def numbered(self, e):
        refs = [m for m in e.walk() if m.k in ("ref", "idx", "mem", "call")]
        return bool(refs) and all(m.k == "ref" and (m.a.get("d") in self.number or m.a.get("dk") == "enum") for m in refs)

    number = frozenset()

    def base(self, e):
        b, path = element(e)
        if b.k == "ref" and b.a.get("d") in self.tracked:
            return b, (b.a["d"],) + path
        return None, ()

    def read(self, b, path, n, S):
        d = b.a["d"]
        if S is not None and d not in self.bad and not any(x == d or isinstance(x, tuple) and x[0] == d and meets(x[1:], path[1:]) for x in S) \
                and any(x == d and meets(w, path[1:]) for x, w in self.written):
            self.bad[d] = n

    def expr(self, n, S):
        if n is None or S is None:
            return S
        k = n.k
        if k == "bin" and n.op in ASSIGN:
            S = self.expr(n.c[1], S)
            l = n.c[0].strip()
            b, path = self.base(l)
            for i in l.c:
                if i is not None and l.k != "ref":
                    S = self.subs(i, S)
            if b is not None:
                if n.op != "=" and len(path) > 1:
                    self.read(b, path, n, S)
                S = S | {path}
            return S
        if k == "un" and n.op == "&":
            return self.subs(n.c[0], S)
        if k in ("idx", "mem") or (k == "un" and n.op == "*"):
            b, path = self.base(n)
            S = self.subs(n, S)
            if b is not None and n.t is not None and n.t.is_num:
                self.read(b, path, n, S)
            return S
        if k == "un" and n.op in ("++", "--", "p++", "p--"):
            b, path = self.base(n.c[0])
            if b is not None and len(path) > 1:
                self.read(b, path, n, S)
            return self.subs(n.c[0], S)
        if k == "call":
            for c in n.args:
                S = self.expr(c, S)
            if n.a.get("noret"):
                return None
            for i, a in enumerate(n.args):
                if a is None or a.t is not None and a.t.is_num:
                    continue
                b, path = self.base(a)
                if b is not None:
                    if n.callee == "memset" and i == 0 and partial(n, self.sizes.get(path)):
                        self.bad.setdefault(b.a["d"], n)
                        continue
                    if any(reads_first(g, i) for g in self.R.eff.prog.resolve(n)):
                        self.read(b, path, n, S)
                    S = S | {path}
            return S
        if k in ("ref", "sizeof"):
            return S
        return Carried.expr(self, n, S)

    def subs(self, n, S):
        """Index expressions inside an lvalue."""
        n = n.strip()
        if n.k == "idx":
            S = self.subs(n.c[0], S)
            return self.expr(n.c[1], S)
        if n.k in ("mem",) or (n.k == "un" and n.op in ("*", "&")):
            return self.subs(n.c[0], S)
        if n.k == "ref":
            return S
        return self.expr(n, S)


def cleared(c):
    return c.callee in ("memset", "free") or (c.callee or "").startswith("free_")


def reads_first(g, k):
    """The function reads the number its parameter k points to before it writes to it."""
    if k >= len(g.params):
        return False
    d, t = g.params[k][1:3]
    if t is None or not t.is_ptr or t.el is None or not t.el.is_num:
        return False
    for n in g.body.walk():
        if n.k in ("if", "cond", "while", "for", "do", "switch", "return"):
            return False
        if n.k == "un" and n.op == "*" and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == d:
            par = n.p
            while par is not None and par.k == "cast":
                par = par.p
            if par is not None and par.k == "bin" and par.op == "=" and par.c[0].strip() is n:
                return any(m.k == "un" and m.op == "*" and m.c[0].strip().k == "ref" and m.c[0].strip().a.get("d") == d for m in par.c[1].walk())
            return True
    return False


def product(e):
    """(constant, sorted factors) of a product of factors."""
    e = e.strip()
    if e.v is not None:
        return e.v, ()
    if e.k == "bin" and e.op == "*":
        (a, f), (b, g) = product(e.c[0]), product(e.c[1])
        return a * b, tuple(sorted(f + g))
    if e.k == "bin" and e.op == "/" and e.c[1].strip().v:
        a, f = product(e.c[0])
        return a / e.c[1].strip().v, f
    if e.k == "bin" and e.op in ("+", "-") and e.c[1].strip().v is not None:
        a, f = product(e.c[0])
        if a == 1 and f and (e.op == "-") == (e.c[1].strip().v > 0):
            return 1 - 1e-9, f
    return 1, (e.key,)


def partial(c, size):
    """Less than the allocated size is cleared, for certain."""
    if size is None or len(c.args) < 3:
        return False
    a, f = product(c.args[2])
    return f == size[1] and a < size[0] * (1 - 1e-12)


def buffers(R):
    """Per worksharing loop: (loop, buffers tracked, {decl: read}); a buffer is allocated by the
    thread inside the region and written by the loop."""
    eff = R.eff
    fresh = {}
    for n in R.node.walk():
        if n.k == "call" and n.args:
            if n.callee in ALLOC_OUT:
                b, _, _ = lvalue_parts(n.args[0])
                if b.k == "ref" and b.a["d"] in R.priv:
                    fresh.setdefault(b.a["d"], n)
        if n.k == "var" and n.t is not None and n.t.kind == "arr":
            fresh.setdefault(n.a["d"], n)
    sizes = {}
    for n in R.node.walk():
        if n.k == "call" and n.callee == "alloc" and len(n.args) == 3:
            b, path = element(n.args[0])
            if b.k == "ref":
                (x, f), (y, g) = product(n.args[1]), product(n.args[2])
                key = (b.a["d"],) + path
                sizes[key] = None if key in sizes else (x * y, tuple(sorted(f + g)))
    for d, c in clause_vars(R.node, ("private", "firstprivate")):
        fresh.setdefault(d, None)
    for w in R.ws:
        sc = R.scopes[w.id]
        if not sc.part:
            continue
        body = sc.part[-1][1].c[3]
        if body is None:
            continue
        mod = set()
        for lv, st in writes_in(body):
            b, _, deref = lvalue_parts(lv)
            if b.k == "ref" and (deref > 0 or (b.t is not None and b.t.kind == "arr")) and b.a["d"] in fresh:
                mod.add(b.a["d"])
        # the pointer itself must stay the same buffer
        for lv, st in writes_in(w):
            b = lv.strip()
            if b.k == "ref":
                mod.discard(b.a["d"])
        # results merged after the loop are accumulated on purpose
        for (d, nm) in list((d, None) for d in mod):
            if first_read(R, w, d, True) is not None:
                mod.discard(d)
        for c in body.calls():
            for x in c.args:
                b, path = element(x) if x is not None else (None, ())
                if b is not None and b.k == "ref" and b.t is not None and b.t.kind == "arr" and b.a["d"] in fresh and not cleared(c):
                    mod.add(b.a["d"])
        yield w, mod, Buffers(R, body, mod, frozenset(p[0] for p in sc.part), sizes).bad


def beyond(R):
    """Elements of the thread's buffers that are accumulated, but lie right behind what the iteration cleared:
    (node, element, cleared range) or (node, None, None) for buffers whose clearing loop reaches all constants used."""
    for w in R.ws:
        sc = R.scopes[w.id]
        body = sc.part[-1][1].c[3] if sc.part else None
        if body is None:
            continue
        clear, other, acc = {}, set(), {}
        for n in body.walk():
            if n.k == "call" and n.args and not (n.callee or "").startswith(("printf", "fprintf")):
                for a in n.args:
                    b = lvalue_parts(a)[0] if a is not None else None
                    if b is not None and b.k == "ref" and a.strip().k in ("ref", "un"):
                        other.add(b.a.get("d"))
        for lv, st in writes_in(body):
            b, _, deref = lvalue_parts(lv)
            if b.k != "ref" or b.a["d"] not in sc.priv or lv.strip().k != "idx":
                continue
            x = lv.strip()
            while x.c[0].strip().k == "idx":
                x = x.c[0].strip()
            ix, d = x.c[1].strip(), b.a["d"]
            if st.k == "bin" and st.op == "=":
                u = next((u for u in st.up() if u.k == "for" and ix.k == "ref" and loop_var(u) == ix.a["d"] and inside(u, body)), None)
                c = u.c[1].strip() if u is not None and u.c[1] is not None else None
                if c is not None and c.k == "bin" and c.op == "<" and c.c[0].strip().k == "ref" and c.c[0].strip().a["d"] == ix.a["d"] and st.c[1].strip().v is not None:
                    clear.setdefault(d, []).append((c.c[1].strip(), st))
                else:
                    other.add(d)
            else:
                acc.setdefault(d, []).append((ix, lv))
        for d, cl in clear.items():
            if d in other:
                continue
            bounds = {c.key for c, _ in cl}
            hit = next(((ix, lv) for ix, lv in acc.get(d, []) if ix.key in bounds and len(bounds) == 1), None)
            yield (hit[1], hit[1].key, next(iter(bounds))) if hit else (cl[0][1], None, None)


def last_writer(R, stores):
    """Stores under a lock to what all iterations share: what remains must not depend on who comes last."""
    for st, sc, root, ix, prot in stores:
        if prot not in ("critical", "atomic") and not (prot or "").startswith(("critical", "atomic")) or st.k != "bin":
            continue
        if sc.ws is not None and sc.owned(ix):
            continue
        l, r = st.c[0].strip(), st.c[1].strip()
        def same(x):
            """The element itself, or a local that holds its value."""
            return x.key == l.key or x.k == "ref" and any(
                not isinstance(a, (str, tuple)) and any(y.key == l.key for y in a.walk()) for a in sc.assigned.get(x.a.get("d"), []))
        good = st.op != "=" or r.v is not None or any(same(x) for x in r.walk())
        lock = next((u for u in st.up() if u.k == "omp" and u.a["dir"].split()[0] in ("critical", "atomic")), R.node)
        good = good or any(same(x) and x is not l for x in lock.walk())
        # a value that is the same for all
        if not good:
            names = {x.a.get("d") for x in r.walk() if x.k == "ref"}
            good = not any(d in sc.priv or d in sc.assigned for d in names) and not any(x.k == "call" for x in r.walk())
        yield st, root, good
