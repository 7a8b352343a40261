"""Abstract interpretation of small integer functions at bit level: every bit of every value is a boolean
function (reduced ordered decision diagram) of the bits of the inputs. Calls are inlined, loops with
constant trip counts are unrolled; anything else is Unsupported and leaves the obligation undecided."""


class Unsupported(Exception):
    pass


class BDD:
    def __init__(self):
        self.tab = {}
        self.node = {0: None, 1: None}
        self.order = {}
        self.names = []
        self.cache = {}

    def var(self, name):
        if name not in self.order:
            self.order[name] = len(self.names)
            self.names.append(name)
        return self.mk(self.order[name], 0, 1)

    def mk(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.tab.get(k)
        if r is None:
            r = len(self.node)
            if r > 400000:
                raise Unsupported("decision diagram too large")
            self.node[r] = k
            self.tab[k] = r
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        top = min(self.node[x][0] for x in (f, g, h) if x > 1)

        def co(x, b):
            if x > 1 and self.node[x][0] == top:
                return self.node[x][2 if b else 1]
            return x
        r = self.mk(top, self.ite(co(f, 0), co(g, 0), co(h, 0)), self.ite(co(f, 1), co(g, 1), co(h, 1)))
        self.cache[k] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def one(self, f):
        """One satisfying assignment as text."""
        out = []
        while f > 1:
            v, lo, hi = self.node[f]
            if hi != 0:
                out.append("%s=1" % self.names[v])
                f = hi
            else:
                out.append("%s=0" % self.names[v])
                f = lo
        return ", ".join(out)

    def restrict(self, f, env):
        """Cofactor for {name: 0/1}."""
        memo = {}

        def go(x):
            if x <= 1:
                return x
            if x in memo:
                return memo[x]
            v, lo, hi = self.node[x]
            n = self.names[v]
            r = go(hi if env[n] else lo) if n in env else self.mk(v, go(lo), go(hi))
            memo[x] = r
            return r
        return go(f)


W = 32


class Val:
    """Bit vector with the C type's width and signedness already applied (always W bits)."""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = b


class Ptr:
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path


class Interp:
    def __init__(self, prog, bdd=None):
        self.prog = prog
        self.m = bdd or BDD()
        self.mem = {}        # path -> Val | Ptr
        self.depth = 0
        self.fresh = 0

    # -- values ---------------------------------------------------------------------------
    def const(self, n):
        return Val([1 if (n >> i) & 1 else 0 for i in range(W)])

    def sym(self, name, width, signed=False):
        bits = [self.m.var("%s.%d" % (name, i)) for i in range(width)]
        return Val(bits + [bits[-1] if signed else 0] * (W - width))

    def fit(self, v, t):
        """Convert to type t."""
        if isinstance(v, Ptr) or t is None:
            return v
        if t.kind == "bool":
            return Val([self.truth(v)] + [0] * (W - 1))
        if t.kind in ("int", "uint", "char", "uchar", "enum"):
            n = min(W, (t.size or 4) * 8)
            signed = t.kind in ("int", "char", "enum")
            if n >= W:
                return v
            return Val(v.b[:n] + [v.b[n - 1] if signed else 0] * (W - n))
        if t.kind == "void":
            return v
        raise Unsupported("type " + t.sp)

    def truth(self, v):
        if isinstance(v, Ptr):
            return 1
        r = 0
        for x in v.b:
            r = self.m.OR(r, x)
        return r

    def ite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.path == b.path:
                return a
            raise Unsupported("pointer join")
        return Val([self.m.ite(c, x, y) for x, y in zip(a.b, b.b)])

    def isconst(self, v):
        if isinstance(v, Val) and all(x in (0, 1) for x in v.b):
            n = sum(x << i for i, x in enumerate(v.b))
            return n - (1 << W) if n >> (W - 1) else n
        return None

    def add(self, a, b, carry=0):
        m, out = self.m, []
        for x, y in zip(a.b, b.b):
            s = m.XOR(m.XOR(x, y), carry)
            carry = m.OR(m.AND(x, y), m.AND(carry, m.XOR(x, y)))
            out.append(s)
        return Val(out)

    def inv(self, a):
        return Val([self.m.NOT(x) for x in a.b])

    def lt(self, a, b, signed=True):
        m = self.m
        r = 0
        for i in range(W):
            x, y = a.b[i], b.b[i]
            if signed and i == W - 1:
                x, y = y, x
            r = m.ite(m.XOR(x, y), y, r)
        return r

    def eq(self, a, b):
        r = 1
        for x, y in zip(a.b, b.b):
            r = self.m.AND(r, self.m.NOT(self.m.XOR(x, y)))
        return r

    def shift(self, a, n, left, signed):
        k = self.isconst(n)
        if k is None:
            raise Unsupported("variable shift")
        if k < 0 or k >= W:
            raise Unsupported("shift by %d" % k)
        if left:
            return Val([0] * k + a.b[:W - k])
        return Val(a.b[k:] + [a.b[-1] if signed else 0] * k)

    def b2v(self, x):
        return Val([x] + [0] * (W - 1))

    # -- lvalues --------------------------------------------------------------------------
    def path(self, n, fr):
        n = n.strip()
        if n.k == "ref":
            dk = n.a["dk"]
            if dk in ("var", "parm"):
                return "%d:%s#%d" % (fr["id"], n.name, n.a["d"])
            return "g:" + n.name
        if n.k == "mem":
            if n.a.get("arrow"):
                p = self.rval(n.c[0], fr)
                if not isinstance(p, Ptr):
                    raise Unsupported("arrow")
                return p.path + "." + n.name
            return self.path(n.c[0], fr) + "." + n.name
        if n.k == "idx":
            i = self.rval(n.c[1], fr)
            k = self.isconst(i)
            base = n.c[0].strip()
            if base.t is not None and base.t.kind in ("arr", "vla"):
                bp = self.path(base, fr)
            else:
                p = self.rval(base, fr)
                if not isinstance(p, Ptr):
                    raise Unsupported("index")
                bp = p.path
            return "%s[%s]" % (bp, k if k is not None else self.name_of(i))
        if n.k == "un" and n.op == "*":
            p = self.rval(n.c[0], fr)
            if not isinstance(p, Ptr):
                raise Unsupported("deref")
            return p.path + "[0]"
        raise Unsupported("lvalue " + n.k)

    def name_of(self, v):
        return "s%s" % (hash(tuple(v.b)) & 0xffffff)

    def load(self, p, t):
        if p in self.mem:
            return self.mem[p]
        if t is not None and t.is_ptr:
            v = Ptr(p + "^")
        elif t is not None and t.kind in ("int", "uint", "char", "uchar", "enum", "bool"):
            v = self.sym(p, 1 if t.kind == "bool" else min(W, t.size * 8), t.kind in ("int", "char", "enum"))
        else:
            raise Unsupported("load of " + (t.sp if t else "?"))
        self.mem[p] = v
        return v

    def under(self, v, pc):
        """The value as seen under the path condition: bits it fixes become constants."""
        if pc in (0, 1) or isinstance(v, Ptr):
            return v
        m = self.m
        return Val([x if x <= 1 else 0 if m.AND(pc, x) == 0 else 1 if m.AND(pc, m.NOT(x)) == 0 else x for x in v.b])

    def store(self, p, v, t, pc):
        v = self.fit(v, t)
        if pc != 1:
            v = self.ite(pc, v, self.load(p, t))
        self.mem[p] = v
        return v

    # -- expressions ------------------------------------------------------------------------
    def rval(self, n, fr):
        m = self.m
        k = n.k
        if k == "cast":
            s = n.c[0]
            if n.t is not None and n.t.is_ptr and s.t is not None and s.t.kind in ("arr", "vla"):
                return Ptr(self.path(s, fr))
            return self.fit(self.rval(s, fr), n.t)
        if n.v is not None and isinstance(n.v, (int, bool)):
            return self.const(int(n.v))
        if k in ("int", "chr"):
            return self.const(int(n.v))
        if k in ("ref", "mem", "idx") or (k == "un" and n.op == "*"):
            if n.t is not None and n.t.kind in ("arr", "vla"):
                return Ptr(self.path(n, fr))
            return self.under(self.load(self.path(n, fr), n.t), fr["pc"])
        if k == "un":
            op = n.op
            if op == "&":
                return Ptr(self.addr(n.c[0], fr))
            if op in ("++", "--", "p++", "p--"):
                p = self.path(n.c[0], fr)
                old = self.under(self.load(p, n.c[0].t), fr["pc"])
                new = self.add(old, self.const(1 if "+" in op else -1))
                new = self.store(p, new, n.c[0].t, fr["pc"])
                return old if op[0] == "p" else new
            v = self.rval(n.c[0], fr)
            if op == "!":
                return self.b2v(m.NOT(self.truth(v)))
            if op == "~":
                return self.inv(v)
            if op == "-":
                return self.add(self.inv(v), self.const(1))
            if op == "+":
                return v
        if k == "bin":
            op = n.op
            if op == "=":
                v = self.rval(n.c[1], fr)
                return self.store(self.path(n.c[0], fr), v, n.c[0].t, fr["pc"])
            if op in ("&&", "||"):
                a = self.truth(self.rval(n.c[0], fr))
                pc = fr["pc"]
                fr["pc"] = m.AND(pc, a if op == "&&" else m.NOT(a))
                b = self.truth(self.rval(n.c[1], fr)) if fr["pc"] != 0 else 0
                fr["pc"] = pc
                return self.b2v(m.AND(a, b) if op == "&&" else m.OR(a, b))
            if op == ",":
                self.rval(n.c[0], fr)
                return self.rval(n.c[1], fr)
            if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
                p = self.path(n.c[0], fr)
                v = self.arith(op[:-1], self.under(self.load(p, n.c[0].t), fr["pc"]), self.rval(n.c[1], fr), n)
                return self.store(p, v, n.c[0].t, fr["pc"])
            return self.arith(op, self.rval(n.c[0], fr), self.rval(n.c[1], fr), n)
        if k == "cond":
            c = self.truth(self.rval(n.c[0], fr))
            pc = fr["pc"]
            if c == 1:
                return self.rval(n.c[1], fr)
            if c == 0:
                return self.rval(n.c[2], fr)
            fr["pc"] = m.AND(pc, c)
            a = self.rval(n.c[1], fr)
            fr["pc"] = m.AND(pc, m.NOT(c))
            b = self.rval(n.c[2], fr)
            fr["pc"] = pc
            return self.ite(c, a, b)
        if k == "call":
            return self.call(n, fr)
        if k == "sizeof" and n.v is not None:
            return self.const(n.v)
        raise Unsupported("%s %s" % (k, n.op or ""))

    def addr(self, n, fr):
        n = n.strip()
        p = self.path(n, fr)
        return p[:-3] if p.endswith("[0]") else p + "&"

    def arith(self, op, a, b, n):
        m = self.m
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            raise Unsupported("pointer arithmetic")
        unsigned = n.c[0].t is not None and n.c[0].t.kind == "uint"
        if op == "+":
            return self.add(a, b)
        if op == "-":
            return self.add(a, self.inv(b), 1)
        if op in ("&", "|", "^"):
            f = {"&": m.AND, "|": m.OR, "^": m.XOR}[op]
            return Val([f(x, y) for x, y in zip(a.b, b.b)])
        if op in ("<<", ">>"):
            return self.shift(a, b, op == "<<", not unsigned)
        if op == "*":
            for x, y in ((a, b), (b, a)):
                if self.isconst(x) is not None:
                    c, r = self.isconst(x), self.const(0)
                    for i in range(W):
                        if (c >> i) & 1:
                            r = self.add(r, self.shift(y, self.const(i), True, False))
                    return r
            raise Unsupported("product")
        if op in ("/", "%"):
            x, y = self.isconst(a), self.isconst(b)
            if y and y > 0 and (y & (y - 1)) == 0 and a.b[-1] == 0:
                k = y.bit_length() - 1
                if op == "/":
                    return self.shift(a, self.const(k), False, False)
                return Val(a.b[:k] + [0] * (W - k))
            if x is not None and y:
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return self.const(q if op == "/" else x - q * y)
            raise Unsupported("division")
        if op == "==":
            return self.b2v(self.eq(a, b))
        if op == "!=":
            return self.b2v(m.NOT(self.eq(a, b)))
        if op == "<":
            return self.b2v(self.lt(a, b, not unsigned))
        if op == ">":
            return self.b2v(self.lt(b, a, not unsigned))
        if op == "<=":
            return self.b2v(m.NOT(self.lt(b, a, not unsigned)))
        if op == ">=":
            return self.b2v(m.NOT(self.lt(a, b, not unsigned)))
        raise Unsupported("operator " + op)

    # -- calls and statements -----------------------------------------------------------------
    def call(self, n, fr):
        gs = self.prog.resolve(n)
        if len(gs) != 1:
            if n.callee in ("printf", "fprintf", "puts", "fflush"):
                return self.const(0)
            raise Unsupported("call to %s" % n.callee)
        args = [self.rval(a, fr) for a in n.args]
        return self.run(gs[0], args, fr["pc"])

    def run(self, f, args, pc=1):
        if self.depth > 12:
            raise Unsupported("recursion")
        self.depth += 1
        self.fresh += 1
        fr = {"id": self.fresh, "pc": pc, "ret": None, "rpc": 0, "f": f, "brk": [], "cont": []}
        for (nm, d, t), v in zip(f.params, args):
            self.mem["%d:%s#%d" % (fr["id"], nm, d)] = self.fit(v, t)
        self.stmt(f.body, fr)
        self.depth -= 1
        r = fr["ret"]
        return self.fit(r, f.ret) if r is not None else self.const(0)

    def stmt(self, n, fr):
        if n is None or fr["pc"] == 0:
            return
        m, k = self.m, n.k
        if k == "block":
            for c in n.c:
                self.stmt(c, fr)
        elif k == "decl":
            for v in n.c:
                if v.k == "var" and v.c and v.c[0] is not None:
                    p = "%d:%s#%d" % (fr["id"], v.name, v.a["d"])
                    self.mem[p] = self.fit(self.rval(v.c[0], fr), v.t)
        elif k == "if":
            c = self.truth(self.rval(n.c[0], fr))
            pc = fr["pc"]
            fr["pc"] = m.AND(pc, c)
            self.stmt(n.c[1], fr)
            a = fr["pc"]
            fr["pc"] = m.AND(pc, m.NOT(c))
            if len(n.c) > 2:
                self.stmt(n.c[2], fr)
            fr["pc"] = m.OR(a, fr["pc"])
        elif k in ("for", "while", "do"):
            if k == "for":
                init, cond, inc, body = n.c[0], n.c[1], n.c[2], n.c[3]
                self.stmt(init, fr)
            elif k == "while":
                init, cond, inc, body = None, n.c[0], None, n.c[1]
            else:
                init, cond, inc, body = None, n.c[1], None, n.c[0]
            out = 0
            fr["brk"].append(0)
            first = k == "do"
            for _ in range(130):
                if not first and cond is not None:
                    c = self.truth(self.rval(cond, fr))
                    out = m.OR(out, m.AND(fr["pc"], m.NOT(c)))
                    fr["pc"] = m.AND(fr["pc"], c)
                first = False
                if fr["pc"] == 0:
                    break
                fr["cont"].append(0)
                self.stmt(body, fr)
                fr["pc"] = m.OR(fr["pc"], fr["cont"].pop())
                if inc is not None and fr["pc"] != 0:
                    self.rval(inc, fr)
            else:
                raise Unsupported("loop bound")
            fr["pc"] = m.OR(out, fr["brk"].pop())
        elif k == "switch":
            v = self.rval(n.c[0], fr)
            pc = fr["pc"]
            body = n.c[1].c if n.c[1].k == "block" else [n.c[1]]
            labels = []
            for i, c in enumerate(body):
                x = c
                while x is not None and x.k in ("case", "default"):
                    labels.append((i, x))
                    x = x.c[-1]
            rest = 1
            entry = {}
            dflt = None
            for i, x in labels:
                if x.k == "default":
                    dflt = i
                else:
                    e = self.eq(v, self.rval(x.c[0], fr))
                    entry[i] = m.OR(entry.get(i, 0), e)
                    rest = m.AND(rest, m.NOT(e))
            if dflt is not None:
                entry[dflt] = m.OR(entry.get(dflt, 0), rest)
                rest = 0
            fr["brk"].append(0)
            fr["pc"] = 0
            for i, c in enumerate(body):
                fr["pc"] = m.OR(fr["pc"], m.AND(pc, entry.get(i, 0)))
                x = c
                while x is not None and x.k in ("case", "default"):
                    x = x.c[-1]
                self.stmt(x, fr)
            fr["pc"] = m.OR(m.OR(fr["pc"], m.AND(pc, rest)), fr["brk"].pop())
        elif k == "break":
            fr["brk"][-1] = m.OR(fr["brk"][-1], fr["pc"])
            fr["pc"] = 0
        elif k == "continue":
            fr["cont"][-1] = m.OR(fr["cont"][-1], fr["pc"])
            fr["pc"] = 0
        elif k == "return":
            if n.c and n.c[0] is not None:
                v = self.rval(n.c[0], fr)
                fr["ret"] = v if fr["ret"] is None else self.ite(fr["pc"], v, fr["ret"])
            fr["rpc"] = m.OR(fr["rpc"], fr["pc"])
            fr["pc"] = 0
        elif k == "nop":
            pass
        else:
            self.rval(n, fr)
