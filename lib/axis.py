"""Axis typing: which of the two image axes a quantity belongs to (X: columns, eastings, widths;
Y: rows, northings, heights; P: positions in a linearised image), inferred over the whole program,
and its role: 'cub' origin of the grid, 'org' upper-left corner, 'pt' any other coordinate,
'off' an offset or length counted in image direction (to the right, downwards), 'neg' against it."""
import re

FIELD = {
    ("coord_t", "x"): "X", ("coord_t", "y"): "Y",
    ("dim_t", "cols"): "X", ("dim_t", "rows"): "Y", ("dim_t", "cells"): "P",
    ("brick_t", "nx"): "X", ("brick_t", "ny"): "Y", ("brick_t", "nc"): "P",
    ("brick_t", "cx"): "X", ("brick_t", "cy"): "Y", ("brick_t", "cc"): "P",
    ("brick_t", "width"): "X", ("brick_t", "height"): "Y",
    ("brick_t", "cwidth"): "X", ("brick_t", "cheight"): "Y",
}
ENUM = {"_X_": "X", "_Y_": "Y"}
GT = {0: "X", 3: "Y"}
EXT_RET = {"GDALGetRasterXSize": "X", "GDALGetRasterYSize": "Y", "GDALGetRasterBandXSize": "X", "GDALGetRasterBandYSize": "Y",
           "GetRasterXSize": "X", "GetRasterYSize": "Y", "GetXSize": "X", "GetYSize": "Y"}
EXT_ARG = {"GDALRasterIO": {2: "X", 3: "Y", 4: "X", 5: "Y", 7: "X", 8: "Y"},
           "GDALRasterIOEx": {2: "X", 3: "Y", 4: "X", 5: "Y", 7: "X", 8: "Y"},
           "RasterIO": {1: "X", 2: "Y", 3: "X", 4: "Y", 6: "X", 7: "Y"},
           "GDALCreate": {2: "X", 3: "Y"}, "Create": {1: "X", 2: "Y"},
           "GDALSuggestedWarpOutput": {4: "X", 5: "Y"}}
KEEP = {"floor", "ceil", "round", "fabs", "abs", "floorf", "ceilf", "roundf", "fabsf", "lround", "rint"}
# names that commit to an axis; only ever used as the target of an assignment, never as evidence
NAMES = [(re.compile(r"^((\w+_)?n?c?x|n?cols?|(\w*_)?(ul|ur|ll|lr|min|max)x|tilex|mapx|geox|nx_\w+|xoff\w*|x_off\w*|c?width)$"), "X"),
         (re.compile(r"^((\w+_)?n?c?y|n?rows?|(\w*_)?(ul|ur|ll|lr|min|max)y|tiley|mapy|geoy|ny_\w+|yoff\w*|y_off\w*|c?height)$"), "Y")]
OTHER = {"X": "Y", "Y": "X"}
LEVEL = {"cub": 3, "org": 2, "pt": 1}
COMPARE = ("<", ">", "<=", ">=", "==", "!=")


def named(n):
    for rx, ax in NAMES:
        if rx.match(n):
            return ax
    return None


def rec(t):
    return re.sub(r"^(struct|const|volatile) |[ *]+$", "", t.canon if t else "").strip()


def base_field(n):
    """Name of the field or variable an element or member is taken from."""
    n = n.strip()
    while n.k in ("idx", "mem"):
        if n.k == "mem" and rec(n.c[0].t) not in ("coord_t", "dim_t"):
            return n.name
        n = n.c[0].strip()
    return n.name or ""


class Axes:
    def __init__(self, prog):
        self.prog = prog
        self.demand = {}
        self.run(False)
        self.demands()
        self.run(True)

    def run(self, calls):
        self.ev = {}        # cell -> {axis: [nodes]}
        self.fev = {}       # cell -> {role}
        self.ret = {}       # function -> {axis: {role}}
        self.calls = calls
        self.uses = set()
        self.changed = True
        self.rounds = 0
        while self.changed and self.rounds < 12:
            self.changed = False
            self.rounds += 1
            for f in self.prog.functions:
                self.scan(f)

    # -- cells --------------------------------------------------------------------------------
    def cell(self, n):
        """Variable an lvalue expression denotes (through one dereference of a parameter)."""
        n = n.strip()
        if n.k == "ref" and n.a.get("dk") in ("var", "parm", "static") and n.fn is not None:
            return (n.fn, n.name, n.a["d"], "")
        if n.k == "un" and n.op == "*":
            s = n.c[0].strip()
            if s.k == "ref" and s.a.get("dk") == "parm" and s.fn is not None:
                return (n.fn, s.name, s.a["d"], "*")
        if n.k == "mem" and (rec(n.c[0].t), n.name) not in FIELD and n.t is not None and n.t.kind in ("int", "uint", "float"):
            return (rec(n.c[0].t), n.name, 0, "")
        return None

    def weak(self, cell, ty, node):
        """Evidence from a use; a definition says more."""
        if cell is not None and all(x in self.uses for l in self.ev.get(cell, {}).values() for x in l):
            self.uses.add(node)
            self.note(cell, ty, node)

    def note(self, cell, ty, node):
        if cell is None or ty is None or ty[0] is None:
            return
        ax, role = ty
        l = self.ev.setdefault(cell, {}).setdefault(ax, [])
        if not l:
            self.changed = True
        if node not in l:
            l.append(node)
        fs = self.fev.setdefault(cell, set())
        if role not in fs:
            fs.add(role)
            self.changed = True

    def of_cell(self, cell):
        d = self.demand.get(cell)
        e = {a for a in self.ev.get(cell, ()) if a in "XY"} or set(self.ev.get(cell, ()))
        if d:
            e = {d}
        if len(e) != 1:
            return None
        fs = self.fev.get(cell, set()) - {None}
        if d and not fs and not isinstance(cell[0], str):
            t = next((t for n, pd, t in cell[0].params if pd == cell[2]), None)
            if t is not None and (t.kind in ("int", "uint") or cell[3] and re.match(r"(const )?(unsigned )?(int|short|long|size_t) \*", t.canon)):
                fs = {"off"}
        role = fs.pop() if len(fs) == 1 else ("pt" if fs == {"pt", "org"} else None)
        return next(iter(e)), role

    # -- expressions --------------------------------------------------------------------------
    def of(self, n):
        t = self.ty(n)
        return t[0] if t else None

    def ty(self, n):
        """(axis, role) of an expression, or None."""
        n = n.strip()
        k = n.k
        if n.v is not None:
            return None
        if k == "paren":
            return self.ty(n.c[0])
        if k == "mem":
            r = rec(n.c[0].t)
            ax = FIELD.get((r, n.name))
            if ax is None:
                c = self.cell(n)
                return self.of_cell(c) if c else None
            if r == "coord_t":
                return ax, "cub" if base_field(n.c[0]).startswith("origin") else "pt"
            return ax, "off"
        if k == "idx":
            i = n.c[1].strip()
            b = n.c[0].strip()
            if i.k == "ref" and i.a.get("dk") == "enum" and i.name in ENUM:
                ints = n.t is not None and n.t.kind in ("int", "uint")
                return ENUM[i.name], "off" if ints or re.search(r"size|tile|chunk", base_field(n)) else None
            if re.search(r"geotran", base_field(n)) and isinstance(i.v, int):
                ax = GT.get(i.v)
                return (ax, "org") if ax else None
            if b.k == "idx":     # tile_extent[_X_][_MIN_]
                return self.ty(b)
            return None
        if k in ("ref", "un") and self.cell(n):
            return self.of_cell(self.cell(n))
        if k == "un":
            if n.op in ("p++", "p--", "++", "--", "+"):
                return self.ty(n.c[0])
            if n.op == "-":
                t = self.ty(n.c[0])
                return (t[0], {"neg": "off"}.get(t[1])) if t else None
            return None
        if k == "bin":
            op = n.op
            if op == ",":
                return self.ty(n.c[1])
            if op in ("=", "+=", "-=", "*=", "/="):
                return self.ty(n.c[1]) if op == "=" else self.ty(n.c[0])
            a, b = self.ty(n.c[0]), self.ty(n.c[1])
            if op in ("+", "-"):
                return self.sum(op, a, b) if n.c[0].v is None and n.c[1].v is None else a or b
            if op == "*":
                if a and b:
                    if {a[0], b[0]} == {"X", "Y"}:
                        return "P", None
                    if a[0] == b[0] and a[1] == b[1] == "off" and n.c[0].strip().key != n.c[1].strip().key:
                        return a     # tile number times tile size
                    return None
                t = a or b
                o = n.c[1] if a else n.c[0]
                if t and o.v is None and o.strip().t is not None and o.strip().t.kind in ("int", "uint") and not self.calls:
                    return None      # perhaps a row number times the row length
                if t and (self.negative(n.c[0]) or self.negative(n.c[1])):
                    return t[0], {"off": "neg", "neg": "off"}.get(t[1])
                return t
            if op == "/":
                if a and a[0] == "P" and b and b[0] in "XY":
                    return OTHER[b[0]], "off"
                if b:
                    return None
                return a
            if op == "%":
                if a and a[0] == "P" and b and b[0] in "XY":
                    return b[0], "off"
                return a
            return None
        if k == "cond":
            a, b = self.ty(n.c[1]), self.ty(n.c[2])
            if a and b:
                return (a[0], a[1] if a[1] == b[1] else None) if a[0] == b[0] else None
            return a or b
        if k == "call":
            fn = n.callee
            if fn in EXT_RET:
                return EXT_RET[fn], "off"
            if fn in KEEP and n.args:
                t = self.ty(n.args[0])
                return (t[0], None if "abs" in fn else t[1]) if t else None
            r = {}
            for f in self.prog.resolve(n):
                for a, fs in self.ret.get(f, {}).items():
                    r.setdefault(a, set()).update(fs)
            if len(r) == 1:
                a, fs = r.popitem()
                return a, fs.pop() if len(fs) == 1 else None
        return None

    def negative(self, n):
        """The factor is negative: a negative constant or the (north-up) row resolution."""
        n = n.strip()
        if isinstance(n.v, (int, float)):
            return n.v < 0
        if n.k == "un" and n.op == "-":
            return not self.negative(n.c[0])
        if n.k == "idx" and re.search(r"geotran", base_field(n)):
            return n.c[1].strip().v == 5
        return False

    def sum(self, op, a, b):
        if not a or not b:
            t = a or b
            if t and (op == "-" and b or t[1] in LEVEL):
                return t[0], None
            return t
        if "P" in (a[0], b[0]):
            if op == "-" and a[0] == "P":
                return None
            return "P", None
        if a[0] != b[0]:
            return None
        ax, (x, y) = a[0], (a[1], b[1])
        la, lb = LEVEL.get(x), LEVEL.get(y)
        if la and lb:
            if op == "+" or la == lb:
                return ax, None
            fwd = (la < lb) == (ax == "X")
            return ax, "off" if fwd else "neg"
        if la or lb:
            return ax, {3: "org", 2: "pt", 1: "pt"}[la or lb]
        if x == y:
            return ax, x if op == "+" else None if x == "neg" else "off"
        return ax, None

    def clash(self, n):
        """Wrong direction: an offset is added to a corner against the orientation of its axis."""
        a, b = self.ty(n.c[0]), self.ty(n.c[1])
        if not a or not b or a[0] != b[0] or a[0] not in "XY":
            return False, None
        x, y = a[1], b[1]
        if x in ("cub", "org") and y in ("off", "neg"):
            fwd = (n.op == "+") == (y == "off")
            return True, None if fwd == (a[0] == "X") else "%s is counted %s, but here it is %s" % (
                n.c[1].key, "to the right" if a[0] == "X" else "downwards (against the northing)",
                "added" if n.op == "+" else "subtracted")
        if y in ("cub", "org") and x in ("off", "neg") and n.op == "+":
            fwd = x == "off"
            return True, None if fwd == (a[0] == "X") else "%s is counted %s" % (
                n.c[0].key, "to the right" if a[0] == "X" else "downwards (against the northing)")
        return False, None

    # -- program ------------------------------------------------------------------------------
    def scan(self, f):
        for n in f.walk():
            if n.k == "bin" and n.op in ("=", "+=", "-="):
                t = self.ty(n.c[1])
                if t and n.op != "=" :
                    t = (t[0], None) if t[0] != "P" else t
                self.note(self.cell(n.c[0]), t, n)
            elif n.k == "var" and n.c and n.c[0] is not None:
                self.note((f, n.name, n.a["d"], ""), self.ty(n.c[0]), n)
            elif n.k == "bin" and n.op == "-" and self.of(n.c[1]) == "P":
                # position minus row number times row length
                self.weak(self.cell(n.c[0]), ("P", None), n)
            elif n.k == "bin" and n.op in COMPARE:
                # a counter compared with an extent; comparing two extents says nothing
                for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                    c = self.cell(a)
                    if c and (c not in self.ev or all(self.iscomp(x) for l in self.ev[c].values() for x in l)):
                        t = self.ty(b)
                        if t and not self.selects(n):
                            self.note(c, (t[0], "off" if t[1] == "off" else None), n)
            elif n.k in ("ret", "return") and n.c and n.c[0] is not None:
                t = self.ty(n.c[0])
                if t:
                    r = self.ret.setdefault(f, {}).setdefault(t[0], set())
                    if t[1] not in r:
                        self.changed = True
                        r.add(t[1])
            elif n.k == "call":
                for g in self.prog.resolve(n):
                    for (pn, pd, pt), arg in zip(g.params, n.args):
                        s = arg.strip()
                        if s.k == "un" and s.op == "&":
                            dc = (g, pn, pd, "*")
                            if self.calls:
                                self.note(dc, self.ty(s.c[0]), n)
                            self.note(self.cell(s.c[0]), self.of_cell(dc), n)
                        elif self.calls:
                            self.note((g, pn, pd, ""), self.ty(arg), n)
                for i, ax in EXT_ARG.get(n.callee, {}).items():
                    if i < len(n.args):
                        s = n.args[i].strip()
                        if s.k == "un" and s.op == "&":
                            s = s.c[0]
                        self.weak(self.cell(s), (ax, "off"), n)

    @staticmethod
    def iscomp(n):
        return n is not None and n.k == "bin" and n.op in COMPARE

    @staticmethod
    def selects(n):
        """The comparison picks the smaller or larger of its own operands."""
        for p in n.up():
            if p.k == "cond":
                ks = {p.c[1].strip().key, p.c[2].strip().key}
                return bool({n.c[0].strip().key, n.c[1].strip().key} & ks)
            if p.k == "if":
                for x in p.find("bin"):
                    if x.op == "=" and {x.c[1].strip().key, x.c[0].strip().key} >= {n.c[0].strip().key, n.c[1].strip().key}:
                        return True
                return False
            if p.k not in ("cast", "paren", "bin", "un"):
                return False
        return False

    def demands(self):
        """Axis a parameter must have because of how the function itself uses it."""
        for f in self.prog.functions:
            parm = {d: (n, t) for n, d, t in f.params}
            if not parm:
                continue
            got = {}
            for n in f.walk():
                if n.k == "bin" and n.op in ("+", "-", "=", "+=", "-="):
                    for a, b in ((n.c[0], n.c[1]), (n.c[1], n.c[0])):
                        t = self.ty(b)
                        if not t or t[0] not in "XY" or self.ty(a):
                            continue
                        for c in self.linear(a, parm):
                            got.setdefault(c, set()).add(t[0])
                    continue
                if n.k == "call":
                    for i, ax in EXT_ARG.get(n.callee, {}).items():
                        if i < len(n.args):
                            for c in self.linear(n.args[i], parm):
                                got.setdefault(c, set()).add(ax)
            for c, axs in got.items():
                if len(axs) == 1:
                    self.demand[(f,) + c] = next(iter(axs))

    def linear(self, n, parm):
        """Parameters an expression is a multiple of."""
        n = n.strip()
        if n.k == "paren":
            yield from self.linear(n.c[0], parm)
        elif n.k == "ref" and n.a.get("dk") == "parm" and n.a["d"] in parm and parm[n.a["d"]][1].kind in ("int", "uint", "float", "double", "real"):
            yield (n.name, n.a["d"], "")
        elif n.k == "un" and n.op == "*" and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("dk") == "parm":
            s = n.c[0].strip()
            yield (s.name, s.a["d"], "*")
        elif n.k == "bin" and n.op in ("*", "/"):
            yield from self.linear(n.c[0], parm)
            if n.op == "*":
                yield from self.linear(n.c[1], parm)
        elif n.k == "bin" and n.op in ("+", "-") and n.c[1].strip().v is not None:
            yield from self.linear(n.c[0], parm)
