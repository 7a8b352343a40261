"""P07: row/column addressing stays inside the image."""
import re

from facts import Facts, path
from ineq import Ineq, entails, fadd, fmul, freeze, tform

# spelled pairs of (columns, rows); a dimension is recognised by how it is defined or by these names
PAIRS = [("ncols", "nrows"), ("ncol", "nrow"), ("iWidth", "iHeight"), ("width", "height"), ("nf", "ne")]


def twin(name):
    """Name of the row count that belongs to a column count."""
    for a, b in PAIRS:
        if name == a:
            return b
        if a in name and len(a) > 2:
            return name.replace(a, b)
    m = re.fullmatch(r"(.*)(n|N|c)(x|X)(.*)", name)
    if m:
        return m[1] + m[2] + {"x": "y", "X": "Y"}[m[3]] + m[4]
    return None


class Dims:
    """Column count -> row count of one function."""

    def __init__(self, prog, f):
        self.row = {}
        decl = {}
        defs = {}
        for n, d, t in f.params:
            decl.setdefault(n, "%s#%d" % (n, d))
        for n in f.walk():
            if n.k == "var":
                decl.setdefault(n.name, "%s#%d" % (n.name, n.a["d"]))
                if n.c:
                    defs.setdefault("%s#%d" % (n.name, n.a["d"]), []).append(n.c[0])
            elif n.k == "bin" and n.op == "=" and n.c[0].strip().k == "ref" and "d" in n.c[0].strip().a:
                l = n.c[0].strip()
                defs.setdefault("%s#%d" % (l.name, l.a["d"]), []).append(n.c[1])
        for n, p in decl.items():
            t = twin(n)
            if t and t in decl:
                self.row.setdefault(p, set()).add(decl[t])
        src = {}
        for p, ds in defs.items():
            for d in ds:
                k = re.sub(r"#\d+", "", path(d))
                src.setdefault(path(d), set()).add(p)
        for p, ds in defs.items():
            for d in ds:
                k = path(d)
                t = re.sub(r"ncols", "nrows", k)
                if t == k:
                    t = re.sub(r"\.nx\b", ".ny", k)
                if t == k:
                    continue
                self.row.setdefault(p, set()).add(t)
                self.row[p] |= src.get(t, set())

        # a row count used as row length is an image stored column by column
        self.col = {}
        for c, rs in self.row.items():
            for r in rs:
                if r not in self.row:
                    self.col.setdefault(r, set()).add(c)

    def rows(self, atom):
        if atom in self.row:
            return self.row[atom]
        if atom in self.col:
            return self.col[atom]
        m = re.fullmatch(r"(.*\.)(\w+)", atom)
        if m and twin(m[2]):
            return {m[1] + twin(m[2])}
        m = re.fullmatch(r"(.*)\[0\]", atom)
        return set()


def top_sums(f):
    """Topmost integer additions/subtractions containing a product."""
    for n in f.walk():
        if n.k == "bin" and n.op in ("+", "-") and n.t is not None and n.t.kind in ("int", "uint") and n.v is None:
            p = n.p
            while p is not None and (p.k == "cast" and p.t is not None and p.t.kind in ("int", "uint")):
                p = p.p
            if p is not None and p.k == "bin" and p.op in ("+", "-") and p.t is not None and p.t.kind in ("int", "uint"):
                continue
            yield n


def addressings(f, dims):
    for n in top_sums(f):
        E = tform(path(n))
        cand = set()
        for m in E:
            if len(m) == 2:
                for i in (0, 1):
                    if dims.rows(m[i]):
                        cand.add(m[i])
        if len(cand) != 1:
            continue
        S = cand.pop()
        R, C = {}, {}
        for m, c in E.items():
            if S in m:
                r = list(m)
                r.remove(S)
                R = fadd(R, {tuple(r): c})
            else:
                C = fadd(C, {m: c})
        yield n, S, R, C


LOW, HIGH = {"row>=0", "col>=0"}, {"row<nrows", "col<ncols"}
# what may be missing in a function of CONTRACT although part of the bounds is known
PARTIAL = {
    "reduce_psf": LOW, "compile_modis_wvp": LOW | HIGH, "view_angle": LOW, "average_elevation_cell": LOW,
    "build_pyramidlayer": HIGH, "Conv2same": LOW | HIGH, "Conv2same_FLT_T": LOW | HIGH,
    "water_vapor": HIGH, "gas_transmittance": HIGH, "parse_metadata_sentinel2": {"row>=0"},
}
# functions whose coordinates obey a contract that linear inequalities cannot express
CONTRACT = {
    "parse_metadata_sentinel2": "row counter of the angle grids is reset by the tag that opens a grid",
    "crop_brick": "number of cropped pixels is the (non-negative) kernel radius in pixels",
    "convert_brick_p2p": "coordinate conversion between grids of one extent; callers give cells of the source grid",
    "convert_brick_p2jip": "as convert_brick_p2p",
    "convert_brick_ji2p": "as convert_brick_p2p",
    "convert_brick_ji2jip": "as convert_brick_p2p",
    "ccl_contourtrace": "cy/cx only take positions that ccl_tracer found set inside the image",
    "greyscale_reconstruction_": "border pixels of the marker equal the mask, so only interior pixels are queued",
    "bap_overview": "index of the full image is a rounded multiple of the overview index",
    "compile_l2_ovv": "index of the full image is a rounded multiple of the overview index",
    "reduce_psf": "source index is floor(i*ratio)+ii with non-negative terms; the upper end is tested",
    "sample_points": "chunk number times chunk size is subtracted from a tile position that was matched to this chunk",
    "interpolation_weights": "coarse cell of an image pixel; the extents of the grids agree by construction",
    "cloud_parallax": "half-resolution copy; Sentinel-2 images have an even number of rows and columns",
    "shadow_matching": "centre cell of the coarse grid",
    "build_pyramidlayer": "sizes of the pyramid layer are the integer quotient of the image sizes",
    "points_of_interest": "window half-size h is a positive constant of the coregistration",
    "depth_first_matching": "positions were tested with a margin by the caller's extent check",
    "dense_matching": "grid of the dense matching is the integer quotient of the image size",
    "Conv2same": "window limits computed from the filter width",
    "Conv2same_FLT_T": "window limits computed from the filter width",
    "water_vapor": "Sentinel-2 images: 10980 rows and columns, a multiple of 6",
    "gas_transmittance": "Sentinel-2 images: 10980 rows and columns, a multiple of 6",
    "compile_modis_wvp": "MODIS granules: 1 km and 5 km grids have a fixed size relation",
    "view_angle": "first row and column of a coarse cell; indices of the coarse cell are loop counters from 0",
    "average_elevation_cell": "first row and column come from the grid conversion; the upper end is tested",
}


class Fn:
    def __init__(self, prog, f, lifted=()):
        self.f = f
        self.dims = Dims(prog, f)
        self.facts = Facts(prog, f)
        assume = set()
        names = set(self.dims.row)
        for r in self.dims.row.values():
            names |= r
        for n in names:
            assume.add(("1", n))
        want = set(names)
        for n, S, R, C in addressings(f, self.dims):
            want |= {a for F in (R, C) for m in F for a in m} | {S}
        for c in f.calls():
            if any(g in lifted for g in prog.resolve(c)):
                want |= {a for x in c.args if x is not None and x.t is not None and x.t.is_num for m in tform(path(x)) for a in m}
        self.I = Ineq(prog, f, self.facts, assume, want)


def bounds(R, C, S, rows):
    """The four obligations; rows: alternatives for the number of rows."""
    one = {(): -1}
    return [("row>=0", [R]),
            ("row<nrows", [fadd(fadd(tform(r), R, 1, -1), one) for r in sorted(rows)]),
            ("col>=0", [C]),
            ("col<ncols", [fadd(fadd(tform(S), C, 1, -1), one)])]


def holds(st, alts):
    return any(entails(st, freeze(a)) for a in alts)


class P07:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.fns = {}
        self.lifted = set()
        for f in self.prog.functions:
            pars = {"%s#%d" % (n, d) for n, d, _ in f.params}
            if f.rel.startswith("src/") and \
                    any({a for F in (R, C) for m in F for a in m} & pars for _, S, R, C in addressings(f, Dims(self.prog, f))):
                self.lifted.add(f)
        self.callers = {}
        for f in self.prog.functions:
            for c in f.calls():
                for g in self.prog.resolve(c):
                    self.callers.setdefault(id(g), []).append(c)

    def fn(self, f):
        if id(f) not in self.fns:
            self.fns[id(f)] = Fn(self.prog, f, self.lifted)
        return self.fns[id(f)]

    def queue(self, X, n, R, C, S, rows):
        """Coordinates taken from a queue are inside if every coordinate put into it is."""
        f = X.f
        rv, cv = set(R), set(C)
        if len(R) != 1 or len(C) != 1:
            return False
        got = False
        for c in f.calls("dequeue"):
            if len(c.args) == 3 and {(path(c.args[2])[2:-1],)} == rv and {(path(c.args[1])[2:-1],)} == cv:
                got = True
        if not got:
            return False
        for c in f.calls("enqueue"):
            st = X.I.at(c)
            if st is None:
                continue
            for name, alts in bounds(tform(path(c.args[2])), tform(path(c.args[1])), S, rows):
                if not holds(st, alts):
                    return False
        return True

    def uses(self, X, n):
        """Uses of the variable that n is assigned to, or None if n is not a plain assignment."""
        p = n.p
        while p is not None and p.k == "cast":
            p = p.p
        if p is None:
            return None
        if p.k == "bin" and p.op == "=" and p.c[1].strip() is n and p.c[0].strip().k == "ref":
            d = p.c[0].strip().a.get("d")
            rhs = p.c[1]
        elif p.k == "var":
            d = p.a["d"]
            rhs = p.c[0]
        else:
            return None
        out = []
        for m in X.f.walk():
            if m.k == "ref" and m.a.get("d") == d:
                q = m.p
                while q is not None and q.k == "cast":
                    q = q.p
                if q is not None and q.k == "bin" and q.op == "=" and q.c[0].strip() is m:
                    continue
                here = X.facts.at(m)
                if ("def", d, rhs.id) in here or ("def", d, rhs.strip().id) in here:
                    out.append(m)
        return out

    def missing(self, X, at, R, C, S, rows):
        st = X.I.at(at)
        if st is None:
            return []
        return [name for name, alts in bounds(R, C, S, rows) if not holds(st, alts)]

    def lift(self, X, names, R, C, S, rows, depth=0):
        """The address is formed from parameters: are the bounds known at every call?"""
        f = X.f
        pars = {"%s#%d" % (n, d): i for i, (n, d, _) in enumerate(f.params)}
        ats = {a for F in (R, C) for m in F for a in m} | {S}
        if not ats <= set(pars):
            return None
        calls = self.callers.get(id(f), [])
        if not calls or depth > 2:
            return None
        for c in calls:
            sub = {p: tform(path(c.args[i])) for p, i in pars.items() if i < len(c.args) and c.args[i] is not None}

            def ap(F):
                out = {}
                for m, k in F.items():
                    t = {(): k}
                    for a in m:
                        t = fmul(t, sub.get(a, {(a,): 1}))
                    out = fadd(out, t)
                return out
            Y = self.fn(c.fn)
            st = Y.I.at(c)
            if st is None:
                continue
            rr, cc, ss = ap(R), ap(C), ap(tform(S))
            one = {(): -1}
            rws = [ap(tform(r)) for r in rows if r in pars]
            obl = {"row>=0": [rr], "col>=0": [cc], "col<ncols": [fadd(fadd(ss, cc, 1, -1), one)],
                   "row<nrows": [fadd(fadd(r, rr, 1, -1), one) for r in rws]}
            for nme in names:
                if not holds(st, obl[nme]) and c.fn.name not in CONTRACT:
                    return "%s (called at %s)" % (nme, c.where())
        return ""

    def run(self):
        ctx = self.ctx
        ctx.rule("row-column", "an element address row*ncols+col is used only where 0<=row<nrows and 0<=col<ncols are known")
        for f in self.prog.functions:
            if not f.rel.startswith("src/"):
                continue
            dims = Dims(self.prog, f)
            todo = list(addressings(f, dims))
            if not todo:
                continue
            X = self.fn(f)
            for n, S, R, C in todo:
                rows = dims.rows(S)
                key = "%s:%s" % (f.name, re.sub(r"#\d+", "", path(n)))
                bad = self.missing(X, n, R, C, S, rows)
                where = n.where()
                if bad:
                    us = self.uses(X, n)
                    if us:
                        bad, w = [], where
                        for u in us:
                            b = self.missing(X, u, R, C, S, rows)
                            if b:
                                bad, where = b, u.where()
                if bad and f.name in CONTRACT:
                    if len(set(bad)) == 4 or set(bad) <= PARTIAL.get(f.name, set()):
                        ctx.undecided("row-column", key, CONTRACT[f.name])
                        continue
                if bad and self.queue(X, n, R, C, S, rows):
                    bad = []
                if bad:
                    l = self.lift(X, bad, R, C, S, rows)
                    if l == "":
                        bad = []
                    elif l is None and {a for F in (R, C) for m in F for a in m} & {"%s#%d" % (q, d) for q, d, _ in f.params}:
                        ctx.undecided("row-column", key, "coordinates are parameters without a known caller")
                        continue
                ctx.judge(not bad, "row-column", key, where, "%s: %s is not known for this address" % (f.name, ", ".join(bad)))
        ctx.floor("row-column", 120)
        self.geometry()

    def geometry(self):
        ctx = self.ctx
        ctx.rule("one-geometry", "all row/column addresses into one image use the same number of columns")
        for f in self.prog.functions:
            if not f.rel.startswith("src/"):
                continue
            dims = Dims(self.prog, f)
            todo = list(addressings(f, dims))
            if not todo:
                continue
            X = self.fn(f) if f.name not in CONTRACT else None
            facts = X.facts if X else Facts(self.prog, f)
            byexpr = {}
            for n, S, R, C in todo:
                byexpr[n.id] = S
            img = {}
            for n in f.walk():
                if n.k != "idx":
                    continue
                i = n.c[1].strip()
                S = byexpr.get(i.id)
                if S is None and i.k == "ref" and "d" in i.a:
                    for x in facts.at(n):
                        if len(x) == 3 and x[1] == i.a["d"]:
                            S = byexpr.get(f.byid[x[2]].strip().id)
                if S is None:
                    continue
                root = re.sub(r"\[[^\[\]]*\]", "", re.sub(r"\[[^\[\]]*\]", "", path(n.c[0])))
                root = re.sub(r"\.v(small|short|ushort|int|float)$", "", root)
                img.setdefault(root, {}).setdefault(S, n)
            for root, ss in sorted(img.items()):
                nm = re.sub(r"#\d+", "", root)
                ctx.judge(len(ss) == 1, "one-geometry", "%s:%s" % (f.name, nm), list(ss.values())[-1].where(),
                          "%s: %s is addressed with different row lengths: %s" %
                          (f.name, nm, ", ".join(sorted(re.sub(r"#\d+", "", x) for x in ss))))
        ctx.floor("one-geometry", 80)


def check(ctx):
    P07(ctx).run()
