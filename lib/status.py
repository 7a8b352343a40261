"""Which functions report failure through their result, and how a caller learns about it."""
import re

from facts import Facts, iszero, path
from typestate import Typestate, assigned

# external operations: 'null' fails with NULL, 'err' fails with CE_Failure/non-zero
EXT_NULL = {"fopen", "opendir", "GDALOpen", "GDALOpenEx", "GDALCreate", "GDALCreateCopy", "GDALGetDriverByName",
            "OGRGetDriverByName", "OGR_Dr_CreateDataSource", "OGR_DS_CreateLayer", "GDALDatasetCreateLayer",
            "GDALDatasetGetLayer", "OCTNewCoordinateTransformation", "GDALCreateGenImgProjTransformer",
            "GDALCreateGenImgProjTransformer2", "json_load_file", "popen", "CPLLockFile"}
EXT_ERR = {"GDALRasterIO", "GDALDatasetRasterIO", "GDALReprojectImage", "GDALChunkAndWarpImage", "GDALRasterizeLayers",
           "GDALSuggestedWarpOutput", "OGR_L_CreateFeature", "OGR_L_CreateField", "mkdir", "rename",
           "ChunkAndWarpImage", "ChunkAndWarpMulti", "Initialize", "GDALFillNodata"}


def returns(f):
    """(constant results, number of other results) or None for void functions."""
    vals, other = set(), []
    for r in f.find("return"):
        if not r.c or r.c[0] is None:
            return None
        e = r.c[0].strip()
        if iszero(e):
            vals.add(0)
        elif e.v is not None and not isinstance(e.v, str):
            vals.add(e.v)
        else:
            other.append(e)
    return vals, other


class Status:
    def __init__(self, P):
        self.P = P
        self.int_, self.ptr = {}, {}
        for f in P.functions:
            if f.ret is None or f.name == "main":
                continue
            r = returns(f)
            if r is None:
                continue
            vals, other = r
            if f.ret.kind == "int" and f.ret.sp != "bool" and vals <= {0, 1, 2} and 1 in vals and 0 in vals and \
                    all(self.statusish(f, e) for e in other):
                self.int_[f.name] = f
            elif f.ret.is_ptr and 0 in vals and other:
                self.ptr[f.name] = f
        # functions that hand a status on
        for _ in range(4):
            for f in P.functions:
                if f.ret is None or f.ret.kind != "int" or f.name in self.int_ or f.name == "main":
                    continue
                r = returns(f)
                if r is None or not r[0] <= {0, 1, 2} or not r[1]:
                    continue
                if any(e.k == "call" and e.callee in self.int_ for e in r[1]) and all(self.statusish(f, e) for e in r[1]):
                    self.int_[f.name] = f
        self.noret = set()
        for _ in range(3):
            for f in P.functions:
                if id(f) not in self.noret and self._never(f):
                    self.noret.add(id(f))

    def statusish(self, f, e):
        """A returned expression that is itself a status: a status call, or a local that only ever holds one."""
        if e.k == "call":
            return e.callee in self.int_
        if e.k == "cond":
            return all(x.strip().v in (0, 1, 2) or self.statusish(f, x.strip()) for x in e.c[1:])
        if e.k == "ref" and e.a.get("dk") == "var":
            src = []
            for n in f.walk():
                if n.k == "bin" and n.op == "=" and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == e.a["d"]:
                    src.append(n.c[1].strip())
                elif n.k == "var" and n.a["d"] == e.a["d"] and n.c:
                    src.append(n.c[0].strip())
                elif n.k in ("bin", "un") and n.op in ("+=", "++", "p++", "|=") and n.c[0].strip().k == "ref" and \
                        n.c[0].strip().a.get("d") == e.a["d"]:
                    return False
            return bool(src) and all(s.v in (0, 1, 2) or s.k == "call" and s.callee in self.int_ for s in src)
        return False

    def _never(self, f):
        """Every path through f ends the process."""
        cfg = f.cfg
        seen, st = set(), [cfg.entry]
        while st:
            x = st.pop()
            if x in seen or x < 0:
                continue
            seen.add(x)
            b = cfg.b[x]
            if x == cfg.exit:
                return False
            if b.noret or any(e.k == "call" and any(id(g) in self.noret for g in self.P.resolve(e)) for e in b.els):
                continue
            st += b.succ
        return True

    def never_returns(self, call):
        gs = self.P.resolve(call)
        return bool(gs) and all(id(g) in self.noret for g in gs)
