"""Loads the type-checked program of /repo (through tool/extract.cpp) and gives the rules
a uniform syntax tree, CFGs, types, constants and a call graph."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shlex
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CLANG = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
CLANGXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"


class Broken(Exception):
    """The analysis could not be carried out (not a verdict)."""


def build_plugin():
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    so = os.path.join(BUILD, "extract-%s.so" % h)
    if os.path.exists(so):
        return so
    tmp = "%s.%d" % (so, os.getpid())
    inc = subprocess.run(["llvm-config-18", "--includedir"], capture_output=True, text=True)
    incdir = inc.stdout.strip() if inc.returncode == 0 and inc.stdout.strip() else "/usr/lib/llvm-18/include"
    r = subprocess.run([CLANGXX, "-O0", "-fPIC", "-shared", "-fno-rtti", "-std=c++17", "-w",
                        "-I" + incdir, "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
                        "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot build the extractor: " + r.stderr[-2000:])
    os.replace(tmp, so)
    return so


def compdb(repo):
    """Translation units and flags as the makefiles of the current tree compile them."""
    env = dict(os.environ)
    for k in ("MAKEFLAGS", "MFLAGS"):
        env.pop(k, None)
    r = subprocess.run(["make", "-n", "-B", "-o", "check-tools", "prepare", "exe"], cwd=repo,
                       capture_output=True, text=True, env=env)
    units = {}
    for line in r.stdout.replace("\\\n", " ").splitlines():
        if not re.match(r"\s*(gcc|g\+\+|cc|c\+\+|clang|clang\+\+)(-\d+)?\s", line):
            continue
        try:
            a = shlex.split(line)
        except ValueError:
            continue
        for x in a[1:]:
            if re.search(r"\.(c|cc|cpp)$", x) and not x.startswith("-"):
                flags = [y for y in a[1:] if y.startswith(("-I", "-D", "-U", "-std", "-fopenmp"))]
                lang = "c++" if "++" in a[0] or x.endswith((".cpp", ".cc")) else "c"
                units[os.path.normpath(os.path.join(repo, x))] = (lang, flags)
    return units


def extract(repo=REPO, keep=None):
    so = build_plugin()
    units = compdb(repo)
    if len(units) < 60:
        raise Broken("only %d translation units found by make -n" % len(units))
    out = tempfile.mkdtemp(prefix="fv-")
    stubs = os.path.join(VERIF, "tool", "stubs")

    def one(item):
        i, (f, (lang, flags)) = item
        o = os.path.join(out, "%d.json" % i)
        p = []
        for a in ("root=" + os.path.join(repo, "src"), "out=" + o):
            p += ["-Xclang", "-plugin-arg-force-extract", "-Xclang", a]
        cmd = [CLANG, "-fsyntax-only", "-w", "-isystem", stubs, "-x", lang] + flags + \
              ["-Xclang", "-load", "-Xclang", so, "-Xclang", "-plugin", "-Xclang", "force-extract"] + p + [f]
        r = subprocess.run(cmd, capture_output=True, text=True, cwd=repo)
        return f, o, r.returncode, r.stderr

    docs, bad = [], []
    try:
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            for f, o, rc, err in ex.map(one, enumerate(sorted(units.items()))):
                if rc or not os.path.exists(o):
                    bad.append((f, err[-500:]))
                    continue
                with open(o, encoding="utf-8") as fh:
                    docs.append((f, json.load(fh)))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    if bad:
        raise Broken("clang cannot parse: " + "; ".join("%s: %s" % b for b in bad[:3]))
    return docs


class Type:
    __slots__ = ("sp", "canon", "kind", "size", "el", "n", "rec", "const")

    def __init__(self, r):
        self.sp, self.canon, self.kind, self.size, self.el, self.n, self.rec, self.const = r

    @property
    def is_num(self):
        return self.kind in ("int", "uint", "char", "uchar", "float", "bool", "enum")

    @property
    def is_ptr(self):
        return self.kind in ("ptr", "arr", "vla")

    def __repr__(self):
        return self.sp


class Node:
    __slots__ = ("k", "id", "line", "t", "a", "c", "p", "fn", "_key")

    def __getattr__(self, n):   # attributes of the extractor: name, op, d, fn -> .a
        raise AttributeError(n)

    def get(self, n, d=None):
        return self.a.get(n, d)

    @property
    def name(self):
        return self.a.get("name")

    @property
    def op(self):
        return self.a.get("op")

    @property
    def v(self):
        return self.a.get("v")

    @property
    def callee(self):
        return self.a.get("fn")

    @property
    def args(self):
        return self.c[1:]

    def walk(self):
        st = [self]
        while st:
            n = st.pop()
            yield n
            for x in reversed(n.c):
                if x is not None:
                    st.append(x)

    def find(self, *kinds):
        for n in self.walk():
            if n.k in kinds:
                yield n

    def calls(self, *names):
        for n in self.walk():
            if n.k == "call" and (not names or n.a.get("fn") in names):
                yield n

    def up(self):
        n = self.p
        while n is not None:
            yield n
            n = n.p

    def strip(self):
        n = self
        while n.k == "cast":
            n = n.c[0]
        return n

    def where(self):
        return "%s:%d" % (self.fn.rel, self.line) if self.fn else "?:%d" % self.line

    @property
    def key(self):
        """Canonical text of an expression; equal keys mean the same expression."""
        try:
            return self._key
        except AttributeError:
            self._key = k = _key(self)
            return k

    def __repr__(self):
        return "<%s %s @%s>" % (self.k, self.key[:80], self.line)


def _key(n):
    k = n.k
    if k == "cast":
        if n.a.get("imp"):
            return n.c[0].key
        return "(%s)%s" % (n.t.canon if n.t else "?", n.c[0].key)
    if n.a.get("v") is not None and k not in ("ref",):
        return str(n.a["v"])
    if k == "ref":
        if n.a["dk"] == "enum":
            return str(n.a.get("v", n.a["name"]))
        if n.a["dk"] in ("var", "parm", "static"):
            return "%s#%d" % (n.a["name"], n.a["d"])
        return n.a["name"]
    if k == "mem":
        return n.c[0].key + ("->" if n.a.get("arrow") else ".") + n.a["name"]
    if k == "idx":
        return "%s[%s]" % (n.c[0].key, n.c[1].key)
    if k == "bin":
        l, r = n.c[0].key, n.c[1].key
        op = n.a["op"]
        if op in ("+", "*", "==", "!=", "&", "|", "^") and l > r:
            l, r = r, l
        elif op in (">", ">="):
            op = {">": "<", ">=": "<="}[op]
            l, r = r, l
        return "(%s%s%s)" % (l, op, r)
    if k == "un":
        op = n.a["op"]
        if op.startswith("p"):
            return "(%s)%s" % (n.c[0].key, op[1:])
        s = n.c[0].strip()
        if op == "*" and s.k == "un" and s.a["op"] == "&":
            return s.c[0].key
        if op == "&" and s.k == "un" and s.a["op"] == "*":
            return s.c[0].key
        return "%s(%s)" % (op, n.c[0].key)
    if k == "call":
        return "%s(%s)" % (n.a.get("fn") or (n.c[0].key if n.c[0] else "?"), ",".join(x.key if x else "" for x in n.c[1:]))
    if k == "cond":
        return "(%s?%s:%s)" % tuple(x.key for x in n.c)
    if k == "str":
        return json.dumps(n.a.get("s", ""))
    if k == "var":
        return "%s#%d" % (n.a["name"], n.a["d"])
    if k in ("null", "zero"):
        return "0"
    return "%s(%s)" % (k, ",".join(x.key if x is not None else "" for x in n.c))


class Block:
    __slots__ = ("id", "els", "term", "cond", "label", "succ", "pred", "noret")


class CFG:
    def __init__(self, f, raw):
        self.f = f
        self.entry, self.exit = raw["entry"], raw["exit"]
        self.b = {}
        for k, (els, term, cond, label, succ, noret) in raw["b"].items():
            b = Block()
            b.id = int(k)
            b.els = [f.byid[e] for e in els if e in f.byid]
            b.term = f.byid.get(term)
            b.cond = f.byid.get(cond)
            b.label = f.byid.get(label)
            b.succ = succ
            b.pred = []
            b.noret = noret
            self.b[b.id] = b
            if f.prog._never is not None:
                for i, e in enumerate(b.els):
                    if e.k == "call" and f.prog.never(e):
                        b.els, b.term, b.cond, b.succ, b.noret = b.els[:i + 1], None, None, [self.exit], True
                        break
        for b in self.b.values():
            for i, s in enumerate(b.succ):
                if s >= 0:
                    self.b[s].pred.append((b.id, i))
        self.where = {}
        for b in self.b.values():
            for i, e in enumerate(b.els):
                self.where.setdefault(e.id, (b.id, i))

    def reachable(self):
        seen, st = set(), [self.entry]
        while st:
            x = st.pop()
            if x in seen or x < 0:
                continue
            seen.add(x)
            st += self.b[x].succ
        return seen


class Func:
    def __init__(self, prog, tu, raw, files, mk):
        self.prog, self.tu = prog, tu
        self.name = raw["name"]
        self.file = files[raw["file"]]
        self.rel = os.path.relpath(self.file, prog.repo)
        self.line, self.end = raw["line"], raw["end"]
        self.static = raw["static"]
        self.ret = prog._type(tu, raw["ret"])
        self.params = [(n, d, prog._type(tu, t)) for n, d, t in raw["params"]]
        self.byid = {}
        self.body = mk(raw["body"], None, self)
        self._rawcfg = raw["cfg"]
        self._cfg = None

    @property
    def cfg(self):
        if self._cfg is None:
            if self._rawcfg is None:
                raise Broken("no CFG for " + self.name)
            self._cfg = CFG(self, self._rawcfg)
        return self._cfg

    def walk(self):
        return self.body.walk()

    def calls(self, *names):
        return self.body.calls(*names)

    def find(self, *kinds):
        return self.body.find(*kinds)

    def param(self, d):
        for i, (n, pd, t) in enumerate(self.params):
            if pd == d:
                return i
        return None

    def __repr__(self):
        return "<%s %s>" % (self.name, self.rel)


class Program:
    def __init__(self, docs, repo):
        self.repo = repo
        self.types = {}
        self.functions = []
        self.by_name = {}
        self.enum_const = {}
        self.enums = []
        self.records = {}
        self.globals = {}
        self.protos = {}
        self.tus = []
        self._never = None
        seen = set()
        for tu, doc in docs:
            self.tus.append(tu)
            ts = [Type(r) for r in doc["types"]]
            for t in ts:
                t.el = ts[t.el] if t.el >= 0 else None
            self.types[tu] = ts
            files = doc["files"]
            mk = self._maker(ts)
            for e in doc["enums"]:
                kf = (files[e["file"]], e["line"])
                if kf in seen:
                    continue
                seen.add(kf)
                e = dict(e, file=os.path.relpath(files[e["file"]], repo))
                self.enums.append(e)
                for n, v in e["c"]:
                    self.enum_const[n] = v
            for r in doc["records"]:
                if r["name"] not in self.records:
                    self.records[r["name"]] = dict(r, file=os.path.relpath(files[r["file"]], repo),
                                                   f=[(n, ts[t], l) for n, t, l in r["f"]])
            for p in doc["protos"]:
                self.protos.setdefault(p["name"], (ts[p["ret"]], [(n, ts[t]) for n, t in p["params"]], os.path.relpath(files[p["file"]], repo)))
            for g in doc["globals"]:
                if not g["def"]:
                    continue
                n = mk(g["n"], None, None)
                f = os.path.relpath(files[g["file"]], repo)
                if n.name in self.globals and self.globals[n.name]["file"] == f:
                    continue
                self.globals[n.name] = {"file": f, "node": n, "static": g["static"], "tu": tu}
            for fr in doc["functions"]:
                kf = (files[fr["file"]], fr["line"], fr["name"])
                if kf in seen:
                    continue
                seen.add(kf)
                f = Func(self, tu, fr, files, mk)
                self.functions.append(f)
                self.by_name.setdefault(f.name, []).append(f)

    def _type(self, tu, i):
        return self.types[tu][i] if i >= 0 else None

    def _maker(self, ts):
        def mk(raw, parent, fn):
            if raw is None:
                return None
            n = Node()
            n.k, n.id, n.line, t, n.a, kids = raw
            n.t = ts[t] if t >= 0 else None
            n.p, n.fn = parent, fn
            if n.k == "sizeof":
                n.a["of"] = ts[n.a["of"]]
            if fn is not None:
                fn.byid[n.id] = n
            n.c = [mk(x, n, fn) for x in kids]
            return n
        return mk

    def func(self, name, file=None):
        fs = self.by_name.get(name, [])
        if file:
            fs = [f for f in fs if f.rel.endswith(file)]
        return fs[0] if fs else None

    def resolve(self, call):
        """Functions of the program that a call expression may reach."""
        n = call.a.get("fn")
        fs = self.by_name.get(n, []) if n else []
        if len(fs) > 1 and call.fn is not None:
            same = [f for f in fs if f.tu == call.fn.tu]
            stat = [f for f in same if f.static]
            if stat:
                return stat
            same_file = [f for f in fs if f.rel == call.fn.rel]
            if same_file:
                return same_file
        return fs

    def const(self, name):
        return self.enum_const.get(name)

    def never(self, call):
        """Does the called function of the program never return (usage texts that end with exit)?"""
        gs = self.resolve(call)
        return bool(gs) and all(id(g) in self._never for g in gs)

    def _find_never(self):
        never, cand = set(), []
        for f in self.functions:
            if f.name != "main" and f._rawcfg is not None and any(c.a.get("noret") for c in f.calls()):
                cand.append(f)
        self._never = never
        change = True
        while change:
            change = False
            for f in cand:
                if id(f) in never:
                    continue
                g = CFG(f, f._rawcfg)
                seen, st = set(), [g.entry]
                while st:
                    x = st.pop()
                    if x in seen or x < 0:
                        continue
                    seen.add(x)
                    if not g.b[x].noret:
                        st += g.b[x].succ
                if g.exit not in seen:
                    never.add(id(f))
                    change = True


_loaded = None


def load(repo=REPO):
    global _loaded
    if _loaded is None:
        sys.setrecursionlimit(20000)
        cache = os.environ.get("VERIF_AST_CACHE")   # development only
        if cache and os.path.exists(cache):
            import pickle
            docs = pickle.load(open(cache, "rb"))
        else:
            docs = extract(repo)
            if cache:
                import pickle
                pickle.dump(docs, open(cache, "wb"))
        import gc
        gc.disable()
        _loaded = Program(docs, repo)
        _loaded._find_never()
        gc.enable()
    return _loaded
