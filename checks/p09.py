"""P09: a failed step is never reported as success."""
import re

from effects import ASSIGN
from facts import Facts, iszero, path
from status import EXT_ERR, EXT_NULL, Status
from typestate import Typestate, assigned

ASSUMPTIONS = ["an integer function that only returns 0 (SUCCESS), 1 (FAILURE) or 2 (CANCEL), or the status of another such function, reports its outcome",
               "a pointer function that returns NULL on some path reports failure that way"]

# results that answer a question rather than report a failure
BADNEWS = re.compile(r"fail|error|unable|could ?n|cannot|can't|can not|invalid|missing|unknown|overflow|mismatch|does ?n.t|does not|"
                     r"exceed|incomplete|expected|too |must|wrong|not (exist|found|given|possible|support|valid|enough|match)|no valid|abort|out of", re.I)

QUERY = {
    "dequeue": "an empty queue ends the loop",
    "tile_allowlisted": "membership test",
    "findfile": "search with fall-backs", "findfile_pattern": "search with fall-backs", "findfile_ends": "search with fall-backs",
    "findfile_starts": "search with fall-backs",
    "failure_terra": "tells whether the date lies in a known data outage",
    "failure_aqua": "tells whether the date lies in a known data outage",
    "resampling": "tells whether the patch lies inside the image (reported in the similarity)",
    "INVSQR1": "tells whether a matrix can be inverted; the fit keeps its last coefficients",
    "GDALGetDriverByName": "also used to find optional drivers",
}


# outcomes that need not be looked at, because the operation cannot fail there or its failure shows otherwise
UNFAILING = {
    ("", "allocate_brick_bands"): "fails only for an unknown data type; all callers pass one of the enumerated types",
    ("", "distance_kernel"): "fails only for an even width; the width is 2*r+1",
    ("", "average_elevation_cell"): "fails only if the elevation image has another type than it is created with",
    ("tsa_interpolation", "interpolate_harmonic"): "fails only with less than three coefficients; the uni-modal model has three",
    ("time_series_analysis", "tsa_polar"): "only hands on a function that always succeeds",
    ("read_chunk", "reduce_psf"): "fails only for an even kernel; the width is made odd",
    ("level3", "water_score"): "without NIR and SWIR2 the parametric score stays in force",
    ("", "Initialize"): "a warp operation that was not initialised fails in the chunk warp that follows",
    ("cite_push", "fopen"): "the list of references is no step of the processing; its absence is announced",
    ("compile_modis_wvp", "fopen"): "granules that cannot be had are left out of the average",
    ("parse_metadata_sentinel2", "exit"): "an image without a cell in the area of interest is skipped: nothing failed",
    ("parse_metadata_sentinel2", "char_to_int"): "tokens that are no number are skipped",
    ("parse_metadata_sentinel2", "char_to_float"): "tokens that are no number are skipped",
}


def unfailing(P, f, callee, depth=0):
    if ("", callee) in UNFAILING or (f.name, callee) in UNFAILING:
        return True
    if not any(c == callee for _, c in UNFAILING) or depth > 1:
        return False
    by = {g for g in P.functions if g is not f for c in g.calls(f.name)}
    return bool(by) and all(unfailing(P, g, callee, depth + 1) for g in by)


def is_query(name):
    return name in QUERY or re.match(r"get_domain_|find_domain", name) is not None


DONE = frozenset([("done",)])


class Outcome(Typestate):
    """One operation at a time.  tokens: ('fail',) the operation is known to have failed;
    ('flag', variable) its failure is recorded in a local variable"""

    def __init__(self, prog, f, st, callee, flags, facts, kind, counter=None):
        super().__init__(prog, f, facts)
        self.st, self.callee, self.flags, self.kind = st, callee, flags, kind
        self.msgs = {}
        self.counter = counter
        self.by_int = callee in st.int_ or callee in EXT_ERR
        self.vars = {path(v) for c in f.calls() if c.callee == callee for v in [assigned(c)]
                     if v is not None and v.k in ("ref", "mem")}
        self.pat = re.compile(r"(?:\((-?\d)==)?%s\(" % re.escape(callee)) if counter is None else re.compile("$^")

    def failing(self, lits):
        for k, v in lits:
            m = self.pat.match(k)
            if not m:
                continue
            if m[1] is not None:
                if v and self.by_int and (m[1] == "1" or self.callee in EXT_ERR and m[1] != "0"):
                    return True
            elif v == self.by_int:
                return True
        return False

    def edge(self, T, lits):
        for t in T:
            if t[0] == "maybe" and any(k == t[1] or k == "(0<%s)" % t[1] or k.endswith("==%s)" % t[1]) for k, v in lits):
                return frozenset()          # looked at
            if t[0] == "flag":
                for k, v in lits:
                    if not v and (k == t[1] or k == "(0<%s)" % t[1]) or v and k == "(0==%s)" % t[1]:
                        return None         # the recorded failure cannot read as zero
        if not T and self.failing(lits):
            return frozenset([("fail",)])
        return T

    def elem(self, T, e, S):
        if e.k == "call":
            if e.callee == self.callee and (("fail",) in T or DONE == T):
                return frozenset()          # the next attempt is judged on its own
            return T
        if not T and self.counter is None or T == DONE:
            return T
        tgt = rhs = None
        if e.k == "bin" and e.op in ASSIGN:
            tgt, rhs = e.c[0].strip(), e.c[1].strip()
        elif e.k == "un" and e.op in ("++", "p++"):
            tgt = e.c[0].strip()
        if tgt is None:
            return T
        if self.counter is not None and not T:
            if tgt.k == "ref" and tgt.a.get("d") == self.counter and (
                    e.k == "un" or e.op in ("+=", "|=") and not iszero(rhs) and rhs.v is not None or
                    e.op == "=" and rhs.v is not None and not isinstance(rhs.v, str) and rhs.v != 0):
                return frozenset([("flag", path(tgt))])
            if tgt.k == "ref" and tgt.a.get("d") == self.counter and rhs is not None and rhs.v is None:
                return frozenset([("maybe", path(tgt))])
            return T
        t = next(iter(T))
        local = tgt.k == "ref" and tgt.a.get("dk") == "var"
        if t[0] == "maybe":
            # overwritten unseen
            return frozenset([("fail",)]) if path(tgt) == t[1] and e.op == "=" and \
                not any(m.k == "ref" and path(m) == t[1] for m in rhs.walk()) else T
        if t[0] == "flag":
            if rhs is not None and any(m.k == "ref" and path(m) == t[1] for m in rhs.walk()):
                if not local:
                    return DONE             # handed on through memory
                if tgt.a["d"] in self.flags:
                    return frozenset([("flag", path(tgt))])
            elif not local and (e.k == "un" or rhs.v not in (None, 0)) and \
                    tgt.t is not None and tgt.t.kind in ("int", "bool", "enum"):
                return DONE                 # recorded where the caller sees it
            elif local and path(tgt) == t[1] and e.op == "=" and iszero(rhs):
                return frozenset([("fail",)])
            return T
        if path(tgt) in self.vars and rhs is not None and rhs.k == "call":
            return frozenset()              # another way is tried
        if e.k == "un" or e.op in ("+=", "|=", "=") and rhs.v is not None and not isinstance(rhs.v, str) and rhs.v != 0:
            if local and tgt.a["d"] in self.flags:
                return frozenset([("flag", path(tgt))])
            if local and self.kind == "void" and e.p.k != "for" and tgt.t is not None and tgt.t.kind in ("int", "bool", "enum"):
                return DONE                 # recorded in a variable that is not only a flag
            if not local and tgt.t is not None and tgt.t.kind in ("int", "bool", "enum"):
                return DONE                 # recorded where the caller sees it
        if self.kind == "void" and tgt.k == "un" and tgt.op == "*" and e.k == "bin" and e.op == "=" and (rhs.v is not None or iszero(rhs)):
            return DONE                     # said where the caller sees it
        return T

    def flow(self, b, states):
        if any(e.k == "call" and self.st.never_returns(e) for e in b.els):
            return []
        return super().flow(b, states)

    def leave(self, T, node, S):
        if not T or not self.report or next(iter(T))[0] in ("maybe", "done"):
            return
        for e in self.block_of(node).els:
            if e.k == "call" and (self.st.never_returns(e) or e.callee in ("exit", "_exit")):
                a = [x.strip().v for x in e.args if x is not None and x.t is not None and x.t.kind in ("int", "enum")]
                if a and a[-1] == 0:
                    self.msgs[e.id] = (e, "the process ends with status 0")
                return
        if node.k == "return" and node.c and node.c[0] is not None:
            r = node.c[0].strip()
            if self.kind == "int":
                if iszero(r):
                    self.msgs[node.id] = (node, "success is returned")
            elif self.kind == "ptr":
                if not iszero(r) and not (r.k == "ref" and (path(r), False) in S):
                    self.msgs[node.id] = (node, "a result is returned as if all had gone well")
        elif self.kind == "void" and next(iter(T))[0] in ("flag", "fail"):
            self.msgs[node.id] = (node, "the function returns without handing the failure on")

    def block_of(self, n):
        return self.cfg.b[self.F.locate(n)[0]]


def flag_vars(f):
    """Local integers that only record whether something happened: set to constants or counted up, otherwise only
    tested, printed, returned or handed on."""
    bad, ok = set(), set()
    for n in f.find("ref"):
        if n.a.get("dk") != "var" or n.t is None or n.t.kind not in ("int", "bool", "enum"):
            continue
        d = n.a["d"]
        c, u = n, n.p
        while u is not None and u.k == "cast":
            c, u = u, u.p
        good = False
        if u is None:
            pass
        elif u.k == "un" and u.op in ("++", "p++"):
            good = True
        elif u.k == "un" and u.op == "!":
            good = True
        elif u.k == "bin" and u.op in ASSIGN and u.c[0] is c:
            good = True
        elif u.k == "bin" and u.op in ASSIGN:
            good = True
        elif u.k == "bin" and u.op in ("==", "!=", "<", ">", "<=", ">="):
            o = (u.c[1] if u.c[0] is c else u.c[0]).strip()
            good = o.v is not None
        elif u.k == "bin" and u.op in ("&&", "||"):
            good = True
        elif u.k in ("if", "while", "cond", "return", "switch"):
            good = True
        elif u.k == "call" and u.callee in ("printf", "fprintf"):
            good = True
        elif u.k.startswith("omp"):
            good = True
        (ok if good else bad).add(d)
    return ok - bad


def live_after(f, node, d):
    """May variable d be read after node before it is overwritten?"""
    cfg = f.cfg
    w = cfg.where.get(node.id)
    if w is None:
        return True

    def scan(b, i):
        """'read' | 'kill' | None"""
        for e in cfg.b[b].els[i:]:
            if e.k == "ref" and e.a.get("d") == d and not is_target(e):
                return "read"
            if e.k == "bin" and e.op == "=" and e.c[0].strip().k == "ref" and e.c[0].strip().a.get("d") == d:
                return "kill"
        return None

    def is_target(e):
        p, n = e.p, e
        while p is not None and p.k == "cast":
            n, p = p, p.p
        return p is not None and p.k == "bin" and p.op == "=" and p.c[0] is n
    seen, st = set(), [(w[0], w[1] + 1)]
    while st:
        b, i = st.pop()
        r = scan(b, i)
        if r == "read":
            return True
        if r == "kill":
            continue
        for s in cfg.b[b].succ:
            if s >= 0 and s not in seen:
                seen.add(s)
                st.append((s, 0))
    return False


def check(ctx):
    P = ctx.prog
    ctx.rule("consumed", "the outcome of an operation that can fail is looked at (not discarded, not overwritten unseen)")
    ctx.rule("not-success", "once an operation is known to have failed, the function does not report success on that path")
    ctx.rule("counted", "a failure recorded in an error variable is reported on every path out of the function")
    ctx.rule("announced", "a branch that ends with an error message does not report success")
    ctx.rule("passed-over", "a branch that only announces an error does not go on to report success")
    ctx.rule("channel", "a function that counts failures in a structure counts every failure it announces")
    ctx.rule("terminal", "a function that has no way to hand a failure on ends the program at every failure it announces")
    ctx.rule("kept", "failures that are counted in a structure over several rounds are summed up, not overwritten")
    ctx.rule("collected", "failures counted by threads are collected, not counted in private")
    ctx.rule("verdict", "every kind of failure that is counted makes the program end with a failure")
    ctx.rule("totals", "a number filled by address in every round of a loop and read only after it is summed up, not overwritten")
    totals(ctx, P)
    st = Status(P)
    can_fail = set(st.int_) | set(st.ptr) | EXT_NULL | EXT_ERR
    for f in P.functions:
        for c in f.calls():
            if c.callee not in can_fail or is_query(c.callee):
                continue
            if unfailing(P, f, c.callee):
                continue
            p, n = c.p, c
            while p is not None and p.k == "cast":
                n, p = p, p.p
            used = True
            if p is not None and p.k in ("block", "for", "while", "do", "if", "case", "default", "label", "omp", "switch"):
                used = p.k in ("if", "while", "do", "for", "switch") and is_cond(p, n)
            elif p is not None and p.k == "bin" and p.op == "," and (p.c[0] is n or p.p is not None and p.p.k in ("block", "for")):
                used = False
            elif p is not None and p.k in ("bin", "var"):
                v = assigned(c)
                if v is not None and (v.k == "var" or v.k == "ref" and v.a.get("dk") == "var"):
                    node = p
                    if v.k == "var":
                        node = p.p if p.p is not None and p.p.k == "decl" else p
                    top = node.p
                    while top is not None and top.k == "cast":
                        top = top.p
                    if top is not None and top.k in ("block", "for", "if", "decl", "case") and v.t is not None and not v.t.is_ptr:
                        used = live_after(f, node, v.a["d"])
            ctx.judge(used, "consumed", "%s:%s" % (f.name, c.callee), c.where(),
                      "the outcome of %s is ignored: its failure goes unnoticed" % c.callee)
    verdict(ctx, P)
    for f in P.functions:
        announced(ctx, st, f)
        passed_over(ctx, st, f)
        terminal(ctx, st, f)
        channel(ctx, st, f)
        kept(ctx, P, f)
        todo = sorted({c.callee for c in f.calls() if c.callee in can_fail and not is_query(c.callee)})
        kind = "int" if f.name in st.int_ or f.name == "main" else "ptr" if f.name in st.ptr else \
            "void" if f.ret is not None and f.ret.kind == "void" else None
        if kind is None:
            continue
        flags = flag_vars(f)
        counters = [n for n in f.find("var") if n.a.get("d") in flags and re.match(r"err|fail", n.name)]
        if not todo and not counters:
            continue
        F = Facts(P, f)
        for v in counters:
            A = Outcome(P, f, st, "", flags, F, kind, v.a["d"]).run()
            if A.gave_up:
                ctx.undecided("counted", "%s:%s" % (f.name, v.name), "too many paths")
                continue
            ctx.ok("counted", "%s:%d %s: %s" % (f.rel, f.line, f.name, v.name))
            for node, what in A.msgs.values():
                ctx.violate("counted", "%s:%s" % (f.name, v.name), node.where(), "after a failure was recorded in %s, %s" % (v.name, what))
        for callee in todo:
            A = Outcome(P, f, st, callee, flags, F, kind).run()
            if A.gave_up:
                ctx.undecided("not-success", "%s:%s" % (f.name, callee), "too many paths")
                continue
            ctx.ok("not-success", "%s:%d %s: %s" % (f.rel, f.line, f.name, callee))
            for node, what in A.msgs.values():
                if kind == "void" and unfailing(P, f, callee):
                    continue
                ctx.violate("not-success", "%s:%s" % (f.name, callee), node.where(), "after %s failed, %s" % (callee, what))
    ctx.floor("counted", 15)
    ctx.floor("announced", 300)
    ctx.floor("consumed", 200)
    ctx.floor("not-success", 150)


def is_cond(p, n):
    if p.k in ("if", "while", "switch"):
        return p.c[0] is n
    if p.k == "do":
        return p.c[-1] is n
    if p.k == "for":
        return len(p.c) > 1 and p.c[1] is n
    return False


def maybe_null(b, v):
    """Could the returned variable be NULL here (tested or set so nearby)?"""
    if v.k != "ref":
        return False
    for u in [b] + list(b.up())[:2]:
        for n in u.walk():
            if n.k == "bin" and n.op in ("=", "==", "!=") and any(path(n.c[i].strip()) == path(v) and iszero(n.c[1 - i]) for i in (0, 1)) \
                    or n.k == "un" and n.op == "!" and path(n.c[0].strip()) == path(v):
                return True
        if u.k != "block":
            break
    return False


def announced(ctx, st, f):
    for b in f.find("block"):
        for i, r in enumerate(b.c):
            if r.k == "return" and (f.name in st.int_ or f.name in st.ptr or f.name == "main"):
                v = r.c[0].strip() if r.c and r.c[0] is not None else None
                if v is None:
                    continue
                bad = iszero(v) if f.name not in st.ptr else not iszero(v) and not maybe_null(b, v)
            elif r.k == "call" and (r.callee in ("exit", "_exit") or st.never_returns(r)) and r.args:
                v = r.args[-1].strip()
                bad = v.t is not None and v.t.kind in ("int", "enum") and iszero(v)
            else:
                continue
            j = i - 1
            while j >= 0 and b.c[j].k == "call" and b.c[j].callee not in ("printf", "fprintf", "fputs", "puts", "perror"):
                j -= 1
            if j < 0:
                continue
            m = b.c[j]
            if m.k == "if":          # one of two messages
                m = m.c[1].c[-1] if m.c[1] is not None and m.c[1].k == "block" and m.c[1].c else m.c[1]
            if m is None or m.k != "call" or m.callee not in ("printf", "fprintf", "fputs", "puts", "perror"):
                continue
            text = " ".join(str(x.a.get("s", "")) for x in m.walk() if x.k == "str")
            err = m.callee in ("fprintf", "fputs") and any(x.k == "ref" and x.name == "stderr" for x in m.walk())
            if not err and not BADNEWS.search(text):
                continue
            if (f.name, "exit") in UNFAILING and r.k == "call" and bad:
                continue
            ctx.judge(not bad, "announced", "%s:%s" % (f.name, re.sub(r"\W+", "-", text)[:40]), r.where(),
                      "'%s' is printed, yet success is reported" % text.strip()[:60])


TOLD = {
    "set_brick_datatype": "data types are enumerated",
    "read_higher_level": "input levels are enumerated",
    "curl_close_download": "a damaged download is noticed when it is opened",
    "handle_no_io": "whether this is a failure is the user's choice, which is tested again below",
    "compile_modis_wvp": "granules that cannot be had are left out of the average",
}
MESSAGE = ("printf", "fprintf", "fputs", "puts", "perror")


def message(c):
    """Text of an error message, or None."""
    if c.k != "call" or c.callee not in MESSAGE:
        return None
    err = any(x.k == "ref" and x.name == "stderr" for x in c.walk())
    if c.callee in ("fprintf", "fputs") and not err:
        return None
    text = " ".join(str(x.a.get("s", "")) for x in c.walk() if x.k == "str")
    return text.strip() if BADNEWS.search(text) and not re.search("warning", text, re.I) else None


def passed_over(ctx, st, f):
    """Branches that print an error message and do nothing else."""
    kind = "int" if f.name in st.int_ or f.name == "main" else "ptr" if f.name in st.ptr else None
    if kind is None:
        return
    for b in f.find("block", "call"):
        u = b.p
        if u is None or u.k != "if" or u.c[0] is b:
            continue
        body = b.c if b.k == "block" else [b]
        text = next((t for t in map(message, body) if t), None)
        if not text or f.name in TOLD:
            continue
        if any(n.k in ("return", "goto") or n.k == "call" and (n.callee not in MESSAGE and not (n.callee or "").startswith("free") or st.never_returns(n)) or
               n.k == "bin" and n.op in ASSIGN or n.k == "un" and n.op in ("++", "--", "p++", "p--") for n in b.walk()):
            continue
        cond = {path(n) for n in u.c[0].walk() if n.k == "ref" and n.p.k not in ("idx", "mem")}
        ends = success_after(f, st, body[-1] if body[-1].k == "call" else next(c for c in reversed(body) if c.k == "call"), kind, cond)
        ctx.judge(not ends, "passed-over", "%s:%s" % (f.name, re.sub(r"\W+", "-", text)[:40]), b.c[0].where() if b.k == "block" else b.where(),
                  "'%s' is announced, yet the function goes on as if nothing had happened" % text[:60])


def channel(ctx, st, f):
    """A void function that counts failures in a structure counts every failure it announces."""
    if f.ret is None or f.ret.kind != "void":
        return
    def counts(n):
        if n.k == "un" and n.op in ("++", "p++") or n.k == "bin" and n.op in ASSIGN:
            return any(x.k in ("mem", "ref") and re.match(r"err|fail", x.name or "") for x in n.c[0].walk())
        return False
    if not any(counts(n) and n.c[0].strip().k != "ref" for n in f.walk()):
        return
    for c in f.calls(*MESSAGE):
        text = message(c)
        if not text or re.match("unknown", text):
            continue
        blk = next((u for u in c.up() if u.k == "block"), None)
        if blk is not None and any(counts(n) for n in blk.walk()):
            ctx.ok("channel", "%s %s" % (c.where(), text[:40]))
            continue
        w = f.cfg.where.get(c.id)
        if w is None:
            continue
        seen, todo, lost = set(), [(w[0], w[1] + 1)], False
        while todo and not lost:
            b, i = todo.pop()
            B = f.cfg.b[b]
            if any(counts(e) or e.k == "call" and st.never_returns(e) for e in B.els[i:]) or B.noret:
                continue
            lost = b == f.cfg.exit
            for x in B.succ:
                if x >= 0 and x not in seen:
                    seen.add(x)
                    todo.append((x, 0))
        ctx.judge(not lost, "channel", "%s:%s" % (f.name, re.sub(r"\W+", "-", text)[:40]), c.where(),
                  "'%s' is announced, but not counted as the other failures are" % text[:60])


def terminal(ctx, st, f):
    """A function that can hand no failure on ends the program at every failure it announces."""
    if f.name in st.int_ or f.name in st.ptr or f.name == "main" or f.name in TOLD or \
            f.ret is None or f.ret.kind in ("int", "uint", "bool", "enum") or f.ret.is_ptr:
        return
    ends = any(c.callee in ("exit", "_exit") and c.args and not iszero(c.args[0].strip()) for c in f.calls())
    if not ends:
        return
    for c in f.calls(*MESSAGE):
        text = message(c)
        w = f.cfg.where.get(c.id)
        if not text or re.match("unknown", text) or w is None:
            continue
        seen, todo, lost = set(), [(w[0], w[1] + 1)], False
        while todo and not lost:
            b, i = todo.pop()
            B = f.cfg.b[b]
            if B.noret or any(e.k == "call" and st.never_returns(e) or noted(f, e) for e in B.els[i:]):
                continue
            lost = b == f.cfg.exit
            for x in B.succ:
                if x >= 0 and x not in seen:
                    seen.add(x)
                    todo.append((x, 0))
        ctx.judge(not lost, "terminal", "%s:%s" % (f.name, re.sub(r"\W+", "-", text)[:40]), c.where(),
                  "'%s' is announced, but unlike after its other failures %s goes on" % (text[:60], f.name))


def noted(f, e):
    """The failure is recorded (counter, flag, or by way of a parameter)."""
    if e.k == "un" and e.op in ("++", "p++") or e.k == "bin" and e.op in ASSIGN:
        return any(x.k in ("mem", "ref") and re.search(r"err|fail|stat|valid|ok|ret|code", x.name or "") for x in e.c[0].walk()) or \
            e.c[0].strip().k == "un"
    return False


def success_after(f, st, node, kind, cond):
    """Can the function report success after node without recording anything?"""
    cfg = f.cfg
    w = cfg.where.get(node.id)
    if w is None:
        return False
    seen, todo = set(), [(w[0], w[1] + 1)]
    while todo:
        b, i = todo.pop()
        blk, stop = cfg.b[b], False
        for e in blk.els[i:]:
            if e.k == "call" and (st.never_returns(e) or e.callee in ("exit", "_exit", "abort")):
                stop = True
                break
            if e.k == "bin" and e.op in ASSIGN or e.k == "un" and e.op in ("++", "p++"):
                t = e.c[0].strip()
                if e.k == "bin" and e.op == "=" and t.t is not None and t.t.kind in ("int", "bool", "enum") and e.c[1].strip().v not in (None, 0) \
                        and not any(x.k in ("for", "while", "do") for x in e.up()):
                    stop = True         # recorded further down
                    break
            if e.k == "return":
                r = e.c[0].strip() if e.c and e.c[0] is not None else None
                if kind == "int" and r is not None and iszero(r):
                    return True
                if kind == "ptr" and r is not None and not iszero(r) and r.k == "ref" and path(r) not in cond:
                    return True
                stop = True
                break
        if stop or blk.noret:
            continue
        for s in blk.succ:
            if s >= 0 and s not in seen:
                seen.add(s)
                todo.append((s, 0))
    return False


def error_counters(f):
    flags = flag_vars(f)
    return {n.a["d"]: n.name for n in f.find("var") if n.a.get("d") in flags and re.match(r"err|fail", n.name)}


def kept(ctx, P, f):
    """Failures handed on through a structure; failures counted in private."""
    counters = error_counters(f)
    for n in f.find("bin"):
        if n.op not in ("=", "+="):
            continue
        t, r = n.c[0].strip(), n.c[1].strip()
        if not (r.k == "ref" and r.a.get("d") in counters or r.v not in (None, 0) and any(x.k == "mem" and re.match(r"err|fail", x.name) for x in t.walk())) or t.k not in ("mem", "idx") or not any(x.k == "mem" for x in t.walk()):
            continue
        repeated = any(any(u.k in ("for", "while", "do") for u in c.up()) for g in P.functions for c in g.calls(f.name))
        if repeated:
            ctx.judge(n.op == "+=", "kept", "%s:%s" % (f.name, re.sub(r"#\d+", "", path(t))), n.where(),
                      "%s overwrites the failures of the rounds before" % f.name)
    for o in f.find("omp"):
        priv = {d for c in o.a.get("cl", []) if c["k"] in ("private", "firstprivate") for _, d in c["vars"]}
        for d in counters:
            inside = {m.id for m in o.walk()}
            steps = [m for m in o.walk() if (m.k == "un" and m.op in ("++", "p++") or m.k == "bin" and m.op in ASSIGN) and m.c[0].strip().k == "ref" and m.c[0].strip().a.get("d") == d]
            after = [m for m in f.find("ref") if m.a.get("d") == d and m.id not in inside and m.line > o.line]
            if steps and after:
                ctx.judge(d not in priv, "collected", "%s:%s" % (f.name, counters[d]), steps[0].where(),
                          "%s is private to each thread: what it counts is lost after the parallel region" % counters[d])


def verdict(ctx, P):
    """Kinds of failures that are counted in a structure all decide about how the program ends."""
    kinds = {}
    for f in P.functions:
        counters = error_counters(f)
        for n in f.find("bin", "un"):
            if n.op not in ("=", "+=", "++", "p++"):
                continue
            t, r = n.c[0].strip(), n.c[-1].strip()
            if t.k == "idx" and t.c[0].strip().k == "mem" and t.c[1].strip().v is not None and (
                    r.k == "ref" and r.a.get("d") in counters or re.match(r"err|fail", t.c[0].strip().name) and (n.k == "un" or r.v not in (None, 0))):
                kinds.setdefault(t.c[0].strip().name, {}).setdefault(t.c[1].strip().v, n)
    for name, ks in kinds.items():
        for f in P.by_name.get("main", []):
            tested, good = {}, set()
            for u in f.find("if"):
                got = mentioned(P, f, u.c[0], name)
                if not got:
                    continue
                ok = any(fails(f, b) for b in u.c[1:] if b is not None)
                for k in got:
                    tested.setdefault(k, u)
                if ok:
                    good |= got
            if not tested:
                continue
            for k, n in sorted(ks.items()):
                key = "%s:%s[%s]" % (f.rel.split("/")[-1], name, k)
                if "*" in good or "*" in tested and k not in tested:
                    ctx.ok("verdict", "%s %s" % (f.rel, key))
                    continue
                ctx.judge(k in good, "verdict", key, next(iter(tested.values())).where(),
                          "failures counted in %s[%s] (%s) do not always make the program end with a failure" % (name, k, n.where()))


def mentioned(P, f, e, name, depth=0):
    """Indices of the elements of a member that an expression is made of ('*': any)."""
    out = set()
    for n in e.walk():
        if n.k == "idx" and n.c[0].strip().k == "mem" and n.c[0].strip().name == name:
            i = n.c[1].strip()
            out.add(i.v if i.v is not None else "*")
        elif n.k == "ref" and n.a.get("dk") == "var" and depth < 4:
            d = n.a.get("d")
            for m in f.find("bin", "var"):
                if m.k == "bin" and m.op in ("=", "+=") and m.c[0].strip().k == "ref" and m.c[0].strip().a.get("d") == d:
                    out |= mentioned(P, f, m.c[1], name, depth + 1)
                elif m.k == "var" and m.a.get("d") == d and m.c and m.c[0] is not None:
                    out |= mentioned(P, f, m.c[0], name, depth + 1)
        elif n.k == "call" and depth < 4:
            for g in P.resolve(n):
                for r in g.find("return"):
                    out |= mentioned(P, g, r, name, depth + 1)
    return out


def fails(f, b):
    """Does a branch, whatever else it does, make the function return a failure?"""
    back = {path(r.c[0].strip()) for r in f.find("return") if r.c and r.c[0] is not None}
    for s in (b.c if b.k == "block" else [b]):
        if s.k == "return" and s.c and s.c[0] is not None and not iszero(s.c[0].strip()):
            return True
        if s.k == "call" and s.callee in ("exit", "_exit") and s.args and not iszero(s.args[-1].strip()):
            return True
        if s.k == "bin" and s.op in ("=", "|=", "+=") and path(s.c[0].strip()) in back and not iszero(s.c[1].strip()):
            return True
        if s.k == "un" and s.op in ("++", "p++") and path(s.c[0].strip()) in back:
            return True
    return False


def totals(ctx, P):
    """A number handed by address to a step that is repeated in a loop and read only after the loop is a total."""
    for f in P.functions:
        for loop in f.find("while", "for", "do"):
            inside = {n.id for n in loop.walk()}
            for c in loop.find("call"):
                for i, a in enumerate(c.args):
                    s = a.strip() if a is not None else None
                    if s is None or s.k != "un" or s.op != "&" or s.c[0].strip().k != "ref":
                        continue
                    v = s.c[0].strip()
                    if v.a.get("dk") != "var" or v.t is None or not v.t.is_num:
                        continue
                    refs = [n for n in f.find("ref") if n.a.get("d") == v.a["d"]]
                    decl = [n for n in f.find("var") if n.a.get("d") == v.a["d"]]
                    if not decl or decl[0].id in inside or not decl[0].c or not iszero(decl[0].c[0]):
                        continue
                    if any(n.id in inside and not byref(n) and not any(u.k == "omp" and n.id not in {m.id for b in u.c if b is not None for m in b.walk()}
                                                                       for u in n.up()) for n in refs):
                        continue
                    if not any(n.id not in inside and n.line > loop.line and not byref(n) for n in refs):
                        continue
                    for g in P.resolve(c):
                        if i >= len(g.params):
                            continue
                        sts = stores_through(g, g.params[i][1])
                        if not sts:
                            continue
                        good = any(up for _, up in sts)
                        ctx.judge(good, "totals", "%s:%s:%s" % (f.name, g.name, v.name), sts[0][0].where(),
                                  "%s overwrites %s, which %s reads only after the loop: all but the last result are lost"
                                  % (g.name, v.name, f.name))


def byref(n):
    p = n.p
    while p is not None and p.k == "cast":
        p = p.p
    return p is not None and p.k == "un" and p.op == "&"


def stores_through(g, d):
    """[(store, does it keep the former value)] of the pointee of parameter d."""
    out = []
    reads = any(n.k in ("un", "idx") and n.op in ("*", None) and n.c[0].strip().k == "ref" and n.c[0].strip().a.get("d") == d and
                not (n.p is not None and n.p.k == "bin" and n.p.op == "=" and n.p.c[0] is n) for n in g.walk())
    for n in g.walk():
        t = None
        if n.k == "bin" and n.op in ASSIGN:
            t = n.c[0].strip()
        elif n.k == "un" and n.op in ("++", "--", "p++", "p--"):
            t = n.c[0].strip()
        if t is None or t.k not in ("un", "idx"):
            continue
        b = t.c[0].strip()
        if b.k == "ref" and b.a.get("d") == d:
            out.append((n, n.k == "un" or n.op != "=" or reads))
    return out
