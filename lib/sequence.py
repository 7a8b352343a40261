"""The order in which the steps of a computation are called."""


def contains(P, name, steps, memo):
    """The steps a function ends up calling."""
    if name in memo:
        return memo[name]
    memo[name] = set()
    f = P.func(name) if name else None
    if f is None or f._rawcfg is None or name in steps:
        return memo[name]
    out = set()
    for c in f.calls():
        if c.callee in steps:
            out.add(c.callee)
        elif c.callee:
            out |= contains(P, c.callee, steps, memo)
    memo[name] = out
    return out


def judge(ctx, P, kind, needs, spoils):
    """needs: (later, earlier, message): every way to `later` passes `earlier`, once more in every round of a loop.
    spoils: (first, then, restart, message): there is no way from `first` to `then` that does not pass `restart`."""
    steps = {x for n in needs for x in n[:2]} | {x for n in spoils for x in n[:3]}
    memo = {}
    for f in P.functions:
        if f._rawcfg is None or f.name in steps:
            continue
        pos = {}
        for b in f.cfg.b:
            for i, e in enumerate(f.cfg.b[b].els):
                if e.k != "call" or not e.callee:
                    continue
                for s in ({e.callee} & steps) or contains(P, e.callee, steps, memo):
                    pos.setdefault(s, []).append((b, i))
        if len(pos) < 2:
            continue

        def reaches(x, y, stop):
            halt = set(pos.get(stop, [])) - {y}
            seen, work = set(), [(x[0], x[1] + 1)]
            while work:
                b, i = work.pop()
                els = f.cfg.b[b].els
                while i < len(els) and (b, i) not in halt:
                    if (b, i) == y:
                        return True
                    i += 1
                if i < len(els) or f.cfg.b[b].noret:
                    continue
                for s in f.cfg.b[b].succ:
                    if s >= 0 and s not in seen:
                        seen.add(s)
                        work.append((s, 0))
            return False
        for later, first, msg in needs:
            for y in pos.get(later, []):
                if first not in pos or y in pos[first]:
                    continue
                bad = any(reaches(x, y, first) for x in ((f.cfg.entry, -1), y))
                ctx.judge(not bad, kind, "%s:%s:%s" % (f.name, first, later), f.cfg.b[y[0]].els[y[1]].where(), msg)
        for first, then, restart, msg in spoils:
            for x in pos.get(first, []):
                for y in pos.get(then, []):
                    if x != y and restart in pos and y not in pos[restart]:
                        ctx.judge(not reaches(x, y, restart), kind, "%s:%s:%s" % (f.name, first, then), f.cfg.b[y[0]].els[y[1]].where(), msg)
