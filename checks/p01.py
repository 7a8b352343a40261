"""P01: results of parallel regions do not depend on threads or schedule."""
import omp

ASSUMPTIONS = [
    "distinct pointer variables of a parallel region that the code obtains from different bricks or "
    "allocations do not overlap",
    "external library calls write only through the arguments listed in lib/effects.py",
    "an index that mixes a loop counter with terms of a different stride is row-major",
]


def check(ctx):
    ctx.rule("shared-store", "a store to storage shared by the team selects an element owned by the iteration, or is protected")
    ctx.rule("element-read", "an array written by a worksharing loop is not read at another iteration's element")
    ctx.rule("private-carried", "a private scalar modified by an iteration is assigned in that iteration before it is read")
    ctx.rule("private-init", "a private scalar is assigned by its thread before it is read")
    ctx.rule("reduction", "a reduction variable is combined only with the operator of its clause")
    ctx.rule("private-leftover", "what an iteration leaves in a variable of its thread is not used after the worksharing loop, unless "
                                 "it was accumulated over the iterations")
    ctx.rule("buffer-carried", "a buffer of the thread is written by an iteration before the iteration reads or accumulates into it")
    ctx.rule("last-writer", "what is stored under a lock is combined independent of the order (sum, extreme, constant)")
    ctx.rule("buffer-part", "an iteration clears all elements of a buffer it accumulates into, not only the first ones")
    for R, stores, bad in omp.analyse(ctx.eff):
        badn = set(id(b[0]) for b in bad)
        for st, sc, root, ix, prot in stores:
            if id(st) not in badn:
                ctx.ok("shared-store", "%s %s %s" % (st.where(), R.f.name, root))
        for st, root, ix in bad:
            ctx.violate("shared-store", "%s:%s" % (R.f.name, root), st.where(),
                        "in the parallel region of %s, %s is shared and written without protection at an element "
                        "that is not owned by the iteration: %s" % (R.f.name, root, st.key[:160]))
        for st, root, good in omp.last_writer(R, stores):
            ctx.judge(good, "last-writer", "%s:%s" % (R.f.name, root), st.where(),
                      "%s is replaced under a lock by each iteration or thread: what remains is of the one that comes last" % root)
        for n, what, upto in omp.beyond(R):
            ctx.judge(what is None, "buffer-part", "%s:%s" % (R.f.name, n.key[:60]), n.where(),
                      "%s is accumulated, but the iteration clears only the elements before %s" % (what, upto))
        for n, root, conflict in omp.element_conflicts(R, stores):
            ctx.judge(not conflict, "element-read", "%s:%s" % (R.f.name, root), n.where(),
                      "in the parallel loop of %s, %s reads an element of %s that another iteration writes" %
                      (R.f.name, n.key[:120], root))
        for w, tracked, b in omp.carried(R):
            ctx.ok("private-carried", "%s %s" % (w.where(), R.f.name), len(tracked) - len(b))
            for d, n in b.items():
                ctx.violate("private-carried", "%s:%s" % (R.f.name, n.name), n.where(),
                            "%s is private to the thread and modified by the loop, but an iteration reads it before "
                            "assigning it: its value depends on which iterations ran before on this thread" % n.name)
        tr, b = omp.uninitialised(R)
        ctx.ok("private-init", "%s %s" % (R.node.where(), R.f.name), len(tr) - len(b))
        for d, n in b.items():
            ctx.violate("private-init", "%s:%s" % (R.f.name, n.name), n.where(),
                        "%s is private and read before the thread assigns it" % n.name)
        for w, d, n, st in omp.leftover(R):
            if n is None:
                ctx.ok("private-leftover", "%s %s" % (st.where(), R.f.name))
            else:
                ctx.violate("private-leftover", "%s:%s" % (R.f.name, n.name), n.where(),
                            "%s is replaced by every iteration (%s) and used after the loop: only the last iteration of each "
                            "thread counts" % (n.name, st.where()))
        for w, mod, b in omp.buffers(R):
            ctx.ok("buffer-carried", "%s %s" % (w.where(), R.f.name), len(mod) - len(b))
            for d, n in b.items():
                ctx.violate("buffer-carried", "%s:%s" % (R.f.name, n.key[:60]), n.where(),
                            "%s is read before the iteration wrote to this buffer of the thread: it holds what earlier "
                            "iterations left" % n.key[:100])
        for n, name, op, good in omp.reductions(R):
            ctx.judge(good, "reduction", "%s:%s" % (R.f.name, name), n.where(),
                      "%s is combined with reduction(%s) but updated as %s" % (name, op, n.key[:100]))
    ctx.floor("shared-store", 300)
    ctx.floor("element-read", 120)
    ctx.floor("private-carried", 400)
    ctx.floor("private-leftover", 150)
    ctx.floor("buffer-carried", 12)
