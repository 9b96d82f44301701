"""C22: every thread count handed to the OpenMP runtime is at least one."""
from ranges import Ranges

TECH = "value-range analysis with branch facts at every call that sets a thread count"
NOTE = "Every call of omp_set_num_threads and every num_threads clause in src and apps; helper functions are followed to their return values."


def check(ctx, rep):
    p, S = ctx.prog(openmp=True), ctx.sym(openmp=True)
    R = Ranges(p, S)
    rep.rule("on every path to a call that sets the number of OpenMP threads, the argument is provably >= 1")
    n = 0
    for f in p.project():
        for i in f.all_insts():
            if i.op != "call" or not i.callee:
                continue
            q = p.q(i.callee)
            a = {"omp_set_num_threads": 0, "__kmpc_push_num_threads": 2}.get(q)
            if a is None:
                continue
            n += 1
            bad = R.unproved_ge(f, i.args[a], i.blk, 1)
            rep.ob(not bad, "%s in %s" % (q, p.q(f.name).split("::")[-1]), i.where(),
                   "%s: the thread count handed to the runtime is %s" % (p.q(f.name), "at least 1" if not bad else "not shown to be at least 1: " + ", ".join(sorted(set(bad)))))
    rep.count("thread count settings", n)
    rep.need(n, 1, "calls that set the number of threads")
