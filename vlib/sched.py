"""Stateless exploration of interleavings with dynamic partial-order reduction.

run(prefix) executes the program under a controlled scheduler that follows the
list of thread ids `prefix` and then a default policy, and returns
(trace, result) where trace[k] = (tid, cells, write, enabled, region): the
memory cells touched by step k, whether it writes, the threads that could have
been chosen instead, and a region number (regions are separated by barriers).
"""


def _conflict(a, b):
    return a[0] != b[0] and (a[2] or b[2]) and a[4] == b[4] and not a[1].isdisjoint(b[1])


def races(trace):
    """For every step j the latest step i it conflicts with without being ordered after it otherwise."""
    nt = 1 + max([e[0] for e in trace] or [0])
    clock = [[-1] * nt for _ in range(nt)]      # per thread: last step of each thread known to precede
    stamp = []
    out = []
    bycell = {}
    region = None
    for j, e in enumerate(trace):
        if e[4] != region:                      # barrier: everything before is ordered
            region = e[4]
            for t in range(nt):
                clock[t] = [j - 1] * nt
            bycell = {}
        t = e[0]
        c = clock[t]
        prev = sorted({i for x in e[1] for i in bycell.get(x, ()) if trace[i][0] != t and (trace[i][2] or e[2])},
                      reverse=True)
        new = list(c)
        for i in prev:
            if i > c[trace[i][0]]:
                out.append((i, j))
            new = [max(a, b) for a, b in zip(new, stamp[i])]
        new[t] = j
        clock[t] = new
        stamp.append(list(new))
        for x in e[1]:
            bycell.setdefault(x, []).append(j)
    return out


def explore(run, check, cap=4000):
    """Visit one execution per class of equivalent interleavings; returns (executions, steps, conflicts, complete)."""
    done = {}                                   # prefix -> choices already tried after it
    todo = [()]
    seen = set()
    nrun = steps = nconf = 0
    while todo:
        prefix = todo.pop()
        if prefix in seen:
            continue
        seen.add(prefix)
        trace, result = run(list(prefix))
        nrun += 1
        steps += len(trace)
        check(result, prefix)
        choice = [e[0] for e in trace]
        for i, j in races(trace):
            nconf += 1
            t = trace[j][0]
            alts = [t] if t in trace[i][3] else list(trace[i][3])
            for a in alts:
                p = tuple(choice[:i]) + (a,)
                if a != choice[i] and p not in seen:
                    todo.append(p)
        if nrun >= cap and todo:
            return nrun, steps, nconf, False
    return nrun, steps, nconf, True
