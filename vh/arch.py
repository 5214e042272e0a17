"""Per-slot counting of executions and memory accesses."""
from collections import Counter


def slots(p, P):
    return Counter((p.start_time + k) % P for k in range(p.execution_time))


def accesses(procs, P):
    w = Counter(p.start_time % P for p in procs)
    r = Counter(t % P for p in procs for t in set(p.read_times))
    return w, r, w + r


def fits(procs, P, rd, wr, tot):
    w, r, t = accesses(procs, P)
    return max(w.values(), default=0) <= wr and max(r.values(), default=0) <= rd and max(t.values(), default=0) <= tot


def shares(procs, P, rd, wr, tot):
    """As fits, but a variable with zero lifetime (which no port limit can help) may have its slot for itself."""
    for lim, own in zip((wr, rd, tot), zip(*(accesses([p], P) for p in procs), strict=True), strict=True):
        for s, n in sum(own, Counter()).items():
            if n > lim and not any(o[s] == n and p.execution_time == 0 for p, o in zip(procs, own, strict=True)):
                return False
    return True


def unwrapped(procs, P, rd, wr, tot):
    """The recorded finding total_wrap: the sequential strategies compare the accesses of each added process with the total in use without taking
    their times modulo the schedule time. True if that alone explains a part with too many accesses in total."""
    if not shares(procs, P, rd, wr, 10 ** 6):
        return False
    for i, p in enumerate(procs):
        used = accesses(procs[:i], P)[2]
        own = Counter([p.start_time, *set(p.read_times)])
        if any((used[t] and used[t] + n > tot) or (not used[t] and p.execution_time and n > tot) for t, n in own.items()):
            return False
    return True


def overlap(a, b, P):
    return bool(slots(a, P).keys() & slots(b, P).keys())


def chromatic(n, edges):
    """Exact chromatic number of a small graph."""
    adj = [set() for _ in range(n)]
    for a, b in edges:
        adj[a].add(b)
        adj[b].add(a)
    order = sorted(range(n), key=lambda v: -len(adj[v]))

    def can(k):
        col = {}

        def go(i):
            if i == n:
                return True
            v = order[i]
            for c in range(min(k, max(col.values(), default=-1) + 2)):
                if all(col.get(u) != c for u in adj[v]):
                    col[v] = c
                    if go(i + 1):
                        return True
                    del col[v]
            return False
        return go(0)
    k = 0 if n == 0 else 1
    while not can(k):
        k += 1
    return k
