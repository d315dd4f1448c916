"""Stateless exploration of all inequivalent interleavings of processes (dynamic partial order reduction), and of all interleavings with a
bounded number of preemptions (no reduction)."""


def dependent(a, b):
    """Operations [process, name, mutating, path, path2, result] of different processes that do not commute. An operation that failed
    changed nothing and counts as an observation."""
    am, bm = a[2] and (a[5] is None or a[5] >= 0), b[2] and (b[5] is None or b[5] >= 0)
    for p in (a[3], a[4]):
        for q in (b[3], b[4]):
            if not p and (p is a[4]) or not q and (q is b[4]):
                continue
            if p == q and (am or bm):
                return True
            if am and a[1] != "write" and q.startswith(p + "/"):
                return True
            if bm and b[1] != "write" and p.startswith(q + "/"):
                return True
            if a[1] == "list" and bm and q.rpartition("/")[0] == p or b[1] == "list" and am and p.rpartition("/")[0] == q:
                return True
    return False


def dpor(execute, cap=20000):
    """execute(schedule prefix) -> list of operations of the complete execution. Returns (executions, operations, exhausted)."""
    stack, runs, nops = [], 0, 0
    while True:
        ops = execute([n["c"] for n in stack])
        runs += 1
        nops += len(ops)
        if ops is None:
            return runs, nops, False
        for i in range(len(stack), len(ops)):
            stack.append({"c": ops[i][0], "back": {ops[i][0]}, "done": {ops[i][0]}})
        # happens-before by vector clocks, races
        n = 1 + max(o[0] for o in ops)
        last = [None] * n            # clock of each process after its last operation
        cl, cnt, idx = [], [0] * n, [[] for _ in range(n)]
        for i, o in enumerate(ops):
            p = o[0]
            c = list(last[p]) if last[p] else [0] * n
            for j in range(i - 1, -1, -1):
                q = ops[j][0]
                if q == p or not dependent(ops[j], o):
                    continue
                if cl[j][q] > c[q]:              # not ordered before through p's past or through a later operation
                    stack[j]["back"].add(p)
                    c = [max(x, y) for x, y in zip(c, cl[j])]
            cnt[p] += 1
            c[p] = cnt[p]
            last[p] = c
            cl.append(c)
        if runs >= cap:
            return runs, nops, False
        while stack and not stack[-1]["back"] - stack[-1]["done"]:
            stack.pop()
        if not stack:
            return runs, nops, True
        s = stack[-1]
        s["c"] = min(s["back"] - s["done"])
        s["done"].add(s["c"])


def bounded(counts, k):
    """All schedules of processes with counts[i] operations and at most k preemptions (switches away from a process that could go on)."""
    n = len(counts)

    def rec(done, cur, left, acc):
        if all(d == c for d, c in zip(done, counts)):
            yield acc
            return
        for p in range(n):
            if done[p] == counts[p]:
                continue
            cost = 1 if cur is not None and p != cur and done[cur] < counts[cur] else 0
            if cost > left:
                continue
            d = list(done)
            d[p] += 1
            yield from rec(d, p, left - cost, acc + [p])
    yield from rec([0] * n, None, k, [])
