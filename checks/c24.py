"""C24: every generation is killed before every file system operation and in the middle of every write (and so is the generation after it);
two and three generations run at the same time under every inequivalent interleaving of their file system operations (dynamic partial order
reduction) and under every interleaving with up to two preemptions."""
import os, sys, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
from fsctl import *
import corpus, dpor

TEXTS = {"s": corpus.SMALL["rollcsm"], "t": corpus.SMALL["nodes"], "r": corpus.RICH}
# name: (text, driver name, options)
CMDS = {"a": ("s", "Drv", ()), "b": ("t", "Drv", ()), "c": ("s", "Oth", ("-nodeutils",)), "d": ("s", "Drv", ("-driverdir",)), "e": ("t", "Drv", ("-driverdir", "-nodeutils")),
        "f": ("s", "Drv", ("-noconfig", "-noinc", "-nofmon")), "g": ("s", "drv", ("-driverdir",)), "h": ("r", "Drv", ("-nodeutils",))}
# earlier histories of the output path: commands, and what is removed or added afterwards
PRIOR = {"empty": (), "one": ("a",), "two": ("b", "a"), "gap": ("a", "b", "-000"), "file": ("a", "+notes.txt"), "torn": ("a", "!b"), "dd": ("d",), "ddtorn": ("e", "!d")}


def split(t):
    """{generation directory: {file: content}} and the rest of a tree."""
    gens, rest = {}, {}
    for k, v in t.items():
        m = re.match(r"((?:\w+/)?\d{3})(?:/(.*))?$", k)
        if m:
            g = gens.setdefault(m.group(1), {})
            if m.group(2):
                g[m.group(2)] = v
        else:
            rest[k] = v
    return gens, rest


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    os.chmod(base, 0o711)
    proto = FsCtl(chk.dir("tool"), exe)
    for k, t in TEXTS.items():
        p = os.path.join(proto.d, k + ".dbc")
        with open(p, "w") as f:
            f.write(t)
        os.chmod(p, 0o644)

    def cmd(c, root):
        t, n, o = CMDS[c]
        return ["-dbc", os.path.join(proto.d, t + ".dbc"), "-out", root, "-drvname", n, *o]

    def fresh(root):
        rm(root)
        os.mkdir(root)
        os.chmod(root, 0o777)

    def prepare(root, prior):
        """The earlier history; returns the tree it leaves."""
        fresh(root)
        for s in PRIOR[prior]:
            if s[0] == "-":
                rm(os.path.join(root, s[1:]))
            elif s[0] == "+":
                with open(os.path.join(root, s[1:]), "w") as f:
                    f.write("foreign\n")
            elif s[0] == "!":
                x = proto.run(root, [cmd(s[1:], root)], faults=("13:torn:30",))
            else:
                x = proto.run(root, [cmd(s, root)])
        return tree(root)

    save = {}

    def restore(root, prior):
        """prepare() from a saved copy."""
        if prior not in save:
            d = os.path.join(base, "saved-%s-%d" % (prior, os.getpid()))
            save[prior] = (d, prepare(d, prior))
        d, t = save[prior]
        rm(root)
        if any(PRIOR[prior]):
            subprocess.run(["cp", "-a", d, root], check=True)
        else:
            fresh(root)
        return t

    # complete results
    root0 = os.path.join(base, "ref")
    ref, nops = {}, {}
    for c in CMDS:
        fresh(root0)
        x = proto.run(root0, [cmd(c, root0)])
        bad = ended_badly(x)
        g, rest = split(tree(root0))
        if bad or len(g) != 1:
            raise CheckError("command %s alone: %s, directories %s" % (c, bad, sorted(g)))
        ref[c] = next(iter(g.values()))
        nops[c] = x.ops

    trees = set()

    def judge(before, after, complete, loose=0):
        """Earlier directories unchanged; the commands in `complete` each have a complete result in a directory of their own; at most `loose`
        further new directories (of killed generations)."""
        trees.add(hk(after))
        gb, rb = split(before)
        ga, ra = split(after)
        for g in gb:
            if g not in ga:
                return "the earlier directory %s has disappeared" % g
            d = diff_trees(gb[g], ga[g])
            if d:
                return "the earlier directory %s has changed: %s" % (g, d)
        for k, v in rb.items():
            if ra.get(k, 0) != v:
                return "the earlier file %s has changed" % k
        new = {g: t for g, t in ga.items() if g not in gb}
        left, miss = dict(new), []
        for c in complete:
            sub = CMDS[c][1] + "/" if "-driverdir" in CMDS[c][2] else ""
            hit = next((g for g, t in left.items() if t == ref[c] and g.startswith(sub) and g.count("/") == sub.count("/")), None)
            if hit is None:
                miss.append(c)
            else:
                del left[hit]
        if miss:
            c = miss[0]
            why = "; ".join("%s: %s" % (g, diff_trees(ref[c], t)) for g, t in sorted(left.items())) or "no new directory"
            return "no complete result of '%s' in a directory of its own (%s)" % (" ".join(cmd(c, "OUT")[4:]), why[:400])
        if len(left) > loose:
            return "unexpected directories %s" % sorted(left)
        stray = [k for k in ra if k not in rb and ra[k] is not None]
        if stray:
            return "stray files %s outside of the numbered directories" % stray[:3]
        return None

    def files(*cs, log=""):
        return {**{"%s.dbc" % c: TEXTS[CMDS[c][0]] for c in cs}, "log.txt": log, "commands.txt": "\n".join(" ".join(cmd(c, "OUT")) for c in cs)}

    # ---------------------------------------------------------------- crashes
    def crash_points(c, root, prior, thorough):
        before = restore(root, prior)
        x = proto.run(root, [cmd(c, root)])
        out = []
        for k, op in enumerate(x.ops):
            out.append("%d:kill" % k)
            if op[1] == "write":
                n = op[5]
                for w in sorted({1, n // 2, n - 1, n} | (set(range(0, n, max(1, n // 16))) if thorough else set())):
                    out.append("%d:torn:%d" % (k, w))
            elif op[2]:
                out.append("%d:torn:0" % k)
        return out

    def crash_job(job):
        c, prior, nxt, root, second, (part, parts) = job
        n, no, out = 0, 0, []
        trees.clear()
        pts = crash_points(c, root, prior, chk.thorough)
        for pt in pts[part::parts]:
            before = restore(root, prior)
            x = proto.run(root, [cmd(c, root)], faults=(pt,))
            after = tree(root)
            bad = judge(before, after, (), 1)
            n += 1
            no += len(x.ops)
            seconds = [None]
            if second:
                seconds += [p for p in pts if second == 1 or p.endswith("kill")]
            if bad is None:
                for p2 in seconds:
                    mid = after
                    if p2:
                        restore(root, prior)
                        proto.run(root, [cmd(c, root)], faults=(pt,))
                        proto.run(root, [cmd(nxt, root)], faults=(p2,))
                        mid = tree(root)
                        bad = judge(after, mid, (), 1)
                        n += 1
                    if bad is None:
                        y = proto.run(root, [cmd(nxt, root)])
                        n += 1
                        no += len(y.ops)
                        bad = ended_badly(y) or judge(mid, tree(root), (nxt,), 0)
                        if bad:
                            bad = "after a generation killed at %s%s the next one: %s" % (pt, " and one killed at " + p2 if p2 else "", bad)
                    if bad:
                        break
            if bad:
                out.append(("crash:%s:%s:%s" % (c, prior, pt), "earlier history '%s', '%s' killed at operation %s: %s" % (prior, " ".join(cmd(c, "OUT")[4:]), pt, bad), files(c, nxt, log=x.raw)))
                if len(out) > 2:
                    break
        return "crash", n, no, True, out, set(trees)

    # ---------------------------------------------------------------- interleavings
    def race_job(job):
        cs, prior, root, mode = job[:4]
        st = {"ops": 0, "bad": []}
        trees.clear()
        cmds = [cmd(c, root) for c in cs]

        def execute(sched, faults=()):
            before = restore(root, prior)
            x = proto.run(root, cmds, sched=sched, faults=faults)
            st["ops"] += len(x.ops)
            killed = [i for i, s in x.ends.items() if s == 1009] if faults else []
            bad = next((b for b in (ended_badly(x, i) for i in range(len(cs)) if i not in killed) if b), None)
            bad = bad or judge(before, tree(root), [c for i, c in enumerate(cs) if i not in killed], len(killed))
            if bad:
                short = ",".join(str(o[0]) for o in x.ops[:40])
                st["bad"].append(("race:%s:%s:%s%s" % ("+".join(cs), prior, short, "".join(faults)), "earlier history '%s', generations %s at the same time, order of operations %s... %s: %s" % (
                    prior, " | ".join(" ".join(cmd(c, "OUT")[4:]) for c in cs), short, " ".join(faults), bad), files(*cs, log=x.raw)))
            return x.ops
        full = True
        if mode == "dpor":
            class Stop(Exception):
                pass

            def ex(s):
                o = execute(s)
                if len(st["bad"]) > 2:
                    raise Stop
                return o
            try:
                runs, _, full = dpor.dpor(ex, 4000 if not chk.thorough else 60000)
            except Stop:
                runs, full = 0, False
        else:
            runs = 0
            counts, lim = None, int(mode)
            o = execute([])
            counts = [sum(q[0] == i for q in o) for i in range(len(cs))]
            for k, s in enumerate(dpor.bounded(counts, lim)):
                if len(job) > 4 and k % job[4][1] != job[4][0]:
                    continue
                # counts may change with the schedule: only the prefix up to the last preemption is prescribed
                last = max((i for i in range(1, len(s)) if s[i] != s[i - 1]), default=0)
                s = s[:last + 1]
                try:
                    execute(s)
                except CheckError as e:
                    if "does not apply" not in str(e):
                        raise
                    continue
                runs += 1
                if len(st["bad"]) > 2:
                    break
        if mode == "dpor" and len(cs) == 2 and not st["bad"]:
            # one of the two is killed at each of its operations while the other runs: under every switch point
            o = execute([])
            n0 = sum(q[0] == 0 for q in o)
            for sw in range(0, n0 + 1):
                # process 0 does sw operations, then process 1 everything, then process 0 dies
                execute([0] * sw + [1], faults=()) if sw == 0 else None
                n1 = sum(q[0] == 1 for q in o)
                for at in sorted({0, 1, 2, 3, 4, n1 // 2, n1 - 1}):
                    # process 1 stops after `at` operations and process 0 dies
                    k = sw + at
                    try:
                        execute([0] * sw + [1] * at + [0], faults=("%d:kill" % k,))
                    except CheckError as e:
                        if "does not apply" not in str(e):
                            raise
                        continue
                    runs += 1
                if len(st["bad"]) > 2:
                    break
        return mode, runs, st["ops"], full, st["bad"][:3], set(trees)
    global _job

    def _job(j):
        return (crash_job if j[0] == "crash" else race_job)(j[1:])
    jobs = []
    k = itertools.count()
    R = lambda: os.path.join(base, "r%d" % next(k))
    T = chk.thorough
    for cs, prior in [(("a", "a"), "empty"), (("a", "b"), "empty"), (("a", "c"), "one"), (("a", "b"), "gap"), (("d", "d"), "empty"), (("d", "e"), "empty"), (("d", "e"), "dd"), (("a", "d"), "empty"),
                      (("f", "a"), "torn"), (("d", "g"), "empty"), (("h", "b"), "empty"), (("e", "e"), "ddtorn"), (("a", "a"), "file")]:
        jobs.append(("race", cs, prior, R(), "dpor"))
    for cs, prior in [(("a", "b", "f"), "empty"), (("a", "a", "a"), "one"), (("d", "e", "d"), "empty"), (("a", "d", "c"), "gap")]:
        jobs.append(("race", cs, prior, R(), "dpor"))
    for cs, prior in [(("a", "b"), "empty"), (("d", "e"), "empty"), (("f", "f"), "one")] + ([(("h", "h"), "empty"), (("a", "c"), "gap")] if T else []):
        parts = 8
        for i in range(parts):
            jobs.append(("race", cs, prior, R(), "2", (i, parts)))
    if T:
        for i in range(64):
            jobs.append(("race", ("f", "f"), "empty", R(), "3", (i, 64)))
        for i in range(16):
            jobs.append(("race", ("f", "a", "b"), "empty", R(), "2", (i, 16)))
    for c in CMDS:
        for prior in PRIOR:
            if not T and c in "fh" and prior not in ("empty", "torn"):
                continue
            jobs.append(("crash", c, prior, "b" if c in "af" else "d" if c == "e" else "a", R(), 0, (0, 1)))
    for c, nxt, prior in [("a", "a", "one"), ("f", "f", "empty"), ("d", "d", "empty"), ("c", "b", "torn")][: 4 if T else 3]:
        for i in range(8):
            jobs.insert(0, ("crash", c, prior, nxt, R(), 1 if T else 2, (i, 8)))
    bag = Bag(chk, 3)
    tot = {}
    full = True
    for (kind, runs, ops, fl, out, seen), j in zip(pmap(_jobcall, jobs), jobs):
        name = kind if kind in ("crash", "dpor") else "preemptions<=" + kind
        if kind == "dpor":
            name += "-%d" % len(j[1])
        a = tot.setdefault(name, [0, 0])
        a[0] += runs
        a[1] += ops
        full &= fl
        if kind == "dpor":
            chk.notes.setdefault("classes", {})["+".join(j[1]) + " " + j[2]] = runs if fl else "%d (capped)" % runs
        chk.seen(seen)
        chk.add(transitions=ops, traces_validated_against_impl=runs)
        for x in out:
            bag.put(*x)
    chk.notes.update(executions={k: {"executions": v[0], "operations": v[1]} for k, v in tot.items()}, exhaustive=full)
    chk.sample("crash points of '%s': %s" % (" ".join(cmd("a", "OUT")[4:]), [o[1] + " " + o[3] for o in nops["a"]]))
    chk.assumptions += ["a generation's steps are its system calls on paths below the output path; a write is torn at a few (thorough: about 20) lengths",
                        "kill leaves the page cache intact: power failures are not considered", "partial order reduction: operations on unrelated paths commute"]


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C24", run_check)
