"""C17: all histories of generations (with and without -rw and -driverdir, two drivers, two DBC files, three spellings of the output path)
mixed with what users do to the output directory (removing a numbered directory, putting files and directories of their own there), up
to a depth; after every step the complete tree is compared with a model of the documented placement."""
import os, sys, itertools, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

TEXT = {k: 'VERSION "%d.0"\n\nBU_: N1 N2\n\nBO_ %d M%d: 8 N1\n SG_ S : 0|%d@1+ (1,0) [0|0] "" N2\n' % (k, 100 + k, k, 8 + k) for k in (1, 2)}
# a generation: (rewrite, driverdir, driver name, DBC file, suffix of the output path)
GENS = [(rw, dd, drv, k, sl) for rw in (0, 1) for dd in (0, 1) for drv, k, sl in (("drv", 1, ""), ("Drv2", 2, "/"))]
GENS += [(0, 0, "drv", 2, "/."), (1, 1, "drv", 2, "//")]
USER = ["rm000", "rm001", "file", "dir", "edit", "link"]


def free(model, root):
    """The lowest free number below root; the model maps paths to contents (None: directory)."""
    n = 0
    while any(k == root + "%03d" % n or k.startswith(root + "%03d/" % n) for k in model):
        n += 1
    return root + "%03d/" % n


def user_step(op, model, o, root=""):
    """Something a user does below root; returns the model afterwards."""
    m = dict(model)
    if op in ("rm000", "rm001"):
        p = root + op[2:]
        q = os.path.join(o, p)
        if os.path.islink(q) or os.path.isfile(q):
            os.unlink(q)
        elif os.path.isdir(q):
            shutil.rmtree(q)
        m = {k: v for k, v in m.items() if k != p and not k.startswith(p + "/")}
    elif op in ("file", "dir", "link"):
        p = free(m, root)[:-1]
        os.makedirs(os.path.dirname(os.path.join(o, p)), exist_ok=True)
        if op == "file":
            with open(os.path.join(o, p), "wb") as f:
                f.write(b"a file of the user")
            m[p] = b"a file of the user"
        elif op == "link":
            os.symlink("nowhere", os.path.join(o, p))
            m[p] = b"-> nowhere"
        else:
            os.makedirs(os.path.join(o, p))
            m[p] = None
    elif op == "edit":
        for p in [root + "lib/drv.h", root + "000/lib/drv.h", root + "conf/dbccodeconf.h", root + "note.txt"]:
            if p == root + "note.txt" or p in m:
                os.makedirs(os.path.dirname(os.path.join(o, p)), exist_ok=True)
                m[p] = b"edited" * 20000
                with open(os.path.join(o, p), "wb") as f:
                    f.write(m[p])
    return m


def look(o):
    out = {}
    for r, ds, fs in os.walk(o):
        for x in ds + fs:
            p = os.path.join(r, x)
            k = os.path.relpath(p, o)
            if os.path.islink(p):
                out[k] = b"-> " + os.readlink(p).encode()
            elif os.path.isdir(p):
                out[k] = None
            else:
                with open(p, "rb") as f:
                    out[k] = f.read()
    return out


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    for k in TEXT:
        with open(os.path.join(base, "in%d.dbc" % k), "w") as f:
            f.write(TEXT[k])
    ref = {}
    for drv, k in {(g[2], g[3]) for g in GENS}:
        o = os.path.join(base, "ref")
        os.makedirs(o)
        run([exe, "-dbc", os.path.join(base, "in%d.dbc" % k), "-out", o, "-drvname", drv, "-rw"])
        ref[drv, k] = {p: v for p, v in look(o).items() if v is not None}
        rm(o)
    if any(len(v) < 8 for v in ref.values()):
        raise CheckError("the plain generation writes no files")
    depth = 5 if chk.thorough else 4
    ops = [("gen", g) for g in GENS] + [("user", u) for u in USER]
    global _job

    tally = {"gens": 0, "trees": set()}

    def step(op, model, o):
        """Performs one operation on the tree and returns (model afterwards, complaint)."""
        r = step_(op, model, o)
        tally["gens"] += op[0] == "gen"
        tally["trees"].add(hk(r[0]))
        return r

    def step_(op, model, o):
        if op[0] == "user":
            return user_step(op[1], model, o), None
        rw, dd, drv, k, sl = op[1]
        root = drv + "/" if dd else ""
        if not rw:
            root = free(model, root)
        m = dict(model)
        m.update({root + p: v for p, v in ref[drv, k].items()})
        args = [exe, "-dbc", os.path.join(base, "in%d.dbc" % k), "-out", o + sl, "-drvname", drv] + ["-rw"] * rw + ["-driverdir"] * dd
        r = run(args)
        if r.rc or r.timeout:
            return m, "the generator ends with %s: %s" % (r.rc, r.err[-200:])
        got = look(o)
        for p in sorted(set(got) | set(m)):
            if p in m and m[p] is not None:
                if got.get(p) != m[p]:
                    new = p not in model
                    return m, "%s %s" % (p, "was not written" if new and p not in got else "disappeared" if p not in got else "has the wrong content" if p.startswith(root) and p[len(root):] in ref[drv, k] else "was changed")
            elif p not in m and got[p] is not None:
                return m, "%s must not have been written (expected place: %s)" % (p, root or "the output path")
        return m, None

    def show(h):
        return ", ".join(x[1] if x[0] == "user" else "generate " + " ".join([x[1][2], "dbc%d" % x[1][3]] + ["-rw"] * x[1][0] + ["-driverdir"] * x[1][1] + (["out" + x[1][4]] if x[1][4] else [])) for x in h)

    def explore(d, hist, model, o, out, cnt):
        if len(hist) >= depth or len(out) > 3:
            return
        for k, op in enumerate(ops):
            if len(hist) == depth - 1 and op[0] == "user":
                continue
            if op[0] == "user" and hist and hist[-1] == op:
                continue
            o2 = os.path.join(d, "h%d_%d" % (len(hist), k))
            shutil.copytree(o, o2, symlinks=True)
            m, bad = step(op, model, o2)
            cnt[0] += 1
            if bad:
                out.append((hist + [op], bad))
            else:
                explore(d, hist + [op], m, o2, out, cnt)
            shutil.rmtree(o2)

    def _job(ij):
        i, first = ij
        d = os.path.join(base, "j%d" % i)
        o = os.path.join(d, "o")
        os.makedirs(o)
        out, cnt = [], [0]
        tally.update(gens=0, trees=set())
        if first == "full":
            # the numbers run out: nothing that exists may change
            for n in range(1000):
                if n != 999:
                    os.makedirs(os.path.join(o, "%03d" % n))
            g = ("gen", GENS[0])
            model = {"%03d" % n: None for n in range(999)}
            m, bad = step(g, model, o)
            before = look(o)
            r = run([exe, "-dbc", os.path.join(base, "in2.dbc"), "-out", o, "-drvname", "drv"])
            after = look(o)
            for p in before:
                if before[p] is not None and after.get(p) != before[p]:
                    bad = bad or "with all numbers taken, a generation changes %s" % p
            if r.rc and not bad:
                bad = "with all numbers taken, the generator ends with %s" % r.rc
            cnt[0] += 2
            if bad:
                out.append(([g, g], bad))
        elif first == "gaps":
            # every set of taken numbers below 4, taken by directories or files
            for kinds in itertools.product((0, 1, 2), repeat=4):
                for dd in (0, 1):
                    rm(o)
                    os.makedirs(o)
                    m = {}
                    for n, kd in enumerate(kinds):
                        p = ("drv/" if dd else "") + "%03d" % n
                        if kd:
                            os.makedirs(os.path.join(o, p) if kd == 1 else os.path.dirname(os.path.join(o, p)), exist_ok=True)
                            m[p] = None
                        if kd == 2:
                            m[p] = b"f"
                            with open(os.path.join(o, p), "wb") as f:
                                f.write(b"f")
                    _, bad = step(("gen", (0, dd, "drv", 1, "")), m, o)
                    cnt[0] += 1
                    if bad:
                        out.append(([("user", "numbers taken by (0 nothing, 1 directory, 2 file): %s" % (kinds,)), ("gen", (0, dd, "drv", 1, ""))], bad))
        else:
            m, bad = step(ops[first[0]], {}, o)
            cnt[0] += first[1] == 0
            if bad:
                out.append(([ops[first[0]]], bad))
            else:
                op = ops[first[1]]
                m2, bad = step(op, m, o)
                cnt[0] += 1
                if bad:
                    out.append(([ops[first[0]], op], bad))
                else:
                    explore(d, [ops[first[0]], op], m2, o, out, cnt)
        rm(d)
        return cnt[0], tally["gens"], tally["trees"], out
    jobs = ["full", "gaps"] + [(a, b) for a in range(len(ops)) for b in range(len(ops)) if not (ops[a] == ops[b] and ops[a][0] == "user")]
    bag = Bag(chk, 4)
    seen = set()
    for n, gens, trees, out in pmap(_jobcall, list(enumerate(jobs))):
        chk.seen(trees)
        chk.add(transitions=n, traces_validated_against_impl=gens)
        for h, bad in out:
            t = show(h)
            if t not in seen:
                seen.add(t)
                bag.put("history:" + re.sub(r"\W+", "_", t), "after the history [%s]: %s" % (t, bad), {"in1.dbc": TEXT[1], "in2.dbc": TEXT[2], "history.txt": t})
    chk.notes.update(depth=depth, operations=len(ops), exhaustive=True)
    chk.sample(show([ops[0], ops[10], ops[3]]))
    chk.assumptions.append("the output path exists and is writable; -rw generations find directories, not files, at lib, usr, inc, conf and butl")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C17", run_check)
