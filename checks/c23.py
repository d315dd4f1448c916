"""C23: every opening and writing of an output file is made to fail in turn (and every pair of files), every write is made short or is
interrupted, at the system call boundary and with real obstacles; all other files must equal those of an undisturbed generation."""
import os, sys, itertools, errno
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
from fsctl import *
import corpus

NET = corpus.SMALL["rollcsm"] + 'BO_ 100 Extra: 8 Ecu2\n SG_ V : 0|12@1- (0.5,-3) [0|0] "km" Gw,T\n'
SETS = {"rw": ("-rw",), "numbered": (), "nodes": ("-rw", "-nodeutils"), "plain": ("-rw", "-noconfig", "-noinc", "-nofmon"), "drvdir": ("-driverdir", "-nodeutils"), "rich": ("-rw", "-nodeutils")}


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    os.chmod(base, 0o711)
    proto = FsCtl(chk.dir("tool"), exe)
    texts = {"s": NET, "r": corpus.RICH}
    for k, t in texts.items():
        with open(os.path.join(proto.d, k + ".dbc"), "w") as f:
            f.write(t)
        os.chmod(os.path.join(proto.d, k + ".dbc"), 0o644)

    def cmd(setname, root):
        return [["-dbc", os.path.join(proto.d, "r.dbc" if setname == "rich" else "s.dbc"), "-out", root, "-drvname", "Drv", *SETS[setname]]]

    def fresh(i):
        root = os.path.join(base, "o%d" % i)
        rm(root)
        os.mkdir(root)
        os.chmod(root, 0o777)
        return root

    # the undisturbed generations
    ref, jobs = {}, []
    root = fresh(0)
    for s in SETS:
        x = proto.run(fresh(0), cmd(s, root))
        if ended_badly(x):
            raise CheckError("the undisturbed generation %s" % ended_badly(x))
        t = tree(root)
        ref[s] = (t, x)
        files = sorted(k for k, v in t.items() if v is not None)
        if not files:
            raise CheckError("the undisturbed generation writes nothing")
        for f in files:
            n = len(t[f])
            for e in (errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EIO, errno.EROFS):
                jobs.append((s, ("open:/%s:%d" % (f, e),), (f,)))
            for b in sorted({0, 1, n // 2, n - 1, 4096, 8191, 8192} if not chk.thorough else set(range(0, n, 97)) | {0, 1, n // 2, n - 1, 4095, 4096, 8191, 8192}):
                if b < n:
                    for e in (errno.ENOSPC, errno.EIO):
                        jobs.append((s, ("space:/%s:%d:%d" % (f, b, e),), (f,)))
        if s != "rich" or chk.thorough:
            for f, g in itertools.combinations(files, 2):
                for a, b in itertools.product(("o", "s"), repeat=2):
                    fl = [("open:/%s:%d" % (p, errno.EACCES) if k == "o" else "space:/%s:%d:%d" % (p, len(t[p]) // 2, errno.ENOSPC)) for k, p in ((a, f), (b, g))]
                    jobs.append((s, tuple(fl), (f, g)))
        if chk.thorough and s != "rich":
            for fs in itertools.combinations(files, 3):
                jobs.append((s, tuple("open:/%s:%d" % (p, errno.EACCES) for p in fs), fs))
                jobs.append((s, tuple("space:/%s:%d:%d" % (p, len(t[p]) // 2, errno.ENOSPC) for p in fs), fs))
        for n in (1, 2, 7, 100, 1000, 4096) if s != "rich" else (7, 100, 4096):
            jobs.append((s, ("all:short:%d" % n,), ()))
        jobs.append((s, ("all:eintr",), ()))
        for k, op in enumerate(x.ops):
            if op[1] == "write":
                for n in (1, op[5] // 2, op[5] - 1):
                    if 0 < n < op[5]:
                        jobs.append((s, ("%d:short:%d" % (k, n),), ()))
                jobs.append((s, ("%d:err:%d" % (k, errno.EINTR),), ()))
                if chk.thorough:
                    for k2, op2 in enumerate(x.ops):
                        if op2[1] == "write" and k2 > k and op[5] > 1:
                            jobs.append((s, ("%d:short:1" % k, "%d:short:1" % (k2 + 1)), ()))
        # real obstacles; only where the output goes straight below the root
        if "-rw" in SETS[s]:
            for f in files:
                for kind in ("dir", "full", "readonly", "loop"):
                    jobs.append((s, (kind,), (f,)))
            for d in sorted({os.path.dirname(f) for f in files}):
                inside = [f for f in files if f.startswith(d + "/")]
                for kind in ("dirfile", "dirreadonly"):
                    jobs.append((s, (kind, d), tuple(inside)))
    global _job

    def _job(ij):
        i, part = ij
        out, no, st = [], 0, set()
        for s, faults, hit in part:
            root = fresh(i)
            t, _ = ref[s]
            rename = lambda a: a
            if ":" in faults[0]:
                x = proto.run(root, [[c if c != "ROOT" else root for c in cmd(s, root)[0]]], faults=faults)
                what = " ".join(faults)
            else:
                kind = faults[0]
                what = "%s in the place of %s" % (kind, faults[1] if len(faults) > 1 else hit[0])
                p = os.path.join(root, faults[1] if len(faults) > 1 else hit[0])
                os.makedirs(os.path.dirname(p), exist_ok=True)
                os.chmod(os.path.dirname(p), 0o777)
                if kind == "dir":
                    os.mkdir(p)
                elif kind == "full":
                    os.symlink("/dev/full", p)
                elif kind == "loop":
                    os.symlink(p, p)
                elif kind == "dirreadonly":
                    os.mkdir(p)
                    os.chmod(p, 0o555)
                else:
                    with open(p, "w") as fh:
                        fh.write("an obstacle\n")
                    os.chmod(p, 0o444)
                x = proto.run(root, cmd(s, root))
            no += len(x.ops)
            bad = ended_badly(x)
            if bad:
                bad = "the generator " + bad
            else:
                got = tree(root)
                st.add(hk(got))
                skip = set(hit) | set(faults[1:] if ":" not in faults[0] else ())
                # only files matter; whether a directory exists is C18's concern
                bad = diff_trees({k: v for k, v in t.items() if v is not None and k not in skip}, {k: v for k, v in got.items() if v is not None and k not in skip})
            if bad:
                out.append(("%s:%s:%s" % (s, "+".join(sorted({f.split(":")[0] if not f[0].isdigit() else "op" for f in faults})), what), "options %s, fault %s: %s" % (" ".join(SETS[s]), what, bad),
                            {"in.dbc": texts["r" if s == "rich" else "s"], "faults.txt": "\n".join(faults), "options.txt": " ".join(SETS[s]), "log.txt": x.raw}))
                if len(out) > 4:
                    break
            rm(root)
        return len(part), no, st, out
    bag = Bag(chk, 3)
    work = [p for p in chunks(jobs, 60)]
    for n, no, st, out in pmap(_jobcall, [(i + 1, p) for i, p in enumerate(work)]):
        chk.seen(st)
        chk.add(transitions=no, traces_validated_against_impl=n)
        for x in out:
            bag.put(*x)
    chk.notes.update(generations=len(SETS), files={s: sum(v is not None for v in ref[s][0].values()) for s in SETS}, exhaustive=True)
    chk.sample(["%s %s" % (s, " ".join(f)) for s, f, h in jobs[:3]])
    chk.sample(["%s %s" % (s, " ".join(f)) for s, f, h in jobs[-3:]])
    chk.assumptions.append("faults are injected at the system call boundary (open and write below the output path) or by real obstacles; reading the DBC file is undisturbed")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C23", run_check)
