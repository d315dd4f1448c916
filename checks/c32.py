"""C32: reading the DBC file. Every system call that looks at, opens, reads or seeks the file fails in turn (alone and in pairs), every read is short or
interrupted, and the file is replaced by things that cannot be read: the output is that of the undisturbed generation, or untouched."""
import os, sys, itertools, errno
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
from fsctl import *
import corpus

NET = corpus.SMALL["rollcsm"]
LONG = 'VERSION "3.7"\n' + corpus.RICH + "".join('BO_ %d Long%d: 8 Gw\n SG_ First : 0|12@1- (0.5,-3) [0|0] "km" Gw\n SG_ Second : 16|12@1+ (1,0) [0|0] "" Gw\n\n' % (300 + i, i) for i in range(260))
LONG += "".join('CM_ SG_ %d First "comment of the frame number %d";\nBA_ "GenMsgCycleTime" BO_ %d %d;\n' % (300 + i, i, 300 + i, i + 1) for i in range(260))
TEXTS = {"net": NET, "long": LONG, "crlf": NET.replace("\n", "\r\n")}
SETS = {"rw": ("-rw",), "numbered": (), "nodes": ("-rw", "-nodeutils"), "drvdir": ("-rw", "-driverdir")}
EARLIER = 'VERSION "1.1"\n\nBU_: Gw\n\nBO_ 77 Earlier: 8 Gw\n SG_ E : 0|8@1+ (1,0) [0|0] "" Gw\n\n'
ERRNOS = (errno.EIO, errno.EISDIR, errno.ENOMEM, errno.ESTALE, errno.EACCES, errno.EINTR, errno.EAGAIN, errno.EOVERFLOW, errno.ELOOP, errno.EMFILE)


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    os.chmod(base, 0o711)
    proto = FsCtl(chk.dir("tool"), exe)

    def fresh(i, text, earlier, opts, n=[0]):
        """A scratch root with the DBC file and, with earlier, the results of an earlier generation."""
        root = os.path.join(base, "o%d" % i)
        rm(root)
        for d in ("", "in", "out"):
            os.mkdir(os.path.join(root, d))
            os.chmod(os.path.join(root, d), 0o777)
        if earlier:
            with open(os.path.join(root, "in", "x.dbc"), "w") as f:
                f.write(EARLIER)
            os.chmod(os.path.join(root, "in", "x.dbc"), 0o644)
            proto.run(root, cmd(root, opts))
        with open(os.path.join(root, "in", "x.dbc"), "w", newline="") as f:
            f.write(text)
        os.chmod(os.path.join(root, "in", "x.dbc"), 0o644)
        return root

    def cmd(root, opts, path="in/x.dbc"):
        return [["-dbc", path if path.startswith("/") else os.path.join(root, path), "-out", os.path.join(root, "out"), "-drvname", "Drv", *opts]]
    ref, jobs = {}, []
    for (s, t), earlier in itertools.product(itertools.product(SETS, TEXTS), (False, True)):
        if t == "crlf" and s != "rw" or t == "long" and s not in ("rw", "numbered"):
            continue
        root = fresh(0, TEXTS[t], earlier, SETS[s])
        before = tree(os.path.join(root, "out"))
        x = proto.run(root, cmd(root, SETS[s]), reads=True)
        if ended_badly(x):
            raise CheckError("the undisturbed generation %s" % ended_badly(x))
        after = tree(os.path.join(root, "out"))
        c = (s, t, earlier)
        ref[c] = (before, after)
        mine = [k for k, op in enumerate(x.ops) if op[3].startswith("/in")]
        rd = [k for k in mine if x.ops[k][1] == "read"]
        if not rd and not any(x.ops[k][1] == "map" for k in mine):
            raise CheckError("the generator does not read its DBC file: " + x.raw[:600])
        one = [("%d:err:%d" % (k, e),) for k in mine for e in ERRNOS]
        one += [("%d:short:%d" % (k, n),) for k in rd for n in sorted({1, 2, 3, 100, (x.ops[k][5] or 0) // 2, (x.ops[k][5] or 0) - 1}) if 0 < n < (x.ops[k][5] or 0)]
        one += [("all:short:%d" % n,) for n in (1, 2, 7, 100, 1000, 4096) if t != "long" or n > 2]
        jobs += [(c, f) for f in one]
        if t != "long" or chk.thorough:
            jobs += [(c, ("%d:err:%d" % (a, e), "%d:%s" % (b, g))) for a, b in itertools.combinations(mine, 2) for e in (errno.EINTR, errno.EIO) for g in ("err:%d" % errno.EIO, "short:5", "err:%d" % errno.EINTR)]
        jobs += [(c, ("!" + kind,)) for kind in ("directory", "emptydir", "unreadable", "dangling", "loop", "missing", "hidden", "fifo", "procmem", "longname", "notdir", "slash")]
        jobs += [(c, ("+" + kind,)) for kind in ("symlink", "absolute", "dots", "readonly", "hardlink")]
    global _job

    def _job(ij):
        i, part = ij
        out, no, st = [], 0, set()
        for c, faults in part:
            s, t, earlier = c
            root = fresh(i, TEXTS[t], earlier, SETS[s])
            p, path, feed = os.path.join(root, "in", "x.dbc"), "in/x.dbc", None
            kind = faults[0]
            must = False
            if kind[0] in "!+":
                fl, must = (), kind[0] == "+"
                if kind == "!directory":
                    path = "out"
                elif kind == "!emptydir":
                    os.unlink(p), os.mkdir(p)
                elif kind == "!unreadable":
                    os.chmod(p, 0)
                elif kind in ("!dangling", "!loop"):
                    os.unlink(p), os.symlink("nowhere.dbc" if kind == "!dangling" else p, p)
                elif kind == "!missing":
                    os.unlink(p)
                elif kind == "!hidden":
                    os.mkdir(os.path.join(root, "secret"))
                    shutil.copy(p, os.path.join(root, "secret", "x.dbc"))
                    os.chmod(os.path.join(root, "secret"), 0)
                    path = "secret/x.dbc"
                elif kind == "!fifo":
                    os.unlink(p), os.mkfifo(p), os.chmod(p, 0o666)
                    feed = subprocess.Popen(["timeout", "20", "sh", "-c", 'cat "$1" > "$2"', "-", os.path.join(root, "text"), p], stderr=subprocess.DEVNULL)
                    with open(os.path.join(root, "text"), "w", newline="") as f:
                        f.write(TEXTS[t])
                elif kind == "!procmem":
                    path = "/proc/self/mem"
                elif kind == "!longname":
                    path = "in/" + "x" * 300 + ".dbc"
                elif kind == "!notdir":
                    path = "in/x.dbc/x.dbc"
                elif kind == "!slash":
                    path = "in/x.dbc/"
                elif kind == "+symlink":
                    os.rename(p, os.path.join(root, "in", "y.dbc"))
                    os.symlink("y.dbc", p)
                elif kind == "+absolute":
                    path = p
                elif kind == "+dots":
                    path = "in/../in/./x.dbc"
                elif kind == "+readonly":
                    os.chmod(p, 0o444)
                    os.chmod(os.path.join(root, "in"), 0o555)
                elif kind == "+hardlink":
                    os.link(p, os.path.join(root, "in", "z.dbc"))
                what = {"!": "with %s as the DBC file", "+": "with the DBC file given as %s"}[kind[0]] % kind[1:]
            else:
                fl = faults
                must = all(":short:" in f or f.startswith("all") for f in faults)
                what = "with the fault %s" % " ".join(faults)
            x = proto.run(root, cmd(root, SETS[s], path), faults=fl, reads=kind != "!fifo")
            if feed:
                feed.kill(), feed.wait()
            if os.path.isdir(os.path.join(root, "secret")):
                os.chmod(os.path.join(root, "secret"), 0o755)
            no += len(x.ops)
            bad = ended_badly(x)
            if bad:
                bad = "the generator " + bad
            else:
                before, after = ref[c]
                got = tree(os.path.join(root, "out"))
                st.add(hk(c, sorted((k, v or b"") for k, v in got.items())))
                # the name in the comment line is that of the path given
                norm = lambda q: {k: None if v is None else re.sub(rb"DBC filename[^\n]*", b"", v) for k, v in q.items()}
                if norm(got) != norm(after):
                    files = lambda q: {k: v for k, v in q.items() if v is not None}
                    # directories may be prepared; files are neither changed, nor removed, nor added
                    if must:
                        bad = "the output differs from the undisturbed one: " + str(diff_trees(norm(after), norm(got)))
                    elif files(got) != files(before):
                        bad = "the file cannot be read, and still the output changes: " + str(diff_trees(files(before), files(got)))
            if bad:
                k = re.sub(r"^\d+", "op", kind)
                op = x.ops[int(kind.split(":")[0])][1] if kind[0].isdigit() and int(kind.split(":")[0]) < len(x.ops) else ""
                out.append(("%s:%s:%s" % (op, k, s), "options %s, %s%s: %s" % (" ".join(SETS[s]) or "none", what, " (%s)" % op if op else "", bad),
                            {"in.dbc": TEXTS[t], "faults.txt": "\n".join(faults), "options.txt": " ".join(SETS[s]), "log.txt": x.raw}))
                if len(out) > 5:
                    break
            rm(root)
        return len(part), no, st, out
    bag = Bag(chk, 3)
    work = [p for p in chunks(jobs, 25)]
    for n, no, st, out in pmap(_jobcall, [(i + 1, p) for i, p in enumerate(work)]):
        chk.seen(st)
        chk.add(transitions=no, traces_validated_against_impl=n)
        for x in out:
            bag.put(*x)
    chk.notes.update(generations=len(ref), executions=len(jobs), exhaustive=True)
    chk.sample(["%s %s" % (c, " ".join(f)) for c, f in jobs[:2] + jobs[-2:]])
    chk.assumptions.append("a file that ends early without an error of the system cannot be told from a shorter file; directories may be created before the refusal, files may not")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C32", run_check)
