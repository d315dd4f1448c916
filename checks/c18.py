"""C18: all 128 subsets of the generation options x driver names x DBC files x (empty place, place full of older and foreign files), the
whole output tree against the documented set of files with the content of the complete generation."""
import os, sys, itertools, datetime
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import corpus

OPTS = ("-nodeutils", "-noconfig", "-noinc", "-nofmon", "-driverdir", "-gendate", "-rw")
DATE = re.compile(r"^//.*\b\d{4}\D\d{1,2}\D\d{1,2}\b.*$")


def nodes(text):
    """Lower-case names of the nodes that send or receive a frame."""
    out = set()
    for m in corpus.parse(text):
        out.add(m.tx)
        for s in m.sigs:
            out |= set(s.rec)
    for m in re.finditer(r"^BO_TX_BU_ \d+ : ([\w,]+);", text, re.M):
        out |= set(m.group(1).split(","))
    return {n.lower() for n in out} - {"vector__xxx"}


def documented(drv, opts, text):
    d = drv.lower()
    f = {"lib/%s.h" % d, "lib/%s.c" % d, "lib/%s-fmon.h" % d}
    if "-nofmon" not in opts:
        f.add("usr/%s-fmon.c" % d)
    if "-noconfig" not in opts:
        f |= {"conf/%s-config.h" % d, "conf/dbccodeconf.h"}
    if "-noinc" not in opts:
        f.add("inc/canmonitorutil.h")
    for u in (["%s_%s" % (n, d) for n in nodes(text)] if "-nodeutils" in opts else [d]):
        f |= {"butl/%s-binutil.h" % u, "butl/%s-binutil.c" % u}
    return f


def undated(b):
    """Content without the comment lines that hold a date, and these lines."""
    lines = b.decode("latin-1").split("\n")
    return "\n".join(x for x in lines if not DATE.match(x)), [x for x in lines if DATE.match(x)]


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    texts = dict(rich=corpus.RICH, nothing=corpus.SMALL["nothing"], single=corpus.SMALL["single"], nodes=corpus.SMALL["nodes"], rollcsm=corpus.SMALL["rollcsm"])
    if chk.thorough:
        texts.update(corpus.SMALL)
    names = ("drv", "MyDrv_2", "X")
    subs = [c for n in range(len(OPTS) + 1) for c in itertools.combinations(OPTS, n)]
    jobs = [(t, n, part) for t in sorted(texts) for n in names for part in chunks(subs, 16)]
    global _job

    def _job(ij):
        i, (t, drv, part) = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(d)
        out, nrun, nf = [], 0, [0, set()]
        text = texts[t].encode("latin-1")
        ref = {}
        for o in ((), ("-nodeutils",)):
            r = gen(exe, text, os.path.join(d, "ref"), drv, ("-rw",) + o)
            ref.update({k: v for k, v in tree(os.path.join(d, "ref")).items() if v is not None})
            rm(os.path.join(d, "ref"))
        for c, full in itertools.product(part, (0, 1)):
            o = os.path.join(d, "out")
            rm(o)
            os.makedirs(o)
            root = drv + "/" if "-driverdir" in c else ""
            pre = {}
            want = documented(drv, c, texts[t])
            if full:
                # older (longer) results of everything, and foreign files, where the new ones go
                every = documented(drv, (), texts[t]) | documented(drv, ("-nodeutils",), texts[t])
                places = [root] if "-rw" in c else ["", root, root + "000/", root + "001/"]
                for p in places:
                    for f in list(every) + ["lib/other.c", "usr/note.txt", "conf/%s-config.h.bak" % drv, "top.txt", "butl/zz_%s-binutil.c" % drv.lower()]:
                        pre[p + f] = b"old content of " + f.encode() + b"\n" + b"x" * 70000
                for k, v in pre.items():
                    os.makedirs(os.path.join(o, os.path.dirname(k)), exist_ok=True)
                    with open(os.path.join(o, k), "wb") as f:
                        f.write(v)
            if "-rw" not in c:
                root += "002/" if full else "000/"
            t0 = datetime.datetime.now()
            r = gen(exe, text, o, drv, c)
            t1 = datetime.datetime.now()
            nrun += 1
            nf[0] += len(got0 := tree(o))
            nf[1].add(hk({k: undated(v)[0] if v else v for k, v in got0.items()}))
            got = {k: v for k, v in tree(o).items() if v is not None}
            bad = None if r.rc == 0 and not r.timeout else "the generator ends with %s: %s" % (r.rc, r.err[-200:])
            exp = dict(pre)
            exp.update({root + f: ref.get(f) for f in want})
            # the placeholder for nobody may have a node driver or not
            for k in sorted((set(got) | set(exp)) if not bad else ()):
                if "vector__xxx_" in k and k.startswith(root + "butl/") and "-nodeutils" in c:
                    continue
                a, b = got.get(k), exp.get(k)
                if a is None:
                    bad = "%s is missing" % k
                elif k not in exp:
                    bad = "%s must not be written" % k
                elif "-gendate" in c and k not in pre or ("-gendate" in c and k.startswith(root) and k[len(root):] in want):
                    ta, la = undated(a)
                    if b is None or ta != undated(b)[0] or not la:
                        bad = "%s differs by more than the generation date from that of the complete generation" % k
                    elif not any(x.strftime(f) in " ".join(la) for x in (t0, t1) for f in ("%Y.%m.%d",)):
                        bad = "%s does not hold the date of the generation: %s" % (k, la)
                elif a != b:
                    bad = "%s %s" % (k, "was changed" if k in pre and not (k.startswith(root) and k[len(root):] in want) else "differs from that of the complete generation")
                if bad:
                    break
            if bad:
                out.append(("%s:%s:%s:%d" % (t, drv, "".join(c) or "none", full), "DBC file '%s', driver %s, options %s, %s: %s" % (
                    t, drv, " ".join(c) or "none", "into a place with older files" if full else "into an empty place", bad), {"in.dbc": text}))
                if len(out) > 3:
                    break
        rm(d)
        return nrun, nf, out
    bag = Bag(chk, 4)
    for n, nf, out in pmap(_jobcall, list(enumerate(jobs))):
        chk.seen(nf[1])
        chk.add(transitions=nf[0], traces_validated_against_impl=n)
        for x in out:
            bag.put(*x)
    chk.notes.update(option_subsets=128, driver_names=names, dbc_files=sorted(texts), exhaustive=True)
    chk.sample("-nodeutils -noinc -rw, driver MyDrv_2, over older files")
    chk.assumptions.append("node names differ in more than case; the placeholder Vector__XXX may or may not get a node driver")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C18", run_check)
