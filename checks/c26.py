"""C26: driver source and node driver sources of every version against the headers of every version, over an alphabet of version numbers."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

NUMS = [0, 1, 2, 3, 9, 10, 11, 21, 99, 100, 255, 256, 257, 1000, 65535, 65536, 65537, 2147483647, 2147483648, 4294967295]
BODY = '''
BU_: Gw Ecu

BO_ 100 Plain: 8 Gw
 SG_ A : 0|8@1+ (1,0) [0|0] "" Ecu
 SG_ B : 8|12@1- (0.5,0) [0|0] "" Ecu

BO_ 101 Back: 4 Ecu
 SG_ A : 0|8@1+ (1,0) [0|0] "" Gw

CM_ SG_ 100 A "<RollingCounter>";
'''
EMPTY = "\nBU_: Gw\n\n"
NAMES = ["drv", "My_Drv2"]


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    T = chk.thorough
    vers = [None] + [(a, b) for a in (0, 1, 2, 10, 255, 4294967295) for b in (0, 1, 2, 10, 255, 4294967295)]
    vers += [(a, b) for a, b in [(1, 11), (11, 1), (1, 100), (100, 1), (65536, 1), (1, 65536), (65537, 0), (256, 0), (0, 256), (2147483648, 1), (1, 2147483648), (12, 3), (1, 23)]]
    if T:
        vers = [None] + [(a, b) for a in NUMS for b in NUMS]
    vers = list(dict.fromkeys(vers))
    num = lambda v: v or (0, 0)
    texts = {}
    global _gen, _job

    def _gen(i):
        v = vers[i]
        t = ("" if v is None else 'VERSION "%d.%d"\n' % v) + BODY
        out = []
        for nm in NAMES[:1 if i % 5 and not T else 2]:
            for opts, tag in ((("-rw",), "p"), (("-rw", "-nodeutils"), "n")):
                d = os.path.join(base, "v%d-%s-%s" % (i, nm, tag))
                os.makedirs(d)
                r = gen(exe, t, os.path.join(d, "out"), nm, opts)
                if r.rc or r.timeout:
                    out.append("generation of version %s: %r" % (v, r))
                # the sources alone, so that quoted includes are not found next to them
                os.makedirs(os.path.join(d, "src"), exist_ok=True)
                for sub in ("lib", "butl"):
                    for f in os.listdir(os.path.join(d, "out", sub)):
                        if f.endswith(".c") or sub == "butl":
                            shutil.copy(os.path.join(d, "out", sub, f), os.path.join(d, "src", f))
        return out
    for r in pmap(_gen_call, range(len(vers)), 4):
        for t in r:
            raise CheckError(t)

    def compile_set(i, j, nm, tag, lang):
        """Sources of version i with the driver headers of version j: list of (source, ok, message)."""
        d, h = (os.path.join(base, "v%d-%s-%s" % (k, nm, tag)) for k in (i, j))
        res = []
        for f in sorted(os.listdir(os.path.join(d, "src"))):
            if not f.endswith(".c"):
                continue
            r = run(([ "gcc", "-std=gnu11"] if lang == "c" else ["g++", "-x", "c++", "-std=c++17"]) + ["-w", "-fsyntax-only", "-iquote", os.path.join(d, "src"), "-I", os.path.join(h, "out", "lib"), "-I", os.path.join(h, "out", "conf"), "-I",
                     os.path.join(h, "out", "inc"), os.path.join(d, "src", f)], timeout=120)
            res.append((f, r.rc == 0, errline(r.err) if r.rc else ""))
        return res

    def _job(part):
        n, out = 0, []
        for i, j, nm, tag, lang in part:
            same = num(vers[i]) == num(vers[j])
            for f, ok, msg in compile_set(i, j, nm, tag, lang):
                n += 1
                if ok != same:
                    out.append(("%s:%s:%s:%s" % ("accepts" if ok else "refuses", f, vers[i], vers[j]), "%s of version %s %s with the %s header of version %s (as %s)%s" % (
                        f, vers[i] or "absent", "compiles" if ok else "does not compile", nm, vers[j] or "absent", lang, ": " + msg if msg else ""), {"source.dbc": BODY, "versions.txt": "%s %s" % (vers[i], vers[j])}))
        return n, out
    jobs = []
    for i, j in itertools.product(range(len(vers)), repeat=2):
        near = i == j or num(vers[i])[0] == num(vers[j])[0] or num(vers[i])[1] == num(vers[j])[1] or sorted(num(vers[i])) == sorted(num(vers[j])) or sum(num(vers[i])) == sum(num(vers[j]))
        if T and not near and (i * 41 + j) % 19:
            continue
        jobs.append((i, j, "drv", "p" if (i + j) % 2 else "n", "c"))
        if i == j or (i < 14 and j < 14):
            jobs.append((i, j, "drv", "n" if (i + j) % 2 else "p", "c++"))
        if i % 5 == 0 and j % 5 == 0 or T and near:
            jobs.append((i, j, "My_Drv2", "n", "c"))
    bag = Bag(chk, 3)
    chk.add(states=len({x[:3] for x in jobs}), traces_validated_against_impl=len({(x[k], x[2], x[3]) for x in jobs for k in (0, 1)}))
    for n, out in pmap(_job_call, chunks(jobs, 40)):
        chk.add(transitions=n)
        for x in out:
            bag.put(*x)
    chk.notes.update(versions=len(vers), exhaustive=not T)
    chk.sample([str(v) for v in vers[:8]])
    chk.assumptions.append("both sides are generated from the same frames; only the version differs" + ("; pairs that differ in both numbers are thinned out" if T else ""))


def _gen_call(x):
    return _gen(x)


def _job_call(x):
    return _job(x)


if __name__ == "__main__":
    main("C26", run_check)
