"""C21: every sequence of command line items up to a length, and every interleaving of a complete command line with two (thorough: three)
further items, against a model of the documented meaning; the driver name over every short string of an alphabet of characters."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

DBC = {"a.dbc": 1, "b.dbc": 2}
TEXT = 'VERSION "%d.0"\n\nBU_: N1 N2\n\nBO_ 1%d M%d: 8 N1\n SG_ S : 0|8@1+ (1,0) [0|0] "" N2\n'
# items of a command line
ITEMS = [("-dbc", "a.dbc"), ("-dbc", "b.dbc"), ("-dbc",), ("-out", "o1"), ("-out", "o2"), ("-out",), ("-drvname", "drv"), ("-drvname", "My drv"), ("-drvname", "9é_x-y9"),
         ("-drvname", "12 "), ("-drvname", "123"), ("-drvname",), ("-rw",), ("-help",), ("-noinc",), ("-nofmon",), ("-nope",), ("-nope", "o2"), ("stray",), ("-DBC", "b.dbc"), ("-", "o1"),
         ("-driverdir",), ("-nodeutils", "x"), ("--help",), ("-dbcx", "b.dbc"), ("",)]
CORE = [("-dbc", "a.dbc"), ("-out", "o1"), ("-drvname", "Ab c")]


def cname(s):
    """The given name reduced to a C identifier, in bytes as the program sees it."""
    out = ""
    for b in s.encode():
        c = chr(b)
        if c == " ":
            out += "_"
        elif b < 128 and (c == "_" or c.isalpha() or (c.isdigit() and out)):
            out += c
    return out


def meaning(argv):
    """(dbc, out, name, flags) of a command line, None if help is to be shown, or False if the documentation leaves it open."""
    val, flags, i = {}, set(), 0
    while i < len(argv):
        a = argv[i]
        i += 1
        if not a.startswith("-"):
            continue
        v = None
        if i < len(argv) and not argv[i].startswith("-"):
            v = argv[i]
            i += 1
        if a in ("-dbc", "-out", "-drvname"):
            if not v and val.get(a):
                return False            # given once with and later without a value
            val[a] = v or None
        else:
            flags.add(a)
    if "-help" in flags or not all(val.get(k) for k in ("-dbc", "-out", "-drvname")) or not cname(val["-drvname"]).strip():
        return None
    if val["-dbc"] not in DBC or val["-out"] not in ("o1", "o2"):
        return False                    # no such file or directory
    return val["-dbc"], val["-out"], cname(val["-drvname"]), flags


def shapes(thorough):
    for n in range(0, 3):
        yield from itertools.product(ITEMS, repeat=n)
    if thorough:
        yield from itertools.product(ITEMS, repeat=3)
    for core in itertools.permutations(CORE, 2):         # one of the three missing, or given without a value
        for k in (1, 2):
            for x in itertools.product(ITEMS, repeat=k):
                for pos in itertools.combinations(range(k + 2), k):
                    xs, cs = iter(x), iter(core)
                    yield tuple(next(xs) if j in pos else next(cs) for j in range(k + 2))
    for x in itertools.product(ITEMS, repeat=2 if not thorough else 3):
        if thorough and sum(ITEMS.index(i) for i in x) % 7:
            continue
        for perm in itertools.permutations(CORE):
            for pos in itertools.combinations(range(len(x) + 3), len(x)):
                seq, xs, cs = [], iter(x), iter(perm)
                for k in range(len(x) + 3):
                    seq.append(next(xs) if k in pos else next(cs))
                yield tuple(seq)


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    seqs = list(dict.fromkeys(tuple(a for it in s for a in it) for s in shapes(chk.thorough)))
    # arguments that resemble the known ones
    known = ["-dbc", "-out", "-drvname", "-rw", "-help", "-noinc", "-noconfig", "-nofmon", "-driverdir", "-gendate", "-nodeutils"]
    near = sorted({f(o) for o in known for f in (lambda o: o + "x", lambda o: o[:-1], lambda o: "-" + o, lambda o: o.upper(), lambda o: o.title(), lambda o: o + "=o2", lambda o: o[1:], lambda o: "-x" + o[1:],
                                                lambda o: " " + o, lambda o: o + " ", lambda o: o + "-", lambda o: o[:2], lambda o: o + o, lambda o: o[:3], lambda o: o[:4])} - set(known))
    core = [a for it in CORE for a in it]
    for o in near + known:
        for x in [(o,), (o, "o2"), (o, "b.dbc"), (o, ""), ("-rw", o), (o, "-rw"), (o, "o2", "-rw"), (o, "stray", "o2")]:
            for at in (0, 2, 4, 6):
                seqs.append(tuple(core[:at]) + x + tuple(core[at:]))
    seqs = list(dict.fromkeys(seqs))
    # names: every string up to length 3 over an alphabet, as the complete value
    al = ["a", "Z", "_", "0", "9", " ", "-", ".", "é", "/", "%", "\t", "\"", "\\"]
    nm = ["".join(t) for n in (1, 2, 3) for t in itertools.product(al, repeat=n) if not t[0] == "-"]
    nm += ["x" * n for n in (31, 32, 63, 64, 128, 200)] + ["%s%d", "a b c d", "äöü", "drv\nname", "a" + "é" * 50 + "b", "int8", "CON", "~", "@", "[", "`", "{", "a:b", "a@b", "A`B", "q{r", "z|", "a^~b"]
    seqs += [("-dbc", "a.dbc", "-out", "o1", "-drvname", n) for n in nm]
    refs = {}
    global _job, _ref

    def setup(d):
        rm(d)
        for o in ("o1", "o2"):
            os.makedirs(os.path.join(d, o))
        for f, k in DBC.items():
            with open(os.path.join(d, f), "w") as fh:
                fh.write(TEXT % (k, k, k))

    def _ref(name):
        return None

    def _job(ij):
        i, part = ij
        d = os.path.join(base, "j%d" % i)
        setup(d)
        out, nrun, na, st = [], 0, 0, set()
        names = {}
        for argv in part:
            want = meaning(argv)
            if want is False:
                continue
            nrun += 1
            st.add(hk(want))
            na += len(argv)
            r = run([exe, *argv], cwd=d)
            got = {k: v for k, v in tree(d).items() if v is not None and k not in DBC}
            dirs = [k for k, v in tree(d).items() if v is None and k not in ("o1", "o2")]
            helped = "-drvname" in r.out and "parameters" in r.out
            bad = None
            if r.rc or r.timeout:
                bad = "the generator ends with %s: %s" % (r.rc, r.err[-150:])
            elif want is None:
                if got or dirs:
                    bad = "files are written (%s) though help is to be shown" % (sorted(got) + dirs)[:3]
                elif not helped:
                    bad = "help is not shown"
            else:
                dbc, o, name, fl = want
                root = o + "/" + (name + "/" if "-driverdir" in fl else "") + ("" if "-rw" in fl else "000/")
                h = got.get(root + "lib/%s.h" % name.lower(), b"").decode("latin-1")
                c = got.get(root + "lib/%s.c" % name.lower(), b"").decode("latin-1")
                k = DBC[dbc]
                if helped:
                    bad = "help is shown instead of a generation"
                elif any(not f.startswith(root) for f in got):
                    bad = "%s is written, expected below %s" % ([f for f in got if not f.startswith(root)][:2], root)
                elif not h or not c:
                    bad = "no driver %s is written below %s: %s" % (name.lower(), root, sorted(got)[:4])
                elif "Unpack_M%d_%s(" % (k, name) not in c or "VER_%s_MAJ" % name.upper() not in h or "%s_MAX_DLC_VALUE" % name.upper() not in h or "M%d_t" % k not in h:
                    bad = "the driver is not that of %s under the name %s" % (dbc, name)
                else:
                    exp = {"lib/%s.h", "lib/%s.c", "lib/%s-fmon.h"} | (set() if "-noconfig" in fl else {"conf/%s-config.h", "conf/dbccodeconf.h"}) | (set() if "-noinc" in fl else {"inc/canmonitorutil.h"}) | (
                        set() if "-nofmon" in fl else {"usr/%s-fmon.c"}) | ({"butl/n1_%s-binutil.c", "butl/n1_%s-binutil.h", "butl/n2_%s-binutil.c", "butl/n2_%s-binutil.h"} if "-nodeutils" in fl else {
                            "butl/%s-binutil.c", "butl/%s-binutil.h"})
                    exp = {root + (x.replace("%s", name.lower())) for x in exp}
                    if exp != set(got):
                        bad = "files differ from the documented ones: %s" % sorted(exp ^ set(got))[:3]
            if bad:
                out.append(("argv:" + "_".join(argv), "arguments %s: %s" % (list(argv), bad), {"argv.json": json.dumps(argv)}))
                if len(out) > 3:
                    break
            if got or dirs:
                setup(d)
        rm(d)
        return nrun, na, st, out
    work = chunks(seqs, 120)
    bag = Bag(chk, 8)
    for n, na, st, out in pmap(_jobcall, list(enumerate(work))):
        chk.seen(st)
        chk.add(transitions=na, traces_validated_against_impl=n)
        for x in out:
            bag.put(*x)
    chk.notes.update(items=len(ITEMS), names=len(nm), exhaustive=True)
    chk.sample(list(seqs[-9000])); chk.sample(list(seqs[700]))
    chk.assumptions.append("left open and not judged: an option given once with and later without its value; DBC and output paths that do not exist")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C21", run_check)
