"""C15: every combination of the seven configuration switches (uncommented in the generated configuration header, as a user does it) over
DBC files covering every feature, compiled as C and as C++ file by file and linked into one program with all node drivers, in every mixture of C and C++; and every
generated header on its own."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import corpus

USER = """
typedef %s sigfloat_t;
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t Data[64]; uint8_t IDE; } __CoderDbcCanFrame_t__;
enum UserHashes { XOR8, CRC_A };
"""


def uncomment(path, names):
    """Switches the named macros on in the generated configuration header; returns those it does not offer."""
    with open(path) as f:
        t = f.read()
    missing = []
    for n in names:
        t2 = re.sub(r"^.*#define\s+%s\b.*$" % n, "#define %s" % n, t, flags=re.M)
        if t2 == t:
            missing.append(n)
        t = t2
    with open(path, "w") as f:
        f.write(t)
    return missing


def combos(k=None):
    for n in range(len(SWITCHES) + 1):
        for c in itertools.combinations(SWITCHES, n):
            if k is None or n <= 1 or n >= 6 or sum(SWITCHES.index(x) * 5 + 1 for x in c) % k == 0:
                yield c


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    jobs = []
    for c in combos():
        jobs.append(("rich", "-nodeutils", c, "drv"))
    texts = dict(corpus.SMALL, rich=corpus.RICH)
    for k, n in enumerate(sorted(corpus.SMALL)):
        for c in combos(None if chk.thorough else 11):
            jobs.append((n, "-nodeutils" if (k + len(c)) % 2 else "", c, "My_Drv2" if len(c) % 2 else "drv"))
    groups = {}
    for j in jobs:
        groups.setdefault((j[0], j[1], j[3]), []).append(j[2])
    work = []
    for (n, o, drv), cs in groups.items():
        for part in chunks(cs, 8):
            work.append((n, o, drv, part))
    fnames = [b"%s.dbc" % bytes([c]) for c in range(1, 256) if c not in (46, 47)] + [b"a%sb.dbc" % bytes([c]) for c in range(1, 256) if c != 47]
    fnames += [b"a" + bytes([c]) for c in range(1, 256) if c not in (46, 47)] + [b"x\nint y;.dbc", b"x\r#error.dbc", b"\n\n.dbc", b"??", b"a*", b"%s%n%d.dbc", b"x" * 250, b".dbc", b"a b c", "\u00fc\u00df\u20ac.dbc".encode(), b'"', b"'", b"a\\b.dbc", b"\\"]
    global _job

    def named(d, name):
        """The driver generated from a file of that name must be the same code (the name stands in comments only)."""
        rm(d)
        os.makedirs(os.path.join(os.fsencode(d), b"in"))
        os.makedirs(os.path.join(d, "out"))
        os.chmod(os.path.join(d, "out"), 0o777)
        path = os.path.join(os.fsencode(d), b"in", name)
        with open(path, "wb") as f:
            f.write(corpus.RICH.encode("latin-1"))
        r = run([exe, "-dbc", path, "-out", os.path.join(d, "out"), "-drvname", "drv", "-rw"], timeout=60)
        if r.rc or r.timeout:
            return None, "the generator ended with %s %s" % (r.rc, r.err[-200:])
        out = []
        for s in ("lib/drv.c", "usr/drv-fmon.c", "butl/drv-binutil.c"):
            r = run(["gcc", "-E", "-P", "-dD", "-w", "-std=c99", *incs(d), os.path.join(d, "out", s)])
            if r.rc:
                return None, "%s cannot be compiled: %s" % (s, errline(r.err))
            out.append(r.out)
        return out, None

    def compile_all(d, cs, drv, cpp, kept):
        """Compiles every source on its own and links; returns an error text or None. kept: source group -> (C objects, C++ objects)."""
        cc = ["g++", "-x", "c++", "-std=c++11"] if cpp else ["gcc", "-std=c99"]
        objs, srcs = [], []
        for sub in ("lib", "usr", "butl"):
            for f in sorted(os.listdir(os.path.join(d, "out", sub))):
                if f.endswith(".c"):
                    srcs.append(os.path.join(d, "out", sub, f))
        defs = ["-D__DEF_%s__" % os.path.basename(s)[:-len("-binutil.c")].upper() for s in srcs if s.endswith("-binutil.c")]
        main = os.path.join(d, "main.c")
        hdrs = [f for sub in ("lib", "conf", "inc", "butl") for f in sorted(os.listdir(os.path.join(d, "out", sub))) if f.endswith(".h")]
        with open(main, "w") as f:
            f.write("".join('#include "%s"\n' % h for h in hdrs + hdrs[::-1]))
            # the program uses every function that the headers declare
            uses = []
            for sub in ("lib", "butl"):
                for h in sorted(os.listdir(os.path.join(d, "out", sub))):
                    if h.endswith(".h"):
                        with open(os.path.join(d, "out", sub, h), encoding="latin-1") as g:
                            for x in re.findall(r"^uint32_t\s+(\w+)\s*\([^;{}]*\)\s*;", g.read(), re.M):
                                if x not in uses:
                                    uses.append(x)
            f.write("typedef void (*any_f)(void);\nint main(void)\n{\n  volatile any_f p = 0; (void)p;\n%s  return 0;\n}\n" % "".join("  p = (any_f) %s;\n" % x for x in uses))
        for s in srcs + [main]:
            o = os.path.join(d, os.path.basename(s) + (".pp" if cpp else "") + ".o")
            r = run(cc + ["-w", "-O0", *defs, *incs(d), "-c", s, "-o", o], timeout=200)
            if r.rc:
                return "%s does not compile as %s: %s" % (os.path.basename(s), "C++" if cpp else "C", errline(r.err))
            objs.append(o)
            g = "main" if s == main else os.path.basename(os.path.dirname(s))
            kept.setdefault(g, ([], []))[cpp].append(o)
        r = run(["g++" if cpp else "gcc", *objs, "-o", os.path.join(d, "prog")], timeout=200)
        if r.rc:
            return "the program does not link: " + r.err[-500:]
        return None

    def _job(ij):
        i, (n, opt, drv, cs) = ij
        d = os.path.join(base, "j%d" % i)
        if n is None:
            ref, e = named(d, b"in.dbc")
            bad = []
            for x in cs:
                got, e = named(d, x)
                if e or got != ref:
                    bad.append(("filename:%s" % x.hex()[:60], "for a DBC file called %r %s" % (x, e or "the code is another one"), {"in.dbc": texts["rich"].encode("latin-1")}))
            rm(d)
            return bad[:3], len(cs), len(cs)
        os.makedirs(d)
        bad, n_ok, progs = [], 0, 0
        for k, c in enumerate(cs):
            rm(os.path.join(d, "out"))
            p = gen_driver(exe, d, texts[n].encode("latin-1"), drv, ("-rw",) + ((opt,) if opt else ()))
            if not p:
                miss = uncomment(os.path.join(d, "out/conf/%s-config.h" % drv.lower()), [macro(drv, s) for s in c])
                if miss:
                    p = ("switch", "the configuration header does not offer %s" % miss)
            if not p:
                with open(os.path.join(d, "out/conf/dbccodeconf.h"), "a") as f:
                    f.write(USER % ("double" if k % 2 else "float"))
                kept = {}
                for cpp in (0, 1):
                    e = compile_all(d, c, drv, cpp, kept)
                    n_ok += len(kept and sum((a + b for a, b in kept.values()), [])) if cpp else 0
                    progs += 1
                    p = p or (e and ("compile", e))
                # every mixture of C and C++ sources
                gs = sorted(kept)
                for mix in itertools.product((0, 1), repeat=len(gs)):
                    if p or len(set(mix)) < 2:
                        continue
                    r = run(["g++", *(o for g, m in zip(gs, mix) for o in kept[g][m]), "-o", os.path.join(d, "prog")], timeout=200)
                    n_ok += 1
                    progs += 1
                    if r.rc:
                        p = ("mixture", "with %s the program does not link: %s" % (", ".join("%s as %s" % (g, "C++" if m else "C") for g, m in zip(gs, mix)), r.err[-500:]))
                for f in os.listdir(d):
                    if f.endswith(".o"):
                        os.unlink(os.path.join(d, f))
                if not p and len(c) in (0, 7):
                    for sub in ("lib", "conf", "inc", "butl"):
                        for f in sorted(os.listdir(os.path.join(d, "out", sub))):
                            if f.endswith(".h"):
                                for cc in (["gcc", "-std=c99"], ["g++", "-x", "c++", "-std=c++11"]):
                                    r = run(cc + ["-w", "-fsyntax-only", *incs(d), os.path.join(d, "out", sub, f)])
                                    if r.rc:
                                        p = p or ("header", "%s does not compile on its own: %s" % (f, errline(r.err)))
            if p:
                bad.append(("%s:%s:%s" % (p[0], n, "+".join(c) or "none"), "DBC file '%s', driver %s %s, switches %s: %s" % (n, drv, opt, "+".join(c) or "none", p[1]), {"in.dbc": texts[n].encode("latin-1")}))
                if len(bad) > 2:
                    break
        rm(d)
        return bad, n_ok, progs
    work += [(None, "", "drv", c) for c in chunks(fnames, 60)]
    bag = Bag(chk, 6)
    for (n, o, drv, cs), (bad, k, progs) in zip(work, pmap(_jobcall, list(enumerate(work)))):
        chk.add(states=len(cs), transitions=k, traces_validated_against_impl=progs)
        for x in bad:
            bag.put(*x)
    chk.notes.update(combinations=128, dbc_files=len(texts), file_names=len(fnames), exhaustive=True)
    chk.sample("switches %s" % "+".join(work[3][3][2]))
    chk.assumptions.append("names in the DBC file are identifiers that are neither keywords nor names the driver defines itself; dbccodeconf.h has the user's types appended as it asks for")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C15", run_check)
