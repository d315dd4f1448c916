"""C31: the configuration header is the user's switchboard. Every subset of its commented switches, uncommented in the file (or defined in the common
dbccodeconf.h), against the same subset defined on the compiler's command line: every source must become the same text."""
import os, sys, itertools, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

HASH = '#define GetFrameHash(a,b,c,d,e) my_hash((a),(b),(c),(d),(e))\n'
FULL = '''VERSION "2.5"

BU_: Gw Ecu

BO_ 100 F1: 8 Gw
 SG_ A : 0|4@1+ (1,0) [0|0] "" Ecu
 SG_ R : 4|4@1+ (1,0) [0|0] "" Ecu
 SG_ B : 8|12@1- (0.5,-40) [0|0] "V" Ecu
 SG_ D : 24|3@1+ (2,1) [0|0] "" Ecu
 SG_ C : 56|8@1+ (1,0) [0|0] "" Ecu

BO_ 2147484000 F2: 3 Ecu
 SG_ X : 7|10@0- (1,5) [0|0] "" Gw

BO_ 7 None: 2 Ecu

CM_ SG_ 100 R "<RollingCounter>";
CM_ SG_ 100 C "<Checksum:XOR8:3>";
'''
PLAIN = 'BU_: Gw\n\nBO_ 1 Only: 1 Gw\n SG_ S : 0|8@1+ (1,0) [0|0] "" Gw\n\n'
HOLLOW = "BU_: Gw Ecu\n\nBO_ 5 Hollow: 8 Gw\n\n"
TEXTS = (("full", FULL), ("plain", PLAIN), ("hollow", HOLLOW))
OPTS = ((), ("-nodeutils",), ("-nofmon",), ("-driverdir",), ("-nodeutils", "-driverdir", "-gendate"))
NAMES = ("drv", "My_Drv2", "x", "USE", "use_sigfloat", "d" * 60)


def uncomment(text, on):
    out = []
    for line in text.split("\n"):
        m = re.fullmatch(r"\s*(?:/\*|//)\s*#define (\w+)\s*(?:\*/)?\s*", line)
        out.append("#define %s" % m.group(1) if m and m.group(1) in on else line)
    return "\n".join(out)


def offered(text):
    return re.findall(r"^\s*(?:/\*|//)\s*#define (\w+)\s*(?:\*/)?\s*$", text, re.M)


def preprocess(src, dirs, flags, stub):
    r = subprocess.run(["gcc", "-E", "-P", "-w", "-nostdinc", "-I", stub, *flags, *["-I" + x for x in dirs], src], capture_output=True)
    return r.stdout if r.returncode == 0 else b"ERROR " + r.stderr[:400]


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    combos = [c for n in range(8) for c in itertools.combinations(SWITCHES, n)]
    jobs = [(t, o, (n,)) for t, o in itertools.product(TEXTS, OPTS) for n in NAMES[:2]]
    jobs += [(TEXTS[0], o, (n,)) for n in NAMES[2:] for o in OPTS[:2]]
    jobs += [(TEXTS[0], o, p) for o in OPTS[:2] for p in (("drv", "drv2"), ("drv", "drv_use"), ("a_drv", "drv"), ("use", "use_use"))]
    if chk.thorough:
        jobs += [(t, o, (n,)) for t in TEXTS for o in OPTS for n in NAMES[2:]] + [(TEXTS[0], o, p) for o in OPTS for p in itertools.permutations(NAMES[:5], 2)]
    jobs = list(dict.fromkeys(jobs))
    global _job

    def _job(ij):
        i, ((tag, text), opts, names) = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(os.path.join(d, "stub"))
        # the standard headers are the same on both sides
        for h in ("stdint.h", "stddef.h"):
            open(os.path.join(d, "stub", h), "w").write("")
        pp = lambda src, dirs, flags=(): preprocess(src, dirs, flags, os.path.join(d, "stub"))
        few = not (tag == "full" and len(names) == 1 and names[0] in NAMES[:1 if opts[:1] != ("-nodeutils",) else 2]) and not chk.thorough
        bad, n, done = [], 0, 0
        dirs, srcs, confs, common = {}, {}, {}, {}
        for nm in names:
            r = gen(exe, text, os.path.join(d, "out"), nm, ("-rw",) + opts)
            if r.rc or r.timeout:
                return [("generator", "%r" % r)], 0, 0
            top = os.path.join(d, "out", *([nm] if "-driverdir" in opts else []))
            if not os.path.isdir(top):
                top = next((os.path.join(d, "out", x) for x in os.listdir(os.path.join(d, "out")) if x.lower() == nm.lower()), top)
            dirs[nm] = [os.path.join(top, x) for x in ("lib", "conf", "inc", "butl", "usr")]
            p = os.path.join(top, "conf", nm.lower() + "-config.h")
            common[nm] = os.path.join(top, "conf", "dbccodeconf.h")
            if not os.path.exists(p):
                return [("noconfig:%s:%s" % (nm, opts), "no configuration header for driver %s with %s" % (nm, opts))], 0, 0
            confs[nm] = (p, open(p).read())
            fs = {os.path.join(top, s, f) for s in ("lib", "butl", "usr") if os.path.isdir(os.path.join(top, s)) for f in os.listdir(os.path.join(top, s))}
            fs -= {f for o in names for f in srcs.get(o, ())} - {os.path.join(top, "lib", nm.lower() + ".c")}
            srcs[nm] = sorted(f for f in fs if f.endswith(".c"))
            if not any(os.path.basename(f) == nm.lower() + ".c" for f in srcs[nm]):
                raise CheckError("no driver source for %s" % nm)
            # every switch that the sources ask for is offered
            up, asked, defined = nm.upper(), set(), set()
            for f in fs | {confs[nm][0]}:
                t = open(f, errors="replace").read()
                for m in re.finditer(r"^\s*#\s*(?:if|ifdef|ifndef|elif)\b(.*)$", t, re.M):
                    asked |= set(re.findall(r"\b%s_(?:USE|AUTO)_\w+" % up, m.group(1)))
                defined |= set(re.findall(r"^\s*#\s*define (\w+)", t, re.M))
            off = offered(confs[nm][1])
            want = [macro(nm, s) for s in SWITCHES]
            n += 1
            others = tuple(o.upper() + "_" for o in names if o != nm and o.upper().startswith(up + "_"))
            lack = sorted(x for x in (asked - defined) | set(want) if x not in off and not (others and x.startswith(others)))
            if lack:
                bad.append(("lack:%s" % lack[0], "the configuration header of %s does not offer the switch %s" % (nm, ", ".join(lack))))
            if len(set(off)) != len(off):
                bad.append(("twice:%s" % nm, "the configuration header of %s offers a switch twice: %s" % (nm, off)))
        for nm in names:
            p, t = confs[nm]
            c0 = open(common[nm]).read() if os.path.exists(common[nm]) else ""
            before = {(o, s): pp(s, dirs[o]) for o in names for s in srcs[o]}
            effect = {}
            for c in combos:
                if few and 2 < len(c) < 6:
                    continue
                done += 1
                on = [macro(nm, s) for s in c]
                ref = {s: pp(s, dirs[nm], ["-D%s=" % x for x in on]) for s in srcs[nm]}
                effect[c] = ref
                for way in ("file", "common")[:2 if len(c) in (0, 1, 7) or chk.thorough else 1]:
                    if way == "file":
                        open(p, "w").write(uncomment(t, on))
                    else:
                        open(common[nm], "w").write(c0 + "\n" + "".join("#define %s\n" % x for x in on))
                    for s in srcs[nm]:
                        n += 1
                        got = pp(s, dirs[nm])
                        if got != ref[s]:
                            bad.append(("%s:%s:%s" % (way, os.path.basename(s)[:20], c), "%s with %s %s is not what the compiler's -D gives%s" % (
                                os.path.basename(s), "+".join(c) or "no switch", "uncommented in %s" % os.path.basename(p) if way == "file" else "defined in dbccodeconf.h",
                                ": " + got.decode("latin-1")[:300] if got.startswith(b"ERROR") else "")))
                            break
                    # and it is nobody else's business
                    for o in names:
                        if o != nm and len(c) in (1, 7) and way == "file":
                            for s in srcs[o]:
                                n += 1
                                if pp(s, dirs[o]) != before[(o, s)]:
                                    bad.append(("other:%s:%s" % (o, c), "%s changes with the switches %s of driver %s" % (os.path.basename(s), c, nm)))
                    open(p, "w").write(t)
                    if way == "common":
                        open(common[nm], "w").write(c0)
                if bad:
                    break
            for s in srcs[nm]:
                if before[(nm, s)].startswith(b"ERROR"):
                    bad.append(("err", before[(nm, s)].decode("latin-1")[:300]))
            if tag == "full" and not bad:
                # every switch does something where it is documented to
                rest = {"BITS_SIGNAL": (), "CANSTRUCT": (), "SIGFLOAT": (), "DIAG_MONITORS": (), "MONO_FMON": ("DIAG_MONITORS",), "ROLL": ("DIAG_MONITORS",), "CSM": ("DIAG_MONITORS",)}
                for s in SWITCHES:
                    need = rest[s]
                    key = lambda x: tuple(k for k in SWITCHES if k in x)
                    n += 1
                    if effect[key(need + (s,))] == effect[key(need)]:
                        bad.append(("idle:%s" % s, "the switch %s has no effect on any source of %s" % (macro(nm, s), nm)))
        rm(d)
        return [(k, "%s, %s: %s" % (tag, " ".join(opts) or "no options", x)) for k, x in bad[:4]], n, done
    bag = Bag(chk, 4)
    for (tt, o, nm), (bad, n, done) in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(states=done, transitions=n, traces_validated_against_impl=done)
        for key, text in bad:
            bag.put(key, text, {"in.dbc": tt[1], "command.txt": "coderdbc -dbc in.dbc -out out -drvname %s -rw %s" % (" / ".join(nm), " ".join(o))})
    chk.notes.update(trees=len(jobs), switch_sets=len(combos), exhaustive=True)
    chk.assumptions.append("the standard headers are the same on both sides; the user's editor replaces the whole comment line of a switch by its #define")
    chk.sample("+".join(combos[77]))


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C31", run_check)
