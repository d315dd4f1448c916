"""C22: signals that do not fit their frame. Every start bit around and inside the frame with every length around the last one that fits,
both byte orders, over the frame lengths; start bits and lengths far out of range as text; misfits next to fitting signals and in every
position of the file. The compiler decides, function by function; whatever looks accepted is compiled again on its own."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

CENV = dict(os.environ, LC_ALL="C", LANG="C", LANGUAGE="C")
OK = (0, 8, 1)                       # a signal that fits every frame


def fits(start, length, order, dlc):
    return Sig("x", start, length, order).fits(dlc) if 1 <= length <= 64 else False


def boundary(dlc, dense):
    """Every (start, length, order) near the end of a frame of dlc bytes."""
    for order in (INTEL, MOTO):
        for start in range(0, 8 * dlc + 20):
            room = 8 * dlc - (start if order == INTEL else start // 8 * 8 + 7 - start % 8)
            lens = {room + k for k in ((-1, 0, 1, 2, 7, 8, 9) if dense else (0, 1, 8))} | {0, 1, 64, 65}
            if dense:
                lens |= {8, 9, 32, 33, 63, 66, 72}
            for n in sorted(x for x in lens if 0 <= x <= 80):
                yield start, n, order


NUMS = (-2147483648, -65536, -64, -8, -1, 0, 1, 7, 8, 63, 64, 65, 71, 72, 127, 128, 255, 256, 257, 263, 264, 504, 505, 511, 512, 513, 519, 520, 767, 768,
        32767, 32768, 65535, 65536, 65537, 65543, 65544, 16777216, 2147483647, 2147483648, 2147483656, 4294967295, 4294967296, 4294967297, 4294967304,
        (1 << 63) - 1, 1 << 63, 1 << 64, (1 << 64) + 8, 10 ** 25)


def sigtext(name, s, n, o, signed=False, fac="1", off="0"):
    return ' SG_ %s : %d|%d@%d%s (%s,%s) [0|0] "" N2\n' % (name, s, n, o, "-" if signed else "+", fac, off)


def frame(name, mid, dlc, sigs):
    return "BO_ %d %s: %d N1\n%s\n" % (mid, name, dlc, "".join(sigs))


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    dlcs = range(1, 65)
    jobs = []
    for dlc in dlcs:
        cases = [((s, n, o), fits(s, n, o, dlc)) for s, n, o in boundary(dlc, chk.thorough or dlc in (1, 2, 8, 9, 64))]
        good, bad = [c for c, f in cases if f], [c for c, f in cases if not f]
        while bad:
            b, bad = bad[:300], bad[300:]
            g, good = good[:300], good[300:]
            jobs.append(("grid", dlc, [(c, i) for p in itertools.zip_longest(b, g + [OK] * (len(b) - len(g))) for c, i in ((p[0], False), (p[1], True)) if c]))
        for g in chunks(good, 500):
            jobs.append(("grid", dlc, [(c, True) for c in g]))
    for dlc in (1, 8, 64):
        cases = [(s, n, o) for o in (INTEL, MOTO) for s in NUMS for n in (NUMS if chk.thorough or dlc == 8 else NUMS[3:20])]
        for cs in chunks([c for c in cases if not fits(*c, dlc)], 200):
            jobs.append(("grid", dlc, [x for c in cs for x in ((c, False), (OK, True))]))
    # a misfit in company: kinds of misfit x kinds of company x place of the frame in the file
    mis = [(57, 8, 1), (62, 3, 1), (60, 12, 0), (56, 2, 0), (63, 9, 0), (0, 65, 1), (7, 72, 0), (0, 0, 1), (64, 1, 1), (512, 8, 1), (4, 0, 0), (7, 65, 0), (8, 57, 1), (40, 26, 0)]
    single = []
    for m in mis:
        for kind in range(5):
            sg = {0: [sigtext("X", *m)], 1: [sigtext("X", *m, signed=True)], 2: [sigtext("X", *m, fac="2", off="-5")],
                  3: [sigtext("X", *m, signed=True, fac="0.25")], 4: [sigtext("X m0", *m)]}[kind]
            for co in range(5):
                fr = frame("Bad", 500, 8, {0: sg, 1: [sigtext("A", 0, 8, 1)] + sg, 2: sg + [sigtext("A", 0, 64, 1)], 3: sg + [sigtext("A", 7, 64, 0), sigtext("B", 56, 8, 1)],
                                           4: [sigtext("Sel M", 0, 4, 1)] + sg + [sigtext("Y m1", 8, 16, 1)]}[co])
                good = frame("Good", 7 if (co + kind) % 2 else 700, 8, [sigtext("A", 3, 60, 1)])
                fd = frame("Fd", 600, 64, [sigtext("A", 500, 12, 1)])
                tail = ('CM_ SG_ 500 X "<RollingCounter>";\n', 'CM_ SG_ 500 X "<Checksum:X8:1>";\n', "")[(kind + co) % 3]
                single.append("BU_: N1 N2\n\n" + "".join({0: (fr,), 1: (good, fr), 2: (fr, good, fd), 3: (fd, fr), 4: (good, fd, fr)}[(co + kind) % 5]) + tail)
    jobs += [("single", 0, c) for c in chunks(single, 25)]
    global _job

    def alone(d, text):
        """Why the driver of this text counts as accepted, or None if it is refused."""
        rm(os.path.join(d, "a"))
        os.makedirs(os.path.join(d, "a"))
        r = gen(exe, text, os.path.join(d, "a", "out"), "drv", ("-rw", "-nofmon", "-noinc"))
        if r.rc < 0 or r.timeout:
            return "the generator crashes (%s) instead of refusing" % r.rc
        c = os.path.join(d, "a/out/lib/drv.c")
        if not os.path.exists(c):
            return None
        r = run(["gcc", "-std=gnu11", "-w", "-fsyntax-only", *incs(os.path.join(d, "a")), c], env=CENV)
        return "the driver compiles" if r.rc == 0 else None

    def _job(ij):
        i, (kind, dlc, cases) = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(d)
        out = []
        if kind == "single":
            for t in cases:
                e = alone(d, t)
                if e:
                    out.append(("company", "a signal that does not fit stands next to others: " + e, t))
            rm(d)
            return len(cases), len(cases), out
        txt = "BU_: N1 N2\n\n" + "".join(frame("F%d" % k, k + 1, dlc, [sigtext("X", *c, signed=(k % 3 == 0), fac=("1", "1", "2", "0.5")[k % 4])]) for k, (c, _) in enumerate(cases))
        r = gen(exe, txt, os.path.join(d, "out"), "drv", ("-rw", "-nofmon", "-noinc"), timeout=200)
        src = os.path.join(d, "out/lib/drv.c")
        bad = None
        if r.rc == 0 and os.path.exists(src):
            g = run(["clang", "-std=gnu11", "-w", "-fsyntax-only", "-ferror-limit=0", "-fno-spell-checking", "-fno-caret-diagnostics", *incs(d), src], env=CENV, timeout=300)
            at, where = None, []          # which frame's functions a line of the source belongs to
            with open(src, errors="replace") as f:
                for line in f:
                    m = re.search(r"\b(?:Unp|P)ack_F(\d+)_drv\s*\(", line)
                    at = m.group(1) if m else at
                    where.append(at)
            bad = {where[int(x) - 1] for x in re.findall(r"drv\.c:(\d+):\d+: (?:fatal )?error", g.err)}
            if not bad and g.rc:
                bad = None
        runs = 1
        for k, (c, ok) in enumerate(cases):
            if bad is not None and (str(k) not in bad) == ok:
                continue
            one = "BU_: N1 N2\n\n" + frame("F%d" % k, k + 1, dlc, [sigtext("X", *c, signed=(k % 3 == 0), fac=("1", "1", "2", "0.5")[k % 4])])
            e = alone(d, one)
            runs += 1
            if ok != bool(e) or (e and "crash" in e):
                what = "signal %d|%d@%d in a frame of %d bytes: " % (*c, dlc)
                out.append(("refused" if ok else "accepted", what + ("it fits but the driver does not compile" if ok and not e else "it does not fit but " + e if not ok else e), one))
                if len(out) > 20:
                    break
        rm(d)
        return len(cases), runs, out
    bag = Bag(chk)
    for (kind, dlc, cases), (n, runs, out) in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(states=n, transitions=2 * n + runs, traces_validated_against_impl=runs)
        for k, (key, text, dbc) in enumerate(out):
            bag.put("%s:%d:%s" % (key, dlc, re.sub(r"\W+", "_", text)[:60]), text, {"in.dbc": dbc})
    chk.notes.update(frame_lengths=list(dlcs), exhaustive=True)
    chk.sample("57|8@1+ in 8 bytes"); chk.sample("start 65536, length 8, Intel, 8 bytes"); chk.sample("7|72@0+ in 64 bytes")
    chk.assumptions.append("start bit and length are written as plain decimal numbers")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C22", run_check)
