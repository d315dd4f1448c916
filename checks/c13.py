"""C13: rolling counters. The generated pack and unpack functions with automatic rolling, explored as a sender/receiver system: one-step
transitions from every counter value (boundary values above 6 bits), all pairs and triples of received counters, and all histories of
sending, losing, repeating, swapping and re-delivering old frames up to a depth; every counter width, byte order, sign and alignment."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

MARK = ["<RollingCounter>", "the <RollingCounter> of the frame", "first line\nsecond <RollingCounter>;\nthird", "<x> <RollingCounter>", "<RollingCounter> <Checksum M1>", "a > b <RollingCounter>", "<<RollingCounter>>"]


def frames(widths, ext):
    out, k = [], 0
    for w in widths:
        for order in (INTEL, MOTO):
            for signed in (False, True):
                if signed and w > ext:
                    continue
                for a in (0, 3, 7):
                    dlc = 12 if w + a > 48 else 8
                    s = Sig("RC", a if order == INTEL else 7 - a, w, order, signed)
                    if not s.fits(dlc):
                        continue
                    used = set(s.bits())
                    sigs = [s]
                    for j, (st, ln, o, sg) in enumerate(((0, 3, INTEL, False), (8 * dlc - 9, 8, INTEL, True), (8 * dlc - 1, 5, MOTO, False), (19, 4, MOTO, True), (3, 5, INTEL, False), (40, 6, INTEL, False))):
                        n = Sig("N%d" % j, st, ln, o, sg)
                        if n.fits(dlc) and not used & set(n.bits()):
                            used |= set(n.bits())
                            sigs.append(n)
                    if k % 3 == 1 and len(sigs) > 1:
                        sigs = sigs[1:] + sigs[:1]
                    out.append(Msg("W%d%s%s%d" % (w, "im"[order == MOTO], "us"[signed], a), 0x100 + k, dlc, sigs, bool(k & 1)))
                    k += 1
    return out


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    small = list(range(1, 18)) + [24, 31, 32]
    jobs = []
    depth = "4" if not chk.thorough else "6"
    for sw, ext, ws in ((("ROLL", "DIAG_MONITORS"), 64, range(1, 65)), (("ROLL", "DIAG_MONITORS", "BITS_SIGNAL"), 64, range(1, 65)), (("ROLL", "DIAG_MONITORS"), 32, small), (("ROLL",), 32, small),
                        (("ROLL", "DIAG_MONITORS", "MONO_FMON", "CANSTRUCT"), 64, small + [33, 63, 64] if not chk.thorough else range(1, 65)),
                        (("ROLL", "DIAG_MONITORS", "CSM", "SIGFLOAT", "BITS_SIGNAL"), 32, small)):
        for c in chunks(frames(ws, ext), 36):
            jobs.append((c, Conf(sw, ext, extra=HOOKS)))
    global _job

    def tail(ms, csm=True):
        o = ""
        for m in ms:                  # another signal is the checksum (whose switch is off), named before or after the counter
            x = next((s.name for s in m.sigs if s.name[0] == "N"), None)
            mark = 'CM_ SG_ %d %s "<Checksum:XOR8:3>";\n' % (m.dbcid, x) if x and not csm else ""
            k = (m.id // 5) % 3
            o += mark * (k == 1) + 'CM_ SG_ %d RC "%s";\n' % (m.dbcid, MARK[m.id % len(MARK)]) + mark * (k == 2)
        return o

    def one(d, ms, conf):
        oc = run_case(exe, d, ms, conf, engine="engine_roll.c", args=(depth,), tail=tail(ms, "CSM" in conf.sw))
        rm(d)
        return oc

    def _job(ij):
        i, (ms, conf) = ij
        return one(os.path.join(base, "j%d" % i), ms, conf)
    bag = Bag(chk)
    for (ms, conf), oc in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(states=len(ms), transitions=oc.evals, traces_validated_against_impl=1)
        for n, s, t in oc.fails[:2]:
            m = next((x for x in ms if x.name == n), ms[0])
            o2 = one(os.path.join(base, "m"), [m], conf)
            use = o2 if o2.fails or o2.problem else oc
            g = next(x for x in m.sigs if x.name == "RC")
            bag.put("counter:%d|%d@%d%s:%s" % (g.start, g.length, g.order, "-" if g.signed else "+", conf.key()), "counter %d|%d@%d%s in %d bytes (%s): %s" % (
                g.start, g.length, g.order, "-" if g.signed else "+", m.dlc, conf.key(), (o2.fails or [(0, 0, t)])[0][2]), use.files)
        if oc.problem and not oc.fails:
            bag.put("%s:%s" % (oc.problem[0], conf.key()), oc.problem[1], oc.files)
    chk.notes.update(frames=sum(len(j[0]) for j in jobs), history_depth=int(depth), exhaustive=True)
    chk.sample("all histories of length %s over send/lose/repeat/swap/old from counters 0, max and half" % depth)
    chk.sample(jobs[0][0][7].text())
    chk.assumptions.append("the field of a signed counter is compared modulo its width after pack; scaled counters are not part of the property")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C13", run_check)
