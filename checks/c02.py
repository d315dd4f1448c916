"""C02: every bit layout, encoded from every field value of the pattern alphabet, against the bit-by-bit reference."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import c01


def run_check(chk):
    every = lambda tag: lambda s: True
    edge = (1, 2, 5, 7, 8, 9, 12, 16, 17, 24, 31, 32, 33, 40, 63, 64)
    some = lambda tag: (lambda s: tag == "tight" and not s.signed and s.length in edge)
    confs = [(Conf(init=None), every), (Conf(("CANSTRUCT",), init=0x5A), some)]
    if chk.thorough:
        confs += [(Conf(init=0xFF), every), (Conf(("CANSTRUCT", "BITS_SIGNAL"), init=0xA5), every)]
        confs[1] = (confs[1][0], every)
    chk.assumptions += ["field value alphabet per layout: single bits over 64 bits and their complements, all 2^k-1, constants, pairs of "
                        "signal bits, all values of signals up to 8 (thorough 12) bits; fields are written through their own C type, so "
                        "values wider than the signal are included"]
    c01.body(chk, "encode", confs, ("encode", "12" if chk.thorough else "8"))
    neighbours(chk)


def neighbours(chk):
    """Frames full of signals: all fields set at once, every initial byte, both pack forms."""
    exe = build_coderdbc()
    msgs = []
    n = 0
    for dlc in (1, 2, 3, 5, 7, 8, 12, 33, 64):
        for step in (1, 3, 4, 5, 7, 8, 9, 12, 16, 24, 31, 33, 48, 63, 64):
            for order in (INTEL, MOTO):
                for gap in (0, 1):
                    sigs, used = [], set()
                    for start in range(8 * dlc):
                        s = Sig("A%d" % len(sigs), start, step, order, bool(len(sigs) & 1))
                        if s.fits(dlc) and not used & set(s.bits()):
                            used |= set(s.bits())
                            for extra in range(gap):
                                used.add(max(s.bits()) + 1)
                            sigs.append(s)
                    if sigs:
                        msgs.append(Msg("F%d" % n, n + 1, dlc, sigs, bool(n & 1)))
                        n += 1
    inits = (0, 0xFF, 0x5A, 0x80) if not chk.thorough else (0, 0xFF, 0x5A, 0xA5, 0x80, 0x01, 0x7E)
    jobs = []
    for init in inits:
        for sw in ((), ("CANSTRUCT",), ("BITS_SIGNAL",)):
            for c in chunks(msgs, 40):
                jobs.append((c, Conf(sw, init=init)))
    global _job
    base = chk.dir("n")

    def _job(ij):
        i, (c, conf) = ij
        d = os.path.join(base, "j%d" % i)
        oc = run_case(exe, d, c, conf, args=("encode", "4"))
        rm(d)
        return oc
    for (c, conf), oc in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(transitions=oc.evals, states=len(c), traces_validated_against_impl=1)
        report(chk, exe, oc, c, conf, ("encode", "4"), "neighbours")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C02", run_check)
