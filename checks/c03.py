"""C03: signals sharing a frame. Every disjoint pair of layouts in two bytes on every value of the signals' bits (thorough:
all 65536 payloads), tilings, multiplexing."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *


def pairs(thorough):
    """All unordered disjoint pairs of layouts of a two-byte frame (each signedness pattern rotates over the pairs)."""
    lay = [(Sig("A", s, l, o)) for s, l, o in all_layouts(2)]
    bits = [frozenset(x.bits()) for x in lay]
    n = 0
    for i in range(len(lay)):
        for j in range(i + 1, len(lay)):
            if bits[i] & bits[j]:
                continue
            for sg in ((n & 3,) if not thorough else range(4)):
                a, b = lay[i], lay[j]
                sigs = [Sig("A", a.start, a.length, a.order, bool(sg & 1)), Sig("B", b.start, b.length, b.order, bool(sg & 2))]
                yield sigs if n & 4 else sigs[::-1]
            n += 1


def tilings(thorough):
    lens = (1, 2, 3, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33)
    if thorough:
        lens = tuple(range(1, 34)) + (40, 48, 56, 63, 64)
    for dlc in ((3, 4, 8, 11, 64) if not thorough else (3, 4, 5, 6, 7, 8, 11, 16, 33, 64)):
        for la, lb in itertools.product(lens, repeat=2):
            if dlc > 8 and not thorough and (la < 5 or lb < 5):
                continue
            for orders in ((INTEL, MOTO), (MOTO, INTEL)) if la != lb else ((INTEL, MOTO),):
                used, sigs = set(), []
                k = 0
                start = 0
                while start < 8 * dlc:
                    for att in range(2):
                        j = (k + att) % 2
                        s = Sig("S%d" % len(sigs), start, (la, lb)[j], orders[j], bool(len(sigs) % 3 == 1))
                        if s.fits(dlc) and not used & set(s.bits()):
                            used |= set(s.bits())
                            sigs.append(s)
                            k += 1
                            break
                    start += 1
                if len(sigs) > 1:
                    yield dlc, sigs


def muxed():
    """Multiplexed frames: n variants over the same bytes."""
    for order in (INTEL, MOTO):
        for n in (2, 3, 17, 64, 100, 256, 400):
            sigs = [Sig("Selector", 0 if order == INTEL else 7, 8, order, mux="M")]
            for i in range(n):
                length = (8, 16, 13, 32, 5, 1, 40)[i % 7]
                start = (8 if order == INTEL else 15) + (i // 7 % 8 if length < 14 and order == INTEL else 0)
                sigs.append(Sig("Multiplexed_signal_%03d" % i, start, length, order, i % 2 == 1 and length <= 32, mux="m%d" % i))
            yield 8, sigs


def run_check(chk):
    exe = build_coderdbc()
    engine_obj()
    jobs = []
    ps = list(pairs(chk.thorough))
    msgs = [Msg("P%d" % i, i + 1, 2, s, ext=True) for i, s in enumerate(ps)]
    for c in chunks(msgs, 150):
        jobs.append(("pairs", c, Conf(init=0), "-O1" if chk.thorough else "-O0"))
    ts = list(tilings(chk.thorough))
    msgs = [Msg("T%d" % i, i + 1, d, s, ext=True) for i, (d, s) in enumerate(ts)]
    for i, c in enumerate(chunks(msgs, 60)):
        jobs.append(("tiling", c, Conf(("BITS_SIGNAL",) if i & 1 else (), ext=64, init=0 if i & 2 else 0xA5), "-O0"))
    mx = list(muxed())
    msgs = [Msg("X%d" % i, i + 1, d, s, ext=True) for i, (d, s) in enumerate(mx)]
    for m in msgs:
        jobs.append(("mux", [m], Conf(), "-O0"))
    global _job
    base = chk.dir("w")

    def _job(ij):
        i, (tag, c, conf, opt) = ij
        d = os.path.join(base, "j%d" % i)
        oc = run_case(exe, d, c, conf, args=("exhaust", "1" if chk.thorough else "0"), opt=opt)
        if not oc.fails and not oc.problem and tag == "mux":
            o2 = run_case(exe, d, c, conf, args=("encode", "2"), opt=opt)
            oc.evals += o2.evals
            oc.fails, oc.problem = o2.fails, o2.problem
        rm(d)
        return oc
    for (tag, c, conf, opt), oc in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(transitions=oc.evals, states=len(c), traces_validated_against_impl=1)
        report(chk, exe, oc, c, conf, ("exhaust", "1"), tag)
    chk.notes.update(pairs=len(ps), tilings=len(ts), multiplexed_frames=len(mx), exhaustive=True)
    chk.sample("pair " + " / ".join(x.text().strip() for x in ps[len(ps) // 2]))
    chk.sample("tiling dlc %d " % ts[-1][0] + " / ".join(x.text().strip() for x in ts[-1][1][:4]))
    chk.assumptions.append("tilings alternate two lengths and byte orders; field values of frames with up to 8 signals take every "
                           "combination of {0, max, top bit, 0x5A..}; payloads of longer frames: each byte's values and all pairs of bits on three backgrounds")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C03", run_check)
