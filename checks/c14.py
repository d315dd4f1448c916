"""C14: checksums. Every position and width of the checksum in every byte of 1..8 byte frames (and 12 and 64 byte frames), both byte orders;
on the generated code every result of the user's hash, every (received, computed) pair of checksums and every single (short frames: double)
bit error, with the arguments and the payload of each call of the hash recorded."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

METHODS = ("XOR8", "Sum_4", "k_Crc", "M3")
OPS = (3, 0, 255, 1, 65535, 12, 7)
MARKS = ("<Checksum:%s:%d>", "Checksum of the frame <Checksum:%s:%d>", "<Checksum:%s:%d> tail", "first line\nsecond: <Checksum:%s:%d>", "range <0..15> then <Checksum:%s:%d> and <x>",
         "a < b, <Checksum:%s:%d>", "x > y: <Checksum:%s:%d>", "<RC><Checksum:%s:%d>:>", "<Checksum:%s:%d>\nmore: <a:b:c>", "   <Checksum:%s:%d>", "<<Checksum:%s:%d>>", "u<<Checksum:%s:%d>")
HOOK = """enum { XOR8 = 10, Sum_4 = 11, k_Crc = 12, M3 = 13 };
uint32_t v_hashcall(const uint8_t* d, int n, uint32_t id, int method, int op);
extern uint32_t v_tick;
#define GetSystemTick() (v_tick)
#define GetFrameHash(a,b,c,d,e) v_hashcall((a),(b),(c),(int)(d),(e))
"""


def frame(k, dlc, byte, lo, ln, order, ineligible=False, extra=()):
    cs = Sig("CX" if ineligible else "CS", 8 * byte + (lo if order == INTEL else lo + ln - 1), ln, order)
    for a in extra:
        setattr(cs, *a)
    if not cs.fits(dlc):
        return None
    sigs, used = [cs], set(cs.bits())
    cand = [Sig("L", 8 * byte, lo), Sig("H", 8 * byte + 7, 8 - lo - ln, MOTO)] if not ineligible and not k % 5 == 4 else []
    for b in range(dlc):
        if (b + k) % 3:
            cand.append(Sig("B%d" % b, 8 * b + (0 if b % 2 else 7), 8 if (b + k) % 4 else 5, INTEL if b % 2 else MOTO, bool((b + k) % 5 == 1)))
    if k % 3 == 0 and byte + 2 < dlc:
        cand.insert(0, Sig("W", 8 * (byte + 1) + 3, 9, INTEL))
    for s in cand:
        if s.length > 0 and s.fits(dlc) and not used & set(s.bits()):
            used |= set(s.bits())
            sigs.append(s)
    if k % 4 == 2:
        sigs = sigs[1:] + sigs[:1]
    return Msg("F%d" % k, k + 1, dlc, sigs, bool(k & 1))


def frames(dlcs, bytes_of, pos):
    out = []
    for dlc in dlcs:
        for byte in bytes_of(dlc):
            for lo, ln in pos:
                for order in (INTEL, MOTO):
                    m = frame(len(out), dlc, byte, lo, ln, order)
                    out.append(m)
    return out


def tail(ms, roll=True):
    """The checksum's comment; in two of three frames another signal is a rolling counter (whose switch is off), named before or after it."""
    o = []
    for m in ms:
        rc = next((s.name for s in m.sigs if s.name[0] in "BWLH"), None)
        mark = 'CM_ SG_ %d %s "<RollingCounter>";' % (m.dbcid, rc) if rc and not roll else None
        if mark and (m.id // 5) % 3 == 1:
            o.append(mark)
        n = "CX" if any(s.name == "CX" for s in m.sigs) else "CS"
        o.append('CM_ SG_ %d %s "%s";' % (m.dbcid, n, MARKS[(m.id // 3) % len(MARKS)] % (METHODS[m.id % 4], OPS[m.id % 7])))
        if mark and (m.id // 5) % 3 == 2:
            o.append(mark)
    return "\n".join(o) + "\n"


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    pos = [(lo, ln) for ln in range(1, 9) for lo in range(0, 9 - ln)]
    few = [(0, 8), (0, 4), (4, 4), (3, 2), (7, 1), (0, 1), (1, 7)]
    short = frames(range(1, 9), range, pos)
    long_ = frames((9, 12, 33, 64), range, few)
    odd = []
    for dlc in (2, 8, 64):
        for byte in (0, dlc // 2 - 1 if dlc > 2 else 0, dlc - 2):
            for lo, ln, order in ((7, 2, INTEL), (4, 8, INTEL), (1, 12, INTEL), (0, 9, INTEL), (0, 16, INTEL)):
                odd.append(frame(len(odd), dlc, byte, lo, ln, order, True))
            for start in range(8):
                for ln in (start + 2, start + 5, start + 9):
                    if ln <= 16:
                        m = frame(len(odd), dlc, byte, 0, 1, INTEL, True, (("start", 8 * byte + start), ("length", ln), ("order", MOTO)))
                        odd.append(m)
            for sg in (3, 8):
                odd.append(frame(len(odd), dlc, byte, 0, sg, INTEL, True, (("signed", True),)))
    odd = [m for m in odd if m]
    for k, m in enumerate(odd):
        m.id, m.name, m.ext = k + 1, "X%d" % k, bool(k & 1)
    A, B = Conf(("CSM", "DIAG_MONITORS"), extra=HOOK), Conf(("CSM", "DIAG_MONITORS", "CANSTRUCT", "BITS_SIGNAL"), init=0xFF, extra=HOOK)
    C, D = Conf(("CSM",), init=0x5A, extra=HOOK), Conf(("CSM", "DIAG_MONITORS", "MONO_FMON", "ROLL", "SIGFLOAT"), init=1, extra=HOOK)
    plan = [(short, A), (long_, A), (odd, A), (long_[::7], B), (short[::5] if not chk.thorough else short, B), (short[::7] if not chk.thorough else short, C), (long_[::11], C), (odd, B), (odd, D), (short[::11] if not chk.thorough else short, D)]
    jobs = [(c, conf) for ms, conf in plan for c in chunks(ms, 40)]
    global _job

    def one(d, ms, conf):
        oc = run_case(exe, d, ms, conf, engine="engine_csm.c", args=(), tail=tail(ms, "ROLL" in conf.sw))
        rm(d)
        return oc

    def _job(ij):
        i, (ms, conf) = ij
        return one(os.path.join(base, "j%d" % i), ms, conf)
    bag = Bag(chk, 4)
    for (ms, conf), oc in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(states=len(ms), transitions=oc.evals, traces_validated_against_impl=1)
        for n, s, t in oc.fails[:2]:
            m = next((x for x in ms if x.name == n), ms[0])
            o2 = one(os.path.join(base, "m"), [m], conf)
            use = o2 if o2.fails or o2.problem else oc
            g = next(x for x in m.sigs if x.name in ("CS", "CX"))
            bag.put("csm:%d|%d@%d%s:dlc%d:%s" % (g.start, g.length, g.order, "-" if g.signed else "+", m.dlc, conf.key()), "checksum %d|%d@%d%s in %d bytes (%s), comment %r: %s" % (
                g.start, g.length, g.order, "-" if g.signed else "+", m.dlc, conf.key(), tail([m], "ROLL" in conf.sw), (o2.fails or [(0, 0, t)])[0][2]), use.files)
        if oc.problem and not oc.fails:
            bag.put("%s:%s" % (oc.problem[0], conf.key()), oc.problem[1], oc.files)
    chk.notes.update(frames=sum(len(j[0]) for j in jobs), markers=len(MARKS), exhaustive=True)
    chk.sample(jobs[3][0][4].text() + tail([jobs[3][0][4]]))
    chk.assumptions.append("when the hash does not fit the checksum's width, only its low bits are judged on pack and nothing on unpack")
    chk.assumptions.append("checksums of more than 4 bits: all equal pairs, all one-bit differences and a grid of other (received, computed) pairs")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C14", run_check)
