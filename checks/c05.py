"""C05: a frame behaves the same alone and in every context. Templates share signal names but differ in everything else; every
ordered pair (each in both id orders), every window of three in three orders and the whole set in two orders (thorough: every
ordered triple) is generated, compiled and compared frame by frame with the frame generated alone."""
import copy, os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

S, I, M = Sig, INTEL, MOTO


def templates():
    """[(dlc, ext, tx, signals, annotation lines with %(id)d)] - all with signals named A and B."""
    t = []

    def add(dlc, sigs, ext=False, tx="N1", ann=()):
        assert all(s.fits(dlc) for s in sigs)
        t.append((dlc, ext, tx, sigs, ann))
    add(8, [S("A", 0, 8), S("B", 8, 8)])
    add(8, [S("A", 7, 12, M, True), S("B", 16, 9)])
    add(8, [S("A", 0, 8, factor="2"), S("B", 8, 16, factor="0.5", offset="-10.5")])
    add(8, [S("A", 0, 8, factor="3"), S("B", 8, 16, factor="0.25", offset="7.5")])
    add(8, [S("A", 0, 16, factor="2"), S("B", 16, 9, factor="0.5", offset="-10.5")])
    add(8, [S("A", 0, 8, factor="2", signed=True), S("B", 8, 16, factor="5", offset="-10")])
    add(4, [S("A", 0, 16, factor="0.5"), S("B", 16, 16)], ext=True)
    add(8, [S("A", 0, 40, factor="10"), S("B", 40, 1)])
    add(2, [S("A", 0, 8, offset="100"), S("B", 8, 8, offset="-100")])
    add(3, [S("B", 0, 4), S("A", 4, 4)])
    add(64, [S("A", 500, 12), S("B", 7, 24, M)])
    add(1, [S("A", 0, 1)])
    add(8, [])
    add(5, [], ext=True)
    val = ('VAL_ %(id)d A 0 "Off" 1 "On" 2 "Err or" ;', 'VAL_ %(id)d B 7 "Max val" 3 "Off" ;')
    add(8, [S("A", 0, 8), S("B", 8, 8)], ann=val)
    add(8, [S("A", 0, 8), S("B", 8, 8)], ann=('VAL_ %(id)d A 5 "Off" 4 "On" ;', 'CM_ SG_ %(id)d A "text of a signal";'))
    roll = ('CM_ SG_ %(id)d A "the <RollingCounter> here";',)
    add(8, [S("A", 0, 4), S("B", 8, 8)], ann=roll)
    add(8, [S("B", 0, 4), S("A", 8, 8)], ann=roll)
    csm = ('CM_ SG_ %(id)d B "<Checksum:XOR8:3>";',)
    add(8, [S("A", 0, 8), S("B", 56, 8)], ann=csm)
    add(3, [S("A", 8, 8), S("B", 0, 8)], ann=csm + roll)
    cyc = ('BA_ "GenMsgCycleTime" BO_ %(id)d 250;',)
    add(8, [S("A", 0, 8), S("B", 8, 8)], ann=cyc)
    add(8, [S("A", 0, 8), S("B", 8, 8)], ann=('BA_ "GenMsgCycleTime" BO_ %(id)d 40;', 'CM_ BO_ %(id)d "frame text";'))
    add(8, [S("A", 0, 8, mux="M"), S("B", 8, 16, mux="m0"), S("C", 8, 8, M, mux="m1")])
    add(8, [S("A", 0, 4, M, unit="V"), S("B", 8, 55, unit="km/h", rec=("N3", "N1"))])
    add(8, [S("A", 0, 8, factor="-1"), S("B", 8, 8, factor="1e-12", offset="0")], tx="N3")
    return t


def make(t, k, cid, name=None):
    dlc, ext, tx, sigs, ann = t
    m = Msg(name or "M%02d" % k, cid, dlc, [copy.copy(s) for s in sigs], ext, tx)
    return m, [a % {"id": m.dbcid} for a in ann]


def dbc_of(items, annorder=1):
    """items: [(Msg, annotations)] in file order."""
    anns = [a for _, x in items[::annorder] for a in x]
    return dbc_text([m for m, _ in items], "\n".join(anns))


def run_check(chk):
    exe = build_coderdbc()
    engine_obj()
    T = templates()
    n = len(T)
    full = Conf(("SIGFLOAT", "DIAG_MONITORS", "ROLL", "CSM"), ext=64, extra=HOOKS)
    slim = Conf(("BITS_SIGNAL", "CANSTRUCT"), ext=64, extra=HOOKS)
    ID = lambda k: 0x100 + 3 * k
    low = lambda k: 0x20 + k
    jobs = []                                     # (tag, [(template, id)], file order is list order, annorder, conf)
    for k in range(n):
        for conf in (full, slim):
            jobs.append(("alone", [(k, ID(k))], 1, conf))
            jobs.append(("alone", [(k, low(k))], 1, conf))
    for a, b in itertools.permutations(range(n), 2):   # a is listed first; its id below and above that of b
        jobs.append(("pair", [(a, ID(a)), (b, ID(b))], 1 if (a + b) & 1 else -1, full))
        jobs.append(("pair", [(a, low(a)), (b, ID(b))] if a > b else [(a, ID(a)), (b, low(b))], 1, full if (a + b) % 3 else slim))
    for conf in (full, slim):
        jobs.append(("all", [(k, ID(k)) for k in range(n)], 1, conf))
        jobs.append(("all", [(k, ID(k)) for k in range(n)][::-1], -1, conf))
    if chk.thorough:
        for x in itertools.permutations(range(n), 3):
            jobs.append(("triple", [(k, ID(k)) for k in x], 1, full))
    else:
        for a in range(n):
            x = (a, (a + 1) % n, (a + 7) % n)
            for y in itertools.permutations(x):
                jobs.append(("triple", [(k, ID(k)) for k in y], 1, full))
    for m, at in ((255, 0), (256, 128), (300, 299)) + (((400, 350),) if chk.thorough else ()):      # templates at some place of a large network
        for conf in (full, slim):
            jobs.append(("many%d:%d" % (m, at), [(k, ID(k)) for k in range(n)], 1, conf))
    global _job
    base = chk.dir("w")

    def _job(ij):
        i, (tag, ks, ao, conf) = ij
        items = [make(T[k], k, cid) for k, cid in ks]
        if tag.startswith("many"):
            m, at = map(int, tag[4:].split(":"))
            fill = [make(T[(k * 5) % n], k, 0x300 + 2 * k if k % 3 else 0x7FF - k, "X%03d" % k) for k in range(m)]
            items = fill[:at] + items + fill[at:]
        d = os.path.join(base, "j%d" % i)
        p, snap, oc = snapshot(exe, d, dbc_of(items, ao), [m for m, _ in items], conf)
        rm(d)
        for f in snap.values():                       # names of the conversion macros are the driver's business
            f["macros"] = {k: v for k, v in f["macros"].items() if not k.startswith("DRV_") or f is snap["*"]}
        return p, snap, oc.evals, oc.files
    res = pmap(_jobcall, list(enumerate(jobs)), 4)
    alone = {}
    for (tag, ks, ao, conf), (p, snap, ev, files) in zip(jobs, res):
        if tag == "alone":
            alone[ks[0], conf.key()] = snap
    seen = set()
    for (tag, ks, ao, conf), (p, snap, ev, files) in zip(jobs, res):
        chk.add(transitions=ev, states=len(ks), traces_validated_against_impl=1)
        what = "+".join("M%02d" % k for k, _ in ks)
        if p:
            chk.violation("%s:%s" % (tag, p[0]), "frames %s (%s): %s" % (what, conf.key(), p[1]), files)
            continue
        for x in ks:
            name = "M%02d" % x[0]
            ref = alone[x, conf.key()].get(name)
            if ref is not None and ref != snap[name]:
                t = diff(ref, snap[name])
                if (name, t.split(":")[0]) not in seen:
                    seen.add((name, t.split(":")[0]))
                    chk.violation("%s:%s:%s" % (tag, name, t.split(":")[0]), "frame %s in a file with %s (%s) differs from the frame alone: %s" % (name, what, conf.key(), t), files)
        want = max(T[k][0] for k, _ in ks)
        got = snap["*"]["macros"].get("DRV_MAX_DLC_VALUE")
        if got != want:
            chk.violation("%s:maxdlc" % tag, "frames %s: maximum DLC %s instead of %s" % (what, got, want), files)
    chk.notes.update(templates=n, files=len(jobs), exhaustive=True)
    chk.sample("M02+M03: " + " / ".join(x.text().strip() for x in T[2][3] + T[3][3]))
    chk.assumptions.append("contexts: all ordered pairs of the templates with the context frame's id above and below, selected (thorough: all) "
                           "ordered triples, all templates together; behaviour compared on single-bit and constant payloads (hash per signal)")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C05", run_check)
