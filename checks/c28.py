"""C28: the generated code means the same to every compiler. All layouts, scalings, counters and checksums of the models of C01, C02, C04, C13
and C14 run under the undefined behaviour and address sanitizers and under other compilers, optimisation levels, language standards and
character signedness, each against the bit-by-bit models; feature-rich networks are compared transcript by transcript in the
combinations of the configuration switches."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import corpus, c01, c04, c13, c14

SAN = "-fsanitize=undefined", "-fno-sanitize-recover=all"
CC = {
    "ub": (("gcc", "-std=gnu11", *SAN), "-O0"),                       # overlong shifts, overflow, alignment, bounds, bool, null
    "asan": (("clang", "-std=c99", "-D_GNU_SOURCE", *SAN, "-fsanitize=address"), "-O1"),
    "gcc3": (("gcc", "-std=c99", "-D_GNU_SOURCE", "-funsigned-char"), "-O3"),
    "clang2": (("clang", "-std=gnu17", "-funsigned-char"), "-O2"),
    "c++": (("g++", "-std=c++17", "-x", "c++"), "-O2"),
    "clang++": (("clang++", "-std=c++11", "-x", "c++", *SAN), "-O1"),
}



def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    T = chk.thorough
    jobs = []                        # (kind, messages, conf, engine, args, tail, compiler)
    # ---- layouts
    tight, fd = list(c01.classic()), list(c01.wide(64, (1, 7, 8, 12, 16, 17, 31, 32, 33, 48, 63, 64), sorted(set(list(range(0, 17)) + list(range(120, 137)) + list(range(440, 512)))), 1))
    small = [m for m in tight if m.sigs[0].length <= 31]
    shares = {k: (1 if T or k == "ub" else 4) for k in CC}
    for k, (name, step) in enumerate(shares.items()):
        for mode in ("decode", "encode"):
            for c in chunks(tight[(k + (mode == "encode")) % step::step], 260):
                jobs.append(("layout", c, Conf(ext=64), "engine.c", (mode, "3"), "", name))
        for c in chunks(fd[k % 2::1 if T else 2], 20):
            jobs.append(("layout", c, Conf(("BITS_SIGNAL",) if k & 1 else ("CANSTRUCT",), ext=64), "engine.c", ("decode" if k & 2 else "encode", "2"), "", name))
    for c in chunks(small[::1 if T else 3], 260):
        jobs.append(("layout", c, Conf(ext=32), "engine.c", ("decode", "2"), "", "ub"))
    # ---- counters and checksums
    ws = range(1, 65)
    for name, conf in (("ub", Conf(("ROLL", "DIAG_MONITORS"), 64, extra=HOOKS)), ("asan", Conf(("ROLL", "DIAG_MONITORS", "BITS_SIGNAL"), 64, extra=HOOKS)), ("clang2", Conf(("ROLL", "DIAG_MONITORS"), 64, extra=HOOKS))):
        for c in chunks(c13.frames(ws, 64), 36):
            jobs.append(("counter", c, conf, "engine_roll.c", ("3" if T else "2",), "".join('CM_ SG_ %d RC "<RollingCounter>";\n' % m.dbcid for m in c), name))
    pos = [(lo, ln) for ln in range(1, 9) for lo in range(0, 9 - ln)]
    cs = c14.frames(range(1, 9), range, pos)
    ln = c14.frames((9, 12, 33, 64), range, [(0, 8), (0, 4), (4, 4), (3, 2), (7, 1), (0, 1), (1, 7)])
    A, B = Conf(("CSM", "DIAG_MONITORS"), extra=c14.HOOK), Conf(("CSM", "DIAG_MONITORS", "CANSTRUCT", "BITS_SIGNAL"), init=0xFF, extra=c14.HOOK)
    for name, conf, ms in (("ub", A, cs[::1 if T else 4]), ("asan", B, cs[1::1 if T else 9]), ("ub", B, ln[::1 if T else 5]), ("clang2", A, cs[2::1 if T else 9])):
        for c in chunks(ms, 40):
            jobs.append(("checksum", c, conf, "engine_csm.c", (), c14.tail(c), name))
    # ---- scaling
    _, _, sets = c04.frames(T)
    for ms, flt in sets:
        for name, step in (("ub", 1 if T else 2), ("asan", 2 if T else 11), ("c++", 2 if T else 11), ("clang2", 2 if T else 11)):
            for k, c in enumerate(chunks(ms[::step], 150)):
                jobs.append(("scaling", c, flt, None, k & 1, "", name))
    # ---- networks
    texts = dict(corpus.SMALL, rich=corpus.RICH)
    model = {n: corpus.parse(t) for n, t in texts.items()}
    combos = [c for n in range(8) for c in itertools.combinations(SWITCHES, n)]
    nets = []
    for n in sorted(texts):
        if not any(m.sigs for m in model[n]):
            continue
        for c in combos:
            if T or len(c) in (0, 1, 7) or (n == "rich" and len(c) in (2, 6)):
                for init in (None, 0xA5) if T else (None,):
                    nets.append((n, Conf(c, ext=64, init=init, extra=HOOKS)))
    for x in nets:
        jobs.append(("network", *x, None, None, "", ""))
    global _job

    def one(d, kind, ms, conf, engine, args, tail, name):
        cc, opt = CC[name]
        if kind == "scaling":
            return c04.run_phys(exe, d, ms, conf, 4, bool(args), (*cc, opt))
        return run_case(exe, d, ms, conf, engine=engine, args=args, tail=tail, cc=cc, opt=opt, timeout=400)

    def _job(ij):
        i, (kind, ms, conf, engine, args, tail, name) = ij
        d = os.path.join(base, "j%d" % i)
        if kind != "network":
            oc = one(d, kind, ms, conf, engine, args, tail, name)
            rm(d)
            if not oc.fails and not oc.problem:
                oc.files = {}
            oc.out = ""
            return oc
        live = [m for m in model[ms] if m.sigs]
        ref, n = None, 0
        for name in (None, *CC):
            cc, opt = CC[name] if name else (("gcc", "-std=gnu11"), "-O0")
            oc = run_case(exe, d, live, conf, args=("transcript",), dbc=texts[ms].encode("latin-1"), cc=cc, opt=opt)
            rm(d)
            n += oc.evals
            if oc.problem:
                oc.problem = (oc.problem[0], "with %s: %s" % (name or "gcc -O0", oc.problem[1]))
                break
            if name is None:
                ref = oc.out
            elif oc.out != ref:
                x = next(("%s instead of %s" % (a, b) for a, b in zip(oc.out.splitlines(), ref.splitlines()) if a != b), "another length")
                oc.problem = ("differs", "compiled with %s the driver behaves differently than with gcc -O0: %s" % (" ".join((*cc, opt)), x))
                break
        oc.evals, oc.out = n, ""
        oc.fails = []
        return oc
    bag = Bag(chk, 3)
    for j, oc in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        kind, ms, conf, engine, args, tail, name = j
        chk.add(states=1 if kind == "network" else len(ms), transitions=oc.evals, traces_validated_against_impl=len(CC) + 1 if kind == "network" else 1)
        if not oc.problem and not oc.fails:
            continue
        if kind == "network":
            bag.put("network:%s:%s" % (ms, conf.key()), "DBC file '%s', %s: %s" % (ms, conf.key(), oc.problem[1]), oc.files)
            continue
        how = " ".join((*CC[name][0], CC[name][1]))
        bad = [m for m in ms if m.name in {f[0] for f in oc.fails}][:1]
        use = oc
        if bad:
            o2 = one(chk.dir("min"), kind, bad, conf, engine, args, tail if kind in ("layout", "scaling") else "".join(x + "\n" for x in tail.split("\n") if " %d " % bad[0].dbcid in x), name)
            use = o2 if o2.fails or o2.problem else oc
        what = use.problem[1] if use.problem else use.fails[0][2]
        m = (bad or ms)[0]
        bag.put("%s:%s:%s" % (kind, name, m.sigs[0].text().split(":")[1].strip()[:40] if bad else "?"), "%s, compiled with %s: %s" % (m.head() + " / " + m.sigs[0].text().strip() if bad else kind, how, what), use.files)
    chk.notes.update(compilers={k: " ".join((*v[0], v[1])) for k, v in CC.items()}, jobs={k: sum(j[0] == k for j in jobs) for k in ("layout", "counter", "checksum", "scaling", "network")}, exhaustive=True)
    chk.sample("network rich, switches ROLL+CSM, six compilers against gcc -O0")
    chk.sample("%s under -fsanitize=undefined" % tight[777].sigs[0].text().strip())
    chk.assumptions.append("64-bit sign extension helper types for signed signals above 31 bits; physical results fit 64 bits; conversions of out-of-range floating point values are not judged")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C28", run_check)
