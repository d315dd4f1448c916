"""C16: what each of the 128 switch combinations packs and unpacks, compared value by value with the driver built without any switch; bits of
signals that an enabled feature drives (physical values, rolling counter, checksum) are left out of the packed comparison."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import corpus

TEXTS = ("rollscaled", "rollcsm", "csmodd", "wideroll", "bits", "factors", "longnames", "units")


def grid():
    """Frames of four signals in every mixture of byte order, sign, scaling and width class; counters and checksums in every third one."""
    ms, tail = [], ""
    kinds = list(itertools.product((INTEL, MOTO), (False, True), ("1", "3", "0.5")))
    widths = ((1, 7), (8, 8), (3, 13), (12, 20), (16, 16), (5, 27), (31, 33))
    k = 0
    for a in range(0, len(kinds)):
        for w, (n1, n2) in enumerate(widths):
            sg, base, ks = [], 0, (kinds[a], kinds[(a * 5 + w) % len(kinds)])
            size = (n1 + n2 + 14) // 8
            for j, n in enumerate((n1, n2, n2, n1)):
                o, sn, f = ks[j % 2]
                nb = (n + 7) // 8
                st = 8 * base + (8 * nb - n if o == INTEL else (n - 1) % 8)     # upper end of the signal's own bytes
                if o == MOTO:
                    st = 8 * base + (n - 1) % 8
                sg.append(Sig("S%d" % j, st, n, o, sn, f, "0" if f == "1" else "-7"))
                base += nb
            m = Msg("G%d" % k, 100 + k, base + 1, sg + [Sig("Q", 8 * base, 8, INTEL)], ext=bool(k & 1))
            ms.append(m)
            if k % 3 == 0:
                tail += 'CM_ SG_ %d S%d "<RollingCounter>";\nCM_ SG_ %d Q "<Checksum:XOR8:%d>";\n' % (m.dbcid, k % 4, m.dbcid, k)
            k += 1
    assert all(s.fits(m.dlc) for m in ms for s in m.sigs)
    return dbc_text(ms, tail)


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    texts = {n: corpus.SMALL[n] for n in TEXTS}
    texts.update(rich=corpus.RICH, grid=grid())
    jobs = []
    combos = [c for n in range(8) for c in itertools.combinations(SWITCHES, n)]
    for n in sorted(texts):
        for c in combos:
            if n in ("rich", "grid") or chk.thorough or len(c) <= 1 or len(c) >= 6 or sum(SWITCHES.index(x) * 3 + 1 for x in c) % 3 == sorted(texts).index(n) % 3:
                for init in ((None, 0xA5) if chk.thorough or (n == "rich" and len(c) in (0, 1, 7)) else (None,)):
                    jobs.append((n, c, init))
    model = {n: corpus.parse(t) for n, t in texts.items()}
    global _job

    def _job(ij):
        i, (n, c, init) = ij
        d = os.path.join(base, "j%d" % i)
        conf = Conf(c, ext=64, init=init, extra=HOOKS)
        oc = run_case(exe, d, model[n], conf, engine="engine_cfg.c", args=(), dbc=texts[n].encode("latin-1"))
        out = {}
        for line in oc.out.splitlines():
            w = line.split(" ")
            if w[0] == "M":
                cur = out.setdefault(w[1], ([], [], []))
            elif w[0] in ("P", "U", "N"):
                cur["PUN".index(w[0])].append(line[2:])
        rm(d)
        return oc.problem, out, oc.evals, oc.files

    def masks(n, c):
        """{frame: (bits of the payload that are compared, indexes of the signals whose field may change while packing)}"""
        roll, csm = corpus.marked(texts[n], "<RollingCounter>"), corpus.marked(texts[n], "<Checksum:")
        out = {}
        for m in model[n]:
            keep, drv = bytearray(b"\xff" * m.dlc), set()
            for k, s in enumerate(m.sigs):
                if ("SIGFLOAT" in c and not s.plain) or ("ROLL" in c and (m.dbcid, s.name) in roll) or (
                        "CSM" in c and (m.dbcid, s.name) in csm and s.plain and not s.signed and len({b // 8 for b in s.bits()}) == 1):
                    drv.add(k)
                    for b in s.bits():
                        keep[b // 8] &= ~(1 << b % 8) & 255
            out[m.name] = (int(keep.hex(), 16), drv)
        return out
    bag = Bag(chk)
    ref, mons = {}, {}
    for (n, c, init), (p, out, ev, files) in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        name = "+".join(c) or "none"
        chk.add(states=len(out), transitions=ev, traces_validated_against_impl=1)
        if p:
            bag.put("%s:%s:%s" % (p[0], n, name), "DBC file '%s', switches %s: %s" % (n, name, p[1]), files)
            continue
        if not c:
            ref[n, init] = out
            continue
        if (n, init) not in ref:
            continue
        mk = masks(n, c)
        for m, (pk, un, mo) in out.items():
            keep, drv = mk[m]
            rp, ru, _ = ref[n, init][m]
            bad = None
            if ("DIAG_MONITORS" in c) != bool(mo) or len(mo) not in (0, len(un)):
                bad = "there are %d monitor reports for %d receptions" % (len(mo), len(un))
            for k, (a, b) in enumerate(zip(mo, mons.setdefault((n, m), mo) if mo else ())):
                if a != b or a[0] != "1":
                    bad = "reception %d: monitor called, DLC error, tick, count are %s, in another configuration %s" % (k, a, b)
                    break
            if len(pk) != len(rp) or len(un) != len(ru):
                bad = "the dump is incomplete"
            for k, (a, b) in enumerate(zip(pk, rp)):
                if a == b:
                    continue
                x, y = a.split(), b.split()
                if (int(x[0], 16) ^ int(y[0], 16)) & keep or x[1:4] != y[1:4]:
                    bad = "pack pattern %d gives %s, without switches %s (bits not driven by a feature: %x)" % (k, x[:4], y[:4], keep)
                    break
                w = [i for i in range(len(x) - 4) if i not in drv and x[4 + i] != y[4 + i]]
                if w:
                    bad = "pack pattern %d leaves field %d at 0x%s, without switches 0x%s" % (k, w[0], x[4 + w[0]], y[4 + w[0]])
                    break
            for k, (a, b) in enumerate(zip(un, ru)):
                if a != b and not bad:
                    bad = "payload %d unpacks to %s, without switches to %s" % (k, a, b)
            if bad:
                bag.put("%s:%s:%s" % (n, m, name), "DBC file '%s', frame %s, switches %s: %s" % (n, m, name, bad), files)
                break
    chk.notes.update(combinations=128, dbc_files=len(texts), exhaustive=True)
    chk.sample("BITS_SIGNAL+SIGFLOAT+ROLL against none, frame ExtScaled")
    chk.assumptions.append("field values lie in the range of their signal; helper types of 64 bits")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C16", run_check)
