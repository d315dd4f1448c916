"""C10: receive dispatch. The generated receive function is compiled and run for every subset of two universes of ids, every number of
frames up to a bound in several id patterns and file orders, and every placement of frames without signals; for each of them every
standard id, every neighbour and every single-bit change of the frames' ids (with and without bit 31) is presented."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

X = 0x80000000


def frames(ids, empty=()):
    out = []
    for k, i in enumerate(ids):
        sig = [] if i in empty else [Sig("A", 8 * (k % 8) + (7 if k % 2 else 0), 8, k % 2 == 0, k % 3 == 0), Sig("B", 8 * ((k + 3) % 8), 4)]
        if sig:
            sig[0].order = INTEL if k % 2 == 0 else MOTO
        out.append(Msg("F%X" % (i & 0x7FFFFFFF) if not i & X else "E%X" % (i & 0x1FFFFFFF), i & 0x1FFFFFFF, 8, sig, bool(i & X)))
    return out


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    sets = []
    u1 = list(range(1, 9))
    u2 = [0, 1, 0x400, 0x7FF, X | 0x800, X | 0x10000, X | 0x1FFFFFFE, X | 0x1FFFFFFF]
    u3 = [X | 5, 7, X | 9, 100, X | 101, 102, 0x7FE, X | 0x7FF]     # extended ids below and between the standard ones
    for u in (u1, u2, u3):
        for n in range(1, len(u) + 1):
            for c in itertools.combinations(u, n):
                sets.append((list(c)[::-1] if u is u2 else list(c), ()))
    top = 34 if not chk.thorough else 130
    for n in list(range(1, top + 1)) + [100, 255, 256, 257, 300, 600] + ([1025, 1999] if chk.thorough else []):
        pats = [list(range(n)), [5 + 3 * k for k in range(n)], [X | (0x1FFFFFFF - k) for k in range(n)], [X | 0x10000 + 65537 * k for k in range(n)],
                [k * k if k * k < 2048 else X | k * k for k in range(n)],
                [(0 if k % 2 else X) | (3 + 2 * k) for k in range(n)], [(X if k < n // 2 else 0) | (1 + k) for k in range(n)]]
        for j, p in enumerate(pats):
            if not chk.thorough and n > 100 and (n + j) % 7 not in (0, 3):
                continue
            o = (n + j) % 4
            sets.append((p if o == 0 else p[::-1] if o == 1 else p[::2] + p[1::2] if o == 2 else p[n // 2:] + p[:n // 2][::-1], ()))
    for perm in itertools.permutations([3, 4, 5, 6] if not chk.thorough else [3, 4, 5, 6, 9]):
        sets.append((list(perm), ()))
    es = [2, 3, 4, X | 5000, 6, 7]
    for n in range(0, len(es)):
        for e in itertools.combinations(es, n):
            sets.append((es, e))
    jobs = chunks(list(enumerate(sets)), 6)
    global _job

    def _job(ij):
        i, data = ij
        d = os.path.join(base, "j%d" % i)
        bad, n, drivers = [], 0, 0
        for k, (ids, empty) in data:
            rm(d)
            os.makedirs(d)
            msgs = frames(ids, empty)
            drv = "drv" if k % 3 else "MyDrv"
            mon = k % 2 == 1
            conf = Conf(("DIAG_MONITORS",) if mon else ())
            text = dbc_text(msgs)
            p = gen_driver(exe, d, text, drv, conf=conf)
            if p:
                bad.append(("gen:%s" % k, p[1], {"in.dbc": text}))
                continue
            src = receive_program(msgs, drv)
            p, out = build_run(d, src, conf.flags(drv) + (["-DWITH_MON"] if mon else []))
            drivers += 1
            f = [x[5:] for x in out.splitlines() if x.startswith("FAIL ")]
            if f:
                bad.append(("dispatch:%s" % ("-".join("%X" % x for x in ids)[:60]), "frames with ids %s%s: %s" % (
                    ["%#x" % (x & 0x1FFFFFFF) for x in ids][:12], " (without signals: %s)" % ["%#x" % x for x in empty] if empty else "", f[0]), {"in.dbc": text, "t.c": src}))
            elif p:
                bad.append(("run:%s" % k, p, {"in.dbc": text, "t.c": src}))
            m = re.search(r"DONE (\d+)", out)
            n += int(m.group(1)) if m else 0
            if len(bad) > 2:
                break
        rm(d)
        return bad, n, drivers
    bag = Bag(chk)
    for bad, n, drivers in pmap(_jobcall, list(enumerate(jobs))):
        chk.add(transitions=n, traces_validated_against_impl=drivers)
        for x in bad:
            bag.put(*x)
    chk.seen(hk(set(s), set(e)) for s, e in sets)
    chk.notes.update(id_sets=len(sets), largest=max(len(s[0]) for s in sets), exhaustive=True)
    chk.sample("ids " + str(sets[300][0]))
    chk.sample("ids %s, without signals %s" % sets[-3])
    chk.assumptions.append("ids are distinct as 29 bit numbers (a standard and an extended frame of the same number cannot be told apart by the receive function)")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C10", run_check)
