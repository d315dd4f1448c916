"""C06: frame and driver constants. Every standard id, id/DLC products, cycle times, all sequences of frame kinds up to length 4
(max DLC), all version pairs and version forms; constants evaluated by the compiler."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

# kinds of frames for the sequences: (dlc, supported, has signals, id bits)
KINDS = [(1, True, True, 0), (8, True, True, 0), (64, True, True, 0x80000000), (0, False, True, 0), (65, False, True, 0),
         (12, True, False, 0), (24, False, True, 0xC0000000), (5, True, True, 0x80000000)]


def ids():
    std = list(range(2048))
    ext = set()
    for k in range(30):
        for dv in (-1, 0, 1):
            for inv in (0, 0x1FFFFFFF):
                v = ((1 << k) + dv) ^ inv
                if 0 <= v < 1 << 29:
                    ext.add(v)
    for i in range(29):
        for j in range(i):
            ext.add(1 << i | 1 << j)
    for p in (0x15555555, 0x0AAAAAAA, 0x18FEDC12, 0x0CF00400, 0x1FFFFFFE):
        ext.add(p)
    return std, sorted(ext)


def batch_frames():
    """[(name, id, ext, dlc, cyc or None)], ids distinct in each batch."""
    std, ext = ids()
    cycs = [None, 1, 9, 10, 99, 255, 256, 1000, 32767, 32768, 65535, 65536, 100000, 2147483647]
    out, cur = [], []
    for i, x in enumerate(std):
        cur.append(("S%d" % x, x, False, i % 64 + 1, cycs[i % len(cycs)]))
    out += chunks(cur, 256)
    cur = []
    for i, x in enumerate(ext):
        cur.append(("X%d" % x, x, True, i % 64 + 1, cycs[(i * 5) % len(cycs)]))
    out += chunks(cur, 256)
    for off, (i, e) in enumerate(((0, False), (2047, False), (0, True), (0x1FFFFFFF, True))):
        for dlc in range(1, 65):
            out.append([("D%d" % dlc, i, e, dlc, cycs[(dlc + off) % len(cycs)]), ("E", 0x123, not e, 65 - dlc, None)])
    return out


def text_of(fr):
    o = ["BU_: N1\n"]
    for n, i, e, dlc, cyc in fr:
        o.append("BO_ %d %s: %d N1\n SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\n" % (i | (0x80000000 if e else 0), n, dlc))
    for n, i, e, dlc, cyc in fr:
        if cyc is not None:
            o.append('BA_ "GenMsgCycleTime" BO_ %d %d;' % (i | (0x80000000 if e else 0), cyc))
    return "\n".join(o) + "\n"


def versions(thorough):
    nums = ["0", "1", "2", "7", "9", "10", "12", "99", "100", "255", "256", "4711", "65535", "65536", "2147483647", "2147483648", "4294967295"]
    for a, b in itertools.product(nums, repeat=2):
        yield '%s.%s' % (a, b), (int(a), int(b))
    for s, v in (("01.02", (1, 2)), ("08.09", (8, 9)), ("", (0, 0)), ("1", (0, 0)), ("1.", (0, 0)), (".1", (0, 0)), ("abc", (0, 0)), ("a.b", (0, 0)),
                 ("1.2.3", (0, 0)), ("1.2a", (0, 0)), ("HNPBNNNYNNNNNNNNNNNNNNNNYYYYYYYY>4>%%%/4>'%**4YYY///", (0, 0)), ("x1.2", (0, 0)), ("V1", (0, 0))):
        yield s, v


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    jobs = [("frames", b) for b in batch_frames()]
    depth = 4 if not chk.thorough else 5
    seqs = [s for n in range(1, depth + 1) for s in itertools.product(range(len(KINDS)), repeat=n)]
    jobs += [("seq", c) for c in chunks(seqs, 60)]
    many = []
    for m in (31, 32, 33, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513):      # the largest frame first, last, in the middle, refused frames in between
        for small, big in itertools.permutations(range(len(KINDS)), 2):
            for at in (0, m // 2, m - 2, m - 1):
                many.append((small,) * at + (big,) + (small,) * (m - 1 - at))
    jobs += [("seq", c) for c in chunks(many[::1 if chk.thorough else 5], 40)]
    vs = list(versions(chk.thorough))
    jobs += [("ver", c) for c in chunks(vs, 20)]
    global _job

    def fail(out, key, text, files):
        out.append((key, text, files))

    def _job(ij):
        i, (kind, data) = ij
        d = os.path.join(base, "j%d" % i)
        rm(d)
        os.makedirs(d)
        bad, n = [], 0
        if kind == "frames":
            t = text_of(data)
            p = gen_driver(exe, d, t)
            if p:
                return [("frames:" + p[0], p[1], {"in.dbc": t})], 1
            names = [x[0] + s for x in data for s in ("_CANID", "_IDE", "_DLC", "_CYC")] + ["DRV_MAX_DLC_VALUE"]
            v = consts(d, "drv.h", names)
            if isinstance(v, str):
                return [("frames:compile", v, {"in.dbc": t})], 1
            for nme, cid, ext, dlc, cyc in data:
                n += 4
                got = [v[nme + s] for s in ("_CANID", "_IDE", "_DLC", "_CYC")]
                want = [cid, int(ext), dlc, cyc]
                if got != want:
                    one = [(nme, cid, ext, dlc, cyc)]
                    fail(bad, "frame:%x%s:%d:%s" % (cid, "x" if ext else "", dlc, cyc), "frame id %#x ext %s dlc %d cycle %s: constants (CANID, IDE, DLC, CYC) are %s" % (
                        cid, ext, dlc, cyc, got), {"in.dbc": t})
                    if len(bad) > 2:
                        break
            if v["DRV_MAX_DLC_VALUE"] != max(x[3] for x in data):
                fail(bad, "maxdlc:frames", "maximum DLC is %s instead of %d" % (v["DRV_MAX_DLC_VALUE"], max(x[3] for x in data)), {"in.dbc": t})
        elif kind == "seq":
            for s in data:
                t = "BU_: N1\n\n"
                want, exp = 0, {}
                for j, k in enumerate(s):
                    dlc, sup, sigs, flag = KINDS[k]
                    t += "BO_ %d F%d: %d N1\n" % (flag | (100 + j), j, dlc)
                    if sigs:
                        t += ' SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n'
                    t += "\n"
                    if sup:
                        want = max(want, dlc)
                        exp["F%d" % j] = (100 + j, int(flag == 0x80000000), dlc)
                p = gen_driver(exe, d, t)
                n += 1
                if p:
                    fail(bad, "seq:" + p[0], p[1], {"in.dbc": t})
                    break
                try:
                    macros, _, _ = cheader.parse(cheader.preprocess(os.path.join(d, "out/lib/drv.h"), incs(d)))
                except ValueError as e:
                    fail(bad, "seq:compile", str(e), {"in.dbc": t})
                    break
                got = {f: tuple(cheader.num(macros.get(f + x, "")) for x in ("_CANID", "_IDE", "_DLC")) for f in exp}
                if got != exp:
                    fail(bad, "seq:constants", "frames %s have constants %s" % (exp, got), {"in.dbc": t})
                g = cheader.num(macros.get("DRV_MAX_DLC_VALUE", ""))
                if g != want:
                    fail(bad, "seq:maxdlc:%s" % "-".join(map(str, s)), "maximum DLC is %s instead of %d for frames with DLC %s" % (g, want, [KINDS[k][0] for k in s]), {"in.dbc": t})
                if len(bad) > 2:
                    break
        else:
            for s, want in data:
                for pre, tail in (("VERSION \"%s\"\n", ""), ("\n\nVERSION \"%s\"\n", '\nCM_ BO_ 1 "text\nVERSION 9.9\nversion 8.8\n";\nCM_ "VERSION 7.7";\nBA_ "Version" "7.7";\n')):
                    t = pre % s + "\n\nNS_ :\n\tCM_\n\tBA_DEF_\n\nBS_:\n\nBU_: N1\n\nBO_ 1 F: 8 N1\n SG_ A : 0|8@1+ (1,0) [0|0] \"\" N2\n" + tail
                    p = gen_driver(exe, d, t)
                    n += 1
                    if p:
                        fail(bad, "ver:%s:%s" % (p[0], s), p[1], {"in.dbc": t})
                        continue
                    try:
                        macros, _, _ = cheader.parse(cheader.preprocess(os.path.join(d, "out/lib/drv.h"), incs(d)))
                    except ValueError as e:
                        fail(bad, "ver:compile:%s" % s, str(e), {"in.dbc": t})
                        continue
                    got = tuple(cheader.num(macros.get("VER_DRV_" + x, "")) for x in ("MAJ", "MIN"))
                    if got != want:
                        fail(bad, "ver:%s" % s, "VERSION \"%s\" gives %s instead of %s" % (s, got, want), {"in.dbc": t})
        rm(d)
        return bad, n
    for (kind, data), (bad, n) in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(states=len(data), transitions=n, traces_validated_against_impl=1 if kind == "frames" else len(data))
        for key, text, files in bad:
            chk.violation(key, text, files)
    chk.notes.update(sequences=len(seqs), long_sequences=len(many), sequence_depth=depth, versions=len(vs), exhaustive=True)
    chk.sample("sequence of DLCs %s" % [KINDS[k][0] for k in seqs[-5]])
    chk.sample("VERSION \"%s\"" % vs[30][0])
    chk.assumptions.append("extended ids: one and two bit patterns, their neighbours and complements; DLC and cycle times rotate over the ids and are crossed with the four extreme ids")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C06", run_check)
