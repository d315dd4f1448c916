"""C07: explicit-state exploration of the statement scanner. All sequences of frame and signal statements up to a depth, and all
sequences of annotation and unrelated statements (with texts that look like statements) before and after the frames, are run through
the generator; the header must declare exactly what a ten-line reference model says."""
import os, sys, itertools, hashlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

# frame statements: (text with name and number, supported)
BO = {
    "bo": ("BO_ %(id)d %(n)s: 8 N1", True),
    "bo64x": ("BO_ %(xid)d %(n)s: 64 N3", True),
    "bo3": ("BO_ %(id)d %(n)s: 3 Vector__XXX", True),
    "boZ": ("BO_ %(id)d %(n)s: 0 N1", False),
    "bo65": ("BO_ %(id)d %(n)s: 65 N1", False),
    "bo264": ("BO_ %(id)d %(n)s: 264 N1", False),
    "boInd": ("BO_ 3221225472 VECTOR__INDEPENDENT_SIG_MSG: 0 Vector__XXX", False),
    "boBad": ("BO_ %(bid)d %(n)s: 8 N1", False),
}
# signal statements: (text, scaled)
SG = {
    "sg": (' SG_ %s : 0|8@1+ (1,0) [0|255] "" N2', False),
    "sgM": (' SG_ %s : 7|12@0- (1,0) [-2048|2047] "km/h" N2,N3', False),
    "sgS": ('  SG_ %s : 0|16@1+ (0.5,-10.5) [-10.5|100] "%%" Vector__XXX', True),
    "sgX": ('\tSG_ %s M : 4|4@1+ (1,0) [0|0] "" N2', False),
    "sgm": (' SG_ %s m3 : 8|16@1- (2,5) [0|0] "m : s" N2', True),
    "sgU": (' SG_ %s : 12|1@1+ (1E0,0) [0|0] " SG_ X : 0|8@1+ (1,0) [0|1] " N1', True),
}
OTHER = {"blank": "", "crblank": " \t"}


def build(seq):
    """Statement names -> (text, model {frame: (id, ide, dlc, cyc, fields, functions)})."""
    out, model, cur = [], {}, None
    for k in seq:
        if k in BO:
            t, sup = BO[k]
            n = "F%d" % len(model) if sup else "Z%d" % len(out)
            i = 256 + len(model)
            out.append(t % {"n": n, "id": i, "xid": i | 0x80000000, "bid": i | (0x40000000, 0x20000000, 1 << 32)[len(out) % 3]})
            cur = None
            if sup:
                cur = [i, int(k == "bo64x"), {"bo": 8, "bo64x": 64, "bo3": 3}[k], None, []]
                model[n] = cur
        elif k in SG:
            t, sc = SG[k]
            n = "S%d" % len(cur[4]) if cur is not None else "Q%d" % len(out)
            out.append(t % n)
            if cur is not None:
                cur[4].append((n, sc))
        else:
            out.append(OTHER[k])
    return out, model


# forms of one statement
NAMES = ["S", "M", "m", "m1", "E1", "_a", "BO_x", "SG_", "VAL_", "a" * 32, "Sig_1_2", "B" * 120]
MUX = ["", " M", " m0", " m12", " m0M"]
SCALE = [("(1,0)", False), ("(0.5,0)", True), ("(-1,0)", True), ("(1,3)", True), ("(1,-0.25)", True), ("(1E-3,0)", True)]
RANGE = ["[0|0]", "[-1.5|2E+003]", "[-0.0|18446744073709551615]"]
UNITS = [b"", b"%", b"m : s", b"[|] (1,0) 8@1+", b"\xb0C", b"a;", b"SG_ X : 0|8@1+"]
RECV = ["N2", " N2,N3", "N2, N3,N1", "Vector__XXX", "N2 "]


def forms(thorough):
    """(name, mux, order and sign, layout, (scaling, scaled), range, unit, receivers)"""
    k = 0
    for x in itertools.product(NAMES, MUX, ("1+", "1-", "0+", "0-"), SCALE, RANGE, UNITS, RECV):
        k += 1
        if thorough or (k * 7 + k // 35 * 3 + k // 105 + k // 2520) % 5 == 0:
            yield x[:3] + (("8|8", "15|1", "12|3", "11|4")[k % 4],) + x[3:]
    for c in range(256):
        if c not in (10, 34):
            for u in (bytes([c]), b"x" + bytes([c]), bytes([c]) + b"x", bytes([c]) * 3):
                yield ("S", "", "1+", "8|8", SCALE[c % 6], RANGE[0], u, RECV[c % 5])
    for n in (100, 255, 256, 257, 1000, 2000):
        yield ("S", "", "1+", "8|8", SCALE[n % 6], RANGE[0], b"u" * n, "N2")
        yield ("S", "", "1+", "8|8", SCALE[0], RANGE[0], b"", ",".join("Node%d" % j for j in range(n)))


def formed(fs):
    out, model = [], {}
    for j, (n, mux, os_, lay, (sc, scaled), rg, u, rc) in enumerate(fs):
        out += [b"BO_ %d F%d: 8 N1" % (j + 3, j), b' SG_ Before : 0|8@1+ (1,0) [0|0] "" N2',
                (" SG_ %s%s : %s@%s %s %s \"" % (n, mux, lay, os_, sc, rg)).encode() + u + b'" ' + rc.encode(), b' SG_ After : 24|8@0- (1,0) [0|0] "x" N1,N2', b""]
        model["F%d" % j] = [j + 3, 0, 8, None, [("Before", False), (n, scaled), ("After", False)]]
    return b"\n".join(out) + b"\n", model


FNAMES = ["F", "BO_", "SG_x", "M", "m1", "_f", "a" * 32, "F_1_2", "CM_", "C" * 120, "VERSION", "N1"]


def frame_forms():
    for n, i, dlc, tx in itertools.product(FNAMES, (0, 1, 2047, 1 << 31, (1 << 31) | 1, (1 << 31) | 0x1FFFFFFF), (1, 8, 64), ("N1", "Vector__XXX", "N" * 40, "n_1")):
        t = 'BO_ 5 Pre: 1 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n\nBO_ %d %s: %d %s\n SG_ A : 0|7@1+ (1,0) [0|0] "" N2\n\nBO_ 6 Post: 2 N1\n SG_ A : 0|8@1+ (1,0) [0|0] "" N2\n' % (i, n, dlc, tx)
        yield t.encode(), {"Pre": [5, 0, 1, None, [("A", False)]], n: [i & 0x1FFFFFFF, i >> 31, dlc, None, [("A", False)]], "Post": [6, 0, 2, None, [("A", False)]]}


def twins():
    """Frames that agree in number, length, transmitter or signals, and differ in one of them."""
    kinds = [(i, x, d, t, s) for i in (7, 8) for x in (0, 1) for d in (8, 4) for t in ("N1", "N2") for s in ("A", "B")]
    for n in (2, 3):
        for c in itertools.product(kinds, repeat=n):
            if len({k[:2] for k in c}) < n or (n == 3 and (c[0][2:] != (8, "N1", "A") or c[1][4] == "B")):
                continue
            o, m = "", {}
            for j, (i, x, d, t, g) in enumerate(c):
                o += 'BO_ %d T%d: %d %s\n SG_ %s : 0|8@1+ (1,0) [0|0] "" N3\n\n' % (i | x << 31, j, d, t, g)
                m["T%d" % j] = [i, x, d, None, [(g, False)]]
            yield o.encode(), m


def wanted(model):
    w = {}
    for n, (i, ide, dlc, cyc, sigs) in model.items():
        f = []
        for s, sc in sigs:
            f += [s + "_ro", s + "_phys"] if sc else [s]
        w[n] = (i, ide, dlc, cyc, tuple(sorted(f)) if f else None, tuple("%sack_%s_drv" % (x, n) for x in ("P", "Unp")) if f else ())
    return w


FRAMES = ["BO_ 300 First: 8 N1", ' SG_ A : 0|8@1+ (1,0) [0|0] "" N2', ' SG_ B : 8|8@1+ (1,0) [0|0] "" N2', "",
          "BO_ 2147484049 Second: 4 N2", ' SG_ A : 0|8@1+ (0.5,0) [0|0] "" N1', "", "BO_ 302 Third: 2 N1", "",
          "BO_ 303 Fourth: 8 N1", ' SG_ C : 0|8@1+ (1,0) [0|0] "" N2', ""]
FRAMES_MODEL = {"First": [300, 0, 8, None, [("A", False), ("B", False)]], "Second": [401, 1, 4, None, [("A", True)]],
                "Third": [302, 0, 2, None, []], "Fourth": [303, 0, 8, None, [("C", False)]]}

# statements of the other sections; none of them changes the set of frames and signals
TAIL = [
    'CM_ "network";', 'CM_ BO_ 300 "plain text";', 'CM_ SG_ 300 A "plain text";', 'CM_ BU_ N1 "BO_ 7 X: 8 N1";',
    'CM_ BO_ 300 "two\nlines";', 'CM_ BO_ 300 "first\nBO_ 777 Trap: 8 N1\n SG_ T : 0|8@1+ (1,0) [0|0] \"\"X";'.replace('""', "''"),
    'CM_ SG_ 303 C "text\nBO_ 778 Trap2: 8 N1\nend";', 'CM_ SG_ 300 A "x\n SG_ T2 : 0|8@1+ (1,0) [0|0] km N2\ny";',
    'CM_ SG_ 300 B "semicolon;\nBO_ 779 Trap3: 8 N1\nBO_TX_BU_ 300 : N3;\nlast";', 'CM_ BO_ 303 "\n\n SG_ T3 : 0|8@1+ (1,0) [0|0]\n\n";',
    'CM_ SG_ 303 C " SG_ T4 : 0|8@1+ (1,0) [0|0] N1";',
    'CM_ EV_ Env "VERSION 9.9";', 'BO_TX_BU_ 300 : N1,N2;', 'BO_TX_BU_ 999 : N1,N2;', 'BU_SG_REL_ 1;', 'EV_ Env: 0 [0|1] "" 0 1 DUMMY_NODE_VECTOR0 N1;',
    'BA_DEF_ BO_  "GenMsgCycleTime" INT 0 65535;', 'BA_DEF_DEF_  "GenMsgCycleTime" 100;', 'BA_ "Foo" BO_ 300 5;', 'BA_ "Author" "BO_ 300 Foo: 8 N1";',
    'BA_ "Author" "a\nBO_ 780 Trap4: 8 N1\n SG_ T5 : 0|8@1+ (1,0) [0|0] x";', 'VAL_ 300 A 0 "SG_ x" 1 "BO_ y" ;', 'VAL_ 999 A 0 "n" ;',
    'VAL_TABLE_ tab 0 "a" 1 "BO_ 1 x: 8 N" ;', 'SIG_GROUP_ 300 grp 1 : A B;', 'SIG_VALTYPE_ 303 C : 1;', 'SGTYPE_ T : 8@1+ (1,0) [0|0] "" 0 ;', '',
]
HEAD = ['VERSION "1.2"', 'NS_ :\n\tNS_DESC_\n\tCM_\n\tBA_DEF_\n\tBA_\n\tVAL_\n\tBO_TX_BU_\n\tSGTYPE_\n\tSIG_VALTYPE_', 'BS_:', 'BS_: 500;', 'BU_: N1 N2 N3',
        'VAL_TABLE_ tab 0 "BO_ 1 x: 8 N" ;', '// BO_ 5 X: 8 N1', '']


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    syms = list(BO) + list(SG) + list(OTHER)
    depth = 4 if not chk.thorough else 5
    seqs = []
    for n in range(1, depth + 1):
        for s in itertools.product(syms, repeat=n):
            if s[0] in BO or n < 3:            # signals before the first frame: only short sequences
                seqs.append(s)
    sizes = (31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300, 512) + ((1000, 1024, 1700) if chk.thorough else ())
    for n in sizes:                              # many frames, many signals, many refused frames, many signals of refused frames
        seqs += [("bo", "sg") * n, ("bo",) + ("sg",) * n + ("bo64x", "sgS"), ("boZ", "sgS") * n + ("bo", "sg"), ("bo", "sgM", "bo65", "sg", "blank") * (n // 2) + ("bo3", "sgX"),
                 ("bo", "sg", "boInd") + ("sg",) * n + ("bo3", "sgm"), ("bo64x",) * n + ("sg", "bo", "sgU"), ("bo", "sgm") + ("blank",) * n + ("sgX", "bo")]
    jobs = [("frames", c) for c in chunks(seqs[::-1][:7 * len(sizes)], 7) + chunks(seqs[: -7 * len(sizes)], 250)]
    tails = [s for n in range(1, (2 if not chk.thorough else 3) + 1) for s in itertools.product(range(len(TAIL)), repeat=n)]
    jobs += [("tail", c) for c in chunks(tails, 120)]
    heads = [s for n in range(1, 4) for s in itertools.product(range(len(HEAD)), repeat=n)]
    jobs += [("head", c) for c in chunks(heads, 120)]
    fms = list(forms(chk.thorough))
    jobs += [("form", c) for c in chunks([formed(c) for c in chunks(fms, 60)], 3)]
    ffs = list(frame_forms()) + list(twins())
    jobs += [("frameform", c) for c in chunks(ffs, 60)]
    global _job

    def _job(ij):
        i, (kind, data) = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(d, exist_ok=True)
        bad, models, nst = [], set(), 0
        for s in data:
            if kind in ("form", "frameform"):
                text, model = s
                lines = text.split(b"\n")
            elif kind == "frames":
                lines, model = build(s)
            else:
                model = FRAMES_MODEL
                lines = (FRAMES + [TAIL[k] for k in s]) if kind == "tail" else ([HEAD[k] for k in s] + FRAMES)
            w = wanted(model)
            models.add(hk(w))
            nst += len(lines)
            if kind in ("form", "frameform"):
                s = (hashlib.sha256(text).hexdigest()[:12],)
            else:
                text = "\n".join(lines) + "\n"
            p, parsed, raw = header_of(exe, d, text)
            if p:
                bad.append(("%s:%s" % (kind, s), p, text))
            else:
                got, extra = interface(parsed)
                if kind in ("form", "frameform"):
                    r = run(["gcc", "-w", "-std=c99", "-fsyntax-only", *incs(d), os.path.join(d, "out/lib/drv.c")])
                    if r.rc:
                        bad.append(("%s:%s" % (kind, "-".join(map(str, s))), "the driver does not compile: %s" % errline(r.err), text))
                if got != w or extra:
                    bad.append(("%s:%s" % (kind, "-".join(map(str, s))), diff(w, got) + (" extra structs %s" % extra if extra else "") + "\nfor the statements:\n" + (text if isinstance(text, str) else text.decode("latin-1"))[:3000], text))
            if len(bad) > 3:
                break
        rm(d)
        return bad, len(data), nst, models
    kinds = {}
    for (kind, data), (bad, n, nst, st) in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.seen(st)
        chk.add(transitions=nst, traces_validated_against_impl=n)
        for key, text, dbc in bad:
            kinds[kind] = kinds.get(kind, 0) + 1
            if kinds[kind] <= 3:
                chk.violation(key, text, {"in.dbc": dbc})
    chk.notes.update(frame_sequences=len(seqs), depth=depth, tail_sequences=len(tails), signal_forms=len(fms), frame_forms=len(ffs), head_sequences=len(heads), alphabet=len(syms) + len(TAIL) + len(HEAD), exhaustive=True)
    chk.sample(" / ".join(seqs[-7]))
    chk.sample(TAIL[8])
    chk.assumptions.append("statements are written in the usual layout (one statement per line, blanks where Vector tools put them)")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C07", run_check)
