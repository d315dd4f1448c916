"""C09: value tables. Every 32-bit boundary value, every character and every short string over a reduction alphabet as description, all
three-entry tables over colliding descriptions, all subsets of statements over known and unknown objects in every layout."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

EXT = 0x80000000
BASE = '''BU_: N1 N2

BO_ 0 Zero: 8 N1
 SG_ A : 0|8@1+ (1,0) [0|0] "" N2
 SG_ B : 8|32@1- (1,0) [0|0] "" N2
 SG_ W : 40|8@1+ (0.5,3) [0|0] "" N2

BO_ 300 Std: 8 N1
 SG_ A : 0|8@1+ (1,0) [0|0] "" N2
 SG_ I : 8|16@1- (2,-5) [0|0] "" N2
 SG_ U : 24|40@1+ (1,0) [0|0] "" N2

BO_ %d Ext: 8 N1
 SG_ A : 0|16@1+ (10,0) [0|0] "" N2
 SG_ M M : 16|8@1+ (1,0) [0|0] "" N2
 SG_ X m1 : 24|8@1+ (1,0) [0|0] "" N2

BO_ 5 Empty: 4 N1

BO_ 2047 Last: 1 N1
 SG_ D : 0|8@1+ (1,0) [0|0] "" N2

''' % (300 | EXT)
FR = {0: ("Zero", "ABW"), 300: ("Std", "AIU"), 300 | EXT: ("Ext", "AMX"), 5: ("Empty", ""), 2047: ("Last", "D")}


def cname(b):
    """Reduction to identifier characters."""
    o = ""
    for c in b.decode("latin-1"):
        if re.match(r"[A-Za-z_]", c) or (o and re.match(r"[0-9]", c)):
            o += c
        elif c == " ":
            o += "_"
    return o


def expect(stmts):
    want = {}
    for i, sig, pairs in stmts:
        if i in FR and sig in FR[i][1] and len(sig) == 1:
            for v, t in pairs:
                want.setdefault("%s_%s_%s" % (sig, FR[i][0], cname(t)), v)
    return want


def stmt(i, sig, pairs, form=0):
    body = [b"VAL_ %d %s" % (i, sig.encode())] + [b'%d "%s"' % (v, t) for v, t in pairs]
    if form == 0:
        return b" ".join(body) + b" ;"
    if form == 1:
        return b" ".join(body) + b";"
    if form == 2:
        return b" \n".join(body) + b"\n;"
    if form == 3:
        return b"\n".join(b"\n".join(x.split(b" ", 1)) if k else x for k, x in enumerate(body)) + b" ;"
    return b"  ".join(body) + b"  ; \t"


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    cases = []                                    # (tag, [(id, sig, pairs)], layout, extra text)
    vals = sorted({s * (1 << k) + d for k in range(32) for d in (-1, 0, 1) for s in (1, -1)} | {(1 << 32) - 1, (1 << 32) - 2, 0, 4000000000})
    vals = [v for v in vals if -(1 << 31) <= v < 1 << 32]
    for c in chunks(vals, 9):
        for i, sig in ((0, "B"), (300, "I"), (300, "U"), (300 | EXT, "A"), (2047, "D")):
            cases.append(("value", [(i, sig, [(v, b"v%d" % k) for k, v in enumerate(c)])], 0, b""))
    for v in vals:
        cases.append(("value", [(300, "U", [(v, b"x")])], 0, b""))
    al = [b"a", b"B", b"1", b" ", b"_", b"-", b"\xc3\xa9", b";", b"%", b"\t", b"9z"]
    descs = [b"".join(x) for n in range(0, 4 if not chk.thorough else 5) for x in itertools.product(al, repeat=n)]
    for c in range(256):
        if c not in (10, 13, 34):
            descs += [bytes([c]), b"p" + bytes([c]) + b"q"]
    descs += [b"x" * 200, b"the quick brown fox jumps", b"int", b"%s%n", b"\\", b"/* */", b"//"]
    for k, t in enumerate(descs):
        cases.append(("text", [((300, "A"), (0, "W"), (2047, "D"))[k % 3] + ([(1, t), (2, b"Sentinel")],)], k % 2, b""))
    for x in itertools.product((b"On", b"O n", b"O-n", b"On ", b"1On", b""), repeat=3):
        cases.append(("collide", [(0, "A", list(zip((7, 8, 9), x)))], 0, b""))
    # attachments
    targets = [(0, "A"), (0, "W"), (300, "A"), (300, "I"), (300 | EXT, "A"), (300 | EXT, "X"), (2047, "D"), (999, "A"), (2047, "A"), (5, "A"), (300, "I_ro"), (2047 | EXT, "D"), (300, "a")]
    for n in (1, 2, 3):
        for x in itertools.permutations(range(len(targets)), n):
            if n == 3 and not chk.thorough and (x[0] + 2 * x[1] + 3 * x[2]) % 7:
                continue
            cases.append(("attach", [targets[k] + ([(k, b"Off"), (k + 100, b"On %d" % k)],) for k in x], sum(x) % 2, b""))
    for form in range(5):
        for n in range(0, 7):
            for i, sig in ((0, "A"), (300, "I"), (2047, "D")):
                cases.append(("layout", [(i, sig, [(j * 3, b"D %d" % j) for j in range(n)]), (300, "U", [(5, b"After")])], form, b""))
    for ex in (b'VAL_ Env 0 "a" 1 "b" ;', b'VAL_TABLE_ A 0 "a" 1 "b" ;', b'CM_ SG_ 300 A "VAL_ 300 A 0 a ;";', b'CM_ BO_ 300 "x\nVAL_ 300 A 3 b ;\ny";', b'BA_ "Z" SG_ 300 A 1;', b"VAL_ 999 Z ;"):
        for t in targets:
            cases.append(("other", [t + ([(1, b"One"), (0, b"Zero")],)], 0, ex))
    for n in [k * (k + 1) // 2 for k in range(2, 16)] + [127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000] + ([4095, 4096, 4097] if chk.thorough else []):
        cases.append(("long", [(300, "A", [(k, b"entry number %d" % k) for k in range(n)])], 0, b""))
        cases.append(("long", [(300, "I", [(k, b"entry number %d" % k) for k in range(n)])], 2, b""))
    allsigs = [(i, s) for i in FR for s in FR[i][1]]
    for n in (3, 30, 255, 256, 257, 400):        # many tables: for unknown signals before, between and after those for known ones
        for shift in (0, 1):
            st = [(4000 + k, "Q", [(k, b"Q %d" % k)]) for k in range(n)]
            for j, t in enumerate(allsigs):
                st.insert((j * n) // len(allsigs) + shift * j, t + ([(k, b"E %d" % k) for k in range(2 + j)],))
            cases.append(("tables", st, shift, b""))
    jobs = chunks(cases, 100)
    global _job
    os.makedirs(os.path.join(base, "ref"))
    p, ref, _ = header_of(exe, os.path.join(base, "ref"), BASE)
    if p:
        chk.violation("base", p, {"in.dbc": BASE})
        return
    refset = set(ref[0])

    def _job(ij):
        i, data = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(d)
        bad, st, ne = [], set(), 0
        for tag, stmts, form, extra in data:
            text = BASE.encode() + extra + b"\n" + b"\n".join(stmt(*s, form) for s in stmts) + b"\n" + (extra + b"\n" if extra else b"")
            want = expect(stmts)
            p, parsed, raw = header_of(exe, d, text)
            st.add(hk(want))
            ne += sum(len(x[2]) for x in stmts) + bool(extra)
            if not p:
                got = {k: cheader.num(v) for k, v in parsed[0].items() if k not in refset}
                if got != want:
                    p = diff(want, got)
            if p:
                bad.append(("%s:%s" % (tag, hashlib.sha256(text).hexdigest()[:12]), p + "\nfor " + (extra + b" | " + b" | ".join(stmt(*s, form) for s in stmts)).decode("latin-1")[:600], text))
            if len(bad) > 3:
                break
        rm(d)
        return bad, len(data), ne, st
    cnt = {}
    for data, (bad, n, ne, st) in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.seen(st)
        chk.add(transitions=ne, traces_validated_against_impl=n)
        for key, text, dbc in bad:
            k = key.split(":")[0]
            cnt[k] = cnt.get(k, 0) + 1
            if cnt[k] <= 2:
                chk.violation(key, text, {"in.dbc": dbc})
    chk.notes.update(values=len(vals), descriptions=len(descs), cases=len(cases), exhaustive=True)
    chk.sample(stmt(*cases[0][1][0]).decode())
    chk.sample(repr(descs[700]))
    chk.assumptions.append("one table per signal; descriptions contain no quotes")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C09", run_check)
