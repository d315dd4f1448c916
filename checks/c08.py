"""C08: explicit-state exploration of annotation statements. All sequences of comment, attribute and transmitter statements up to a
depth (statements for every kind of object, known and unknown, multi-line and misleading texts) against a reference model of which
comment, cycle time and transmitters every frame and signal ends up with; and every character in every kind of text against the code
generated without it."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

EXT = 0x80000000
# frames: name -> (dbc id, {signal: field})
FR = {"Zero": (0, {"A": "A", "B": "B_ro"}), "Std": (300, {"A": "A", "C": "C"}), "Ext": (300 | EXT, {"A": "A_ro"}), "Empty": (5, {}), "Last": (2047, {"D": "D"}), "Twin": (6, {"D": "D", "D_ro": "D_ro"})}
TEXT = {
    "Zero": ['BO_ 0 Zero: 8 N1', ' SG_ A : 0|8@1+ (1,0) [0|0] "" N2', ' SG_ B : 8|8@1+ (0.5,3) [0|0] "" N2', ''],
    "Std": ['BO_ 300 Std: 8 N1', ' SG_ A : 0|8@1+ (1,0) [0|0] "" N2', ' SG_ C : 15|8@0- (1,0) [0|0] "" N2', ''],
    "Ext": ['BO_ %d Ext: 8 N1' % (300 | EXT), ' SG_ A : 0|16@1+ (2,0) [0|0] "" N2', ''],
    "Empty": ['BO_ 5 Empty: 4 N1', ''],
    "Last": ['BO_ 2047 Last: 1 N1', ' SG_ D : 0|8@1+ (1,0) [0|0] "" N2', ''],
    "Twin": ['BO_ 6 Twin: 2 N1', ' SG_ D : 0|8@1+ (1,0) [0|0] "" N2', ' SG_ D_ro : 8|8@1+ (1,0) [0|0] "" N2', '']}
BASE = [x for f in ("Zero", "Std", "Ext", "Empty", "Last", "Twin") for x in TEXT[f]]


class Model:
    def __init__(self):
        self.text = {}      # (frame, signal or None) -> text
        self.cyc = {}
        self.tx = {f: {"N1"} for f in FR}

    def frame(self, i):
        return next((f for f, (k, _) in FR.items() if k == i), None)


def st_comment(i, sig, text):
    def act(m):
        f = m.frame(i)
        if f and (sig is None or sig in FR[f][1]):
            m.text[f, sig] = text
    return ('CM_ BO_ %d "%s";' % (i, text) if sig is None else 'CM_ SG_ %d %s "%s";' % (i, sig, text)), act


def st_cyc(i, v):
    def act(m):
        f = m.frame(i)
        if f:
            m.cyc[f] = v
    return 'BA_ "GenMsgCycleTime" BO_ %d %d;' % (i, v), act


def st_tx(i, nodes):
    def act(m):
        f = m.frame(i)
        if f:
            m.tx[f] |= set(nodes)
    return "BO_TX_BU_ %d : %s;" % (i, ",".join(nodes)), act


def nothing(t):
    return t, lambda m: None


def statements():
    s = []
    for i in (0, 300, 300 | EXT, 5, 2047, 999, 5 | EXT):
        s.append(st_comment(i, None, "frame text %x" % i))
        s.append(st_cyc(i, 1000 + i % 1000 + (7 if i & EXT else 0)))
        s.append(st_tx(i, ["N3"]))
    for i, sig in ((0, "A"), (0, "B"), (300, "A"), (300, "C"), (300 | EXT, "A"), (300, "B"), (2047, "A"), (2047, "D"), (999, "A"), (5, "A"), (2047 | EXT, "D"), (6, "D"), (6, "D_ro"), (0, "B_ro")):
        s.append(st_comment(i, sig, "signal text %x %s" % (i, sig)))
    s.append(st_comment(300, "A", "first line\nsecond; line;\nBO_TX_BU_ 300 : N3;\n  indented"))
    s.append(st_comment(300, None, "\nupper\n\nlower\u00e9\nCM_ SG_ 300 A x;\n"))
    s.append(st_comment(2047, "D", "caf\u00e9\nVAL_ 300 A 0 ;\nBA_ GenMsgCycleTime BO_ 300 77;"))
    s.append(st_comment(2047, "D", ""))
    s.append(st_tx(300, ["N1", "N3", "N4"]))
    s += [st_cyc(300, 20), st_cyc(300, 0), st_cyc(300 | EXT, 20)]
    for t in ('CM_ "network";', 'CM_ BU_ N1 "node text BO_ 300";', 'CM_ EV_ A "env text";', 'CM_ BU_ N1 "a\nb";', 'BA_ "Other" BO_ 300 5;', 'BA_ "GenMsgCycleTime" SG_ 300 A 66;',
              'BA_ "GenMsgCycleTimeFast" BO_ 300 67;', 'BA_ "GenMsgCycleTime" BU_ N1 68;', 'BA_ "Other" "GenMsgCycleTime BO_ 300 69";', 'BA_DEF_DEF_ "GenMsgCycleTime" 70;',
              'BA_DEF_ BO_ "GenMsgCycleTime" INT 0 71;', 'SIG_GROUP_ 300 g 1 : A C;'):
        s.append(nothing(t))
    return s


def comments(raw):
    """{frame: lines, (frame, field): [lines of each copy]} - the comment lines right before the frame's constants or the field."""
    out, pend, infields = {}, [], []
    for line in raw.decode("utf-8", "replace").split("\n"):
        t = line.strip()
        if t.startswith("//"):
            pend.append(t[3:] if t.startswith("// ") else t[2:])
            continue
        m = re.match(r"#define (\w+)_IDE\b", t)
        if m:
            out[m.group(1)] = pend
            pend = []
        elif re.match(r"typedef struct", t):
            pend, infields = [], []
        elif re.match(r"\}\s*(\w+)_t;", t):
            n = re.match(r"\}\s*(\w+)_t;", t).group(1)
            for f, l in infields:
                out.setdefault((n, f), []).append(l)
            pend = []
        else:
            m = re.match(r"(?:u?int\d+_t|sigfloat_t)\s+(\w+)\s*(?::\s*\d+)?\s*;", t)
            if m:
                infields.append((m.group(1), pend))
                pend = []
    return out


def has(lines, text):
    """Whether the text stands in the comment lines, line by line."""
    want = text.split("\n")
    while want and want[-1].strip() == "":
        want.pop()
    if not want:
        return True
    ok = lambda g, w: g.rstrip() == w.rstrip() or (w.endswith(("\\", "??/")) and g.startswith(w)) or g.strip() == w.strip()
    return any(all(ok(lines[k + j], want[j]) for j in range(len(want))) for k in range(len(lines) - len(want) + 1))


def verify(m, raw, parsed, txs, alltexts):
    got, extra = interface(parsed)
    for f, (i, sigs) in FR.items():
        if f not in got:
            return "frame %s is gone" % f
        if (got[f][3] or None) != (m.cyc.get(f) or None):
            return "cycle time of %s is %s instead of %s" % (f, got[f][3], m.cyc.get(f))
    if extra:
        return "extra declarations %s" % extra
    for node in ("n1", "n3", "n4"):
        want = sorted(f for f in FR if node.upper() in m.tx[f] and FR[f][1])
        if txs.get(node, []) != want:
            return "node %s transmits %s instead of %s" % (node, txs.get(node, []), want)
    cm = comments(raw)
    for f, (i, sigs) in FR.items():
        for sig, field in [(None, None)] + list(sigs.items()):
            copies = [cm.get(f, [])] if sig is None else cm.get((f, field), [])
            if not copies:
                return "signal %s of %s has no field" % (sig, f)
            t = m.text.get((f, sig), "")
            for lines in copies:
                if not has(lines, t):
                    return "the comment of %s %s is not %r but %r" % (f, sig or "", t, lines)
                for o in alltexts:
                    if o != t and o and any(x and len(x) > 3 and x in lines for x in o.split("\n")) and not any(x in t.split("\n") for x in o.split("\n")):
                        return "the comment %r stands at %s %s: %r" % (o, f, sig or "", lines)
    return None


def tx_of(d):
    out = {}
    b = os.path.join(d, "out", "butl")
    for n in os.listdir(b):
        if n.endswith("_drv-binutil.h"):
            with open(os.path.join(b, n), encoding="utf-8", errors="replace") as f:
                t = f.read()
            m = re.search(r"typedef struct\s*\{([^}]*)\}\s*\w+_tx_t;", t)
            out[n[:-len("_drv-binutil.h")]] = sorted(re.findall(r"(\w+);", m.group(1))) if m else []
    return out


PLACES = ['CM_ BO_ 300 "%s";', 'CM_ SG_ 300 A "%s";', 'CM_ SG_ 0 B "%s";', 'BA_ "Note" "%s";', 'CM_ "%s";', 'CM_ BU_ N1 "%s";', 'BA_ "Note" BO_ 300 "%s";', 'VAL_ 300 A 0 "%s" ;', 'EV_X "%s";']


def texts(thorough):
    for c in range(256):
        if c in (10, 34):
            continue
        ch = bytes([c])
        for t in (ch, b"x" + ch, ch + b"x", b"x" + ch + b"\ny", b"x\n" + ch + b"\ny"):
            yield t
    for t in ("*/ int x; /*", "//", "/*", "??/", "a ??/\nb", "\\\\", "a\\\nb", "a\\ \nb", "%s%n%d", "%", "#define X 1", "\n#define A_CANID 3", "#endif", "\n#endif\n#error x", "}", "{", "'", "\u00fc\u00df\u20ac",
              "\n// x\\\n", "x" * 3000, "\n".join("line %d" % i for i in range(200)), "{0}", "$ROOT", "@def", "a\tb", "<", ">", "<>", "<:>", "<a:b:c>", "<Checksum>", "<Checksum:>", "<RollingCounter", "RollingCounter>",
              "<Checksum:A:1:2>", ";", ";\n;", "x;\ny", "\n\n\n", " ", "a\rint x;", "\r}\r", "a\r\nb\r\n", "\r\r\n#error\n", "\\", "\\\\\\", "x\\\n\\\ny"):
        yield t.encode()
    if thorough:
        import itertools as it
        al = [b"\\", b"\n", b"?", b"/", b"*", b"#", b";", b"%", b"<", b">", b":", b" ", b"x", b"'", b"}"]
        for n in (2, 3, 4):
            for x in it.product(al, repeat=n):
                yield b"".join(x)


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    S = statements()
    alltexts = sorted({x for t, a in S for x in re.findall(r'^CM_ .*"([^"]*)";$', t, re.S)})
    depth = 2 if not chk.thorough else 3
    seqs = [s for n in range(0, depth + 1) for s in itertools.product(range(len(S)), repeat=n)]
    if not chk.thorough:      # depth three: every triple on a stride that meets every pair in both positions
        seqs += [s for s in itertools.product(range(len(S)), repeat=3) if (s[0] + 2 * s[1] + 3 * s[2]) % 67 == 0]
    for n in (64, 255, 256, 257, 300, 600):      # long sequences of annotations
        seqs += [tuple((k * a + b) % len(S) for k in range(n)) for a, b in ((1, 0), (len(S) - 1, 5), (7, n))]
    jobs = [("seq", c) for c in chunks(seqs, 80)]
    jobs += [("many", [n]) for n in (16, 100, 255, 256, 257, 300)]
    tx = [(p, t) for t in texts(chk.thorough) for p in range(len(PLACES)) if p < 4 or len(t) > 1 or chk.thorough]
    jobs += [("text", c) for c in chunks(tx, 80)]
    global _job

    def code(d):
        """The driver as the compiler sees it, without comments."""
        out = []
        for std in ("gnu11", "c99"):
            for cfg in ((), ("-DDRV_USE_BITS_SIGNAL", "-DDRV_USE_SIGFLOAT", "-DDRV_USE_CANSTRUCT", "-DDRV_AUTO_ROLL", "-DDRV_AUTO_CSM")):
                r = run(["gcc", "-E", "-P", "-dD", "-w", "-std=" + std, "-DGetSystemTick()=1", *cfg, *incs(d), os.path.join(d, "out/lib/drv.c")])
                if r.rc:
                    return "error: " + errline(r.err)
                out.append(r.out)
            if std == "gnu11" and not code.trig:
                break
        return "\n".join(out)
    code.trig = True

    def _job(ij):
        i, (kind, data) = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(d, exist_ok=True)
        bad, states, nst = [], set(), 0
        seen = {}
        if kind == "text":
            code.trig = True
            gen_driver(exe, d, "\n".join(BASE) + "\n", opts=("-rw", "-noinc", "-nofmon"), conf=Conf())
            ref = code(d)
        for s in data:
            if kind == "seq":
                m = Model()
                lines = list(BASE)
                for k in s:
                    lines.append(S[k][0])
                    S[k][1](m)
                text = "\n".join(lines) + "\n"
                rm(os.path.join(d, "out", "butl"))
                p, parsed, raw = header_of(exe, d, text, opts=("-rw", "-nofmon", "-noinc", "-nodeutils"))
                if not p:
                    p = verify(m, raw, parsed, tx_of(d), alltexts)
                states.add(hk(m.text, m.cyc, m.tx))
                nst += len(s)
                if p:
                    bad.append(("seq:" + "-".join(map(str, s)), p + "\nafter: " + " | ".join(S[k][0] for k in s), text))
            elif kind == "many":
                # many frames, each annotated, the annotations in another order than the frames; long texts
                global FR
                keep, FR = FR, {"F%d" % k: (k * 3 + 1, {"S": "S", "T": "T_ro"}) for k in range(s)}
                m = Model()
                lines = ['BO_ %d F%d: 8 N1\n SG_ S : 0|8@1+ (1,0) [0|0] "" N2\n SG_ T : 8|8@1+ (0.5,3) [0|0] "" N2\n' % (k * 3 + 1, k) for k in range(s)]
                st = [st_comment(k * 3 + 1, x, "the text of %d %s" % (k, x)) for k in range(s) for x in (None, "S", "T") if (k + len(x or "")) % 5]
                st += [st_cyc(k * 3 + 1, k + 1) for k in range(s) if k % 3] + [st_tx(k * 3 + 1, ["N3"]) for k in range(s) if k % 7 == 1]
                st += [st_comment(4, "S", "\n".join("line %d of the long text" % k for k in range(s))), st_comment(7, None, "\n".join("row %d" % k for k in range(s)) + "\n" + "w " * s)]
                for k in range(len(st)):
                    t, a = st[(k * 1009) % len(st)] if len(st) % 1009 else st[k]
                    lines.append(t)
                    a(m)
                text = "\n".join(lines) + "\n"
                p, parsed, raw = header_of(exe, d, text, opts=("-rw", "-nofmon", "-noinc", "-nodeutils"))
                if not p:
                    p = verify(m, raw, parsed, tx_of(d), sorted({x for t in m.text.values() for x in [t] if "\n" not in x}))
                states.add(hk(m.text, m.cyc, m.tx))
                nst += len(st)
                FR = keep
                if p:
                    bad.append(("many:%d" % s, p + "\nin a network of %d frames" % s, text))
            else:
                place, t = s
                text = ("\n".join(BASE) + "\n").encode() + PLACES[place].encode().replace(b"%s", t) + b"\n" + b'VAL_ 2047 D 1 "Sentinel" ;\n'
                p = gen_driver(exe, d, text, opts=("-rw", "-noinc", "-nofmon"), conf=Conf())
                if p:
                    bad.append(("text:%s" % p[0], "%s for the annotation %r" % (p[1], PLACES[place].encode().replace(b"%s", t)), text))
                else:
                    with open(os.path.join(d, "out/lib/drv.h"), "rb") as f, open(os.path.join(d, "out/lib/drv.c"), "rb") as g:
                        key = hashlib.sha256(f.read() + g.read()).digest()
                    if key not in seen:
                        seen[key] = code(d)
                    c = seen[key]
                    c2 = re.sub(r"\n#define \w+_(300_)?(Std|Last)_\w* \(\d+\)", "", c)      # constants of the value tables of this probe
                    c2 = re.sub(r"#define (A_Std_\w*|D_Last_\w*)[^\n]*\n", "", c)
                    if c2 != ref or "D_Last_Sentinel" not in c:
                        a, b = ref.splitlines(), c2.splitlines()
                        dl = next(("%r instead of %r" % (y, x) for x, y in itertools.zip_longest(a, b) if x != y), "the following statement is lost")
                        bad.append(("text:%d:%s" % (place, t.hex()[:40]), "the annotation %r changes the code: %s" % (PLACES[place].encode().replace(b"%s", t)[:300], dl), text))
                states.add(hk(place, t))
                nst += 2
            if len(bad) > 3:
                break
        rm(d)
        return bad, len(data), nst, states
    cnt = {}
    for (kind, data), (bad, n, nst, st) in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.seen(st)
        chk.add(transitions=nst, traces_validated_against_impl=n)
        for key, text, dbc in bad:
            cnt[kind] = cnt.get(kind, 0) + 1
            if cnt[kind] <= 4:
                chk.violation(key, text, {"in.dbc": dbc})
    chk.notes.update(statements=len(S), sequences=len(seqs), depth=depth, texts=len(tx), exhaustive=True)
    chk.sample(" | ".join(S[k][0] for k in seqs[-3]))
    chk.sample(repr(tx[-5]))
    chk.assumptions.append("trailing blanks of text lines are not compared; texts cannot contain quotes; with gcc -E in gnu11 and c99 (trigraphs) the code must be the same")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C08", run_check)
