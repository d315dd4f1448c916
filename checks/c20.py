"""C20: every truncation, every single-byte edit (deletion, doubling, replacement by each character of an alphabet), every line edit, every
numeric token at every extreme, every token at every critical length, and every sequence of three statements out of a set that covers the
format, well-formed and not, run through the generator built with address sanitizer (the long texts also with the ordinary build)."""
import os, sys, itertools, re, zlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import corpus

MINI = '''VERSION "2.7"
BU_: Gw E
BO_ 100 Pl: 8 Gw
 SG_ Rc : 0|4@1+ (1,0) [0|15] "rpm" E,Gw
 SG_ Sc m1 : 15|12@0- (0.5,-3) [0|1] "" E
 SG_ Cs M : 56|8@1+ (1,0) [0|0] "" Q

BO_ 2147483649 Ex: 64 E
 SG_ In : 64|33@1- (-2,7) [0|0] "%" Gw
BO_TX_BU_ 100 : E,Gw;
CM_ BO_ 100 "two
lines";
CM_ SG_ 100 Rc "<RollingCounter>";
CM_ SG_ 100 Cs "<Checksum:XOR8:3>";
BA_ "GenMsgCycleTime" BO_ 100 20;
VAL_ 100 Rc 0 "Off" 1 "On it" ;
'''
CHARS = [" ", '"', ";", "\n", "\0", ":", "|", "@", "-", "9", "(", ",", "\xff", "%", "<", ">", ".", "e", "\\", "\r", "_"]
EXTREME = ["", "-1", "0", "1", "7", "64", "65", "255", "256", "2147483647", "2147483648", "4294967295", "4294967296", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775809",
           "18446744073709551615", "18446744073709551616", "9" * 40, "9" * 400, "1e400", "-1e400", "1e-400", "1e18", "1e19", "-1e19", "0.0", "0.1", "nan", "inf", "-inf", "0x10", "0x1p2000", ".", "+", "-", "e", "00000000000000000001", "1.2.3", "1,2"]
LINES = ['VERSION "1.0"', 'VERSION ""', 'VERSION "99999999999.1"', "BO_ 1 M: 8 N", "BO_ 1 M: 64 N", "BO_ 2147483650 X: 1 N,P", "BO_ 1 M: 0 N", "BO_", "BO_ 1", "BO_ 1 M:", "BO_ : 8 N", ' SG_ S : 0|8@1+ (1,0) [0|0] "" N', ' SG_ T : 7|64@0- (0.5,1) [0|0] "u" N,P',
         ' SG_ S : 0|0@1+ (0,0) [0|0] "" N', ' SG_ Z : 600|64@0+ (1,0) [0|0] "" N', " SG_ S", " SG_ : 0|8@1+ (1,0) [0|0] \"\" N", ' SG_ S : ', " SG_ S : 0|8", ' SG_ S : "', " SG_ S m0 M : 0|8@1+ (1,0) [0|0] \"\" ", 'CM_ SG_ 1 S "<RollingCounter>";', 'CM_ SG_ 1 S "<Checksum:A:1>";',
         'CM_ SG_ 1 T "<Checksum::>";', 'CM_ BO_ 1 "a', 'b";', 'CM_ ";', "CM_", "CM_ SG_ 1 ;", 'CM_ SG_ 1 S "<", ">";', 'VAL_ 1 S 0 "a" 1 "b" ;', "VAL_ 1 S ;", "VAL_ ;", 'VAL_ 1 S 0 "', 'VAL_ 1 S a b ;', "VAL_", 'BA_ "GenMsgCycleTime" BO_ 1 5;', 'BA_ "GenMsgCycleTime" BO_ ;', "BA_ ;", "BA_",
         "BO_TX_BU_ 1 : N,P;", "BO_TX_BU_ ;", "BO_TX_BU_", "", ";", '"', "\xff\xfe"]
CORE3 = {k for k, l in enumerate(LINES) if l in ('VERSION "1.0"', "BO_ 1 M: 8 N", "BO_ 1 M: 0 N", "BO_", ' SG_ S : 0|8@1+ (1,0) [0|0] "" N', " SG_ S", ' SG_ S : "', 'CM_ SG_ 1 S "<RollingCounter>";', 'CM_ SG_ 1 S "<Checksum:A:1>";',
         'CM_ BO_ 1 "a', 'b";', "CM_", 'VAL_ 1 S 0 "a" 1 "b" ;', 'VAL_ 1 S 0 "', "VAL_", 'BA_ "GenMsgCycleTime" BO_ 1 5;', "BA_", "BO_TX_BU_ 1 : N,P;", ";", '"')}
SIZES = [2, 31, 32, 33, 63, 64, 127, 128, 129, 200, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10000]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=0", UBSAN_OPTIONS="print_stacktrace=0")


def tokens(text, rx):
    return [(m.start(), m.end()) for m in re.finditer(rx, text)]


def edits(text, chars):
    for i in range(len(text) + 1):
        yield "cut%d" % i, text[:i]
    for i in range(len(text)):
        yield "del%d" % i, text[:i] + text[i + 1:]
        yield "dup%d" % i, text[:i] + text[i] + text[i:]
        for c in chars:
            if c != text[i]:
                yield "rep%d-%02x" % (i, ord(c)), text[:i] + c + text[i + 1:]


def line_edits(text, swaps):
    L = text.split("\n")
    for i in range(len(L)):
        yield "ldel%d" % i, "\n".join(L[:i] + L[i + 1:])
        yield "ldup%d" % i, "\n".join(L[:i] + [L[i]] + L[i:])
        yield "ljoin%d" % i, "\n".join(L[:i]) + "".join(L[i:i + 1]) + "\n".join(L[i + 1:])
    if swaps:
        for i, j in itertools.combinations(range(len(L)), 2):
            M = list(L)
            M[i], M[j] = M[j], M[i]
            yield "lswap%d-%d" % (i, j), "\n".join(M)
        for i in range(len(L)):
            for j in range(len(L) + 1):
                if j not in (i, i + 1):
                    M = L[:i] + L[i + 1:]
                    M.insert(j if j < i else j - 1, L[i])
                    yield "lmove%d-%d" % (i, j), "\n".join(M)


def number_edits(text, pairs):
    t = tokens(text, r"-?\d+(\.\d+)?")
    for a, b in t:
        for e in EXTREME:
            yield "num%d-%s" % (a, e[:20]), text[:a] + e + text[b:]
    if pairs:
        for (a, b), (c, d) in itertools.combinations(t, 2):
            if "\n" in text[b:c] or pairs == 1 and t.index((c, d)) != t.index((a, b)) + 1:
                continue
            for e, f in itertools.product(EXTREME[::3] if pairs == 1 else EXTREME, repeat=2):
                yield "nums%d-%s-%d-%s" % (a, e[:20], c, f[:20]), text[:a] + e + text[b:c] + f + text[d:]


def length_edits(text):
    for a, b in tokens(text, r"\w+") + tokens(text, r'(?<=")[^"\n]*(?=")') + [(m.start(), m.end()) for m in re.finditer(r" +", text)]:
        w = text[a:b]
        for n in SIZES:
            fill = " " * n if w.strip(" ") == "" and w else (w if w[:1].isalpha() else "x" if not w else w) * n
            if fill.startswith(" ") and n > 2049:
                continue
            yield "len%d-%d" % (a, n), text[:a] + fill[:n] + text[b:]
    H = "BO_ 1 M: 8 N\n"
    S = ' SG_ S : 0|8@1+ (1,0) [0|0] "" N\n'
    for n in SIZES:
        if n <= 2049:
            yield "sigs%d" % n, H + "".join(' SG_ S%d : %d|8@1+ (1,0) [0|0] "" N\n' % (i, i % 56) for i in range(min(n, 600)))
            yield "frames%d" % n, "".join("BO_ %d M%d: 8 N\n" % (i, i) + S for i in range(min(n, 300)))
            yield "recs%d" % n, H + ' SG_ S : 0|8@1+ (1,0) [0|0] "" %s\n' % ",".join("N%d" % i for i in range(min(n, 200)))
            yield "txs%d" % n, H + S + "BO_TX_BU_ 1 : %s;\n" % ",".join("N%d" % i for i in range(min(n, 200)))
            yield "txlong%d" % n, H + S + "BO_TX_BU_ 1 : %s;\n" % ",".join("N" * n for i in range(3))
        yield "vals%d" % n, H + S + "VAL_ 1 S %s;\n" % "".join('%d "v %d" ' % (i, i) for i in range(n))
        yield "cmlines%d" % n, H + S + 'CM_ SG_ 1 S "%s";\n' % ("a line\n" * n)
        yield "marks%d" % n, H + S + 'CM_ SG_ 1 S "%s";\n' % ("<Checksum:A:1>" * n)
        yield "opens%d" % n, H + S + 'CM_ SG_ 1 S "%s";\n' % ("<" * n)
        yield "digits%d" % n, H + ' SG_ S : 0|8@1+ (0.%s,1%s) [0|0] "" N\n' % ("0" * n + "1", "0" * n)
        yield "blank%d" % n, "\n" * n + H + S
        yield "tabs%d" % n, H + S + "\t" * min(n, 1025) + "\n"
        yield "bin%d" % n, "".join(chr((i * 37 + i // 256) & 255) for i in range(n))
        yield "nul%d" % n, H + S + "\0" * n


STMT = ['VERSION "2.7"', "BO_ 100 Pl: 8 Gw", ' SG_ Sc m1 : 15|12@0- (0.5,-3) [0|1] "u" E,Gw', ' SG_ Rc : 0|4@1+ (1,0) [0|15] "rpm" E', "BO_TX_BU_ 1 : E,Gw;", 'CM_ BO_ 1 "text";', 'CM_ SG_ 1 S "<RollingCounter>";', 'CM_ SG_ 1 S "a <Checksum:XOR8:3>";',
        'BA_ "GenMsgCycleTime" BO_ 1 20;', 'VAL_ 1 S 0 "Off" 1 "On it" ;', 'CM_ "a" "b";', 'BA_ "A" SG_ 1 S "v";']


def dense(depth):
    """Statements with every choice of up to `depth` of their pieces (words, signs, blanks) missing, and every beginning of these."""
    for k, l in enumerate(STMT):
        at = re.findall(r"\w+|\s+|.", l)
        seen = set()
        for n in range(1, depth + 1):
            for c in itertools.combinations(range(len(at)), n):
                seen.add("".join(a for i, a in enumerate(at) if i not in c))
        for e in range(len(at)):
            for n in range(0, depth):
                for c in itertools.combinations(range(e), n):
                    seen.add("".join(a for i, a in enumerate(at[:e]) if i not in c))
        yield k, sorted(seen)


def dense_text(lines):
    return "".join('BO_ 1 M: 8 N\n SG_ S : 0|8@1+ (1,0) [0|0] "" N\n%s\n";\n";\n' % x for x in lines)


def run_check(chk):
    asan, plain = build_coderdbc("asan"), build_coderdbc()
    base = chk.dir("w")
    cases = []          # (build, label, text)
    T = chk.thorough
    A = lambda lab, it: cases.extend((0, lab + ":" + k, t) for k, t in it)
    P = lambda lab, it: cases.extend((1, lab + ":" + k, t) for k, t in it)
    A("mini", edits(MINI, CHARS[:6] if not T else CHARS))
    A("mini", line_edits(MINI, True))
    A("mini", number_edits(MINI, 0 if not T else 1))
    P("mini", edits(MINI, CHARS[:12] if not T else CHARS))
    P("mini", number_edits(MINI, 1 if not T else 2))
    A("mini", length_edits(MINI))
    seqs = [("%s" % (i,), "\n".join(LINES[k] for k in i) + "\n") for d in (1, 2) for i in itertools.product(range(len(LINES)), repeat=d)]
    A("seq", seqs)
    P("seq", ((str(i), "\n".join(LINES[k] for k in i) + "\n") for i in itertools.product(range(len(LINES)), repeat=3) if T or all(k in CORE3 for k in i)))
    A("bytes", ((str(i), chr(i) + "BO_ 1 M: 8 N\n" + chr(i) + "SG_ S" + chr(i) + ": 0|8@1+ (1,0) [0|0] \"\" N\n" + chr(i)) for i in range(256)))
    big = {"rich": corpus.RICH, **corpus.SMALL}
    for n, t in big.items():
        t = t.encode().decode("latin-1")
        if n == "bits":
            continue
        if T or n == "rich":
            A(n, [("whole", t)] + list(line_edits(t, False)))
            (A if T else P)(n, (("cut%d" % i, t[:i]) for i in range(0, len(t) + 1, 1 if T or n == "rich" else 3)))
        elif not T:
            A(n, [("whole", t)])
        if T:
            P(n, edits(t, CHARS[:6]))
    for k, ls in dense(3 if T else 2):
        chk.notes["pieces_missing"] = chk.notes.get("pieces_missing", 0) + len(ls)
        cases.extend((0, "pieces%d-%d" % (k, j), dense_text(c)) for j, c in enumerate(chunks(ls, 25)))
    # driver names
    names = ["d" * n for n in SIZES if n < 9000]
    seen, uniq = set(), []
    for c in cases:
        k = (c[0], c[2])
        if k not in seen:
            seen.add(k)
            uniq.append(c)
    global _job

    def _job(ij):
        i, part = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(os.path.join(d, "out"), exist_ok=True)
        out, slow, nl, st = [], 0, 0, set()
        for b, lab, text in part:
            drv = "drv"
            if b == 2:
                drv, text, b = text, MINI, 0
            t0 = time.time()
            r = gen(plain if b else asan, text.encode("latin-1"), os.path.join(d, "out"), drv, ("-rw", "-nodeutils") if b == 0 or zlib.crc32(lab.encode()) & 1 else ("-rw",), timeout=30, env=ENV)
            slow = max(slow, time.time() - t0)
            nl += text.count("\n") + 1
            try:
                with open(os.path.join(d, "out/lib/%s.h" % drv.lower()), "rb") as f:
                    st.add(hk(f.read()))
            except OSError:
                pass
            bad = None
            if r.timeout:
                bad = "does not end within 2 minutes"
            elif r.rc < 0:
                bad = "is killed by signal %d" % -r.rc + (" (%s)" % r.err.strip().splitlines()[-1][:200] if r.err.strip() else "")
            elif r.rc >= 90 or "Sanitizer" in r.err or "runtime error" in r.err:
                m = re.search(r"(ERROR: .*|runtime error: .*)", r.err)
                w = re.search(r"#\d+ .* (/\S*src/\S+)", r.err)
                bad = "memory error: %s %s" % (m.group(1)[:160] if m else r.err[-160:], w.group(1) if w else "")
            if bad and lab.startswith("pieces") and text.count("BO_ 1 M") > 1:
                one = text.split('\n";\n";\n')[:-1]          # which of the statements is it?
                for x in one:
                    r1 = gen(asan, (x + '\n";\n";\n').encode(), os.path.join(d, "out"), "drv", ("-rw",), timeout=30, env=ENV)
                    if r1.timeout or r1.rc:
                        text = x + '\n";\n";\n'
                        break
            if bad:
                out.append(("%s" % lab, "text %s (%d bytes%s): the generator %s" % (lab, len(text), "" if len(drv) < 9 else ", driver name of %d characters" % len(drv), bad), {"in.dbc": text.encode("latin-1"), "stderr.txt": r.err[-4000:]}))
                if len(out) > 6:
                    break
        rm(d)
        return len(part), (nl, st), slow, out
    uniq += [(2, "drvname:%d" % len(n), n) for n in names]
    order = sorted(range(len(uniq)), key=lambda k: -len(uniq[k][2]) - (100000 if uniq[k][0] == 0 else 0))
    nj = max(1, len(uniq) // 60)
    work = [[uniq[k] for k in order[i::nj]] for i in range(nj)]
    bag = Bag(chk, 3)
    slow = 0
    for n, (nl, st), s, out in pmap(_jobcall, list(enumerate(work))):
        chk.seen(st)
        chk.add(transitions=nl, traces_validated_against_impl=n)
        slow = max(slow, s)
        for x in out:
            bag.put(*x)
    chk.notes.update(with_sanitizer=sum(c[0] != 1 for c in uniq), with_ordinary_build=sum(c[0] == 1 for c in uniq), slowest_run_s=round(slow, 2), exhaustive=True)
    chk.sample([c[1] for c in uniq[:4]]); chk.sample([c[1] for c in uniq[len(uniq) // 2:len(uniq) // 2 + 4]])
    chk.assumptions += ["realistic size: single tokens up to 10000 characters, runs of blanks up to 2000, files up to about 200 kB", "leaks at the end of the program are not memory errors"]


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C20", run_check)
