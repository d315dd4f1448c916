"""C27: every permutation of the frames, of the signals of a frame and of the annotations of small files, and every neutral edit at every place
(and every pair of them); the generated files must be the same, or else declare the same interface and behave the same."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import corpus, cheader

# texts as blocks: head, frames (a head line and signal lines), statements
BASES = {
    "mix": (['VERSION "2.1"', "", "NS_ :", "\tCM_", "\tBA_", "", "BS_:", "", "BU_: Gw Ecu1 Ecu2", ""],
            [["BO_ 100 Plain: 8 Gw", ' SG_ A1 : 0|1@1+ (1,0) [0|1] "" Ecu1', ' SG_ C12 : 4|12@1- (1,0) [0|4095] "rpm" Ecu2', ' SG_ RC : 16|4@1+ (1,0) [0|0] "" Ecu1,Ecu2', ' SG_ CS : 63|8@0+ (1,0) [0|0] "" Ecu1'],
             ["BO_ 2147483749 Ext: 8 Ecu1", ' SG_ Temp : 0|12@1+ (0.1,-40) [-40|369.5] "degC" Gw', ' SG_ A1 : 12|12@1- (-2,7) [0|0] "" Gw', ' SG_ RC : 24|33@1+ (5,3) [0|0] "%" Gw'],
             ["BO_ 5 Empty: 3 Gw"],
             ["BO_ 7 Last: 64 Ecu2", ' SG_ Far : 511|8@0- (1,0) [0|0] "" Gw,Ecu1', ' SG_ Near : 0|64@1+ (1,0) [0|0] "" Gw']],
            ["BO_TX_BU_ 100 : Gw,Ecu2;", 'CM_ "network";', 'CM_ BO_ 100 "Plain frame\nwith two lines";', 'CM_ SG_ 100 RC "<RollingCounter>";', 'CM_ SG_ 100 CS "crc <Checksum:XOR8:3>";', 'CM_ SG_ 2147483749 Temp "coolant";',
             'BA_ "GenMsgCycleTime" BO_ 100 20;', 'BA_ "GenMsgCycleTime" BO_ 2147483749 10;', 'VAL_ 100 A1 0 "Off" 1 "On state" ;', 'VAL_ 2147483749 RC 0 "Zero"\n1 "One" ;']),
    "mux": (["BU_: N1 N2"],
            [["BO_ 1 Mux: 8 N1", ' SG_ Sel M : 0|4@1+ (1,0) [0|0] "" N2', ' SG_ Aa m0 : 8|16@1+ (1,0) [0|0] "" N2', ' SG_ Ab m1 : 8|8@1- (2,1) [0|0] "" N2', ' SG_ Ac m2 : 8|16@1- (0.5,1) [0|0] "" N2', ' SG_ Ad m3 : 15|12@0- (1,0) [0|0] "" N2'],
             ["BO_ 2 Two: 2 N2", ' SG_ Sel : 7|9@0+ (1,0) [0|0] "" N1', ' SG_ Aa : 14|7@0- (3,0) [0|0] "" N1']],
            ['BO_TX_BU_ 2 : N1;', 'CM_ SG_ 1 Aa "first";', 'VAL_ 1 Ab 1 "x" ;', 'BA_ "GenMsgCycleTime" BO_ 2 5;']),
    "small": (["BU_: N1 N2", ""], [["BO_ 9 P: 1 N1", ' SG_ X : 0|8@1+ (1,0) [0|0] "" N2'], ["BO_ 3 Q: 2 N2", ' SG_ X : 0|8@1- (2,0) [0|0] "" N1', ' SG_ Y : 8|8@1- (1,0) [0|0] "" N1'], ["BO_ 2147483658 R: 4 N1", ' SG_ X : 0|31@1- (1,0) [0|0] "" N2']],
              ['CM_ SG_ 3 X "c";', 'CM_ SG_ 2147483658 X "<RollingCounter>";', 'VAL_ 9 X 1 "one" ;']),
}
NEUTRAL = ["", "   ", "\t", "BS_:", 'BA_DEF_ BO_ "GenMsgCycleTime" INT 0 65535;', 'BA_DEF_DEF_ "GenMsgCycleTime" 100;', 'BA_ "Other" BO_ 100 7;', 'BA_ "GenMsgCycleTime" BO_ 999 7;', 'EV_ Env: 0 [0|1] "" 0 1 DUMMY_NODE_VECTOR0 Vector__XXX;', "SIG_GROUP_ 100 Grp 1 : A1 C12;",
           'VAL_TABLE_ Tab 1 "SG_ x : 0|8@1+" 0 "BO_ 3" ;', 'CM_ BU_ Gw "SG_ not a signal";', 'CM_ EV_ Env "text\n SG_ Zz : 0|8@1+ (1,0) [0|0] \\"\\" Gw\nBO_ 77 Nope: 8 Gw\nmore";', "SIG_VALTYPE_ 100 C12 : 1;", 'CM_ "BO_ 88 No: 8 Gw";', "NS_DESC_", "SGTYPE_ t : 8@1+ ;"]
ENDS = [" ", "\t", "  \t ", "\r"]


def compose(head, frames, stmts, eol="\n"):
    L = list(head)
    for f in frames:
        L += f + [""]
    return L + stmts


def variants(name, T):
    """(kind, label, text) of every variant of a base."""
    head, frames, stmts = BASES[name]
    ref = compose(head, frames, stmts)
    flat = "\n".join(ref) + "\n"
    yield "", "base", flat
    for p in itertools.permutations(range(len(frames))):
        yield "frames", str(p), "\n".join(compose(head, [frames[i] for i in p], stmts)) + "\n"
    for k, f in enumerate(frames):
        for p in itertools.permutations(range(1, len(f))):
            F = list(frames)
            F[k] = [f[0]] + [f[i] for i in p]
            yield "signals", "%d %s" % (k, p), "\n".join(compose(head, F, stmts)) + "\n"
    # annotations: all permutations of up to five at a time, all transpositions and rotations of the rest
    m = 5 if not T else 7
    for s in ([list(range(len(stmts)))[:m]] if len(stmts) <= m else [list(range(a, a + m)) for a in range(0, len(stmts) - m + 1)]):
        for p in itertools.permutations(s):
            q = list(range(len(stmts)))
            q[s[0]:s[0] + len(s)] = p
            yield "annotations", str(q), "\n".join(compose(head, frames, [stmts[i] for i in q])) + "\n"
    for i, j in itertools.combinations(range(len(stmts)), 2):
        q = list(range(len(stmts)))
        q[i], q[j] = q[j], q[i]
        yield "annotations", str(q), "\n".join(compose(head, frames, [stmts[i] for i in q])) + "\n"
    for p in itertools.permutations(range(len(frames))):
        yield "all", "reversed statements, frames %s" % (p,), "\n".join(compose(head, [[frames[i][0]] + frames[i][:0:-1] for i in p], stmts[::-1])) + "\n"
    # edits of lines; statements with several lines count as one place
    def joined(lines):
        return "\n".join(lines) + "\n"
    places = range(len(ref) + 1)
    ins = [(i, n) for i in places for n in NEUTRAL]
    for i, n in ins:
        yield "insert", "%r at %d" % (n[:30], i), joined(ref[:i] + [n] + ref[i:])
    lines = flat.split("\n")[:-1]
    for i in range(len(lines)):
        for e in ENDS:
            yield "end", "%r at line %d" % (e, i), "\n".join(lines[:i] + [lines[i] + e] + lines[i + 1:]) + "\n"
    for e in ENDS + [" \r"]:
        yield "ends", "%r everywhere" % e, "\n".join(x + e for x in lines) + "\n"
    for i in range(len(lines) + 1):
        yield "mixed", "CRLF up to line %d" % i, "".join(x + ("\r\n" if k < i else "\n") for k, x in enumerate(lines))
        yield "mixed", "CRLF from line %d" % i, "".join(x + ("\n" if k < i else "\r\n") for k, x in enumerate(lines))
    # what the file ends with: after every statement as the last one; compared with the same text with its line end
    for last in range(len(stmts)):
        q = [s for k, s in enumerate(stmts) if k != last] + [stmts[last]]
        for e in ("", "\n\n\n", " ", "\r\n", "\r", "\t\n", "\n \n"):
            yield "final", "%r after %s" % (e, stmts[last][:20]), "\n".join(compose(head, frames, q)) + e
    n2 = [(i, n) for i in range(0, len(ref) + 1, 1 if T else 3) for n in NEUTRAL[::1 if T else 4]]
    for (i, n), (j, o) in itertools.combinations_with_replacement(n2, 2):
        if T and (i * 7 + j * 3 + len(n) + len(o)) % 5:
            continue
        yield "insert2", "%r at %d, %r at %d" % (n[:20], i, o[:20], j), joined(ref[:i] + [n] + ref[i:j] + [o] + ref[j:])


def cut(name):
    """Texts whose last statement is a frame or a signal, with and without final line end."""
    head, frames, stmts = BASES[name]
    for k in range(len(frames)):
        order = frames[:k] + frames[k + 1:] + [frames[k]]
        for n in range(1, len(frames[k]) + 1):
            L = compose(head, order[:-1], []) + order[-1][:n]
            yield "%d/%d" % (k, n), "\n".join(L) + "\n"


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    T = chk.thorough
    jobs = []
    for b in BASES:
        seen = set()
        for kind, lab, t in variants(b, T):
            if t not in seen:
                seen.add(t)
                jobs.append((b, b, kind, lab, t))
        for lab, t in cut(b):
            jobs.append((b, b + "/" + lab, "", "base", t))
            for e in ("", "\r", "\r\n", " ", "\n\n", "\n ", "\t"):
                jobs.append((b, b + "/" + lab, "final", "%r after the part %s" % (e, lab), t[:-1] + e))
    conf = Conf(("SIGFLOAT", "ROLL", "CSM", "DIAG_MONITORS"), ext=64, extra=HOOKS)
    refs = {j[1]: j[4] for j in jobs if not j[2]}
    OPTS = ("-rw", "-nodeutils")
    global _ref, _job, _full

    def full(d, b, text):
        """Everything a driver offers and does, without regard to how its text is laid out."""
        msgs = [m for m in corpus.parse(text.replace("\r", "").replace("\n\n", "\n")) if m.sigs]
        msgs = [m for m in corpus.parse(refs[b]) if m.sigs]
        res = {}
        if msgs:
            p, out, oc = snapshot(exe, d, text.encode(), msgs, conf, opts=("-rw",))
            if p:
                return {"problem": p[1]}
            res["driver"] = out
        for opts in (("-rw",), OPTS):
            rm(os.path.join(d, "out"))
            p = gen_driver(exe, d, text.encode(), "drv", opts, conf)
            if p:
                return {"problem": p[1]}
            for f in sorted(os.listdir(os.path.join(d, "out/butl"))):
                if f.endswith(".h"):
                    try:
                        mac, st, fn = cheader.parse(cheader.preprocess(os.path.join(d, "out/butl", f), incs(d), conf.flags("drv")))
                    except ValueError as e:
                        return {"problem": str(e)}
                    res[f] = {"structs": {k: sorted(map(str, v)) for k, v in st.items()}, "functions": {k: v for k, v in fn.items()}}
                else:
                    nm = f[:-len("-binutil.c")]
                    h = os.path.join(d, "out/butl", f[:-1] + "h")
                    mac, st, fn = cheader.parse(cheader.preprocess(h, incs(d), conf.flags("drv")))
                    rx = {x[1] for k, v in st.items() if k.endswith("_rx_t") and k.startswith(nm) for x in v}
                    mine = [m for m in msgs if m.name in rx]
                    p, o = build_run(d, '#include <stdint.h>\nuint32_t v_tick;\n' + receive_program(mine, "drv", nm, corpus.parse(refs[b])) if mine else '#include <stdint.h>\nuint32_t v_tick;\n#include "drv.c"\n#include "drv-fmon.c"\n#include "%s"\n#include <stdint.h>\nuint32_t v_tick;\n#include <stdio.h>\nint main(void) { printf("DONE 0\\n"); return 0; }\n' % f, flags=conf.flags("drv") + ["-DWITH_MON"])
                    res[f] = {"receive": p or o, "frames": sorted(rx)}
        return res

    def _ref(b):
        d = os.path.join(base, "ref-%s" % b.replace("/", "_"))
        os.makedirs(d, exist_ok=True)
        r = gen(exe, refs[b].encode(), os.path.join(d, "out"), opts=OPTS)
        t = tree(os.path.join(d, "out"))
        rm(os.path.join(d, "out"))
        r2 = gen(exe, refs[b].encode(), os.path.join(d, "out"), opts=("-rw",))
        t2 = tree(os.path.join(d, "out"))
        f = full(d, b, refs[b])
        rm(d)
        return b, (t, t2), f
    known = {b: (t, f) for b, t, f in pmap(_ref_call, list(refs))}
    bag = Bag(chk, 3)
    for b, (t, f) in known.items():
        bad = f.get("problem") or next((str(x.get("receive")) for x in f.values() if isinstance(x, dict) and "FAIL" in str(x.get("receive")) or isinstance(x, dict) and "does not" in str(x.get("receive"))), None)
        if bad:
            bag.put("base:%s" % b, "the unedited file %s: %s" % (b, bad), {"in.dbc": refs[b]})
    if chk.viol:
        return

    def _job(ij):
        i, part = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(os.path.join(d, "out"), exist_ok=True)
        n, slow, out, st, nf = 0, 0, [], set(), 0
        for _, b, kind, lab, text in part:
            n += 1
            st.add(hk(text))
            gs = []
            for opts in (OPTS, ("-rw",)):
                rm(os.path.join(d, "out"))
                r = gen(exe, text.encode(), os.path.join(d, "out"), opts=opts)
                gs.append(tree(os.path.join(d, "out")))
                if r.rc or r.timeout:
                    gs[-1] = {}
                if opts == OPTS and gs[0] == known[b][0][0] and (i + n) % 4:
                    gs.append(known[b][0][1])
                    break
            nf += sum(map(len, gs))
            if tuple(gs) == known[b][0]:
                continue
            slow += 1
            f = full(d, b, text)
            if f != known[b][1]:
                bad = f.get("problem") or diff(known[b][1], f)
                out.append(("%s:%s:%s" % (kind, b, lab), "file %s with %s (%s): %s" % (b, {"final": "another end", "frames": "another order of the frames", "signals": "another order of the signals", "annotations": "another order of the annotations"}.get(kind, "edit"), lab, str(bad)[:600]),
                            {"in.dbc": text, "base.dbc": refs[b]}))
                if len(out) > 2:
                    break
        rm(d)
        return n, slow, out, st, nf
    todo = [j for j in jobs if j[2]]
    tot = {}
    for j in todo:
        tot[j[2]] = tot.get(j[2], 0) + 1
    nj = max(8, len(todo) // 60)
    slow = 0
    for n, s, out, st, nf in pmap(_job_call, [(i, todo[i::nj]) for i in range(nj)]):
        chk.seen(st)
        chk.add(transitions=nf, traces_validated_against_impl=n)
        slow += s
        for x in out:
            bag.put(*x)
    chk.notes.update(variants=tot, compared_by_behaviour=slow, exhaustive=True)
    chk.sample(todo[200][4]); chk.sample(todo[len(todo) // 2][3])
    chk.assumptions.append("each object has at most one annotation of a kind (for several, the last one wins: C08)")


def _ref_call(x):
    return _ref(x)


def _job_call(x):
    return _job(x)


if __name__ == "__main__":
    main("C27", run_check)
