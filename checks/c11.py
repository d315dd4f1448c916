"""C11: node drivers. All assignments of primary transmitter, additional transmitters and receivers for three nodes and one frame with two
signals, and for two nodes and two frames; frames without signals; node names; all of it against set comprehensions. The receive and
transmit collections are read from the compiled headers, the receive functions are executed."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

FREE = ("vector__xxx",)      # the placeholder for "nobody" is neither required nor forbidden as a node
FORMS = ("BO_TX_BU_ %d : %s;", "BO_TX_BU_ %d :%s ;", "BO_TX_BU_ %d: %s;")
X = 0x80000000


def subsets(x):
    return [c for n in range(len(x) + 1) for c in itertools.combinations(x, n)]


class Case:
    """frames: [(name, dbcid, primary or None, additional, [receivers of each signal])]"""

    def __init__(self, frames, form=0, sep=",", nodes=None, order=None):
        self.frames, self.form, self.sep, self.order = frames, form, sep, order
        self.nodes = nodes

    def text(self):
        o = ["BU_: N1 N2 N3", ""]
        for n, i, tx, add, recs in self.frames:
            o.append("BO_ %d %s: 8 %s" % (i, n, tx or "Vector__XXX"))
            for k, r in enumerate(recs):
                o.append(' SG_ S%d : %d|8@1+ (1,0) [0|0] "" %s' % (k, 8 * k, self.sep.join(r) or "Vector__XXX"))
            o.append("")
        st = [FORMS[self.form] % (i, self.sep.join(add)) for n, i, tx, add, recs in self.frames if add]
        if self.order:
            st = st[::-1]
        return "\n".join(o + st) + "\n"

    def msgs(self):
        return [Msg(n, i & 0x1FFFFFFF, 8, [Sig("S%d" % k, 8 * k, 8) for k in range(len(r))], bool(i & X)) for n, i, tx, add, r in self.frames]

    def want(self):
        """{node: (frames sent, frames received)}"""
        w = {}
        for n, i, tx, add, recs in self.frames:
            for t in ([tx] if tx else []) + list(add):
                w.setdefault(t, (set(), set()))[0].add(n)
            for r in recs:
                for x in r:
                    w.setdefault(x, (set(), set()))[1].add(n)
        live = {n for n, i, tx, add, recs in self.frames if recs}
        return {k.lower(): (v[0] & live, v[1] & live) for k, v in w.items()}


def cases(thorough):
    N = ("Ctl", "N1", "N10")
    for tx in (None,) + N:
        for add in subsets(N):
            for a in subsets(N):
                for b in subsets(N):
                    yield Case([("Msg", 0x123, tx, add, [a, b])])
    N = ("A", "Gateway_2")
    opts = [(tx, add, a) for tx in (None,) + N for add in subsets(N) for a in subsets(N)]
    for k, (x, y) in enumerate(itertools.product(opts, repeat=2)):
        yield Case([("Fa", 100, x[0], x[1], [x[2]]), ("Fb", X | 99, y[0], y[1], [y[2]] if k % 5 else [])], form=k % 3, sep=",", order=k % 2)
    for sep in (",", ", ", " ,"):
        for form in range(3):
            for add in subsets(("N1", "B", "Node3")):
                yield Case([("Fa", 1, "Node3", add, [("B", "N1"), ("N1",)]), ("Em", 2, "B", add, []), ("Fc", 0, "N1", (), [add])], form=form, sep=sep)
    for names in (("a", "b", "c"), ("Z", "z1", "z10"), ("x_1", "_y", "Longer_Node_Name_With_Many_Characters_1"), ("TX", "RX", "rx_t")):
        for tx in names:
            for r in subsets(names):
                yield Case([("F1", 7, tx, (), [r]), ("F2", 8, names[0], tuple(n for n in names if n != names[0]), [r, (tx,)]), ("F3", 9, tx, r, [(tx,), r, ()])])
    for n in (8, 9, 16, 17, 32, 33, 64, 65, 128, 129):        # long lists of nodes
        N = tuple("Node_%d" % k for k in range(n))
        yield Case([("Fa", 1, N[0], N[1:], [N[1:]]), ("Fb", 2, N[-1], N[:-1:2], [N[::2], N[1::3]]), ("Fc", X | 3, None, N[-1:], [N[-2:]])], form=n % 3)
        yield Case([("Fa", 1, N[0], (), [N]), ("Fb", 2, N[-1], (), [N[::-1], ()]), ("Fc", 3, None, N[::-1], [N[:1]])], form=n % 3)
    for n in (16, 64, 255, 256, 257, 300):                    # many frames
        N = ("A", "B1", "Cc", "D_d", "E")
        yield Case([("F%d" % k, 1 + k, N[k % 5], (N[(k // 5) % 5],) if k % 3 == 0 else (), [(N[(k // 2) % 5],)] * (k % 4)) for k in range(n)], form=n % 3, order=n % 2)
        yield Case([("F%d" % k, X | (9 + k), "A", (), [("B1",)]) for k in range(n)] + [("Last", 5, "Cc", ("A",), [("A", "Cc")])])
    if thorough:
        N = ("A", "B1")
        opts = [(tx, add, a) for tx in (None,) + N for add in subsets(N) for a in subsets(N)]
        for x in itertools.product(opts[::2], repeat=3):
            yield Case([("F%d" % k, 10 + k, o[0], o[1], [o[2]]) for k, o in enumerate(x)])


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    cs = list(cases(chk.thorough))
    jobs = chunks(list(enumerate(cs)), 70)
    global _job

    def _job(ij):
        i, data = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(d)
        bad, seen, states, execs = [], {}, set(), 0

        def unit(c, util, node, rx, tx):
            """Compiled view of one pair of binutil files: collections and behaviour."""
            nonlocal execs
            ul = util.lower()
            raw = b""
            for f in ("butl/%s-binutil.h" % ul, "butl/%s-binutil.c" % ul, "lib/drv.h", "lib/drv.c"):
                try:
                    with open(os.path.join(d, "out", f), "rb") as fh:
                        raw += fh.read() + b"\0"
                except OSError:
                    return "the file %s is missing" % f
            key = (hashlib.sha256(raw).digest(), tuple(sorted(rx)), None if tx is None else tuple(sorted(tx)))
            if key in seen:
                return seen[key]
            seen[key] = None
            execs += 1
            try:
                _, structs, funcs = cheader.parse(cheader.preprocess(os.path.join(d, "out/butl/%s-binutil.h" % ul), incs(d)))
            except ValueError as e:
                seen[key] = "the header of %s is not accepted: %s" % (ul, e)
                return seen[key]
            got = [sorted(f[1] for f in structs.get("%s_%s_t" % (ul, x), [])) for x in ("rx", "tx")]
            types = [f for x in ("rx", "tx") for f in structs.get("%s_%s_t" % (ul, x), []) if f[0] != f[1] + "_t"]
            p = None
            if got[0] != sorted(rx):
                p = "%s receives %s instead of %s" % (ul, got[0], sorted(rx))
            elif tx is not None and got[1] != sorted(tx):
                p = "%s transmits %s instead of %s" % (ul, got[1], sorted(tx))
            elif types:
                p = "%s has a member of another type: %s" % (ul, types[0])
            elif rx:
                ms = c.msgs()
                err, out = build_run(d, receive_program([m for m in ms if m.name in rx], "drv", util, ms), ["-D__DEF_%s__" % util.upper()])
                f = [x[5:] for x in out.splitlines() if x.startswith("FAIL ")]
                p = "%s: %s" % (ul, f[0]) if f else err
            else:
                if "%s_Receive" % ul in funcs:
                    p = "%s has a receive function although it receives nothing" % ul
                r = run(["gcc", "-std=gnu11", "-w", "-c", "-D__DEF_%s__" % util.upper(), *incs(d), os.path.join(d, "out/butl/%s-binutil.c" % ul), "-o", os.path.join(d, "o.o")])
                if r.rc:
                    p = "the driver of %s does not compile: %s" % (ul, errline(r.err))
            seen[key] = p
            return p
        for k, c in data:
            text = c.text()
            rm(os.path.join(d, "out"))
            p = gen_driver(exe, d, text, opts=("-rw", "-nodeutils"), conf=Conf())
            if not p:
                want = c.want()
                b = os.listdir(os.path.join(d, "out/butl"))
                got = {x[:-len("_drv-binutil.h")] for x in b if x.endswith("_drv-binutil.h")}
                odd = [x for x in b if not x.endswith(("_drv-binutil.h", "_drv-binutil.c"))]
                if got - set(FREE) != set(want):
                    p = ("nodes", "there are drivers for the nodes %s instead of %s" % (sorted(got - set(FREE)), sorted(want)))
                elif odd:
                    p = ("nodes", "unexpected file butl/%s" % odd[0])
                for n, (tx, rx) in sorted(want.items()):
                    q = None if p else unit(c, n + "_drv", n, rx, tx)
                    if q:
                        p = ("node", q)
                states.add(repr(sorted((n, sorted(a), sorted(b)) for n, (a, b) in want.items())))
                live = {m.name for m in c.msgs() if m.sigs}
                if not p and k % 6 == 0:
                    rm(os.path.join(d, "out"))
                    p = gen_driver(exe, d, text, opts=("-rw",), conf=Conf())
                    q = None if p else unit(c, "drv", None, live, None)
                    b = [] if p else os.listdir(os.path.join(d, "out/butl"))
                    p = p or (q and ("common", q)) or (sorted(b) != ["drv-binutil.c", "drv-binutil.h"] and ("common", "the files in butl are %s" % b)) or None
            if p:
                bad.append(("%s:%s" % (p[0], hashlib.sha256(text.encode()).hexdigest()[:12]), p[1] + "\nfor\n" + text, {"in.dbc": text}))
            if len(bad) > 2:
                break
        rm(d)
        return bad, len(data), len(states), execs
    bag = Bag(chk)
    for bad, n, st, ex in pmap(_jobcall, list(enumerate(jobs))):
        chk.add(states=st, transitions=n, traces_validated_against_impl=ex)
        for x in bad:
            bag.put(*x)
    chk.notes.update(assignments=len(cs), exhaustive=True)
    chk.sample(cs[777].text())
    chk.sample(cs[-40].text())
    chk.assumptions.append("node names differ in more than letter case; Vector__XXX is not judged as a node; identical generated sources are executed once")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C11", run_check)
