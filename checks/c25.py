"""C25: several drivers generated into one output directory: for all 128 x 128 configurations of every pair the global symbols and the macros
of the two are compared; headers are included together in both orders; whole programs are linked; and what each driver does inside of such a
program is compared with what it does alone."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import corpus

CAN_EXTRA = HOOKS
ZBITS = corpus.HEAD + "".join('BO_ %d B%d: 8 Gw\n SG_ A1 : 0|%d@1+ (1,0) [0|0] "" Ecu1\n SG_ Temp : %d|%d@1- (0.25,3) [0|0] "" Ecu1\n SG_ RC : 47|%d@0+ (2,-1) [0|0] "" Ecu1\n SG_ CS : 56|8@1+ (1,0) [0|0] "" Ecu2\n\n' % (k, k, k, k, k, k) for k in (1, 5, 8, 13, 17, 20)) + (
    'CM_ SG_ 5 A1 "<RollingCounter>";\nCM_ SG_ 5 CS "<Checksum:CRC_A:2>";\nBA_ "GenMsgCycleTime" BO_ 5 33;\nVAL_ 5 A1 1 "Off" 3 "On state" ;\n')
# driver name, text, options
DRIVERS = [("drv", corpus.RICH, ()), ("drv2", ZBITS, ()), ("Can", corpus.RICH, ("-nodeutils",)), ("Can_b", corpus.SMALL["rollcsm"], ()), ("x", corpus.SMALL["units"].replace('VERSION "3.14"', 'VERSION "7.1"'), ()),
           ("My_Drv", corpus.SMALL["longnames"], ("-nodeutils",)), ("b", corpus.SMALL["nodes"], ("-nodeutils",))]


def frames(k):
    return {m.name for m in corpus.parse(DRIVERS[k][1])}


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    T = chk.thorough
    out = os.path.join(base, "out")
    os.makedirs(out)
    owner = {}
    for k, (n, t, o) in enumerate(DRIVERS):
        before = set(tree(out))
        p = gen_driver(exe, base, t.encode("latin-1"), n, ("-rw",) + o, Conf(extra=HOOKS, ext=64))
        if p:
            raise CheckError("driver %s: %s" % (n, p))
        owner[k] = sorted(f for f in set(tree(out)) - before if f.endswith(".c"))
        if not owner[k]:
            chk.violation("files:%s" % n, "driver %s adds no source files of its own next to the others: names collide" % n)
            return
    combos = [c for n in range(8) for c in itertools.combinations(SWITCHES, n)]
    few = [c for c in combos if len(c) in (0, 1, 7)]
    conf = lambda c: Conf(c, ext=64, extra=HOOKS)
    cc = ["gcc", "-std=gnu11", "-w", "-O0"]
    objdir = chk.dir("obj")
    global _unit, _pair, _beh, _head
    I = ["-I" + os.path.join(out, x) for x in ("lib", "conf", "inc", "butl")] + ["-I" + LIB]

    def _unit(kc):
        """Compiles one driver in one configuration: (error, symbols, macros)."""
        k, c = kc
        n = DRIVERS[k][0]
        fl = conf(c).flags(n)
        tag = os.path.join(objdir, "%d-%s" % (k, "".join("1" if s in c else "0" for s in SWITCHES)))
        objs, syms = [], {}
        keep = c in few
        for f in owner[k]:
            o = "%s-%s.o" % (tag, os.path.basename(f)[:-2])
            u = os.path.basename(f)[:-len("-binutil.c")].upper() if f.endswith("-binutil.c") else None
            r = run([*cc, *fl, *(["-D__DEF_%s__" % u] if u else []), *I, "-c", os.path.join(out, f), "-o", o], timeout=200)
            if r.rc:
                return "driver %s next to the others, switches %s, %s does not compile: %s" % (n, "+".join(c) or "none", f, errline(r.err)), None, None
            objs.append(o)
        for line in run(["nm", "-g", "--defined-only", *objs]).out.splitlines():
            w = line.split()
            if len(w) == 3:
                syms[w[2]] = w[1]
        hs = ["%s.h" % n.lower(), "%s-fmon.h" % n.lower()] + [os.path.basename(f)[:-1] + "h" for f in owner[k] if f.startswith("butl/")]
        r = run([*cc, *fl, *I, "-E", "-dM", "-xc", "-"], input="".join('#include "%s"\n' % h for h in hs).encode())
        mac = {}
        for line in r.out.splitlines():
            m = re.match(r"#define ([A-Za-z_]\w*)(\(.*?\))?\s*(.*)", line)
            if m:
                mac[m.group(1)] = (m.group(2) or "") + m.group(3)
        if not keep:
            for o in objs:
                os.unlink(o)
        return None, (n, syms, hs, objs), mac
    units = [(k, c) for k in range(len(DRIVERS)) for c in combos]
    got = dict(zip(units, pmap(_unit_call, units, 8)))
    bag = Bag(chk, 3)
    for u, (e, _, _) in got.items():
        chk.add(states=1, transitions=len(owner[u[0]]))
        if e:
            bag.put("alone:%s:%s" % (DRIVERS[u[0]][0], "+".join(u[1])), e, {"in.dbc": DRIVERS[u[0]][1].encode("latin-1")})
    if any(v[0] for v in got.values()):
        return
    # macros every translation unit has: those of the shared headers and of the system
    r = run([*cc, *I, "-E", "-dM", "-xc", "-"], input=b'#include "dbccodeconf.h"\n#include "canmonitorutil.h"\n#include <stddef.h>\n#include <stdint.h>\n#include <math.h>\n')
    common = {m.group(1) for m in re.finditer(r"^#define (\w+)", r.out, re.M)}
    pairs = [(a, b) for a in range(len(DRIVERS)) for b in range(len(DRIVERS)) if a < b]

    def files(a, b):
        return {"%s.dbc" % DRIVERS[x][0]: DRIVERS[x][1].encode("latin-1") for x in (a, b)}
    # ---- symbols and macros: all configurations of both
    for a, b in pairs:
        apart = not (frames(a) & frames(b))
        for ca in combos:
            sa, ma = got[a, ca][1][1], got[a, ca][2]
            for cb in combos:
                chk.cov["states"] += 1
                chk.cov["transitions"] += 1
                sb, mb = got[b, cb][1][1], got[b, cb][2]
                dup = sorted(s for s in sa.keys() & sb.keys() if not (sa[s] in "VW" and sb[s] in "VW"))
                if dup:
                    bag.put("symbols:%s:%s:%s" % (DRIVERS[a][0], DRIVERS[b][0], dup[0]), "drivers %s (%s) and %s (%s) both define %s" % (DRIVERS[a][0], "+".join(ca), DRIVERS[b][0], "+".join(cb), dup[:5]), files(a, b))
                if apart:
                    cl = [m for m in ma.keys() & mb.keys() if m not in common and ma[m] != mb[m]]
                    if cl:
                        bag.put("macros:%s:%s:%s" % (DRIVERS[a][0], DRIVERS[b][0], sorted(cl)[0]), "the headers of drivers %s (%s) and %s (%s) define %s differently: %r and %r" % (
                            DRIVERS[a][0], "+".join(ca), DRIVERS[b][0], "+".join(cb), sorted(cl)[0], ma[sorted(cl)[0]], mb[sorted(cl)[0]]), files(a, b))
            if len(bag.cnt) and sum(bag.cnt.values()) > 200:
                break

    # ---- headers together, programs
    def _pair(j):
        i, a, b, ca, cb = j
        na, nb = DRIVERS[a][0], DRIVERS[b][0]
        fl = conf(ca).flags(na) + conf(cb).flags(nb)
        ha, hb = got[a, ca][1][2], got[b, cb][1][2]
        apart = not (frames(a) & frames(b))
        bad, n = None, 0
        d = os.path.join(base, "p%d" % i)
        os.makedirs(d)
        srcs = []
        if apart:
            for hs in (ha + hb, hb + ha, hb[::-1] + ha[::-1]):
                t = "".join('#include "%s"\n' % h for h in hs)
                for cmd in (["gcc", "-std=gnu11", "-xc"], ["g++", "-std=c++17", "-xc++"]):
                    r = run([*cmd, "-w", "-pedantic-errors", "-fsyntax-only", *fl, *I, "-"], input=t.encode(), timeout=100)
                    n += 1
                    if r.rc and not bad:
                        bad = "the headers included together (%s) do not compile: %s" % (", ".join(hs[:2]), errline(r.err))
            # what they declare together is what each of them declares alone
            view = []
            for hs in (ha, hb, ha + hb, hb + ha):
                f = os.path.join(d, "v%d.h" % len(view))
                with open(f, "w") as h:
                    h.write("".join('#include "%s"\n' % x for x in hs))
                try:
                    m, st, fn = cheader.parse(cheader.preprocess(f, fl + I))
                    view.append({("struct", x) for x in st} | {("function", x) for x in fn} | {("macro", x) for x in m})
                except ValueError as e:
                    bad = bad or "the headers %s: %s" % (", ".join(hs), str(e)[:300])
                n += 1
            if len(view) == 4:
                for v, hs in zip(view[2:], (ha + hb, hb + ha)):
                    if v != view[0] | view[1] and not bad:
                        bad = "the headers included together (%s) do not declare %s" % (", ".join(hs), ["%s %s" % x for x in sorted((view[0] | view[1]) ^ v)][:4])
        for k, hs in enumerate((ha, hb)):
            with open(os.path.join(d, "u%d.c" % k), "w") as f:
                f.write("".join('#include "%s"\n' % h for h in (hs if not apart else hs + (hb if k == 0 else ha))) + "uint32_t v_tick%s;\n" % ("" if k == 0 else "2") + ("int main(void) { return 0; }\n" if k == 0 else ""))
            srcs.append(os.path.join(d, "u%d.c" % k))
        r = run([*cc, *fl, *I, *srcs, *got[a, ca][1][3], *got[b, cb][1][3], "-o", os.path.join(d, "prog")], timeout=200)
        n += 1
        if r.rc and not bad:
            bad = "one program with both does not link: %s" % r.err[-500:]
        rm(d)
        return n, bad
    js = []
    for a, b in pairs:
        for ca, cb in itertools.product(few, repeat=2):
            if T or ca == cb or not ca or not cb or len(ca) == 7 or len(cb) == 7:
                js.append((len(js), a, b, ca, cb))
    for j, (n, bad) in zip(js, pmap(_pair_call, js, 4)):
        chk.add(states=1, transitions=n, traces_validated_against_impl=n)
        if bad:
            _, a, b, ca, cb = j
            bag.put("together:%s:%s:%s:%s" % (DRIVERS[a][0], DRIVERS[b][0], "+".join(ca), "+".join(cb)), "drivers %s (%s) and %s (%s): %s" % (DRIVERS[a][0], "+".join(ca) or "no switches", DRIVERS[b][0], "+".join(cb) or "no switches", bad), files(a, b))

    # ---- behaviour inside of a program with the other one
    def _beh(j):
        i, a, ca, others = j
        na = DRIVERS[a][0]
        d = os.path.join(base, "b%d" % i)
        os.makedirs(d)
        msgs = [m for m in corpus.parse(DRIVERS[a][1]) if m.sigs]
        g0 = glue(msgs, na, conf(ca))
        own = got[a, ca][1][3]
        lib = [o for o, f in zip(own, owner[a]) if f.startswith("lib/")]
        ref, n, bads = None, 0, []
        for b, cb, order in [(None, (), 0)] + others:
            fl = conf(ca).flags(na) + (conf(cb).flags(DRIVERS[b][0]) if b is not None else [])
            inc = ['#include "%s.h"' % na.lower()]
            objs = list(lib)
            if b is not None:
                objs += got[b, cb][1][3]
                if not frames(a) & frames(b):
                    inc.insert(order * len(inc), "\n".join('#include "%s"' % h for h in got[b, cb][1][2]))
            else:
                pass
            g = g0.replace('#include "%s.c"' % na.lower(), "\n".join(inc), 1)
            with open(os.path.join(d, "g.c"), "w") as f:
                f.write(g)
            r = run([*cc, *fl, *I, os.path.join(d, "g.c"), engine_obj("engine.c"), *objs, "-lm", "-o", os.path.join(d, "t")], timeout=300)
            if r.rc:
                bads.append((b, cb, order, "does not build: " + errline(r.err)))
                continue
            r = run([os.path.join(d, "t"), "transcript"], timeout=200)
            n += 1
            res = r.out if r.rc == 0 and not r.timeout else "crash %s" % r.rc
            if b is None:
                ref = res
                if "DONE" not in res or not re.search(r"^T ", res, re.M):
                    bads.append((b, cb, order, "alone: " + res[:300]))
                    break
            elif res != ref:
                x = next((p + " instead of " + q for p, q in zip(res.splitlines(), ref.splitlines()) if p != q), res[-200:])
                bads.append((b, cb, order, "behaves differently than alone: " + x[:300]))
        rm(d)
        return n, bads
    js = []
    for a in range(len(DRIVERS)):
        if not any(m.sigs for m in corpus.parse(DRIVERS[a][1])):
            continue
        for ca in few:
            others = [(b, cb, o) for b in range(len(DRIVERS)) if b != a for cb in ((), SWITCHES, ca)[: 3 if T else 2] for o in (0, 1)]
            js.append((len(js), a, ca, others))
    for j, (n, bads) in zip(js, pmap(_beh_call, js)):
        chk.add(states=1, transitions=n, traces_validated_against_impl=n)
        _, a, ca, _ = j
        for b, cb, o, t in bads:
            nb = DRIVERS[b][0] if b is not None else "none"
            bag.put("behaviour:%s:%s:%s:%s:%d" % (DRIVERS[a][0], nb, "+".join(ca), "+".join(cb), o), "driver %s (%s) in one program with %s (%s, its headers %s): %s" % (
                DRIVERS[a][0], "+".join(ca) or "no switches", nb, "+".join(cb) or "no switches", "last" if o else "first", t), files(a, b if b is not None else a))
    chk.notes.update(drivers=len(DRIVERS), configuration_pairs=len(pairs) * 128 * 128, exhaustive=True)
    chk.sample("%s with %s" % (DRIVERS[0][0], DRIVERS[1][0]))
    chk.assumptions.append("both drivers are generated into one output directory and share dbccodeconf.h and canmonitorutil.h; driver names differ in more than case and are not a node name plus another driver's name")


def _unit_call(x):
    return _unit(x)


def _pair_call(x):
    return _pair(x)


def _beh_call(x):
    return _beh(x)


if __name__ == "__main__":
    main("C25", run_check)
