"""C04: every combination of factor, offset, length and sign from the alphabet, on raw value sweeps, against exact arithmetic."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import cheader

INT_F = "1 2 3 5 7 10 16 100 1000 65535 65536 100000 2147483647 2147483648 5000000000 -1 -2 -3 -10 -1000 -70000".split()
INT_O = "0 1 2 40 100 255 1000 32768 65536 100000 2147483647 2147483648 5000000000 -1 -2 -40 -100 -128 -273 -1000 -32768 -40000 -100000 -2147483648 -5000000000".split()
DEC_F = "0.5 0.1 0.01 0.001 0.25 1.5 2.0 10.0 0.0078125 0.00390625 1e-3 1E-3 2.5E-2 1e+2 1E2 1e3 -0.5 -0.1 0.000000001 1e-9 1.5e-8 0.123456789 3.000000001 100.5 33.333333333 7e-05 3e4".split()
DEC_O = "0 0.0 -40 40 -40.5 0.5 0.000000001 1e3 -1E+2 -273.15 1234567.5 -0.001 5e-7 -65535.99 25E-2".split()
LENS = (1, 4, 7, 8, 12, 15, 16, 17, 31, 32, 33, 52, 63, 64)
TINY = [("1e-10", "0"), ("0.0000000009", "0"), ("1", "1e-10"), ("2", "0.0000000001"), ("-1e-10", "0"), ("9.9e-10", "5"), ("1e-300", "1")]


def fits64(s):
    """Physical values and the product raw * factor fit 64 bits."""
    F = Fraction(Decimal(s.factor))
    v = [x for r in s.raw_range() for x in (s.to_phys(r), F * r)]
    return -(1 << 63) <= min(v) and max(v) < (1 << 63) or (0 <= min(v) and max(v) < (1 << 64) and not s.signed)


def signals(thorough):
    lens = LENS if not thorough else tuple(range(1, 65))
    out = []
    for f in INT_F:
        for o in INT_O:
            if f == "1" and o == "0":
                continue
            for n in lens:
                for sg in (False, True):
                    s = Sig("S%d" % len(out), 0, n, INTEL, sg, f, o)
                    if fits64(s):
                        out.append(s)
    for f in ["1", "-2"] + DEC_F:
        for o in DEC_O:
            if f in ("1", "-2") and (o in ("0", "0.0", "40", "-40")):
                continue
            for n in lens:
                for sg in (False, True):
                    out.append(Sig("S%d" % len(out), 0, n, INTEL, sg, f, o))
    return out


def frac(x):
    return "((__float128)%s/%s)" % ("%d" % x.numerator if abs(x.numerator) < 1 << 62 else "%d.0Q" % x.numerator, x.denominator)


def phys_glue(msgs, drv, flt):
    o = ['#include "%s.c"' % drv, '#include "engine_phys.h"']
    for m in msgs:
        n = m.name
        rows = []
        for s in m.sigs:
            kind = 0 if s.plain else 2 if s.is_decimal else 1
            F, O = Fraction(Decimal(s.factor)), Fraction(Decimal(s.offset))
            rows.append('{"%s",%d,%d,%d,%d,%s,%s,%s,%s,%s,%d}' % (
                s.name, s.start, s.length, s.signed, kind, int(F) if kind == 1 else 0, int(O) if kind == 1 else 0,
                frac(F) if kind == 2 else "0", frac(O) if kind == 2 else "0", "0x1p-22" if flt else "0x1p-49", 20 if flt else 50))
        o.append("static const PS ps_%s[] = {%s};" % (n, ",".join(rows)))
        o.append("static void u_%s(void* m, const uint8_t* d, int l) { Unpack_%s_%s((%s_t*)m, d, l); }" % (n, n, drv, n))
        o.append("static void p_%s(void* m, uint8_t* d) { uint8_t a, b; Pack_%s_%s((%s_t*)m, d, &a, &b); }" % (n, n, drv, n))

        def sw(proto, tail, body, sel):
            o.append("%s { %s_t* m = (%s_t*)p; (void)m; switch (s) {%s} %s }" % (
                proto, n, n, "".join("case %d: %s" % (i, body % s.__dict__) for i, s in enumerate(m.sigs) if sel(s)), tail))
        for s in m.sigs:
            s.__dict__.update(fld=s.field, ph=s.phys)
        every, si, sd = (lambda s: True), (lambda s: not s.plain and not s.is_decimal), (lambda s: not s.plain and s.is_decimal)
        sw("static uint64_t g_%s(const void* p, int s)" % n, "return 0;", "return (uint64_t)m->%(fld)s;", every)
        sw("static void s_%s(void* p, int s, uint64_t v)" % n, "", "m->%(fld)s = v; break;", every)
        sw("static __int128 ig_%s(const void* p, int s)" % n, "return 0;", "return (__int128)m->%(ph)s;", si)
        sw("static void is_%s(void* p, int s, __int128 v)" % n, "", "m->%(ph)s = v; break;", si)
        sw("static double dg_%s(const void* p, int s)" % n, "return 0;", "return m->%(ph)s;", sd)
        sw("static void ds_%s(void* p, int s, double v)" % n, "", "m->%(ph)s = v; break;", sd)
    o.append("const PM g_pm[] = {")
    for m in msgs:
        n = m.name
        o.append('{"%s",%d,ps_%s,u_%s,p_%s,g_%s,s_%s,ig_%s,is_%s,dg_%s,ds_%s},' % (n, len(m.sigs), *[n] * 9))
    o.append("}; const int g_npm = %d;" % len(msgs))
    return "\n".join(o)


def run_phys(exe, d, msgs, flt, exh, bits, cc=("gcc", "-std=gnu11", "-O0")):
    rm(d)
    os.makedirs(d)
    oc = Outcome()
    conf = Conf(("SIGFLOAT",) + (("BITS_SIGNAL",) if bits else ()), ext=64, sigfloat="float" if flt else "double")
    dbc = dbc_text(msgs)
    oc.files["in.dbc"] = dbc
    oc.problem = gen_driver(exe, d, dbc, conf=conf)
    if oc.problem:
        return oc
    g = phys_glue(msgs, "drv", flt)
    oc.files["glue.c"] = g
    with open(os.path.join(d, "glue.c"), "w") as f:
        f.write(g)
    r = run([*cc, "-w", *conf.flags("drv"), *incs(d), os.path.join(d, "glue.c"), *(("-x", "none") if "c++" in cc else ()), engine_obj("engine_phys.c"),
             "-o", os.path.join(d, "t")], timeout=400)
    if r.rc:
        oc.problem = ("compile", "the generated code does not compile: " + errline(r.err))
        return oc
    # signals without scaling have no companion and no suffix
    try:
        _, structs, _ = cheader.parse(cheader.preprocess(os.path.join(d, "out", "lib", "drv.h"), incs(d), conf.flags("drv")))
    except ValueError as e:
        oc.problem = ("compile", str(e))
        return oc
    for m in msgs:
        want = sorted(f for s in m.sigs for f in ([s.field] + ([s.phys] if s.phys else [])))
        got = sorted(f for _, f, _ in structs.get(m.name + "_t", []))
        if want != got:
            oc.fails.append((m.name, m.sigs[0].name, "has the fields %s, expected %s" % (got, want)))
    r = run([os.path.join(d, "t"), str(exh)], timeout=240)
    for line in r.out.splitlines():
        if line.startswith("FAIL "):
            _, a, b, t = line.split(" ", 3)
            oc.fails.append((a, b, t))
        elif line.startswith("DONE "):
            oc.evals, _, oc.layouts = map(int, line.split()[1:4])
    if r.rc not in (0, 1) or "DONE" not in r.out:
        ub = re.search(r"runtime error: (.*)", r.err)
        oc.problem = ("crash", "undefined behaviour: " + ub.group(1) if ub else "the generated code crashed: " + repr(r))
    return oc


def frames(thorough):
    sigs = signals(thorough)
    sets = []
    # one scaled signal with a plain neighbour, at shifting positions
    msgs = []
    for i, s in enumerate(sigs):
        s.start = (i * 5) % (65 - s.length)
        lst = [s]
        if s.start >= 4:
            lst.append(Sig("N%d" % i, 0, 4, INTEL, bool(i & 1)))
        elif s.start + s.length <= 60:
            lst.append(Sig("N%d" % i, 60, 4))
        msgs.append(Msg("F%d" % i, i + 1, 8, lst if i & 2 else lst[::-1], ext=True))
    sets.append((msgs, False))
    # several scaled signals of all kinds in one frame
    multi = []
    n = 0
    pool = [("2", "0"), ("1", "-40"), ("0.1", "0"), ("1", "0"), ("10", "-1000"), ("0.5", "-273.15"), ("1e-3", "5"), ("-1", "100"), ("1", "1e-10")]
    for a in pool:
        for b in pool:
            for c in pool:
                ls = (9, 21, 33) if (n & 1) else (32, 16, 7)
                st, lst = 0, []
                for j, (fo, L) in enumerate(zip((a, b, c), ls)):
                    lst.append(Sig("M%d_%d" % (n, j), st, L, INTEL, bool((n >> j) & 1), fo[0], fo[1]))
                    st += L
                multi.append(Msg("G%d" % n, n + 1, 8, lst, ext=True))
                n += 1
    for f, o in TINY:
        for L in (1, 8, 13, 32, 64):
            for sg in (False, True):
                multi.append(Msg("G%d" % n, n + 1, 8, [Sig("M%d" % n, 0, L, INTEL, sg, f, o)], ext=True))
                n += 1
    sets.append((multi, False))
    flt = [Msg(m.name, m.id, m.dlc, m.sigs, m.ext) for m in msgs if m.sigs and any(s.is_decimal and s.length <= 16 for s in m.sigs)][::1 if thorough else 5]
    sets.append((flt, True))
    return sigs, multi, sets


def run_check(chk):
    exe = build_coderdbc()
    engine_obj("engine_phys.c")
    sigs, multi, sets = frames(chk.thorough)
    global _job
    base = chk.dir("w")
    exh = 14 if chk.thorough else 9
    jobs = [(c, flt, (k & 1) == 1) for ms, flt in sets for k, c in enumerate(chunks(ms, 150))]

    def _job(ij):
        i, (c, flt, bits) = ij
        d = os.path.join(base, "j%d" % i)
        oc = run_phys(exe, d, c, flt, exh, bits)
        rm(d)
        return oc
    for (c, flt, bits), oc in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(transitions=oc.evals, states=oc.layouts, traces_validated_against_impl=1)
        by = {m.name: m for m in c}
        for name, sig, text in oc.fails[:3]:
            m = by[name]
            s = next(x for x in m.sigs if x.name == sig)
            o2 = run_phys(exe, chk.dir("min"), [m], flt, exh, bits)
            if o2.fails:
                text = o2.fails[0][2]
            chk.violation("phys:%d%s:%s:%s:%s" % (s.length, "-" if s.signed else "+", s.factor, s.offset, "float" if flt else "double"),
                          "%d bit %s signal with (%s,%s), %s: %s" % (s.length, "signed" if s.signed else "unsigned", s.factor, s.offset,
                                                                     "float" if flt else "double", text), (o2 if o2.fails else oc).files)
        if oc.problem:
            chk.violation("phys:" + oc.problem[0], oc.problem[1], oc.files)
    chk.notes.update(scaled_signals=len(sigs), multi_signal_frames=len(multi), exhaustive=True)
    for s in sigs[::max(1, len(sigs) // 5)]:
        chk.sample(s.text().strip())
    chk.assumptions += ["factor and offset from a fixed alphabet (integers up to 5e9, decimals up to nine fractional digits), physical range within 64 bits",
                        "raw values: all for signals up to %d bits, else all 2^k +-2, their complements, small values and 39 spread values" % exh,
                        "decimal tolerance: 2^-49 relative for double, 2^-22 for float; packing of raw values above 2^50, or where an ulp of the physical value exceeds a quarter raw step, not judged for decimals"]


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C04", run_check)
