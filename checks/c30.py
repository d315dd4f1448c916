"""C30: what the header says about the signals. All products of length, sign, byte order, factor, offset, unit and multiplexing role: the comment
beside the signal's field, in plain and in bit-field structs, must name exactly these; the conversion macros are evaluated by the compiler."""
import os, sys, itertools, subprocess
from decimal import Decimal
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import corpus

FACTORS = ("1", "2", "-1", "-3", "7", "100", "3000000000", "0.5", "0.1", "-0.25", "0.000000001", "1E-3", "2.5e3", "1.5", "123456.789", "1e1")
OFFSETS = ("0", "1", "-1", "-40", "65536", "2147483648", "-2147483649", "5000000000", "0.5", "-273.15", "0.000000001", "1E+3", "-2e-3", "100.25")
UNITS = ("", "V", "%", "km/h", "1", " ", "a b", "'", "it's", "Bits= 3", "Factor= 7", "Offset= 7 Factor= 2", "[-]", "\xb0C", "\xb5m/s\xb2", "//", "u" * 40, "u" * 200, "x:y", "(1,0)", "%d%s%n", "$")
MUX = ("", "M", "m0", "m1", "m15", "m255")


def frames(thorough):
    """[(frame, unit list)]: three signals each, none overlapping."""
    out, k = [], 0

    def put(length, order, signed, f, o, unit, mux):
        nonlocal k
        nb = (length + 7) // 8
        st = lambda b, n: 8 * b if order == INTEL else 8 * b + 7
        s = Sig("S%d" % k, st(1, length), length, order, signed, f, o, unit=unit, mux=mux)
        pre, post = Sig("A%d" % k, 0, 1 + k % 8, INTEL, False, "1", "0", unit="pre"), Sig("Z%d" % k, 8 * (nb + 1), 1 + k % 7, INTEL, bool(k & 1), ("1", "0.25")[k % 2], "0", unit=("", "post")[k // 2 % 2])
        x = k % 5 == 1
        m = Msg("F%d" % k, (k * 104729 + 2048) % (1 << 29) if x else k % 2048, nb + 2, [pre, s, post][:: 1 if k % 3 else -1], x)
        out.append(m)
        k += 1
    lens = range(1, 65)
    for f, o in itertools.product(FACTORS, OFFSETS):
        for j, length in enumerate((1, 4, 8, 9, 16, 31, 32, 33, 48) if not thorough else (1, 2, 4, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 48, 63, 64)):
            for signed in (False, True):
                put(length, (INTEL, MOTO)[(k + k // 3) % 2], signed, f, o, UNITS[k % len(UNITS)], MUX[(k // 5) % len(MUX)])
    for length, order, signed, mux in itertools.product(lens, (INTEL, MOTO), (False, True), MUX):
        put(length, order, signed, FACTORS[(k * 7) % len(FACTORS)] if k % 3 == 0 else "1", OFFSETS[(k * 5) % len(OFFSETS)] if k % 4 == 0 else "0", UNITS[(k // 2) % len(UNITS)], mux)
    for u, mux, f, o, signed in itertools.product(UNITS, MUX[:3], ("1", "2", "0.5"), ("0", "-5", "0.25"), (False, True)):
        put(12, (INTEL, MOTO)[k % 2], signed, f, o, u, mux)
    return out


def unquote(x):
    m = re.search(r" Unit:'(.*)'\s*$", x)
    return (m.group(1), x[:m.start()]) if m else ("", x)


def described(text, name):
    """{field: (bits, signed, offset, factor, unit, role)} of one struct, from the preprocessed header with its comments."""
    m = re.search(r"typedef struct\s*\{((?:(?!typedef struct).)*?)\}\s*%s_t\s*;" % name, text, re.S)
    out, role = {}, set()
    for line in m.group(1).split("\n") if m else ():
        f = re.match(r"\s*\w+ (\w+)(?: : (\d+))?;\s*//(.*)$", line)
        c = line.strip()
        if f:
            unit, rest = unquote(f.group(3))
            num = lambda t: Decimal(x.group(1)) if (x := re.search(t + r"=\s*([-+0-9.eE]+)", rest)) else None
            b = re.search(r"Bits=\s*(\d+)", rest)
            out[f.group(1)] = (int(b.group(1)) if b else None, "[-]" in rest, num("Offset"), num("Factor"), unit, tuple(sorted(role)), f.group(2))
            role = set()
        elif c.startswith("//"):
            if "multiplex" in c.lower():
                role.add("master" if "master" in c.lower() else "variable")
        elif re.match(r"\s*[\w ]+;", line):
            role = set()
    return out


def arg(v):
    """The value as an expression that needs the parentheses of a macro."""
    v = int(v)
    return "(int64_t)%dLL + 1" % (v - 1) if v > 0 else "(int64_t)%dLL - 1" % (v + 1)


def macros_program(ms, drv):
    o = ['#include "%s.h"' % drv, "#include <stdio.h>", "int main(void) {"]
    want = []
    for m in ms:
        for s in m.sigs:
            if s.plain:
                continue
            lo, hi = s.raw_range()
            f, of = Fraction(Decimal(s.factor)), Fraction(Decimal(s.offset))
            p = "%s_%s_" % (drv.upper(), s.field)
            o.append('printf("%%.17g\\n", (double)(%sCovFactor));' % p)
            want.append((m, s, "CovFactor", f, Fraction(1, 10 ** 12)))
            for raw in sorted({lo, hi, 0, 1, (lo + hi) // 3, hi - 1, lo + 1}):
                if not lo <= raw <= hi:
                    continue
                ph = raw * f + of
                if not s.is_decimal:
                    if max(abs(raw), abs(ph), abs(raw * f)) >= 1 << 63:
                        continue
                    o.append('printf("%%lld\\n", (long long)((__int128)2 * %sfromS(%s) / 2));' % (p, arg(raw)))
                    want.append((m, s, "fromS(%d)" % raw, ph, 0))
                    o.append('printf("%%lld\\n", (long long)((__int128)2 * %stoS(%s) / 2));' % (p, arg(ph)))
                    want.append((m, s, "toS(%d)" % ph, raw, 0))
                elif abs(raw) < 1 << 50 and abs(f) * (1 << 45) > max(abs(of), abs(ph)):
                    o.append('printf("%%.17g\\n", (double)(2.0 * %sfromS((double)%s) / 2));' % (p, arg(raw)))
                    want.append((m, s, "fromS(%d)" % raw, ph, Fraction(1, 10 ** 12)))
                    o.append('printf("%%lld\\n", (long long)((__int128)2 * %stoS((double)-1 + (double)(1 + %sfromS((double)%dLL))) / 2));' % (p, p, raw))
                    want.append((m, s, "toS(fromS(%d))" % raw, raw, None))
    o.append('printf("DONE\\n"); return 0; }')
    return "\n".join(o) + "\n", want


def named(exe, base, opts, form):
    """Every generated file that says which DBC file it comes from names the right one: [(key, text)], files read."""
    d = os.path.join(base, "n" + hk(opts, form).hex()[:12])
    os.makedirs(os.path.join(d, "here", "sub.dir"))
    path = os.path.join(d, "here", form.lstrip("/")) if not form.startswith("/") else d + form
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(dbc_text([Msg("F", 5, 2, [Sig("S", 0, 8)])]))
    r = run([exe, "-dbc", form if not form.startswith("/") else path, "-out", os.path.join(d, "out"), "-drvname", "drv", "-rw", *opts], cwd=os.path.join(d, "here"))
    files, bad = tree(os.path.join(d, "out")), []
    want = os.path.basename(path)
    say = {}
    for f, c in files.items():
        m = c is not None and re.search(rb"DBC filename\s*:\s*([^\r\n]*)", c)
        if m:
            say[f] = m.group(1).decode("latin-1").rstrip()
    for need in ("drv.c", "drv.h") + (("drv-config.h",) if "-noconfig" not in opts else ()) + (("-binutil.h",) if "-nodeutils" in opts else ()):
        if not any(f.endswith(need) for f in say):
            bad.append(("unnamed:%s" % need, "no %s names its DBC file (-dbc %s, %s): %s" % (need, form, " ".join(opts), r)))
    bad += [("named:%s" % os.path.basename(f), "%s says it was made from '%s' with -dbc %s %s" % (f, x, form, " ".join(opts))) for f, x in say.items() if x != want]
    rm(d)
    return bad, len(files)


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    ms = frames(chk.thorough)
    jobs = [(c, k) for k, c in enumerate(chunks(ms, 60))]
    global _job

    def _job(ij):
        i, (c, k) = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(d)
        drv = ("drv", "can2")[k % 2]
        bad, n = [], 0
        text = dbc_text(c).encode("latin-1")
        p = gen_driver(exe, d, text, drv, ("-rw",), Conf(ext=64, extra=HOOKS))
        if p:
            return [("generator", p[1], text)], 0
        for bits in (0, 1):
            fl = ["-D%s_USE_BITS_SIGNAL" % drv.upper()] * bits
            r = subprocess.run(["gcc", "-E", "-P", "-C", "-w", *fl, *incs(d), os.path.join(d, "out/lib/%s.h" % drv)], capture_output=True)
            if r.returncode:
                bad.append(("compile", errline(r.stderr.decode("latin-1")), text))
                break
            pp = r.stdout.decode("latin-1")
            for m in c:
                got = described(pp, m.name)
                x = re.search(r"def @%s\b.*\(\s*(\d+)\s+(0x[0-9a-fA-F]+|0)\s*\)" % m.name, pp)
                n += 1
                if not x or int(x.group(1)) != m.id or int(x.group(2), 0) != m.id:
                    bad.append(("id:%d" % m.dbcid, "%s: the header's comment says '%s' instead of id %d 0x%x" % (m.head(), x.group(0) if x else "", m.id, m.id), dbc_text([m])))
                for s in m.sigs:
                    n += 1
                    f, o = Decimal(s.factor), Decimal(s.offset)
                    role = {"": (), "M": ("master",)}.get(s.mux, ("variable",))
                    want = (s.length, s.signed, o, f, s.decor()[2], role)
                    g = got.get(s.field)
                    if g is None:
                        bad.append(("field:%s" % s.text().strip(), "the struct of %s has no commented field %s" % (m.name, s.field), dbc_text([m])))
                        continue
                    have = (g[0], g[1], g[2] if g[2] is not None else Decimal(0), g[3] if g[3] is not None else Decimal(1), g[4], g[5])
                    for what, a, b in zip(("bits", "sign", "offset", "factor", "unit", "multiplexing"), have, want):
                        if a != b:
                            bad.append(("%s:%s" % (what, s.text().split(":")[1].strip()), "%s: the header's comment says %s %s instead of %s (%s struct)" % (s.text().strip(), what, a if a is not None else "nothing", b, "bit-field" if bits else "plain"), dbc_text([m])))
                            break
                    if bits and g[6] is not None and int(g[6]) != s.length:
                        bad.append(("width:%s" % s.text().strip(), "%s: the bit field has %s bits" % (s.text().strip(), g[6]), dbc_text([m])))
        src, want = macros_program(c, drv)
        p, out = build_run(d, src)
        if p:
            bad.append(("macros", p, text))
        else:
            for (m, s, what, v, tol), line in zip(want, out.split("\n")):
                n += 1
                g = Fraction(Decimal(line)) if re.fullmatch(r"[-+0-9.e]+", line) else None
                ok = g is not None and (abs(g - v) <= 1 if tol is None else abs(g - v) <= tol * max(abs(v), abs(Fraction(Decimal(s.offset)))))
                if not ok:
                    bad.append(("macro:%s" % s.text().split(":")[1].strip(), "%s: %s_%s_%s is %s instead of %s" % (s.text().strip(), drv.upper(), s.field, what, line, float(v)), dbc_text([m])))
        rm(d)
        return bad[:6], n
    bag = Bag(chk, 3)
    forms = ("in.dbc", "./in.dbc", "sub.dir/in.dbc", "../here/in.dbc", "/x/y/in.dbc", "/a b/my file.v2.dbc", "sub.dir/no_ext", "x.DBC", "sub.dir/.dbc", "./%s.dbc", "a-b_c(1).dbc")
    opts = [o for n in range(3) for o in itertools.combinations(("-nodeutils", "-driverdir", "-gendate", "-noconfig", "-nofmon", "-noinc"), n)]
    for o, f in itertools.product(opts, forms):
        bad, n = named(exe, base, o, f)
        chk.add(states=1, transitions=n, traces_validated_against_impl=1)
        for key, text in bad:
            bag.put(key, text, {"command.txt": "coderdbc -dbc '%s' -out out -drvname drv -rw %s" % (f, " ".join(o))})
    for (c, k), (bad, n) in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(states=sum(len(m.sigs) for m in c), transitions=n, traces_validated_against_impl=1)
        for key, text, dbc in bad:
            bag.put(key, text, {"in.dbc": dbc})
    chk.notes.update(frames=len(ms), units=len(UNITS), factors=len(FACTORS), offsets=len(OFFSETS), exhaustive=True)
    chk.sample(ms[1234].text())
    chk.assumptions.append("physical values within 64 bits, and with a fractional conversion one raw step representable in a double beside the value; the arguments of the macros are of a type that holds them; extended multiplexing (m0M) is not judged")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C30", run_check)
