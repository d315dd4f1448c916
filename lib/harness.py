"""Generates a driver from a model DBC, wraps it in glue for engine.c, compiles and runs it."""
import hashlib, json, os, re, shlex, subprocess, zlib
from common import *
from dbcmodel import *
import cheader

CONF_H = """#pragma once
#include <stdint.h>
typedef %(sf)s sigfloat_t;
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t Data[64]; uint8_t IDE; } __CoderDbcCanFrame_t__;
typedef %(ut)s ubitext_t;
typedef %(st)s bitext_t;
%(extra)s
"""

SWITCHES = ("BITS_SIGNAL", "CANSTRUCT", "SIGFLOAT", "DIAG_MONITORS", "MONO_FMON", "ROLL", "CSM")


def macro(drv, sw):
    return drv.upper() + ("_AUTO_" if sw in ("ROLL", "CSM") else "_USE_") + sw


class Conf:
    """The user's side of a build: switches, helper types, hooks."""

    def __init__(self, switches=(), ext=32, sigfloat="double", init=None, extra=""):
        self.sw, self.ext, self.sigfloat, self.init, self.extra = tuple(switches), ext, sigfloat, init, extra

    def header(self):
        return CONF_H % {"sf": self.sigfloat, "ut": "uint%d_t" % self.ext, "st": "int%d_t" % self.ext, "extra": self.extra}

    def flags(self, drv):
        f = ["-D" + macro(drv, s) for s in self.sw]
        if self.init is not None:
            f.append("-D%s_INITIAL_BYTE_VALUE=%dU" % (drv.upper(), self.init))
        return f

    def key(self):
        return "ext%d %s%s %s" % (self.ext, "+".join(self.sw) or "none", "" if self.init is None else " init=%d" % self.init, self.sigfloat)


def engine_obj(src="engine.c", flags=("-O2",)):
    """Engines are compiled once and cached by content."""
    p = os.path.join(LIB, src)
    h = hashlib.sha256()
    for f in [p] + sorted(os.path.join(LIB, x) for x in os.listdir(LIB) if x.startswith("engine")):
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(repr(flags).encode())
    o = os.path.join(VERIF, ".build", "%s-%s.o" % (src.replace(".", "_"), h.hexdigest()[:16]))
    if not os.path.exists(o):
        os.makedirs(os.path.dirname(o), exist_ok=True)
        t = o + ".%d" % os.getpid()
        r = subprocess.run(["gcc", "-std=gnu11", "-w", *flags, "-c", p, "-o", t], capture_output=True, text=True)
        if r.returncode:
            raise CheckError("engine does not compile: " + r.stderr[-2000:])
        os.replace(t, o)
    return o


def cid(s):
    return s


def glue(msgs, drv, conf, pre=""):
    """C source: the generated driver plus the tables engine.c works with. Every frame needs signals."""
    o = ['#include "%s.c"' % drv.lower(), '#include "engine.h"', pre]
    mon = "DIAG_MONITORS" in conf.sw
    if mon and not pre:
        dl = drv.lower()
        body = "{ a->frame_cnt += 0; v_calls = (v_calls ^ (%s + b * 16 + a->dlc_error)) * 1099511628211ull; }"
        if "MONO_FMON" in conf.sw:
            o.append("void _FMon_MONO_%s(FrameMonitor_t* a, uint32_t b) %s" % (dl, body % "7"))
        else:
            for k, m in enumerate(msgs):
                o.append("void _FMon_%s_%s(FrameMonitor_t* a, uint32_t b) %s" % (m.name, dl, body % hex(zlib.crc32(m.name.encode()))))
    live = [m for m in msgs if m.sigs]
    ext = {}
    for m in live:
        n = m.name
        o.append("static const SD sd_%s[] = {%s};" % (n, ",".join(
            '{"%s",%d,%d,%d,%d}' % (s.name, s.start, s.length, s.order, s.signed) for s in m.sigs)))
        o.append("static uint32_t u_%s(void* m, const uint8_t* d, uint8_t l) { return Unpack_%s_%s((%s_t*)m, d, l); }" % (n, n, drv, n))
        if "CANSTRUCT" in conf.sw:
            o.append("static uint32_t p_%s(void* m, uint8_t* d, uint8_t* l, uint8_t* i, uint32_t* id) { __CoderDbcCanFrame_t__ f; "
                     "for (int k = 0; k < 64; k++) f.Data[k] = (uint8_t)(0x91 + k); f.DLC = f.IDE = 0xEE; f.MsgId = 0xEEEEEEEE; "
                     "uint32_t r = Pack_%s_%s((%s_t*)m, &f); for (int k = 0; k < %d; k++) d[k] = f.Data[k]; *l = f.DLC; *i = f.IDE; *id = f.MsgId; "
                     "for (int k = %d; k < 64; k++) if (f.Data[k] != (uint8_t)(0x91 + k)) *l = 0xDD; return r; }" % (n, n, drv, n, m.dlc, m.dlc))
        else:
            o.append("static uint32_t p_%s(void* m, uint8_t* d, uint8_t* l, uint8_t* i, uint32_t* id) { (void)id; return Pack_%s_%s((%s_t*)m, d, l, i); }" % (n, n, drv, n))
        if len(m.sigs) == 1:
            f = m.sigs[0].field
            o.append("static uint64_t g_%s(const void* p, int s) { (void)s; return (uint64_t)((const %s_t*)p)->%s; }" % (n, n, f))
            o.append("static void s_%s(void* p, int s, uint64_t v) { (void)s; ((%s_t*)p)->%s = v; }" % (n, n, f))
        else:
            o.append("static uint64_t g_%s(const void* p, int s) { const %s_t* m = (const %s_t*)p; switch (s) {%s} return 0; }" % (
                n, n, n, "".join("case %d: return (uint64_t)m->%s;" % (i, s.field) for i, s in enumerate(m.sigs))))
            o.append("static void s_%s(void* p, int s, uint64_t v) { %s_t* m = (%s_t*)p; switch (s) {%s} }" % (
                n, n, n, "".join("case %d: m->%s = v; break;" % (i, s.field) for i, s in enumerate(m.sigs))))
        pg = mn = "0"
        if "SIGFLOAT" in conf.sw:
            pg = "pg_" + n
            o.append("static long double pg_%s(const void* p, int s) { const %s_t* m = (const %s_t*)p; (void)m; switch (s) {%s} return 0; }" % (
                n, n, n, "".join("case %d: return (long double)m->%s;" % (i, s.phys) for i, s in enumerate(m.sigs) if s.phys)))
        if mon:
            mn = "mn_" + n
            o.append("static void mn_%s(const void* p, uint32_t* q) { const FrameMonitor_t* m = &((const %s_t*)p)->mon1; q[0] = m->dlc_error; "
                     "q[1] = m->last_cycle; q[2] = m->frame_cnt; q[3] = m->roll_error; q[4] = m->csm_error; }" % (n, n))
        ext[n] = (pg, mn)
    o.append("const MD g_msgs[] = {")
    for m in live:
        n = m.name
        o.append('{"%s",0x%xu,%d,%d,%d,%d,sd_%s,sizeof(%s_t),u_%s,p_%s,g_%s,s_%s,%s_CANID,%s_IDE,%s_DLC,%s,%s},' % (
            n, m.id, m.ext, m.dlc, len(m.sigs), m.overlap(), n, n, n, n, n, n, n, n, n, *ext[n]))
    o.append("};")
    o.append("const int g_nmsgs = %d; const unsigned g_init = %d; const unsigned g_maxdlc = %s_MAX_DLC_VALUE;" % (
        len(live), conf.init or 0, drv.upper()))
    return "\n".join(o) + "\n"


HOOKS = """enum { XOR8 = 8, SUM8 = 2, CRC_A = 77, M1 = 1, M2 = 3 };
static inline uint8_t v_hash(const uint8_t* d, uint8_t n, uint32_t id, int method, int op)
{ uint32_t h = 0x811C9DC5u + (uint32_t)method * 31u + (uint32_t)op * 7u + id; while (n--) { h ^= *d++; h *= 16777619u; } return (uint8_t)(h ^ (h >> 11)); }
extern uint32_t v_tick;
#define GetSystemTick() (v_tick)
#define GetFrameHash(a,b,c,d,e) v_hash((a),(b),(c),(int)(d),(e))
"""


def snapshot(exe, d, dbc, msgs, conf, drv="drv", opts=("-rw",), opt="-O0"):
    """What one driver offers and does, frame by frame: (problem, {frame: {behaviour, macros, struct, functions}}, evals)."""
    oc = run_case(exe, d, msgs, conf, args=("transcript",), drv=drv, dbc=dbc, opts=opts, opt=opt)
    if oc.problem or oc.fails:
        return (oc.problem or ("constants", str(oc.fails[0]))), {}, oc
    try:
        macros, structs, funcs = cheader.parse(cheader.preprocess(os.path.join(d, "out", "lib", drv.lower() + ".h"), incs(d), conf.flags(drv)))
    except ValueError as e:
        return ("compile", str(e)), {}, oc
    out = {}
    for m in msgs:
        n = m.name
        fm = {k: cheader.num(v) for k, v in macros.items() if k.startswith(n + "_") or ("_" + n + "_") in k}
        out[n] = {"macros": fm, "struct": sorted(map(str, structs.get(n + "_t", []))),
                  "functions": {k: v for k, v in funcs.items() if ("_" + n + "_") in k}, "behaviour": {}}
    for line in oc.out.splitlines():
        if line.startswith("T "):
            _, a, b, h = line.split(" ", 3)
            out[a]["behaviour"][b] = h
    out["*"] = {"macros": {k: cheader.num(v) for k, v in macros.items() if k.startswith(drv.upper() + "_MAX") or k.startswith("VER_")}}
    return None, out, oc


def diff(a, b, path=""):
    """First difference of two nested values, as text."""
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                return diff(a.get(k), b.get(k), path + "/" + str(k))
    return "%s: %s instead of %s" % (path, b, a)


def errline(text):
    lines = [x for x in text.splitlines() if "error" in x.lower()]
    return "\n".join(lines[:4]) or text[-600:]


class Outcome:
    def __init__(self):
        self.problem = None       # (kind, text)
        self.fails = []           # [(msg, sig, text)]
        self.evals = self.layouts = 0
        self.out = ""
        self.files = {}


def gen_driver(exe, d, dbc, drv="drv", opts=("-rw",), conf=None):
    """Generates into d/out; overwrites the user's dbccodeconf.h. Returns problem or None."""
    r = gen(exe, dbc, os.path.join(d, "out"), drv, opts, timeout=120)
    if r.rc != 0 or r.timeout:
        return ("generator", "the generator ended with %s: %s" % ("a timeout" if r.timeout else r.rc, (r.err or r.out)[-400:]))
    if not os.path.exists(os.path.join(d, "out", "lib", drv.lower() + ".c")):
        return ("generator", "the generator wrote no driver: " + r.out[-300:])
    if conf is not None:
        with open(os.path.join(d, "out", "conf", "dbccodeconf.h"), "w") as f:
            f.write(conf.header())
    return None


def incs(d, sub="out"):
    return ["-I" + os.path.join(d, sub, x) for x in ("lib", "conf", "inc", "butl", "usr")] + ["-I" + LIB]


def run_case(exe, d, msgs, conf=Conf(), engine="engine.c", args=("decode",), drv="drv", dbc=None, tail="", version=None,
             opt="-O0", timeout=240, pre="", opts=("-rw",), cc=("gcc", "-std=gnu11")):
    """One model DBC through the generator, the compiler and an engine."""
    rm(d)
    os.makedirs(d)
    oc = Outcome()
    dbc = dbc if dbc is not None else dbc_text(msgs, tail, version)
    oc.files["in.dbc"] = dbc
    oc.files["job.json"] = json.dumps({"conf": [conf.sw, conf.ext, conf.sigfloat, conf.init, conf.extra], "engine": engine,
                                       "args": list(args), "drv": drv, "opt": opt, "opts": list(opts)})
    oc.problem = gen_driver(exe, d, dbc, drv, opts, conf)
    if oc.problem:
        return oc
    g = glue(msgs, drv, conf, pre)
    oc.files["glue.c"] = g
    with open(os.path.join(d, "glue.c"), "w") as f:
        f.write(g)
    r = run([*cc, "-w", opt, *conf.flags(drv), *incs(d), os.path.join(d, "glue.c"), *(("-x", "none") if "c++" in cc else ()), engine_obj(engine), "-lm",
             "-o", os.path.join(d, "t")], timeout=400)
    if r.rc:
        oc.problem = ("compile", "the generated code does not compile: " + errline(r.err))
        return oc
    r = run([os.path.join(d, "t"), *args], timeout=timeout)
    oc.out = r.out
    for line in r.out.splitlines():
        if line.startswith("FAIL "):
            _, a, b, t = (line + "   ").split(" ", 3)
            oc.fails.append((a, b, t.strip()))
        elif line.startswith("DONE "):
            oc.evals, _, oc.layouts = map(int, line.split()[1:4])
    if r.timeout or r.rc not in (0, 1) or "DONE" not in r.out:
        at = [x[3:] for x in r.err.splitlines() if x.startswith("AT ")]
        ub = re.search(r"(\w+\.\w+):(\d+):\d+: runtime error: (.*)", r.err)
        oc.problem = ("crash", "%s in frame %s" % ("no end" if r.timeout else "undefined behaviour at %s line %s: %s" % ub.groups() if ub else "the generated code crashed (%s)" % r.rc, at[-1] if at else "?"))
        if at and not r.timeout:
            oc.fails.append((at[-1], "-", oc.problem[1]))
    return oc


def replayable(chk, exe, key, oc, what):
    chk.violation(key, what, files=oc.files)


def report(chk, exe, oc, msgs, conf, args, tag, **kw):
    """Turns an outcome into violations; a failing frame is re-run on its own to get a minimal replay."""
    if not oc.problem and not oc.fails:
        return
    byname = {m.name: m for m in msgs}
    done = set()
    for name, sig, text in oc.fails[:3]:
        m = byname.get(name)
        if m is None or name in done:
            continue
        done.add(name)
        d = os.path.join(chk.scratch, "min")
        o2 = run_case(exe, d, [m], conf, args=args, **kw)
        use = o2 if (o2.fails or o2.problem) else oc
        text = (o2.fails[0][2] if o2.fails else text)
        s = next((x for x in m.sigs if x.name == sig), m.sigs[0])
        key = "%s:%s:%d|%d@%d%s:dlc%d:%s" % (tag, "layout", s.start, s.length, s.order, "-" if s.signed else "+", m.dlc, conf.key())
        chk.violation(key, "%s: signal %s %d|%d@%d%s in %d bytes (%s): %s" % (
            tag, s.name, s.start, s.length, s.order, "-" if s.signed else "+", m.dlc, conf.key(), text), use.files)
    if oc.problem and not done:
        chk.violation("%s:%s:%s" % (tag, oc.problem[0], conf.key()), oc.problem[1], oc.files)


def consts(d, header, names, flags=(), tag="k", drvdirs=None):
    """Values of constant macros as the compiler computes them: {name: int or None if not defined}; or an error text."""
    names = list(names)
    src = ['#include "%s"' % header, "#include <stdio.h>", "int main(void) {"]
    for i, n in enumerate(names):
        src.append('#ifdef %s\nprintf("%d %%lld\\n", (long long)(%s));\n#endif' % (n, i, n))
    src.append("return 0; }")
    c, e = os.path.join(d, tag + ".c"), os.path.join(d, tag)
    with open(c, "w") as f:
        f.write("\n".join(src))
    r = run(["gcc", "-std=gnu11", "-w", "-O0", *flags, *(drvdirs or incs(d)), c, "-o", e], timeout=200)
    if r.rc:
        return "the header does not compile: " + errline(r.err)
    r = run([e], timeout=60)
    out = {n: None for n in names}
    for line in r.out.splitlines():
        i, v = line.split()
        out[names[int(i)]] = int(v)
    return out


_hdr_cache = {}


def header_of(exe, d, text, flags=("-DDRV_USE_SIGFLOAT",), opts=("-rw", "-nofmon", "-noinc"), drv="drv"):
    """Generates and parses the driver header: (problem, parsed, raw header bytes). Equal headers are parsed once per worker."""
    r = gen(exe, text, os.path.join(d, "out"), drv, opts)
    if r.rc or r.timeout:
        return "the generator ended with %s: %s" % ("a timeout" if r.timeout else r.rc, r.err[-300:]), None, b""
    try:
        with open(os.path.join(d, "out", "lib", drv.lower() + ".h"), "rb") as f:
            raw = f.read()
    except OSError:
        return "no header was written: " + r.out[-300:], None, b""
    key = (hashlib.sha256(raw).digest(), tuple(flags))
    if key not in _hdr_cache:
        try:
            _hdr_cache[key] = (None, cheader.parse(cheader.preprocess(os.path.join(d, "out", "lib", drv.lower() + ".h"), incs(d), flags)))
        except ValueError as e:
            _hdr_cache[key] = ("the header is not accepted: %s" % e, None)
        if len(_hdr_cache) > 20000:
            _hdr_cache.clear()
            return header_of(exe, d, text, flags, opts, drv)
    p, parsed = _hdr_cache[key]
    return p, parsed, raw


def interface(parsed):
    """{frame: (id, ide, dlc, cyc, sorted struct fields or None, functions)} as the header declares it."""
    macros, structs, funcs = parsed
    out = {}
    for k, v in macros.items():
        if k.endswith("_CANID"):
            n = k[:-6]
            g = lambda x: cheader.num(macros[n + x]) if n + x in macros else None
            fields = tuple(sorted(f[1] for f in structs[n + "_t"])) if n + "_t" in structs else None
            fn = tuple(sorted(f for f in funcs if re.fullmatch(r"(Unp|P)ack_%s_\w+" % re.escape(n), f)))
            out[n] = (cheader.num(v), g("_IDE"), g("_DLC"), g("_CYC"), fields, fn)
    extra = sorted(k for k in structs if k.endswith("_t") and k[:-2] not in out and k != "FrameMonitor_t" and not k.startswith("__"))
    known = {f for v in out.values() for f in v[5]}
    extra += sorted(f for f in funcs if re.match(r"(Unp|P)ack_", f) and f not in known)
    return out, extra


def build_run(d, src, flags=(), args=(), tag="t", opt="-O0", cc="gcc", std="gnu11", timeout=120, dirs=None, extra=(), libs=("-lm",)):
    """Compiles one C source (which includes the generated ones) and runs it: (problem or None, stdout)."""
    c, e = os.path.join(d, tag + ".c"), os.path.join(d, tag)
    with open(c, "w") as f:
        f.write(src)
    r = run([cc, "-std=" + std, "-w", opt, *flags, *(dirs or incs(d)), c, *extra, *libs, "-o", e], timeout=400)
    if r.rc:
        return "the generated code does not compile: " + errline(r.err), ""
    r = run([e, *args], timeout=timeout)
    if r.timeout or r.rc not in (0, 1) or "DONE" not in r.out:
        return "the program %s: %s" % ("does not end" if r.timeout else "crashed (%s)" % r.rc, (r.out + r.err)[-300:]), r.out
    return None, r.out


class Bag:
    """Violations of one check, limited per kind so that every kind is shown."""

    def __init__(self, chk, limit=3):
        self.chk, self.limit, self.cnt = chk, limit, {}

    def put(self, key, text, files):
        k = key.split(":")[0]
        self.cnt[k] = self.cnt.get(k, 0) + 1
        if self.cnt[k] <= self.limit:
            self.chk.violation(key, text, files)


def receive_program(msgs, drv, util=None, others=()):
    """A program that presents ids to the receive function of a driver (or of the node driver `util`) and compares with the frames' own unpack functions."""
    live = [m for m in msgs if m.sigs]
    dl, ul = drv.lower(), (util or drv).lower()
    o = ['#include "%s.c"' % dl, '#include "%s-binutil.c"' % ul, "#ifdef WITH_MON", '#include "%s-fmon.c"' % dl, "#endif", "#include <stdio.h>", "#include <string.h>",
         "static %s_rx_t a, b; static unsigned long n; static int bad; static uint8_t pay[8] = {0x12,0xFE,0x83,0x40,0xC5,0x3A,0x99,0x77};" % ul,
         "static void probe(uint32_t id, uint8_t dlc) { memset(&a, 0x5A, sizeof a); memset(&b, 0x5A, sizeof b); pay[id & 7]++; uint32_t want = 0;",
         "switch (id) {"]
    for m in live:
        o.append("case 0x%Xu: want = id; Unpack_%s_%s(&b.%s, pay, dlc); break;" % (m.id, m.name, drv, m.name))
    o += ["} uint32_t r = %s_Receive(&a, pay, id, dlc); n++;" % ul,
          'if (r != want) { if (bad++ < 3) printf("FAIL id 0x%X: receive returns 0x%X instead of 0x%X\\n", id, r, want); }',
          'else if (memcmp(&a, &b, sizeof a)) { if (bad++ < 3) printf("FAIL id 0x%X: the structs differ from those of the frame\'s own unpack function\\n", id); } }',
          "static const uint32_t ids[] = {%s};" % ",".join("0x%Xu" % m.id for m in list(msgs) + list(others)),
          "int main(void) { for (uint32_t i = 0; i < 2100; i++) probe(i, 8); for (unsigned k = 0; k < sizeof ids / sizeof *ids; k++) {",
          "uint32_t v[] = {ids[k], ids[k] - 1, ids[k] + 1, ids[k] | 0x80000000u, ids[k] | 0x40000000u, ids[k] | 0xE0000000u, ~ids[k], ids[k] << 1, ids[k] >> 1, ids[k] & 0x7FF, ids[k] & 0xFF, ids[k] & 0xFFFF};",
          "for (unsigned j = 0; j < sizeof v / sizeof *v; j++) { probe(v[j], 8); probe(v[j], 3); } for (int b2 = 0; b2 < 32; b2++) probe(ids[k] ^ (1u << b2), 8); }",
          "probe(0x7FFFFFFF, 8); probe(0x80000000, 8); probe(0xFFFFFFFF, 8); printf(\"DONE %lu\\n\", n); return bad != 0; }"]
    return "\n".join(o) + "\n"
