"""C29: the generated functions keep no state of their own. The generated code is instrumented so that every memory access is a scheduling
point; at every point of every call every other call (an interrupt or another thread) is run on other data, and inside of that, up to a bound,
a third one; and histories of calls on two structs are run in all orders. Every call must leave its data as it does alone, and write nothing else."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *
import corpus

ISO_HOOKS = """enum { XOR8 = 8, SUM8 = 2, CRC_A = 77, M1 = 1, M2 = 3 };
static inline uint8_t v_hash(const uint8_t* d, uint8_t n, uint32_t id, int method, int op)
{ uint32_t h = 0x811C9DC5u + (uint32_t)method * 31u + (uint32_t)op * 7u + id; while (n--) { h ^= *d++; h *= 16777619u; } return (uint8_t)(h ^ (h >> 11)); }
extern uint32_t iso_tick(void);
#define GetSystemTick() iso_tick()
#define GetFrameHash(a,b,c,d,e) v_hash((a),(b),(c),(int)(d),(e))
"""


def glue(live, drv, conf, utils, ids):
    """utils: [(prefix, header, [frame names in its struct])]"""
    dl = drv.lower()
    o = ['#include "engine_iso.h"', '#include "%s.h"' % dl] + ['#include "%s"' % h for _, h, _ in utils] + ["#include <string.h>"]
    if "DIAG_MONITORS" in conf.sw:
        fn = ["_FMon_MONO_%s" % dl] if "MONO_FMON" in conf.sw else ["_FMon_%s_%s" % (n, dl) for n in ids["all"]]
        o += ["void %s(FrameMonitor_t* a, uint32_t b) { iso_mon(a, sizeof *a, b); }" % f for f in fn]
    ops = []
    for k, m in enumerate(live):
        n = m.name
        o.append("static void u_%s(Ctx* c, const Op* o) { (void)o; c->ret = Unpack_%s_%s((%s_t*)(void*)c->obj, c->in, c->dlc); }" % (n, n, drv, n))
        if "CANSTRUCT" in conf.sw:
            o.append("static void p_%s(Ctx* c, const Op* o) { (void)o; c->ret = Pack_%s_%s((%s_t*)(void*)c->obj, (__CoderDbcCanFrame_t__*)(void*)c->out); }" % (n, n, drv, n))
            cap = "sizeof(__CoderDbcCanFrame_t__)"
        else:
            o.append("static void p_%s(Ctx* c, const Op* o) { (void)o; c->ret = Pack_%s_%s((%s_t*)(void*)c->obj, c->out, &c->len, &c->ide); }" % (n, n, drv, n))
            cap = m.dlc
        ops.append('{"Unpack_%s",0,%d,sizeof(%s_t),0,0,u_%s}' % (n, k, n, n))
        ops.append('{"Pack_%s",1,%d,sizeof(%s_t),%s,0,p_%s}' % (n, k, n, cap, n))
    num = {m.name: k for k, m in enumerate(live)}
    for u, _, fr in utils:
        o.append("static void r_%s(Ctx* c, const Op* o) { c->ret = %s_Receive((%s_rx_t*)(void*)c->obj, c->in, o->id, c->dlc); }" % (u, u, u))
        for f in fr:
            ops.append('{"%s_Receive(%s)",2,%d,sizeof(%s_rx_t),0,0x%Xu,r_%s}' % (u, f, num[f], u, ids[f], u))
        ops.append('{"%s_Receive(unknown)",2,-1,sizeof(%s_rx_t),0,0x6FFu,r_%s}' % (u, u, u))
    o.append("const Op g_ops[] = {%s}; const int g_nops = %d; const int g_framedlc[] = {%s};" % (",\n".join(ops), len(ops), ",".join(str(m.dlc) for m in live)))
    return "\n".join(o) + "\n"


def explore(exe, d, text, msgs, conf, drv, opts, opt, triples, hlen):
    """(problem, fails, (runs, points, tasks, histories), files)"""
    rm(d)
    os.makedirs(d)
    files = {"in.dbc": text.encode("latin-1"), "job.json": json.dumps({"conf": [conf.sw, conf.ext, conf.sigfloat, conf.init, conf.extra], "drv": drv, "opts": list(opts), "opt": opt})}
    p = gen_driver(exe, d, files["in.dbc"], drv, opts, conf)
    if p:
        return p, [], (0, 0, 0, 0), files
    live = [m for m in msgs if m.sigs]
    out = os.path.join(d, "out")
    fl = conf.flags(drv)
    srcs, utils = [os.path.join(out, "lib", drv.lower() + ".c")], []
    for f in sorted(os.listdir(os.path.join(out, "butl"))):
        if f.endswith("-binutil.c"):
            u = f[:-len("-binutil.c")]
            with open(os.path.join(out, "butl", f[:-1] + "h")) as fh:
                h = fh.read()
            m = re.search(r"typedef struct\s*\{(.*?)\}\s*%s_rx_t\s*;" % re.escape(u), h, re.S)
            fr = re.findall(r"(\w+)_t \1;", m.group(1)) if m else []
            srcs.append(os.path.join(out, "butl", f))
            fl.append("-D__DEF_%s__" % u.upper())
            if fr and "%s_Receive" % u in h:
                utils.append((u, f[:-1] + "h", fr))
    ids = {m.name: m.id for m in live}
    ids["all"] = [m.name for m in msgs]
    g = glue(live, drv, conf, utils, ids)
    files["glue.c"] = g
    with open(os.path.join(d, "glue.c"), "w") as f:
        f.write(g)
    cc = ["gcc", "-std=gnu11", "-w", *fl, *incs(d)]
    objs = []
    for s in srcs:
        ob = os.path.join(d, os.path.basename(s)[:-2] + ".o")
        r = run([*cc, opt, "-fno-builtin", "-fsanitize=thread", "-c", s, "-o", ob], timeout=300)
        if r.rc:
            return ("compile", "the generated code does not compile: " + errline(r.err)), [], (0, 0, 0, 0), files
        r = run(["objcopy", "--redefine-sym", "memcpy=iso_memcpy", "--redefine-sym", "memmove=iso_memmove", "--redefine-sym", "memset=iso_memset", ob])
        if r.rc:
            raise CheckError("objcopy: " + r.err)
        objs.append(ob)
    r = run([*cc, "-O1", os.path.join(d, "glue.c"), *objs, engine_obj("engine_iso.c"), "-lm", "-o", os.path.join(d, "t")], timeout=300)
    if r.rc:
        return ("compile", "the generated code does not link: " + errline(r.err)), [], (0, 0, 0, 0), files
    r = run([os.path.join(d, "t"), str(triples), str(hlen)], timeout=600)
    fails = [x.split(" ", 3)[1:] for x in r.out.splitlines() if x.startswith("FAIL ")]
    m = re.search(r"^DONE (\d+) (\d+) (\d+) (\d+)", r.out, re.M)
    if not m:
        if any(f[1] == "setup" for f in fails):
            raise CheckError(str(fails))
        return ("crash", "the program %s" % ("does not end" if r.timeout else "crashed (%s)" % r.rc)), fails, (0, 0, 0, 0), files
    return None, fails, tuple(map(int, m.groups())), files


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    T = chk.thorough
    texts = dict(corpus.SMALL, rich=corpus.RICH)
    model = {n: corpus.parse(t) for n, t in texts.items()}
    combos = [c for n in range(8) for c in itertools.combinations(SWITCHES, n)]
    jobs = []
    for n in sorted(texts):
        live = [m for m in model[n] if m.sigs]
        if not live:
            continue
        small = len(live) <= 2 and sum(m.dlc for m in live) <= 24
        for k, c in enumerate(combos):
            if not (T or n == "rich" or len(c) in (0, 1, 7)):
                continue
            triples = 0
            if small:
                triples = 1 if T or len(c) in (0, 7) else 0
            elif T and n != "rich" and len(c) in (0, 7):
                triples = 1
            hl = (3 if len(c) in (0, 7) or (T and n != "rich") else 2) if len(live) <= 8 else 1
            jobs.append((n, c, ("-rw", "-nodeutils") if k % 3 == 1 else ("-rw",), "-O0" if k % 2 == 0 or not T else "-O1", triples, hl))
    global _job

    def _job(ij):
        i, (n, c, opts, opt, tr, hl) = ij
        d = os.path.join(base, "j%d" % i)
        r = explore(exe, d, texts[n], model[n], Conf(c, ext=64, init=(None, 0xA5)[i % 2], extra=ISO_HOOKS), ("drv", "Can")[i % 2], opts, opt, tr, hl)
        rm(d)
        return r
    bag = Bag(chk, 3)
    tot = [0, 0, 0, 0]
    for (n, c, opts, opt, tr, hl), (p, fails, cnt, files) in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(states=cnt[0] + cnt[3], transitions=cnt[1], traces_validated_against_impl=cnt[0] + cnt[3])
        tot = [a + b for a, b in zip(tot, cnt)]
        name = "+".join(c) or "none"
        for op, kind, text in fails[:2]:
            bag.put("%s:%s:%s:%s" % (kind, n, op, name), "DBC file '%s', switches %s: %s" % (n, name, text), files)
        if p:
            bag.put("%s:%s:%s" % (p[0], n, name), "DBC file '%s', switches %s: %s" % (n, name, p[1]), files)
    chk.notes.update(dbc_files=len({j[0] for j in jobs}), configurations=len(jobs), calls=tot[0], accesses=tot[1], operations=tot[2], histories=tot[3], preemption_bound=2, exhaustive=True)
    chk.sample("Pack_Mux interrupted at each of its memory accesses by drv_Receive(Wide)")
    chk.sample("all orders of three calls each for two structs of frame Rolling")
    chk.assumptions.append("calls that run at the same time work on different structs and buffers; the user's hooks keep no state either")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C29", run_check)
