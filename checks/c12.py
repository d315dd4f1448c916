"""C12: reception monitors. The generated unpack functions are explored as a transition system: every sequence of receptions (frame, number
of received bytes, tick) up to a depth from several initial monitor contents, in all 64 combinations of the other switches, against a model
of the monitors; at every call of a monitor function the complete struct is captured and compared with the struct after the reception.
In addition every frame DLC 1..64 with every received length 0..255 as single steps."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *

MSGS = [Msg("Fast", 0x2A1, 8, [Sig("RC", 0, 4), Sig("CS", 56, 8), Sig("V", 8, 16), Sig("Sc", 24, 12, INTEL, True, "0.5", "-3"), Sig("In", 47, 10, MOTO, False, "3", "7")]),
        Msg("Ext", 0x1ABCDE, 3, [Sig("P", 0, 8), Sig("RC", 12, 3), Sig("Q", 23, 8, MOTO, True)], True),
        Msg("Zero", 0, 1, [Sig("B", 0, 7), Sig("One", 7, 1)]),
        Msg("NoSig", 77, 8, [])]
TAIL = 'CM_ SG_ %d RC "<RollingCounter>";\nCM_ SG_ %d CS "<Checksum:XOR8:3>";\nCM_ SG_ %d RC "the <RollingCounter> of it";\nBA_ "GenMsgCycleTime" BO_ 673 10;\n' % (
    MSGS[0].dbcid, MSGS[0].dbcid, MSGS[1].dbcid)

SRC = r'''
#include "%(dl)s.c"
#include "%(dl)s-binutil.c"
#include <stdio.h>
#include <string.h>
#include <stddef.h>
uint32_t v_tick;
typedef struct { %(members)s } W;
enum { N = %(n)d };
static const size_t off[N] = {%(off)s}, size[N] = {%(size)s}, moff[N] = {%(moff)s};
static const uint32_t ids[N] = {%(ids)s};
static const int dlcs[N] = {%(dlcs)s};
static W w; static uint8_t snap[4096]; static int calls[N + 2], total; static FrameMonitor_t* cm; static uint32_t cid_; static int cur;
static unsigned long nt; static int bad;
static void called(int k, FrameMonitor_t* m, uint32_t id) { calls[k]++; total++; cm = m; cid_ = id; memcpy(snap, (char*)&w + off[cur], size[cur]); }
%(hooks)s
static uint32_t unpack(int f, const uint8_t* d, uint8_t dlc) { switch (f) { %(unp)s } return 0; }
typedef struct { uint32_t tick, cnt, dlc, timeout, cyc; } M;
static M m[N];
static char hist[400];
static uint64_t seen[1 << 20]; static unsigned long distinct;
static void state(void)        /* counts the distinct contents of all monitors */
{
  uint64_t h = 1469598103934665603ull; const uint32_t* p = (const uint32_t*)m;
  for (size_t i = 0; i < sizeof m / 4; i++) h = (h ^ p[i]) * 1099511628211ull ^ h >> 29;
  if (!h) h = 1;
  size_t k = h & ((1 << 20) - 1), c = 0;
  while (seen[k] && seen[k] != h && c++ < 4096) k = (k + 1) & ((1 << 20) - 1);
  if (c < 4096 && !seen[k]) { seen[k] = h; distinct++; }
}
static FrameMonitor_t* mon(int f) { return (FrameMonitor_t*)((char*)&w + off[f] + moff[f]); }
#define BAD(...) do { if (bad++ < 3) { printf("FAIL after%%s: ", hist); printf(__VA_ARGS__); printf("\n"); } } while (0)
static uint8_t pay[64];
static void step(int f, int dlc, uint32_t tick, int via, int seed)
{
  char* h = hist + strlen(hist);
  if (strlen(hist) < 300) sprintf(h, " [%%s %%d bytes tick %%u]", f == 0 ? "%(n0)s" : f == 1 ? "%(n1)s" : "%(n2)s", dlc, tick);
  W before = w; uint32_t r;
  for (int i = 0; i < 64; i++) pay[i] = (uint8_t)(seed * 37 + i * 11 + nt * 29);
  memset(calls, 0, sizeof calls); total = 0; cm = 0; cur = f; v_tick = tick; nt++;
  if (via) r = %(dl)s_Receive((%(dl)s_rx_t*)&w, pay, ids[f], (uint8_t)dlc); else r = unpack(f, pay, (uint8_t)dlc);
  m[f].tick = tick; m[f].cnt++; m[f].dlc = dlc < dlcs[f]; state();
  FrameMonitor_t* p = mon(f);
  if (p->dlc_error != m[f].dlc) BAD("dlc_error is %%u", p->dlc_error);
  else if (p->last_cycle != m[f].tick) BAD("last_cycle is %%u instead of %%u", p->last_cycle, m[f].tick);
  else if (p->frame_cnt != m[f].cnt) BAD("frame_cnt is %%u instead of %%u", p->frame_cnt, m[f].cnt);
  else if (p->timeout_cycle != m[f].timeout || p->cycle_error != m[f].cyc) BAD("the user's timeout_cycle or cycle_error changed");
  else if (total != 1) BAD("the monitor functions were called %%d times", total);
  else if (calls[%(mono)s] != 1) BAD("another frame's monitor function was called");
  else if (cm != p) BAD("the monitor function got another frame's monitor");
  else if (cid_ != ids[f]) BAD("the monitor function got id 0x%%X", cid_);
  else if (memcmp(snap, (char*)&w + off[f], size[f])) BAD("the struct was not up to date when the monitor function was called");
  else if (r != ids[f]) BAD("0x%%X was returned", r);
  for (int o = 0; o < N; o++) if (o != f && memcmp((char*)&before + off[o], (char*)&w + off[o], size[o])) BAD("another frame's struct changed");
}
static void init(int k)
{
  memset(&w, k == 0 ? 0 : k == 1 ? 0xFF : 0xA5, sizeof w);
  for (int f = 0; f < N; f++) { FrameMonitor_t* p = mon(f); if (k == 2) p->frame_cnt = 0xFFFFFFFEu; m[f].cnt = p->frame_cnt; m[f].timeout = p->timeout_cycle; m[f].cyc = p->cycle_error; }
  hist[0] = 0;
}
static void dfs(int depth, int nf, uint32_t tick)
{
  if (!depth || bad > 5) return;
  W keep = w; M km[N]; memcpy(km, m, sizeof m); size_t hl = strlen(hist);
  for (int f = 0; f < nf; f++) for (int l = 0; l < 4; l++) for (int t = 0; t < 3; t++) {
    int dlc = l == 0 ? dlcs[f] : l == 1 ? dlcs[f] - 1 : l == 2 ? 0 : dlcs[f] + 1;
    uint32_t nx = t == 0 ? tick : t == 1 ? tick + 1 : ~tick;
    step(f, dlc, nx, (f + l + t) & 1, depth * 16 + l);
    dfs(depth - 1, nf, nx);
    w = keep; memcpy(m, km, sizeof m); hist[hl] = 0;
  }
}
int main(void)
{
  if (%(depth)d) for (int k = 0; k < 3; k++) { init(k); dfs(%(depth)d, N < 3 ? N : 3, k == 2 ? 0xFFFFFFFFu : 0); }
  else for (int k = 0; k < 3; k++) for (int f = 0; f < N; f++) for (int d = 0; d < 256; d++) { init(k); step(f, d, (uint32_t)d * 7, d & 1, k); }
  printf("DONE %%lu %%lu\n", nt, distinct);
  return bad != 0;
}
'''


def program(msgs, drv, sw, depth):
    live = [m for m in msgs if m.sigs]
    dl = drv.lower()
    mono = "MONO_FMON" in sw
    hooks = ["#ifdef FMON_MODE_CHECK", "#endif"]
    hooks.append("void _FMon_MONO_%s(FrameMonitor_t* a, uint32_t b) { called(N, a, b); }" % dl)
    hooks += ["void _FMon_%s_%s(FrameMonitor_t* a, uint32_t b) { called(%d, a, b); }" % (x.name, dl, live.index(x) if x in live else len(live) + 1) for x in msgs]
    nm = [x.name for x in live] + ["?", "?"]
    order = sorted(live, key=lambda x: x.id)
    return SRC % dict(dl=dl, n=len(live), members=" ".join("%s_t %s;" % (x.name, x.name) for x in order), off=",".join("offsetof(W, %s)" % x.name for x in live),
                      size=",".join("sizeof(%s_t)" % x.name for x in live), moff=",".join("offsetof(%s_t, mon1)" % x.name for x in live),
                      ids=",".join("0x%Xu" % x.id for x in live), dlcs=",".join(str(x.dlc) for x in live), hooks="\n".join(hooks),
                      unp=" ".join("case %d: return Unpack_%s_%s(&w.%s, d, dlc);" % (k, x.name, drv, x.name) for k, x in enumerate(live)),
                      mono="N" if mono else "f", n0=nm[0], n1=nm[1], n2=nm[2], depth=depth)


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    opts = [s for s in SWITCHES if s != "DIAG_MONITORS"]
    jobs = []
    for n in range(len(opts) + 1):
        for c in itertools.combinations(opts, n):
            full = chk.thorough or c in ((), ("MONO_FMON",), ("ROLL", "CSM"), tuple(opts))
            jobs.append((MSGS, TAIL, c, (4 if full else 3) if not chk.thorough else 4, "MyDrv" if n % 2 else "drv"))
    all_dlc = [Msg("D%d" % d, 0x100 + d, d, [Sig("A", 8 * (d - 1), 8), Sig("B", 0, 5)] if d > 1 else [Sig("A", 0, 8)], d % 2 == 1) for d in range(1, 65)]
    for c in ((), ("MONO_FMON",), ("CANSTRUCT", "BITS_SIGNAL"), ("SIGFLOAT", "ROLL", "CSM")):
        jobs.append((all_dlc, 'CM_ SG_ %d A "<Checksum:M1:2>";\nCM_ SG_ %d B "<RollingCounter>";' % (0x102, 0x102), c, 0, "drv"))
    global _job

    def _job(ij):
        i, (msgs, tail, c, depth, drv) = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(d)
        conf = Conf(("DIAG_MONITORS",) + c, extra=HOOKS.replace("extern uint32_t v_tick;", "extern uint32_t v_tick;"))
        text = dbc_text(msgs, tail)
        p = gen_driver(exe, d, text, drv, conf=conf)
        if p:
            return [("gen:" + "+".join(c), p[1], {"in.dbc": text})], 0, 0
        src = program(msgs, drv, c, depth)
        # the members of W stand in the order of the receive struct, which the header fixes
        m = re.search(r"typedef struct\s*\{([^}]*)\}\s*%s_rx_t;" % drv.lower(), open(os.path.join(d, "out/butl/%s-binutil.h" % drv.lower())).read())
        if m:
            src = re.sub(r"typedef struct \{ [^}]* \} W;", "typedef %s_rx_t W;" % drv.lower(), src)
        p, out = build_run(d, src, conf.flags(drv), opt="-O1")
        f = [x[5:] for x in out.splitlines() if x.startswith("FAIL ")]
        bad = []
        if f or p:
            bad.append(("%s:%s" % ("lengths" if not depth else "history", "+".join(c) or "none"), "with monitors and %s: %s" % ("+".join(c) or "no other switch", f[0] if f else p), {"in.dbc": text, "t.c": src}))
        n = re.search(r"DONE (\d+) (\d+)", out)
        rm(d)
        return bad, int(n.group(1)) if n else 0, int(n.group(2)) if n else 0
    bag = Bag(chk)
    for (msgs, tail, c, depth, drv), (bad, n, ns) in zip(jobs, pmap(_jobcall, list(enumerate(jobs)))):
        chk.add(states=ns, transitions=n, traces_validated_against_impl=1)
        for x in bad:
            bag.put(*x)
    chk.notes.update(configurations=len(jobs), depth=[3, 4], exhaustive=True)
    chk.sample("all sequences of up to 4 receptions over 3 frames x 4 lengths x 3 ticks, switches %s" % "+".join(jobs[20][2]))
    chk.assumptions.append("GetSystemTick does not change while one frame is unpacked")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C12", run_check)
