"""C33: whole networks. Every node is built from the files generated for it from one DBC file (or from the common driver); all histories of
frames sent, delivered, lost, repeated, delayed, shortened, altered and misaddressed are explored up to a depth against a model of the bus:
the payload a reference encoder computes, and what each node has to know afterwards. Every combination of the configuration switches."""
import os, sys, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
from harness import *


class Net:
    def __init__(self, name, nodes, frames, common=False, drv="drv"):
        """frames: [(Msg, additional senders, counter or None, checksum or None)]; the receivers stand at the signals"""
        self.name, self.nodes, self.frames, self.common, self.drv = name, nodes, frames, common, drv

    def text(self):
        o = [dbc_text([f[0] for f in self.frames], nodes=" ".join(self.nodes)), "\n"]
        o += ["BO_TX_BU_ %d : %s;\n" % (m.dbcid, ",".join((m.tx,) + add)) for m, add, rc, cs in self.frames if add]
        for k, (m, add, rc, cs) in enumerate(self.frames):
            o += ['CM_ SG_ %d %s "<RollingCounter>";\n' % (m.dbcid, rc)] * bool(rc) + ['CM_ SG_ %d %s "<Checksum:M%d:%d>";\n' % (m.dbcid, cs, 1 + k % 2, k)] * bool(cs)
        return "".join(o)

    def senders(self, k):
        return (self.frames[k][0].tx,) + self.frames[k][1]

    def receives(self, n, k):
        return self.common or any(n in s.rec for s in self.frames[k][0].sigs)


def S(name, start, length, order=INTEL, signed=False, f="1", o="0", rec=(), mux=""):
    return Sig(name, start, length, order, signed, f, o, rec=tuple(rec), mux=mux)


def networks():
    yield Net("ring", ("Alpha", "Beta", "Gamma"), [
        (Msg("Req", 0x120, 8, [S("RC", 0, 4, rec=("Beta",)), S("CS", 56, 8, rec=("Beta", "Gamma")), S("Speed", 15, 13, MOTO, False, "0.1", "-40", ("Gamma",)), S("Trim", 24, 9, INTEL, True, "3", "-7", ("Beta",)), S("On", 5, 1), S("Lv", 40, 16, INTEL, True)], tx="Alpha"), (), "RC", "CS"),
        (Msg("Ack", 0x1ABCDEF1, 5, [S("CS", 4, 5, MOTO, rec=("Alpha",)), S("Cnt", 12, 3, rec=("Alpha",)), S("Val", 23, 16, MOTO, True, "0.25", "0", ("Alpha", "Gamma"))], True, tx="Beta"), (), "Cnt", "CS"),
        (Msg("Log", 0x7FF, 1, [S("A", 0, 3, rec=("Alpha",)), S("B", 7, 5, MOTO, True, "2", "1")], tx="Gamma"), (), None, None)])
    yield Net("shared", ("N1", "N10", "N2"), [
        (Msg("Lock", 0, 3, [S("RC", 7, 2, MOTO, rec=("N2",)), S("Own", 8, 7, rec=("N1", "N10")), S("Sum", 16, 8, rec=("N2",))], tx="N1"), ("N10",), "RC", "Sum"),
        (Msg("State", 1, 12, [S("X", 3, 30, INTEL, True, "1", "100", ("N1",)), S("Y", 40, 31, INTEL, False, "0.001", "0", ("N10",)), S("Z", 95, 8, MOTO, True, rec=("N1",)), S("RC", 80, 8, rec=("N1", "N10"))], tx="N2"), (), "RC", None),
        (Msg("Empty", 2, 8, [], tx="N2"), (), None, None)], drv="Bus")
    yield Net("mux", ("Gw", "Ecu"), [
        (Msg("Diag", 0x600, 64, [S("Sel", 0, 4, rec=("Ecu",), mux="M"), S("P0", 8, 20, INTEL, False, "1", "-1000", ("Ecu",), "m0"), S("P1", 63, 24, MOTO, True, "0.5", "3", ("Ecu",), "m1"), S("Crc", 504, 8, rec=("Ecu",)), S("Al", 468, 4, rec=("Ecu",)), S("Far", 479, 31, MOTO, True, rec=("Ecu",))], tx="Gw"), (), "Al", "Crc"),
        (Msg("Rsp", 0x601, 2, [S("Code", 0, 11, INTEL, False, "2", "0", ("Gw",)), S("Chk", 15, 5, MOTO, rec=("Gw",))], tx="Ecu"), ("Gw",), None, "Chk"),
        (Msg("Rsp2", 0x10000601, 2, [S("Code", 0, 11, INTEL, True, "1", "0", ("Gw",)), S("Roll", 11, 5, rec=("Ecu",))], True, tx="Ecu"), (), "Roll", None)])
    yield Net("common", ("One", "Two"), [
        (Msg("Fast", 0x10, 8, [S("RC", 4, 4), S("V", 8, 16, INTEL, True, "0.01", "5"), S("W", 31, 12, MOTO, False, "5", "-10"), S("CS", 56, 8)], tx="One"), (), "RC", "CS"),
        (Msg("Slow", 0x11, 4, [S("T", 0, 8, INTEL, True, "1", "-40"), S("RC", 15, 6, MOTO), S("CS", 31, 8, MOTO)], True, tx="Two"), ("One",), "RC", "CS")], True, "Drv_1")


SRC = r'''
#include "%(dl)s.c"
#include "%(dl)s-fmon.c"
%(utils)s
#include <stdio.h>
#include <string.h>
#include <stddef.h>
uint32_t v_tick;
typedef struct { int start, len, moto, sgn, kind; double f, o; } SG;
typedef struct { const char* name; uint32_t id; int ide, dlc, n, roll, csm, op, method; size_t size; const SG* s; } FD;
enum { NF = %(nf)d, NN = %(nn)d, AR = %(ar)d, AC = %(ac)d, PH = %(ph)d, DM = %(dm)d, INIT = %(init)d };
%(tables)s
static const FD fd[NF] = {%(frames)s};
static const char* const nodes[NN] = {%(nodes)s};
typedef struct { %(world)s } W;
static W w;
static const long tx_at[NN][NF] = {%(txat)s}, rx_at[NN][NF] = {%(rxat)s};
static uint64_t get(int f, const void* p, int s) { switch (f) { %(get)s } return 0; }
static double getp(int f, const void* p, int s) { switch (f) { %(getp)s } return 0; }
static void set(int f, void* p, int s, uint64_t v) { switch (f) { %(set)s } }
static void setp(int f, void* p, int s, double v) { switch (f) { %(setp)s } }
static void mon(int f, const void* p, uint32_t* q) { q[0] = q[1] = q[2] = q[3] = q[4] = 0; switch (f) { %(mon)s } }
static uint32_t pack(int f, void* p, uint8_t* d, uint8_t* l, uint8_t* i) { switch (f) { %(pack)s } return 0; }
static uint32_t receive(int n, const uint8_t* d, uint32_t id, uint8_t l) { switch (n) { %(recv)s } return 0; }

static int bad; static unsigned long nt; static char hist[600];
#define BAD(...) do { if (bad++ < 3) { printf("FAIL after%%s: ", hist); printf(__VA_ARGS__); printf("\n"); } } while (0)
static int pos(const SG* s, int k)      /* place of bit k (from the low end) in the payload */
{ if (!s->moto) return s->start + k; int b = (s->start / 8) * 8 + 7 - s->start %% 8 + s->len - 1 - k; return (b / 8) * 8 + 7 - b %% 8; }
static uint64_t ext(uint64_t v, const SG* s) { if (s->len < 64) v &= (1ull << s->len) - 1; if (s->sgn && s->len < 64 && v >> (s->len - 1) & 1) v |= ~0ull << s->len; return v; }
static uint64_t rget(const uint8_t* d, const SG* s) { uint64_t v = 0; for (int k = 0; k < s->len; k++) { int b = pos(s, k); v |= (uint64_t)(d[b / 8] >> b %% 8 & 1) << k; } return ext(v, s); }
static void rset(uint8_t* d, const SG* s, uint64_t v) { for (int k = 0; k < s->len; k++) { int b = pos(s, k); d[b / 8] = (uint8_t)((d[b / 8] & ~(1 << b %% 8)) | (v >> k & 1) << b %% 8); } }
/* the user's hash: it leaves the checksum itself out and notices every single altered bit */
static const FD* byid(uint32_t id) { for (int f = 0; f < NF; f++) if (fd[f].id == id) return fd + f; return 0; }
uint8_t v_hash(const uint8_t* d, uint8_t n, uint32_t id, int method, int op)
{
  const FD* f = byid(id); uint8_t c[64];
  if (!f || f->csm < 0 || n != f->dlc || method != f->method || op != f->op) { BAD("the hash function was called with %%d bytes, id 0x%%X, method %%d, option %%d", n, id, method, op); return 0; }
  memcpy(c, d, n); rset(c, &f->s[f->csm], 0);
  int wd = f->s[f->csm].len; unsigned h = (unsigned)(method + op);
  for (int b = 0; b < 8 * n; b++) if (c[b / 8] >> b %% 8 & 1) h ^= 1u << b %% wd;
  return (uint8_t)(h & ((1u << wd) - 1));
}
/* the model: what the counters of the senders are, and what the receivers know */
typedef struct { uint64_t raw[8]; uint32_t dlc, tick, cnt, roll, csm; uint64_t expt; } K;
static struct { K k[NN][NF]; uint64_t cnt[NN][NF]; int held, hf, hn; uint8_t hd[64]; } m;
static uint64_t seen[1 << 20]; static unsigned long distinct;
static void state(void)
{
  uint64_t h = 1469598103934665603ull; uint32_t p[(sizeof m) / 4]; memcpy(p, &m, sizeof p);
  for (size_t i = 0; i < sizeof p / 4; i++) h = (h ^ p[i]) * 1099511628211ull ^ h >> 29;
  if (!h) h = 1;
  size_t k = h & ((1 << 20) - 1), c = 0;
  while (seen[k] && seen[k] != h && c++ < 64) k = (k + 1) & ((1 << 20) - 1);
  if (c < 64 && !seen[k]) { seen[k] = h; distinct++; }
}
static uint64_t low(uint64_t v, const SG* s) { return s->len < 64 ? v & ((1ull << s->len) - 1) : v; }
static void deliver(int from, const uint8_t* d, uint32_t id, int l)
{
  v_tick++; nt++;
  for (int n = 0; n < NN; n++) {
    if (n == from) continue;
    int f = -1; for (int k = 0; k < NF; k++) if (fd[k].id == id && rx_at[n][k] >= 0) f = k;
    uint8_t c[64]; memcpy(c, d, 64); W before = w;
    uint32_t r = receive(n, c, id, (uint8_t)l);
    if (r != (f >= 0 ? id : 0)) { BAD("%%s returns 0x%%X on reception of id 0x%%X", nodes[n], r, id); return; }
    if (memcmp(c, d, 64)) { BAD("%%s changes the received payload", nodes[n]); return; }
    char* b = (char*)&before; const char* a = (const char*)&w;
    if (f >= 0) memcpy(b + rx_at[n][f], a + rx_at[n][f], fd[f].size);
    if (memcmp(b, a, sizeof w)) { BAD("the reception of id 0x%%X by %%s changes something else", id, nodes[n]); return; }
    if (f < 0) continue;
    const FD* F = fd + f; K* k = &m.k[n][f]; const void* p = a + rx_at[n][f];
    for (int s = 0; s < F->n; s++) {
      const SG* g = F->s + s;
      k->raw[s] = rget(d, g);
      if (get(f, p, s) != k->raw[s] && ext(get(f, p, s), g) != k->raw[s]) { BAD("%%s.%%s: signal %%d is %%lld instead of %%lld", nodes[n], F->name, s, (long long)get(f, p, s), (long long)k->raw[s]); return; }
      if (PH && g->kind) {
        double raw = g->sgn ? (double)(int64_t)k->raw[s] : (double)k->raw[s], x = raw * g->f + g->o, y = getp(f, p, s), e = x - y;
        if (e < 0) e = -e;
        if (g->kind == 1 ? e != 0 : e > 1e-9 * ((x < 0 ? -x : x) + 1)) { BAD("%%s.%%s: the physical value of signal %%d is %%.12g instead of %%.12g", nodes[n], F->name, s, y, x); return; }
      }
    }
    if (!DM) continue;
    k->dlc = l < F->dlc; k->tick = v_tick; k->cnt++;
    if (AR && F->roll >= 0) { uint64_t c2 = low(k->raw[F->roll], F->s + F->roll); k->roll = c2 != k->expt; k->expt = low(c2 + 1, F->s + F->roll); }
    if (AC && F->csm >= 0) k->csm = v_hash(d, (uint8_t)F->dlc, id, F->method, F->op) != k->raw[F->csm];
    uint32_t q[5]; mon(f, p, q);
    if (q[0] != k->dlc) BAD("%%s.%%s: dlc_error is %%u", nodes[n], F->name, q[0]);
    else if (q[1] != k->tick || q[2] != k->cnt) BAD("%%s.%%s: last_cycle %%u, frame_cnt %%u instead of %%u, %%u", nodes[n], F->name, q[1], q[2], k->tick, k->cnt);
    else if (q[3] != k->roll) BAD("%%s.%%s: roll_error is %%u", nodes[n], F->name, q[3]);
    else if (q[4] != k->csm) BAD("%%s.%%s: csm_error is %%u", nodes[n], F->name, q[4]);
  }
}
static void flags(int from, int f, int csm, int dlc, const char* what)      /* what the receivers have to notice, whatever the model says */
{
  for (int n = 0; n < NN; n++) if (n != from && DM && rx_at[n][f] >= 0 && !bad) {
    uint32_t q[5]; mon(f, (char*)&w + rx_at[n][f], q);
    if (AC && fd[f].csm >= 0 && csm >= 0 && (int)q[4] != csm) BAD("%%s: %%s.%%s has csm_error %%u", what, nodes[n], fd[f].name, q[4]);
    if ((int)q[0] != dlc) BAD("%%s: %%s.%%s has dlc_error %%u", what, nodes[n], fd[f].name, q[0]);
  }
}
static void undisturbed(int from, int f, const uint8_t* d, const uint64_t* raw)
{
  deliver(from, d, fd[f].id, fd[f].dlc); flags(from, f, 0, 0, "undisturbed frame");
  for (int n = 0; n < NN && !bad; n++) if (n != from && rx_at[n][f] >= 0) {
    if (raw) for (int s = 0; s < fd[f].n; s++) if (m.k[n][f].raw[s] != raw[s]) BAD("%%s.%%s: signal %%d arrives as %%lld instead of %%lld", nodes[n], fd[f].name, s, (long long)m.k[n][f].raw[s], (long long)raw[s]);
    
  }
}
static uint32_t rnd(uint32_t x) { x ^= x >> 16; x *= 0x7feb352d; x ^= x >> 15; x *= 0x846ca68b; return x ^ x >> 16; }
static const char* const chn[8] = {"delivered", "lost", "delivered twice", "one bit altered", "shortened", "delayed", "other id", "another bit altered"};
static void event(int n, int f, int pat, int ch)
{
  const FD* F = fd + f; char* h = hist + strlen(hist);
  if (strlen(hist) < 500) sprintf(h, " [%%s sends %%s pattern %%d: %%s]", nodes[n], F->name, pat, chn[ch]);
  void* p = (char*)&w + tx_at[n][f]; uint64_t want[8]; uint8_t ref[64], d[80];
  W before = w;
  for (int s = 0; s < F->n; s++) {
    const SG* g = F->s + s;
    uint64_t v = pat == 0 ? rnd((uint32_t)(f * 64 + s + 1 + 977 * strlen(hist))) | (uint64_t)rnd((uint32_t)s) << 32 : pat == 1 ? (s & 1 ? ~0ull : g->len < 64 ? (1ull << (g->len - 1)) - !g->sgn : 1) : (uint64_t)s;
    want[s] = ext(v, g);
    if (AR && s == F->roll) { m.cnt[n][f] = low(m.cnt[n][f] + 1, g); want[s] = ext(m.cnt[n][f], g); continue; }
    if (AC && s == F->csm) continue;
    if (PH && g->kind) setp(f, p, s, (g->sgn ? (double)(int64_t)want[s] : (double)want[s]) * g->f + g->o); else set(f, p, s, want[s]);
  }
  uint8_t l = 0xEE, i = 0xEE; memset(d, 0xC3, sizeof d);
  uint32_t r = pack(f, p, d, &l, &i);
  if (r != F->id || l != F->dlc || i != F->ide) { BAD("%%s.%%s: pack reports id 0x%%X, %%d bytes, IDE %%d", nodes[n], F->name, r, l, i); return; }
  for (int k = F->dlc; k < 80; k++) if (d[k] != 0xC3) { BAD("%%s.%%s: pack writes beyond the DLC", nodes[n], F->name); return; }
  memset(ref, 0, sizeof ref); memset(ref, INIT, (size_t)F->dlc);
  for (int s = 0; s < F->n; s++) {
    if (PH && F->s[s].kind == 2) {       /* less than one raw step */
      uint64_t got = ext(get(f, p, s), F->s + s); int64_t e = (int64_t)(got - want[s]);
      if (e < -1 || e > 1) { BAD("%%s.%%s: signal %%d is packed as %%lld instead of %%lld", nodes[n], F->name, s, (long long)got, (long long)want[s]); return; }
      want[s] = got;
    }
    rset(ref, F->s + s, want[s]);
  }
  if (AC && F->csm >= 0) { rset(ref, F->s + F->csm, 0); want[F->csm] = v_hash(ref, (uint8_t)F->dlc, F->id, F->method, F->op); rset(ref, F->s + F->csm, want[F->csm]); }
  if (memcmp(ref, d, (size_t)F->dlc)) { for (int k = 0; k < F->dlc; k++) if (ref[k] != d[k]) { BAD("%%s.%%s: byte %%d is sent as 0x%%02X instead of 0x%%02X", nodes[n], F->name, k, d[k], ref[k]); break; } return; }
  for (int s = 0; s < F->n; s++) if (ext(get(f, p, s), F->s + s) != want[s]) { BAD("%%s.%%s: signal %%d of the sender is %%lld instead of %%lld", nodes[n], F->name, s, (long long)get(f, p, s), (long long)want[s]); return; }
  memcpy((char*)&before + tx_at[n][f], p, F->size);
  if (memcmp(&before, &w, sizeof w)) { BAD("sending %%s.%%s changes something else", nodes[n], F->name); return; }
  memset(d + F->dlc, 0x3C, sizeof d - (size_t)F->dlc);
  int rel = m.held, b = pat ? 8 * F->dlc - 1 : (int)(rnd((uint32_t)nt) %% (8u * (unsigned)F->dlc));
  if (ch == 0 || ch == 2) undisturbed(n, f, d, want);
  if (ch == 2) undisturbed(n, f, d, want);
  if (ch == 3 || ch == 7) {
    if (ch == 7) b = F->csm >= 0 ? pos(F->s + F->csm, 0) : F->roll >= 0 ? pos(F->s + F->roll, 0) : 0;
    d[b / 8] ^= (uint8_t)(1 << b %% 8); deliver(n, d, F->id, F->dlc); flags(n, f, 1, 0, "altered frame");
  }
  if (ch == 4) { deliver(n, d, F->id, F->dlc - 1); flags(n, f, -1, 1, "shortened frame"); }
  if (ch == 5 && !m.held) { m.held = 1; m.hf = f; m.hn = n; memcpy(m.hd, d, 64); }
  if (ch == 6) deliver(n, d, F->id ^ (pat ? 0x10000000u : 1u << 3), F->dlc);
  if (rel && ch != 6) { m.held = 0; undisturbed(m.hn, m.hf, m.hd, 0); memset(m.hd, 0, 64); m.hf = m.hn = 0; }
  state();
}
static void dfs(int depth)
{
  if (!depth || bad > 4) return;
  W kw = w; static char kms[8][sizeof m]; memcpy(kms[depth], &m, sizeof m); size_t hl = strlen(hist); uint32_t t = v_tick;
  for (int n = 0; n < NN; n++) for (int f = 0; f < NF; f++) if (tx_at[n][f] >= 0) for (int ch = 0; ch < 8; ch++) for (int pat = 0; pat < 2 + (ch == 0); pat++) {
    event(n, f, pat, ch); dfs(depth - 1);
    w = kw; memcpy(&m, kms[depth], sizeof m); hist[hl] = 0; v_tick = t;
  }
}
/* long undisturbed streams: after the first frame no flag is raised, however often the counter wraps; one lost frame is noticed */
static void stream(void)
{
  for (int n = 0; n < NN; n++) for (int f = 0; f < NF; f++) if (tx_at[n][f] >= 0) {
    memset(&w, 0, sizeof w); memset(&m, 0, sizeof m);
    for (int i = 0; i < 600 && !bad; i++) {
      hist[0] = 0; sprintf(hist, " [frame %%d of a stream]", i); int lose = i %% 97 == 50;
      event(n, f, i & 1, lose ? 1 : 0);
      for (int r = 0; r < NN && DM && AR && fd[f].roll >= 0 && !lose && i; r++) if (r != n && rx_at[r][f] >= 0) {
        uint32_t q[5]; mon(f, (char*)&w + rx_at[r][f], q);
        if (q[3] != (i %% 97 == 51)) BAD("%%s.%%s: roll_error is %%u", nodes[r], fd[f].name, q[3]);
      }
    }
  }
  hist[0] = 0;
}
int main(void)
{
  stream();
  memset(&w, 0, sizeof w); memset(&m, 0, sizeof m); dfs(%(depth)d);
  printf("DONE %%lu %%lu\n", nt, distinct);
  return bad != 0;
}
'''
EXTRA = """enum { M1 = 1, M2 = 3 };
#ifdef __cplusplus
extern "C"
#endif
uint8_t v_hash(const uint8_t* d, uint8_t n, uint32_t id, int method, int op);
extern uint32_t v_tick;
#define GetSystemTick() (v_tick)
#define GetFrameHash(a,b,c,d,e) v_hash((a),(b),(c),(int)(d),(e))
"""


def program(net, sw, init, depth):
    dl = net.drv.lower()
    fr = [f for f in net.frames if f[0].sigs]
    full = [net.frames.index(f) for f in fr]
    kind = lambda s: 0 if s.plain else 2 if s.is_decimal else 1
    tables = "\n".join("static const SG sg_%s[] = {%s};" % (m.name, ",".join("{%d,%d,%d,%d,%d,%s,%s}" % (
        s.start, s.length, s.order == MOTO, s.signed, kind(s), float(s.factor), float(s.offset)) for s in m.sigs)) for m, _, _, _ in fr)
    nm = lambda m, x: [s.name for s in m.sigs].index(x) if x else -1
    frames = ",".join('{"%s",0x%Xu,%d,%d,%d,%d,%d,%d,%d,sizeof(%s_t),sg_%s}' % (
        m.name, m.id, m.ext, m.dlc, len(m.sigs), nm(m, rc), nm(m, cs), k, 1 if k % 2 == 0 else 3, m.name, m.name) for (m, add, rc, cs), k in zip(fr, full))
    world, tx, rx, recv, utils = [], [], [], [], []
    for i, n in enumerate(net.nodes):
        ul = (dl if net.common else n.lower() + "_" + dl)
        utils.append('#include "%s-binutil.c"' % ul)
        sends = [net.frames[k][0].name if n in net.senders(k) else None for k in full]
        gets = [net.frames[k][0].name if net.receives(n, k) else None for k in full]
        if any(sends):
            world.append("%s t%d;" % ("struct { %s }" % " ".join("%s_t %s;" % (x, x) for x in sends if x) if net.common else ul + "_tx_t", i))
        if any(gets):
            world.append("%s_rx_t r%d;" % (ul, i))
            recv.append("case %d: return %s_Receive(&w.r%d, d, id, l);" % (i, ul, i))
        for o, l, c in ((tx, sends, "t"), (rx, gets, "r")):
            o.append("{" + ",".join("(long)offsetof(W, %s%d.%s)" % (c, i, x) if x else "-1" for x in l) + "}")
    acc = lambda body: " ".join("case %d: { %s_t* x = (%s_t*)p; (void)x; switch (s) { %s } } break;" % (
        k, m.name, m.name, " ".join("case %d: %s" % (j, body(s)) for j, s in enumerate(m.sigs) if body(s))) for k, (m, _, _, _) in enumerate(fr))
    ph = "SIGFLOAT" in sw
    if "CANSTRUCT" in sw:
        pk = "{ __CoderDbcCanFrame_t__ c; memset(&c, 0xC3, sizeof c); uint32_t r = Pack_%s_%s((%s_t*)p, &c); memcpy(d, c.Data, 64); *l = c.DLC; *i = c.IDE; return c.MsgId == r ? r : ~r; }"
    else:
        pk = "return Pack_%s_%s((%s_t*)p, d, l, i);"
    return SRC % dict(
        dl=dl, utils="\n".join(sorted(set(utils))), nf=len(fr), nn=len(net.nodes), ar="ROLL" in sw, ac="CSM" in sw, ph=ph, dm="DIAG_MONITORS" in sw, init=init or 0, tables=tables,
        frames=frames, nodes=",".join('"%s"' % n for n in net.nodes), world=" ".join(world), txat=",".join(tx), rxat=",".join(rx),
        get=acc(lambda s: "return (uint64_t)x->%s;" % s.field), set=acc(lambda s: "x->%s = v; break;" % s.field),
        getp=acc(lambda s: "return (double)x->%s;" % s.phys if s.phys else "") if ph else "", setp=acc(lambda s: "x->%s = v; break;" % s.phys if s.phys else "") if ph else "",
        mon=" ".join("case %d: { const FrameMonitor_t* x = &((const %s_t*)p)->mon1; q[0] = x->dlc_error; q[1] = x->last_cycle; q[2] = x->frame_cnt; q[3] = x->roll_error; q[4] = x->csm_error; } break;" % (
            k, f[0].name) for k, f in enumerate(fr)) if "DIAG_MONITORS" in sw else "",
        pack=" ".join("case %d: " % k + pk % (f[0].name, net.drv, f[0].name) for k, f in enumerate(fr)), recv=" ".join(recv), depth=depth)


def run_check(chk):
    exe = build_coderdbc()
    base = chk.dir("w")
    jobs = []
    nets = list(networks())
    for net in nets:
        for n in range(len(SWITCHES) + 1):
            for c in itertools.combinations(SWITCHES, n):
                if "MONO_FMON" in c and "DIAG_MONITORS" not in c:
                    continue
                deep = chk.thorough or c == ("DIAG_MONITORS", "ROLL", "CSM")
                jobs.append((net, c, 0xA5 if len(jobs) % 3 == 1 else None, 4 if deep else 3))
    global _job

    def _job(ij):
        i, (net, c, init, depth) = ij
        d = os.path.join(base, "j%d" % i)
        os.makedirs(d)
        conf = Conf(c, init=init, extra=EXTRA)
        text = net.text()
        tag = "%s:%s" % (net.name, "+".join(c) or "none")
        p = gen_driver(exe, d, text, net.drv, opts=("-rw",) + (() if net.common else ("-nodeutils",)), conf=conf)
        if p:
            return [("gen:" + tag, p[1], {"in.dbc": text})], 0, 0
        src = program(net, c, init, depth)
        p, out = build_run(d, src, conf.flags(net.drv), opt="-O1", timeout=400)
        f = [x[5:] for x in out.splitlines() if x.startswith("FAIL ")]
        bad = [("net:" + tag, "network %s with %s: %s" % (net.name, "+".join(c) or "no switch", f[0] if f else p), {"in.dbc": text, "t.c": src})] if f or p else []
        n = re.search(r"DONE (\d+) (\d+)", out)
        rm(d)
        return bad, int(n.group(1)) if n else 0, int(n.group(2)) if n else 0
    bag = Bag(chk)
    order = sorted(enumerate(jobs), key=lambda x: -x[1][3])
    for bad, n, ns in pmap(_jobcall, order):
        chk.add(states=ns, transitions=n, traces_validated_against_impl=1)
        for x in bad:
            bag.put(*x)
    chk.notes.update(networks=len(nets), configurations=len(jobs), depth=[3, 4], exhaustive=True)
    for net in nets[:2]:
        chk.sample(net.text())
    chk.assumptions.append("the user's hash function leaves the checksum field out, and a node does not receive what it sends itself")


def _jobcall(x):
    return _job(x)


if __name__ == "__main__":
    main("C33", run_check)
