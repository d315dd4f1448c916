/* Preemption explorer. The generated code is compiled with -fsanitize=thread and linked with the hooks below instead of the sanitizer's
   runtime, so that every memory access is a scheduling point: at each of them a whole other operation on other data is run (an interrupt, or
   another thread), and inside of that, up to a bound, a third one. Every operation must leave its data as it does alone. Writes to anything
   but the operation's own data and the stack are reported as such. */
#include "engine_iso.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
enum { LEV = 3 };
typedef struct { const Op* op; int payload, content, dlc; long n; } Task;
static Task T[512]; static int nt;
static Ctx C[LEV], *solo[512]; static Ctx* X[LEV] = {&C[0], &C[1], &C[2]};
static const Task* lev[LEV]; static long at[LEV], pts[LEV], dur[LEV]; static int depth = -1, nlev; static char* top;
static unsigned long runs, points, bad; static int quiet;
static void fail(const char* kind, const char* text) { if (quiet) return; if (bad++ < 12) printf("FAIL %s %s %s\n", lev[0] ? lev[0]->op->name : "-", kind, text); }
static void start(int d);
static void point(void) {
  if (depth < 0) return;
  int d = depth; points++;
  if (pts[d]++ == at[d] && d + 1 < nlev) start(d + 1);
}
static int in_any(const char* p) { for (int i = 0; i < LEV; i++) if (p >= (char*)X[i] && p < (char*)(X[i] + 1)) return 1; return 0; }
static void wr(const void* a, size_t n) {
  if (depth < 0) return;
  const char* p = a; Ctx* c = X[depth]; const Op* o = lev[depth]->op; char* here = __builtin_frame_address(0);
  if (p >= (char*)c->obj && p + n <= (char*)c->obj + o->size) return;
  if (o->outcap && ((p >= (char*)c->out && p + n <= (char*)c->out + o->outcap) || p == (char*)&c->len || p == (char*)&c->ide)) return;
  if (p > here - 4096 && p < top) return;
  char t[200]; const char* what = in_any(p) ? (p >= (char*)c->in && p < (char*)c->in + sizeof c->in ? "the payload it is given to read" : p >= (char*)c && p < (char*)(c + 1) ? "memory next to its struct or buffer" : "another call's data") : "memory of its own that outlives the call";
  snprintf(t, sizeof t, "%s writes %zu byte(s) to %s", o->name, n, what); fail("write", t);
}
#define RW(k) void __tsan_read##k(void* a) { (void)a; point(); } void __tsan_write##k(void* a) { point(); wr(a, k); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define URW(k) void __tsan_unaligned_read##k(void* a) { (void)a; point(); } void __tsan_unaligned_write##k(void* a) { point(); wr(a, k); }
URW(2) URW(4) URW(8) URW(16)
void __tsan_read_range(void* a, unsigned long n) { (void)a; (void)n; point(); }
void __tsan_write_range(void* a, unsigned long n) { point(); wr(a, n); }
void __tsan_vptr_update(void** a, void* b) { (void)b; point(); wr(a, 8); }
void __tsan_vptr_read(void** a) { (void)a; point(); }
void __tsan_func_entry(void* a) { (void)a; point(); }
void __tsan_func_exit(void) { point(); }
void __tsan_init(void) {}
void* iso_memcpy(void* a, const void* b, size_t n) { point(); wr(a, n); return memcpy(a, b, n); }
void* iso_memmove(void* a, const void* b, size_t n) { point(); wr(a, n); return memmove(a, b, n); }
void* iso_memset(void* a, int b, size_t n) { point(); wr(a, n); return memset(a, b, n); }
uint32_t iso_tick(void) { point(); return depth < 0 ? 0 : X[depth]->tick; }
void iso_mon(const void* mon, unsigned long size, uint32_t msgid) {
  point(); if (depth < 0) return;
  Ctx* c = X[depth]; const uint8_t* m = mon; long off = m - c->obj;
  if (off < 0 || off + (long)size > (long)lev[depth]->op->size) { char t[120]; snprintf(t, sizeof t, "%s hands a monitor that is not its own to the monitor function", lev[depth]->op->name); fail("monitor", t); return; }
  uint64_t h = (c->log ^ ((uint64_t)msgid << 20) ^ (uint64_t)off) * 1099511628211ull; for (unsigned long i = 0; i < size; i++) h = (h ^ m[i]) * 1099511628211ull; c->log = h;
}
static uint8_t pat(int k, int i) { return k == 0 ? (uint8_t)(0x11 + i * 29) : k == 1 ? (uint8_t)(0xEE - i * 37) : k == 2 ? 0 : 0xFF; }
static void fresh(Ctx* c, const Task* t) {
  unsigned n = t->op->size + 32;
  c->ret = 0; c->tick = 1000u + (uint32_t)(t->payload * 77 + t->content * 5); c->dlc = (uint8_t)t->dlc; c->len = c->ide = 0xEE; c->pad = 0; c->log = 14695981039346656037ull;
  for (unsigned i = 0; i < sizeof c->in; i++) c->in[i] = pat(t->payload, (int)i);
  memset(c->out, 0x91, sizeof c->out);
  for (unsigned i = 0; i < n; i++) c->obj[i] = t->content > 1 ? pat(t->content, 0) : (i & 3) == 3 || (i & 7) >= 5 ? 0 : pat(t->content, (int)i);
}
static Ctx ready[512];
static void reset(Ctx* c, const Task* t) { Ctx* r = &ready[t - T]; memcpy(c, r, (size_t)(c->obj - (uint8_t*)c) + t->op->size + 32); }
static int same(const Ctx* c, const Ctx* r, const Task* t) { return !memcmp(c, r, (size_t)(c->obj - (uint8_t*)c) + t->op->size + 32); }
static void start(int d) {
  int old = depth; depth = d; pts[d] = 0; runs++; lev[d]->op->f(X[d], lev[d]->op); dur[d] = pts[d]; depth = old;
}
static void differs(int d, const char* how) {
  char t[600]; int n = snprintf(t, sizeof t, "%s on data of its own ends otherwise than alone when %s:", lev[d]->op->name, how);
  for (int k = 0; k < nlev; k++) n += snprintf(t + n, sizeof t - (size_t)n, "%s %s (payload %d, content %d, dlc %d)", k ? " interrupted by" : "", lev[k]->op->name, lev[k]->payload, lev[k]->content, lev[k]->dlc);
  if (nlev > 1) snprintf(t + n, sizeof t - (size_t)n, " at access %ld%s", at[0], nlev > 2 ? " (and inside)" : "");
  fail("interference", t);
}
static int explore(int a, int b, int c) {
  nlev = c >= 0 ? 3 : 2; lev[0] = &T[a]; lev[1] = &T[b]; lev[2] = c >= 0 ? &T[c] : 0;
  for (long i = 0; i < T[a].n; i++) for (long j = 0; j < (c >= 0 ? T[b].n : 1); j++) {
    for (int d = 0; d < nlev; d++) reset(&C[d], lev[d]);
    at[0] = i; at[1] = c >= 0 ? j : -1; at[2] = -1; start(0);
    for (int d = 0; d < nlev; d++) if (!same(&C[d], solo[lev[d] - T], lev[d])) { differs(d, "interrupted or interrupting"); return 1; }
    if (dur[0] != T[a].n) { char t[200]; snprintf(t, sizeof t, "%s takes another path when %s interrupts it at access %ld", lev[0]->op->name, lev[1]->op->name, i); fail("path", t); return 1; }
  }
  return 0;
}
/* two histories of up to `len` calls each on data of their own, in all orders */
static Ctx H[2]; static unsigned long hist;
static size_t span(const Task* t) { return (size_t)((uint8_t*)C[0].obj - (uint8_t*)&C[0]) + t->op->size + 32; }
static void step(Ctx* c, const Task* t) {
  /* keeps the struct, takes the next payload */
  c->dlc = (uint8_t)t->dlc; c->tick += 13; memcpy(c->in, ready[t - T].in, sizeof c->in);
  nlev = 1; lev[0] = t; at[0] = -1; X[0] = c; start(0); X[0] = &C[0];
}
static void histories(const int* fa, int na, const int* fb, int nb, int len) {
  int ca = 1, cb = 1; for (int i = 0; i < len; i++) ca *= na, cb *= nb;
  static Ctx ra, rb;
  for (int x = 0; x < ca; x++) {
    int sa[4], sb[4]; for (int i = 0, v = x; i < len; i++, v /= na) sa[i] = fa[v % na];
    reset(&ra, &T[sa[0]]); for (int i = 0; i < len; i++) step(&ra, &T[sa[i]]);
    for (int y = 0; y < cb; y++) {
      for (int i = 0, v = y; i < len; i++, v /= nb) sb[i] = fb[v % nb];
      reset(&rb, &T[sb[0]]); for (int i = 0; i < len; i++) step(&rb, &T[sb[i]]);
      for (int o = 0; o < 1 << (2 * len); o++) {
        if (__builtin_popcount((unsigned)o) != len) continue;
        reset(&H[0], &T[sa[0]]); reset(&H[1], &T[sb[0]]);
        for (int i = 0, ia = 0, ib = 0; i < 2 * len; i++) if (o >> i & 1) step(&H[1], &T[sb[ib++]]); else step(&H[0], &T[sa[ia++]]);
        hist++;
        if (memcmp(&H[0], &ra, span(&T[sa[0]])) || memcmp(&H[1], &rb, span(&T[sb[0]]))) {
          char t[400]; snprintf(t, sizeof t, "calls for two structs in turn (%s and %s first, order %x) end otherwise than each by itself", T[sa[0]].op->name, T[sb[0]].op->name, o); lev[0] = &T[sa[0]]; fail("history", t); return;
        }
      }
    }
  }
}
static void add(const Op* o, int p, int c, int dlc) { if (nt == 512) { printf("FAIL - setup too many operations\n"); exit(1); } T[nt].op = o; T[nt].payload = p; T[nt].content = c; T[nt].dlc = dlc; nt++; }
int main(int argc, char** argv) {
  top = (char*)__builtin_frame_address(0) + 4096; int triples = argc > 1 ? atoi(argv[1]) : 0, hlen = argc > 2 ? atoi(argv[2]) : 0;
  for (int i = 0; i < g_nops; i++) {
    const Op* o = &g_ops[i];
    if (o->size + 32 > ISO_MAXOBJ) { printf("FAIL - setup struct too large\n"); return 1; }
    if (o->kind == 1) { add(o, 0, 0, 0); add(o, 0, 1, 0); add(o, 0, 2, 0); add(o, 0, 3, 0); }
    else { add(o, 0, 1, 64); add(o, 1, 0, o->frame >= 0 ? g_framedlc[o->frame] : 8); if (o->kind == 0 || triples) { add(o, 0, 0, 0); add(o, 3, 2, 64); } }
  }
  for (int i = 0; i < nt; i++) fresh(&ready[i], &T[i]);
  for (int i = 0; i < nt; i++) {                                    /* alone */
    nlev = 1; lev[0] = &T[i]; at[0] = -1; reset(&C[0], &T[i]); start(0); T[i].n = dur[0];
    solo[i] = malloc(sizeof(Ctx)); *solo[i] = C[0];
    if (T[i].n < 2) { printf("FAIL %s setup no scheduling points\n", T[i].op->name); return 2; }
  }
  for (int i = 0; i < nt; i++) {                                    /* again: nothing remembered */
    nlev = 1; lev[0] = &T[i]; at[0] = -1; reset(&C[0], &T[i]); start(0); if (!same(&C[0], solo[i], &T[i])) differs(0, "called again");
  }
  for (int a = 0; a < nt; a++) for (int b = 0; b < nt; b++) if (explore(a, b, -1) && bad > 30) goto end;
  if (triples) {
    int last = -1, pick[512], np = 0;
    for (int i = 0; i < nt; i++) { if (T[i].op->kind == 2 && T[i].op->frame > 0 && triples < 2) continue; if (T[i].op - g_ops != last) pick[np++] = i, last = (int)(T[i].op - g_ops); }
    for (int a = 0; a < np; a++) for (int b = 0; b < np; b++) for (int c = 0; c < np; c++) if (explore(pick[a], pick[b], pick[c]) && bad > 30) goto end;
  }
  if (hlen) {
    int nf = 0; for (int i = 0; i < nt; i++) if (T[i].op->kind < 2 && T[i].op->frame >= nf) nf = T[i].op->frame + 1;
    static int L[256][8], n[256];
    for (int i = 0; i < nt; i++) if (T[i].op->kind < 2 && T[i].content < 2 && n[T[i].op->frame] < 3 && (T[i].op->kind == 0 ? T[i].dlc : T[i].content == 0)) L[T[i].op->frame][n[T[i].op->frame]++] = i;
    for (int a = 0; a < nf; a++) for (int b = 0; b < nf; b++) histories(L[a], n[a], L[b], n[b], hlen);
  }
end:
  printf("DONE %lu %lu %d %lu\n", runs, points, nt, hist); return bad != 0;
}
