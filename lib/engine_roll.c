// Rolling counters: one step transitions from every counter value, all pairs and triples of received counters, all bounded histories of
// a sender, a lossy, duplicating and reordering channel, and a receiver. The counter is the signal named RC.
#define main engine_main
#include "engine.c"
#undef main
static const MD* M; static int rc; static uint64_t mask;
static long n_hist;
static uint8_t st_s[4096], st_r[4096];
static uint64_t counter(const uint8_t* d) { return ref_get(&M->sig[rc], d) & mask; }
static int others_ok(const uint8_t* d, const uint64_t* want)
{
  for (int s = 0; s < M->nsig; s++) if (s != rc && ref_get(&M->sig[s], d) != want[s]) return 0;
  return 1;
}
static uint64_t canon(uint64_t v)
{
  v &= mask;
  int w = M->sig[rc].len;
  if (M->sig[rc].sgn && w < 64 && (v >> (w - 1) & 1)) v |= ~0ull << w;
  return v;
}
static void pack(uint8_t* d) { uint8_t l, i; uint32_t id; memset(d, 0xC3, 64); M->pack(st_s, d, &l, &i, &id); n_eval++; }
static int roll_error(const uint8_t* d)
{
  uint32_t q[5];
  M->unpack(st_r, d, (uint8_t)M->dlc); n_eval++;
  M->mon(st_r, q);
  return (int)q[3];
}
static void put(uint8_t* d, uint64_t v, int bg) { memset(d, bg, 64); ref_put(&M->sig[rc], d, v); }
static uint64_t vals[4200]; static int nvals;
static void values(void)
{
  int w = M->sig[rc].len; nvals = 0;
  if (w <= 6) { for (uint64_t v = 0; v <= mask; v++) vals[nvals++] = v; return; }
  for (int k = 0; k < w; k++) for (int d = -1; d <= 1; d++) vals[nvals++] = ((1ull << k) + d) & mask;
  vals[nvals++] = mask; vals[nvals++] = mask - 1; vals[nvals++] = mask - 2; vals[nvals++] = 0x55555555AAAAAAAAull & mask;
}
static char hist[300];
static uint8_t sent[8][64]; static int nsent;
static uint64_t others[512];
static int senderr;
static void do_pack(uint64_t expect)
{
  uint8_t* d = sent[nsent & 7];
  pack(d); nsent++;
  if (counter(d) != (expect & mask)) { if (!senderr++) fail(M, "RC", "pack encodes the counter %s instead of %s (history:%s)", u64s(counter(d)), u64s(expect & mask), hist); }
  else if ((M->get(st_s, rc) & mask) != (expect & mask)) { if (!senderr++) fail(M, "RC", "after pack the field holds %s instead of %s%s", u64s(M->get(st_s, rc)), u64s(expect & mask), ""); }
  else if (!others_ok(d, others)) { if (!senderr++) fail(M, "RC", "pack with rolling counter spoils another signal: %s (history:%s)%s", hex(d, M->dlc), hist, ""); }
}
static int have; static uint64_t last;
static void deliver(const uint8_t* d)
{
  if (!M->mon) return;
  int e = roll_error(d); uint64_t c = counter(d);
  int want = have && c != ((last + 1) & mask);
  if (have && e != want) fail(M, "RC", "roll_error is %s on counter %s (history:%s)", e ? "set" : "clear", u64s(c), hist);
  have = 1; last = c; n_hist++;
}
static void dfs(int depth, uint64_t cnt)
{
  if (!depth || n_fail) return;
  size_t hl = strlen(hist);
  uint8_t ks[4096], kr[4096]; memcpy(ks, st_s, M->size); memcpy(kr, st_r, M->size); int ns = nsent, hv = have; uint64_t la = last; uint8_t keep[8][64]; memcpy(keep, sent, sizeof keep);
  for (int ev = 0; ev < 5; ev++) {
    uint64_t c = cnt;
    if (ev == 0) { strcat(hist, " send"); do_pack(++c); deliver(sent[(nsent - 1) & 7]); }
    else if (ev == 1) { strcat(hist, " lose"); do_pack(++c); }
    else if (ev == 2) { if (!nsent) continue; strcat(hist, " repeat"); deliver(sent[(nsent - 1) & 7]); }
    else if (ev == 3) { strcat(hist, " swap"); do_pack(++c); do_pack(++c); deliver(sent[(nsent - 1) & 7]); deliver(sent[(nsent - 2) & 7]); }
    else { if (nsent < 3) continue; strcat(hist, " old"); deliver(sent[(nsent - 3) & 7]); }
    dfs(depth - 1, c);
    memcpy(st_s, ks, M->size); memcpy(st_r, kr, M->size); nsent = ns; have = hv; last = la; memcpy(sent, keep, sizeof keep); hist[hl] = 0;
  }
}
int main(int argc, char** argv)
{
  int depth = argc > 1 ? atoi(argv[1]) : 4;
  page_p = guarded(); page_s = guarded();
  for (int k = 0; k < g_nmsgs; k++) {
    M = &g_msgs[k]; load(M); n_fail = 0; senderr = 0; n_layout++;
    for (rc = 0; rc < M->nsig && strcmp(M->sig[rc].name, "RC"); rc++);
    int w = M->sig[rc].len; mask = w == 64 ? ~0ull : (1ull << w) - 1;
    values();
    // the sender: one step from every value, then a run
    for (int v = 0; v < nvals && !n_fail; v++) for (int bg = 0; bg < 2; bg++) {
      memset(st_s, bg ? 0xFF : 0, M->size);
      for (int s = 0; s < M->nsig; s++) if (s != rc) { M->set(st_s, s, 0x9E3779B97F4A7C15ull * (unsigned)(s + v)); uint8_t t[64]; memset(t, 0, 64); ref_put(&M->sig[s], t, M->get(st_s, s)); others[s] = ref_get(&M->sig[s], t); }
      M->set(st_s, rc, canon(vals[v])); hist[0] = 0; nsent = 0;
      do_pack(vals[v] + 1);
      do_pack(vals[v] + 2);
    }
    int run = w <= 8 ? (1 << w) * 2 + 3 : 40;
    M->set(st_s, rc, canon(mask - 17)); nsent = 0;
    for (int i = 0; i < run && !n_fail; i++) do_pack(mask - 17 + 1 + (uint64_t)i);
    // the receiver: all pairs and (small alphabets) triples
    if (M->mon) for (int a = 0; a < nvals && !n_fail; a++) for (int b = 0; b < nvals && !n_fail; b++) for (int bg = 0; bg < 2; bg++) {
      uint8_t d[64]; memset(st_r, bg ? 0xFF : 0, M->size);
      put(d, vals[a], bg ? 0xFF : 0); roll_error(d);
      put(d, vals[b], bg ? 0 : 0xFF);
      int e = roll_error(d);
      if (e != (vals[b] != ((vals[a] + 1) & mask))) { fail(M, "RC", "roll_error is %s when %s is received after %s", e ? "set" : "clear", u64s(vals[b]), u64s(vals[a])); break; }
      put(d, (vals[b] + 1) & mask, 0xA5);
      if (roll_error(d)) { fail(M, "RC", "roll_error is set when %s is received after %s, after an earlier error%s", u64s((vals[b] + 1) & mask), u64s(vals[b]), ""); break; }
      put(d, vals[b], 0x5A);
      if (w > 0 && mask != 0 && !roll_error(d) && !(w == 1 && 0)) { if (vals[b] != ((vals[b] + 2) & mask)) { fail(M, "RC", "roll_error is clear when %s is received after %s%s", u64s(vals[b]), u64s((vals[b] + 1) & mask), ""); break; } }
    }
    // histories
    uint64_t starts[3] = {0, mask, (mask >> 1) - 1};
    for (int s0 = 0; s0 < 3 && !n_fail; s0++) {
      memset(st_s, 0, M->size); memset(st_r, s0 == 1 ? 0xFF : 0, M->size); memset(others, 0, sizeof others);
      M->set(st_s, rc, canon(starts[s0])); nsent = 0; have = 0; hist[0] = 0;
      dfs(depth, starts[s0]);
    }
  }
  printf("DONE %ld 0 %ld\n", n_eval, n_layout);
  return 0;
}
