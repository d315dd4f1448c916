// Dumps what a driver packs and unpacks for fixed field values and payloads; c16.py compares the dumps of all configurations.
#define main engine_main
#include "engine.c"
#undef main
static uint64_t inrange(const SD* g, uint64_t v)
{
  if (g->len < 64) { v &= (1ull << g->len) - 1; if (g->sgn && (v >> (g->len - 1) & 1)) v |= ~0ull << g->len; }
  return v;
}
int main(void)
{
  static uint8_t st[8192];
  for (int i = 0; i < g_nmsgs; i++) {
    const MD* m = &g_msgs[i];
    load(m);
    int np = 6; for (int s = 0; s < m->nsig; s++) np += m->sig[s].len;
    printf("M %s %d\n", m->name, np);
    // field values: six patterns over all signals, then every single bit of every signal
    for (int p = 0; p < np; p++) {
      uint8_t d[64], len = 0xEE, ide = 0xEE; uint32_t id = 0xEEEEEEEE;
      memset(st, 0, m->size); memset(d, 0x77, 64);
      int bit = p - 6;
      for (int s = 0; s < m->nsig; s++) {
        uint64_t v = p == 0 ? 0 : p == 1 ? ~0ull : p == 2 ? 1 : p == 3 ? 0xA5A5A5A5A5A5A5A5ull >> (s & 7) : p == 4 ? 1ull << (m->sig[s].len - 1) : 0x9E3779B97F4A7C15ull * (unsigned)(s + 1);
        if (p >= 6) { v = bit >= 0 && bit < m->sig[s].len ? 1ull << bit : 0; bit -= m->sig[s].len; }
        m->set(st, s, inrange(&m->sig[s], v));
      }
      uint32_t r = m->pack(st, d, &len, &ide, &id);
      n_eval++;
      printf("P %s %x %x %x", hex(d, m->dlc), r, len, ide);
      for (int s = 0; s < m->nsig; s++) printf(" %llx", (unsigned long long)m->get(st, s));
      printf("\n");
    }
    // payloads: constants and every single bit on two backgrounds, in one struct that is kept
    memset(st, 0, m->size);
    for (int c = 0; c < 16 * m->dlc + 8; c++) {
      uint8_t d[64];
      if (c < 8) memset(d, kConst[c], 64); else { memset(d, c & 1 ? 0xFF : 0, 64); d[(c - 8) / 16] ^= (uint8_t)(1u << ((c - 8) / 2 % 8)); }
      uint64_t before = v_calls;
      uint32_t r = m->unpack(st, d, (uint8_t)(c % 5 == 3 ? m->dlc - 1 : m->dlc));
      n_eval++;
      if (m->mon) { uint32_t q[5]; m->mon(st, q); printf("N %d %u %u %u\n", before != v_calls, q[0], q[1], q[2]); }
      printf("U %x", r);
      for (int s = 0; s < m->nsig; s++) printf(" %llx", (unsigned long long)m->get(st, s));
      printf("\n");
    }
  }
  printf("DONE %ld 0 %ld\n", n_eval, n_layout);
  return 0;
}
