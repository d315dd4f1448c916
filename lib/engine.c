// Exhaustive behavioural checks of a generated driver against a bit-by-bit reference.
#include "engine.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

uint32_t v_tick;
uint64_t v_calls;
static long n_eval, n_fail, n_layout;
static uint8_t *page_p, *page_s;           // ends of guarded regions: payload, struct
static uint8_t* guarded(void)
{
  uint8_t* p = mmap(0, 3 * 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + 65536, 65536, PROT_READ | PROT_WRITE);
  return p + 2 * 65536;
}
static int bitpos(const SD* s, int k)      // position of bit k (0 = least significant)
{
  if (s->order == 1) return s->start + k;
  int p = s->start;
  for (int i = s->len - 1; i > k; i--) p = (p % 8) ? p - 1 : p + 15;
  return p;
}
static int ptab[512][64];
static uint8_t allmask[64];                // bits of any signal of the frame
static const SD* pbase;
static void load(const MD* m)
{
  pbase = m->sig;
  memset(allmask, 0, sizeof allmask);
  for (int s = 0; s < m->nsig && s < 512; s++) for (int k = 0; k < m->sig[s].len; k++) {
    int b = ptab[s][k] = bitpos(&m->sig[s], k);
    allmask[b >> 3] |= (uint8_t)(1u << (b & 7));
  }
}
static const int* positions(const SD* s) { return ptab[s - pbase]; }
static uint64_t ref_get(const SD* s, const uint8_t* d)
{
  const int* pos = positions(s);
  uint64_t v = 0;
  for (int k = 0; k < s->len; k++) if (d[pos[k] >> 3] >> (pos[k] & 7) & 1) v |= 1ull << k;
  if (s->sgn && s->len < 64 && (v >> (s->len - 1) & 1)) v |= ~0ull << s->len;
  return v;
}
static void ref_put(const SD* s, uint8_t* d, uint64_t v)
{
  const int* pos = positions(s);
  for (int k = 0; k < s->len; k++) {
    uint8_t m = (uint8_t)(1u << (pos[k] & 7));
    if (v >> k & 1) d[pos[k] >> 3] |= m; else d[pos[k] >> 3] &= (uint8_t)~m;
  }
}
static const char* hex(const uint8_t* d, int n)
{
  static char b[4][200]; static int w; char* o = b[w = (w + 1) & 3];
  for (int i = 0; i < n; i++) sprintf(o + 2 * i, "%02x", d[i]);
  o[2 * n] = 0;
  return o;
}
static void fail(const MD* m, const char* sig, const char* fmt, const char* a, const char* b, const char* c)
{
  if (n_fail++ < 6) {
    printf("FAIL %s %s ", m->name, sig);
    printf(fmt, a, b, c);
    printf("\n");
    fflush(stdout);
  }
}
static const char* u64s(uint64_t v)
{
  static char b[4][32]; static int w; char* o = b[w = (w + 1) & 3];
  sprintf(o, "0x%llx", (unsigned long long)v);
  return o;
}

// ---------------------------------------------------------------- decode
static int decode_one(const MD* m, const uint8_t* pay)
{
  uint8_t* d = page_p - m->dlc;
  void* st = page_s - m->size;
  memcpy(d, pay, m->dlc);
  memset(st, 0xA5, m->size);
  n_eval++;
  uint32_t r = m->unpack(st, d, (uint8_t)m->dlc);
  if (r != m->id) { fail(m, "-", "unpack returned %s%s%s", u64s(r), "", ""); return 1; }
  if (memcmp(d, pay, m->dlc)) { fail(m, "-", "unpack changed the payload %s%s%s", hex(pay, m->dlc), "", ""); return 1; }
  for (int s = 0; s < m->nsig; s++) {
    uint64_t e = ref_get(&m->sig[s], pay), g = m->get(st, s);
    if (e != g) { fail(m, m->sig[s].name, "payload %s decodes to %s, expected %s", hex(pay, m->dlc), u64s(g), u64s(e)); return 1; }
  }
  return 0;
}
static const uint8_t kConst[] = {0x00, 0xFF, 0xA5, 0x5A, 0x80, 0x01, 0x7F, 0xFE};
static void decode_msg(const MD* m, int exh)
{
  int nb = m->dlc * 8;
  uint8_t pay[64];
  for (unsigned c = 0; c < sizeof kConst; c++) { memset(pay, kConst[c], 64); if (decode_one(m, pay)) return; }
  for (int i = 0; i < 64; i++) pay[i] = (uint8_t)(i * 37 + 11);
  if (decode_one(m, pay)) return;
  for (int bg = 0; bg < 2; bg++)
    for (int b = 0; b < nb; b++) {
      memset(pay, bg ? 0xFF : 0, 64);
      pay[b >> 3] ^= (uint8_t)(1u << (b & 7));
      if (decode_one(m, pay)) return;
    }
  for (int s = 0; s < m->nsig; s++) {
    const SD* g = &m->sig[s];
    n_layout++;
    // every pair of bits of the signal, on both backgrounds (sign bit against every other bit included)
    int np = g->len <= 33 ? g->len : 0;
    for (int bg = 0; bg < 2; bg++)
      for (int i = 0; i < g->len; i++)
        for (int j = i + 1; j < g->len; j++) {
          if (!np && i > 1 && j < g->len - 2) continue;   // long signals: pairs with the two lowest or two highest bits
          memset(pay, bg ? 0xFF : 0, 64);
          uint64_t v = (1ull << i) | (1ull << j);
          ref_put(g, pay, bg ? ~v : v);
          if (decode_one(m, pay)) return;
        }
    if (g->len <= exh)
      for (int bg = 0; bg < 2; bg++)
        for (uint64_t v = 0; v >> g->len == 0; v++) {
          memset(pay, bg ? 0xFF : 0, 64);
          ref_put(g, pay, v);
          if (decode_one(m, pay)) return;
        }
  }
}

// ---------------------------------------------------------------- encode
static uint64_t setv[512];
static int encode_check(const MD* m, void* st, uint64_t only /* signal index or ~0 */)
{
  // expected payload from the fields themselves (as they can be read back before packing)
  uint8_t exp[64], *d = page_p - m->dlc, len = 0xEE, ide = 0xEE;
  uint32_t id = 0xEEEEEEEE;
  memset(exp, (int)g_init, 64);
  for (int i = 0; i < m->dlc; i++) exp[i] &= (uint8_t)~allmask[i];
  if (m->overlap) { if (only != ~0ull) ref_put(&m->sig[only], exp, m->get(st, (int)only)); }
  else for (int s = 0; s < m->nsig; s++) ref_put(&m->sig[s], exp, m->get(st, s));
  for (int s = 0; s < m->nsig; s++) setv[s] = m->get(st, s);
  memset(d, n_eval & 1 ? 0xC3 : 0x3C, m->dlc);
  n_eval++;
  uint32_t r = m->pack(st, d, &len, &ide, &id);
  const char* sn = only != ~0ull ? m->sig[only].name : "*";
  if (r != m->id) { fail(m, sn, "pack returned %s%s%s", u64s(r), "", ""); return 1; }
  if (len != m->dlc) { fail(m, sn, "pack reported length %s%s%s", u64s(len), "", ""); return 1; }
  if (ide != m->ide) { fail(m, sn, "pack reported IDE %s%s%s", u64s(ide), "", ""); return 1; }
  if (id != 0xEEEEEEEE && id != m->id) { fail(m, sn, "pack reported id %s%s%s", u64s(id), "", ""); return 1; }
  if (memcmp(d, exp, m->dlc)) {
    fail(m, sn, "field value %s packs to %s, expected %s", only != ~0ull ? u64s(setv[only]) : "(all)", hex(d, m->dlc), hex(exp, m->dlc));
    return 1;
  }
  for (int s = 0; s < m->nsig; s++)
    if (m->get(st, s) != setv[s]) { fail(m, m->sig[s].name, "pack changed the field from %s to %s%s", u64s(setv[s]), u64s(m->get(st, s)), ""); return 1; }
  return 0;
}
static int enc(const MD* m, int s, uint64_t v, int others)
{
  void* st = page_s - m->size;
  memset(st, 0, m->size);
  if (!m->overlap && others) for (int i = 0; i < m->nsig; i++) m->set(st, i, others == 1 ? ~0ull : 0xA5A5A5A5A5A5A5A5ull);
  m->set(st, s, v);
  return encode_check(m, st, (uint64_t)s);
}
static void encode_msg(const MD* m, int exh)
{
  for (int s = 0; s < m->nsig; s++) {
    const SD* g = &m->sig[s];
    n_layout++;
    for (int o = 0; o < (m->nsig > 1 && !m->overlap ? 3 : 1); o++) {
      if (m->nsig > 12 && !m->overlap) {                   // crowded frames: a few values in every neighbourhood
        if (enc(m, s, 0, o) || enc(m, s, ~0ull, o) || enc(m, s, 1, o) || enc(m, s, 1ull << (g->len - 1), o) || enc(m, s, ~1ull, o)) return;
        continue;
      }
      for (int b = 0; b < 64; b++) {                       // includes bits above the signal's width
        if (enc(m, s, 1ull << b, o) || enc(m, s, ~(1ull << b), o)) return;
        if (enc(m, s, (1ull << b) - 1, o)) return;
      }
      if (enc(m, s, 0, o) || enc(m, s, ~0ull, o) || enc(m, s, 0xA5A5A5A5A5A5A5A5ull, o) || enc(m, s, 0x5A5A5A5A5A5A5A5Aull, o)) return;
      int np = g->len <= 33 && !m->overlap ? g->len : 0;
      for (int i = 0; i < g->len; i++)
        for (int j = i + 1; j < g->len; j++) {
          if (!np && i > 1 && j < g->len - 2) continue;
          if (enc(m, s, (1ull << i) | (1ull << j), o)) return;
        }
      if (g->len <= exh)
        for (uint64_t v = 0; v >> g->len == 0; v++) if (enc(m, s, v, o)) return;
    }
  }
}

// ---------------------------------------------------------------- every payload of short frames, both directions
static int pingpong(const MD* m, const uint8_t* pay)
{
  if (decode_one(m, pay)) return 1;
  if (m->overlap) return 0;
  void* st = page_s - m->size;
  uint8_t exp[64], *d = page_p - m->dlc, len = 0xEE, ide = 0xEE; uint32_t id = 0;
  memset(exp, (int)g_init, 64);
  for (int s = 0; s < m->nsig; s++) ref_put(&m->sig[s], exp, ref_get(&m->sig[s], pay));
  memset(d, 0x77, m->dlc);
  m->pack(st, d, &len, &ide, &id);
  if (memcmp(d, exp, m->dlc)) { fail(m, "*", "unpack and pack turn %s into %s, expected %s", hex(pay, m->dlc), hex(d, m->dlc), hex(exp, m->dlc)); return 1; }
  return 0;
}
static void exhaust_msg(const MD* m, int full)
{
  uint8_t pay[64] = {0};
  n_layout++;
  if (m->dlc <= 2) {
    // the reference decode of two bytes, tabulated per byte (a layout is a bit selection)
    static uint64_t tab[512][2][256];
    for (int s = 0; s < m->nsig; s++)
      for (int b = 0; b < m->dlc; b++)
        for (int v = 0; v < 256; v++) {
          SD u = m->sig[s];
          uint8_t p2[64] = {0};
          p2[b] = (uint8_t)v;
          uint64_t r = 0;
          for (int k = 0; k < u.len; k++) if (p2[ptab[s][k] >> 3] >> (ptab[s][k] & 7) & 1) r |= 1ull << k;
          tab[s][b][v] = r;
        }
    uint8_t* d = page_p - m->dlc;
    void* st = page_s - m->size;
    memset(st, 0xA5, m->size);
    for (unsigned v = 0; v < (m->dlc == 1 ? 256u : 65536u); v++) {
      int bad = 0;
      if (!full) {                                         // bits of no signal: four patterns instead of all
        unsigned out = ~(allmask[0] | allmask[1] << 8) & (m->dlc == 1 ? 0xFFu : 0xFFFFu), o = v & out;
        if (o && o != out && o != (out & 0xA5A5) && o != (out & 0x5A5A)) continue;
      }
      pay[0] = (uint8_t)v; pay[1] = (uint8_t)(v >> 8);
      memcpy(d, pay, m->dlc);
      n_eval++;
      bad |= m->unpack(st, d, (uint8_t)m->dlc) != m->id;
      for (int s = 0; s < m->nsig; s++) {
        uint64_t e = tab[s][0][pay[0]] | (m->dlc > 1 ? tab[s][1][pay[1]] : 0);
        const SD* g = &m->sig[s];
        if (g->sgn && (e >> (g->len - 1) & 1)) e |= ~0ull << g->len;
        bad |= m->get(st, s) != e;
      }
      if (!m->overlap) {
        uint8_t len = 0, ide = 0; uint32_t id = 0;
        memset(d, 0x77, m->dlc);
        m->pack(st, d, &len, &ide, &id);
        for (int b = 0; b < m->dlc; b++) bad |= d[b] != (uint8_t)((pay[b] & allmask[b]) | (g_init & 0xFF & ~allmask[b]));
      }
      if (bad) { if (pingpong(m, pay)) return; fail(m, "*", "payload %s: differs between two runs%s%s", hex(pay, m->dlc), "", ""); return; }
    }
    return;
  }
  // longer frames: every value of every pair of neighbouring bytes is too much; every value of each byte on
  // three backgrounds, and every payload with at most two bits differing from three backgrounds
  for (int bg = 0; bg < 3; bg++) {
    for (int b = 0; b < m->dlc; b++)
      for (unsigned v = 0; v < 256; v++) {
        if (m->dlc > 8 && !full && (v & (v - 1)) && v != 0xFF && v != 0x55 && v != 0xAA) continue;
        memset(pay, bg == 0 ? 0 : bg == 1 ? 0xFF : 0xA5, 64);
        pay[b] = (uint8_t)v;
        if (pingpong(m, pay)) return;
      }
    if (m->dlc <= 8)
      for (int i = 0; i < m->dlc * 8; i++)
        for (int j = i + 1; j < m->dlc * 8; j++) {
          memset(pay, bg == 0 ? 0 : bg == 1 ? 0xFF : 0xA5, 64);
          pay[i >> 3] ^= (uint8_t)(1u << (i & 7)); pay[j >> 3] ^= (uint8_t)(1u << (j & 7));
          if (pingpong(m, pay)) return;
        }
  }
  // field values: every combination from a small alphabet, packed and unpacked again
  static const int K = 4;
  long total = 1;
  for (int s = 0; s < m->nsig && total <= 5000; s++) total *= K;
  if (total > 5000 || m->overlap) return;
  for (long c = 0; c < total; c++) {
    void* st = page_s - m->size;
    uint8_t *d = page_p - m->dlc, len, ide; uint32_t id = 0;
    uint64_t want[16];
    memset(st, 0, m->size);
    long t = c;
    for (int s = 0; s < m->nsig; s++, t /= K) {
      const SD* g = &m->sig[s];
      uint64_t top = g->len == 64 ? ~0ull : (1ull << g->len) - 1, v;
      switch (t % K) { case 0: v = 0; break; case 1: v = top; break; case 2: v = 1ull << (g->len - 1); break; default: v = 0x5A5A5A5A5A5A5A5Aull & top; }
      if (g->sgn && g->len < 64 && (v >> (g->len - 1) & 1)) v |= ~0ull << g->len;
      if (s < 16) want[s] = v;
      m->set(st, s, v);
    }
    memset(d, 0x77, m->dlc);
    n_eval++;
    m->pack(st, d, &len, &ide, &id);
    uint8_t pay2[64];
    memcpy(pay2, d, m->dlc);
    memset(st, 0xA5, m->size);
    m->unpack(st, d, (uint8_t)m->dlc);
    for (int s = 0; s < m->nsig && s < 16; s++)
      if (m->get(st, s) != want[s]) { fail(m, m->sig[s].name, "value %s comes back as %s through payload %s", u64s(want[s]), u64s(m->get(st, s)), hex(pay2, m->dlc)); return; }
  }
}

// ---------------------------------------------------------------- transcripts (for comparing drivers)
static uint64_t fnv(uint64_t h, const void* p, size_t n)
{
  const uint8_t* b = p;
  while (n--) { h ^= *b++; h *= 1099511628211ull; }
  return h;
}
static void transcript(const MD* m)
{
  // per signal: hash of decoded values over all patterns; per frame: hash of packed payloads
  static uint64_t hs[512], hph[512];
  const uint64_t H0 = 14695981039346656037ull;
  uint64_t hp = H0, hm = H0;
  uint8_t pay[64];
  for (int s = 0; s < m->nsig; s++) hs[s] = hph[s] = H0;
  int nb = m->dlc * 8;
  uint8_t* d = page_p - m->dlc; void* st = page_s - m->size;
  memset(st, 0, m->size);
  v_tick = 1000;
  for (int c = 0; c < 2 * nb + (int)sizeof kConst; c++) {
    if (c < 2 * nb) { memset(pay, c & 1 ? 0xFF : 0, 64); pay[c / 16] ^= (uint8_t)(1u << (c / 2 % 8)); }
    else memset(pay, kConst[c - 2 * nb], 64);
    memcpy(d, pay, m->dlc);
    n_eval++;
    v_tick += 7; v_calls = H0;
    uint32_t r = m->unpack(st, d, (uint8_t)(c % 3 == 0 ? m->dlc - 1 : m->dlc));
    hp = fnv(hp, &r, 4);
    for (int s = 0; s < m->nsig; s++) {
      uint64_t v = m->get(st, s); hs[s] = fnv(hs[s], &v, 8);
      if (m->pget) { char t[64]; int n = snprintf(t, sizeof t, "%.20Lg", m->pget(st, s)); hph[s] = fnv(hph[s], t, n); }
    }
    if (m->mon) { uint32_t q[5]; m->mon(st, q); hm = fnv(hm, q, sizeof q); hm = fnv(hm, &v_calls, 8); }
    // pack the canonical fields: order-independent because every field comes from its own signal
    uint8_t len = 0, ide = 0; uint32_t id = 0;
    memset(d, 0x77, m->dlc);
    r = m->pack(st, d, &len, &ide, &id);
    hp = fnv(hp, d, m->dlc); hp = fnv(hp, &len, 1); hp = fnv(hp, &ide, 1); hp = fnv(hp, &r, 4);
  }
  uint32_t cc[3] = {m->c_id, m->c_ide, m->c_dlc};
  hp = fnv(hp, cc, sizeof cc);
  printf("T %s ^pack %016llx\n", m->name, (unsigned long long)hp);
  if (m->mon) printf("T %s ^mon %016llx\n", m->name, (unsigned long long)hm);
  for (int s = 0; s < m->nsig; s++) printf("T %s %s %016llx %016llx\n", m->name, m->sig[s].name, (unsigned long long)hs[s], (unsigned long long)hph[s]);
}

int main(int argc, char** argv)
{
  const char* mode = argc > 1 ? argv[1] : "decode";
  int exh = argc > 2 ? atoi(argv[2]) : 8;   // exhaust: 1 = every payload of short frames
  page_p = guarded(); page_s = guarded();
  for (int i = 0; i < g_nmsgs; i++) {
    const MD* m = &g_msgs[i];
    if (n_fail > 5) break;
    load(m);
    if (m->c_id != m->id || (int)m->c_ide != m->ide || (int)m->c_dlc != m->dlc) fail(m, "-", "frame constants: id %s, dlc %s%s", u64s(m->c_id), u64s(m->c_dlc), "");
    // a crash is attributed to the frame named last
    static char cur[128]; snprintf(cur, sizeof cur, "AT %s\n", m->name);
    if (write(2, cur, strlen(cur)) < 0) return 3;
    if (!strcmp(mode, "decode")) decode_msg(m, exh);
    else if (!strcmp(mode, "encode")) encode_msg(m, exh);
    else if (!strcmp(mode, "exhaust")) exhaust_msg(m, exh);
    else transcript(m);
  }
  printf("DONE %ld %ld %ld\n", n_eval, n_fail, n_layout);
  return n_fail ? 1 : 0;
}
