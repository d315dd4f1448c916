// C04: raw <-> physical conversions of one generated driver against exact arithmetic.
#include "engine_phys.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
static long n_eval, n_fail, n_sig;
static const char* i128(__int128 v)
{
  static char b[4][50]; static int w; char t[50], *o = b[w = (w + 1) & 3]; int n = 0, neg = v < 0;
  unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  do t[n++] = '0' + (int)(u % 10); while (u /= 10);
  char* p = o; if (neg) *p++ = '-';
  while (n) *p++ = t[--n];
  *p = 0;
  return o;
}
static void put(uint8_t* d, const PS* s, uint64_t v)
{
  for (int k = 0; k < s->len; k++) { int b = s->start + k; if (v >> k & 1) d[b >> 3] |= 1u << (b & 7); else d[b >> 3] &= ~(1u << (b & 7)); }
}
static uint64_t take(const uint8_t* d, const PS* s)
{
  uint64_t v = 0;
  for (int k = 0; k < s->len; k++) { int b = s->start + k; if (d[b >> 3] >> (b & 7) & 1) v |= 1ull << k; }
  if (s->sgn && s->len < 64 && (v >> (s->len - 1) & 1)) v |= ~0ull << s->len;
  return v;
}
static __int128 wide(const PS* s, uint64_t v) { return s->sgn ? (__int128)(int64_t)v : (__int128)v; }
static int bad(const PM* m, const PS* s, __int128 raw, const char* what, const char* got)
{
  if (n_fail++ < 6) { printf("FAIL %s %s raw %s: %s %s\n", m->name, s->name, i128(raw), what, got); fflush(stdout); }
  return 1;
}
static char buf[64];
static const char* ld(long double v) { snprintf(buf, sizeof buf, "%.21Lg", v); return buf; }
static int one(const PM* m, int si, uint64_t v, int bg)
{
  const PS* s = &m->sig[si];
  uint8_t pay[8], out[8];
  static uint8_t st[4096] __attribute__((aligned(16)));
  memset(pay, bg, 8);
  put(pay, s, v);
  v = take(pay, s);
  __int128 raw = wide(s, v);
  memset(st, 0x5A, sizeof st);
  n_eval++;
  m->unpack(st, pay, 8);
  if (m->get(st, si) != v) return bad(m, s, raw, "raw field differs", i128((__int128)m->get(st, si)));
  if (s->kind == 0) return 0;
  if (s->kind == 1) {
    __int128 want = raw * s->f + s->o, got = m->pi_get(st, si);
    if (want != got) return bad(m, s, raw, "physical value is", i128(got));
    // pack it back: every field gets its own physical value, raw fields hold garbage
    m->pack(st, out);
    if (memcmp(out, pay, 8)) {
      for (int k = 0; k < m->nsig; k++)
        if (m->sig[k].kind != 2 && take(out, &m->sig[k]) != take(pay, &m->sig[k])) return bad(m, &m->sig[k], wide(&m->sig[k], take(pay, &m->sig[k])), "packing the unpacked frame gives raw", i128(wide(&m->sig[k], take(out, &m->sig[k]))));
    }
    m->set(st, si, ~v);
    m->pi_set(st, si, want);
    m->pack(st, out);
    if (take(out, s) != v) return bad(m, s, raw, "packing its physical value gives raw", i128(wide(s, take(out, s))));
    if (m->get(st, si) != v) return bad(m, s, raw, "packing leaves the raw field at", i128(wide(s, m->get(st, si))));
    return 0;
  }
  __float128 f = s->fd, o = s->od, want = (__float128)raw * f + o;
  long double got = m->pd_get(st, si);
  __float128 mag = (raw < 0 ? -(__float128)raw : (__float128)raw) * (f < 0 ? -f : f) + (o < 0 ? -o : o);
  __float128 err = (__float128)got - want; if (err < 0) err = -err;
  if (!(err <= mag * (__float128)s->eps)) return bad(m, s, raw, "physical value is", ld(got));
  __int128 lim = (__int128)1 << s->bits;
  if (raw > lim || raw < -lim) return 0;
  __float128 af = f < 0 ? -f : f, slack = mag / af * (__float128)s->eps * 4, tol = 1 + slack;
  if (slack > 0.25Q) return 0;
  for (int q = 0; q < 4; q++) {
    // a quarter step away, staying inside the signal's range
    __int128 top = s->sgn ? ((__int128)1 << (s->len - 1)) - 1 : ((__int128)1 << s->len) - 1;
    if (q && raw >= top) break;
    __float128 pos = (__float128)raw + (__float128)q / 4;
    double x = (double)(pos * f + o);
    m->set(st, si, ~v);
    m->pd_set(st, si, q ? x : (double)got);
    n_eval++;
    m->pack(st, out);
    __int128 back = wide(s, take(out, s));
    __float128 e = (__float128)back - pos; if (e < 0) e = -e;
    if (!(e <= tol)) return bad(m, s, raw, "packing its physical value gives raw", i128(back));
    if (wide(s, m->get(st, si)) != back) return bad(m, s, raw, "packing leaves the raw field at", i128(wide(s, m->get(st, si))));
  }
  return 0;
}
int main(int argc, char** argv)
{
  int exh = argc > 1 ? atoi(argv[1]) : 8;
  for (int i = 0; i < g_npm && n_fail < 6; i++)
    for (int s = 0; s < g_pm[i].nsig; s++) {
      const PM* m = &g_pm[i]; const PS* g = &m->sig[s];
      int stop = 0;
      n_sig++;
      uint64_t mask = g->len == 64 ? ~0ull : (1ull << g->len) - 1;
      if (g->len <= exh) { for (uint64_t v = 0; v <= mask && !stop; v++) stop = one(m, s, v, v & 1 ? 0xFF : 0); continue; }
      for (int k = 0; k < g->len && !stop; k++)
        for (int d = -2; d <= 2 && !stop; d++) {
          stop = one(m, s, ((1ull << k) + d) & mask, 0) || one(m, s, (~(1ull << k) + d) & mask, 0xFF);
        }
      for (int d = -3; d <= 3 && !stop; d++) stop = one(m, s, (uint64_t)d & mask, 0x5A);
      for (int d = 1; d < 40 && !stop; d++) stop = one(m, s, (d * 0x9E3779B97F4A7C15ull >> (64 - g->len)) & mask, 0x0F);
    }
  printf("DONE %ld %ld %ld\n", n_eval, n_fail, n_sig);
  return n_fail != 0;
}
