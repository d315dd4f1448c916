// Checksums: every call of the user's hash is recorded and its result chosen by the engine. The checksum is the signal CS; a frame with a
// signal CX instead has a marked signal that cannot be a checksum. Method and option follow from the frame's id (see c14.py).
#define main engine_main
#include "engine.c"
#undef main
static const MD* M; static int cs;
static uint8_t seen[64]; static int s_len, s_method, s_op, s_calls; static uint32_t s_id;
static uint32_t v_ret; static int v_real;
static const int OPS[7] = {3, 0, 255, 1, 65535, 12, 7};
static uint32_t real_hash(const uint8_t* d, int n)      // ignores the bits of the checksum
{
  uint8_t t[64]; memcpy(t, d, (size_t)n); if (cs >= 0) ref_put(&M->sig[cs], t, 0);
  uint32_t h = 7; for (int i = 0; i < n; i++) h = (h * 31u + t[i]) ^ (h >> 9);
  return cs >= 0 ? (h ^ h >> 8 ^ h >> 16) & ((1u << M->sig[cs].len) - 1) & 0xFF : h & 0xFF;
}
uint32_t v_hashcall(const uint8_t* d, int n, uint32_t id, int method, int op)
{
  s_calls++; s_len = n; s_id = id; s_method = method; s_op = op; memset(seen, 0, 64);
  for (int i = 0; i < n && i < 64; i++) seen[i] = d[i];
  return v_real ? real_hash(d, n) : v_ret;
}
static uint8_t st[8192], buf[64];
static char ctx[80];
static int args_ok(const char* where)
{
  if (s_calls != 1) { fail(M, "CS", "%s calls the hash %s times%s", where, u64s((uint64_t)s_calls), ""); return 0; }
  if (s_len != M->dlc) { fail(M, "CS", "%s hashes %s bytes%s", where, u64s((uint64_t)s_len), ""); return 0; }
  if (s_id != M->id) { fail(M, "CS", "%s passes the id %s%s", where, u64s(s_id), ""); return 0; }
  if (s_method != 10 + (int)(M->id % 4)) { fail(M, "CS", "%s passes the method %s%s", where, u64s((uint64_t)s_method), ""); return 0; }
  if (s_op != OPS[M->id % 7]) { fail(M, "CS", "%s passes the option %s%s", where, u64s((uint64_t)s_op), ""); return 0; }
  return 1;
}
static int do_pack(void) { uint8_t l, i; uint32_t id; memset(buf, 0xC3, 64); s_calls = 0; M->pack(st, buf, &l, &i, &id); n_eval++; return l == M->dlc && M->id == (M->pack ? M->id : 0); }
static int csm_error(const uint8_t* d, int len) { uint32_t q[5]; s_calls = 0; M->unpack(st, d, (uint8_t)len); n_eval++; M->mon(st, q); return (int)q[4]; }
static void fields(int k)
{
  memset(st, k == 1 ? 0xFF : 0, M->size);
  for (int s = 0; s < M->nsig; s++) M->set(st, s, k == 0 ? 0 : k == 1 ? ~0ull : 0x9E3779B97F4A7C15ull * (unsigned)(s + 3 * k));
}
int main(void)
{
  page_p = guarded(); page_s = guarded();
  for (int k = 0; k < g_nmsgs; k++) {
    M = &g_msgs[k]; load(M); n_fail = 0; n_layout++; cs = -1; v_real = 0;
    int cx = -1;
    for (int s = 0; s < M->nsig; s++) { if (!strcmp(M->sig[s].name, "CS")) cs = s; if (!strcmp(M->sig[s].name, "CX")) cx = s; }
    if (cs < 0) {      // a marked signal that cannot be a checksum stays an ordinary signal
      v_ret = 0x5A;
      for (int f = 0; f < 6 && !n_fail; f++) {
        fields(f); uint64_t want = M->get(st, cx); do_pack(); uint8_t t[64]; memset(t, 0, 64); ref_put(&M->sig[cx], t, want);
        if (s_calls) fail(M, "CX", "the hash is called for a signal that cannot be a checksum%s%s%s", "", "", "");
        else if (ref_get(&M->sig[cx], buf) != ref_get(&M->sig[cx], t)) fail(M, "CX", "packs to %s instead of %s%s", u64s(ref_get(&M->sig[cx], buf)), u64s(ref_get(&M->sig[cx], t)), "");
        else if (M->mon && (csm_error(buf, M->dlc), s_calls)) fail(M, "CX", "unpack calls the hash for a signal that cannot be a checksum%s%s%s", "", "", "");
      }
      continue;
    }
    uint64_t lim = 1ull << M->sig[cs].len;
    for (int f = 0; f < 4 && !n_fail; f++) for (unsigned ret = 0; ret < 256 && !n_fail; ret++) {
      fields(f); v_ret = f == 3 ? ret | 0xABC00u : ret;
      if (!do_pack()) { fail(M, "CS", "pack reports another length%s%s%s", "", "", ""); break; }
      if (!args_ok("pack")) break;
      if (ref_get(&M->sig[cs], buf) != (ret & (lim - 1))) { fail(M, "CS", "the hash value %s is stored as %s%s", u64s(ret), u64s(ref_get(&M->sig[cs], buf)), ""); break; }
      if (ref_get(&M->sig[cs], seen)) { fail(M, "CS", "the checksum bits are not zero when pack computes the hash: %s%s%s", hex(seen, M->dlc), "", ""); break; }
      uint8_t t[64]; memcpy(t, buf, 64); ref_put(&M->sig[cs], t, 0);
      if (memcmp(t, seen, (size_t)M->dlc)) { fail(M, "CS", "the hashed payload %s differs from the sent one %s%s", hex(seen, M->dlc), hex(buf, M->dlc), ""); break; }
      for (int s = 0; s < M->nsig; s++) if (s != cs) { uint8_t u[64]; memset(u, 0, 64); ref_put(&M->sig[s], u, M->get(st, s)); if (ref_get(&M->sig[s], u) != ref_get(&M->sig[s], buf)) { fail(M, M->sig[s].name, "the checksum spoils this signal: %s%s%s", hex(buf, M->dlc), "", ""); break; } }
    }
    if (!M->mon) continue;
    v_real = 0;
    for (unsigned rec = 0; rec < lim && !n_fail; rec++) for (unsigned ret = 0; ret < lim && !n_fail; ret++) {
      if (lim > 16 && ret != rec && (ret ^ rec) & ((ret ^ rec) - 1) && ret % 17 && rec % 19) continue;     // all equal pairs, all one-bit differences, a grid of others
      for (int i = 0; i < 64; i++) buf[i] = (uint8_t)(rec & 1 ? 0xFF - i : i * 73 + ret);
      ref_put(&M->sig[cs], buf, rec); v_ret = ret; memset(st, ret & 1 ? 0xFF : 0, M->size);
      int e = csm_error(buf, M->dlc);
      if (!args_ok("unpack")) break;
      if (memcmp(seen, buf, (size_t)M->dlc)) { fail(M, "CS", "unpack hashes %s instead of the received payload %s%s", hex(seen, M->dlc), hex(buf, M->dlc), ""); break; }
      if (e != (rec != ret)) { fail(M, "CS", "csm_error is %s for the received checksum %s and the computed %s", e ? "set" : "clear", u64s(rec), u64s(ret)); break; }
    }
    // end to end: every single (and in short frames every double) bit error
    v_real = 1;
    for (int f = 0; f < 3 && !n_fail; f++) {
      fields(f); do_pack();
      uint8_t good[64]; memcpy(good, buf, 64);
      if (csm_error(buf, M->dlc)) { fail(M, "CS", "csm_error is set for an undisturbed frame %s%s%s", hex(buf, M->dlc), "", ""); break; }
      for (int a = 0; a < M->dlc * 8 && !n_fail; a++) for (int b = a; b < (M->dlc <= 3 ? M->dlc * 8 : a + 1) && !n_fail; b++) {
        memcpy(buf, good, 64); buf[a >> 3] ^= (uint8_t)(1 << (a & 7)); if (b != a) buf[b >> 3] ^= (uint8_t)(1 << (b & 7));
        int e = csm_error(buf, M->dlc), w = real_hash(buf, M->dlc) != ref_get(&M->sig[cs], buf);
        if (e != w) fail(M, "CS", "csm_error is %s for %s, sent as %s", e ? "set" : "clear", hex(buf, M->dlc), hex(good, M->dlc));
        if (w && csm_error(good, M->dlc)) fail(M, "CS", "csm_error stays set for the next undisturbed frame%s%s%s", "", "", "");
      }
    }
  }
  printf("DONE %ld 0 %ld\n", n_eval, n_layout);
  return 0;
}
