#include "vf.h"
#include <fingera_libc/base58.h>
/* OP 1: encode + round trip, X(number of bytes, leading zeros)
 * OP 2: decode of arbitrary text, X(characters, leading '1's) */
struct vf_in { u8 d[NN(MAXL)]; u8 sent[64]; };
#define ORA_N 1
#define NO_ORACLE
static size_t live_blocks;
void *vf_malloc(size_t n) { live_blocks++; return malloc(n); }
void vf_free(void *p) { if (p) live_blocks--; free(p); }
static const char AL[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static int val(u8 c) { /* by ranges, independent of any table */
  if (c >= '1' && c <= '9') return c - '1';
  if (c >= 'A' && c <= 'H') return c - 'A' + 9;
  if (c >= 'J' && c <= 'N') return c - 'J' + 17;
  if (c >= 'P' && c <= 'Z') return c - 'P' + 22;
  if (c >= 'a' && c <= 'k') return c - 'a' + 33;
  if (c >= 'm' && c <= 'z') return c - 'm' + 44;
  return -1;
}
static int space(u8 c) { return c == ' ' || (c >= 9 && c <= 13); }
/* wide unsigned numbers, wide enough for everything in this query */
#ifdef __CPROVER
typedef unsigned __CPROVER_bitvector[WIDE] wide;
#else
typedef unsigned _BitInt(WIDE) wide;
#endif
static u8 fill_enc(size_t i) { return FILL; }
static u8 fill_dec(size_t i) { return (u8)AL[(FILL) % 58]; }
#if OP == 1
static void one(size_t L, size_t Z) {
  u8 *in = vf_buf(L);
  for (size_t i = 0; i < L; i++) in[i] = i < Z ? 0 : i + SYM >= L || (i - Z) < SYMF ? I.d[i] : fill_enc(i);
  u8 *ref = vf_dup(in, L);
  size_t cap = fingera_to_base58_length(L);
  u8 *out = vf_buf(cap + 8);
  for (size_t k = 0; k < cap + 8; k++) out[k] = I.sent[k & 63];
  size_t r = fingera_to_base58(in, L, (char *)out);
  VF_CHECK(r <= cap, "fits the announced size");
  for (size_t k = 0; k < cap + 8; k++)
    if (k >= r) VF_CHECK(out[k] == I.sent[k & 63], "writes only the returned number of characters");
  VF_CHECK(live_blocks == 0, "no leak");
  VF_CHECK(vf_eq(in, ref, L), "input unchanged");
  size_t z = 0;
  while (z < L && ref[z] == 0) z++;
  wide n = 0, m = 0;
  for (size_t i = 0; i < L; i++) n = (wide)(n << 8) | ref[i];
  VF_CHECK(r >= z, "one '1' per zero byte");
  for (size_t k = 0; k < cap; k++)
    if (k < r) {
      int v = val(out[k]);
      VF_CHECK(v >= 0, "base-58 character");
      if (k < z) VF_CHECK(v == 0, "one '1' per zero byte");
      if (k == z) VF_CHECK(v != 0, "minimal");
      m = m * 58 + (unsigned)v;
    }
  VF_CHECK(m == n, "the number");
#ifndef NODEC
  /* the text in a block of its exact size */
  for (size_t c = 0; c <= cap; c++)
    if (c == r && c + 2 + L / 8 >= cap - (L ? 0 : 1)) {
      u8 *txt = vf_dup(out, c);
      u8 *back = vf_buf(fingera_from_base58_length(c));
      VF_CHECK(fingera_from_base58((char *)txt, c, back) == L, "round trip length");
      VF_CHECK(vf_eq(back, ref, L), "round trip");
      VF_CHECK(live_blocks == 0, "no leak");
    }
#endif
}
#else
static void one(size_t L, size_t Z) {
  u8 *in = vf_buf(L);
  for (size_t i = 0; i < L; i++) in[i] = i < Z ? '1' : i + SYM >= L || (i - Z) < SYMF ? I.d[i] : fill_dec(i);
  u8 *ref = vf_dup(in, L);
  size_t cap = fingera_from_base58_length(L);
  u8 *out = vf_buf(cap + 8);
  for (size_t k = 0; k < cap + 8; k++) out[k] = I.sent[k & 63];
  size_t r = fingera_from_base58((char *)in, L, out);
  VF_CHECK(vf_eq(in, ref, L), "text unchanged");
  VF_CHECK(live_blocks == 0, "no leak");
  for (size_t k = cap; k < cap + 8; k++) VF_CHECK(out[k] == I.sent[k & 63], "fits the announced size");
  /* grammar: space* base58* space* (end | NUL anything) */
  int st = 0, ok = 1;
  size_t z = 0, lead = 1;
  wide n = 0;
  for (size_t i = 0; i < L; i++) {
    u8 c = ref[i];
    if (st == 3) continue;
    if (c == 0) { st = 3; continue; }
    if (space(c)) { if (st == 1) st = 2; continue; }
    if (st == 2) { ok = 0; continue; }
    st = 1;
    int v = val(c);
    if (v < 0) { ok = 0; continue; }
    if (lead && v == 0) z++; else lead = 0;
    n = n * 58 + (unsigned)v;
  }
  if (!ok) { VF_CHECK(r == 0, "rejected"); return; }
  VF_CHECK(r >= z && r <= L, "one zero byte per leading '1'");
  wide m = 0;
  for (size_t k = 0; k < cap; k++)
    if (k < r) {
      if (k < z) VF_CHECK(out[k] == 0, "one zero byte per leading '1'");
      if (k == z) VF_CHECK(out[k] != 0, "minimal");
      m = (wide)(m << 8) | out[k];
    } else VF_CHECK(out[k] == I.sent[k & 63], "writes only the returned number of bytes");
  VF_CHECK(m == n, "the number");
}
#endif
#define X(l, z) one(l, z);
static void vf_main(void) { LENS }
#include "vf_main.c"
