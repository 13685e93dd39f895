#include "vf.h"
#include <fingera_libc/base32.h>
/* OP 1 encode + round trip, OP 2 decode of arbitrary input; RAW 0/1 */
struct vf_in { u8 d[NN(MAXL)]; u8 sent[NN(MAXL)]; };
#ifndef TRAIL
#define TRAIL 99
#endif
static u8 ch(int v, int up) {
#if RAW
  return v;
#else
  return v < 26 ? (up ? 'A' : 'a') + v : '2' + v - 26;
#endif
}
static int val(u8 c) {
#if RAW
  return c < 32 ? c : -1;
#else
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a';
  if (c >= '2' && c <= '7') return c - '2' + 26;
  return -1;
#endif
}
#if RAW
#define DEC(s, n, o) fingera_from_base32_raw(s, n, o)
#define DLEN(s, n) fingera_from_base32_raw_length(n)
#else
#define DEC(s, n, o) fingera_from_base32((const char *)(s), n, o)
#define DLEN(s, n) fingera_from_base32_length((const char *)(s), n)
#endif
static const u8 tailb[8] = {0, 0, 1, 0, 2, 3, 0, 4};
static u8 fill_txt(size_t i) { return ch((int)(i * 13 + 7) & 31, i & 1); }
static void one(size_t L) {
#if OP == 1
  u8 *in = vf_mix(I.d, L, vf_fill_bytes), *ref = vf_dup(in, L);
  size_t chars = (8 * L + 4) / 5, total = RAW ? chars : (L + 4) / 5 * 8;
  VF_CHECK(fingera_to_base32_length(L) == (L + 4) / 5 * 8, "encode length helper");
  u8 *out = vf_buf(total);
#if RAW
  VF_CHECK(fingera_to_base32_raw(in, L, out) == chars, "number of groups");
#else
  fingera_to_base32(in, L, (char *)out);
#endif
  u8 *upper = vf_buf(total);
  for (size_t k = 0; k < total; k++) {
    if (k < chars) {
      size_t bit = 5 * k, j = bit / 8, off = bit % 8;
      unsigned w = (unsigned)ref[j] << 8 | (j + 1 < L ? ref[j + 1] : 0);
      VF_CHECK(out[k] == ch((w >> (11 - off)) & 31, 0), "character");
      upper[k] = ch((w >> (11 - off)) & 31, 1);
    } else {
      VF_CHECK(out[k] == '=', "padding");
      upper[k] = '=';
    }
  }
  VF_CHECK(vf_eq(in, ref, L), "input unchanged");
  VF_CHECK(DLEN(out, total) == L, "decode length helper");
  u8 *back = vf_buf(L);
  VF_CHECK(DEC(out, total, back) == L, "round trip length");
  VF_CHECK(vf_eq(back, ref, L), "round trip");
#if !RAW
  u8 *back2 = vf_buf(L);
  VF_CHECK(DEC(upper, total, back2) == L, "upper case length");
  VF_CHECK(vf_eq(back2, ref, L), "upper case");
#endif
#else
  u8 *in = vf_mix(I.d, L, fill_txt);
  u8 *ref = vf_dup(in, L);
  size_t n = L;
#if !RAW
  for (size_t i = L; i > 0; i--)
    if (ref[i - 1] == '=') n = i - 1;
#endif
  size_t cap = DLEN(in, L);
  VF_CHECK(cap == n / 8 * 5 + tailb[n % 8], "decode length helper");
  size_t max = L / 8 * 5 + 4;
  {
    u8 *out = vf_buf(max);
    for (size_t k = 0; k < max; k++) out[k] = vf_sym(k, max) ? I.sent[k] : 0xA5;
    size_t r = DEC(in, L, out);
    size_t m = 0;
    int live = 1;
    for (size_t i = 0; i < L && live; i += 8) {
      if (i >= n) break;
      size_t len = n - i < 8 ? n - i : 8;
      u64 w = 0;
      size_t nb = len == 8 ? 5 : tailb[len];
      if (nb == 0) break; /* 1, 3 or 6 left-over characters denote nothing */
      for (size_t k = 0; k < 8; k++) {
        int v = k < len ? val(ref[i + k]) : 0;
        if (v < 0) live = 0;
        w = w << 5 | (u64)(v & 31);
      }
      if (live)
        for (size_t k = 0; k < 5; k++)
          if (k < nb) { VF_CHECK(out[m] == (u8)(w >> (32 - 8 * k)), "byte of group"); m++; }
    }
    VF_CHECK(r == m, "number of decoded bytes");
    for (size_t k = 0; k < max; k++)
      if (k >= cap) VF_CHECK(out[k] == (vf_sym(k, max) ? I.sent[k] : 0xA5), "nothing written beyond the announced size");
    VF_CHECK(vf_eq(in, ref, L), "input unchanged");
  }
#endif
}
#define X(l) one(l);
static void vf_main(void) { LENS }
#include "vf_main.c"
