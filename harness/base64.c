#include "vf.h"
#include <fingera_libc/base64.h>
/* OP 1 encode + round trip, OP 2 decode of arbitrary text; URL 0/1 alphabet */
struct vf_in { u8 d[NN(MAXL)]; u8 sent[NN(MAXL)]; };
#ifndef TRAIL
#define TRAIL 9
#endif
static u8 ch(int v) {
  if (v < 26) return 'A' + v;
  if (v < 52) return 'a' + v - 26;
  if (v < 62) return '0' + v - 52;
  return v == 62 ? (URL ? '-' : '+') : (URL ? '_' : '/');
}
static int val(u8 c) {
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  if (c == (URL ? '-' : '+')) return 62;
  if (c == (URL ? '_' : '/')) return 63;
  return -1;
}
#if URL
#define ENC fingera_to_base64_urlsafe
#define DEC fingera_from_base64_urlsafe
#define ELEN fingera_to_base64_urlsafe_length
#define DLEN(s, n) fingera_from_base64_urlsafe_length(n)
#else
#define ENC fingera_to_base64
#define DEC fingera_from_base64
#define ELEN fingera_to_base64_length
#define DLEN(s, n) fingera_from_base64_length((const char *)(s), n)
#endif
static u8 fill_txt(size_t i) { return ch((int)(i * 29 + 7) & 63); }
static void one(size_t L) {
#if OP == 1
  u8 *in = vf_mix(I.d, L, vf_fill_bytes), *ref = vf_dup(in, L);
  size_t chars = (8 * L + 5) / 6, total = URL ? chars : (L + 2) / 3 * 4;
  VF_CHECK(ELEN(L) == total, "encode length helper");
  u8 *out = vf_buf(total);
  ENC(in, L, (char *)out);
  for (size_t k = 0; k < total; k++) {
    if (k < chars) {
      size_t bit = 6 * k, j = bit / 8, off = bit % 8;
      unsigned w = (unsigned)ref[j] << 8 | (j + 1 < L ? ref[j + 1] : 0);
      VF_CHECK(out[k] == ch((w >> (10 - off)) & 63), "character");
    } else {
      VF_CHECK(out[k] == '=', "padding");
    }
  }
  VF_CHECK(vf_eq(in, ref, L), "input unchanged");
  VF_CHECK(DLEN(out, total) == L, "decode length helper");
  u8 *back = vf_buf(L);
  VF_CHECK(DEC((char *)out, total, back) == L, "round trip length");
  VF_CHECK(vf_eq(back, ref, L), "round trip");
#else
  u8 *in = vf_mix(I.d, L, fill_txt);
  /* long texts: one query per shape of the end of the text */
  for (size_t k = 1; k <= 2 && TRAIL != 9; k++) in[L - k] = k <= TRAIL ? '=' : 'A';
  u8 *ref = vf_dup(in, L);
  size_t n = L;
#if !URL
  if (n > 0 && ref[n - 1] == '=') {
    n--;
    if (n > 0 && ref[n - 1] == '=') n--;
  }
#endif
  size_t cap = DLEN(in, L);
  size_t want = n / 4 * 3 + (n % 4 == 2 ? 1 : n % 4 == 3 ? 2 : 0);
  VF_CHECK(cap == want, "decode length helper");
  /* any write at or beyond the announced size changes an arbitrary sentinel */
  size_t max = L / 4 * 3 + 2;
  {
    u8 *out = vf_buf(max);
    for (size_t k = 0; k < max; k++) out[k] = vf_sym(k, max) ? I.sent[k] : 0xA5;
    size_t r = DEC((char *)in, L, out);
    size_t m = 0;
    int live = 1;
    for (size_t i = 0; i < L && live; i += 4) {
      if (i >= n) break;
      size_t len = n - i < 4 ? n - i : 4;
      int v[4] = {0, 0, 0, 0};
      for (size_t k = 0; k < 4; k++)
        if (k < len) {
          v[k] = val(ref[i + k]);
          if (v[k] < 0) live = 0;
        }
      if (len == 1) live = 0;
      if (live) {
        unsigned w = (unsigned)v[0] << 18 | (unsigned)v[1] << 12 | (unsigned)v[2] << 6 | (unsigned)v[3];
        VF_CHECK(out[m] == (u8)(w >> 16), "byte 1 of group");
        m++;
        if (len > 2) { VF_CHECK(out[m] == (u8)(w >> 8), "byte 2 of group"); m++; }
        if (len > 3) { VF_CHECK(out[m] == (u8)w, "byte 3 of group"); m++; }
      }
    }
    VF_CHECK(r == m, "number of decoded bytes");
    for (size_t k = 0; k < max; k++)
      if (k >= cap) VF_CHECK(out[k] == (vf_sym(k, max) ? I.sent[k] : 0xA5), "nothing written beyond the announced size");
    VF_CHECK(vf_eq(in, ref, L), "input unchanged");
  }
#endif
}
#define X(l) one(l);
static void vf_main(void) { LENS }
#include "vf_main.c"
