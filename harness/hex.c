#include "vf.h"
#include <fingera_libc/hex.h>
/* OP 1: encode + round trip of L arbitrary bytes; OP 2: decode of L arbitrary chars */
struct vf_in { u8 d[NN(MAXL)]; u8 up; };
static int hv(u8 c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
static u8 hd(int v, int up) { return v < 10 ? '0' + v : (up ? 'A' : 'a') + v - 10; }
static u8 fill_txt(size_t i) { return "0123456789abcdefABCDEF"[i % 22]; }
static void one(size_t L) {
#if OP == 1
  u8 *in = vf_mix(I.d, L, vf_fill_bytes), *ref = vf_dup(in, L);
  VF_CHECK(fingera_to_hex_length(L) == 2 * (size_t)L, "encode length helper");
  u8 *out = vf_buf(2 * L);
  fingera_to_hex(in, L, (char *)out, I.up);
  for (size_t i = 0; i < L; i++) {
    VF_CHECK(out[2 * i] == hd(ref[i] >> 4, I.up), "high digit");
    VF_CHECK(out[2 * i + 1] == hd(ref[i] & 15, I.up), "low digit");
  }
  VF_CHECK(vf_eq(in, ref, L), "input unchanged");
  VF_CHECK(fingera_from_hex_length(2 * L) >= L, "decode length helper");
  u8 *back = vf_buf(L);
  VF_CHECK(fingera_from_hex((char *)out, 2 * L, back) == L, "round trip length");
  VF_CHECK(vf_eq(back, ref, L), "round trip");
#else
  u8 *in = vf_mix(I.d, L, fill_txt), *ref = vf_dup(in, L);
  size_t cap = fingera_from_hex_length(L);
  VF_CHECK(cap >= L / 2 && cap <= (L + 1) / 2, "decode length helper");
  u8 *out = vf_buf(cap);
  size_t n = fingera_from_hex((char *)in, L, out);
  size_t m = 0;
  int live = 1;
  for (size_t i = 0; i + 1 < L; i += 2) {
    int h = hv(ref[i]), l = hv(ref[i + 1]);
    if (h < 0 || l < 0) live = 0;
    if (live) {
      VF_CHECK(out[i / 2] == ((h << 4) | l), "decoded byte");
      m = i / 2 + 1;
    }
  }
  VF_CHECK(n == m, "number of decoded bytes");
  VF_CHECK(vf_eq(in, ref, L), "input unchanged");
#endif
}
#define X(l) one(l);
static void vf_main(void) { LENS }
#include "vf_main.c"
