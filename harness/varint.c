#include "vf.h"
#include <fingera_libc/compress_integer.h>
/* OP 1: round trip, OP 2: arbitrary bytes (LENS), OP 3: zigzag, OP 4: zigzag of arbitrary bytes */
#ifndef MAXL
#define MAXL 16
#endif
struct vf_in { u8 d[NN(MAXL)]; u8 sent[16]; u8 v[8], w[8]; };
static u64 ld(const u8 *p) {
  u64 r = 0;
  for (int i = 7; i >= 0; i--) r = r << 8 | p[i];
  return r;
}
/* smallest value with an encoding of k+1 bytes */
static u64 first_of(int k) {
  u64 r = 0;
  for (int i = 0; i < k; i++) r = (r + 1) << 7;
  return r;
}
static size_t spec_len(u64 v) {
  size_t n = 1;
  for (int k = 1; k < 10; k++)
    if (v >= first_of(k)) n = k + 1;
  return n;
}
static size_t enc(u64 v, u8 *out) {
  u8 *b = vf_buf(16);
  vf_cpy(b, I.sent, 16);
  size_t n = fingera_encode_varint(v, b);
  for (size_t i = 0; i < 16; i++)
    if (i >= n) VF_CHECK(b[i] == I.sent[i], "writes only the encoding");
  vf_cpy(out, b, 16);
  return n;
}
static size_t encz(int64_t v, u8 *out) {
  u8 *b = vf_buf(16);
  vf_cpy(b, I.sent, 16);
  size_t n = fingera_encode_zigzag(v, b);
  for (size_t i = 0; i < 16; i++)
    if (i >= n) VF_CHECK(b[i] == I.sent[i], "writes only the encoding");
  vf_cpy(out, b, 16);
  return n;
}
#if OP == 1
static void vf_main(void) {
  u64 v = ld(I.v), w = ld(I.w), x = 0;
  u8 a[16], b[16];
  size_t n = enc(v, a), m = enc(w, b);
  VF_CHECK(n >= 1 && n <= 10, "length 1..10");
  VF_CHECK(n == spec_len(v), "shortest length of the format");
  for (size_t i = 0; i < 10; i++)
    if (i < n) VF_CHECK((a[i] >= 0x80) == (i + 1 < n), "high bit set on all bytes but the last");
  /* followed by arbitrary bytes */
  VF_CHECK(fingera_decode_varint(a, 16, &x) == n && x == v, "decodes to itself, other bytes following");
  /* exactly sized copy */
  for (size_t k = 1; k <= 10; k++)
    if (n == k) {
      u8 *e = vf_dup(a, k);
      x = ~v;
      VF_CHECK(fingera_decode_varint(e, k, &x) == k && x == v, "decodes from an exactly sized buffer");
    }
  if (v < w) VF_CHECK(n <= m, "smaller values are not longer");
  if (v != w) {
    int same = n <= m;
    for (size_t i = 0; i < 10; i++)
      if (i < n && a[i] != b[i]) same = 0;
    VF_CHECK(!same, "no encoding is (a prefix of) another");
  }
}
#elif OP == 2
static void one(size_t L) {
  u8 *in = vf_dup(I.d, L);
  u64 x = 0;
  size_t r = fingera_decode_varint(in, L, &x);
  VF_CHECK(vf_eq(in, I.d, L), "input unchanged");
  /* the specified value, in 128-bit arithmetic */
  unsigned __int128 s = 0;
  size_t n = 0;
  for (size_t i = 0; i < L && i < 10 && !n; i++) {
    s = (s << 7) + (I.d[i] & 0x7F);
    if (I.d[i] & 0x80) s++; else n = i + 1;
  }
  if (n && (s >> 64) == 0) {
    VF_CHECK(r == n, "accepted with the right length");
    VF_CHECK(x == (u64)s, "value");
    u8 e[16];
    size_t m = enc(x, e);
    VF_CHECK(m == n, "canonical length");
    for (size_t i = 0; i < L; i++)
      if (i < n) VF_CHECK(e[i] == I.d[i], "canonical bytes");
  } else {
    VF_CHECK(r == 0, "truncated, too long or too big: rejected");
  }
}
#define X(l) one(l);
static void vf_main(void) { LENS }
#elif OP == 3
static void vf_main(void) {
  int64_t v = (int64_t)ld(I.v), w = (int64_t)ld(I.w), x;
  u8 a[16], b[16];
  size_t n = encz(v, a), m = encz(w, b);
  VF_CHECK(n >= 1 && n <= 10, "length 1..10");
  x = ~v;
  VF_CHECK(fingera_decode_zigzag(a, 16, &x) == n && x == v, "decodes to itself");
  for (size_t k = 1; k <= 10; k++)
    if (n == k) {
      u8 *e = vf_dup(a, k);
      x = ~v;
      VF_CHECK(fingera_decode_zigzag(e, k, &x) == k && x == v, "decodes from an exactly sized buffer");
    }
  if (v >= -63 && v <= 63) VF_CHECK(n == 1, "small magnitudes take one byte");
  if (v != w) {
    int same = n == m;
    for (size_t i = 0; i < 10; i++)
      if (i < n && a[i] != b[i]) same = 0;
    VF_CHECK(!same, "distinct encodings");
  }
}
#else
static void one(size_t L) {
  u8 *in = vf_dup(I.d, L);
  int64_t z = (int64_t)ld(I.v);
  u64 x = 0;
  size_t r = fingera_decode_zigzag(in, L, &z), q = fingera_decode_varint(in, L, &x);
  VF_CHECK(r == q, "zigzag consumes what the varint decoder consumes");
  if (r) {
    u8 e[16];
    size_t m = encz(z, e);
    VF_CHECK(m == r, "re-encodes to the same length");
    for (size_t i = 0; i < L; i++)
      if (i < r) VF_CHECK(e[i] == I.d[i], "re-encodes to the same bytes");
  }
}
#define X(l) one(l);
static void vf_main(void) { LENS }
#endif
#include "vf_main.c"
