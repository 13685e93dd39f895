#include "vf.h"
#include <fingera_libc/btc/base58_check.h>
/* base58check on top of an arbitrary base58 codec and an arbitrary hash.
 * OP 1: encoding, X(payload, prefix); OP 2: decoding, X(text length) */
#ifndef ORA_MSG
#define ORA_MSG MAXL
#endif
struct vf_in;
#ifndef PMAX
#define PMAX 16
#endif
#define TXT (MAXL * 2 + 8)
struct vf_in { u8 d[NN(MAXL)]; u8 p[PMAX]; u8 txt[TXT]; u8 len[2]; u8 dig[4][32]; };
#include "oracle.h"
static const u8 *want; static size_t want_n, b58_calls, got_n;
static const char *given_str;
size_t vf_to_b58(const void *buf, size_t n, char *out) {
  b58_calls++;
  VF_CHECK(n == want_n, "prefix, payload and 4 checksum bytes are encoded");
  VF_CHECK(n == want_n && vf_eq(buf, want, n), "data: prefix, payload, first 4 bytes of the double hash");
  size_t r = ((size_t)I.len[0] << 8 | I.len[1]);
  VF_ASSUME(r >= 1 && r <= fingera_to_base58_length(want_n));
  for (size_t i = 0; i < fingera_to_base58_length(want_n); i++)
    if (i < r) out[i] = I.txt[i];
  return r;
}
size_t vf_from_b58(const char *str, size_t n, void *buf) {
  b58_calls++;
  VF_CHECK(str == given_str && n == want_n, "the whole text is decoded");
  for (size_t i = 0; i < want_n; i++)
    if (i < got_n) ((u8 *)buf)[i] = I.d[i];
  return got_n;
}
static void enc(size_t P, size_t Q) {
  u8 *in = vf_dup(I.d, P), *pre = vf_dup(I.p, Q), h[32];
  u8 *w = vf_buf(P + Q + 4);
  vf_cpy(w, I.p, Q); vf_cpy(w + Q, I.d, P);
  ora_n = 0;
  spec_hash256(w, P + Q, h);
  vf_cpy(w + P + Q, h, 4);
  want = w; want_n = P + Q + 4; b58_calls = 0;
  size_t cap = fingera_to_base58_check_length(P, Q);
  VF_CHECK(cap >= fingera_to_base58_length(want_n), "announced length");
  u8 *out = vf_buf(cap);
  size_t r = fingera_to_base58_check(in, P, pre, Q, (char *)out);
  VF_CHECK(b58_calls == 1, "encoded once");
  VF_CHECK(r == ((size_t)I.len[0] << 8 | I.len[1]), "returns the length of the text");
  for (size_t i = 0; i < cap; i++)
    if (i < r) VF_CHECK(out[i] == I.txt[i], "the text");
  VF_CHECK(vf_eq(in, I.d, P) && vf_eq(pre, I.p, Q), "inputs unchanged");
  VF_CHECK(live_blocks == 0, "no leak");
}
static void dec(size_t L) {
  u8 *s = vf_dup(I.txt, L), h[32];
  given_str = (const char *)s; want_n = L; b58_calls = 0;
  got_n = (size_t)I.len[0] << 8 | I.len[1];
  VF_ASSUME(got_n <= L);
  size_t cap = fingera_from_base58_check_length(L);
  VF_CHECK(cap >= fingera_from_base58_length(L), "announced length");
  u8 *out = vf_buf(cap);
  ora_n = 0;
  int ok = got_n >= 4;
  spec_hash256(I.d, ok ? got_n - 4 : 0, h);
  size_t r = fingera_from_base58_check((const char *)s, L, out);
  if (ok) {
    for (size_t i = 0; i < 4; i++)
      if (I.d[got_n - 4 + i] != h[i]) ok = 0;
  }
  VF_CHECK(r == (ok ? got_n - 4 : 0), "accepted iff the checksum matches");
  if (ok)
    for (size_t i = 0; i < L; i++)
      if (i + 4 < got_n) VF_CHECK(out[i] == I.d[i], "prefix and payload");
  VF_CHECK(vf_eq(s, I.txt, L), "text unchanged");
  VF_CHECK(live_blocks == 0, "no leak");
}
#if OP == 1
#define X(p, q) enc(p, q);
#else
#define X(l) dec(l);
#endif
static void vf_main(void) { LENS }
#include "vf_main.c"
