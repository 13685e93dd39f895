#include "vf.h"
#include <fingera_libc/hex.h>
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
/* the announced sizes, for every size n = D*q + r below 2^BITS */
struct vf_in { u64 q, m; u8 r, t[7]; };
static void vf_main(void) {
  u64 q = I.q, r = I.r, m = I.m, n;
  VF_ASSUME(q <= ((u64)1 << BITS) && m <= ((u64)1 << BITS));
#if OP == 1 /* hex */
  n = q;
  VF_CHECK(fingera_to_hex_length(n) == 2 * n, "hex encode length");
  VF_CHECK(fingera_from_hex_length(2 * n) >= n && fingera_from_hex_length(2 * n) <= n + 1, "hex decode length, even text");
  VF_CHECK(fingera_from_hex_length(2 * n + 1) >= n && fingera_from_hex_length(2 * n + 1) <= n + 1, "hex decode length, odd text");
#elif OP == 2 /* base64 encode */
  VF_ASSUME(r < 3);
  n = 3 * q + r;
  VF_CHECK(fingera_to_base64_length(n) == 4 * (q + (r > 0)), "base64 encode length");
  VF_CHECK(fingera_to_base64_urlsafe_length(n) == 4 * q + (r ? r + 1 : 0), "base64url encode length");
#elif OP == 3 /* base64 decode */
  VF_ASSUME(r < 4);
  n = 4 * q + r;
  VF_CHECK(fingera_from_base64_urlsafe_length(n) == 3 * q + (r > 1 ? r - 1 : 0), "base64url decode length");
#elif OP == 4 /* base32 encode */
  VF_ASSUME(r < 5);
  n = 5 * q + r;
  VF_CHECK(fingera_to_base32_length(n) == 8 * (q + (r > 0)), "base32 encode length");
#elif OP == 5 /* base32 decode, raw form */
  VF_ASSUME(r < 8);
  n = 8 * q + r;
  u64 l = fingera_from_base32_raw_length(n); /* 1, 3 or 6 left-over values encode nothing */
  if (r == 1 || r == 3 || r == 6) VF_CHECK(l >= 5 * q && l <= 5 * q + r * 5 / 8, "raw base32 decode length, impossible size");
  else VF_CHECK(l == 5 * q + r * 5 / 8, "raw base32 decode length");
#elif OP == 6 /* base58: at least ceil(n log 256 / log 58) */
  n = q;
  VF_CHECK((unsigned __int128)fingera_to_base58_length(n) * 100000000u > (unsigned __int128)n * 136565824u, "base58 encode length");
  VF_CHECK(fingera_from_base58_length(n) >= n, "base58 decode length");
  VF_CHECK(fingera_from_base58_check_length(n) >= n, "base58check decode length");
#elif OP == 7
  n = q;
  u64 p = r % 79;
  VF_CHECK((unsigned __int128)fingera_to_base58_check_length(n, p) * 100000000u > (unsigned __int128)(n + p + 4) * 136565824u, "base58check encode length");
#elif OP == 8
  VF_CHECK(fingera_bech32_encode_length(q, m) == q + m + 7, "bech32 length");
#endif
}
#include "vf_main.c"
