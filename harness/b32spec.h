/* BIP173 from its text */
#ifndef B32SPEC_H
#define B32SPEC_H
static const char spec_set[33] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static u32 spec_step(u32 c, u32 v) {
  u32 b = c >> 25;
  c = (c & 0x1ffffff) << 5 ^ v;
  if (b & 1) c ^= 0x3b6a57b2;
  if (b & 2) c ^= 0x26508e6d;
  if (b & 4) c ^= 0x1ea119fa;
  if (b & 8) c ^= 0x3d4233dd;
  if (b & 16) c ^= 0x2a1462b3;
  return c;
}
static int spec_val(u8 c) {
  int r = -1;
  if (c >= 'A' && c <= 'Z') c = c - 'A' + 'a';
  for (int i = 0; i < 32; i++)
    if ((u8)spec_set[i] == c) r = i;
  return r;
}
static u8 spec_chr(u8 v) {
  u8 r = 0;
  for (int i = 0; i < 32; i++)
    if (i == v) r = (u8)spec_set[i];
  return r;
}
/* the text for h[0..H) and v[0..N) */
static void spec_bech32(const u8 *h, size_t H, const u8 *v, size_t N, u8 *out) {
  u32 c = 1;
  for (size_t i = 0; i < H; i++) c = spec_step(c, h[i] >> 5);
  c = spec_step(c, 0);
  for (size_t i = 0; i < H; i++) c = spec_step(c, h[i] & 31);
  for (size_t i = 0; i < N; i++) c = spec_step(c, v[i]);
  for (int i = 0; i < 6; i++) c = spec_step(c, 0);
  c ^= 1;
  for (size_t i = 0; i < H; i++) out[i] = h[i];
  out[H] = '1';
  for (size_t i = 0; i < N; i++) out[H + 1 + i] = spec_chr(v[i]);
  for (int i = 0; i < 6; i++) out[H + 1 + N + i] = spec_chr(c >> (5 * (5 - i)) & 31);
}
/* position of the separator (0: not a valid string); lower case text in low */
static size_t spec_valid(const u8 *s, size_t L, u8 *low) {
  int up = 0, lo = 0, ok = L <= 90;
  size_t p = 0;
  for (size_t i = 0; i < L; i++) {
    if (s[i] < 33 || s[i] > 126) ok = 0;
    if (s[i] >= 'A' && s[i] <= 'Z') up = 1;
    if (s[i] >= 'a' && s[i] <= 'z') lo = 1;
    low[i] = s[i] >= 'A' && s[i] <= 'Z' ? s[i] + 32 : s[i];
    if (s[i] == '1') p = i;
  }
  if ((up && lo) || p == 0 || p + 7 > L) ok = 0;
  u32 c = 1;
  for (size_t i = 0; i < L; i++)
    if (i < p) c = spec_step(c, low[i] >> 5);
  c = spec_step(c, 0);
  for (size_t i = 0; i < L; i++)
    if (i < p) c = spec_step(c, low[i] & 31);
  for (size_t i = 0; i < L; i++)
    if (i > p) {
      int v = spec_val(low[i]);
      if (v < 0) ok = 0;
      c = spec_step(c, (u32)v & 31);
    }
  return ok && c == 1 ? p : 0;
}
#endif
