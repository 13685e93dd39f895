/* Stand-ins for the text codecs, decided by C06-C08, C20 (base58check) and
 * C18, C19 (bech32): writing yields arbitrary text of an arbitrary length, and
 * reading that text gives back what was written; any other text is arbitrary
 * data or a rejection.  struct vf_in must contain CODEC_IN. */
#ifndef CODEC_H
#define CODEC_H
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#ifndef CODEC_TXT
#define CODEC_TXT 120
#endif
#ifndef CODEC_DAT
#define CODEC_DAT 100
#endif
#define CODEC_IN u8 txt[CODEC_TXT]; u8 dat[CODEC_DAT]; u8 dat_n, junk;
static u8 rec[CODEC_DAT]; static size_t rec_n, rec_len; /* last thing written, length of its text */
static int rec_kind, enc_calls, dec_calls, dec_fixed; /* 0 nothing, 1 base58check, 2 bech32 */
static const void *dec_str; static size_t dec_str_n;
static int seg; /* the text at hand is a segwit address */
static size_t want_len; /* length of the next base58 text */
size_t vf_to_b58c(const void *buf, size_t n, const void *pre, size_t pn, char *str) {
  enc_calls++;
  VF_CHECK(n + pn <= CODEC_DAT, "model capacity (data)");
  for (size_t i = 0; i < pn; i++) rec[i] = ((const u8 *)pre)[i];
  for (size_t i = 0; i < n; i++) rec[pn + i] = ((const u8 *)buf)[i];
  rec_n = n + pn; rec_kind = 1;
  size_t r = want_len, cap = fingera_to_base58_check_length(n, pn);
  if (r > cap || r == 0) r = cap;
  rec_len = r;
  for (size_t i = 0; i < r; i++) str[i] = (char)I.txt[i];
  return r;
}
/* the text is the one last written */
static int is_rec(const char *str, size_t n) { return rec_kind && n == rec_len && vf_eq(str, I.txt, n); }
size_t vf_from_b58c(const char *str, size_t n, void *buf) {
  dec_calls++;
  if (dec_fixed) VF_CHECK(str == dec_str && n == dec_str_n, "the text given is decoded");
  size_t cap = fingera_from_base58_check_length(n);
  for (size_t i = 0; i < cap; i++) ((u8 *)buf)[i] = I.junk; /* may use all the announced room */
  if (!dec_fixed) {
    VF_CHECK(is_rec(str, n), "the text written is read");
    if (seg) return 0;
    VF_CHECK(rec_kind == 1, "a base58check text was written");
    for (size_t i = 0; i < rec_n; i++) ((u8 *)buf)[i] = rec[i];
    return rec_n;
  }
  size_t g = I.dat_n;
  VF_ASSUME(g <= cap && g <= CODEC_DAT);
  for (size_t i = 0; i < CODEC_DAT && i < cap; i++)
    if (i < g) ((u8 *)buf)[i] = I.dat[i];
  return g;
}
#endif
