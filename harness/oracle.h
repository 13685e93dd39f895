/* Stand-ins for functions whose own properties are decided elsewhere.
 *
 * Hash primitives: any deterministic function.  The k-th new message gets the
 * arbitrary digest I.dig[k]; a message seen before gets its digest again. */
#ifndef ORACLE_H
#define ORACLE_H
#ifndef ORA_N
#define ORA_N 4   /* different messages per run */
#endif
#ifndef ORA_MSG
#define ORA_MSG 64 /* longest message */
#endif
#ifndef ORA_DIG
#define ORA_DIG 32
#endif
#define ORA_IN u8 dig[ORA_N][ORA_DIG];
struct ora_entry { u8 kind; size_t len; u8 msg[ORA_MSG]; };
static struct ora_entry ora[ORA_N];
static size_t ora_n;
static u8 ora_out[ORA_N][ORA_DIG];
/* every call gets its own slot; an equal earlier message passes its digest on */
static size_t ora_find(u8 kind, const u8 *msg, size_t len) {
  VF_CHECK(len <= ORA_MSG, "oracle capacity (message length)");
  VF_CHECK(ora_n < ORA_N, "oracle capacity (number of calls)");
  VF_ASSUME(ora_n < ORA_N && len <= ORA_MSG);
  size_t at = ora_n++;
  ora[at].kind = kind;
  ora[at].len = len;
  for (size_t i = 0; i < ORA_MSG; i++)
    if (i < len) ora[at].msg[i] = msg[i];
  for (size_t i = 0; i < ORA_DIG; i++) ora_out[at][i] = I.dig[at][i];
  int found = 0;
  for (size_t k = 0; k < at; k++)
    if (ora[k].kind == kind && ora[k].len == len) {
      int same = !found;
      for (size_t i = 0; i < ORA_MSG; i++)
        if (i < len && ora[k].msg[i] != ora[at].msg[i]) same = 0;
      if (same) {
        found = 1;
        for (size_t i = 0; i < ORA_DIG; i++) ora_out[at][i] = ora_out[k][i];
      }
    }
  return at;
}
void vf_sha256(const void *msg, size_t len, void *out) {
  size_t k = ora_find(1, msg, len);
  for (size_t i = 0; i < 32; i++) ((u8 *)out)[i] = ora_out[k][i];
}
void vf_rmd160(const void *msg, size_t len, void *out) {
  size_t k = ora_find(2, msg, len);
  for (size_t i = 0; i < 20; i++) ((u8 *)out)[i] = ora_out[k][i];
}
#if ORA_DIG >= 64
void vf_hmac512(const void *key, size_t key_len, const void *msg, size_t len, void *out) {
  u8 m[ORA_MSG];
  VF_CHECK(key_len + len + 1 <= ORA_MSG, "oracle capacity (hmac input)");
  m[0] = (u8)key_len;
  for (size_t i = 0; i < key_len; i++) m[1 + i] = ((const u8 *)key)[i];
  for (size_t i = 0; i < len; i++) m[1 + key_len + i] = ((const u8 *)msg)[i];
  size_t k = ora_find(3, m, 1 + key_len + len);
  for (size_t i = 0; i < 64; i++) ((u8 *)out)[i] = ora_out[k][i];
}
#endif
static void spec_hash256(const void *msg, size_t len, u8 *out) {
  u8 t[32];
  vf_sha256(msg, len, t);
  vf_sha256(t, 32, out);
}
static void spec_hash160(const void *msg, size_t len, u8 *out) {
  u8 t[32];
  vf_sha256(msg, len, t);
  vf_rmd160(t, 32, out);
}
#include "memtrack.h"
#endif
