/* Model of libsecp256k1: the curve group is the additive group Z_n of the true
 * order n, a public key being its discrete logarithm.  Negation is the change
 * of the y coordinate: the keys k and n-k share their x coordinate.  Signing
 * and verifying are arbitrary deterministic functions.  Arguments that the real
 * library answers with abort() are assertion failures. */
#ifndef SECP_H
#define SECP_H
#include <secp256k1.h>
#ifdef __CPROVER
typedef unsigned __CPROVER_bitvector[264] W;
#else
typedef unsigned _BitInt(264) W;
#endif
#define SN (((W)0xFFFFFFFFFFFFFFFFULL << 192) | ((W)0xFFFFFFFFFFFFFFFEULL << 128) | ((W)0xBAAEDCE6AF48A03BULL << 64) | (W)0xBFD25E8CD0364141ULL)
static W w_get(const void *p) {
  W x = 0;
  for (size_t i = 0; i < 32; i++) x = x << 8 | ((const u8 *)p)[i];
  return x;
}
static void w_put(void *p, W x) {
  for (size_t i = 0; i < 32; i++) ((u8 *)p)[31 - i] = (u8)(x >> (8 * i));
}
#define KEY_OK(k) ((k) != 0 && (k) < SN)
static W w_add(W a, W b) {
  W s = a + b;
  return s >= SN ? s - SN : s;
}
static W w_x(W k) { return k > SN / 2 ? SN - k : k; }
static int w_odd(W k) { return k > SN / 2; }
struct secp256k1_context_struct { unsigned flags; int live; int blind; };
static struct secp256k1_context_struct ctxs[8];
static size_t ctx_n, ctx_live;
#define CTX(c) VF_CHECK((c) != NULL && (c)->live, "a live context is used")
secp256k1_context *secp256k1_context_create(unsigned flags) {
  VF_CHECK(ctx_n < 8, "model capacity (contexts)");
  secp256k1_context *c = &ctxs[ctx_n++];
  c->flags = flags; c->live = 1; c->blind = 0; ctx_live++;
  return c;
}
void secp256k1_context_destroy(secp256k1_context *c) {
  if (c) { VF_CHECK(c->live, "context destroyed once"); c->live = 0; ctx_live--; }
}
static size_t ctx_rand_n; static u8 ctx_rand[32];
int secp256k1_context_randomize(secp256k1_context *c, const unsigned char *seed) {
  CTX(c);
  ctx_rand_n++; c->blind = seed != NULL;
  if (seed) for (size_t i = 0; i < 32; i++) ctx_rand[i] = seed[i];
  return 1;
}
/* the 64 opaque bytes of a public key: 32 arbitrary-looking ones, then k */
static void pub_put(secp256k1_pubkey *p, W k) {
  for (size_t i = 0; i < 32; i++) p->data[i] = 0x5A;
  w_put(p->data + 32, k);
}
static W pub_get(const secp256k1_pubkey *p) {
  W k = w_get(p->data + 32);
  VF_CHECK(KEY_OK(k), "the public key is a valid one");
  return k;
}
int secp256k1_ec_seckey_verify(const secp256k1_context *c, const unsigned char *s) {
  CTX(c);
  W k = w_get(s);
  return KEY_OK(k);
}
int secp256k1_ec_pubkey_create(const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *s) {
  CTX(c);
  W k = w_get(s);
  if (!KEY_OK(k)) {
    for (size_t i = 0; i < 64; i++) p->data[i] = 0;
    return 0;
  }
  pub_put(p, k);
  return 1;
}
static void spec_sec1(W k, u8 *out, size_t n) {
  out[0] = n == 33 ? 2 + w_odd(k) : 4;
  w_put(out + 1, w_x(k));
  if (n == 65) w_put(out + 33, k);
}
int secp256k1_ec_pubkey_serialize(const secp256k1_context *c, unsigned char *out, size_t *n, const secp256k1_pubkey *p, unsigned flags) {
  CTX(c);
  VF_CHECK(flags == SECP256K1_EC_COMPRESSED || flags == SECP256K1_EC_UNCOMPRESSED, "serialisation flags");
  size_t need = flags == SECP256K1_EC_COMPRESSED ? 33 : 65;
  VF_CHECK(*n >= need, "room for the public key");
  W k = pub_get(p);
  u8 t[65];
  spec_sec1(k, t, need);
  for (size_t i = 0; i < need; i++) out[i] = t[i];
  *n = need;
  return 1;
}
/* 0: not a public key */
static W spec_parse(const u8 *in, size_t n) {
  if (n == 33 && (in[0] == 2 || in[0] == 3)) {
    W x = w_get(in + 1);
    if (x == 0 || x > SN / 2) return 0;
    return in[0] == 3 ? SN - x : x;
  }
  if (n == 65 && (in[0] == 4 || in[0] == 6 || in[0] == 7)) {
    W x = w_get(in + 1), k = w_get(in + 33);
    if (!KEY_OK(k) || w_x(k) != x) return 0;
    if (in[0] != 4 && w_odd(k) != (in[0] == 7)) return 0;
    return k;
  }
  return 0;
}
int secp256k1_ec_pubkey_parse(const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *in, size_t n) {
  CTX(c);
  W k = spec_parse(in, n);
  if (k == 0) {
    for (size_t i = 0; i < 64; i++) p->data[i] = 0;
    return 0;
  }
  pub_put(p, k);
  return 1;
}
static int tweak(W k, const unsigned char *t, W *r) {
  W x = w_get(t);
  if (x >= SN) return 0;
  *r = w_add(k, x);
  return *r != 0;
}
int secp256k1_ec_seckey_tweak_add(const secp256k1_context *c, unsigned char *s, const unsigned char *t) {
  CTX(c);
  W k = w_get(s), r;
  int ok = KEY_OK(k) && tweak(k, t, &r);
  w_put(s, ok ? r : (W)0);
  return ok;
}
int secp256k1_ec_privkey_tweak_add(const secp256k1_context *c, unsigned char *s, const unsigned char *t) {
  return secp256k1_ec_seckey_tweak_add(c, s, t);
}
int secp256k1_ec_pubkey_tweak_add(const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *t) {
  CTX(c);
  W k = pub_get(p), r;
  if (!tweak(k, t, &r)) {
    for (size_t i = 0; i < 64; i++) p->data[i] = 0;
    return 0;
  }
  pub_put(p, r);
  return 1;
}
/* signatures: the opaque form is the byte-reversed compact form */
static void sig_put(secp256k1_ecdsa_signature *s, const u8 *compact) {
  for (size_t i = 0; i < 64; i++) s->data[63 - i] = compact[i];
}
static void sig_get(const secp256k1_ecdsa_signature *s, u8 *compact) {
  for (size_t i = 0; i < 64; i++) compact[i] = s->data[63 - i];
}
int secp256k1_ecdsa_signature_parse_compact(const secp256k1_context *c, secp256k1_ecdsa_signature *s, const unsigned char *in) {
  CTX(c);
  W r = w_get(in), t = w_get(in + 32);
  int ok = r < SN && t < SN;
  for (size_t i = 0; i < 64; i++) s->data[63 - i] = ok ? in[i] : 0;
  return ok;
}
int secp256k1_ecdsa_signature_serialize_compact(const secp256k1_context *c, unsigned char *out, const secp256k1_ecdsa_signature *s) {
  CTX(c);
  sig_get(s, out);
  return 1;
}
int secp256k1_ecdsa_signature_normalize(const secp256k1_context *c, secp256k1_ecdsa_signature *o, const secp256k1_ecdsa_signature *in) {
  CTX(c);
  u8 t[64];
  sig_get(in, t);
  W s = w_get(t + 32);
  int high = s > SN / 2;
  if (o) {
    if (high) w_put(t + 32, SN - s);
    sig_put(o, t);
  }
  return high;
}
#endif
