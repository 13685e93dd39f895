#include "vf.h"
#include <fingera_libc/btc/key.h>
#include <fingera_libc/btc/exkey.h>
/* OP 1 derivation, 2 master key X(seed length), 3 public derivation from arbitrary bytes,
 * 4 key DER round trip, 5 arbitrary key DER X(length), 6 other DER sizes (NDEBUG),
 * 7 signature DER round trip, 8 arbitrary signature DER X(length),
 * 14 start and shutdown cycles, 9 key generation, 10 signing, 11 verification, 12 public keys, ids, fingerprints X(encoded size) */
struct vf_in;
#ifndef ORA_N
#define ORA_N 4
#endif
#define ORA_DIG 64
#ifndef ORA_MSG
#define ORA_MSG 80
#endif
#ifndef INN
#define INN 1
#endif
#define SIGS 4
struct vf_in { u8 k[32], k2[32], chain[32], ch[4], fp[4], depth, p33[33]; u8 d[INN]; u8 draw[SIGS][32]; u8 sig[SIGS][64]; u8 hash[32]; u8 vr[4]; u8 seedr[32]; u8 c; u8 dig[ORA_N][ORA_DIG]; };
#include "oracle.h"
#include "secp.h"
static size_t draws, cycle, seeds; static int in_init;
#if OP == 14
#define SEED(c) (I.d + 32 * (c))
#else
#define SEED(c) I.seedr
#endif
void vf_rand(void *buf, size_t n) {
  VF_CHECK(n == 32, "32 random bytes are drawn");
  VF_CHECK(draws < SIGS || in_init, "no more draws than needed");
  seeds += in_init;
  for (size_t i = 0; i < 32; i++) ((u8 *)buf)[i] = in_init ? SEED(cycle)[i] : I.draw[draws & (SIGS - 1)][i];
  if (!in_init) draws++;
}
static void init(void) {
  in_init = 1;
  fingera_btc_key_init();
  in_init = 0;
  cycle++;
  VF_CHECK(ctx_rand_n == cycle && vf_eq(ctx_rand, SEED(cycle - 1), 32), "the signing context is blinded with random bytes");
  VF_CHECK(seeds == cycle, "random bytes are drawn once");
}
static void fini(void) {
  fingera_btc_key_uninit();
  VF_CHECK(ctx_live == 0, "contexts are released");
}
static u32 be(const u8 *p) { return (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3]; }
static W valid(const u8 *k) {
  W x = w_get(k);
  VF_ASSUME(KEY_OK(x));
  return x;
}
#define FP ((u32)I.fp[0] | (u32)I.fp[1] << 8 | (u32)I.fp[2] << 16 | (u32)I.fp[3] << 24)

/* HMAC with the one message expected, and an arbitrary result */
static u8 hm_key[80], hm_msg[INN + 80]; static size_t hm_kn, hm_mn, hm_calls;
void vf_hmac_fix(const void *key, size_t kn, const void *msg, size_t n, void *out) {
  hm_calls++;
  VF_CHECK(kn == hm_kn && n == hm_mn, "size of the HMAC key and message");
  VF_CHECK(vf_eq(key, hm_key, kn), "HMAC key");
  VF_CHECK(vf_eq(msg, hm_msg, n), "HMAC message");
  for (size_t i = 0; i < 64; i++) ((u8 *)out)[i] = I.dig[0][i];
}
static void hm_set(const void *key, size_t kn, const void *msg, size_t n, u8 *out) {
  vf_cpy(hm_key, key, kn); vf_cpy(hm_msg, msg, n);
  hm_kn = kn; hm_mn = n;
  vf_cpy(out, I.dig[0], 64);
}
/* ---- signing and DER models */
static int vf_nonce(unsigned char *a, const unsigned char *b, const unsigned char *c, const unsigned char *d, void *e, unsigned f) { return 1; }
const secp256k1_nonce_function secp256k1_nonce_function_rfc6979 = vf_nonce;
const secp256k1_nonce_function secp256k1_nonce_function_default = vf_nonce;
static size_t signs;
int secp256k1_ecdsa_sign(const secp256k1_context *c, secp256k1_ecdsa_signature *s, const unsigned char *msg, const unsigned char *key, secp256k1_nonce_function f, const void *nd) {
  CTX(c);
#if OP == 14
  VF_CHECK(c->blind, "a blinded context signs");
#endif
  VF_CHECK(f == vf_nonce || f == NULL, "the RFC6979 nonce function is used");
  VF_CHECK(vf_eq(msg, I.hash, 32) && vf_eq(key, I.k, 32), "the hash is signed with the key");
  VF_CHECK(signs < SIGS, "no more attempts than needed");
  if (signs == 0) VF_CHECK(nd == NULL, "first attempt without extra entropy");
  else {
    VF_CHECK(nd != NULL, "extra entropy");
    const u8 *e = (const u8 *)nd;
    for (size_t i = 0; i < 32; i++) VF_CHECK(e[i] == (i == 0 ? signs : 0), "extra entropy is the attempt number, little endian");
  }
#if OP == 14
  for (size_t i = 0; i < 64; i++) s->data[i] = (u8)(i + 1); /* R is low at the first attempt */
#else
  sig_put(s, I.sig[signs & (SIGS - 1)]);
#endif
  signs++;
  return 1;
}
static u8 ver_low[64]; static size_t ver_n;
int secp256k1_ecdsa_verify(const secp256k1_context *c, const secp256k1_ecdsa_signature *s, const unsigned char *msg, const secp256k1_pubkey *p) {
  CTX(c);
  u8 t[64];
  sig_get(s, t);
  VF_CHECK(vf_eq(msg, I.hash, 32), "checked against the hash");
  VF_CHECK(vf_eq(p->data + 32, I.k, 32), "checked against the public key");
  if (w_get(t + 32) > SN / 2) return 0; /* the library accepts low S only */
  VF_CHECK(vf_eq(t, ver_low, 64), "the low-S form of the signature is checked");
  ver_n++;
  return I.vr[0] & 1;
}
/* strict DER writing: some text of at most 72 bytes; fails when there is less room */
static size_t ders;
int secp256k1_ecdsa_signature_serialize_der(const secp256k1_context *c, unsigned char *out, size_t *n, const secp256k1_ecdsa_signature *s) {
  CTX(c);
  u8 t[64];
  sig_get(s, t);
  ders++;
  VF_CHECK(vf_eq(t, I.sig[0], 64), "the signature given is written");
  size_t r = I.c;
  VF_ASSUME(r >= 8 && r <= 72);
  if (*n < r) { *n = r; return 0; }
  for (size_t i = 0; i < 72; i++)
    if (i < r) out[i] = I.d[i];
  *n = r;
  return 1;
}
/* ---- */
#if OP == 1
#ifndef HARD
#define HARD 0
#endif
static void go(void) {
  u8 msg[37], out[64], c33[33];
  W k = valid(I.k);
  VF_ASSUME((I.ch[0] >> 7) == HARD);
  u32 child = be(I.ch);
  spec_sec1(k, c33, 33);
  if (HARD) { msg[0] = 0; vf_cpy(msg + 1, I.k, 32); }
  else vf_cpy(msg, c33, 33);
  vf_cpy(msg + 33, I.ch, 4);
  hm_set(I.chain, 32, msg, 37, out);
  W il = w_get(out), sum = il < SN ? w_add(k, il) : 0;
  int ok = il < SN && sum != 0 && I.depth != 255;
  fingera_ex_key p, q;
  vf_cpy(p.key, I.k, 32); vf_cpy(p.ext.chain_code, I.chain, 32);
  p.ext.depth = I.depth; p.ext.fingerprint = 0x12345678; p.ext.child = 0x9abcdef0;
#if PART == 1
  int r = fingera_exkey_derive(&p, &q, child, FP);
  VF_CHECK((r != 0) == ok, "succeeds iff the result is a valid key and the depth fits");
  if (ok) {
    VF_CHECK(w_get(q.key) == sum, "key plus left half, modulo the group order");
    VF_CHECK(vf_eq(q.ext.chain_code, out + 32, 32), "chain code is the right half");
    VF_CHECK(q.ext.depth == (u8)(I.depth + 1) && q.ext.child == child && q.ext.fingerprint == FP, "depth, child number, fingerprint");
  }
  VF_CHECK(vf_eq(p.key, I.k, 32) && vf_eq(p.ext.chain_code, I.chain, 32) && p.ext.depth == I.depth && p.ext.fingerprint == 0x12345678 && p.ext.child == 0x9abcdef0, "parent unchanged");
#else
  fingera_ex_pubkey a, b; int r;
  fingera_exkey_get_pub(&p, &a);
  VF_CHECK(vf_eq(a.c_pubkey, c33, 33) && vf_eq(a.ext.chain_code, I.chain, 32) && a.ext.depth == I.depth && a.ext.fingerprint == 0x12345678 && a.ext.child == 0x9abcdef0, "extended public key of the parent");
  r = fingera_expubkey_derive(&a, &b, child, FP);
  VF_CHECK((r != 0) == ok, "public derivation succeeds iff private derivation does");
  if (ok) {
    u8 w[33];
    spec_sec1(sum, w, 33);
    VF_CHECK(vf_eq(b.c_pubkey, w, 33), "public key of the privately derived child");
    VF_CHECK(vf_eq(b.ext.chain_code, out + 32, 32), "same chain code");
    VF_CHECK(b.ext.depth == (u8)(I.depth + 1) && b.ext.child == child && b.ext.fingerprint == FP, "depth, child number, fingerprint");
  }
  VF_CHECK(vf_eq(a.c_pubkey, c33, 33) && vf_eq(a.ext.chain_code, I.chain, 32) && a.ext.depth == I.depth, "parent unchanged");
#endif
}
#elif OP == 2
static void one(size_t len) {
  u8 out[64];
  fingera_ex_key k;
  u8 *s = vf_dup(I.d, len);
  hm_set("Bitcoin seed", 12, s, len, out);
  fingera_exkey_init(&k, s, len);
  VF_CHECK(vf_eq(k.key, out, 32) && vf_eq(k.ext.chain_code, out + 32, 32), "left half key, right half chain code");
  VF_CHECK(k.ext.depth == 0 && k.ext.child == 0 && k.ext.fingerprint == 0, "depth, child number, fingerprint of a master key");
  VF_CHECK(vf_eq(s, I.d, len), "seed unchanged");
}
#elif OP == 3
static void go(void) {
  u8 msg[37], out[64];
  VF_ASSUME((I.p33[0] == 2 || I.p33[0] == 3) && I.ch[0] < 0x80);
  W k = spec_parse(I.p33, 33);
  vf_cpy(msg, I.p33, 33); vf_cpy(msg + 33, I.ch, 4);
  hm_set(I.chain, 32, msg, 37, out);
  W il = w_get(out), sum = il < SN && k ? w_add(k, il) : 0;
  u8 *in = vf_dup(I.p33, 33), *c = vf_dup(I.chain, 32), *o = vf_buf(33), *oc = vf_buf(32), w[33];
  int r = fingera_btc_pubkey_derive(in, c, o, oc, be(I.ch));
  VF_CHECK((r != 0) == (sum != 0), "succeeds iff parent and child are valid");
  if (sum != 0) {
    spec_sec1(sum, w, 33);
    VF_CHECK(vf_eq(o, w, 33) && vf_eq(oc, out + 32, 32), "child public key and chain code");
  }
  VF_CHECK(vf_eq(in, I.p33, 33) && vf_eq(c, I.chain, 32), "inputs unchanged");
}
#elif OP == 4 || OP == 6
static const u8 B1[] = {0x30, 0x81, 0xD3, 2, 1, 1, 4, 0x20}, B2[] = {0x30, 0x82, 1, 0x13, 2, 1, 1, 4, 0x20};
static const u8 FIELD[] = {0x30, 0x2C, 6, 7, 0x2A, 0x86, 0x48, 0xCE, 0x3D, 1, 1, 2, 0x21, 0, /* prime field of the order */
  0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFE, 0xFF, 0xFF, 0xFC, 0x2F,
  0x30, 6, 4, 1, 0, 4, 1, 7}; /* curve: a = 0, b = 7 */
static const u8 GX[] = {0x79, 0xBE, 0x66, 0x7E, 0xF9, 0xDC, 0xBB, 0xAC, 0x55, 0xA0, 0x62, 0x95, 0xCE, 0x87, 0x0B, 0x07, 0x02, 0x9B, 0xFC, 0xDB, 0x2D, 0xCE, 0x28, 0xD9, 0x59, 0xF2, 0x81, 0x5B, 0x16, 0xF8, 0x17, 0x98};
static const u8 GY[] = {0x48, 0x3A, 0xDA, 0x77, 0x26, 0xA3, 0xC4, 0x65, 0x5D, 0xA4, 0xFB, 0xFC, 0x0E, 0x11, 0x08, 0xA8, 0xFD, 0x17, 0xB4, 0x48, 0xA6, 0x85, 0x54, 0x19, 0x9C, 0x47, 0xD0, 0x8F, 0xFB, 0x10, 0xD4, 0xB8};
static u8 w[300]; static size_t wn;
static void put(const void *p, size_t n) { for (size_t i = 0; i < n; i++) w[wn++] = ((const u8 *)p)[i]; }
static void put1(u8 b) { w[wn++] = b; }
/* ECPrivateKey of SEC 1 C.4: version 1, the key, the curve parameters, the public key */
static void spec_ec(W k, int comp) {
  u8 n[32], e[65], key[32];
  w_put(n, SN); w_put(key, k);
  wn = 0;
  if (comp) put(B1, sizeof B1); else put(B2, sizeof B2);
  put(key, 32);
  put1(0xA0); put1(0x81); put1(comp ? 0x85 : 0xA5); put1(0x30); put1(0x81); put1(comp ? 0x82 : 0xA2);
  put1(2); put1(1); put1(1);
  put(FIELD, sizeof FIELD);
  put1(4); put1(comp ? 0x21 : 0x41); put1(comp ? 2 : 4); put(GX, 32);
  if (!comp) put(GY, 32);
  put1(2); put1(0x21); put1(0); put(n, 32);
  put1(2); put1(1); put1(1);
  put1(0xA1); put1(comp ? 0x24 : 0x44); put1(3); put1(comp ? 0x22 : 0x42); put1(0);
  spec_sec1(k, e, comp ? 33 : 65);
  put(e, comp ? 33 : 65);
}
static void go(void) {
#if OP == 4
  W k = valid(I.k);
  for (int comp = 0; comp < 2; comp++) {
    size_t n = comp ? 214 : 279;
    spec_ec(k, comp);
    VF_CHECK(wn == n, "specified size");
    u8 *in = vf_dup(I.k, 32), *o = vf_buf(n), *b = vf_buf(32);
    VF_CHECK(fingera_btc_key_encode(in, o, n) != 0, "a valid key encodes");
    VF_CHECK(vf_eq(o, w, n), "SEC1 structure");
    VF_CHECK(vf_eq(in, I.k, 32), "key unchanged");
    u8 *t = vf_dup(o, n);
    VF_CHECK(fingera_btc_key_decode(t, n, b) != 0 && vf_eq(b, I.k, 32), "round trip");
  }
#else
  static const size_t S[] = {0, 1, 32, 33, 213, 215, 278, 280};
  valid(I.k);
  for (size_t i = 0; i < 8; i++) {
    u8 *in = vf_dup(I.k, 32), *o = vf_buf(S[i]);
    VF_CHECK(fingera_btc_key_encode(in, o, S[i]) == 0, "other sizes are refused");
  }
#endif
}
#elif OP == 5
static void one(size_t L) {
  u8 *in = vf_mix(I.d, L, vf_fill_bytes), *ref = vf_dup(in, L), *o = vf_buf(32), w[32];
  const u8 *d = ref;
  /* 30, length in one or two octets (within the input), 02 01 01, 04, n <= 32, key */
  size_t p = 0, lb = 0, len = 0, n = 0; int ok = 1;
  ok = L >= 2 && d[0] == 0x30 && (d[1] == 0x81 || d[1] == 0x82);
  if (ok) {
    lb = d[1] & 0x7F; p = 2;
    if (lb > L - p) ok = 0;
    else { len = lb == 1 ? d[2] : (size_t)d[2] << 8 | d[3]; p += lb; if (len > L - p) ok = 0; }
  }
  if (ok) { if (L - p < 3 || d[p] != 2 || d[p + 1] != 1 || d[p + 2] != 1) ok = 0; p += 3; }
  if (ok) { if (L - p < 2 || d[p] != 4) ok = 0; else { n = d[p + 1]; p += 2; if (n > 32 || n > L - p) ok = 0; } }
  for (size_t i = 0; i < 32; i++) w[i] = 0;
  if (ok) {
    for (size_t i = 0; i < 32; i++)
      if (i + n >= 32) { size_t at = p + i + n - 32; for (size_t j = 0; j < L; j++) if (j == at) w[i] = d[j]; }
    W k = w_get(w);
    if (!KEY_OK(k)) { ok = 0; for (size_t i = 0; i < 32; i++) w[i] = 0; }
  }
  int r = fingera_btc_key_decode(in, L, o);
  VF_CHECK((r != 0) == ok, "accepted iff the structure holds a valid key");
  VF_CHECK(vf_eq(o, w, 32), "the key, or zeros");
  VF_CHECK(vf_eq(in, ref, L), "input unchanged");
}
#elif OP == 7
static void go(void) {
  secp256k1_ecdsa_signature sig, copy;
  sig_put(&sig, I.sig[0]); copy = sig;
  u8 *o = vf_buf(BTC_SIGNATURE_SIZE);
  VF_CHECK(BTC_SIGNATURE_SIZE == 72, "room for every signature");
  size_t g = fingera_btc_signature_encode(&sig, o);
  VF_CHECK(ders >= 1 && g == I.c, "length of the DER form");
  for (size_t i = 0; i < 72; i++)
    if (i < g) VF_CHECK(o[i] == I.d[i], "the DER form");
  VF_CHECK(vf_eq(&sig, &copy, 64), "signature unchanged");
}
#elif OP == 8
/* lax BER of a signature, from its description: 0 on structural errors */
static size_t pos_; static u8 *D; static size_t DL;
static u8 at(size_t i) { return i < DL ? D[i] : 0; }
static int lax_int(size_t *start, size_t *len) {
  if (pos_ == DL || at(pos_) != 2) return 0;
  pos_++;
  if (pos_ == DL) return 0;
  size_t b = at(pos_++);
  if (b & 0x80) {
    b -= 0x80;
    if (b > DL - pos_) return 0;
    size_t v = 0; int nz = 0;
    for (size_t i = 0; i < DL; i++)
      if (i < b) {
        if (at(pos_ + i) || nz) nz++;
        v = v << 8 | at(pos_ + i);
        if (nz > 3) return 0;
      }
    pos_ += b;
    b = v;
  }
  if (b > DL - pos_) return 0;
  *start = pos_; *len = b;
  pos_ += b;
  return 1;
}
/* the integer as 32 bytes; 0 when it needs more */
static int lax_val(size_t start, size_t len, u8 *out) {
  int ok = 1;
  for (size_t i = 0; i < 32; i++) out[i] = 0;
  for (size_t i = 0; i < DL; i++) {
    size_t from_end = start + len - 1 - i;
    if (i >= start && i < start + len) {
      if (from_end < 32) out[31 - from_end] = D[i];
      else if (D[i]) ok = 0;
    }
  }
  return ok;
}
#ifdef SHAPE
/* SHAPE: concrete structure bytes, -1 = arbitrary */
static const short SH[] = {SHAPE};
#endif
static void one(size_t L) {
  u8 *in = vf_dup(I.d, L), w[64];
#ifdef SHAPE
  for (size_t i = 0; i < L && i < sizeof SH / sizeof *SH; i++)
    if (SH[i] >= 0) in[i] = (u8)SH[i];
#endif
  u8 *ref = vf_dup(in, L);
  D = ref; DL = L; pos_ = 0;
  size_t rs = 0, rl = 0, ss = 0, sl = 0;
  int ok = L >= 2 && D[0] == 0x30;
  if (ok) {
    size_t b = D[1];
    pos_ = 2;
    if (b & 0x80) { b -= 0x80; if (b > L - 2) ok = 0; else pos_ += b; }
  }
  ok = ok && lax_int(&rs, &rl) && lax_int(&ss, &sl);
  int fit = 0;
  if (ok) {
    int a = lax_val(rs, rl, w), b = lax_val(ss, sl, w + 32);
    fit = a && b && w_get(w) < SN && w_get(w + 32) < SN;
  }
  if (!fit) for (size_t i = 0; i < 64; i++) w[i] = 0;
  secp256k1_ecdsa_signature sig; u8 t[64];
  int r = fingera_btc_signature_decode(in, L, &sig);
  VF_CHECK((r != 0) == ok, "0 exactly on structural errors");
  if (ok) { sig_get(&sig, t); VF_CHECK(vf_eq(t, w, 64), "R and S found, or the invalid signature"); }
  VF_CHECK(vf_eq(in, ref, L), "input unchanged");
}
#elif OP == 9
static void go(void) {
  u8 *o = vf_buf(32);
  size_t n = 0;
  W k;
  for (n = 0; n < SIGS - 1; n++) { k = w_get(I.draw[n]); if (KEY_OK(k)) break; }
  if (n == SIGS - 1) { k = w_get(I.draw[n]); VF_ASSUME(KEY_OK(k)); }
  fingera_btc_key_new(o);
  VF_CHECK(draws == n + 1, "redrawn until valid, no further");
  for (size_t i = 0; i < SIGS; i++)
    if (i == n) VF_CHECK(vf_eq(o, I.draw[i], 32), "the first valid draw");
}
#elif OP == 10
static void go(void) {
  u8 *k = vf_dup(I.k, 32), *h = vf_dup(I.hash, 32), t[64];
  secp256k1_ecdsa_signature *s = (secp256k1_ecdsa_signature *)vf_buf(64);
  valid(I.k);
  size_t n = 0;
  for (; n < SIGS - 1; n++) if (I.sig[n][0] < 0x80) break;
  VF_ASSUME(I.sig[n][0] < 0x80);
  fingera_btc_key_sign(k, h, s);
  VF_CHECK(signs == n + 1, "retried until R is low, no further");
  sig_get(s, t);
  VF_CHECK(t[0] < 0x80, "low R");
  for (size_t i = 0; i < SIGS; i++)
    if (i == n) VF_CHECK(vf_eq(t, I.sig[i], 64), "the first low-R signature");
  VF_CHECK(vf_eq(k, I.k, 32) && vf_eq(h, I.hash, 32), "inputs unchanged");
}
#elif OP == 11
static void go(void) {
  W k = valid(I.k), r = w_get(I.sig[0]), s = w_get(I.sig[0] + 32);
  VF_ASSUME(r < SN && s < SN && s != 0);
  u8 low[64];
  vf_cpy(low, I.sig[0], 64);
  if (s > SN / 2) w_put(low + 32, SN - s);
  secp256k1_pubkey *p = (secp256k1_pubkey *)vf_buf(64), pc;
  pub_put(p, k); pc = *p;
  u8 *h = vf_dup(I.hash, 32);
  secp256k1_ecdsa_signature *a = (secp256k1_ecdsa_signature *)vf_buf(64), ac;
  sig_put(a, I.sig[0]); ac = *a;
  vf_cpy(ver_low, low, 64);
  int want = I.vr[0] & 1;
  int x = fingera_btc_key_verify(p, h, a);
  /* both S forms have the same low-S form, so this also says they are treated alike */
  VF_CHECK((x != 0) == want, "accepted iff the low-S form satisfies the curve equation");
  VF_CHECK(vf_eq(a, &ac, 64) && vf_eq(p, &pc, 64) && vf_eq(h, I.hash, 32), "inputs unchanged");
}
#elif OP == 12
static void go(void) {
  W k = valid(I.k);
  u8 *k32 = vf_dup(I.k, 32);
  u8 *p = vf_buf(64);
  fingera_btc_key_get_pub(k32, p);
  VF_CHECK(pub_get((secp256k1_pubkey *)p) == k, "public key of the private key");
  for (int comp = COMP; comp < COMP + 1; comp++) {
    size_t n = comp ? 33 : 65;
    u8 w[65], id[20];
    spec_sec1(k, w, n);
    ora_n = 0;
    spec_hash160(w, n, id);
    u8 *o = vf_buf(n), *b = vf_buf(64), *i1 = vf_buf(20), *i2 = vf_buf(20);
    VF_CHECK(fingera_btc_pubkey_encode(p, o, n) != 0 && vf_eq(o, w, n), "SEC1 form");
    VF_CHECK(fingera_btc_pubkey_decode(o, n, b) != 0 && vf_eq(b, p, 64), "decodes to the same key");
    fingera_btc_pubkey_keyid(p, comp ? 256 : 0, i1);
    fingera_btc_key_keyid(k32, comp ? 2 : 0, i2);
    VF_CHECK(vf_eq(i1, id, 20), "key id of the public key: hash160 of the encoding");
    VF_CHECK(vf_eq(i2, id, 20), "key id of the private key");
    u32 f = (u32)id[0] | (u32)id[1] << 8 | (u32)id[2] << 16 | (u32)id[3] << 24;
    VF_CHECK(fingera_btc_key_fingerprint(k32, comp) == f, "fingerprint of the private key");
    if (comp) VF_CHECK(fingera_btc_pubkey_fingerprint(o) == f, "fingerprint of the public key");
    VF_CHECK(vf_eq(o, w, n), "inputs unchanged");
  }
  VF_CHECK(vf_eq(k32, I.k, 32), "inputs unchanged");
}
#elif OP == 13
static void one(size_t n) { /* arbitrary encodings */
  u8 *in = vf_dup(I.d, n), *o = vf_buf(64);
  W k = spec_parse(I.d, n);
  int r = fingera_btc_pubkey_decode(in, n, o);
  VF_CHECK((r != 0) == (k != 0), "accepted iff a valid encoding of 33 or 65 bytes");
  if (k) VF_CHECK(pub_get((secp256k1_pubkey *)o) == k, "the public key");
  VF_CHECK(vf_eq(in, I.d, n), "input unchanged");
#ifdef NODBG
  if (n != 33 && n != 65) {
    secp256k1_pubkey p;
    pub_put(&p, valid(I.k));
    u8 *e = vf_buf(n);
    VF_CHECK(fingera_btc_pubkey_encode(&p, e, n) == 0, "other sizes are refused");
  }
#endif
}
#elif OP == 14
static void use(size_t c) {
  W k = valid(I.draw[c]);
  u8 *n = vf_buf(32), *p = vf_buf(64);
  secp256k1_ecdsa_signature *s = (secp256k1_ecdsa_signature *)vf_buf(64);
  size_t d = draws;
  draws = c;
  fingera_btc_key_new(n);
  VF_CHECK(draws == c + 1 && vf_eq(n, I.draw[c], 32), "the key is the bytes drawn");
  fingera_btc_key_get_pub(n, p);
  VF_CHECK(pub_get((secp256k1_pubkey *)p) == k, "public key of the private key");
  signs = 0;
  fingera_btc_key_sign(I.k, I.hash, s);
  VF_CHECK(signs == 1, "signed once");
  for (size_t i = 0; i < 64; i++) VF_CHECK(s->data[i] == (u8)(i + 1), "the signature");
  draws = d;
}
static void go(void) {
  valid(I.k);
  for (size_t c = 0; c < CYCLES; c++) { /* the first start is vf_main's */
    use(c);
    fini();
    init();
  }
  use(0);
}
#endif
#define X(l) one(l);
static void vf_main(void) {
  init();
#ifdef LENS
  LENS
#else
  go();
#endif
  fini();
}
#include "vf_main.c"
