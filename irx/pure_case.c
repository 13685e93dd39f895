/* One operation of the library as a function of bytes.  The collaborators whose
 * values do not matter here are simple functions (STUB: redirected in the
 * analysed module, strong symbols natively). */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <secp256k1.h>
#include <fingera_libc/hex.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/btc/exkey.h>
#ifdef NATIVE
#define STUB(x) x
#else
#define STUB(x) vf_stub_##x
#endif
typedef uint8_t u8;
static void cpy(void *a, const void *b, size_t n) { for (size_t i = 0; i < n; i++) ((u8 *)a)[i] = ((const u8 *)b)[i]; }
static void mix(const void *m, size_t n, u8 salt, void *o, size_t on) {
  u8 s = (u8)(n + salt);
  for (size_t i = 0; i < n; i++) s = (u8)(s * 3 + ((const u8 *)m)[i]);
  for (size_t i = 0; i < on; i++) ((u8 *)o)[i] = (u8)(s + i);
}
void STUB(fingera_sha2_256)(const void *m, size_t n, void *o) { mix(m, n, 0, o, 32); }
void STUB(fingera_ripemd160)(const void *m, size_t n, void *o) { mix(m, n, 1, o, 20); }
void STUB(fingera_hmac_sha512)(const void *k, size_t kn, const void *m, size_t n, void *o) { mix(k, kn, 2, o, 32); mix(m, n, 3, (u8 *)o + 32, 32); }
void STUB(fingera_os_rand_bytes)(void *o, size_t n) { for (size_t i = 0; i < n; i++) ((u8 *)o)[i] = (u8)(i + 1); }
#ifdef STUB_TEXT
size_t STUB(fingera_to_base58_check)(const void *b, size_t n, const void *p, size_t pn, char *s) {
  cpy(s, p, pn); cpy(s + pn, b, n);
  return n + pn;
}
size_t STUB(fingera_from_base58_check)(const char *s, size_t n, void *b) {
  if (n > 0 && (s[0] == 'b' || s[0] == 't')) return 0;
  size_t g = n * 733 / 1000 + 1;
  if (n > 1 && n == (size_t)(u8)s[n - 1]) g = 0;
  cpy(b, s, g);
  return g;
}
void STUB(fingera_bech32_encode)(const char *h, size_t hn, const u8 *d, size_t n, char *o) {
  cpy(o, h, hn); o[hn] = '1'; cpy(o + hn + 1, d, n);
  for (size_t i = 0; i < 6; i++) o[hn + 1 + n + i] = 'q';
}
int STUB(fingera_bech32_decode)(const char *s, size_t n, char *h, size_t *hn, void *o) {
  if (n < 10 || s[2] != '1') return -1;
  h[0] = s[0]; h[1] = s[1]; *hn = 2;
  for (size_t i = 3; i + 6 < n; i++) ((u8 *)o)[i - 3] = s[i] & 31;
  return (int)(n - 9);
}
#endif
static u8 ctx_mem[16];
secp256k1_context *STUB(secp256k1_context_create)(unsigned f) { return (secp256k1_context *)(ctx_mem + (f & 7)); }
int STUB(secp256k1_context_randomize)(secp256k1_context *c, const unsigned char *s) { return 1; }
void STUB(secp256k1_context_destroy)(secp256k1_context *c) {}
int STUB(secp256k1_ec_seckey_verify)(const secp256k1_context *c, const unsigned char *k) { return k[0] != 0; }
int STUB(secp256k1_ec_pubkey_create)(const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *k) { mix(k, 32, 4, p->data, 64); return 1; }
int STUB(secp256k1_ec_pubkey_serialize)(const secp256k1_context *c, unsigned char *o, size_t *n, const secp256k1_pubkey *p, unsigned f) {
  *n = f & SECP256K1_FLAGS_BIT_COMPRESSION ? 33 : 65;
  mix(p->data, 64, 5, o, *n); o[0] = 2;
  return 1;
}
int STUB(secp256k1_ec_pubkey_parse)(const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *k, size_t n) { mix(k, n, 6, p->data, 64); return n > 20 && k[1] != 0; }
int STUB(secp256k1_ec_privkey_tweak_add)(const secp256k1_context *c, unsigned char *k, const unsigned char *t) { for (int i = 0; i < 32; i++) k[i] = (u8)(k[i] + t[i]); return k[5] != 0; }
int STUB(secp256k1_ec_pubkey_tweak_add)(const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *t) { for (int i = 0; i < 32; i++) p->data[i] = (u8)(p->data[i] + t[i]); return p->data[5] != 0; }
int STUB(secp256k1_ecdsa_signature_parse_compact)(const secp256k1_context *c, secp256k1_ecdsa_signature *s, const unsigned char *i) { cpy(s->data, i, 64); return i[0] != 255; }
int STUB(secp256k1_ecdsa_signature_serialize_compact)(const secp256k1_context *c, unsigned char *o, const secp256k1_ecdsa_signature *s) { cpy(o, s->data, 64); return 1; }
int STUB(secp256k1_ecdsa_signature_serialize_der)(const secp256k1_context *c, unsigned char *o, size_t *n, const secp256k1_ecdsa_signature *s) { cpy(o, s->data, 64); *n = 64; return s->data[1] != 0; }
int STUB(secp256k1_ecdsa_signature_normalize)(const secp256k1_context *c, secp256k1_ecdsa_signature *o, const secp256k1_ecdsa_signature *s) { cpy(o->data, s->data, 64); o->data[32] &= 127; return 1; }
int STUB(secp256k1_ecdsa_verify)(const secp256k1_context *c, const secp256k1_ecdsa_signature *s, const unsigned char *m, const secp256k1_pubkey *p) { return (u8)(s->data[40] + m[3] + p->data[7]) < 128; }
int STUB(secp256k1_ecdsa_sign)(const secp256k1_context *c, secp256k1_ecdsa_signature *s, const unsigned char *m, const unsigned char *k, secp256k1_nonce_function f, const void *e) {
  mix(m, 32, 7, s->data, 32); mix(k, 32, 8, s->data + 32, 32);
  if (e) s->data[0] = ((const u8 *)e)[0] > 1 ? 1 : (u8)(s->data[0] ^ s->data[40]);
  return 1;
}
const secp256k1_nonce_function secp256k1_nonce_function_rfc6979 = 0;
static const chain_parameters *net(u8 k) { return k % 3 == 0 ? &g_mainnet_chain_parameters : k % 3 == 1 ? &g_testnet_chain_parameters : &g_regnet_chain_parameters; }
void vf_init(void) { fingera_btc_key_init(); }
/* result: number of meaningful bytes of o */
size_t vf_op(int f, u8 *p, size_t n, u8 *o) {
  size_t r = 0; uint64_t v = 0; int64_t z = 0; int k; u8 t[64];
  switch (f) {
    case 1: fingera_to_hex(p, n, (char *)o, 1); return 2 * n;
    case 101: fingera_to_hex(p, n, (char *)o, 0); return 2 * n;
    case 2: return fingera_from_hex((const char *)p, n, o);
    case 3: fingera_to_base64(p, n, (char *)o); return fingera_to_base64_length(n);
    case 4: fingera_to_base64_urlsafe(p, n, (char *)o); return fingera_to_base64_urlsafe_length(n);
    case 5: return fingera_from_base64((const char *)p, n, o);
    case 6: return fingera_from_base64_urlsafe((const char *)p, n, o);
    case 7: fingera_to_base32(p, n, (char *)o); return fingera_to_base32_length(n);
    case 8: return fingera_to_base32_raw(p, n, o);
    case 9: return fingera_from_base32((const char *)p, n, o);
    case 10: return fingera_from_base32_raw(p, n, o);
    case 13: cpy(&v, p, 8); return fingera_encode_varint(v, o);
    case 14: r = fingera_decode_varint(p, n, &v); if (!r) return 0; o[0] = (u8)r; cpy(o + 1, &v, 8); return 9;
    case 15: cpy(&z, p, 8); return fingera_encode_zigzag(z, o);
    case 16: r = fingera_decode_zigzag(p, n, &z); if (!r) return 0; o[0] = (u8)r; cpy(o + 1, &z, 8); return 9;
    case 17: for (size_t i = 2; i < n; i++) t[i - 2] = p[i] & 31;
      t[40] = 'a' + (p[0] & 15); t[41] = '0' + (p[1] & 7);
      fingera_bech32_encode((const char *)t + 40, 2, t, n - 2, (char *)o); return n + 7;
    case 18: v = n; { size_t hn = n; u8 h[128], d[128]; k = fingera_bech32_decode((const char *)p, n, (char *)h, &hn, d); o[0] = (u8)k; if (k < 0) return 1; cpy(o + 1, h, hn); cpy(o + 1 + hn, d, (size_t)k); return 1 + hn + (size_t)k; }
    case 19: return fingera_to_base58_check(p + 1, n - 1, p, 1, (char *)o);
    case 20: return fingera_from_base58_check((const char *)p, n, o);
    case 21: return fingera_to_address_pubkey(p, 20, (char *)o, 64, net(p[20]));
    case 22: return fingera_to_address_script(p, 20, (char *)o, 64, net(p[20]));
    case 23: return fingera_to_address_witnessv0_keyhash(p, 20, (char *)o, 64, net(p[20]));
    case 35: return fingera_to_address_witnessv0_scripthash(p, 32, (char *)o, 100, net(p[32]));
    case 24: t[0] = 1 + (p[0] & 7); cpy(t + 1, p + 1, n - 2); return fingera_to_address_witness_unknown(t, n - 1, (char *)o, 100, net(p[n - 1]));
    case 25: { size_t os = 64; o[0] = (u8)fingera_btc_address_decode((const char *)p, n - 1, o + 1, &os, net(p[n - 1])); return o[0] == BTC_BAD_ADDRESS ? 1 : 1 + os; }
    case 26: fingera_btc_hash160(p, n, o); return 20;
    case 27: fingera_btc_hash256(p, n, o); return 32;
    case 28: fingera_btc_bip32_hash(p, n, p[32], p + 8, o); return 64;
    case 36: fingera_btc_hash256_d64(o, p, n / 64); return n / 64 * 32;
    case 29: return fingera_btc_key_to_string(p, (char *)o, p[32] & 1, net(p[33]));
    case 30: k = 0; r = fingera_btc_key_from_string((const char *)p, n - 1, o, &k, net(p[n - 1])); if (!r) return 0; o[32] = (u8)k; return 33;
    case 31: { fingera_ex_key x; memset(&x, 0, sizeof x); x.ext.depth = p[0]; x.ext.child = p[1]; x.ext.fingerprint = p[2]; cpy(x.ext.chain_code, p, 32); cpy(x.key, p + 1, 32); return fingera_exkey_to_string(&x, (char *)o, net(p[33])); }
    case 37: { fingera_ex_pubkey x; memset(&x, 0, sizeof x); x.ext.depth = p[0]; x.ext.child = p[1]; x.ext.fingerprint = p[2]; cpy(x.ext.chain_code, p, 32); cpy(x.c_pubkey, p, 33); return fingera_expubkey_to_string(&x, (char *)o, net(p[33])); }
    case 32: { fingera_ex_key x; if (!fingera_exkey_from_string((const char *)p, n - 1, &x, net(p[n - 1]))) return 0; fingera_exkey_encode(&x, o); return 74; }
    case 33: { fingera_ex_pubkey x; if (!fingera_expubkey_from_string((const char *)p, n - 1, &x, net(p[n - 1]))) return 0; fingera_expubkey_encode(&x, o); return 74; }
    case 34: { fingera_ex_key x; memset(&x, 0, sizeof x); fingera_exkey_init(&x, p, n); fingera_exkey_encode(&x, o); return 74; }
    case 38: { fingera_ex_key x, y; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y); x.ext.depth = p[64]; cpy(x.key, p, 32); cpy(x.ext.chain_code, p + 32, 32);
      if (!fingera_exkey_derive(&x, &y, (uint32_t)p[65] << 24 | 5, p[66])) return 0;
      fingera_exkey_encode(&y, o); return 74; }
    case 39: { fingera_ex_pubkey x, y; memset(&x, 0, sizeof x); memset(&y, 0, sizeof y); x.ext.depth = p[64]; cpy(x.c_pubkey, p, 33); x.c_pubkey[0] = 2 + (p[0] & 1); cpy(x.ext.chain_code, p + 32, 32);
      if (!fingera_expubkey_derive(&x, &y, (uint32_t)(p[65] & 127) << 24 | 5, p[66])) return 0;
      fingera_expubkey_encode(&y, o); return 74; }
    case 40: fingera_btc_key_get_pub(p, o); return 64;
    case 41: return fingera_btc_pubkey_encode(p, o, 33) ? 33 : 0;
    case 42: return fingera_btc_pubkey_decode(p, n, o) ? 64 : 0;
    case 43: return fingera_btc_key_encode(p, o, p[32] & 1 ? 214 : 279) ? (p[32] & 1 ? 214 : 279) : 0;
    case 44: return fingera_btc_key_decode(p, n, o) ? 32 : 0;
    case 45: fingera_btc_key_sign(p, p + 32, o); return 64;
    case 46: r = fingera_btc_signature_encode(p, o); return r;
    case 47: return fingera_btc_signature_decode(p, n, o) ? 64 : 0;
    case 48: o[0] = (u8)fingera_btc_key_verify(p, p + 64, p + 96); return 1;
    case 49: fingera_btc_key_keyid(p, p[32] & 1, o); return 20;
    case 50: v = fingera_btc_key_fingerprint(p, p[32] & 1); cpy(o, &v, 4); return 4;
    case 51: v = fingera_btc_pubkey_fingerprint(p); cpy(o, &v, 4); return 4;
  }
  return 0;
}
