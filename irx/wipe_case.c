/* Operations on key material with their collaborators replaced by stand-ins
 * that hand out vf_sec (the secret) and keep nothing.  Compiled both into the
 * analysed module (STUB(x) = vf_stub_x, redirected there) and natively. */
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
#include <fingera_libc/base58.h>
#include <secp256k1.h>
#ifdef NATIVE
#define STUB(x) x
#else
#define STUB(x) vf_stub_##x
#endif
unsigned char vf_sec[320];
unsigned long vf_dn;      /* size of the decoded data */
int vf_ok;                /* outcome of the curve operations */
static unsigned char o1[128], o2[128], key[64], chain[32];
static char text[4096]; static int inited;
static fingera_ex_key xa, xb;
size_t STUB(fingera_to_base58_check)(const void *b, size_t n, const void *p, size_t pn, char *s) {
  s[0] = 'x'; return n + pn;
}
size_t STUB(fingera_from_base58_check)(const char *s, size_t n, void *b) {
  for (size_t i = 0; i < vf_dn; i++) ((unsigned char *)b)[i] = vf_sec[i];
  return vf_dn;
}
static void hand_out(void *o, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char *)o)[i] = vf_sec[64 + i % 64]; }
void STUB(fingera_hmac_sha512)(const void *k, size_t kn, const void *m, size_t mn, void *o) { hand_out(o, 64); }
void STUB(fingera_os_rand_bytes)(void *o, size_t n) { hand_out(o, n); }
secp256k1_context *STUB(secp256k1_context_create)(unsigned f) { return (secp256k1_context *)text; }
void STUB(secp256k1_context_destroy)(secp256k1_context *c) {}
int STUB(secp256k1_context_randomize)(secp256k1_context *c, const unsigned char *s) { return 1; }
int STUB(secp256k1_ec_seckey_verify)(const secp256k1_context *c, const unsigned char *k) { return vf_ok; }
int STUB(secp256k1_ec_pubkey_create)(const secp256k1_context *c, secp256k1_pubkey *p, const unsigned char *k) {
  for (int i = 0; i < 64; i++) p->data[i] = 7;
  return 1;
}
int STUB(secp256k1_ec_pubkey_serialize)(const secp256k1_context *c, unsigned char *o, size_t *n, const secp256k1_pubkey *p, unsigned f) {
  for (size_t i = 0; i < *n; i++) o[i] = 2;
  return 1;
}
int STUB(secp256k1_ec_privkey_tweak_add)(const secp256k1_context *c, unsigned char *k, const unsigned char *t) { hand_out(k, 32); return vf_ok; }
void vf_case(int op, unsigned long a) {
  for (int i = 0; i < 32; i++) key[i] = vf_sec[i], chain[i] = vf_sec[160 + i], xa.key[i] = vf_sec[i], xa.ext.chain_code[i] = vf_sec[160 + i];
  xa.ext.depth = 3;
  switch (op) {
    case 0: fingera_btc_key_to_string(key, text, (int)a, &g_mainnet_chain_parameters); break;
    case 1: { int c = 0; fingera_btc_key_from_string(text, a, o1, &c, &g_mainnet_chain_parameters); break; }
    case 2: fingera_exkey_to_string(&xa, text, &g_mainnet_chain_parameters); break;
    case 3: fingera_exkey_from_string(text, a, &xb, &g_mainnet_chain_parameters); break;
    case 4: fingera_btc_key_derive(key, chain, o1, o2, (uint32_t)a); break;
    case 5: fingera_exkey_init(&xb, vf_sec, a); break;
    case 6: fingera_exkey_derive(&xa, &xb, (uint32_t)a, 5); break;
    case 7: if (inited) fingera_btc_key_uninit(); inited = 1; fingera_btc_key_init(); break;
    case 8: fingera_btc_bip32_hash(chain, 7, 0, key, o1); break;
  }
}
