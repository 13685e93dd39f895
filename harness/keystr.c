#include "vf.h"
#include <fingera_libc/btc/key.h>
#include <fingera_libc/btc/exkey.h>
/* OP 1: key string round trip, X(text length); 2: arbitrary key text, X(text length);
 * 3: extended key bytes; 4: extended key string round trip; 5: arbitrary extended key text */
struct vf_in;
#define CODEC_DAT 120
#define CODEC_TXT 140
struct ext { u8 depth, fp[4], ch[4], chain[32], key[33]; };
struct vf_in { u8 txt[CODEC_TXT]; u8 dat[CODEC_DAT]; u8 dat_n, junk; u8 k[32]; struct ext x; u8 l[MAXL + 1]; };
#include "codec.h"
#include "memtrack.h"
static const chain_parameters *NET[3] = {&g_mainnet_chain_parameters, &g_testnet_chain_parameters, &g_regnet_chain_parameters};
static const u8 SEC[3] = {0x80, 0xEF, 0xEF};
static const u8 XPRV[3][4] = {{4, 0x88, 0xAD, 0xE4}, {4, 0x35, 0x83, 0x94}, {4, 0x35, 0x83, 0x94}};
static const u8 XPUB[3][4] = {{4, 0x88, 0xB2, 0x1E}, {4, 0x35, 0x87, 0xCF}, {4, 0x35, 0x87, 0xCF}};
static u8 *blob(const void *p, size_t n) { return vf_dup(p, n); }
#if OP == 1
static void one(size_t len) {
  for (int net = 0; net < 3; net++)
    for (int c = 0; c < 2; c++) {
      want_len = len; enc_calls = dec_calls = 0; rec_kind = 0;
      u8 *k = blob(I.k, 32), *s = vf_buf(fingera_key_string_max_length()), *o = vf_buf(32);
      size_t r = fingera_btc_key_to_string(k, (char *)s, c ? (net == 1 ? -7 : net == 2 ? 256 : 1) : 0, NET[net]);
      VF_CHECK(enc_calls == 1 && r == rec_len, "length of the text");
      VF_CHECK(vf_eq(s, I.txt, rec_len), "the text");
      VF_CHECK(rec_n == (size_t)33 + c, "prefix, key, flag byte");
      VF_CHECK(rec[0] == SEC[net] && vf_eq(rec + 1, I.k, 32), "prefix, then key");
      if (c) VF_CHECK(rec[33] == 1, "a byte 1 marks the compressed form");
      VF_CHECK(vf_eq(k, I.k, 32), "key unchanged");
      int flag = 77;
      u8 *t = vf_dup(s, rec_len);
      VF_CHECK(fingera_btc_key_from_string((const char *)t, rec_len, o, &flag, NET[net]) != 0, "own text is accepted");
      VF_CHECK(dec_calls == 1, "decoded once");
      VF_CHECK((flag != 0) == c, "compression flag");
      VF_CHECK(vf_eq(o, I.k, 32), "round trip");
      VF_CHECK(live_blocks == 0, "no leak");
    }
}
#elif OP == 2
static void one(size_t len) {
  for (int net = 0; net < 2; net++) {
    u8 *s = vf_dup(I.l, len), *o = vf_buf(32);
    int flag = 77;
    dec_fixed = 1; dec_str = s; dec_str_n = len;
    int r = fingera_btc_key_from_string((const char *)s, len, o, &flag, NET[net]);
    size_t g = I.dat_n;
    int ok = (g == 33 || (g == 34 && I.dat[33] == 1)) && I.dat[0] == SEC[net];
    VF_CHECK((r != 0) == ok, "accepted iff prefix, 32 bytes and an optional byte 1");
    if (ok) {
      VF_CHECK(vf_eq(o, I.dat + 1, 32), "the key");
      VF_CHECK((flag != 0) == (g == 34), "the flag");
    }
    VF_CHECK(vf_eq(s, I.l, len), "text unchanged");
    VF_CHECK(live_blocks == 0, "no leak");
  }
}
#else
static u32 be(const u8 *p) { return (u32)p[0] << 24 | (u32)p[1] << 16 | (u32)p[2] << 8 | p[3]; }
static void spec74(u8 *w, int pub) {
  w[0] = I.x.depth;
  /* the fingerprint is the first four bytes of the key id, as a little-endian number */
  vf_cpy(w + 1, I.x.fp, 4);
  vf_cpy(w + 5, I.x.ch, 4);
  vf_cpy(w + 9, I.x.chain, 32);
  if (pub) vf_cpy(w + 41, I.x.key, 33);
  else { w[41] = 0; vf_cpy(w + 42, I.x.key, 32); }
}
static void fill(fingera_ex_extension *e) {
  e->depth = I.x.depth;
  e->fingerprint = (u32)I.x.fp[0] | (u32)I.x.fp[1] << 8 | (u32)I.x.fp[2] << 16 | (u32)I.x.fp[3] << 24;
  e->child = be(I.x.ch);
  vf_cpy(e->chain_code, I.x.chain, 32);
}
static void same(const fingera_ex_extension *e, const char *what) {
  (void)what;
  VF_CHECK(e->depth == I.x.depth, "depth");
  VF_CHECK(e->fingerprint == ((u32)I.x.fp[0] | (u32)I.x.fp[1] << 8 | (u32)I.x.fp[2] << 16 | (u32)I.x.fp[3] << 24), "fingerprint");
  VF_CHECK(e->child == be(I.x.ch), "child number");
  VF_CHECK(vf_eq(e->chain_code, I.x.chain, 32), "chain code");
}
#if OP == 3
static void one(size_t off) {
  u8 w[74];
  for (int pub = 0; pub < 2; pub++) {
    spec74(w, pub);
    u8 *b = (u8 *)malloc(74 + off) + off; /* any alignment */
    u8 *in = (u8 *)malloc(74 + off) + off;
    vf_cpy(in, w, 74);
    if (pub) {
      fingera_ex_pubkey p, q;
      fill(&p.ext); vf_cpy(p.c_pubkey, I.x.key, 33);
      fingera_expubkey_encode(&p, b);
      VF_CHECK(vf_eq(b, w, 74), "BIP32 layout of an extended public key");
      same(&p.ext, "input"); VF_CHECK(vf_eq(p.c_pubkey, I.x.key, 33), "input unchanged");
      fingera_expubkey_decode(in, &q);
      same(&q.ext, "decoded"); VF_CHECK(vf_eq(q.c_pubkey, I.x.key, 33), "public key");
    } else {
      fingera_ex_key p, q;
      fill(&p.ext); vf_cpy(p.key, I.x.key, 32);
      fingera_exkey_encode(&p, b);
      VF_CHECK(vf_eq(b, w, 74), "BIP32 layout of an extended private key");
      same(&p.ext, "input"); VF_CHECK(vf_eq(p.key, I.x.key, 32), "input unchanged");
      fingera_exkey_decode(in, &q);
      same(&q.ext, "decoded"); VF_CHECK(vf_eq(q.key, I.x.key, 32), "key");
    }
    VF_CHECK(vf_eq(in, w, 74), "input unchanged");
  }
}
#elif OP == 4
static void one(size_t len) {
  u8 w[74];
  for (int net = 0; net < 3; net++)
    for (int pub = 0; pub < 2; pub++) {
      want_len = len; enc_calls = dec_calls = 0; rec_kind = 0;
      spec74(w, pub);
      u8 *s = vf_buf(fingera_exkey_string_max_length());
      fingera_ex_key p, q; fingera_ex_pubkey pp, qq; size_t r;
      fill(&p.ext); vf_cpy(p.key, I.x.key, 32);
      fill(&pp.ext); vf_cpy(pp.c_pubkey, I.x.key, 33);
      r = pub ? fingera_expubkey_to_string(&pp, (char *)s, NET[net]) : fingera_exkey_to_string(&p, (char *)s, NET[net]);
      VF_CHECK(enc_calls == 1 && r == rec_len, "length of the text");
      VF_CHECK(vf_eq(s, I.txt, rec_len), "the text");
      VF_CHECK(rec_n == 78, "version and 74 bytes");
      VF_CHECK(vf_eq(rec, pub ? XPUB[net] : XPRV[net], 4), "version bytes");
      VF_CHECK(vf_eq(rec + 4, w, 74), "BIP32 layout");
      u8 *t = vf_dup(s, rec_len);
      int ok = pub ? fingera_expubkey_from_string((const char *)t, rec_len, &qq, NET[net]) : fingera_exkey_from_string((const char *)t, rec_len, &q, NET[net]);
      VF_CHECK(ok != 0 && dec_calls == 1, "own text is accepted");
      if (pub) { same(&qq.ext, ""); VF_CHECK(vf_eq(qq.c_pubkey, I.x.key, 33), "public key"); }
      else { same(&q.ext, ""); VF_CHECK(vf_eq(q.key, I.x.key, 32), "key"); }
      VF_CHECK(live_blocks == 0, "no leak");
    }
}
#else
static void one(size_t len) {
  for (int net = 0; net < 2; net++)
#ifdef PRIVONLY
    for (int pub = 0; pub < 1; pub++) {
#else
    for (int pub = 0; pub < 2; pub++) {
#endif
      u8 *s = vf_dup(I.l, len);
      dec_fixed = 1; dec_str = s; dec_str_n = len;
      fingera_ex_key q; fingera_ex_pubkey qq;
      int r = pub ? fingera_expubkey_from_string((const char *)s, len, &qq, NET[net]) : fingera_exkey_from_string((const char *)s, len, &q, NET[net]);
      int ok = I.dat_n == 78 && vf_eq(I.dat, pub ? XPUB[net] : XPRV[net], 4) && (pub || I.dat[45] == 0);
      VF_CHECK((r != 0) == ok, "accepted iff version, size and pad byte are right");
      if (ok) {
        u8 b[74];
        if (pub) { fingera_expubkey_encode(&qq, b); } else fingera_exkey_encode(&q, b);
        const fingera_ex_extension *e = pub ? &qq.ext : &q.ext;
        VF_CHECK(e->depth == I.dat[4], "depth");
        VF_CHECK(e->fingerprint == ((u32)I.dat[5] | (u32)I.dat[6] << 8 | (u32)I.dat[7] << 16 | (u32)I.dat[8] << 24), "fingerprint");
        VF_CHECK(e->child == be(I.dat + 9), "child number");
        VF_CHECK(vf_eq(e->chain_code, I.dat + 13, 32), "chain code");
        if (pub) VF_CHECK(vf_eq(qq.c_pubkey, I.dat + 45, 33), "public key");
        else VF_CHECK(vf_eq(q.key, I.dat + 46, 32), "key");
        VF_CHECK(vf_eq(b, I.dat + 4, 74), "re-encodes to the same bytes");
      }
      VF_CHECK(vf_eq(s, I.l, len), "text unchanged");
      VF_CHECK(live_blocks == 0, "no leak");
    }
}
#endif
#endif
#define X(l) one(l);
static void vf_main(void) {
  LENS
#if defined WIPE
  VF_CHECK(blk_wiped == blk_n, "every block is released");
#endif
}
#include "vf_main.c"
