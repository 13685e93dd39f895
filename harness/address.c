#include "vf.h"
#include <fingera_libc/btc/address.h>
/* OP 1: base58 kinds X(payload size, text length); 2: witness version 0 X(size, 0);
 * 3: witness programs X(version + program size, 0); 4: wrong sizes for version 0 (NDEBUG);
 * 5: decoding arbitrary text X(text length, human-readable part, output size - text length) */
struct vf_in;
#define CODEC_DAT 100
#define CODEC_TXT 140
#ifndef NET0
#define NET0 0
#define NET1 3
#endif
struct vf_in { u8 txt[CODEC_TXT]; u8 dat[CODEC_DAT]; u8 dat_n, junk; u8 pl[64]; u8 hrp[96], val[96]; };
#include "codec.h"
#include "memtrack.h"
static const chain_parameters *NET[3] = {&g_mainnet_chain_parameters, &g_testnet_chain_parameters, &g_regnet_chain_parameters};
static const u8 PK[3] = {0x00, 0x6F, 0x6F}, SC[3] = {0x05, 0xC4, 0xC4};
static const char *HRP[3] = {"bc", "tb", "bcrt"};
static const size_t HRPN[3] = {2, 2, 4};
static u8 rh[8]; static size_t rh_n;
static size_t x_hn, x_n; /* what a successful encoding must have written */
void vf_b32_enc(const char *hrp, size_t hn, const u8 *b, size_t n, char *out) {
  enc_calls++;
  VF_CHECK(hn <= 8 && n <= CODEC_DAT, "model capacity");
  for (size_t i = 0; i < hn; i++) rh[i] = (u8)hrp[i];
  for (size_t i = 0; i < n; i++) { VF_CHECK(b[i] < 32, "5-bit values"); rec[i] = b[i]; }
  rh_n = hn; rec_n = n; rec_kind = 2; rec_len = hn + n + 7;
  for (size_t i = 0; i < hn + n + 7; i++) out[i] = (char)I.txt[i];
}
static size_t dec_hn; static int dec_none, dec_ok; /* what the arbitrary text looks like */
int vf_b32_dec(const char *str, size_t n, char *hrp, size_t *hn, void *b32) {
  dec_calls++;
  if (dec_fixed) VF_CHECK(str == dec_str && n == dec_str_n, "the text given is decoded");
  else {
    VF_CHECK(is_rec(str, n), "the text written is read");
    VF_CHECK(rec_kind == 2 && rh_n == x_hn && rec_n == x_n, "a segwit address was written");
    if (*hn < x_hn) return -3;
    for (size_t i = 0; i < x_hn; i++) hrp[i] = (char)rh[i];
    *hn = x_hn;
    for (size_t i = 0; i < x_n; i++) ((u8 *)b32)[i] = rec[i];
    return (int)x_n;
  }
  if (dec_none) return -1;
  size_t H = dec_hn, N = n - 7 - H;
  if (*hn < H) return -3;
  *hn = H;
  for (size_t i = 0; i < H; i++) hrp[i] = (char)I.hrp[i];
  for (size_t i = 0; i < N; i++) ((u8 *)b32)[i] = I.val[i];
  return dec_ok ? (int)N : -5;
}
static void reset(size_t len) { seg = OP == 2 || OP == 3; want_len = len; enc_calls = dec_calls = 0; rec_kind = 0; }
static void back(const u8 *text, size_t n, int net, int type, const u8 *pl, size_t pn, const char *msg) {
  (void)msg;
  u8 *t = vf_dup(text, n), *o = vf_buf(n);
  size_t on = n;
  int r = fingera_btc_address_decode((const char *)t, n, o, &on, NET[net]);
  VF_CHECK(r == type, "decodes to the same type");
  VF_CHECK(on == pn && vf_eq(o, pl, pn), "decodes to the same payload");
  VF_CHECK(live_blocks == 0, "no leak");
}
#if OP == 1
static void one(size_t n, size_t len) {
  for (int net = NET0; net < NET1; net++)
    for (int sc = 0; sc < 2; sc++)
      for (int s = -1; s < 2; s++) {
        reset(len);
        size_t cap = fingera_to_base58_check_length(n, 1), os = cap + s;
        u8 *in = vf_dup(I.pl, n), *o = vf_buf(os);
        size_t r = sc ? fingera_to_address_script(in, n, (char *)o, os, NET[net]) : fingera_to_address_pubkey(in, n, (char *)o, os, NET[net]);
        if (s < 0) { VF_CHECK(r == 0 || (enc_calls == 1 && rec_len <= os), "refused, or complete"); if (r == 0) continue; }
        VF_CHECK(enc_calls == 1 && r == rec_len && rec_kind == 1, "length of the address");
        VF_CHECK(rec_n == n + 1 && rec[0] == (sc ? SC : PK)[net], "network prefix");
        VF_CHECK(vf_eq(rec + 1, I.pl, n), "payload");
        VF_CHECK(vf_eq(o, I.txt, rec_len), "text");
        VF_CHECK(vf_eq(in, I.pl, n), "input unchanged");
        back(o, rec_len, net, sc ? BTC_SCRIPT_ADDRESS : BTC_PUBKEY_ADDRESS, I.pl, n, "");
      }
}
#elif OP == 2 || OP == 3
static void one(size_t n, size_t dummy) {
  u8 pl[64];
  int good = 1;
#if OP == 3
  VF_ASSUME(VER ? (I.pl[0] >= 1 && I.pl[0] <= 16) : !(I.pl[0] >= 1 && I.pl[0] <= 16));
  good = VER && n >= 3 && n <= 41;
  vf_cpy(pl, I.pl + 1, n ? n - 1 : 0);
  size_t pn = n - 1; u8 ver = I.pl[0];
#else
  vf_cpy(pl, I.pl, n);
  size_t pn = n; u8 ver = 0;
#endif
  for (int net = NET0; net < NET1; net++)
    for (int s = -1; s < 3; s++) {
      reset(0);
      size_t need = good ? HRPN[net] + 7 + 1 + (pn * 8 + 4) / 5 : 60, os = s == 2 ? 0 : need + s;
      u8 *in = vf_dup(I.pl, n), *o = vf_buf(os);
      size_t groups = good ? 1 + (pn * 8 + 4) / 5 : 0;
      x_hn = HRPN[net]; x_n = groups;
#if OP == 3
      size_t r = fingera_to_address_witness_unknown(in, n, (char *)o, os, NET[net]);
      int type = BTC_WITNESS_UNKNOWN_ADDRESS;
#else
      size_t r = n == 20 ? fingera_to_address_witnessv0_keyhash(in, n, (char *)o, os, NET[net]) : fingera_to_address_witnessv0_scripthash(in, n, (char *)o, os, NET[net]);
      int type = n == 20 ? BTC_WITNESSV0_KEYHASH_ADDRESS : BTC_WITNESSV0_SCRIPTHASH_ADDRESS;
#endif
      VF_CHECK(vf_eq(in, I.pl, n), "input unchanged");
      if (!good || os < need) { VF_CHECK(r == 0, "refused"); continue; }
      VF_CHECK(enc_calls == 1 && rec_kind == 2 && r == need && rec_len == need, "length of the address");
      VF_CHECK(rh_n == HRPN[net] && vf_eq(rh, HRP[net], HRPN[net]), "human-readable part of the network");
      VF_CHECK(rec_n == groups && rec[0] == ver, "witness version, then the program in groups of 5 bits");
      for (size_t i = 0; i + 1 < groups; i++) {
        size_t bit = 5 * i;
        u32 two = (u32)pl[bit / 8] << 8 | (bit / 8 + 1 < pn ? pl[bit / 8 + 1] : 0);
        VF_CHECK(rec[1 + i] == (two >> (11 - bit % 8) & 31), "5-bit group of the program");
      }
      VF_CHECK(vf_eq(o, I.txt, need), "text");
#if OP == 3
      back(o, need, net, type, I.pl, n, "");
#else
      back(o, need, net, type, I.pl, n, "");
#endif
    }
}
#elif OP == 4
static void one(size_t n, size_t key) {
  u8 *in = vf_dup(I.pl, n), *o = vf_buf(90);
  size_t r = key ? fingera_to_address_witnessv0_keyhash(in, n, (char *)o, 90, NET[0]) : fingera_to_address_witnessv0_scripthash(in, n, (char *)o, 90, NET[0]);
  VF_CHECK(r == 0, "other sizes are refused");
}
#elif OP == 5
static void one(size_t L, size_t H, int slack, int good) {
  for (int net = NET0; net < NET1; net++) {
    u8 *t = vf_dup(I.txt, L);
    size_t os = slack < -1 && (size_t)-slack > L ? 0 : L + slack, on = os;
    u8 *o = vf_buf(os);
    dec_fixed = 1; dec_str = t; dec_str_n = L; dec_hn = H; dec_ok = good; dec_none = H == 0 || L < H + 7 || L > 90;
    int r = fingera_btc_address_decode((const char *)t, L, o, &on, NET[net]);
    int type = BTC_BAD_ADDRESS;
    u8 w[100]; size_t wn = 0;
    if (I.dat_n >= 1 && (I.dat[0] == PK[net] || I.dat[0] == SC[net])) {
      type = I.dat[0] == PK[net] ? BTC_PUBKEY_ADDRESS : BTC_SCRIPT_ADDRESS;
      wn = I.dat_n - 1;
      vf_cpy(w, I.dat + 1, CODEC_DAT - 1);
    } else if (!dec_none && dec_ok && H == HRPN[net] && vf_eq(I.hrp, HRP[net], H)) {
      size_t N = L - 7 - H;
      if (N >= 1) {
        size_t bits = 5 * (N - 1), bytes = bits / 8, pad = bits % 8;
        int ok = pad < 5 && (pad == 0 || (I.val[N - 1] & ((1 << pad) - 1)) == 0);
        u8 v = I.val[0];
        ok = ok && v <= 16 && bytes >= 2 && bytes <= 40 && (v || bytes == 20 || bytes == 32);
        if (ok) {
          size_t off = v ? 1 : 0;
          type = v ? BTC_WITNESS_UNKNOWN_ADDRESS : bytes == 20 ? BTC_WITNESSV0_KEYHASH_ADDRESS : BTC_WITNESSV0_SCRIPTHASH_ADDRESS;
          wn = bytes + off;
          for (size_t i = 0; i < bytes; i++) {
            u32 acc = 0; size_t first = 8 * i / 5; /* the byte's bits lie in groups first .. first+2 */
            for (size_t k = 0; k < 3; k++) acc = acc << 5 | (first + k + 1 < N ? I.val[1 + first + k] : 0);
            u8 b = (u8)(acc >> (15 - 8 - (8 * i - 5 * first)));
            if (v) w[1 + i] = b; else w[i] = b;
          }
          if (v) w[0] = v;
        }
      }
    }
    if (os < L && r == BTC_BAD_ADDRESS) continue; /* less room than announced may be refused */
    VF_CHECK(r == type, "type of the address");
    if (type != BTC_BAD_ADDRESS) {
      VF_CHECK(on == wn, "size of the payload");
      for (size_t i = 0; i < os && i < 100; i++)
        if (i < wn) VF_CHECK(o[i] == w[i], "payload");
    }
    VF_CHECK(vf_eq(t, I.txt, L), "text unchanged");
    VF_CHECK(live_blocks == 0, "no leak");
  }
}
#endif
#if OP == 5
#define X(a, b, c, d) one(a, b, c, d);
static void vf_main(void) {
  for (size_t i = 0; i < 96; i++) VF_ASSUME(I.val[i] < 32);
  LENS
}
#else
#define X(a, b) one(a, b);
static void vf_main(void) { LENS }
#endif
#include "vf_main.c"
