/* replays one hash case against the really compiled library: exit 1 if wrong */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/btc/hash.h>
static unsigned char *get(FILE *f, size_t n, int zero) {
  unsigned char *p = zero ? calloc(1, n) : malloc(n);
  if (!zero && n && fread(p, 1, n, f) != n) exit(3);
  return p;
}
/* file: steps; each step: op klen mlen zero dlen align\n key msg digest */
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "rb") : NULL;
  char op[32]; unsigned long long kl, ml; int zero, dl, al, bad = 0;
  if (!f) return 3;
  while (fscanf(f, "%31s %llu %llu %d %d %d", op, &kl, &ml, &zero, &dl, &al) == 6) {
    fgetc(f);
    unsigned char *key = get(f, kl, 0), *msg, *m0 = NULL, *want;
    if (al) { m0 = malloc(ml + al); msg = m0 + al; if (ml && fread(msg, 1, ml, f) != ml) return 3; }
    else msg = get(f, ml, zero);
    want = get(f, dl, 0);
    unsigned char *out = malloc(dl);
    if (!strcmp(op, "sha1")) fingera_sha1(msg, ml, out);
    else if (!strcmp(op, "sha256")) fingera_sha2_256(msg, ml, out);
    else if (!strcmp(op, "sha512")) fingera_sha2_512(msg, ml, out);
    else if (!strcmp(op, "rmd160")) fingera_ripemd160(msg, ml, out);
    else if (!strcmp(op, "hmac256")) fingera_hmac_sha256(key, kl, msg, ml, out);
    else if (!strcmp(op, "hmac512")) fingera_hmac_sha512(key, kl, msg, ml, out);
    else if (!strcmp(op, "hash160")) fingera_btc_hash160(msg, ml, out);
    else if (!strcmp(op, "hash256")) fingera_btc_hash256(msg, ml, out);
    else if (!strcmp(op, "d64")) fingera_btc_hash256_d64(out, msg, ml / 64);
    else if (!strcmp(op, "bip32")) {
      uint32_t c; memcpy(&c, msg + 33, 4);
      fingera_btc_bip32_hash(key, c, msg[0], msg + 1, out);
    } else return 3;
    if (memcmp(out, want, dl)) {
      printf("WRONG %s key %llu message %llu bytes\n got  ", op, kl, ml);
      for (int i = 0; i < dl; i++) printf("%02x", out[i]);
      printf("\n want "); for (int i = 0; i < dl; i++) printf("%02x", want[i]);
      printf("\n"); bad = 1;
    }
    fgetc(f);
  }
  fflush(stdout);
  _Exit(bad);
}
