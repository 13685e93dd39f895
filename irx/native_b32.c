/* replay of a bech32 case against the real code, with the BIP173 text as reference
 * file: "enc H N\n" part, values | "dec L CAP\n" text;  exit 1: differs */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef uint8_t u8; typedef uint32_t u32;
#include "../harness/b32spec.h"
#include <fingera_libc/btc/bech32.h>
static int bad(const char *m) { printf("WRONG %s\n", m); fflush(stdout); exit(1); }
static void dec(const u8 *t, size_t L, size_t cap) {
  u8 low[L + 1]; size_t p = spec_valid(t, L, low);
  char *s = malloc(L ? L : 1); memcpy(s, t, L);
  char *h = malloc(cap ? cap : 1); u8 *d = malloc(L > 7 ? L - 7 : 1); size_t hs = cap;
  int r = fingera_bech32_decode(s, L, h, &hs, d);
  if (memcmp(s, t, L)) bad("the text is changed");
  if (!p || p > cap) { if (r >= 0) bad(p ? "accepted with too little room for the part" : "invalid string accepted"); }
  else {
    if (r < 0) bad("valid string rejected");
    if ((size_t)r != L - p - 7) bad("number of values");
    if (hs != p) bad("size of the part");
    for (size_t i = 0; i < p; i++) if ((u8)h[i] != low[i]) bad("part");
    for (size_t i = 0; i < (size_t)r; i++) if (d[i] != spec_val(low[p + 1 + i])) bad("value");
  }
  free(s); free(h); free(d);
}
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb"); char k[8]; unsigned long a, b;
  if (!f || fscanf(f, "%7s %lu %lu", k, &a, &b) != 3) return 3;
  fgetc(f);
  if (!strcmp(k, "enc")) {
    u8 *h = malloc(a + 1), *v = malloc(b + 1), *want = malloc(a + b + 7); char *out = malloc(a + b + 7);
    if (fread(h, 1, a, f) != a || fread(v, 1, b, f) != b) return 3;
    spec_bech32(h, a, v, b, want);
    u8 *hc = malloc(a ? a : 1), *vc = malloc(b ? b : 1); memcpy(hc, h, a); memcpy(vc, v, b);
    if (fingera_bech32_encode_length(a, b) != a + b + 7) bad("announced length");
    fingera_bech32_encode((char *)hc, a, vc, b, out);
    if (memcmp(hc, h, a) || memcmp(vc, v, b)) bad("the input is changed");
    if (memcmp(out, want, a + b + 7)) bad("encoded text differs from BIP173");
    if (a + b + 7 <= 90) {
      dec(want, a + b + 7, a);
      for (size_t i = 0; i < a + b + 7; i++) if (want[i] >= 'a' && want[i] <= 'z') want[i] -= 32;
      dec(want, a + b + 7, a);
    }
  } else {
    u8 *t = malloc(a + 1); if (fread(t, 1, a, f) != a) return 3;
    dec(t, a, b);
  }
  return 0;
}
