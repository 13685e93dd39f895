/* replay of a large-buffer case: "op n m\n" input (n bytes), expected output (m bytes); exit 1: differs */
#include <fingera_libc/base32.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/hex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static int bad(const char *m) { fprintf(stderr, "WRONG %s\n", m); exit(1); }
int main(int argc, char **argv) {
  FILE *f = fopen(argv[1], "rb"); char k[16]; unsigned long n, m;
  if (!f || fscanf(f, "%15s %lu %lu", k, &n, &m) != 3) return 3;
  fgetc(f);
  char *d = malloc(n ? n : 1), *e = malloc(m + 1), *o; size_t r, i;
  if (fread(d, 1, n, f) != n || fread(e, 1, m, f) != m) return 3;
  char *in = malloc(n); memcpy(in, d, n);
#define ENC(name, len, call) if (!strcmp(k, name)) { if (len != m) bad("announced length"); o = malloc(m); call; r = m; }
#define DEC(name, len, call) if (!strcmp(k, name)) { if (len < m) bad("announced length"); o = malloc(len); r = call; }
  o = 0; r = 0;
  ENC("hexl", fingera_to_hex_length(n), fingera_to_hex(in, n, o, 0))
  ENC("hexu", fingera_to_hex_length(n), fingera_to_hex(in, n, o, 1))
  ENC("b64e", fingera_to_base64_length(n), fingera_to_base64(in, n, o))
  ENC("u64e", fingera_to_base64_urlsafe_length(n), fingera_to_base64_urlsafe(in, n, o))
  ENC("b32e", fingera_to_base32_length(n), fingera_to_base32(in, n, o))
  if (!strcmp(k, "r32e")) { o = malloc(m); r = fingera_to_base32_raw(in, n, o); }
  DEC("hexd", fingera_from_hex_length(n), fingera_from_hex(in, n, o))
  DEC("b64d", fingera_from_base64_length(in, n), fingera_from_base64(in, n, o))
  DEC("u64d", fingera_from_base64_urlsafe_length(n), fingera_from_base64_urlsafe(in, n, o))
  DEC("b32d", fingera_from_base32_length(in, n), fingera_from_base32(in, n, o))
  DEC("r32d", fingera_from_base32_raw_length(n), fingera_from_base32_raw(in, n, o))
  if (!strncmp(k, "dump", 4)) {
    char nm[4200]; snprintf(nm, sizeof nm, "%s.out", argv[1]);
    if (!freopen(nm, "wb", stdout)) return 3;
    fingera_hex_dump(in, n, k[4] == 'u'); fclose(stdout);
    FILE *g = fopen(nm, "rb"); o = malloc(m + 1); r = fread(o, 1, m + 1, g); fclose(g); remove(nm);
  }
  if (!o) return 3;
  if (memcmp(in, d, n)) bad("the input is changed");
  if (r != m) bad("returned size");
  for (i = 0; i < m; i++) if (o[i] != e[i]) { fprintf(stderr, "byte %zu ", i); bad("output"); }
  return 0;
}
