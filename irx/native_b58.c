/* replays a base58 case against the really compiled library; exit 1 if wrong.
   file: op inlen outlen prefixlen flag\n input[inlen] expected[outlen]
   op: enc dec cenc cdec   flag 0: compare result, 1: compare scratch memory of two runs */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ucontext.h>
#undef malloc
#undef free
#include <fingera_libc/base58.h>
#include <fingera_libc/btc/base58_check.h>
static unsigned char dump[2][1 << 20]; static size_t dn[2]; static int run_, flag;
/* two-run comparison: same addresses in both runs, no allocator frames on the stack */
static unsigned char arena[1 << 20]; static size_t top;
static void *get(size_t n) {
  if (!flag) return malloc(n);
  if (n > sizeof arena - top - 64) return NULL;
  void *p = arena + top; top += (n + 63) & ~(size_t)63; return p;
}
static struct { void *p; size_t n; } blk[64];
static long live;
void *vf_malloc(size_t n) {
  void *p = n > ((size_t)1 << 33) ? NULL : get(n ? n : 1);
  for (int i = 0; i < 64 && p; i++) if (!blk[i].p) { blk[i].p = p; blk[i].n = n; live++; break; }
  if (p) memset(p, 0xA5, n);
  return p;
}
void vf_free(void *p) {
  if (!p) return;
  for (int i = 0; i < 64; i++) if (blk[i].p == p) {
    for (size_t k = 0; k < blk[i].n && dn[run_] < sizeof dump[0]; k++) dump[run_][dn[run_]++] = ((unsigned char *)p)[k];
    blk[i].p = NULL; live--; if (!flag) free(p); return;
  }
  printf("WRONG free of an unknown block\n"); fflush(stdout); _Exit(1);
}
void *vf_calloc(size_t a, size_t b) { void *p = vf_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
#ifdef STUBHASH /* leaves nothing on the stack */
void fingera_btc_hash256(const void *m, size_t n, void *o) {
  for (int i = 0; i < 32; i++) ((unsigned char *)o)[i] = i + n;
}
#endif
static char op[8]; static size_t il, ol, pl; static unsigned char *in, *out; static size_t r;
static void call(void) {
  if (!strcmp(op, "enc")) { out = get(fingera_to_base58_length(il)); r = fingera_to_base58(in, il, (char *)out); }
  else if (!strcmp(op, "dec")) { out = get(fingera_from_base58_length(il)); r = fingera_from_base58((char *)in, il, out); }
  else if (!strcmp(op, "cenc")) {
    unsigned char *p = get(pl), *b = get(il - pl); memcpy(p, in, pl); memcpy(b, in + pl, il - pl);
    out = get(fingera_to_base58_check_length(il - pl, pl)); r = fingera_to_base58_check(b, il - pl, p, pl, (char *)out); if (!flag) { free(p); free(b); } }
  else if (!strcmp(op, "cdec")) { out = get(fingera_from_base58_check_length(il)); r = fingera_from_base58_check((char *)in, il, out); }
}
static ucontext_t mc, fc; static unsigned char stk[2][1 << 18];
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "rb") : NULL; int bad = 0;
  unsigned long a, b, c;
  if (!f || fscanf(f, "%7s %lu %lu %lu %d", op, &a, &b, &c, &flag) != 5) return 3;
next:
  fgetc(f); il = a; ol = b; pl = c;
  for (run_ = 0; run_ <= flag; run_++) {
    top = 0; memset(arena, 0, sizeof arena); in = get(il); if (il && fread(in, 1, il, f) != il) return 3;
    if (!flag) call();
    else {
      memset(stk[0], 0, sizeof stk[0]);
      getcontext(&fc); fc.uc_stack.ss_sp = stk[0]; fc.uc_stack.ss_size = sizeof stk[0]; fc.uc_link = &mc;
      makecontext(&fc, call, 0); swapcontext(&mc, &fc);
      if (run_ == 0) memcpy(stk[1], stk[0], sizeof stk[0]);
    }
    if (live) { printf("WRONG memory leak\n"); bad = 1; }
    if (!flag) {
      unsigned char *w = malloc(ol + 1); if (ol && fread(w, 1, ol, f) != ol) return 3;
      if (r != ol || memcmp(out, w, ol)) {
        printf("WRONG %s of %lu bytes: got length %lu ", op, (unsigned long)il, (unsigned long)r);
        for (size_t i = 0; i < r && i < 400; i++) printf("%02x", out[i]);
        printf(" want length %lu ", (unsigned long)ol); for (size_t i = 0; i < ol; i++) printf("%02x", w[i]);
        printf("\n"); bad = 1;
      }
    }
  }
  if (!flag && fscanf(f, "%7s %lu %lu %lu %d", op, &a, &b, &c, &flag) == 5) goto next; /* a later call */
  if (flag) {
    size_t d = 0;
    if (dn[0] != dn[1]) { printf("scratch sizes differ\n"); return 3; }
    for (size_t i = 0; i < dn[0]; i++) d += dump[0][i] != dump[1][i];
    if (d) { printf("WRONG released heap memory still depends on the data (%lu bytes)\n", (unsigned long)d); bad = 1; }
    /* pointers and counters differ in at most 6 consecutive bytes, buffers in more */
    d = 0; for (size_t i = 0, n = 0; i < sizeof stk[0]; i++) { n = stk[0][i] != stk[1][i] ? n + 1 : 0; if (n > d) d = n; }
    if (d > 8) { printf("WRONG released stack memory still depends on the data (%lu bytes)\n", (unsigned long)d); bad = 1; }
  }
  fflush(stdout); _Exit(bad);
}
