/* runs one operation of wipe_case.c with two secrets on the same fresh stack and
 * compares what is left on it and in released heap blocks; exit 1 if it differs.
 * file: op a dn ok\n secret[320] secret[320] */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
extern unsigned char vf_sec[320]; extern unsigned long vf_dn; extern int vf_ok;
void vf_case(int, unsigned long);
static unsigned char dump[2][1 << 20], arena[1 << 20]; static size_t dn[2], top; static int run_;
static struct { void *p; size_t n; } blk[64];
void *vf_malloc(size_t n) {
  if (n > sizeof arena - top - 64) return NULL;
  void *p = arena + top; top += (n + 64) & ~(size_t)63;
  for (int i = 0; i < 64; i++) if (!blk[i].p) { blk[i].p = p; blk[i].n = n; break; }
  return p;
}
void vf_free(void *p) {
  for (int i = 0; i < 64; i++) if (p && blk[i].p == p) {
    for (size_t k = 0; k < blk[i].n && dn[run_] < sizeof dump[0]; k++) dump[run_][dn[run_]++] = ((unsigned char *)p)[k];
    blk[i].p = NULL;
  }
}
void *vf_calloc(size_t a, size_t b) { void *p = vf_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
static ucontext_t mc, fc; static unsigned char stk[2][1 << 18];
static int op; static unsigned long a;
static void call(void) { vf_case(op, a); }
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "rb") : NULL;
  if (!f || fscanf(f, "%d %lu %lu %d", &op, &a, &vf_dn, &vf_ok) != 4) return 3;
  fgetc(f);
  for (run_ = 0; run_ < 2; run_++) {
    if (fread(vf_sec, 1, 320, f) != 320) return 3;
    top = 0; memset(arena, 0, sizeof arena); memset(stk[0], 0, sizeof stk[0]);
    getcontext(&fc); fc.uc_stack.ss_sp = stk[0]; fc.uc_stack.ss_size = sizeof stk[0]; fc.uc_link = &mc;
    makecontext(&fc, call, 0); swapcontext(&mc, &fc);
    if (run_ == 0) memcpy(stk[1], stk[0], sizeof stk[0]);
  }
  int bad = 0; size_t d = 0, n = 0;
  if (dn[0] != dn[1] || memcmp(dump[0], dump[1], dn[0])) { printf("WRONG released heap memory still depends on the secret\n"); bad = 1; }
  for (size_t i = 0; i < sizeof stk[0]; i++) { n = stk[0][i] != stk[1][i] ? n + 1 : 0; if (n > d) d = n; }
  if (d > 8) { printf("WRONG released stack memory still depends on the secret (%lu bytes)\n", (unsigned long)d); bad = 1; }
  fflush(stdout); _Exit(bad);
}
