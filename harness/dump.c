#include "vf.h"
#include <fingera_libc/hex.h>
#include <stdio.h>
/* stdout is a stand-in: the library's stdio output functions are renamed to the
 * vf_ ones below, which compare every character with the specified one. */
struct vf_in { u8 d[NN(MAXL)]; };
static const u8 *cur;
static size_t L, bi, part; /* next expected: byte bi; part counts its characters */
static int up, complete, overrun;
static size_t seps(size_t i) { return i == 0 ? 0 : (i % 4 == 0) + (i % 8 == 0) + (i % 16 == 0) + (i % 32 == 0); }
static u8 digit(unsigned v) { return v < 10 ? '0' + v : (up ? 'A' : 'a') + v - 10; }
static void put(u8 c) {
  if (complete) { overrun = 1; VF_CHECK(0, "nothing is printed after the final newline"); return; }
  if (bi == L) { VF_CHECK(c == '\n', "final newline"); complete = 1; return; }
  size_t s = seps(bi);
  if (part < s) VF_CHECK(c == (part == 3 ? '\n' : ' '), "separator");
  else if (part == s) VF_CHECK(c == digit(cur[bi] >> 4), "high digit");
  else VF_CHECK(c == digit(cur[bi] & 15), "low digit");
  if (++part == s + 2) { bi++; part = 0; }
}
size_t vf_fwrite(const void *p, size_t size, size_t n, FILE *f) {
  VF_CHECK(f == stdout, "to standard output");
  for (size_t i = 0; i < size * n; i++) put(((const u8 *)p)[i]);
  return n;
}
int vf_fputc(int c, FILE *f) { VF_CHECK(f == stdout, "to standard output"); put((u8)c); return c; }
int vf_putchar(int c) { put((u8)c); return c; }
int vf_fputs(const char *s, FILE *f) { VF_CHECK(f == stdout, "to standard output"); while (*s) put((u8)*s++); return 1; }
int vf_puts(const char *s) { while (*s) put((u8)*s++); put('\n'); return 1; }
static void one(size_t l, int upper) {
  L = l; bi = part = 0; complete = overrun = 0; up = upper;
  u8 *in = vf_dup(I.d, l);
  cur = I.d;
  fingera_hex_dump(in, l, upper);
  VF_CHECK(complete, "everything is printed");
  VF_CHECK(vf_eq(in, I.d, l), "buffer unchanged");
}
#define X(l) one(l, UP);
static void vf_main(void) { LENS }
#include "vf_main.c"
