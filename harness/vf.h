/* Common part of every harness.  A harness defines `struct vf_in` (uint8_t
 * arrays and scalars only, so it has no padding) and `void vf_main(void)`.
 * Under CBMC the single global I of that type is arbitrary; natively it is read
 * from the replay file, so the very same harness re-runs a counterexample
 * against the really compiled library under ASan and UBSan. */
#ifndef VF_H
#define VF_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
typedef uint8_t u8;
typedef uint32_t u32;
typedef uint64_t u64;
extern struct vf_in I;
#ifdef __CPROVER
void *malloc(size_t);
void free(void *);
#define VF_CHECK(c, msg) __CPROVER_assert((c), "VF: " msg)
#define VF_ASSUME(c) __CPROVER_assume(c)
#else
#include <stdio.h>
#include <stdlib.h>
void vf_fail(const char *msg, const char *file, int line);
void vf_skip(const char *what);
#define VF_CHECK(c, msg) do { if (!(c)) vf_fail(msg, __FILE__, __LINE__); } while (0)
#define VF_ASSUME(c) do { if (!(c)) vf_skip(#c); } while (0)
#endif
/* exactly sized heap block: any access outside [0,n) is an error */
static inline u8 *vf_buf(size_t n) { return (u8 *)malloc(n); }
static inline u8 *vf_dup(const u8 *src, size_t n) {
  u8 *p = (u8 *)malloc(n);
  for (size_t i = 0; i < n; i++) p[i] = src[i];
  return p;
}
static inline int vf_eq(const void *a, const void *b, size_t n) {
  const u8 *x = (const u8 *)a, *y = (const u8 *)b;
  int r = 1;
  for (size_t i = 0; i < n; i++) r &= (x[i] == y[i]);
  return r;
}
static inline void vf_cpy(void *a, const void *b, size_t n) {
  u8 *x = (u8 *)a; const u8 *y = (const u8 *)b;
  for (size_t i = 0; i < n; i++) x[i] = y[i];
}
static inline int vf_all(const void *a, u8 v, size_t n) {
  const u8 *x = (const u8 *)a;
  int r = 1;
  for (size_t i = 0; i < n; i++) r &= (x[i] == v);
  return r;
}
/* SPARSE=k: only the first two, last three and every k-th position symbolic, the
 * rest concrete filler -- used for lengths where a full query is too big */
static inline int vf_sym(size_t i, size_t n) {
#ifdef SPARSE
  return i < 2 || i + 3 >= n || i % SPARSE == 5;
#else
  (void)i; (void)n;
  return 1;
#endif
}
static inline u8 *vf_mix(const u8 *sym, size_t n, u8 (*fill)(size_t)) {
  u8 *p = (u8 *)malloc(n);
  for (size_t i = 0; i < n; i++) p[i] = vf_sym(i, n) ? sym[i] : fill(i);
  return p;
}
static inline u8 vf_fill_bytes(size_t i) { return (u8)(i * 37 + 11 + (i >> 8)); }
/* LENS is a list X(0) X(1) ...; a harness defines X and expands LENS */
#define NN(x) ((x) ? (x) : 1) /* array sizes in struct vf_in must be > 0 */
#endif
