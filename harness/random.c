#include "vf.h"
#include <fingera_libc/random.h>
#include <stdio.h>
/* The operating system: open/read/close/... of the library are renamed to the
 * stand-ins below, whose behaviour is arbitrary (I).  The process ending is
 * modelled by leaving the run; the harness checks the status. */
/* The byte at source position pos (arbitrary) has the arbitrary value x; that it
 * ends up at base[pos] for every pos and x says that all bytes do. */
struct vf_in { u8 sent[NN(LEN)]; u8 split[CALLS * 2]; u8 openfail, fail_at, fail_kind, fd, x, pos[2]; };
static size_t given, calls, opened, closed, wanted;
static int failed;
static u8 *base;
static int fdno(void) { return 3 + (I.fd & 63); }
static void done(void);
#ifdef __CPROVER
#define LEAVE() do { done(); __CPROVER_assert(0, "VFWITNESS"); __CPROVER_assume(0); } while (0)
#else
#define LEAVE() do { done(); printf("VF-PASS (process ended)\n"); fflush(stdout); _Exit(0); } while (0)
#endif
int vf_open(const char *p, int flags, ...) {
  VF_CHECK(p != NULL, "path");
  const char *a = "/dev/urandom", *b = "/dev/random";
  int same_a = 1, same_b = 1;
  for (int i = 0; i < 13; i++) { if (p[i] != a[i]) same_a = 0; if (!same_a && (i == 0 || p[i - 1])) break; }
  for (int i = 0; i < 12; i++) { if (p[i] != b[i]) same_b = 0; if (!same_b && (i == 0 || p[i - 1])) break; }
  VF_CHECK(same_a || same_b, "the operating system's random source is opened");
  VF_CHECK((flags & 3) == 0, "opened for reading");
  if (I.openfail & 1) { failed = 1; return -1; }
  opened++;
  return fdno();
}
long vf_read(int fd, void *buf, size_t n) {
  VF_CHECK(opened == closed + 1 && fd == fdno(), "reads from the open source");
  if (n == 0) return 0;
  if (calls == I.fail_at) { failed = 1; return (I.fail_kind & 1) ? -1 : 0; }
  size_t k = calls < CALLS ? (size_t)I.split[2 * calls] << 8 | I.split[2 * calls + 1] : n;
  calls++;
  if (k == 0) k = 1;
  if (k > n) k = n; /* from the CALLS-th call on reads are complete */
  size_t pos = (size_t)I.pos[0] << 8 | I.pos[1];
#ifdef __CPROVER
  VF_CHECK(__CPROVER_w_ok(buf, n), "the memory a read is asked to fill exists");
#else
  for (size_t i = 0; i < n; i++) ((volatile u8 *)buf)[i] = ((volatile u8 *)buf)[i];
  for (size_t i = 0; i < k; i++) ((u8 *)buf)[i] = ~I.x;
#endif
  if (pos >= given && pos < given + k) ((u8 *)buf)[pos - given] = I.x;
  given += k;
  return (long)k;
}
int vf_close(int fd) {
  VF_CHECK(opened == closed + 1 && fd == fdno(), "closes the open source");
  closed++;
  return 0;
}
static int status, ended;
void vf_exit(int st) { status = st; ended = 1; LEAVE(); }
void vf_abort(void) { status = 134; ended = 1; LEAVE(); }
int vf_fflush(FILE *f) { (void)f; return 0; }
int vf_fprintf(FILE *f, const char *fmt, ...) { (void)f; (void)fmt; return 0; }
int vf_vfprintf(FILE *f, const char *fmt, __builtin_va_list a) { (void)f; (void)fmt; (void)a; return 0; }
char *vf_strerror(int e) { (void)e; return (char *)"?"; }
static void done(void) {
  VF_CHECK(ended && (status & 0xFF) != 0, "the process ends with a failure status");
  VF_CHECK(failed, "the process ends only when the source fails");
}
static void vf_main(void) {
  wanted = LEN;
  base = vf_dup(I.sent, wanted); /* exactly sized */
  size_t pos = (size_t)I.pos[0] << 8 | I.pos[1];
  fingera_os_rand_bytes(base, wanted);
  VF_CHECK(!ended && !failed, "no return after a failure of the source");
  VF_CHECK(given >= wanted, "enough bytes are read");
  if (pos < wanted) VF_CHECK(base[pos] == I.x, "every byte comes from the source, in order");
  VF_CHECK(opened == closed, "the source is released");
}
#include "vf_main.c"
