/* replays a history: F(a), G(c), F(b) in a's memory, F(a) from other memory, in one
 * process; each result must be that of the same call in a process of its own.
 * file: F n G m\n a[n] b[n] c[m];  exit 1 if a result differs or an input is changed */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
void vf_init(void);
size_t vf_op(int f, unsigned char *p, size_t n, unsigned char *o);
struct res { size_t n; int ok; unsigned char o[4096]; };
static struct res *R; static int changed;
static void go(int k, int f, unsigned char *p, size_t n) {
  unsigned char *keep = malloc(n + 1); memcpy(keep, p, n);
  R[k].n = vf_op(f, p, n, R[k].o); R[k].ok = 1;
  if (memcmp(keep, p, n)) { printf("WRONG a call changed its input\n"); fflush(stdout); R[k].ok = 2; }
}
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "rb") : NULL; int F, G; unsigned long n, m;
  if (!f || fscanf(f, "%d %lu %d %lu", &F, &n, &G, &m) != 4) return 3;
  fgetc(f);
  unsigned char *a = malloc(n + 1), *b = malloc(n + 1), *c = malloc(m + 1), *p = malloc(n + 1);
  if (fread(a, 1, n, f) != n || fread(b, 1, n, f) != n || fread(c, 1, m, f) != m) return 3;
  R = mmap(NULL, 8 * sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (int k = 0; k < 3; k++) {
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      vf_init();
      if (k == 0) go(0, F, a, n);
      if (k == 1) go(1, F, b, n);
      if (k == 2) {
        memcpy(p, a, n); go(2, F, p, n);
        if (G) go(3, G, c, m);
        memcpy(p, b, n); go(4, F, p, n);
        go(5, F, a, n);
      }
      _exit(0);
    }
    waitpid(pid, NULL, 0);
  }
  int bad = 0;
  for (int k = 0; k < 6; k++) if (R[k].ok == 2) bad = 1;
  int pr[3][2] = {{0, 2}, {1, 4}, {0, 5}};
  for (int k = 0; k < 3; k++) {
    struct res *x = &R[pr[k][0]], *y = &R[pr[k][1]];
    if (!x->ok) continue; /* the call alone already ends the process */
    if (!y->ok || x->n != y->n || memcmp(x->o, y->o, x->n < 4096 ? x->n : 4096)) {
      printf("WRONG the result depends on earlier calls: alone %lu bytes ", (unsigned long)x->n);
      for (size_t i = 0; i < x->n && i < 100; i++) printf("%02x", x->o[i]);
      printf(", after other calls %lu bytes ", (unsigned long)y->n);
      for (size_t i = 0; i < y->n && i < 100; i++) printf("%02x", y->o[i]);
      printf("\n"); bad = 1;
    }
  }
  fflush(stdout); _exit(bad);
}
