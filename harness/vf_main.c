/* included at the end of every harness (-include is not enough: needs struct vf_in) */
struct vf_in I;
#ifdef __CPROVER
struct vf_in nondet_vf_in(void);
int main(void) {
  I = nondet_vf_in();
  vf_main();
  __CPROVER_assert(0, "VFWITNESS");
  return 0;
}
#else
void vf_fail(const char *msg, const char *file, int line) {
  printf("VF-FAIL %s (%s:%d)\n", msg, file, line);
  fflush(stdout);
  _Exit(1);
}
void vf_skip(const char *what) {
  printf("VF-ASSUME %s\n", what);
  fflush(stdout);
  _Exit(2);
}
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "rb") : NULL;
  if (f) {
    size_t n = fread(&I, 1, sizeof(I), f);
    if (n != sizeof(I)) { printf("VF-INPUT short %zu/%zu\n", n, sizeof(I)); return 3; }
    fclose(f);
  } else {
    return 3;
  }
  vf_main();
  printf("VF-PASS\n");
  fflush(stdout);
  _Exit(0);
}
#endif
