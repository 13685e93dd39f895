#include "vf.h"
#include <fingera_libc/cleanse.h>
/* X(size of the block): any range of it is wiped; two contents end up the same */
struct vf_in { u8 a[MAXL + 1], b[MAXL + 1], off, n; };
static void one(size_t L) {
  u8 *a = vf_dup(I.a, L), *b = vf_dup(I.b, L);
  size_t offs[3] = {0, 1, 5}, cuts[3] = {0, 1, 6};
  for (int k = 0; k < 3; k++) {
    size_t off = offs[k], end = L - cuts[k];
    if (off + cuts[k] > L) continue;
    vf_cpy(a, I.a, L); vf_cpy(b, I.b, L);
    fingera_cleanse(a + off, end - off);
    fingera_cleanse(b + off, end - off);
    for (size_t i = 0; i < L; i++) {
      if (i < off || i >= end) VF_CHECK(a[i] == I.a[i], "bytes outside the range are kept");
      else VF_CHECK(a[i] == b[i], "what is left does not depend on the content");
    }
  }
}
#define X(l) one(l);
static void vf_main(void) { LENS }
#include "vf_main.c"
