/* Memory the library allocates: every block is tracked until it is freed. */
#ifndef MEMTRACK_H
#define MEMTRACK_H
static size_t live_blocks;
#ifdef WIPE
/* A released block holds zeros and one wiping pattern only.  What the block held
 * is arbitrary, so data left in it shows as two different nonzero bytes. */
static size_t blk_size[8], blk_n, blk_wiped; static u8 *blk_at[8];
#endif
void *vf_malloc(size_t n) {
  if (n > (size_t)1 << 40) return NULL; /* no allocator grants this */
  u8 *p = (u8 *)malloc(n);
  live_blocks++;
#ifdef WIPE
  for (size_t i = 0; i < n; i++) p[i] = 0;
  VF_CHECK(blk_n < 8, "block table");
  blk_at[blk_n] = p; blk_size[blk_n++] = n;
#endif
  return p;
}
void *vf_calloc(size_t a, size_t b) {
  u8 *p = (u8 *)vf_malloc(a * b);
  if (p) for (size_t i = 0; i < a * b; i++) p[i] = 0;
  return p;
}
void vf_free(void *p) {
  if (!p) return;
  live_blocks--;
#ifdef WIPE
  for (size_t k = 0; k < 8; k++)
    if (k < blk_n && blk_at[k] == p) {
      u8 pat = 0;
      blk_wiped++;
      for (size_t i = 0; i < blk_size[k]; i++) {
        u8 b = ((u8 *)p)[i];
        if (!pat) pat = b;
        VF_CHECK(b == 0 || b == pat, "released scratch memory holds no converted data");
      }
    }
#endif
  free(p);
}
#endif
