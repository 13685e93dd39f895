#include "vf.h"
#include <fingera_libc/endian.h>
struct vf_in { u8 d[16]; u8 v[4]; };
static void one(size_t o) {
  u8 *p4 = vf_buf(o + 4), *p8 = vf_buf(o + 8);
  vf_cpy(p4, I.d, o + 4); vf_cpy(p8, I.d, o + 8);
  u64 l = 0, b = 0;
  for (int i = 0; i < 8; i++) { l |= (u64)I.d[o + i] << (8 * i); b = b << 8 | I.d[o + i]; }
  VF_CHECK(read_little_32(p4 + o) == (u32)l && le32(p4, o) == (u32)l, "little endian 32");
  VF_CHECK(read_big_32(p4 + o) == (u32)(b >> 32) && be32(p4, o) == (u32)(b >> 32), "big endian 32");
  VF_CHECK(read_little_64(p8 + o) == l && le64(p8, o) == l, "little endian 64");
  VF_CHECK(read_big_64(p8 + o) == b && be64(p8, o) == b, "big endian 64");
  VF_CHECK(vf_eq(p4, I.d, o + 4) && vf_eq(p8, I.d, o + 8), "reading changes nothing");
  u32 v = (u32)I.v[0] << 24 | (u32)I.v[1] << 16 | (u32)I.v[2] << 8 | I.v[3];
  write_big_32(p4 + o, v);
  VF_CHECK(vf_eq(p4 + o, I.v, 4) && vf_eq(p4, I.d, o), "big endian write");
  VF_CHECK(read_big_32(p4 + o) == v, "big endian round trip");
  write_little_32(p4 + o, v);
  VF_CHECK(p4[o] == I.v[3] && p4[o + 1] == I.v[2] && p4[o + 2] == I.v[1] && p4[o + 3] == I.v[0] && vf_eq(p4, I.d, o), "little endian write");
  VF_CHECK(read_little_32(p4 + o) == v, "little endian round trip");
  write_big_32(p8 + o, v);
  VF_CHECK(vf_eq(p8 + o, I.v, 4) && vf_eq(p8, I.d, o) && vf_eq(p8 + o + 4, I.d + o + 4, 4), "big endian write stores 4 bytes only");
  write_little_32(p8 + o, v);
  VF_CHECK(p8[o] == I.v[3] && p8[o + 3] == I.v[0] && vf_eq(p8, I.d, o) && vf_eq(p8 + o + 4, I.d + o + 4, 4), "little endian write stores 4 bytes only");
}
static void vf_main(void) { for (size_t o = 0; o < 8; o++) one(o); }
#include "vf_main.c"
