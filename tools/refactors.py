#!/usr/bin/env python3
"""Development tool: rewrites of the code that keep its behaviour; every check must stay quiet on them.
usage: refactors.py [--test] [id-substrings]   (no check reads this)"""
import os, re, subprocess, sys, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
R = []
def ref(id, file, props, *edits): R.append((id, file, props.split(), edits))
def fn(start, new):
    """replace the function whose text starts with `start` (to the first line that is `}`)"""
    return ("fn", start, new)
def sub(old, new): return ("sub", old, new)

ref("hex-digit-helper", "src/hex.c", "C01 C34",
 fn("size_t fingera_from_hex(", r'''static int hex_pair(const char *p, unsigned char *out) {
  unsigned char hi = HEX_MAP[(unsigned char)p[0]];
  unsigned char lo = HEX_MAP[(unsigned char)p[1]];
  if (hi > 15) return 0;
  if (lo > 15) return 0;
  *out = (unsigned char)(hi * 16 + lo);
  return 1;
}
size_t fingera_from_hex(const char *str, size_t str_len, void *buf) {
  unsigned char *out = (unsigned char *)buf;
  size_t pairs = str_len / 2, n = 0;
  while (n < pairs && hex_pair(str + 2 * n, &out[n])) n++;
  return n;
}'''))
ref("hex-dump-columns", "src/hex.c", "C32 C34",
 fn("void fingera_hex_dump(", r'''static void dump_row(const unsigned char *b, size_t n, const char *digits, int last) {
  char line[32 * 2 + 16];
  size_t len = 0, i;
  for (i = 0; i < n; i++) {
    if (i) {
      int spaces = (i % 4 == 0) + (i % 8 == 0) + (i % 16 == 0);
      while (spaces-- > 0) line[len++] = ' ';
    }
    line[len++] = digits[b[i] / 16];
    line[len++] = digits[b[i] % 16];
  }
  if (!last) { line[len++] = ' '; line[len++] = ' '; line[len++] = ' '; }
  line[len++] = '\n';
  fwrite(line, 1, len, stdout);
}
void fingera_hex_dump(const void *buf, size_t buf_size, int upper) {
  const unsigned char *bytes = (const unsigned char *)buf;
  const char *digits = upper ? HEX_STRING_UPPER : HEX_STRING_LOWER;
  while (buf_size > 32) {
    dump_row(bytes, 32, digits, 0);
    bytes += 32;
    buf_size -= 32;
  }
  dump_row(bytes, buf_size, digits, 1);
}'''))
ref("base64-quad-helper", "src/base64.c", "C02 C03 C34",
 fn("void _fingera_to_base64(", r'''static void put_group(const uint8_t *in, size_t n, char *out, const char *alphabet, int pad) {
  uint32_t v = (uint32_t)in[0] << 16;
  if (n > 1) v |= (uint32_t)in[1] << 8;
  if (n > 2) v |= in[2];
  for (size_t i = 0; i < 4; i++) {
    if (i <= n) out[i] = alphabet[(v >> (18 - 6 * i)) & 63];
    else if (pad) out[i] = '=';
  }
}
void _fingera_to_base64(const void *buf, size_t buf_size, char *out,
                        int url_safe) {
  const uint8_t *input = (const uint8_t *)buf;
  const char *encode_str =
      url_safe ? BASE64_URLSAFE_ENCODE : BASE64_STANDARD_ENCODE;
  size_t left = buf_size;
  while (left >= 3) {
    put_group(input, 3, out, encode_str, !url_safe);
    input += 3; out += 4; left -= 3;
  }
  if (left) put_group(input, left, out, encode_str, !url_safe);
}'''))
ref("base32-bits", "src/base32.c", "C04 C05 C18 C21 C34",
 fn("static size_t _fingera_to_base32(", r'''static size_t _fingera_to_base32(const void *buf, size_t buf_size, char *out,
                                 int is_raw) {
  const uint8_t *input = (const uint8_t *)buf;
  const char *encode_str = is_raw ? BASE32_ENCODE_RAW : BASE32_ENCODE;
  uint32_t acc = 0;
  int bits = 0;
  size_t n = 0;
  for (size_t i = 0; i < buf_size; i++) {
    acc = ((acc & 0xF) << 8) | input[i];
    bits += 8;
    while (bits >= 5) {
      bits -= 5;
      out[n++] = encode_str[(acc >> bits) & 31];
    }
  }
  if (bits > 0) out[n++] = encode_str[(acc << (5 - bits)) & 31];
  if (!is_raw)
    while (n % 8) out[n++] = '=';
  return n;
}'''))
ref("base32-decode-loop", "src/base32.c", "C04 C05 C22",
 sub('''    if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF ||
        byte5 == 0xFF || byte6 == 0xFF || byte7 == 0xFF || byte8 == 0xFF)
      return out - (uint8_t *)buf;
''', '''    if ((byte1 | byte2 | byte3 | byte4 | byte5 | byte6 | byte7 | byte8) > 31) {
      break_at = out - (uint8_t *)buf;
      return break_at;
    }
'''), sub("  uint8_t *out = (uint8_t *)buf;\n  const uint8_t *decode_string", "  uint8_t *out = (uint8_t *)buf;\n  size_t break_at;\n  const uint8_t *decode_string"))
ref("base58-encode-divide", "src/base58.c", "C06 C08 C20 C31 C34",
 fn("size_t fingera_to_base58(", r'''/* adds one byte to the little number in b58[0..size), kept at its end */
static int b58_push(uint8_t *b58, size_t size, int length, int carry) {
  int i = 0;
  uint8_t *p = b58 + size;
  while (p != b58 && (carry != 0 || i < length)) {
    p--;
    carry += (int)*p << 8;
    *p = (uint8_t)(carry % 58);
    carry = carry / 58;
    i++;
  }
  assert(carry == 0 && "base58 overflow");
  return i;
}
size_t fingera_to_base58(const void *buf, size_t buf_size, char *str) {
  const uint8_t *begin = (const uint8_t *)buf;
  size_t zeroes = 0, n, pos;
  for (zeroes = 0; zeroes < buf_size; zeroes++)
    if (begin[zeroes]) break;
  size_t size = (buf_size - zeroes) * 138 / 100 + 1;
  DECLARE_BUFFER(uint8_t, b58, size);
  memset(b58, 0, size);
  int length = 0;
  for (n = zeroes; n < buf_size; n++) length = b58_push(b58, size, length, begin[n]);
  pos = size - length;
  while (pos < size && b58[pos] == 0) pos++;
  for (n = 0; n < zeroes; n++) str[n] = '1';
  for (; pos < size; pos++) str[n++] = BASE58_ENCODE[b58[pos]];
  fingera_cleanse(b58, size);
  FREE_BUFFER(b58);
  return n;
}'''))
ref("base58-decode-index", "src/base58.c", "C06 C07 C08 C20 C22 C31 C34",
 fn("size_t fingera_from_base58(", r'''size_t fingera_from_base58(const char *str, size_t str_len, void *buf) {
  size_t i = 0, written = 0, j;
  size_t zeroes = 0;
  int length = 0, ok = 1;
  while (i < str_len && str[i] && isspace((uint8_t)str[i])) i++;
  for (; i < str_len && str[i] == '1'; i++) zeroes++;
  size_t size = (str_len - i) * 733 / 1000 + 1;
  DECLARE_BUFFER(uint8_t, b256, size);
  memset(b256, 0, size);
  for (; i < str_len && str[i] != 0; i++) {
    int carry;
    int used = 0;
    if (isspace((uint8_t)str[i])) break;
    carry = BASE58_DECODE[(uint8_t)str[i]];
    if (carry < 0) {
      ok = 0;
      break;
    }
    for (j = size; j > 0; j--) {
      if (carry == 0 && used >= length) break;
      carry += 58 * b256[j - 1];
      b256[j - 1] = (uint8_t)(carry & 0xFF);
      carry >>= 8;
      used++;
    }
    assert(carry == 0);
    length = used;
  }
  if (ok) {
    while (i < str_len && isspace((uint8_t)str[i])) i++;
    if (i < str_len && str[i] != 0) ok = 0;
  }
  if (ok) {
    uint8_t *out = (uint8_t *)buf;
    while (written < zeroes) out[written++] = 0;
    j = size - length;
    while (j < size && b256[j] == 0) j++;
    memcpy(out + written, b256 + j, size - j);
    written += size - j;
  }
  fingera_cleanse(b256, size);
  FREE_BUFFER(b256);
  return written;
}'''))
ref("varint-count-first", "src/compress_integer.c", "C09 C10 C11 C34",
 fn("size_t fingera_encode_varint(", r'''size_t fingera_encode_varint(uint64_t value, void *buf) {
  uint8_t *out = (uint8_t *)buf;
  uint64_t v = value;
  size_t n = 1, i;
  while (v > 0x7F) {
    v = (v >> 7) - 1;
    n++;
  }
  for (i = n; i > 0; i--) {
    out[i - 1] = (uint8_t)((value & 0x7F) | (i == n ? 0 : 0x80));
    value = (value >> 7) - 1;
  }
  return n;
}'''),
 fn("size_t fingera_encode_zigzag(", r'''size_t fingera_encode_zigzag(int64_t value, void *buf) {
  if (value < 0) return fingera_encode_varint(((~(uint64_t)value + 1) << 1) | 1, buf);
  return fingera_encode_varint((uint64_t)value * 2, buf);
}'''))
ref("endian-shifts", "include/fingera_libc/endian.h", "C33 C12 C13 C14 C15 C24",
 fn("static inline uint32_t read_little_32(", r'''static inline uint32_t read_little_32(const void *buf) {
  const uint8_t *p = (const uint8_t *)buf;
  return (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24;
}'''),
 fn("static inline uint32_t read_big_32(", r'''static inline uint32_t read_big_32(const void *buf) {
  const uint8_t *p = (const uint8_t *)buf;
  uint32_t v = 0;
  for (int i = 0; i < 4; i++) v = (v << 8) | p[i];
  return v;
}'''),
 fn("static inline void write_big_32(", r'''static inline void write_big_32(void *buf, uint32_t value) {
  uint8_t *p = (uint8_t *)buf;
  for (int i = 3; i >= 0; i--) {
    p[i] = (uint8_t)value;
    value >>= 8;
  }
}'''))
ref("cleanse-volatile", "src/cleanse.c", "C31 C34 C12",
 fn("void fingera_cleanse(", r'''void fingera_cleanse(void *mem, size_t size) {
  volatile unsigned char *p = (volatile unsigned char *)mem;
  while (size--) *p++ = 0xCC;
}'''))
ref("random-forever", "src/random.c", "C30 C28",
 fn("void fingera_os_rand_bytes(void *buf, size_t buf_size) {\n  uint8_t *out", r'''static int read_some(int fd, uint8_t *out, size_t n) {
  int r = read(fd, out, n);
  if (r <= 0) {
    FINGERA_FATAL("read /dev/urandom %d", r);
  }
  return r;
}
void fingera_os_rand_bytes(void *buf, size_t buf_size) {
  uint8_t *p = (uint8_t *)buf, *end = p + buf_size;
  int fd = open("/dev/urandom", O_RDONLY);
  if (fd < 0) {
    FINGERA_FATAL("open /dev/urandom");
  }
  for (;;) {
    if (p == end) break;
    p += read_some(fd, p, end - p);
  }
  close(fd);
}'''))
ref("sha1-rolled", "src/hash/sha1.c", "C14",
 fn("static void sha1_transform(", r'''static void sha1_transform(uint32_t *s, const void *chunk) {
  uint32_t w[80];
  uint32_t a = s[0], b = s[1], c = s[2], d = s[3], e = s[4];
  int i;
  for (i = 0; i < 16; i++) w[i] = be32(chunk, 4 * i);
  for (; i < 80; i++) w[i] = left(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]);
  for (i = 0; i < 80; i++) {
    uint32_t f, k, t;
    if (i < 20) { f = F1(b, c, d); k = 0x5A827999ul; }
    else if (i < 40) { f = F2(b, c, d); k = 0x6ED9EBA1ul; }
    else if (i < 60) { f = F3(b, c, d); k = 0x8F1BBCDCul; }
    else { f = F2(b, c, d); k = 0xCA62C1D6ul; }
    t = ROL(a, 5) + f + e + k + w[i];
    e = d; d = c; c = ROL(b, 30); b = a; a = t;
  }
  s[0] += a; s[1] += b; s[2] += c; s[3] += d; s[4] += e;
}'''))
SHAK = re.findall  # filled below
def k256():
    P, n = [], 2
    while len(P) < 64:
        if all(n % q for q in P): P.append(n)
        n += 1
    def cr(p):
        x = 0
        for b in range(40, -1, -1):
            y = x + (1 << b)
            if y ** 3 <= p << 96: x = y
        return x & 0xffffffff
    return ", ".join("0x%08x" % cr(p) for p in P)
ref("sha256-rolled", "src/hash/sha2.c", "C12 C16 C17",
 fn("static void sha256_transform(", r'''static const uint32_t K256[64] = {%s};
static void sha256_transform(uint32_t *s, const void *chunk) {
  uint32_t w[64], v[8];
  int i;
  for (i = 0; i < 16; i++) w[i] = be32(chunk, 4 * i);
  for (; i < 64; i++) w[i] = sigma132(w[i - 2]) + w[i - 7] + sigma032(w[i - 15]) + w[i - 16];
  for (i = 0; i < 8; i++) v[i] = s[i];
  for (i = 0; i < 64; i++) {
    uint32_t t1 = v[7] + Sigma132(v[4]) + Ch(v[4], v[5], v[6]) + K256[i] + w[i];
    uint32_t t2 = Sigma032(v[0]) + Maj(v[0], v[1], v[2]);
    int j;
    for (j = 7; j > 0; j--) v[j] = v[j - 1];
    v[4] += t1;
    v[0] = t1 + t2;
  }
  for (i = 0; i < 8; i++) s[i] += v[i];
}''' % k256()))
ref("sha2-final-two-blocks", "src/hash/sha2.c", "C12 C16 C17 C13",
 fn("static void sha256_final(", r'''static void sha256_final(uint32_t *digest, const void *msg, size_t msg_len,
                         size_t append_size) {
  uint8_t tail[128] = {0};
  const uint8_t *p = (const uint8_t *)msg;
  size_t blocks = msg_len / 64, rest = msg_len % 64, i;
  size_t tail_len = rest < 56 ? 64 : 128;
  uint64_t bits = ((uint64_t)msg_len + append_size) * 8;
  for (i = 0; i < blocks; i++) sha256_transform(digest, p + 64 * i);
  if (rest) memcpy(tail, p + 64 * blocks, rest);
  tail[rest] = 0x80;
  for (i = 0; i < 8; i++) tail[tail_len - 1 - i] = (uint8_t)(bits >> (8 * i));
  for (i = 0; i < tail_len; i += 64) sha256_transform(digest, tail + i);
  fingera_cleanse(tail, sizeof(tail));
}'''),
 sub("  while (msg_len >= 128) {\n    sha512_transform(digest, msg_buf);\n    msg_len -= 128;\n    msg_buf += 128;\n  }", "  for (; msg_len > 127; msg_len -= 128, msg_buf += 128) sha512_transform(digest, msg_buf);"))
ref("hmac-bytes", "src/hash/sha2.c", "C16 C25",
 sub('''  sha512_transform(digest_inner, key_inner);
  sha512_final(digest_inner, msg, msg_len, 128);

  for (i = 0; i < 8; i++) {
    digest_inner[i] = htobe64(digest_inner[i]);
  }
''', '''  hmac512_inner(digest_inner, key_inner, msg, msg_len);
'''),
 sub("void fingera_hmac_sha512(", '''static void hmac512_inner(uint64_t *digest, const uint64_t *pad,
                          const void *msg, size_t msg_len) {
  size_t i;
  sha512_transform(digest, pad);
  sha512_final(digest, msg, msg_len, 128);
  for (i = 0; i < 8; i++) digest[i] = htobe64(digest[i]);
}
void fingera_hmac_sha512('''))
ref("hash256-d64-generic", "src/btc/hash.c", "C17",
 sub('''  while (blocks--) {
    _hash256_d64_transform(_out, _in);
    _out += 32;
    _in += 64;
  }''', '''  for (size_t i = 0; i < blocks; i++) fingera_btc_hash256(_in + i * 64, 64, _out + i * 32);'''))
ref("bech32-common-polymod", "src/btc/bech32.c", "C18 C19 C21 C22 C34",
 fn("static void create_checksum(", r'''static uint32_t prefix_mod(const char *hrp, size_t hrp_len, const uint8_t *b32, size_t b32_size) {
  uint32_t mod = 1;
  size_t i = 0;
  while (i < hrp_len) mod = poly_mod((uint8_t)(hrp[i++]) >> 5, mod);
  mod = poly_mod(0, mod);
  for (i = 0; i != hrp_len; ++i) mod = poly_mod((uint8_t)hrp[i] & 31, mod);
  for (i = 0; i != b32_size; ++i) mod = poly_mod(b32[i], mod);
  return mod;
}
static void create_checksum(const char *hrp, size_t hrp_len, const uint8_t *b32,
                            size_t b32_size, uint8_t checksum[6]) {
  uint32_t mod = prefix_mod(hrp, hrp_len, b32, b32_size);
  for (int i = 0; i < 6; i++) mod = poly_mod(0, mod);
  mod ^= 1;
  for (int i = 5; i >= 0; i--) {
    checksum[i] = mod & 31;
    mod >>= 5;
  }
}'''),
 fn("static int verify_checksum(", r'''static int verify_checksum(const char *hrp, size_t hrp_len, const uint8_t *b32,
                           size_t b32_size, uint8_t checksum[6]) {
  uint32_t mod = prefix_mod(hrp, hrp_len, b32, b32_size);
  for (int i = 0; i < 6; i++) mod = poly_mod(checksum[i], mod);
  return mod == 1;
}'''))
ref("bech32-generator", "src/btc/bech32.c", "C18 C19 C21",
 fn("static inline uint32_t poly_mod(", r'''static inline uint32_t poly_mod(uint8_t value, uint32_t c) {
  uint8_t top = c >> 25;
  c = ((c & 0x1ffffff) << 5) ^ value;
  if (top & 1) c ^= 0x3b6a57b2;
  if (top & 2) c ^= 0x26508e6d;
  if (top & 4) c ^= 0x1ea119fa;
  if (top & 8) c ^= 0x3d4233dd;
  if (top & 16) c ^= 0x2a1462b3;
  return c;
}'''), sub("static const uint32_t BECH32_POLY_TABLE[32]", "__attribute__((unused)) static const uint32_t BECH32_POLY_TABLE[32]"))
ref("bech32-decode-single-pass", "src/btc/bech32.c", "C19 C21 C22 C34",
 fn("int fingera_bech32_decode(", r'''static int map_values(const char *s, size_t n, uint8_t *out) {
  for (size_t i = 0; i < n; i++) {
    int8_t v = BECH32_DECODE[(uint8_t)s[i]];
    if (v < 0) return 0;
    out[i] = (uint8_t)v;
  }
  return 1;
}
int fingera_bech32_decode(const char *str, size_t str_len, char *hrp,
                          size_t *hrp_size, void *b32) {
  uint8_t checksum[6];
  size_t sep = str_len, n, i;
  if (is_illegal(str, str_len)) return -1;
  while (sep > 0 && str[sep - 1] != '1') sep--;
  if (sep < 2 || str_len > 90 || str_len < 8 || str_len - sep < 6) return -2;
  sep--;
  if (sep > *hrp_size) return -3;
  for (i = 0; i < sep; i++) {
    char c = str[i];
    hrp[i] = (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c;
  }
  *hrp_size = sep;
  n = str_len - sep - 7;
  if (!map_values(str + sep + 1, n, (uint8_t *)b32)) return -4;
  if (!map_values(str + str_len - 6, 6, checksum)) return -4;
  return verify_checksum(hrp, sep, (uint8_t *)b32, n, checksum) ? (int)n : -5;
}'''))
ref("address-goto", "src/btc/address.c", "C21 C22 C34",
 fn("static fingera_btc_address decode_bech32(", r'''static fingera_btc_address witness_v0(const char *values, int n, void *out, size_t *out_size) {
  *out_size = fingera_from_base32_raw(values, n, out);
  if (*out_size == BTC_WITNESSV0_SCRIPTID_SIZE) return BTC_WITNESSV0_SCRIPTHASH_ADDRESS;
  return *out_size == BTC_WITNESSV0_KEYID_SIZE ? BTC_WITNESSV0_KEYHASH_ADDRESS : BTC_BAD_ADDRESS;
}
static fingera_btc_address decode_bech32(const char *str, size_t str_len,
                                         void *out, size_t *out_size,
                                         const chain_parameters *param) {
  fingera_btc_address result = BTC_BAD_ADDRESS;
  char bech32_hrp[16];
  size_t hrp_size = sizeof(bech32_hrp);
  int n, version;
  DECLARE_BUFFER(char, buffer, str_len - 7);
  n = fingera_bech32_decode(str, str_len, bech32_hrp, &hrp_size, buffer);
  if (n < 1) goto done;
  if (hrp_size != param->bech32_hrp_size) goto done;
  if (memcmp(bech32_hrp, param->bech32_hrp, hrp_size)) goto done;
  if (!is_padding_valid(buffer + 1, n - 1)) goto done;
  if (*out_size < fingera_from_base32_raw_length(n - 1)) goto done;
  version = buffer[0];
  if (version == 0) {
    result = witness_v0(buffer + 1, n - 1, out, out_size);
    goto done;
  }
  ((uint8_t *)out)[0] = (uint8_t)version;
  *out_size = 1 + fingera_from_base32_raw(buffer + 1, n - 1, (uint8_t *)out + 1);
  if (version <= 16 && *out_size >= 3 && *out_size <= 41) result = BTC_WITNESS_UNKNOWN_ADDRESS;
done:
  FREE_BUFFER(buffer);
  return result;
}'''))
ref("address-encode-common", "src/btc/address.c", "C21 C34",
 fn("size_t fingera_to_address_witnessv0_keyhash(", r'''static size_t encode_segwit(uint8_t version, const void *program, size_t size, char *out,
                            size_t out_size, const chain_parameters *param) {
  uint8_t values[128];
  size_t n, need;
  values[0] = version;
  n = 1 + fingera_to_base32_raw(program, size, values + 1);
  need = fingera_bech32_encode_length(param->bech32_hrp_size, n);
  if (need > out_size) return 0;
  fingera_bech32_encode(param->bech32_hrp, param->bech32_hrp_size, values, n, out);
  return need;
}
size_t fingera_to_address_witnessv0_keyhash(const void *key_hash,
                                            size_t key_hash_size, char *out,
                                            size_t out_size,
                                            const chain_parameters *param) {
  assert(key_hash_size == BTC_WITNESSV0_KEYID_SIZE);
  if (key_hash_size != BTC_WITNESSV0_KEYID_SIZE) return 0;
  return encode_segwit(0, key_hash, key_hash_size, out, out_size, param);
}'''))
ref("base58check-append", "src/btc/base58_check.c", "C20 C21 C23 C24 C31 C34",
 fn("size_t fingera_to_base58_check(", r'''size_t fingera_to_base58_check(const void *buf, size_t buf_size,
                               const void *prefix, size_t prefix_size,
                               char *str) {
  uint8_t hash[32];
  size_t n = prefix_size + buf_size, r;
  DECLARE_BUFFER(uint8_t, all, n + 4);
  uint8_t *p = all;
  memcpy(p, prefix, prefix_size);
  p += prefix_size;
  memcpy(p, buf, buf_size);
  p += buf_size;
  fingera_btc_hash256(all, n, hash);
  for (int i = 0; i < 4; i++) *p++ = hash[i];
  r = fingera_to_base58(all, p - all, str);
  fingera_cleanse(all, n + 4);
  FREE_BUFFER(all);
  return r;
}'''),
 fn("size_t fingera_from_base58_check(", r'''static int checksum_ok(const uint8_t *data, size_t n) {
  uint8_t hash[32];
  int i, diff = 0;
  fingera_btc_hash256(data, n, hash);
  for (i = 0; i < 4; i++) diff |= hash[i] ^ data[n + i];
  return diff == 0;
}
size_t fingera_from_base58_check(const char *str, size_t str_len, void *buf) {
  size_t n = fingera_from_base58(str, str_len, buf);
  return n >= 4 && checksum_ok((const uint8_t *)buf, n - 4) ? n - 4 : 0;
}'''))
ref("wif-flow", "src/btc/key.c", "C23 C31 C34",
 fn("static int key_from_bytes(", r'''static int key_from_bytes(const uint8_t* buf, size_t size, void* key32,
                          int* is_compressed, const chain_parameters* param) {
  size_t prefix = param->prefix_secret_key_size;
  if (size < 33) return 0;
  if (size == prefix + 32) {
    *is_compressed = 0;
  } else if (size == prefix + 33 && buf[size - 1] == 1) {
    *is_compressed = 1;
  } else {
    return 0;
  }
  if (memcmp(buf, param->prefix_secret_key, prefix)) return 0;
  memcpy(key32, buf + prefix, 32);
  return 1;
}'''))
ref("lax-der-helper", "src/btc/key.c", "C27",
 fn("static int ecdsa_signature_parse_der_lax(", r'''static int lax_integer(const unsigned char* in, size_t size, size_t* pos, size_t* start, size_t* len) {
  size_t p = *pos, n;
  if (p == size || in[p] != 0x02) return 0;
  p++;
  if (p == size) return 0;
  n = in[p++];
  if (n & 0x80) {
    size_t value = 0;
    n &= 0x7F;
    if (n > size - p) return 0;
    for (; n > 0 && in[p] == 0; n--) p++;
    if (n > 3) return 0;
    for (; n > 0; n--) value = (value << 8) | in[p++];
    n = value;
  }
  if (n > size - p) return 0;
  *start = p;
  *len = n;
  *pos = p + n;
  return 1;
}
static int lax_copy(unsigned char* out32, const unsigned char* in, size_t len) {
  while (len > 0 && *in == 0) { in++; len--; }
  if (len > 32) return 0;
  memcpy(out32 + (32 - len), in, len);
  return 1;
}
static int ecdsa_signature_parse_der_lax(const secp256k1_context* ctx,
                                         secp256k1_ecdsa_signature* sig,
                                         const unsigned char* input,
                                         size_t inputlen) {
  size_t pos = 0, rpos, rlen, spos, slen, lenbyte;
  unsigned char tmpsig[64] = {0};
  int good;
  secp256k1_ecdsa_signature_parse_compact(ctx, sig, tmpsig);
  if (inputlen < 2 || input[0] != 0x30) return 0;
  lenbyte = input[1];
  pos = 2;
  if (lenbyte & 0x80) {
    lenbyte &= 0x7F;
    if (lenbyte > inputlen - pos) return 0;
    pos += lenbyte;
  }
  if (!lax_integer(input, inputlen, &pos, &rpos, &rlen)) return 0;
  if (!lax_integer(input, inputlen, &pos, &spos, &slen)) return 0;
  good = lax_copy(tmpsig, input + rpos, rlen);
  good &= lax_copy(tmpsig + 32, input + spos, slen);
  if (good) good = secp256k1_ecdsa_signature_parse_compact(ctx, sig, tmpsig);
  if (!good) {
    memset(tmpsig, 0, 64);
    secp256k1_ecdsa_signature_parse_compact(ctx, sig, tmpsig);
  }
  return 1;
}'''))
ref("privkey-der-index", "src/btc/key.c", "C26",
 fn("static int ec_privkey_import_der(", r'''static int ec_privkey_import_der(const secp256k1_context* ctx,
                                 unsigned char* out32,
                                 const unsigned char* privkey,
                                 size_t privkeylen) {
  size_t i = 0, lenb, len, oslen;
  memset(out32, 0, 32);
  if (privkeylen < 2) return 0;
  if (privkey[0] != 0x30 || privkey[1] < 0x80) return 0;
  lenb = privkey[1] - 0x80u;
  i = 2;
  if (lenb == 0 || lenb > 2 || privkeylen - i < lenb) return 0;
  len = privkey[i++];
  if (lenb == 2) len = (len << 8) | privkey[i++];
  if (privkeylen - i < len) return 0;
  if (privkeylen - i < 3 || memcmp(privkey + i, "\x02\x01\x01", 3) != 0) return 0;
  i += 3;
  if (privkeylen - i < 2 || privkey[i] != 4) return 0;
  oslen = privkey[i + 1];
  i += 2;
  if (oslen > 32 || privkeylen - i < oslen) return 0;
  memcpy(out32 + (32 - oslen), privkey + i, oslen);
  if (secp256k1_ec_seckey_verify(ctx, out32)) return 1;
  memset(out32, 0, 32);
  return 0;
}'''))
ref("key-new-loop", "src/btc/key.c", "C28 C29",
 fn("void fingera_btc_key_new(", r'''void fingera_btc_key_new(void* key32) {
  for (;;) {
    fingera_os_rand_bytes(key32, 32);
    if (secp256k1_ec_seckey_verify(secp256k1_context_sign, key32)) return;
  }
}'''),
 fn("void fingera_btc_key_sign(", r'''static int sign_once(const void* key32, const void* hash32, secp256k1_ecdsa_signature* sig, const void* extra) {
  return secp256k1_ecdsa_sign(secp256k1_context_sign, sig, (const unsigned char*)hash32, (const unsigned char*)key32,
                              secp256k1_nonce_function_rfc6979, extra);
}
void fingera_btc_key_sign(const void* key32, const void* hash32,
                          void* signatures64) {
  secp256k1_ecdsa_signature* sig = (secp256k1_ecdsa_signature*)signatures64;
  unsigned char extra_entropy[32];
  uint32_t counter;
  int ret = sign_once(key32, hash32, sig, NULL);
  memset(extra_entropy, 0, 32);
  for (counter = 1; ret && !SigHasLowR(sig); counter++) {
    write_little_32(extra_entropy, counter);
    ret = sign_once(key32, hash32, sig, extra_entropy);
  }
  assert(ret);
}'''))
ref("keyid-local-first", "src/btc/key.c", "C29",
 fn("void fingera_btc_pubkey_keyid(", r'''void fingera_btc_pubkey_keyid(const void* pubkey64, int compress,
                              void* keyid20) {
  uint8_t encoded_pubkey[BTC_PUBLIC_KEY_SIZE] = {0};
  size_t n = BTC_PUBLIC_KEY_SIZE;
  if (compress) n = BTC_COMPRESSED_PUBLIC_KEY_SIZE;
  int r = fingera_btc_pubkey_encode(pubkey64, encoded_pubkey, n);
  assert(r);
  (void)r;
  fingera_btc_hash160(encoded_pubkey, n, keyid20);
}'''))
ref("derive-split", "src/btc/key.c", "C25 C31",
 fn("int fingera_btc_key_derive(", r'''static int normal_hash(const void* key32, const void* chain32, uint32_t child, uint8_t* out) {
  uint8_t pubkey64[64];
  uint8_t enc[BTC_COMPRESSED_PUBLIC_KEY_SIZE];
  fingera_btc_key_get_pub(key32, pubkey64);
  int ok = fingera_btc_pubkey_encode(pubkey64, enc, sizeof(enc));
  fingera_btc_bip32_hash(chain32, child, enc[0], enc + 1, out);
  fingera_cleanse(enc, sizeof(enc));
  fingera_cleanse(pubkey64, sizeof(pubkey64));
  return ok;
}
int fingera_btc_key_derive(const void* key32, const void* chain32,
                           void* out_key32, void* out_chain32, uint32_t child) {
  uint8_t out[64];
  int ret = 1;
  if (child & 0x80000000u)
    fingera_btc_bip32_hash(chain32, child, 0, key32, out);
  else
    ret = normal_hash(key32, chain32, child, out);
  if (ret) {
    memmove(out_key32, key32, 32);
    memcpy(out_chain32, &out[32], 32);
    ret = secp256k1_ec_privkey_tweak_add(secp256k1_context_sign, (unsigned char*)out_key32, out);
  }
  fingera_cleanse(out, sizeof(out));
  return ret;
}'''))
ref("exkey-fields", "src/btc/exkey.c", "C24 C25 C34",
 fn("static void write_key_extension(", r'''static void write_key_extension(const fingera_ex_extension *ext,
                                void *extkey74) {
  uint8_t *p = (uint8_t *)extkey74;
  int i;
  *p++ = ext->depth;
  write_little_32(p, ext->fingerprint);
  p += 4;
  write_big_32(p, ext->child);
  p += 4;
  for (i = 0; i < 32; i++) p[i] = ext->chain_code[i];
}'''),
 fn("int fingera_exkey_derive(", r'''static void set_ext(fingera_ex_extension *e, uint8_t depth, uint32_t child, uint32_t fp) {
  e->depth = depth;
  e->child = child;
  e->fingerprint = fp;
}
int fingera_exkey_derive(const fingera_ex_key *key, fingera_ex_key *derived,
                         uint32_t child, uint32_t fingerprint) {
  uint8_t depth = key->ext.depth;
  if (depth == 255) return 0;
  if (!fingera_btc_key_derive(key->key, key->ext.chain_code, derived->key,
                              derived->ext.chain_code, child)) return 0;
  set_ext(&derived->ext, depth + 1, child, fingerprint);
  return 1;
}'''))

def build(repo, r):
    id, f, props, edits = r
    p = os.path.join(repo, f); t = open(p).read()
    for k, a, b in edits:
        assert t.count(a) == 1, (id, a[:40], t.count(a))
        if k == "sub": t = t.replace(a, b)
        else:
            i = t.index(a); j = t.index("\n}", i) + 2
            t = t[:i] + b + t[j:]
    open(p, "w").write(t)

def main():
    args = sys.argv[1:]; test = "--test" in args; pats = [a for a in args if not a.startswith("--")]
    sys.path.insert(0, HERE); sys.argv = ["x"]
    src = open(os.path.join(HERE, "try_seed.py")).read().replace("\nmain()\n", "\n")
    ns = {"__file__": os.path.join(HERE, "try_seed.py"), "__name__": "ts"}; exec(compile(src, "try_seed", "exec"), ns)
    scr = os.environ.get("SCR", "/tmp/refwork")
    for r in R:
        if pats and not any(x in r[0] for x in pats): continue
        w = f"{scr}/{r[0]}"; shutil.rmtree(w, ignore_errors=True); repo = w + "/repo"
        ns["copy"](repo); subprocess.run(f"cd {repo} && git init -q . && git add -A && git -c user.name=a -c user.email=a@a commit -qm x", shell=True)
        build(repo, r)
        if test:
            print(r[0], "tests:", ns["build_test"](repo) or "pass", flush=True); shutil.rmtree(repo + "/_build", ignore_errors=True); continue
        for p in r[2]:
            t0 = time.time()
            q = subprocess.run(["python3", "check.py", p], cwd=VERIF, env=dict(os.environ, VF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
            print(r[0], p, "quiet" if q.returncode == 0 and "VIOLATION" not in q.stdout else "ALARM rc=%d" % q.returncode, "%.0fs" % (time.time() - t0), "" if q.returncode == 0 else q.stdout[-600:], flush=True)
        shutil.rmtree(w)
main()
