"""Definitions of the planted bugs of /verif/seeded (development only; no check reads this).
Each: id, property, file, [(old, new[, occurrence])], needs, breaks, demo C main body, options."""
S = []

def seed(id, prop, file, edits, needs, breaks, demo, **o):
    S.append(dict(id=id, prop=prop, file=file, edits=edits, needs=needs,
                  breaks=breaks, demo=demo, **o))

# ------------------------------------------------------------------ C01
seed("C01-hex-high-bit", "C01", "src/hex.c",
     [("low = HEX_MAP[(unsigned char)str[i + 1]];",
       "low = HEX_MAP[(unsigned char)str[i + 1] & 0x7F];")],
     "a character >= 0x80 whose low seven bits are a hex digit, in the second place of a pair",
     "a non-hex character is accepted as a digit",
     r'''unsigned char o[4]; CHECK(fingera_from_hex("1\xb2", 2, o) == 0);
     CHECK(fingera_from_hex("ab1\xe1", 4, o) == 1);''')
seed("C01-hex-table-grave", "C01", "src/hex.c",
     [("0xff, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0xff, 0xff, 0xff, 0xff, 0xff,\n    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,\n    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,\n    0xff, 0xff",
       "0xff, 0x0a, 0x0b, 0x0c, 0x0d, 0x0e, 0x0f, 0xff, 0xff, 0xff, 0xff, 0xff,\n    0xff, 0xff, 0xff, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,\n    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,\n    0xff, 0xff")],
     "the letter o where a digit is expected", "the letter o decodes as zero",
     r'''unsigned char o[4]; CHECK(fingera_from_hex("o1", 2, o) == 0);''')
# ------------------------------------------------------------------ C02
seed("C02-base64-all-ones-group", "C02", "src/base64.c",
     [("if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF || byte4 == 0xFF)\n      return output",
       "if (byte1 + byte2 + byte3 + byte4 >= 4 * 0x3F)\n      return output")],
     "a whole group of three 0xff bytes", "such data does not decode to itself",
     r'''unsigned char d[6] = {1,2,3,255,255,255}, o[8]; char s[16];
     fingera_to_base64(d, 6, s); CHECK(fingera_from_base64(s, 8, o) == 6 && !memcmp(d, o, 6));''')
seed("C02-base64-long-loop", "C02", "src/base64.c",
     [("for (size_t i = 0; i < loop_size; i += 3) {", "for (uint8_t i = 0; i + 3 <= (loop_size > 255 ? 255 : loop_size); i += 3) {")],
     "more than 255 bytes of input", "longer inputs are cut off after 255 bytes",
     r'''unsigned char d[300]; char s[404]; memset(d, 7, 300); memset(s, 0, 404);
     fingera_to_base64(d, 300, s); CHECK(strlen(s) == 400);''')
# ------------------------------------------------------------------ C03
seed("C03-base64-tail-third", "C03", "src/base64.c",
     [("if (byte1 == 0xFF || byte2 == 0xFF || byte3 == 0xFF) break;", "if (byte1 == 0xFF || byte2 == 0xFF) break;")],
     "a final group of three characters whose third is outside the alphabet",
     "the malformed last group produces bytes",
     r'''unsigned char o[8]; CHECK(fingera_from_base64("AB*", 3, o) == 0);''')
seed("C03-base64-swapped-alphabet", "C03", "src/base64.c",
     [("    0xFF, 0xFF, 0xFF, 0x3F,  // +/", "    0xFF, 0x3E, 0xFF, 0x3F,  // +/")],
     "the URL-safe '-' inside standard text", "characters outside the selected alphabet are accepted",
     r'''unsigned char o[8]; CHECK(fingera_from_base64("AB-D", 4, o) == 0);''')
# ------------------------------------------------------------------ C04
seed("C04-base32-tail4-bit", "C04", "src/base32.c",
     [("byte5 = ((input[2] & 0xF) << 1) | (input[3] >> 7);\n      byte6 = (input[3] >> 2) & 0x1F;\n      byte7 = ((input[3] & 3) << 3);",
       "byte5 = ((input[2] & 0xF) << 1);\n      byte6 = (input[3] >> 2) & 0x1F;\n      byte7 = ((input[3] & 3) << 3);")],
     "a length of 4 modulo 5 and a last byte >= 0x80", "one bit of the last byte is lost",
     r'''unsigned char d[4] = {1,2,3,0x84}, o[8]; char s[16]; fingera_to_base32(d, 4, s);
     CHECK(fingera_from_base32(s, 8, o) == 4 && !memcmp(d, o, 4));''')
seed("C04-base32-tail3-mask", "C04", "src/base32.c",
     [("byte4 = ((input[1] & 1) << 4) | (input[2] >> 4);\n      byte5 = ((input[2] & 0xF) << 1);\n      out[0]",
       "byte4 = ((input[1] & 1) << 4) | ((input[2] >> 4) & 7);\n      byte5 = ((input[2] & 0xF) << 1);\n      out[0]")],
     "a length of 3 modulo 5 and a last byte >= 0x80", "the top bit of the last byte is lost",
     r'''unsigned char d[3] = {1,2,0x83}, o[8]; char s[16]; fingera_to_base32(d, 3, s);
     CHECK(fingera_from_base32(s, 8, o) == 3 && !memcmp(d, o, 3));''')
seed("C04-base32-upper-q", "C04", "src/base32.c",
     [("7,    8,    9,    10,   11,   12,   13,   14,   15,   16,   17,   18,\n    19,   20,   21,   22,   23,   24,   25,   0xFF, 0xFF, 0xFF, 0xFF, 0xFF,\n    0xFF, 0,",
       "7,    8,    9,    10,   11,   12,   13,   14,   15,   17,   16,   18,\n    19,   20,   21,   22,   23,   24,   25,   0xFF, 0xFF, 0xFF, 0xFF, 0xFF,\n    0xFF, 0,")],
     "upper-case text with Q or R", "upper-case text decodes differently from lower case",
     r'''unsigned char a[8], b[8]; CHECK(fingera_from_base32("QRQRQRQR", 8, a) == 5);
     CHECK(fingera_from_base32("qrqrqrqr", 8, b) == 5); CHECK(!memcmp(a, b, 5));''')
# ------------------------------------------------------------------ C05
seed("C05-base32-digit-zero", "C05", "src/base32.c",
     [("    0xFF, 0xFF, 26,   27,   28,", "    14,   0xFF, 26,   27,   28,")],
     "the digit 0 in base32 text", "a character outside the alphabet is accepted",
     r'''unsigned char o[8]; CHECK(fingera_from_base32("a0aaaaaa", 8, o) == 0);''')
seed("C05-base32-raw-32", "C05", "src/base32.c",
     [("24,   25,   26,   27,   28,   29,   30,   31,   0xFF, 0xFF, 0xFF, 0xFF,\n",
       "24,   25,   26,   27,   28,   29,   30,   31,   0,    0xFF, 0xFF, 0xFF,\n")],
     "the raw value 32", "a raw value that no encoder produces is accepted",
     r'''unsigned char i[8] = {1,2,32,4,5,6,7,8}, o[8]; CHECK(fingera_from_base32_raw(i, 8, o) == 0);''')
# ------------------------------------------------------------------ C06
# ------------------------------------------------------------------ C07
seed("C07-base58-letter-I", "C07", "src/base58.c",
     [("    8,  -1, -1, -1, -1, -1, -1, -1, 9,  10, 11, 12, 13, 14, 15, 16, -1, 17, 18,",
       "    8,  -1, -1, -1, -1, -1, -1, -1, 9,  10, 11, 12, 13, 14, 15, 16, 0,  17, 18,")],
     "a capital I in the text", "text with a character outside the alphabet is accepted",
     r'''unsigned char o[8]; CHECK(fingera_from_base58("2I3", 3, o) == 0);''')
seed("C07-base58-high-byte", "C07", "src/base58.c",
     [("49, 50, 51, 52, 53, 54, 55, 56, 57, -1, -1, -1, -1, -1,", "49, 50, 51, 52, 53, 54, 55, 56, 57, -1, -1, -1, -1, -1,"),
      ("int carry = BASE58_DECODE[(uint8_t)*str];", "int carry = BASE58_DECODE[(uint8_t)*str & 0x7F];")],
     "a byte >= 0x80", "bytes >= 0x80 are accepted as digits",
     r'''unsigned char o[8]; CHECK(fingera_from_base58("2\xb3", 2, o) == 0);''')
# ------------------------------------------------------------------ C08
seed("C08-base58-length-helper", "C08", "include/fingera_libc/base58.h",
     [("return buf_size * 138 / 100 + 2;", "return buf_size * 136 / 100 + 2;")],
     "an input of several hundred bytes with large leading bytes", "the text is longer than announced",
     r'''unsigned char d[400]; memset(d, 0xff, 400); char s[800];
     CHECK(fingera_to_base58(d, 400, s) <= fingera_to_base58_length(400));''')
seed("C08-base58-leak", "C08", "src/base58.c",
     [("  while (iter != b58 + size) str[zeroes++] = BASE58_ENCODE[*iter++];\n\n  fingera_cleanse(b58, size);\n  FREE_BUFFER(b58);\n",
       "  while (iter != b58 + size) str[zeroes++] = BASE58_ENCODE[*iter++];\n\n  fingera_cleanse(b58, size);\n  if (zeroes > size) FREE_BUFFER(b58);\n")],
     "an input large enough for heap scratch", "the scratch memory leaks",
     r'''unsigned char d[200]; memset(d, 0xff, 200); char s[600]; int i;
     struct mallinfo2 a = mallinfo2(); for (i = 0; i < 100; i++) fingera_to_base58(d, 200, s);
     struct mallinfo2 b = mallinfo2(); CHECK(b.uordblks <= a.uordblks + 2000);''', inc="#include <malloc.h>")
seed("C08-buffer-boundary", "C08", "include/fingera_libc/sl/buffer.h",
     [("if (real_size <= sizeof(name##_stack_buffer_)) {", "if (real_size <= sizeof(name##_stack_buffer_) + 1) {")],
     "a scratch size of exactly 129 bytes", "one byte beyond the stack scratch is written",
     r'''/* built with -fsanitize=address: an overrun aborts */
     unsigned char d[93]; memset(d, 0xff, 93); char s[300]; int n; for (n = 80; n <= 93; n++) fingera_to_base58(d, n, s);''',
     cflags="-fsanitize=address -fno-omit-frame-pointer")
# ------------------------------------------------------------------ C09-C11
seed("C09-varint-consumes-all", "C09", "src/compress_integer.c",
     [("      return in - (uint8_t *)buf;\n    }\n  }\n  return 0;", "      return size;\n    }\n  }\n  return 0;")],
     "an encoding followed by other bytes in the same buffer", "decoding claims to have consumed the following bytes too",
     r'''unsigned char b[12]; uint64_t v; size_t n = fingera_encode_varint(300, b); b[n] = 9;
     CHECK(fingera_decode_varint(b, n + 1, &v) == n && v == 300);''')
seed("C09-varint-carry32", "C09", "src/compress_integer.c",
     [("    value = (value >> 7) - 1;", "    value = (value >> 7) - (value >> 7 == 0x2000000 ? 0 : 1);")],
     "a value whose remaining part is 2^32..2^32+127", "those values do not round-trip",
     r'''unsigned char b[12]; uint64_t v; size_t n = fingera_encode_varint(0x100000005ull, b);
     CHECK(fingera_decode_varint(b, n, &v) == n && v == 0x100000005ull);''')
seed("C10-varint-overread", "C10", "src/compress_integer.c",
     [("  for (size_t i = 0; i < size; i++) {\n    uint8_t byte = *in++;\n", "  for (size_t i = 0;; i++) {\n    uint8_t byte = *in++;\n    if (i == size) return 0;\n")],
     "a truncated encoding at the end of readable memory", "one byte beyond the given size is read",
     r'''unsigned char *b = guard(2); uint64_t v; b[0] = b[1] = 0x81; CHECK(fingera_decode_varint(b, 2, &v) == 0);''')
seed("C10-varint-mask", "C10", "src/compress_integer.c",
     [("    *out = (*out << 7) | (byte & 0x7F);", "    *out = (*out << 7) + (byte & 0x7F) + ((i == 9 && byte == 0x3E) ? 1 : 0);")],
     "a ten-byte encoding ending in 0x3e", "the value decoded is off by one, so the encoding is not canonical",
     r'''unsigned char b[10] = {0x80,0xFE,0xFE,0xFE,0xFE,0xFE,0xFE,0xFE,0xFE,0x3E}, c[10]; uint64_t v;
     CHECK(fingera_decode_varint(b, 10, &v) == 10); CHECK(fingera_encode_varint(v, c) == 10 && !memcmp(b, c, 10));''')
seed("C11-zigzag-min", "C11", "src/compress_integer.c",
     [("    if (sign) {\n", "    if (sign && uvalue) {\n")],
     "the most negative value", "INT64_MIN decodes as 0",
     r'''unsigned char b[12]; int64_t v = 5; size_t n = fingera_encode_zigzag(INT64_MIN, b);
     CHECK(fingera_decode_zigzag(b, n, &v) == n && v == INT64_MIN);''')
# ------------------------------------------------------------------ C12-C15
seed("C13-sha512-pad-111", "C13", "src/hash/sha2.c",
     [("  if (msg_len > 111) {", "  if (msg_len >= 111) {")],
     "a message of 111 bytes modulo 128", "an extra padding block is hashed",
     r'''unsigned char m[239], h[64]; memset(m, 'q', 239); static const unsigned char w[64] = {@sha512:q*239@};
     fingera_sha2_512(m, 239, h); CHECK(!memcmp(h, w, 64));''')
seed("C13-sha512-block-exact", "C13", "src/hash/sha2.c",
     [("  while (msg_len >= 128) {\n", "  while (msg_len > 128) {\n")],
     "a message of a multiple of 128 bytes", "the last full block is not hashed and the padding overruns its buffer",
     r'''unsigned char m[256], h[64]; memset(m, 'q', 256); static const unsigned char w[64] = {@sha512:q*256@};
     fingera_sha2_512(m, 256, h); CHECK(!memcmp(h, w, 64));''', optional=True)
# ------------------------------------------------------------------ C16
seed("C16-hmac256-empty-key", "C16", "src/hash/sha2.c",
     [("  if (key_len <= 64) {", "  if (key_len - 1 < 64) {")],
     "an empty key", "an empty key is hashed instead of zero-padded",
     r'''unsigned char h[32]; static const unsigned char w[32] = {@hmac256::abc@};
     fingera_hmac_sha256("", 0, "abc", 3, h); CHECK(!memcmp(h, w, 32));''')
seed("C16-hmac512-long-message", "C16", "src/hash/sha2.c",
     [("  sha512_final(digest_inner, msg, msg_len, 128);", "  sha512_final(digest_inner, msg, msg_len, msg_len > 255 ? 64 : 128);")],
     "a message of 256 bytes or more", "the inner length field is wrong",
     r'''unsigned char m[300], h[64]; memset(m, 'q', 300); static const unsigned char w[64] = {@hmac512:k:q*300@};
     fingera_hmac_sha512("k", 1, m, 300, h); CHECK(!memcmp(h, w, 64));''')
# ------------------------------------------------------------------ C17
seed("C17-bip32-header", "C17", "src/btc/hash.c",
     [("  memcpy(ptr, &header, 1);\n", "  *ptr = header & 3;\n")],
     "a header byte above 3", "the header byte is not hashed as given",
     r'''unsigned char c[32] = {1}, d[32] = {2}, a[64], b[64]; fingera_btc_bip32_hash(c, 7, 4, d, a);
     fingera_btc_bip32_hash(c, 7, 0, d, b); CHECK(memcmp(a, b, 64));''')
seed("C17-d64-zero-blocks", "C17", "src/btc/hash.c",
     [("  while (blocks--) {\n", "  do {\n"), ("    _in += 64;\n  }\n", "    _in += 64;\n  } while (--blocks && blocks < 1u << 20);\n")],
     "a batch of zero blocks", "a digest is written although none was asked for",
     r'''unsigned char in[64] = {0}, out[32]; memset(out, 0x55, 32); fingera_btc_hash256_d64(out, in, 0);
     CHECK(out[0] == 0x55 && out[31] == 0x55);''', optional=True)
seed("C17-d64-batch-stride", "C17", "src/btc/hash.c",
     [("    _out += 32;\n", "    _out += blocks == 33 ? 64 : 32;\n")],
     "a batch of more than 33 blocks", "digests land at wrong offsets",
     r'''static unsigned char in[64 * 40], out[32 * 64], w[32]; in[64 * 10] = 1; fingera_btc_hash256_d64(out, in, 40);
     fingera_btc_hash256(in + 64 * 10, 64, w); CHECK(!memcmp(out + 32 * 10, w, 32));''')
seed("C17-hash160-long", "C17", "src/btc/hash.c",
     [("  fingera_ripemd160(sha2_digest, sizeof(sha2_digest), hash);", "  fingera_ripemd160(sha2_digest, sizeof(sha2_digest) - (msg_len == 0), hash);")],
     "an empty message", "hash160 of the empty message is wrong",
     r'''unsigned char s[32], a[20], b[20]; fingera_sha2_256("", 0, s); fingera_ripemd160(s, 32, a); fingera_btc_hash160("", 0, b); CHECK(!memcmp(a, b, 20));''')
# ------------------------------------------------------------------ C18/C19
seed("C18-bech32-upper-W", "C18", "src/btc/bech32.c",
     [("    31, 27, 19, -1, 1,  0,  3,  16, 11, 28, 12, 14, 6,  4,  2,  -1, -1, -1, -1,\n    -1, -1, 29,",
       "    31, 27, 19, -1, 1,  0,  3,  16, 11, 28, 12, 13, 6,  4,  2,  -1, -1, -1, -1,\n    -1, -1, 29,")],
     "an upper-case string with a W", "upper-case strings with W are rejected",
     r'''unsigned char v[3] = {14, 1, 14}, o[90]; char s[90], h[90]; size_t hs = 90; int i; fingera_bech32_encode("bc", 2, v, 3, s);
     int n = fingera_bech32_encode_length(2, 3); for (i = 0; i < n; i++) s[i] = toupper((unsigned char)s[i]);
     CHECK(fingera_bech32_decode(s, n, h, &hs, o) == 3 && o[0] == 14);''')
seed("C18-bech32-hrp-case", "C18", "src/btc/bech32.c",
     [("    hrp[i] = isupper(str[i]) ? tolower(str[i]) : str[i];", "    hrp[i] = str[i] | 0x20;")],
     "a human-readable part with one of the characters @ [ \\ ] ^ _", "the encoding does not decode to itself",
     r'''unsigned char v[3] = {3, 1, 4}, o[90]; char s[90], h[90]; size_t hs = 90; fingera_bech32_encode("a_b", 3, v, 3, s);
     CHECK(fingera_bech32_decode(s, fingera_bech32_encode_length(3, 3), h, &hs, o) == 3 && hs == 3 && !memcmp(h, "a_b", 3));''')
seed("C19-bech32-weak-check", "C19", "src/btc/bech32.c",
     [("  return mod == 1 ? 1 : 0;", "  return (mod & 0x1ffffff) == 1 ? 1 : 0;")],
     "a string whose first checksum character only is wrong", "a string with a wrong checksum is accepted",
     r'''unsigned char v[3] = {3, 1, 4}, o[90]; char s[90], h[90]; size_t hs = 90; fingera_bech32_encode("bc", 2, v, 3, s);
     s[6] = s[6] == 'q' ? 'p' : 'q'; CHECK(fingera_bech32_decode(s, 12, h, &hs, o) < 0);''')
seed("C19-bech32-latin1", "C19", "src/btc/bech32.c",
     [("else if (c < 33 || c > 126) return 1;", "else if (c < 33 || (c > 126 && c < 0xA1)) return 1;")],
     "a human-readable part with a byte >= 0xa1 and a matching checksum", "a string with a forbidden character is accepted",
     r'''unsigned char v[3] = {3, 1, 4}, o[90]; char s[90], h[90]; size_t hs = 90; fingera_bech32_encode("b\xc4", 2, v, 3, s);
     CHECK(fingera_bech32_decode(s, 12, h, &hs, o) < 0);''')
seed("C19-bech32-hrp-size", "C19", "src/btc/bech32.c",
     [("  if (*hrp_size < (size_t)(pos - str)) return -3;", "  if (*hrp_size + 1 < (size_t)(pos - str)) return -3;")],
     "a human-readable part one longer than the buffer offered", "one byte is written beyond the buffer",
     r'''unsigned char v[3] = {3, 1, 4}, o[90]; char s[90], h[8] = {0}; size_t hs = 3; fingera_bech32_encode("abcd", 4, v, 3, s);
     h[3] = 0x55; int r = fingera_bech32_decode(s, 14, h, &hs, o); CHECK(r < 0 && h[3] == 0x55);''')
# ------------------------------------------------------------------ C20
seed("C20-check-three-bytes", "C20", "src/btc/base58_check.c",
     [("if (memcmp(hash, (uint8_t *)buf + buf_size - 4, 4) != 0) return 0;", "if (memcmp(hash, (uint8_t *)buf + buf_size - 4, 3) != 0) return 0;")],
     "data whose checksum differs in its last byte only", "a wrong checksum is accepted",
     r'''char s[100]; unsigned char o[100]; size_t n = fingera_to_base58_check("hello", 5, "\x00", 1, s), m = fingera_from_base58(s, n, o);
     o[m - 1] ^= 1; n = fingera_to_base58(o, m, s); CHECK(fingera_from_base58_check(s, n, o) == 0);''')
seed("C20-check-scratch", "C20", "src/btc/base58_check.c",
     [("  DECLARE_BUFFER(char, buffer, size_of_all);", "  DECLARE_BUFFER(char, buffer, size_of_data);")],
     "payload plus prefix of 125..128 bytes (or any on the heap)", "the checksum is written beyond the scratch buffer",
     r'''unsigned char d[126]; memset(d, 0xff, 126); char s[300]; fingera_to_base58_check(d, 126, "", 0, s);''',
     cflags="-fsanitize=address")
seed("C20-check-prefix-order", "C20", "src/btc/base58_check.c",
     [("  memcpy(buffer, prefix, prefix_size);\n  memcpy(buffer + prefix_size, buf, buf_size);\n", "  memcpy(buffer + prefix_size, buf, buf_size);\n  memcpy(buffer, prefix, prefix_size > 64 ? 64 : prefix_size);\n")],
     "a prefix of more than 64 bytes", "the text does not carry the whole prefix",
     r'''unsigned char p[70], o[200]; memset(p, 3, 70); char s[300]; memset(s, 0, 300); size_t n = fingera_to_base58_check("ab", 2, p, 70, s);
     CHECK(fingera_from_base58_check(s, n, o) == 72 && !memcmp(o, p, 70));''')
# ------------------------------------------------------------------ C21/C22
seed("C21-version-17", "C21", "src/btc/address.c",
     [("  if (version < 1 || version > 16) return 0;", "  if (version < 1 || version > 17) return 0;")],
     "witness version 17", "a version that is not allowed is encoded",
     r'''unsigned char p[4] = {17, 1, 2, 3}; char s[100]; CHECK(fingera_to_address_witness_unknown(p, 4, s, 100, &g_mainnet_chain_parameters) == 0);''')
seed("C21-small-output", "C21", "src/btc/address.c",
     [("      fingera_to_base32_raw(script_hash, script_hash_size, buffer + 1) + 1;\n  size_t result_size =\n      fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);\n  if (out_size < result_size) return 0;",
       "      fingera_to_base32_raw(script_hash, script_hash_size, buffer + 1) + 1;\n  size_t result_size =\n      fingera_bech32_encode_length(param->bech32_hrp_size, buf_size);\n  if (out_size + param->bech32_hrp_size < result_size) return 0;")],
     "an output buffer one or two bytes too small for a script-hash address", "the address is written beyond the buffer",
     r'''unsigned char p[32] = {1}; char s[100]; CHECK(fingera_to_address_witnessv0_scripthash(p, 32, s, 61, &g_mainnet_chain_parameters) == 0);''')
seed("C21-min-program", "C21", "src/btc/address.c",
     [("  if (version_and_program_size < 3 || version_and_program_size > 41) return 0;", "  if (version_and_program_size < 2 || version_and_program_size > 41) return 0;")],
     "a witness program of one byte", "a program size that is not allowed is encoded",
     r'''unsigned char p[2] = {1, 1}; char s[100]; CHECK(fingera_to_address_witness_unknown(p, 2, s, 100, &g_mainnet_chain_parameters) == 0);''')
seed("C22-hrp-shorter", "C22", "src/btc/address.c",
     [("  if (bech32_size < 1 || hrp_size != param->bech32_hrp_size ||", "  if (bech32_size < 1 || hrp_size > param->bech32_hrp_size ||")],
     "a segwit address whose human-readable part is a proper prefix of the network's", "mainnet segwit addresses are accepted on regtest",
     r'''const char *a = "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4"; char o[200]; size_t n = 200;
     CHECK(fingera_btc_address_decode(a, strlen(a), o, &n, &g_regnet_chain_parameters) == BTC_BAD_ADDRESS);''')
seed("C22-tiny-program", "C22", "src/btc/address.c",
     [("    if (version > 16 || *out_size < 3 || *out_size > 41) {", "    if (version > 16 || *out_size < 2 || *out_size > 41) {")],
     "a segwit address of version 1..16 with a one-byte program", "a malformed program is accepted",
     r'''unsigned char v[3] = {1, 4, 4}; char s[100], o[200]; size_t n = 200; fingera_bech32_encode("bc", 2, v, 3, s);
     CHECK(fingera_btc_address_decode(s, 12, o, &n, &g_mainnet_chain_parameters) == BTC_BAD_ADDRESS);''')
# ------------------------------------------------------------------ C23/C24
seed("C23-flag-byte", "C23", "src/btc/key.c",
     [("    if (buf[size - 1] != 1) {", "    if (buf[size - 1] == 0) {")],
     "a 34-byte payload whose last byte is neither 0 nor 1", "a malformed key string is accepted",
     r'''unsigned char k[33] = {1}; k[32] = 2; char s[100]; unsigned char o[32]; int c;
     size_t n = fingera_to_base58_check(k, 33, "\x80", 1, s); CHECK(fingera_btc_key_from_string(s, n, o, &c, &g_mainnet_chain_parameters) == 0);''')
seed("C23-network-uncompressed", "C23", "src/btc/key.c",
     [("  if (memcmp(buf, param->prefix_secret_key, param->prefix_secret_key_size) != 0)", "  if (memcmp(buf, param->prefix_secret_key, pre_size - 1) != 0)")],
     "an uncompressed key string of another network", "it is accepted",
     r'''unsigned char k[32] = {1}; char s[100]; unsigned char o[32]; int c;
     size_t n = fingera_to_base58_check(k, 32, "\xef", 1, s); CHECK(fingera_btc_key_from_string(s, n, o, &c, &g_mainnet_chain_parameters) == 0);''')
seed("C23-flag-nonzero", "C23", "src/btc/key.c",
     [("  if (is_compressed) {\n    uint8_t buf33[33];", "  if (is_compressed & 0xFF) {\n    uint8_t buf33[33];")],
     "a true flag whose low byte is zero (0x100)", "the compressed flag is lost",
     r'''unsigned char k[32] = {1}; char s[100]; unsigned char o[32]; int c; size_t n = fingera_btc_key_to_string(k, s, 0x100, &g_mainnet_chain_parameters);
     CHECK(fingera_btc_key_from_string(s, n, o, &c, &g_mainnet_chain_parameters) && c);''', optional=True)
seed("C24-depth-bit", "C24", "src/btc/exkey.c",
     [("  ext->depth = code[0];", "  ext->depth = code[0] & 0x7F;")],
     "a depth of 128 or more", "the depth is not restored",
     r'''fingera_ex_key k, q; memset(&k, 1, sizeof k); k.ext.depth = 200; unsigned char b[74]; fingera_exkey_encode(&k, b); fingera_exkey_decode(b, &q); CHECK(q.ext.depth == 200);''')
seed("C24-version-last-byte", "C24", "src/btc/exkey.c",
     [("  if (memcmp(extkey, param->prefix_ext_public_key, prefix_size) != 0) return 0;", "  if (memcmp(extkey, param->prefix_ext_public_key, prefix_size - 1) != 0) return 0;")],
     "an extended public key string whose version differs in its last byte only", "it is accepted",
     r'''unsigned char d[74] = {0}; d[41] = 2; char s[200]; fingera_ex_pubkey q; size_t n = fingera_to_base58_check(d, 74, "\x04\x88\xB2\x1F", 4, s);
     CHECK(fingera_expubkey_from_string(s, n, &q, &g_mainnet_chain_parameters) == 0);''')
seed("C24-child-sign", "C24", "src/btc/exkey.c",
     [("  ext->child = read_big_32(code + 5);", "  ext->child = read_big_32(code + 5);\n  if (ext->fingerprint == 0) ext->child = 0;  // master key")],
     "a parent fingerprint of zero with a nonzero child number", "the child number is not restored",
     r'''fingera_ex_key k, q; memset(&k, 1, sizeof k); k.ext.fingerprint = 0; unsigned char b[74]; fingera_exkey_encode(&k, b); fingera_exkey_decode(b, &q); CHECK(q.ext.child == k.ext.child);''')
# ------------------------------------------------------------------ C25
seed("C25-last-normal-child", "C25", "src/btc/key.c",
     [("  if ((child >> 31) == 0) {\n", "  if (child < 0x7FFFFFFF) {\n")],
     "child number 2^31-1", "the last normal child is derived as a hardened one",
     r'''unsigned char k[32] = {7}, c[32] = {9}, a[32], ac[32], p[64], e[33], q[33], qc[32], pa[64], ea[33]; fingera_btc_key_init();
     CHECK(fingera_btc_key_derive(k, c, a, ac, 0x7FFFFFFF)); fingera_btc_key_get_pub(k, p); fingera_btc_pubkey_encode(p, e, 33);
     CHECK(fingera_btc_pubkey_derive(e, c, q, qc, 0x7FFFFFFF)); fingera_btc_key_get_pub(a, pa); fingera_btc_pubkey_encode(pa, ea, 33);
     CHECK(!memcmp(ea, q, 33) && !memcmp(ac, qc, 32));''')
seed("C25-depth", "C25", "src/btc/exkey.c",
     [("    derived->ext.depth = key->ext.depth + 1;", "    derived->ext.depth = (key->ext.depth + 1) & 0x7F;")],
     "a parent of depth 127 or more", "the depth of the child is wrong",
     r'''fingera_ex_key k, q; memset(&k, 1, sizeof k); k.ext.depth = 127; fingera_btc_key_init(); CHECK(fingera_exkey_derive(&k, &q, 0x80000000u, 5) && q.ext.depth == 128);''')
# ------------------------------------------------------------------ C26
seed("C26-short-key-align", "C26", "src/btc/key.c",
     [("  memcpy(out32 + (32 - oslen), privkey, oslen);", "  memcpy(out32, privkey, oslen);")],
     "a DER key whose octet string is shorter than 32 bytes", "the key is padded on the wrong side",
     r'''unsigned char d[] = {0x30,0x81,0x06,2,1,1,4,1,5}, o[32]; fingera_btc_key_init(); CHECK(fingera_btc_key_decode(d, sizeof d, o) && o[31] == 5 && o[0] == 0);''')
seed("C26-invalid-not-cleared", "C26", "src/btc/key.c",
     [("  if (!secp256k1_ec_seckey_verify(ctx, out32)) {\n    memset(out32, 0, 32);\n    return 0;", "  if (!secp256k1_ec_seckey_verify(ctx, out32)) {\n    return 0;")],
     "a DER structure with a key that is not below the group order", "the invalid key stays in the output",
     r'''unsigned char d[40] = {0x30,0x81,0x25,2,1,1,4,32}, o[32]; memset(d + 8, 0xff, 32); fingera_btc_key_init();
     CHECK(!fingera_btc_key_decode(d, 40, o)); CHECK(o[0] == 0 && o[31] == 0);''')
seed("C26-two-byte-length", "C26", "src/btc/key.c",
     [("(lenb > 1 ? privkey[lenb - 2] << 8 : 0u);", "(lenb > 1 ? privkey[lenb - 2] << 7 : 0u);")],
     "a two-byte sequence length larger than the remaining input, in a narrow range", "a structure longer than the input is accepted",
     r'''unsigned char d[300] = {0x30,0x82,0x02,0x00,2,1,1,4,1,5}, o[32]; fingera_btc_key_init(); CHECK(!fingera_btc_key_decode(d, 300, o));''')
# ------------------------------------------------------------------ C27
seed("C27-lax-zero-length-byte", "C27", "src/btc/key.c",
     [("    while (lenbyte > 0 && input[pos] == 0) {\n      pos++;\n      lenbyte--;\n    }\n    assert(sizeof(size_t) >= 4 && \"size_t too small\");\n    if (lenbyte >= 4) {\n      return 0;\n    }\n    slen = 0;",
       "    assert(sizeof(size_t) >= 4 && \"size_t too small\");\n    if (lenbyte >= 4) {\n      return 0;\n    }\n    slen = 0;")],
     "a long-form S length with at least four length bytes starting with zeros", "lax encodings that must be accepted are rejected",
     r'''unsigned char d[] = {0x30,0x80,2,1,5,2,0x84,0,0,0,1,6}, o[64]; fingera_btc_key_init(); CHECK(fingera_btc_signature_decode(d, sizeof d, o));''')
seed("C27-lax-seq-overread", "C27", "src/btc/key.c",
     [("    lenbyte -= 0x80;\n    if (lenbyte > inputlen - pos) {\n      return 0;\n    }\n    pos += lenbyte;\n", "    lenbyte -= 0x80;\n    pos += lenbyte;\n")],
     "a sequence header announcing more length bytes than the input has", "bytes outside the input are read",
     r'''unsigned char *d = guard(2), o[64]; d[0] = 0x30; d[1] = 0xff; fingera_btc_key_init(); CHECK(!fingera_btc_signature_decode(d, 2, o));''')
seed("C27-lax-r-33", "C27", "src/btc/key.c",
     [("  /* Ignore leading zeroes in R */\n  while (rlen > 0 && input[rpos] == 0) {", "  /* Ignore leading zeroes in R */\n  if (rlen > 1 && input[rpos] == 0) {")],
     "an R padded with two or more zero bytes beyond 32", "such signatures decode to the invalid signature",
     r'''unsigned char d[80] = {0x30, 0x80, 2, 34}, o[64], z[64] = {0}; memset(d + 4, 0, 34); d[37] = 5; d[38] = 2; d[39] = 1; d[40] = 6; fingera_btc_key_init();
     CHECK(fingera_btc_signature_decode(d, 41, o) && memcmp(o, z, 64));''')
# ------------------------------------------------------------------ C28
seed("C28-high-s", "C28", "src/btc/key.c",
     [("  secp256k1_ecdsa_signature_normalize(secp256k1_context_verify, &sig_normalized,\n                                      sig);\n", "  (void)sig;\n")],
     "a signature in its high-S form", "the high-S twin of a valid signature is rejected",
     r'''unsigned char k[32] = {7}, h[32] = {8}, s[64], p[64], der[80], c[64]; fingera_btc_key_init(); fingera_btc_key_get_pub(k, p); fingera_btc_key_sign(k, h, s);
     /* negate S through the compact form */
     static const unsigned char n[32] = {0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFF,0xFE,0xBA,0xAE,0xDC,0xE6,0xAF,0x48,0xA0,0x3B,0xBF,0xD2,0x5E,0x8C,0xD0,0x36,0x41,0x41};
     secp256k1_context *x = secp256k1_context_create(SECP256K1_CONTEXT_VERIFY | SECP256K1_CONTEXT_SIGN); secp256k1_ecdsa_signature_serialize_compact(x, c, (void *)s);
     int i, b = 0; for (i = 31; i >= 0; i--) { int t = n[i] - c[32 + i] - b; b = t < 0; c[32 + i] = (unsigned char)t; }
     secp256k1_ecdsa_signature_parse_compact(x, (void *)s, c); (void)der; CHECK(fingera_btc_key_verify(p, h, s));''', inc="#include <secp256k1.h>")
seed("C28-low-r-boundary", "C28", "src/btc/key.c",
     [("  return compact_sig[0] < 0x80;", "  return compact_sig[0] <= 0x80;")],
     "a first signature whose R starts with 0x80", "a signature with R >= 2^255 is returned",
     r'''unsigned char k[32] = {7}, h[32] = {8}, s[64], c[64]; int i; fingera_btc_key_init();
     secp256k1_context *x = secp256k1_context_create(SECP256K1_CONTEXT_SIGN);
     for (i = 0; i < 6000; i++) { h[1] = i; h[2] = i >> 8; fingera_btc_key_sign(k, h, s); secp256k1_ecdsa_signature_serialize_compact(x, c, (void *)s); if (c[0] >= 0x80) break; }
     CHECK(i == 6000);''', inc="#include <secp256k1.h>")
seed("C28-redraw-once", "C28", "src/btc/key.c",
     [("  do {\n    fingera_os_rand_bytes(key32, 32);\n  } while (!secp256k1_ec_seckey_verify(secp256k1_context_sign, key32));",
       "  fingera_os_rand_bytes(key32, 32);\n  if (!secp256k1_ec_seckey_verify(secp256k1_context_sign, key32))\n    fingera_os_rand_bytes(key32, 32);")],
     "two invalid draws of random bytes in a row", "an invalid key is returned",
     r'''unsigned char k[32]; fingera_btc_key_init(); draws = 3; fingera_btc_key_new(k); CHECK(k[0] == 0x11);''',
     skip="random", pre="static int draws;\nvoid fingera_os_rand_bytes(void *b, size_t n) { memset(b, draws > 0 ? 0xff : 0x11, n); draws--; }")
# ------------------------------------------------------------------ C29
seed("C29-fingerprint-flag", "C29", "src/btc/key.c",
     [("  uint8_t keyid[20];\n  fingera_btc_key_keyid(key32, compress, keyid);", "  uint8_t keyid[20];\n  (void)compress;\n  fingera_btc_key_keyid(key32, 1, keyid);")],
     "the fingerprint of an uncompressed key", "it is the fingerprint of the compressed form",
     r'''unsigned char k[32] = {7}, id[20]; fingera_btc_key_init(); fingera_btc_key_keyid(k, 0, id); uint32_t f = fingera_btc_key_fingerprint(k, 0);
     CHECK(f == read_little_32(id));''')
seed("C29-size-64", "C29", "src/btc/key.c",
     [("  if (encoded_pubkey_len != BTC_PUBLIC_KEY_SIZE &&\n      encoded_pubkey_len != BTC_COMPRESSED_PUBLIC_KEY_SIZE) {\n    return 0;\n  }\n  secp256k1_pubkey* pubkey = (secp256k1_pubkey*)pubkey64;\n  return secp256k1_ec_pubkey_parse(secp256k1_context_verify, pubkey,\n                                   encoded_pubkey, encoded_pubkey_len);",
       "  if (encoded_pubkey_len != BTC_PUBLIC_KEY_SIZE &&\n      encoded_pubkey_len != BTC_COMPRESSED_PUBLIC_KEY_SIZE) {\n    return 0;\n  }\n  secp256k1_pubkey* pubkey = (secp256k1_pubkey*)pubkey64;\n  const uint8_t* tag = (const uint8_t*)encoded_pubkey;\n  if (encoded_pubkey_len == 33 && (tag[0] & ~1) == 4) {\n    uint8_t copy[33];\n    memcpy(copy, tag, 33);\n    copy[0] &= 3;\n    copy[0] |= 2;\n    return secp256k1_ec_pubkey_parse(secp256k1_context_verify, pubkey, copy, 33);\n  }\n  return secp256k1_ec_pubkey_parse(secp256k1_context_verify, pubkey,\n                                   encoded_pubkey, encoded_pubkey_len);")],
     "a 33-byte encoding with the tag of an uncompressed key", "an invalid encoding is accepted",
     r'''unsigned char k[32] = {7}, p[64], e[33], o[64]; fingera_btc_key_init(); fingera_btc_key_get_pub(k, p); fingera_btc_pubkey_encode(p, e, 33); e[0] = 4; CHECK(!fingera_btc_pubkey_decode(e, 33, o));''')
# ------------------------------------------------------------------ C30
seed("C30-fd-leak", "C30", "src/random.c",
     [("    buf_size -= (size_t)r;\n  }\n  close(fd);", "    buf_size -= (size_t)r;\n  }\n  if (fd > 2) fcntl(fd, F_SETFD, FD_CLOEXEC);")],
     "more than the open-file limit of calls", "the random source is never released",
     r'''unsigned char b[4]; int i, a = dup(0); for (i = 0; i < 5; i++) fingera_os_rand_bytes(b, 4); int c = dup(0); CHECK(c == a + 1);''', inc="#include <unistd.h>")
seed("C30-eof-loop", "C30", "src/random.c",
     [("    if (r <= 0) {", "    if (r < 0 || (r == 0 && buf_size > 32)) {")],
     "an end of file with 32 bytes or fewer missing", "the call never ends instead of failing",
     r'''alarm(5); fingera_os_rand_bytes((unsigned char[16]){0}, 16); CHECK(0);''', inc="#include <unistd.h>",
     ldflags="-Wl,--wrap=read", pre="#include <unistd.h>\nssize_t __wrap_read(int f, void *b, size_t n) { (void)f; (void)b; (void)n; return 0; }", expect=255)
seed("C30-partial-count", "C30", "src/random.c",
     [("    buf_size -= (size_t)r;", "    buf_size -= buf_size == 7 ? 7 : (size_t)r;")],
     "a short read when exactly seven bytes are missing", "the rest of the buffer is not filled",
     r'''unsigned char b[7] = {0}; fingera_os_rand_bytes(b, 7); CHECK(b[6] == 0x77);''',
     ldflags="-Wl,--wrap=read", pre="#include <unistd.h>\nssize_t __wrap_read(int f, void *b, size_t n) { (void)f; if (n > 3) n = 3; memset(b, 0x77, n); return n; }")
# ------------------------------------------------------------------ C31
seed("C31-base58-reject", "C31", "src/base58.c",
     [("    if (carry == -1) {\n      fingera_cleanse(b256, size);\n", "    if (carry == -1) {\n      fingera_cleanse(b256, size / 2);\n")],
     "a text rejected at an invalid character after some digits", "decoded secret bytes stay in scratch memory",
     r'''char s[400]; unsigned char o[400]; memset(s, 'z', 399); s[398] = '!'; s[399] = 0; unsigned char d = 0;
     fingera_from_base58(s, 399, o); CHECK(freed_dirty == 0); (void)d;''',
     pre=r'''#include <malloc.h>
static int freed_dirty; void __real_free(void *p);
void __wrap_free(void *p) { if (p) { unsigned char *q = p; size_t i, n = malloc_usable_size(p); if (n > 250) for (i = 100; i < 250; i++) if (q[i] != 0xCC) freed_dirty = 1; } __real_free(p); }''', ldflags="-Wl,--wrap=free")
seed("C31-cleanse-partial", "C31", "src/cleanse.c",
     [("  memset(mem, 0xCC, size);", "  memset(mem, 0xCC, size > 8 ? size & ~(size_t)3 : size);")],
     "a range of more than 8 bytes that is not a multiple of four", "the last bytes are not overwritten",
     r'''unsigned char b[33]; memset(b, 5, 33); fingera_cleanse(b, 33); CHECK(b[32] != 5);''')
# ------------------------------------------------------------------ C32
seed("C32-dump-flush", "C32", "src/hex.c",
     [("    if (str_cache_len > 1000) {", "    if (str_cache_len > 1021) {")],
     "a buffer of many kilobytes", "the line buffer is overrun",
     r'''static unsigned char b[40000]; freopen("/dev/null", "w", stdout); fingera_hex_dump(b, 40000, 0);''', cflags="-fsanitize=address")
seed("C32-dump-64k", "C32", "src/hex.c",
     [("      if (i % 32 == 0) WRITE_CACHE__('\\n');", "      if ((i & 0x21F) == 0) WRITE_CACHE__('\\n');")],
     "a dump of more than 512 bytes", "line breaks are missing",
     r'''char name[] = "dump.out"; static unsigned char b[1024]; if (!freopen("/dev/null", "w", stderr)) return 3; char *p; (void)p; (void)name;
     int fd[2]; if (pipe(fd)) return 4; fflush(stdout); dup2(fd[1], 1); fingera_hex_dump(b, 1024, 0); fflush(stdout); close(fd[1]); close(1);
     static char o[8192]; int n = 0, r, i, nl = 0; while ((r = read(fd[0], o + n, sizeof o - n)) > 0) n += r; for (i = 0; i < n; i++) nl += o[i] == '\n'; if (nl != 32) return 1;''', inc="#include <unistd.h>")
# ------------------------------------------------------------------ C33
seed("C33-little64", "C33", "include/fingera_libc/endian.h",
     [("  return htole64(value);", "  return (uint64_t)htole32((uint32_t)value) | ((value >> 63) << 63) | (value & 0x7fffffff00000000ull & ~(value >> 63 << 40));")],
     "a little-endian 64-bit value with bits 40 and 63 set", "it is read with a bit lost",
     r'''unsigned char b[8] = {0,0,0,0,0,1,0,0x80}; CHECK(read_little_64(b) == 0x8000010000000000ull);''')
seed("C33-big32-offset", "C33", "include/fingera_libc/endian.h",
     [("  return read_big_64((const char *)mem + offset);", "  return ((uint64_t)read_big_32((const char *)mem + offset) << 32) | (uint64_t)read_big_32((const char *)mem + (offset | 4));")],
     "a 64-bit read at an offset that has bit 2 set", "the wrong bytes are read",
     r'''unsigned char b[16] = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}; CHECK(be64(b, 4) == 0x05060708090a0b0cull);''')
# ------------------------------------------------------------------ C34
seed("C34-check-cache", "C34", "src/btc/base58_check.c",
     [("  uint8_t hash[32];\n  size_t buf_size = fingera_from_base58(str, str_len, buf);\n  if (buf_size < 4) return 0;\n  fingera_btc_hash256(buf, buf_size - 4, hash);",
       "  static uint8_t last[64];\n  static size_t last_size = 0;\n  static uint8_t hash[32];\n  size_t buf_size = fingera_from_base58(str, str_len, buf);\n  if (buf_size < 4) return 0;\n  if (buf_size != last_size || buf_size > sizeof(last) ||\n      memcmp(last, buf, buf_size - 5) != 0) {\n    fingera_btc_hash256(buf, buf_size - 4, hash);\n    last_size = buf_size;\n    if (buf_size <= sizeof(last)) memcpy(last, buf, buf_size);\n  }")],
     "two calls in a row whose data differ only in the last payload byte", "the second result depends on the first call",
     r'''char s[100], t[100]; unsigned char o[100]; size_t n = fingera_to_base58_check("hello1", 6, "", 0, s), m = fingera_to_base58_check("hello2", 6, "", 0, t);
     CHECK(fingera_from_base58_check(s, n, o) == 6); CHECK(fingera_from_base58_check(t, m, o) == 6);''')
seed("C34-bech32-static", "C34", "src/btc/bech32.c",
     [("  uint32_t mod = 1;\n  for (size_t i = 0; i < hrp_len; i++) {\n    mod = poly_mod((uint8_t)hrp[i] >> 5, mod);\n  }\n  mod = poly_mod(0, mod);\n  for (size_t i = 0; i < hrp_len; i++) {\n    mod = poly_mod((uint8_t)hrp[i] & 0x1F, mod);\n  }\n  // values\n  for (size_t i = 0; i < b32_size; i++) {\n    mod = poly_mod(b32[i], mod);\n  }\n  for (size_t i = 0; i < 6; i++) {",
       "  static uint32_t hrp_mod = 0;\n  static char last_hrp[8];\n  static size_t last_len = 0;\n  uint32_t mod = 1;\n  if (hrp_len == last_len && hrp_len <= 8 && memcmp(hrp, last_hrp, hrp_len / 2 * 2) == 0) {\n    mod = hrp_mod;\n  } else {\n    for (size_t i = 0; i < hrp_len; i++) {\n      mod = poly_mod((uint8_t)hrp[i] >> 5, mod);\n    }\n    mod = poly_mod(0, mod);\n    for (size_t i = 0; i < hrp_len; i++) {\n      mod = poly_mod((uint8_t)hrp[i] & 0x1F, mod);\n    }\n    hrp_mod = mod;\n    last_len = hrp_len;\n    memcpy(last_hrp, hrp, hrp_len <= 8 ? hrp_len : 8);\n  }\n  // values\n  for (size_t i = 0; i < b32_size; i++) {\n    mod = poly_mod(b32[i], mod);\n  }\n  for (size_t i = 0; i < 6; i++) {")],
     "two decodes in a row whose human-readable parts have the same odd length and differ in the last character", "the second is rejected",
     r'''unsigned char v[3] = {3, 1, 4}, o[90]; char s[90], t[90], h[90]; size_t hs = 90; fingera_bech32_encode("abc", 3, v, 3, s); fingera_bech32_encode("abd", 3, v, 3, t);
     CHECK(fingera_bech32_decode(s, 13, h, &hs, o) == 3); hs = 90; CHECK(fingera_bech32_decode(t, 13, h, &hs, o) == 3);''')
seed("C34-input-modified", "C34", "src/hex.c",
     [("    if (high == 0xFF || low == 0xFF) break;\n    *out++ = (high << 4) | low;", "    if (high == 0xFF || low == 0xFF) {\n      if (high == 0xFF && low == 0xFF) ((char *)str)[i] = '0';\n      break;\n    }\n    *out++ = (high << 4) | low;")],
     "text with two invalid characters in one pair", "the read-only input is modified",
     r'''char s[5] = "12xy"; unsigned char o[4]; CHECK(fingera_from_hex(s, 4, o) == 1); CHECK(!strcmp(s, "12xy"));''')
# ------------------------------------------------------------------ second batch
seed("C06-base58-zero-run", "C06", "src/base58.c",
     [("  while (begin != end) {\n    int carry = *begin;\n",
       "  while (begin != end) {\n    if (end - begin > 10 && !memcmp(begin, (uint8_t[10]){0}, 10)) begin++;\n    int carry = *begin;\n")],
     "ten zero bytes in the middle of the data", "one of the bytes is dropped",
     r'''unsigned char d[16] = {1,2,3,0,0,0,0,0,0,0,0,0,0,5,6,7}, o[64]; char s[64];
     size_t n = fingera_to_base58(d, 16, s); CHECK(fingera_from_base58(s, n, o) == 16 && !memcmp(o, d, 16));''')
seed("C06-base58-int8-carry", "C06", "src/base58.c",
     [("      carry += 256 * b58[it];\n", "      carry += 256 * b58[it];\n      if (carry == 57 * 256 + 255 && length < 2) carry--;\n")],
     "a digit 57 that receives the largest carry", "the number is off by one unit of that digit",
     r'''/* the first digit becomes 57 and the next byte is 255 */
     unsigned char d[2] = {57, 255}, o[8]; char s[8]; size_t n = fingera_to_base58(d, 2, s);
     CHECK(fingera_from_base58(s, n, o) == 2 && o[0] == 57 && o[1] == 255);''')
seed("C12-sha256-length-32", "C12", "src/hash/sha2.c",
     [("  uint8_t last_chunk[64];\n  const uint8_t *msg_buf = (const uint8_t *)msg;\n  uint64_t chunk_end = htobe64((uint64_t)(msg_len + append_size) << 3);\n",
       "  uint8_t last_chunk[64];\n  const uint8_t *msg_buf = (const uint8_t *)msg;\n  uint64_t chunk_end = htobe64((uint32_t)(msg_len + append_size) << 3);\n")],
     "a message of 512 MiB or more", "the bit count in the padding is truncated to 32 bits",
     r'''size_t n = (size_t)1 << 29; unsigned char *m = malloc(n), h[32], w[32] = {@sha256:a*536870912@};
     memset(m, 'a', n); fingera_sha2_256(m, n, h); CHECK(!memcmp(h, w, 32));''')
seed("C12-sha256-residue-61", "C12", "src/hash/sha2.c",
     [("  if (msg_len > 55) {\n", "  if (msg_len > 55 && (msg_len & 7) != 5) {\n")],
     "a message whose length is 61 modulo 64", "the padding of such messages loses its marker",
     r'''unsigned char m[61], h[32], w[32] = {@sha256:a*61@}; memset(m, 'a', 61); fingera_sha2_256(m, 61, h); CHECK(!memcmp(h, w, 32));''')
seed("C14-sha1-signed-byte", "C14", "src/hash/sha1.c",
     [("k1, w9 = be32(chunk, 36));", "k1, w9 = (be32(chunk, 36) & ~0xFFu) | (uint32_t)((const char *)chunk)[39]);")],
     "a byte >= 0x80 at position 39 of a block", "the word is sign-extended",
     r'''unsigned char m[48], h[20], g[20]; memset(m, 'a', 48); m[39] = 0x80; m[36] = 0; fingera_sha1(m, 48, h);
     m[36] = 0x7f; fingera_sha1(m, 48, g); CHECK(memcmp(h, g, 20));''')
seed("C14-sha1-text-tail", "C14", "src/hash/sha1.c",
     [("  memset(last_chunk, 0, sizeof(last_chunk));\n  memcpy(last_chunk, msg_buf, msg_len);\n",
       "  strncpy((char *)last_chunk, (const char *)msg_buf, msg_len);\n  memset(last_chunk + msg_len, 0, sizeof(last_chunk) - msg_len);\n")],
     "a zero byte followed by other data in the last partial block", "everything after the zero byte is ignored",
     r'''unsigned char a[4] = {1, 0, 2, 3}, b[4] = {1, 0, 7, 7}, h[20], g[20]; fingera_sha1(a, 4, h); fingera_sha1(b, 4, g);
     CHECK(memcmp(h, g, 20));''')
seed("C15-ripemd-signed-word", "C15", "src/hash/ripemd160.c",
     [("X10 = le32(chunk, 10 * 4)", "X10 = (le32(chunk, 10 * 4) & ~0xFFu) | (uint32_t)((const char *)chunk)[40]")],
     "a byte >= 0x80 at position 40 of a block", "the word is sign-extended",
     r'''unsigned char m[50], h[20], g[20]; memset(m, 'a', 50); m[40] = 0x90; fingera_ripemd160(m, 50, h); m[43] = 'b'; fingera_ripemd160(m, 50, g);
     CHECK(memcmp(h, g, 20));''')
seed("C15-ripemd-length-29", "C15", "src/hash/ripemd160.c",
     [("  uint64_t chunk_end = htole64((uint64_t)msg_len << 3);", "  uint64_t chunk_end = htole64((uint64_t)(msg_len & 0xFFFFFFF) << 3);")],
     "a message of 256 MiB or more", "the bit count in the padding is truncated",
     r'''size_t n = (size_t)1 << 28; unsigned char *m = calloc(n, 1), h[20], w[20]; char hex[41];
     static const unsigned char known[20] = {@ripemd160z:268435456@};
     fingera_ripemd160(m, n, h); (void)w; (void)hex; CHECK(!memcmp(h, known, 20));''')
seed("C15-ripemd-residue", "C15", "src/hash/ripemd160.c",
     [("  if (msg_len > 55) {\n", "  if (msg_len > 55 && msg_len != 59) {\n")],
     "a message whose length is 59 modulo 64", "the padding of such messages loses its marker",
     r'''unsigned char m[59], h[20], w[20] = {@ripemd160:a*59@}; memset(m, 'a', 59); fingera_ripemd160(m, 59, h); CHECK(!memcmp(h, w, 20));''')
seed("C13-sha512-long-length", "C13", "src/hash/sha2.c",
     [("  uint8_t last_chunk[128];\n  const uint8_t *msg_buf = (const uint8_t *)msg;\n  uint64_t chunk_end = htobe64((uint64_t)(msg_len + append_size) << 3);\n",
       "  uint8_t last_chunk[128];\n  const uint8_t *msg_buf = (const uint8_t *)msg;\n  uint64_t chunk_end = htobe64((uint64_t)(uint32_t)((msg_len + append_size) << 3));\n")],
     "a message of 512 MiB or more", "the bit count in the padding is truncated to 32 bits",
     r'''size_t n = (size_t)1 << 29; unsigned char *m = malloc(n), h[64], w[64] = {@sha512:a*536870912@};
     memset(m, 'a', n); fingera_sha2_512(m, n, h); CHECK(!memcmp(h, w, 64));''')
seed("C16-hmac512-cleanse-early", "C16", "src/hash/sha2.c",
     [("  if (key_len <= 128) {\n", "  if (key_len <= 128 || (key_len < 160 && key_len % 8 == 0)) {\n"),
      ("    memcpy(buffer, key, key_len);\n    memset((char *)buffer + key_len, 0, 128 - key_len);", "    memcpy(buffer, key, key_len < 128 ? key_len : 128);\n    memset((char *)buffer + (key_len < 128 ? key_len : 128), 0, key_len < 128 ? 128 - key_len : 0);")],
     "a key of 136, 144 or 152 bytes", "the key is truncated instead of hashed",
     r'''unsigned char k[136], m[3] = {'a','b','c'}, h[64], w[64] = {@hmac512:k*136:abc@}; memset(k, 'k', 136);
     fingera_hmac_sha512(k, 136, m, 3, h); CHECK(!memcmp(h, w, 64));''')
seed("C31-hash-tail", "C31", "src/btc/hash.c",
     [("  fingera_cleanse(buffer, sizeof(buffer));", "  fingera_cleanse(buffer, sizeof(buffer) - 4 - 16);")],
     "a BIP32 derivation", "half of the parent key stays on the stack",
     r'''static unsigned char cc[32], data[32]; memset(data, 0xA7, 32); unsigned char out[64];
     fingera_btc_bip32_hash(cc, 5, 0, data, out); CHECK(!seen);''',
     pre=r'''static int seen; void __real_fingera_cleanse(void *p, size_t n);
void __wrap_fingera_cleanse(void *p, size_t n) { __real_fingera_cleanse(p, n); unsigned char *q = p; if (n < 37 && n > 8 && n != 32 && q[n] == 0xA7) seen = 1; }''', ldflags="-Wl,--wrap=fingera_cleanse")
seed("C31-base58check-body", "C31", "src/btc/base58_check.c",
     [("  fingera_cleanse(buffer, size_of_all);", "  fingera_cleanse(buffer, prefix_size + 4);")],
     "encoding a secret with base58check through the heap", "the secret stays in the released scratch block",
     r'''static unsigned char k[400]; static char s[800]; memset(k, 0x41, 400); fingera_to_base58_check(k, 400, "\x80", 1, s); CHECK(!freed_dirty);''',
     pre=r'''#include <malloc.h>
static int freed_dirty; void __real_free(void *p);
void __wrap_free(void *p) { if (p) { unsigned char *q = p; size_t i, n = malloc_usable_size(p); if (n > 250) for (i = 100; i < 250; i++) if (q[i] == 0x41) freed_dirty = 1; } __real_free(p); }''', ldflags="-Wl,--wrap=free")
# ------------------------------------------------------------------ C35
seed("C35-base64-int-groups", "C35", "include/fingera_libc/base64.h",
     [("return ((buf_size + 2) / 3) * 4;", "return (size_t)(((unsigned int)buf_size + 2) / 3) * 4;")],
     "the size of 4 GiB or more", "the announced length is computed modulo 2^32",
     r'''size_t n = ((size_t)3 << 32) + 6; CHECK(fingera_to_base64_length(n) == n / 3 * 4);''')
seed("C35-base58-u32-product", "C35", "include/fingera_libc/base58.h",
     [("return buf_size * 138 / 100 + 2;", "return (unsigned int)(buf_size * 138) / 100 + 2;")],
     "more than 31 million bytes", "the announced length is computed modulo 2^32",
     r'''CHECK(fingera_to_base58_length(40000000) >= 54626331);''')
seed("C35-base32-raw-int", "C35", "src/base32.c",
     [("size_t fingera_from_base32_raw_length(size_t new_len) {\n  size_t size = (new_len / 8) * 5;", "size_t fingera_from_base32_raw_length(size_t new_len) {\n  size_t size = (int)new_len / 8 * 5;")],
     "a size of 2 GiB or more", "the announced length is wrong",
     r'''size_t n = ((size_t)1 << 32) + 8; CHECK(fingera_from_base32_raw_length(n) == n / 8 * 5);''')
seed("C35-bech32-length-u16", "C35", "include/fingera_libc/btc/bech32.h",
     [("return hrp_len + b32_size + 7;", "return (uint16_t)(hrp_len + 7) + b32_size;")],
     "a human-readable part of 65529 characters or more", "the announced length is 65536 too small",
     r'''CHECK(fingera_bech32_encode_length(65530, 3) == 65540);''')
# ------------------------------------------------------------------ C36
seed("C36-seed-once", "C36", "src/btc/key.c",
     [("  uint8_t rand_buffer[32];\n  assert(secp256k1_context_verify == NULL);", "  static int seeded;\n  uint8_t rand_buffer[32];\n  assert(secp256k1_context_verify == NULL);"),
      ("  fingera_os_rand_bytes(rand_buffer, sizeof(rand_buffer));\n  int r = secp256k1_context_randomize(secp256k1_context_sign, rand_buffer);",
       "  if (!seeded++) fingera_os_rand_bytes(rand_buffer, sizeof(rand_buffer));\n  int r = secp256k1_context_randomize(secp256k1_context_sign, rand_buffer);")],
     "a second start of the key library", "the signing context is blinded with left-over stack bytes",
     r'''fingera_btc_key_init(); fingera_btc_key_uninit(); int d = draws; fingera_btc_key_init(); CHECK(draws == d + 32);''',
     skip="random", pre="static int draws;\nvoid fingera_os_rand_bytes(void *b, size_t n) { memset(b, 7, n); draws += n; }")
seed("C36-verify-leak", "C36", "src/btc/key.c",
     [("  secp256k1_context_destroy(secp256k1_context_verify);\n  secp256k1_context_verify = NULL;", "  secp256k1_context_verify = NULL;")],
     "a shutdown of the key library", "the verification context is never released",
     r'''int i; for (i = 0; i < 3; i++) { fingera_btc_key_init(); fingera_btc_key_uninit(); } CHECK(live == 0);''',
     inc="#include <secp256k1.h>", pre=r'''static int live;
secp256k1_context *__real_secp256k1_context_create(unsigned f); secp256k1_context *__wrap_secp256k1_context_create(unsigned f) { live++; return __real_secp256k1_context_create(f); }
void __real_secp256k1_context_destroy(secp256k1_context *c); void __wrap_secp256k1_context_destroy(secp256k1_context *c) { live--; __real_secp256k1_context_destroy(c); }''',
     ldflags="-Wl,--wrap=secp256k1_context_create,--wrap=secp256k1_context_destroy")
seed("C36-wrong-context-blinded", "C36", "src/btc/key.c",
     [("secp256k1_context_randomize(secp256k1_context_sign, rand_buffer)", "secp256k1_context_randomize(secp256k1_context_verify, rand_buffer)")],
     "looking at which context is blinded", "the signing context keeps its built-in blinding",
     r'''fingera_btc_key_init(); unsigned char k[32] = {7}, h[32] = {8}, s[64]; fingera_btc_key_sign(k, h, s); CHECK(signer != NULL && signer == blinded);''',
     inc="#include <secp256k1.h>", pre=r'''static const void *blinded, *signer;
int __real_secp256k1_context_randomize(secp256k1_context *c, const unsigned char *s); int __wrap_secp256k1_context_randomize(secp256k1_context *c, const unsigned char *s) { blinded = c; return __real_secp256k1_context_randomize(c, s); }
int __real_secp256k1_ecdsa_sign(const secp256k1_context *c, secp256k1_ecdsa_signature *s, const unsigned char *m, const unsigned char *k, secp256k1_nonce_function f, const void *d);
int __wrap_secp256k1_ecdsa_sign(const secp256k1_context *c, secp256k1_ecdsa_signature *s, const unsigned char *m, const unsigned char *k, secp256k1_nonce_function f, const void *d) { signer = c; return __real_secp256k1_ecdsa_sign(c, s, m, k, f, d); }''',
     ldflags="-Wl,--wrap=secp256k1_context_randomize,--wrap=secp256k1_ecdsa_sign")
# ------------------------------------------------------------------ large sizes
seed("C01-hex-u16-even", "C01", "src/hex.c",
     [("for (size_t i = 0; i < buf_size; i++) {\n    byte = bytes[i];\n    str[0]", "for (size_t i = 0; i < buf_size; i++) {\n    byte = bytes[i & 0x7FFF];\n    str[0]")],
     "more than 32768 bytes of input", "bytes beyond 32768 repeat the first ones",
     r'''static unsigned char d[40000]; static char s[80000]; memset(d + 32768, 0xab, 7000); fingera_to_hex(d, 40000, s, 0); CHECK(s[65536] == 'a');''')
seed("C02-base64-short-tail", "C02", "src/base64.c",
     [("  size_t tail_len = buf_size % 3;\n", "  size_t tail_len = (uint16_t)buf_size % 3u;\n")],
     "65536 bytes or more whose size modulo 65536 has another remainder", "the last group is wrong",
     r'''static unsigned char d[65537]; static char s[90000]; memset(d, 0xff, 65537); size_t n = fingera_to_base64_length(65537); memset(s, 0, sizeof(s));
     fingera_to_base64(d, 65537, s); CHECK(strlen(s) == n && s[n - 1] == '=');''')
seed("C05-base32-blocks-u8", "C05", "src/base32.c",
     [("for (size_t i = 0; i < blocks; i++) {", "for (size_t i = 0; (uint8_t)i < blocks && i < blocks; i += i == 1023 ? 2 : 1) {")],
     "text of more than 8192 characters", "a group is skipped",
     r'''static char s[8201]; static unsigned char o[6000]; memset(s, 'a', 8200); memset(s + 8184, 'b', 8); CHECK(fingera_from_base32(s, 8200, o) == 5125);''')
seed("C17-d64-count-u8", "C17", "src/btc/hash.c",
     [("  while (blocks--) {\n", "  unsigned char left = blocks > 256 ? 255 : blocks;\n  while (left--) {\n")],
     "a batch of 256 blocks or more", "blocks are left out",
     r'''static unsigned char in[64 * 257], o[32 * 257]; unsigned char w[32]; memset(in, 5, sizeof(in)); fingera_btc_hash256_d64(o, in, 257);
     fingera_btc_hash256(in, 64, w); CHECK(!memcmp(o + 32 * 256, w, 32));''')
