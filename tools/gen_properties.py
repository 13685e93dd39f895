#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as Python because the lines are long)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Hex encoding and decoding are exact",
 "Hex encoding writes exactly two digits per input byte, high nibble first, in the requested letter case, and decoding that text returns the same bytes. Decoding arbitrary text converts complete digit pairs (either case) up to the first pair holding a non-hex character, ignores a trailing single character, returns exactly the number of bytes converted, and touches no memory outside the given text and the advertised output size.",
 ["inputs"], "every byte content at every length 0..20 plus 33, 64, 130 (quick), 0..64 and more (thorough); buffers to 65540 bytes with arbitrary bytes at several positions; decode text of every byte value including NUL and bytes >= 0x80",
 "tests/hex.cpp decodes a few literals; it cannot try all byte values at all positions and lengths, nor see an over-read.",
 ["src/hex.c", "include/fingera_libc/hex.h"], [("digit tables and pair loop", "src/hex.c")], ["return value, output buffer, bounds of both buffers"])
prop("C02", "Base64 encoding follows RFC 4648 and round-trips",
 "For every byte string the standard encoder produces the padded RFC 4648 text and the URL-safe encoder the unpadded '-_' text, writing exactly as many characters as the length helper announces. Decoding that text with the matching decoder returns exactly the original bytes, and the decode length helper announces exactly their number.",
 ["inputs"], "every byte content at every length 0..20 plus 33, 48, 64, 65 (quick), 0..66 and 130 (thorough); buffers to 65540 bytes with arbitrary bytes at several positions",
 "tests/base64.cpp compares sample files; round-trip for every content and every length modulo 3 is a universal statement.",
 ["src/base64.c", "include/fingera_libc/base64.h"], [("bit regrouping, alphabet tables, padding", "src/base64.c"), ("length helpers", "include/fingera_libc/base64.h")])
prop("C03", "Base64 decoding of arbitrary text is exact and memory-safe",
 "For any text, decoding converts 4-character groups in order and stops at the first group containing a character outside the selected alphabet ('=' counts as such a character except as up to two trailing characters of standard text), returning exactly the bytes of the groups before it. It never reads outside the given text nor writes more bytes than the length helper announces for it, and a single left-over character produces nothing.",
 ["inputs"], "every text content (all 256 byte values per character) at every length 0..20, 33, 64, 65 (quick), 0..66 (thorough), both alphabets; text to 65540 characters with arbitrary ones at several positions",
 "Only a handful of malformed strings are tried by the tests; all 256 values at every position and length are not.",
 ["src/base64.c", "include/fingera_libc/base64.h"], [("invalid-character detection, tail handling", "src/base64.c")])
prop("C04", "Base32 encoding follows RFC 4648 and round-trips",
 "For every byte string the text encoder produces lower-case RFC 4648 base32 with '=' padding of the announced length, and the raw encoder produces the same 5-bit groups as byte values 0..31 without padding and returns their number. Decoding either form returns exactly the original bytes and the decode length helpers announce exactly that size; upper-case text decodes identically.",
 ["inputs"], "every byte content at every length 0..21, 32, 40, 41, 64 (quick), 0..65 (thorough); buffers to 65540 bytes with arbitrary bytes at several positions",
 "tests/base32.cpp checks eight literals; not all contents and lengths modulo 5.",
 ["src/base32.c", "include/fingera_libc/base32.h"], [("bit regrouping, padding and tail cases", "src/base32.c")])
prop("C05", "Base32 decoding of arbitrary input is exact and memory-safe",
 "For any input, base32 decoding converts 8-character groups in order up to the first '=' (text form only) or the end, stops at the first group, including the final partial one, that holds a character outside the alphabet, and returns exactly the bytes of the groups before it (a left-over partial group of 1, 3 or 6 characters, which no encoding has, produces nothing). It reads only the given length, never writes more than the length helper announces, and bytes >= 0x80 are just invalid characters.",
 ["inputs"], "every content (all 256 values per position) at every length 0..20, 24, 32, 33, 41 (quick), 0..48, 64, 65 (thorough); text to 65540 characters with arbitrary ones at several positions; text and raw form; input in an exactly sized buffer with no terminator",
 "Tests decode well-formed text plus one invalid character; the universally quantified error and bounds behaviour is untested.",
 ["src/base32.c", "include/fingera_libc/base32.h"], [("invalid-character detection, bounded padding search", "src/base32.c")])
prop("C06", "Base58 encoding is the exact, reversible base-58 number",
 "Base58 encoding yields one '1' per leading zero byte followed by the minimal big-endian base-58 representation (Bitcoin alphabet) of the remaining number, and returns its length. Decoding that text returns exactly the original bytes, and decoding any accepted text and re-encoding returns that text without surrounding white space.",
 ["inputs"], "all contents of 0..16 bytes and of 17, 18, 20, 21, 24, 25, 32..38 bytes with nonzero first byte (thorough: every size to 65); text of 0..8 arbitrary base58 characters and of 9..22, 34, 44 without leading '1'; longer data (to 300 bytes, crossing the stack/heap scratch boundary) with symbolic bytes at both ends of concrete data",
 "Encoding is a long division whose result depends on every byte; tests use about a dozen literals.",
 ["src/base58.c", "include/fingera_libc/base58.h"], [("repeated division with carry, leading zero handling", "src/base58.c")])
prop("C07", "Base58 decoding of arbitrary text rejects or is exact",
 "Base58 decoding of any text of the given length (ending early at a NUL byte) accepts it iff, apart from leading and trailing white space, it consists only of base-58 characters; otherwise it returns 0. It never reads outside the given length, whether or not a terminator follows it, and when it accepts, the result is the number denoted by the text with one zero byte per leading '1'.",
 ["inputs"], "every text (all 256 values per character) of 0..6 characters; base58 characters in the middle with arbitrary ones around (to 52); longer texts (to 300 characters) with arbitrary characters at several positions",
 "Tests try three strings with spaces; over-reads past the given length are invisible to them.",
 ["src/base58.c"], [("alphabet table, white space skipping, length bound", "src/base58.c")])
prop("C08", "Base58 output always fits the size announced by the helpers",
 "For every input the number of characters or bytes written by base58 (and base58check) encoding or decoding never exceeds the size announced by the corresponding length helper, including inputs made of leading zeros or leading '1' characters only. No call overruns its internal scratch space or leaks memory, for inputs on either side of the stack/heap boundary.",
 ["inputs"], "lengths 1..19 and around every internal boundary up to 260 with extreme contents (all 0xff, all zero, all '1', all 'z', mixtures) ending in arbitrary bytes; small sizes fully symbolic",
 "The tests use generously sized fixed buffers and cannot observe writes beyond the announced size.",
 ["src/base58.c", "include/fingera_libc/base58.h", "include/fingera_libc/btc/base58_check.h", "src/btc/base58_check.c"], [("size helpers", "include/fingera_libc/base58.h"), ("scratch buffer", "include/fingera_libc/sl/buffer.h")])
prop("C09", "Variable-length integers round-trip for every 64-bit value",
 "Every unsigned 64-bit value encodes to 1..10 bytes, all but the last with the high bit set, and decoding that encoding (also when other bytes follow) consumes exactly those bytes and returns the value. Distinct values have distinct encodings, smaller values never have longer encodings than larger ones, and no encoding is a prefix of another.",
 ["inputs"], "all 2^64 values and all pairs of values; every following byte content",
 "tests/compress_integer.cpp tries a few values; the 7-bit boundary offsets need all values.",
 ["src/compress_integer.c"], [("base-128 with offset encoding", "src/compress_integer.c")])
prop("C10", "Variable-length decoding of arbitrary bytes rejects or is canonical",
 "Decoding arbitrary bytes either returns 0 or consumes a prefix that ends with its first byte without continuation bit and that is exactly the encoding of the returned value. Truncated input, more than 10 bytes, and numbers beyond 64 bits are rejected, and no byte beyond the given size is read.",
 ["inputs"], "all contents of 0..12 bytes, unsigned and signed form",
 "Only valid encodings are tested today.",
 ["src/compress_integer.c"], [("length limit and overflow rejection", "src/compress_integer.c")])
prop("C11", "Signed integers round-trip through the zigzag encoding",
 "Every signed 64-bit value, including the most negative one, encodes to at most 10 bytes and decodes to itself, consuming exactly its encoding, and distinct values have distinct encodings. Values of small magnitude get short encodings: a value in -63..63 takes one byte.",
 ["inputs"], "all 2^64 values and pairs",
 "Tests try a few values; INT64_MIN was broken on the original tree.",
 ["src/compress_integer.c"], [("sign folding", "src/compress_integer.c")])
for i, (n, std, f, digest) in enumerate([("SHA-256", "FIPS 180-4", "src/hash/sha2.c", "32"), ("SHA-512", "FIPS 180-4", "src/hash/sha2.c", "64"), ("SHA-1", "FIPS 180-4", "src/hash/sha1.c", "20"), ("RIPEMD-160", "the RIPEMD-160 specification", "src/hash/ripemd160.c", "20")]):
    prop("C%d" % (12 + i), "%s equals its specification for every message" % n,
     "The %s digest of every message equals the one defined by %s, whatever the message length relative to the block size and whatever the alignment of the message. Exactly %s bytes are written, the message is not modified and nothing outside it is read." % (n, std, digest),
     ["inputs"], "all message contents at every length listed in the evidence (every length around the block boundaries of the first blocks, and sampled longer ones), plus the padding of very long messages",
     "tests/hash.cpp has a few vectors; a padding bug at one length, or a rare-input carry bug, needs all contents at all lengths.",
     [f, f.replace("src/", "include/fingera_libc/").replace(".c", ".h")], [("compression function and padding", f)])
prop("C16", "HMAC-SHA-256 and HMAC-SHA-512 equal RFC 2104",
 "For every key and message the HMAC-SHA-256 and HMAC-SHA-512 results equal RFC 2104, including keys shorter than, equal to and longer than the hash block size and empty keys or messages. Only the digest is written, and neither key nor message is modified or over-read.",
 ["inputs"], "all contents; key lengths 0,1,20,31..33,63..66,100,127..131,200 x several message lengths including block boundaries",
 "tests/hash.cpp uses the RFC vectors; the key-length boundary needs every length around the block size and all contents.",
 ["src/hash/sha2.c", "include/fingera_libc/hash/sha2.h"], [("inner/outer pad and key hashing", "src/hash/sha2.c")])
prop("C17", "Bitcoin hash compositions equal their definitions",
 "hash256 is SHA-256 applied twice, hash160 is RIPEMD-160 of SHA-256, the batch form writes for each 64-byte block its double SHA-256 in order, and the BIP32 hash is HMAC-SHA-512 keyed by the chain code over header byte, 32 data bytes and the big-endian child number. All outputs have exactly the defined size and each block of a batch is independent of the others.",
 ["inputs"], "all contents; message lengths 0..130; batches of 0..5, 8, 9, 16, 17, 33, 40, 65 blocks, of 128, 257 and 300 with some arbitrary blocks; all child numbers and header bytes",
 "Specialised batch code shares no code with the generic hash; vectors exercise one or two blocks.",
 ["src/btc/hash.c", "src/hash/sha2.c"], [("specialised 64-byte double hash", "src/hash/sha2.c"), ("compositions", "src/btc/hash.c")])
prop("C18", "Bech32 encoding follows BIP173 and round-trips",
 "Encoding a human-readable part and 5-bit values yields the part, '1', one character per value and the six-character BIP173 checksum, of the announced length. Decoding it, in lower or upper case, returns the same human-readable part in lower case and the same values, as long as the whole has at most 90 characters.",
 ["inputs"], "all human-readable parts (every character 33..126) and all values for about twenty pairs of lengths from (1,0) to (83,8) and (2,120); decoding of single-case text of all lengths to 71 in samples, including arbitrary human-readable parts; the code distance for every distance up to 89",
 "Tests encode some BIP173 vectors; the checksum must be right for every content.",
 ["src/btc/bech32.c", "include/fingera_libc/btc/bech32.h"], [("checksum polynomial, alphabet", "src/btc/bech32.c")])
prop("C19", "Bech32 decoding accepts exactly the valid BIP173 strings",
 "A string is accepted iff it has at most 90 characters, only characters 33..126, no mixed case, a separator (the last '1') with a non-empty part before and at least six characters after it, only alphabet characters after it and a correct checksum; otherwise a negative value is returned. Any accepted string re-encodes to itself in lower case, and a valid string with one or two substituted data characters is rejected; nothing outside the given length is read, and no more than the documented output sizes is written.",
 ["inputs"], "all strings (256 values per character) at lengths 0, 1, 6..12 (thorough 0..16), 91, 92, 120; lengths 13..90 with arbitrary charset characters in fixed or either case and some positions entirely arbitrary; output capacities below and above the need",
 "Tests have about 20 valid and invalid vectors of an exponential input space.",
 ["src/btc/bech32.c"], [("case, length, separator, alphabet and checksum tests", "src/btc/bech32.c")])
prop("C20", "Base58Check accepts exactly the strings whose checksum matches",
 "Base58Check encoding is the base58 text of prefix, payload and the first four bytes of the double SHA-256 of both. Decoding accepts iff the base58-decoded data has at least four bytes and ends in that checksum of the rest, and then returns exactly prefix plus payload; any other text gives 0. Payloads and prefixes of any size on either side of the internal scratch boundary work alike.",
 ["inputs"], "all contents of payloads 0..150 bytes (sampled) with prefixes 0..8 and 65..300, on both sides of the scratch boundary, hash abstracted as an arbitrary function, base58 text abstracted as its number",
 "Tests check a few addresses and one large buffer; rejecting every wrong checksum is universal.",
 ["src/btc/base58_check.c", "include/fingera_libc/btc/base58_check.h"], [("checksum append and compare", "src/btc/base58_check.c")])
prop("C21", "Every address encodes and decodes to the same type and payload",
 "For each built-in network, encoding a key hash, script hash, version-0 key hash or script hash, or a version 1..16 witness program of 2..40 bytes yields an address that decodes on that network to the same type and payload, with the prefixes and human-readable parts of the Bitcoin networks. If the output buffer is smaller than announced or needed, or the payload size or version is not allowed, encoding returns 0 and writes nothing out of bounds.",
 ["inputs", "configurations"], "all payload contents; three networks; all five kinds; witness versions and program sizes as bytes; output sizes around the limit; hash and base58 text abstracted",
 "Tests use about a dozen addresses, mostly mainnet.",
 ["src/btc/address.c", "src/btc/chain_parameters.c", "src/btc/bech32.c", "src/base32.c"], [("encoders and decoder", "src/btc/address.c"), ("network constants", "src/btc/chain_parameters.c")])
prop("C22", "Address decoding accepts nothing but well-formed network addresses",
 "Decoding arbitrary text either returns the bad-address code or a type and payload for which the text is a base58check address carrying one of the network's two prefixes, or a BIP173-valid segwit address with the network's human-readable part: version 0 with 20 or 32 bytes or version 1..16 with 2..40 bytes, zero padding of fewer than five bits. Addresses of another network's prefix or human-readable part are rejected; re-encoding an accepted segwit address yields it in lower case; no memory outside text and output buffer is touched, whatever the output size given.",
 ["inputs", "configurations"], "all 5-bit data for all data lengths allowed with correct checksum; arbitrary text of length 0..16; all base58check payloads of 0..40 bytes; out sizes symbolic; three networks",
 "Tests have a few invalid addresses; padding and program-size rules need all data.",
 ["src/btc/address.c"], [("prefix tests, version and size limits, padding rule", "src/btc/address.c")])
prop("C23", "Private-key strings round-trip and malformed ones are rejected",
 "Writing a 32-byte private key as a string (compressed or not) and reading it back on the same network returns the key and the flag. Reading accepts only base58check data made of the network's secret-key prefix, 32 bytes, and optionally one byte equal to 1; anything else, of any length, is rejected without touching memory outside the arguments.",
 ["inputs", "configurations"], "all keys, three networks; decoded data of every size 0..60 and strings to 400 characters; base58 text and hash abstracted",
 "Tests use a few keys; malformed lengths overflowed a stack buffer on the original tree.",
 ["src/btc/key.c"], [("prefix and size tests", "src/btc/key.c")])
prop("C24", "Extended keys serialise per BIP32 and round-trip",
 "Serialising an extended private or public key yields depth, parent fingerprint, big-endian child number, chain code, and the zero-prefixed key or compressed public key in the BIP32 layout, and reading it back restores every field; the string forms do the same with the network's version bytes. Reading a string with another version, another size, or a nonzero pad byte in a private key fails, for strings of any length, without touching memory outside the arguments.",
 ["inputs", "configurations"], "all field contents; three networks; decoded data sizes 0..100 and strings to 400 characters; base58 text and hash abstracted",
 "tests/btc/exkey.cpp follows the BIP32 vectors only.",
 ["src/btc/exkey.c", "include/fingera_libc/btc/exkey.h"], [("field layout", "src/btc/exkey.c")])
prop("C25", "BIP32 derivation follows the standard and commutes with public keys",
 "Deriving a child private key adds the left half of the HMAC of (zero byte and key for hardened, compressed public key for normal children) to the key modulo the group order and takes the right half as chain code; depth grows by one, child number and fingerprint are stored. For normal children, deriving publicly from the parent's public key gives the public key and chain code of the privately derived child. Derivation fails (returns 0) when the result is not a valid key or the depth would exceed 255; the master key is the HMAC-SHA-512 split of the seed under 'Bitcoin seed'.",
 ["inputs"], "all parent keys, chain codes, child numbers, depths and fingerprints; HMAC as an arbitrary function, elliptic-curve group abstracted as the additive group of the true order",
 "The BIP32 vectors sample a few paths; invalid tweaks and depth overflow have probability near zero in sampling.",
 ["src/btc/exkey.c", "src/btc/key.c", "src/btc/hash.c"], [("private and public derivation", "src/btc/key.c"), ("extended key bookkeeping", "src/btc/exkey.c")])
prop("C26", "Private-key DER round-trips and arbitrary DER input is handled safely",
 "Encoding a valid private key in the 279- or 214-byte form yields the SEC1 structure containing the key and its (un)compressed public key, and decoding it returns the key. Decoding arbitrary bytes succeeds only for the documented structure holding a valid key of at most 32 bytes (left-padded with zeros), leaves 32 zero bytes on an invalid key, and never reads outside the input; any other requested size is refused.",
 ["inputs"], "all keys; arbitrary input of 0..12, 20, 24 and 38..42 bytes fully symbolic, 214 and 279 bytes as written by the encoder",
 "Tests encode a few keys; malformed DER is not tried.",
 ["src/btc/key.c"], [("import and export", "src/btc/key.c")])
prop("C27", "Signature DER encoding round-trips and lax decoding is exact",
 "Encoding a signature gives strict DER of at most 72 bytes that decodes to the same signature. Decoding arbitrary bytes follows the lax BER rules (long lengths, padding, trailing garbage), returning 0 on structural errors and otherwise the signature with the R and S found, or the invalid all-zero signature if either does not fit below the group order; it never reads outside the input.",
 ["inputs"], "all signatures; arbitrary input bytes of length 0..10 and 12 fully symbolic and structured longer inputs (long-form lengths, oversized and zero-padded integers) with symbolic contents",
 "Tests use a few signatures; the lax parser has dozens of paths reachable only with malformed input.",
 ["src/btc/key.c"], [("lax parser", "src/btc/key.c")])
prop("C28", "Generated keys are valid; signatures are low-R and verify either S form",
 "Key generation returns only valid private keys, redrawing random bytes until one is valid. Signing yields a deterministic RFC6979 signature with R below 2^255, retrying with counter 1, 2, 3... as extra entropy until it is, and it verifies under the key's public key. Verification accepts a signature and its high-S twin alike, and rejects whatever the curve equation rejects.",
 ["inputs", "fault_sequences"], "all keys, hashes and random draws; signing modelled as an arbitrary function of key, hash, nonce function and extra entropy with up to 3 high-R results; verification as an arbitrary relation on low-S signatures",
 "High R twice in a row or an invalid random key are improbable by sampling.",
 ["src/btc/key.c"], [("low-R grinding, normalisation", "src/btc/key.c")])
prop("C29", "Public-key encoding, key ids and fingerprints are consistent",
 "A public key encodes to 33 or 65 bytes in SEC1 form and decodes back; invalid encodings and other sizes are refused. The key id is the hash160 of the requested (compressed or uncompressed) encoding, the same from the private and the public key, and fingerprints are the first four bytes of the key id.",
 ["inputs"], "all keys under the abstract group; arbitrary 33/65-byte encodings; all sizes; hashes abstracted",
 "Tests use a few keys.",
 ["src/btc/key.c"], [("encode, decode, key id", "src/btc/key.c")])
prop("C30", "OS randomness fills the whole buffer or the process dies",
 "Requesting random bytes fills every byte of the buffer, and nothing else, with consecutive bytes of the operating system's random source, however the reads are split, and releases the source again. If the source cannot be opened or a read fails or hits end of file, the process ends with a failure status instead of returning.",
 ["fault_sequences", "inputs"], "buffers of 0..16, 32, 64 bytes; every split into short reads; failure of open or of any read",
 "Real urandom practically never returns short or fails; tests only compare two draws.",
 ["src/random.c", "src/error.c"], [("read loop and fatal exit", "src/random.c")])
prop("C31", "Secrets are overwritten where the library promises it",
 "The cleanse operation overwrites exactly the given range, whatever its previous content. Internal scratch memory (heap blocks and local byte buffers) used while converting secrets to or from base58, base58check, private-key strings and extended-private-key strings, deriving child or master keys, or hashing for BIP32 no longer contains the secret data when it is released, on success and on every rejection.",
 ["inputs"], "cleanse: all contents, sizes 0..19, 33, 64; scratch and locals: all contents of the secrets at sizes on both sides of the stack limit, success, invalid-character and bad-checksum paths",
 "Freed memory is not observable by ordinary tests.",
 ["src/cleanse.c", "src/base58.c", "src/btc/base58_check.c", "src/btc/key.c", "src/btc/exkey.c"], [("overwrite before release", "src/base58.c")])
prop("C32", "Hex dumps print every byte in the documented layout",
 "A hex dump of any buffer prints, to standard output, two digits per byte in the requested case, with an extra space before every 4th, 8th and 16th byte position, a newline after every 32 bytes and a final newline, and nothing else, for buffers of any size. It never reads outside the buffer or overruns its own line buffer.",
 ["inputs"], "all contents at sizes 0..40, 64, 65 and around the internal flush boundary (380..420, 780..800), plus 1024; dumps to 65540 bytes with arbitrary bytes at several positions",
 "The test only prints a dump without checking it.",
 ["src/hex.c"], [("layout and flush logic", "src/hex.c")])
prop("C33", "Endian helpers read and write exactly the stated byte order",
 "Reading a 32- or 64-bit value as little or big endian, at any offset or alignment, returns the number whose bytes are in that order, and the writers store exactly those 4 bytes and nothing else. Writing and reading back returns the value.",
 ["inputs"], "all values; all alignments 0..7",
 "Not tested directly; errors would show only through hashes.",
 ["include/fingera_libc/endian.h"], [("byte swap helpers", "include/fingera_libc/endian.h")])
prop("C34", "Results depend only on the arguments, never on earlier calls",
 "Encoding, decoding, hashing-composition and serialisation functions are pure: the result of a call depends only on its arguments and is the same whatever other calls (with any arguments, successful or rejected) were made before. Inputs passed as read-only are never modified.",
 ["histories", "inputs"], "for every operation and all argument contents of one to three sizes, either no path of the operation changes static data (so histories of any length behave like a first call), or histories of up to two arbitrary earlier calls are executed and compared",
 "Tests run each function in a fixed order with fixed data.",
 ["src/hex.c", "src/base64.c", "src/base32.c", "src/base58.c", "src/compress_integer.c", "src/btc/bech32.c", "src/btc/address.c", "src/btc/exkey.c"], [("no static mutable state", "src/")])
prop("C35", "Length helpers announce the right size for every size",
 "For every size (far beyond 32 bits) the hex, base64, URL-safe base64, base32 and bech32 length helpers return exactly the number of characters or bytes the matching function writes for complete input (for raw base32 data and odd hex text of a size no encoder produces, at least what is written and at most the proportional size), and the base58 and base58check helpers return at least the length of the longest text or data there can be. No computation wraps around or loses precision.",
 ["inputs"], "every size up to 2^44 and every remainder modulo the group size",
 "Tests call the helpers with a few small sizes; a truncation to 32 bits or a rounding shows only beyond.",
 ["include/fingera_libc/hex.h", "include/fingera_libc/base64.h", "include/fingera_libc/base32.h", "src/base32.c", "include/fingera_libc/base58.h", "include/fingera_libc/btc/base58_check.h", "include/fingera_libc/btc/bech32.h"], [("size formulas", "include/fingera_libc/")])
prop("C36", "The key library survives any cycle of starts and shutdowns",
 "The key library can be started, shut down and started again: every operation in every cycle uses contexts that are alive and gives the results it gives after the first start, every context created is destroyed exactly once (none is left after a shutdown), and at every start the context that signs is blinded with 32 bytes freshly drawn from the operating system.",
 ["histories", "inputs"], "histories of one to three cycles of start, key generation, public key, signing, shutdown; all random bytes and keys (libsecp256k1 abstracted as in C25)",
 "Tests start the library once; reuse after a shutdown, leaks and repeated blinding are invisible to them.",
 ["src/btc/key.c", "include/fingera_libc/btc/key.h"], [("context life cycle and blinding", "src/btc/key.c")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
