"""The hash standards, written over a generic word algebra (ints or terms):
FIPS 180-4 (SHA-1, SHA-256, SHA-512), RIPEMD-160, RFC 2104 HMAC."""
from math import isqrt
def primes(n):
    out = []; k = 2
    while len(out) < n:
        if all(k % p for p in out if p * p <= k): out.append(k)
        k += 1
    return out
def icbrt(n):
    x = 1 << ((n.bit_length() + 2) // 3)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x: return x
        x = y
P = primes(80)
K256 = [icbrt(p << 96) & 0xffffffff for p in P[:64]]
K512 = [icbrt(p << 192) & (2**64 - 1) for p in P[:80]]
IV256 = [isqrt(p << 64) & 0xffffffff for p in P[:8]]
IV512 = [isqrt(p << 128) & (2**64 - 1) for p in P[:8]]
IV160 = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]

class W:
    """word algebra on top of a term store"""
    def __init__(self, bv): self.bv = bv
    def add(self, w, *xs):
        c = 0; r = None
        for x in xs:
            if type(x) is int: c = (c + x) & ((1 << w) - 1)
            else: r = x if r is None else self.bv.binop(None, "add", w, r, x)
        if r is None: return c
        return self.bv.binop(None, "add", w, r, c)
    def op(self, o, w, a, b): return self.bv.binop(None, o, w, a, b)
    def xor(self, w, *xs):
        r = xs[0]
        for x in xs[1:]: r = self.op("xor", w, r, x)
        return r
    def rotl(self, w, x, n):
        n %= w
        if n == 0: return x
        return self.op("or", w, self.op("shl", w, x, n), self.op("lshr", w, x, w - n))
    def rotr(self, w, x, n): return self.rotl(w, x, w - n)
    def shr(self, w, x, n): return self.op("lshr", w, x, n)
    def inv(self, w, x): return self.op("xor", w, x, (1 << w) - 1)
    def ch(self, w, x, y, z): return self.xor(w, self.op("and", w, x, y), self.op("and", w, self.inv(w, x), z))
    def maj(self, w, x, y, z): return self.xor(w, self.op("and", w, x, y), self.op("and", w, x, z), self.op("and", w, y, z))
    def be(self, bs): return self.bv.concat(list(reversed(bs)))
    def le(self, bs): return self.bv.concat(list(bs))
    def bytes_be(self, w, x): return [self.bv.byte(x, i, w // 8) for i in reversed(range(w // 8))]
    def bytes_le(self, w, x): return [self.bv.byte(x, i, w // 8) for i in range(w // 8)]

def sha2_block(A, w, s, blk):
    n = w // 8; K = K256 if w == 32 else K512
    S0, S1, s0, s1 = (((2, 13, 22), (6, 11, 25), (7, 18, 3), (17, 19, 10)) if w == 32 else ((28, 34, 39), (14, 18, 41), (1, 8, 7), (19, 61, 6)))
    def big(x, r): return A.xor(w, A.rotr(w, x, r[0]), A.rotr(w, x, r[1]), A.rotr(w, x, r[2]))
    def small(x, r): return A.xor(w, A.rotr(w, x, r[0]), A.rotr(w, x, r[1]), A.shr(w, x, r[2]))
    W_ = [A.be(blk[i * n:i * n + n]) for i in range(16)]
    for t in range(16, len(K)): W_.append(A.add(w, small(W_[t - 2], s1), W_[t - 7], small(W_[t - 15], s0), W_[t - 16]))
    a, b, c, d, e, f, g, h = s
    for t in range(len(K)):
        t1 = A.add(w, h, big(e, S1), A.ch(w, e, f, g), K[t], W_[t])
        t2 = A.add(w, big(a, S0), A.maj(w, a, b, c))
        h, g, f, e, d, c, b, a = g, f, e, A.add(w, d, t1), c, b, a, A.add(w, t1, t2)
    return [A.add(w, x, y) for x, y in zip(s, (a, b, c, d, e, f, g, h))]

def sha1_block(A, s, blk):
    w = 32
    W_ = [A.be(blk[i * 4:i * 4 + 4]) for i in range(16)]
    for t in range(16, 80): W_.append(A.rotl(w, A.xor(w, W_[t - 3], W_[t - 8], W_[t - 14], W_[t - 16]), 1))
    a, b, c, d, e = s
    for t in range(80):
        if t < 20: f, k = A.ch(w, b, c, d), 0x5a827999
        elif t < 40: f, k = A.xor(w, b, c, d), 0x6ed9eba1
        elif t < 60: f, k = A.maj(w, b, c, d), 0x8f1bbcdc
        else: f, k = A.xor(w, b, c, d), 0xca62c1d6
        t_ = A.add(w, A.rotl(w, a, 5), f, e, k, W_[t])
        e, d, c, b, a = d, c, A.rotl(w, b, 30), a, t_
    return [A.add(w, x, y) for x, y in zip(s, (a, b, c, d, e))]

RL = [list(range(16)), [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8], [3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12],
      [1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2], [4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13]]
RR = [[5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12], [6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2], [15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13],
      [8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14], [12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11]]
SL = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12], [11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5],
      [11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12], [9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]]
SR = [[8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6], [9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11], [9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5],
      [15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8], [8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]]
KL = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
KR = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
def rmd_f(A, j, x, y, z):
    w = 32
    if j == 0: return A.xor(w, x, y, z)
    if j == 1: return A.op("or", w, A.op("and", w, x, y), A.op("and", w, A.inv(w, x), z))
    if j == 2: return A.xor(w, A.op("or", w, x, A.inv(w, y)), z)
    if j == 3: return A.op("or", w, A.op("and", w, x, z), A.op("and", w, y, A.inv(w, z)))
    return A.xor(w, x, A.op("or", w, y, A.inv(w, z)))
def rmd_block(A, s, blk):
    w = 32
    X = [A.le(blk[i * 4:i * 4 + 4]) for i in range(16)]
    def line(idx, sh, ks, fs):
        a, b, c, d, e = s
        for j in range(80):
            r = j // 16
            t = A.add(w, A.rotl(w, A.add(w, a, rmd_f(A, fs(r), b, c, d), X[idx[r][j % 16]], ks[r]), sh[r][j % 16]), e)
            a, e, d, c, b = e, d, A.rotl(w, c, 10), b, t
        return a, b, c, d, e
    a, b, c, d, e = line(RL, SL, KL, lambda r: r)
    a2, b2, c2, d2, e2 = line(RR, SR, KR, lambda r: 4 - r)
    return [A.add(w, s[1], c, d2), A.add(w, s[2], d, e2), A.add(w, s[3], e, a2), A.add(w, s[4], a, b2), A.add(w, s[0], b, c2)]

def pad(msg, total, B, be):
    n = len(msg); L = 8 if B == 64 else 16
    z = (-(total + 1 + L)) % B
    return list(msg) + [0x80] + [0] * z + list((total * 8).to_bytes(L, "big" if be else "little"))
def md(A, msg, B, iv, block, out, be=True):
    s = list(iv); m = pad(msg, len(msg), B, be)
    for i in range(0, len(m), B): s = block(s, m[i:i + B])
    return [b for x in s for b in out(x)]
def sha1(A, m): return md(A, m, 64, IV160, lambda s, b: sha1_block(A, s, b), lambda x: A.bytes_be(32, x))
def sha256(A, m): return md(A, m, 64, IV256, lambda s, b: sha2_block(A, 32, s, b), lambda x: A.bytes_be(32, x))
def sha512(A, m): return md(A, m, 128, IV512, lambda s, b: sha2_block(A, 64, s, b), lambda x: A.bytes_be(64, x))
def rmd160(A, m): return md(A, m, 64, IV160, lambda s, b: rmd_block(A, s, b), lambda x: A.bytes_le(32, x), False)
def hmac(A, H, B, key, msg):
    k = list(key) if len(key) <= B else H(A, key)
    k = k + [0] * (B - len(k))
    x = lambda c: [A.op("xor", 8, b, c) if type(b) is not int else b ^ c for b in k]
    return H(A, x(0x5c) + H(A, x(0x36) + list(msg)))
def hash256(A, m): return sha256(A, sha256(A, m))
def hash160(A, m): return rmd160(A, sha256(A, m))
def bip32(A, chain, child, header, data): return hmac(A, sha512, 128, chain, [header] + list(data) + list(child))
