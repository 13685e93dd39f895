"""The queries that decide each property: harness, bounds, stubs."""
import re
from bmc import Job
from irxjob import IrxJob
META = {}
COMMON_ASSUMPTIONS = [
    "x86-64 Linux, little endian, 8-bit signed char, the non-Windows branches of the sources, asserts enabled (the build's Debug configuration)",
    "memory allocation succeeds for sizes the code requests (allocation failure is outside the claim)",
    "the models of the C library functions used (memcpy, memset, memcmp, memchr, memmove, isspace, tolower, ...; CBMC's own, models/libc_extra.c, irx/libc_model.c) follow the C standard",
]
_REG = {}
def check(pid, outside="", assumptions=()):
    def deco(f):
        _REG[pid] = f
        META[pid] = {"outside": outside, "assumptions": list(assumptions)}
        return f
    return deco
def get(pid, tier, seed):
    return list(_REG[pid](tier, seed))
def T(tier, q, t): return t if tier == "thorough" else q


def lens(ls):
    ls = list(ls)
    return {"LENS": " ".join("X(%d)" % l for l in ls), "MAXL": max(ls)}
def chunks(ls, total):
    """split a list of lengths into groups of roughly equal total size"""
    out, cur, s = [], [], 0
    for l in sorted(ls, reverse=True):
        if cur and s + l > total: out.append(cur); cur, s = [], 0
        cur.append(l); s += l + 1
    if cur: out.append(cur)
    return out
def rng(ls):
    ls = sorted(ls); out = []; i = 0
    while i < len(ls):
        k = i
        while k + 1 < len(ls) and ls[k + 1] == ls[k] + 1: k += 1
        out.append(str(ls[i]) if k == i else "%d-%d" % (ls[i], ls[k])); i = k + 1
    return ",".join(out)

def spread(name, harness, tier, q, t, total, desc, sparse_q=(), sparse_t=(), **kw):
    """full-content queries for lengths q/t in groups, sparse ones for longer lengths"""
    d = kw.pop("defs", {}); per = kw.pop("per", None)
    if per: kw["unwind"] = 0
    def U(ls):
        if per: kw["unwind"] = max(ls) // per + 4; kw["cunwind"] = 2 * max(ls) + 16
        return kw
    for ls in chunks(T(tier, q, t), total):
        kw = U(ls)
        yield Job("%s_L%d" % (name, ls[0]), harness, {**d, **lens(ls)}, weight=sum(ls) + 1, bounds="%s: all contents, lengths %s" % (desc, rng(ls)), **kw)
    for ls in chunks(T(tier, sparse_q, sparse_t), 300):
        kw = U(ls)
        yield Job("%s_sparse_L%d" % (name, ls[0]), harness, {**d, "SPARSE": 61, **lens(ls)}, weight=sum(ls),
                  bounds="%s: first 2, last 3 and every 61st position symbolic, rest concrete, lengths %s" % (desc, rng(ls)), **kw)

def big(name, ops, tier, seed, desc):
    """large buffers, a few arbitrary bytes each (irx/bigcheck.py)"""
    ns = T(tier, [255, 256, 257, 511, 513, 1021, 1022, 1023, 1024, 1025, 4095, 4096, 4097, 4099, 32767, 32770, 65535, 65536, 65537, 65538, 65539, 65540],
           list(range(250, 540)) + list(range(1019, 1034)) + list(range(2046, 2056)) + list(range(4093, 4103)) + list(range(8190, 8198)) + list(range(16382, 16390)) + list(range(32765, 32776)) + list(range(65533, 65546)) + [99999, 131071, 131072, 131073, 131074, 262144, 262147, 1 << 20, (1 << 20) + 1])
    cs = [[op, n, sorted({0 if tier == "thorough" or n < 4000 else 256, n - 1, 256 if n > 259 else n // 2 + 1} | ({65535} if n > 65539 else set()))] for op in ops for n in ns]
    k = T(tier, 2, 6)
    for i in range(k):
        yield IrxJob("%s_%d" % (name, i), "bigcheck.py", {"seed": seed, "cases": cs[i::k]}, weight=60,
                     bounds="%s of %s bytes: arbitrary bytes at a few positions (first, last, 256, 65535), fixed ones elsewhere" % (desc, rng(ns)))

@check("C01", outside="lengths not listed in bounds")
def c01(tier, seed):
    q = list(range(0, 21)) + [33, 64]; t = list(range(0, 66)) + [127, 128, 129, 130]
    yield from spread("hex_enc", "hex.c", tier, q, t, 100, "encode + round trip", [255, 257, 300], [255, 256, 257, 300, 511, 513, 1024], defs={"OP": 1})
    yield from spread("hex_dec", "hex.c", tier, q, t, 120, "decode of arbitrary text", [255, 256, 513], [255, 256, 257, 511, 512, 513, 1025], defs={"OP": 2})
    yield from big("large", ["hexl", "hexu", "hexd"], tier, seed, "encoding (lower, upper case) and decoding")

@check("C02", outside="lengths not listed in bounds")
def c02(tier, seed):
    q = list(range(0, 21)) + [33, 48]; t = list(range(0, 67)) + [96, 97]
    for u in (0, 1):
        yield from spread(per=3, name="b64enc_%s" % ("std", "url")[u], harness="base64.c", tier=tier, q=q, t=t, total=60, desc="encode + round trip, %s alphabet" % ("standard", "URL-safe")[u],
                          sparse_q=[64, 65, 255, 256, 260], sparse_t=[128, 129, 130, 255, 256, 257, 383, 384, 385, 512, 1025], defs={"OP": 1, "URL": u})
    yield from big("large", ["b64e", "u64e"], tier, seed, "encoding, both alphabets,")

@check("C03", outside="lengths not listed in bounds")
def c03(tier, seed):
    q = list(range(0, 21)) + [33]; t = list(range(0, 49)) + [64, 65, 66]
    for u in (0, 1):
        yield from spread(per=4, name="b64dec_%s" % ("std", "url")[u], harness="base64.c", tier=tier, q=q, t=t, total=50, desc="decode of arbitrary text, %s alphabet" % ("standard", "URL-safe")[u],
                          sparse_q=[64, 65, 255, 256, 258], sparse_t=[128, 129, 130, 131, 255, 256, 257, 258, 512, 1026], defs={"OP": 2, "URL": u})
    yield from big("large", ["b64d", "u64d"], tier, seed, "decoding, both alphabets, text")

@check("C04", outside="lengths not listed in bounds")
def c04(tier, seed):
    q = list(range(0, 22)) + [32, 40, 41]; t = list(range(0, 66))
    for u in (0, 1):
        yield from spread(per=5, name="b32enc_%s" % ("text", "raw")[u], harness="base32.c", tier=tier, q=q, t=t, total=60, desc="encode + round trip, %s form" % ("text", "raw")[u],
                          sparse_q=[64, 65, 157, 158, 159, 255, 261], sparse_t=[128, 129, 130, 159, 160, 161, 255, 256, 257, 258, 512, 1026], defs={"OP": 1, "RAW": u})
    yield from big("large", ["b32e", "r32e"], tier, seed, "encoding, both forms,")

@check("C05", outside="lengths not listed in bounds")
def c05(tier, seed):
    q = list(range(0, 21)) + [24, 32, 33]; t = list(range(0, 49)) + [64, 65]
    for u in (0, 1):
        yield from spread(per=8, name="b32dec_%s" % ("text", "raw")[u], harness="base32.c", tier=tier, q=q, t=t, total=50, desc="decode of arbitrary input, %s form" % ("text", "raw")[u],
                          sparse_q=[64, 66, 255, 256, 260], sparse_t=[128, 129, 130, 131, 255, 256, 257, 258, 260, 512, 1031], defs={"OP": 2, "RAW": u})
    yield from big("large", ["b32d", "r32d"], tier, seed, "decoding, both forms, text")

@check("C09", outside="nothing: all 2^64 values, all pairs of values")
def c09(tier, seed):
    yield Job("roundtrip", "varint.c", {"OP": 1}, unwind=14, bounds="all pairs of 64-bit values, arbitrary following bytes")

@check("C10", outside="inputs longer than listed in bounds")
def c10(tier, seed):
    for ls in ([1, 2, 3, 4, 5, 6], [7, 8], [9, 0], [10], [11], [12, 13, 16], T(tier, [20], [14, 15, 20, 32, 40])):
        yield Job("decode_L%d" % ls[0], "varint.c", {"OP": 2, **lens(ls)}, unwind=14, bounds="arbitrary bytes, lengths %s" % rng(ls))

@check("C11", outside="nothing: all 2^64 values, all pairs of values")
def c11(tier, seed):
    yield Job("roundtrip", "varint.c", {"OP": 3}, unwind=14, bounds="all pairs of signed 64-bit values, arbitrary following bytes")
    yield Job("decode", "varint.c", {"OP": 4, **lens([1, 2, 5, 9, 10, 11])}, unwind=14, bounds="arbitrary bytes, lengths 1,2,5,9,10,11: consistent with the unsigned decoder and canonical")

@check("C33", outside="offsets above 7, big-endian hosts")
def c33(tier, seed):
    yield Job("endian", "endian.c", {}, unwind=14, bounds="all contents and values, offsets 0..7")

RANDREN = {k: "vf_" + k for k in "open read close exit abort fflush fprintf vfprintf strerror".split()}
@check("C30", outside="buffers longer than listed in bounds; interrupted system calls are failures like any other",
       assumptions=["open, read, close, exit and the stdio functions behave as in harness/random.c: read returns any number of bytes from 1 to the requested count, 0 or -1, in any sequence; exit does not return"])
def c30(tier, seed):
    for l in T(tier, [0, 1, 2, 5, 8], [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 24, 32]):
        yield Job("rand_L%d" % l, "random.c", {"LEN": l, "CALLS": l + 2}, unwind=l + 3, rename=RANDREN, weight=l,
                  bounds="%d bytes wanted: every sequence of read results (short reads, failure or end of file at any read), open failing or not" % l)
    for l in T(tier, [32, 64, 257], [32, 33, 64, 100, 255, 256, 257, 1000, 4096, 5000]):
        yield Job("rand_few_L%d" % l, "random.c", {"LEN": l, "CALLS": 3}, unwind=8, hunwind=l + 8, rename=RANDREN, weight=l,
                  bounds="%d bytes wanted: the first 3 reads arbitrary (any short count, failure, end of file), later ones complete or failing" % l)

@check("C32", outside="buffer lengths not listed in bounds", assumptions=["standard output is observed through fwrite, fputc, putc, putchar, fputs or puts"])
def c32(tier, seed):
    ren = {"fwrite": "vf_fwrite", "fputc": "vf_fputc", "putc": "vf_fputc", "putchar": "vf_putchar", "fputs": "vf_fputs", "puts": "vf_puts"}
    q = list(range(0, 36)) + [63, 64, 65, 96, 128, 385, 400, 420, 790, 810]
    t = list(range(0, 100)) + list(range(376, 424, 3)) + [128, 256, 512, 790, 800, 810, 1024, 1210, 2000, 4096]
    for up in (0, 2):
        for ls in chunks([l for l in T(tier, q, t) if l != (810 if up else 790)], T(tier, 450, 1200)):
            yield Job("dump_%s_L%d" % ("upper" if up else "lower", ls[0]), "dump.c", {"UP": up, **lens(ls)}, unwind=max(ls) + 4, hunwind=1100, rename=ren, weight=sum(ls),
                      bounds="all contents, lengths %s, %s case" % (rng(ls), "upper" if up else "lower"))
    yield from big("large", ["dumpl", "dumpu"], tier, seed, "dumps, both cases,")

MEM = {"malloc": "vf_malloc", "free": "vf_free", "calloc": "vf_calloc"}
HASH = {"fingera_sha2_256": "vf_sha256", "fingera_ripemd160": "vf_rmd160"}
B58 = {"fingera_to_base58": "vf_to_b58", "fingera_from_base58": "vf_from_b58"}
HASH_ASSUME = "the hash primitives are arbitrary deterministic functions in this check (their own values are C12-C17)"
B58_ASSUME = "the base58 codec is an arbitrary function within its contract in this check (its own values are C06-C08)"

@check("C20", outside="payload, prefix and text sizes not listed in bounds", assumptions=[HASH_ASSUME, B58_ASSUME])
def c20(tier, seed):
    ps = T(tier, [(0, 0), (0, 1), (1, 1), (2, 0), (5, 4), (20, 1), (20, 2), (32, 1), (33, 1), (74, 4), (119, 4), (120, 4), (121, 4), (124, 1), (128, 0), (150, 8), (2, 70), (0, 130), (130, 65), (1, 300)],
           [(p, q) for p in list(range(0, 34)) + [74, 119, 120, 121, 122, 123, 124, 125, 126, 128, 129, 150, 200, 255, 256, 300] for q in (0, 1, 4, 8)] + [(p, q) for p in (0, 2, 50, 130) for q in (9, 16, 33, 63, 64, 65, 70, 127, 128, 129, 200, 256, 300)])
    small = [x for x in ps if x[1] < 60]; ps = [small[i:i + 4] for i in range(0, len(small), 4)] + [[x] for x in ps if x[1] >= 60]
    for i, c in enumerate(ps):
        m = max(p + q for p, q in c) + 4
        yield Job("enc_%d" % i, "b58c.c", {"OP": 1, "MAXL": m, "PMAX": max(16, max(q for p, q in c)), "ORA_MSG": max(m, 32), "LENS": " ".join("X(%d,%d)" % x for x in c)}, unwind=16, cunwind=m + 16, replace={**HASH, **B58}, rename=MEM, weight=m,
                  bounds="encode: all contents, (payload, prefix) sizes %s" % c)
    for ls in chunks(T(tier, [0, 1, 3, 4, 5, 8, 16, 26, 35, 52, 112, 140], list(range(0, 52)) + [64, 90, 112, 128, 129, 140]), T(tier, 60, 100)):
        yield Job("dec_%d" % ls[0], "b58c.c", {"OP": 2, **lens(ls), "ORA_MSG": max(max(ls), 32)}, unwind=16, cunwind=max(ls) + 16, replace={**HASH, **B58}, rename=MEM, weight=max(ls) * 3,
                  bounds="decode: arbitrary base58 payloads of every size up to the text length, text lengths %s" % rng(ls))


# ------------------------------------------------------------- engine B: hashes
HASH_OUT = "message and key lengths not listed in bounds"
HASH_AS = ["LLVM IR produced by clang -O0 with mem2reg and simplifycfg represents the sources; the IR interpreter irx/irx.py is cross-checked by a native run of one case per query"]
def hjobs(name, cases, longs, seed, n=8, desc=""):
    """split cases over n processes, by total cost"""
    cost = lambda st: sum((s[1] + s[2]) // 64 * (3 if "512" in s[0] or s[0] == "bip32" else 1) + 2 for s in st)
    bins = [[] for _ in range(n)]; load = [0] * n
    for st in sorted(cases, key=lambda s: -cost(s)):
        k = load.index(min(load)); bins[k].append(st); load[k] += cost(st)
    lb = [longs[i::n] for i in range(n)]
    for i in range(n):
        if bins[i] or lb[i]:
            yield IrxJob("%s_%d" % (name, i), "hashcheck.py", {"seed": seed, "cases": bins[i], "long": lb[i]}, bounds=desc, weight=load[i])
def hplain(op, tier, seed, other):
    B = 128 if op == "sha512" else 64
    q = list(range(0, 2 * B + 12)) + [3 * B - 17, 3 * B - 9, 3 * B - 8, 3 * B, 4 * B - 1, 4 * B, 4 * B + 1, 5 * B + 3, 8 * B - 9, 8 * B - 8, 1000]
    t = list(range(0, 10 * B + 1)) + [1000, 1024, 2047, 4096, 5000]
    ls = sorted(set(T(tier, q, t)))
    cases = [[[op, 0, l, 0]] for l in ls]
    al = [(l, a) for l in T(tier, (3, B - 8, B, B + 5), (1, 3, 8, B - 9, B - 8, B, B + 5, 2 * B, 3 * B + 1)) for a in range(1, 8)]
    cases += [[[op, 0, l, a]] for l, a in al]
    hist = [(B - 1, 0), (B, 3), (2 * B, B - 9), (0, B), (B - 8, B - 9), (3, 3)]
    cases += [[[op, 0, a, 0], [op, 0, b, 1]] for a, b in hist] + [[[other, 0, 70, 0], [op, 0, 70, 0]]]
    lg = [1 << 29, (1 << 29) - 9, (1 << 29) + 61, (1 << 32) + 7, (1 << 31), (1 << 32) - 1] + T(tier, [], [(1 << 29) - 1, (1 << 32), (1 << 32) + 64, (1 << 33) + 119, (1 << 36) + 1, (1 << 61) - 1])
    lg = [x for x in lg if x < 1 << 40]
    longs = [[op, 0, l] for l in lg]
    yield from hjobs(op, cases, longs, seed, desc="%s: every message content at lengths %s bytes; alignments 1..7 at lengths %s; calls after an arbitrary earlier call (length pairs %s); first 3 and last blocks with an arbitrary chaining value in between at lengths %s"
                     % (op, rng(ls), rng(sorted({l for l, a in al})), hist, lg))

@check("C12", outside=HASH_OUT, assumptions=HASH_AS)
def c12(tier, seed): yield from hplain("sha256", tier, seed, "sha512")
@check("C13", outside=HASH_OUT, assumptions=HASH_AS)
def c13(tier, seed): yield from hplain("sha512", tier, seed, "sha256")
@check("C14", outside=HASH_OUT, assumptions=HASH_AS)
def c14(tier, seed): yield from hplain("sha1", tier, seed, "sha256")
@check("C15", outside=HASH_OUT, assumptions=HASH_AS)
def c15(tier, seed): yield from hplain("rmd160", tier, seed, "sha256")
@check("C16", outside=HASH_OUT, assumptions=HASH_AS)
def c16(tier, seed):
    for op, B in (("hmac256", 64), ("hmac512", 128)):
        ks = T(tier, [0, 1, 20, 32, 33, B - 1, B, B + 1, 2 * B, 2 * B + 1, 200], list(range(0, 2 * B + 8)) + [200, 255, 300])
        ms = T(tier, [0, 1, 37, B - 17, B - 9, B - 8, B, B + 1, 2 * B], list(range(0, B + 20, 3)) + [B - 17, B - 16, B - 9, B - 8, 2 * B - 17, 2 * B - 9, 2 * B, 300])
        cases = [[[op, k, m, 0]] for k in ks for m in T(tier, ms, ms if k in (0, 1, B - 1, B, B + 1) else [0, 1, 37, B - 8, 2 * B])]
        cases += [[[op, k, m, a]] for k, m in ((20, 37), (B + 1, B)) for a in (1, 4, 5)]
        hist = [(B + 10, 5, 20, 5), (20, 5, B + 10, 70), (0, 0, 3, 3), (B, B, 0, 0)]
        cases += [[[op, a, b, 0], [op, c, d, 1]] for a, b, c, d in hist]
        lg = [(1 << 29) - 65, (1 << 29), (1 << 32) + 7]
        yield from hjobs(op, cases, [[op, 40, l] for l in lg], seed, n=8,
                         desc="%s: every content, key lengths %s with message lengths %s; after an earlier call with (key,message) lengths %s; first 3 and last blocks of messages of %s bytes" % (op, rng(sorted(set(ks))), rng(sorted(set(ms))), hist, lg))
# ------------------------------------------------------------- engine B: base58
B58_OUT = "lengths and shapes of content not listed in bounds"
B58_AS = [HASH_AS[0], "conditions that bound digits of positional numbers are decided by an exact interval procedure whose satisfiable answers are evaluated and whose contradictions are confirmed by z3 (unconfirmed ones, on z3 timeout, are counted in the evidence)"]
SYM = {"*": "any byte", "+": "any nonzero byte", "V": "any base58 character", "v": "any base58 character but '1'", "s": "any white space"}
def show(c): return c["op"] + "[" + " ".join("%s%d" % ("%02x*" % k if type(k) is int else k, n) for k, n in c["in"]) + "]"
def bjobs(name, cases, seed, n=16, desc=""):
    """split base58 cases over n processes by estimated cost"""
    def cost(c):
        v = [(k, m) for k, m in c["in"] if type(k) is not int]; s = sum(m for k, m in v); L = sum(m for k, m in c["in"])
        x = 0.05 + (s / 14.0) ** 3 * (1.3 if any(k in "*" for k, m in v) else 1)
        if c["op"][-3:] == "dec": x += sum(4 ** m for k, m in v if k in "*V") / 600.0
        if type(c["in"][0][0]) is not int and c["in"] and L > 40: x += L * L / 500.0
        return x
    bins = [[] for _ in range(n)]; load = [0.0] * n
    for c in sorted(cases, key=lambda c: -cost(c)):
        k = load.index(min(load)); bins[k].append(c); load[k] += cost(c)
    for i, b in enumerate(bins):
        if b: yield IrxJob("%s_%d" % (name, i), "b58check.py", {"seed": seed, "cases": b}, weight=load[i],
                           bounds=desc + " (classes: " + ", ".join("%s %s" % x for x in SYM.items()) + "; hh* a fixed byte): " + " ".join(show(c) for c in sorted(b, key=str)))
def B(op, *parts, **kw): return dict(op=op, **{"in": [[k, n] for k, n in parts if n]} if any(n for k, n in parts) else {"in": [[0, 0]]}, **kw)

@check("C06", outside=B58_OUT, assumptions=B58_AS)
def c06(tier, seed):
    cs = [B("enc", ("*", n)) for n in T(tier, range(0, 17), range(0, 25))]
    cs += [B("enc", ("+", 1), ("*", n - 1)) for n in T(tier, [17, 18, 20, 21, 24, 25, 32, 33, 34, 37, 38], list(range(17, 66)) + [70, 74, 78, 82, 94, 100])]
    cs += [B("enc", (0, z), ("+", 1), ("*", n)) for z, n in T(tier, [(1, 3), (2, 20), (5, 20), (13, 8), (33, 0), (64, 4), (92, 1), (93, 4), (128, 3)], [(z, n) for z in (1, 2, 3, 5, 8, 13, 21, 33, 64, 91, 92, 93, 128, 200, 255, 256) for n in (0, 3, 20)])]
    cs += [B("enc", (255, k), ("*", 2)) for k in T(tier, list(range(17, 140, 3)) + [200, 300], list(range(17, 300)) + [510, 1000])]
    cs += [B("enc", (1, 1), (0, k), ("*", 1)) for k in T(tier, (30, 91, 126), range(30, 140, 5))]
    cs += [B("enc", ("*", 1), (165, k), ("*", 1)) for k in T(tier, (24, 37), (24, 37, 60, 92))]
    cs += [B("dec", ("V", n)) for n in T(tier, range(0, 9), range(0, 12))]
    cs += [B("dec", ("v", n)) for n in T(tier, list(range(9, 23)) + [34, 44], list(range(9, 56)) + [64, 72])]
    yield from bjobs("b58", cs, seed, desc="encoding and decoding exact")

@check("C07", outside=B58_OUT, assumptions=B58_AS)
def c07(tier, seed):
    cs = [B("dec", ("*", n)) for n in T(tier, range(0, 7), range(0, 9))]
    cs += [B("dec", ("*", a), ("V", n), ("*", b)) for a, n, b in T(tier, [(1, 6, 1), (2, 4, 2), (1, 8, 2), (0, 10, 2), (2, 8, 0)], [(1, 6, 1), (2, 4, 2), (3, 3, 3), (1, 10, 2), (2, 12, 2), (0, 14, 3)])]
    cs += [B("dec", ("v", n), ("*", b)) for n, b in T(tier, [(12, 2), (20, 2), (33, 1), (34, 1), (51, 1)], [(n, 2) for n in list(range(12, 40)) + [51, 52]])]
    cs += [B("dec", ("s", a), ("V", n), ("s", b)) for a, n, b in T(tier, [(1, 4, 1), (3, 3, 0), (0, 5, 3)], [(1, 6, 1), (3, 5, 3), (0, 8, 4), (5, 4, 0)])]
    cs += [B("dec", (32, a), (49, z), ("v", n), (x, 1), (122, 3)) for a, z, n, x in [(0, 0, 3, 0), (2, 0, 4, 32), (1, 3, 2, 0), (0, 2, 3, 48)]]
    cs += [B("dec", (122, k), ("*", 1)) for k in T(tier, list(range(9, 60, 4)) + list(range(170, 178)) + [250, 300], list(range(9, 320)))]
    cs += [B("dec", ("*", 1), (122, k), ("*", 1)) for k in T(tier, (20, 50), (20, 50, 80, 110, 172))]
    cs += [B("dec", (49, k), ("*", 2)) for k in T(tier, (1, 7, 30, 60, 100, 170, 180, 260), range(1, 300, 3))]
    cs += [B("dec", (122, a), ("*", 1), (122, b)) for a, b in T(tier, [(5, 5), (14, 14), (30, 30)], [(k, k) for k in range(4, 40)])]
    yield from bjobs("b58dec", cs, seed, desc="decoding arbitrary text is exact")

@check("C08", outside=B58_OUT + "; the checksum inside base58check decoding takes both outcomes", assumptions=B58_AS)
def c08(tier, seed):
    ks = T(tier, list(range(1, 20)) + [33, 60, 90, 91, 92, 93, 94, 95, 100, 127, 128, 129, 140, 180, 260], list(range(1, 270)) + [400, 512, 1000])
    cs = [B("enc", (255, k), ("*", 1)) for k in ks] + [B("enc", (0, k), ("*", 2)) for k in ks] + [B("enc", (0, k), (255, k + 3), ("*", 1)) for k in ks if k < 140]
    cs += [B("enc", ("*", n)) for n in range(0, 8)]
    kt = T(tier, list(range(1, 20)) + [33, 52, 111, 112, 172, 173, 174, 175, 176, 180, 240, 260], list(range(1, 270)) + [400, 512])
    cs += [B("dec", (122, k), ("*", 1)) for k in kt] + [B("dec", (49, k), ("*", 1)) for k in kt] + [B("dec", (49, k), (122, k + 2), ("V", 1)) for k in kt if k < 140]
    cs += [B("dec", ("*", n)) for n in range(0, 4)]
    for pl in (0, 1, 4):
        kc = T(tier, [0, 1, 20, 32, 33, 74, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 140], range(0, 150))
        cs += [B("cenc", (255, pl + k), pl=pl) for k in kc if pl + k] + [B("cenc", (0, pl + k), pl=pl) for k in kc if pl + k]
    cs += [B("cenc", (128, 1), ("*", 3), pl=1), B("cenc", ("*", 4), pl=1)]
    cs += [B("cdec", (122, k), ("*", 1)) for k in kt] + [B("cdec", (49, k), ("*", 1)) for k in kt] + [B("cdec", ("*", n)) for n in range(0, 6)] + [B("cdec", ("v", n)) for n in T(tier, (7, 12, 20, 34), (7, 12, 20, 34, 51, 52))]
    yield from bjobs("b58size", cs, seed, desc="output fits the announced size, scratch space is not overrun, nothing leaks")

@check("C17", outside=HASH_OUT + "; batches of more blocks than listed", assumptions=HASH_AS)
def c17(tier, seed):
    ls = T(tier, list(range(0, 75)) + [118, 119, 120, 127, 128, 129, 130, 200], list(range(0, 260)) + [511, 512, 1000])
    cases = [[[op, 0, l, 0]] for op in ("hash256", "hash160") for l in ls]
    nb = T(tier, [0, 1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 40, 65], list(range(0, 41)) + [48, 63, 64, 65, 99, 100])
    cases += [[["d64", 0, 64 * n, a]] for n in nb for a in (0, 1)] + [[["d64", 0, 64 * n, 0]] for n in T(tier, (128, 257, 300), (128, 257, 300, 513, 1025))] + [[["bip32", 32, 37, 0]]]
    cases += [[["d64", 0, 128, 0], ["d64", 0, 128, 0]], [["hash160", 0, 33, 0], ["hash160", 0, 33, 1]], [["hash256", 0, 80, 0], ["hash256", 0, 20, 0]], [["bip32", 32, 37, 0], ["bip32", 32, 37, 0]]]
    yield from hjobs("compose", cases, [["hash256", 0, (1 << 29) + 1]], seed, desc="every content: hash256, hash160 of %s bytes; batches of %s blocks; batches of %s blocks with arbitrary contents in blocks 0, 1, 127, 254..257 and the last, zero elsewhere; bip32 hash of every chain code, header, data and child number; each also after an earlier call" % (rng(ls), rng(nb), T(tier, (128, 257, 300), (128, 257, 300, 513, 1025))))

CODEC = {"fingera_to_base58_check": "vf_to_b58c", "fingera_from_base58_check": "vf_from_b58c"}
CODEC_AS = "base58check is an arbitrary text codec in this check: writing gives arbitrary text of the lengths listed, reading that text gives back the data, any other text gives arbitrary data or nothing (its own values are C06-C08 and C20)"
@check("C23", outside="text lengths not listed in bounds; whether the 32 bytes read are a valid secp256k1 key", assumptions=[CODEC_AS])
def c23(tier, seed):
    for ls in T(tier, [[51, 52, 1, 99]], [[51, 52], [1, 40, 53], [60, 99]]):
        yield Job("wif_round_%d" % ls[0], "keystr.c", {"OP": 1, **lens(ls)}, unwind=140, cunwind=160, replace=CODEC, rename=MEM, weight=50,
                  bounds="all keys, three networks, both forms; text lengths %s (capped at the announced maximum)" % rng(ls))
    for ls in T(tier, [[0, 1, 33, 34, 51], [52, 60, 120], [128], [129], [400]], [[0, 1, 2, 31, 32], [33, 34, 35], [36, 45, 50], [51, 52], [53, 60, 100], [120, 127], [128], [129], [200], [400], [1000]]):
        yield Job("wif_read_%d" % ls[0], "keystr.c", {"OP": 2, **lens(ls)}, unwind=max(ls) + 140, cunwind=max(ls) + 160, replace=CODEC, rename=MEM, weight=max(ls),
                  bounds="decoded data of every size up to the text length (at most 120 bytes), all contents, mainnet and testnet; text lengths %s" % rng(ls))

@check("C24", outside="text lengths not listed in bounds; whether the 32 or 33 key bytes read are a valid secp256k1 key", assumptions=[CODEC_AS])
def c24(tier, seed):
    yield Job("bytes", "keystr.c", {"OP": 3, **lens(T(tier, [0, 1], range(8)))}, unwind=140, bounds="all field contents, private and public, buffer misaligned by 0 or 1 (thorough: 0..7)")
    for ls in T(tier, [[111, 118]], [[111, 112], [1, 60, 118]]):
        yield Job("xkey_round_%d" % ls[0], "keystr.c", {"OP": 4, **lens(ls)}, unwind=140, cunwind=160, replace=CODEC, rename=MEM, weight=80,
                  bounds="all field contents, private and public, three networks; text lengths %s (capped at the announced maximum)" % rng(ls))
    for ls in T(tier, [[0, 1, 74, 75], [78, 111], [112, 128], [129], [400]], [[0, 1, 2, 73, 74], [75, 76, 77], [78, 79, 80], [100, 110], [111, 112], [113, 120], [127, 128], [129], [200], [400], [1000]]):
        yield Job("xkey_read_%d" % ls[0], "keystr.c", {"OP": 5, **lens(ls)}, unwind=max(ls) + 140, cunwind=max(ls) + 160, replace=CODEC, rename=MEM, weight=max(ls),
                  bounds="decoded data of every size up to the text length (at most 120 bytes), all contents, private and public, mainnet and testnet; text lengths %s" % rng(ls))

SECP_AS = ["libsecp256k1 is modelled (harness/secp.h): the group is the additive group of the true order, a public key its discrete logarithm with x(k) = x(-k); signing and verifying are arbitrary deterministic functions of the documented arguments", "a counterexample is replayed with the same model in place of libsecp256k1"]
SECP = {"fingera_os_rand_bytes": "vf_rand"}
HMAC = {**SECP, **HASH, "fingera_hmac_sha512": "vf_hmac_fix"}
def K(name, op, bounds, **kw):
    d = kw.pop("defs", {}); kw.setdefault("unwind", 70); kw.setdefault("cunwind", 300); kw.setdefault("replace", HMAC)
    return Job(name, "keys.c", {"OP": op, **d}, bounds=bounds, **kw)
@check("C25", outside="seed lengths not listed; HMAC-SHA-512 and curve arithmetic themselves (C16 and libsecp256k1)", assumptions=SECP_AS + ["HMAC-SHA-512 is an arbitrary deterministic function in this check (C16, C17)"])
def c25(tier, seed):
    yield K("normal", 1, "all valid parent keys, chain codes, normal child numbers, depths and fingerprints: private derivation", defs={"HARD": 0, "PART": 1}, weight=50)
    yield K("commute", 1, "all valid parent keys, chain codes, normal child numbers, depths and fingerprints: public derivation from the parent's public key", defs={"HARD": 0, "PART": 2}, weight=50)
    yield K("hardened", 1, "all valid parent keys, chain codes, hardened child numbers, depths and fingerprints", defs={"HARD": 1, "PART": 1}, weight=20)
    yield K("public", 3, "all 33-byte strings starting with 2 or 3 as parent, all chain codes and normal child numbers", weight=20)
    for l in T(tier, [0, 1, 16, 32, 64], list(range(0, 65)) + [100, 128, 129]):
        yield K("master_%d" % l, 2, "seeds of %d bytes" % l, defs={"INN": max(l, 1), "ORA_MSG": l + 16, **lens([l])})

@check("C26", outside="input lengths not listed; curve arithmetic itself", assumptions=SECP_AS)
def c26(tier, seed):
    yield K("round", 4, "all valid keys, both forms", weight=20)
    yield K("sizes", 6, "sizes 0, 1, 32, 33, 213, 215, 278, 280 (asserts disabled)", libdefs=["NDEBUG"])
    for ls in T(tier, [list(range(0, 13)), [20, 24, 38], [39, 40], [41], [42]], [list(range(0, 13)), list(range(13, 22)), list(range(22, 30)), [30, 31, 32], [33, 34, 35], [36, 37, 38], [39, 40], [41], [42], [43], [44], [45, 52]]):
        yield K("read_%d" % ls[0], 5, "arbitrary input, lengths %s" % rng(ls), defs={"INN": max(ls), **lens(ls)}, weight=max(ls), cunwind=max(ls) + 60)

def lax_shapes(tier):
    """(sequence header, length of R, length of S, |R|, |S|, trailing bytes)"""
    st = [(a, b) for a in (1, 31, 32, 33) for b in (1, 32, 33)] if tier == "thorough" else [(32, 32), (33, 33), (33, 32), (32, 1), (1, 31)]
    for a, b in st: yield [0x30, a + b + 4], [a], [b], a, b, 0
    yield [0x30, 0x81, 70], [0x81, 33], [0x82, 0, 32], 33, 32, 0
    yield [0x30, 0x84, -1, -1, -1, -1], [0x84, 0, 0, 0, 33], [0x85, 0, 0, 0, 0, 32], 33, 32, 1
    yield [0x30, 0x81, 0], [35], [36], 35, 36, 2
    yield [0x30, 0x80], [0x83, 0, 0, 4], [0x83, 0, 0, 34], 4, 34, 0
    if tier == "thorough":
        for a, b in ((40, 33), (33, 60), (0, 0), (0, 32), (32, 0), (64, 64)): yield [0x30, 0], [a], [b], a, b, 1
        yield [0x30, 0x81, -1], [0x81, 127], [0x81, 128], 127, 128, 3
@check("C27", outside="input lengths and shapes not listed; curve arithmetic itself", assumptions=SECP_AS + ["strict DER writing is libsecp256k1's"])
def c27(tier, seed):
    yield K("encode", 7, "all signatures, DER forms of 8 to 72 bytes", defs={"INN": 72}, weight=20)
    for ls in T(tier, [list(range(0, 9)), [9, 10], [12]], [list(range(0, 9)), [9, 10], [11, 12], [13], [14]]):
        yield K("lax_%d" % ls[0], 8, "arbitrary input, lengths %s" % rng(ls), defs={"INN": max(ls), **lens(ls)}, weight=max(ls) * 3, cunwind=max(ls) + 60)
    for i, (h, rh, sh, rl, sl, x) in enumerate(lax_shapes(tier)):
        sh_ = h + [2] + rh + [-1] * rl + [2] + sh + [-1] * sl + [-1] * x
        yield K("shape_%d" % i, 8, "structure %s: contents arbitrary" % " ".join("*" if b == -1 else "%02x" % b for b in sh_), defs={"INN": len(sh_), "SHAPE": ",".join(map(str, sh_)), **lens([len(sh_)])}, weight=len(sh_), cunwind=len(sh_) + 60)

@check("C28", outside="more than 3 invalid draws or 3 high-R signatures in a row; curve arithmetic itself", assumptions=SECP_AS)
def c28(tier, seed):
    yield K("new", 9, "all random draws, up to 3 invalid ones first", unwind=8)
    yield K("sign", 10, "all keys and hashes, all signatures, up to 3 with high R first", unwind=8)
    yield K("verify", 11, "all signatures with R and S below the group order, all keys and hashes, any verification relation on low-S signatures")

@check("C29", outside="curve arithmetic and hashes themselves", assumptions=SECP_AS + [HASH_ASSUME])
def c29(tier, seed):
    for c in (0, 1): yield K("ids_%d" % c, 12, "all valid keys, %s encoding" % ("uncompressed", "compressed")[c], defs={"ORA_N": 10, "COMP": c}, weight=50)
    yield K("parse33", 13, "arbitrary 33 bytes", defs={"INN": 33, **lens([33])})
    yield K("parse65", 13, "arbitrary 65 bytes", defs={"INN": 65, **lens([65])})
    yield K("sizes", 13, "sizes 0..70 (asserts disabled)", defs={"INN": 70, "NODBG": 1, **lens([l for l in range(0, 71) if l not in (33, 65)])}, libdefs=["NDEBUG"])

ADDR = {**CODEC, "fingera_bech32_encode": "vf_b32_enc", "fingera_bech32_decode": "vf_b32_dec"}
ADDR_AS = [CODEC_AS, "bech32 is an arbitrary text codec in this check in the same sense (its own values are C18 and C19)", "text written as a segwit address is not at the same time valid base58check"]
def XX(cs): return {"LENS": " ".join("X(%s)" % ",".join(map(str, c)) for c in cs)}
@check("C21", outside="base58 payload sizes other than listed; text lengths not listed", assumptions=ADDR_AS)
def c21(tier, seed):
    A = dict(unwind=140, cunwind=160, replace=ADDR, rename=MEM)
    for cs in T(tier, [[(20, 34), (20, 26)], [(32, 50)]], [[(20, 34), (20, 26)], [(20, 27), (20, 35), (20, 1)], [(32, 50), (32, 51)], [(0, 6), (1, 8), (21, 36)], [(64, 94)]]):
        yield Job("base58_%d" % cs[0][0], "address.c", {"OP": 1, **XX(cs)}, bounds="all payloads, three networks, both prefixes, (payload size, text length) %s, output one short, exact and one larger than announced" % cs, weight=40, **A)
    for n in (20, 32):
        yield Job("v0_%d" % n, "address.c", {"OP": 2, **XX([(n, 0)])}, bounds="all %d-byte programs of version 0, three networks, output sizes 0, one short, exact, larger" % n, weight=30, **A)
    for cs in T(tier, [[3, 4, 5, 6], [21, 22], [33], [40], [41]], [[k] if k > 12 else [k, k + 13] for k in range(3, 42)]):
        if max(cs) > 41: cs = [c for c in cs if c <= 41]
        yield Job("unknown_%d" % cs[0], "address.c", {"OP": 3, "VER": 1, **XX([(c, 0) for c in cs])}, bounds="versions 1..16, all programs, version and program sizes %s, three networks, output sizes 0, one short, exact, larger" % cs, weight=sum(cs), **A)
    yield Job("badsize", "address.c", {"OP": 3, "VER": 1, **XX([(c, 0) for c in (0, 1, 2, 42, 43, 60)])}, bounds="version and program of 0, 1, 2, 42, 43, 60 bytes", **A)
    yield Job("badver", "address.c", {"OP": 3, "VER": 0, **XX([(c, 0) for c in (3, 21, 33, 41)])}, bounds="every version byte but 1..16", **A)
    yield Job("badv0", "address.c", {"OP": 4, **XX([(n, k) for n in (0, 1, 19, 20, 21, 31, 32, 33, 40, 64) for k in (0, 1) if n != (20 if k else 32)])}, bounds="version-0 programs of wrong sizes (asserts disabled)", libdefs=["NDEBUG"], **A)

@check("C22", outside="text lengths not listed in bounds", assumptions=ADDR_AS)
def c22(tier, seed):
    def grp(L, Hs, slacks=(0,), oks=(1,)): return [(L, H, s, ok) for H in Hs for s in slacks for ok in oks]
    q = [grp(L, (0,)) for L in (0, 1, 5, 7)] + [grp(8, (0, 1), (0, -1, -8)), grp(9, (1, 2)), grp(10, (2, 3)), grp(12, (2,)), grp(13, (2, 4), (0, -1, 1), (0, 1)), grp(14, (2,)), grp(15, (2, 4)), grp(16, (2,))]
    for L in (26, 34, 35): q.append(grp(L, (0, 2, 4)))
    for n in (33, 53, 65, 66, 34, 52): q.append(grp(7 + 2 + n, (2,), (0, -1) if n == 33 else (0,)))
    q += [grp(44, (4,)), grp(64, (4,)), grp(90, (2,)), grp(90, (4, 16)), grp(90, (17,), oks=(0, 1)), grp(91, (0,)), grp(120, (0,)), grp(40, (33, 3))]
    t = list(q) + [grp(L, (H,), (0,)) for L in range(9, 91) for H in (2, 4)] + [grp(L, (0,), (0, -1, -20, 5)) for L in (20, 30, 35, 50, 90, 91, 129, 140)] + [grp(L, (H,), (0,), (0, 1)) for L in (20, 30, 41, 42, 61, 62, 90) for H in (1, 3, 5, 15, 16, 17) if H + 7 <= L]
    seen = set()
    for g in T(tier, q, t):
        for n in ((0, 3),):
            nm = "text_%d_%d_%d" % g[0][:3]
            if nm in seen: nm += "_%d" % len(seen)
            seen.add(nm)
            yield Job(nm, "address.c", {"OP": 5, "NET0": n[0], "NET1": n[1], **XX(g)}, unwind=140, cunwind=160, replace=ADDR, rename=MEM, weight=g[0][0] * len(g),
                      bounds="text of %d characters carrying arbitrary base58check data of every size or a segwit string with human-readable part of %s characters (0: none), arbitrary content and version; output size minus text length %s; three networks" % (g[0][0], sorted({x[1] for x in g}), sorted({x[2] for x in g})))

@check("C31", outside="sizes and lengths not listed; locals below 8 secret bytes; copies the compiler keeps in registers or spills", assumptions=[CODEC_AS] + B58_AS)
def c31(tier, seed):
    for ls in T(tier, [list(range(0, 10)), list(range(10, 20)), [33, 64]], [list(range(k, k + 8)) for k in range(0, 72, 8)] + [[128], [200]]):
        yield Job("cleanse_%d" % ls[0], "cleanse.c", {**lens(ls)}, unwind=max(ls) + 4, cunwind=max(ls) + 4, weight=sum(ls), bounds="blocks of %s bytes, all contents, whole block and ranges inside it" % rng(ls))
    for ls in T(tier, [[129], [400]], [[129], [130], [200], [400], [1000]]):
        for op, nm in ((2, "key"), (5, "xkey")):
            yield Job("scratch_%s_%d" % (nm, ls[0]), "keystr.c", {"OP": op, "WIPE": 1, "PRIVONLY": 1, **lens(ls)}, unwind=max(ls) + 140, cunwind=max(ls) + 160, replace=CODEC, rename=MEM, weight=max(ls),
                      bounds="heap scratch of reading %s strings of %s characters: arbitrary decoded data, accepted and rejected" % ("private-key" if op == 2 else "extended private-key", rng(ls)))
    cs = [dict(op=0, a=a) for a in (0, 1)] + [dict(op=2, a=0)] + [dict(op=5, a=n) for n in (16, 32, 64)] + [dict(op=7, a=0), dict(op=8, a=0)]
    cs += [dict(op=op, a=a, ok=ok) for op in (4, 6) for a in (0, 5, 0x7fffffff, 0x80000000, 0x80000005, 0xffffffff) for ok in (0, 1)]
    for L in T(tier, (52, 60, 200), (45, 50, 51, 52, 60, 128, 129, 170, 200)): cs += [dict(op=1, a=L, dn=dn, fix=fx) for dn in (0, 20, 32, 33, 34, 35) for fx in ({}, {"0": 128}, {"0": 128, "33": 1})]
    for L in T(tier, (111, 300), (110, 111, 112, 120, 128, 174, 175, 176, 300)): cs += [dict(op=3, a=L, dn=dn, fix=fx) for dn in (0, 40, 74, 75, 78, 79) for fx in ({}, {"0": 4, "1": 0x88, "2": 0xad, "3": 0xe4})]
    yield IrxJob("locals", "wipecheck.py", {"seed": seed, "cases": cs}, bounds="locals and heap blocks of key_to_string, key_from_string, exkey_to_string, exkey_from_string, key_derive, exkey_derive, exkey_init, bip32_hash, key_init: all secrets, accepted and rejected (decoded sizes 0, 20, 32-35 / 0, 40, 74, 75, 78, 79)", weight=30)
    W = dict(wipe=True)
    cs = [B("enc", ("*", n), **W) for n in T(tier, (1, 5, 8), (1, 5, 8, 12))] + [B("enc", (0, 2), ("*", 4), **W), B("enc", ("+", 1), ("*", 31), **W)]
    cs += [B("enc", ("*", 1), (165, k), ("*", 1), **W) for k in T(tier, (), (60, 90))] + [B("enc", (255, k), ("*", 2), **W) for k in T(tier, (30, 91, 92, 130), (89, 90, 91, 92, 93, 130, 256))]
    cs += [B("dec", ("V", n), **W) for n in (1, 5)] + [B("dec", ("*", n), **W) for n in (1, 3)] + [B("dec", ("v", n), **W) for n in (12, 34)]
    cs += [B("dec", ("v", 1), (122, k), ("*", 1), **W) for k in T(tier, (20, 171), (20, 60, 100, 168, 170, 171, 172, 173, 176))] + [B("dec", (122, k), ("*", 2), **W) for k in (20, 168, 169, 170, 171, 172, 200)]
    cs += [B("dec", ("v", k), (122, 3), (x, 1), (122, 3), **W) for k in (5, 171) for x in (48, 32)][:T(tier, 2, 4)] + [B("dec", (122, 171), ("v", 2), (x, 1), (122, 3), **W) for x in (48, 32)]
    cs += [B("cenc", (128, 1), ("*", 32), pl=1, **W), B("cenc", (4, 4), ("+", 3), (9, k := 100), ("*", 2), pl=4, **W), B("cenc", (4, 4), ("+", 3), (9, 130), ("*", 2), pl=4, **W)]
    cs += [B("cdec", ("v", 8), **W), B("cdec", (122, 172), ("v", 1), ("*", 1), **W)]
    yield from bjobs("wipe", cs, seed, desc="scratch memory of 64 bytes or more, heap and stack, holds no converted data when released")

def b32(name, cases, seed, n, desc, **kw):
    """split bech32 cases over n processes by estimated cost"""
    def cost(c):
        if c[0] == "enc": return 0.3 + (c[1] + c[2]) / 100.0
        L, shape = c[1], c[3] or "*" * c[1]
        w = shape.count("*"); x = 0.3 + L / 20.0 + L * L / 1000.0
        return x + (0 if L > 90 else (1.6 ** min(w, 16)) / 40.0 * (2 if not c[3] else 1) + shape.count("d") * 0.3)
    bins = [[] for _ in range(n)]; load = [0.0] * n
    for c in sorted(cases, key=lambda c: -cost(c)):
        k = load.index(min(load)); bins[k].append(c); load[k] += cost(c)
    for i, b in enumerate(bins):
        if b: yield IrxJob("%s_%d" % (name, i), "b32check.py", {"seed": seed, "cases": b, **(kw if i == len(bins) - 1 else {})}, weight=load[i],
                           bounds=desc + ": " + " ".join("enc[%d,%d]" % (c[1], c[2]) if c[0] == "enc" else "dec[%d,cap %d%s]" % (c[1], c[2], "," + re.sub(r"(.)\1{3,}", lambda m: "%s{%d}" % (m.group(1), len(m.group(0))), c[3]) if c[3] else "") for c in sorted(b, key=str)))
B32_AS = ["a counterexample path condition is solved by z3; states that rejoin are merged into conditional terms, equal by construction"]
@check("C18", outside="lengths and shapes not listed in bounds", assumptions=B32_AS)
def c18(tier, seed):
    hn = T(tier, [(1, 0), (1, 1), (2, 0), (2, 1), (2, 32), (2, 33), (2, 53), (3, 7), (4, 33), (5, 10), (10, 60), (15, 20), (16, 5), (17, 3), (32, 32), (40, 13), (83, 0), (83, 8), (2, 120), (60, 200)],
           [(h, n) for h in (1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 83, 120) for n in list(range(0, 70, 3 if h > 5 else 1)) + [100, 120, 255, 300]])
    cs = [["enc", h, n] for h, n in hn]
    sh = T(tier, [(1, 0), (1, 3), (2, 33), (3, 10), (4, 33), (10, 40), (30, 20)], [(h, n) for h in (1, 2, 3, 4, 10, 30, 60, 80, 83) for n in range(0, 84 - h, 3)])
    for h, n in sh:
        for k in "lu":
            L = h + 1 + n + 6; cs.append(["dec", L, 128, ("a" if k == "l" else "A") * (h - 1) + k + "1" + k * (n + 6)])
    for h, n in T(tier, [(1, 3), (2, 4), (3, 3), (3, 20)], [(h, n) for h in (1, 2, 3, 4) for n in (0, 1, 3, 10, 33)]): cs.append(["dec", h + n + 7, 128, "*" * h + "1" + "l" * (n + 6)])
    yield from b32("code", cs, seed, T(tier, 8, 14), "encoding with every human-readable part and data value (enc[part length, data length]), decoding of single-case text (dec[text length], * any byte, l/u: any lower/upper-case character, rest literal)", distance=1)

@check("C19", outside="text lengths and shapes not listed in bounds", assumptions=B32_AS)
def c19(tier, seed):
    cs = [["dec", L, 128, ""] for L in T(tier, [0, 1, 6, 7, 8, 9, 10, 11, 12], list(range(0, 17)))]
    cs += [["dec", 9, k, ""] for k in T(tier, (1, 2), range(1, 9))] + [["dec", 91, 128, ""], ["dec", 92, 128, ""], ["dec", 120, 128, ""], ["dec", 91, 128, "bc1" + "l" * 88], ["dec", 91, 128, "*" + "1" + "d" * 89]]
    cs += [["dec", 42, 128, "bc1" + "d" * 39], ["dec", 62, 128, "**1" + "l" * 59], ["dec", 62, 128, "*B1" + "u" * 59], ["dec", 90, 128, "l" * 40 + "1" + "l" * 49], ["dec", 90, 128, "l" * 83 + "1dddddd"], ["dec", 90, 128, "l" * 82 + "11" + "dddddd"],
           ["dec", 90, 84, "l" * 83 + "1llllll"], ["dec", 90, 83, "l" * 83 + "1llllll"], ["dec", 24, 1, ""], ["dec", 90, 1, "**" + "l" * 88], ["dec", 90, 128, "l" * 84 + "1lllll"], ["dec", 90, 128, "l" * 89 + "1"], ["dec", 90, 128, "1" * 82 + "11" + "llllll"], ["dec", 90, 128, "l" * 90], ["dec", 90, 128, "1" + "l" * 89],
           ["dec", 14, 128, "*1*1*" + "l" * 9], ["dec", 20, 128, "*" + "1" + "l" * 10 + "d" * 2 + "l" * 6], ["dec", 30, 128, "a1" + "d" * 28], ["dec", 40, 128, "tb1" + "l" * 30 + "*" + "l" * 6], ["dec", 40, 128, "tb1" + "l" * 36 + "*"], ["dec", 40, 2, "tb1" + "l" * 37], ["dec", 40, 3, "tb1" + "l" * 37], ["dec", 40, 4, "tb1" + "l" * 37]]
    cs += [["dec", 13, 128, "*****" + "1" + "*" + "l" * 6]]
    if tier == "thorough":
        cs += [["dec", 20, 8, "****1" + "*" * 15]] + [["dec", L, 128, "**1" + "d" * (L - 3)] for L in range(9, 91, 3)] + [["dec", L, 128, "l" * (L - 7 - k) + "1" + "d" * (6 + k)] for L in (40, 90) for k in (0, 1, 5, 20)]
        cs += [["dec", L, 128, "bc1" + "l" * a + "*" + "l" * (L - 4 - a)] for L in (20, 42, 62) for a in range(0, L - 3, 2)]
    yield from b32("read", cs, seed, T(tier, 12, 16), "decoding of text (* any byte, d any charset character in either case, l/u lower/upper-case charset character, rest literal; output capacity for the human-readable part as given)")

PURE_OPS = {1: "hex (upper)", 101: "hex (lower)", 2: "hex decode", 3: "base64", 4: "base64url", 5: "base64 decode", 6: "base64url decode", 7: "base32", 8: "raw base32", 9: "base32 decode", 10: "raw base32 decode", 13: "varint", 14: "varint decode", 15: "zigzag", 16: "zigzag decode", 17: "bech32 encode",
            21: "pubkey address", 22: "script address", 23: "witness key address", 35: "witness script address", 24: "other witness address", 25: "address decode", 26: "hash160", 27: "hash256", 28: "bip32 hash", 29: "key string", 30: "key string decode", 31: "extended key string", 37: "extended public key string", 32: "extended key decode", 33: "extended public key decode",
            34: "master key", 38: "child key", 39: "child public key", 40: "public key", 41: "public key encode", 42: "public key decode", 43: "key DER", 44: "key DER decode", 45: "sign", 46: "signature DER", 47: "signature DER decode", 48: "verify", 49: "key id", 50: "key fingerprint", 51: "public key fingerprint"}
@check("C34", outside="lengths not listed; histories of more than two earlier calls (only reached when an operation changes static data at all); stream output and key generation; concurrent calls",
       assumptions=["hash functions, HMAC, libsecp256k1 and, above the codecs, base58check and bech32 are fixed simple functions in this check (their own freedom from state is checked in the codec cases and in C12-C17)"])
def c34(tier, seed):
    a = [(1, 6), (101, 6), (2, 6), (3, 6), (4, 7), (5, 6), (6, 6), (7, 6), (8, 6), (9, 9), (10, 9), (13, 8), (14, 10), (15, 8), (16, 10), (17, 6)]
    b = [(21, 21), (22, 21), (23, 21), (35, 33), (24, 22), (25, 30), (25, 43), (26, 33), (27, 33), (28, 40), (29, 34), (30, 52), (30, 50), (31, 34), (37, 34), (32, 112), (33, 112), (34, 32), (38, 67), (39, 67), (40, 32), (41, 64), (42, 33), (43, 33), (44, 40), (45, 64), (46, 64), (47, 9), (48, 160), (49, 33), (50, 33), (51, 33)]
    if tier == "thorough":
        a += [(f, n) for f, _ in a[:11] for n in (0, 1, 2, 3, 4, 5, 7, 8, 10, 13, 16)] + [(14, n) for n in (1, 3, 5)] + [(16, n) for n in (1, 3, 5)] + [(17, n) for n in (2, 3, 4, 12, 30)]
        b += [(25, n) for n in (15, 27, 36, 45, 63)] + [(26, n) for n in (0, 1, 65)] + [(27, n) for n in (0, 80)] + [(24, n) for n in (4, 10, 42)] + [(30, n) for n in (2, 35, 49, 51, 53)] + [(34, n) for n in (16, 64)] + [(44, n) for n in (20, 30, 42)] + [(42, n) for n in (32, 34)] + [(47, 8)]
    def split(nm, ops, k, **kw):
        for i in range(k):
            g = ops[i::k]
            yield IrxJob("%s_%d" % (nm, i), "purecheck.py", {"seed": seed, "cases": [dict(op=f, n=n, **kw) for f, n in g]}, weight=10,
                         bounds="every path leaves static data and input unchanged; otherwise histories are compared; all contents (size in bytes): " + ", ".join("%s %d" % (PURE_OPS[f], n) for f, n in g))
    yield from split("codec", a, 3)
    yield from split("btc", b, 5, text=1)
    P = dict(pure=1)
    cs = [B("enc", ("*", 6), **P), B("enc", (0, 2), ("+", 1), ("*", 3), **P), B("enc", ("+", 1), ("*", 20), **P), B("enc", (0, 100), ("*", 1), **P), B("enc", (255, 130), ("*", 1), **P)]
    cs += [B("dec", ("V", 6), **P), B("dec", ("*", 4), **P), B("dec", ("v", 34), **P), B("dec", (122, 180), ("*", 1), **P), B("dec", ("s", 1), ("V", 2), ("s", 1), **P)]
    cs += [B("cenc", ("*", 5), pl=1, **P), B("cenc", (128, 1), ("+", 1), ("*", 20), pl=1, **P), B("cdec", ("v", 8), **P), B("cdec", ("*", 3), **P), B("cdec", ("v", 34), **P), B("cdec", (122, 180), ("*", 1), **P)]
    yield from bjobs("base58", cs, seed, n=2, desc="every path leaves static data unchanged; otherwise later calls are compared with the standard")
    yield from b32("bech32", [["dec", 8, 128, ""], ["dec", 10, 128, ""], ["dec", 30, 128, "**1" + "l" * 27], ["enc", 2, 33]], seed, 1, "no static data is changed")

@check("C35", outside="sizes above 2^40; the text form of the base32 decode helper, which reads the text (C05)")
def c35(tier, seed):
    for op, nm in enumerate("hex base64_enc base64_dec base32_enc base32_dec base58 base58check bech32".split(), 1):
        yield Job(nm, "lengths.c", {"OP": op, "BITS": 44}, unwind=4, bounds="%s: every size to at least 2^44" % nm)

@check("C36", outside="more cycles than listed; use of the library before the first start or after shutdown", assumptions=SECP_AS)
def c36(tier, seed):
    for c in T(tier, (1, 2), (1, 2, 3)):
        yield K("cycles_%d" % c, 14, "%d shutdowns and restarts: all random seeds and keys; key generation, public keys and signing in every cycle" % c, defs={"CYCLES": c, "INN": 32 * (c + 1)}, weight=20)
