#!/usr/bin/env python3
"""Development tool: validates planted bugs in scratch copies and runs the checks on them.
usage: try_seed.py [--make] [--check] [--prop Cxx] [id-substring...]
  --make   write /verif/seeded/<id>/ for every seed that validates
  --check  run the property's quick check against the patched copy (VF_REPO)"""
import os, re, subprocess, sys, json, shutil, hashlib, hmac, difflib, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import seeds
ORIG = "2c5f044"
SCR = os.environ.get("SCR", "/tmp/seedwork")
PRE = r'''#include <ctype.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <fingera_libc/hex.h>
#include <fingera_libc/base32.h>
#include <fingera_libc/base58.h>
#include <fingera_libc/base64.h>
#include <fingera_libc/cleanse.h>
#include <fingera_libc/compress_integer.h>
#include <fingera_libc/endian.h>
#include <fingera_libc/random.h>
#include <fingera_libc/hash/ripemd160.h>
#include <fingera_libc/hash/sha1.h>
#include <fingera_libc/hash/sha2.h>
#include <fingera_libc/btc/address.h>
#include <fingera_libc/btc/base58_check.h>
#include <fingera_libc/btc/bech32.h>
#include <fingera_libc/btc/exkey.h>
#include <fingera_libc/btc/hash.h>
#include <fingera_libc/btc/key.h>
%(inc)s
static int bad;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "FAILED: %%s\n", #c); bad = 1; } } while (0)
/* n bytes that end where readable memory ends */
static void *guard(size_t n) {
  size_t page = 4096, size = (n + page - 1) / page * page + page;
  char *p = mmap(NULL, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + size - page, page, PROT_NONE);
  return p + size - page - n;
}
%(pre)s
int main(void) {
  (void)guard;
%(body)s
  return bad;
}
'''
SH = r'''#!/bin/bash
# exit 0: the library behaves; nonzero: it does not. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
srcs="$(ls src/*.c src/hash/*.c src/btc/*.c%(skip)s)"
gcc -w -g -O0 %(cflags)s -Iinclude -o "$tmp/demo" "$here/demo.c" $srcs %(ldflags)s -lsecp256k1 || exit 99
cd "$tmp"
ASAN_OPTIONS=detect_leaks=0 timeout 120 ./demo > /dev/null
rc=$?
%(expect)sexit $rc
'''

def val(m):
    k, a = m.group(1), m.group(2)
    def by(x):
        return b"".join((p.split("*")[0].encode() * int(p.split("*")[1]) if "*" in p else p.encode()) for p in [x])
    if k.startswith("hmac"):
        key, msg = a.split(":")
        d = hmac.new(by(key), by(msg), {"hmac256": "sha256", "hmac512": "sha512"}[k]).digest()
    elif k == "ripemd160z":
        d = bytes.fromhex(rmd(bytes(int(a))))
    elif k == "ripemd160":
        d = bytes.fromhex(rmd(by(a)))
    else:
        d = hashlib.new(k, by(a)).digest()
    return ", ".join("0x%02x" % b for b in d)

def rmd(b):
    import ctypes
    o = subprocess.run(["openssl", "dgst", "-ripemd160", "-provider", "legacy", "-provider", "default"], input=b, capture_output=True)
    if o.returncode == 0:
        return o.stdout.decode().split("= ")[1].strip()
    try:
        return hashlib.new("ripemd160", b).hexdigest()
    except ValueError:
        pass
    # the reference library of this sandbox: libgcrypt through its Python-free CLI is absent; fall back to gpg
    o = subprocess.run(["gpg", "--print-md", "RIPEMD160"], input=b, capture_output=True)
    return re.sub(r"[^0-9A-F]", "", o.stdout.decode()).lower()

def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, errors="replace", **k)

def copy(dst):
    shutil.rmtree(dst, ignore_errors=True); os.makedirs(dst)
    sh(f"git -C /repo archive HEAD | tar x -C {dst}")

def files(s):
    inc = s.get("inc", "")
    body = "  " + re.sub(r"@(\w+):([^@]*)@", val, s["demo"])
    c = PRE % dict(inc=inc, pre=s.get("pre", ""), body=body)
    skip = f" | grep -v {s['skip']}" if s.get("skip") else ""
    exp = f"[ $rc -eq {s['expect']} ] && exit 0\n[ $rc -eq 0 ] && exit 1\n" if "expect" in s else ""
    d = SH % dict(skip=skip, cflags=s.get("cflags", ""), ldflags=s.get("ldflags", ""), expect=exp)
    return c, d

def patch(s):
    p = s["file"]
    src = open(f"/repo/{p}").read()
    new = src
    for old, rep, *occ in s["edits"]:
        n = new.count(old)
        if n != 1:
            raise ValueError(f"{n} matches of {old[:50]!r}")
        new = new.replace(old, rep)
    a, b = src.splitlines(True), new.splitlines(True)
    orig = sh(f"git -C /repo show {ORIG}:{p}").stdout.splitlines()
    for x in difflib.ndiff(a, b):
        if x.startswith("- ") and x[2:].rstrip("\n") not in orig:
            raise ValueError("changes a line that a fix added: " + x.strip())
    return new

def build_test(repo):
    cm = os.path.join(os.path.dirname(repo), "cmake")
    shutil.rmtree(cm, ignore_errors=True); shutil.copytree("/opt/vp/cmake", cm)
    f = cm + "/CMakeLists.txt"; t = open(f).read().replace("REPO_DIR /repo", "REPO_DIR " + repo); open(f, "w").write(t)
    r = sh(f"cmake -S {cm} -B {repo}/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTING=ON -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DFETCHCONTENT_FULLY_DISCONNECTED=ON && ninja -C {repo}/_build -j8 test_fingera")
    if r.returncode: return "build failed " + r.stdout[-800:]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for t in stable:
        q = sh([f"{repo}/_build/repo/tests/test_fingera", "--gtest_filter=" + t.replace("::", ".")], cwd=f"{repo}/_build/repo/tests")
        if q.returncode: return "test fails: " + t
    return None

def main():
    args = sys.argv[1:]
    make = "--make" in args; check = "--check" in args; tier = "quick"
    pats = [a for a in args if not a.startswith("--")]
    clean = SCR + "/clean"; copy(clean)
    for s in seeds.S:
        if pats and not any(p in s["id"] for p in pats): continue
        w = f"{SCR}/{s['id']}"
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        try:
            new = patch(s)
        except ValueError as e:
            print(f"{s['id']}: BAD PATCH {e}", flush=True); shutil.rmtree(w); continue
        repo = w + "/repo"; copy(repo)
        sh(f"cd {repo} && git init -q . && git add -A && git -c user.name=a -c user.email=a@a commit -qm x")
        open(f"{repo}/{s['file']}", "w").write(new)
        diff = sh(f"git -C {repo} diff").stdout
        dd = w + "/demo"; os.makedirs(dd)
        c, d = files(s); open(dd + "/demo.c", "w").write(c); open(dd + "/demo.sh", "w").write(d); os.chmod(dd + "/demo.sh", 0o755)
        e = build_test(repo)
        r0 = sh([dd + "/demo.sh"], cwd=clean); r1 = sh([dd + "/demo.sh"], cwd=repo)
        ok = e is None and r0.returncode == 0 and r1.returncode not in (0, 99)
        msg = f"{s['id']}: " + ("valid" if ok else f"INVALID test={e} demo clean={r0.returncode} patched={r1.returncode} {(r0.stderr or r1.stderr)[-300:]}")
        res = ""
        if ok and make:
            t = f"{VERIF}/seeded/{s['id']}"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
            open(t + "/patch.diff", "w").write(diff)
            shutil.copy(dd + "/demo.c", t); shutil.copy(dd + "/demo.sh", t)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(t + "/meta.json", "w"), indent=1)
        if ok and check:
            shutil.rmtree(repo + "/_build", ignore_errors=True)
            t0 = time.time()
            q = sh(["python3", "check.py", s["prop"]], cwd=VERIF, env=dict(os.environ, VF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
            res = f" -> {'CAUGHT' if q.returncode == 1 and v else 'MISSED rc=%d' % q.returncode} {time.time()-t0:.0f}s " + (v[0][:120] if v else q.stdout[-300:])
        print(msg + res, flush=True)
        shutil.rmtree(w)
    shutil.rmtree(clean)

main()
