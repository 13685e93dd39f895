"""Symbolic executor for LLVM IR (clang -O0 + mem2reg + simplifycfg), path by path.
Values: int (concrete, modulo 2^width), Ptr, or a symbol of the pluggable domain.
Memory is a set of exactly sized objects; every access is bounds checked."""
import os, re, subprocess, sys, tempfile

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
LLVM = "/usr/lib/llvm-18/bin/"
CLANG = LLVM + "clang"
CFLAGS = ["-std=gnu99", "-I" + os.path.join(REPO, "include"), "-D__NO_CTYPE", "-w"]

class Unsupported(Exception): pass
class OutOfTime(BaseException): pass
def budget(req):
    """the rest of the cases is reported as not explored when the time is used up"""
    import signal
    def ring(*_): raise OutOfTime()
    signal.signal(signal.SIGALRM, ring); signal.alarm(max(10, int(req.get("budget", 10 ** 6))))
def drive(res, cases, new, one):
    """one(checker, case): None decided, "stop" violation found, other text: not decided"""
    ck = None; un = res.setdefault("unexplored", []); bad = 0; cases = list(cases); i = 0
    try:
        for i, c in enumerate(cases):
            try:
                if ck is None: ck = new()
                r = one(ck, c)
            except Unsupported as e: r = "%s: %s" % (type(e).__name__, e); ck = None
            except RecursionError as e: r = "recursion"; ck = None
            if r is None: res["done"] += 1
            elif r == "stop": return ck or new()
            else:
                un.append([c, r]); bad += 1
                if bad >= 6 and bad > i // 2: un.extend([x, "not attempted"] for x in cases[i + 1:]); break
    except OutOfTime: un.extend([x, "out of time"] for x in cases[i:]); res["late"] = True; ck = ck or new()
    finally:
        import signal; signal.alarm(0)
    if not res["done"] and un: res["status"] = "undecided"; res["note"] += " " + str(un[0][1])[:600]
    return ck or new()
class Bug(Exception):
    """this path does something no correct execution does"""

class Split(Exception):
    """the current instruction has to be executed separately under each alternative [(condition, truth)]"""
    def __init__(self, alts): self.alts = alts

def compile_ir(sources, work, passes="mem2reg,simplifycfg"):
    """one linked textual IR module for the given C files (and the models)"""
    lls = []
    for i, s in enumerate(sources):
        o = os.path.join(work, "m%d.ll" % i)
        subprocess.run([CLANG, *CFLAGS, "-fno-builtin", "-O0", "-Xclang", "-disable-O0-optnone", "-S", "-emit-llvm", s, "-o", o], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        lls.append(o)
    l = os.path.join(work, "all.ll")
    subprocess.run([LLVM + "llvm-link", "-S", *lls, "-o", l], check=True, stderr=subprocess.PIPE)
    r = subprocess.run([LLVM + "opt", "-passes=" + passes, "-S", l, "-o", "-"], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.stdout

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "e", "size", "align", "offs")
    def __init__(self, k, n=0, e=None): self.k, self.n, self.e = k, n, e; self.size = self.align = 0; self.offs = None
    def __repr__(self): return "%s%s" % (self.k, self.n)
PTR = Ty("ptr"); PTR.size = PTR.align = 8
VOID = Ty("void")
_ints = {}
def int_ty(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty("i", n); s = (n + 7) // 8
        a = 1
        while a < s: a *= 2
        t.size, t.align = a, min(a, 16)
    return t

TOK = re.compile(r'\s*(?:(c?"(?:[^"])*")|([%@][-a-zA-Z$._0-9]+|[%@]"[^"]*")|([-a-zA-Z$._0-9]+)|(\.\.\.|<\{|\}>|[][(){}<>,=*!#:|]))')
def tokenize(s):
    out = []; i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" : break
            if s[i:].lstrip().startswith(";"): break
            raise Unsupported("token: " + s[i:i + 60])
        out.append(m.group(1) or m.group(2) or m.group(3) or m.group(4)); i = m.end()
    return out

ATTRS = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "writeonly", "readnone", "returned", "immarg", "inreg",
         "nofree", "noundef", "allocalign", "allocptr", "nest", "swiftself", "inrange", "writable", "dead_on_unwind"}

class P:
    def __init__(self, toks, mod): self.t, self.i, self.m = toks, 0, mod
    def peek(self): return self.t[self.i] if self.i < len(self.t) else None
    def next(self): x = self.t[self.i]; self.i += 1; return x
    def eat(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def need(self, x):
        if not self.eat(x): raise Unsupported("expected %r at %r in %s" % (x, self.peek(), " ".join(self.t)[:200]))
    def ty(self):
        x = self.next()
        if x == "ptr": r = PTR
        elif x == "void": r = VOID
        elif x[0] == "i" and x[1:].isdigit(): r = int_ty(int(x[1:]))
        elif x == "[":
            n = int(self.next()); self.need("x"); e = self.ty(); self.need("]")
            r = Ty("arr", n, e); r.size = n * e.size; r.align = e.align or 1
        elif x in ("{", "<{"):
            es = []; packed = x == "<{"
            if not self.eat("}"):
                while True:
                    es.append(self.ty())
                    if self.eat("}>" if packed else "}"): break
                    self.need(",")
            r = struct_ty(es, packed)
        elif x[0] == "%": r = self.m.named(x)
        else: raise Unsupported("type " + x)
        if self.peek() == "(":
            d = 0
            while True:
                t = self.next()
                if t == "(": d += 1
                if t == ")":
                    d -= 1
                    if d == 0: break
        return r
    def attrs(self):
        while True:
            x = self.peek()
            if x in ATTRS: self.i += 1
            elif x == "align": self.i += 2
            elif x in ("dereferenceable", "dereferenceable_or_null", "sret", "byval", "captures", "range", "memory", "allocsize", "initializes"):
                self.i += 1; d = 0
                if self.peek() == "(":
                    while True:
                        t = self.next()
                        if t == "(": d += 1
                        if t == ")":
                            d -= 1
                            if d == 0: break
            else: return

def struct_ty(es, packed=False):
    r = Ty("st", 0, es); off = 0; al = 1; r.offs = []
    for e in es:
        a = 1 if packed else max(e.align, 1)
        off = (off + a - 1) // a * a; r.offs.append(off); off += e.size; al = max(al, a)
    r.size = (off + al - 1) // al * al; r.align = al
    return r

class Ptr:
    __slots__ = ("o", "f")
    def __init__(self, o, f): self.o, self.f = o, f
    def __repr__(self): return "<%s+%s>" % (self.o, self.f)

class Func:
    def __init__(self, name): self.name = name; self.params = []; self.blocks = {}; self.entry = None; self.nregs = 0; self.lines = None; self.ready = False

class Obj:
    __slots__ = ("size", "cells", "kind", "ro", "alive", "token", "name", "base", "default")
    def __init__(self, size, kind, name, base, token, default=None):
        self.size, self.kind, self.name, self.base, self.token = size, kind, name, base, token
        self.cells = {}; self.ro = False; self.alive = True; self.default = default
    def copy(self, token):
        o = Obj(self.size, self.kind, self.name, self.base, token, self.default); o.cells = dict(self.cells); o.ro, o.alive = self.ro, self.alive
        return o

class Module:
    def __init__(self, text):
        self.types = {}; self.funcs = {}; self.globals = {}; self.typelines = {}; self.decls = set()
        lines = text.split("\n"); i = 0
        for l in lines:
            m = re.match(r"(%\S+) = type (.*)", l)
            if m: self.typelines[m.group(1)] = m.group(2)
        while i < len(lines):
            l = lines[i]
            if l.startswith("@"):
                m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)', l)
                self.globals[m.group(1)] = m.group(2)
            elif l.startswith("declare"):
                m = re.search(r"(@[-a-zA-Z$._0-9]+)\(", l); self.decls.add(m.group(1))
            elif l.startswith("define"):
                m = re.search(r"(@[-a-zA-Z$._0-9]+)\((.*)\)[^)]*\{", l); f = Func(m.group(1)); f.head = l; body = []
                i += 1
                while lines[i] != "}": body.append(lines[i]); i += 1
                f.lines = body; self.funcs[f.name] = f
            i += 1
    def named(self, n):
        t = self.types.get(n)
        if t is None:
            d = self.typelines.get(n)
            if d is None: raise Unsupported("type " + n)
            t = self.types[n] = P(tokenize(d), self).ty() if d != "opaque" else Ty("st", 0, [])
        return t

MASK = [(1 << n) - 1 for n in range(0, 129)]
def sgn(v, w): return v - (1 << w) if v >> (w - 1) else v

class Frame:
    __slots__ = ("fn", "R", "code", "ip", "ret", "objs")
    def __init__(self, fn, R, code, ret): self.fn, self.R, self.code, self.ip, self.ret, self.objs = fn, R, code, 0, ret, []
    def copy(self):
        f = Frame(self.fn, list(self.R), self.code, self.ret); f.ip = self.ip; f.objs = list(self.objs); return f

class State:
    __slots__ = ("mem", "stack", "token", "nobj", "facts", "result", "hooks", "steps")
    def fork(self, vm):
        s = State(); s.mem = dict(self.mem); s.stack = [f.copy() for f in self.stack]
        vm.tok += 1; s.token = vm.tok; vm.tok += 1; self.token = vm.tok
        s.nobj = self.nobj; s.facts = self.facts.copy() if self.facts is not None else None; s.result = None; s.hooks = dict(self.hooks); s.steps = self.steps
        return s

UNDEF = object()
CALL, RET, BR = 1, 2, 3

class VM:
    def __init__(self, module, dom):
        self.m, self.dom = module, dom; dom.vm = self
        self.tok = 0; self.steps = 0; self.used = set(); self.maxsteps = 1 << 62
        self.ext = {}       # replaced / external functions: name -> fn(S, args) -> value
        self.ginit = None
        self.gid = {}
        self.check_nsw = True
        self.header_hook = None   # called with (frame, block, state) on every back edge
    # ---------------------------------------------------- state & memory
    def new_state(self):
        s = State(); self.tok += 1; s.token = self.tok; s.mem = {}; s.stack = []; s.nobj = 1; s.facts = None; s.result = None; s.hooks = {}; s.steps = 0
        self.gid = {}
        for g in self.m.globals: self.gid[g] = s.nobj; s.mem[s.nobj] = None; s.nobj += 1
        self.S0 = s
        for g, oid in self.gid.items():
            o = Obj(0, "global", g, oid << 32, s.token); s.mem[oid] = o; self._ginit(s, o, self.m.globals[g])
        return s
    def alloc(self, S, size, kind, name="", default=None, align=0):
        oid = S.nobj; S.nobj += 1
        S.mem[oid] = Obj(size, kind, name, (oid << 32) + align, S.token, default)
        return Ptr(oid, 0)
    def _ginit(self, S, o, text):
        p = P(tokenize(text), self.m)
        while p.peek() not in ("global", "constant"):
            x = p.next()
            if x == "external": o.size = None; return
            if p.peek() == "(":
                while p.next() != ")": pass
        o.ro = p.next() == "constant"
        t = p.ty(); o.size = t.size
        self._cinit(o, 0, t, p)
    def _cinit(self, o, off, t, p):
        x = p.peek()
        if x == "zeroinitializer":
            p.next()
            for i in range(t.size): o.cells[off + i] = (0, 1)
            return
        if x in ("undef", "poison"): p.next(); return
        if t.k == "i": o.cells[off] = (self._const(t, p), t.size); return
        if t.k == "ptr":
            v = self._const(t, p); o.cells[off] = (v, 8); return
        if t.k == "arr":
            if x[0] == "c" and x[1] == '"':
                p.next(); b = cstr(x)
                for i, c in enumerate(b): o.cells[off + i] = (c, 1)
                return
            p.need("[")
            for i in range(t.n):
                p.ty(); self._cinit(o, off + i * t.e.size, t.e, p); p.eat(",")
            p.need("]"); return
        if t.k == "st":
            br = p.next(); 
            for i in range(t.size): o.cells[off + i] = (0, 1)
            for i, e in enumerate(t.e):
                p.ty()
                for k in range(e.size): o.cells.pop(off + t.offs[i] + k, None)
                self._cinit(o, off + t.offs[i], e, p); p.eat(",")
            p.next(); return
        raise Unsupported("initialiser")
    def _const(self, t, p):
        """constant operand -> value"""
        x = p.next()
        if t.k == "i":
            if x == "true": return 1
            if x == "false": return 0
            if x in ("undef", "poison"): return 0
            if x == "ptrtoint":
                p.need("("); p.ty(); v = self._const(PTR, p); p.need("to"); p.ty(); p.need(")"); return v
            return int(x) & MASK[t.n]
        if x == "null": return 0
        if x in ("undef", "poison"): return 0
        if x[0] == "@":
            if x in self.gid: return Ptr(self.gid[x], 0)
            return ("fn", x)
        if x == "getelementptr":
            while p.peek() != "(": p.next()
            p.next(); st = p.ty(); p.need(","); p.ty(); base = self._const(PTR, p); idx = []
            while p.eat(","):
                p.eat("inrange"); it = p.ty(); idx.append(sgn(self._const(it, p), it.n))
            p.need(")")
            off = base.f + idx[0] * st.size; cur = st
            for k in idx[1:]:
                if cur.k == "arr": off += k * cur.e.size; cur = cur.e
                else: off += cur.offs[k]; cur = cur.e[k]
            return Ptr(base.o, off)
        if x == "zeroinitializer": return 0
        raise Unsupported("constant " + x)
    def own(self, S, oid):
        o = S.mem[oid]
        if o.token != S.token: o = S.mem[oid] = o.copy(S.token)
        return o
    def where(self, S): return S.stack[-1].fn.name[1:] if S.stack else "?"
    def obj(self, S, p, n, write):
        if type(p) is not Ptr:
            if type(p) is int: p = self.to_ptr(S, p)
            if type(p) is not Ptr: raise Unsupported("symbolic pointer")
        o = S.mem.get(p.o)
        if o is None: raise Bug("invalid pointer in " + self.where(S))
        if not o.alive: raise Bug("access to released memory %s in %s" % (o.name, self.where(S)))
        f = p.f
        if type(f) is int:
            f = sgn(f & MASK[64], 64)
            if f < 0 or f + n > o.size:
                raise Bug("%s of %d bytes at offset %d of %s (%d bytes) in %s" % ("write" if write else "read", n, f, o.name or o.kind, o.size, self.where(S)))
        if write and o.ro: raise Bug("write to constant %s in %s" % (o.name, self.where(S)))
        return o, f
    def to_ptr(self, S, v):
        if v < (1 << 32): raise Bug("null pointer dereferenced in " + self.where(S))
        oid = v >> 32
        if oid in S.mem: return Ptr(oid, v - S.mem[oid].base)
        raise Bug("wild pointer in " + self.where(S))
    def addr(self, S, p):
        if type(p) is Ptr:
            if type(p.f) is int: return (S.mem[p.o].base + p.f) & MASK[64]
            return self.dom.binop(S, "add", 64, S.mem[p.o].base, p.f)
        return p
    def load_byte(self, S, o, f):
        c = o.cells.get(f)
        if c is not None:
            return c[0] if c[1] == 1 else self.dom.byte(c[0], 0, c[1])
        for d in range(1, 16):
            c = o.cells.get(f - d)
            if c is not None:
                if c[1] > d:
                    if type(c[0]) is Ptr: raise Unsupported("byte of a pointer")
                    return self.dom.byte(c[0], d, c[1])
                break
        if o.default is not None:
            v = o.default(f); o.cells[f] = (v, 1); return v
        v = self.dom.undef(S, o, f); o.cells[f] = (v, 1)
        return v
    def load(self, S, p, n, isptr=False):
        if type(p) is Ptr and type(p.f) is not int:
            return self.load_sym(S, p, n)
        o, f = self.obj(S, p, n, False)
        c = o.cells.get(f)
        if c is not None and c[1] == n: return c[0]
        if n == 1: return self.load_byte(S, o, f)
        bs = [self.load_byte(S, o, f + i) for i in range(n)]
        return self.dom.concat(bs)
    def load_sym(self, S, p, n):
        o = S.mem[p.o]
        lo, hi = self.dom.range(S, p.f)
        if lo < 0 or hi + n > o.size:
            # out of bounds possible: ask the domain to decide and report
            if self.dom.feasible_outside(S, p.f, 0, o.size - n): raise Bug("read outside %s (%d bytes) with a data-dependent index in %s" % (o.name, o.size, self.where(S)))
            lo, hi = max(lo, 0), min(hi, o.size - n)
        if n == 1: tab = [self.load_byte(S, o, k) for k in range(lo, hi + 1)]
        else: tab = [self.load(S, Ptr(p.o, k), n) if (k % n == 0) else 0 for k in range(lo, hi + 1)]
        r = self.dom.lookup(S, tab, lo, p.f, n)
        if r is None:       # not a constant table: one case per index
            k = self.dom.concretise(S, p.f)
            return self.load(S, Ptr(p.o, sgn(k & MASK[64], 64)), n)
        return r
    def clear(self, o, f, n):
        cells = o.cells
        for d in range(1, 16):
            c = cells.get(f - d)
            if c is not None:
                if c[1] > d:
                    del cells[f - d]
                    for i in range(c[1]):
                        if i < d or i >= d + n: cells[f - d + i] = (self.dom.byte(c[0], i, c[1]), 1)
                break
        for i in range(n):
            c = cells.pop(f + i, None)
            if c is not None and i + c[1] > n:
                for k in range(n - i, c[1]): cells[f + i + k] = (self.dom.byte(c[0], k, c[1]), 1)
    def store(self, S, p, v, n):
        if type(p) is Ptr and type(p.f) is not int:
            return self.dom.store_sym(S, p, v, n)
        o, f = self.obj(S, p, n, True)
        if o.token != S.token: o = self.own(S, p.o if type(p) is Ptr else self.to_ptr(S, p).o)
        c = o.cells.get(f)
        if n == 1:
            if c is None: self.clear(o, f, 1)
            elif c[1] != 1: self.clear(o, f, 1)
        elif not (c is not None and c[1] == n): self.clear(o, f, n)
        o.cells[f] = (v, n)
    def fixp(self, S, p):
        """a pointer with a known offset (forks over the possible ones)"""
        if type(p) is Ptr and type(p.f) is not int: return Ptr(p.o, sgn(self.dom.concretise(S, p.f) & MASK[64], 64))
        return p
    def memset(self, S, p, v, n):
        if n == 0: return
        p = self.fixp(S, p)
        o, f = self.obj(S, p, n, True); o = self.own(S, p.o)
        self.clear(o, f, n)
        if type(v) is not int: v = self.dom.cast(S, "trunc", 32, 8, v) if getattr(v, "w", 8) != 8 else v
        else: v &= 255
        for i in range(n): o.cells[f + i] = (v, 1)
    def memcpy(self, S, d, s, n):
        if n == 0: return
        d, s = self.fixp(S, d), self.fixp(S, s)
        so, sf = self.obj(S, s, n, False)
        do, df = self.obj(S, d, n, True)
        out = []; i = 0
        while i < n:
            c = so.cells.get(sf + i)
            if c is not None and i + c[1] <= n: out.append((i, c)); i += c[1]
            else: out.append((i, (self.load_byte(S, so, sf + i), 1))); i += 1
        do = self.own(S, d.o); self.clear(do, df, n)
        for i, c in out: do.cells[df + i] = c
    # ---------------------------------------------------- compilation
    def prepare(self, f):
        if f.ready: return f
        p = P(tokenize(f.head[6:].split("{")[0]), self.m)
        regs = {}
        def reg(n):
            r = regs.get(n)
            if r is None: r = regs[n] = len(regs)
            return r
        while not (p.peek() or "").startswith("@"): p.next()
        p.next(); p.need("(")
        f.ptypes = []
        while not p.eat(")"):
            if p.eat("..."): raise Unsupported("variadic function " + f.name)
            t = p.ty(); p.attrs(); f.ptypes.append(t); f.params.append(reg(p.next())); p.eat(",")
        # split into blocks
        blocks = []; cur = None; first = True; pend = ""
        for l in f.lines:
            if not l.strip() or l.strip().startswith(";"): continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m: cur = ["%" + m.group(1).strip('"'), []]; blocks.append(cur); continue
            if cur is None: cur = ["%" + str(len(f.params)), []]; blocks.append(cur)
            if pend: pend += " " + l.strip()
            else: pend = l.strip()
            if pend.startswith("switch") and "]" not in pend: continue
            cur[1].append(pend); pend = ""
        def norm(n): return n.replace('"', "")
        f.code = {n: [] for n, _ in blocks}; f.phis = {}; f.phity = {}; f.order = {n: i for i, (n, _) in enumerate(blocks)}
        for n, ls in blocks:
            ph = []
            for l in ls:
                if " = phi " in l:
                    p = P(tokenize(l), self.m); d = reg(norm(p.next())); p.need("="); p.need("phi"); t = p.ty(); ins = {}
                    while True:
                        p.need("["); v = self.opnd(p, t, reg); p.need(","); ins[norm(p.next())] = v; p.need("]")
                        if not p.eat(","): break
                    ph.append((d, ins)); f.phity[d] = 64 if t.k == "ptr" else t.n
            f.phis[n] = ph
        f.entry = blocks[0][0]
        for n, ls in blocks:
            code = f.code[n]
            for l in ls:
                if " = phi " in l: continue
                p = P(tokenize(l), self.m)
                code.append(self.instr(f, n, p, reg, norm, l))
        f.nregs = len(regs); f.ready = True
        return f
    def opnd(self, p, t, reg):
        """operand -> (is_reg, index or value)"""
        x = p.peek()
        if x[0] == "%":
            p.next(); return (True, reg(x.replace('"', "")))
        return (False, self._const(t, p))
    def edge(self, f, src, dst):
        """closure performing the phi moves for src->dst and the jump"""
        order = f.order
        if order[dst] <= order[src]:
            plain = self._edge(f, src, dst); vm = self
            def back(S, fr):
                plain(S, fr)
                if vm.header_hook is not None: vm.header_hook(fr, dst, S)
            return back
        return self._edge(f, src, dst)
    def _edge(self, f, src, dst):
        moves = [(d, ins[src]) for d, ins in f.phis[dst]]
        code = f.code[dst]
        if not moves:
            def go(S, fr): fr.code = code; fr.ip = 0
            return go
        ms = [(d, v[0], v[1]) for d, v in moves]
        if len(ms) == 1:
            d, isr, v = ms[0]
            def go(S, fr):
                fr.R[d] = fr.R[v] if isr else v
                fr.code = code; fr.ip = 0
            return go
        def go(S, fr):
            R = fr.R
            vals = [R[v] if isr else v for d, isr, v in ms]
            for k, x in zip(ms, vals): R[k[0]] = x
            fr.code = code; fr.ip = 0
        return go
    def instr(self, f, bn, p, reg, norm, line):
        dom = self.dom; vm = self
        dst = None
        if p.peek()[0] == "%" :
            dst = reg(norm(p.next())); p.need("=")
        op = p.next()
        if op in ("tail", "musttail", "notail"): op = p.next()
        if op in BIN:
            flags = set()
            while p.peek() in ("nsw", "nuw", "exact", "disjoint"): flags.add(p.next())
            t = p.ty(); a = self.opnd(p, t, reg); p.need(","); b = self.opnd(p, t, reg)
            return mk_bin(self, op, t.n, dst, a, b, "nsw" in flags)
        if op == "icmp":
            p.eat("samesign"); pred = p.next(); t = p.ty(); a = self.opnd(p, t, reg); p.need(","); b = self.opnd(p, t, reg)
            return mk_icmp(self, pred, 64 if t.k == "ptr" else t.n, dst, a, b)
        if op in ("zext", "sext", "trunc"):
            while p.peek() in ("nneg", "nuw", "nsw"): p.next()
            t = p.ty(); ar, av = self.opnd(p, t, reg); p.need("to"); t2 = p.ty(); w1, w2 = t.n, t2.n
            m2 = MASK[w2]
            if op == "sext":
                def g(S, fr):
                    x = fr.R[av] if ar else av
                    fr.R[dst] = sgn(x, w1) & m2 if type(x) is int else dom.cast(S, op, w1, w2, x)
            elif op == "zext":
                def g(S, fr):
                    x = fr.R[av] if ar else av
                    fr.R[dst] = x if type(x) is int else dom.cast(S, op, w1, w2, x)
            else:
                def g(S, fr):
                    x = fr.R[av] if ar else av
                    if type(x) is Ptr: x = vm.addr(S, x)
                    fr.R[dst] = x & m2 if type(x) is int else dom.cast(S, op, w1, w2, x)
            return g
        if op in ("ptrtoint", "inttoptr", "bitcast", "freeze"):
            t = p.ty(); ar, av = self.opnd(p, t, reg)
            def g(S, fr):
                x = fr.R[av] if ar else av
                fr.R[dst] = x
            return g
        if op == "select":
            t = p.ty(); cr, cv = self.opnd(p, t, reg); p.need(","); t1 = p.ty(); ar, av = self.opnd(p, t1, reg); p.need(","); t2 = p.ty(); br, bv = self.opnd(p, t2, reg)
            w = 64 if t1.k == "ptr" else t1.n
            def g(S, fr):
                R = fr.R
                c = R[cv] if cr else cv
                a = R[av] if ar else av; b = R[bv] if br else bv
                if type(c) is int: R[dst] = a if c else b
                elif a is b or (type(a) is int and type(b) is int and a == b): R[dst] = a
                else: R[dst] = dom.select(S, w, c, a, b)
            return g
        if op == "load":
            p.eat("volatile"); t = p.ty(); p.need(","); p.ty(); ar, av = self.opnd(p, PTR, reg); n = t.size; ip = t.k == "ptr"
            if t.k not in ("i", "ptr"): raise Unsupported("load of " + t.k)
            def g(S, fr):
                fr.R[dst] = vm.load(S, fr.R[av] if ar else av, n, ip)
            return g
        if op == "store":
            p.eat("volatile"); t = p.ty(); vr, vv = self.opnd(p, t, reg); p.need(","); p.ty(); ar, av = self.opnd(p, PTR, reg); n = t.size
            if t.k not in ("i", "ptr"): raise Unsupported("store of " + t.k)
            def g(S, fr):
                vm.store(S, fr.R[av] if ar else av, fr.R[vv] if vr else vv, n)
            return g
        if op == "alloca":
            t = p.ty(); cnt = (False, 1)
            if p.eat(",") and p.peek() != "align":
                it = p.ty(); cnt = self.opnd(p, it, reg)
            sz = t.size; cr, cv = cnt; nm = "local"
            def g(S, fr):
                c = fr.R[cv] if cr else cv
                if type(c) is not int: raise Unsupported("alloca of symbolic size")
                q = vm.alloc(S, sz * c, "stack", nm); fr.objs.append(q.o); fr.R[dst] = q
            return g
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"): p.next()
            t = p.ty(); p.need(","); p.ty(); br, bv = self.opnd(p, PTR, reg); coff = 0; terms = []; cur = None
            while p.eat(","):
                it = p.ty(); i = self.opnd(p, it, reg)
                if cur is None: sz = t.size; cur = t
                elif cur.k == "arr": cur = cur.e; sz = cur.size
                else: coff += cur.offs[i[1]]; cur = cur.e[i[1]]; continue
                if i[0]: terms.append((i[1], sz, it.n))
                else: coff += sgn(i[1], it.n) * sz
            if not terms:
                def g(S, fr):
                    b = fr.R[bv] if br else bv
                    if type(b) is Ptr and type(b.f) is int: fr.R[dst] = Ptr(b.o, b.f + coff) if coff else b
                    else: fr.R[dst] = vm.padd(S, b, coff & MASK[64])
                return g
            def g(S, fr):
                R = fr.R; b = R[bv] if br else bv; off = coff
                for r, sz, w in terms:
                    x = R[r]
                    if type(x) is int: off += sgn(x, w) * sz
                    elif type(x) is Ptr: raise Unsupported("pointer as an index")
                    else:
                        if w != 64: x = dom.cast(S, "sext", w, 64, x)
                        if sz != 1: x = dom.binop(S, "mul", 64, x, sz)
                        b = vm.padd(S, b, x)
                if type(b) is Ptr and type(b.f) is int: R[dst] = Ptr(b.o, b.f + off)
                else: R[dst] = vm.padd(S, b, off & MASK[64])
            return g
        if op == "br":
            if p.eat("label"):
                d = norm(p.next()); h = [None]
                def g(S, fr):
                    if h[0] is None: h[0] = vm.edge(f, bn, d)
                    h[0](S, fr); return BR
                return g
            t = p.ty(); cr, cv = self.opnd(p, t, reg); p.need(","); p.need("label"); d1 = norm(p.next()); p.need(","); p.need("label"); d2 = norm(p.next())
            h = [None, None]
            def g(S, fr):
                if h[0] is None: h[0] = vm.edge(f, bn, d1); h[1] = vm.edge(f, bn, d2)
                c = fr.R[cv] if cr else cv
                if type(c) is int: h[0 if c else 1](S, fr)
                else: vm.branch(S, fr, c, h, f, bn)
                return BR
            return g
        if op == "switch":
            t = p.ty(); cr, cv = self.opnd(p, t, reg); p.need(","); p.need("label"); dd = norm(p.next()); p.need("["); cases = []
            while not p.eat("]"):
                ct = p.ty(); k = self._const(ct, p); p.need(","); p.need("label"); cases.append((k, norm(p.next())))
            tab = {}
            def g(S, fr):
                if not tab:
                    for k, d in cases: tab[k] = vm.edge(f, bn, d)
                    tab[None] = vm.edge(f, bn, dd)
                c = fr.R[cv] if cr else cv
                if type(c) is int: (tab.get(c) or tab[None])(S, fr)
                else: vm.switch(S, fr, c, t.n, [(k, tab[k]) for k, d in cases], tab[None])
                return BR
            return g
        if op == "ret":
            t = p.ty(); v = (False, None) if t is VOID else self.opnd(p, t, reg)
            vr, vv = v
            def g(S, fr):
                x = fr.R[vv] if vr else vv
                for o in fr.objs:
                    h = S.hooks.get("leave")
                    if h: h(S, fr, o)
                    q = S.mem[o]
                    if q.token != S.token: q = vm.own(S, o)
                    q.alive = False; q.cells = {}
                S.stack.pop()
                if not S.stack: S.result = ("ret", x); return RET
                c = S.stack[-1]
                if fr.ret is not None: c.R[fr.ret] = x
                return BR
            return g
        if op == "unreachable":
            def g(S, fr): raise Bug("unreachable code reached in " + f.name[1:])
            return g
        if op == "call":
            return self.mk_call(f, p, reg, norm, dst)
        raise Unsupported("instruction " + line[:120])
    def padd(self, S, b, x):
        """pointer + offset"""
        if type(b) is Ptr:
            if type(b.f) is int and type(x) is int: return Ptr(b.o, b.f + sgn(x & MASK[64], 64))
            return Ptr(b.o, self.dom.binop(S, "add", 64, b.f & MASK[64] if type(b.f) is int else b.f, x))
        if type(b) is int and type(x) is int: return (b + x) & MASK[64]
        if type(x) is int and x == 0: return b
        return self.dom.binop(S, "add", 64, b, x)
    def mk_call(self, f, p, reg, norm, dst):
        vm = self; dom = self.dom
        while p.peek() in ("fastcc", "ccc", "noalias", "zeroext", "signext", "noundef", "nonnull", "inreg") or p.peek() in ATTRS: p.next()
        p.attrs(); rt = p.ty()
        if p.peek() == "asm":
            p.next()
            while p.peek() in ("sideeffect", "alignstack", "inteldialect"): p.next()
            if p.next() != '""' or dst is not None: raise Unsupported("inline assembler")
            return lambda S, fr: None
        name = p.next()
        if name[0] != "@": raise Unsupported("indirect call")
        p.need("("); args = []
        while not p.eat(")"):
            t = p.ty(); 
            if t.k == "void" : raise Unsupported("metadata argument")
            p.attrs(); args.append((t, self.opnd(p, t, reg))); p.eat(",")
        ops = [a for _, a in args]; ws = [64 if t.k == "ptr" else t.n for t, _ in args]
        nm = name[1:]
        ext = self.ext.get(nm)
        if ext is None and name in self.m.funcs:
            fn = self.m.funcs[name]
            def g(S, fr):
                if not fn.ready: vm.prepare(fn)
                vm.used.add(nm)
                R = fr.R; N = [None] * fn.nregs
                for d, (isr, v) in zip(fn.params, ops): N[d] = R[v] if isr else v
                if len(S.stack) > 60: raise Bug("unbounded recursion in " + nm)
                S.stack.append(Frame(fn, N, fn.code[fn.entry], dst)); return CALL
            return g
        if ext is None:
            if nm.startswith("llvm.lifetime") or nm.startswith("llvm.dbg") or nm.startswith("llvm.assume") or nm.startswith("llvm.donothing"):
                return lambda S, fr: None
            if nm.startswith("llvm.memset"): ext = lambda S, a: vm.memset(S, a[0], a[1], vm.conc(S, a[2]))
            elif nm.startswith("llvm.memcpy") or nm.startswith("llvm.memmove"): ext = lambda S, a: vm.memcpy(S, a[0], a[1], vm.conc(S, a[2]))
            elif nm.startswith("llvm."): ext = self.intrinsic(nm, ws)
            else: ext = BUILTIN.get(nm)
            if ext is None:
                def ext(S, a): raise Unsupported("call of " + nm)
            elif nm in BUILTIN:
                b = ext; ext = lambda S, a: b(vm, S, a)
        def g(S, fr):
            R = fr.R
            r = ext(S, [R[v] if isr else v for isr, v in ops])
            if dst is not None: R[dst] = r
        return g
    def intrinsic(self, nm, ws):
        dom = self.dom; b = nm.split(".")
        if b[1] in ("fshl", "fshr"):
            w = ws[0]
            def g(S, a):
                k = a[2]
                if type(k) is not int: raise Unsupported("symbolic rotate")
                k %= w
                if k == 0: return a[0] if b[1] == "fshl" else a[1]
                if b[1] == "fshr": k = w - k
                return dom.binop(S, "or", w, dom.binop(S, "shl", w, a[0], k), dom.binop(S, "lshr", w, a[1], w - k))
            return g
        if b[1] == "bswap":
            w = ws[0]; n = w // 8
            def g(S, a):
                if type(a[0]) is int: return int.from_bytes(a[0].to_bytes(n, "little"), "big")
                return dom.concat([dom.byte(a[0], n - 1 - i, n) for i in range(n)])
            return g
        if b[1] in ("umin", "umax", "smin", "smax"):
            w = ws[0]; pr = {"umin": "ult", "umax": "ugt", "smin": "slt", "smax": "sgt"}[b[1]]
            def g(S, a):
                c = icmp(self, S, pr, w, a[0], a[1])
                return (a[0] if c else a[1]) if type(c) is int else dom.select(S, w, c, a[0], a[1])
            return g
        if b[1] == "abs":
            w = ws[0]
            def g(S, a):
                if type(a[0]) is int: return abs(sgn(a[0], w)) & MASK[w]
                raise Unsupported("abs")
            return g
        return None
    def conc(self, S, v):
        if type(v) is int: return v
        return self.dom.concretise(S, v)
    # ---------------------------------------------------- execution
    def branch(self, S, fr, c, h, f=None, bn=None):
        t, e = self.dom.decide(S, c)          # feasible? (then, else)
        if t and e:
            S2 = S.fork(self); f2 = S2.stack[-1]
            self.dom.assume(S2, c, False); h[1](S2, f2); self.work.append(S2)
            self.dom.assume(S, c, True); h[0](S, fr)
            self.forks += 1
        elif t: h[0](S, fr)
        elif e: h[1](S, fr)
        else: raise Dead()
    def switch(self, S, fr, c, w, cases, dflt):
        rest = S
        for k, e in cases:
            q = icmp(self, S, "eq", w, c, k)
            if type(q) is int:
                if q: e(S, fr); return
                continue
            t, n = self.dom.decide(S, q)
            if t and n:
                S2 = S.fork(self); self.dom.assume(S2, q, True); e(S2, S2.stack[-1]); self.work.append(S2); self.dom.assume(S, q, False); self.forks += 1
            elif t: e(S, fr); return
        dflt(S, fr)
    def call(self, S, name, args):
        f = self.prepare(self.m.funcs["@" + name]); self.used.add(name)
        R = [None] * f.nregs
        for d, v in zip(f.params, args): R[d] = v
        S.stack.append(Frame(f, R, f.code[f.entry], None))
    def run(self, S):
        """all paths from S; yields finished states (result = ("ret", v) | ("bug", text) | ("exit", ..))"""
        self.work = [S]; self.forks = 0
        while self.work:
            S = self.work.pop()
            n = 0
            try:
                while True:
                    fr = S.stack[-1]; code = fr.code; ip = fr.ip
                    self.dom.vm_state = S
                    while True:
                        r = code[ip](S, fr); ip += 1; n += 1
                        if r is not None: break
                    if r == CALL: fr.ip = ip
                    elif r == RET: break
                    if n > 200000: self.steps += n; S.steps += n; n = 0
                    if S.steps > self.maxsteps: raise Unsupported("step bound")
            except Dead: self.steps += n; continue
            except Split as e:
                fr.ip = ip; self.steps += n; S.steps += n; self.forks += 1
                for c, v in e.alts:
                    t, f = self.dom.decide(S, c)
                    if (t if v else f):
                        S2 = S.fork(self); self.dom.assume(S2, c, v); self.work.append(S2)
                continue
            except Bug as e: S.result = ("bug", str(e))
            except Exit as e: S.result = ("exit", e.args)
            self.steps += n; S.steps += n
            yield S

class Dead(Exception): pass
class Exit(Exception): pass

def cstr(x):
    out = bytearray(); i = 2
    while i < len(x) - 1:
        if x[i] == "\\": out.append(int(x[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(x[i])); i += 1
    return out

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
def conc_bin(op, w, a, b, nsw, vm, S):
    m = MASK[w]
    if op == "add":
        r = a + b
        if nsw:
            s = sgn(a, w) + sgn(b, w)
            if sgn(s & m, w) != s: raise Bug("signed overflow in " + vm.where(S))
        return r & m
    if op == "sub":
        if nsw:
            s = sgn(a, w) - sgn(b, w)
            if sgn(s & m, w) != s: raise Bug("signed overflow in " + vm.where(S))
        return (a - b) & m
    if op == "mul":
        if nsw:
            s = sgn(a, w) * sgn(b, w)
            if sgn(s & m, w) != s: raise Bug("signed overflow in " + vm.where(S))
        return a * b & m
    if op == "and": return a & b
    if op == "or": return a | b
    if op == "xor": return a ^ b
    if op in ("shl", "lshr", "ashr"):
        if b >= w: raise Bug("shift by %d of %d bits in %s" % (b, w, vm.where(S)))
        if op == "shl": return a << b & m
        if op == "lshr": return a >> b
        return sgn(a, w) >> b & m
    if b == 0: raise Bug("division by zero in " + vm.where(S))
    if op == "udiv": return a // b
    if op == "urem": return a % b
    x, y = sgn(a, w), sgn(b, w); q = abs(x) // abs(y)
    if (x < 0) != (y < 0): q = -q
    if op == "sdiv":
        if sgn(q & m, w) != q: raise Bug("division overflow in " + vm.where(S))
        return q & m
    return (x - q * y) & m

def mk_bin(vm, op, w, d, a, b, nsw):
    dom = vm.dom; ar, av = a; br, bv = b; m = MASK[w]; nsw = nsw and vm.check_nsw
    def slow(S, x, y):
        tx, ty = type(x), type(y)
        if tx is int and ty is int: return conc_bin(op, w, x, y, nsw, vm, S)
        if tx is Ptr or ty is Ptr:
            if op == "add":
                if tx is Ptr and ty is not Ptr: return vm.padd(S, x, y)
                if ty is Ptr and tx is not Ptr: return vm.padd(S, y, x)
            if op == "sub":
                if tx is Ptr and ty is Ptr and x.o == y.o:
                    if type(x.f) is int and type(y.f) is int: return (x.f - y.f) & MASK[64]
                    return dom.binop(S, "sub", 64, x.f, y.f)
                if tx is Ptr and ty is int: return vm.padd(S, x, -y & MASK[64])
            x, y = vm.addr(S, x), vm.addr(S, y)
            if type(x) is int and type(y) is int: return conc_bin(op, w, x, y, False, vm, S)
        return dom.binop(S, op, w, x, y, nsw)
    if op in ("add", "sub", "and", "or", "xor") and not nsw:
        if op == "add":
            def g(S, fr):
                R = fr.R; x = R[av] if ar else av; y = R[bv] if br else bv
                R[d] = (x + y) & m if type(x) is int and type(y) is int else slow(S, x, y)
        elif op == "sub":
            def g(S, fr):
                R = fr.R; x = R[av] if ar else av; y = R[bv] if br else bv
                R[d] = (x - y) & m if type(x) is int and type(y) is int else slow(S, x, y)
        else:
            def g(S, fr):
                R = fr.R; R[d] = slow(S, R[av] if ar else av, R[bv] if br else bv)
        return g
    def g(S, fr):
        R = fr.R; R[d] = slow(S, R[av] if ar else av, R[bv] if br else bv)
    return g

def conc_cmp(pred, w, a, b):
    if pred == "eq": return int(a == b)
    if pred == "ne": return int(a != b)
    if pred[0] == "s": a, b = sgn(a, w), sgn(b, w)
    k = pred[1:]
    return int(a < b if k == "lt" else a <= b if k == "le" else a > b if k == "gt" else a >= b)

def icmp(vm, S, pred, w, x, y):
    tx, ty = type(x), type(y)
    if tx is int and ty is int: return conc_cmp(pred, w, x, y)
    if tx is Ptr or ty is Ptr:
        if tx is Ptr and ty is Ptr:
            if x.o == y.o:
                if type(x.f) is int and type(y.f) is int:
                    return conc_cmp(pred, 64, (x.f + (1 << 62)), (y.f + (1 << 62)))
                return vm.dom.icmp(S, pred, 64, x.f, y.f)
            if pred == "eq": return 0
            if pred == "ne": return 1
        x, y = vm.addr(S, x), vm.addr(S, y)
        if type(x) is int and type(y) is int: return conc_cmp(pred, 64, x, y)
    return vm.dom.icmp(S, pred, w, x, y)

def mk_icmp(vm, pred, w, d, a, b):
    ar, av = a; br, bv = b
    def g(S, fr):
        R = fr.R; R[d] = icmp(vm, S, pred, w, R[av] if ar else av, R[bv] if br else bv)
    return g

# ---------------------------------------------------- C library, where not modelled in C
def b_malloc(vm, S, a):
    n = vm.conc(S, a[0])
    if n > 1 << 32: return 0
    p = vm.alloc(S, n, "heap", "malloc(%d)" % n); S.hooks.setdefault("live", frozenset()); S.hooks["live"] = S.hooks["live"] | {p.o}
    return p
def b_calloc(vm, S, a):
    p = b_malloc(vm, S, [vm.conc(S, a[0]) * vm.conc(S, a[1])])
    if type(p) is Ptr: vm.memset(S, p, 0, S.mem[p.o].size)
    return p
def b_free(vm, S, a):
    p = a[0]
    if type(p) is int and p == 0: return None
    if type(p) is not Ptr: raise Unsupported("free of a symbolic pointer")
    o = S.mem.get(p.o)
    if o is None or o.kind != "heap" or not o.alive or p.f != 0: raise Bug("invalid free in " + vm.where(S))
    h = S.hooks.get("free")
    if h: h(S, p.o)
    o = vm.own(S, p.o); o.alive = False; S.hooks["live"] = S.hooks["live"] - {p.o}
    return None
def b_memset(vm, S, a): vm.memset(S, a[0], a[1], vm.conc(S, a[2])); return a[0]
def b_memcpy(vm, S, a): vm.memcpy(S, a[0], a[1], vm.conc(S, a[2])); return a[0]
def b_assert(vm, S, a):
    o = S.mem[a[0].o]; s = bytes(o.cells[i][0] for i in range(o.size - 1)).decode("latin1")
    raise Bug("assertion failed: %s in %s" % (s, vm.where(S)))
def b_abort(vm, S, a): raise Bug("abort in " + vm.where(S))
BUILTIN = {"malloc": b_malloc, "calloc": b_calloc, "free": b_free, "memset": b_memset, "memcpy": b_memcpy, "memmove": b_memcpy,
           "__assert_fail": b_assert, "abort": b_abort}
