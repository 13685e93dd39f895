"""Path merging: a data-dependent branch whose two sides meet again without a loop is
executed on both sides up to the meeting point and the states are joined with
if-then-else terms, so that the number of paths does not double at every branch."""
import re
from irx import *
import irx

def cfg(f):
    """block -> successors, from the text of the function"""
    g = getattr(f, "cfg", None) if hasattr(f, "__dict__") else None
    if g is not None: return g
    succ = {}; cur = "%" + str(len(f.params)); first = True
    for l in f.lines:
        s = l.strip()
        if not s or s.startswith(";"): continue
        m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
        if m: cur = "%" + m.group(1).strip('"'); succ.setdefault(cur, []); continue
        succ.setdefault(cur, [])
        for x in re.findall(r'label (%"[^"]*"|%[-a-zA-Z$._0-9]+)', s): succ[cur].append(x.replace('"', ""))
        if s.startswith("ret"): succ[cur].append(None)
    f.cfg = succ; f.meet = {}
    return succ
def loops(f):
    """block -> (header, body) of the innermost natural loop around it"""
    if hasattr(f, "loopof"): return f.loopof
    g = cfg(f); N = list(g); pred = {x: [] for x in N}
    for x in N:
        for y in g[x]:
            if y is not None: pred[y].append(x)
    dom = {x: None for x in N}; dom[N[0]] = {N[0]}; ch = True
    while ch:
        ch = False
        for x in N[1:]:
            ps = [dom[p] for p in pred[x] if dom[p] is not None]
            if not ps: continue
            n = set.intersection(*ps) | {x}
            if n != dom[x]: dom[x] = n; ch = True
    bodies = {}
    for x in N:
        for h in g[x]:
            if h is not None and dom[x] is not None and h in dom[x]:
                body = bodies.setdefault(h, {h}); st = [x]
                while st:
                    y = st.pop()
                    if y not in body: body.add(y); st.extend(pred[y])
    f.loopof = {}
    for x in N:
        c = [(len(bd), h) for h, bd in bodies.items() if x in bd]
        f.loopof[x] = (min(c)[1], bodies[min(c)[1]]) if c else None
    return f.loopof
def postdominators(g):
    N = list(g); pd = {x: None for x in N}; ch = True
    while ch:
        ch = False
        for x in reversed(N):
            ss = [({"exit"} if y is None else pd[y]) for y in g[x] if y is None or pd[y] is not None]
            if not ss: continue
            n = set.intersection(*[set(y) for y in ss]) | {x}
            if pd[x] is None or n != pd[x]: pd[x] = n; ch = True
    return pd
def meeting(f, b):
    """the block where the sides of b's branch meet, if no loop lies in between.  Inside a
    loop, ways out of it do not count and the next iteration is the last meeting point."""
    cfg(f)
    if b not in f.meet: f.meet[b] = _meeting(f, b)
    return f.meet[b]
def _meeting(f, b):
    G = cfg(f); lp = loops(f)[b]; cache = f.__dict__.setdefault("pdoms", {})
    if lp is None: g = G; hd = None
    else:
        hd, body = lp
        g = {x: [None if y == hd else y for y in G[x] if y is not None and (y == hd or y in body)] for x in G if x in body}
    if len(set(g[b])) < 2: return None
    if hd not in cache: cache[hd] = postdominators(g)
    pd = cache[hd]
    if pd[b] is None: return None
    c = [x for x in pd[b] if x not in (b, "exit")]; r = None
    for x in c:
        if all(y in pd[x] for y in c): r = x; break
    state = {}; ok = True
    def dfs(x):
        nonlocal ok
        state[x] = 1
        for y in g[x]:
            if y is None or y == r: continue
            if state.get(y) == 1 or y == b: ok = False; return
            if y not in state: dfs(y)
        state[x] = 2
    for x in g[b]:
        if x is not None and x != r and x not in state:
            if x == b: ok = False
            else: dfs(x)
    if not ok: return None
    if r is None: return hd if hd is not None and hd != b else None
    if g[r] == [None] and hd is None and getattr(f, "keep_returns", False): return None
    return r

class MVM(VM):
    maxdepth = 400
    def __init__(self, *a):
        super().__init__(*a); self.merges = 0; self.nomerge = 0; self.finished = []; self.stops = []
    def branch(self, S, fr, c, h, f=None, bn=None):
        dom = self.dom
        t, e = dom.decide(S, c)
        if not (t and e):
            if t: h[0](S, fr)
            elif e: h[1](S, fr)
            else: raise Dead()
            return
        J = meeting(f, bn)
        S2 = S.fork(self); f2 = S2.stack[-1]; self.forks += 1
        if J is None or len(self.stops) > self.maxdepth:
            dom.assume(S2, c, False); h[1](S2, f2); self.work.append(S2)
            dom.assume(S, c, True); h[0](S, fr)
            return
        S1 = S.fork(self)
        dom.assume(S2, c, False); h[1](S2, f2)
        dom.assume(S1, c, True); h[0](S1, S1.stack[-1])
        stop = (f.code[J], len(S1.stack))
        keep = self.work; self.work = [S2, S1]; arr = []
        self.stops.append(stop)
        try:
            while self.work:
                T = self.work.pop()
                if self.at(T, stop) or self.step(T, stop) == "stop": arr.append(T)
                elif T.result is not None: self.finished.append(T)
        finally: self.stops.pop()
        self.work = keep
        out = []
        for T in arr:
            for k, U in enumerate(out):
                M = self.join(U, T)
                if M is not None: out[k] = M; self.merges += 1; break
            else: out.append(T)
        if not out: raise Dead()
        self.nomerge += len(out) - 1
        for T in out[1:]: self.work.append(T)
        T = out[0]
        S.mem, S.stack, S.token, S.nobj, S.facts, S.result, S.hooks, S.steps = T.mem, T.stack, T.token, T.nobj, T.facts, T.result, T.hooks, T.steps
    def at(self, T, stop): return T.result is None and len(T.stack) == stop[1] and T.stack[-1].code is stop[0] and T.stack[-1].ip == 0
    def step(self, S, stop):
        """run S until it ends, reaches `stop` (result "stop") or vanishes (None)"""
        n = 0; fr = None
        try:
            while True:
                fr = S.stack[-1]; code = fr.code; ip = fr.ip
                self.dom.vm_state = S
                while True:
                    r = code[ip](S, fr); ip += 1; n += 1
                    if r is not None: break
                if r == CALL: fr.ip = ip
                elif r == RET: break
                elif stop is not None and S.stack[-1].code is stop[0] and S.stack[-1].ip == 0 and len(S.stack) == stop[1]:
                    self.steps += n; S.steps += n; return "stop"
                if n > 200000: self.steps += n; S.steps += n; n = 0
                if S.steps > self.maxsteps: raise Unsupported("step bound")
        except Dead: self.steps += n; return None
        except Split as e:
            fr.ip = ip; self.steps += n; S.steps += n; self.forks += 1
            for c, v in e.alts:
                t, f = self.dom.decide(S, c)
                if (t if v else f):
                    S2 = S.fork(self); self.dom.assume(S2, c, v); self.work.append(S2)
            return None
        except Bug as e: S.result = ("bug", str(e))
        except Exit as e: S.result = ("exit", e.args)
        self.steps += n; S.steps += n
        return "end"
    def run(self, S):
        self.work = [S]; self.forks = 0; self.finished = []
        while self.work or self.finished:
            while self.finished: yield self.finished.pop()
            if not self.work: return
            S = self.work.pop()
            if self.step(S, None) == "end": yield S
    # ---------------------------------------------------- joining
    def join(self, A, B):
        """one state for both, or None"""
        dom = self.dom
        if A.hooks != B.hooks or len(A.stack) != len(B.stack): return None
        ca, cb, pre, taut = dom.split_facts(A, B)
        if ca is None: return None
        def ite(x, y, w):
            if x is y or (type(x) is int and type(y) is int and x == y): return x
            if type(x) is Ptr and type(y) is Ptr and x.o == y.o and type(x.f) is int and x.f == y.f: return x
            if type(x) not in (int, Node) or type(y) not in (int, Node): raise NoJoin
            if w is None:
                ws = {z.w for z in (x, y) if type(z) is Node}
                if len(ws) > 1: raise NoJoin
                if not ws: raise NoJoin
                w = ws.pop()
            if type(x) is int and type(y) is int and max(abs(sgn(x, w)), abs(sgn(y, w))) > 8 and w >= 32: raise NoJoin
            return dom.ite(w, ca, x, y)
        try:
            fa, fb = A.stack[-1], B.stack[-1]
            R = list(fa.R); wd = self.phi_width(fa.fn)
            for i, (x, y) in enumerate(zip(fa.R, fb.R)):
                if x is y: continue
                if type(x) is int and type(y) is int and x == y: continue
                w = wd.get(i)
                if x is None or y is None or w is None: R[i] = None; continue      # defined inside the region
                J = wd["at"].get(id(fa.code), ())
                R[i] = ite(x, y, w) if i in J else None
            if fa.objs != fb.objs: raise NoJoin
            mem = dict(A.mem); new = {}
            for o in set(A.mem) | set(B.mem):
                x, y = A.mem.get(o), B.mem.get(o)
                if x is y: continue
                if x is None: mem[o] = y; continue
                if y is None: continue
                if not x.alive and not y.alive: continue
                if x.alive != y.alive or x.size != y.size or x.kind != y.kind or x.base != y.base or x.default is not y.default: raise NoJoin
                if o >= min(A.nobj, B.nobj) or (x.name != y.name): raise NoJoin
                cells = dict(x.cells); z = None
                keys = [k for k in set(x.cells) | set(y.cells) if x.cells.get(k) is not y.cells.get(k) and x.cells.get(k) != y.cells.get(k)]
                if not keys: continue
                done = set()
                same = all(k in x.cells and k in y.cells and x.cells[k][1] == y.cells[k][1] for k in keys)
                z = x.copy(0)
                if same:
                    for k in keys:
                        (u, n), (v, _) = x.cells[k], y.cells[k]
                        z.cells[k] = (ite(u, v, None if type(u) is Ptr or type(v) is Ptr else (next((q.w for q in (u, v) if type(q) is Node), 8 * n))), n)
                else:
                    cov = sorted({k + i for k in keys for q in (x.cells.get(k), y.cells.get(k)) if q for i in range(q[1])})
                    bx = x.copy(0); by = y.copy(0); vals = {}
                    # whole cells that overlap are taken apart
                    for k in cov:
                        for q in (x, y):
                            for d in range(0, 16):
                                c = q.cells.get(k - d)
                                if c is not None:
                                    if c[1] > d:
                                        if type(c[0]) is Ptr: raise NoJoin
                                        done.update(range(k - d, k - d + c[1]))
                                    break
                        done.add(k)
                    for k in done: vals[k] = ite(self.load_byte(A, bx, k), self.load_byte(B, by, k), 8)
                    for k in list(z.cells):
                        if k in done: del z.cells[k]
                    for k, v in vals.items(): z.cells[k] = (v, 1)
                new[o] = z
        except NoJoin: return None
        M = State(); self.tok += 1; M.token = self.tok
        for o, z in new.items(): z.token = M.token; mem[o] = z
        M.mem = mem; M.stack = [q.copy() for q in A.stack]; M.stack[-1].R = R
        M.nobj = max(A.nobj, B.nobj); M.result = None; M.hooks = dict(A.hooks); M.steps = max(A.steps, B.steps)
        M.facts = dom.join_facts(A, B, pre, ca, cb, taut)
        return M
    def phi_width(self, fn):
        w = getattr(fn, "phiw", None)
        if w is None:
            w = {"at": {}}
            for b, ph in fn.phis.items():
                w["at"][id(fn.code[b])] = {d for d, _ in ph}
                for d, _ in ph: w[d] = fn.phity.get(d)
            fn.phiw = w
        return w
class NoJoin(Exception): pass
from bvdom import Node
