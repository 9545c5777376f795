"""VC generator: symbolic execution of LLVM IR (obtained from the real /repo sources on every run) against
contracts written in C++ (contracts/*.cc).  See DESIGN.md, 'The verifier'.

Value representation
  iN  : python int (unsigned, < 2^N) or z3 BitVec(N);  i1 : python bool or z3 Bool
  fp  : python Fraction or z3 Real  (machine floating point treated as mathematical reals: listed assumption)
  ptr : Ptr(obj,off) | FnPtr(name) | PIte(cond,a,b)
  aggregates : python list
"""
import heapq, time, sys, re, struct
from fractions import Fraction
import z3
sys.setrecursionlimit(20000)

M64 = (1 << 64) - 1

class Unsupported(Exception): pass
class PathEnd(Exception): pass

class Ptr:
    __slots__ = ('obj', 'off')
    def __init__(self, obj, off): self.obj = obj; self.off = off
    def __repr__(self): return 'Ptr(%s,%s)' % (self.obj, self.off)
class FnPtr:
    __slots__ = ('name',)
    def __init__(self, name): self.name = name
    def __repr__(self): return 'FnPtr(%s)' % self.name
class PIte:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b): self.c = c; self.a = a; self.b = b
    def __repr__(self): return 'PIte(%s,%s,%s)' % (self.c, self.a, self.b)
NULL = Ptr(None, 0)
def is_ptr(v): return isinstance(v, (Ptr, FnPtr, PIte))

def is_z3(v): return isinstance(v, z3.ExprRef)
BVCACHE = {}
def bv(v, w):
    if isinstance(v, int):
        k = (v, w)
        r = BVCACHE.get(k)
        if r is None: r = BVCACHE[k] = z3.BitVecVal(v, w)
        return r
    return v
TRUE = z3.BoolVal(True); FALSE = z3.BoolVal(False)
def zb(v):
    if v is True: return TRUE
    if v is False: return FALSE
    return v
def b_and(a, b):
    if a is False or b is False: return False
    if a is True: return b
    if b is True: return a
    return z3.And(a, b)
def b_or(a, b):
    if a is True or b is True: return True
    if a is False: return b
    if b is False: return a
    return z3.Or(a, b)
def b_not(a):
    if a is True: return False
    if a is False: return True
    if z3.is_not(a): return a.arg(0)
    return z3.Not(a)
def simpb(c):
    if isinstance(c, bool): return c
    s = z3.simplify(c)
    if z3.is_true(s): return True
    if z3.is_false(s): return False
    return c
def rv(x):
    if isinstance(x, Fraction): return z3.RealVal(str(x.numerator) + '/' + str(x.denominator)) if x.denominator != 1 else z3.RealVal(str(x.numerator))
    return x
def frac(x): return isinstance(x, Fraction)
def signed(v, w): return v - (1 << w) if v >> (w - 1) else v

def tysize(t):
    if t == 'ptr': return 8
    if t == 'f64': return 8
    if t == 'f32': return 4
    if t == 'f80': return 16
    if t[0] == 'i': return (int(t[1:]) + 7) // 8
    if t[0] == '{': return int(t.rsplit('#', 1)[1])
    if t[0] == '[':
        n, e = t[1:-1].split('x', 1); return int(n) * tysize(e)
    if t[0] == '<':
        n, e = t[1:-1].split('x', 1); return int(n) * tysize(e)
    raise Unsupported('type ' + t)
_fc = {}
def fields(t):
    """[(offset,type)] for an aggregate type string"""
    r = _fc.get(t)
    if r is not None: return r
    if t[0] == '{':
        body = t[1:t.rindex('}')]
        out = []; depth = 0; cur = ''
        for ch in body:
            if ch in '{[<': depth += 1
            if ch in '}]>': depth -= 1
            if ch == ',' and depth == 0: out.append(cur); cur = ''
            else: cur += ch
        if cur: out.append(cur)
        r = []
        for f in out:
            o, ft = f.split(':', 1); r.append((int(o), ft))
    else:
        n, e = t[1:-1].split('x', 1); s = tysize(e)
        r = [(i * s, e) for i in range(int(n))]
    _fc[t] = r
    return r

class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'alive', 'init', 'cells', 'arr', 'const')
    def __init__(self, id, name, size, kind, init):
        self.id = id; self.name = name; self.size = size; self.kind = kind; self.alive = True
        self.init = init; self.cells = {}; self.arr = None; self.const = False
    def clone(self):
        o = Obj(self.id, self.name, self.size, self.kind, self.init)
        o.alive = self.alive; o.cells = dict(self.cells); o.const = self.const
        o.arr = None if self.arr is None else (self.arr[0], dict(self.arr[1]))
        return o

class Func:
    def __init__(self, name, j, mod):
        self.name = name; self.mod = mod
        self.params = j['params']; self.ret = j['ret']; self.blocks = j['blocks']; self.vararg = j['vararg']
        self.linkage = j['linkage']
        self.analysed = False
    def analyse(self):
        if self.analysed: return
        self.analysed = True
        n = len(self.blocks)
        succ = []
        for b in self.blocks:
            t = b[-1]; op = t[0]
            if op == 'br': s = [t[1]]
            elif op == 'cbr': s = [t[2], t[3]]
            elif op == 'switch': s = [t[2]] + [c[1] for c in t[3]]
            elif op == 'invoke': s = [t[6], t[7]]
            else: s = []
            succ.append(list(dict.fromkeys(s)))
        self.succ = succ
        # RPO
        order = []; seen = [False] * n
        st = [(0, iter(succ[0]))]; seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True; st.append((s, iter(succ[s]))); break
            else:
                order.append(b); st.pop()
        rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
        preds = [[] for _ in range(n)]
        for b in rpo:
            for s in succ[b]: preds[s].append(b)
        # dominators
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while num[x] > num[y]: x = idom[x]
                        while num[y] > num[x]: y = idom[y]
                if idom.get(b) != x: idom[b] = x; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if idom[b] == b: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body: continue
                        body.add(x); wl.extend(p for p in preds[x] if p in num)
        self.loops = loops
        # nesting: for every block list of headers outer..inner
        hs = sorted(loops, key=lambda h: -len(loops[h]))
        self.nest = {b: [h for h in hs if b in loops[h]] for b in rpo}
        # topological index at each level: contract the loops
        self.topo = {}
        def level(region, header, depth):
            # nodes: blocks directly at this depth, or inner loop headers (contracted)
            def node(b):
                ns = self.nest[b]
                return ns[depth] if len(ns) > depth else b
            nodes = {}
            for b in region:
                nodes.setdefault(node(b), set()).add(b)
            order2 = []; seen2 = set()
            def dfs(x):
                stack = [(x, iter(sorted({node(s) for b in nodes[x] for s in succ[b] if s in region and s != header}, key=lambda q: num[q])))]
                seen2.add(x)
                while stack:
                    y, it = stack[-1]
                    for z in it:
                        if z not in seen2:
                            seen2.add(z)
                            stack.append((z, iter(sorted({node(s) for b in nodes[z] for s in succ[b] if s in region and s != header}, key=lambda q: num[q]))))
                            break
                    else:
                        order2.append(y); stack.pop()
            dfs(node(header if header is not None else rpo[0]))
            for x in nodes:
                if x not in seen2: dfs(x)
            idx = {x: i for i, x in enumerate(order2[::-1])}
            for b in region:
                self.topo.setdefault(b, []).append(idx[node(b)])
            for x, bs in nodes.items():
                if x in loops and len(self.nest[x]) > depth and self.nest[x][depth] == x:
                    level(bs, x, depth + 1)
        level(set(rpo), None, 0)

class Frame:
    __slots__ = ('fn', 'regs', 'block', 'idx', 'iters', 'dest', 'isinv', 'allocas', 'poskey')
    def __init__(self, fn):
        self.fn = fn; self.regs = {}; self.block = 0; self.idx = 0; self.iters = {}
        self.dest = None; self.isinv = None; self.allocas = (); self.poskey = None
    def clone(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn; f.regs = dict(self.regs); f.block = self.block; f.idx = self.idx; f.iters = dict(self.iters)
        f.dest = self.dest; f.isinv = self.isinv; f.allocas = self.allocas; f.poskey = self.poskey
        return f
    def bkey(self):
        k = []
        fn = self.fn; t = fn.topo.get(self.block); ns = fn.nest.get(self.block, ())
        if t is None: return (10**6,)
        for i, x in enumerate(t):
            k.append(x)
            if i < len(ns): k.append(self.iters.get(ns[i], 0))
        return tuple(k)

class State:
    __slots__ = ('frames', 'mem', 'own', 'pc', 'inputs', 'inpcount', 'exc', 'ghost', 'trace', 'cov')
    def __init__(self):
        self.frames = []; self.mem = {}; self.own = set(); self.pc = (); self.inputs = (); self.inpcount = {}
        self.exc = None; self.ghost = {}; self.trace = ()
    def fork(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.mem = dict(self.mem); s.own = set(); self.own = set()
        s.pc = self.pc; s.inputs = self.inputs; s.inpcount = dict(self.inpcount); s.exc = self.exc
        s.ghost = dict(self.ghost); s.trace = self.trace
        return s
    def key(self):
        return tuple(f.bkey() + (f.idx,) for f in self.frames)

class Program:
    def __init__(self):
        self.funcs = {}; self.globals = {}; self.aliases = {}; self.weak = set()
    def add(self, mod, tag):
        for n, j in mod['functions'].items():
            lk = j['linkage']
            # 0 external,1 available_externally,2 linkonce any,3 linkonce_odr,4 weak any,5 weak odr,7 internal,8 private
            f = Func(n, j, tag)
            if n not in self.funcs or (self.funcs[n].linkage in (1, 2, 3, 4, 5) and lk == 0):
                self.funcs[n] = f
        for n, g in mod['globals'].items():
            if n not in self.globals or ('init' in g and 'init' not in self.globals[n]) :
                g = dict(g); g['mod'] = tag
                self.globals[n] = g
        for n, a in mod['aliases'].items(): self.aliases[n] = a
    def finalize(self):
        """map globals to the compiler generated functions which initialise them dynamically"""
        self.dyninit = {}
        for n, f in self.funcs.items():
            if '__cxx_global_var_init' not in n: continue
            seen = []
            def walk(o):
                if isinstance(o, list):
                    if len(o) >= 2 and o[0] == 'g' and isinstance(o[1], str): seen.append(o[1])
                    for x in o: walk(x)
            for b in f.blocks:
                for i in b:
                    if i[0] in ('call', 'invoke'):
                        if i[3][0] == 'g' and i[3][1] == '__cxa_atexit': continue
                        if i[4]: walk(i[4][0])
                    elif i[0] == 'store': walk(i[4] if len(i) > 4 else [])
            for g in seen:
                if g in self.globals and 'init' in self.globals[g] and not self.globals[g]['const'] and g not in self.dyninit and not g.startswith('_ZGV'):
                    self.dyninit[g] = n

class Result:
    """outcome of one proof group in one mode"""
    def __init__(self):
        self.obl = []       # (label, status, backend, seconds, model)
        self.unsupported = []
        self.covers = {}
        self.bounded_loops = []
        self.incomplete = []
        self.paths = 0
        self.queries = 0
        self.solver_time = 0.0
        self.summaries = []
        self.funcs = set()
        self.assumed = set()
        self.safety = []
        self.escapes = []
        self.timeout = False

class Engine:
    def __init__(self, prog, mode='proof', bound=3, timeout_ms=8000, max_unroll=40, deadline=None, options=None):
        self.prog = prog; self.mode = mode; self.bound = bound; self.timeout_ms = timeout_ms
        self.max_unroll = max_unroll; self.res = Result(); self.deadline = deadline
        self.idtab = {}; self.nfresh = 0; self.qdepth = 0; self.loopdepth = 0
        self.opt = options or {}
        self.stubs = self.opt.get('stubs', {})        # mangled -> harness function name
        self.globobj = {}
        self.tids = {}
        self.watch = None
        self.fcache = {}
        self.unint = {}
        self.no_summary = self.opt.get('no_summary', False)
        self.cache = {}
        self.solver = None
        self.safety_on = True
        self.dyncache = {}
        self.nomix = None; self.nosum = {}; self.selmemo = {}; self.mulmemo = {}; self.mergefail = {}

    # ---------------------------------------------------------------- solver
    # products of two symbolic integers: first tried with the product as an uninterpreted function (flattened,
    # commutative and associative by normalisation, with the axioms for factors 0 and 1): weaker, hence sound for 'unsat'
    def absmul(self, c):
        memo = self.mulmemo
        st = [c]
        while st:
            x = st[-1]; i = x.get_id()
            if i in memo: st.pop(); continue
            if z3.is_quantifier(x) or z3.is_var(x): memo[i] = (x, x, False, ()); st.pop(); continue
            ch = x.children()
            miss = [y for y in ch if y.get_id() not in memo]
            if miss: st.extend(miss); continue
            st.pop()
            ax = ()
            seen = set()
            for y in ch:
                for a in memo[y.get_id()][3]:
                    if a.get_id() not in seen: seen.add(a.get_id()); ax += (a,)
            if x.decl().kind() == z3.Z3_OP_BMUL:
                k = 1; fs = []
                todo = list(ch)
                while todo:
                    y = todo.pop()
                    if y.decl().kind() == z3.Z3_OP_BMUL: todo.extend(y.children())
                    elif z3.is_bv_value(y): k *= y.as_long()
                    else: fs.append(y)
                w = x.size(); k &= (1 << w) - 1
                if len(fs) >= 2:
                    fs.sort(key=lambda y: y.get_id())
                    acc = memo[fs[0].get_id()][1]
                    F = self.uf('mul%d' % w, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
                    zero, one = z3.BitVecVal(0, w), z3.BitVecVal(1, w)
                    for y in fs[1:]:
                        b = memo[y.get_id()][1]
                        t = F(acc, b)
                        a = z3.And(z3.Implies(acc == zero, t == zero), z3.Implies(b == zero, t == zero), z3.Implies(acc == one, t == b), z3.Implies(b == one, t == acc))
                        if a.get_id() not in seen: seen.add(a.get_id()); ax += (a,)
                        acc = t
                    memo[i] = (x, acc if k == 1 else z3.BitVecVal(k, w) * acc, True, ax); continue
            if any(memo[y.get_id()][2] for y in ch):
                n = x.decl()(*[memo[y.get_id()][1] for y in ch]) if x.decl().kind() not in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_BADD, z3.Z3_OP_BMUL) else z3.substitute(x, [(y, memo[y.get_id()][1]) for y in ch if memo[y.get_id()][2]])
                memo[i] = (x, n, True, ax)
            else: memo[i] = (x, x, False, ())
        return memo[c.get_id()]
    def check(self, pcs, extra=(), timeout=None, full=True, want_model=False, absok=False):
        """satisfiability of the conjunction"""
        cs = []
        for c in list(pcs) + list(extra):
            if c is True: continue
            if c is False: return ('unsat', None)
            cs.append(c)
        if not full: cs = [c for c in cs if not self.has_quant(c)]
        if not cs: return ('sat', None) if not want_model else ('sat', {})
        key = (frozenset(c.get_id() for c in cs), full)
        if not want_model and key in self.cache: return (self.cache[key][0], None)
        t0 = time.time()
        if self.deadline and t0 > self.deadline: raise TimeoutError('deadline')
        r = 'unknown'
        if not want_model:
            ms = [self.absmul(c) for c in cs]
            if any(m[2] for m in ms):
                # factors known to be equal are unified first (the compiler may have exchanged them)
                sub = []; rep = {}
                for c in cs:
                    if z3.is_eq(c) and z3.is_const(c.arg(0)) and z3.is_const(c.arg(1)) and c.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED and c.arg(1).decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        a, b = c.arg(0), c.arg(1)
                        while a.get_id() in rep: a = rep[a.get_id()]
                        while b.get_id() in rep: b = rep[b.get_id()]
                        if a.get_id() != b.get_id(): rep[b.get_id()] = a; sub.append(b)
                if sub:
                    def root(x):
                        while x.get_id() in rep: x = rep[x.get_id()]
                        return x
                    pairs = [(x, root(x)) for x in sub]
                    ms = [self.absmul(z3.substitute(c, pairs)) for c in cs]
                s = z3.Solver(); s.set('timeout', 3000); s.set('random_seed', 1)
                s.add([m[1] for m in ms]); s.add([a for m in ms for a in m[3]])
                r2 = str(s.check())
                if r2 == 'unsat' or (absok and r2 == 'sat'):
                    self.res.queries += 1; self.res.solver_time += time.time() - t0
                    if r2 == 'unsat': self.cache[key] = ('unsat', cs)
                    return (r2, None)
        if self.incremental and not want_model and not any(self.has_quant(c) for c in cs):
            r = self.inc_check(pcs, extra, timeout or self.timeout_ms, full)
        if r == 'unknown':
            s = z3.Solver()
            s.set('timeout', timeout or self.timeout_ms); s.set('random_seed', 1)
            s.add(cs)
            r = str(s.check())
        dt = time.time() - t0
        self.res.queries += 1; self.res.solver_time += dt
        m = None
        if r == 'sat' and want_model: m = s.model()
        if not want_model: self.cache[key] = (r, cs)
        return (r, m)
    incremental = True
    nsmall = 0
    mix = False
    def inc_check(self, pcs, extra, timeout, full):
        s = self.solver
        if s is None:
            s = self.solver = z3.Solver(); s.set('random_seed', 1); self.stack = []
        stk = self.stack
        items = [c for c in pcs if c is not True and (full or not self.has_quant(c))]
        i = 0; n = min(len(stk), len(items))
        while i < n and stk[i].get_id() == items[i].get_id(): i += 1
        if len(stk) > i: s.pop(len(stk) - i); del stk[i:]
        for c in items[i:]:
            s.push(); s.add(c); stk.append(c)
        s.set('timeout', min(timeout, 3000))
        ex = [zb(c) for c in extra if c is not True]
        s.push(); s.add(ex)
        r = str(s.check())
        s.pop()
        return r
    def has_quant(self, c):
        """memoised over all subterms (quantifier-free terms are remembered for the lifetime of the engine)"""
        fc = self.fcache
        r = fc.get(c.get_id())
        if r is not None: return r[0]
        st = [c]; q = False; visited = []
        while st:
            x = st.pop()
            i = x.get_id()
            r = fc.get(i)
            if r is not None:
                if r[0]: q = True; break
                continue
            if z3.is_quantifier(x) and not x.is_lambda(): q = True; break
            if z3.is_quantifier(x): st.append(x.body()); fc[i] = (False, x); visited.append(i); continue
            fc[i] = (False, x); visited.append(i)
            st.extend(x.children())
        if q:
            for i in visited: fc.pop(i, None)
            fc[c.get_id()] = (True, c)
        return q
    def feasible(self, st, extra=()):
        for e in extra:
            if e is False: return False
        ex = [e for e in extra if e is not True]
        if not ex: return True
        pcset = None
        r, _ = self.check(st.pc, ex, timeout=3000, full=False, absok=True)
        return r != 'unsat'
    def assume(self, st, c):
        if c is True: return
        if c is False: raise PathEnd('assume false')
        st.pc = st.pc + (c,)

    # ---------------------------------------------------------------- misc
    def fresh(self, name, sort):
        self.nfresh += 1
        n = '%s!%d' % (name, self.nfresh)
        if isinstance(sort, int): return z3.BitVec(n, sort)
        if isinstance(sort, str): return z3.Bool(n)
        return z3.Const(n, sort)
    def fresh_ty(self, name, ty):
        if ty == 'i1': return self.fresh(name, 'bool')
        if ty[0] == 'i': return self.fresh(name, int(ty[1:]))
        if ty in ('f64', 'f32'): return self.fresh(name, z3.RealSort())
        if ty == 'ptr': return Ptr(None, self.fresh(name, 64))
        if ty[0] in '{[<': return [self.fresh_ty(name, ft) for _, ft in fields(ty)]
        raise Unsupported('fresh ' + ty)
    dynname = None
    def newid(self, key):
        if self.dynname is not None and not (len(key) == 2 and key[0] == 'g'): key = ('dyn', self.dynname, key)
        i = self.idtab.get(key)
        if i is None: i = self.idtab[key] = len(self.idtab) + 1
        return i
    def uf(self, name, *sorts):
        k = (name, tuple(str(s) for s in sorts))
        if k not in self.unint: self.unint[k] = z3.Function(name, *sorts)
        return self.unint[k]

    # ---------------------------------------------------------------- memory
    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None: raise Unsupported('no object %s' % oid)
        return o
    def wobj(self, st, oid):
        o = st.mem[oid]
        if oid not in st.own:
            o = o.clone(); st.mem[oid] = o; st.own.add(oid)
        return o
    def alloc(self, st, key, name, size, kind, init):
        oid = self.newid(key)
        if oid in st.mem and kind != 'global':
            n = 1
            while True:
                oid = self.newid((key, n))
                if oid not in st.mem: break
                if kind == 'stack' and not st.mem[oid].alive: break
                n += 1
        o = Obj(oid, name, size, kind, init)
        st.mem[oid] = o; st.own.add(oid)
        return oid
    def globptr(self, st, name, off=0):
        if name in self.prog.aliases:
            v = self.prog.aliases[name]
            if v[0] == 'g': return self.globptr(st, v[1], v[2] + off)
        if name in self.prog.funcs or (name not in self.prog.globals):
            return FnPtr(name)
        oid = self.newid(('g', name))
        if oid not in st.mem:
            g = self.prog.globals[name]
            o = Obj(oid, name, g['size'], 'global', 'sym:' + name)
            if 'init' in g:
                o.init = 'zero'
                self.initcells(st, o, 0, g['init'], g['type'])
            if g['const']: o.const = True
            st.mem[oid] = o
            init = self.prog.dyninit.get(name)
            if init is not None: self.dyn_init(st, oid, name, init)
        return Ptr(oid, off)
    def dyn_init(self, st, oid, name, init):
        """value of a global after its dynamic initialiser has run"""
        if name in self.dyncache:
            for k, o in self.dyncache[name].items():
                if k == oid or k not in st.mem: st.mem[k] = o
            return
        self.dyncache[name] = {}
        s = State(); s.mem[oid] = st.mem[oid]
        fn = self.prog.funcs[init]; fn.analyse()
        snap = self.snapshot_res(); ns, ld, qd, dn = self.no_summary, self.loopdepth, self.qdepth, self.dynname
        try:
            self.dynname = name
            self.no_summary = True; self.loopdepth = 1; self.qdepth = 0
            self.enter(s, None, None, fn, [])
            done = self.run([s], None)
            if len(done) != 1 or done[0][0].pc: raise Unsupported('dynamic initialiser')
            m = {k: o for k, o in done[0][0].mem.items() if o.kind != 'stack'}
            self.dyncache[name] = m
            for k, o in m.items():
                if k == oid or k not in st.mem: st.mem[k] = o
        except Unsupported as e:
            if self.opt.get('debug'): print('dyn init', name, e)
            self.restore_res(snap)
            o = Obj(oid, name, self.prog.globals[name]['size'], 'global', 'sym:' + name)
            st.mem[oid] = o; self.dyncache[name] = {oid: o}
            self.res.assumed.add('global with unmodelled dynamic initialiser: ' + name)
        finally:
            self.no_summary, self.loopdepth, self.qdepth, self.dynname = ns, ld, qd, dn
    def initcells(self, st, o, off, c, ty):
        k = c[0]
        if k in ('z', 'null', 'u') and ty[0] in '{[<': return
        if ty[0] in '{[<':
            if k != 'agg': raise Unsupported('initializer %s' % k)
            for (fo, ft), e in zip(fields(ty), c[2]): self.initcells(st, o, off + fo, e, ft)
            return
        if k in ('z', 'u'): return
        v = self.const(st, c)
        if ty == 'i1': v = int(v)
        if k == 'null': return
        o.cells[off] = (tysize(ty), v)
    def const(self, st, c):
        k = c[0]
        if k == 'i': return bool(c[2]) if c[1] == 1 else c[2]
        if k == 'f':
            d = struct.unpack('<d', struct.pack('<Q', c[2]))[0]
            if d != d or d in (float('inf'), float('-inf')): return z3.Const('fpspecial_%x' % c[2], z3.RealSort())
            return Fraction(d)
        if k == 'null': return NULL
        if k == 'g': return self.globptr(st, c[1], c[2])
        if k == 'u': return self.undef(c[1])
        if k == 'z': return self.zero(c[1])
        if k == 'agg': return [self.const(st, e) for e in c[2]]
        if k == 'ce':
            op, ty, ops = c[1], c[2], c[3]
            if op in ('ptrtoint', 'inttoptr', 'bitcast'): return self.const(st, ops[0])
            if op == 'sub' or op == 'add' or op=='trunc':
                raise Unsupported('constexpr ' + op)
            raise Unsupported('constexpr ' + op)
        if k == 'md' or k == 'asm': return None
        raise Unsupported('const ' + k)
    def undef(self, ty):
        if ty[0] in '{[<': return [self.undef(t) for _, t in fields(ty)]
        if ty == 'i1': return False
        if ty[0] == 'i': return self.fresh('undef', int(ty[1:]))
        if ty in ('f64', 'f32'): return self.fresh('undef', z3.RealSort())
        if ty == 'f80': return None
        return Ptr(None, self.fresh('undefp', 64))
    def zero(self, ty):
        if ty[0] in '{[<': return [self.zero(t) for _, t in fields(ty)]
        if ty == 'i1': return False
        if ty[0] == 'i': return 0
        if ty in ('f64', 'f32'): return Fraction(0)
        if ty == 'f80': return Fraction(0)
        return NULL
    # The address of an object where it is stored as an integer: objects lie at distinct addresses far apart from each other (the
    # order of the addresses of different objects remains unknown, see ptrcmp)
    def objaddr(self, oid):
        return z3.BitVecVal((oid + 1) << 36, 64)
    def int2ptr(self, st, p):
        """a pointer read back from an integer"""
        if not isinstance(p, Ptr) or p.obj is not None: return p
        off = p.off
        if is_z3(off):
            if z3.is_app(off) and off.decl().kind() == z3.Z3_OP_ITE:
                a, b = Ptr(None, off.arg(1)), Ptr(None, off.arg(2))
                a2, b2 = self.int2ptr(st, a), self.int2ptr(st, b)
                if a2 is a and b2 is b: return p
                return PIte(off.arg(0), a2, b2)
            if not z3.is_bv_value(off):
                c, t = self.lin(off)
                off = c; 
                if signed(off & M64, 64) < 1 << 36: return p
                oid = (off >> 36) - 1; d = off & ((1 << 36) - 1)
                if oid not in st.mem: return p
                return Ptr(oid, z3.simplify(p.off - z3.BitVecVal((oid + 1) << 36, 64)))
            off = off.as_long()
        off &= M64
        if off < 1 << 36: return Ptr(None, off)
        oid = (off >> 36) - 1; d = off & ((1 << 36) - 1)
        if d >> 35: oid += 1; d -= 1 << 36      # before the start of the object
        if oid not in st.mem: return p
        return Ptr(oid, d)
    def ptr2int(self, p):
        if isinstance(p, Ptr):
            if p.obj is None: return p.off
            return z3.simplify(self.objaddr(p.obj) + bv(p.off, 64)) if not (isinstance(p.off, int) and p.off == 0) else self.objaddr(p.obj)
        if isinstance(p, FnPtr): return z3.BitVec('fn_' + p.name, 64)
        if isinstance(p, PIte): return z3.If(p.c, bv(self.ptr2int(p.a), 64), bv(self.ptr2int(p.b), 64))
        return p
    def toint(self, v, w):
        """coerce a loaded/stored value to an integer of w bits"""
        if is_ptr(v): return v if w == 64 else Unsupported
        return v

    def default(self, o, off, n, ty):
        """value of never-written bytes"""
        if o.init == 'zero': return self.zero(ty) if ty != 'i1' else 0
        if o.init.startswith('sym:'):
            nm = '%s@%d' % (o.init[4:], off)
            if ty in ('f64', 'f32'): return z3.Real(nm + ':r')
            if ty == 'ptr': return Ptr(None, z3.BitVec(nm + ':8', 64))
            return z3.BitVec('%s:%d' % (nm, n), 8 * n)
        # undef
        if ty in ('f64', 'f32'): return self.fresh('undefm', z3.RealSort())
        if ty == 'ptr': return Ptr(None, self.fresh('undefm', 64))
        return self.fresh('undefm', 8 * n)
    def conv(self, v, n, ty):
        """reinterpret a cell value of n bytes as type ty"""
        if ty == 'ptr':
            if is_ptr(v): return v
            return Ptr(None, v)
        if ty in ('f64', 'f32'):
            if frac(v): return v
            if is_z3(v) and z3.is_real(v): return v
            if isinstance(v, int):
                d = struct.unpack('<d', struct.pack('<Q', v))[0] if n == 8 else struct.unpack('<f', struct.pack('<I', v))[0]
                if d != d or abs(d) == float('inf'): raise Unsupported('special fp')
                return Fraction(d)
            return self.uf('bits2real%d' % n, z3.BitVecSort(8 * n), z3.RealSort())(v)
        # integer
        if is_ptr(v): return v
        if frac(v):
            if n == 8: return struct.unpack('<Q', struct.pack('<d', float(v)))[0]
            return struct.unpack('<I', struct.pack('<f', float(v)))[0]
        if is_z3(v) and z3.is_real(v): return v      # kept as is; moved around only
        return v
    def cellread(self, st, o, off, n, ty):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            return self.conv(v, n, ty)
        ov = [(k, c) for k, c in o.cells.items() if k < off + n and k + c[0] > off]
        if not ov:
            v = self.default(o, off, n, ty)
            if o.init != 'zero':
                o = self.wobj(st, o.id); o.cells[off] = (n, v)
            return v
        if ty == 'ptr' or ty[0] == 'f':
            iv = self.cellread(st, o, off, n, 'i%d' % (8 * n))
            return self.conv(iv, n, ty)
        # assemble from bytes
        parts = []; pos = off
        ov.sort()
        while pos < off + n:
            hit = None
            for k, c in ov:
                if k <= pos < k + c[0]: hit = (k, c); break
            if hit is None:
                nxt = min([k for k, c in ov if k > pos] + [off + n])
                ln = nxt - pos
                parts.append((ln, self.cellread(st, self.getobj(st, o.id), pos, ln, 'i%d' % (8 * ln)))); pos = nxt
            else:
                k, c = hit; v = c[1]
                end = min(k + c[0], off + n); ln = end - pos
                if is_ptr(v): v = self.ptr2int(v)
                if frac(v) or (is_z3(v) and z3.is_real(v)): 
                    v = self.conv(v, c[0], 'i64')
                    if not isinstance(v, int): raise Unsupported('partial read of fp cell')
                lo = (pos - k) * 8
                if isinstance(v, int): pv = (v >> lo) & ((1 << (8 * ln)) - 1)
                else: pv = v if ln == c[0] else z3.Extract(lo + 8 * ln - 1, lo, v)
                parts.append((ln, pv)); pos = end
        if all(isinstance(p, int) for _, p in parts):
            r = 0; sh = 0
            for ln, p in parts: r |= p << sh; sh += 8 * ln
            return r
        es = [bv(p, 8 * ln) for ln, p in parts]
        return es[0] if len(es) == 1 else z3.Concat(*es[::-1])
    def cellwrite(self, st, o, off, n, v):
        """o must be writable"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, v); return
        for k, c in list(o.cells.items()):
            if k < off + n and k + c[0] > off:
                del o.cells[k]
                cv = c[1]
                def piece(lo, ln):
                    x = cv
                    if is_ptr(x): x = self.ptr2int(x)
                    if frac(x): x = self.conv(x, c[0], 'i64')
                    if is_z3(x) and z3.is_real(x): raise Unsupported('partial overwrite of fp cell')
                    if isinstance(x, int): return (x >> (8 * lo)) & ((1 << (8 * ln)) - 1)
                    return z3.Extract(8 * (lo + ln) - 1, 8 * lo, x)
                if k < off: o.cells[k] = (off - k, piece(0, off - k))
                if k + c[0] > off + n: o.cells[off + n] = (k + c[0] - off - n, piece(off + n - k, k + c[0] - off - n))
        o.cells[off] = (n, v)

    def lin(self, e):
        """linear decomposition of a 64-bit term: (const, {id:(term,coef)})"""
        if isinstance(e, int): return (signed(e & M64, 64), {})
        out = {}; const = 0
        st = [(e, 1)]
        while st:
            x, k = st.pop()
            if z3.is_bv_value(x): const += k * x.as_signed_long(); continue
            d = x.decl().kind()
            if d == z3.Z3_OP_BADD:
                for c in x.children(): st.append((c, k))
            elif d == z3.Z3_OP_BSUB:
                ch = x.children(); st.append((ch[0], k))
                for c in ch[1:]: st.append((c, -k))
            elif d == z3.Z3_OP_BNEG: st.append((x.arg(0), -k))
            elif d == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(0)): st.append((x.arg(1), k * x.arg(0).as_signed_long()))
            elif d == z3.Z3_OP_BMUL and x.num_args() == 2 and z3.is_bv_value(x.arg(1)): st.append((x.arg(0), k * x.arg(1).as_signed_long()))
            elif d == z3.Z3_OP_BSHL and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() < 40: st.append((x.arg(0), k << x.arg(1).as_long()))
            else:
                i = x.get_id()
                if i in out: out[i] = (x, out[i][1] + k)
                else: out[i] = (x, k)
        return (const, {i: t for i, t in out.items() if t[1] != 0})
    def unlin(self, c, terms):
        r = None
        for t, k in terms.values():
            e = t if k == 1 else t * z3.BitVecVal(k, 64)
            r = e if r is None else r + e
        if r is None: return c & M64
        if c: r = r + z3.BitVecVal(c, 64)
        return r
    def divlin(self, e, s):
        """exact division of a 64-bit linear term by s>0; None if not syntactically exact"""
        c, t = self.lin(e)
        if c % s: return None
        o = {}
        for i, (x, k) in t.items():
            if k % s: return None
            o[i] = (x, k // s)
        return self.unlin(c // s, o)
    def offadd(self, off, d):
        if isinstance(off, int) and isinstance(d, int): return (off + d)
        if isinstance(d, int) and d == 0: return off
        if isinstance(off, int) and off == 0: return d
        e = bv(off & M64 if isinstance(off, int) else off, 64) + bv(d & M64 if isinstance(d, int) else d, 64)
        c, t = self.lin(e)
        r = self.unlin(c, t)
        return signed(r, 64) if isinstance(r, int) else r

    def violate_safety(self, st, what, cond):
        """cond: the unsafe condition, known satisfiable or unknown"""
        self.res.safety.append((what, self.where(st)))
    def where(self, st):
        return ' < '.join(f.fn.name for f in reversed(st.frames[-4:]))
    def inbounds(self, st, o, off, n):
        """memory-safety obligation; afterwards the in-bounds fact is assumed"""
        if not o.alive:
            self.oblig(st, False, 'memory safety: use of dead object %s' % o.name, safety=True); raise PathEnd('dead')
        if o.size is None: return
        if isinstance(off, int) and isinstance(o.size, int):
            if 0 <= off and off + n <= o.size: return
            self.oblig(st, False, 'memory safety: access [%d,%d) outside %s of size %d' % (off, off + n, o.name, o.size), safety=True)
            raise PathEnd('oob')
        if self.qdepth: return
        e = bv(off & M64 if isinstance(off, int) else off, 64); sz = bv(o.size, 64)
        c = simpb(z3.And(z3.ULE(e, sz), z3.ULE(z3.BitVecVal(n, 64), sz - e)))
        if c is True: return
        if self.oblig(st, c, 'memory safety: access within %s' % o.name, safety=True): return
        self.assume(st, c)

    # pointers with symbolic choice: fork
    def resolve(self, st, p):
        """-> Ptr or FnPtr; may raise Fork"""
        while isinstance(p, PIte):
            c = simpb(p.c)
            if c is True: p = p.a; continue
            if c is False: p = p.b; continue
            ft = self.feasible(st, [c]); 
            if not ft: p = p.b; continue
            ff = self.feasible(st, [b_not(c)])
            if not ff: p = p.a; continue
            raise Fork([c, b_not(c)])
        if isinstance(p, Ptr) and p.obj is None:
            q = self.int2ptr(st, p)
            if q is not p: return self.resolve(st, q) if isinstance(q, PIte) else q
        return p

    def enum_offsets(self, st, off, limit=40):
        """all feasible values of a symbolic offset; None if more than limit"""
        vals = []
        extra = []
        s = z3.Solver(); s.set('timeout', 5000); s.set('random_seed', 1)
        s.add([zb(c) for c in st.pc if c is not True and not self.has_quant(c)])
        while True:
            t0 = time.time(); r = str(s.check()); self.res.queries += 1; self.res.solver_time += time.time() - t0
            if r == 'unsat': return sorted(vals)
            if r != 'sat': return None
            v = s.model().eval(off, model_completion=True).as_long()
            vals.append(signed(v, 64))
            if len(vals) > limit: return None
            s.add(off != z3.BitVecVal(v, 64))

    def arrsetup(self, st, o, stride):
        o = self.wobj(st, o.id)
        o.arr = (stride, {})
        # migrate concrete cells
        cells = o.cells; o.cells = {}
        for off, (n, v) in sorted(cells.items()):
            self.arrwrite(st, o, off, n, v)
        return o
    def arrget(self, o, r, n, real, st):
        """z3 array for residue r"""
        a = o.arr[1].get(r)
        if a is not None:
            if a[0] != n or a[1] != real: raise Unsupported('array %s residue %d accessed with different types' % (o.name, r))
            return a[2]
        for rr, x in o.arr[1].items():
            if rr < r + n and r < rr + x[0]: raise Unsupported('array %s overlapping residues' % o.name)
        sort = z3.RealSort() if real else z3.BitVecSort(8 * n)
        if o.init == 'zero': z = z3.K(z3.BitVecSort(64), z3.RealVal(0) if real else z3.BitVecVal(0, 8 * n))
        else:
            nm = o.init[4:] if o.init.startswith('sym:') else 'undefarr_%d' % o.id
            z = z3.Array('%s#%d:%d%s' % (nm, r, n, 'r' if real else ''), z3.BitVecSort(64), sort)
        o2 = self.wobj(st, o.id)
        o2.arr[1][r] = (n, real, z)
        return z
    def arridx(self, o, off, n):
        s = o.arr[0]
        c, t = self.lin(off)
        r = c % s
        for x, k in t.values():
            if k % s: raise Unsupported('array %s: offset not a multiple of stride %d' % (o.name, s))
        if r + n > s: raise Unsupported('array %s: access straddles elements' % o.name)
        idx = self.unlin((c - r) // s, {i: (x, k // s) for i, (x, k) in t.items()})
        return idx, r
    def arrread(self, st, o, off, n, ty):
        idx, r = self.arridx(o, off, n)
        a = o.arr[1].get(r)
        real = ty in ('f64', 'f32')
        if a is not None and a[0] == n: real = a[1]
        arr = self.arrget(o, r, n, real, st)
        return self.conv(self.sel(arr, bv(idx & M64 if isinstance(idx, int) else idx, 64)), n, ty)
    def sel(self, a, i):
        """Select with eager beta reduction: no lambda and no store reaches the solver through a read"""
        key = (a.get_id(), i.get_id())
        r = self.selmemo.get(key)
        if r is None:
            r = (self.sel2(a, i), a, i); self.selmemo[key] = r
        return r[0]
    def sel2(self, a, i):
        if z3.is_K(a): return a.arg(0)
        if z3.is_quantifier(a) and a.is_lambda():
            return z3.substitute_vars(a.body(), i)
        if z3.is_app(a):
            k = a.decl().kind()
            if k == z3.Z3_OP_STORE:
                c, t = self.lin(i - a.arg(1))
                if not t: return a.arg(2) if c == 0 else self.sel(a.arg(0), i)
                return z3.If(i == a.arg(1), a.arg(2), self.sel(a.arg(0), i))
            if k == z3.Z3_OP_ITE: 
                x, y = self.sel(a.arg(1), i), self.sel(a.arg(2), i)
                return x if x.eq(y) else z3.If(a.arg(0), x, y)
        return z3.Select(a, i)
    def arrwrite(self, st, o, off, n, v):
        idx, r = self.arridx(o, off, n)
        if is_ptr(v): v = bv(self.ptr2int(v), 64)
        real = frac(v) or (is_z3(v) and z3.is_real(v))
        a = o.arr[1].get(r)
        if a is not None and a[1] and not real and isinstance(v, int): v = self.conv(v, n, 'f64'); real = True
        arr = self.arrget(o, r, n, real, st)
        o = self.wobj(st, o.id)
        ix = bv(idx & M64 if isinstance(idx, int) else idx, 64)
        o.arr[1][r] = (n, real, z3.Store(arr, ix, rv(v) if real else bv(v, 8 * n)))

    def load(self, st, p, ty):
        if ty[0] in '{[<':
            q = self.resolve(st, p)
            return [self.load(st, Ptr(q.obj, self.offadd(q.off, fo)), ft) for fo, ft in fields(ty)]
        p = self.resolve(st, p)
        if ty == 'i1': 
            v = self.load(st, p, 'i8')
            return (v & 1) != 0 if isinstance(v, int) else z3.Extract(0, 0, v) == 1
        if not isinstance(p, Ptr) or p.obj is None:
            self.badptr(st, p, 'load')
        o = self.getobj(st, p.obj); n = tysize(ty)
        self.inbounds(st, o, p.off, n)
        o = self.getobj(st, p.obj)
        if o.arr is not None: return self.arrread(st, o, p.off, n, ty)
        if isinstance(p.off, int):
            if o.kind == 'global' and o.init.startswith('sym:') and o.name.startswith('_ZTV') and p.off not in o.cells:
                return FnPtr('ext:%s+%d' % (o.name, p.off))
            return self.cellread(st, o, p.off, n, ty)
        return self.symread(st, o, p, n, ty)
    def symread(self, st, o, p, n, ty):
        if isinstance(o.size, int) and (o.cells or o.size <= 1024):
            offs = self.enum_offsets(st, p.off) if not self.qdepth else None
            if offs is None and isinstance(o.size, int):
                c, t = self.lin(p.off)
                import math
                g = 0
                for x, k in t.values(): g = math.gcd(g, abs(k))
                offs = [x for x in range(c % g, o.size - n + 1, g)]
                if len(offs) > 64: offs = None
            if offs is not None:
                if not offs: raise PathEnd('infeasible')
                r = None
                for x in reversed(offs):
                    v = self.cellread(st, self.getobj(st, o.id), x, n, ty)
                    r = v if r is None else self.ite(p.off == z3.BitVecVal(x, 64), v, r, ty)
                return r
        if o.cells: raise Unsupported('symbolic index into object %s' % o.name)
        c, t = self.lin(p.off)
        import math
        g = 0
        for x, k in t.values(): g = math.gcd(g, abs(k))
        o = self.arrsetup(st, o, g)
        return self.arrread(st, o, p.off, n, ty)
    def store(self, st, p, ty, v):
        if ty[0] in '{[<':
            q = self.resolve(st, p)
            for (fo, ft), e in zip(fields(ty), v): self.store(st, Ptr(q.obj, self.offadd(q.off, fo)), ft, e)
            return
        p = self.resolve(st, p)
        if ty == 'i1':
            v = int(v) if isinstance(v, bool) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)); ty = 'i8'
        if not isinstance(p, Ptr) or p.obj is None: self.badptr(st, p, 'store')
        o = self.getobj(st, p.obj); n = tysize(ty)
        if o.const: self.oblig(st, False, 'memory safety: write to constant %s' % o.name, safety=True); raise PathEnd('const')
        self.inbounds(st, o, p.off, n)
        if self.qdepth and o.kind != 'stack': raise Unsupported('write to memory inside a quantified formula')
        o = self.wobj(st, p.obj)
        if o.arr is not None: self.arrwrite(st, o, p.off, n, v); return
        if isinstance(p.off, int): self.cellwrite(st, o, p.off, n, v); return
        if isinstance(o.size, int) and (o.cells or o.size <= 1024):
            offs = self.enum_offsets(st, p.off)
            if offs is not None:
                for x in offs:
                    old = self.cellread(st, self.getobj(st, o.id), x, n, ty)
                    self.cellwrite(st, self.wobj(st, o.id), x, n, self.ite(p.off == z3.BitVecVal(x, 64), v, old, ty))
                return
        if o.cells: raise Unsupported('symbolic index into object %s' % o.name)
        import math
        g = 0
        for x, k in self.lin(p.off)[1].values(): g = math.gcd(g, abs(k))
        o = self.arrsetup(st, o, g)
        self.arrwrite(st, o, p.off, n, v)
    def badptr(self, st, p, what):
        if isinstance(p, Ptr) and p.obj is None:
            if isinstance(p.off, int):
                self.oblig(st, False, 'memory safety: %s through null/invalid pointer %#x in %s' % (what, p.off & M64, st.frames[-1].fn.name), safety=True)
                raise PathEnd('null')
            # symbolic pointer: feasible null?
            raise Unsupported('%s through an unresolved symbolic pointer %s' % (what, p.off))
        raise Unsupported('%s through %r' % (what, p))

    # ---------------------------------------------------------------- ite / merging
    def ite(self, c, a, b, ty=None):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if isinstance(a, list): return [self.ite(c, x, y) for x, y in zip(a, b)]
        if is_ptr(a) or is_ptr(b):
            if not is_ptr(a): a = Ptr(None, a)
            if not is_ptr(b): b = Ptr(None, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int):
                    if a.off == b.off: return a
                elif is_z3(a.off) and is_z3(b.off) and a.off.eq(b.off): return a
                g = None
                if self.nomix and a.obj in self.nomix:
                    if not self.mix: raise Unsupported('array positions not merged')
                    g = self.nomix[a.obj]
                if g is None:
                    import math
                    g = 0
                    for off in (a.off, b.off):
                        cc, t = self.lin(off); g = math.gcd(g, abs(cc))
                        for _, k in t.values(): g = math.gcd(g, abs(k))
                if g > 1 and (is_z3(a.off) or is_z3(b.off)):
                    x, y = self.divlin(a.off if not isinstance(a.off, int) else z3.BitVecVal(a.off, 64), g), self.divlin(b.off if not isinstance(b.off, int) else z3.BitVecVal(b.off, 64), g)
                    if x is None or y is None: raise Unsupported('array positions not merged')
                    return Ptr(a.obj, z3.BitVecVal(g, 64) * z3.If(c, bv(x & M64 if isinstance(x, int) else x, 64), bv(y & M64 if isinstance(y, int) else y, 64)))
                return Ptr(a.obj, z3.If(c, bv(a.off & M64 if isinstance(a.off, int) else a.off, 64), bv(b.off & M64 if isinstance(b.off, int) else b.off, 64)))
            if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name: return a
            return PIte(c, a, b)
        if isinstance(a, bool) or isinstance(b, bool) or (is_z3(a) and z3.is_bool(a)):
            if isinstance(a, bool) and isinstance(b, bool):
                if a == b: return a
                return c if a else b_not(c)
            if isinstance(a, int) and not isinstance(a, bool): a = a != 0
            if isinstance(b, int) and not isinstance(b, bool): b = b != 0
            return z3.If(c, zb(a), zb(b))
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return a
            if ty is None or not ty.startswith('i'): raise Unsupported('ite of untyped ints')
            w = int(ty[1:]); return z3.If(c, bv(a, w), bv(b, w))
        if frac(a) and frac(b):
            if a == b: return a
            return z3.If(c, rv(a), rv(b))
        if frac(a): a = rv(a)
        if frac(b): b = rv(b)
        if isinstance(a, int):
            if z3.is_real(b): a = rv(self.conv(a, 8, 'f64'))
            else: a = bv(a, b.size())
        if isinstance(b, int):
            if z3.is_real(a): b = rv(self.conv(b, 8, 'f64'))
            else: b = bv(b, a.size())
        if a.eq(b): return a
        return z3.If(c, a, b)
    def same(self, a, b):
        if a is b: return True
        if type(a) is not type(b): return False
        if isinstance(a, Ptr): return a.obj == b.obj and self.same(a.off, b.off)
        if isinstance(a, FnPtr): return a.name == b.name
        if isinstance(a, PIte): return self.same(a.c, b.c) and self.same(a.a, b.a) and self.same(a.b, b.b)
        if isinstance(a, list): return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if is_z3(a): return a.eq(b)
        return a == b
    def mergev(self, c, a, b, n=None):
        if self.same(a, b): return a
        return self.ite(c, a, b, 'i%d' % (8 * n) if n else None)

    def sig(self, S):
        """states whose array positions differ are never merged"""
        mem = S.mem; out = []
        def nm(v):
            o = mem.get(v.obj)
            if o is None: return (v.obj, 0)
            if o.arr is not None or not isinstance(o.size, int): return (v.obj, v.off if isinstance(v.off, int) else v.off.get_id())
            return None
        for f in S.frames:
            for r, v in f.regs.items():
                if isinstance(v, Ptr) and v.obj is not None:
                    x = nm(v)
                    if x is not None: out.append((0, r, x))
        for oid, o in mem.items():
            for off, c in o.cells.items():
                v = c[1]
                if isinstance(v, Ptr) and v.obj is not None:
                    x = nm(v)
                    if x is not None: out.append((oid, off, x))
        return frozenset(out)
    def nomerge(self, k):
        self.mergefail[k] = self.mergefail.get(k, 0) + 1
        return None
    def merge(self, A, B):
        """merge two states at the same program point; None if impossible"""
        if A.exc is not B.exc and A.exc != B.exc: return self.nomerge(1)
        if len(A.frames) != len(B.frames): return self.nomerge(2)
        if A.ghost != B.ghost: return self.nomerge(3)
        for fa, fb in zip(A.frames, B.frames):
            if fa.fn is not fb.fn or fa.block != fb.block or fa.idx != fb.idx: return self.nomerge(4)
            rb_ = fb.regs
            for r, va in fa.regs.items():
                if isinstance(va, Ptr):
                    vb = rb_.get(r)
                    if vb is None or vb is va: continue
                    if not self.mix and isinstance(vb, Ptr) and va.obj == vb.obj and va.obj is not None and not self.same(va.off, vb.off):
                        o = A.mem.get(va.obj)
                        if o is not None and (o.arr is not None or not isinstance(o.size, int)): return self.nomerge(5)
        i = 0; m = min(len(A.pc), len(B.pc))
        while i < m and A.pc[i] is B.pc[i] or (i < m and zb(A.pc[i]).eq(zb(B.pc[i]))): i += 1
        ra, rb = A.pc[i:], B.pc[i:]
        if not ra and not rb: return self.nomerge(6)
        ca = z3.And(*[zb(x) for x in ra]) if len(ra) > 1 else (zb(ra[0]) if ra else TRUE)
        cb = z3.And(*[zb(x) for x in rb]) if len(rb) > 1 else (zb(rb[0]) if rb else TRUE)
        if z3.is_true(ca) or z3.is_true(cb): 
            return self.nomerge(7)
        if self.has_quant(ca) or self.has_quant(cb): return self.nomerge(8)
        if A.inputs != B.inputs:
            # inputs must be comparable: one a prefix of the other
            la, lb = A.inputs, B.inputs
            if len(la) > len(lb): la, lb = lb, la
            if lb[:len(la)] != la: return self.nomerge(9)
        if A.ghost != B.ghost: return self.nomerge(10)
        # choose the shorter discriminator when the conditions are complementary
        c = ca
        if len(ra) == 1 and len(rb) == 1 and z3.is_not(ra[0]) and ra[0].arg(0).eq(rb[0]):
            # ite on the positive form
            A, B = B, A; c = rb[0]; ra, rb = rb, ra; ca, cb = cb, ca
        elif len(ra) > 1:
            # drop what is implied syntactically: use the first condition if it is the negation of B's first
            if rb and zb(rb[0]).eq(zb(b_not(ra[0]))): c = zb(ra[0])
        try:
            N = State.__new__(State)
            N.frames = []
            # positions in an array of symbolic extent are kept apart (iterators)
            self.nomix = {oid: (o.arr[0] if o.arr is not None else None) for oid, o in A.mem.items() if o.arr is not None or not isinstance(o.size, int)}
            for fa, fb in zip(A.frames, B.frames):
                if fa.fn is not fb.fn or fa.block != fb.block or fa.idx != fb.idx: return self.nomerge(11)
                f = fa.clone()
                regs = {}
                for r, va in fa.regs.items():
                    if r in fb.regs:
                        vb = fb.regs[r]
                        regs[r] = va if va is vb else self.mergereg(c, va, vb, fa.fn, r)
                f.regs = regs
                f.allocas = fa.allocas if len(fa.allocas) >= len(fb.allocas) else fb.allocas
                N.frames.append(f)
            N.mem = {}; N.own = set()
            A.own = set(); B.own = set()
            # a global touched on one side only still has its initial value on the other
            for X, Y in ((A, B), (B, A)):
                for oid in [k for k, o in X.mem.items() if o.kind == 'global' and k not in Y.mem and not o.const]:
                    if oid not in Y.mem: self.globptr(Y, X.mem[oid].name)
            for oid, oa in A.mem.items():
                ob = B.mem.get(oid)
                if ob is None or ob is oa: N.mem[oid] = oa; continue
                if oa.alive != ob.alive:
                    if oa.kind == 'stack': 
                        continue
                    return self.nomerge(12)
                if not oa.alive: N.mem[oid] = oa; continue
                if not self.same(oa.size, ob.size):
                    if oa.kind == 'stack': return self.nomerge(13)
                    return self.nomerge(14)
                o = oa.clone()
                if (oa.arr is None) != (ob.arr is None): return self.nomerge(15)
                if oa.arr is not None:
                    if oa.arr[0] != ob.arr[0]: return self.nomerge(16)
                    for r in set(oa.arr[1]) | set(ob.arr[1]):
                        x = oa.arr[1].get(r); y = ob.arr[1].get(r)
                        if x is None: x = (y[0], y[1], self.arrget(oa, r, y[0], y[1], A))
                        if y is None: y = (x[0], x[1], self.arrget(ob, r, x[0], x[1], B))
                        if x[:2] != y[:2]: return self.nomerge(17)
                        o.arr[1][r] = x if x[2].eq(y[2]) else (x[0], x[1], z3.If(c, x[2], y[2]))
                keys = set(oa.cells) | set(ob.cells)
                for k in sorted(keys):
                    x = oa.cells.get(k); y = ob.cells.get(k)
                    if x is not None and y is not None and x[0] == y[0]:
                        if x is y or x[1] is y[1]: continue
                        o.cells[k] = (x[0], self.mergev(c, x[1], y[1], x[0])); continue
                    n = (x or y)[0]
                    if x is not None and y is not None: n = max(x[0], y[0])
                    if x is None or x[0] != n:
                        xv = self.peek(A, oa, k, n, y if y and y[0] == n else x)
                    else: xv = x[1]
                    if y is None or y[0] != n:
                        yv = self.peek(B, ob, k, n, x if x and x[0] == n else y)
                    else: yv = y[1]
                    if xv is None: 
                        # uninitialised in one branch: keep the written value (stack garbage otherwise)
                        o.cells.pop(k, None)
                        if oa.kind == 'stack' or oa.init == 'undef': self.cellwrite(N, o, k, n, yv); continue
                        return self.nomerge(18)
                    if yv is None:
                        if oa.kind == 'stack' or oa.init == 'undef': continue
                        return self.nomerge(19)
                    self.cellwrite(N, o, k, n, self.mergev(c, xv, yv, n))
                N.mem[oid] = o
            for oid, ob in B.mem.items():
                if oid not in A.mem: N.mem[oid] = ob
        except Unsupported:
            return self.nomerge(20)
        finally: self.nomix = None
        N.pc = A.pc[:i] + (z3.Or(ca, cb) if not zb(b_not(ca)).eq(cb) and not zb(b_not(cb)).eq(ca) else TRUE,)
        if z3.is_true(N.pc[-1]): N.pc = N.pc[:-1]
        N.inputs = A.inputs if len(A.inputs) >= len(B.inputs) else B.inputs
        N.inpcount = {k: max(A.inpcount.get(k, 0), B.inpcount.get(k, 0)) for k in set(A.inpcount) | set(B.inpcount)}
        N.exc = A.exc; N.ghost = dict(A.ghost); N.trace = A.trace
        return N
    def peek(self, S, o, k, n, like):
        """value of bytes not present in the cell map of o (for merging); None if undefined"""
        ov = [1 for kk, c in o.cells.items() if kk < k + n and kk + c[0] > k]
        v = like[1]
        ty = 'ptr' if is_ptr(v) else 'f64' if (frac(v) or (is_z3(v) and z3.is_real(v))) else 'i%d' % (8 * n)
        if ov:
            if ty != 'i%d' % (8 * n): ty = 'i%d' % (8 * n)
            return self.cellread(S, o, k, n, ty)
        if o.init == 'undef': return None
        return self.default(o, k, n, ty)
    def mergereg(self, c, a, b, fn, r):
        if self.same(a, b): return a
        if isinstance(a, int) and not isinstance(a, bool) and isinstance(b, int) and not isinstance(b, bool):
            w = self.regwidth(fn, r)
            return z3.If(c, bv(a, w), bv(b, w))
        return self.ite(c, a, b)
    def regwidth(self, fn, r):
        w = getattr(fn, 'regw', None)
        if w is None:
            w = {}
            for p in fn.params:
                if p[1][0] == 'i': w[p[0]] = int(p[1][1:])
            for b in fn.blocks:
                for i in b:
                    t = None
                    if i[0] in ('phi', 'load', 'call', 'invoke', 'select'): t = i[2]
                    elif i[0] == 'bin': t = i[3]
                    elif i[0] == 'cast': t = i[4]
                    elif i[0] == 'atomicrmw': t = i[3]
                    elif i[0] == 'fneg': t = i[2]
                    if t and t[0] == 'i': w[i[1]] = int(t[1:])
            fn.regw = w
        if r not in w: raise Unsupported('merge of untyped register')
        return w[r]

    # ---------------------------------------------------------------- obligations
    def oblig(self, st, cond, label, safety=False):
        if cond is not True and cond is not False: cond = simpb(cond)
        if cond is True:
            self.res.obl.append((label, 'discharged', 'simplifier', 0.0, None)); return
        t0 = time.time()
        if self.qdepth: raise Unsupported('obligation under quantifier')
        nc = b_not(cond)
        want = True
        ex = [nc] if nc is not True else []
        r, m = self.check(st.pc, ex, full=False, timeout=4000)
        if r != 'unsat' and any(self.has_quant(c) for c in st.pc + tuple(ex) if c is not True): r, m = self.check(st.pc, ex, full=True)
        if r != 'unsat': r, m = self.check(st.pc, ex, full=True, want_model=True)
        dt = time.time() - t0
        if r == 'unsat': self.res.obl.append((label, 'discharged', 'z3', dt, None)); return True
        elif r == 'sat':
            # small inputs make counterexamples that can be replayed
            if m is not None and self.nsmall < 12:
                self.nsmall += 1
                xs = [v for _, v in st.inputs if is_z3(v) and z3.is_bv(v) and v.size() >= 32 and not z3.is_bv_value(v)]
                for lim in (3, 60):
                    if not xs: break
                    r2, m2 = self.check(st.pc, ex + [z3.And(x >= -lim, x <= lim) for x in xs], full=True, want_model=True, timeout=2000)
                    if r2 == 'sat': m = m2; break
            self.res.obl.append((label, 'refuted', 'z3', dt, self.model_inputs(st, m), self.where(st), safety))
        else: self.res.obl.append((label, 'undecided', 'z3', dt, None, self.where(st), safety))
        return
    def model_inputs(self, st, m):
        out = []
        for name, v in st.inputs:
            if isinstance(v, tuple):
                a, n = v
                if m is None or m == {}: continue
                n = n if isinstance(n, int) else m.eval(n, model_completion=True).as_long()
                for i in range(min(n, 256)):
                    e = m.eval(z3.Select(a, z3.BitVecVal(i, 64)), model_completion=True)
                    if z3.is_bv_value(e): out.append(('%s[%d]' % (name, i), str(e.as_long())))
                    elif z3.is_rational_value(e): out.append(('%s[%d]' % (name, i), repr(float(Fraction(e.numerator_as_long(), e.denominator_as_long())))))
                continue
            if not is_z3(v): out.append((name, str(v))); continue
            e = m.eval(v, model_completion=True) if m != {} and m is not None else None
            if e is None:
                out.append((name, '0')); continue
            if z3.is_bool(e): out.append((name, '1' if z3.is_true(e) else '0'))
            elif z3.is_bv_value(e): out.append((name, str(e.as_long())))
            elif z3.is_rational_value(e): out.append((name, repr(float(Fraction(e.numerator_as_long(), e.denominator_as_long())))))
            elif z3.is_algebraic_value(e): out.append((name, repr(float(Fraction(e.approx(20).numerator_as_long(), e.approx(20).denominator_as_long())))))
            else: out.append((name, '0'))
        return out

class Fork(Exception):
    """re-execute the current instruction under each condition"""
    def __init__(self, conds): self.conds = conds
