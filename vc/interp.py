"""IR interpreter / VC generator on top of engine.Engine."""
import heapq, time, re, struct, math, os, sys
from fractions import Fraction
import z3
from engine import *

PURE_UF = {'sqrt','sin','cos','tan','asin','acos','atan','sinh','cosh','tanh','exp','log','log10','pow','atan2','fmod','remainder','hypot','cbrt','exp2','log2','expm1','log1p'}

def has_bv_ite(c):
    seen = set(); todo = [c]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and z3.is_bv(x): return True
            todo += x.children()
    return False

class Interp(Engine):
    # ------------------------------------------------------------ operand evaluation
    def val(self, st, o):
        if o[0] == 'r':
            try: return st.frames[-1].regs[o[1]]
            except KeyError: raise Unsupported('undefined register (merged away)')
        return self.const(st, o)

    # ------------------------------------------------------------ scheduling
    def run(self, states, watch=None):
        """run to completion; returns list of finished (state, retval)"""
        saved = self.watch; self.watch = watch
        done = []
        heap = []; pend = {}; tick = 0
        def push(s):
            nonlocal tick
            k = s.key()
            l = pend.get(k)
            if l is None:
                pend[k] = [(None, s)]; tick += 1; heapq.heappush(heap, (k, tick)); return
            if len(l) == 1 and l[0][0] is None: l[0] = (self.sig(l[0][1]), l[0][1])
            g = self.sig(s)
            for i, (h, t) in enumerate(l):
                if h != g: continue
                n = self.merge(t, s)
                if n is not None: l[i] = (g, n); return
            if len(l) >= 3:
                self.mix = True
                try:
                    for i, (h, t) in enumerate(l):
                        n = self.merge(t, s)
                        if n is not None: l[i] = (self.sig(n), n); return
                finally: self.mix = False
            l.append((g, s))
            if len(l) > 3000: raise Unsupported('too many states')
        try:
            for s in states: push(s)
            while heap:
                k, _ = heapq.heappop(heap)
                l = pend.pop(k)
                for _, s in l:
                    if self.deadline and time.time() > self.deadline: raise TimeoutError('deadline')
                    for o in self.step(s, done): push(o)
        finally:
            self.watch = saved
        return done

    def step(self, st, done):
        """execute st until the next control transfer; returns successor states"""
        try:
            if st.exc is not None and st.exc[2] == 'fly': return self.unwind(st)
            while True:
                fr = st.frames[-1]
                inst = fr.fn.blocks[fr.block][fr.idx]
                r = self.inst(st, fr, inst, done)
                if r is not None: return r
        except Fork as f:
            out = []
            for i, c in enumerate(f.conds):
                if self.feasible(st, [c]):
                    s = st.fork(); self.assume(s, c); out.append(s)
            # re-execute immediately (same key: do not merge back)
            res = []
            for s in out: res.extend(self.step(s, done))
            return res
        except PathEnd:
            self.res.paths += 1
            return []
        except Unsupported as e:
            self.res.unsupported.append((str(e), self.where(st)))
            if self.qdepth or self.loopdepth: raise
            return []

    def exitwatch(self, st):
        w = self.watch
        return w is not None and len(st.frames) - 1 < w['depth']

    def unwind(self, st):
        while True:
            fr = st.frames.pop()
            self.kill_frame(st, fr)
            if not st.frames:
                if self.watch is not None: self.watch['exits'].append(st); return []
                self.res.escapes.append(st.exc[1]); self.oblig(st, False, 'exception of type %s escapes' % st.exc[1], safety=True)
                self.res.paths += 1
                return []
            if self.exitwatch(st): self.watch['exits'].append(st); return []
            f = st.frames[-1]
            if f.isinv is not None:
                d = f.isinv[1]; f.isinv = None
                st.exc = (st.exc[0], st.exc[1], 'land')
                return self.goto(st, d)
            if f.fn.name.startswith('__nounwind'): pass

    def kill_frame(self, st, fr):
        for oid in fr.allocas:
            o = st.mem.get(oid)
            if o is not None:
                if self.merging_ok: st.mem.pop(oid); st.own.discard(oid)
    merging_ok = True

    def goto(self, st, target):
        fr = st.frames[-1]; fn = fr.fn; prev = fr.block
        w = self.watch
        at = w is not None and len(st.frames) - 1 == w['depth']
        vals = []
        n = 0
        for inst in fn.blocks[target]:
            if inst[0] != 'phi': break
            n += 1
            for b, v in inst[3]:
                if b == prev:
                    vals.append((inst[1], self.val(st, v))); break
        for r, v in vals: fr.regs[r] = v
        inloops = fn.nest.get(target, ())
        prevloops = fn.nest.get(prev, ())
        entering = []
        for h in list(fr.iters):
            if h not in inloops: del fr.iters[h]
        for h in inloops:
            if h not in prevloops or h not in fr.iters:
                if h not in fr.iters: entering.append(h)
                fr.iters[h] = 0
        isback = target in fn.loops and prev in fn.loops[target]
        if isback:
            # inner loops restart
            fr.iters[target] = fr.iters.get(target, 0) + 1
        fr.block = target; fr.idx = n
        if at:
            if target == w['header'] and isback: w['back'].append(st); return []
            if target not in w['blocks']: w['exits'].append(st); return []
        if isback and fr.iters[target] > self.max_unroll:
            if not self.feasible(st, [st.pc[-1]] if st.pc else []): return []
            self.res.incomplete.append('%s: loop unrolled %d times' % (fn.name, self.max_unroll))
            return []
        if isback and fr.iters[target] >= 3 and not self.lastfeasible(st): return []
        if target in entering and target in fn.loops and self.mode == 'proof' and not self.no_summary and not isback:
            sts = self.split_pite(st)
            if len(sts) == 1 and sts[0] is st:
                r = self.try_summary(st, target)
                return r if r is not None else [st]
            out = []
            for s in sts:
                r = self.try_summary(s, target)
                out.extend(r if r is not None else [s])
            return out
        return [st]
    def split_pite(self, st):
        """case split on every register holding a choice between pointers into different objects"""
        work = [st]; out = []
        while work:
            s = work.pop(); fr = s.frames[-1]; p = None
            for r, v in fr.regs.items():
                if isinstance(v, PIte): p = (r, v); break
            if p is None: out.append(s); continue
            c = p[1].c
            alts = [(c, p[1].a), (b_not(c), p[1].b)]
            ok = [(x, v) for x, v in alts if self.feasible(s, [x])]
            if len(out) + len(work) > 32: return [st]
            for i, (x, v) in enumerate(ok):
                s2 = s.fork()
                if len(ok) > 1: self.assume(s2, x)
                f2 = s2.frames[-1]
                for r2, v2 in list(f2.regs.items()):
                    if isinstance(v2, PIte) and z3.is_expr(v2.c) and v2.c.eq(c): f2.regs[r2] = v2.a if x is c else v2.b
                work.append(s2)
        return out
    def lastfeasible(self, st):
        return True

    # ------------------------------------------------------------ instructions
    def inst(self, st, fr, inst, done):
        op = inst[0]
        m = getattr(self, 'i_' + op, None)
        if m is None: raise Unsupported('instruction ' + op + ' ' + str(inst[2:3]))
        return m(st, fr, inst, done)
    def i_phi(self, st, fr, inst, done):
        raise Unsupported('phi')
    def i_alloca(self, st, fr, inst, done):
        n = self.val(st, inst[3])
        if not isinstance(n, int): raise Unsupported('vla')
        oid = self.alloc(st, ('a', st.key(), inst[1]), '%s#%d' % (fr.fn.name, inst[1]), inst[2] * n, 'stack', 'undef')
        fr.allocas = fr.allocas + (oid,)
        fr.regs[inst[1]] = Ptr(oid, 0); fr.idx += 1
    def i_load(self, st, fr, inst, done):
        v = self.load(st, self.val(st, inst[3]), inst[2])
        if inst[2] != 'i1' and inst[2][0] == 'i' and isinstance(v, (Fraction,)): v = self.conv(v, tysize(inst[2]), inst[2])
        fr.regs[inst[1]] = v; fr.idx += 1
    def i_store(self, st, fr, inst, done):
        self.store(st, self.val(st, inst[4] if len(inst) > 4 else inst[3]), inst[2], self.val(st, inst[3]))
        fr.idx += 1
    def i_gep(self, st, fr, inst, done):
        p = self.val(st, inst[2])
        d = inst[3]
        for o, s in inst[4]:
            v = self.val(st, o)
            if is_ptr(v): v = self.ptr2int(v)
            w = 64
            if not isinstance(v, int):
                w = v.size()
                if w < 64: v = z3.SignExt(64 - w, v)
                d = self.offadd(d, v * s if s != 1 else v)
            else:
                # narrower constants were sign extended by clang
                d = self.offadd(d, signed(v & M64, 64) * s)
        fr.regs[inst[1]] = self.padd(p, d); fr.idx += 1
    def padd(self, p, d):
        if isinstance(d, int) and d == 0: return p
        if isinstance(p, PIte): return PIte(p.c, self.padd(p.a, d), self.padd(p.b, d))
        if isinstance(p, FnPtr): raise Unsupported('arithmetic on function pointer')
        if not is_ptr(p): p = Ptr(None, p)
        return Ptr(p.obj, self.offadd(p.off, d))
    def i_br(self, st, fr, inst, done): return self.goto(st, inst[1])
    def i_cbr(self, st, fr, inst, done):
        c = self.val(st, inst[1])
        if not isinstance(c, bool): c = simpb(c)
        if c is True: return self.goto(st, inst[2])
        if c is False: return self.goto(st, inst[3])
        return self.branch(st, [(c, inst[2]), (b_not(c), inst[3])])
    def branch(self, st, alts):
        out = []
        ok = [(c, t) for c, t in alts if self.feasible(st, [c])]
        for i, (c, t) in enumerate(ok):
            s = st.fork() if i < len(ok) - 1 else st
            if len(ok) < len(alts) and len(ok) == 1: 
                # the only feasible branch: the condition is implied (by the quantifier-free part)
                pass
            else: self.assume(s, c)
            out.append((s, t))
        res = []
        for s, t in out:
            try: res.extend(self.goto(s, t))
            except Unsupported as e:
                self.res.unsupported.append((str(e), self.where(s)))
                if self.qdepth or self.loopdepth: raise
        if not ok: self.res.paths += 1
        return res
    def i_switch(self, st, fr, inst, done):
        v = self.val(st, inst[1])
        alts = []; dflt = True
        for c, t in inst[3]:
            cv = self.const(st, c)
            if isinstance(v, int):
                if v == cv: return self.goto(st, t)
            else:
                alts.append((v == bv(cv, v.size()), t)); dflt = b_and(dflt, v != bv(cv, v.size()))
        if isinstance(v, int): return self.goto(st, inst[2])
        alts.append((dflt, inst[2]))
        return self.branch(st, alts)
    def i_unreachable(self, st, fr, inst, done): raise PathEnd('unreachable')
    def i_ret(self, st, fr, inst, done):
        v = self.val(st, inst[1]) if inst[1] is not None else None
        st.frames.pop()
        self.kill_frame(st, fr)
        if not st.frames:
            self.res.paths += 1
            done.append((st, v)); return []
        f = st.frames[-1]
        if f.dest is not None and v is not None: f.regs[f.dest] = v
        if self.exitwatch(st):
            if f.isinv is None: f.idx += 1
            else:
                # continue after leaving the watch
                raise Unsupported('loop exit through return into invoke')
            self.watch['exits'].append(st); return []
        if f.isinv is not None:
            d = f.isinv[0]; f.isinv = None
            return self.goto(st, d)
        f.idx += 1
        return [st]
    def i_resume(self, st, fr, inst, done):
        v = self.val(st, inst[1])
        p = self.resolve(st, v[0])
        st.exc = (p.obj, st.ghost.get(('ti', p.obj)), 'fly')
        return [st]
    def i_landingpad(self, st, fr, inst, done):
        oid, ti, _ = st.exc
        sel = None
        for iscatch, c in inst[3]:
            if not iscatch: continue
            cv = self.const(st, c)
            if isinstance(cv, Ptr) and cv.obj is None: sel = 1; break
            nm = self.tiname(st, cv)
            if self.derives(ti, nm): sel = self.tid(nm); break
        if sel is None:
            if not inst[2]:
                st.exc = (oid, ti, 'fly'); return [st]
            sel = 0
        st.exc = None
        fr.regs[inst[1]] = [Ptr(oid, 0), sel]; fr.idx += 1
    def tiname(self, st, p):
        if isinstance(p, FnPtr): return p.name
        return self.getobj(st, p.obj).name
    def tid(self, name):
        if name not in self.tids: self.tids[name] = 2 + len(self.tids)
        return self.tids[name]
    def derives(self, ti, base):
        if ti == base: return True
        g = self.prog.globals.get(ti)
        if g is None or 'init' not in g:
            if ti in STD_TI: return STD_TI[ti] is not None and self.derives(STD_TI[ti], base)
            if ti and re.match(r'_ZTI(P|PK)?[a-z]$', ti): return False                        # fundamental types
            return base == '_ZTISt9exception' and ti is not None and ti.startswith('_ZTI')   # library exception types
        refs = []
        def walk(c):
            if c[0] == 'g' and c[1].startswith('_ZTI'): refs.append(c[1])
            elif c[0] == 'agg': [walk(x) for x in c[2]]
        walk(g['init'])
        return any(self.derives(r, base) for r in refs if r != ti)
    def i_extractvalue(self, st, fr, inst, done):
        v = self.val(st, inst[2])
        for i in inst[3]: v = v[i]
        fr.regs[inst[1]] = v; fr.idx += 1
    def i_insertvalue(self, st, fr, inst, done):
        v = self.val(st, inst[3]); x = self.val(st, inst[4])
        def ins(a, ix):
            a = list(a)
            a[ix[0]] = x if len(ix) == 1 else ins(a[ix[0]], ix[1:])
            return a
        fr.regs[inst[1]] = ins(v, inst[5]); fr.idx += 1
    def i_freeze(self, st, fr, inst, done):
        fr.regs[inst[1]] = self.val(st, inst[2]); fr.idx += 1
    def i_select(self, st, fr, inst, done):
        c = self.val(st, inst[3])
        if not isinstance(c, bool): c = simpb(c)
        a = None
        if c is True: a = self.val(st, inst[4])
        elif c is False: a = self.val(st, inst[5])
        else: a = self.ite(c, self.val(st, inst[4]), self.val(st, inst[5]), inst[2])
        fr.regs[inst[1]] = a; fr.idx += 1
    def i_fneg(self, st, fr, inst, done):
        v = self.val(st, inst[3]); fr.regs[inst[1]] = -v; fr.idx += 1

    # integer/fp binary operations
    def i_bin(self, st, fr, inst, done):
        op, ty = inst[2], inst[3]
        a = self.val(st, inst[4]); b = self.val(st, inst[5])
        fr.regs[inst[1]] = self.binop(st, op, ty, a, b, inst[6]); fr.idx += 1
    def binop(self, st, op, ty, a, b, fl=0):
        if ty[0] == 'f': return self.fbin(st, op, a, b)
        if ty[0] == '<': return [self.binop(st, op, fields(ty)[0][1], x, y, fl) for x, y in zip(a, b)]
        w = int(ty[1:])
        if w == 1:
            if op == 'and': return b_and(a, b)
            if op == 'or': return b_or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool): return a != b
                if isinstance(a, bool): return b_not(b) if a else b
                if isinstance(b, bool): return b_not(a) if b else a
                return z3.Xor(a, b)
            if op == 'mul': return b_and(a, b)
            raise Unsupported('i1 ' + op)
        if is_ptr(a) or is_ptr(b):
            if op == 'sub' and is_ptr(a) and is_ptr(b):
                a = self.resolve(st, a); b = self.resolve(st, b)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                    if isinstance(a.off, int) and isinstance(b.off, int): return (a.off - b.off) & M64
                    nb = -b.off
                    r = self.offadd(a.off, nb)
                    return r & M64 if isinstance(r, int) else r
            if op in ('add', 'sub') and isinstance(a, Ptr) and not is_ptr(b):
                return self.padd(a, (signed(b, 64) if isinstance(b, int) else b) if op == 'add' else (-signed(b, 64) if isinstance(b, int) else -b))
            if op == 'and' and (isinstance(a, FnPtr) and b == 1 or isinstance(b, FnPtr) and a == 1): return 0    # functions are aligned (pointers to members)
            a = self.ptr2int(a) if is_ptr(a) else a; b = self.ptr2int(b) if is_ptr(b) else b
        m = (1 << w) - 1
        if isinstance(a, int) and isinstance(b, int):
            sa, sb = signed(a, w), signed(b, w)
            if op == 'add': return (a + b) & m
            if op == 'sub': return (a - b) & m
            if op == 'mul': return (a * b) & m
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & m if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (sa >> min(b, w - 1)) & m
            if op in ('sdiv', 'udiv', 'srem', 'urem') and b == 0:
                self.oblig(st, False, 'division by zero', safety=True); raise PathEnd('div0')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): q = -q
            if op == 'sdiv': return q & m
            if op == 'srem': return (sa - q * sb) & m
            raise Unsupported(op)
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 0 and op in ('and', 'mul'): return 0
            if b == 1 and op in ('mul', 'sdiv', 'udiv'): return a
            if op == 'and' and b == m: return a
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('and', 'mul'): return 0
            if a == 1 and op == 'mul': return b
            if op == 'and' and a == m: return b
        if w == 64 and isinstance(b, int) and ((op in ('sdiv', 'udiv') and (fl & 4 or op == 'sdiv')) or (op in ('ashr', 'lshr') and fl & 4)):
            s = b if op in ('sdiv', 'udiv') else 1 << b
            if 0 < s < (1 << 31) and (fl & 4):
                r = self.divlin(a, s)
                if r is not None: return r
        if w == 64 and op in ('add', 'sub'):
            return self.offadd_u(a, b if op == 'add' else (-b if not isinstance(b, int) else (-b) & M64))
        A, B = bv(a, w), bv(b, w)
        if op == 'add': return A + B
        if op == 'sub': return A - B
        if op == 'mul': return A * B
        if op == 'and': return A & B
        if op == 'or': return A | B
        if op == 'xor': return A ^ B
        if op == 'shl': return A << B
        if op == 'lshr': return z3.LShR(A, B)
        if op == 'ashr': return A >> B
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            if not isinstance(b, int): self.oblig(st, B != 0, 'division by zero', safety=True); self.assume(st, B != 0)
        if op == 'sdiv': return A / B
        if op == 'udiv': return z3.UDiv(A, B)
        if op == 'srem': return z3.SRem(A, B)
        if op == 'urem': return z3.URem(A, B)
        raise Unsupported(op)
    def offadd_u(self, a, b):
        e = bv(a, 64) + bv(b, 64)
        c, t = self.lin(e)
        return self.unlin(c, t)
    def fbin(self, st, op, a, b):
        if a is None or b is None: raise Unsupported('f80')
        if frac(a) and frac(b):
            if op == 'fadd': return a + b
            if op == 'fsub': return a - b
            if op == 'fmul': return a * b
            if op == 'fdiv' and b != 0: return a / b
        A, B = rv(a), rv(b)
        if op == 'fadd': return A + B
        if op == 'fsub': return A - B
        if op == 'fmul': return A * B
        if op == 'fdiv': return A / B
        if op == 'frem': return self.uf('fmod', z3.RealSort(), z3.RealSort(), z3.RealSort())(A, B)
        raise Unsupported(op)

    def i_cmp(self, st, fr, inst, done):
        fr.regs[inst[1]] = self.cmpop(st, inst[2], inst[3], self.val(st, inst[4]), self.val(st, inst[5])); fr.idx += 1
    def cmpop(self, st, p, ty, a, b):
        if ty[0] == 'f':
            if p in ('uno',): return False
            if p in ('ord',): return True
            if p == 'true': return True
            if p == 'false': return False
            p = p[1:]
            if frac(a) and frac(b):
                return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
            A, B = rv(a), rv(b)
            return {'eq': lambda: A == B, 'ne': lambda: A != B, 'lt': lambda: A < B, 'le': lambda: A <= B, 'gt': lambda: A > B, 'ge': lambda: A >= B}[p]()
        if ty == 'i1':
            if p == 'eq': return b_not(self.binop(st, 'xor', 'i1', a, b))
            if p == 'ne': return self.binop(st, 'xor', 'i1', a, b)
            if p in ('ult', 'sgt'): return b_and(b_not(a), b)
            raise Unsupported('i1 cmp')
        if is_ptr(a) or is_ptr(b): return self.ptrcmp(st, p, a, b)
        w = int(ty[1:]) if ty[0] == 'i' else 64
        if isinstance(a, int) and isinstance(b, int):
            if p in ('eq', 'ne'): return (a == b) == (p == 'eq')
            if p[0] == 's': a, b = signed(a, w), signed(b, w)
            return {'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p[1:]]
        if is_z3(a) and z3.is_real(a) or is_z3(b) and z3.is_real(b) or frac(a) or frac(b):
            # bit comparison of fp cells (memcmp on doubles): value equality
            if p in ('eq', 'ne'):
                a = self.conv(a, 8, 'f64'); b = self.conv(b, 8, 'f64')
                return (rv(a) == rv(b)) if p == 'eq' else (rv(a) != rv(b))
            if isinstance(b, int) and b == 0 and p in ('slt', 'sge'):      # sign bit (negative zero does not occur in the reals)
                a = rv(self.conv(a, 8, 'f64')); return a < 0 if p == 'slt' else a >= 0
            raise Unsupported('ordering of fp bits')
        A, B = bv(a, w), bv(b, w)
        if p == 'eq': return A == B
        if p == 'ne': return A != B
        return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE, 'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y, 'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[p](A, B)
    def ptrcmp(self, st, p, a, b):
        if not is_ptr(a): a = Ptr(None, a)
        if not is_ptr(b): b = Ptr(None, b)
        a = self.int2ptr(st, a); b = self.int2ptr(st, b)
        if isinstance(a, PIte):
            return self.ite(a.c, self.ptrcmp(st, p, a.a, b), self.ptrcmp(st, p, a.b, b))
        if isinstance(b, PIte):
            return self.ite(b.c, self.ptrcmp(st, p, a, b.a), self.ptrcmp(st, p, a, b.b))
        eq = None
        if isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, FnPtr) and isinstance(b, FnPtr): eq = a.name == b.name
            elif (isinstance(a, Ptr) and a.obj is None and isinstance(a.off, int)) or (isinstance(b, Ptr) and b.obj is None and isinstance(b.off, int)): eq = False
            elif (isinstance(a, Ptr) and a.obj is not None) or (isinstance(b, Ptr) and b.obj is not None): eq = False
            else: eq = None
            if p == 'eq' and eq is not None: return eq
            if p == 'ne' and eq is not None: return not eq
            raise Unsupported('function pointer comparison')
        if a.obj == b.obj:
            if isinstance(a.off, int) and isinstance(b.off, int):
                x, y = a.off, b.off
                if a.obj is None: x &= M64; y &= M64
                return {'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': x < y, 'sgt': x > y, 'sle': x <= y, 'sge': x >= y}[p]
            X = bv(a.off & M64 if isinstance(a.off, int) else a.off, 64); Y = bv(b.off & M64 if isinstance(b.off, int) else b.off, 64)
            if p in ('eq', 'ne'):
                c, t = self.lin(X - Y)
                if not t:
                    return (c == 0) == (p == 'eq')
            return {'eq': lambda: X == Y, 'ne': lambda: X != Y, 'ult': lambda: z3.ULT(X, Y), 'ule': lambda: z3.ULE(X, Y), 'ugt': lambda: z3.UGT(X, Y), 'uge': lambda: z3.UGE(X, Y),
                    'slt': lambda: X < Y, 'sgt': lambda: X > Y, 'sle': lambda: X <= Y, 'sge': lambda: X >= Y}[p]()
        # different objects
        for x, y in ((a, b), (b, a)):
            if x.obj is None and isinstance(x.off, int) and x.off == 0:
                if p == 'eq': return False
                if p == 'ne': return True
        if a.obj is not None and b.obj is not None:
            if p == 'eq': return False
            if p == 'ne': return True
        if p in ('eq', 'ne'): A, B = bv(self.ptr2int(a), 64), bv(self.ptr2int(b), 64)
        else:       # nothing is known about the order of different objects
            A, B = [bv(x.off, 64) + (z3.BitVec('addr_%d' % x.obj, 64) if x.obj is not None else z3.BitVecVal(0, 64)) for x in (a, b)]
        return {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B)}[p]()

    def i_cast(self, st, fr, inst, done):
        fr.regs[inst[1]] = self.castop(st, inst[2], inst[3], inst[4], self.val(st, inst[5])); fr.idx += 1
    def castop(self, st, op, sty, dty, v):
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            if dty == 'ptr':
                return v if is_ptr(v) else Ptr(None, v)
            if op == 'ptrtoint':
                if dty != 'i64': raise Unsupported('ptrtoint ' + dty)
                return v
            if sty == dty: return v
            if dty in ('f64', 'f32') or sty in ('f64', 'f32'):
                return self.conv(v, tysize(dty), dty)
            raise Unsupported('bitcast %s to %s' % (sty, dty))
        if op in ('zext', 'sext', 'trunc'):
            sw, dw = int(sty[1:]), int(dty[1:])
            if is_ptr(v): v = self.ptr2int(v)
            if sw == 1:
                if isinstance(v, bool): return ((1 << dw) - 1 if op == 'sext' else 1) if v else 0
                return z3.If(v, bv((1 << dw) - 1 if op == 'sext' else 1, dw), bv(0, dw))
            if dw == 1:
                if isinstance(v, int): return bool(v & 1)
                return z3.Extract(0, 0, v) == 1
            if isinstance(v, int):
                if op == 'zext': return v
                if op == 'sext': return signed(v, sw) & ((1 << dw) - 1)
                return v & ((1 << dw) - 1)
            if op == 'zext': return z3.ZeroExt(dw - sw, v)
            if op == 'sext': return z3.SignExt(dw - sw, v)
            # trunc of an extension
            if z3.is_app(v) and v.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
                x = v.arg(0)
                if x.size() == dw: return x
                if x.size() > dw: return z3.Extract(dw - 1, 0, x)
            return z3.Extract(dw - 1, 0, v)
        if op in ('fpext', 'fptrunc'):
            return v      # reals
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, bool): return Fraction(int(v))
            w = int(sty[1:])
            if isinstance(v, int): return Fraction(signed(v, w) if op == 'sitofp' else v)
            if z3.is_bool(v): return z3.If(v, z3.RealVal(1 if op == 'uitofp' else -1), z3.RealVal(0))
            return z3.ToReal(z3.BV2Int(v, op == 'sitofp'))
        if op in ('fptosi', 'fptoui'):
            w = int(dty[1:])
            if frac(v): return int(v) & ((1 << w) - 1)
            return z3.Int2BV(z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v)), w)
        raise Unsupported('cast ' + op)
    def i_atomicrmw(self, st, fr, inst, done):
        p = self.val(st, inst[4]); v = self.val(st, inst[5])
        old = self.load(st, p, inst[3])
        o = {'add': 'add', 'sub': 'sub', 'or': 'or', 'and': 'and', 'xor': 'xor'}.get(inst[2])
        if inst[2] == 'xchg': new = v
        elif o: new = self.binop(st, o, inst[3], old, v)
        else: raise Unsupported('atomicrmw ' + inst[2])
        self.store(st, p, inst[3], new)
        fr.regs[inst[1]] = old; fr.idx += 1
    def i_extractelement(self, st, fr, inst, done):
        v = self.val(st, inst[3]); i = self.val(st, inst[4])
        fr.regs[inst[1]] = v[i]; fr.idx += 1
    def i_insertelement(self, st, fr, inst, done):
        v = list(self.val(st, inst[3])); x = self.val(st, inst[4]); i = self.val(st, inst[5])
        v[i] = x; fr.regs[inst[1]] = v; fr.idx += 1

    # ------------------------------------------------------------ calls
    def i_call(self, st, fr, inst, done): return self.docall(st, fr, inst, done)
    def i_invoke(self, st, fr, inst, done): return self.docall(st, fr, inst, done)
    def finish(self, st, fr, inst, v):
        """builtin returned normally"""
        if v is not None: fr.regs[inst[1]] = v
        if inst[0] == 'invoke': return self.goto(st, inst[6])
        fr.idx += 1
        return None
    def throw(self, st, fr, inst):
        """an exception (st.exc set to fly) is raised by the current call instruction"""
        if inst[0] == 'invoke':
            st.exc = (st.exc[0], st.exc[1], 'land')
            return self.goto(st, inst[7])
        return [st]
    def docall(self, st, fr, inst, done):
        callee = inst[3]
        if callee[0] == 'asm': 
            return self.finish(st, fr, inst, None)
        if callee[0] == 'g':
            name = callee[1]
            if name in self.prog.aliases and name not in self.prog.funcs:
                a = self.prog.aliases[name]
                if a[0] == 'g': name = a[1]
        else:
            f = self.resolve(st, self.val(st, callee))
            if not isinstance(f, FnPtr):
                if isinstance(f, Ptr) and f.obj is not None:
                    raise Unsupported('indirect call through data pointer %s' % self.getobj(st, f.obj).name)
                raise Unsupported('indirect call through unresolved pointer')
            name = f.name
        if name.startswith('vc_'):
            return getattr(self, 'x_' + name)(st, fr, inst, name)
        if name in self.stubs and not any(f.fn.name == self.stubs[name] for f in st.frames):
            self.res.assumed.add('contract used for callee: ' + self.demangle(name))
            name = self.stubs[name]
        elif name.startswith('llvm.'):
            return self.llvm(st, fr, inst, name)
        else:
            b = BUILTINS.get(name)
            if b is not None: return b(self, st, fr, inst, name)
            if name not in self.prog.funcs or self.force_model(name):
                for rx, b in BUILTIN_RX:
                    if rx.match(name): return b(self, st, fr, inst, name)
        fn = self.prog.funcs.get(name)
        if fn is None: raise Unsupported('no body for ' + self.demangle(name))
        args = [self.val(st, a) if a[0] != 'md' else None for a in inst[4]]
        if len(st.frames) > 60: raise Unsupported('recursion depth')
        return self.enter(st, fr, inst, fn, args)
    def force_model(self, name):
        return any(rx.match(name) for rx in FORCED)
    def demangle(self, n):
        import build
        if n.startswith('_Z'): return build.demangle([n])[n]
        return n
    def enter(self, st, fr, inst, fn, args):
        fn.analyse()
        self.res.funcs.add(fn.name)
        nf = Frame(fn)
        if fr is not None:
            fr.dest = inst[1] if inst[2] != 'void' else None
            fr.isinv = (inst[6], inst[7]) if inst[0] == 'invoke' else None
        st.frames.append(nf)
        for p, a in zip(fn.params, args):
            if p[2]:     # byval
                q = self.resolve(st, a)
                oid = self.alloc(st, ('bv', st.key(), p[0]), fn.name + '.byval', p[2], 'stack', 'undef')
                nf.allocas = nf.allocas + (oid,)
                self.copy(st, Ptr(oid, 0), q, p[2])
                a = Ptr(oid, 0)
            nf.regs[p[0]] = a
        if fr is None: return [st]
        return [st]

    # ------------------------------------------------------------ block copies
    def copy(self, st, d, s, n):
        d = self.resolve(st, d); s = self.resolve(st, s)
        if isinstance(n, int) and n == 0: return
        for p in (d, s):
            if not isinstance(p, Ptr) or p.obj is None:
                if not isinstance(n, int): raise Unsupported('symbolic-length copy through null')
                self.badptr(st, p, 'memcpy')
        od = self.getobj(st, d.obj); os = self.getobj(st, s.obj)
        if isinstance(n, int) and isinstance(d.off, int) and isinstance(s.off, int) and od.arr is None and os.arr is None:
            self.inbounds(st, os, s.off, n); self.inbounds(st, od, d.off, n)
            # split at source cell boundaries
            cells = [(k, c) for k, c in os.cells.items() if k < s.off + n and k + c[0] > s.off]
            cells.sort()
            moved = []
            pos = s.off
            for k, c in cells:
                if k < pos or k + c[0] > s.off + n:
                    # partial: copy bytes
                    lo = max(k, s.off); hi = min(k + c[0], s.off + n)
                    for x in range(lo, hi): moved.append((x - s.off, 1, self.cellread(st, self.getobj(st, os.id), x, 1, 'i8')))
                else: moved.append((k - s.off, c[0], c[1]))
            # uncovered bytes
            cov = sorted((o, l) for o, l, _ in moved); gaps = []; pos = 0
            for o, l in cov:
                if o > pos: gaps.append((pos, o - pos))
                pos = max(pos, o + l)
            if pos < n: gaps.append((pos, n - pos))
            od = self.wobj(st, d.obj)
            if od.const: self.oblig(st, False, 'memory safety: write to constant', safety=True); raise PathEnd('const')
            for o, l in gaps:
                if os.init == 'zero':
                    x = o
                    while x < o + l:
                        step = 8 if (d.off + x) % 8 == 0 and x + 8 <= o + l else 4 if (d.off + x) % 4 == 0 and x + 4 <= o + l else 1
                        self.cellwrite(st, od, d.off + x, step, 0); x += step
                elif os.init.startswith('sym:'):
                    x = o
                    while x < o + l:
                        step = 8 if (s.off + x) % 8 == 0 and x + 8 <= o + l else 4 if (s.off + x) % 4 == 0 and x + 4 <= o + l else 1
                        v = self.cellread(st, self.getobj(st, os.id), s.off + x, step, 'i%d' % (8 * step))
                        od = self.wobj(st, d.obj)
                        self.cellwrite(st, od, d.off + x, step, v); x += step
                else:
                    # uninitialised source bytes: destination becomes uninitialised
                    for k in [k for k, c in od.cells.items() if k >= d.off + o and k + c[0] <= d.off + o + l]: del od.cells[k]
            for o, l, v in moved: self.cellwrite(st, od, d.off + o, l, v)
            return
        # array copy
        self.arrcopy(st, d, s, n)
    def arrcopy(self, st, d, s, n):
        od = self.getobj(st, d.obj); os = self.getobj(st, s.obj)
        stride = (od.arr or os.arr or (None,))[0]
        if isinstance(n, int) and n in (1, 2, 4, 8) and not (os.arr and os.arr[1]) and not (od.arr and od.arr[1]):
            ty = 'i%d' % (8 * n)
            self.store(st, d, ty, self.load(st, s, ty)); return
        if stride is None:
            c, t = self.lin(bv(n, 64)); g = 0
            for x, k in t.values(): g = math.gcd(g, abs(k))
            stride = g or None
            if stride is None: raise Unsupported('copy stride')
        if isinstance(n, int) and n // stride <= 64 and n % stride == 0:
            # element-wise
            res = {r: (x[0], x[1]) for r, x in (os.arr[1] if os.arr else od.arr[1]).items()}
            if not res: raise Unsupported('copy of untyped array')
            vals = []
            for i in range(n // stride):
                for r, (l, real) in res.items():
                    ty = 'f64' if real and l == 8 else 'i%d' % (8 * l)
                    vals.append((i * stride + r, ty, self.load(st, Ptr(s.obj, self.offadd(s.off, i * stride + r)), ty)))
            for o, ty, v in vals: self.store(st, Ptr(d.obj, self.offadd(d.off, o)), ty, v)
            return
        for oid in (d.obj, s.obj):
            o = self.getobj(st, oid)
            if o.arr is None: self.arrsetup(st, o, stride)
            elif o.arr[0] != stride: raise Unsupported('copy between strides')
        od = self.getobj(st, d.obj); os = self.getobj(st, s.obj)
        cnt = self.divlin(bv(n, 64), stride)
        if cnt is None:
            # byte count not syntactically a multiple: try an exact udiv
            cnt = z3.UDiv(bv(n, 64), z3.BitVecVal(stride, 64))
            if self.check(st.pc, [z3.URem(bv(n, 64), z3.BitVecVal(stride, 64)) != 0])[0] != 'unsat': raise Unsupported('copy length not a multiple of the stride')
        cnt = bv(cnt & M64 if isinstance(cnt, int) else cnt, 64)
        di, dr = self.arridx(od, d.off, 0); si, sr = self.arridx(os, s.off, 0)
        if dr or sr: raise Unsupported('unaligned array copy')
        # bounds
        for o, i in ((od, di), (os, si)):
            if o.size is not None and not self.qdepth:
                tot = bv(o.size, 64)
                c = z3.And(z3.ULE(bv(i & M64 if isinstance(i, int) else i, 64) * stride, tot), z3.ULE(cnt * stride, tot - bv(i & M64 if isinstance(i, int) else i, 64) * stride))
                self.oblig(st, c, 'memory safety: block copy within %s' % o.name, safety=True)
        if not os.arr[1] and not od.arr[1]: raise Unsupported('copy of untyped array')
        res = dict((r, (x[0], x[1])) for r, x in (os.arr[1] or od.arr[1]).items())
        D = bv(di & M64 if isinstance(di, int) else di, 64); S = bv(si & M64 if isinstance(si, int) else si, 64)
        for r, (l, real) in res.items():
            sa = self.arrget(self.getobj(st, s.obj), r, l, real, st)
            da = self.arrget(self.getobj(st, d.obj), r, l, real, st)
            self.nfresh += 1
            i = z3.BitVec('i!c%d' % self.nfresh, 64)
            na = z3.Lambda([i], z3.If(z3.ULT(i - D, cnt), self.sel(sa, i - D + S), self.sel(da, i)))
            o = self.wobj(st, d.obj); o.arr[1][r] = (l, real, na)
    def fill(self, st, d, byte, n):
        d = self.resolve(st, d)
        if isinstance(n, int) and n == 0: return
        if not isinstance(d, Ptr) or d.obj is None: self.badptr(st, d, 'memset')
        od = self.getobj(st, d.obj)
        if isinstance(n, int) and isinstance(d.off, int) and od.arr is None and isinstance(byte, int):
            self.inbounds(st, od, d.off, n)
            od = self.wobj(st, d.obj)
            if d.off == 0 and od.size == n and byte == 0:
                od.cells = {}; od.init = 'zero'; return
            # keep existing cell granularity
            ks = sorted((k, c[0]) for k, c in od.cells.items() if k < d.off + n and k + c[0] > d.off)
            x = d.off
            exist = {k: l for k, l in ks}
            while x < d.off + n:
                l = exist.get(x)
                if l is None or x + l > d.off + n:
                    l = 8 if x % 8 == 0 and x + 8 <= d.off + n and not any(x < k < x + 8 for k in exist) else 4 if x % 4 == 0 and x + 4 <= d.off + n and not any(x < k < x + 4 for k in exist) else 1
                v = int.from_bytes(bytes([byte & 255]) * l, 'little')
                self.cellwrite(st, od, x, l, v); x += l
            return
        if not isinstance(byte, int) : raise Unsupported('memset symbolic value')
        if od.arr is None:
            g = 0
            for x, k in self.lin(bv(n, 64))[1].values(): g = math.gcd(g, abs(k))
            if not g or od.cells: raise Unsupported('memset symbolic length on struct')
            if byte == 0 and isinstance(d.off, int) and d.off == 0 and is_z3(od.size) and is_z3(n) and (od.size.eq(n)):
                o = self.wobj(st, d.obj); o.init = 'zero'; return
            od = self.arrsetup(st, od, g)
        if not od.arr[1]:
            if byte == 0 and isinstance(d.off, int) and d.off == 0:
                self.oblig(st, bv(n, 64) == bv(od.size, 64), 'memset covers object (verifier limitation)', safety=True)
                o = self.wobj(st, d.obj); o.init = 'zero'; return
            raise Unsupported('memset on untyped array')
        stride = od.arr[0]
        di, dr = self.arridx(od, d.off, 0)
        cnt = self.divlin(bv(n, 64), stride)
        if dr or cnt is None: raise Unsupported('memset alignment')
        D = bv(di & M64 if isinstance(di, int) else di, 64); cnt = bv(cnt & M64 if isinstance(cnt, int) else cnt, 64)
        for r, (l, real, a) in list(od.arr[1].items()):
            if real and byte: raise Unsupported('memset fp')
            v = z3.RealVal(0) if real else z3.BitVecVal(int.from_bytes(bytes([byte & 255]) * l, 'little'), 8 * l)
            self.nfresh += 1
            i = z3.BitVec('i!c%d' % self.nfresh, 64)
            o = self.wobj(st, d.obj)
            o.arr[1][r] = (l, real, z3.Lambda([i], z3.If(z3.ULT(i - D, cnt), v, self.sel(a, i))))

    def llvm(self, st, fr, inst, name):
        a = lambda i: self.val(st, inst[4][i])
        F = lambda v=None: self.finish(st, fr, inst, v)
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch', 'llvm.donothing', 'llvm.stackrestore', 'llvm.va_')): return F()
        if name.startswith('llvm.stacksave'): return F(NULL)
        if name.startswith('llvm.expect'): return F(a(0))
        if name.startswith(('llvm.memcpy', 'llvm.memmove')): self.copy(st, a(0), a(1), a(2)); return F()
        if name.startswith('llvm.memset'): self.fill(st, a(0), a(1), a(2)); return F()
        if name.startswith('llvm.eh.typeid.for'):
            p = a(0); return F(self.tid(self.tiname(st, p)))
        if name in ('llvm.trap', 'llvm.ubsantrap', 'llvm.debugtrap'):
            self.oblig(st, False, 'trap reached', safety=True); raise PathEnd('trap')
        ty = inst[2]
        m = re.match(r'llvm\.(umax|umin|smax|smin|abs|uadd\.with\.overflow|usub\.with\.overflow|umul\.with\.overflow|sadd\.with\.overflow|ssub\.with\.overflow|smul\.with\.overflow|usub\.sat|uadd\.sat|ctpop|bswap|cttz|ctlz|fshl|fshr)\.', name)
        if m:
            o = m.group(1); t0 = inst[5][0]; w = int(t0[1:]); x = a(0); y = a(1) if len(inst[4]) > 1 else None
            if o in ('umax', 'umin', 'smax', 'smin'):
                c = self.cmpop(st, {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[o], t0, x, y)
                return F(self.ite(c, x, y, t0))
            if o == 'abs':
                c = self.cmpop(st, 'slt', t0, x, 0); return F(self.ite(c, self.binop(st, 'sub', t0, 0, x), x, t0))
            if o.endswith('overflow'):
                k = o[:4]; op = k[1:4]
                r = self.binop(st, op, t0, x, y)
                if isinstance(x, int) and isinstance(y, int):
                    X, Y = (signed(x, w), signed(y, w)) if k[0] == 's' else (x, y)
                    e = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
                    ov = not (-(1 << (w - 1)) <= e < (1 << (w - 1))) if k[0] == 's' else not (0 <= e < (1 << w))
                else:
                    ext = (lambda v: z3.SignExt(w, bv(v, w))) if k[0] == 's' else (lambda v: z3.ZeroExt(w, bv(v, w)))
                    X, Y = ext(x), ext(y)
                    e = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
                    ov = e != ext(r)
                    ov = simpb(ov)
                return F([r, ov])
            if o == 'usub.sat':
                c = self.cmpop(st, 'ult', t0, x, y); return F(self.ite(c, 0, self.binop(st, 'sub', t0, x, y), t0))
            raise Unsupported(name)
        m = re.match(r'llvm\.(fabs|floor|ceil|sqrt|pow|sin|cos|exp|log|log10|minnum|maxnum|copysign|fmuladd|trunc|rint|round|nearbyint|log2|exp2)\.f', name)
        if m: return F(self.libm(st, m.group(1), [a(i) for i in range(len(inst[4]))]))
        if name.startswith('llvm.is.constant'): return F(False)
        if name.startswith('llvm.objectsize'): return F(M64)
        if name.startswith('llvm.launder') or name.startswith('llvm.strip'): return F(a(0))
        raise Unsupported(name)
    def libm(self, st, f, a):
        if f == 'fmuladd': return self.fbin(st, 'fadd', self.fbin(st, 'fmul', a[0], a[1]), a[2])
        x = a[0]
        if f == 'fabs':
            if frac(x): return abs(x)
            return z3.If(x >= 0, x, -x)
        if f == 'floor':
            if frac(x): return Fraction(math.floor(x))
            return z3.ToReal(z3.ToInt(x))
        if f == 'ceil':
            if frac(x): return Fraction(math.ceil(x))
            return -z3.ToReal(z3.ToInt(-x))
        if f == 'trunc':
            if frac(x): return Fraction(math.trunc(x))
            return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
        if f == 'round':
            if frac(x): return Fraction(math.floor(abs(x) + Fraction(1, 2)) * (1 if x >= 0 else -1))
            h = z3.RealVal('1/2')
            return z3.If(x >= 0, z3.ToReal(z3.ToInt(x + h)), -z3.ToReal(z3.ToInt(-x + h)))
        if f in ('minnum', 'fmin', 'maxnum', 'fmax'):
            c = self.cmpop(st, 'olt' if f in ('minnum', 'fmin') else 'ogt', 'f64', x, a[1])
            return self.ite(c, x, a[1], 'f64')
        if f == 'pow' and frac(a[1]) and a[1].denominator == 1 and 0 <= a[1] <= 16:
            r = Fraction(1)
            for _ in range(int(a[1])): r = self.fbin(st, 'fmul', r, x)
            return r
        if f == 'pow' and not frac(a[1]):
            r = self.uf(f, *([z3.RealSort()] * 3))(rv(x), rv(a[1])); t = Fraction(1); e = rv(a[1])
            for k in range(5):
                r = z3.If(e == k, rv(t), r); t = self.fbin(st, 'fmul', t, x)
            return r
        if f == 'sqrt' and frac(x) and x >= 0:
            r = Fraction(math.isqrt(x.numerator), 1) / math.isqrt(x.denominator)
            if r * r == x: return r
        return self.uf(f, *([z3.RealSort()] * (len(a) + 1)))(*[rv(v) for v in a])

    # ------------------------------------------------------------ contract intrinsics
    def cstr(self, st, p):
        p = self.resolve(st, p)
        o = self.getobj(st, p.obj); s = ''
        i = p.off
        while True:
            b = self.cellread(st, o, i, 1, 'i8')
            if not isinstance(b, int): raise Unsupported('symbolic string')
            if b == 0: return s
            s += chr(b); i += 1
    def inpname(self, st, base):
        n = st.inpcount.get(base, 0); st.inpcount[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)
    def addinput(self, st, name, v): st.inputs = st.inputs + ((name, v),)
    def mkinput(self, st, fr, inst, w):
        nm = self.inpname(st, self.cstr(st, self.val(st, inst[4][0])))
        if self.qdepth: raise Unsupported('input under quantifier')
        v = z3.BitVec('in:' + nm, w)
        self.addinput(st, nm, v)
        return self.finish(st, fr, inst, v)
    def x_vc_i32(self, st, fr, inst, name): return self.mkinput(st, fr, inst, 32)
    x_vc_u32 = x_vc_i32
    def x_vc_i64(self, st, fr, inst, name): return self.mkinput(st, fr, inst, 64)
    x_vc_u64 = x_vc_i64
    def x_vc_u8(self, st, fr, inst, name): return self.mkinput(st, fr, inst, 8)
    def x_vc_bool(self, st, fr, inst, name):
        nm = self.inpname(st, self.cstr(st, self.val(st, inst[4][0])))
        v = z3.Bool('in:' + nm); self.addinput(st, nm, v)
        return self.finish(st, fr, inst, v)
    def x_vc_f64(self, st, fr, inst, name):
        nm = self.inpname(st, self.cstr(st, self.val(st, inst[4][0])))
        v = z3.Real('in:' + nm); self.addinput(st, nm, v)
        return self.finish(st, fr, inst, v)
    def splits(self, st, fr, inst, nm, lo, hi):
        out = []
        for v in range(lo, hi + 1):
            s = st.fork() if v < hi else st
            self.inpname(s, nm)
            s.ghost[('split', nm, s.inpcount[nm])] = v
            self.addinput(s, nm if s.inpcount[nm] == 1 else '%s#%d' % (nm, s.inpcount[nm] - 1), v)
            r = self.finish(s, s.frames[-1], inst, v & M64)
            out.extend([s] if r is None else r)
        return out
    def x_vc_size(self, st, fr, inst, name):
        base = self.cstr(st, self.val(st, inst[4][0]))
        if self.mode != 'proof':
            return self.splits(st, fr, inst, base, 0, self.bound)
        nm = self.inpname(st, base)
        v = z3.ZeroExt(36, z3.BitVec('in:' + nm, 28)); self.addinput(st, nm, v)      # < 2^28
        return self.finish(st, fr, inst, v)
    def x_vc_split(self, st, fr, inst, name):
        base = self.cstr(st, self.val(st, inst[4][0]))
        lo = self.val(st, inst[4][1]); hi = self.val(st, inst[4][2])
        return self.splits(st, fr, inst, base, signed(lo, 64), signed(hi, 64))
    def x_vc_array_raw(self, st, fr, inst, name):
        nm = self.inpname(st, self.cstr(st, self.val(st, inst[4][0])))
        n = self.val(st, inst[4][1]); es = self.val(st, inst[4][2]); kind = self.val(st, inst[4][3])
        oid = self.alloc(st, ('arr', nm, st.key()), nm, (n * es) if isinstance(n, int) else n * z3.BitVecVal(es, 64), 'heap', 'sym:in:' + nm)
        o = self.wobj(st, oid)
        if isinstance(n, int):
            for i in range(n):
                if kind == 2:
                    for k, part in enumerate(('.re', '.im')):
                        v = z3.Real('in:%s%s[%d]' % (nm, part, i)); o.cells[i * es + k * 8] = (8, v)
                        self.addinput(st, '%s%s[%d]' % (nm, part, i), v)
                    continue
                v = z3.Real('in:%s[%d]' % (nm, i)) if kind else z3.BitVec('in:%s[%d]' % (nm, i), 8 * es)
                o.cells[i * es] = (es, v)
                self.addinput(st, '%s[%d]' % (nm, i), v)
        elif kind == 2:
            d = {}
            for k, part in enumerate(('.re', '.im')):
                a = z3.Array('in:%s%s' % (nm, part), z3.BitVecSort(64), z3.RealSort())
                d[8 * k] = (8, True, a); self.addinput(st, nm + part, (a, n))
            o.arr = (es, d)
        else:
            a = z3.Array('in:%s' % nm, z3.BitVecSort(64), z3.RealSort() if kind else z3.BitVecSort(8 * es))
            o.arr = (es, {0: (es, bool(kind), a)})
            self.addinput(st, nm, (a, n))
        return self.finish(st, fr, inst, Ptr(oid, 0))
    def x_vc_assume(self, st, fr, inst, name):
        c = self.val(st, inst[4][0])
        if not isinstance(c, bool): c = simpb(c)
        if c is False: raise PathEnd('assume')
        if c is not True:
            if not self.feasible(st, [c]): raise PathEnd('assume')
            self.assume(st, c)
        return self.finish(st, fr, inst, None)
    def x_vc_check(self, st, fr, inst, name):
        c = self.val(st, inst[4][0]); l = self.cstr(st, self.val(st, inst[4][1]))
        ok = self.oblig(st, c, l)
        if c is False: raise PathEnd('failed check')
        if c is not True and (not ok or name == 'vc_lemma'): self.assume(st, zb(c))
        return self.finish(st, fr, inst, None)
    x_vc_lemma = x_vc_check
    def x_vc_stub_requires(self, st, fr, inst, name):
        c = self.val(st, inst[4][0]); l = self.cstr(st, self.val(st, inst[4][1]))
        self.oblig(st, c, 'callee precondition: ' + l)
        if c is False: raise PathEnd('failed check')
        if c is not True: self.assume(st, c)
        return self.finish(st, fr, inst, None)
    def x_vc_locks_held(self, st, fr, inst, name):
        return self.finish(st, fr, inst, sum(n for k, n in st.ghost.items() if isinstance(k, tuple) and k[0] == 'mtx'))
    def x_vc_cover(self, st, fr, inst, name):
        l = self.cstr(st, self.val(st, inst[4][0]))
        if not self.res.covers.get(l):
            r, _ = self.check(st.pc, [z3.BoolVal(True)], timeout=5000, full=False)
            self.res.covers[l] = self.res.covers.get(l) or r == 'sat'
        return self.finish(st, fr, inst, None)
    def x_vc_symbolic_mode(self, st, fr, inst, name): return self.finish(st, fr, inst, True)
    def x_vc_trace(self, st, fr, inst, name):
        if os.environ.get('VC_TRACE_THROW'): print('TRACE', self.cstr(st, self.val(st, inst[4][0])), str(self.val(st, inst[4][1]))[:200], file=sys.stderr)
        return self.finish(st, fr, inst, None)
    def x_vc_opaque_ptr(self, st, fr, inst, name):
        nm = self.inpname(st, self.cstr(st, self.val(st, inst[4][0])))
        oid = self.alloc(st, ('opq', nm, st.key()), 'opaque:' + nm, 1 << 20, 'heap', 'sym:opq:' + nm)
        return self.finish(st, fr, inst, Ptr(oid, 0))
    def x_vc_havoc_i32(self, st, fr, inst, name):
        nm = self.cstr(st, self.val(st, inst[4][1]))
        self.store(st, self.val(st, inst[4][0]), 'i32', self.fresh('havoc_' + nm, 32))
        return self.finish(st, fr, inst, None)
    def callback(self, st, f, args):
        """evaluate a pure boolean callback; returns a formula over the current state"""
        fn = self.prog.funcs[f.name]; fn.analyse()
        s = st.fork(); s.frames = []
        base = len(s.pc)
        mark = self.nfresh
        self.enter(s, None, None, fn, args)
        s.frames[-1].iters = {-1: self.qdepth}     # distinguishes allocation keys
        self.qdepth += 1
        try: done = self.run([s], None)
        finally: self.qdepth -= 1
        r = False
        for d, v in done:
            ex = d.pc[base:]
            c = v if not isinstance(v, int) or isinstance(v, bool) else v != 0
            for e in ex: c = b_and(e, c)
            r = b_or(r, c)
        return r, mark
    def freshused(self, e, mark, allow=()):
        if not is_z3(e): return False
        seen = set(); stk = [e]
        while stk:
            x = stk.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): stk.append(x.body()); continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if '!' in nm and nm not in allow:
                    try: k = int(nm.rsplit('!', 1)[1])
                    except ValueError: continue
                    if k > mark: return True
            else: stk.extend(x.children())
        return False
    def x_vc_quant(self, st, fr, inst, name):
        A = [self.val(st, x) for x in inst[4]]
        isf = bool(A[0]) if isinstance(A[0], int) else None
        lo, hi, f, ctx = A[1], A[2], A[3], A[4]
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
            r = isf
            for i in range(lo, hi):
                c, _ = self.callback(st, f, [ctx, i])
                r = b_and(r, c) if isf else b_or(r, c)
            return self.finish(st, fr, inst, r if isinstance(r, bool) else simpb(r))
        L, H = bv(lo, 64), bv(hi, 64)
        if self.mode != 'proof' or self.opt.get('expand_quant') or self.check(st.pc, [z3.ULT(z3.BitVecVal(24, 64), H)], full=False, timeout=2000)[0] == 'unsat':
            B = 24
            if self.check(st.pc, [z3.ULT(z3.BitVecVal(B, 64), H)], full=False)[0] != 'unsat': raise Unsupported('quantifier range in bounded mode')
            r = isf
            for i in range(0, B):
                g = z3.And(z3.ULE(L, z3.BitVecVal(i, 64)), z3.ULT(z3.BitVecVal(i, 64), H))
                g = simpb(g)
                if g is False or not self.feasible(st, [g]): continue
                s2 = st.fork(); self.assume(s2, g)
                c, _ = self.callback(s2, f, [ctx, i])
                r = b_and(r, b_or(b_not(g), c)) if isf else b_or(r, b_and(g, c))
            return self.finish(st, fr, inst, r if isinstance(r, bool) else simpb(r))
        self.nfresh += 1
        q = z3.BitVec('q!%d' % self.nfresh, 64)
        s2 = st.fork(); g = z3.And(z3.ULE(L, q), z3.ULT(q, H)); self.assume(s2, g)
        c, mark = self.callback(s2, f, [ctx, q])
        if self.freshused(c, mark): raise Unsupported('fresh symbol under quantifier')
        body = zb(b_or(b_not(g), c)) if isf else zb(b_and(g, c))
        r = z3.ForAll([q], body) if isf else z3.Exists([q], body)
        return self.finish(st, fr, inst, r)

    # ------------------------------------------------------------ loop summarisation (inferred inductive invariants)
    def try_summary(self, st, h):
        """st: at loop header h (phis evaluated).  Returns successor states, or None to unroll.
        Every loop-carried location is described as a function of the ghost iteration number k; the description is
        an inductive invariant: checked for initiation (k=0) and consecution (k -> k+1) before it is used."""
        if self.loopdepth > 3: return None
        key0 = tuple((f.fn.name, f.block if f is not st.frames[-1] else h) for f in st.frames)
        self.sumkey = key0
        return self.try_summary2(st, h)
    def try_summary2(self, st, h):
        saved = self.snapshot_res()
        try:
            r = self.summary(st, h)
        except (Unsupported, z3.Z3Exception) as e:
            self.restore_res(saved)
            if isinstance(e, z3.Z3Exception) and self.opt.get('debug'): print('summary z3', e)
            if self.opt.get('debug'): print('summary failed:', st.frames[-1].fn.name, e)
            return None
        if r is None: self.restore_res(saved); return None
        return r
    def snapshot_res(self):
        r = self.res
        return (len(r.obl), len(r.unsupported), len(r.safety), len(r.escapes), r.paths, len(r.incomplete), dict(r.covers), len(r.summaries))
    def restore_res(self, s):
        r = self.res
        del r.obl[s[0]:]; del r.unsupported[s[1]:]; del r.safety[s[2]:]; del r.escapes[s[3]:]; r.paths = s[4]; del r.incomplete[s[5]:]; r.covers = dict(s[6]); del r.summaries[s[7]:]

    def iterate(self, Sk, h, depth, blocks):
        w = {'depth': depth, 'header': h, 'blocks': blocks, 'back': [], 'exits': []}
        self.loopdepth += 1
        try: self.run([Sk], w)
        finally: self.loopdepth -= 1
        return w['back'], w['exits']
    def vdiff(self, a, b):
        """a-b if constant, else None"""
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj: return None
            x = self.lin(bv(a.off & M64 if isinstance(a.off, int) else a.off, 64) - bv(b.off & M64 if isinstance(b.off, int) else b.off, 64))
            return x[0] if not x[1] else None
        if isinstance(a, (bool, Ptr, FnPtr, PIte, list)) or isinstance(b, (bool, Ptr, FnPtr, PIte, list)): return None
        if frac(a) or frac(b): return None
        w = a.size() if is_z3(a) and z3.is_bv(a) else b.size() if is_z3(b) and z3.is_bv(b) else None
        if isinstance(a, int) and isinstance(b, int): return a - b
        if w is None: return None
        d = z3.simplify(bv(a, w) - bv(b, w))
        if z3.is_bv_value(d): return d.as_signed_long()
        return None
    def summary(self, st, h):
        fr = st.frames[-1]; fn = fr.fn; depth = len(st.frames) - 1
        blocks = fn.loops[h]
        # cheap test: is the loop condition concretely decided at entry?  then unroll.
        phis = [i for i in fn.blocks[h] if i[0] == 'phi']
        self.nfresh += 1
        mark0 = self.nfresh
        k = z3.BitVec('k!%d' % self.nfresh, 64); kname = k.decl().name()
        base = len(st.pc)
        krange = z3.ULT(k, z3.BitVecVal(1 << 28, 64))
        carried = {}    # loc -> dict(kind=..., init, step, ...)
        # ---- guess from the first iteration: the step of every phi (verified by the consecution check below)
        S = st.fork()
        cur = {}
        for p in phis:
            v = fr.regs[p[1]]; cur[('r', p[1])] = v
            carried[('r', p[1])] = dict(init=v, kind='unknown', w=(p[2]))
        snap = self.snapshot_res()
        saved_s = self.safety_on; self.safety_on = False
        try: B, E = self.iterate(S, h, depth, blocks)
        finally: self.safety_on = saved_s
        self.restore_res(snap)
        if not B: return None      # never iterates: let it run
        if len(B) > 16: return None
        for p in phis:
            loc = ('r', p[1]); d = None; ok = True
            for b in B:
                x = self.vdiff(b.frames[-1].regs[p[1]], cur[loc])
                if x is None or (d is not None and x != d): ok = False; break
                d = x
            if ok: carried[loc].update(kind='affine', step=d)
            else: carried[loc].update(kind='generic')
        C = None
        key = self.sumkey
        for attempt in range(8):
            if any(c['kind'] == 'generic' for c in carried.values()) and key not in self.nosum:
                r = self.trial(st, h, depth, blocks)
                if r is not None: return r
                self.nosum[key] = 1
                self.restore_res(snap)
            S = st.fork(); F = S.frames[-1]
            self.assume(S, krange)
            if C is not None and C is not True:
                self.nfresh += 1
                j = z3.BitVec('j!%d' % self.nfresh, 64)
                cjs = [(cj, self.linear_guard(st, cj, k)) for cj in self.conjuncts(C)]
                plain = [cj for cj, t in cjs if t is not None]
                for cj, t in cjs:
                    if t is not None: self.assume(S, z3.ULE(k, t))
                    elif plain and not self.has_quant(cj) and self.check(tuple(st.pc) + (krange,) + tuple(plain), [b_not(cj)], full=False, timeout=3000)[0] == 'unsat': pass   # implied
                    else: self.assume(S, z3.ForAll([j], z3.Implies(z3.ULT(j, k), z3.substitute(cj, (k, j)))))
            final = C is not None
            gen = {}
            for loc, c in carried.items():
                v = self.valat(c, k, loc, gen)
                if loc[0] == 'r': F.regs[loc[1]] = v
                elif loc[0] == 'm':
                    o = self.wobj(S, loc[1]); self.cellwrite(S, o, loc[2], loc[3], v)
                elif loc[0] == 'a':
                    o = self.wobj(S, loc[1]); 
                    if o.arr is None: raise Unsupported('array mode lost')
                    o.arr[1][loc[2]] = (c['n'], c['real'], v)
            # axioms for generic locations
            for loc, c in carried.items():
                if c['kind'] == 'generic' and c.get('next') is not None:
                    self.nfresh += 1
                    j = z3.BitVec('j!%d' % self.nfresh, 64)
                    nx = z3.substitute(zv(c['next']), (k, j))
                    self.assume(S, z3.ForAll([j], z3.Implies(z3.ULT(j, k), self.app(c, j + 1) == nx)))
                    self.assume(S, self.app(c, z3.BitVecVal(0, 64)) == zvw(c['init'], c))
            Sk = S.fork()
            snap = self.snapshot_res()
            mark = self.nfresh
            B, E = self.iterate(S, h, depth, blocks)
            if not B: self.restore_res(snap); return None
            kb = len(Sk.pc)
            changed = False
            # merged continuation condition
            Cn = False; conds = []
            for b in B:
                c = True
                for e in b.pc[kb:]: c = b_and(c, e)
                conds.append(c); Cn = b_or(Cn, c)
            if any(len(b.inputs) != len(st.inputs) for b in B): raise Unsupported('inputs created in loop')
            # registers
            for p in phis:
                loc = ('r', p[1]); c = carried[loc]
                nexts = [b.frames[-1].regs[p[1]] for b in B]
                if not self.consec(Sk, c, loc, k, nexts, conds, B, gen): changed = True
            # memory
            known = set(carried)
            for b, cond in zip(B, conds):
                for oid, o in b.mem.items():
                    o0 = Sk.mem.get(oid)
                    if o0 is o: continue
                    if o0 is None:
                        if o.kind == 'global' and not o.const and oid not in st.mem:
                            self.globptr(st, o.name); changed = True; continue
                        if o.alive and o.kind == 'heap': raise Unsupported('allocation in loop')
                        continue
                    if o.alive != o0.alive: raise Unsupported('deallocation in loop')
                    if (o.arr is None) != (o0.arr is None):
                        # became an array during the loop: set it up beforehand
                        if o0.cells: raise Unsupported('array mode switch')
                        o2 = self.wobj(st, oid); self.arrsetup(st, o2, o.arr[0])
                        for r, x in o.arr[1].items(): self.arrget(st.mem[oid], r, x[0], x[1], st)
                        changed = True; continue
                    if o.arr is not None:
                        for r, x in o.arr[1].items():
                            y = o0.arr[1].get(r)
                            if y is None:
                                self.arrget(self.getobj(st, oid), r, x[0], x[1], st); 
                                changed = True; continue
                            if not x[2].eq(y[2]) and ('a', oid, r) not in carried:
                                carried[('a', oid, r)] = dict(kind='arr', init=y[2], n=x[0], real=x[1], state='probe', base=self.freshlike(y[2])); changed = True
                    for off, (n, v) in o.cells.items():
                        y = o0.cells.get(off)
                        if y is not None and y[0] == n and self.same(y[1], v): continue
                        loc = ('m', oid, off, n)
                        if loc in carried: continue
                        if y is None:
                            if o0.kind == 'stack' or o0.init == 'undef':
                                # scratch location: uninitialised before the loop; its value never flows across iterations
                                # unless read before written, which would be a read of undefined data
                                if not any(kk < off + n and kk + cc[0] > off for kk, cc in o0.cells.items()):
                                    if o0.kind == 'stack': continue
                            init = self.cellread(st, self.getobj(st, oid), off, n, 'ptr' if is_ptr(v) else 'f64' if frac(v) or (is_z3(v) and z3.is_real(v)) else 'i%d' % (8 * n))
                        else:
                            if y[0] != n: raise Unsupported('cell shape change in loop')
                            init = y[1]
                        carried[loc] = dict(kind='affine', step=None, init=init, w='i%d' % (8 * n)); 
                        d = self.vdiff(v, init)
                        if d is None and not is_ptr(v) and not is_ptr(init) and not frac(init) and not (is_z3(init) and z3.is_real(init)):
                            try:
                                if self.eqv(b, v, init): d = 0
                            except z3.Z3Exception: pass
                        if d is None: carried[loc]['kind'] = 'generic'
                        else: carried[loc]['step'] = d
                        changed = True
                    for off in o0.cells:
                        if off not in o.cells: raise Unsupported('cell shape change in loop')
            for loc, c in list(carried.items()):
                if loc not in known: continue
                if loc[0] == 'm':
                    nexts = []
                    for b in B:
                        cc = b.mem[loc[1]].cells.get(loc[2])
                        if cc is None or cc[0] != loc[3]: raise Unsupported('cell shape')
                        nexts.append(cc[1])
                    if not self.consec(Sk, c, loc, k, nexts, conds, B, gen): changed = True
                elif loc[0] == 'a':
                    if c.get('state') == 'new': continue
                    if loc[1] in Sk.mem and not self.consec_arr(Sk, c, loc, k, [b.mem[loc[1]].arr[1][loc[2]][2] for b in B], conds, kname, mark): changed = True
            if self.freshused(Cn, mark, (kname,)): 
                raise Unsupported('iteration depends on nondeterminism')
            if not isinstance(Cn, bool):
                Cs = simpb(Cn)
                if not isinstance(Cs, bool) and has_bv_ite(Cs):      # case split, unless it leaves more for quantifiers
                    C2 = simpb(self.splitite(Cn))
                    nl = lambda c: 0 if isinstance(c, bool) else sum(self.linear_guard(st, cj, k) is None for cj in self.conjuncts(c))
                    if self.opt.get('debug'): print('split', nl(C2), nl(Cs))
                    if nl(C2) <= nl(Cs): Cs = C2
                Cn = Cs
            if changed: self.restore_res(snap); C = None if not final else None; continue
            if not final or not self.same(zb(C), zb(Cn)):
                # bounded trip count?  then plain unrolling is complete
                if attempt == 0 or C is None:
                    if not isinstance(Cn, bool):
                        c16 = z3.substitute(Cn, (k, z3.BitVecVal(18, 64)))
                        if not self.has_quant(c16) and self.check(st.pc, [c16], full=False, timeout=4000)[0] == 'unsat':
                            self.restore_res(snap); return None
                self.restore_res(snap)
                if final and attempt >= 5: return None
                C = Cn
                if self.opt.get('debug'): print('guard', C)
                continue
            # success: obligations recorded in this last run are kept
            self.res.summaries.append('%s: loop at block %d: %s' % (fn.name, h, ', '.join('%s:%s' % (l if c['kind'] == 'generic' else l[0], c['kind'] + (' %s' % str(c.get('next'))[:200] if c['kind'] == 'generic' else '')) for l, c in carried.items())))
            return E
        return None
    def trial(self, st, h, depth, blocks, limit=18):
        """a loop which provably stops within a few iterations is simply unrolled (complete); None if it does not"""
        cur = [st.fork()]; exits = []
        if self.opt.get('debug2'): print('TRIAL', [(f.fn.name[-30:],f.block) for f in st.frames[-2:]], len(st.pc), [str(z3.simplify(zb(x)))[:100].replace(chr(10),' ') for x in st.pc[-6:]])
        for it in range(limit):
            B = []
            for s in cur:
                b, e = self.iterate(s, h, depth, blocks)
                B += b; exits += e
            cur = []
            for b in B:
                for i, t in enumerate(cur):
                    if self.sig(t) != self.sig(b): continue
                    n = self.merge(t, b)
                    if n is not None: cur[i] = n; break
                else: cur.append(b)
            if not cur: return exits
            if len(cur) > 40: return None
        return None
    def conjuncts(self, c):
        if z3.is_and(c): return [x for y in c.children() for x in self.conjuncts(y)]
        if z3.is_not(c) and z3.is_or(c.arg(0)): return [x for y in c.arg(0).children() for x in self.conjuncts(b_not(y))]
        return [c]
    def linear_guard(self, st, c, k):
        """t such that (forall j<k. c(j)) is equivalent to k <= t, for a guard of the form s*k != s*t or k < t; None otherwise"""
        key = c.get_id()
        if z3.is_not(c) and z3.is_eq(c.arg(0)) and z3.is_bv(c.arg(0).arg(0)) and c.arg(0).arg(0).size() == 64: a, b = c.arg(0).children()
        elif z3.is_distinct(c) and c.num_args() == 2 and z3.is_bv(c.arg(0)) and c.arg(0).size() == 64: a, b = c.children()
        elif z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ULT and c.arg(0).eq(k) and not occurs(c.arg(1), k): return c.arg(1)
        else: return self.signed_guard(c, k)
        cc, t = self.lin(a - b)
        kk = t.pop(k.get_id(), None)
        if kk is None: return None
        s = kk[1]
        if s < 0: s = -s
        else: cc = -cc; t = {i: (x, -y) for i, (x, y) in t.items()}
        if s == 0 or cc % s or any(y % s for _, y in t.values()) or any(occurs(x, k) for x, _ in t.values()): return None
        r = self.unlin(cc // s, {i: (x, y // s) for i, (x, y) in t.items()})
        r = bv(r & M64 if isinstance(r, int) else r, 64)
        if self.check(st.pc, [z3.UGE(r, z3.BitVecVal(1 << 50, 64))], full=False, timeout=3000)[0] != 'unsat': return None
        return r
    def splitite(self, c, fuel=8):
        """case splits on the conditions of conditional values inside the atoms of a boolean term"""
        if fuel == 8: self.nsplitite = 0
        self.nsplitite += 1
        if self.nsplitite > 400: return c
        c = z3.simplify(c)
        if z3.is_and(c) or z3.is_or(c) or z3.is_not(c):
            return z3.simplify(c.decl()(*[self.splitite(x, min(fuel, 7)) for x in c.children()]))
        if fuel == 0 or not z3.is_app(c): return c
        def find(x):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_bv(x): return x
            if z3.is_app(x) and z3.is_bv(x):
                for y in x.children():
                    r = find(y)
                    if r is not None: return r
        if z3.is_bool(c) and all(z3.is_bv(x) for x in c.children()):
            for x in c.children():
                t = find(x)
                if t is not None:
                    g = self.splitite(t.arg(0), fuel - 1)
                    a, b = [self.splitite(z3.substitute(c, (t, t.arg(i))), fuel - 1) for i in (1, 2)]
                    return z3.simplify(z3.And(z3.Implies(g, a), z3.Or(g, b)))
        return c
    def signed_guard(self, c, k):
        """the same for a signed comparison  k+c <= t  or  k+c < t  (k < 2^28, so that k+c does not wrap)"""
        neg = z3.is_not(c)
        d = c.arg(0) if neg else c
        if not z3.is_app(d) or d.num_args() != 2: return None
        o = d.decl().kind()
        if o not in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT): return None
        a, b = d.children()
        w = a.size()
        if o in (z3.Z3_OP_SGEQ, z3.Z3_OP_SGT): a, b = b, a
        strict = o in (z3.Z3_OP_SLT, z3.Z3_OP_SGT)
        if neg: a, b, strict = b, a, not strict      # a <= b or a < b
        if w not in (32, 64) or occurs(b, k): return None
        kk = k if w == 64 else z3.simplify(z3.Extract(31, 0, k))
        off = z3.simplify(a - kk)
        if not z3.is_bv_value(off): return None
        off = off.as_signed_long()
        if not -(1 << 28) <= off <= (1 << 28): return None
        # for all j < k: j+off (<|<=) b    <=>   k = 0 or k-1+off (<|<=) b
        m = (z3.SignExt(32, b) if w == 32 else b) - z3.BitVecVal(off - (0 if strict else 1), 64)
        if w == 64:
            m = z3.If(b > z3.BitVecVal(1 << 29, 64), z3.BitVecVal(1 << 30, 64), z3.If(b < z3.BitVecVal(-(1 << 29), 64), z3.BitVecVal(0, 64), m))
        return z3.If(m > 0, m, z3.BitVecVal(0, 64))
    def freshlike(self, arr):
        self.nfresh += 1
        return z3.Const('M!%d' % self.nfresh, arr.sort())
    def app(self, c, at): return c['F'](at)
    def valat(self, c, k, loc, gen):
        if c['kind'] == 'affine':
            v = c['init']; s = c['step']
            if s == 0: return v
            if isinstance(v, Ptr): return Ptr(v.obj, self.offadd(v.off, k * z3.BitVecVal(s, 64)))
            w = int(c['w'][1:])
            if isinstance(v, Fraction) or (is_z3(v) and z3.is_real(v)): raise Unsupported('affine real')
            kk = k if w == 64 else z3.Extract(w - 1, 0, k) if w < 64 else z3.ZeroExt(w - 64, k)
            if w == 64:
                e = bv(v, w) + kk * z3.BitVecVal(s, 64); cc, t = self.lin(e); return self.unlin(cc, t)
            return (bv(v, w) + kk * z3.BitVecVal(s, w)) if not (isinstance(v, int) and v == 0) else (kk if s == 1 else kk * z3.BitVecVal(s, w))
        if c['kind'] == 'arr':
            if c['state'] == 'probe': return c['base']
            return c['lam'](k)
        # generic
        v = c['init']
        if is_ptr(v): raise Unsupported('generic pointer in loop')
        if 'F' not in c:
            self.nfresh += 1
            if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)): srt = z3.BoolSort()
            elif frac(v) or (is_z3(v) and z3.is_real(v)): srt = z3.RealSort()
            else: srt = z3.BitVecSort(int(c['w'][1:]) if c['w'][0] == 'i' else 64)
            c['F'] = z3.Function('F!%d' % self.nfresh, z3.BitVecSort(64), srt); c['sort'] = srt
        return c['F'](k)
    def consec(self, Sk, c, loc, k, nexts, conds, B, gen):
        """check value(next) == value(k+1) on every back edge; adapts c and returns False when not"""
        if c['kind'] == 'affine':
            want = self.valat(c, k + 1, loc, gen)
            for v, b in zip(nexts, B):
                if not self.eqv(b, v, want):
                    c['kind'] = 'generic'; c.pop('step', None); return False
            return True
        if c['kind'] in ('generic',):
            v = None
            for x, cond in zip(reversed(nexts), reversed(conds)):
                v = x if v is None else self.ite(cond, x, v, c['w'])
            if is_ptr(v): raise Unsupported('generic pointer in loop')
            old = c.get('next')
            if old is None or not self.same(zv(old), zv(v) if not (isinstance(v, int) and not isinstance(v, bool)) else zvw(v, c)):
                n = c['nn'] = c.get('nn', 0) + 1
                if n > 3: raise Unsupported('generic location does not stabilise')
                if not isinstance(v, bool) and isinstance(v, int): v = zvw(v, c)
                if isinstance(v, bool): v = zb(v)
                if frac(v): v = rv(v)
                c['next'] = v
                return False
            return True
        raise Unsupported('consec ' + c['kind'])
    def eqv(self, st, a, b):
        if self.same(a, b): return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj: return False
            x = self.lin(bv(a.off & M64 if isinstance(a.off, int) else a.off, 64) - bv(b.off & M64 if isinstance(b.off, int) else b.off, 64))
            if not x[1]: return x[0] == 0
            return self.check(st.pc, [self.unlin(*x) != 0], full=False)[0] == 'unsat'
        if is_ptr(a) or is_ptr(b): return False
        if isinstance(a, int) and isinstance(b, int): return a == b
        if frac(a): a = rv(a)
        if frac(b): b = rv(b)
        w = a.size() if is_z3(a) and z3.is_bv(a) else b.size() if is_z3(b) and z3.is_bv(b) else None
        if w: a, b = bv(a, w), bv(b, w)
        else: a, b = zb(a), zb(b)
        d = z3.simplify(a == b)
        if z3.is_true(d): return True
        return self.check(st.pc, [a != b], full=False)[0] == 'unsat'
    def consec_arr(self, Sk, c, loc, k, nexts, conds, kname, mark):
        base = c['base'] if c['state'] == 'probe' else None
        if self.opt.get('debug2'): print('consec', loc, c['state'], c.get('base'), [str(x)[:200] for x in nexts])
        v = None
        for x, cond in zip(reversed(nexts), reversed(conds)):
            v = x if v is None else z3.If(zb(cond), x, v)
        if c['state'] == 'probe':
            # find the store index
            idxs = []; stk = [v]; seen = set()
            while stk:
                x = stk.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if x.eq(base): continue
                if z3.is_store(x): idxs.append(x.arg(1)); stk.append(x.arg(0))
                elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: stk.append(x.arg(1)); stk.append(x.arg(2))
                else: raise Unsupported('array update shape %s' % (str(x)[:300]))
            ix = z3.simplify(idxs[0])
            for i in idxs[1:]:
                if not z3.simplify(i).eq(ix): raise Unsupported('several store positions per iteration')
            nx = z3.substitute(ix, (k, k + 1))
            sgn = None
            for s in (1, -1):
                if self.check(Sk.pc, [nx - ix != z3.BitVecVal(s, 64)], full=False)[0] == 'unsat': sgn = s; break
            if sgn is None: raise Unsupported('store position not affine')
            if occurs(ix, base): raise Unsupported('store position depends on stored data')
            f = z3.simplify(self.sel(v, ix))
            f = z3.substitute(f, (z3.Select(base, ix), self.sel(c['init'], ix)))
            if occurs(f, base):
                f = z3.simplify(f); f = z3.substitute(f, (z3.Select(base, z3.simplify(ix)), self.sel(c['init'], ix)))
                if occurs(f, base): raise Unsupported('stored value depends on earlier iterations')
            if self.freshused(f, mark, (kname,)): raise Unsupported('stored value nondeterministic')
            i0 = z3.substitute(ix, (k, z3.BitVecVal(0, 64)))
            init = c['init']
            def lam(kk):
                self.nfresh += 1
                i = z3.BitVec('i!%d' % self.nfresh, 64)
                jj = (i - i0) if sgn == 1 else (i0 - i)
                return z3.Lambda([i], z3.If(z3.ULT(jj, kk), z3.substitute(f, (k, jj)), self.sel(init, i)))
            c['lam'] = lam; c['state'] = 'lam'; c['ix'] = ix
            return False
        want = c['lam'](k + 1)
        i = self.fresh('ai', 64)
        for x, cond, in zip(nexts, conds):
            r = self.check(Sk.pc, [zb(cond), self.sel(x, i) != self.sel(want, i)], full=True)[0]
            if r != 'unsat': raise Unsupported('array summary not inductive')
        return True

def occurs(e, x):
    stk = [e]; seen = set()
    while stk:
        y = stk.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if y.eq(x): return True
        if z3.is_quantifier(y): stk.append(y.body())
        else: stk.extend(y.children())
    return False
def zv(v):
    if isinstance(v, bool): return zb(v)
    if isinstance(v, Fraction): return rv(v)
    return v
def zvw(v, c):
    if isinstance(v, bool): return zb(v)
    if isinstance(v, Fraction): return rv(v)
    if isinstance(v, int): return z3.BitVecVal(v, c['sort'].size()) if c.get('sort') is not None and not c['sort'] == z3.BoolSort() else (z3.BoolVal(bool(v)))
    return v

# ---------------------------------------------------------------- models of external functions (assumed contracts)
BUILTINS = {}
BUILTIN_RX = []
FORCED = []
def model(*names):
    def d(f):
        for n in names: BUILTINS[n] = f
        return f
    return d
def model_rx(rx, forced=False):
    def d(f):
        r = re.compile(rx); BUILTIN_RX.append((r, f))
        if forced: FORCED.append(r)
        return f
    return d
def A(e, st, inst, i): return e.val(st, inst[4][i])

@model('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def m_new(e, st, fr, inst, name):
    n = A(e, st, inst, 0)
    if e.qdepth: raise Unsupported('allocation under quantifier')
    if is_z3(n):
        s = z3.simplify(n)
        if z3.is_bv_value(s): n = s.as_long()
    oid = e.alloc(st, ('h', st.key()), 'heap:%s' % fr.fn.name[-40:], n, 'heap', 'undef')
    return e.finish(st, fr, inst, Ptr(oid, 0))
@model('calloc')
def m_calloc(e, st, fr, inst, name):
    n = e.binop(st, 'mul', 'i64', A(e, st, inst, 0), A(e, st, inst, 1))
    oid = e.alloc(st, ('h', st.key()), 'heap', n, 'heap', 'zero')
    return e.finish(st, fr, inst, Ptr(oid, 0))
@model_rx(r'_ZN9__gnu_cxx1[02]__(pool|mt)_allocI.*E8allocateEmPKv$', True)
def m_poolalloc(e, st, fr, inst, name):
    n = A(e, st, inst, 1)
    es = elemsize(e, name)
    if e.qdepth: raise Unsupported('allocation under quantifier')
    e.res.assumed.add('the libstdc++ pool allocators return fresh memory')
    sz = n * es if isinstance(n, int) else e.offadd(0, n * z3.BitVecVal(es, 64))
    oid = e.alloc(st, ('h', st.key()), 'heap:%s' % fr.fn.name[-40:], sz, 'heap', 'undef')
    return e.finish(st, fr, inst, Ptr(oid, 0))
def elemsize(e, name):
    f = e.prog.funcs[name]
    for b in f.blocks:
        for i in b:
            if i[0] == 'bin' and i[2] == 'mul' and i[5][0] == 'i': return i[5][2]
            if i[0] == 'bin' and i[2] == 'shl' and i[5][0] == 'i': return 1 << i[5][2]
    # no multiplication: sizeof == 1
    return 1
@model_rx(r'_ZN9__gnu_cxx1[02]__(pool|mt)_allocI.*E10deallocateEP.*m$', True)
def m_pooldealloc(e, st, fr, inst, name):
    p = e.resolve(st, A(e, st, inst, 1))
    return m_delete_p(e, st, fr, inst, p)
@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free')
def m_delete(e, st, fr, inst, name):
    return m_delete_p(e, st, fr, inst, e.resolve(st, A(e, st, inst, 0)))
def m_delete_p(e, st, fr, inst, p):
    if isinstance(p, Ptr) and p.obj is None:
        if isinstance(p.off, int): return e.finish(st, fr, inst, None)
        raise Unsupported('delete of symbolic pointer')
    o = e.getobj(st, p.obj)
    if not o.alive: e.oblig(st, False, 'memory safety: double delete of %s' % o.name, safety=True); raise PathEnd('df')
    if isinstance(p.off, int) and p.off != 0: e.oblig(st, False, 'memory safety: delete of interior pointer', safety=True)
    o = e.wobj(st, p.obj); o.alive = False; o.cells = {}; o.arr = None
    return e.finish(st, fr, inst, None)
@model('memcpy', 'memmove')
def m_memcpy(e, st, fr, inst, name):
    e.copy(st, A(e, st, inst, 0), A(e, st, inst, 1), A(e, st, inst, 2)); return e.finish(st, fr, inst, A(e, st, inst, 0))
@model('memset')
def m_memset(e, st, fr, inst, name):
    b = A(e, st, inst, 1); e.fill(st, A(e, st, inst, 0), b & 255 if isinstance(b, int) else b, A(e, st, inst, 2)); return e.finish(st, fr, inst, A(e, st, inst, 0))
@model('memcmp', 'bcmp')
def m_memcmp(e, st, fr, inst, name):
    a = e.resolve(st, A(e, st, inst, 0)); b = e.resolve(st, A(e, st, inst, 1)); n = A(e, st, inst, 2)
    if isinstance(n, int) and n == 0: return e.finish(st, fr, inst, 0)
    oa = e.getobj(st, a.obj); ob = e.getobj(st, b.obj)
    if isinstance(n, int) and isinstance(a.off, int) and isinstance(b.off, int) and oa.arr is None and ob.arr is None:
        # compare by the cell structure of either side
        eq = True; x = 0
        e.inbounds(st, oa, a.off, n); e.inbounds(st, ob, b.off, n)
        while x < n:
            ca = oa.cells.get(a.off + x); cb = ob.cells.get(b.off + x)
            l = None
            for c in (ca, cb):
                if c is not None and x + c[0] <= n: l = c[0] if l is None else min(l, c[0])
            if l is None: l = 8 if (a.off + x) % 8 == 0 and x + 8 <= n else 4 if (a.off + x) % 4 == 0 and x + 4 <= n else 1
            ty = 'i%d' % (8 * l)
            for c in (ca, cb):
                if c is not None and c[0] == l and (frac(c[1]) or (is_z3(c[1]) and z3.is_real(c[1]))): ty = 'f64'
                if c is not None and c[0] == l and is_ptr(c[1]): ty = 'ptr'
            va = e.cellread(st, e.getobj(st, a.obj), a.off + x, l, ty); vb = e.cellread(st, e.getobj(st, b.obj), b.off + x, l, ty)
            eq = b_and(eq, e.cmpop(st, 'eq' if ty[0] != 'f' else 'oeq', ty, va, vb)); x += l
        if eq is True: return e.finish(st, fr, inst, 0)
        r = e.fresh('memcmp', 32)
        e.assume(st, zb(eq) == (r == 0))
        return e.finish(st, fr, inst, r)
    # arrays of symbolic extent: result 0 iff all elements agree (its sign is left open)
    if e.qdepth: raise Unsupported('memcmp under a quantifier')
    st_ = (oa.arr or ob.arr or (None,))[0]
    if st_ is None: raise Unsupported('memcmp of untyped arrays')
    for oid in (a.obj, b.obj):
        if e.getobj(st, oid).arr is None: e.arrsetup(st, e.getobj(st, oid), st_)
        elif e.getobj(st, oid).arr[0] != st_: raise Unsupported('memcmp between strides')
    cnt = e.divlin(bv(n, 64), st_)
    if cnt is None: raise Unsupported('memcmp length')
    cnt = bv(cnt & M64 if isinstance(cnt, int) else cnt, 64)
    oa = e.getobj(st, a.obj); ob = e.getobj(st, b.obj)
    res = dict((r, (x[0], x[1])) for r, x in (oa.arr[1] or ob.arr[1]).items())
    if sum(x[0] for x in res.values()) != st_: raise Unsupported('memcmp of padded elements')
    ai, ar = e.arridx(oa, a.off, 0); bi, br_ = e.arridx(ob, b.off, 0)
    if ar or br_: raise Unsupported('memcmp alignment')
    for o, p in ((oa, a), (ob, b)):
        if o.size is not None:
            tot = bv(o.size, 64); off = bv(p.off & M64 if isinstance(p.off, int) else p.off, 64)
            e.oblig(st, z3.And(z3.ULE(off, tot), z3.ULE(bv(n, 64), tot - off)), 'memory safety: memcmp within %s' % o.name, safety=True)
    ai = bv(ai & M64 if isinstance(ai, int) else ai, 64); bi = bv(bi & M64 if isinstance(bi, int) else bi, 64)
    def differ(i):
        d = False
        for r, (l, real) in res.items():
            x = e.sel(e.arrget(e.getobj(st, a.obj), r, l, real, st), ai + i); y = e.sel(e.arrget(e.getobj(st, b.obj), r, l, real, st), bi + i)
            d = b_or(d, x != y)
        return zb(d)
    r = e.fresh('memcmp', 32); w = e.fresh('memcmpw', 64); q = e.fresh('memcmpq', 64)
    e.assume(st, z3.Implies(r != 0, z3.And(z3.ULT(w, cnt), differ(w))))
    e.assume(st, z3.Implies(r == 0, z3.ForAll([q], z3.Implies(z3.ULT(q, cnt), z3.Not(differ(q))))))
    return e.finish(st, fr, inst, r)
@model('strlen')
def m_strlen(e, st, fr, inst, name):
    return e.finish(st, fr, inst, len(e.cstr(st, A(e, st, inst, 0))))
@model('strcmp')
def m_strcmp(e, st, fr, inst, name):
    a, b = e.cstr(st, A(e, st, inst, 0)), e.cstr(st, A(e, st, inst, 1))
    return e.finish(st, fr, inst, 0 if a == b else (1 if a > b else 0xffffffff))
@model('__cxa_allocate_exception')
def m_allocexc(e, st, fr, inst, name):
    oid = e.alloc(st, ('exc', st.key()), 'exception', 4096, 'heap', 'undef')
    return e.finish(st, fr, inst, Ptr(oid, 0))
@model('__cxa_free_exception')
def m_freeexc(e, st, fr, inst, name): return e.finish(st, fr, inst, None)
@model('__cxa_throw')
def m_throw(e, st, fr, inst, name):
    p = e.resolve(st, A(e, st, inst, 0)); ti = A(e, st, inst, 1)
    nm = e.tiname(st, ti)
    st.ghost[('ti', p.obj)] = nm
    st.exc = (p.obj, nm, 'fly')
    if os.environ.get('VC_TRACE_THROW'): print('throw', nm, [getattr(getattr(f, 'fn', None), 'name', f) for f in st.frames][-8:], file=sys.stderr)
    return e.throw(st, fr, inst)
@model('__cxa_rethrow')
def m_rethrow(e, st, fr, inst, name):
    c = st.ghost.get('caught', ())
    if not c: raise Unsupported('rethrow outside catch')
    st.exc = (c[-1], st.ghost.get(('ti', c[-1])), 'fly')
    return e.throw(st, fr, inst)
@model('__cxa_begin_catch')
def m_begin(e, st, fr, inst, name):
    p = e.resolve(st, A(e, st, inst, 0))
    st.ghost['caught'] = st.ghost.get('caught', ()) + (p.obj,)
    return e.finish(st, fr, inst, p)
@model('__cxa_get_exception_ptr')
def m_getexc(e, st, fr, inst, name): return e.finish(st, fr, inst, A(e, st, inst, 0))
@model('__cxa_end_catch')
def m_end(e, st, fr, inst, name):
    c = st.ghost.get('caught', ())
    st.ghost['caught'] = c[:-1]
    if not c[:-1]: st.ghost.pop('caught')
    if c: st.ghost.pop(('ti', c[-1]), None)
    return e.finish(st, fr, inst, None)
@model('_ZSt9terminatev', '__clang_call_terminate', 'abort', '__assert_fail', '_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt20__throw_out_of_rangePKc', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt19__throw_logic_errorPKc', '__cxa_pure_virtual', '__cxa_bad_cast', '__cxa_throw_bad_array_new_length', '_ZSt21__glibcxx_assert_failPKciS0_S0_', '_ZSt16__throw_bad_castv', '__cxa_call_unexpected', '_ZSt25__throw_bad_function_callv')
def m_abort(e, st, fr, inst, name):
    if name in ('_ZSt9terminatev', '__clang_call_terminate') or 'throw' not in name or 'assert' in name:
        e.oblig(st, False, 'abnormal termination: ' + name, safety=True); raise PathEnd('terminate')
    if name in ('_ZSt20__throw_length_errorPKc', '_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv', '__cxa_throw_bad_array_new_length'):
        # resource exhaustion is outside the contracts
        e.res.assumed.add('allocations succeed (no length_error/bad_alloc)')
        raise PathEnd('alloc failure')
    oid = e.alloc(st, ('exc', st.key()), 'exception', 64, 'heap', 'undef')
    ti = '_ZTISt9exception:' + name
    st.ghost[('ti', oid)] = '_ZTISt12out_of_range'
    st.exc = (oid, '_ZTISt12out_of_range', 'fly')
    return e.throw(st, fr, inst)
@model('__cxa_guard_acquire')
def m_guard(e, st, fr, inst, name):
    p = A(e, st, inst, 0); v = e.load(st, p, 'i8')
    if isinstance(v, int) and v: return e.finish(st, fr, inst, 0)
    return e.finish(st, fr, inst, 1)
@model('__cxa_guard_release')
def m_guardr(e, st, fr, inst, name):
    e.store(st, A(e, st, inst, 0), 'i8', 1); return e.finish(st, fr, inst, None)
# mutexes: sequential ghost lock counts (recursive mutexes)
@model('pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock')
def m_mutex(e, st, fr, inst, name):
    # two bookkeepings: per mutex (option locks=1) or the total number of locks held (keeps more states mergeable)
    if e.opt.get('locks'):
        p = e.resolve(st, A(e, st, inst, 0))
        if not (isinstance(p, Ptr) and p.obj is not None and isinstance(p.off, int)): return e.finish(st, fr, inst, 0)
        e.load(st, p, 'i8')         # the mutex must be alive
        k = ('mtx', p.obj, p.off)
    else: k = ('mtx',)
    n = st.ghost.get(k, 0)
    if name in ('pthread_mutex_lock', 'pthread_mutex_trylock'): st.ghost[k] = n + 1
    elif name == 'pthread_mutex_unlock':
        e.oblig(st, n > 0, 'unlock of a mutex that is not held', safety=True)
        if n > 1: st.ghost[k] = n - 1
        elif n == 1: st.ghost.pop(k)
    elif n and e.opt.get('locks') and name == 'pthread_mutex_destroy': e.oblig(st, False, 'a held mutex is destroyed', safety=True)
    return e.finish(st, fr, inst, 0)
@model('__cxa_guard_abort', '__cxa_atexit', 'pthread_mutexattr_init', 'pthread_mutexattr_settype', 'pthread_mutexattr_destroy',
       'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_setcancelstate', 'pthread_rwlock_wrlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_unlock')
def m_zero(e, st, fr, inst, name):
    return e.finish(st, fr, inst, 0 if inst[2] != 'void' else None)
@model('pthread_self')
def m_self(e, st, fr, inst, name): return e.finish(st, fr, inst, 1)
@model('pthread_equal')
def m_pteq(e, st, fr, inst, name):
    r = e.cmpop(st, 'eq', 'i64', A(e, st, inst, 0), A(e, st, inst, 1))
    return e.finish(st, fr, inst, e.castop(st, 'zext', 'i1', 'i32', r))
@model('__dynamic_cast')
def m_dyncast(e, st, fr, inst, name):
    p = e.resolve(st, A(e, st, inst, 0)); dst = e.tiname(st, A(e, st, inst, 2))
    if isinstance(p, Ptr) and p.obj is None and isinstance(p.off, int): return e.finish(st, fr, inst, NULL)
    vp = e.resolve(st, e.load(st, p, 'ptr'))
    if not isinstance(vp, Ptr) or vp.obj is None: raise Unsupported('dynamic_cast of unknown dynamic type')
    o = e.getobj(st, vp.obj)
    ti = e.resolve(st, e.load(st, Ptr(vp.obj, vp.off - 8), 'ptr'))
    top = e.load(st, Ptr(vp.obj, vp.off - 16), 'i64')
    nm = e.tiname(st, ti)
    top = signed(top, 64)
    off = e.baseoff(nm, dst)
    if off is None: return e.finish(st, fr, inst, NULL)
    return e.finish(st, fr, inst, e.padd(p, top + off))
STD_TI = {'_ZTISt9exception': None, '_ZTIi': None, '_ZTIPKc': None, '_ZTIPc': None, '_ZTINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE': None}
for _n, _b in (('9bad_alloc', '9exception'), ('20bad_array_new_length', '9bad_alloc'), ('8bad_cast', '9exception'), ('11logic_error', '9exception'), ('12out_of_range', '11logic_error'),
               ('12length_error', '11logic_error'), ('12domain_error', '11logic_error'), ('16invalid_argument', '11logic_error'), ('13runtime_error', '9exception'), ('11range_error', '13runtime_error'),
               ('14overflow_error', '13runtime_error')):
    STD_TI['_ZTISt' + _n] = '_ZTISt' + _b
def baseoff(self, ti, base):
    """offset of the (unique, non-virtual) base subobject; None if not derived"""
    if ti == base: return 0
    if ti in STD_TI: return self.baseoff(STD_TI[ti], base) if STD_TI[ti] else None
    g = self.prog.globals.get(ti)
    if g is None or 'init' not in g: raise Unsupported('unknown type info ' + str(ti))
    it = g['init'][2]
    if len(it) == 3 and it[2][0] == 'g': return self.baseoff(it[2][1], base)
    if len(it) > 3:
        for i in range(4, len(it), 2):
            fl = it[i + 1][2]
            fl = signed(fl, 64)
            if fl & 1: raise Unsupported('virtual base')
            r = self.baseoff(it[i][1], base)
            if r is not None: return (fl >> 8) + r
    return None
Interp.baseoff = baseoff

for _n in PURE_UF | {'floor', 'ceil', 'fabs', 'round', 'trunc', 'fmin', 'fmax'}:
    def _mk(n):
        def f(e, st, fr, inst, name):
            return e.finish(st, fr, inst, e.libm(st, n, [e.val(st, a) for a in inst[4]]))
        return f
    BUILTINS[_n] = _mk(_n)
    if _n not in ('floor','ceil','fabs','trunc','round','fmin','fmax'): BUILTINS[_n + 'f'] = BUILTINS[_n]
# complex functions of the C library: uninterpreted functions of the real and imaginary parts
for _n in ('cexp','clog','csin','ccos','ctan','csinh','ccosh','ctanh','csqrt','cpow','cacos','casin','catan','__divdc3'):
    def _mkc(n):
        def f(e, st, fr, inst, name):
            a = [rv(x) for x in (e.val(st, y) for y in inst[4])]
            S = [z3.RealSort()] * (len(a) + 1)
            return e.finish(st, fr, inst, [e.uf(n + '_re', *S)(*a), e.uf(n + '_im', *S)(*a)])
        return f
    BUILTINS[_n] = _mkc(_n)
for _n, _k in (('carg', 'atan2'), ('cabs', 'hypot')):
    def _mkd(k):
        def f(e, st, fr, inst, name):
            x, y = [e.val(st, v) for v in inst[4]][:2]
            return e.finish(st, fr, inst, e.libm(st, k, [y, x] if k == 'atan2' else [x, y]))
        return f
    BUILTINS[_n] = _mkd(_k)
@model('abs')
def m_abs(e, st, fr, inst, name):
    x = A(e, st, inst, 0); return e.finish(st, fr, inst, e.ite(e.cmpop(st, 'slt', 'i32', x, 0), e.binop(st, 'sub', 'i32', 0, x), x, 'i32'))

# strings and streams: diagnostics only; contents are not modelled.  Any function taking/returning std::string or streams
# that has no body (or is a basic_string/ostream member) is assumed to have no effect except on its own string object.
def m_nop_string(e, st, fr, inst, name):
    e.res.assumed.add('std::string / iostream operations have no effect on verified state (diagnostics only)')
    ty = inst[2]
    if ty == 'void': return e.finish(st, fr, inst, None)
    if ty == 'ptr' and inst[4]: return e.finish(st, fr, inst, e.val(st, inst[4][0]))
    return e.finish(st, fr, inst, e.fresh_ty('str', ty))
model_rx(r'_ZN(K)?St7__cxx11(12basic_string|18basic_stringstream|19basic_ostringstream|15basic_stringbuf)', True)(m_nop_string)
model_rx(r'_ZN(K)?SaIc', True)(m_nop_string)
model_rx(r'_ZStplIcSt11char_traits', True)(m_nop_string)
model_rx(r'_ZStlsISt11char_traits|_ZNSo|_ZNKSo|_ZStlsIcSt11|_ZSt4endl|_ZSt5flush|_ZNSt8ios_base|_ZNKSt8ios_base|_ZSt16__ostream_insert|_ZNSt9basic_ios|_ZNKSt9basic_ios|_ZNSt13basic_ostream|_ZNSt6locale', True)(m_nop_string)
@model_rx(r'_ZNSt9exceptionD|_ZNKSt9exception|_ZNSt9exceptionC|_ZN5LOFAR9Exception[CD][0-9]E', True)
def m_exc(e, st, fr, inst, name):
    vt = '_ZTVN5LOFAR9ExceptionE'
    if '9ExceptionC' in name and 'init' in e.prog.globals.get(vt, {}):
        e.store(st, A(e, st, inst, 0), 'ptr', e.padd(e.globptr(st, vt), 16))
    if inst[2] == 'void': return e.finish(st, fr, inst, None)
    return e.finish(st, fr, inst, e.fresh_ty('exc', inst[2]))
model_rx(r'_ZNK[A-Za-z0-9_]*?(6sdebug|8toString|5debug)(B5cxx11)?E|_ZN5Debug8ssprintf|_ZN(5LOFAR)?5Debug7appendf|_ZN5LOFAR5Debug8ssprintf', True)(m_nop_string)
# debugging contexts: debug output disabled (no effect on verified state)
@model_rx(r'_ZN(K)?5Debug7Context5checkE|_ZN(K)?7TimBase5Debug7Context5checkE', True)
def m_dbg(e, st, fr, inst, name):
    e.res.assumed.add('debug output disabled (Debug::Context::check == false)')
    return e.finish(st, fr, inst, False if inst[2] == 'i1' else 0)
