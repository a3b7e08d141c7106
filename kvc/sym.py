"""Symbolic executor / verification-condition generator over the extracted LLVM IR."""
import z3, time, re, subprocess
from .dom import *


class Ptr:
    __slots__ = ('obj', 'c', 't')

    def __init__(self, obj, c=0, t=()):
        self.obj = obj
        self.c = c
        self.t = t

    def __repr__(self): return 'Ptr(%s,%s%s)' % (self.obj, self.c, ''.join('+%d*%s' % (k, x) for k, x in self.t))


NULL = Ptr(None, 0)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name): self.name = name

    def __repr__(self): return 'Fn(%s)' % self.name


def s64(x):
    x &= mask(64)
    return x - (1 << 64) if x >> 63 else x


def lin64(x):
    """decompose a 64-bit term into (const, {id:(coef,term)})"""
    if isinstance(x, int): return s64(x), {}
    k = x.decl().kind()
    if k == z3.Z3_OP_BADD:
        c, t = 0, {}
        for ch in x.children():
            c2, t2 = lin64(simp(ch))
            c += c2
            for i, (co, tm) in t2.items():
                n = co + (t[i][0] if i in t else 0)
                if n: t[i] = (n, tm)
                else: t.pop(i, None)
        return c, t
    if k == z3.Z3_OP_BSUB:
        a, b = x.children()
        c, t = lin64(simp(a))
        c2, t2 = lin64(simp(b))
        t = dict(t)
        for i, (co, tm) in t2.items():
            n = -co + (t[i][0] if i in t else 0)
            if n: t[i] = (n, tm)
            else: t.pop(i, None)
        return c - c2, t
    if k == z3.Z3_OP_BNEG:
        c, t = lin64(simp(x.arg(0)))
        return -c, {i: (-co, tm) for i, (co, tm) in t.items()}
    if k == z3.Z3_OP_BMUL and x.num_args() == 2:
        a, b = x.children()
        if z3.is_bv_value(a): a, b = b, a
        if z3.is_bv_value(b):
            m = s64(b.as_long())
            c, t = lin64(simp(a))
            return c * m, {i: (co * m, tm) for i, (co, tm) in t.items()}
    if k == z3.Z3_OP_BSHL:
        a, b = x.children()
        if z3.is_bv_value(b) and b.as_long() < 63:
            m = 1 << b.as_long()
            c, t = lin64(simp(a))
            return c * m, {i: (co * m, tm) for i, (co, tm) in t.items()}
    return 0, {x.get_id(): (1, x)}


def linbv(c, t):
    r = None
    for co, tm in (t.values() if isinstance(t, dict) else t):
        e = tm if co == 1 else tm * BVV(co & mask(64), 64)
        r = e if r is None else r + e
    if r is None: return c & mask(64)
    if c: r = r + BVV(c & mask(64), 64)
    return r


def ptradd(p, c, pairs=()):
    """p + c + sum(scale*val)"""
    t = None
    for sc, v in pairs:
        c2, t2 = lin64(v) if not isinstance(v, int) else (s64(v), {})
        c += c2 * sc
        if t2:
            if t is None: t = {x[1].get_id(): x for x in p.t}
            for i, (co, tm) in t2.items():
                n = co * sc + (t[i][0] if i in t else 0)
                if n: t[i] = (n, tm)
                else: t.pop(i, None)
    return Ptr(p.obj, p.c + c, p.t if t is None else tuple(t.values()))


class Mem:
    """cells-mode memory object"""
    __slots__ = ('size', 'cells', 'init', 'es', 'tok', 'name', 'ro', 'log', 'freed', 'base', 'lazy', 'wlog')

    def __init__(self, size, init=None, es=1, name='', ro=False):
        self.size = size
        self.cells = {}
        self.init = init  # fn(byte offset, nbytes) -> value for es-sized element
        self.es = es
        self.tok = None
        self.name = name
        self.ro = ro
        self.log = None
        self.freed = False
        self.wlog = False

    def clone(self, tok):
        m = Mem.__new__(Mem)
        m.size, m.init, m.es, m.name, m.ro, m.log, m.freed = self.size, self.init, self.es, self.name, self.ro, self.log, self.freed
        m.cells = dict(self.cells) if self.cells is not None else None
        m.tok = tok
        m.wlog = self.wlog
        return m


class State:
    __slots__ = ('frames', 'mem', 'pc', 'ghost', 'tok', 'ret', 'depth', 'dead', 'trace')

    def fork(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        self.tok = object()
        s.tok = object()
        s.ret = None
        s.trace = self.trace
        return s


class Frame:
    __slots__ = ('fn', 'env', 'bb', 'ip', 'prev', 'dest', 'cuts', 'allocas', 'norm')

    def copy(self):
        f = Frame()
        f.fn, f.env, f.bb, f.ip, f.prev, f.dest, f.norm = self.fn, dict(self.env), self.bb, self.ip, self.prev, self.dest, self.norm
        f.cuts = dict(self.cuts)
        f.allocas = self.allocas
        return f


class Obligation(Exception):
    pass


class Failed:
    """a failed or undecided obligation"""

    def __init__(self, name, status, model=None, info=''):
        self.name, self.status, self.model, self.info = name, status, model, info

    def __repr__(self): return '<%s %s %s>' % (self.status, self.name, self.info)


class Stats:
    def __init__(self):
        self.ob = 0
        self.discharged = 0
        self.trivial = 0
        self.solver = 0.0
        self.queries = 0
        self.failed = []
        self.names = {}
        self.functions = set()
        self.insts = 0
        self.assumed = set()


class Exec:
    def __init__(self, mod, dom=None, stats=None, timeout=20000, loopmode='unroll', contracts=None, maxpaths=4000, memcheck=True):
        self.m = mod
        self.types = mod.types
        self.dom = dom or BitsDomain('uf')
        self.st = stats or Stats()
        self.timeout = timeout
        self.loopmode = loopmode
        self.contracts = contracts or []  # list of (predicate(dem)->bool | str prefix, handler)
        self.ccache = {}
        self.nobj = 0
        self.objaddr = {}
        self.fnaddr, self.fnat = {}, {}
        self.gobj = {}
        self.quiet = 0
        self.memcheck = memcheck
        self.maxpaths = maxpaths
        self.usercands = None
        self.maxinst = 5000000
        self.fresh_n = 0
        self.stop_backedge = None
        self.nloops_cut = 0
        self.unwindmax = 100000
        self.iters = {}
        self.globals_init = {}
        self.rng = None
        self.pure_names = set()
        self.feas_cache = {}
        self.lanewise = {}
        self.deadline = None
        self.posthook = None

    # ------------------------------------------------------------ utils
    def fresh(self, n, nm='v'):
        self.fresh_n += 1
        return BV('%s!%d' % (nm, self.fresh_n), n)

    def new_state(self):
        s = State()
        s.frames = []
        s.mem = {}
        s.pc = []
        s.ghost = {}
        s.tok = object()
        s.ret = None
        s.trace = ()
        return s

    def newobj(self, s, size, init=None, es=1, name='', ro=False, log=None):
        self.nobj += 1
        k = self.nobj
        m = Mem(size, init, es, name, ro)
        m.tok = s.tok
        if log is not None:
            m.log = log
            m.cells = None
        s.mem[k] = m
        return Ptr(k)

    def sym_array(self, s, name, es, n, ro=False):
        """array of n (symbolic ok) elements of es bytes with symbolic contents, log mode"""
        f = uf(name, z3.BitVecSort(64), z3.BitVecSort(8 * es))
        return self.newobj(s, n, None, es, name, ro, log=('base', f))

    def wmem(self, s, k):
        m = s.mem[k]
        if m.tok is not s.tok:
            m = m.clone(s.tok)
            s.mem[k] = m
        return m

    # ------------------------------------------------------------ solver
    def check(self, pc, *extra, timeout=None):
        t0 = time.time()
        sv = z3.Solver()
        sv.set('timeout', timeout or self.timeout)
        for p in list(pc) + list(extra): sv.add(p if not isinstance(p, int) or isinstance(p, bool) else z3.BoolVal(bool(p & 1)))
        if self.factgens or self.nlmul:
            ts = [t for t in list(pc) + list(extra) if z3.is_expr(t)]
            for nm, g in self.factgens:
                fs = g(self.apps_of(ts, nm))
                for f in fs: sv.add(f)
                ts += fs
            if self.nlmul:
                for f in self.mulfacts(ts): sv.add(f)
        r = sv.check()
        self.st.solver += time.time() - t0
        self.st.queries += 1
        return r, sv

    nlmul = None

    def mul64(self, a, b):
        """product of two symbolic 64-bit terms: an uninterpreted function with the true facts of multiplication instantiated in check();
        a product whose operand is a sum with a constant is expanded"""
        a, b = simp(a), simp(b)
        if isinstance(a, int) or isinstance(b, int): return simp(tobv(a, 64) * tobv(b, 64))
        for x, y in ((a, b), (b, a)):
            c, t = lin64(x)
            if c and t: return linbv(*lin64(simp(tobv(self.mul64(linbv(0, t), y), 64) + y * BVV(c & mask(64), 64))))
        if a.get_id() > b.get_id(): a, b = b, a
        s = z3.BitVecSort(64)
        r = uf('MUL64', s, s, s)(a, b)
        self.nlmul[r.get_id()] = r
        return r

    nldiv = ()  # widths at which division by a symbolic divisor is an uninterpreted function (facts supplied through factgens)
    factgens = ()  # (function symbol, fn(applications) -> facts): ground instances of a quantified assumption

    def apps_of(self, ts, nm):
        if not hasattr(self, 'appcaches'): self.appcaches = {}
        self.appcache = self.appcaches.setdefault(nm, {})
        out = {}

        def walk(t):
            r = self.appcache.get(t.get_id())
            if r is None:
                r = {}
                if z3.is_app(t):
                    for c in t.children(): r.update(walk(c))
                    if t.decl().name() == nm: r[t.get_id()] = t
                elif z3.is_quantifier(t): r.update(walk(t.body()))
                self.appcache[t.get_id()] = r
                self.keep = getattr(self, 'keep', [])
                self.keep.append(t)
            return r
        for t in ts:
            if z3.is_expr(t): out.update(walk(t))
        return list(out.values())

    def mulfacts(self, ts, L=1 << 31):
        """instances, for the products that occur, of: 0*c = 0; (a+1)*c = a*c + c; a < b <= L, c <= L -> a*c + c <= b*c <= L*L"""
        F = []
        apps = self.apps_of(ts, 'MUL64')
        B = lambda v: z3.ULE(v, BVV(L, 64))
        for m in apps:
            a, b = m.arg(0), m.arg(1)
            F.append(z3.Implies(z3.Or(a == 0, b == 0), m == 0))
            F.append(z3.Implies(a == 1, m == b))
            F.append(z3.Implies(b == 1, m == a))
            F.append(z3.Implies(z3.And(B(a), B(b)), z3.And(z3.ULE(m, BVV(L * L, 64)), z3.Implies(a != 0, z3.ULE(b, m)), z3.Implies(b != 0, z3.ULE(a, m)))))
        for i, m in enumerate(apps):
            for k in apps[i + 1:]:
                for x, c in ((m.arg(0), m.arg(1)), (m.arg(1), m.arg(0))):
                    for y, d in ((k.arg(0), k.arg(1)), (k.arg(1), k.arg(0))):
                        if not c.eq(d): continue
                        g = z3.And(B(x), B(y), B(c))
                        F.append(z3.Implies(z3.And(g, z3.ULT(x, y)), z3.ULE(m + c, k)))
                        F.append(z3.Implies(z3.And(g, z3.ULT(y, x)), z3.ULE(k + c, m)))
                        F.append(z3.Implies(x == y, m == k))
                        F.append(z3.Implies(x + 1 == y, m + c == k))
                        F.append(z3.Implies(y + 1 == x, k + c == m))
        return F

    def second_opinion(self, sv):
        """an obligation left open by the first attempt: another Z3 seed, then cvc5"""
        t0 = time.time()
        s2 = z3.Solver()
        s2.set('timeout', self.timeout)
        s2.set('random_seed', 77)
        for a in sv.assertions(): s2.add(z3.simplify(a))
        r = s2.check()
        if r == z3.unknown:
            try:
                q = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % min(self.timeout, 30000)], input='(set-logic ALL)\n' + sv.to_smt2(), capture_output=True, text=True, timeout=self.timeout / 1000 + 10)
                if q.stdout.strip() == 'unsat': r = z3.unsat
            except (subprocess.TimeoutExpired, OSError): pass
        self.st.solver += time.time() - t0
        self.st.queries += 2
        return r, s2

    def feasible(self, pc, c):
        if not self.relevant_syms(c): pass
        r, _ = self.check(pc, c, timeout=3000)
        return r != z3.unsat

    def relevant_syms(self, c): return True

    def valid(self, s, cond):
        cond = simpl(cond)
        if isinstance(cond, int): return bool(cond & 1)
        r, _ = self.check(s.pc, z3.Not(tobool(cond)))
        return r == z3.unsat

    def obligate(self, s, cond, name, info=''):
        """generate an obligation; returns True if discharged"""
        if self.quiet: return True
        self.st.ob += 1
        key = name.split('@')[0]
        self.st.names[key] = self.st.names.get(key, 0) + 1
        cond = simpl(cond)
        if isinstance(cond, int):
            if cond & 1:
                self.st.discharged += 1
                self.st.trivial += 1
                return True
            r, sv = self.check(s.pc)
            if r == z3.unsat:
                self.st.discharged += 1
                return True
            self.st.failed.append(Failed(name, 'refuted' if r == z3.sat else 'undecided', sv.model() if r == z3.sat else None, info))
            return False
        r, sv = self.check(s.pc, z3.Not(cond))
        if r == z3.unknown: r, sv = self.second_opinion(sv)
        if r == z3.sat:
            fs = self.commfacts(list(s.pc) + [z3.Not(cond)])
            if fs:
                r2, sv2 = self.check(s.pc, z3.Not(cond), *fs)
                if r2 != z3.unknown: r, sv = r2, sv2
        if r == z3.unsat:
            self.st.discharged += 1
            return True
        if r == z3.sat:
            self.st.failed.append(Failed(name, 'refuted', sv.model(), info))
        else:
            self.st.failed.append(Failed(name, 'undecided', None, info))
        return False

    def commfacts(self, ts):
        """floating-point addition and multiplication commute: instances for the applications in the terms"""
        seen, todo, out = set(), [t for t in ts if z3.is_expr(t)], []
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id())
            todo += t.children()
            if z3.is_app(t) and t.num_args() >= 2 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith(('fadd', 'fmul', 'fma')):
                c = t.children()
                if not c[0].eq(c[1]): out.append(t == t.decl()(*([c[1], c[0]] + c[2:])))
        return out

    def obligate_many(self, s, conds):
        """several obligations in one state: one query for the conjunction, one each only if that fails"""
        if self.quiet: return
        todo = []
        for c, nm in conds:
            c = simpl(c)
            if isinstance(c, int): self.obligate(s, c, nm)
            else: todo.append((c, nm))
        if len(todo) > 1:
            r, _ = self.check(s.pc, z3.Not(z3.And([tobool(c) for c, _ in todo])))
            if r == z3.unsat:
                for c, nm in todo:
                    self.st.ob += 1
                    self.st.discharged += 1
                    self.st.names[nm] = self.st.names.get(nm, 0) + 1
                return
        for c, nm in todo: self.obligate(s, c, nm)

    def record(self, ok, name, info='', status='refuted'):
        """obligation decided outside the SMT solver (exact polynomial / linear-form comparison)"""
        self.st.ob += 1
        key = name.split('@')[0]
        self.st.names[key] = self.st.names.get(key, 0) + 1
        if ok: self.st.discharged += 1
        else: self.st.failed.append(Failed(name, status, None, info))
        return ok

    # ------------------------------------------------------------ memory
    def addr(self, obj):
        if obj is None: return 0
        if obj not in self.objaddr: self.objaddr[obj] = (len(self.objaddr) + 1) << 40
        return self.objaddr[obj]

    def ptr2int(self, p):
        if isinstance(p, FnPtr):
            if p.name not in self.fnaddr:
                self.fnaddr[p.name] = (1 << 62) + 16 * (len(self.fnaddr) + 1)
                self.fnat[self.fnaddr[p.name]] = p
            return self.fnaddr[p.name]
        if isinstance(p, int): return p
        a = self.addr(p.obj) + p.c
        return linbv(a, p.t)

    def int2ptr(self, v):
        if isinstance(v, (Ptr, FnPtr)): return v
        if isinstance(v, int):
            if v == 0: return NULL
            if v in self.fnat: return self.fnat[v]
            k = v >> 40
            for o, a in self.objaddr.items():
                if a >> 40 == k: return Ptr(o, v - a)
                if a >> 40 == k + 1 and v - a > -4096: return Ptr(o, v - a)
            return Ptr(None, v)
        if is_bv(v):
            c, t = lin64(v)
            k = (c + (1 << 39)) >> 40
            for o, a in self.objaddr.items():
                if a >> 40 == k: return Ptr(o, c - a, tuple(t.values()))
        raise Unsupported('inttoptr')

    def default(self, m, off):
        """materialise the es-sized element containing byte off; returns (elem_off, nbytes, value)"""
        es = m.es
        eo = off // es * es
        if m.init is None: v = POISON
        else: v = m.init(eo, es)
        return eo, es, v

    def rd(self, m, off, n):
        """read n raw bytes at concrete offset (cells mode)"""
        c = m.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        parts = []
        pos = off
        end = off + n
        while pos < end:
            hit = None
            for d in range(16):
                c = m.cells.get(pos - d)
                if c is not None:
                    if pos - d + c[0] > pos: hit = (pos - d, c)
                    break
            if hit is None:
                if m.init is None:
                    parts.append((POISON, 8))
                    pos += 1
                    continue
                eo, es, v = self.default(m, pos)
                # only insert if it does not clash with cells inside
                clash = any((eo + d) in m.cells for d in range(es))
                if not clash:
                    hit = (eo, (es, v))
                else:
                    hit = (eo, (es, v))
                    lo = pos
                    hi = pos + 1
                    while hi < min(end, eo + es) and hi not in m.cells: hi += 1
                    parts.append((slice_(v, es * 8, (lo - eo) * 8, (hi - lo) * 8), (hi - lo) * 8))
                    pos = hi
                    continue
            o, (sz, v) = hit
            hi = min(end, o + sz)
            # a later cell may start inside (never overlapping by construction)
            parts.append((slice_(v, sz * 8, (pos - o) * 8, (hi - pos) * 8), (hi - pos) * 8))
            pos = hi
        return cat(parts)

    def wr(self, m, off, n, v):
        cells = m.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # remove overlaps, keep the uncovered remains
        for p in range(off - 15, off + n):
            c = cells.get(p)
            if c is None: continue
            sz, cv = c
            if p + sz <= off: continue
            del cells[p]
            if p < off: cells[p] = (off - p, slice_(cv, sz * 8, 0, (off - p) * 8))
            if p + sz > off + n: cells[off + n] = (p + sz - off - n, slice_(cv, sz * 8, (off + n - p) * 8, (p + sz - off - n) * 8))
        cells[off] = (n, v)

    def bounds(self, s, p, n, what):
        """memory-safety obligation; returns Mem or None when the access is definitely invalid"""
        if isinstance(p, FnPtr) or p.obj is None:
            self.obligate(s, 0, 'memory-safety:null/invalid pointer %s' % what)
            return None
        m = s.mem.get(p.obj)
        if m is None:
            self.obligate(s, 0, 'memory-safety:dangling pointer %s' % what)
            return None
        if m.freed:
            self.obligate(s, 0, 'memory-safety:use after free %s' % what)
            return None
        if not p.t and m.log is None:
            if isinstance(m.size, int):
                ok = 0 <= p.c and p.c + n <= m.size
                if not ok:
                    self.obligate(s, 0, 'memory-safety:%s out of bounds of %s' % (what, m.name), 'offset %d size %d of %d' % (p.c, n, m.size))
                    return None
                return m
        return m

    def elem_index(self, m, p):
        es = m.es
        if p.c % es or any(co % es for co, _ in p.t): raise Unsupported('misaligned access into %s (elem %d): %r' % (m.name, es, p))
        return linbv(p.c // es, tuple((co // es, tm) for co, tm in p.t))

    def log_read(self, log, i):
        ent = log
        conds = []
        while True:
            k = ent[0]
            if k == 'base':
                v = ent[1](tobv(i, 64))
                break
            if k == 'st':
                c = simpl(tobv(i, 64) == tobv(ent[1], 64))
                if isinstance(c, int):
                    if c: 
                        v = ent[2]
                        break
                else: conds.append((c, ent[2]))
            elif k == 'rng':
                # ('rng', lo, cnt, fn(j)->value, prev)
                _, lo, cnt, fn, prev = ent
                ii, l, n = tobv(i, 64), tobv(lo, 64), tobv(cnt, 64)
                c = simpl(z3.ULT(ii - l, n))
                if isinstance(c, int):
                    if c:
                        v = fn(simpl(ii - l))
                        break
                else: conds.append((c, fn(simpl(ii - l))))
                ent = prev
                continue
            elif k == 'ite':
                # ('ite', cond, logA, logB)
                v = self.ite(ent[1], self.log_read(ent[2], i), self.log_read(ent[3], i), None)
                break
            ent = ent[3]
        for c, w in reversed(conds):
            v = self.ite(c, w, v, None)
        return v

    def ite(self, c, a, b, n):
        c = simp(c) if not isinstance(c, int) else c
        if isinstance(c, int): return a if c & 1 else b
        if a is b: return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            d = z3.If(tobool(c), tobv(linbv(a.c, a.t), 64), tobv(linbv(b.c, b.t), 64))
            return ptradd(Ptr(a.obj), 0, ((1, d),))
        if isinstance(a, int) and isinstance(b, int):
            if a == b: return a
            if n is None: raise Unsupported('ite width')
            if n == 1: return c if a else z3.Not(tobool(c))
            return z3.If(tobool(c), BVV(a, n), BVV(b, n))
        if a is POISON or b is POISON:
            o = b if a is POISON else a
            w = n or (o.size() if is_bv(o) else None)
            if o is POISON or w is None: return POISON
            f = self.fresh(w, 'poison')
            return z3.If(tobool(c), f if a is POISON else tobv(a, w), f if b is POISON else tobv(b, w))
        if is_bool(a) or is_bool(b):
            return z3.If(tobool(c), tobool(a), tobool(b))
        if is_bv(a) or is_bv(b):
            w = a.size() if is_bv(a) else b.size()
            return z3.If(tobool(c), tobv(a, w), tobv(b, w))
        if isinstance(a, Poly) or isinstance(b, Poly):
            f = getattr(self.dom, 'ite', None)
            if f: return f(c, a, b, n)
        raise Unsupported('ite of %r / %r' % (a, b))

    def read_scalar(self, s, p, n, what='load'):
        """raw n-byte value at p"""
        m = self.bounds(s, p, n, what)
        if m is None: return POISON
        if m.log is not None:
            es = m.es
            if n % es: 
                if es % n == 0:
                    # sub-element access
                    if p.t and any(co % es for co, _ in p.t): raise Unsupported('sub-element access')
                    lo = p.c % es
                    v = self.read_scalar(s, Ptr(p.obj, p.c - lo, p.t), es, what)
                    return slice_(v, es * 8, lo * 8, n * 8)
                raise Unsupported('access size %d of %s' % (n, m.name))
            i = self.elem_index(m, p)
            k = n // es
            if self.memcheck: self.log_bounds(s, m, i, k, what)
            parts = [(self.log_read(m.log, simpl(tobv(i, 64) + j) if not isinstance(i, int) else i + j), es * 8) for j in range(k)]
            return cat(parts)
        if not p.t: return self.rd(m, p.c, n)
        # symbolic offset in a cells object: case split over possible offsets
        offs = self.cand_offsets(s, m, p, n, what)
        if not offs: return POISON
        o = tobv(linbv(p.c, p.t), 64)
        v = self.rd(m, offs[-1], n)
        for c in reversed(offs[:-1]):
            v = self.ite(o == c, self.rd(m, c, n), v, n * 8)
        return v

    def log_bounds(self, s, m, i, k, what):
        n = m.size
        i, n = tobv(i, 64), tobv(n, 64)
        c = z3.And(z3.ULE(BVV(k, 64), n), z3.ULE(i, n - k))
        self.obligate(s, c, 'memory-safety:%s in bounds of %s' % (what, m.name))
        if not self.quiet: s.pc.append(c)

    def cand_offsets(self, s, m, p, n, what):
        import math
        if not isinstance(m.size, int): raise Unsupported('symbolic offset in object of symbolic size')
        g = 0
        for co, _ in p.t: g = math.gcd(g, abs(co))
        o = tobv(linbv(p.c, p.t), 64)
        ok = z3.And(z3.ULE(o, BVV(max(m.size - n, 0), 64)), m.size >= n)
        self.obligate(s, ok, 'memory-safety:%s in bounds of %s' % (what, m.name))
        s.pc.append(simplb(ok))
        st = p.c % g
        offs = list(range(st, m.size - n + 1, g))
        if len(offs) > 4096: raise Unsupported('symbolic offset: too many candidates')
        return offs

    def write_scalar(self, s, p, n, v, what='store'):
        m = self.bounds(s, p, n, what)
        if m is None: return
        if m.ro:
            self.obligate(s, 0, 'frame:write to read-only object %s' % m.name)
            return
        m = self.wmem(s, p.obj)
        self.note_write(p.obj, p, n, m)
        if m.log is not None:
            es = m.es
            if n % es:
                raise Unsupported('store size %d of %s' % (n, m.name))
            i = self.elem_index(m, p)
            k = n // es
            if self.memcheck: self.log_bounds(s, m, i, k, what)
            for j in range(k):
                ij = simpl(tobv(i, 64) + j) if not isinstance(i, int) else i + j
                m.log = ('st', ij, slice_(v, n * 8, j * es * 8, es * 8), m.log)
            return
        if not p.t:
            self.wr(m, p.c, n, v)
            return
        offs = self.cand_offsets(s, m, p, n, what)
        o = tobv(linbv(p.c, p.t), 64)
        for c in offs:
            self.wr(m, c, n, self.ite(o == c, v, self.rd(m, c, n), n * 8))

    def note_write(self, obj, p, n, m):
        if self.rng is not None:
            if m.log is not None: self.rng.add((obj, None, None))
            elif p.t: self.rng.add((obj, None, None))
            else: self.rng.add((obj, p.c, n))

    def load(self, s, p, t):
        T = self.types[t]
        k = T['k']
        if not isinstance(p, Ptr): 
            p = self.int2ptr(p) if not isinstance(p, FnPtr) and p is not POISON else p
            if p is POISON:
                self.obligate(s, 0, 'memory-safety:load through undefined pointer')
                return POISON
        if k == 'i':
            n = T['n']
            v = self.read_scalar(s, p, T['s'])
            return self.narrow(v, T['s'] * 8, n)
        if k == 'f':
            if T['n'] == 80:
                return self.read_scalar(s, p, 10)
            return self.as_float(self.read_scalar(s, p, T['s']), T['n'])
        if k == 'p':
            v = self.read_scalar(s, p, 8)
            return self.int2ptr(v) if not isinstance(v, (Ptr, FnPtr)) and v is not POISON else v
        if k == 'v':
            E = self.types[T['e']]
            if E['k'] == 'i' and E['n'] % 8:
                raw = self.read_scalar(s, p, T['s'])
                raw = self.narrow(raw, T['s'] * 8, T['n'] * E['n'])
                return self.splitbits(raw, E['n'], T['n'])
            # one bounds obligation for the whole vector on log objects
            m = s.mem.get(p.obj) if p.obj is not None else None
            if m is not None and m.log is not None and self.memcheck:
                es = E['s']
                if es == m.es:
                    i = self.elem_index(m, p)
                    self.log_bounds(s, m, i, T['n'], 'load')
                    self.memcheck = False
                    try:
                        return [self.load(s, Ptr(p.obj, p.c + j * E['s'], p.t), T['e']) for j in range(T['n'])]
                    finally:
                        self.memcheck = True
            return [self.load(s, Ptr(p.obj, p.c + j * E['s'], p.t), T['e']) for j in range(T['n'])]
        if k == 'a':
            z = self.types[T['e']]['z']
            return [self.load(s, ptradd(p, j * z), T['e']) for j in range(T['n'])]
        if k == 's':
            return [self.load(s, ptradd(p, o), e) for e, o in zip(T['e'], T['o'])]
        raise Unsupported('load type ' + k)

    def store(self, s, p, t, v):
        T = self.types[t]
        k = T['k']
        if not isinstance(p, Ptr):
            if p is POISON or isinstance(p, FnPtr):
                self.obligate(s, 0, 'memory-safety:store through undefined pointer')
                return
            p = self.int2ptr(p)
        if k == 'i':
            n = T['n']
            self.write_scalar(s, p, T['s'], self.widen(v, n, T['s'] * 8))
            return
        if k == 'f':
            self.write_scalar(s, p, 10 if T['n'] == 80 else T['s'], v)
            return
        if k == 'p':
            self.write_scalar(s, p, 8, v)
            return
        if k == 'v':
            if v is POISON: v = [POISON] * T['n']
            E = self.types[T['e']]
            if E['k'] == 'i' and E['n'] % 8:
                raw = self.joinbits(v, E['n'])
                self.write_scalar(s, p, T['s'], self.widen(raw, E['n'] * T['n'], T['s'] * 8))
                return
            m = s.mem.get(p.obj) if p.obj is not None else None
            if m is not None and m.log is not None and self.memcheck and E['s'] == m.es:
                i = self.elem_index(m, p)
                self.log_bounds(s, m, i, T['n'], 'store')
                self.memcheck = False
                try:
                    for j in range(T['n']): self.store(s, Ptr(p.obj, p.c + j * E['s'], p.t), T['e'], v[j])
                finally:
                    self.memcheck = True
                return
            for j in range(T['n']): self.store(s, Ptr(p.obj, p.c + j * E['s'], p.t), T['e'], v[j])
            return
        if k == 'a':
            if v is POISON: v = [POISON] * T['n']
            z = self.types[T['e']]['z']
            for j in range(T['n']): self.store(s, ptradd(p, j * z), T['e'], v[j])
            return
        if k == 's':
            if v is POISON: v = [POISON] * len(T['e'])
            for e, o, x in zip(T['e'], T['o'], v): self.store(s, ptradd(p, o), e, x)
            return
        raise Unsupported('store type ' + k)

    def narrow(self, v, fr, to):
        if fr == to:
            if to == 1 and is_bv(v): return simp(v == 1)
            return v
        if isinstance(v, (Ptr, FnPtr)): v = self.ptr2int(v)
        v = slice_(v, fr, 0, to)
        if to == 1 and is_bv(v): return simplb(v == 1)
        return v

    def widen(self, v, fr, to):
        if fr == to: return v
        if v is POISON or isinstance(v, int): return v
        if is_bool(v): return z3.If(v, BVV(1, to), BVV(0, to))
        return z3.ZeroExt(to - fr, v)

    def as_float(self, v, n):
        if isinstance(v, Ptr): return v
        return v

    def splitbits(self, raw, w, cnt):
        if raw is POISON: return [POISON] * cnt
        out = []
        for i in range(cnt):
            x = slice_(raw, w * cnt, i * w, w)
            if w == 1 and is_bv(x):
                x = simplb(x == 1)
            out.append(x)
        return out

    def joinbits(self, vec, w):
        if any(x is POISON for x in vec):
            # undefined lanes: represent as fresh bits
            vec = [self.fresh(w, 'undef') if x is POISON else x for x in vec]
        return cat([(tobv(x, w) if is_bool(x) else x, w) for x in vec])

    def bitcast(self, v, tf, tt):
        F, T = self.types[tf], self.types[tt]
        if tf == tt: return v
        fv = F['k'] == 'v'
        tv = T['k'] == 'v'
        if not fv and not tv:
            if T['k'] == 'i' and T['n'] == 1 and is_bv(v): return simplb(v == 1)
            return v
        if v is POISON: v = [POISON] * F['n'] if fv else v
        fe = self.types[F['e']]['n'] if fv else F['n']
        te = self.types[T['e']]['n'] if tv else T['n']
        if fv and tv and fe == te:
            return v
        lst = v if fv else [v]
        if any(isinstance(x, (Ptr, FnPtr)) for x in lst): raise Unsupported('bitcast of pointer vector')
        if te < fe:
            assert fe % te == 0 or True
        cnt = T['n'] if tv else 1
        if fe % te == 0:
            r = fe // te
            out = []
            for x in lst:
                if te == 1: out += self.splitbits(x, 1, r)
                else:
                    for j in range(r): out.append(slice_(x, fe, j * te, te))
        elif te % fe == 0:
            r = te // fe
            out = []
            for j in range(0, len(lst), r):
                ch = lst[j:j + r]
                if any(x is POISON for x in ch):
                    if all(x is POISON for x in ch): out.append(POISON)
                    else: out.append(cat([((self.fresh(fe, 'undef') if x is POISON and not any(opaque(y) for y in ch) else x if x is not POISON else 0), fe) for x in ch]))
                else: out.append(cat([(tobv(x, 1) if is_bool(x) else x, fe) for x in ch]))
        else:
            raw = self.joinbits(lst, fe)
            out = self.splitbits(raw, te, cnt)
        if tv: return out
        x = out[0]
        return x

    # ------------------------------------------------------------ constants & operands
    def const(self, c, s):
        k = c[0]
        if k == 'i' or k == 'f': return c[2]
        if k == 'n': return NULL
        if k == 'u' or k == 'p': return self.undef(c[1])
        if k == 'z': return self.zero(c[1])
        if k == 'a': return [self.const(x, s) for x in c[1]]
        if k == 'g': return self.globalptr(c[1], s)
        if k == 'e': return self.constexpr(c[1], s)
        if k == 'm': return None
        if k == 'asm': return FnPtr('__asm')
        raise Unsupported('constant %r' % (c,))

    def undef(self, t):
        T = self.types[t]
        if T['k'] in ('v', 'a'): return [self.undef(T['e']) for _ in range(T['n'])]
        if T['k'] == 's': return [self.undef(e) for e in T['e']]
        return POISON

    def zero(self, t):
        T = self.types[t]
        if T['k'] in ('v', 'a'): return [self.zero(T['e']) for _ in range(T['n'])]
        if T['k'] == 's': return [self.zero(e) for e in T['e']]
        if T['k'] == 'p': return NULL
        return 0

    def globalptr(self, name, s):
        if name in self.m.aliases: return self.const(self.m.aliases[name], s)
        if name in self.m.funcs: return FnPtr(name)
        g = self.m.globals[name]
        if name not in self.gobj:
            self.nobj += 1
            self.gobj[name] = self.nobj
        k = self.gobj[name]
        if k not in s.mem:
            T = self.types[g[0]]
            m = Mem(T.get('z', 0), (lambda off, n: 0) if g[2] is not None else None, 1, name)
            m.tok = s.tok
            s.mem[k] = m
            if g[2] is not None:
                q, self.quiet = self.quiet, 1
                r, self.rng = self.rng, None
                self.store_const(s, Ptr(k), g[0], g[2])
                self.quiet = q
                self.rng = r
            elif name in self.globals_init:
                self.globals_init[name](self, s, Ptr(k))
            m.ro = bool(g[1])
        return Ptr(k)

    def store_const(self, s, p, t, c):
        if c[0] == 'z': return
        if c[0] in 'up' and len(c) == 2: return
        T = self.types[t]
        if c[0] == 'a' and T['k'] == 'a':
            z = self.types[T['e']]['z']
            for j, x in enumerate(c[1]): self.store_const(s, Ptr(p.obj, p.c + j * z), T['e'], x)
        elif c[0] == 'a' and T['k'] == 's':
            for e, o, x in zip(T['e'], T['o'], c[1]): self.store_const(s, Ptr(p.obj, p.c + o), e, x)
        else:
            self.store(s, p, t, self.const(c, s))

    def constexpr(self, i, s):
        op, _, t, ops, ex = i
        a = [self.const(x, s) for x in ops]
        if op == 'getelementptr':
            return ptradd(a[0], ex[0], tuple(zip(ex[1], a[1:])))
        if op == 'ptrtoint': return self.ptr2int(a[0])
        if op == 'inttoptr': return self.int2ptr(a[0])
        if op == 'bitcast': return a[0]
        if op in ('add', 'sub'):
            n = self.types[t]['n']
            return self.binop(op, n, a[0], a[1], '')
        if op == 'trunc': return self.narrow(a[0], 64, self.types[t]['n'])
        raise Unsupported('constexpr ' + op)

    def val(self, o, f, s):
        if type(o) is int: return f.env[o]
        k = o[0]
        if k == 'i' or k == 'f': return o[2]
        return self.const(o, s)

    # ------------------------------------------------------------ integer ops
    def binop(self, op, n, a, b, ex):
        if a is POISON or b is POISON: return POISON
        if isinstance(a, int) and isinstance(b, int):
            M = mask(n)
            if op == 'add': return (a + b) & M
            if op == 'sub': return (a - b) & M
            if op == 'mul': return (a * b) & M
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & M if b < n else POISON
            if op == 'lshr': return a >> b if b < n else POISON
            if op == 'ashr': return (sgn(a, n) >> b) & M if b < n else POISON
            if op == 'udiv': return a // b if b else POISON
            if op == 'urem': return a % b if b else POISON
            sa, sb = sgn(a, n), sgn(b, n)
            if op in ('sdiv', 'srem'):
                if sb == 0: return POISON
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0): q = -q
                return q & M if op == 'sdiv' else (sa - q * sb) & M
        if n == 1:
            A, B = tobool(a), tobool(b)
            if op == 'and': return simplb(z3.And(A, B))
            if op == 'or': return simplb(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'): return simplb(z3.Xor(A, B))
            raise Unsupported('i1 ' + op)
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if op == 'add':
                p, q = (a, b) if isinstance(a, Ptr) else (b, a)
                if isinstance(p, Ptr) and not isinstance(q, (Ptr, FnPtr)): return ptradd(p, 0, ((1, q),))
            if op == 'sub' and isinstance(a, Ptr) and not isinstance(b, (Ptr, FnPtr)): return ptradd(a, 0, ((-1, b),))
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                d = ptradd(Ptr(None, a.c, a.t), -b.c, tuple((-co, tm) for co, tm in b.t))
                return linbv(d.c, d.t)
            a = self.ptr2int(a) if isinstance(a, (Ptr, FnPtr)) else a
            b = self.ptr2int(b) if isinstance(b, (Ptr, FnPtr)) else b
            return self.binop(op, n, a, b, ex)
        if opaque(a) or opaque(b):
            return self.opaque_bin(op, n, a, b)
        # cheap identities
        if op in ('and', 'or', 'xor', 'add', 'mul'):
            if isinstance(a, int): a, b = b, a
        if isinstance(b, int):
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
                if op in ('and', 'mul'): return 0
            if b == mask(n):
                if op == 'and': return a
                if op == 'or': return b
            if op == 'mul' and b == 1: return a
            if op in ('udiv',) and b == 1: return a
            if op in ('udiv', 'urem') and b and b & (b - 1) == 0:
                k = b.bit_length() - 1
                A = tobv(a, n)
                return simp(z3.LShR(A, BVV(k, n))) if op == 'udiv' else simp(A & BVV(b - 1, n))
        A, B = tobv(a, n), tobv(b, n)
        if op == 'add':
            r = A + B
            if n == 64:
                c, t = lin64(r)
                return linbv(c, t)
        elif op == 'sub':
            r = A - B
            if n == 64:
                c, t = lin64(r)
                return linbv(c, t)
        elif op == 'mul':
            if self.nlmul is not None and n == 64 and not isinstance(a, int) and not isinstance(b, int): return self.mul64(A, B)
            r = A * B
        elif op == 'and':
            r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        elif self.nldiv and op in ('udiv', 'urem', 'sdiv', 'srem') and n in self.nldiv and not isinstance(b, int):
            S = z3.BitVecSort(n)
            return uf('%s%d' % (op.upper(), n), S, S, S)(A, B)
        elif op == 'udiv': r = z3.UDiv(A, B)
        elif op == 'urem': r = z3.URem(A, B)
        elif op == 'sdiv': r = A / B
        elif op == 'srem': r = z3.SRem(A, B)
        else: raise Unsupported('binop ' + op)
        return simp(r)

    def opaque_bin(self, op, n, a, b):
        if opaque(b) and not opaque(a) and op in ('and', 'or', 'xor'): a, b = b, a
        if isinstance(b, int):
            if op == 'xor' and b == 0 or op == 'or' and b == 0 or op == 'and' and b == mask(n): return a
            if op == 'and' and b == 0: return 0
            if isinstance(a, Cat):
                if op == 'lshr':
                    return cat([(slice_(a, n, b, n - b), n - b), (0, b)])
                if op == 'shl':
                    return cat([(0, b), (slice_(a, n, 0, n - b), n - b)])
                out = []
                pos = 0
                if op in ('and', 'or', 'xor'):
                    for v, w in a.parts:
                        out.append((self.binop(op, w, v, (b >> pos) & mask(w), ''), w))
                        pos += w
                    return cat(out)
                raise Unsupported('opaque ' + op)
            if op == 'xor' and b == 1 << (n - 1): return self.dom.neg(n, a)
            if op == 'and' and b == mask(n - 1): return self.dom.abs(n, a)
            if op == 'and' and b == 1 << (n - 1): raise Unsupported('sign of symbolic real')
        if opaque(a) and opaque(b) and op in ('or', 'xor', 'and') and (isinstance(a, Cat) or isinstance(b, Cat)):
            pa, pb = parts_of(a, n), parts_of(b, n)
            if [w for _, w in pa] == [w for _, w in pb]:
                return cat([(self.binop(op, w, x, y, ''), w) for (x, w), (y, _) in zip(pa, pb)])
        if is_bv(b) and op in ('and',):
            # mask built from a symbolic condition
            bb = simpl(b)
            if isinstance(bb, int): return self.opaque_bin(op, n, a, bb)
        raise Unsupported('bit operation %s on symbolic real' % op)

    def icmp(self, p, n, a, b):
        if a is POISON or b is POISON: return POISON
        if isinstance(a, (Ptr, FnPtr)) or isinstance(b, (Ptr, FnPtr)):
            if isinstance(a, FnPtr) or isinstance(b, FnPtr):
                e = isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name
                return int(e if p == 'eq' else not e)
            if isinstance(a, int): a = self.int2ptr(a) if n == 64 else a
            if isinstance(b, int): b = self.int2ptr(b) if n == 64 else b
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    if not a.t and not b.t:
                        a, b = a.c & mask(64), b.c & mask(64)
                        if a >> 63 or b >> 63: a, b = (a + (1 << 40)) & mask(64), (b + (1 << 40)) & mask(64)
                        return self.icmp(p, 64, a, b)
                    # same object: compare offsets (all in range, no wrap)
                    return self.icmp(p, 64, linbv(a.c, a.t), linbv(b.c, b.t))
                if p == 'eq': return 0
                if p == 'ne': return 1
                if not a.t and not b.t: return self.icmp(p, 64, self.ptr2int(a), self.ptr2int(b))
                # relational comparison of different objects: unspecified
                return self.icmp(p, 64, self.addr(a.obj), self.addr(b.obj))
            a = self.ptr2int(a) if isinstance(a, Ptr) else a
            b = self.ptr2int(b) if isinstance(b, Ptr) else b
        if isinstance(a, int) and isinstance(b, int):
            if p[0] == 's':
                a, b = sgn(a, n), sgn(b, n)
            q = p[1:] if p not in ('eq', 'ne') else p
            return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[q])
        if opaque(a) or opaque(b):
            raise Unsupported('integer comparison of symbolic real bits')
        if n == 1:
            A, B = tobool(a), tobool(b)
            if p == 'eq': return simplb(A == B)
            if p == 'ne': return simplb(z3.Xor(A, B))
        A, B = tobv(a, n), tobv(b, n)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B), 'ugt': lambda: z3.UGT(A, B),
             'uge': lambda: z3.UGE(A, B), 'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B}[p]()
        if self.cmpterms is not None and n == 64: self.cmpterms.append((A, B))
        return simplb(r)

    cmpterms = None

    def lanes(self, T, f, *vs):
        """apply f over lanes if T is a vector"""
        if T['k'] == 'v':
            n = T['n']
            vs = [[POISON] * n if v is POISON else v for v in vs]
            return [f(*x) for x in zip(*vs)]
        return f(*vs)

    # ------------------------------------------------------------ run
    def call(self, name, args, s=None, pc=()):
        """run function; returns list of final states (s.ret is the return value)"""
        if s is None: s = self.new_state()
        s.pc += list(pc)
        fn = self.m.funcs[name]
        self.enter(s, fn, args, None, None)
        return self.loop([s], 0)

    def enter(self, s, fn, args, dest, norm):
        if fn.decl: raise Unsupported('call of undefined function ' + fn.dem)
        self.st.functions.add(fn.dem)
        f = Frame()
        f.fn = fn
        f.env = {}
        for (i, t, byval, sret), v in zip(fn.args, args):
            f.env[i] = v
        f.bb = 0
        f.ip = 0
        f.prev = None
        f.dest = dest
        f.norm = norm
        f.cuts = {}
        f.allocas = None
        s.frames.append(f)

    def loop(self, work, base):
        """run all states until their frame stack drops to `base`; returns finished states"""
        done = []
        while work:
            s = work.pop()
            r = self.run(s, base, work)
            if r is not None: done.append(r)
            if len(done) + len(work) > self.maxpaths: raise Unsupported('too many paths')
        return done

    def run(self, s, base, work):
        while True:
            if len(s.frames) == base: return s
            f = s.frames[-1]
            insts = f.fn.blocks[f.bb]
            try:
                i = insts[f.ip]
            except IndexError:
                raise
            self.st.insts += 1
            if self.st.insts > self.maxinst: raise Unsupported('instruction budget exceeded')
            if self.deadline and (self.st.insts & 1023) == 0 and time.time() > self.deadline: raise Unsupported('time budget exceeded')
            op = i[0]
            h = self.D.get(op)
            if h is None: raise Unsupported('instruction ' + op)
            r = h(self, s, f, i, work)
            if r is None: continue
            if r is STOP: return None
            return r

    def goto(self, s, f, bb, work):
        """transfer to block bb executing phis; handles loop cuts. returns None/STOP"""
        prev = f.bb
        blocks = f.fn.blocks
        if f.cuts:
            for h in list(f.cuts):
                if bb not in f.fn.loops[h]: del f.cuts[h]
        insts = blocks[bb]
        vals = []
        k = 0
        n = len(insts)
        while k < n and insts[k][0] == 'phi':
            ins = insts[k]
            j = ins[4].index(prev)
            vals.append((ins[1], self.val(ins[3][j], f, s)))
            k += 1
        for d, v in vals: f.env[d] = v
        f.prev = prev
        f.bb = bb
        f.ip = k
        L = f.fn.loops.get(bb)
        sb = self.stop_backedge
        if sb is not None and len(s.frames) == sb[1] and bb not in sb[3]: return STOP
        if L is not None and self.loopmode == 'cut':
            back = prev in L
            if self.stop_backedge is not None and back and self.stop_backedge[0] == bb and self.stop_backedge[1] == len(s.frames):
                self.stop_backedge[2].append(s)
                return STOP
            if back and bb in f.cuts:
                # invariant preserved? (already decided by inference on the same code; re-discharged here and recorded)
                if not self.quiet: self.obligate_many(s, [(c(s), 'loop-invariant preserved: ' + nm) for nm, c in f.cuts[bb]])
                return STOP
            if not back:
                return self.enter_loop(s, f, bb, L, work)
        return None

    # ------------------------------------------------------------ loops
    cutpred = None
    unrollmax = 5
    modonly = False
    usecache = True
    loopdebug = False

    def ptr_scale(self, s, v, acc, depth):
        """common byte stride of a pointer induction variable"""
        import math
        g = 0
        for b in acc:
            p = v.raw(self, b, depth)
            if not isinstance(p, Ptr) or p.obj != v.entry.obj: raise Unsupported('pointer induction variable changes object')
            d = {}
            for co, tm in p.t: d[tm.get_id()] = d.get(tm.get_id(), 0) + co
            for co, tm in v.entry.t: d[tm.get_id()] = d.get(tm.get_id(), 0) - co
            d.pop(v.h.get_id(), None)
            g = math.gcd(g, abs(p.c - v.entry.c))
            for co in d.values(): g = math.gcd(g, abs(co))
        m = s.mem[v.entry.obj]
        if g == 0: return m.es
        while g % 2 == 0 and g > 64: g //= 2
        return g if g else 1

    def enter_loop(self, s, f, bb, L, work):
        from .loops import cut_loop
        return cut_loop(self, s, f, bb, L, work)

    # ------------------------------------------------------------ instructions
    def i_br(self, s, f, i, work):
        ex = i[4]
        if len(ex) == 1: return self.goto(s, f, ex[0], work)
        c = self.val(i[3][0], f, s)
        if c is POISON:
            self.obligate(s, 0, 'branch on undefined value')
            return STOP
        return self.branch(s, f, c, ex[0], ex[1], work)

    def branch(self, s, f, c, bt, bf, work):
        if not isinstance(c, int):
            if self.symbranch is not None: self.symbranch.append((len(s.frames), f.bb, bt, bf))
            c = simplb(c)
        if isinstance(c, int):
            return self.goto(s, f, bt if c & 1 else bf, work)
        ft = self.feasible(s.pc, c)
        nc = z3.Not(c)
        ff = self.feasible(s.pc, nc) if ft else True
        if not ft and not ff: return STOP
        if ft and ff:
            s2 = s.fork()
            s2.pc.append(nc)
            r2 = self.goto(s2, s2.frames[-1], bf, work)
            if r2 is None: work.append(s2)
            s.pc.append(c)
            return self.goto(s, s.frames[-1], bt, work)
        s.pc.append(c if ft else nc)
        return self.goto(s, f, bt if ft else bf, work)

    symbranch = None

    def i_switch(self, s, f, i, work):
        v = self.val(i[3][0], f, s)
        d, cases = i[4]
        if isinstance(v, int):
            for c, b in cases:
                if c == v: return self.goto(s, f, b, work)
            return self.goto(s, f, d, work)
        if v is POISON:
            self.obligate(s, 0, 'branch on undefined value')
            return STOP
        if self.symbranch is not None: self.symbranch.append((len(s.frames), f.bb, d, d))
        n = v.size()
        rest = []
        for c, b in cases:
            cc = v == BVV(c, n)
            rest.append(z3.Not(cc))
            if self.feasible(s.pc, cc):
                s2 = s.fork()
                s2.pc.append(cc)
                if self.goto(s2, s2.frames[-1], b, work) is None: work.append(s2)
        rc = z3.And(*rest)
        if not self.feasible(s.pc, rc): return STOP
        s.pc.append(rc)
        return self.goto(s, f, d, work)

    def i_ret(self, s, f, i, work):
        v = self.val(i[3][0], f, s) if i[3] else None
        s.frames.pop()
        if f.allocas:
            for k in f.allocas:
                m = self.wmem(s, k)
                m.freed = True
        if f.dest is not None and s.frames:
            s.frames[-1].env[f.dest] = v
        s.ret = v
        if s.frames and f.norm is not None:
            return self.goto(s, s.frames[-1], f.norm, work)
        return None

    def i_unreachable(self, s, f, i, work):
        self.obligate(s, 0, 'unreachable code reached (undefined behaviour)')
        return STOP

    def setv(self, f, i, v):
        f.env[i[1]] = v
        f.ip += 1

    def i_bin(self, s, f, i, work):
        T = self.types[i[2]]
        a, b = self.val(i[3][0], f, s), self.val(i[3][1], f, s)
        n = self.types[T['e']]['n'] if T['k'] == 'v' else T['n']
        op = i[0]
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            for x in (b if T['k'] == 'v' else [b]):
                if not isinstance(x, int) and x is not POISON:
                    self.obligate(s, x != 0, 'arithmetic: division by zero excluded')
                elif x == 0: self.obligate(s, 0, 'arithmetic: division by zero excluded')
        self.setv(f, i, self.lanes(T, lambda x, y: self.binop(op, n, x, y, i[4]), a, b))

    def i_fbin(self, s, f, i, work):
        T = self.types[i[2]]
        n = self.types[T['e']]['n'] if T['k'] == 'v' else T['n']
        d = self.dom
        op = i[0]
        self.setv(f, i, self.lanes(T, lambda *x: d.op(op, n, *x), *[self.val(o, f, s) for o in i[3]]))

    def i_fneg(self, s, f, i, work):
        T = self.types[i[2]]
        n = self.types[T['e']]['n'] if T['k'] == 'v' else T['n']
        self.setv(f, i, self.lanes(T, lambda x: self.dom.neg(n, x), self.val(i[3][0], f, s)))

    def optype(self, o, f):
        return None

    def i_icmp(self, s, f, i, work):
        T = self.types[i[2]]
        a, b = self.val(i[3][0], f, s), self.val(i[3][1], f, s)
        n = self.cmpwidth(i, f)
        p = i[4]
        self.setv(f, i, self.lanes(T, lambda x, y: self.icmp(p, n, x, y), a, b))

    def cmpwidth(self, i, f):
        """operand width of icmp/fcmp: from constants or from the defining instruction types"""
        for o in i[3]:
            if type(o) is not int:
                if o[0] in 'if': return o[1]
                if o[0] == 'n': return 64
                if o[0] == 'a':
                    for e in o[1]:
                        if e[0] in 'if': return e[1]
                if o[0] == 'z':
                    T = self.types[o[1]]
                    return self.types[T['e']]['n'] if T['k'] == 'v' else T['n']
                if o[0] == 'g' or o[0] == 'e': return 64
        return self.valwidth(f.fn, i[3][0])

    def valwidth(self, fn, vid):
        try:
            tb = fn.lists
        except AttributeError:
            tb = {}
            for a in fn.args: tb[a[0]] = a[1]
            for b in fn.blocks:
                for x in b:
                    if x[1] >= 0: tb[x[1]] = x[2]
            fn.lists = tb
        T = self.types[tb[vid]]
        if T['k'] == 'v': T = self.types[T['e']]
        return T['n']

    def i_fcmp(self, s, f, i, work):
        T = self.types[i[2]]
        a, b = self.val(i[3][0], f, s), self.val(i[3][1], f, s)
        n = self.cmpwidth(i, f)
        p = i[4]
        self.setv(f, i, self.lanes(T, lambda x, y: self.dom.cmp(p, n, x, y), a, b))

    def i_select(self, s, f, i, work):
        c, a, b = [self.val(o, f, s) for o in i[3]]
        T = self.types[i[2]]
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj != b.obj and not isinstance(c, (int, list)) and c is not POISON:
            # pointers to different objects: one path per choice
            c = simplb(c)
            if not isinstance(c, int):
                nc = z3.Not(c)
                ft, ff = self.feasible(s.pc, c), self.feasible(s.pc, nc)
                if not ft and not ff: return STOP
                if ft and ff:
                    s2 = s.fork()
                    s2.pc.append(nc)
                    self.setv(s2.frames[-1], i, b)
                    work.append(s2)
                    s.pc.append(c)
                elif ff:
                    s.pc.append(nc)
                    c = 0
                c = 1 if ft else 0
        v = self.select(c, a, b, T)
        if self.posthook: v = self.posthook(v)
        self.setv(f, i, v)

    def select(self, c, a, b, T):
        if isinstance(c, list):
            n = self.types[T['e']]['n']
            if a is POISON: a = [POISON] * len(c)
            if b is POISON: b = [POISON] * len(c)
            return [self.sel1(x, y, z, n) for x, y, z in zip(c, a, b)]
        if c is POISON: return self.undef_like(T)
        if isinstance(c, int): return a if c & 1 else b
        c = simplb(c)
        if isinstance(c, int): return a if c & 1 else b
        return self.sel_agg(c, a, b, T)

    def sel_agg(self, c, a, b, T):
        if T['k'] in ('v', 'a'):
            E = self.types[T['e']]
            return [self.sel_agg(c, x, y, E) for x, y in zip(a, b)]
        if T['k'] == 's': return [self.sel_agg(c, x, y, self.types[e]) for x, y, e in zip(a, b, T['e'])]
        return self.ite(c, a, b, T.get('n'))

    def sel1(self, c, a, b, n):
        if c is POISON: return POISON
        return self.ite(c, a, b, n)

    def undef_like(self, T):
        if T['k'] in ('v', 'a'): return [POISON] * T['n']
        return POISON

    def i_cast(self, s, f, i, work):
        op = i[0]
        v = self.val(i[3][0], f, s)
        T = self.types[i[2]]
        F = self.types[i[4]]
        tn = self.types[T['e']]['n'] if T['k'] == 'v' else T['n']
        fn = self.types[F['e']]['n'] if F['k'] == 'v' else F['n']
        if op == 'bitcast':
            self.setv(f, i, self.bitcast(v, i[4], i[2]))
            return
        self.setv(f, i, self.lanes(T, lambda x: self.cast(op, fn, tn, x), v))

    def cast(self, op, fn, tn, x):
        if x is POISON: return POISON
        if op == 'trunc':
            if isinstance(x, (Ptr, FnPtr)): x = self.ptr2int(x)
            if isinstance(x, int): return x & mask(tn)
            r = slice_(x, fn, 0, tn)
            if tn == 1 and is_bv(r): return simplb(r == 1)
            return r
        if op == 'zext':
            if isinstance(x, int): return x
            if is_bool(x): return z3.If(x, BVV(1, tn), BVV(0, tn))
            if opaque(x): return cat([(x, fn), (0, tn - fn)])
            return z3.ZeroExt(tn - fn, x)
        if op == 'sext':
            if isinstance(x, int): return sgn(x, fn) & mask(tn)
            if is_bool(x): return z3.If(x, BVV(mask(tn), tn), BVV(0, tn))
            return z3.SignExt(tn - fn, x)
        if op == 'fptrunc' or op == 'fpext': return self.dom.conv(fn, tn, x)
        if op == 'sitofp': return self.dom.from_int(True, fn, tn, x)
        if op == 'uitofp': return self.dom.from_int(False, fn, tn, x)
        if op == 'fptosi': return self.dom.to_int(True, fn, tn, x)
        if op == 'fptoui': return self.dom.to_int(False, fn, tn, x)
        if op == 'ptrtoint':
            return x if tn == 64 and isinstance(x, (Ptr, FnPtr)) else self.narrow(self.ptr2int(x), 64, tn)
        if op == 'inttoptr': return self.int2ptr(x)
        raise Unsupported('cast ' + op)

    def i_freeze(self, s, f, i, work):
        v = self.val(i[3][0], f, s)
        self.setv(f, i, self.freeze(v, self.types[i[2]]))

    def freeze(self, v, T):
        if T['k'] == 'v':
            if v is POISON: v = [POISON] * T['n']
            E = self.types[T['e']]
            return [self.freeze(x, E) for x in v]
        if v is POISON:
            if T['k'] == 'p': return NULL
            return self.fresh(T['n'], 'frz')
        return v

    def i_alloca(self, s, f, i, work):
        t, al = i[4]
        cnt = self.val(i[3][0], f, s) if i[3] else 1
        z = self.types[t]['z']
        if not isinstance(cnt, int): raise Unsupported('variable alloca')
        p = self.newobj(s, z * cnt, None, 1, 'local')
        if f.allocas is None: f.allocas = ()
        f.allocas = f.allocas + (p.obj,)
        self.setv(f, i, p)

    def i_load(self, s, f, i, work):
        p = self.val(i[3][0], f, s)
        f.env[i[1]] = self.load(s, p, i[2])
        f.ip += 1

    def i_store(self, s, f, i, work):
        v = self.val(i[3][0], f, s)
        p = self.val(i[3][1], f, s)
        self.store(s, p, i[4][0], v)
        f.ip += 1

    def i_gep(self, s, f, i, work):
        ex = i[4]
        b = self.val(i[3][0], f, s)
        if ex[0] == 'vec':
            idx = self.val(i[3][1], f, s)
            n = len(b) if isinstance(b, list) else len(idx)
            bl = b if isinstance(b, list) else [b] * n
            il = idx if isinstance(idx, list) else [idx] * n
            if len(i[3]) > 2: raise Unsupported('vector gep')
            self.setv(f, i, [self.gep1(x, 0, ((ex[1], self.idx64(y, f, i[3][1])),)) for x, y in zip(bl, il)])
            return
        pairs = tuple((sc, self.idx64(self.val(o, f, s), f, o)) for sc, o in zip(ex[1], i[3][1:]))
        self.setv(f, i, self.gep1(b, ex[0], pairs))

    def idx64(self, v, f, o):
        if isinstance(v, list): return v
        if is_bv(v) and v.size() < 64: return z3.SignExt(64 - v.size(), v)
        if isinstance(v, int):
            if type(o) is int:
                w = self.valwidth(f.fn, o)
            else: w = o[1] if o[0] == 'i' else 64
            return sgn(v, w)
        return v

    def gep1(self, b, c, pairs):
        if b is POISON or any(v is POISON for _, v in pairs): return POISON
        if isinstance(b, int): b = self.int2ptr(b)
        if isinstance(b, FnPtr): return b
        return ptradd(b, c, pairs)

    def i_extractelement(self, s, f, i, work):
        v, k = self.val(i[3][0], f, s), self.val(i[3][1], f, s)
        if v is POISON: r = POISON
        elif isinstance(k, int): r = v[k] if k < len(v) else POISON
        elif k is POISON: r = POISON
        else:
            T = self.types[i[2]]
            r = v[-1]
            for j in range(len(v) - 2, -1, -1): r = self.ite(k == j, v[j], r, T.get('n'))
        self.setv(f, i, r)

    def i_insertelement(self, s, f, i, work):
        v, x, k = [self.val(o, f, s) for o in i[3]]
        T = self.types[i[2]]
        v = list(v) if v is not POISON else [POISON] * T['n']
        if isinstance(k, int): 
            if k < len(v): v[k] = x
        else:
            n = self.types[T['e']]['n']
            v = [self.ite(k == j, x, v[j], n) for j in range(len(v))]
        self.setv(f, i, v)

    def i_shufflevector(self, s, f, i, work):
        a, b = self.val(i[3][0], f, s), self.val(i[3][1], f, s)
        m = i[4]
        if a is POISON and b is POISON:
            self.setv(f, i, [POISON] * len(m))
            return
        n = len(a) if a is not POISON else len(b)
        if a is POISON: a = [POISON] * n
        if b is POISON: b = [POISON] * n
        w = a + b
        self.setv(f, i, [POISON if k < 0 else w[k] for k in m])

    def i_extractvalue(self, s, f, i, work):
        v = self.val(i[3][0], f, s)
        for k in i[4]: v = v[k] if v is not POISON else POISON
        self.setv(f, i, v)

    def i_insertvalue(self, s, f, i, work):
        a, x = self.val(i[3][0], f, s), self.val(i[3][1], f, s)
        T = self.types[i[2]]
        self.setv(f, i, self.insval(a, x, i[4], T))

    def insval(self, a, x, idx, T):
        if not idx: return x
        n = T['n'] if T['k'] == 'a' else len(T['e'])
        a = list(a) if a is not POISON else [POISON] * n
        E = self.types[T['e'] if T['k'] == 'a' else T['e'][idx[0]]]
        a[idx[0]] = self.insval(a[idx[0]], x, idx[1:], E)
        return a

    def i_fence(self, s, f, i, work):
        f.ip += 1

    def i_atomicrmw(self, s, f, i, work):
        p, v = self.val(i[3][0], f, s), self.val(i[3][1], f, s)
        t = i[2]
        old = self.load(s, p, t)
        n = self.types[t]['n']
        o = i[4]
        new = {'xchg': lambda: v, 'add': lambda: self.binop('add', n, old, v, ''), 'sub': lambda: self.binop('sub', n, old, v, ''),
               'or': lambda: self.binop('or', n, old, v, ''), 'and': lambda: self.binop('and', n, old, v, '')}[o]()
        self.store(s, p, t, new)
        self.setv(f, i, old)

    def i_call(self, s, f, i, work):
        ops = i[3]
        cal = self.val(ops[-1], f, s)
        norm = i[4][0]
        if not isinstance(cal, FnPtr):
            if isinstance(cal, Ptr) or cal is POISON:
                self.obligate(s, 0, 'memory-safety:call through invalid function pointer')
                return STOP
            raise Unsupported('indirect call')
        fn = self.m.funcs.get(cal.name)
        if cal.name == '__asm':
            if i[1] >= 0: f.env[i[1]] = POISON
            f.ip += 1
            return None
        if cal.name.startswith('llvm.'):
            from .intrin import intrinsic
            a = [self.val(o, f, s) if not (type(o) is list and o[0] == 'm') else None for o in ops[:-1]]
            v = intrinsic(self, s, f, i, cal.name, a)
            if v is STOP: return STOP
            if self.posthook: v = self.posthook(v)
            if i[1] >= 0: f.env[i[1]] = v
            f.ip += 1
            return None
        a = [self.val(o, f, s) for o in ops[:-1]]
        # byval arguments: copy
        bv = i[4][3]
        if any(bv):
            for j, z in enumerate(bv):
                if z:
                    q = self.newobj(s, z, None, 1, 'byval')
                    self.copy(s, q, a[j], z)
                    a[j] = q
        h = self.find_contract(cal.name, fn)
        if h is not None:
            v = h(self, s, a, i)
            if v is STOP: return STOP
            if v is RUN: 
                pass
            else:
                if i[1] >= 0: f.env[i[1]] = v
                if norm is not None: return self.goto(s, f, norm, work)
                f.ip += 1
                return None
        if fn is None or fn.decl:
            raise Unsupported('call of external function %s' % (fn.dem if fn else cal.name))
        f.ip += 1
        if len(s.frames) > 200: raise Unsupported('recursion')
        self.enter(s, fn, a, i[1] if i[1] >= 0 else None, norm)
        return None

    def find_contract(self, name, fn):
        if name in self.ccache: return self.ccache[name]
        h = None
        dem = fn.dem if fn else name
        for pat, hd in self.contracts:
            if callable(pat):
                if pat(name, dem): h = hd
            elif name == pat or dem.startswith(pat): h = hd
            if h: break
        if h is None:
            from .intrin import LIBC
            h = LIBC.get(name)
        self.ccache[name] = h
        return h

    def copy_mixed(self, s, d, src, n, mo, do):
        """symbolic-length copy between a log object and a small cell object: element-wise case distinction"""
        lo, ce = (mo, do) if mo.log is not None else (do, mo)
        es = lo.es
        if not isinstance(ce.size, int) or ce.size > 512 or ce.size % es: raise Unsupported('memcpy between different memory kinds')
        c, t = lin64(n) if not isinstance(n, int) else (n, {})
        if c % es or any(co % es for co, _ in t.values()): raise Unsupported('memcpy length not a multiple of the element size')
        cnt = tobv(linbv(c // es, {k: (co // es, tm) for k, (co, tm) in t.items()}), 64)

        def eidx(m, p):
            if m is lo: return tobv(self.elem_index(m, p), 64)
            ts = {}
            if p.c % es or any(co % es for co, _ in p.t): raise Unsupported('unaligned memcpy')
            return tobv(linbv(p.c // es, tuple((co // es, tm) for co, tm in p.t)), 64)
        si, di = eidx(mo, src), eidx(do, d)
        for m, ix, w in ((mo, si, 'memcpy source'), (do, di, 'memcpy destination')):
            N = tobv(m.size, 64) if m is lo else BVV(m.size // es, 64)
            self.obligate(s, z3.Or(cnt == 0, z3.And(z3.ULE(cnt, N), z3.ULE(ix, N - cnt))), 'memory-safety:%s in bounds of %s' % (w, m.name))
        k = ce.size // es
        if ce is mo:
            vals = [self.read_scalar(s, Ptr(src.obj, j * es), es) for j in range(k)]

            def get(j, vals=vals):
                ix = tobv(j, 64) + si
                r = vals[-1]
                for q in range(k - 2, -1, -1): r = self.ite(simpl(ix == BVV(q, 64)), vals[q], r, 8 * es)
                return r
            dm = self.wmem(s, d.obj)
            self.note_write(d.obj, d, 0, dm)
            dm.log = ('rng', simpl(di), simpl(cnt), lambda j: get(j), dm.log)
            return
        slog = mo.log
        for q in range(k):
            old = self.read_scalar(s, Ptr(d.obj, q * es), es)
            off = BVV(q, 64) - di
            new = self.log_read(slog, simpl(si + off))
            hit = simpl(z3.And(z3.UGE(BVV(q, 64), di), z3.ULT(off, cnt)))
            if old is POISON: old = BV('poison', 8 * es)
            self.write_scalar(s, Ptr(d.obj, q * es), es, self.ite(hit, new, old, 8 * es))

    def copy(self, s, d, src, n):
        """memcpy/memmove of n bytes (n may be symbolic on log objects)"""
        if isinstance(n, int):
            if n == 0: return
        mo = self.bounds(s, src, n if isinstance(n, int) else 0, 'memcpy source')
        do = self.bounds(s, d, n if isinstance(n, int) else 0, 'memcpy destination')
        if mo is None or do is None: return
        if do.ro:
            self.obligate(s, 0, 'frame:write to read-only object %s' % do.name)
            return
        if mo.log is not None or do.log is not None:
            if mo.log is None or do.log is None:
                if isinstance(n, int) and n <= 4096:
                    es = do.es if do.log is not None else mo.es
                    vals = [self.read_scalar(s, ptradd(src, k), es) for k in range(0, n, es)]
                    for k, v in zip(range(0, n, es), vals): self.write_scalar(s, ptradd(d, k), es, v)
                    return
                n2 = self.concretize(s, n) if not isinstance(n, int) else None
                if n2 is not None: return self.copy(s, d, src, n2)
                return self.copy_mixed(s, d, src, n, mo, do)
            if mo.es != do.es: raise Unsupported('memcpy between different element sizes')
            es = mo.es
            c, t = lin64(n) if not isinstance(n, int) else (n, {})
            if c % es or any(co % es for co, _ in t.values()): raise Unsupported('memcpy length not a multiple of the element size')
            cnt = linbv(c // es, {k: (co // es, tm) for k, (co, tm) in t.items()})
            si, di = self.elem_index(mo, src), self.elem_index(do, d)
            for m, ix, w in ((mo, si, 'memcpy source'), (do, di, 'memcpy destination')):
                N, I, C = tobv(m.size, 64), tobv(ix, 64), tobv(cnt, 64)
                self.obligate(s, z3.Or(C == 0, z3.And(z3.ULE(C, N), z3.ULE(I, N - C))), 'memory-safety:%s in bounds of %s' % (w, m.name))
            slog = mo.log
            dm = self.wmem(s, d.obj)
            self.note_write(d.obj, d, 0, dm)
            dm.log = ('rng', di, cnt, (lambda j, slog=slog, si=si: self.log_read(slog, simpl(tobv(si, 64) + tobv(j, 64)))), dm.log)
            return
        if not isinstance(n, int):
            n2 = self.concretize(s, n)
            if n2 is None: raise Unsupported('memcpy of symbolic length')
            n = n2
        if src.t or d.t:
            for k in range(0, n):
                pass
            es = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
            vals = [self.read_scalar(s, ptradd(src, k), es) for k in range(0, n, es)]
            for k, v in zip(range(0, n, es), vals): self.write_scalar(s, ptradd(d, k), es, v)
            return
        # gather cell by cell, preserving cell structure
        pos = src.c
        end = src.c + n
        out = []
        while pos < end:
            c = mo.cells.get(pos)
            if c is not None and pos + c[0] <= end:
                out.append((pos, c[0], c[1]))
                pos += c[0]
                continue
            # uninitialised stretch or partial cell
            sz = min(mo.es, end - pos) if c is None and mo.init is not None else 1
            if c is None and mo.init is not None and pos % mo.es == 0 and not any((pos + q) in mo.cells for q in range(1, sz)) and not self.covered(mo, pos):
                out.append((pos, sz, self.rd(mo, pos, sz)))
                pos += sz
                continue
            for k in (1, 2, 4, 8):      # single bytes of opaque values do not exist: take whole ones
                if pos + k > end: raise Unsupported('memcpy of part of an opaque value')
                try: v = self.rd(mo, pos, k)
                except Unsupported: continue
                break
            else: raise Unsupported('memcpy of part of an opaque value')
            out.append((pos, k, v))
            pos += k
        dm = self.wmem(s, d.obj)
        self.note_write(d.obj, d, n, dm)
        for p, sz, v in out: self.wr(dm, d.c + p - src.c, sz, v)

    def covered(self, m, pos):
        for d in range(1, 16):
            c = m.cells.get(pos - d)
            if c is not None: return pos - d + c[0] > pos
        return False

    def concretize(self, s, v):
        """unique value of v under the path condition, if any"""
        if isinstance(v, int): return v
        r, sv = self.check(s.pc)
        if r != z3.sat: return None
        c = sv.model().eval(v, model_completion=True)
        if not z3.is_bv_value(c): return None
        r, _ = self.check(s.pc, v != c)
        return c.as_long() if r == z3.unsat else None

    def memset(self, s, d, b, n):
        if isinstance(n, int) and n == 0: return
        m = self.bounds(s, d, n if isinstance(n, int) else 0, 'memset')
        if m is None: return
        if m.log is not None:
            es = m.es
            c, t = lin64(n) if not isinstance(n, int) else (n, {})
            cnt = linbv(c // es, {k: (co // es, tm) for k, (co, tm) in t.items()})
            di = self.elem_index(m, d)
            N, I, C = tobv(m.size, 64), tobv(di, 64), tobv(cnt, 64)
            self.obligate(s, z3.Or(C == 0, z3.And(z3.ULE(C, N), z3.ULE(I, N - C))), 'memory-safety:memset in bounds of %s' % m.name)
            v = cat([(b, 8)] * es)
            dm = self.wmem(s, d.obj)
            self.note_write(d.obj, d, 0, dm)
            dm.log = ('rng', di, cnt, (lambda j, v=v: tobv(v, es * 8)), dm.log)
            return
        if not isinstance(n, int):
            n = self.concretize(s, n)
            if n is None: raise Unsupported('memset of symbolic length')
        dm = self.wmem(s, d.obj)
        if d.t: raise Unsupported('memset at symbolic offset')
        self.note_write(d.obj, d, n, dm)
        k = 0
        while k < n:
            w = 8 if (n - k) >= 8 and (d.c + k) % 8 == 0 else 4 if (n - k) >= 4 and (d.c + k) % 4 == 0 else 1
            self.wr(dm, d.c + k, w, cat([(b, 8)] * w))
            k += w

    D = {}


def simplb(x):
    x = z3.simplify(x)
    if z3.is_true(x): return 1
    if z3.is_false(x): return 0
    return x


class _Stop:
    pass


STOP = _Stop()
RUN = object()
D = Exec.D
for o in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'): D[o] = Exec.i_bin
for o in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): D[o] = Exec.i_fbin
for o in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'): D[o] = Exec.i_cast
D.update({'br': Exec.i_br, 'switch': Exec.i_switch, 'ret': Exec.i_ret, 'unreachable': Exec.i_unreachable, 'fneg': Exec.i_fneg,
          'icmp': Exec.i_icmp, 'fcmp': Exec.i_fcmp, 'select': Exec.i_select, 'freeze': Exec.i_freeze, 'alloca': Exec.i_alloca,
          'load': Exec.i_load, 'store': Exec.i_store, 'getelementptr': Exec.i_gep, 'extractelement': Exec.i_extractelement,
          'insertelement': Exec.i_insertelement, 'shufflevector': Exec.i_shufflevector, 'extractvalue': Exec.i_extractvalue,
          'insertvalue': Exec.i_insertvalue, 'call': Exec.i_call, 'invoke': Exec.i_call, 'fence': Exec.i_fence, 'atomicrmw': Exec.i_atomicrmw})
