"""Loop cutting: a loop with a symbolic trip count is cut at its header. Everything the body may change is havocked, an inductive
invariant is inferred (Houdini over candidate conjuncts plus the ones a contract supplies), every conjunct is discharged at entry
and at each back edge, and execution continues from an arbitrary state satisfying the invariant."""
import z3
from .dom import *
from . import sym
from .sym import Ptr, FnPtr, STOP, linbv, ptradd, lin64, simplb

CONSTVARS = {}


def symbols(t, memo={}):
    r = memo.get(t.get_id())
    if r is not None: return r[1]
    if z3.is_const(t): r = frozenset([t.decl().name()]) if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else frozenset()
    else:
        r = frozenset()
        for c in t.children(): r |= symbols(c)
    memo[t.get_id()] = (t, r)
    return r


class Var:
    """a location changed by the loop: header phi, memory cell or ghost variable; integer-valued or opaque"""

    def __init__(self, X, kind, key, entry, lane=None, width=None):
        self.kind, self.key, self.entry, self.lane = kind, key, entry, lane
        self.h = None
        self.scale = 1
        self.isptr = isinstance(entry, Ptr)
        self.width = width

    def raw(self, X, s, depth):
        if self.kind == 'phi': v = s.frames[depth - 1].env[self.key]
        elif self.kind == 'ghost': v = s.ghost[self.key]
        else: v = X.rd(s.mem[self.key[0]], self.key[1], self.key[2])
        return v if self.lane is None else v[self.lane]

    def put(self, X, s, depth, v):
        if self.kind == 'phi':
            e = s.frames[depth - 1].env
            if self.lane is None: e[self.key] = v
            else:
                l = list(e[self.key])
                l[self.lane] = v
                e[self.key] = l
        elif self.kind == 'ghost': s.ghost[self.key] = v
        else:
            m = X.wmem(s, self.key[0])
            X.wr(m, self.key[1], self.key[2], v)

    def num(self, X, s, depth):
        """integer term describing the current value, or None"""
        v = self.raw(X, s, depth)
        return self.conv(v)

    def conv(self, v):
        if v is POISON or isinstance(v, (Poly, Cat, FnPtr)): return None
        if self.isptr:
            if not isinstance(v, Ptr) or v.obj != self.entry.obj: return None
            d = {x[1].get_id(): x for x in v.t}
            for co, tm in self.entry.t:
                n = (d[tm.get_id()][0] if tm.get_id() in d else 0) - co
                if n: d[tm.get_id()] = (n, tm)
                else: d.pop(tm.get_id(), None)
            c = v.c - self.entry.c
            if c % self.scale or any(co % self.scale for co, _ in d.values()): return None
            return tobv(linbv(c // self.scale, tuple((co // self.scale, tm) for co, tm in d.values())), 64)
        if isinstance(v, Ptr): return None
        if is_bool(v): return tobv(v, 1)
        if isinstance(v, int): return BVV(v, self.width) if self.width else None
        return v

    def __repr__(self): return '%s:%s' % (self.kind, self.key)


def widths(X, f, bb):
    r = {}
    for ins in f.fn.blocks[bb]:
        if ins[0] != 'phi': break
        r[ins[1]] = X.types[ins[2]]
    return r


def cut_loop(X, s, f, bb, L, work):
    depth = len(s.frames)
    key = (f.fn.name, bb)
    if X.cutpred is not None:
        c = X.cutpred(X, s, f, bb, L)
        if c is False: return None
    if not hasattr(X, 'modcache'): X.modcache, X.invcache, X.symcache = {}, {}, set()
    if (key, depth) not in X.symcache:
        if not symbolic_exit(X, s, f, bb, L, depth): return None
        X.symcache.add((key, depth))
    X.nloops_cut += 1
    vars_ = []
    for ins in f.fn.blocks[bb]:
        if ins[0] != 'phi': break
        T = X.types[ins[2]]
        v = f.env[ins[1]]
        if T['k'] == 'v':
            E = X.types[T['e']]
            vv = v if v is not POISON else [POISON] * T['n']
            f.env[ins[1]] = vv
            for k in range(T['n']): vars_.append(Var(X, 'phi', ins[1], vv[k], k, E.get('n', 64)))
        else: vars_.append(Var(X, 'phi', ins[1], v, None, T.get('n', 64)))
        if T['k'] == 'f' or (T['k'] == 'v' and X.types[T['e']]['k'] == 'f'):
            for w in vars_[-(T.get('n', 1) if T['k'] == 'v' else 1):]: w.isfloat = True
    logs = set()
    have = set()
    for v in vars_:
        if v.isptr and v.entry.obj in s.mem: v.scale = s.mem[v.entry.obj].es
    # locations the body is known to change from an earlier visit of the same loop
    ck = (key, depth)
    cached = X.modcache.get(ck) if X.usecache else None
    if cached:
        for kind, k2, width in cached['vars']:
            if kind == 'cell' and k2[0] in s.mem and k2 not in have and s.mem[k2[0]].log is None:
                m = s.mem[k2[0]]
                if isinstance(m.size, int) and k2[1] + k2[2] <= m.size and not any(v.kind == 'cell' and v.key[0] == k2[0] and v.key[1] < k2[1] + k2[2] and k2[1] < v.key[1] + v.key[2] for v in vars_):
                    have.add(k2)
                    vars_.append(Var(X, 'cell', k2, X.rd(m, k2[1], k2[2]), None, width))
            if kind == 'ghost' and k2 in s.ghost:
                e = s.ghost[k2]
                vars_.append(Var(X, 'ghost', k2, e, None, e.size() if is_bv(e) else 64))
        for o in cached['logs']:
            if o in s.mem and s.mem[o].log is not None: logs.add(o)
    for v in vars_:
        if v.isptr and cached: v.scale = max(v.scale, cached['scale'].get((v.kind, v.key, v.lane), 1))
    if X.modonly:
        # only the set of changed locations is wanted by an enclosing loop
        if not cached:
            st, acc, cmps = discover(X, s, bb, L, vars_, logs, have, depth)
            remember(X, ck, vars_, logs)
        st = havoc(X, s, vars_, logs, depth)
        s.pc, s.mem, s.ghost, s.frames = st.pc, st.mem, st.ghost, st.frames
        s.tok = object()
        s.frames[-1].cuts[bb] = []
        return None
    for attempt in range(6):
        st, acc, cmps = discover(X, s, bb, L, vars_, logs, have, depth)
        remember(X, ck, vars_, logs)
        r = infer(X, s, f, bb, L, vars_, logs, have, depth, st, acc, cmps, ck)
        if r is not None: break
    else: raise Unsupported('loop modification set did not converge')
    cands = r
    # obligations: established at entry
    if not X.quiet: X.obligate_many(s, [(c(s), 'loop-invariant established: ' + nm) for nm, c in cands])
    st = havoc(X, s, vars_, logs, depth)
    for nm, c in cands: add_pc(st, c(st))
    s.pc, s.mem, s.ghost, s.frames = st.pc, st.mem, st.ghost, st.frames
    s.tok = object()
    s.frames[-1].cuts[bb] = cands
    if not X.feasible(s.pc, z3.BoolVal(True)): return STOP
    return None


def norm(n):
    import re
    return re.sub(r'loop!\d+', 'loop', n)


def remember(X, ck, vars_, logs):
    e = X.modcache.setdefault(ck, {'vars': [], 'logs': set(), 'scale': {}})
    ks = {(a, b) for a, b, _ in e['vars']}
    for v in vars_:
        if v.kind != 'phi' and (v.kind, v.key) not in ks: e['vars'].append((v.kind, v.key, v.width))
        if v.isptr: e['scale'][(v.kind, v.key, v.lane)] = v.scale
    e['logs'] |= logs


def discover(X, s, bb, L, vars_, logs, have, depth):
    for rnd in range(12):
        st = havoc(X, s, vars_, logs, depth, first=True)
        q, X.quiet = X.quiet, X.quiet + 1
        rng, X.rng = X.rng, set()
        ct, X.cmpterms = X.cmpterms, []
        mo, X.modonly = X.modonly, True
        try: acc = run_body(X, st, bb, L, depth)
        finally: X.modonly = mo
        writes, cmps = X.rng, X.cmpterms
        X.rng, X.quiet, X.cmpterms = rng, q, ct
        if X.rng is not None: X.rng |= writes
        if X.cmpterms is not None: X.cmpterms += cmps
        if not note_writes(X, s, writes, acc, st, vars_, logs, have, depth): return st, acc, cmps
    raise Unsupported('loop modification set did not converge')


def note_writes(X, s, writes, acc, st, vars_, logs, have, depth):
    new = False
    for (o, off, n) in writes:
        if o not in s.mem: continue  # created inside the loop
        if off is None:
            if s.mem[o].log is not None:
                if o not in logs: logs.add(o); new = True
                continue
            m = s.mem[o]
            es = m.es if m.init is not None or m.es > 1 else 8
            if not isinstance(m.size, int): raise Unsupported('symbolic write into local object in a cut loop')
            offs = [(x, es) for x in range(0, m.size - es + 1, es)]
        else: offs = [(off, n)]
        for off, n in offs:
            if (o, off, n) in have: continue
            clash = [v for v in vars_ if v.kind == 'cell' and v.key[0] == o and not (v.key[1] + v.key[2] <= off or off + n <= v.key[1])]
            if clash:
                if any(v.key[1] <= off and off + n <= v.key[1] + v.key[2] for v in clash): continue
                for v in clash: vars_.remove(v)
            m = s.mem[o]
            # the entry value may be a vector-sized raw value: keep cells at element granularity
            w = n
            ents = [(off, n)]
            if n > 8: ents = [(off + k, 8) for k in range(0, n, 8)]
            for o2, n2 in ents:
                have.add((o, o2, n2))
                vars_.append(Var(X, 'cell', (o, o2, n2), X.rd(m, o2, n2), None, n2 * 8))
            have.add((o, off, n))
            new = True
    gh = set()
    for b in acc:
        for k, v in b.ghost.items():
            if k not in s.ghost: continue
            if not same(v, st.ghost[k]): gh.add(k)
    for k in gh:
        if not any(v.kind == 'ghost' and v.key == k for v in vars_):
            e = s.ghost[k]
            vars_.append(Var(X, 'ghost', k, e, None, e.size() if is_bv(e) else 64))
            new = True
    # pointer strides
    for v in vars_:
        if v.isptr and v.scale == 1:
            sc = X.ptr_scale(s, v, acc, depth)
            if sc != 1:
                v.scale = sc
                new = True
    return new


def infer(X, s, f, bb, L, vars_, logs, have, depth, st, acc, cmps, ck):
    cands = candidates(X, s, st, acc, cmps, vars_, depth)
    for nm, c in (X.usercands(X, s, f, bb, vars_, depth) if X.usercands else []): cands.append(['user: ' + nm, c])
    for c in cands: c[0] = norm(c[0])
    if X.usecache and ck in X.invcache:
        keep = X.invcache[ck]
        cands = [c for c in cands if c[0] in keep]
    # candidates that hold at entry
    cands = houdini_entry(X, s, cands)
    # Houdini
    for rnd in range(60):
        st = havoc(X, s, vars_, logs, depth)
        for nm, c in cands: add_pc(st, c(st))
        q, X.quiet = X.quiet, X.quiet + 1
        rng, X.rng = X.rng, set()
        acc = run_body(X, st, bb, L, depth)
        writes = X.rng
        X.quiet, X.rng = q, rng
        if X.rng is not None: X.rng |= writes
        if note_writes(X, s, writes, acc, st, vars_, logs, have, depth): return None
        bad = set()
        for b in acc:
            live = [i for i in range(len(cands)) if i not in bad]
            while live:
                conds = [evc(cands[i][1], b) for i in live]
                todo = [(i, c) for i, c in zip(live, conds) if not (isinstance(c, int) and c)]
                for i, c in todo:
                    if isinstance(c, int): bad.add(i)
                todo = [(i, c) for i, c in todo if not isinstance(c, int)]
                if not todo: break
                r, sv = X.check(b.pc, z3.Not(z3.And([c for _, c in todo])), timeout=10000)
                if r == z3.unsat: break
                if r == z3.sat:
                    m = sv.model()
                    k = 0
                    for i, c in todo:
                        if not z3.is_true(m.eval(c, model_completion=True)):
                            bad.add(i)
                            k += 1
                    if not k: bad |= {i for i, _ in todo}
                else:
                    # decide one at a time
                    for i, c in todo:
                        r2, _ = X.check(b.pc, z3.Not(c), timeout=5000)
                        if r2 != z3.unsat: bad.add(i)
                live = [i for i in range(len(cands)) if i not in bad]
        if not bad: break
        cands = [c for i, c in enumerate(cands) if i not in bad]
    else: raise Unsupported('invariant inference did not converge')
    if X.usecache: X.invcache.setdefault(ck, set()).update(n for n, _ in cands)
    if X.loopdebug and X.quiet == 0: print('LOOP', f.fn.dem[:60], bb, len(vars_), 'inv', len(cands))
    return cands


def add_pc(st, c):
    c = simplb(tobool(c))
    if isinstance(c, int):
        if not c: st.pc.append(z3.BoolVal(False))
        return
    st.pc.append(c)


def evc(c, st):
    try: return simplb(tobool(c(st)))
    except (Unsupported, z3.Z3Exception, AttributeError): return 0


def same(a, b):
    if a is b: return True
    if is_bv(a) and is_bv(b): return a.get_id() == b.get_id()
    if isinstance(a, (int, Poly)) and type(a) == type(b): return a == b
    return False


def run_body(X, st, bb, L, depth):
    acc = []
    sb = X.stop_backedge
    X.stop_backedge = (bb, depth, acc, L)
    try:
        X.loop([st], depth - 1)
    finally:
        X.stop_backedge = sb
    return acc


def symbolic_exit(X, s, f, bb, L, depth):
    """does leaving the loop during the first iteration depend on a symbolic condition?"""
    st = s.fork()
    q, X.quiet = X.quiet, X.quiet + 1
    rng, X.rng = X.rng, None
    sb, X.symbranch = X.symbranch, []
    mo, X.modonly = X.modonly, True
    try:
        acc0 = run_body(X, st, bb, L, depth)
        br = X.symbranch
        cur = acc0
        for it in range(X.unrollmax):
            if not cur: return False
            cur = run_body(X, cur[0], bb, L, depth)
        if not cur: return False
    finally:
        X.quiet, X.rng, X.symbranch, X.modonly = q, rng, sb, mo
    for d, b, t, e in br:
        if d == depth and b in L and ((t in L) != (e in L)):
            return True
    return False


def havoc(X, s, vars_, logs, depth, first=False):
    st = s.fork()
    for v in vars_:
        if isinstance(v.entry, FnPtr): continue
        if v.isptr:
            if v.entry.obj is None: raise Unsupported('null pointer induction variable')
            if v.h is None: v.h = X.fresh(64, 'loop')
            v.put(X, st, depth, ptradd(v.entry, 0, ((v.scale, v.h),)))
            continue
        if isinstance(v.entry, (Poly, Cat)) or (getattr(v, 'isfloat', False) and isinstance(X.dom, RealDomain)):
            if isinstance(v.entry, Cat): raise Unsupported('havoc of mixed value')
            if v.h is None: v.h = Poly.var('loop!%d' % id(v))
            v.put(X, st, depth, v.h)
            continue
        if v.h is None:
            w = v.width or 64
            v.h = X.fresh(w, 'loop')
        h = v.h
        if v.width == 1: h = simplb(h == 1)
        v.put(X, st, depth, h)
    for o in logs:
        m = X.wmem(st, o)
        X.fresh_n += 1
        m.log = ('base', uf('hv!%d' % X.fresh_n, z3.BitVecSort(64), z3.BitVecSort(8 * m.es)))
    return st


def houdini_entry(X, s, cands):
    conds = []
    out = []
    for nm, c in cands:
        v = evc(c, s)
        if isinstance(v, int):
            if v: out.append([nm, c])
            continue
        conds.append(([nm, c], v))
    while conds:
        r, sv = X.check(s.pc, z3.Not(z3.And([v for _, v in conds])), timeout=10000)
        if r == z3.unsat:
            out += [c for c, _ in conds]
            break
        if r == z3.sat:
            m = sv.model()
            keep = [(c, v) for c, v in conds if z3.is_true(m.eval(v, model_completion=True))]
            if len(keep) == len(conds): break
            conds = keep
        else:
            for c, v in conds:
                if X.check(s.pc, z3.Not(v), timeout=3000)[0] == z3.unsat: out.append(c)
            break
    return out


def candidates(X, s, st, acc, cmps, vars_, depth):
    C = []
    nums = []
    for v in vars_:
        if isinstance(v.entry, FnPtr) or v.entry is POISON or getattr(v, 'isfloat', False): continue
        if not is_bv(v.h): continue
        e = BVV(0, 64) if v.isptr else v.conv(v.entry)
        if e is None or not is_bv(e) or e.size() != v.h.size(): continue
        if v.kind == 'cell' and isinstance(v.entry, (Ptr,)) and not v.isptr: continue
        ds = set()
        ok = True
        for b in acc:
            c = v.num(X, b, depth)
            if c is None:
                ok = False
                break
            d = z3.simplify(c - v.h)
            ds.add(d.as_long() if z3.is_bv_value(d) else None)
        if not ok: continue
        nums.append((v, e, ds))
    getter = lambda v: (lambda t: tobv(v.num(X, t, depth), v.h.size()))
    for v, e, ds in nums:
        g = getter(v)
        n = v.h.size()
        if n == 1:
            C.append(['%s unchanged' % v, lambda t, g=g, e=e: g(t) == e])
            continue
        C.append(['%s unchanged' % v, lambda t, g=g, e=e: g(t) == e])
        C.append(['%s >= entry' % v, lambda t, g=g, e=e: z3.UGE(g(t), e)])
        C.append(['%s <= entry' % v, lambda t, g=g, e=e: z3.ULE(g(t), e)])
        if n == 64:
            C.append(['%s s>= entry' % v, lambda t, g=g, e=e: g(t) >= e])
            C.append(['%s s<= entry' % v, lambda t, g=g, e=e: g(t) <= e])
            C.append(['%s s>= 0' % v, lambda t, g=g: g(t) >= 0])
        dd = [sgn(d, n) for d in ds if d is not None]
        if len(dd) == len(ds) and dd:
            import math
            gd = 0
            for d in dd: gd = math.gcd(gd, abs(d))
            if gd > 1:
                if gd & (gd - 1) == 0: C.append(['%s step %d' % (v, gd), lambda t, g=g, e=e, m=gd - 1, n=n: ((g(t) - e) & BVV(m, n)) == 0])
                else: C.append(['%s step %d' % (v, gd), lambda t, g=g, e=e, m=gd, n=n: z3.URem(g(t) - e, BVV(m, n)) == 0])
    for i, (v, e, ds) in enumerate(nums):
        for w, e2, ds2 in nums[i + 1:]:
            if v.h.size() != w.h.size() or v.h.size() == 1: continue
            n = v.h.size()
            g1, g2 = getter(v), getter(w)
            if len(ds) == 1 and len(ds2) == 1 and None not in ds and None not in ds2:
                a, b = sgn(next(iter(ds)), n), sgn(next(iter(ds2)), n)
                if a == 0 or b == 0: continue
                import math
                q = math.gcd(a, b)
                a, b = a // q, b // q
                C.append(['%s / %s in step' % (v, w), lambda t, g1=g1, g2=g2, e=e, e2=e2, a=a, b=b, n=n: BVV(b, n) * (g1(t) - e) == BVV(a, n) * (g2(t) - e2)])
            elif ds and ds2:
                C.append(['%s / %s equal steps' % (v, w), lambda t, g1=g1, g2=g2, e=e, e2=e2: (g1(t) - e) == (g2(t) - e2)])
            if n == 64:
                C.append(['%s <= %s' % (v, w), lambda t, g1=g1, g2=g2: z3.ULE(g1(t), g2(t))])
                C.append(['%s >= %s' % (v, w), lambda t, g1=g1, g2=g2: z3.UGE(g1(t), g2(t))])
                C.append(['%s + %s const' % (v, w), lambda t, g1=g1, g2=g2, e=e, e2=e2: g1(t) + g2(t) == e + e2])
    # bounds from comparisons made in the body
    hs = {v.h.decl().name(): v for v, e, ds in nums}
    seen = set()
    for A, B in cmps:
        for P, Q in ((A, B), (B, A)):
            sp, sq = symbols(P), symbols(Q)
            if sq & set(hs) or not sp & set(hs): continue
            if any(x.startswith('loop!') and x not in hs for x in sp | sq): continue
            k = (P.get_id(), Q.get_id())
            if k in seen or len(seen) > 24: continue
            seen.add(k)
            used = [hs[x] for x in sp if x in hs]

            def ev(t, P=P, used=used): return z3.substitute(P, *[(v.h, tobv(v.num(X, t, depth), v.h.size())) for v in used])
            forms = [('', ev)]
            if len(used) == 1 and used[0].h.get_id() != P.get_id(): forms.append(('v', lambda t, u=used[0]: tobv(u.num(X, t, depth), u.h.size())))
            for tag, fn in forms:
                for nm, rel in (('<=', z3.ULE), ('<', z3.ULT), ('>=', z3.UGE), ('>', z3.UGT), ('s<=', lambda a, b: a <= b), ('s>=', lambda a, b: a >= b), ('!=', lambda a, b: a != b)):
                    if not tag or P.size() == used[0].h.size():
                        C.append(['bound%s %s %s %s' % (tag, str(P)[:40].replace('\n', ' '), nm, str(Q)[:40].replace('\n', ' ')), lambda t, fn=fn, rel=rel, Q=Q: rel(fn(t), Q)])
    return C
