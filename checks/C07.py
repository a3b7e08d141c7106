"""C07: expression evaluation writes each element of the range once and nothing else"""
from kvc.check import *
from kvc import loops
import os, ctypes, random, itertools

ENTRIES = {'p1': (1, 1, 0), 'p1w1': (1, 1, 0), 'p1w4': (1, 1, 0), 'p1w3': (1, 1, 0), 'p10': (1, 0, 0)}
INF = mask(64)


def umin(a, b): return z3.If(z3.ULT(a, b), a, b)


def process_body(fn, OD, ID, axis, dom_inf=False):
    def body(X, s):
        G = uf('G', *([z3.BitVecSort(64)] * ID + [z3.BitVecSort(32)])) if ID else None
        g0 = BV('G0', 32)
        osh, ish, st_, sz = [[BV('%s_%d' % (n, k), 64) for k in range(d)] for n, d in (('oshape', OD), ('ishape', ID), ('start', OD), ('size', OD))]
        LIM = 1 << 40
        okf = lambda x: z3.Or(z3.ULT(x, LIM), x == INF)
        for x in osh + ish + sz: s.pc.append(okf(x))
        for x in st_: s.pc.append(z3.ULT(x, LIM))
        # documented result: element-wise minimum of the requested range and both shapes when the shapes are compatible
        inext = [BVV(INF, 64)] * (OD - ID) + ish
        comp = z3.And([z3.Or(i == 1, i == INF, i == o, o == INF) for i, o in zip(inext, osh)]) if ID else z3.BoolVal(True)
        end = [z3.If(z == INF, BVV(INF, 64), a + z) for a, z in zip(st_, sz)]
        stop = [umin(umin(e, o), i) for e, o, i in zip(end, osh, inext)]
        for x in stop: s.pc.append(x != INF)
        # order of evaluation: every axis other than the vector axis outside, in order
        order = [k for k in range(OD) if k != axis] + [axis]
        for k in range(OD): s.ghost['g%d' % k] = st_[k]
        s.ghost['phase'] = 0
        nonempty = z3.And([z3.ULT(a, b) for a, b in zip(st_, stop)])

        def rdidx(X, s, p, n): return [tobv(X.read_scalar(s, Ptr_(p, 8 * k), 8), 64) for k in range(n)]

        def Ptr_(p, o): return sym.ptradd(p, o)

        def ghost_get(X, s, a, i):
            ix = rdidx(X, s, a[0], ID)
            n = a[3]
            if not isinstance(n, int): raise Unsupported('symbolic width')
            ax = ID - (OD - axis) if ID else 0
            for k in range(ID):
                X.obligate(s, z3.And(z3.ULT(ix[k], ish[k]), z3.ULE(BVV(n, 64), ish[k] - ix[k])) if k == ax and n > 1 else z3.ULT(ix[k], ish[k]), 'source evaluated only inside its shape (dimension %d)' % k)
                # the position asked for is the destination position
                X.obligate(s, ix[k] == s.ghost['g%d' % (k + OD - ID)] if not (k == ax) else ix[k] == s.ghost['g%d' % (k + OD - ID)], 'source position equals destination position (dimension %d)' % k)
            X.obligate(s, s.ghost['phase'] == 2 if isinstance(s.ghost['phase'], int) else s.ghost['phase'] == 2, 'begin_pass before evaluation')
            for j in range(n):
                v = g0 if not ID else G(*[ix[k] + j if k == ax else ix[k] for k in range(ID)])
                X.write_scalar(s, Ptr_(a[4], 4 * j), 4, v)
            return None

        def ghost_set(X, s, a, i):
            ix = rdidx(X, s, a[0], OD)
            n = a[3]
            if not isinstance(n, int): raise Unsupported('symbolic width')
            g = [s.ghost['g%d' % k] for k in range(OD)]
            for k in range(OD): X.obligate(s, ix[k] == g[k], 'elements are stored in order, each exactly once (dimension %d)' % k)
            X.obligate(s, z3.And(z3.ULT(ix[axis], stop[axis]), z3.ULE(BVV(n, 64), stop[axis] - ix[axis])), 'store stays inside the range')
            for k in range(OD):
                if k != axis: X.obligate(s, z3.ULT(ix[k], stop[k]), 'store stays inside the range (dimension %d)' % k)
            for j in range(n):
                v = X.read_scalar(s, Ptr_(a[4], 4 * j), 4)
                e = g0 if not ID else G(*[ix[k + OD - ID] + (j if k + OD - ID == axis else 0) for k in range(ID)])
                X.obligate(s, tobv(v, 32) == e if v is not POISON else 0, 'stored value is the source value at the same position')
            # advance the ghost position
            carry = None
            new = {}
            for k in reversed(order):
                if k == axis:
                    nx = g[k] + n
                    carry = nx == stop[k]
                    new[k] = z3.If(carry, st_[k], nx) if OD > 1 else nx
                else:
                    last = k == order[0]
                    nx = z3.If(carry, g[k] + 1, g[k])
                    c2 = nx == stop[k]
                    new[k] = nx if last else z3.If(c2, st_[k], nx)
                    carry = z3.And(carry, c2)
            for k in range(OD): s.ghost['g%d' % k] = z3.simplify(new[k])
            return None

        def ghost_pass(X, s, a, i):
            kind = a[0]
            ph = s.ghost['phase']
            D = ID if kind < 2 else OD
            p, q = rdidx(X, s, a[2], D), rdidx(X, s, a[3], D)
            if kind == 2 or (kind == 0 and ID):
                X.obligate(s, ph == (0 if kind == 2 else 1) if isinstance(ph, int) else 0, 'pass begins before evaluation')
            if kind >= 2:
                for k in range(D): X.obligate(s, z3.And(p[k] == st_[k], q[k] == stop[k]), 'pass announced for the evaluated range (dimension %d)' % k)
            else:
                for k in range(D): X.obligate(s, z3.Implies(nonempty, z3.And(p[k] == st_[k + OD - ID], q[k] == stop[k + OD - ID])), 'pass announced to the source for the evaluated range (dimension %d)' % k)
            s.ghost['phase'] = {2: 1, 0: 2, 1: 3, 3: 4}[kind]
            return None
        X.contracts = [('ghost_get', ghost_get), ('ghost_set', ghost_set), ('ghost_pass', ghost_pass)]
        X.usercands = lambda X, s0, f, bb, vars_, depth: user_cands(X, s0, vars_, depth, st_, stop, OD, order)
        mk = lambda vals, nm, ro=True: X.newobj(s, 8 * max(len(vals), 1), (lambda off, k, vals=vals: vals[off // 8] if off // 8 < len(vals) else 0), 8, nm, ro)
        ret = X.newobj(s, 8 * OD, None, 8, 'ret')
        outs = X.call(fn, [ret, mk(osh, 'oshape'), mk(ish, 'ishape'), mk(st_, 'start'), mk(sz, 'size')], s)
        for so in outs:
            m = so.mem[ret.obj]
            for k in range(OD):
                v = tobv(X.rd(m, 8 * k, 8), 64)
                X.obligate(so, z3.Implies(comp, v == stop[k]), 'returned shape is the end of the range (dimension %d)' % k)
                X.obligate(so, z3.Implies(z3.Not(comp), v == 0), 'incompatible shapes are rejected')
            g = [so.ghost['g%d' % k] for k in range(OD)]
            fin = g[order[0]] == stop[order[0]] if OD > 1 else g[0] == stop[0]
            rest = z3.And([g[k] == st_[k] for k in order[1:]]) if OD > 1 else z3.BoolVal(True)
            X.obligate(so, z3.Implies(z3.And(comp, nonempty), z3.And(fin, rest)), 'every position of the range has been stored')
            X.obligate(so, z3.Implies(z3.Not(z3.And(comp, nonempty)), z3.And([g[k] == st_[k] for k in range(OD)])), 'nothing is stored for an empty range or incompatible shapes')
            ph = so.ghost['phase']
            X.obligate(so, z3.Or(z3.Not(comp), tobv(ph, 64) == 4), 'passes are ended')
        return len(outs)
    return body


def user_cands(X, s0, vars_, depth, st_, stop, OD, order):
    C = []
    n = lambda v, t: tobv(v.num(X, t, depth), 64)
    gh = {v.key: v for v in vars_ if v.kind == 'ghost' and v.key.startswith('g')}
    others = [v for v in vars_ if v.kind != 'ghost' and is_bv(v.h) and v.h.size() == 64 and not v.isptr]
    G = lambda t, k: tobv(t.ghost['g%d' % k], 64)
    for k in range(OD):
        C.append(('g%d <= stop' % k, lambda t, k=k: z3.ULE(G(t, k), stop[k])))
        C.append(('g%d < stop' % k, lambda t, k=k: z3.ULT(G(t, k), stop[k])))
        C.append(('g%d >= start' % k, lambda t, k=k: z3.UGE(G(t, k), st_[k])))
        C.append(('g%d == start' % k, lambda t, k=k: G(t, k) == st_[k]))
        for v in others:
            C.append(('g%d == %s' % (k, v), lambda t, k=k, v=v: G(t, k) == n(v, t)))
            C.append(('%s <= stop%d' % (v, k), lambda t, k=k, v=v: z3.ULE(n(v, t), stop[k])))
            C.append(('%s < stop%d' % (v, k), lambda t, k=k, v=v: z3.ULT(n(v, t), stop[k])))
    return C


def row_body(fn, OD, ID, axis):
    """contract of tprocess_body: the positions [start, stop) of one row, each stored once, in order, from the same position of the source"""
    def body(X, s):
        G = uf('G', *([z3.BitVecSort(64)] * ID + [z3.BitVecSort(32)])) if ID else None
        g0 = BV('G0', 32)
        oi, ii = [BV('outidx_%d' % k, 64) for k in range(OD)], [BV('inidx_%d' % k, 64) for k in range(ID)]
        st_, sp, insz = BV('start', 64), BV('stop', 64), BV('insize', 64)
        LIM = 1 << 40
        for x in oi + ii + [st_, sp]: s.pc.append(z3.ULT(x, LIM))
        s.pc.append(z3.UGE(insz, sp))
        s.ghost['g0'] = st_
        ax = axis + ID - OD
        rdidx = lambda X, s, p, n: [tobv(X.read_scalar(s, sym.ptradd(p, 8 * k), 8), 64) for k in range(n)]

        def ghost_get(X, s, a, i):
            n = a[3]
            ix = rdidx(X, s, a[0], ID)
            for k in range(ID): X.obligate(s, ix[k] == (s.ghost['g0'] if k == ax else ii[k]), 'source position equals destination position (dimension %d)' % k)
            if ID:
                X.obligate(s, a[2] == ax if isinstance(a[2], int) else 0, 'source is read along the vector axis')
                X.obligate(s, z3.And(z3.ULT(ix[ax], sp), z3.ULE(BVV(n, 64), sp - ix[ax])), 'source evaluated only inside the range')
            for j in range(n):
                X.write_scalar(s, sym.ptradd(a[4], 4 * j), 4, g0 if not ID else G(*[ix[k] + j if k == ax else ix[k] for k in range(ID)]))

        def ghost_set(X, s, a, i):
            n = a[3]
            ix = rdidx(X, s, a[0], OD)
            g = s.ghost['g0']
            X.obligate(s, a[2] == axis if isinstance(a[2], int) else 0, 'stored along the vector axis')
            for k in range(OD): X.obligate(s, ix[k] == (g if k == axis else oi[k]), 'elements are stored in order, each exactly once (dimension %d)' % k)
            X.obligate(s, z3.And(z3.ULT(ix[axis], sp), z3.ULE(BVV(n, 64), sp - ix[axis])), 'store stays inside the range')
            for j in range(n):
                v = X.read_scalar(s, sym.ptradd(a[4], 4 * j), 4)
                e = g0 if not ID else G(*[g + j if k == ax else ii[k] for k in range(ID)])
                X.obligate(s, tobv(v, 32) == e if v is not POISON else 0, 'stored value is the source value at the same position')
            s.ghost['g0'] = z3.simplify(g + n)
        X.contracts = [('ghost_get', ghost_get), ('ghost_set', ghost_set)]
        X.usercands = lambda X, s0, f, bb, vars_, depth: user_cands(X, s0, vars_, depth, [st_], [sp], 1, [0])
        mk = lambda vals, nm: X.newobj(s, 8 * max(len(vals), 1), (lambda off, k, vals=vals: vals[off // 8] if off // 8 < len(vals) else 0), 8, nm, True)
        outs = X.call(fn, [mk(oi, 'outidx'), mk(ii, 'inidx'), st_, sp, insz], s)
        for so in outs:
            X.obligate(so, so.ghost['g0'] == z3.If(z3.ULT(st_, sp), sp, st_), 'every position of the row has been stored')
        return len(outs)
    return body


def outer_body(fn, OD, ID, axis, scen='general'):
    """process() over several dimensions against the contract of the row evaluation: every row of the range exactly once, in order"""
    def body(X, s):
        osh, ish, st_, sz = [[BV('%s_%d' % (n, k), 64) for k in range(d)] for n, d in (('oshape', OD), ('ishape', ID), ('start', OD), ('size', OD))]
        LIM = 1 << 40
        okf = lambda x: z3.Or(z3.ULT(x, LIM), x == INF)
        for x in st_: s.pc.append(z3.ULT(x, LIM))
        if scen == 'shape':  # whole destination, source of the same shape
            for x in osh: s.pc.append(z3.ULT(x, LIM))
            ish = osh[OD - ID:]
            sz = [BVV(INF, 64)] * OD
        elif scen == 'range':  # unbounded expressions, explicit range
            ends = [BV('end_%d' % k, 64) for k in range(OD)]
            for a, b in zip(st_, ends): s.pc.append(z3.And(z3.ULE(a, b), z3.ULT(b, LIM)))
            sz = [z3.simplify(b - a) for a, b in zip(st_, ends)]
            osh, ish = [BVV(INF, 64)] * OD, [BVV(INF, 64)] * ID
        else:
            for x in osh + ish + sz: s.pc.append(okf(x))
        inext = [BVV(INF, 64)] * (OD - ID) + ish
        comp = z3.And([z3.Or(i == 1, i == INF, i == o, o == INF) for i, o in zip(inext, osh)]) if ID else z3.BoolVal(True)
        end = [z3.If(z == INF, BVV(INF, 64), a + z) for a, z in zip(st_, sz)]
        stop = [umin(umin(e, o), i) for e, o, i in zip(end, osh, inext)]
        for x in stop: s.pc.append(x != INF)
        rows = [k for k in range(OD) if k != axis]
        for k in rows: s.ghost['g%d' % k] = st_[k]
        s.ghost['phase'] = 0
        P = [BV('stop_%d' % k, 64) for k in range(OD)]
        some_rows = z3.And([z3.ULT(st_[k], stop[k]) for k in rows])
        nonempty = z3.And([z3.ULT(a, b) for a, b in zip(st_, stop)])
        rdidx = lambda X, s, p, n: [tobv(X.read_scalar(s, sym.ptradd(p, 8 * k), 8), 64) for k in range(n)]

        def row(X, s, a, i):
            a = a[2:]
            X.obligate(s, 1 if isinstance(s.ghost['phase'], int) and s.ghost['phase'] == 2 else 0, 'passes begin before evaluation')
            X.obligate(s, tobv(a[0], 64) == st_[axis], 'row starts at the start of the range')
            X.obligate(s, tobv(a[1], 64) == P[axis], 'row ends at the end of the range')
            if ID: X.obligate(s, z3.UGE(tobv(a[2], 64), P[axis]), 'row stays inside the source')
            oi = rdidx(X, s, a[3], OD)
            for k in rows: X.obligate(s, oi[k] == s.ghost['g%d' % k], 'rows are evaluated in order, each exactly once (dimension %d)' % k)
            for k in rows: X.obligate(s, z3.ULT(oi[k], P[k]), 'row lies inside the range (dimension %d)' % k)
            if ID:
                ii = rdidx(X, s, a[4], ID) if isinstance(a[4], sym.Ptr) else [tobv(a[4], 64)]
                for k in range(ID):
                    ko = k + OD - ID
                    if ko != axis: X.obligate(s, ii[k] == oi[ko], 'source row equals destination row (dimension %d)' % k)
            carry = z3.BoolVal(True)
            for k in reversed(rows):
                g = s.ghost['g%d' % k]
                nx = z3.If(carry, g + 1, g)
                c2 = nx == P[k]
                s.ghost['g%d' % k] = z3.simplify(nx if k == rows[0] else z3.If(c2, st_[k], nx))
                carry = z3.And(carry, c2)
            return None

        def ghost_pass(X, s, a, i):
            kind = a[0]
            ph = s.ghost['phase']
            D = ID if kind < 2 else OD
            p, q = rdidx(X, s, a[2], D), rdidx(X, s, a[3], D)
            if kind == 2: X.obligate(s, 1 if ph == 0 else 0, 'passes begin once')
            if kind == 0: X.obligate(s, 1 if ph == 1 else 0, 'passes begin once')
            if kind >= 2:
                for k in range(D): X.obligate(s, z3.And(p[k] == st_[k], q[k] == (stop[k] if kind == 2 else P[k])), 'pass announced for the evaluated range (dimension %d)' % k)
            else:
                for k in range(D): X.obligate(s, z3.Implies(nonempty, z3.And(p[k] == st_[k + OD - ID], q[k] == P[k + OD - ID])), 'pass announced to the source for the evaluated range (dimension %d)' % k)
            s.ghost['phase'] = {2: 1, 0: 2, 1: 3, 3: 4}[kind]
            if kind == 2:
                for k in range(OD): s.pc.append(P[k] == stop[k])
            return None
        X.contracts = [(lambda nm, d: 'tprocess_body<' in d, row), ('ghost_pass', ghost_pass)]
        X.usercands = lambda X, s0, f, bb, vars_, depth: row_cands(X, s0, vars_, depth, st_, P, rows)
        mk = lambda vals, nm: X.newobj(s, 8 * max(len(vals), 1), (lambda off, k, vals=vals: vals[off // 8] if off // 8 < len(vals) else 0), 8, nm, True)
        ret = X.newobj(s, 8 * OD, None, 8, 'ret')
        outs = X.call(fn, [ret, mk(osh, 'oshape'), mk(ish, 'ishape'), mk(st_, 'start'), mk(sz, 'size')], s)
        for so in outs:
            m = so.mem[ret.obj]
            ph = so.ghost['phase']
            for k in range(OD):
                v = tobv(X.rd(m, 8 * k, 8), 64)
                X.obligate(so, z3.Implies(comp, v == stop[k]), 'returned shape is the end of the range (dimension %d)' % k)
                X.obligate(so, z3.Implies(z3.Not(comp), v == 0), 'incompatible shapes are rejected')
            g = [so.ghost['g%d' % k] for k in rows]
            fin = z3.And([g[0] == stop[rows[0]]] + [so.ghost['g%d' % k] == st_[k] for k in rows[1:]])
            X.obligate(so, z3.Implies(z3.And(comp, nonempty), fin), 'every row of the range has been evaluated')
            X.obligate(so, z3.Implies(z3.Not(z3.And(comp, some_rows)), z3.And([so.ghost['g%d' % k] == st_[k] for k in rows])), 'nothing is evaluated for an empty range or incompatible shapes')
            X.obligate(so, z3.Implies(comp, tobv(ph, 64) == 4), 'passes are ended')
        return len(outs)
    return body


def row_cands(X, s0, vars_, depth, st_, P, rows):
    C = []
    n = lambda v, t: tobv(v.num(X, t, depth), 64)
    others = [v for v in vars_ if v.kind != 'ghost' and is_bv(v.h) and v.h.size() == 64 and not v.isptr]
    G = lambda t, k: tobv(t.ghost['g%d' % k], 64)
    base = {k: z3.simplify(tobv(s0.ghost['g%d' % k], 64)) for k in rows}
    for lev, k in enumerate(rows):
        for v in others:
            def lvl(t, v=v, k=k, lev=lev):
                x = n(v, t)
                inner_empty = z3.Or([z3.UGE(st_[q], P[q]) for q in rows[lev + 1:]]) if rows[lev + 1:] else z3.BoolVal(False)
                pos = []
                carry = x == P[k]
                pos.append(G(t, k) == (x if lev == 0 else z3.If(carry, st_[k], x)))
                for q in reversed(rows[:lev]):
                    nx = z3.If(carry, base[q] + 1, base[q])
                    c2 = nx == P[q]
                    pos.append(G(t, q) == (nx if q == rows[0] else z3.If(c2, st_[q], nx)))
                    carry = z3.And(carry, c2)
                for q in rows[lev + 1:]: pos.append(G(t, q) == st_[q])
                same_ = z3.And([G(t, q) == base[q] for q in rows])
                return z3.If(z3.ULE(x, P[k]), z3.If(inner_empty, same_, z3.Or(z3.And(pos), z3.And(x == st_[k], x == P[k], same_))), z3.And(x == st_[k], same_))
            C.append(('%s is the position in dimension %d' % (v, k), lvl))
    return C


# ------------------------------------------------ concrete replay: random shapes and ranges on the compiled code
GETF = ctypes.CFUNCTYPE(None, ctypes.POINTER(ctypes.c_size_t), ctypes.c_size_t, ctypes.c_size_t, ctypes.c_size_t, ctypes.POINTER(ctypes.c_uint32))


def gval(ix):
    h = 12345
    for i in ix: h = (h * 1000003 + i + 1) & 0xffffffff
    return h


def replayer(C, unit, arch, fn, OD, ID):
    def replay(st):
        lib = ctypes.CDLL(C.native(unit, arch))
        ev, bad = [], []

        def get(ix, d, ax, n, out):
            x = [ix[k] for k in range(d)]
            for j in range(n):
                p = [x[k] + j if k == ax else x[k] for k in range(d)]
                if any(p[k] >= cur[1][k] for k in range(d)): bad.append('source read outside its shape: %s' % p)
                out[j] = gval(p)

        def put(ix, d, ax, n, v):
            x = [ix[k] for k in range(d)]
            for j in range(n): ev.append((tuple(x[k] + j if k == ax else x[k] for k in range(d)), v[j]))
        g, p = GETF(get), GETF(put)
        lib.set_cb(g, p)
        rnd = random.Random(1)
        arr = lambda l: (ctypes.c_size_t * max(1, len(l)))(*l)
        top = {1: 70, 2: 20, 3: 7, 4: 5, 5: 4}[OD]
        for t in range(1500):
            osh = [rnd.choice((INF, rnd.randrange(top), rnd.randrange(top), top - 1)) for _ in range(OD)]
            cur = [osh, [rnd.choice((INF, osh[OD - ID + k], osh[OD - ID + k], osh[OD - ID + k], 1, rnd.randrange(top))) for k in range(ID)]]
            st_ = [rnd.choice((0, 0, rnd.randrange(top))) for _ in range(OD)]
            sz = [rnd.choice((INF, rnd.randrange(top), rnd.randrange(top))) for _ in range(OD)]
            ext = [INF] * (OD - ID) + cur[1]
            stop = [min(INF if z == INF else a + z, o, i) for a, z, o, i in zip(st_, sz, osh, ext)]
            if INF in stop: continue
            comp = all(i in (1, INF, o) or o == INF for i, o in zip(ext, osh)) if ID else True
            del ev[:], bad[:]
            ret = arr([0] * OD)
            getattr(lib, fn)(ret, arr(osh), arr(cur[1]), arr(st_), arr(sz))
            exp = sorted(itertools.product(*[range(a, b) for a, b in zip(st_, stop)])) if comp else []
            got = sorted(e[0] for e in ev)
            r = list(ret)[:OD]
            if not bad and got != exp: bad.append('positions stored: %s, expected %s' % (got[:20], exp[:20]))
            for q, v in ev:
                e = gval(q[OD - ID:])
                if v != e and not bad: bad.append('position %s holds another value than the source' % (q,))
            if r != (stop if comp else [0] * OD): bad.append('returned %s' % r)
            if bad: return {'function': fn, 'destination_shape': osh, 'source_shape': cur[1], 'start': st_, 'size': sz, 'observed': bad[:3], 'returned': r, 'expected_end': stop}
        return None
    return replay


ROWS = {'r1': (1, 1, 0), 'r2': (2, 2, 1), 'r2a0': (2, 2, 0), 'r21': (2, 1, 1), 'r20': (2, 0, 1), 'r3': (3, 3, 2), 'r3a1': (3, 3, 1), 'r32': (3, 2, 2), 'r4': (4, 4, 3), 'r4a2': (4, 4, 2), 'r5': (5, 5, 4)}
OUTER = {'q2': (2, 2, 1), 'q2a0': (2, 2, 0), 'q21': (2, 1, 1), 'q20': (2, 0, 1), 'q3': (3, 3, 2), 'q3a1': (3, 3, 1), 'q3a0': (3, 3, 0), 'q32': (3, 2, 2), 'q4': (4, 4, 3), 'q4a2': (4, 4, 2), 'q4a0': (4, 4, 0), 'q43': (4, 3, 3)}


ROWFN = {'r1': ('process', 'p1'), 'r4': ('rows', 'q4'), 'r4a2': ('rows', 'q4a2'), 'r5': ('rows', 'q5'), 'r3': ('rows', 'q3'), 'r3a1': ('rows', 'q3a1'), 'r32': ('rows', 'q32'), 'r2': ('rows', 'q2'), 'r2a0': ('rows', 'q2a0'), 'r21': ('rows', 'q21'), 'r20': ('rows', 'q20')}
COST = {'q4.range': 100, 'q4a2.range': 95, 'q4a0.range': 95, 'q43.range': 95, 'q3.shape': 60, 'q3a1.shape': 60}


def main():
    C = Check('C07')
    archs = ['sse2', 'avx', 'avx512']
    C.unit('process', 'c07_process.cpp', archs)
    C.unit('rows', 'c07_rows.cpp', ['sse2'], ['-D__always_inline__=__noinline__'])
    C.build()
    quick = C.tier != 'thorough'

    def add(unit, a, fn, body, label, cost, nat, dims):
        C.tasks.append(vtask(C, unit, a, fn, body, label=label, replay=replayer(C, nat[0], a if nat[0] == unit else 'sse2', nat[1], *dims)))
        C.tasks[-1].cost = cost
    for fn, (od, idd, ax) in OUTER.items():
        for scen in ('general', 'shape', 'range'):
            if quick and (scen == 'general' and od > 2 or scen == 'shape' and od > 3 or fn in ('q4a0', 'q4a2') or (fn, scen) in (('q3a1', 'shape'), ('q3a0', 'shape'))): continue
            if scen != 'general' and od == 2: continue
            lb = '%s.%s' % (fn, scen)
            add('rows', 'sse2', fn, outer_body(fn, od, idd, ax, scen), lb, COST.get(lb, 30), ('rows', fn), (od, idd))
    for fn, (od, idd, ax) in ENTRIES.items():
        for a in archs: add('process', a, fn, process_body(fn, od, idd, ax), fn, 25, ('process', fn), (od, idd))
    for fn, (od, idd, ax) in ROWS.items():
        for a in archs: add('process', a, fn, row_body(fn, od, idd, ax), fn, 5, ROWFN[fn], (od, idd))
    C.run()
