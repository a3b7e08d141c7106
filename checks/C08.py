"""C08: views and adaptors map each position to the documented source element"""
from kvc.check import *
from kvc import sym
import ctypes, random
W64 = z3.BitVecSort(64)
INF = mask(64)
LIM = 1 << 40


def umin(a, b): return z3.If(z3.ULT(a, b), a, b)
def isinf(x): return x == INF
def sub_shape(a, b): return z3.If(isinf(a), BVV(INF, 64), a - b)
def add_shape(a, b): return z3.If(z3.Or(isinf(a), isinf(b)), BVV(INF, 64), a + b)


def GF(i, d): return uf('G%d' % i, *([W64] * d + [z3.BitVecSort(32)]))


class View:
    def __init__(self, dims, srcs, np, spec, shape, pre=None, params=None, nv=4, infok=True):
        self.dims, self.srcs, self.np, self.spec, self.shape, self.pre, self.nv, self.infok = dims, srcs, np, spec, shape, pre, nv, infok


def cond_pos(S, idx):
    """position of an operand whose dimensions of size 1 are broadcast"""
    return [z3.If(s == 1, BVV(0, 64), i) for s, i in zip(S, idx)]


def bshape(a, b): return z3.If(z3.And(a == 1, b != 1), b, a)
def bcomp(a, b): return z3.Or(a == b, a == 1, b == 1)


G = lambda k, *ix: GF(k, len(ix))(*ix)
lo = lambda x: z3.Extract(31, 0, x)


def cat(ax, D):
    def spec(P, V, ix):
        S = P[:D]
        j = list(ix)
        j[ax] = ix[ax] - S[ax]
        return z3.If(z3.ULT(ix[ax], S[ax]), G(0, *ix), G(1, *j))

    def shape(P): return [add_shape(P[k], P[D + k]) if k == ax else umin(P[k], P[D + k]) for k in range(D)]
    return spec, shape


def flat(sh, ix):
    r = BVV(0, 64)
    for s, i in zip(sh, ix): r = r * s + i
    return r


def unflat(sh, f):
    r = []
    for s in reversed(sh):
        r.append(z3.URem(f, BVV(s, 64)))
        f = z3.UDiv(f, BVV(s, 64))
    return r[::-1]


def rsh(a, b): return View(len(b), [(0, list(a))], 0, lambda P, V, ix: G(0, *unflat(a, flat(b, ix))), lambda P: [BVV(x, 64) for x in b])


c20, c20s = cat(0, 2)
c21, c21s = cat(1, 2)
c1, c1s = cat(0, 1)
# name -> View(result dims, sources [(id, [parameter positions or constants])], number of size parameters, spec, shape, pre)
VIEWS = {
    'slice1': View(1, [(0, ['0'])], 3, lambda P, V, ix: G(0, ix[0] + P[1]), lambda P: [umin(sub_shape(P[0], P[1]), P[2])], lambda P: z3.And(z3.ULE(P[1], P[0]), z3.ULT(P[1], LIM))),
    'slice2': View(2, [(0, ['0', '1'])], 6, lambda P, V, ix: G(0, ix[0] + P[2], ix[1] + P[3]), lambda P: [umin(sub_shape(P[k], P[2 + k]), P[4 + k]) for k in (0, 1)],
                   lambda P: z3.And([z3.And(z3.ULE(P[2 + k], P[k]), z3.ULT(P[2 + k], LIM)) for k in (0, 1)])),
    'trunc1': View(1, [(0, ['0'])], 2, lambda P, V, ix: G(0, ix[0]), lambda P: [umin(P[0], P[1])]),
    'trunc2': View(2, [(0, ['0', '1'])], 4, lambda P, V, ix: G(0, *ix), lambda P: [umin(P[k], P[2 + k]) for k in (0, 1)]),
    'pad1': View(1, [(0, ['0'])], 1, lambda P, V, ix: z3.If(z3.ULT(ix[0], P[0]), G(0, ix[0]), V[0]), lambda P: [BVV(INF, 64)]),
    'rev1': View(1, [(0, ['0'])], 1, lambda P, V, ix: G(0, P[0] - 1 - ix[0]), lambda P: [P[0]], infok=False),
    'rev2': View(2, [(0, ['0', '1'])], 2, lambda P, V, ix: G(0, P[0] - 1 - ix[0], P[1] - 1 - ix[1]), lambda P: [P[0], P[1]], infok=False),
    'cat1': View(1, [(0, ['0']), (1, ['1'])], 2, c1, c1s, lambda P: z3.And(P[0] != 0, P[1] != 0)),
    'cat20': View(2, [(0, ['0', '1']), (1, ['2', '3'])], 4, c20, c20s, lambda P: z3.And([p != 0 for p in P])),
    'cat21': View(2, [(0, ['0', '1']), (1, ['2', '3'])], 4, c21, c21s, lambda P: z3.And([p != 0 for p in P])),
    'cat3': View(1, [(0, ['0']), (1, ['1']), (2, ['2'])], 3,
                 lambda P, V, ix: z3.If(z3.ULT(ix[0], P[0]), G(0, ix[0]), z3.If(z3.ULT(ix[0] - P[0], P[1]), G(1, ix[0] - P[0]), G(2, ix[0] - P[0] - P[1]))),
                 lambda P: [add_shape(P[0], add_shape(P[1], P[2]))], lambda P: z3.And([p != 0 for p in P] + [z3.ULT(p, LIM) for p in P[:2]])),
    'cnt1': View(1, [], 0, lambda P, V, ix: V[0] + lo(ix[0]) * V[1], lambda P: [BVV(INF, 64)]),
    'cnt2': View(2, [], 0, lambda P, V, ix: V[0] + lo(ix[0]) * V[1] + lo(ix[1]) * V[2], lambda P: [BVV(INF, 64)] * 2),
    'seq3': View(1, [], 0, lambda P, V, ix: z3.If(z3.URem(ix[0], BVV(3, 64)) == 0, V[0], z3.If(z3.URem(ix[0], BVV(3, 64)) == 1, V[1], V[2])), lambda P: [BVV(INF, 64)]),
    'seq4': View(1, [], 0, lambda P, V, ix: z3.If(ix[0] & 3 == 0, V[0], z3.If(ix[0] & 3 == 1, V[1], z3.If(ix[0] & 3 == 2, V[2], V[3]))), lambda P: [BVV(INF, 64)]),
    'lam1': View(1, [], 0, lambda P, V, ix: V[0] ^ lo(ix[0]), lambda P: [BVV(INF, 64)]),
    'lam2': View(2, [], 0, lambda P, V, ix: (V[0] ^ lo(ix[0])) + V[1] * lo(ix[1]), lambda P: [BVV(INF, 64)] * 2),
    'fix1': View(1, [(0, ['0'])], 1, lambda P, V, ix: G(0, ix[0]), lambda P: [BVV(32, 64)], lambda P: z3.UGE(P[0], 32)),
    'dim1': View(1, [(0, ['0'])], 1, lambda P, V, ix: G(0, ix[0]), lambda P: [P[0]]),
    'dim2': View(2, [(0, ['0'])], 1, lambda P, V, ix: G(0, ix[1]), lambda P: [BVV(INF, 64), P[0]]),
    'dim23': View(3, [(0, ['0', '1'])], 2, lambda P, V, ix: G(0, ix[1], ix[2]), lambda P: [BVV(INF, 64), P[0], P[1]]),
    'sel1': View(1, [(0, ['0']), (1, ['1'])], 2, lambda P, V, ix: (lambda a, b: z3.If(a < b, a, b))(G(0, *cond_pos(P[:1], ix)), G(1, *cond_pos(P[1:], ix))), lambda P: [bshape(P[0], P[1])],
                 lambda P: z3.And(bcomp(P[0], P[1]), P[0] != 0, P[1] != 0)),
    'sca1': View(1, [], 0, lambda P, V, ix: V[0], lambda P: [BVV(INF, 64)]),
    'brc2': View(2, [(0, ['0', '1']), (1, ['2', '3'])], 4, lambda P, V, ix: G(0, *cond_pos(P[:2], ix)) - G(1, *cond_pos(P[2:], ix)), lambda P: [bshape(P[k], P[2 + k]) for k in (0, 1)],
                 lambda P: z3.And([z3.And(bcomp(P[k], P[2 + k]), P[k] != 0, P[2 + k] != 0) for k in (0, 1)])),
    'brd21': View(2, [(0, ['0', '1']), (1, ['2'])], 3, lambda P, V, ix: G(0, *cond_pos(P[:2], ix)) - G(1, *cond_pos(P[2:], ix[1:])), lambda P: [P[0], bshape(P[1], P[2])],
                  lambda P: z3.And([z3.And(bcomp(P[1], P[2]), P[k] != 0) for k in (0, 1, 2)])),
    'brs2': View(2, [(0, ['0', '1'])], 2, lambda P, V, ix: G(0, *cond_pos(P[:2], ix)) - V[0], lambda P: [P[0], P[1]], lambda P: z3.And(P[0] != 0, P[1] != 0)),
    'brs1': View(1, [(0, ['0'])], 1, lambda P, V, ix: V[0] - G(0, *cond_pos(P[:1], ix)), lambda P: [P[0]], lambda P: P[0] != 0),
    'rsh12': rsh([24], [4, 6]),
    'rsh21': rsh([4, 6], [24]),
    'rsh22': rsh([4, 6], [3, 8]),
    'rsh32': rsh([2, 3, 4], [4, 6]),
    'rsh23': rsh([4, 6], [2, 3, 4]),
}
STORES = {'st_slice1': ('slice1', 4, 0), 'st_slice2': ('slice2', 4, 1), 'st_trunc1': ('trunc1', 4, 0), 'st_rsh22_w1': ('rsh22', 1, 1), 'st_rsh22_w4': ('rsh22', 4, 1), 'st_rsh12_w4': ('rsh12', 4, 1), 'st_rsh21_w4': ('rsh21', 4, 0)}


def srcdims(v, P): return {k: [P[int(x)] if isinstance(x, str) else BVV(x, 64) for x in d] for k, d in v.srcs}


def symbols_(v):
    return [BV('p%d' % k, 64) for k in range(v.np)], [BV('v%d' % k, 32) for k in range(v.nv)], [BV('ix%d' % k, 64) for k in range(v.dims)]


def pre_of(v, P, IX, ax, N, inf=True):
    c = []
    for p in P: c.append(z3.Or(z3.ULT(p, LIM), p == INF) if v.infok and inf else z3.ULT(p, LIM))
    if v.pre is not None: c.append(v.pre(P))
    sh = v.shape(P)
    for k, i in enumerate(IX):
        c.append(z3.ULT(i, LIM))
        c.append(z3.ULE(i + (N if k == ax else 1), sh[k]))
    return c


def src_contract(v, P, s):
    D = srcdims(v, P)

    def src_get(X, s, a, i):
        k, n, ax = a[0], a[4], a[3]
        d = len(D[k])
        ix = [tobv(X.read_scalar(s, sym.ptradd(a[1], 8 * q), 8), 64) for q in range(d)]
        for q in range(d):
            # documented source position inside the source
            X.obligate(s, z3.And(z3.ULT(ix[q], D[k][q]), z3.ULE(BVV(n if q == ax else 1, 64), D[k][q] - ix[q])), 'source evaluated only inside its shape (dimension %d)' % q)
        if d and not (isinstance(ax, int) and ax < d): X.obligate(s, 0, 'vector axis is an axis of the source')
        for j in range(n): X.write_scalar(s, sym.ptradd(a[5], 4 * j), 4, G(k, *[ix[q] + j if q == ax else ix[q] for q in range(d)]))
    return [('src_get', src_get)]


def view_body(fn, v, ax, N, inf=True):
    def body(X, s):
        P, V, IX = symbols_(v)
        s.pc += pre_of(v, P, IX, ax, N, inf)
        X.contracts = src_contract(v, P, s)
        mk = lambda vals, nm, es: X.newobj(s, es * max(len(vals), 1), (lambda off, k, vals=vals: vals[off // es] if off // es < len(vals) else 0), es, nm, True)
        out = X.newobj(s, 4 * N, None, 4, 'out')
        outs = X.call(fn, [mk(P, 'p', 8), mk(V, 'v', 4), mk(IX, 'ix', 8), out], s)
        for so in outs:
            for j in range(N):
                r = X.rd(so.mem[out.obj], 4 * j, 4)
                e = v.spec(P, V, [IX[q] + j if q == ax else IX[q] for q in range(v.dims)])
                X.obligate(so, tobv(r, 32) == e if r is not POISON else 0, 'element %d is the documented source element' % j)
        return len(outs)
    return body


def shape_body(fn, v):
    def body(X, s):
        P, V, IX = symbols_(v)
        for p in P: s.pc.append(z3.Or(z3.ULT(p, LIM), p == INF) if v.infok else z3.ULT(p, LIM))
        if v.pre is not None: s.pc.append(v.pre(P))
        X.contracts = src_contract(v, P, s)
        mk = lambda vals, nm, es: X.newobj(s, es * max(len(vals), 1), (lambda off, k, vals=vals: vals[off // es] if off // es < len(vals) else 0), es, nm, True)
        out = X.newobj(s, 8 * v.dims, None, 8, 'out')
        outs = X.call(fn, [mk(P, 'p', 8), mk(V, 'v', 4), out], s)
        for so in outs:
            for k in range(v.dims): X.obligate(so, tobv(X.rd(so.mem[out.obj], 8 * k, 8), 64) == v.shape(P)[k], 'shape of the view (dimension %d)' % k)
        return len(outs)
    return body


def store_body(fn, v, ax, N):
    def body(X, s):
        P, V, IX = symbols_(v)
        V = [BV('v%d' % k, 32) for k in range(N)]
        s.pc += pre_of(v, P, IX, ax, N)
        D = srcdims(v, P)[0]
        lanes = [[IX[q] + j if q == ax else IX[q] for q in range(v.dims)] for j in range(N)]
        tgt = [v.spec(P, V, l) for l in lanes]  # G(0, position): the arguments are the destination positions
        pos = [t.children() for t in tgt]
        s.ghost['n'] = 0

        def dst_set(X, s, a, i):
            n, ax2 = a[4], a[3]
            d = len(D)
            ix = [tobv(X.read_scalar(s, sym.ptradd(a[1], 8 * q), 8), 64) for q in range(d)]
            for j in range(n):
                p = [ix[q] + j if q == ax2 else ix[q] for q in range(d)]
                k = s.ghost['n']
                if k >= N:
                    X.obligate(s, 0, 'each element is stored once')
                    return STOP
                for q in range(d):
                    X.obligate(s, p[q] == pos[k][q], 'element is stored at the documented position (dimension %d)' % q)
                    X.obligate(s, z3.ULT(p[q], D[q]), 'store inside the destination (dimension %d)' % q)
                X.obligate(s, tobv(X.read_scalar(s, sym.ptradd(a[5], 4 * j), 4), 32) == V[k], 'stored value')
                s.ghost['n'] = k + 1
        X.contracts = [('dst_set', dst_set)]
        mk = lambda vals, nm, es: X.newobj(s, es * max(len(vals), 1), (lambda off, k, vals=vals: vals[off // es] if off // es < len(vals) else 0), es, nm, True)
        outs = X.call(fn, [mk(P, 'p', 8), mk(V, 'v', 4), mk(IX, 'ix', 8)], s)
        for so in outs: X.obligate(so, 1 if so.ghost['n'] == N else 0, 'every element is stored')
        return len(outs)
    return body


def adj_body(fn, N):
    def body(X, s):
        v = View(1, [(0, ['0'])], 1, None, lambda P: [P[0]])
        P, V, IX = symbols_(v)
        s.pc += pre_of(v, P, IX, 0, N)
        X.contracts = src_contract(v, P, s)
        mk = lambda vals, nm, es: X.newobj(s, es * max(len(vals), 1), (lambda off, k, vals=vals: vals[off // es] if off // es < len(vals) else 0), es, nm, True)
        out, st = X.newobj(s, 4 * N, None, 4, 'out'), X.newobj(s, 4, None, 4, 'st')
        outs = X.call(fn, [mk(P, 'p', 8), mk(V, 'v', 4), mk(IX, 'ix', 8), out, st], s)
        for so in outs:
            for j in range(N):
                prev = V[0] if j == 0 else G(0, IX[0] + (j - 1))
                X.obligate(so, tobv(X.rd(so.mem[out.obj], 4 * j, 4), 32) == G(0, IX[0] + j) - prev * 3, 'adjacent element %d' % j)
            X.obligate(so, tobv(X.rd(so.mem[st.obj], 0, 4), 32) == G(0, IX[0] + (N - 1)), 'last element is kept for the next chunk')
        return len(outs)
    return body


def adj_init(X, s):
    st = X.newobj(s, 4, None, 4, 'st')
    outs = X.call('adj_init', [st], s)
    for so in outs: X.obligate(so, tobv(X.rd(so.mem[st.obj], 0, 4), 32) == 0, 'element before the first is zero')
    return len(outs)


# ------------------------------------------------ concrete replay
def ghash(k, ix):
    h = 0x9E3779B97F4A7C15 * (k + 1) & INF
    for i in ix: h = ((h ^ i) * 0xC2B2AE3D27D4EB4F) & INF; h ^= h >> 29
    return h & 0xffffffff


def cval(t):
    t = z3.simplify(t)
    for _ in range(20):
        if z3.is_bv_value(t): return t.as_long()
        if z3.is_true(t) or z3.is_false(t): return int(z3.is_true(t))
        sub = []

        def walk(e):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() and all(z3.is_bv_value(c) for c in e.children()):
                sub.append((e, BVV(ghash(int(e.decl().name()[1:].split('!')[0].split('_')[0]), [c.as_long() for c in e.children()]), e.size())))
                return
            for c in e.children(): walk(c)
        walk(t)
        if not sub: return None
        t = z3.simplify(z3.substitute(t, *sub))
    return None


SRC = ctypes.CFUNCTYPE(None, ctypes.c_size_t, ctypes.POINTER(ctypes.c_size_t), ctypes.c_size_t, ctypes.c_size_t, ctypes.c_size_t, ctypes.POINTER(ctypes.c_uint32))


def replayer(C, unit, arch, fn, v, ax, N):
    def replay(st):
        lib = ctypes.CDLL(C.native(unit, arch).so if hasattr(C.native(unit, arch), 'so') else C.native(unit, arch))
        rnd = random.Random(1)
        bad = []

        def cb(k, ix, d, a, n, out):
            x = [ix[q] for q in range(d)]
            for j in range(n):
                p = [x[q] + j if q == a else x[q] for q in range(d)]
                if any(p[q] >= shp[k][q] for q in range(d)): bad.append((k, p))
                out[j] = ghash(k, p)
        f = SRC(cb)
        lib.set_src(f)
        cands = []
        for fl in st.failed:
            if fl.model is not None:
                P, V, IX = symbols_(v)
                cands.append([[fl.model.eval(x, model_completion=True).as_long() for x in l] for l in (P, V, IX)])
        for _ in range(3000):
            m = rnd.choice((4, 12, 40))
            cands.append([[rnd.choice((1, INF, rnd.randrange(m), rnd.randrange(m), rnd.randrange(m))) for _ in range(v.np)], [rnd.getrandbits(32) for _ in range(v.nv)], [rnd.randrange(m) for _ in range(v.dims)]])
        for p, vv, ix in cands:
            Pb, IXb, Vb = [BVV(x, 64) for x in p], [BVV(x, 64) for x in ix], [BVV(x, 32) for x in vv]
            if not all(cval(c) if not isinstance(c, bool) else c for c in pre_of(v, Pb, IXb, ax, N)): continue
            shp = {k: [cval(x) for x in d] for k, d in srcdims(v, Pb).items()}
            del bad[:]
            out = (ctypes.c_uint32 * N)()
            getattr(lib, fn)((ctypes.c_size_t * max(1, len(p)))(*p), (ctypes.c_int32 * len(vv))(*[x - (1 << 32) if x >> 31 else x for x in vv]), (ctypes.c_size_t * len(ix))(*ix), out)
            exp = [cval(v.spec(Pb, Vb, [IXb[q] + j if q == ax else IXb[q] for q in range(v.dims)])) for j in range(N)]
            if bad or list(out) != exp: return {'sizes': p, 'values': vv, 'index': ix, 'lanes': N, 'axis': ax, 'got': list(out), 'expected': exp, 'outside_source': bad[:3], 'function': fn}
        return None
    return replay


def main():
    C = Check('C08')
    archs = ['sse2', 'avx', 'avx512'] if C.tier == 'thorough' else ['sse2', 'avx512']
    C.unit('views', 'c08_views.cpp', archs)
    C.build()
    suff = lambda f: (f.rsplit('_', 1) + [''])[1]
    for a in archs:
        names = [n for n, f in C.mods[('views', a)].funcs.items() if not f.decl]
        for nm, v in VIEWS.items():
            for sfx in ('w1', 'w2', 'w4', 'w8', 'a1', 'a2', 'a4'):
                fn = '%s_%s' % (nm, sfx)
                if fn not in names: continue
                # concatenation of three is the composition of two contracts; the wide forms of the composition enumerate many splits
                if fn in ('cat3_w2', 'cat3_w4', 'cat3_w8'): continue
                n = int(sfx[1:])
                ax = v.dims - 1 if sfx[0] == 'w' else (1 if nm == 'dim23' else 0)
                C.tasks.append(vtask(C, 'views', a, fn, view_body(fn, v, ax, n), replay=replayer(C, 'views', a, fn, v, ax, n), loopmode='unroll'))
            if nm + '_sh' in names and a == 'sse2': C.tasks.append(vtask(C, 'views', a, nm + '_sh', shape_body(nm + '_sh', v), loopmode='unroll'))
        for fn, (nm, n, ax) in STORES.items(): C.tasks.append(vtask(C, 'views', a, fn, store_body(fn, VIEWS[nm], ax, n), loopmode='unroll'))
        for n in (1, 2, 4, 8): C.tasks.append(vtask(C, 'views', a, 'adj_w%d' % n, adj_body('adj_w%d' % n, n), loopmode='unroll'))
        C.tasks.append(vtask(C, 'views', a, 'adj_init', adj_init, loopmode='unroll'))
    C.run()


if __name__ == '__main__': main()
