"""C09: shape and index algebra"""
from kvc.check import *
from kvc import sym, nat
from kvc.nat import Buf
INF = (1 << 64) - 1
B = lambda x: tobv(x, 64)
ite = lambda c, a, b: simp(z3.If(tobool(c), B(a), B(b)))
umax = lambda a, b: ite(z3.ULT(B(a), B(b)), b, a)
umin = lambda a, b: ite(z3.ULT(B(b), B(a)), b, a)
AND = lambda *c: z3.And(*[tobool(x) for x in c])
OR = lambda *c: z3.Or(*[tobool(x) for x in c])
flag = lambda c: ite(c, 1, 0)
RET = Arg('ret', 'ret', 'i64')
I = ctypes.c_uint64


def sizes(r): return r.choice((0, 1, 1, 2, 3, 4, 5, 7, INF, INF, r.randrange(1, 9), r.randrange(1 << 40)))


def mkgen(lo=None):
    def g(r, t):
        for k, v in t.items():
            t[k] = [sizes(r) for _ in v] if isinstance(v, list) else sizes(r)
        if r.random() < .3 and 's' in t and 't' in t:
            n = min(len(t['s']), len(t['t']))
            t['t'][-n:] = t['s'][-n:]
        return t
    return g


def inside(*names):
    """pre: index inside the box"""
    def pre(X, d): return [z3.ULE(B(a), B(i)) for a, i in zip(d.get('a', [0] * 4), d['i'])] + [z3.ULT(B(i), B(b)) for i, b in zip(d['i'], d['b'])]
    return pre


def gbox(r, t):
    D = len(t['i'])
    t['a'] = [r.randrange(4) for _ in range(D)]
    t['b'] = [a + r.randrange(1, 4) for a in t['a']]
    t['i'] = [b - 1 if r.random() < .6 else r.randrange(a, b) for a, b in zip(t['a'], t['b'])]
    return t


def nxt(d):
    """the index that follows in flat order: the last axis that is not at its end steps, the axes behind it restart"""
    i, a, b = d['i'], d['a'], d['b']
    D = len(i)
    last = [simp(B(i[k]) + 1 == B(b[k])) for k in range(D)]
    out, tail = [0] * D, z3.BoolVal(True)
    for k in reversed(range(D)):
        out[k] = ite(tail, ite(last[k], a[k], B(i[k]) + 1), i[k])
        tail = z3.And(tail, tobool(last[k]))
    return out, tail


def rv(s, k): return s[len(s) - 1 - k] if k < len(s) else 1


def common1(x, y):
    """common size of one axis, and whether the axes are compatible"""
    x, y = B(x), B(y)
    ok = OR(x == y, x == 1, y == 1, x == INF, y == INF)
    v = ite(x == y, x, ite(OR(x == INF, y == INF), ite(OR(umin(x, y) == 1), INF, umin(x, y)), umax(x, y)))
    return ite(OR(x == 0, y == 0), 0, v), OR(x == 0, y == 0, ok)


def common(s, t):
    D = max(len(s), len(t))
    ax = [common1(rv(s, k), rv(t, k)) for k in range(D)]
    # an incompatible axis makes the result all zero
    bad = z3.BoolVal(False)
    for _, ok in ax: bad = z3.Or(bad, z3.Not(ok))
    return [ite(bad, 0, v) for v, _ in ax][::-1]


def layout(s, t):
    """equal after removing the axes of size one"""
    n, m = len(s), len(t)

    def eq(i, j):
        if i == n and j == m: return z3.BoolVal(True)
        if i == n: return AND(B(t[j]) == 1, eq(i, j + 1))
        if j == m: return AND(B(s[i]) == 1, eq(i + 1, j))
        return z3.If(B(s[i]) == 1, eq(i + 1, j), z3.If(B(t[j]) == 1, eq(i, j + 1), z3.And(B(s[i]) == B(t[j]), eq(i + 1, j + 1))))
    return eq(0, 0)


def horner(s, i):
    r = B(i[0])
    for k in range(1, len(i)): r = r * B(s[k]) + B(i[k])
    return simp(r)


def unflat(s, k):
    out, q = [0] * len(s), B(k)
    for d in reversed(range(1, len(s))):
        out[d], q = simp(z3.URem(q, B(s[d]))), z3.UDiv(q, B(s[d]))
    # inside the shape the last quotient is below the first size: reducing it again changes nothing
    out[0] = lambda a: simp(OR(B(a) == q, B(a) == z3.URem(q, B(s[0]))))
    return out


def prod(l):
    r = B(1)
    for x in l: r = r * B(x)
    return simp(r)


def lemmas(C):
    def body(X, s):
        for D in (1, 2, 3, 4):
            S = [z3.Int('s%d' % k) for k in range(D)]
            q = [z3.Int('q%d' % k) for k in range(D)]
            r = [z3.Int('r%d' % k) for k in range(D)]
            # unflatten by repeated division: q[k+1] = q[k]*S[k] + r[k]
            k0 = z3.Int('k')
            val = q[0]
            e = q[0]
            for d in range(1, D): e = e * S[d] + r[d]
            # k written through the division identities, then Horner of the digits gives k back
            x = q[0]
            for d in range(1, D): x = x * S[d] + r[d]
            X.obligate(s, e == x, 'lemma: to_flat(from_flat(k)) = k, rank %d' % D)
        a, b, m, a2, b2 = z3.Ints('a b m a2 b2')
        t = z3.Int('t')
        # digits are unique: a*m+b = a2*m+b2 with 0 <= b, b2 < m
        X.obligate(s, z3.Implies(z3.And(m > 0, 0 <= b, b < m, 0 <= b2, b2 < m, a > a2, t == (a - a2 - 1) * m, t >= 0), a * m + b != a2 * m + b2), 'lemma: the digits of a flat position are unique (from_flat(to_flat(i)) = i)')
        # the successor index has flat position one higher: last axes at their end contribute (s-1), and restart at zero
        i0, i1, i2, i3, s1, s2, s3 = z3.Ints('i0 i1 i2 i3 s1 s2 s3')
        f = lambda *i: ((i[0] * s1 + i[1]) * s2 + i[2]) * s3 + i[3]
        for n, (x, y) in enumerate((((i0, i1, i2, i3), (i0, i1, i2, i3 + 1)), ((i0, i1, i2, s3 - 1), (i0, i1, i2 + 1, 0)), ((i0, i1, s2 - 1, s3 - 1), (i0, i1 + 1, 0, 0)), ((i0, s1 - 1, s2 - 1, s3 - 1), (i0 + 1, 0, 0, 0)))):
            X.obligate(s, f(*y) == f(*x) + 1, 'lemma: the stepped index is the next flat position, carry over %d axes' % n)
        return 1
    return vtask(C, 'shp', 'sse2', 'to_flat_1', body, label='lemma_flat', timeout=60000)


def native_walk(lib, r):
    for c in range(3000):
        D = r.randrange(1, 5)
        s = [r.randrange(1, 6) for _ in range(D)]
        n = int(np.prod(s))
        bs = Buf(s, np.uint64)
        for f in ('size_%d', 'prod_%d'):
            g = getattr(lib, f % D)
            g.restype = I
            if g(bs.p) != n: return {'function': f % D, 'shape': s, 'value': g(bs.p), 'expected': n}
        i = Buf([0] * D, np.uint64)
        z = Buf([0] * D, np.uint64)
        tf, ff, inc = getattr(lib, 'to_flat_%d' % D), getattr(lib, 'from_flat_%d' % D), getattr(lib, 'incr_%d' % D)
        tf.restype = I
        inc.restype = ctypes.c_bool
        for k in range(n):
            want = [int(x) for x in np.unravel_index(k, s)]
            o = Buf([0] * D, np.uint64)
            ff(bs.p, I(k), o.p)
            if list(o.v) != want: return {'function': 'from_flat', 'shape': s, 'flat': k, 'index': [int(x) for x in o.v], 'expected': want}
            if list(i.v) != want: return {'function': 'increment_indices', 'shape': s, 'step': k, 'index': [int(x) for x in i.v], 'expected': want}
            if tf(bs.p, o.p) != k: return {'function': 'to_flat', 'shape': s, 'index': want, 'flat': tf(bs.p, o.p), 'expected': k}
            more = inc(i.p, z.p, bs.p)
            if bool(more) != (k + 1 < n): return {'function': 'increment_indices', 'shape': s, 'index': want, 'returned': bool(more), 'expected': k + 1 < n}
        # broadcasting
        t = [x if r.random() < .5 else r.choice((1, 1, x, r.randrange(1, 4))) for x in s]
        t = t[r.randrange(D):]
        T = len(t)
        m = max(D, T)
        try: want = list(np.broadcast_shapes(tuple(s), tuple(t)))
        except ValueError: want = [0] * m
        o = Buf([0] * m, np.uint64)
        bt = Buf(t, np.uint64)
        getattr(lib, 'common_%d%d' % (D, T))(bs.p, bt.p, o.p)
        if [int(x) for x in o.v] != want: return {'function': 'common_shape', 'shapes': [s, t], 'result': [int(x) for x in o.v], 'expected': want}
        st = Buf([0] * D, np.uint64)
        getattr(lib, 'strides_%d' % D)(bs.p, I(1), st.p)
        want = [int(x) // 8 for x in np.zeros(s).strides]
        if [int(x) for x in st.v] != want: return {'function': 'strides_for_shape', 'shape': s, 'strides': [int(x) for x in st.v], 'expected': want}
    return None


def native_checked(lib, r):
    """broadcasting of expressions reports incompatible shapes"""
    f = lib.checked
    f.restype = ctypes.c_int
    for c in range(4000):
        k = r.randrange(2, 4)
        base = [r.randrange(2, 4) for _ in range(3)]
        sh = []
        for j in range(k):
            d = (2, 1, 3)[j] if k == 3 else (2, 2)[j]
            sh.append([x if r.random() < .8 else r.choice((1, r.randrange(2, 4))) for x in base[3 - d:]])
        try: want = [int(x) for x in np.broadcast_shapes(*map(tuple, sh))]
        except ValueError: want = None
        D = max(map(len, sh))
        b = [Buf(x, np.uint64) for x in sh] + [Buf([0], np.uint64)]
        o = Buf([0] * D, np.uint64)
        got = f(k, b[0].p, b[1].p, b[2].p, o.p)
        if (got == 1) != (want is not None) or (want and [int(x) for x in o.v] != want):
            return {'function': 'shape of an expression of %d operands' % k, 'shapes': sh, 'reported error': got == 0, 'shape': [int(x) for x in o.v], 'expected': want or 'an error'}
    return None


def main():
    C = Check('C09')
    q = C.tier == 'quick'
    C.unit('shp', 'c09_shape.cpp', ['sse2', 'avx2'] if q else ['sse2', 'sse41', 'avx2', 'avx512'])
    nth = __import__('threading').Thread(target=C.native, args=('shp', 'sse2'))
    nth.start()
    C.build()
    g = mkgen()
    A = C.add
    for D in (1, 2, 3, 4):
        S, T, K, O = In('s', 'u64', D), In('t', 'u64', D), Val('k', 'u64'), Out('o', 'u64', D)
        i, a, b = In('i', 'u64', D), In('a', 'u64', D), In('b', 'u64', D)
        L = lambda fn, args, spec, pre=None, gen=g, **k: A(Leaf('shp', '%s_%d' % (fn, D), args, spec, pre, gen=gen, tries=300, **k))
        L('to_flat', [RET, S, In('i', 'u64', D)], lambda X, d: {'ret': horner(d['s'], d['i'])})
        L('from_flat', [S, K, O], lambda X, d: {'o': unflat(d['s'], d['k'])}, lambda X, d, D=D: [B(x) != 0 for x in d['s']])
        L('incr', [RET, InOut('i', 'u64', D), a, b], lambda X, d: {'i': nxt(d)[0], 'ret': flag(z3.Not(nxt(d)[1]))}, inside(), gbox)
        L('incrr', [i, a, b, O], lambda X, d: {'o': [ite(nxt(d)[1], INF, x) for x in nxt(d)[0]]}, inside(), gbox)
        L('cmpi', [RET, i, b], lambda X, d: {'ret': flag(AND(*[z3.ULT(B(x), B(y)) for x, y in zip(d['i'], d['b'])]))})
        L('strides', [S, K, O], lambda X, d, D=D: {'o': [simp(B(d['k']) * B(prod(d['s'][j + 1:]))) for j in range(D)]})
        L('fstrides', [S, K, O], lambda X, d, D=D: {'o': [simp(B(d['k']) * B(prod(d['s'][:j]))) for j in range(D)]})
        for f in ('size', 'prod'): L(f, [RET, S], lambda X, d: {'ret': prod(d['s'])})
        L('sum', [RET, S], lambda X, d: {'ret': simp(sum((B(x) for x in d['s']), B(0)))})
        L('dot', [RET, S, T], lambda X, d: {'ret': simp(sum((B(x) * B(y) for x, y in zip(d['s'], d['t'])), B(0)))})
        L('inf', [RET, S], lambda X, d: {'ret': flag(OR(*[B(x) == INF for x in d['s']]))})

        def tz(X, d, D=D):
            r = B(D)
            for j in range(D): r = ite(B(d['s'][j]) != 0, D - 1 - j, r)
            return {'ret': r}
        L('tz', [RET, S], tz)
        L('eq', [RET, S, T], lambda X, d: {'ret': flag(AND(*[B(x) == B(y) for x, y in zip(d['s'], d['t'])]))})

        def rev(X, d, D=D):
            r = B(1)
            for j in range(D): r = ite(B(d['k']) == j, d['s'][D - 1 - j], r)
            return {'ret': r}
        L('rev', [RET, S, K], rev)
        L('srev', [InOut('s', 'u64', D), K, Val('v', 'u64')], lambda X, d, D=D: {'s': [ite(B(d['k']) == D - 1 - j, d['v'], d['s'][j]) for j in range(D)]})
        z = lambda f: lambda X, d: {'o': [f(B(x), B(y)) for x, y in zip(d['s'], d['t'])]}
        noinf = lambda X, d: [z3.Or(B(x) == INF, B(y) == INF, z3.ULE(B(x), B(x) + B(y))) for x, y in zip(d['s'], d['t'])]
        anyinf = lambda x, y: OR(x == INF, y == INF)
        L('adds', [S, T, O], z(lambda x, y: ite(anyinf(x, y), INF, x + y)), noinf)
        L('subs', [S, T, O], z(lambda x, y: ite(anyinf(x, y), INF, x - y)))
        L('addu', [S, T, O], z(lambda x, y: ite(anyinf(x, y), INF, ite(OR(x == 0, y == 0), 0, x + y))))
        L('subu', [S, T, O], z(lambda x, y: ite(anyinf(x, y), INF, ite(OR(x == 0, y == 0), 0, x - y))))
        L('mins', [S, T, O], z(umin))
        L('addw', [S, T, O], z(lambda x, y: simp(x + y)))
        L('subw', [S, T, O], z(lambda x, y: simp(x - y)))
        L('addv', [S, K, O], lambda X, d, D=D: {'o': d['s'][:D - 1] + [simp(B(d['s'][D - 1]) + B(d['k']))]})
        L('adda', [S, K, O], lambda X, d: {'o': [simp(B(d['s'][0]) + B(d['k']))] + d['s'][1:]})
        L('transp', [S, O], lambda X, d: {'o': d['s'][::-1]})
        L('rotl', [S, O], lambda X, d: {'o': d['s'][1:] + d['s'][:1]})
        L('rotr', [S, O], lambda X, d: {'o': d['s'][-1:] + d['s'][:-1]})
        if D > 1:
            P = Out('o', 'u64', D - 1)
            L('remb', [S, P], lambda X, d: {'o': d['s'][:-1]})
            L('trunc', [S, P], lambda X, d: {'o': d['s'][:-1]})
            L('remf', [S, P], lambda X, d: {'o': d['s'][1:]})
        L('ext', [S, Val('v', 'u64'), Out('o', 'u64', 4)], lambda X, d, D=D: {'o': [d['v']] * (4 - D) + d['s']})
        L('trim', [S, Out('o', 'u64', (D + 1) // 2)], lambda X, d, D=D: {'o': d['s'][D - (D + 1) // 2:]})
        L('mask', [S, Out('o', 'i8', 16)], lambda X, d, D=D: {'o': [0] * (16 - D) + [simp(z3.If(B(x) == 1, BVV(0, 8), BVV(255, 8))) for x in d['s']]})
        for D2 in (1, 2, 3, 4):
            S2 = In('t', 'u64', D2)
            M = max(D, D2)
            L2 = lambda fn, args, spec, pre=None: A(Leaf('shp', '%s_%d%d' % (fn, D, D2), args, spec, pre, gen=g, tries=400, timeout=60000))
            L2('common', [S, S2, Out('o', 'u64', M)], lambda X, d: {'o': common(d['s'], d['t'])})
            L2('assign', [RET, S, S2], lambda X, d, M=M: {'ret': flag(AND(*[OR(B(rv(d['t'], k)) == 1, B(rv(d['t'], k)) == INF, B(rv(d['t'], k)) == B(rv(d['s'], k)), B(rv(d['s'], k)) == INF) for k in range(M)]))})
            L2('layout', [RET, S, S2], lambda X, d: {'ret': flag(layout(d['s'], d['t']))})
            if D2 >= D:
                # pre of adapt: sizes are at least one
                L2('adapt', [S, In('i', 'u64', D2), O], lambda X, d, D=D: {'o': [umin(x, simp(B(n) - 1)) for x, n in zip(d['i'][-D:], d['s'])]})
                L2('adapts', [S, In('i', 'u64', D2), O], lambda X, d, D=D: {'o': [umin(x, n) for x, n in zip(d['i'][-D:], d['s'])]})
                L2('adaptm', [S, In('i', 'u64', D2), O], lambda X, d, D=D: {'o': [ite(B(n) == 1, 0, x) for x, n in zip(d['i'][-D:], d['s'])]})
    for nm, ds in (('213', (2, 1, 3)), ('222', (2, 2, 2))):
        A(Leaf('shp', 'common3_' + nm, [In(x, 'u64', k) for x, k in zip('stu', ds)] + [Out('o', 'u64', max(ds))], lambda X, d: {'o': common(d['s'], common(d['t'], d['u']))}, gen=g, tries=400, timeout=60000))
    V = lambda *n: [RET] + [Val(x, 'u64') for x in n]
    A(Leaf('shp', 'szadd', V('a', 'b'), lambda X, d: {'ret': ite(OR(B(d['a']) == INF, B(d['b']) == INF), INF, B(d['a']) + B(d['b']))}, gen=g))
    A(Leaf('shp', 'szsub', V('a', 'b'), lambda X, d: {'ret': ite(OR(B(d['a']) == INF, B(d['b']) == INF), INF, ite(z3.ULT(B(d['b']), B(d['a'])), B(d['a']) - B(d['b']), 0))}, gen=g))
    A(Leaf('shp', 'szmin2', V('a', 'b'), lambda X, d: {'ret': umin(d['a'], d['b'])}, gen=g))
    A(Leaf('shp', 'szmin3', V('a', 'b', 'c'), lambda X, d: {'ret': umin(umin(d['a'], d['b']), d['c'])}, gen=g))
    A(Leaf('shp', 'compact_3', [In('s', 'u64', 3), Out('o', 'u64', 2)], lambda X, d: {'o': [d['s'][0], d['s'][2]]}))
    A(Leaf('shp', 'compact_4', [In('s', 'u64', 4), Out('o', 'u64', 2)], lambda X, d: {'o': [d['s'][1], d['s'][3]]}))
    C.tasks.append(lemmas(C))
    nth.join()
    C.tasks.append(nat.nattask(C, 'shp', 'walk_and_broadcast', native_walk, 5))
    C.tasks.append(nat.nattask(C, 'shp', 'expression_shapes', native_checked, 5))
    C.bounded += ['whole walks over shapes of up to 4 axes, broadcasting against NumPy, and the reporting of incompatible operands of expressions (native runs)']
    C.assumptions += ['products of sizes do not exceed 2^64 where the flat round trip is read as an equality of integers']
    C.run()


if __name__ == '__main__': main()
