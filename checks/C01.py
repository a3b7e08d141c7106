"""C01: integer vector operations equal the scalar operation in every lane"""
from kvc.check import *
from kvc.sym import simplb


def S(X, n):
    """scalar specifications; signed flag sg"""
    M = mask(n)

    def ite(c, a, b): return X.ite(c, a, b, n)

    def lt(sg, a, b): return X.icmp('slt' if sg else 'ult', n, a, b)

    def mn(sg, a, b): return ite(lt(sg, b, a), b, a)

    def mx(sg, a, b): return ite(lt(sg, a, b), b, a)

    def absv(a): return ite(X.icmp('slt', n, a, 0), X.binop('sub', n, 0, a, ''), a)

    def sata(sg, a, b):
        w = n + 2
        ext = (lambda v: sgn(v, n) if isinstance(v, int) else z3.SignExt(2, v)) if sg else (lambda v: v if isinstance(v, int) else z3.ZeroExt(2, v))
        return ext, w

    def sat(sg, a, b, add):
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, M)
        if isinstance(a, int) and isinstance(b, int):
            x, y = (sgn(a, n), sgn(b, n)) if sg else (a, b)
            r = x + y if add else x - y
            return max(lo, min(hi, r)) & M
        e = z3.SignExt if sg else z3.ZeroExt
        x, y = e(2, tobv(a, n)), e(2, tobv(b, n))
        r = x + y if add else x - y
        L, H = BVV(lo, n + 2), BVV(hi, n + 2)
        return z3.Extract(n - 1, 0, z3.If(r < L, L, z3.If(r > H, H, r)))
    b2m = lambda c: X.ite(c, M, 0, n)
    bo = lambda op: (lambda sg, a, b: X.binop(op, n, a, b, ''))
    cm = lambda s, u: (lambda sg, a, b: b2m(X.icmp(s if sg else u, n, a, b)))

    def AND(p, q): return X.binop('and', 1, p, q, '')
    def OR(p, q): return X.binop('or', 1, p, q, '')
    def NOT(p): return X.binop('xor', 1, p, 1, '')
    def XOR(p, q): return X.binop('xor', 1, p, q, '')
    eq = lambda a, b: X.icmp('eq', n, a, b)
    return {
        'add': bo('add'), 'sub': bo('sub'), 'mul': bo('mul'), 'band': bo('and'), 'bor': bo('or'), 'bxor': bo('xor'),
        'andnot': lambda sg, a, b: X.binop('and', n, a, X.binop('xor', n, b, M, ''), ''),
        'neg': lambda sg, a: X.binop('sub', n, 0, a, ''), 'bnot': lambda sg, a: X.binop('xor', n, a, M, ''),
        'eq': cm('eq', 'eq'), 'ne': cm('ne', 'ne'), 'lt': cm('slt', 'ult'), 'le': cm('sle', 'ule'), 'gt': cm('sgt', 'ugt'), 'ge': cm('sge', 'uge'),
        'min': mn, 'max': mx, 'satadd': lambda sg, a, b: sat(sg, a, b, True), 'satsub': lambda sg, a, b: sat(sg, a, b, False),
        'sel': lambda sg, a, b, c: ite(lt(sg, a, b), b, c), 'seleq': lambda sg, a, b, c: ite(eq(a, b), c, a),
        'clamp': lambda sg, a, b, c: mx(sg, mn(sg, a, c), b), 'clamp2': lambda sg, a, b: mx(sg, mn(sg, a, b), 0),
        'addsc': bo('add'), 'scsub': lambda sg, a, b: X.binop('sub', n, b, a, ''), 'selsc': lambda sg, a, b: ite(lt(sg, b, a), b, a),
        'shlv': bo('shl'), 'shrv': lambda sg, a, b: X.binop('ashr' if sg else 'lshr', n, a, b, ''),
        'shl': bo('shl'), 'shr': lambda sg, a, b: X.binop('ashr' if sg else 'lshr', n, a, b, ''),
        'rol': lambda sg, a, b: X.binop('or', n, X.binop('shl', n, a, b, ''), X.binop('lshr', n, a, X.binop('sub', n, n, b, ''), ''), ''),
        'ror': lambda sg, a, b: X.binop('or', n, X.binop('lshr', n, a, b, ''), X.binop('shl', n, a, X.binop('sub', n, n, b, ''), ''), ''),
        'mand': lambda sg, a, b, c: ite(AND(lt(sg, a, b), lt(sg, b, c)), a, c), 'mor': lambda sg, a, b, c: ite(OR(lt(sg, a, b), eq(b, c)), a, c),
        'mxn': lambda sg, a, b, c: ite(XOR(NOT(lt(sg, a, b)), eq(a, c)), a, c),
        'addasg': lambda sg, a, b: X.binop('sub', n, X.binop('xor', n, X.binop('add', n, a, b, ''), a, ''), b, ''),
        'abs': lambda sg, a: absv(a), 'absmin': lambda sg, a, b: mn(True, absv(a), absv(b)), 'absmax': lambda sg, a, b: mx(True, absv(a), absv(b)),
        'div': lambda sg, a, b: X.binop('sdiv' if sg else 'udiv', n, a, b, ''), 'mod': lambda sg, a, b: X.binop('srem' if sg else 'urem', n, a, b, ''),
    }


BINS = 'add sub mul band bor bxor andnot eq ne lt le gt ge min max satadd satsub clamp2 addasg'.split()
TRIS = 'sel seleq clamp mand mor mxn'.split()


def leafs(unit, T, n, N, archs=None, avail=None):
    sg = T[0] == 'i'
    U = {'archs': archs}

    def mk(op, args, fnname=None, pre=None):
        names = [a.name for a in args if a.kind in ('in', 'val')]

        def spec(X, d, op=op, names=names):
            f = S(X, n)[op.replace('s_', '')]
            out = []
            for k in range(N):
                vs = []
                for nm in names:
                    v = d[nm]
                    x = v[k] if isinstance(v, list) else v
                    if nm == 'cnt':
                        x = x & mask(n) if isinstance(x, int) else (z3.Extract(n - 1, 0, x) if n < 32 else x if n == 32 else z3.ZeroExt(n - 32, x))
                    vs.append(x)
                out.append(f(sg, *vs))
            return {'o': out}
        return Leaf(unit, '%s_%s_%d' % (fnname or op, T, N), [Out('o', T, N)] + args, spec, pre=pre, lanewise=True, tries=400, archs=archs)
    a, b, c = In('a', T, N), In('b', T, N), In('c', T, N)

    def shpre(X, d): return [X.icmp('ult', n, x, n) for x in d['b']]

    def cpre(lo): return lambda X, d: [X.icmp('ult', 32, d['cnt'], n), X.icmp('uge', 32, d['cnt'], lo)]

    def shgen(rnd): return rnd.randrange(n)
    L = [mk(o, [a, b]) for o in BINS] + [mk(o, [a, b, c]) for o in TRIS] + [mk(o, [a]) for o in ('neg', 'bnot')]
    L += [mk(o, [a, Val('b', T)]) for o in ('addsc', 'scsub', 'selsc')]
    bs = In('b', T, N, gen=shgen)
    cnt = Val('cnt', 'u32', gen=lambda rnd: rnd.randrange(1, n))
    L += [mk(o, [a, bs], pre=shpre) for o in ('shlv', 'shrv')] + [mk(o, [a, cnt], pre=cpre(0)) for o in ('shl', 'shr')]
    if sg: L += [mk('abs', [a])] + [mk(o, [a, b]) for o in ('absmin', 'absmax')]
    elif avail != 'wide': L += [mk(o, [a, cnt], pre=cpre(1)) for o in ('rol', 'ror')]

    def red(op):
        def spec(X, d):
            r = 1 if op == 'all' else 0
            for k in range(N):
                t = X.icmp('slt' if sg else 'ult', n, d['a'][k], d['b'][k]) if op == 'all' else X.icmp('eq', n, d['a'][k], d['b'][k])
                r = X.binop('and' if op == 'all' else 'or', 1, r, t, '')
            return {'ret': r if isinstance(r, int) else tobv(r, 8)}
        return Leaf(unit, '%s_%s_%d' % (op, T, N), [a, b, Arg('ret', 'ret', 'u8')], spec, tries=400, archs=archs)
    L += [red('all'), red('any')]
    return L


def main():
    C = Check('C01')
    archs = ['sse2', 'sse41', 'avx2', 'avx512']
    if C.tier == 'thorough': archs.insert(2, 'avx')
    for bits in (8, 16, 32, 64): C.unit('int%d' % bits, 'c01_int.cpp', archs, ['-DKVC_BITS=%d' % bits])
    C.build()
    sizes = {8: [1, 3, 16, 32, 35], 16: [1, 3, 8, 16, 19], 32: [1, 3, 4, 8, 11], 64: [1, 2, 3, 4, 7]}
    for bits in sizes:
        for sgc in 'iu':
            T = '%s%d' % (sgc, bits)
            u = 'int%d' % bits
            for N in sizes[bits]:
                for l in leafs(u, T, bits, N): C.add(l)
            for l in leafs(u, T, bits, 512 // bits, ['avx512'], 'wide'):
                C.add(l)
            sg = sgc == 'i'
            # division (not by zero, no signed overflow), scalar overloads
            for op in ('div', 'mod'):
                def spec(X, d, op=op, sg=sg, bits=bits): return {'o': [S(X, bits)[op](sg, x, y) for x, y in zip(d['a'], d['b'])]}

                def pre(X, d, sg=sg, bits=bits):
                    r = [X.icmp('ne', bits, y, 0) for y in d['b']]
                    if sg: r += [X.binop('or', 1, X.icmp('ne', bits, x, 1 << (bits - 1)), X.icmp('ne', bits, y, mask(bits)), '') for x, y in zip(d['a'], d['b'])]
                    return r
                C.add(Leaf(u, '%s_%s_3' % (op, T), [Out('o', T, 3), In('a', T, 3), In('b', T, 3)], spec, pre=pre, tries=400))
            for op in ['satadd', 'satsub', 'min', 'max', 'clamp'] + (['abs'] if sg else []):
                ar = {'clamp': 3, 'abs': 1}.get(op, 2)

                def spec(X, d, op=op, sg=sg, bits=bits, ar=ar): return {'o': [S(X, bits)[op](sg, *[d[x][0] for x in 'abc'[:ar]])]}
                C.add(Leaf(u, 's_%s_%s_1' % (op, T), [Out('o', T, 1)] + [In(x, T, 1) for x in 'abc'[:ar]], spec, tries=400))
    C.assumptions += ['shift counts below the element width, divisor non-zero and no INT_MIN / -1 (preconditions)', 'abs/absmin/absmax of the most negative value wraps as two\'s complement',
                      'vector lengths are the instantiated set (below, equal to and above the register width of each instruction set)']
    C.run()
