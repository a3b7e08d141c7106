"""C22: complex vector arithmetic follows the complex-number definitions (exact real formulas, lane by lane)"""
from kvc.check import *
NS = (1, 2, 3, 4, 5, 8, 16)


def cadd(a, b): return (a[0] + b[0], a[1] + b[1])
def csub(a, b): return (a[0] - b[0], a[1] - b[1])
def cmul(a, b): return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def cdiv(X, n, a, b):
    num = cmul(a, (b[0], -b[1]))
    m = b[0] * b[0] + b[1] * b[1]
    return tuple(X.dom.op('fdiv', n, v, m) for v in num)


BIN = {'add': lambda X, n, a, b: cadd(a, b), 'sub': lambda X, n, a, b: csub(a, b), 'mul': lambda X, n, a, b: cmul(a, b), 'div': cdiv}
UN = {'cneg': lambda a: (-a[0], -a[1]), 'ccnj': lambda a: (a[0], -a[1]), 'csq': lambda a: cmul(a, a), 'cdr': lambda a: (a[0], a[0]), 'cdi': lambda a: (a[1], a[1]),
      'csw': lambda a: (a[1], a[0]), 'cnr': lambda a: (-a[0], a[1]), 'cni': lambda a: (a[0], -a[1])}
RE = {'cre': lambda a: a[0], 'cim': lambda a: a[1], 'cabs2': lambda a: a[0] * a[0] + a[1] * a[1]}


def lanes(v): return [(v[2 * k], v[2 * k + 1]) for k in range(len(v) // 2)]


def main():
    C = Check('C22')
    archs = ['sse2', 'sse41', 'avx2', 'avx512'] if C.tier == 'quick' else ['sse2', 'sse41', 'avx', 'avx2', 'avx512']
    C.unit('cx', 'c22_complex.cpp', archs)
    C.build()

    def add(fn, args, f): C.add(Leaf('cx', fn, args, f, domain='real', tries=300))
    Z = Poly.const(0)
    for t in ('f32', 'f64'):
        n = TY[t] * 8
        for N in NS:
            for op, g in BIN.items():
                forms = {'c%s': ('a', 'b', 2 * N), 'c%sr': ('a', 'r', N), 'r%sc': ('r', 'a', N), 'c%ss': ('a', 's', 2), 's%s': ('s', 'a', 2), 'c%sx': ('a', 'x', 0), 'x%s': ('x', 'a', 0)}
                for pat, (l, r, m) in forms.items():
                    def spec(X, d, l=l, r=r, g=g, N=N, n=n):
                        def opd(k):
                            if k == 'a': return lanes(d['a'])
                            if k == 'b': return lanes(d['b'])
                            if k == 's': return lanes(d['b']) * N
                            if k == 'r': return [(v, Z) for v in d['b']]
                            return [(d['b'], Z)] * N
                        return {'o': [v for x, y in zip(opd(l), opd(r)) for v in g(X, n, x, y)]}
                    add('%s_%s_%d' % (pat % op, t, N), [Out('o', t, 2 * N), In('a', t, 2 * N), In('b', t, m) if m else Val('b', t)], spec)
            for op, g in UN.items():
                add('%s_%s_%d' % (op, t, N), [Out('o', t, 2 * N), In('a', t, 2 * N)], lambda X, d, g=g: {'o': [v for x in lanes(d['a']) for v in g(x)]})
            for op, g in RE.items():
                add('%s_%s_%d' % (op, t, N), [Out('o', t, N), In('a', t, 2 * N)], lambda X, d, g=g: {'o': [g(x) for x in lanes(d['a'])]})
            add('cab_%s_%d' % (t, N), [Out('o', t, N), In('a', t, 2 * N)], lambda X, d, n=n: {'o': [X.dom.op('sqrt', n, x[0] * x[0] + x[1] * x[1]) for x in lanes(d['a'])]})
            add('cmk_%s_%d' % (t, N), [Out('o', t, 2 * N), In('a', t, N), In('b', t, N)], lambda X, d: {'o': [v for x, y in zip(d['a'], d['b']) for v in (x, y)]})
        add('zconj_%s' % t, [Out('o', t, 2), In('a', t, 2), Val('b', t)], lambda X, d: {'o': [d['a'][0], -d['a'][1]]})
    C.assumptions += ['floating-point arithmetic of the complex formulas is treated as exact real arithmetic (rounding, overflow, NaN propagation not modelled)', 'scalar complex arithmetic is std::complex (KFR_STD_COMPLEX), outside the repository']
    C.run()


if __name__ == '__main__': main()
