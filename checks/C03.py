"""C03: lane shuffles move every element to its documented place"""
from kvc.check import *
import os

ROWS = []  # (name, T, inputs {name: n}, out n, C++ expression (vectors a, b), index function)


def ilog2(n): return n.bit_length() - 1


def digrev(k, bits, radix):
    step = {2: 1, 4: 2}[radix]
    r = 0
    for _ in range(0, bits, step):
        r = (r << step) | (k & (radix - 1))
        k >>= step
    return r


def group(ix, g):
    """lift an index function on groups to elements"""
    return lambda k: ix(k // g) * g + k % g


def rows(T, N, full):
    R = []

    def add(nm, out, expr, ix, ins=None, body=None):
        R.append(('%s_%s_%d' % (nm, T, N), T, ins or {'a': N}, out, expr, ix, body))
    A = lambda f: (lambda k: ('a', f(k)))
    AB = {'a': N, 'b': N}
    two = lambda f: (lambda k: ('a', f(k)) if f(k) < N else ('b', f(k) - N))  # index into the concatenation a, b
    add('copy', N, 'a', A(lambda k: k))
    add('reverse', N, 'reverse(a)', A(lambda k: N - 1 - k))
    add('concat', 2 * N, 'concat(a, b)', two(lambda k: k), AB)
    add('concat3', 3 * N, 'concat(a, b, a)', lambda k: ('b', k - N) if N <= k < 2 * N else ('a', k % N), AB)
    add('repeat3', 3 * N, 'repeat<3>(a)', A(lambda k: k % N))
    add('duphalves', 2 * N, 'duphalves(a)', A(lambda k: k % N))
    add('dup', 2 * N, 'dup(a)', A(lambda k: k // 2))
    add('resize_up', N + 5, 'resize<%d>(a)' % (N + 5), A(lambda k: k % N))
    add('interleave', 2 * N, 'interleave(a, b)', lambda k: ('ab'[k % 2], k // 2), AB)
    add('zip', 2 * N, 'zip(a, b).flatten()', lambda k: ('ab'[k % 2], k // 2), AB)
    add('extractlane', N, '', A(lambda k: k), body='for (size_t i = 0; i < %d; i++) o[i] = a[i];' % N)
    add('insertlane', N, '', lambda k: ('b', k) if k == N // 2 else ('a', k), AB, body='a[%d] = b[%d]; write(o, a);' % (N // 2, N // 2))
    add('splat', N + 1, 'vec<%s, %d>(a[%d])' % (T, N + 1, N - 1), A(lambda k: N - 1))
    add('padhighv', N + 3, 'padhigh<3>(a, b.get(0))', lambda k: ('a', k) if k < N else ('b', 0), AB)
    add('padlowv', N + 3, 'padlow<3>(a, b.get(0))', lambda k: ('a', k - 3) if k >= 3 else ('b', 0), AB)
    add('widen', N + 3, 'widen<%d>(a, b.get(0))' % (N + 3), lambda k: ('a', k) if k < N else ('b', 0), AB)
    if N >= 2:
        for am in {1, N // 2, N - 1}:
            add('rotl%d' % am, N, 'rotateleft<%d>(a)' % am, A(lambda k, am=am: (k + am) % N))
            add('rotr%d' % am, N, 'rotateright<%d>(a)' % am, A(lambda k, am=am: (k - am) % N))
            add('rottwo%d' % am, N, 'rotatetwo<%d>(a, b)' % am, lambda k, am=am: ('b', N - am + k) if k < am else ('a', k - am), AB)
            add('slice%d' % am, N - am, 'slice<%d, %d>(a)' % (am, N - am), A(lambda k, am=am: k + am))
            add('slice2_%d' % am, N, 'slice<%d, %d>(a, b)' % (am, N), two(lambda k, am=am: k + am), AB)
            add('cas%d' % am, N, 'concat_and_slice<%d, %d>(a, b)' % (am, N), two(lambda k, am=am: k + am), AB)
            add('narrow%d' % am, am, 'narrow<%d>(a)' % am, A(lambda k: k))
        lo = 1 << ilog2(N - 1) if N > 2 else 1
        add('low', lo, 'low(a)', A(lambda k: k))
        add('high', N - lo, 'high(a)', A(lambda k: k + lo))
        add('lowhalf', N // 2, 'lowhalf(a)', A(lambda k: k))
        add('highhalf', N - N // 2, 'highhalf(a)', A(lambda k: k + N // 2))
        add('insertright', N, 'insertright(b.get(0), a)', lambda k: ('a', k + 1) if k < N - 1 else ('b', 0), AB)
        add('insertleft', N, 'insertleft(b.get(0), a)', lambda k: ('a', k - 1) if k else ('b', 0), AB)
        add('casdiff', N, 'concat_and_slice<1, %d>(a, slice<0, 1>(b))' % N, lambda k: ('a', k + 1) if k < N - 1 else ('b', 0), AB)
        add('casdiff2', N, 'concat_and_slice<0, %d>(slice<0, 1>(b), a)' % N, lambda k: ('a', k - 1) if k else ('b', 0), AB)
        add('combine', N, 'combine(a, slice<0, %d>(b))' % (N - 1), lambda k: ('b', k) if k < N - 1 else ('a', k), AB)
    if N % 2 == 0:
        add('even', N // 2, 'even(a)', A(lambda k: 2 * k))
        add('odd', N // 2, 'odd(a)', A(lambda k: 2 * k + 1))
        add('dupeven', N, 'dupeven(a)', A(lambda k: k & ~1))
        add('dupodd', N, 'dupodd(a)', A(lambda k: k | 1))
        add('duplow', N, 'duplow(a)', A(lambda k: k % (N // 2)))
        add('duphigh', N, 'duphigh(a)', A(lambda k: k % (N // 2) + N // 2))
        add('swap2', N, 'kfr::swap<2>(a)', A(lambda k: k ^ 1))
        add('blend01', N, 'blend<0, 1>(a, b)', lambda k: ('ab'[k % 2], k), AB)
        add('blend110', N, 'blend<1, 1, 0>(a, b)', lambda k: ('ab'[[1, 1, 0][k % 3]], k), AB)
        add('permute10', N, 'permute<1, 0>(a)', A(lambda k: k ^ 1))
        add('shuffle', N, 'shuffle<0, %d>(a, b)' % (N + 1), lambda k: [('a', k), ('b', k)][k % 2], AB)
        add('splitfn', N, '', A(lambda k: (k + N // 2) % N), body='vec<%s, %d> lo, hi; split(a, lo, hi); write(o, hi); write(o + %d, lo);' % (T, N // 2, N // 2))
        add('part', N // 2, 'part<2, 1>(a)', A(lambda k: k + N // 2))
        add('splitpairs', N, 'splitpairs(a)', A(lambda k: 2 * (k % (N // 2)) + k // (N // 2)))
        add('ilhalves', N, 'interleavehalves(a)', A(lambda k: k // 2 + (k % 2) * (N // 2)))
        add('sp_il', N, 'interleavehalves(splitpairs(a))', A(lambda k: k))
        add('il_sp', N, 'splitpairs(interleavehalves(a))', A(lambda k: k))
        add('subadd_il', N, 'interleave(even(a), odd(a))', A(lambda k: k))
        add('swap_group', N, 'reverse<2>(a)', A(group(lambda k: N // 2 - 1 - k, 2)))
    if N % 4 == 0 and N >= 4:
        add('permute2031', N, 'permute<2, 0, 3, 1>(a)', A(lambda k: k // 4 * 4 + [2, 0, 3, 1][k % 4]))
        add('permgroups', N, 'permutegroups<2, 1, 0>(a)', A(lambda k: group(lambda j: j // 2 * 2 + 1 - j % 2, 2)(k)))
        add('shufgroups', N, 'shufflegroups<2, 0, %d>(a, b)' % (N // 2 + 1), lambda k: two(lambda k: group(lambda j: j if j % 2 == 0 else N // 2 + j, 2)(k))(k), AB)
        add('even2', N // 2, 'even<2>(a)', A(group(lambda k: 2 * k, 2)))
        add('odd2', N // 2, 'odd<2>(a)', A(group(lambda k: 2 * k + 1, 2)))
        add('swap4', N, 'kfr::swap<4>(a)', A(lambda k: k ^ 3))
        add('concat4', 4 * N, 'concat4(a, b, a, b)', lambda k: ('ab'[k // N % 2], k % N), AB)
        add('split4', N, '', A(lambda k: (N // 4 * 3 - k // (N // 4) * (N // 4)) + k % (N // 4)),
            body='vec<%s, %d> p, q, r, s; split(a, p, q, r, s); write(o, s); write(o + %d, r); write(o + %d, q); write(o + %d, p);' % (T, N // 4, N // 4, N // 2, N // 4 * 3))
        add('sp2', N, 'splitpairs<2>(a)', A(group(lambda k: 2 * (k % (N // 4)) + k // (N // 4), 2)))
        add('ilh2', N, 'interleavehalves<2>(a)', A(group(lambda k: k // 2 + (k % 2) * (N // 4), 2)))
        add('il2', 2 * N, 'interleave<2>(a, b)', lambda k: two(lambda k: group(lambda j: (j % 2) * (N // 2) + j // 2, 2)(k))(k), AB)
    for s in (2, 3, 4, 8):
        if N % s == 0 and N // s >= 2 and N > 3:
            tr = lambda k, s=s, n=N: (k % (n // s)) * s + k // (n // s)
            add('transpose%d' % s, N, 'transpose<%d>(a)' % s, A(tr))
            add('transposeinv%d' % s, N, 'transposeinverse<%d>(a)' % s, A(lambda k, s=s: (k % s) * (N // s) + k // s))
            add('trtr%d' % s, N, 'transposeinverse<%d>(transpose<%d>(a))' % (s, s), A(lambda k: k))
        if N % (2 * s) == 0 and N // (2 * s) >= 2 and N // 2 > 3:
            m = N // 2
            add('ctranspose%d' % s, N, 'ctranspose<%d>(a)' % s, A(group(lambda k, s=s, m=m: (k % (m // s)) * s + k // (m // s), 2)))
            add('ctrinv%d' % s, N, 'ctransposeinverse<%d>(ctranspose<%d>(a))' % (s, s), A(lambda k: k))
    if N >= 2 and N & (N - 1) == 0:
        b = ilog2(N)
        add('bitreverse', N, 'bitreverse(a)', A(lambda k: digrev(k, b, 2)))
        add('bitrev2', N, 'bitreverse(bitreverse(a))', A(lambda k: k))
        if b % 2 == 0:
            add('digrev4', N, 'digitreverse4(a)', A(lambda k: digrev(k, b, 4)))
            add('digrev42', N, 'digitreverse4(digitreverse4(a))', A(lambda k: k))
        if N >= 8:
            add('bitreverse_g2', N, 'bitreverse<2>(a)', A(group(lambda k: digrev(k, b - 1, 2), 2)))
            if (b - 1) % 2 == 0: add('digrev4_g2', N, 'digitreverse4<2>(a)', A(group(lambda k: digrev(k, b - 1, 4), 2)))
        if N >= 4 and T in ('f32', 'f64'):
            M = N // 2
            add('real', M, 'real(ccomp(a))', A(lambda k: 2 * k))
            add('imag', M, 'imag(ccomp(a))', A(lambda k: 2 * k + 1))
            add('cdupreal', N, 'cdecom(cdupreal(ccomp(a)))', A(lambda k: k & ~1))
            add('cdupimag', N, 'cdecom(cdupimag(ccomp(a)))', A(lambda k: k | 1))
            add('cswapreim', N, 'cdecom(cswapreim(ccomp(a)))', A(lambda k: k ^ 1))
            add('mkcomplex', 2 * N, 'cdecom(make_complex(a, b))', lambda k: ('ab'[k % 2], k // 2), AB)
            add('creverse', N, 'cdecom(reverse(ccomp(a)))', A(group(lambda k: M - 1 - k, 2)))
            add('cslice', N - 2, 'cdecom(slice<1, %d>(ccomp(a)))' % (M - 1), A(lambda k: k + 2))
            add('cinterleave', 2 * N, 'cdecom(interleave(ccomp(a), ccomp(b)))', lambda k: two(lambda k: group(lambda j: (j % 2) * M + j // 2, 2)(k))(k), AB)
            add('cconcat', 2 * N, 'cdecom(concat(ccomp(a), ccomp(b)))', two(lambda k: k), AB)
    if N in (2, 4, 8):
        add('column', N, '', lambda k: ('a', k * N + N - 1), {'a': N * N}, body='write(o, column<%d>(vec<vec<%s, %d>, %d>::from_flatten(a)));' % (N - 1, T, N, N))
        add('vtranspose', N * N, '', lambda k: ('a', (k % N) * N + k // N), {'a': N * N}, body='write(o, transpose(vec<vec<%s, %d>, %d>::from_flatten(a)).flatten());' % (T, N, N))
    # strided and indexed memory access
    for g, st in ((1, 3),) if full else ():
        if N % g == 0 and N // g >= 1:
            m = N // g
            add('gstride%d' % g, N, '', lambda k, g=g, st=st: ('a', (k // g) * g * st + k % g), {'a': (m - 1) * g * st + g}, body='write(o, gather_stride<%d, %d>(pa, %d));' % (m, g, st))
            span = (m - 1) * g * st + g
            add('sstride%d' % g, span, '', lambda k, g=g, st=st: ('a', (k // (g * st)) * g + k % (g * st)) if k % (g * st) < g else None, {'a': N},
                body='scatter_stride<%d>(o, a, %d);' % (g, st))
            add('rgroup%d' % g, 2 * N, '', lambda k, g=g, st=st: ('a', (k // N) * g * st * 8 + k % N), {'a': g * st * 8 + N}, body='write(o, read_group<2, %d, %d>(pa, %d));' % (m, g, st * 8)) if g * st * 8 >= N else None
            add('wgroup%d' % g, g * st * 8 + N, '', lambda k, g=g, st=st: ('a', k) if k < N else ('a', N + k - g * st * 8) if k >= g * st * 8 else None, {'a': 2 * N},
                body='write_group<2, %d, %d>(o, %d, a);' % (m, g, st * 8)) if g * st * 8 >= N else None
    return R


HEAD = '''#include <kfr/base.hpp>
using namespace kfr;
'''


def gen(rs):
    L = [HEAD]
    for nm, T, ins, out, expr, ix, body in rs:
        ps = ', '.join('const %s* p%s' % (T, k) for k in ins)
        rd = ' '.join('vec<%s, %d> %s = read<%d>(p%s);' % (T, n, k, n, k) for k, n in ins.items())
        if 'gather_stride' in (body or '') or 'read_group' in (body or ''): rd = ''
        L.append('extern "C" void %s(%s* o, %s) { %s %s }' % (nm, T, ps, rd, body or 'vec<%s, %d> r = %s; write(o, r);' % (T, out, expr)))
    return '\n'.join(L) + '\n'


def main():
    C = Check('C03')
    archs = ['sse2', 'avx', 'avx512'] + (['sse41', 'avx2'] if C.tier == 'thorough' else [])
    sets = {'f32': [1, 2, 3, 4, 6, 8, 16, 32, 64], 'f64': [1, 2, 4, 7, 8, 16, 32], 'i16': [3, 8, 16, 32], 'u8': [4, 5, 16, 64]}
    units = {}
    for T, sizes in sets.items():
        for i in range(2):
            rs = []
            for N in sizes[i::2]: rs += rows(T, N, T in ('f32', 'f64'))
            u = '%s_%d' % (T, i)
            units[u] = rs
            p = os.path.join(ir.workdir(), 'c03_%s.cpp' % u)
            with open(p, 'w') as f: f.write(gen(rs))
            C.unit(u, p, archs)
    # scalar bit reversal of indices
    br = HEAD + '\n'.join('extern "C" u32 bitrev_%d(u32 x) { return bitreverse<%d>(x); }\nextern "C" u32 digrev4_%d(u32 x) { return digitreverse4<%d>(x); }' % (b, b, b, b) for b in range(1, 33))
    p = os.path.join(ir.workdir(), 'c03_idx.cpp')
    with open(p, 'w') as f: f.write(br)
    C.unit('idx', p, ['sse2'])
    C.build()
    for u, rs in units.items():
        for nm, T, ins, out, expr, ix, body in rs:
            def spec(X, d, out=out, ix=ix):
                r = []
                for k in range(out):
                    s = ix(k)
                    r.append(d[s[0]][s[1]] if s else None)
                return {'o': r}
            C.add(Leaf(u, nm, [Out('o', T, out)] + [In(k, T, n) for k, n in ins.items()], spec, tries=8))
    for b in range(1, 33):
        for fn, st in (('bitrev', 1), ('digrev4', 2)):
            if b % st: continue

            def spec(X, d, b=b, st=st):
                x = d['x']
                bit = (lambda i: (x >> i) & 1) if isinstance(x, int) else (lambda i: z3.Extract(i, i, x))
                src = [b - st - (i // st) * st + i % st for i in range(b)]  # output bit i comes from input bit src[i]
                if isinstance(x, int): return {'ret': sum(bit(src[i]) << i for i in range(b))}
                parts = [bit(src[i]) for i in reversed(range(b))]
                r = z3.Concat(*parts) if b > 1 else parts[0]
                return {'ret': z3.ZeroExt(32 - b, r) if b < 32 else r}

            def pre(X, d, b=b): return [X.icmp('ult', 32, d['x'], 1 << b)] if b < 32 else []
            C.add(Leaf('idx', '%s_%d' % (fn, b), [Val('x', 'u32', gen=lambda r, b=b: r.getrandbits(b)), Arg('ret', 'ret', 'u32')], spec, pre=pre, tries=200))
    C.assumptions += ['element types f32, f64, i16, u8 and the listed lengths (each shuffle is a separate template instantiation)', 'digit reversal in radix 4 for lengths that are powers of four']
    C.run()
