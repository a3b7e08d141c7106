"""C02: float rounding, min/max, abs, sign, comparison and classification are exact in every lane"""
from kvc.check import *


def fp(x, n): return tofp(x, n)


def expb(x, n):
    """biased exponent field, mantissa width"""
    e, m = FMT[n]
    return e, m


def rspec(kind):
    """exact rounding, defined on the bit pattern (independent of the FP rounding operations): returns bits"""
    def f(X, n, x): return X.dom.round(kind, n, x)
    return f


def spec_un(op, n, X, x):
    d = X.dom
    if op in ('floor', 'ceil', 'trunc'): return d.round(op, n, x)
    if op == 'fract': return d.op('fsub', n, x, d.round('floor', n, x))
    if op == 'abs': return d.abs(n, x)
    if op == 'neg': return d.neg(n, x)
    if op in ('ifloor', 'iceil', 'itrunc'): return d.to_int(True, n, n, d.round(op[1:], n, x))
    M = mask(n)
    b = lambda c: X.ite(simpl(c) if not isinstance(c, int) else c, M, 0, n)
    if op == 'isnan': return b(d.cmp('uno', n, x, x))
    inf = f2bits(float('inf'), n)
    if op == 'isinf': return b(X.icmp('eq', n, d.abs(n, x), inf))
    if op == 'isfinite': return b(X.icmp('ult', n, d.abs(n, x), inf))
    if op == 'isneg': return b(X.icmp('uge', n, x, 1 << (n - 1)))
    if op == 'ispos': return b(X.icmp('ult', n, x, 1 << (n - 1)))
    if op == 'iszero': return b(X.icmp('eq', n, d.abs(n, x), 0))
    raise KeyError(op)


def spec_bin(op, n, X, x, y):
    d = X.dom
    M = mask(n)
    b = lambda c: X.ite(c, M, 0, n)
    if op in ('add', 'sub', 'mul', 'div'): return d.op('f' + op, n, x, y)
    if op == 'addsc': return d.op('fadd', n, x, y)
    if op == 'scsub': return d.op('fsub', n, y, x)
    if op in ('absmin', 'absmax'): x, y = d.abs(n, x), d.abs(n, y)
    if op in ('min', 'absmin'): return X.ite(d.cmp('olt', n, y, x), y, x, n)
    if op in ('max', 'absmax'): return X.ite(d.cmp('olt', n, x, y), y, x, n)
    if op == 'clamp2': return spec_bin('max', n, X, spec_bin('min', n, X, x, y), 0)
    h = 1 << (n - 1)
    if op == 'copysign': return X.binop('or', n, X.binop('and', n, x, mask(n - 1), ''), X.binop('and', n, y, h, ''), '')
    if op == 'mulsign': return X.binop('xor', n, x, X.binop('and', n, y, h, ''), '')
    return b(d.cmp({'eq': 'oeq', 'ne': 'une', 'lt': 'olt', 'le': 'ole', 'gt': 'ogt', 'ge': 'oge'}[op], n, x, y))


def spec_tri(op, n, X, x, y, z):
    d = X.dom
    if op == 'clamp': return spec_bin('max', n, X, spec_bin('min', n, X, x, z), y)
    if op == 'sel': return X.ite(d.cmp('olt', n, x, y), y, z, n)
    c = X.binop('and', 1, d.cmp('olt', n, x, y), X.binop('xor', 1, d.cmp('oeq', n, z, x), 1, ''), '')
    return X.ite(c, x, z, n)


UN = 'floor ceil trunc fract abs neg'.split()
UNI = 'ifloor iceil itrunc'.split()
CLS = 'isnan isinf isfinite isneg ispos iszero'.split()
BIN = 'min max absmin absmax add sub mul div addsc scsub copysign mulsign clamp2'.split()
CMPS = 'eq ne lt le gt ge'.split()
NANOK = set(CLS + CMPS + ['add', 'sub', 'mul', 'div', 'addsc', 'scsub', 'abs', 'neg', 'copysign', 'mulsign', 'sel', 'selm', 'all', 'any'])
IEEE = {'floor', 'ceil', 'trunc', 'fract', 'ifloor', 'iceil', 'itrunc', 'round', 'iround'}


def numeq(X, n, p, q):
    d = X.dom
    return X.binop('or', 1, X.icmp('eq', n, p, q), X.binop('and', 1, X.icmp('eq', n, d.abs(n, p), 0), X.icmp('eq', n, d.abs(n, q), 0), ''), '')


def peeled(op, n, X, x):
    """postcondition of ifloor/iceil/itrunc/fract through the operation that produced the result: equal operands up to the sign of zero give the same result"""
    direct = spec_un(op, n, X, x)

    def rel(act):
        pv = X.dom.prov.get(act.get_id()) if is_bv(act) else None
        if pv and op in UNI and pv[0] == 'to_int': return numeq(X, n, pv[1][0], X.dom.round(op[1:], n, x))
        if pv and op == 'fract' and pv[0] == 'fsub' and z3.eq(tobv(pv[1][0], n), tobv(x, n)): return numeq(X, n, pv[1][1], X.dom.round('floor', n, x))
        if op == 'fract': return numeq(X, n, act, direct)
        return X.icmp('eq', n, act, direct)
    return rel


GRP = {'ifloor': 'floor', 'fract': 'floor', 'iceil': 'ceil', 'itrunc': 'trunc'}


def leafs(u, T, N, archs=None):
    n = TY[T] * 8
    IT = 'i%d' % n
    a, b, c = In('a', T, N), In('b', T, N), In('c', T, N)
    L = []

    def notnan(X, x): return X.dom.cmp('ord', n, x, x)

    def pre(op, ins):
        def f(X, d):
            r = []
            for nm in ins:
                vs = d[nm] if isinstance(d[nm], list) else [d[nm]]
                for x in vs:
                    if op not in NANOK: r.append(notnan(X, x))
                    if op == 'fract': r.append(X.icmp('ult', n, X.dom.abs(n, x), f2bits(float('inf'), n)))
                    if op in UNI or op == 'iround':
                        # the rounded value is representable in the integer type
                        lim = f2bits(2.0 ** (n - 1), n)
                        r.append(X.icmp('ult', n, X.dom.abs(n, x), lim))
            return r
        return f if (op not in NANOK) else None

    def mk(op, ins, out, f, cmp):
        def spec(X, d):
            res = []
            for k in range(N):
                vs = [d[i.name][k] if isinstance(d[i.name], list) else d[i.name] for i in ins]
                res.append(f(op, n, X, *vs) if op not in UNI + ['fract'] else peeled(op, n, X, *vs))
            return {'o': res}
        # preconditions that mention one lane each: the path condition holds per lane facts
        L.append(Leaf(u, '%s_%s_%d' % (op, T, N), [Out('o', out, N)] + ins, spec, pre=pre(op, [i.name for i in ins]), domain='ieee' if op in IEEE else 'uf', cmp=cmp,
                      lanewise=True, archs=archs, tries=600, timeout=60000, split='a' if op in IEEE else None, group=GRP.get(op, op) + T if op in IEEE else None, cost=1 if op in IEEE else 0))
    for op in UN: mk(op, [a], T, spec_un, 'bits' if op in ('abs', 'neg') else 'num')
    for op in UNI: mk(op, [a], IT, spec_un, 'bits')
    for op in CLS: mk(op, [a], IT, spec_un, 'bits')
    for op in BIN: mk(op, [a, Val('b', T) if op in ('addsc', 'scsub') else b], T, spec_bin, 'nan' if op in ('add', 'sub', 'mul', 'div', 'addsc', 'scsub') else 'bits' if op in ('copysign', 'mulsign') else 'num')
    for op in CMPS: mk(op, [a, b], IT, spec_bin, 'bits')
    for op in ('clamp', 'sel', 'selm'): mk(op, [a, b, c], T, spec_tri, 'num')
    # round: the result is a nearest integer (either neighbour on a tie); contract = relation between input and output

    def rnd_spec(integer):
        def spec(X, d):
            return {'o': [(lambda act, x=x: near(X, n, x, act, integer)) for x in d['a']]}
        return spec
    L.append(Leaf(u, 'round_%s_%d' % (T, N), [Out('o', T, N), a], rnd_spec(False), pre=pre('round', ['a']), domain='ieee', lanewise=True, archs=archs, tries=600, timeout=60000, split='a', group='round' + T, cost=1))
    L.append(Leaf(u, 'iround_%s_%d' % (T, N), [Out('o', IT, N), a], rnd_spec(True), pre=pre('iround', ['a']), domain='ieee', lanewise=True, archs=archs, tries=600, timeout=60000, split='a', group='round' + T, cost=1))

    def red(op):
        def spec(X, d):
            r = 1 if op == 'all' else 0
            for k in range(N):
                t = X.dom.cmp('olt' if op == 'all' else 'oeq', n, d['a'][k], d['b'][k])
                r = X.binop('and' if op == 'all' else 'or', 1, r, t, '')
            return {'ret': r if isinstance(r, int) else tobv(r, 8)}
        return Leaf(u, '%s_%s_%d' % (op, T, N), [a, b, Arg('ret', 'ret', 'u8')], spec, tries=400, archs=archs)
    L += [red('all'), red('any')]
    return L


def near(X, n, x, act, integer):
    """act is an integer nearest to x"""
    d = X.dom
    e, a = d.round('rint', n, x), d.round('round', n, x)
    if integer:
        pv = d.prov.get(act.get_id()) if is_bv(act) else None
        if pv and pv[0] == 'to_int': return near(X, n, x, pv[1][0], False)
        e, a = d.to_int(True, n, n, e), d.to_int(True, n, n, a)
        # rounding up to 2^(n-1) does not fit the integer type
        r = X.binop('or', 1, X.icmp('eq', n, act, e), X.icmp('eq', n, act, a), '')
        return r
    eq = lambda p, q: X.binop('or', 1, X.icmp('eq', n, p, q), X.binop('and', 1, X.icmp('eq', n, d.abs(n, p), 0), X.icmp('eq', n, d.abs(n, q), 0), ''), '')
    return X.binop('or', 1, eq(act, e), eq(act, a), '')


def main():
    C = Check('C02')
    archs = ['sse2', 'sse41', 'avx', 'avx512'] + (['avx2'] if C.tier == 'thorough' else [])
    C.unit('f32', 'c02_float.cpp', archs, ['-DKVC_F32'])
    C.unit('f64', 'c02_float.cpp', archs)
    C.build()
    for T, sizes in (('f32', [1, 3, 4, 8, 11, 16]), ('f64', [1, 2, 3, 4, 7, 8])):
        u = T
        n = TY[T] * 8
        for N in sizes:
            for l in leafs(u, T, N): C.add(l)
        for op in ('floor', 'ceil', 'trunc', 'round', 'abs', 'min', 'max'):
            ins = [In('a', T, 1)] + ([In('b', T, 1)] if op in ('min', 'max') else [])

            def pre(X, d, n=n): return [X.dom.cmp('ord', n, v[0], v[0]) for k, v in d.items() if k in 'ab']
            if op == 'round': spec = lambda X, d, n=n: {'o': [(lambda act, x=d['a'][0]: near(X, n, x, act, False))]}
            elif len(ins) == 2: spec = lambda X, d, n=n, op=op: {'o': [spec_bin(op, n, X, d['a'][0], d['b'][0])]}
            else: spec = lambda X, d, n=n, op=op: {'o': [spec_un(op, n, X, d['a'][0])]}
            C.add(Leaf(u, 's_%s_%s' % (op, T), [Out('o', T, 1)] + ins, spec, pre=pre if op != 'abs' else None, domain='ieee' if op in IEEE else 'uf', cmp='num', tries=600, timeout=60000,
                       lanewise=True, split='a' if op in IEEE else None, group=op + T if op in IEEE else None))
    C.assumptions += ['rounding, min/max, clamp: operands are not NaN; sign of zero not compared there', 'add/sub/mul/div: arithmetic operators are uninterpreted (lane placement and operand order proved, rounding is the hardware\'s)',
                      'fptosi outside the integer range is modelled as x86 cvtt (integer indefinite)', 'integer-returning roundings: |x| < 2^(bits-1)']
    C.run()
