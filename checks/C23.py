"""C23: fractions and integer helper functions"""
from kvc.check import *
from kvc import sym
from fractions import Fraction as Fr
import math, random
T8 = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
SG = lambda v, n: v - (1 << n) if v >> (n - 1) else v


def G(a, b):
    """the greatest common divisor as a mathematical function (ghost); its defining facts are instantiated by gcd_facts"""
    n = a.size() if is_bv(a) else b.size()
    s = z3.BitVecSort(n)
    return uf('GCD%d' % n, s, s, s)(tobv(a, n), tobv(b, n))


def facts(n, signed):
    z = BVV(0, n)
    nn = (lambda v: v >= z) if signed else (lambda v: z3.BoolVal(True))
    lt = (lambda a, b: a < b) if signed else z3.ULT
    s = z3.BitVecSort(n)
    R = uf('%s%d' % ('SREM' if signed else 'UREM', n), s, s, s)
    g = uf('GCD%d' % n, s, s, s)

    def gf(apps):
        F = []
        for m in apps:
            a, b = m.arg(0), m.arg(1)
            pre = z3.And(nn(a), nn(b))
            r = R(a, b)
            F += [z3.Implies(z3.And(pre, b == z), m == a), z3.Implies(z3.And(pre, b != z), z3.And(m == g(b, r), nn(r), lt(r, b))),
                  z3.Implies(z3.And(pre, b != z, r == z), m == b), z3.Implies(pre, m == g(b, a)), z3.Implies(pre, nn(m)), z3.Implies(z3.And(pre, z3.Or(a != z, b != z)), m != z)]
        return F

    def rf(apps):
        return [z3.Implies(z3.And(nn(m.arg(0)), nn(m.arg(1)), m.arg(1) != z), z3.And(nn(m), lt(m, m.arg(1)))) for m in apps]
    ud, sd, ur = (uf('%s%d' % (k, n), s, s, s) for k in ('UDIV', 'SDIV', 'UREM'))

    def df(apps):
        # division of non-negative operands is the same signed or unsigned; the sign of the dividend is the sign of the quotient
        F = []
        for m in apps:
            a, b = m.arg(0), m.arg(1)
            F.append(z3.Implies(z3.And(a >= z, b > z), z3.And(ud(a, b) == sd(a, b), ud(a, b) == -sd(-a, b), sd(-a, b) == -sd(a, b))))
        return F

    def uf2(apps): return [z3.Implies(z3.And(m.arg(0) >= z, m.arg(1) > z), m == R(m.arg(0), m.arg(1))) for m in apps]
    return [('GCD%d' % n, gf), (R.name(), rf)] + ([('UDIV%d' % n, df), ('SDIV%d' % n, df), ('UREM%d' % n, uf2)] if signed else [])


def gcd_cands(pairs, n, signed):
    """invariants of Euclid's loop: the current operands are non-negative and have the greatest common divisor of the original ones"""
    def cands(X, s, f, bb, vars_, depth):
        C = []
        V = []
        for v in vars_:
            if v.entry is POISON or isinstance(v.entry, (sym.Ptr, sym.FnPtr)) or getattr(v, 'isfloat', False): continue
            g = lambda t, v=v: tobv(v.raw(X, t, depth), n)
            try:
                if g(s).size() != n: continue
            except Exception: continue
            V.append((str(v), g))
        z = BVV(0, n)
        # enclosing values (loop-invariant operands)
        for nm, u in V:
            if signed: C.append(('%s >= 0' % nm, lambda t, u=u: u(t) >= z))
            C.append(('%s != 0' % nm, lambda t, u=u: u(t) != z))
            for n2, w in V:
                if nm == n2: continue
                C.append(('%s < %s' % (nm, n2), lambda t, u=u, w=w: (u(t) < w(t)) if signed else z3.ULT(u(t), w(t))))
                C.append(('%s <= %s' % (nm, n2), lambda t, u=u, w=w: (u(t) <= w(t)) if signed else z3.ULE(u(t), w(t))))
                for k, (a, b) in enumerate(pairs()):
                    C.append(('gcd(%s,%s) = original %d' % (nm, n2, k), lambda t, u=u, w=w, a=a, b=b: G(u(t), w(t)) == G(a, b)))
        return C
    return cands


def rnd_frac(r, big=False):
    k = r.choice((3, 10, 100, 1 << 20) + ((1 << 30,) if big else ()))
    return Fr(r.randrange(-k, k + 1), r.randrange(1, k + 1))


def frac_native(C, fn, op, nargs):
    so = C.native('fr', 'sse2')
    r = random.Random(C.seed)
    F = lambda q: [q.numerator & mask(64), q.denominator]
    if fn in ('fr_make', 'fr_make1'): args = [Out('o', 'i64', 2), Val('n', 'i64')] + ([Val('d', 'i64')] if fn == 'fr_make' else [])
    else: args = [Out('o', 'i64', 2)] + [In(x, 'i64', 2) for x in 'ab'[:nargs]]
    tests, want = [], []
    while len(tests) < 3000:
        a, b = rnd_frac(r), rnd_frac(r)
        if fn == 'fr_make':
            k = r.choice((4, 50, 1000, 1 << 40))
            n, d = r.randrange(-k, k + 1), r.choice((-1, 1)) * r.randrange(1, k + 1)
            t, w = {'o': [0, 0], 'n': n & mask(64), 'd': d & mask(64)}, Fr(n, d)
        elif fn == 'fr_make1':
            n = r.randrange(-1000, 1000)
            t, w = {'o': [0, 0], 'n': n & mask(64)}, Fr(n)
        else:
            if op in ('div', 'diva') and b == 0: continue
            t = {'o': [0, 0], 'a': F(a), 'b': F(b)}
            if nargs == 1: del t['b']
            w = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b, 'neg': lambda: -a, 'pos': lambda: a}[op[:3]]()
        tests.append(t)
        want.append(w)
    for t, w, g in zip(tests, want, Native(so).run(fn, args, tests)):
        if g in ('crash', 'timeout'): return {'function': fn, 'inputs': t, 'result': g, 'expected': str(w)}
        if g['o'] != F(w): return {'function': fn, 'inputs': t, 'got': [SG(v, 64) for v in g['o']], 'expected': str(w)}
    return None


def frac_task(C, fn, op, nargs, arch='sse2'):
    def body(X, s):
        X.nlmul = {}
        X.nldiv = (64,)
        X.factgens = facts(64, True)
        z = BVV(0, 64)
        MIN = BVV(1 << 63, 64)
        po = X.newobj(s, 16, None, 8, 'o')
        M = lambda a, b: tobv(X.mul64(a, b), 64)
        if fn in ('fr_make', 'fr_make1'):
            n = BV('n', 64)
            d = BV('d', 64) if fn == 'fr_make' else BVV(1, 64)
            args = [po, n] + ([d] if fn == 'fr_make' else [])
        else:
            an, ad, bn, bd = (BV(x, 64) for x in ('an', 'ad', 'bn', 'bd'))
            pa = X.newobj(s, 16, lambda off, k: (an, ad)[off // 8], 8, 'a', True)
            pb = X.newobj(s, 16, lambda off, k: (bn, bd)[off // 8], 8, 'b', True)
            args = [po, pa, pb][:1 + nargs]
            s.pc += [ad > z, an != MIN]
            # operands are in normal form
            k = op[:3]
            if nargs == 1: n, d = (-an, ad) if k == 'neg' else (an, ad)
            elif k == 'add': n, d = M(an, bd) + M(bn, ad), M(ad, bd)
            elif k == 'sub': n, d = M(an, bd) - M(bn, ad), M(ad, bd)
            elif k == 'mul': n, d = M(an, bn), M(ad, bd)
            else: n, d = M(an, bd), M(ad, bn)
            if nargs == 2: s.pc += [bd > z, bn != MIN]
        s.pc += [d != z, d != MIN, n != MIN]
        n, d = z3.simplify(n), z3.simplify(d)
        ab = lambda v: z3.If(v >= z, v, -v)
        g0 = (z3.simplify(ab(n)), z3.simplify(ab(d)))
        X.usercands = gcd_cands(lambda: [g0], 64, True)
        S = z3.BitVecSort(64)
        div = uf('SDIV64', S, S, S)
        outs = X.call(fn, args, s)
        g = G(*g0)
        # sign facts of division, for the way the sign is moved to the numerator
        for o in outs:
            rn, rd = (tobv(X.rd(o.mem[po.obj], 8 * k, 8), 64) for k in (0, 1))
            if op == 'pos' or fn == 'fr_make1':
                X.obligate(o, z3.And(rn == (n if op != 'pos' else an), rd == (BVV(1, 64) if op != 'pos' else ad)), 'postcondition of %s' % fn)
                continue
            neg = d < z
            X.obligate(o, z3.And(rn == div(z3.If(neg, -n, n), g), rd == div(z3.If(neg, -d, d), g)), 'postcondition of %s: sign in the numerator, both divided by their greatest common divisor' % fn)
        return len(outs)
    return vtask(C, 'fr', arch, fn, body, loopmode='cut', replay=lambda st: frac_native(C, fn, op, nargs))


def gcd_native(C, fn, t):
    so = C.native('fr', 'sse2')
    r = random.Random(C.seed)
    n = TY[t] * 8
    args = [Arg('ret', 'ret', t)] + [Val(x, t) for x in ('xyz' if fn[3] == '3' else 'xy')]
    lim = (1 << (n - (1 if t[0] == 'i' else 0))) - 1
    tests = []
    for _ in range(4000):
        k = min(r.choice((12, 100, 5000, 1 << 21)), lim)
        c = r.randrange(1, max(2, min(k, 50)))
        v = [min(r.randrange(0, k + 1) // c * c if r.random() < .7 else r.randrange(0, k + 1), lim) for _ in 'xyz']
        if r.random() < .05 and not fn.startswith('lcm'): v = [lim, lim - 1, 0 if r.random() < .5 else lim // 3]
        if fn.startswith('lcm') and 0 in v: continue
        p = v[0] * v[1] * (v[2] if fn[3] == '3' else 1)
        if fn.startswith('lcm') and p > lim: continue
        tests.append(dict(zip('xyz', v)))
    for q in tests:
        if '3' not in fn: q.pop('z')
    for q, g in zip(tests, Native(so).run(fn, args, tests)):
        w = (math.gcd if fn.startswith('gcd') else math.lcm)(*q.values())
        if g in ('crash', 'timeout') or g['ret'] != w: return {'function': fn, 'inputs': q, 'got': str(g), 'expected': w}
    return None


def gcd_task(C, fn, t, arch='sse2'):
    n, sg = TY[t] * 8, t[0] == 'i'

    def body(X, s):
        X.nlmul = {}
        X.nldiv = (32, 64)
        X.factgens = facts(n, sg)
        x, y, w = BV('x', n), BV('y', n), BV('w', n)
        z = BVV(0, n)
        three = fn[3] == '3'
        if sg: s.pc += [v >= z for v in ((x, y, w) if three else (x, y))]
        if fn.startswith('lcm'): s.pc += [v != z for v in ((x, y, w) if three else (x, y))]
        pairs = [(x, y)] if not three else [(y, w), (x, G(y, w))]
        S = z3.BitVecSort(n)
        div = uf('%sDIV%d' % ('S' if sg else 'U', n), S, S, S)
        mul = lambda a, b: tobv(X.mul64(a, b), 64) if n == 64 else z3.simplify(a * b)
        if fn.startswith('lcm'):
            if three:
                p = div(mul(y, w), G(y, w))
                s.pc += [p > z if sg else p != z]   # no overflow: the product of positive numbers is positive, and so is the quotient
                pairs = [(y, w), (x, p)]
                want = div(mul(x, p), G(x, p))
            else: want = div(mul(x, y), G(x, y))
        else: want = G(*pairs[-1])
        X.usercands = gcd_cands(lambda: pairs, n, sg)
        outs = X.call(fn, [x, y, w] if three else [x, y], s)
        for o in outs: X.obligate(o, tobv(o.ret, n) == want, 'postcondition of %s' % fn)
        return len(outs)
    return vtask(C, 'fr', arch, fn, body, loopmode='cut', replay=lambda st: gcd_native(C, fn, t))


def flog(v, n):
    """floor(log2 v), 0 for v <= 1 (v unsigned)"""
    r = BVV(0, 32)
    for k in range(1, n): r = z3.If(z3.UGE(v, BVV(1 << k, n)), BVV(k, 32), r)
    return r


def main():
    C = Check('C23')
    C.unit('fr', 'c23_frac.cpp', ['sse2'])
    C.build()
    for fn, op, k in [('fr_make', '', 0), ('fr_make1', '', 0), ('fr_neg', 'neg', 1), ('fr_pos', 'pos', 1)] + [('fr_' + o + x, o, 2) for o in ('add', 'sub', 'mul', 'div') for x in ('', 'a')]:
        C.tasks.append(frac_task(C, fn, op, k))
    for t in T8:
        for fn in ('gcd', 'gcd3', 'lcm', 'lcm3'):
            if TY[t] >= 4: C.tasks.append(gcd_task(C, '%s_%s' % (fn, t), t))

    def add(fn, args, spec, **k): C.add(Leaf('fr', fn, args, spec, loopmode='unroll', timeout=60000, **k))
    R = lambda t: Arg('ret', 'ret', t)
    L = BVV(1 << 31, 64)
    sm = lambda v: z3.And(tobv(v, 64) > -L, tobv(v, 64) < L)
    fgen = lambda r, t: {k: ([(q := rnd_frac(r, True)).numerator & mask(64), q.denominator] if k in 'ab' else v) for k, v in t.items()}
    for c, f in (('eq', lambda p, q: p == q), ('ne', lambda p, q: p != q), ('lt', lambda p, q: p < q), ('le', lambda p, q: p <= q), ('gt', lambda p, q: p > q), ('ge', lambda p, q: p >= q)):
        def spec(X, d, c=c, f=f):
            a, b = ([tobv(v, 64) for v in d[k]] for k in 'ab')
            if c in ('eq', 'ne'):
                e = z3.And(a[0] == b[0], a[1] == b[1])
                r = e if c == 'eq' else z3.Not(e)
            else: r = f(a[0] * b[1], b[0] * a[1])
            return {'ret': simp(z3.If(r, BVV(1, 8), BVV(0, 8)))}

        def gen(r, t):
            t = fgen(r, t)
            if r.random() < .3: t['b'] = list(t['a'])
            return t
        add('fr_' + c, [R('u8'), In('a', 'i64', 2), In('b', 'i64', 2)], spec, pre=lambda X, d: [sm(v) for v in d['a'] + d['b']] + [tobv(d[k][1], 64) > 0 for k in 'ab'], gen=gen)
    one = [R('u8'), In('a', 'i64', 2)]
    add('fr_bool', one, lambda X, d: {'ret': simp(z3.If(tobv(d['a'][0], 64) != 0, BVV(1, 8), BVV(0, 8)))}, gen=fgen)
    den = lambda X, d: [sm(v) for v in d['a']] + [tobv(d['a'][1], 64) > 0]
    for t in ('f32', 'f64'):
        m = TY[t] * 8
        add('fr_' + t, [R(t), In('a', 'i64', 2)], lambda X, d, m=m: {'ret': X.dom.op('fdiv', m, X.dom.from_int(True, 64, m, d['a'][0]), X.dom.from_int(True, 64, m, d['a'][1]))}, pre=den, gen=fgen)
    add('fr_i64', [R('i64'), In('a', 'i64', 2)], lambda X, d: {'ret': simp(tobv(d['a'][0], 64) / tobv(d['a'][1], 64))}, pre=den, gen=fgen)
    for t in T8:
        n, sg = TY[t] * 8, t[0] == 'i'
        V = lambda d, k='x', n=n: tobv(d[k], n)
        B1 = lambda c: simp(z3.If(c, BVV(1, 8), BVV(0, 8)))
        pos = (lambda X, d, n=n: [tobv(d['x'], n) >= 0]) if sg else None
        pos1 = lambda X, d, n=n, sg=sg: [tobv(d['x'], n) > 0] if sg else [tobv(d['x'], n) != 0]
        pow2 = lambda v: z3.And(v != 0, v & (v - 1) == 0)
        ga = lambda r, n=n, sg=sg: r.choice([r.getrandbits(n), r.randrange(0, 127), 1 << r.randrange(n), (1 << r.randrange(n)) - 1, (1 << r.randrange(n)) + 1, 0, 1, 2]) & mask(n)
        X1 = [Val('x', t, gen=ga)]
        add('even_' + t, [R('u8')] + X1, lambda X, d, V=V: {'ret': B1(V(d) & 1 == 0)})
        add('odd_' + t, [R('u8')] + X1, lambda X, d, V=V: {'ret': B1(V(d) & 1 == 1)})
        # power of two as a positive number (the signed minimum has a single bit set but is negative)
        add('ispot_' + t, [R('u8')] + X1, lambda X, d, V=V, n=n: {'ret': B1(z3.Or([V(d) == BVV(1 << k, n) for k in range(n)]))}, pre=pos)
        add('ilog_' + t, [R('u32')] + X1, lambda X, d, V=V, n=n: {'ret': simp(flog(V(d), n))}, pre=pos)

        def np(X, d, V=V, n=n, sg=sg):
            r = BVV(1 << (n - 1), n)
            for k in range(n - 2, -1, -1): r = z3.If(z3.ULE(V(d), BVV(1 << k, n)), BVV(1 << k, n), r)
            return {'ret': simp(z3.If(V(d) == 0, BVV(0, n), r))}

        def pp(X, d, V=V, n=n):
            r = BVV(1, n)
            for k in range(1, n): r = z3.If(z3.UGE(V(d), BVV(1 << k, n)), BVV(1 << k, n), r)
            return {'ret': simp(z3.If(V(d) == 0, BVV(0, n), r))}
        top = lambda X, d, n=n, sg=sg: [z3.ULE(tobv(d['x'], n), BVV(1 << (n - (2 if sg else 1)), n))]
        add('npot_' + t, [R(t)] + X1, np, pre=top)
        add('ppot_' + t, [R(t)] + X1, pp, pre=pos)
        dv = lambda X, d, n=n: [tobv(d['y'], n) != 0] + ([z3.Not(z3.And(tobv(d['y'], n) == mask(n), tobv(d['x'], n) == 1 << (n - 1)))] if sg and n > 16 else [])
        add('isdiv_' + t, [R('u8')] + X1 + [Val('y', t, gen=ga)], lambda X, d, V=V, n=n, sg=sg: {'ret': B1((z3.SRem(V(d), V(d, 'y')) if sg else z3.URem(V(d), V(d, 'y'))) == 0)}, pre=dv)
        al = lambda X, d, V=V, n=n, sg=sg: [pow2(V(d, 'y'))] + ([V(d) >= 0, V(d, 'y') > 0] if sg else [])
        gp = lambda r, n=n, sg=sg: 1 << r.randrange(n - (1 if sg else 0))
        AA = X1 + [Val('y', t, gen=gp)]

        def down(X, d, V=V, n=n, t=t):
            x, a = V(d), V(d, 'y')
            return {'ret': lambda r: z3.And(tobv(r, n) & (a - 1) == 0, z3.ULE(tobv(r, n), x), z3.ULT(x - tobv(r, n), a))}

        def up(X, d, V=V, n=n):
            x, a = V(d), V(d, 'y')
            return {'ret': lambda r: z3.And(tobv(r, n) & (a - 1) == 0, z3.UGE(tobv(r, n), x), z3.ULT(tobv(r, n) - x, a))}
        noov = lambda X, d, V=V, al=al, n=n, sg=sg: al(X, d) + [z3.ULE(V(d), BVV(mask(n - (1 if sg else 0)), n) - (V(d, 'y') - 1))]
        add('adn_' + t, [R(t)] + AA, down, pre=al)
        add('aup_' + t, [R(t)] + AA, up, pre=noov)
        if t == 'u64':
            A2 = [Val('x', t, gen=ga), Val('y', t, gen=gp)]
            add('padn', [R(t)] + A2, down, pre=al)
            add('paup', [R(t)] + A2, up, pre=noov)
    for w in (64,):
        def fd(X, d):
            a, b = tobv(d['a'], 64), tobv(d['b'], 64)
            r = z3.SRem(a, b)
            adj = r < 0
            return {'o': [simp(z3.If(adj, a / b - 1, a / b)), simp(z3.If(adj, r + b, r))]}
        add('flr', [Out('o', 'i64', 2), Val('a', 'i64'), Val('b', 'i64')], fd, pre=lambda X, d: [tobv(d['b'], 64) > 0], contracts=[('lldiv', lambda X, s, a, i: [simp(tobv(a[0], 64) / tobv(a[1], 64)), simp(z3.SRem(tobv(a[0], 64), tobv(a[1], 64)))])])
    C.assumptions += ['defining facts of the greatest common divisor (gcd(a,0)=a, gcd(a,b)=gcd(b,a mod b), symmetry, non-zero for non-zero arguments) and of the remainder (0 <= a mod b < b), instantiated for the terms that occur',
                      'dividing two integers by their greatest common divisor makes them coprime (number theory)', 'lldiv() of the C library truncates towards zero', 'no intermediate 64-bit overflow; denominators non-zero; gcd of negative numbers is unspecified']
    C.run()


if __name__ == '__main__': main()
