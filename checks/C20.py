"""C20: random generation is deterministic and stays within its range"""
from kvc.check import *
from kvc import sym, nat
from kvc.nat import Buf
MUL, ADD = (214013, 17405, 214013, 69069), (2531011, 10395331, 13737667, 1)
NB = (1, 2, 3, 4, 5, 7, 8, 11, 15, 16, 17, 19, 23, 24, 31, 32, 33, 40, 47, 48, 49, 64, 65, 80, 100, 128)
INTS = ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64')
TN = [(t, n) for t in INTS + ('f32', 'f64') for n in (1, 2, 3, 4, 8)] + [('f32', 16), ('f64', 13), ('u8', 16), ('i16', 19)]


def step(v):
    """the generator: four linear congruential lanes, then the 16 bytes rotated by three places"""
    v = [simp(tobv(x, 32) * BVV(m, 32) + BVV(a, 32)) for x, m, a in zip(v, MUL, ADD)]
    b = [z3.Extract(8 * j + 7, 8 * j, tobv(x, 32)) for x in v for j in range(4)]
    b = [b[(i + 13) % 16] for i in range(16)]
    return [simp(z3.Concat(*b[4 * k:4 * k + 4][::-1])) for k in range(4)]


def bits(v, n):
    """n bytes: the states of as many steps as it takes, one after the other, and the state left behind"""
    out = []
    while len(out) < n:
        v = step(v)
        out += [simp(z3.Extract(8 * j + 7, 8 * j, tobv(x, 32))) for x in v for j in range(4)]
    return out[:n], v


def words(by, es): return [simp(z3.Concat(*[tobv(x, 8) for x in by[i:i + es]][::-1])) if es > 1 else by[i] for i in range(0, len(by), es)]


def uniform(t, w):
    """integers are the random words; floats the low mantissa bits as a fraction of one"""
    if t[0] != 'f': return w
    n, m = (32, 23) if t == 'f32' else (64, 52)
    F = z3.Float32() if n == 32 else z3.Float64()
    return [z3.fpToIEEEBV(z3.fpUnsignedToFP(z3.RNE(), z3.Extract(m - 1, 0, tobv(x, n)), F) * z3.FPVal(2.0 ** -m, F)) for x in w]


def unit01(t, w):
    """the same value as the code builds it (exponent of one, minus one); uniform() proves what it is"""
    n, m, one = (32, 23, 0x3f800000) if t == 'f32' else (64, 52, 0x3ff << 52)
    return [(tobv(x, n) & BVV((1 << m) - 1, n)) | BVV(one, n) for x in w]


def ranged(t, w, lo, hi):
    """lo + (word * width of the range) / 2^bits, in exact integer arithmetic"""
    n = 8 * TY[t]
    lo, hi = tobv(lo, n), tobv(hi, n)
    k = 64 if n < 64 else 128
    rng = z3.ZeroExt(k - n, hi - lo)
    if n < 64: return [simp(z3.Extract(n - 1, 0, z3.LShR(z3.ZeroExt(k - n, tobv(x, n)) * rng, BVV(n, k))) + lo) for x in w]
    # the upper half of the 128-bit product by 32-bit halves (mulhi_lemma proves that this is the upper half)
    rng, out, M = hi - lo, [], BVV(0xFFFFFFFF, 64)
    for x in w:
        x = tobv(x, 64)
        a, b, c, d = x & M, z3.LShR(x, 32), rng & M, z3.LShR(rng, 32)
        c1 = a * d + z3.LShR(a * c, 32)
        c2 = b * c + (c1 & M)
        out.append(simp(b * d + z3.LShR(c1, 32) + z3.LShR(c2, 32) + lo))
    return out


def lemmas(C):
    """integer lemmas used by the contracts, over unbounded integers"""
    def body(X, s):
        a, b, c, d, B = z3.Ints('a b c d B')
        p = z3.Ints('p q r t')
        B32 = 1 << 32
        ad, ac, bd, bc = z3.Ints('ad ac bd bc')        # the four products
        s.pc += [0 <= x for x in (ad, ac, bd, bc)] + [x <= (B32 - 1) * (B32 - 1) for x in (ad, ac, bd, bc)]
        c1 = ad + ac / B32
        c2 = bc + c1 % B32
        X.obligate(s, (bd * B32 * B32 + (ad + bc) * B32 + ac) / (B32 * B32) == bd + c1 / B32 + c2 / B32, 'lemma: upper half of a product from 32-bit halves')
        X.obligate(s, z3.And(c1 < B32 * B32, c2 < B32 * B32), 'lemma: the partial sums do not overflow 64 bits')
        u, R, m = z3.Ints('u R m')
        for n in (8, 16, 32, 64):
            N = 1 << n
            # u*R/N < R for u < N:  u*R <= (N-1)*R < N*R
            X.obligate(s, z3.Implies(z3.And(0 <= u, u <= N - 1, R > 0, m >= 0, m <= (N - 1) * R), z3.And(m / N >= 0, m / N < R)), 'lemma: scaled value below the width of the range (%d bits)' % n)
        return 1
    return vtask(C, 'rnd', 'sse2', 'next1', body, label='lemma_mulhi', timeout=60000)


def range_test(lib, r):
    for t in INTS + ('f32', 'f64'):
        n, f = TY[t], getattr(lib, 'fill_' + t)
        dt = {'u': 'uint%d', 'i': 'int%d', 'f': 'float%d'}[t[0]] % (8 * n)
        ct = {'u': [ctypes.c_uint8, ctypes.c_uint16, ctypes.c_uint32, ctypes.c_uint64], 'i': [ctypes.c_int8, ctypes.c_int16, ctypes.c_int32, ctypes.c_int64], 'f': [None, None, ctypes.c_float, ctypes.c_double]}[t[0]][(n - 1).bit_length()]
        for c in range(250):
            if t[0] == 'f':
                v = [r.choice((0.0, 1.0, -1.0, r.uniform(-1, 1), r.gauss(0, 1) * 10.0 ** r.randint(-30, 30))) for _ in range(2)]
                v = [float(np.dtype(dt).type(x)) for x in v]
                if r.random() < 0.3: v[1] = float(np.nextafter(np.dtype(dt).type(v[0]), np.dtype(dt).type(np.inf)))
                kind = r.randint(0, 4)
            else:
                i = np.iinfo(dt)
                v = [r.choice((int(i.min), int(i.max), 0, 1, 10, 100, r.randint(int(i.min), int(i.max)))) for _ in range(2)]
                kind = r.randint(0, 3)
            lo, hi = min(v), max(v)
            m = r.choice((1, 2, 3, 7, 16, 100, 1000))
            seed = [r.getrandbits(32) for _ in range(4)]
            outs = []
            for _ in range(2):
                s, o = Buf(seed, np.uint32), Buf([0] * m, dt)
                f(s.p, o.p, ctypes.c_uint64(m), ct(lo), ct(hi), ctypes.c_int(kind))
                outs.append((list(o.v), list(s.v), o.guards() and s.guards()))
            y = outs[0][0]
            if kind in (0, 1, 4): ok = outs[0] == outs[1] or any(x != x for x in y)       # same seed, same sequence
            else: ok = True
            if kind in (0, 2): ok = ok and all(lo <= x <= hi if t[0] == 'f' or lo == hi else lo <= x < hi for x in y)
            if kind in (1, 3) and t[0] == 'f': ok = ok and all(0 <= x < 1 for x in y)
            if m >= 16 and kind < 2 and (t[0] == 'f' and kind == 1 or t[0] != 'f' and (kind == 1 or hi - lo > 200)): ok = ok and len(set(y)) > 1
            if not ok or not outs[0][2]:
                return {'function': ['gen_random_range', 'gen_random_uniform', 'gen_random_range, own seed', 'gen_random_uniform, own seed', 'gen_random_normal'][kind] + ' of ' + t, 'seed': seed, 'bounds': [lo, hi], 'count': m, 'got': str(y[:40]), 'again': str(outs[1][0][:40]), 'guards intact': outs[0][2]}
    return None


def main():
    C = Check('C20')
    q = C.tier == 'quick'
    C.unit('rnd', 'c20_random.cpp', ['sse2', 'avx2'] if q else ['sse2', 'sse41', 'avx2', 'avx512'])
    nth = __import__('threading').Thread(target=C.native, args=('rnd', 'sse2'))
    nth.start()
    C.build()
    C.tasks.append(lemmas(C))
    S = InOut('s', 'u32', 4)
    C.add(Leaf('rnd', 'next1', [S], lambda X, d: {'s': step(d['s'])}, tries=50))
    C.add(Leaf('rnd', 'init4', [Out('o', 'u32', 4)] + [Val(x, 'u32') for x in 'abcd'], lambda X, d: {'o': step([d[x] for x in 'abcd'])}, tries=50))

    def init2(X, d):
        w = [tobv(d[x], 64) for x in 'ab']
        return {'o': step([simp(z3.Extract(32 * j + 31, 32 * j, x)) for x in w for j in range(2)])}
    C.add(Leaf('rnd', 'init2', [Out('o', 'u32', 4), Val('a', 'u64'), Val('b', 'u64')], init2, tries=50))
    for n in NB:
        def spec(X, d, n=n):
            b, v = bits(d['s'], n)
            return {'o': b, 's': v}
        C.add(Leaf('rnd', 'rb_%d' % n, [S, Out('o', 'u8', n)], spec, tries=20))
    for t, n in TN:
        if q and t == 'f64' and n > 4: continue
        def us(X, d, t=t, n=n, twice=False):
            b, v = bits(d['s'], n * TY[t])
            w = uniform(t, words(b, TY[t]))
            if not twice: return {'o': w, 's': v}
            return {'o': w + w, 's': v, 's2': list(d['s'])}
        dom = 'ieee' if t[0] == 'f' else 'uf'
        C.add(Leaf('rnd', 'un_%s_%d' % (t, n), [S, Out('o', t, n)], us, domain=dom, timeout=60000, tries=20))
        C.add(Leaf('rnd', 'ue_%s_%d' % (t, n), [S, Out('o', t, 2 * n), Out('s2', 'u32', 4)], lambda X, d, us=us: us(X, d, twice=True), domain=dom, timeout=60000, tries=20))

        def rs(X, d, t=t, n=n, twice=False):
            b, v = bits(d['s'], n * TY[t])
            w = words(b, TY[t])
            if t[0] != 'f': y = ranged(t, w, d['lo'], d['hi'])
            else:
                k, o = 8 * TY[t], X.dom.op
                lo, hi = tobv(d['lo'], k), tobv(d['hi'], k)
                one, df = f2bits(1.0, k), o('fsub', k, hi, lo)
                u = [o('fadd', k, o('fadd', k, x, 0), f2bits(-1.0, k)) for x in unit01(t, w)]
                u2 = [o('fsub', k, o('fadd', k, x, 0), one) for x in unit01(t, w)]
                y = [(lambda a, p=p, p2=p2: simp(z3.Or(*[tobv(a, k) == z for x in (p, p2) for z in (o('fadd', k, o('fmul', k, x, df), lo), o('fmuladd', k, x, df, lo))]))) for p, p2 in zip(u, u2)]
            if not twice: return {'o': y, 's': v}
            return {'o': y + y, 's': v, 's2': list(d['s'])}
        A = [S, Out('o', t, n), Val('lo', t), Val('hi', t)]
        C.add(Leaf('rnd', 'rr_%s_%d' % (t, n), A, rs, timeout=60000, tries=20))
        C.add(Leaf('rnd', 're_%s_%d' % (t, n), [S, Out('o', t, 2 * n)] + A[2:] + [Out('s2', 'u32', 4)], lambda X, d, rs=rs: rs(X, d, twice=True), timeout=60000, tries=20))
    nth.join()
    C.tasks.append(nat.nattask(C, 'rnd', 'ranges_and_reproducibility', range_test, 2))
    C.bounded += ['floating-point ranged values inside their bounds, and whole fills (bounded native runs): rounding of the interpolation is not proved to stay inside']
    C.assumptions += ['the difference of floating-point bounds is finite', 'random_normal: determinism only, no bound (unbounded distribution)']
    C.run()


if __name__ == '__main__': main()
