"""C26: window functions: mirror symmetry, closed form, periodic vs symmetric, finite"""
from kvc.check import *
from kvc import sym, nat
from kvc.nat import Buf
NAMES = 'rectangular triangular bartlett cosine hann bartlett_hann hamming bohman blackman blackman_harris kaiser flattop gaussian lanczos cosine_np planck_taper tukey'.split()
LD = np.longdouble
I = ctypes.c_uint64
EPS = {'f32': 2.0 ** -24, 'f64': 2.0 ** -53}
DT = {'f32': np.float32, 'f64': np.float64}
FT = {'f32': ctypes.c_float, 'f64': ctypes.c_double}
METRIC = dict(triangular='m1_1_trunc2', bartlett='m1_1', cosine='0_1', hann='0_1', bartlett_hann='0_1', hamming='0_1', bohman='m1_1', blackman='0_1', blackman_harris='0_1', kaiser='m1_1', flattop='0_1', gaussian='m1_1_trunc', lanczos='mpi_pi', cosine_np='m1_1_trunc', planck_taper='m1_1', tukey='m1_1')
DEFAULT = dict(hamming=0.54, blackman=0.16, kaiser=0.5, gaussian=2.5, planck_taper=0.1, tukey=0.5)
PI = LD('3.14159265358979323846264338327950288')


def i0(x):
    x = np.asarray(x, LD)
    t = np.ones_like(x)
    r = np.ones_like(x)
    for k in range(1, 400):
        t = t * (x / 2) ** 2 / (k * k)
        r = r + t
        if (t <= r * LD(1e-22)).all(): break
    return r


def closed(name, n, p):
    """closed form of the symmetric window of n >= 2 samples, by distance to the centre: the reference is mirror-symmetric itself"""
    i = np.arange(n)
    i = np.minimum(i, n - 1 - i).astype(LD)
    m = LD(n - 1)
    t = i / m                      # 0 .. 1/2
    u = (m - 2 * i) / m            # 1 .. 0: distance to the centre
    p = LD(p)
    if name == 'rectangular': return np.ones(n, LD)
    if name == 'triangular': return 1 - u * (m / (n + 1 if n % 2 else n))
    if name == 'bartlett': return 1 - u
    if name == 'cosine': return np.sin(PI * t)
    if name == 'hann': return (1 - np.cos(2 * PI * t)) / 2
    if name == 'bartlett_hann': return LD('0.62') - LD('0.48') * (LD(1) / 2 - t) + LD('0.38') * np.cos(2 * PI * (t - LD(1) / 2))
    if name == 'hamming': return p - (1 - p) * np.cos(2 * PI * t)
    if name == 'bohman': return (1 - u) * np.cos(PI * u) + np.sin(PI * u) / PI
    if name == 'blackman': return (1 - p) / 2 - np.cos(2 * PI * t) / 2 + p / 2 * np.cos(4 * PI * t)
    if name == 'blackman_harris': return LD('0.35875') - LD('0.48829') * np.cos(2 * PI * t) + LD('0.14128') * np.cos(4 * PI * t) - LD('0.01168') * np.cos(6 * PI * t)
    if name == 'kaiser': return i0(p * np.sqrt(4 * i * (m - i)) / m) / i0(p)
    if name == 'flattop': return LD('0.21557895') - LD('0.41663158') * np.cos(2 * PI * t) + LD('0.277263158') * np.cos(4 * PI * t) - LD('0.083578947') * np.cos(6 * PI * t) + LD('0.006947368') * np.cos(8 * PI * t)
    if name == 'gaussian': return np.exp(-(p * u * m / n) ** 2 / 2)
    if name == 'lanczos': return np.where(u == 0, LD(1), np.sin(PI * u) / np.where(u == 0, LD(1), PI * u))
    if name == 'cosine_np': return np.sin(PI / 2 * (1 - u * m / n))
    if name == 'planck_taper':
        x = (1 - u) / (2 * p)
        with np.errstate(all='ignore'): v = 1 / (1 + np.exp(1 / x - 1 / (1 - x)))
        return np.where(x <= 0, LD(0), np.where(x >= 1, LD(1), v))
    if name == 'tukey':
        x = (1 - u) / p
        return np.where(x >= 1, LD(1), (1 - np.cos(PI * x)) / 2)


def tolerance(name, n, p, T):
    """absolute rounding bound: error of the ramp (a few ulp of 1) times the slope of the closed form, plus evaluation"""
    slope = dict(rectangular=0, triangular=1, bartlett=1, cosine=4, hann=4, bartlett_hann=4, hamming=4, bohman=4, blackman=10, blackman_harris=12, flattop=40, lanczos=4, cosine_np=4)
    k = slope[name] if name in slope else {'kaiser': 2 + abs(p), 'gaussian': 2 + abs(p) * 2, 'planck_taper': 8 / max(p, 1e-9), 'tukey': 6 / max(p, 1e-9)}[name]
    return EPS[T] * 16 * (1 + k)


def params(name, r):
    if name == 'hamming': return r.choice((0.54, 0.5, 25 / 46, 1.0, round(r.uniform(0, 1), 3)))
    if name == 'blackman': return r.choice((0.16, 0.0, round(r.uniform(0, 0.5), 3)))
    if name == 'kaiser': return r.choice((0.5, 0.0, 1.0, 3.0, 3.75, 5.0, 8.6, 14.0, 20.0, round(r.uniform(0, 20), 2)))
    if name == 'gaussian': return r.choice((2.5, 0.0, 1.0, 4.0, round(r.uniform(0, 6), 2)))
    if name in ('planck_taper', 'tukey'): return r.choice((0.1, 0.25, 0.5, 0.05 if name[0] == 'p' else 1.0, round(r.uniform(0.05, 0.5), 3)))
    return DEFAULT.get(name, 0.0)


def one(lib, T, name, n, p, symm, via):
    pf = float(DT[T](p))
    k = NAMES.index(name) + 1
    b = Buf([0.0] * n, DT[T])
    f = getattr(lib, 'win_%s_%s' % (via, T))
    f.restype = ctypes.c_uint64
    got = f(k, I(n), FT[T](pf), b.p) if via == 'named' else f(k, I(n), FT[T](pf), int(symm), b.p)
    v = b.v.astype(LD)
    info = {'function': 'window ' + name, 'through': via, 'type': T, 'size': n, 'parameter': pf, 'symmetry': 'symmetric' if symm else 'periodic'}
    if got != n or not b.guards(): return dict(info, **{'length': got})
    bad = np.nonzero(~np.isfinite(b.v))[0]
    if len(bad): return dict(info, index=int(bad[0]), value=str(b.v[bad[0]]), expected='a finite value')
    m = n if symm else n + 1
    if m < 2: return None
    want = closed(name, m, pf)[:n]
    tol = tolerance(name, n, pf, T) + (EPS[T] * n if False else 0)
    e = np.abs(v - want)
    j = int(e.argmax()) if n else 0
    if n and e[j] > tol: return dict(info, index=j, value=float(v[j]), expected=float(want[j]), error=float(e[j]), tolerance=float(tol))
    if symm:
        e = np.abs(v - v[::-1])
        j = int(e.argmax()) if n else 0
        if n and e[j] > tol: return dict(info, index=j, value=float(v[j]), mirror=float(v[n - 1 - j]))
    return None


def native_forms(T, name):
    def go(lib, r):
        sizes = [0, 1] + list(range(2, 41)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025] + [r.randrange(41, 3000) for _ in range(12)]
        for n in sizes:
            for q in range(2):
                p = DEFAULT.get(name, 0.0) if q == 0 else params(name, r)
                for symm in (True, False):
                    for via in ('handle', 'typed') + (('named',) if symm else ()):
                        f = one(lib, T, name, n, p, symm, via)
                        if f: return f
        return None
    return go


QPI = Fraction('3.14159265358979323846264338327950288419716939937510582097494459')
KNOWN = [QPI * k for k in (1, 2, 3, 4, 6, 8)] + [QPI / 2, QPI / 4, 1 / QPI, 2 / QPI, 1 / (2 * QPI)] + [Fraction(c) for c in '0.62 0.48 0.38 0.35875 0.48829 0.14128 0.01168 0.21557895 0.41663158 0.277263158 0.083578947 0.006947368'.split()]
KNOWN += [-k for k in KNOWN]
SNAP = {n: {f2bits(float(k), 64) if n == 64 else f2bits(float(np.float32(float(k))), 32): k for k in KNOWN} for n in (32, 64)}


class WinDomain(RealDomain):
    """exact reals; a float constant that is the rounding of a named real constant stands for that constant; integer terms convert to polynomials over
    the registered integers when the solver proves them equal under the precondition; comparisons are decided by the solver over the region"""

    def __init__(self, pre=(), ints=(), region=None):
        RealDomain.__init__(self)
        self.pre, self.ints, self.region, self.memo = list(pre), list(ints), region, {}

    def lift(self, x, n):
        if isinstance(x, int) and n in SNAP and x in SNAP[n]: return Poly.const(SNAP[n][x])
        if is_bv(x) and self.pre:
            k = (x.get_id(), n)
            if k not in self.memo:
                sv = z3.Solver()
                sv.set('timeout', 20000)
                sv.add(*self.pre)
                self.memo[k] = x, None
                if sv.check() == z3.sat:
                    c = sv.model().eval(x, True)
                    sv.add(x != c)
                    if z3.is_bv_value(c) and sv.check() == z3.unsat: self.memo[k] = x, self.lift(c.as_long(), n)
            if self.memo[k][1] is not None: return self.memo[k][1]
        return RealDomain.lift(self, x, n)

    def from_int(self, signed, ni, nf, x):
        if is_bv(x):
            k = (signed, x.get_id())
            if k not in self.memo:
                r = None
                for t, poly in self.ints:
                    for c in (0, -1, 1, 2, -2):
                        e = t + c
                        y = x
                        if ni < 64: y = z3.SignExt(64 - ni, x) if signed else z3.ZeroExt(64 - ni, x)
                        sv = z3.Solver()
                        sv.set('timeout', 20000)
                        sv.add(*self.pre)
                        sv.add(y != e)
                        if sv.check() == z3.unsat:
                            r = poly + Poly.const(c)
                            break
                    if r is not None: break
                self.memo[k] = x, r
            if self.memo[k][1] is not None: return self.memo[k][1]
            raise Unsupported('conversion of an integer that is not an affine function of the size or the index')
        return RealDomain.from_int(self, signed, ni, nf, x)

    def cmp_sym(self, p, d):
        """sign of polynomial d on the region"""
        if not self.region: raise Unsupported('comparison of symbolic reals')
        V = {}

        def val(name):
            if name not in V:
                V[name] = z3.Real(name.replace('#', '_'))
            return V[name]

        def tr(q):
            r = z3.RealVal(0)
            for m, c in q.t.items():
                t = z3.RealVal(str(c))
                for v in m: t = t * val(v)
                r = r + t
            return r
        ex = []
        e = tr(d)
        done = set()
        while True:
            todo = [k for k in V if k not in done]
            if not todo: break
            for nm in todo:
                done.add(nm)
                for (f, *a), (an, keep) in list(self.atoms.items()):
                    if an != nm: continue
                    if f == 'abs':
                        t = tr(keep)
                        ex.append(V[nm] == z3.If(t >= 0, t, -t))
                    elif f == 'inv':
                        ex.append(V[nm] * tr(keep) == 1)
        ex += self.region(val)
        q = p[1:]
        rel = {'lt': e < 0, 'le': e <= 0, 'gt': e > 0, 'ge': e >= 0, 'eq': e == 0, 'ne': e != 0}[q]
        for neg in (True, False):
            sv = z3.Solver()
            sv.set('timeout', 20000)
            sv.add(*ex)
            sv.add(z3.Not(rel) if neg else rel)
            if sv.check() == z3.unsat: return int(neg)
        raise Unsupported('comparison not decided on the region')


def math_contracts():
    out = []
    for f in ('sin', 'cos', 'exp', 'modzerobessel'):
        for t, n in (('f32', 32), ('f64', 64)):
            def go(X, s, a, i, f=f, n=n):
                x = X.dom.lift(a[0], n)
                if f in ('sin', 'cos') and x.is_const() and x.const_value() == 0: return X.dom.lift(f2bits(0.0 if f == 'sin' else 1.0, n), n)
                return X.dom.atom(f, (x.key(),), x)
            out.append(('kc_%s_%s' % (f, t), go))
    return out


def forms(D):
    """closed form as a polynomial over the contracts of sin, cos, exp, sqrt; x: the ramp, a: the parameter"""
    c = lambda v: Poly.const(Fraction(v))
    at = lambda f, x: D.atom(f, (x.key(),), x)
    cos, sin, exp = (lambda x, f=f: at(f, x) for f in ('cos', 'sin', 'exp'))
    ab = lambda x: D.abs(64, x)
    div = lambda p, q: D.op('fdiv', 64, p, q)
    half = c('1/2')
    pi = Poly.const(QPI)
    taper = lambda x: half * (c(1) - cos(pi * x))
    return dict(
        triangular=lambda x, a: c(1) - ab(x), bartlett=lambda x, a: c(1) - ab(x),
        cosine=lambda x, a: sin(pi * x), cosine_np=lambda x, a: sin(half * pi * (c(1) + x)),
        hann=lambda x, a: half - half * cos(c(2) * pi * x),
        bartlett_hann=lambda x, a: c('0.62') - c('0.48') * ab(x - half) + c('0.38') * cos(c(2) * pi * (x - half)),
        hamming=lambda x, a: a - (c(1) - a) * cos(c(2) * pi * x),
        bohman=lambda x, a: (c(1) - ab(x)) * cos(pi * ab(x)) + Poly.const(1 / QPI) * sin(pi * ab(x)),
        blackman=lambda x, a: half * (c(1) - a) - half * cos(c(2) * pi * x) + half * a * cos(c(4) * pi * x),
        blackman_harris=lambda x, a: c('0.35875') - c('0.48829') * cos(c(2) * pi * x) + c('0.14128') * cos(c(4) * pi * x) - c('0.01168') * cos(c(6) * pi * x),
        flattop=lambda x, a: c('0.21557895') - c('0.41663158') * cos(c(2) * pi * x) + c('0.277263158') * cos(c(4) * pi * x) - c('0.083578947') * cos(c(6) * pi * x) + c('0.006947368') * cos(c(8) * pi * x),
        gaussian=lambda x, a: exp(c('-1/2') * a * a * x * x),
        lanczos=lambda x, a: div(sin(x), x),
        planck_taper=lambda x, a: (lambda z: div(c(1), c(1) + exp(div(c(1), z) - div(c(1), c(1) - z))))(div(c(1) - ab(x), c(2) * a)),
        tukey=lambda x, a: taper(div(c(1) - ab(x), a)))


def element(C, name, T, region=None, want=None, arch='sse2'):
    n = 32 if T == 'f32' else 64
    lab = 'element_%s_%s%s' % (name, T, '' if region is None else '_' + want[0])

    def body(X, s):
        x, a = Poly.var('x'), Poly.var('a')
        o, = X.call('at_%s_%s' % (name, T), [x, a], s)
        r = X.dom.lift(o.ret, n)
        w = forms(X.dom)[name](x, a) if region is None or want[1] is None else Poly.const(want[1])
        X.record(r == w, 'postcondition: the %s window at ramp position x is its closed form' % name, 'got %r, closed form %r' % (r, w))
        return 1
    return vtask(C, 'win', arch, lab, body, domain=lambda: WinDomain(region=region), loopmode='unroll', contracts=math_contracts(), label=lab, replay=nat.replayer(C, 'win', native_forms(T, name), 'avx2' if T == 'f32' else 'sse2'))


def ramp(C, M, T, N, symm, odd, arch):
    """element i of the ramp of a window of any size n >= 2"""
    n = 32 if T == 'f32' else 64
    lab = 'ramp_%s_%s_%d_%s_%s' % (M, T, N, 'sym' if symm else 'per', 'odd' if odd else 'even')
    H, i = z3.BitVec('h', 64), z3.BitVec('i', 64)
    size = 2 * H + odd
    lim = 1 << 23
    pre = [z3.ULE(2, size), z3.ULT(size, lim), z3.ULT(H, lim), z3.ULE(1, H), z3.ULT(i, size)]

    def body(X, s):
        p = X.newobj(s, N * n // 8, None, n // 8, 'out')
        s.pc += pre
        o, = X.call('lin_%s_%s_%d' % (M, T, N), [size, int(symm), i, p], s)
        D = X.dom
        S = Poly.var('n')
        one = Poly.const(1)
        L = S if symm else S + one       # size of the underlying symmetric window
        inv = lambda q: D.op('fdiv', n, one, q)
        stop = {'0_1': one, 'm1_1': one, 'mpi_pi': Poly.const(QPI)}.get(M)
        if M == 'm1_1_trunc': stop = (L - one) * inv(L)
        if M == 'm1_1_trunc2': stop = (L - one) * (inv(L + one) if odd == symm else inv(L))
        start = Poly.const(0) if M == '0_1' else -stop
        for k in range(N):
            v = D.lift(X.read_scalar(o, sym.ptradd(p, k * n // 8), n // 8), n)
            w = start + (stop - start) * (Poly.var('i') + Poly.const(k)) * inv(L - one)
            X.record(v == w, 'postcondition: ramp position of element i is start + (stop-start)*i/(n-1), n the size of the symmetric window', 'lane %d: %r, specified %r' % (k, v, w))
        return 1
    return vtask(C, 'win', arch, lab, body, domain=lambda: WinDomain(pre, [(size, Poly.var('n')), (i, Poly.var('i'))]), loopmode='unroll', label=lab, replay=nat.replayer(C, 'win', native_ramp(M, T)))


def native_ramp(M, T):
    names = [k for k in METRIC if METRIC[k] == M]

    def go(lib, r):
        for k in names:
            f = native_forms(T, k)(lib, r)
            if f: return f
    return go


def main():
    C = Check('C26')
    C.unit('win', 'c26_window.cpp', ('sse2', 'avx2'))
    nth = __import__('threading').Thread(target=lambda: [C.native('win', a) for a in ('sse2', 'avx2')])
    nth.start()
    C.build()
    for T in ('f32', 'f64'):
        for M in ('0_1', 'm1_1', 'mpi_pi', 'm1_1_trunc', 'm1_1_trunc2'):
            for N in (1, 4):
                for symm in (1, 0):
                    for odd in (0, 1): C.tasks.append(ramp(C, M, T, N, symm, odd, 'avx2' if N == 4 else 'sse2'))
        pos = lambda v: [v('a') > 0, v('a') <= 1]
        regions = dict(tukey=[('taper', None, lambda v: [z3.And(z3.If(v('x') >= 0, v('x'), -v('x')) < 1, z3.If(v('x') >= 0, v('x'), -v('x')) > 1 - v('a'))]), ('flat', 1, lambda v: [z3.If(v('x') >= 0, v('x'), -v('x')) <= 1 - v('a')]), ('end', 0, lambda v: [z3.Or(v('x') == 1, v('x') == -1)])],
                       planck_taper=[('taper', None, lambda v: [z3.And(z3.If(v('x') >= 0, v('x'), -v('x')) < 1, z3.If(v('x') >= 0, v('x'), -v('x')) > 1 - 2 * v('a'))]), ('flat', 1, lambda v: [z3.If(v('x') >= 0, v('x'), -v('x')) <= 1 - 2 * v('a'), v('a') <= z3.RealVal('1/2')]), ('end', 0, lambda v: [z3.Or(v('x') == 1, v('x') == -1)])],
                       lanczos=[('off_centre', None, lambda v: [v('x') != 0, v('x') <= 4, v('x') >= -4, z3.Or(v('x') > z3.RealVal('1/1000'), v('x') < z3.RealVal('-1/1000'))])])
        for name in METRIC:
            if name == 'kaiser': continue
            for lab, w, reg in regions.get(name, [(None, None, None)]):
                C.tasks.append(element(C, name, T, None if reg is None else (lambda v, reg=reg: pos(v) + reg(v)), (lab, w), 'avx2'))
    nth.join()
    for name in NAMES:
        for T in ('f32', 'f64'):
            C.tasks.append(nat.nattask(C, 'win', '%s_%s' % (name, T), native_forms(T, name), arch='avx2' if T == 'f32' else 'sse2'))
    C.bounded.append('closed forms, mirror symmetry, periodic/symmetric relation and finiteness of all 17 windows: f32 and f64, sizes 0..40 and selected/random sizes up to 3000, through window(), the typed form and the named functions; kaiser (Bessel series) and sizes below 2 only here')
    C.assumptions += ['sin, cos, exp by contract: the mathematical functions (their approximations are only compared with a reference on the native runs)', 'floating-point arithmetic as exact reals in the closed-form obligations; rounding is judged on the native runs', 'index and size below 2^23']
    C.run()


if __name__ == '__main__': main()
