"""C18: FFT convolution equals the convolution sum, one-shot and in blocks"""
from kvc.check import *
from kvc import sym, nat, lin
from kvc.nat import Buf
from .C16 import ES, TOL
from .C17 import dt, gen, judge, I
CFSZ = 1024


def expect(kind, n, m, nv):
    """rows of the defining sum over inputs x[0..n) = 0..n-1 and h[0..m) = n.."""
    if kind == 'auto':
        return np.array([sum((lin.bilinear(n, k + t, k) for k in range(n - t)), np.zeros(nv + 1)) for t in range(n)])
    rows = []
    for t in range(n + m - 1):
        r = np.zeros(nv + 1)
        for j in range(m):
            i = t - j if kind == 'conv' else t - (m - 1 - j)
            if 0 <= i < n: r += lin.bilinear(n + m, i, n + j)
        rows.append(r)
    return np.array(rows)


def run_once(X, s, kind, n, m, es, tol):
    X.contracts = lin.heap(es) + [('pthread_mutex', lambda X, s, a, i: 0)]
    X.globals_init['__libc_single_threaded'] = lambda X, s, p: X.write_scalar(s, p, 1, 1)
    X.maxinst = 30000000
    pa = lin.inputs(X, s, n, es, 0, 'a')
    if kind == 'auto':
        L = n
        po = X.newobj(s, L * es, None, es, 'out')
        o = lin.one(X.call('x_auto', [pa, n, po], s))
    else:
        L = n + m - 1
        pb = lin.inputs(X, s, m, es, n, 'b')
        po = X.newobj(s, L * es, None, es, 'out')
        o = lin.one(X.call('x_' + kind, [pa, n, pb, m, po], s))
    X.record(o.ret == L, 'length of the result', str(o.ret))
    lin.compare(X, o, po, expect(kind, n, m, X.dom.nv), es, tol, 'postcondition: %s equals the defining sum' % {'conv': 'convolve', 'corr': 'correlate', 'auto': 'autocorrelate'}[kind])
    return 1


def splits(r, B, total):
    out = []
    while sum(out) < total:
        k = r.choice((1, 1, 2, 3, B, B, 2 * B, B - 1, B + 1, r.randrange(1, 3 * B + 1), 0))
        out.append(max(0, min(k, total - sum(out))))
    return out


def run_stream(X, s, m, B, blocks, es, tol, mode):
    """convolve_filter with an impulse response of m samples; blocks: list of run lengths, ('r',) resets, ('s', m2) new data; every sample and every tap is symbolic"""
    X.contracts = lin.heap(es) + [('pthread_mutex', lambda X, s, a, i: 0)]
    X.globals_init['__libc_single_threaded'] = lambda X, s, p: X.write_scalar(s, p, 1, 1)
    X.maxinst = 60000000
    n = sum(b for b in blocks if isinstance(b, int))
    NV = X.dom.n
    ph = lin.inputs(X, s, m, es, n, 'h')
    p = X.newobj(s, CFSZ, None, 8, 'filter')
    if mode == 'set':
        s = lin.one(X.call('cf_new0', [p, m + 2 * B + 1, B], s))
        s = lin.one(X.call('cf_set', [p, ph, m], s))
    else: s = lin.one(X.call('cf_new', [p, ph, m, B], s))
    rows, base = [], 0
    pos = 0
    for b in blocks:
        if not isinstance(b, int):
            s = lin.one(X.call('cf_set', [p, ph, m], s) if b[0] == 's' else X.call('cf_reset', [p], s))
            base = pos
            continue
        inpl = mode == 'inplace'
        pi = lin.inputs(X, s, b, es, pos, 'in', not inpl)
        po = pi if inpl else X.newobj(s, b * es, None, es, 'out')
        s = lin.one(X.call('cf_inpl', [p, pi, b], s) if inpl else X.call('cf_apply', [p, po, pi, b], s))
        W = np.zeros((b, X.dom.nv + 1))
        for t in range(b):
            for j in range(m):
                if pos + t - j >= base: W[t] += lin.bilinear(NV, pos + t - j, n + j)
        if b: lin.compare(X, s, po, W, es, tol, 'postcondition: outputs %d.. of a stream in blocks equal the convolution of the stream' % pos)
        pos += b
    return 1


def native_once(T):
    def go(lib, r):
        for f in ('x_conv', 'x_corr', 'x_auto'): getattr(lib, f).restype = ctypes.c_uint64
        for c in range(400):
            n, m = (r.choice((1, 2, 3, 4, 5, 7, 8, 9, 16, 17, r.randrange(1, 70), r.randrange(1, 400))) for _ in 'ab')
            a, b = gen(r, n, T), gen(r, m, T)
            kind = ('conv', 'corr', 'auto')[c % 3]
            ba, bb = Buf(a, dt(T)), Buf(b, dt(T))
            L = n if kind == 'auto' else n + m - 1
            bo = Buf([0] * L, dt(T))
            if kind == 'auto':
                want = np.correlate(a, a, 'full')[n - 1:]
                k = lib.x_auto(ba.p, I(n), bo.p)
                sc = a
            else:
                want = np.convolve(a, b) if kind == 'conv' else np.convolve(a, b[::-1])
                k = getattr(lib, 'x_' + kind)(ba.p, I(n), bb.p, I(m), bo.p)
                sc = np.concatenate([a, b]) * np.sqrt(n + m)
            j = judge(bo.v, want, sc * (1 + np.abs(sc).max()), T, 4 * (n + m))
            if k != L or j or not bo.guards() or not ba.unchanged() or not bb.unchanged():
                return {'function': {'conv': 'convolve', 'corr': 'correlate', 'auto': 'autocorrelate'}[kind], 'type': T, 'a': [float(v) for v in a], 'b': [float(v) for v in b] if kind != 'auto' else None, 'length of result': k, 'expected length': L, **(j or {})}
        return None
    return go


def native_stream(T):
    def go(lib, r):
        lib.cf_block.restype = ctypes.c_uint64
        for c in range(200):
            m = r.choice((1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 64, 100, r.randrange(1, 200)))
            B = r.choice((1, 2, 4, 5, 8, 16, 32, 64, 100))
            h = gen(r, m, T)
            p = np.zeros(CFSZ // 8, np.uint64)
            pp = ctypes.c_void_p(p.ctypes.data)
            bh = Buf(h, dt(T))
            if c % 3 == 0:
                lib.cf_new0(pp, I(r.randrange(1, 200)), I(B))
                lib.cf_set(pp, bh.p, I(m))
            else: lib.cf_new(pp, bh.p, I(m), I(B))
            BB = lib.cf_block(pp)
            hist, hs = [], []
            x = np.zeros(0)
            for b in splits(r, BB, r.randrange(1, 6 * BB + 2 * m)):
                if r.random() < .06:
                    if r.random() < .5: lib.cf_reset(pp)
                    else:
                        h = gen(r, r.choice((1, 3, m, 2 * BB + 1, r.randrange(1, 90))), T)
                        bh = Buf(h, dt(T))
                        lib.cf_set(pp, bh.p, I(len(h)))
                    x = np.zeros(0)
                    hist.append('reset')
                xi = gen(r, b, T)
                x0 = len(x)
                x = np.concatenate([x, xi])
                want = np.convolve(x, h)[x0:x0 + b] if b else np.zeros(0)
                bi = Buf(xi, dt(T))
                how = r.randrange(3)
                bo = bi if how == 1 else Buf([0] * b, dt(T))
                if how == 1: lib.cf_inpl(pp, bi.p, I(b))
                else: (lib.cf_apply if how == 0 else lib.cf_expr)(pp, bo.p, bi.p, I(b))
                hist.append(b)
                if not b: continue
                j = judge(bo.v, want, np.concatenate([x[-(m + 2 * BB):], h]) * np.sqrt(len(h) + BB), T, 8 * (m + BB))
                if j or not bo.guards() or (how != 1 and not bi.unchanged()):
                    return {'function': 'convolve_filter', 'type': T, 'taps': [float(v) for v in h], 'block size': B, 'history of calls': hist, 'stream since reset': [float(v) for v in x[-200:]], 'last call': ('apply', 'in place', 'expression')[how], **(j or {})}
            lib.cf_del(pp)
        return None
    return go


def main():
    C = Check('C18')
    q = C.tier == 'quick'
    units = [('v64', 'double', ['avx2'] if q else ['sse2', 'avx', 'avx2', 'avx512']), ('v32', 'float', ['sse2'] if q else ['sse2', 'avx', 'avx2', 'avx512'])]
    for u, T, archs in units: C.unit(u, 'c18_conv.cpp', archs, ['-DREALT=' + T], irflags=ir.IRFLAGS + ['-fno-inline'])
    ths = [__import__('threading').Thread(target=C.native, args=(u, 'sse2')) for u, T, archs in units]
    for t in ths: t.start()
    C.build()

    def add(u, a, label, f, nv, cost, rep):
        t = vtask(C, u, a, label, f, domain=lambda: lin.QuadDomain(nv), loopmode='unroll', label=label, replay=nat.replayer(C, u, rep))
        t.cost = cost
        C.tasks.append(t)
    r = random.Random(C.seed)
    for u, T, archs in units:
        es, tol = ES[T], TOL[T]
        for a in archs:
            lens = (1, 2, 3, 4, 5, 8, 11) if q else (1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 16, 20)
            for n in lens:
                add(u, a, 'autocorrelate_%s_%d' % (T, n), lambda X, s, n=n, es=es, tol=tol: run_once(X, s, 'auto', n, 0, es, tol), n, n ** 3, native_once(T))
                for m in lens:
                    for kind in ('conv', 'corr'):
                        add(u, a, '%s_%s_%d_%d' % (kind, T, n, m), lambda X, s, n=n, m=m, kind=kind, es=es, tol=tol: run_once(X, s, kind, n, m, es, tol), n + m, (n + m) ** 3, native_once(T))
            for B in (1, 2, 4, 8):
                for m in sorted({1, 2, B, B + 1, 2 * B + 1, 3 * B}):
                    for mode in ('new', 'set', 'inplace'):
                        bl = splits(r, B, min(5 * B + 3, 24 if q else 40))
                        k = r.randrange(1, len(bl))
                        bl = bl[:k] + [('r',) if r.random() < .6 else ('s',)] + bl[k:]
                        n = sum(b for b in bl if isinstance(b, int))
                        add(u, a, 'stream_%s_B%d_m%d_%s' % (T, B, m, mode), lambda X, s, B=B, m=m, mode=mode, bl=bl, es=es, tol=tol: run_stream(X, s, m, B, bl, es, tol, mode), n + m, (n + m) ** 3, native_stream(T))
    for t in ths: t.join()
    for u, T, archs in units:
        C.tasks.append(nat.nattask(C, u, 'one_shot_%s' % T, native_once(T), 1e6))
        C.tasks.append(nat.nattask(C, u, 'streams_%s' % T, native_stream(T), 1e6))
    C.bounded += ['lengths, block sizes and block splits of the proved set: see contracts (each for every input and every impulse response); longer ones run on random data (bounded)']
    C.assumptions += ['floating-point arithmetic as exact reals on the coefficients; rounding error bounded only by the native runs', 'aligned_malloc returns fresh memory of the requested size', 'mutex operations succeed']
    C.run()


if __name__ == '__main__': main()
