"""C13: biquad cascades implement the IIR recurrence however the input is blocked"""
from kvc.check import *
from kvc import sym, nat
from kvc.nat import Buf
P = Poly
Z = Poly.const(0)


def step(F, c, st, x):
    """contract of one sample: every section applies its recurrence (transposed form II registers) to the previous section's last output"""
    a1, a2, b0, b1, b2 = (c[k * F:(k + 1) * F] for k in range(5))
    s1, s2, out = (list(st[k * F:(k + 1) * F]) for k in range(3))
    i = [x] + out[:-1]
    o = [b0[k] * i[k] + s1[k] for k in range(F)]
    n1 = [s2[k] + b1[k] * i[k] - a1[k] * o[k] for k in range(F)]
    n2 = [b2[k] * i[k] - a2[k] * o[k] for k in range(F)]
    return n1 + n2 + o


def feed(F, c, st, xs, save=None):
    """-> outputs, state, state after `save` samples"""
    outs, sv = [], None
    for j, x in enumerate(xs):
        if j == save: sv = st
        st = step(F, c, st, x)
        outs.append(st[3 * F - 1])
    if save == len(xs): sv = st
    return outs, st, sv


def rndcoefs(F, r, n): return [f2bits(r.randrange(-7, 8) / 8.0, n) for _ in range(5 * F)]


def dontcare(v): return 1


def leafs(C, t, F):
    n = TY[t] * 8
    M = F - 1
    r = random.Random(F * 100 + n)
    small = {1: 4, 2: 2, 3: 2, 4: 1, 8: 1}[F]
    for N in (1, 2, 4, 8):
        pos = sorted({(p, e) for p in (0, 2) for e in (p + M - 1, p + M, p + M + 1, p + M + N - 1, p + M + N, p + M + N + 1, p + M + 2 * N) if e > p and (F > 1 or e >= p + N)})
        for sym_ in (True, False):
            if sym_ and N > small: continue
            if not sym_ and (N <= small or C.tier == 'quick' and N == 4 and F > 1): continue
            for p, e in pos:
                if C.tier == 'quick' and (p != (2 if e % 2 else 0)): continue
                def spec(X, d, p=p, e=e, N=N):
                    c = [X.dom.lift(v, n) for v in d['c']]
                    ins = [d['x'][p + M + j] if p + M + j < e else Z for j in range(N)]
                    sv = e - (p + M) if F > 1 and p + M < e <= p + M + N else None
                    o, st, saved = feed(F, c, d['st'], ins, sv)
                    return {'o': o, 'st': st, 'sv': saved if sv is not None else d['sv']}
                C.add(Leaf('iir', 'ch_%s_%d_%d' % (t, F, N), [In('c', t, 5 * F, init=None if sym_ else rndcoefs(F, r, n)), InOut('st', t, 3 * F), InOut('sv', t, 3 * F), In('x', t, e), Const(p), Const(e), Out('o', t, N)], spec, domain='real', tries=60, timeout=60000, tol=1e-3))
    for s0, e in {(0, 0), (0, 1), (0, M), (0, M + 1), (0, M + 3), (2, 2), (2, 3), (2, 2 + M), (2, 3 + M), (2, 1 + M), (5, 9 + M)}:
        if e < s0: continue
        small2 = M <= 1
        def spec(X, d, s0=s0, e=e):
            if F == 1: return {}
            c = [X.dom.lift(v, n) for v in d['c']]
            k = e - s0
            _, st, saved = feed(F, c, d['st'], [d['x'][s0 + j] if s0 + j < e else Z for j in range(M)], k if k <= M else None)
            return {'st': st, 'sv': saved if k <= M else [dontcare] * 3 * F}
        C.add(Leaf('iir', 'bp_%s_%d' % (t, F), [In('c', t, 5 * F, init=None if small2 else rndcoefs(F, r, n)), InOut('st', t, 3 * F), InOut('sv', t, 3 * F), In('x', t, e), Const(s0), Const(e)], spec, domain='real', tries=60, tol=1e-3))
        C.add(Leaf('iir', 'bpe_%s_%d' % (t, F), [Arg('ret', 'ret', 'i64'), In('c', t, 5 * F, init=rndcoefs(F, r, n)), InOut('st', t, 3 * F), InOut('sv', t, 3 * F), In('x', t, e), Const(s0), Const(e)], lambda X, d, e=e: {'ret': e, 'st': [dontcare] * 3 * F, 'sv': [dontcare] * 3 * F}, domain='real', tries=20))
    C.add(Leaf('iir', 'ep_%s_%d' % (t, F), [In('c', t, 5 * F), InOut('st', t, 3 * F), InOut('sv', t, 3 * F), In('x', t, 4), Const(4)], lambda X, d: {'st': d['sv'] if F > 1 else d['st']}, domain='real', tries=20))


def recurrence_task(C, t):
    """on the real chunk of one section: from the third output on, the direct recurrence over inputs and outputs, whatever the state"""
    def body(X, s):
        es = TY[t]
        cs, x = [P.var('c%d' % k) for k in range(5)], [P.var('x%d' % k) for k in range(4)]
        st = [P.var('s%d' % k) for k in range(3)]
        mk = lambda v, nm, ro=False: X.newobj(s, len(v) * es, (lambda off, k: v[off // es]), es, nm, ro)
        po = X.newobj(s, 4 * es, None, es, 'o')
        outs = X.call('ch_%s_1_4' % t, [mk(cs, 'c', True), mk(st, 'st'), mk([Z] * 3, 'sv'), mk(x, 'x', True), 0, 4, po], s)
        for o in outs:
            y = [X.rd(o.mem[po.obj], k * es, es) for k in range(4)]
            for k in (2, 3):
                X.obligate(o, int(y[k] == cs[2] * x[k] + cs[3] * x[k - 1] + cs[4] * x[k - 2] - cs[0] * y[k - 1] - cs[1] * y[k - 2]), 'direct recurrence at output %d' % k)
        # from zero state
        outs = X.call('ch_%s_1_4' % t, [mk(cs, 'c2', True), mk([Z] * 3, 'st2'), mk([Z] * 3, 'sv2'), mk(x, 'x2', True), 0, 4, po], s)
        for o in outs:
            y = [X.rd(o.mem[po.obj], k * es, es) for k in range(4)]
            X.obligate(o, int(y[0] == cs[2] * x[0]), 'direct recurrence from zero history at output 0')
            X.obligate(o, int(y[1] == cs[2] * x[1] + cs[3] * x[0] - cs[0] * y[0]), 'direct recurrence from zero history at output 1')
        return len(outs)
    return vtask(C, 'iir', 'sse2', 'recurrence_' + t, body, domain='real', loopmode='unroll', replay=nat.replayer(C, 'iir', stream_test('f64')))


def cascade(secs, x):
    for a1, a2, b0, b1, b2 in secs:
        y = []
        for n in range(len(x)):
            g = lambda v, k: v[n - k] if n >= k else 0.0
            y.append(b0 * x[n] + b1 * g(x, 1) + b2 * g(x, 2) - a1 * g(y, 1) - a2 * g(y, 2))
        x = y
    return x


def gen(r, ns, nmax=70, resets=True):
    secs = [[r.uniform(-.6, .6), r.uniform(-.4, .4)] + [r.uniform(-1, 1) for _ in range(3)] for _ in range(ns)]
    bl, n = [], 0
    mode = r.randrange(4)
    while n < nmax and len(bl) < 14:
        b = 1 if mode == 0 else r.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31)) if mode < 3 else r.randrange(1, nmax)
        if resets and r.random() < .1: bl.append(-1)
        bl.append(b)
        n += b
    return secs, bl, [r.uniform(-1, 1) for _ in range(n)], n


def run(f, t, secs, bl, x, how, dyn):
    dt = np.float64 if t == 'f64' else np.float32
    c = Buf([v for s in secs for v in s], dt)
    bx, bo, bb = Buf(x, dt), Buf([0] * len(x), dt), Buf(bl, np.int64)
    f(*([c.p] + ([ctypes.c_uint64(len(secs))] if dyn else []) + [bx.p, bo.p, bb.p, ctypes.c_uint64(len(bl)), ctypes.c_int(how)]))
    cs = [[float(v) for v in c.v[5 * k:5 * k + 5]] for k in range(len(secs))]
    return [float(v) for v in bo.v], [float(v) for v in bx.v], cs, bo.guards() and bx.unchanged()


def differs(got, want, t):
    sc = max([1e-2] + [abs(v) for v in want])
    tol = (1e-9 if t == 'f64' else 1e-3) * sc
    return next((i for i in range(len(want)) if not abs(got[i] - want[i]) <= tol), None)


def stream_test(t, cases=250):
    def go(lib, r):
        f = getattr(lib, 'stream_' + t)
        for _ in range(cases):
            ns = r.choice((1, 1, 2, 2, 3, 4, 5, 7, 8, 9))
            how = r.randrange(6)
            secs, bl, x, n = gen(r, ns, resets=how != 2)
            got, x, secs, ok = run(f, t, secs, bl, x, how, True)
            want, i, seg = [], 0, []
            for b in bl + [-1]:
                if b < 0:
                    want += cascade(secs, seg)
                    seg = []
                else:
                    seg += x[i:i + b]
                    i += b
            d = differs(got, want, t)
            if d is not None or not ok: return {'function': 'iir_filter<%s>' % t, 'mode': how, 'sections a1 a2 b0 b1 b2': secs, 'blocks (negative: reset)': bl, 'input': x, 'first difference': d, 'got': got, 'expected': want, 'guards intact': ok}
        return None
    return go


def fixed_test(t, cases=80):
    def go(lib, r):
        for F in (1, 2, 3, 4, 8):
            f = getattr(lib, 'fstream_%d_%s' % (F, t))
            for k in range(cases):
                how = k % 6
                secs, bl, x, n = gen(r, F, resets=False)
                got, x, secs, ok = run(f, t, secs, bl, x, how, False)
                want = cascade(secs, x)
                d = differs(got, want, t)
                if d is not None or not ok: return {'function': 'iir<%d, %s>' % (F, t), 'mode': ['referenced state', 'one pass', 'ranges of one expression', 'outside another filter', 'inside another filter', 'inside a cascade'][how], 'sections a1 a2 b0 b1 b2': secs, 'blocks': bl, 'input': x, 'first difference': d, 'got': got, 'expected': want, 'guards intact': ok}
        return None
    return go


def norm_test(lib, r):
    for _ in range(200):
        c = [float(r.choice((1, 2, 4, -2, 0.5)))] + [float(r.randrange(-9, 10)) for _ in range(2)] + [float(r.choice((1, 2, -4, .5)))] + [float(r.randrange(-9, 10)) for _ in range(2)]
        bc, bo = Buf(c, np.float64), Buf([0] * 18, np.float64)
        lib.norm_f64(bc.p, bo.p)
        a0, a1, a2, b0, b1, b2 = c
        n0 = [1, a1 / a0, a2 / a0, b0 / a0, b1 / a0, b2 / a0]
        want = n0 + [a0, a1, a2, 1, b1 / b0, b2 / b0] + n0[:3] + [1, b1 / b0, b2 / b0]
        if any(abs(g - w) > 1e-12 * max(1, abs(w)) for g, w in zip(bo.v, want)): return {'function': 'biquad_section normalization', 'input': c, 'got': list(bo.v), 'expected': want}
    return None


def main():
    C = Check('C13')
    C.unit('iir', 'c13_iir.cpp', ['sse2', 'avx2'] if C.tier == 'quick' else ['sse2', 'avx', 'avx2', 'avx512'])
    nth = __import__('threading').Thread(target=C.native, args=('iir', 'sse2'))
    nth.start()
    C.build()
    for F in (1, 2, 3, 4, 8): leafs(C, 'f64', F)
    for F in (1, 2, 4, 8): leafs(C, 'f32', F)
    for t in ('f64', 'f32'): C.tasks.append(recurrence_task(C, t))
    nth.join()
    for t in ('f64', 'f32'):
        C.tasks.append(nat.nattask(C, 'iir', 'stream_' + t, stream_test(t), 5))
        C.tasks.append(nat.nattask(C, 'iir', 'fixed_' + t, fixed_test(t), 5))
    C.tasks.append(nat.nattask(C, 'iir', 'normalize', norm_test, 1))
    C.bounded += ['whole streams through iir_filter and iir() in random blocks, with resets, in place, over ranges, nested: 250 to 400 streams per sample type (bounded, not proved)', 'chunks of more than 4 (1 section), 2 (2, 3 sections) or 1 samples: exact for every input and state but for sampled coefficients']
    C.assumptions += ['floating-point arithmetic of the filter is treated as exact real arithmetic', 'positions and pass lengths around every boundary of the look-ahead stand for all of them (the code compares them only with the chunk)', 'input and output blocks are the same or do not overlap']
    C.run()


if __name__ == '__main__': main()
