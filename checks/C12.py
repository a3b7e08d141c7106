"""C12: FIR filtering equals the convolution sum however the input is blocked"""
from kvc.check import *
from kvc import sym, nat
from kvc.nat import Buf
LIM = 1 << 31
NS, TCS = (1, 2, 4, 8, 16), (2, 3, 5, 9, 17, 33)
U64 = z3.BitVecSort(64)


def is_dot(nm, dem): return 'dotproduct' in nm or 'dotproduct' in dem


def step_task(C, arch, t, N):
    """one chunk of the FIR expression, any tap count and cursor: every output is the dot product of all taps with the samples they apply to
    (contract of dotproduct: discharged in C05), the delay line holds the latest samples, the cursor advances"""
    es = TY[t]
    n8 = 8 * es

    def body(X, s):
        T, cur = BV('T', 64), BV('cur', 64)
        s.pc += [z3.ULT(cur, T), z3.ULT(T, LIM)]
        taps, dl = X.sym_array(s, 'taps', es, T, True), X.sym_array(s, 'dl', es, T)
        d0 = uf('dl', U64, z3.BitVecSort(n8))
        end = lambda p: sym.ptradd(p, 0, ((es, T),))
        words = [taps, end(taps), end(taps), dl, end(dl), end(dl), cur]
        st = X.newobj(s, 56, (lambda off, k: words[off // 8]), 8, 'state')
        xs = [BV('x_%d' % k, n8) for k in range(N)]
        pin = X.newobj(s, N * es, (lambda off, k: xs[off // es]), es, 'in', True)
        pout = X.newobj(s, N * es, None, es, 'out')
        nxt = lambda c: z3.If(c + 1 == T, BVV(0, 64), c + 1)

        def content(s, i, p):
            cs = s.ghost['cs']
            """the delay line after i+1 samples"""
            r = d0(p)
            for j in range(i + 1): r = z3.If(p == cs[j], xs[j], r)
            return r
        s.ghost['done'], s.ghost['seg'], s.ghost['outs'], s.ghost['cs'] = 0, (), (), (cur, nxt(cur))

        def flush(s):
            seg = s.ghost['seg']
            if seg and X.valid(s, sum((l for _, l, _ in seg), BVV(0, 64)) == T):
                s.ghost['outs'] += (tuple(v for _, _, v in seg),)
                s.ghost['done'], s.ghost['seg'] = s.ghost['done'] + 1, ()
                # the path knows whether the cursor wrapped
                *h, p, c = s.ghost['cs']
                if X.valid(s, c == 0): c = BVV(0, 64)
                elif X.valid(s, c == p + 1): c = z3.simplify(p + 1)
                s.ghost['cs'] = (*h, p, c, nxt(c))

        def dot(X, s, a, i):
            flush(s)
            ptrs = [p for p in a if isinstance(p, sym.Ptr)]
            if len(ptrs) != 2: raise Unsupported('dotproduct arguments')
            fld = lambda p, o: X.read_scalar(s, sym.ptradd(p, o), 8)
            d = [(fld(p, 0), tobv(fld(p, 8), 64)) for p in ptrs]
            if not all(isinstance(x[0], sym.Ptr) for x in d): raise Unsupported('dotproduct operands')
            if d[0][0].obj == dl.obj: d = d[::-1]
            if d[0][0].obj != taps.obj or d[1][0].obj != dl.obj: raise Unsupported('dotproduct of other arrays')
            (pt, L), (pd, L2) = d
            k = s.ghost['done']
            if k >= N:
                X.record(False, 'one dot product per sample')
                return X.fresh(n8, 'extra')
            ts, ds = (tobv(X.elem_index(s.mem[p.obj], p), 64) for p in (pt, pd))
            c = s.ghost['cs'][k + 1]
            # with slices of equal length, or an unbounded one, the shorter counts
            Lm = z3.simplify(z3.If(z3.ULT(L, L2), L, L2))
            X.obligate(s, z3.And(z3.ULE(ts, T), z3.ULE(Lm, T - ts), z3.ULE(ds, T), z3.ULE(Lm, T - ds)), 'operands of the dot product stay inside taps and delay line')
            X.obligate(s, z3.Implies(Lm != 0, z3.And(z3.Implies(z3.ULT(ts, T - c), z3.And(ds == ts + c, z3.ULE(Lm, T - c - ts))), z3.Implies(z3.UGE(ts, T - c), ds == ts - (T - c)))), 'each tap meets the sample it applies to')
            q = BV('q', 64)
            X.obligate(s, z3.Implies(z3.And(z3.ULT(q, T)), X.log_read(s.mem[dl.obj].log, q) == content(s, k, q)), 'the delay line holds the latest samples when output %d is computed' % k)
            for (t2, l2, _) in s.ghost['seg']: X.obligate(s, z3.Or(Lm == 0, l2 == 0, z3.ULE(t2 + l2, ts), z3.ULE(ts + Lm, t2)), 'no tap is used twice')
            v = X.fresh(n8, 'dot')
            s.ghost['seg'] += ((ts, Lm, v),)
            return v
        X.contracts = [(is_dot, dot)]
        outs = X.call('step_%s_%d' % (t, N), [st, pin, pout], s)
        for o in outs:
            flush(o)
            X.obligate(o, int(o.ghost['done'] == N and not o.ghost['seg']), 'postcondition: every output uses all taps')
            if o.ghost['done'] != N: continue
            for k in range(N):
                vs = o.ghost['outs'][k]
                got = tobv(X.rd(o.mem[pout.obj], k * es, es), n8)
                want = [vs[0]] if len(vs) == 1 else [X.dom.op('fadd', n8, vs[0], vs[1]), X.dom.op('fadd', n8, vs[1], vs[0])]
                X.obligate(o, z3.Or([got == w for w in want]), 'postcondition: output %d is the sum over all taps' % k)
            q = BV('q', 64)
            X.obligate(o, z3.Implies(z3.ULT(q, T), X.log_read(o.mem[dl.obj].log, q) == content(o, N - 1, q)), 'postcondition: delay line holds the latest samples')
            X.obligate(o, tobv(X.rd(o.mem[st.obj], 48, 8), 64) == o.ghost['cs'][N], 'postcondition: cursor advanced by the chunk')
            for w in range(6): X.obligate(o, int(repr(X.rd(o.mem[st.obj], 8 * w, 8)) == repr(words[w])), 'frame: taps and delay line stay in place')
        return len(outs)
    return vtask(C, 'fir', arch, 'step_%s_%d' % (t, N), body, timeout=30000, loopmode='unroll', replay=nat.replayer(C, 'firb', stream_test(('f64_f64', 'f32_f32'))))


def hist_conv(h, x, n): return [sum(h[k] * x[i - k] for k in range(len(h)) if 0 <= i - k) for i in range(n)]


FMT_ = {'f32': np.float32, 'f64': np.float64, 'c32': np.complex64, 'c64': np.complex128}


def gen_stream(r, cx, nmax=70, resets=True):
    """blocks (negative: reset) and the samples; integers, so that the sums are exact"""
    bl = []
    n = 0
    mode = r.randrange(4)
    while n < nmax and len(bl) < 14:
        b = 1 if mode == 0 else r.choice((0, 1, 2, 3, 4, 5, 7, 8, 9, 13, 16, 17, 31)) if mode < 3 else r.randrange(1, nmax)
        if resets and r.random() < .12: bl.append(-1)
        bl.append(b)
        n += b
    v = lambda: r.randrange(-50, 51)
    return bl, [complex(v(), v()) if cx else v() for _ in range(n)], n


def expect(h, bl, x):
    out, i, seg = [], 0, []
    for b in bl:
        if b < 0:
            out += hist_conv(h, seg, len(seg))
            seg = []
            continue
        seg += x[i:i + b]
        i += b
    return out + hist_conv(h, seg, len(seg))


def run_stream(f, T, U, h, bl, x, how=None, fixed=False):
    n = len(x)
    bh, bx, bo, bb = Buf(h, FMT_[T]), Buf(x, FMT_[U]), Buf([0] * n, FMT_[U]), Buf(bl, np.int64)
    a = [bh.p] + ([] if fixed else [ctypes.c_uint64(len(h))]) + [bx.p, bo.p, bb.p, ctypes.c_uint64(len(bl)), ctypes.c_int(how or 0)]
    f(*a)
    return list(bo.v), bo.guards() and bx.unchanged() and bh.unchanged()


def stream_test(kinds, cases=250):
    def go(lib, r):
        for k in kinds:
            T, U = k.split('_')
            f = getattr(lib, 'stream_' + k)
            for c in range(cases):
                h = [r.randrange(-9, 10) or 1 for _ in range(r.choice((1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 40)))]
                bl, x, n = gen_stream(r, U[0] == 'c')
                how = r.choice((0, 1, 2, 3, 4, 5) if T == U else (0, 1, 2, 3, 4))
                if how == 5: bl = [b for b in bl if b >= 0]
                got, ok = run_stream(f, T, U, h, bl, x, how)
                want = expect(h, bl, x)
                if not ok or got != want:
                    return {'function': 'fir_filter<%s, %s>' % (T, U) if how in (0, 1, 3, 4) else 'fir(expression, state)', 'mode': how, 'taps': h, 'blocks (negative: reset)': bl, 'input': x, 'got': str(got), 'expected': str(want), 'first difference': next((i for i in range(n) if got[i] != want[i]), None), 'guards intact': ok}
        return None
    return go


def short_test(cases=60):
    def go(lib, r):
        for K in (2, 3, 4, 5, 6, 7, 9, 16, 17, 32):
            for U in ('f64', 'f32', 'c32'):
                f = getattr(lib, 'sstream_%d_%s' % (K, U))
                for c in range(cases):
                    h = [r.randrange(-9, 10) for _ in range(K)]
                    how = r.randrange(2)
                    bl, x, n = gen_stream(r, U[0] == 'c', resets=not how)
                    got, ok = run_stream(f, 'f32' if U == 'c32' else U, U, h, bl, x, how, True)
                    want = expect(h, bl, x)
                    if not ok or got != want:
                        return {'function': 'short_fir<%d, %s>' % (K, U), 'mode': how, 'taps': h, 'blocks': bl, 'input': x, 'got': str(got), 'expected': str(want), 'guards intact': ok}
        return None
    return go


def fracd_test(lib, r):
    for c in range(200):
        d = r.choice((0.0, 0.25, 0.5, 0.75, 1.0, -0.5))
        x = [float(r.randrange(-64, 65)) for _ in range(r.randrange(0, 40))]
        bx, bo = Buf(x, np.float64), Buf([0] * len(x), np.float64)
        lib.fracd_f64(ctypes.c_double(d), bx.p, bo.p, ctypes.c_uint64(len(x)))
        dd = max(d, 0.0)
        want = [(1 - dd) * x[i] + dd * (x[i - 1] if i else 0.0) for i in range(len(x))]
        if list(bo.v) != want or not bo.guards(): return {'function': 'fracdelay', 'delay': d, 'input': x, 'got': list(bo.v), 'expected': want}
    return None


def main():
    C = Check('C12')
    archs = ['sse2', 'avx512'] if C.tier == 'quick' else ['sse2', 'sse41', 'avx2', 'avx512']
    C.unit('fir', 'c12_fir.cpp', ['sse2'] if C.tier == 'quick' else ['sse2', 'avx2'], ['-DSTEPPART'], irflags=ir.IRFLAGS + ['-fno-inline'])
    C.unit('firb', 'c12_fir.cpp', archs, ['-DLEAFPART'])
    C.build()
    for a in C.units['fir'][1]:
        for t in ('f32', 'f64'):
            for N in ((1, 2) if C.tier == 'quick' else (1, 2, 4)): C.tasks.append(step_task(C, a, t, N))
    for t in ('f32', 'f64'):
        for TC in TCS:
            for N in NS:
                def spec(X, d, TC=TC, N=N):
                    h = d['dl'] + d['x']
                    return {'o': [sum((d['taps'][k] * h[TC - 1 + i - k] for k in range(TC)), Poly.const(0)) for i in range(N)], 'dl': h[N:]}
                C.add(Leaf('firb', 'sstep_%s_%d_%d' % (t, TC, N), [In('taps', t, TC), InOut('dl', t, TC - 1), In('x', t, N), Out('o', t, N)], spec, domain='real', tries=200))
    for t, K in [('f64', k) for k in (2, 3, 4, 5, 6, 7, 11, 16)] + [('f32', 4), ('f32', 7)]:
        I = (1 << (K - 2).bit_length()) + 1
        def spec(X, d, K=K, I=I): return {'o': d['taps'] + [0] * (I - K) + [0] * (I - 1)}
        C.add(Leaf('firb', 'smake_%s_%d' % (t, K), [In('taps', t, K), Out('o', t, 2 * I - 1)], spec))
    nas = ['sse2'] + [a for a in ('avx512',) if a in ir.native_archs()][:1]
    with_threads = [__import__('threading').Thread(target=C.native, args=('firb', a)) for a in nas]
    for t in with_threads: t.start()
    for t in with_threads: t.join()
    for a in nas:
        for k in ('f64_f64', 'f32_f32', 'f32_f64', 'f64_f32', 'f32_c32', 'f64_c64'): C.tasks.append(nat.nattask(C, 'firb', 'stream_' + k, stream_test((k,)), 5, a))
        C.tasks.append(nat.nattask(C, 'firb', 'short', short_test(), 5, a))
        C.tasks.append(nat.nattask(C, 'firb', 'fracdelay', fracd_test, 5, a))
    C.bounded += ['fir_filter, fir() and short_fir() over whole streams cut into random blocks, with resets, in place and not, 250 streams per sample type and instruction set, integer data (bounded, not proved)']
    C.assumptions += ['the dot product of two equally long slices is the sum of the products of corresponding elements (contract discharged in C05)', 'at least one tap, fewer than 2^31', 'floating-point sums are treated as exact real arithmetic (short_fir) or as an uninterpreted addition of the partial sums (fir)', 'input and output do not overlap the state']
    C.run()


if __name__ == '__main__': main()
