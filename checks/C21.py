"""C21: histograms count every sample exactly once"""
from kvc.check import *
from kvc import sym, nat
from kvc.nat import Buf
import math
INTS = ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64')
IBN = [(1, 1), (6, 2), (10, 1)]
FBN = [(1, 1), (6, 1), (6, 2), (10, 1)]
U64 = z3.BitVecSort(64)


def slot(X, t, v, bins):
    """position of a sample among below, bins, above (64 bit); bins may be symbolic.  Integers: the value is the bin number.  Floating point: the
    range is 0..1, a bin is nearest to its number over the number of bins, the last one takes what is left; NaN counts as below"""
    n = 8 * TY[t]
    v, B = tobv(v, n), tobv(bins, 64)
    if t[0] == 'f':
        d = X.dom
        b = d.from_int(False, 64, n, bins)
        l = d.from_int(False, 64, n, simp(B - 1))
        one = f2bits(1.0, n)
        x = d.op('fmul', n, v, b)
        x = z3.If(tobool(d.cmp('olt', n, tobv(x, n), tobv(l, n))), tobv(x, n), tobv(l, n))
        k = d.to_int(False, n, 64, d.round('round', n, x))
        ge = tobool(d.cmp('oge', n, v, 0))
        gt = tobool(d.cmp('ogt', n, v, one))
        return simp(z3.If(ge, z3.If(gt, B + 1, tobv(k, 64) + 1), BVV(0, 64)))
    w = z3.SignExt(64 - n, v) if t[0] == 'i' and n < 64 else z3.ZeroExt(64 - n, v) if n < 64 else v
    r = z3.If(z3.ULT(w, B), w + 1, B + 1)
    return simp(z3.If(v < 0, BVV(0, 64), r) if t[0] == 'i' else r)


def notie(t, B):
    """which of two equally near bins takes a sample is left open"""
    if t[0] != 'f': return None
    n = 8 * TY[t]

    def pre(X, d):
        D = X.dom
        out = []
        for v in d['v']:
            x = D.op('fmul', n, tobv(v, n), f2bits(float(B), n))
            y = D.op('fsub', n, x, D.round('floor', n, x))
            out.append(z3.Not(tobool(D.cmp('oeq', n, tobv(y, n), f2bits(0.5, n)))))
        return out
    return pre


def put_spec(t, B, N):
    def spec(X, d):
        h = list(d['h'])
        ks = [slot(X, t, x, B) for x in d['v']]
        out = [simp(tobv(h[j], 32) + sum((z3.If(tobv(k, 64) == j, BVV(1, 32), BVV(0, 32)) for k in ks), BVV(0, 32))) for j in range(B + 2)]
        return {'h': out, 't': [simp(tobv(d['t'][0], 64) + N)]}
    return spec


def dyn_task(C, arch, t, N):
    """one put into a histogram with any number of bins"""
    es, n8 = TY[t], 8 * TY[t]

    def body(X, s):
        B = BV('bins', 64)
        s.pc += [z3.ULT(B, 1 << 40), B != 0]
        a = X.sym_array(s, 'cnt', 4, simp(B + 2))
        c0 = uf('cnt', U64, z3.BitVecSort(32))
        end = sym.ptradd(a, 8, ((4, B),))
        tot = BV('tot', 64)
        words = [a, end, end, tot]
        h = X.newobj(s, 32, (lambda off, k: words[off // 8]), 8, 'hist')
        xs = [BV('v_%d' % k, n8) for k in range(N)]
        pin = X.newobj(s, N * es, (lambda off, k: xs[off // es]), es, 'in', True)
        ks = [slot(X, t, x, B) for x in xs]
        outs = X.call('hq_%s_%d' % (t, N), [h, pin], s)
        q = BV('q', 64)
        for o in outs:
            X.obligate(o, z3.Implies(z3.ULT(q, B + 2), tobv(X.log_read(o.mem[a.obj].log, q), 32) == c0(q) + sum((z3.If(k == q, BVV(1, 32), BVV(0, 32)) for k in ks), BVV(0, 32))), 'postcondition: each sample counted once, in its bin; every other count kept')
            X.obligate(o, tobv(X.rd(o.mem[h.obj], 24, 8), 64) == tot + N, 'postcondition: total counts every sample')
        for k in ks: X.obligate(s, z3.ULT(k, B + 2), 'lemma: every sample has a slot')
        return len(outs)
    return vtask(C, 'hist', arch, 'hq_%s_%d' % (t, N), body, timeout=60000, loopmode='unroll', replay=nat.replayer(C, 'hist', hist_test((t,))))


def pyslot(t, v, B):
    if t[0] != 'f': return 0 if v < 0 else min(int(v), B) + 1
    ft = np.float32 if t == 'f32' else np.float64
    if not v >= 0: return 0
    if v > 1: return B + 1
    x = min(ft(v) * ft(B), ft(B - 1))
    f = float(x) - math.floor(float(x))
    return 1 + int(math.floor(float(x))) + (1 if f > 0.5 else 0.5 if f == 0.5 else 0)


def hist_test(types):
    def go(lib, r):
        for t in types:
            n = TY[t]
            dt = {'u': 'uint%d', 'i': 'int%d', 'f': 'float%d'}[t[0]] % (8 * n)
            for c in range(120):
                m = r.choice((0, 1, 2, 5, 16, 17, 33, 200))
                mode = r.choice(('nd', 'nd', 'ns10', 'ns1', 'ns300', 'np', 'ne'))
                B = {'ns10': 10, 'ns1': 1, 'ns300': 300}.get(mode) or r.choice((1, 2, 3, 7, 10, 126, 127, 128, 200, 255, 256, 1000))
                if t[0] == 'f': x = [r.choice((r.uniform(-0.2, 1.2), r.uniform(0, 1), 0.0, -0.0, 1.0, r.randint(0, B) / B, (r.randint(0, B) + 0.5) / B, float('nan'), float('inf'), -float('inf'), 1e30, -1e30, 5e-324, -1e-40, float(np.nextafter(1, 2)))) for _ in range(m)]
                else:
                    i = np.iinfo(dt)
                    x = [min(max(r.choice((r.randint(-2, B + 2), int(i.min), int(i.max), int(i.max) - 1, 0, -1, 1, B, B - 1, r.randint(int(i.min), int(i.max)))), int(i.min)), int(i.max)) for _ in range(m)]
                bx = Buf(x, dt)
                o = Buf([0] * (B + 4), np.uint64)
                f = getattr(lib, '%s_%s' % (mode, t))
                if mode == 'ne':
                    y = Buf(x, dt)
                    y.v[:] = 7
                    f(bx.p, ctypes.c_uint64(m), ctypes.c_uint64(B), y.p, o.p)
                    if y.v.tobytes() != bx.v.tobytes() or not y.guards(): return {'function': 'histogram_expression of ' + t, 'input': str(x), 'passed on': str(list(y.v)), 'bins': B}
                    continue
                f(*([bx.p, ctypes.c_uint64(m)] + ([ctypes.c_uint64(B)] if mode in ('nd', 'np') else []) + [o.p]))
                want = [0] * (B + 2)
                got = [int(z) for z in o.v]
                ties = []
                for v in bx.v:
                    k = pyslot(t, v, B)
                    if k == int(k): want[int(k)] += 1
                    else: ties.append(int(k))
                for k in sorted(ties):      # equally near to two bins: either will do
                    k += want[k] >= got[k]
                    want[k] += 1
                if got != want + [m, B] or not o.guards() or not bx.unchanged():
                    return {'function': 'histogram of ' + t, 'mode': mode, 'bins': B, 'input': str([str(z) for z in x]), 'nonzero counts': {j: v for j, v in enumerate(got[:B + 2]) if v}, 'expected': {j: v for j, v in enumerate(want) if v}, 'total, size': got[B + 2:]}
        return None
    return go


def main():
    C = Check('C21')
    q = C.tier == 'quick'
    C.unit('hist', 'c21_hist.cpp', ['sse2', 'avx2'] if q else ['sse2', 'sse41', 'avx2', 'avx512'])
    nth = __import__('threading').Thread(target=C.native, args=('hist', 'sse2'))
    nth.start()
    C.build()
    for a in C.units['hist'][1]:
        for t in INTS:
            for N in ((1, 2, 4) if q else (1, 2, 4, 8)): C.tasks.append(dyn_task(C, a, t, N))
    for t in INTS + ('f32', 'f64'):
        for B, N in (IBN if t[0] != 'f' else FBN[:2] if t == 'f64' and q else FBN):
            C.add(Leaf('hist', 'hp_%s_%d_%d' % (t, B, N), [InOut('h', 'u32', B + 2), InOut('t', 'u64', 1), In('v', t, N)], put_spec(t, B, N), pre=notie(t, B), domain='ieee' if t[0] == 'f' else 'uf', timeout=60000, tries=300))
    for t in ('i32', 'u8', 'f32'):
        C.add(Leaf('hist', 'hs_' + t, [InOut('h', 'u32', 8), InOut('t', 'u64', 1), In('v', t, 1)], put_spec(t, 6, 1), pre=notie(t, 6), domain='ieee' if t[0] == 'f' else 'uf', timeout=60000, tries=300))
    C.add(Leaf('hist', 'hv_6', [In('h', 'u32', 8), In('t', 'u64', 1), Out('o', 'u32', 14), Out('o2', 'u64', 3)], lambda X, d: {'o': list(d['h']) + list(d['h'][1:7]), 'o2': [6, 6, d['t'][0]]}, tries=50))
    C.add(Leaf('hist', 'hn_6', [InOut('h', 'u32', 8), InOut('t', 'u64', 1)], lambda X, d: {'h': [0] * 8, 't': [0]}, tries=2))
    nth.join()
    C.tasks.append(nat.nattask(C, 'hist', 'streams', hist_test(INTS + ('f32', 'f64')), 2))
    C.bounded += ['whole streams through histogram() and histogram_expression(), up to 1000 bins (bounded, not proved)', 'floating-point samples: proved for 1, 2, 6, 10 and 20 bins']
    C.assumptions += ['number of bins below 2^40 and at least 1', 'counts do not overflow their 32-bit type']
    C.run()


if __name__ == '__main__': main()
