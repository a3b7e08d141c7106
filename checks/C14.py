"""C14: delays and moving sums are exact streaming operators"""
from kvc.check import *
from kvc import sym, nat
from kvc.nat import Buf
from .C12 import gen_stream
LIM = 1 << 31
U64 = z3.BitVecSort(64)
NS = (1, 2, 4, 8, 16)


def is_sum(nm, dem): return ('::sum<' in dem or dem.startswith('sum<') or '3sumI' in nm) and 'moving' not in nm


def ms_task(C, arch, t, N):
    """one chunk of the moving sum, any length and cursor: the first output is the sum over the delay line holding the latest samples, each
    further one adds the new sample and takes away the one that leaves"""
    es = TY[t]
    n8 = 8 * es

    def body(X, s):
        L, cur = BV('L', 64), BV('cur', 64)
        s.pc += [z3.ULT(cur, L), z3.ULT(L, LIM)]
        dl = X.sym_array(s, 'dl', es, L)
        d0 = uf('dl', U64, z3.BitVecSort(n8))
        end = sym.ptradd(dl, 0, ((es, L),))
        nxt = lambda c: z3.If(c + 1 == L, BVV(0, 64), c + 1)
        words = [dl, end, end, cur, nxt(cur)]
        st = X.newobj(s, 40, (lambda off, k: words[off // 8]), 8, 'state')
        xs = [BV('x_%d' % k, n8) for k in range(N)]
        pin = X.newobj(s, N * es, (lambda off, k: xs[off // es]), es, 'in', True)
        pout = X.newobj(s, N * es, None, es, 'out')
        cs = [cur]
        for k in range(N): cs.append(nxt(cs[-1]))

        def content(i, p):
            r = d0(p)
            for j in range(i): r = z3.If(p == cs[j], xs[j], r)
            return r
        q = BV('q', 64)
        s.ghost['sum'] = 0

        def total(X, s, a, i):
            p = [x for x in a if isinstance(x, sym.Ptr)][-1]
            b, e = X.read_scalar(s, p, 8), X.read_scalar(s, sym.ptradd(p, 8), 8)
            if not isinstance(b, sym.Ptr) or b.obj != dl.obj: raise Unsupported('sum of something else')
            n = tobv(X.binop('sub', 64, e, b, ''), 64) if isinstance(e, sym.Ptr) else None
            X.obligate(s, z3.And(tobv(X.elem_index(s.mem[b.obj], b), 64) == 0, n == L * es), 'the sum covers the whole delay line')
            X.obligate(s, z3.Implies(z3.ULT(q, L), X.log_read(s.mem[dl.obj].log, q) == content(1, q)), 'the delay line holds the latest samples when it is summed')
            X.obligate(s, int(s.ghost['sum'] == 0), 'one summation per chunk')
            s.ghost['sum'] = 1
            return BV('S', n8)
        X.contracts = [(is_sum, total)]
        outs = X.call('ms_%s_%d' % (t, N), [st, pin, pout], s)
        op = lambda o, a, b: X.dom.op(o, n8, a, b)

        def isadd(y, a, b):     # addition commutes: either order of the operands
            f = uf('fadd%d' % n8, z3.BitVecSort(n8), z3.BitVecSort(n8), z3.BitVecSort(n8))
            return z3.Or(y == op('fadd', a, b), y == f(a, b), y == f(b, a))
        for o in outs:
            X.obligate(o, o.ghost['sum'], 'the delay line is summed')
            y = [tobv(X.rd(o.mem[pout.obj], k * es, es), n8) for k in range(N)]
            X.obligate(o, y[0] == BV('S', n8), 'postcondition: output 0 is the sum over the last L samples')
            for k in range(1, N):
                old = content(k, cs[k])
                X.obligate(o, z3.Or(isadd(y[k], y[k - 1], op('fsub', xs[k], old)), y[k] == op('fsub', op('fadd', y[k - 1], xs[k]), old), isadd(y[k], op('fsub', y[k - 1], old), xs[k])), 'postcondition: output %d adds the new sample and takes away the one that leaves' % k)
            X.obligate(o, z3.Implies(z3.ULT(q, L), X.log_read(o.mem[dl.obj].log, q) == content(N, q)), 'postcondition: delay line holds the latest samples')
            h, tl = (tobv(X.rd(o.mem[st.obj], w, 8), 64) for w in (24, 32))
            X.obligate(o, h == cs[N], 'postcondition: cursor advanced by the chunk')
            X.obligate(o, tl == nxt(h), 'invariant: the tail cursor is on the sample that leaves next')
        return len(outs)
    t_ = vtask(C, 'ms', arch, 'ms_%s_%d' % (t, N), body, timeout=30000, loopmode='unroll', replay=nat.replayer(C, 'dl', mstream_test))
    t_.cost = N
    return t_


def dstream_test(Ds):
    def go(lib, r):
        for D in Ds:
            for t, dt in (('f64', np.float64), ('i16', np.int16)):
                f = getattr(lib, 'dstream_%d_%s' % (D, t))
                for c in range(60):
                    bl, x, n = gen_stream(r, False, resets=False)
                    how = c % 4 if D > 1 else 0
                    bx, bo, bb = Buf(x, dt), Buf([0] * n, dt), Buf(bl, np.int64)
                    f(bx.p, bo.p, bb.p, ctypes.c_uint64(len(bl)), ctypes.c_int(how))
                    want = ([0] * D + x)[:n]
                    if list(bo.v) != want or not bo.guards() or not bx.unchanged():
                        return {'function': 'delay<%d> of %s' % (D, t), 'mode': ['one pass', 'referenced state', 'referenced dynamic state', 'in place'][how], 'blocks': bl, 'input': x, 'got': str(list(bo.v)), 'expected': want, 'guards intact': bo.guards()}
        return None
    return go


def mstream_test(lib, r):
    for t, dt in (('f64', np.float64), ('i32', np.int32)):
        f = getattr(lib, 'mstream_' + t)
        for c in range(400):
            L = r.choice((1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 100))
            bl, x, n = gen_stream(r, False, resets=False)
            how = c % 2
            bx, bo, bb = Buf(x, dt), Buf([0] * n, dt), Buf(bl, np.int64)
            f(ctypes.c_uint64(L), bx.p, bo.p, bb.p, ctypes.c_uint64(len(bl)), ctypes.c_int(how))
            want = [sum(x[max(0, i - L + 1):i + 1]) for i in range(n)]
            if list(bo.v) != want or not bo.guards() or not bx.unchanged():
                return {'function': 'moving_sum of %s' % t, 'length': L, 'mode': ['one pass', 'referenced state'][how], 'blocks': bl, 'input': x, 'got': str(list(bo.v)), 'expected': want, 'guards intact': bo.guards()}
    return None


def main():
    C = Check('C14')
    q = C.tier == 'quick'
    C.unit('ms', 'c14_delay.cpp', ['sse2'] if q else ['sse2', 'avx2'], ['-DSTEPPART'], irflags=ir.IRFLAGS + ['-fno-inline'])
    C.unit('dl', 'c14_delay.cpp', ['sse2', 'avx512'] if q else ['sse2', 'sse41', 'avx2', 'avx512'], ['-DLEAFPART'])
    nth = __import__('threading').Thread(target=C.native, args=('dl', 'sse2'))
    nth.start()
    C.build()
    for a in C.units['ms'][1]:
        for t in ('f32', 'f64'):
            for N in ((1, 2, 4) if q else (1, 2, 4, 8)): C.tasks.append(ms_task(C, a, t, N))
    Ds = {'f32': (1, 2, 3, 4, 5, 7, 8, 16, 17), 'f64': (1, 2, 3, 4, 5, 7, 8, 16, 17), 'u8': (5, 16), 'i16': (3,)}
    for t in Ds:
        for D in Ds[t]:
            for N in NS:
                for cur in range(D):
                    def spec(X, d, D=D, N=N):
                        h = list(d['seq']) + list(d['x'])
                        return {'seq': h[N:], 'o': h[:N]}
                    C.add(Leaf('dl', 'dl_%s_%d_%d' % (t, D, N), [InOut('seq', t, D), Const(cur), In('x', t, N), Out('o', t, N)], spec, tries=50))
    for t, Ls in (('f64', (1, 2, 3, 4, 5, 9)), ('f32', (3, 8)), ('i32', (1, 4, 5))):
        for L in Ls:
            for N in (1, 2, 4, 8):
                for cur in range(L):
                    def spec(X, d, L=L, N=N, t=t):
                        h = list(d['seq'][:L]) + list(d['x'])
                        if t == 'i32':
                            S = lambda v: simp(sum((tobv(y, 32) for y in v), BVV(0, 32)))
                            one = 1
                        else:
                            S = lambda v: sum(v, Poly.const(0))
                            one = Poly.const(1)
                        return {'seq': h[N:] + [one], 'o': [S(h[i + 1:i + 1 + L]) for i in range(N)]}
                    C.add(Leaf('dl', 'mf_%s_%d_%d' % (t, L, N), [InOut('seq', t, L + 1), Const(cur), In('x', t, N), Out('o', t, N)], spec, domain='real' if t[0] == 'f' else 'uf', tries=50))
    C.add(Leaf('dl', 'mk1_f64', [Out('o', 'i64', 4)], lambda X, d: {'o': [0, 0, 0, 1]}))
    nth.join()
    C.tasks.append(nat.nattask(C, 'dl', 'moving_sum_streams', mstream_test, 2))
    C.tasks.append(nat.nattask(C, 'dl', 'delay_streams', dstream_test((1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 33, 100)), 2))
    C.bounded += ['whole streams through delay() and moving_sum() in random blocks (bounded, not proved)', 'delay lengths 1-5, 7, 8, 16, 17 (every cursor position, every content): the length is a template parameter']
    C.assumptions += ['sum() adds every element once (contract discharged in C05)', 'delay line length at least 1, below 2^31', 'floating-point sums are treated as exact real arithmetic (fixed lengths) or as uninterpreted addition and subtraction (any length)']
    C.run()


if __name__ == '__main__': main()
