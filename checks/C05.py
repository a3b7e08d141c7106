"""C05: reductions combine every element exactly once"""
from kvc.check import *
from kvc import lattice
import os, math, random, ctypes

HEAD = '#include <kfr/base.hpp>\nusing namespace kfr;\n'
INTS = ['i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64']
FL = ['f32', 'f64']
HN = {1: (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32), 2: (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32), 4: (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 31, 32), 8: (1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 32)}
REDS = {  # name -> (reduce function, transform, final)
    'sum': ('fn::add', 'fn_generic::pass_through', 'fn_generic::pass_through'), 'mean': ('fn::add', 'fn_generic::pass_through', 'fn::final_mean'),
    'sumsqr': ('fn::add', 'fn::sqr', 'fn_generic::pass_through'), 'rms': ('fn::add', 'fn::sqr', 'fn::final_rootmean'),
    'product': ('fn::mul', 'fn_generic::pass_through', 'fn_generic::pass_through'),
    'minof': ('fn::min', 'fn_generic::pass_through', 'fn_generic::pass_through'), 'maxof': ('fn::max', 'fn_generic::pass_through', 'fn_generic::pass_through'),
    'absminof': ('fn::absmin', 'fn_generic::pass_through', 'fn_generic::pass_through'), 'absmaxof': ('fn::absmax', 'fn_generic::pass_through', 'fn_generic::pass_through')}
ORD = ('minof', 'maxof', 'absminof', 'absmaxof')
WHOLE = '''
extern "C" void w_{f}_{t}({t}* o, const {t}* a, size_t n) {{ univector<{t}, 0> v(const_cast<{t}*>(a), n); o[0] = {f}(v); }}
extern "C" void w2_{f}_{t}({t}* o, const {t}* a, size_t n, size_t m) {{ tensor<{t}, 2> v(shape<2>{{ n, m }}); for (size_t i = 0; i < n * m; i++) v(i / m, i % m) = a[i]; o[0] = {f}(v); }}
'''


def gen(ty, archs):
    L = [HEAD]
    T = []
    w = TY[ty]
    fl = ty[0] == 'f'
    for N in HN[w]:
        ops = {'hadd': 1, 'hsum': 1, 'hmul': 1, 'hproduct': 1, 'hmin': 1, 'hmax': 1, 'havg': 1}
        if not fl: ops.update(hbitwiseand=1, hbitwiseor=1, hbitwisexor=1)
        else: ops.update(hrms=1)
        for op in ops:
            L.append('extern "C" void %s_%s_%d(%s* o, const %s* a) { o[0] = %s(read<%d>(a)); }' % (op, ty, N, ty, ty, op, N))
            T.append((op, N))
        L.append('extern "C" void hdot_%s_%d(%s* o, const %s* a, const %s* b) { o[0] = hdot(read<%d>(a), read<%d>(b)); }' % (ty, N, ty, ty, ty, N, N))
        T.append(('hdot', N))
    steps = []
    if ty in ('f32', 'f64', 'i32', 'u8', 'i64'):
        L.append('template <typename R> struct open_ : R { using R::R; using R::value; using R::counter; };')
        for r, (rf, tf, ff) in REDS.items():
            if not fl and r in ('rms',): continue
            if ty == 'u8' and r not in ('sum', 'minof', 'maxof'): continue
            L.append('using R_%s = open_<expression_reduce<%s, 1, %s, %s, %s, %s, %s>>;' % (r, ty, ty, ty, rf, tf, ff))
            L.append('extern "C" size_t width_%s() { return R_%s::width; }' % (r, r))
            L.append('extern "C" void init_%s(%s* st, size_t* c) { R_%s e(%s{}, %s{}, %s{}); write(st, e.value); *c = e.counter; }' % (r, ty, r, rf, tf, ff))
            L.append('extern "C" void get_%s(%s* o, const %s* st, const size_t* c) { R_%s e(%s{}, %s{}, %s{}); e.value = read<R_%s::width>(st); e.counter = *c; o[0] = e.get(); }' % (r, ty, ty, r, rf, tf, ff, r))
            N = 1
            while N <= 64 // w * 4:
                L.append('extern "C" void step_%s_%d(%s* st, size_t* c, const %s* x) { R_%s e(%s{}, %s{}, %s{}); e.value = read<R_%s::width>(st); e.counter = *c; set_elements(e, shape<1>{ 0 }, axis_params<0, %d>{}, read<%d>(x)); write(st, e.value); *c = e.counter; }' % (r, N, ty, ty, r, rf, tf, ff, r, N, N))
                steps.append((r, N))
                N *= 2
    L.append('#ifdef KVC_NATIVE')
    for r in REDS:
        if not fl and r in ('rms',): continue
        L.append(WHOLE.format(f=r, t=ty))
    L.append('extern "C" void w_dotproduct_%s(%s* o, const %s* a, const %s* b, size_t n) { univector<%s, 0> v(const_cast<%s*>(a), n), u(const_cast<%s*>(b), n); o[0] = dotproduct(v, u); }' % ((ty,) * 7))
    L.append('#endif')
    p = os.path.join(ir.workdir(), 'c05_%s.cpp' % ty)
    with open(p, 'w') as f: f.write('\n'.join(L) + '\n')
    return p, T, steps


def addm(X, n, xs, fl):
    r = xs[0]
    for x in xs[1:]: r = X.dom.op('fadd', n, r, x) if fl else X.binop('add', n, r, x, '')
    return r


def mulm(X, n, xs, fl):
    r = xs[0]
    for x in xs[1:]: r = X.dom.op('fmul', n, r, x) if fl else X.binop('mul', n, r, x, '')
    return r


def cf(v, n): return f2bits(float(v), n)


def hspec(op, ty, N):
    n = TY[ty] * 8
    fl = ty[0] == 'f'

    def spec(X, d):
        a = d['a']
        if op in ('hadd', 'hsum', 'havg'): r = addm(X, n, a, fl)
        elif op in ('hmul', 'hproduct'): r = mulm(X, n, a, fl)
        elif op == 'hdot': r = addm(X, n, [mulm(X, n, [x, y], fl) for x, y in zip(a, d['b'])], fl)
        elif op == 'hrms': r = addm(X, n, [mulm(X, n, [x, x], fl) for x in a], fl)
        else:
            r = a[0]
            for x in a[1:]: r = X.binop({'hbitwiseand': 'and', 'hbitwiseor': 'or', 'hbitwisexor': 'xor'}[op], n, r, x, '')
        if op in ('havg', 'hrms'): r = X.dom.op('fdiv', n, r, cf(N, n)) if fl else X.binop('sdiv' if ty[0] == 'i' else 'udiv', n, r, N & mask(n), '')
        if op == 'hrms': r = X.dom.op('sqrt', n, r)
        return {'o': [r]}
    return spec


def pyfold(op, ty, a, b=None):
    """reference fold on concrete values (floats: exact rationals of small integers)"""
    n = TY[ty] * 8
    fl = ty[0] == 'f'
    V = lambda x: float(bits2f(x, n)) if fl else sgn(x, n) if ty[0] == 'i' else x
    a = [V(x) for x in a]
    m = {'sum': 'hadd', 'hsum': 'hadd', 'product': 'hmul', 'hproduct': 'hmul', 'minof': 'hmin', 'maxof': 'hmax', 'mean': 'havg', 'rms': 'hrms', 'dotproduct': 'hdot'}.get(op, op)
    L = len(a)
    if m == 'hdot': r = sum(x * V(y) for x, y in zip(a, b))
    elif m in ('hadd', 'havg'): r = sum(a)
    elif m == 'sumsqr' or m == 'hrms': r = sum(x * x for x in a)
    elif m == 'hmul': r = math.prod(a)
    elif m == 'hmin': r = min(a)
    elif m == 'hmax': r = max(a)
    elif m == 'absminof': r = min(abs(x) for x in a)
    elif m == 'absmaxof': r = max(abs(x) for x in a)
    else:
        r = a[0]
        for x in a[1:]: r = r & x if m == 'hbitwiseand' else r | x if m == 'hbitwiseor' else r ^ x
    if fl:
        if m in ('havg', 'hrms'): r = r / L
        return math.sqrt(r) if m == 'hrms' else r
    r &= mask(n)
    if m == 'havg':
        s = sgn(r, n) if ty[0] == 'i' else r
        d = sgn(L & mask(n), n) if ty[0] == 'i' else L & mask(n)
        r = (abs(s) // abs(d) * (1 if (s < 0) == (d < 0) else -1)) & mask(n)
    return r


def replayer(C, unit, arch, ty, op, N=None):
    """concrete search: random vectors on the compiled code"""
    n = TY[ty] * 8

    def replay(st):
        fl = ty[0] == 'f'
        lib = ctypes.CDLL(C.native(unit, arch))
        CT = {'i8': ctypes.c_uint8, 'u8': ctypes.c_uint8, 'i16': ctypes.c_uint16, 'u16': ctypes.c_uint16, 'i32': ctypes.c_uint32, 'u32': ctypes.c_uint32, 'i64': ctypes.c_uint64, 'u64': ctypes.c_uint64, 'f32': ctypes.c_uint32, 'f64': ctypes.c_uint64}[ty]
        r = random.Random(3)
        mulop = op in ('hmul', 'hproduct', 'product')

        def val():
            if fl: return f2bits(float(r.choice((1, -1, 2, -2, 1, 1)) if mulop and r.random() < .9 else r.randrange(-9, 10)), n)
            return gen_value(ty, r, 'uf') if op in ('hadd', 'sum', 'hmul', 'product', 'hmin', 'hmax', 'minof', 'maxof') or op.startswith('hb') else r.randrange(-20, 20) & mask(n) if ty[0] == 'i' else r.randrange(40)
        for t in range(3000):
            if N: L = N
            else: L = r.choice((0, 1, 2, 3, r.randrange(1, 20), r.randrange(1, 200)))
            if L == 0 and op in ('mean', 'rms'): continue
            if not fl and (op in ('mean', 'havg')) and L > mask(n - 1): continue
            a = [val() for _ in range(L)]
            b = [val() for _ in range(L)]
            if L == 0 and op not in ('sum', 'sumsqr', 'product', 'dotproduct'): continue
            if mulop and fl and L > 100: continue
            out = (CT * 1)()
            A, B = (CT * max(1, L))(*a), (CT * max(1, L))(*b)
            if N: getattr(lib, '%s_%s_%d' % (op, ty, N))(out, A, *([B] if op == 'hdot' else []))
            else:
                if op == 'dotproduct': lib['w_dotproduct_%s' % ty](out, A, B, ctypes.c_size_t(L))
                elif r.random() < 0.3 and L and L % 3 == 0: lib['w2_%s_%s' % (op, ty)](out, A, ctypes.c_size_t(3), ctypes.c_size_t(L // 3))
                else: lib['w_%s_%s' % (op, ty)](out, A, ctypes.c_size_t(L))
            e = pyfold(op, ty, a, b)
            g = float(bits2f(out[0], n)) if fl else out[0]
            ok = abs(g - e) <= 1e-4 * max(1.0, abs(e)) if fl else g == e & mask(n)
            if not ok: return {'fn': op, 'type': ty, 'arch': arch, 'length': L, 'input': a, 'input2': b if op in ('hdot', 'dotproduct') else None, 'got': g, 'expected': e}
        return None
    return replay


def leaves(L, k, kind, memo):
    """set of atoms below a node, or None if the node is not a pure min (max) of plain (or absolute) atoms"""
    nd = L.nodes[k]
    if nd[0] == 'v': return {(k, False)}
    if nd[0] == 'abs':
        s = leaves(L, nd[1], kind, memo)
        return s and {(a, True) for a, _ in s}
    if nd[0] != kind: return None
    if k not in memo:
        a, b = leaves(L, nd[1], kind, memo), leaves(L, nd[2], kind, memo)
        memo[k] = None if a is None or b is None else a | b
    return memo[k]


def ord_body(fn, ty, N, kind, absv, nst):
    """horizontal (nst=0) or one accumulation step (nst = accumulator lanes)"""
    n = TY[ty] * 8

    def body(X, s):
        x = [BV('x%d' % k, n) for k in range(N)]
        v = [BV('s%d' % k, n) for k in range(nst)]
        order = 'f' if ty[0] == 'f' else 's' if ty[0] == 'i' else 'u'
        AB = lattice.Abstraction(X, x + v, order, n, absnodes=absv)
        mk = lambda vals, nm, es: X.newobj(s, es * len(vals), lambda off, k: vals[off // es], es, nm)
        L = AB.L
        if nst:
            st, c, xo = mk(v, 'st', TY[ty]), mk([BV('cnt', 64)], 'c', 8), mk(x, 'x', TY[ty])
            outs = X.call(fn, [st, c, xo], s)
        else:
            st, xo = X.newobj(s, TY[ty], None, TY[ty], 'o'), mk(x, 'x', TY[ty])
            outs = X.call(fn, [st, xo], s)
        if len(outs) != 1: raise Unsupported('data-dependent control flow')
        so = outs[0]
        got, bad = set(), None
        for k in range(max(nst, 1)):
            a = AB.deep(X.rd(so.mem[st.obj], k * TY[ty], TY[ty]))
            nd = AB.node.get(a.get_id()) if is_bv(a) else None
            lv = leaves(L, nd, kind, {}) if nd is not None else None
            X.record(lv is not None, '%s lane %d is a %s of input elements' % (fn, k, kind), 'got %s' % str(a)[:200], 'undecided')
            if lv is None: return 1
            got |= lv
        for i, e in enumerate(x + v):
            k = AB.node[e.get_id()]
            need = (k, absv)
            X.record(need in got or (absv and i >= N and (k, False) in got), '%s: element %d takes part' % (fn, i))
        X.record(all(f == absv or (absv and a >= N) for a, f in got), '%s: %s values' % (fn, 'absolute' if absv else 'plain'))
        if nst: X.obligate(so, tobv(X.rd(so.mem[c.obj], 0, 8), 64) == BV('cnt', 64) + N, 'element count')
        return 1
    return body


def step_body(fn, r, ty, N, W):
    n = TY[ty] * 8
    fl = ty[0] == 'f'

    def body(X, s):
        x = [BV('x%d' % k, n) for k in range(N)]
        v = [BV('s%d' % k, n) for k in range(W)]
        mk = lambda vals, nm, es: X.newobj(s, es * len(vals), lambda off, k: vals[off // es], es, nm)
        st, c, xo = mk(v, 'st', TY[ty]), mk([BV('cnt', 64)], 'c', 8), mk(x, 'x', TY[ty])
        outs = X.call(fn, [st, c, xo], s)
        if len(outs) != 1: raise Unsupported('data-dependent control flow')
        so = outs[0]
        v2 = [X.rd(so.mem[st.obj], k * TY[ty], TY[ty]) for k in range(W)]
        fold = mulm if r == 'product' else addm
        tx = [mulm(X, n, [e, e], fl) for e in x] if r in ('rms', 'sumsqr') else x
        X.obligate(so, feq(X, 'bits', ty, fold(X, n, v2, fl), fold(X, n, v + tx, fl)), 'the accumulator gains exactly the new elements')
        X.obligate(so, tobv(X.rd(so.mem[c.obj], 0, 8), 64) == BV('cnt', 64) + N, 'element count')
        return 1
    return body


def get_body(fn, r, ty, W):
    n = TY[ty] * 8
    fl = ty[0] == 'f'

    def body(X, s):
        v = [BV('s%d' % k, n) for k in range(W)]
        cnt = 12
        mk = lambda vals, nm, es: X.newobj(s, es * len(vals), lambda off, k: vals[off // es], es, nm)
        o, st, c = X.newobj(s, TY[ty], None, TY[ty], 'o'), mk(v, 'st', TY[ty]), mk([cnt], 'c', 8)
        if r in ORD:
            kind = 'min' if 'min' in r else 'max'
            AB = lattice.Abstraction(X, v, 'f' if fl else 's' if ty[0] == 'i' else 'u', n, absnodes='abs' in r)
        outs = X.call(fn, [o, st, c], s)
        if len(outs) != 1: raise Unsupported('data-dependent control flow')
        a = X.rd(outs[0].mem[o.obj], 0, TY[ty])
        if r in ORD:
            a = AB.deep(a)
            nd = AB.node.get(a.get_id()) if is_bv(a) else None
            lv = leaves(AB.L, nd, kind, {}) if nd is not None else None
            X.record(lv is not None and len({q for q, _ in lv}) == W, 'result is the %s of all accumulator lanes' % kind, str(a)[:200], 'undecided' if lv is None else 'refuted')
            return 1
        f = (mulm if r == 'product' else addm)(X, n, v, fl)
        if r in ('mean', 'rms'): f = X.dom.op('fdiv', n, f, cf(cnt, n)) if fl else X.binop('sdiv' if ty[0] == 'i' else 'udiv', n, f, cnt, '')
        if r == 'rms': f = X.dom.op('sqrt', n, f)
        X.obligate(outs[0], feq(X, 'bits', ty, a, f), 'result is the fold of all accumulator lanes')
        return 1
    return body


def init_body(fn, r, ty, W):
    n = TY[ty] * 8
    inf = f2bits(float('inf'), n) if ty[0] == 'f' else None
    ninf = f2bits(float('-inf'), n) if ty[0] == 'f' else None
    ident = {'product': f2bits(1.0, n) if ty[0] == 'f' else 1, 'minof': inf if inf else mask(n - 1) if ty[0] == 'i' else mask(n), 'maxof': ninf if ninf else 1 << (n - 1) if ty[0] == 'i' else 0,
             'absminof': inf if inf else mask(n - 1) if ty[0] == 'i' else mask(n), 'absmaxof': 0}.get(r, 0)

    def body(X, s):
        st, c = X.newobj(s, TY[ty] * W, None, TY[ty], 'st'), X.newobj(s, 8, None, 8, 'c')
        outs = X.call(fn, [st, c], s)
        for so in outs:
            for k in range(W): X.record(X.rd(so.mem[st.obj], k * TY[ty], TY[ty]) == ident, 'accumulator lane %d starts at the identity' % k)
            X.record(X.rd(so.mem[c.obj], 0, 8) == 0, 'element count starts at zero')
        return len(outs)
    return body


def main():
    C = Check('C05')
    archs = ['sse2', 'sse41', 'avx', 'avx2', 'avx512'] if C.tier == 'thorough' else ['sse2', 'avx2', 'avx512']
    table = {}
    for ty in INTS + FL:
        p, T, steps = gen(ty, archs)
        table[ty] = (T, steps)
        C.unit(ty, p, archs)
    C.build()
    for ty, (T, steps) in table.items():
        fl = ty[0] == 'f'
        dom = 'real' if fl else 'uf'
        for a in archs:
            for op, N in T:
                fn = '%s_%s_%d' % (op, ty, N)
                rep = replayer(C, ty, a, ty, op, N)
                if op in ('hmin', 'hmax'): C.tasks.append(vtask(C, ty, a, fn, ord_body(fn, ty, N, op[1:], False, 0), loopmode='unroll', replay=rep))
                else:
                    def body(X, s, op=op, N=N, fn=fn, ty=ty):
                        n = TY[ty] * 8
                        d = {'a': [BV('a%d' % k, n) for k in range(N)], 'b': [BV('b%d' % k, n) for k in range(N)]}
                        mk = lambda vals, nm: X.newobj(s, TY[ty] * len(vals), lambda off, k: vals[off // TY[ty]], TY[ty], nm)
                        o = X.newobj(s, TY[ty], None, TY[ty], 'o')
                        outs = X.call(fn, [o, mk(d['a'], 'a')] + ([mk(d['b'], 'b')] if op == 'hdot' else []), s)
                        e = hspec(op, ty, N)(X, d)['o'][0]
                        for so in outs: X.obligate(so, feq(X, 'bits', ty, X.rd(so.mem[o.obj], 0, TY[ty]), e), 'postcondition of %s' % fn)
                        return len(outs)
                    C.tasks.append(vtask(C, ty, a, fn, body, domain=dom, loopmode='unroll', replay=rep, contracts=SQRT))
            if not steps: continue
            done = set()
            m = C.mods[(ty, a)]
            vb = 8 * {'sse2': 16, 'sse41': 16, 'avx': 32, 'avx2': 32, 'avx512': 64}[a]
            for r, N in steps:
                W = width_of(C, ty, a, r)
                rep = replayer(C, ty, a, ty, r)
                fn = 'step_%s_%d' % (r, N)
                if r in ORD: C.tasks.append(vtask(C, ty, a, fn, ord_body(fn, ty, N, 'min' if 'min' in r else 'max', 'abs' in r, W), loopmode='unroll', label='%s_%s' % (fn, ty), replay=rep))
                else: C.tasks.append(vtask(C, ty, a, fn, step_body(fn, r, ty, N, W), domain=dom, loopmode='unroll', label='%s_%s' % (fn, ty), replay=rep))
                if r in done: continue
                done.add(r)
                C.tasks.append(vtask(C, ty, a, 'get_' + r, get_body('get_' + r, r, ty, W), domain='uf' if r in ORD else dom, contracts=SQRT, loopmode='unroll', label='get_%s_%s' % (r, ty), replay=rep))
                C.tasks.append(vtask(C, ty, a, 'init_' + r, init_body('init_' + r, r, ty, W), domain=dom, loopmode='unroll', label='init_%s_%s' % (r, ty), replay=rep))
    C.assumptions += ['floating-point sums and products are compared as exact real polynomials (reassociation rounding ignored)', 'no NaN elements for min/max',
                      'coverage of every element of an expression by the evaluation steps is the contract of process() (C07)']
    C.run()


SQRT = [('sqrtf', lambda X, s, a, i: X.dom.op('sqrt', 32, a[0])), ('sqrt', lambda X, s, a, i: X.dom.op('sqrt', 64, a[0]))]


def width_of(C, ty, a, r):
    X = sym.Exec(C.mods[(ty, a)], make_dom('uf'), sym.Stats())
    s = X.new_state()
    outs = X.call('width_' + r, [], s)
    return outs[0].ret


if __name__ == '__main__': main()
