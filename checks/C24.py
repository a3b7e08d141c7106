"""C24: small containers behave like the standard sequence they stand for"""
from kvc.check import *
from kvc import sym, nat
from kvc.nat import Buf
U64 = z3.BitVecSort(64)
LIM = 1 << 31
FULL = {'i32_4': ('i32', 4), 'u8_6': ('u8', 6), 'f64_3': ('f64', 3), 'u16_300': ('u16', 300)}


class Abs:
    """an abstract small buffer: k elements inside the object, or (k is None) any number above the capacity on the heap"""

    def __init__(self, X, s, nm, es, cap, k):
        self.es, self.cap = es, cap
        n8 = 8 * es
        f = uf(nm, U64, z3.BitVecSort(n8))
        self.at = f
        self.n = k if k is not None else BV('n_' + nm, 64)
        self.heap = None
        if k is None:
            s.pc += [z3.UGT(self.n, cap), z3.ULT(self.n, LIM)]
            self.heap = X.newobj(s, z3.If(self.n * es >> 6 == 0, BVV(64 // es, 64), self.n), None, es, nm + '_heap', log=('base', f))
            s.ghost[('live', self.heap.obj)] = 1
        me = []

        def init(off, w):
            if off < cap * es: return simp(f(BVV(off // es, 64))) if k is not None and off // es < k else BV('stale_%s_%d' % (nm, off // es), n8)
            if off == cap * es: return self.n
            return self.heap if self.heap is not None else me[0]
        # elements and words of different widths: one cell object filled explicitly
        self.p = X.newobj(s, cap * es + 16, None, 8, nm)
        me.append(self.p)
        for j in range(cap): X.write_scalar(s, sym.ptradd(self.p, j * es), es, init(j * es, es))
        X.write_scalar(s, sym.ptradd(self.p, cap * es), 8, self.n)
        X.write_scalar(s, sym.ptradd(self.p, cap * es + 8), 8, init(cap * es + 8, 8))


def blank(X, s, nm, es, cap): return X.newobj(s, cap * es + 16, None, 8, nm)


def alloc(es):
    def h(X, s, a, i):
        sz = a[0]
        n = simp(z3.LShR(tobv(sz, 64), es.bit_length() - 1))
        p = X.newobj(s, n, None, es, 'heap', log=('base', uf('fresh%d' % X.nobj, U64, z3.BitVecSort(8 * es))))
        s.ghost[('live', p.obj)] = 1
        return p
    return h


def free(X, s, a, i):
    p = a[0]
    if not isinstance(p, sym.Ptr) or p.obj is None:
        X.obligate(s, 0, 'only allocated storage is freed')
        return 0
    X.obligate(s, int(s.ghost.get(('live', p.obj), 0) == 1), 'storage freed once, only if allocated')
    X.obligate(s, tobv(X.elem_index(s.mem[p.obj], p), 64) == 0, 'storage freed by its start')
    s.ghost[('live', p.obj)] = 0
    m = X.wmem(s, p.obj)
    m.size = 0       # any later access is out of bounds
    return 0


def named(w): return lambda nm, dem: w in nm


def conform(X, s, o, p, es, cap, n, at, what, known=None):
    """the object at p is a valid small buffer holding n elements at(i); known: only elements below this index are specified.
    Returns the heap object it owns"""
    n_ = tobv(X.read_scalar(o, sym.ptradd(p, cap * es), 8), 64)
    X.obligate(o, n_ == tobv(n, 64), 'postcondition: size of %s' % what)
    d = X.read_scalar(o, sym.ptradd(p, cap * es + 8), 8)
    if not isinstance(d, sym.Ptr) or d.obj is None:
        X.obligate(o, 0, 'invariant: %s points to its storage' % what)
        return None
    inline = d.obj == p.obj and not d.t and d.c == 0
    X.obligate(o, z3.ULE(tobv(n, 64), cap) if inline else z3.UGT(tobv(n, 64), cap), 'invariant: inline storage exactly up to the capacity (%s)' % what)
    if inline:
        for j in range(cap):
            c = z3.ULT(BVV(j, 64), tobv(n if known is None else known, 64))
            if not X.valid(o, z3.Not(c)): X.obligate(o, z3.Implies(c, tobv(X.read_scalar(o, sym.ptradd(p, j * es), es), 8 * es) == at(BVV(j, 64))), 'postcondition: element of %s' % what)
        return None
    X.obligate(o, int(o.ghost.get(('live', d.obj), 0) == 1), 'invariant: %s owns live storage' % what)
    m = o.mem[d.obj]
    if o.ghost.get(('live', d.obj), 0) != 1: return d.obj
    X.obligate(o, z3.And(tobv(X.elem_index(m, d), 64) == 0, z3.UGE(tobv(m.size, 64), tobv(n, 64))), 'invariant: storage of %s holds its elements' % what)
    q = BV('q', 64)
    lim = tobv(n if known is None else known, 64)
    X.obligate(o, z3.Implies(z3.And(z3.ULT(q, lim), z3.ULT(q, tobv(n, 64))), tobv(X.log_read(m.log, q), 8 * es) == at(q)), 'postcondition: elements of %s' % what)
    return d.obj


def owned(X, o, objs):
    """no leak, no shared storage"""
    objs = [x for x in objs if x is not None]
    X.obligate(o, int(len(set(objs)) == len(objs)), 'invariant: no two buffers share storage')
    live = {k[1] for k, v in o.ghost.items() if isinstance(k, tuple) and k[0] == 'live' and v == 1}
    X.obligate(o, int(live == set(objs)), 'no storage leaked or lost')


def sb_task(C, arch, T, cap, op, ka, kb=None):
    es = TY[T]
    two = op in ('assign', 'copy', 'move', 'set', 'mset', 'swap')

    def body(X, s):
        X.contracts = [(named('aligned_malloc'), alloc(es)), (named('aligned_free'), free)]
        f = 'sb_%s_%s_%d' % (op, T, cap)
        new = op in ('new', 'sized', 'copy', 'move')
        a = None if new else Abs(X, s, 'a', es, cap, ka)
        ap = blank(X, s, 'a', es, cap) if new else a.p
        b = Abs(X, s, 'b', es, cap, kb) if two else None
        bp = b.p if two else None
        n = None
        args = [ap]
        v = BV('v', 8 * es)
        idx = BV('i', 64)
        if op in ('resize', 'sized'):
            n = kb if kb is not None else BV('newsize', 64)
            if kb is None: s.pc += [z3.UGT(n, cap), z3.ULT(n, LIM)]
            args.append(n)
        elif op == 'push': args.append(X.newobj(s, es, (lambda off, k: v), es, 'value', True))
        elif op == 'pushown':
            i = idx
            if ka is not None: i = ka - 1
            else: s.pc.append(z3.ULT(idx, a.n))
            args.append(i)
        elif op == 'query':
            if ka is not None: idx = BVV(kb, 64)
            s.pc.append(z3.ULT(idx, tobv(a.n, 64)))
            args += [idx if ka is None else kb, X.newobj(s, 8 * es, None, es, 'out')]
        elif two: args.append(bp)
        outs = X.call(f, args, s)
        for o in outs:
            sz = lambda x: tobv(x.n, 64)
            none = lambda i: BV('none', 8 * es)
            own = []
            if op == 'new': own.append(conform(X, s, o, ap, es, cap, 0, none, 'the buffer'))
            elif op == 'sized': own.append(conform(X, s, o, ap, es, cap, n, none, 'the buffer', known=0))
            elif op == 'resize': own.append(conform(X, s, o, ap, es, cap, n, a.at, 'the buffer', known=z3.If(z3.ULT(tobv(n, 64), sz(a)), tobv(n, 64), sz(a))))
            elif op in ('push', 'pushown'):
                w = v if op == 'push' else a.at(tobv(args[1], 64))
                own.append(conform(X, s, o, ap, es, cap, simp(sz(a) + 1), lambda i: z3.If(i == sz(a), w, a.at(i)), 'the buffer'))
            elif op == 'pop': own.append(conform(X, s, o, ap, es, cap, simp(sz(a) - 1), a.at, 'the buffer'))
            elif op == 'clear': own.append(conform(X, s, o, ap, es, cap, 0, none, 'the buffer'))
            elif op == 'dtor': pass
            elif op == 'query':
                own.append(conform(X, s, o, ap, es, cap, a.n, a.at, 'the buffer'))
                want = [idx, BVV(0, 64), sz(a) - 1, BVV(0, 64), sz(a) - 1, idx, idx, sz(a) - 1]
                for j, w in enumerate(want): X.obligate(o, tobv(X.read_scalar(o, sym.ptradd(args[2], j * es), es), 8 * es) == a.at(w), 'postcondition: element access')
                X.obligate(o, tobv(o.ret, 64) == sz(a) * 2, 'postcondition: size and empty')
            elif op in ('assign', 'copy', 'set'):
                own.append(conform(X, s, o, ap, es, cap, b.n, b.at, 'the target'))
                own.append(conform(X, s, o, bp, es, cap, b.n, b.at, 'the source'))
            elif op in ('move', 'mset'):
                own.append(conform(X, s, o, ap, es, cap, b.n, b.at, 'the target'))
                nb = X.read_scalar(o, sym.ptradd(bp, cap * es), 8)
                own.append(conform(X, s, o, bp, es, cap, nb, none, 'the moved-from buffer', known=0))
            elif op == 'swap':
                own.append(conform(X, s, o, ap, es, cap, b.n, b.at, 'the first'))
                own.append(conform(X, s, o, bp, es, cap, a.n, a.at, 'the second'))
            owned(X, o, own)
        return len(outs)
    nm = lambda k: 'heap' if k is None else k
    return vtask(C, 'sb', arch, 'sb_%s_%s_%d' % (op, T, cap), body, label='sb_%s_%s_%d_%s_%s' % (op, T, cap, nm(ka), nm(kb)), timeout=20000, loopmode='unroll', replay=nat.replayer(C, 'iv', seq_test))


def seq_test(lib, r):
    """random sequences of operations against Python lists"""
    for nm, dt, C in (('u32_4', np.uint32, 4), ('f64_16', np.float64, 16), ('u8_1', np.uint8, 1)):
        f = getattr(lib, 'run_' + nm)
        f.restype = ctypes.c_int64
        for c in range(150):
            b, ops, want = [[], [], []], [], []
            cap = 3 * C + 8
            for i in range(r.randint(1, 60)):
                x, y = r.randint(0, 2), r.randint(0, 2)
                o = r.randint(0, 12)
                v = 0
                if o in (0, 1) and len(b[x]) >= cap: o = 4
                if o in (1, 2) and not b[x]: o = 0
                if o == 7 and x == y or o in (10,) and x == y: o = 8
                if o == 0:
                    v = r.randint(0, 250)
                    b[x] = b[x] + [v]
                elif o == 1:
                    v = r.randrange(len(b[x]))
                    b[x] = b[x] + [b[x][v]]
                elif o == 2: b[x] = b[x][:-1]
                elif o == 3:
                    v = r.choice((0, 1, C - 1, C, C + 1, r.randint(0, cap)))
                    b[x] = b[x][:v] + list(range(len(b[x]), v))
                elif o == 4: b[x] = []
                elif o in (5, 6, 9): b[x] = list(b[y])
                elif o == 7:
                    b[x] = list(b[y])
                    b[y] = None
                elif o in (8, 12): b[x], b[y] = b[y], b[x]
                elif o == 10: b[x], b[y] = b[y], b[x]
                elif o == 11:
                    v = r.choice((0, 1, C, C + 1, r.randint(0, cap)))
                    b[x] = [k + 7 for k in range(v)]
                ops.append([o, x, y, v])
                if b[y] is None:        # moved from: any valid contents; cleared next
                    want.append([None if z is None else list(z) for z in b])
                    b[y] = []
                    ops.append([4, y, 0, 0])
                want.append([list(z) for z in b])
            bo = Buf([z for o in ops for z in o], np.uint64)
            n = len(ops)
            s, d = Buf([0] * (3 * n), np.uint64), Buf([0] * (3 * n * cap), dt)
            live = f(bo.p, ctypes.c_uint64(n), s.p, d.p, ctypes.c_uint64(cap))
            got = []
            for i in range(3 * n):
                k = int(s.v[i])
                w = want[i // 3][i % 3]
                if live != -1 and w is not None and (k != len(w) or list(d.v[i * cap:i * cap + k]) != w):
                    return {'container': 'small_buffer ' + nm, 'operations (op, x, y, value)': ops[:i // 3 + 1], 'buffer': i % 3, 'got': str(list(d.v[i * cap:i * cap + min(k, cap)])), 'expected': w}
            if live != 0: return {'container': 'small_buffer ' + nm, 'operations (op, x, y, value)': ops, 'allocations still live at the end': live}
            if not (bo.guards() and s.guards() and d.guards()): return {'container': 'small_buffer ' + nm, 'operations': ops, 'guards': 'overwritten'}
    return None


def main():
    C = Check('C24')
    q = C.tier == 'quick'
    C.unit('sb', 'c24_cont.cpp', ['sse2'] if q else ['sse2', 'avx2'], ['-DSTEPPART'], irflags=ir.IRFLAGS + ['-fno-inline'])
    C.unit('iv', 'c24_cont.cpp', ['sse2', 'avx2'] if q else ['sse2', 'sse41', 'avx2', 'avx512'], ['-DLEAFPART'])
    nth = __import__('threading').Thread(target=C.native, args=('iv', 'sse2'))
    nth.start()
    C.build()
    for a in C.units['sb'][1]:
        for T, cap in (('u32', 4), ('u64', 2)):
            ks = list(range(cap + 1)) + [None]
            add = lambda *x: C.tasks.append(sb_task(C, a, T, cap, *x))
            add('new', None)
            for k in ks:
                add('sized', None, k)
                for op in ('clear', 'dtor'): add(op, k)
                add('push', k)
                if k != 0:
                    add('pushown', k)
                    add('pop', k)
                    for i in ([None] if k is None else range(k)): add('query', k, i)
                for k2 in ks:
                    add('resize', k, k2)
                    for op in ('assign', 'set', 'mset', 'swap'): add(op, k, k2)
                for op in ('copy', 'move'): add(op, None, k)
    for key, (T, N) in FULL.items():
        ns = range(N + 1) if N < 10 else (0, 1, 255, 256, 300)
        for n in ns:
            if n < N: C.add(Leaf('iv', 'iv_push_' + key, [InOut('p', T, n + 1), Const(n), Val('x', T), Out('m', 'u64', 1)], lambda X, d, n=n: {'p': list(d['p'][:n]) + [d['x']], 'm': [n + 1]}, tries=5, label='iv_push_%s_%d' % (key, n)))
            if N > 10 and q and n > 1: continue
            C.add(Leaf('iv', 'iv_copy_' + key, [In('p', T, max(n, 1)), Const(n), Out('o', T, 3 * N), Out('m', 'u64', 3)], lambda X, d, n=n, N=N: {'o': (list(d['p'][:n]) + [lambda v: 1] * (N - n)) * 3, 'm': [n] * 3}, tries=5, label='iv_copy_%s_%d' % (key, n)))
            C.add(Leaf('iv', 'iv_fill_' + key, [Const(n), Val('x', T), Out('o', T, N), Out('m', 'u64', 3)], lambda X, d, n=n, N=N: {'o': [d['x']] * n + [lambda v: 1] * (N - n), 'm': [n, 0, n]}, tries=5, label='iv_fill_%s_%d' % (key, n)))
            if N > 10: continue
            for m in ns:
                def eq(X, d, n=n, m=m, T=T):
                    w = 8 * TY[T]
                    if T[0] == 'f': e = [tobool(X.dom.cmp('oeq', w, tobv(x, w), tobv(y, w))) for x, y in zip(d['p'][:n], d['q'][:m])]
                    else: e = [tobv(x, w) == tobv(y, w) for x, y in zip(d['p'][:n], d['q'][:m])]
                    c = z3.And(*e) if n == m and e else z3.BoolVal(n == m)
                    return {'o': [simp(z3.If(c, BVV(1, 64), BVV(0, 64))), simp(z3.If(c, BVV(0, 64), BVV(1, 64)))]}
                C.add(Leaf('iv', 'iv_eq_' + key, [In('p', T, max(n, 1)), Const(n), In('q', T, max(m, 1)), Const(m), Out('o', 'u64', 2)], eq, tries=50, label='iv_eq_%s_%d_%d' % (key, n, m)))
            for i in range(n):
                C.add(Leaf('iv', 'iv_query_' + key, [In('p', T, n), Const(n), Const(i), Out('o', T, 11), Out('m', 'u64', 5)], lambda X, d, n=n, i=i: {'o': [d['p'][j] for j in (i, i, i, i, 0, 0, n - 1, n - 1, i, n - 1, i)], 'm': [n, 0, n, n, n]}, tries=5, label='iv_query_%s_%d_%d' % (key, n, i)))
        C.add(Leaf('iv', 'iv_list_' + key, [In('p', T, 2), Out('o', T, 2), Out('m', 'u64', 1)], lambda X, d: {'o': list(d['p']), 'm': [2]}, tries=5))
    nth.join()
    C.tasks.append(nat.nattask(C, 'iv', 'small_buffer_sequences', seq_test, 2))
    C.bounded += ['random operation sequences on three small buffers, storage accounted for (bounded, not proved)', 'inline_vector capacities 3, 4, 6 and 300; small_buffer capacities 2 and 4 (heap sizes unbounded)']
    C.assumptions += ['allocation succeeds and returns storage of its own (aligned_malloc/aligned_free trusted)', 'trivially copyable elements', 'sizes below 2^31']
    C.run()


if __name__ == '__main__': main()
