"""Semantics of LLVM/x86 intrinsics and of the few C library functions the code calls (trusted contracts)."""
import z3
from .dom import *
from . import sym
from .sym import Ptr, FnPtr, NULL, STOP, simplb, linbv, lin64


def vmap(f, *vs):
    if isinstance(vs[0], list): return [f(*x) for x in zip(*vs)]
    return f(*vs)


def ew(self, i):
    T = self.types[i[2]]
    return self.types[T['e']]['n'] if T['k'] == 'v' else T['n']


def sat(n, a, b, signed, add):
    if a is POISON or b is POISON: return POISON
    if isinstance(a, int) and isinstance(b, int):
        x, y = (sgn(a, n), sgn(b, n)) if signed else (a, b)
        r = x + y if add else x - y
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if signed else (0, mask(n))
        return max(lo, min(hi, r)) & mask(n)
    A, B = tobv(a, n), tobv(b, n)
    if signed:
        x, y = z3.SignExt(1, A), z3.SignExt(1, B)
        r = x + y if add else x - y
        lo, hi = BVV(-(1 << (n - 1)), n + 1), BVV((1 << (n - 1)) - 1, n + 1)
        return z3.Extract(n - 1, 0, z3.If(r < lo, lo, z3.If(r > hi, hi, r)))
    if add:
        r = A + B
        return z3.If(z3.ULT(r, A), BVV(mask(n), n), r)
    return z3.If(z3.ULT(A, B), BVV(0, n), A - B)


def pred_i(self, p, n, a, b, x, y):
    c = self.icmp(p, n, a, b)
    return POISON if c is POISON else self.ite(c, x, y, n)


def xmin(self, n, a, b, ismax):
    """minps/maxps: if either is NaN or both zero, returns the second operand"""
    if a is POISON or b is POISON: return POISON
    if opaque(a) or opaque(b): return self.dom.minmax(n, ismax, a, b)
    c = self.dom.cmp('ogt' if ismax else 'olt', n, a, b)
    return self.ite(c, a, b, n)


CMPPS = {0: 'oeq', 1: 'olt', 2: 'ole', 3: 'uno', 4: 'une', 5: 'uge', 6: 'ugt', 7: 'ord', 8: 'ueq', 9: 'ult', 10: 'ule', 11: 'false', 12: 'one', 13: 'oge', 14: 'ogt', 15: 'true'}


def roundkind(im):
    if im & 4: return 'rint'
    return {0: 'rint', 1: 'floor', 2: 'ceil', 3: 'trunc'}[im & 3]


def signbit(self, x, n):
    if x is POISON: return POISON
    if isinstance(x, int): return x >> (n - 1)
    if opaque(x): raise Unsupported('sign of symbolic real')
    return simplb(z3.Extract(n - 1, n - 1, x) == 1)


def intrinsic(self, s, f, i, name, a):
    p = name.split('.')
    op = p[1]
    if op in ('lifetime', 'assume', 'dbg', 'invariant', 'experimental', 'prefetch', 'donothing'):
        if op == 'experimental' and 'noalias' not in name: raise Unsupported(name)
        return None
    if op in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and p[2] == 'with':
        n = ew0(self, f, i)
        A, B = a
        if A is POISON or B is POISON: return [POISON, POISON]
        w = {'a': 'add', 's': 'sub', 'm': 'mul'}[op[1]]
        r = self.binop(w, n, A, B, '')
        if isinstance(A, int) and isinstance(B, int):
            x, y = (sgn(A, n), sgn(B, n)) if op[0] == 's' else (A, B)
            t = {'add': x + y, 'sub': x - y, 'mul': x * y}[w]
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op[0] == 's' else (0, mask(n))
            return [r, int(not lo <= t <= hi)]
        ext = z3.SignExt if op[0] == 's' else z3.ZeroExt
        k = n if w == 'mul' else 1
        if w == 'mul':
            A2, B2 = tobv(A, n), tobv(B, n)
            ok = z3.BVMulNoOverflow(A2, B2, op[0] == 's')
            if op[0] == 's': ok = z3.And(ok, z3.BVMulNoUnderflow(A2, B2))
            return [r, simplb(z3.Not(ok))]
        A2, B2 = ext(k, tobv(A, n)), ext(k, tobv(B, n))
        full = {'add': A2 + B2, 'sub': A2 - B2}[w]
        return [r, simplb(full != ext(k, tobv(r, n)))]
    if op in ('sadd', 'uadd', 'ssub', 'usub') and p[2] == 'sat':
        n = ew(self, i)
        return vmap(lambda x, y: sat(n, x, y, op[0] == 's', 'add' in op), *a)
    if op in ('smax', 'smin', 'umax', 'umin'):
        n = ew(self, i)
        pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op]
        return vmap(lambda x, y: pred_i(self, pr, n, x, y, x, y), *a)
    if op == 'abs':
        n = ew(self, i)
        return vmap(lambda x: POISON if x is POISON else self.ite(self.icmp('slt', n, x, 0), self.binop('sub', n, 0, x, ''), x, n), a[0])
    if op == 'fabs': return vmap(lambda x: self.dom.abs(ew(self, i), x), a[0])
    if op == 'copysign':
        n = ew(self, i)
        return vmap(lambda x, y: copysign(self, n, x, y), *a)
    if op in ('fma', 'fmuladd'): return vmap(lambda *x: self.dom.op(op, ew(self, i), *x), *a)
    if op == 'sqrt': return vmap(lambda x: self.dom.op('sqrt', ew(self, i), x), a[0])
    if op in ('minnum', 'maxnum'): return vmap(lambda x, y: self.dom.minmax(ew(self, i), op == 'maxnum', x, y), *a)
    if op in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'roundeven'):
        k = {'nearbyint': 'rint', 'roundeven': 'rint'}.get(op, op)
        return vmap(lambda x: self.dom.round(k, ew(self, i), x), a[0])
    if op in ('sin', 'cos', 'exp', 'exp2', 'log', 'log2', 'log10', 'pow', 'powi'):
        return vmap(lambda *x: self.dom.libm(op, ew(self, i), *x), *a)
    if op in ('memcpy', 'memmove'):
        self.copy(s, a[0], a[1], a[2])
        return None
    if op == 'memset':
        self.memset(s, a[0], a[1], a[2])
        return None
    if op == 'expect': return a[0]
    if op in ('trap', 'ubsantrap', 'debugtrap'):
        self.obligate(s, 0, 'unreachable code reached (trap)')
        return STOP
    if op == 'objectsize': return mask(64)
    if op == 'is' and p[2] == 'constant': return 0
    if op == 'threadlocal': return a[0]
    if op == 'stacksave': return NULL
    if op == 'stackrestore': return None
    if op == 'fshl' or op == 'fshr':
        n = ew(self, i)

        def fs(x, y, z):
            if x is POISON or y is POISON or z is POISON: return POISON
            if not isinstance(z, int): raise Unsupported('fsh variable')
            z %= n
            if z == 0: return x if op == 'fshl' else y
            k = z if op == 'fshl' else n - z
            return self.binop('or', n, self.binop('shl', n, x, k, ''), self.binop('lshr', n, y, n - k, ''), '')
        return vmap(fs, *a)
    if op == 'bswap':
        n = ew(self, i)
        return vmap(lambda x: cat([(slice_(x, n, n - 8 * (k + 1), 8), 8) for k in range(n // 8)]), a[0])
    if op == 'bitreverse':
        n = ew(self, i)

        def br(x):
            if x is POISON: return POISON
            if isinstance(x, int): return int(bin(x)[2:].zfill(n)[::-1], 2)
            return cat([(slice_(x, n, n - 1 - k, 1), 1) for k in range(n)])
        return vmap(br, a[0])
    if op in ('ctlz', 'cttz', 'ctpop'):
        n = ew(self, i)

        def ct(x):
            if x is POISON: return POISON
            if isinstance(x, int):
                if op == 'ctpop': return bin(x).count('1')
                if op == 'ctlz': return n - x.bit_length()
                return n if x == 0 else (x & -x).bit_length() - 1
            r = BVV(n if op != 'ctpop' else 0, n)
            if op == 'ctpop':
                for k in range(n): r = r + z3.ZeroExt(n - 1, z3.Extract(k, k, x))
                return r
            rg = range(n) if op == 'ctlz' else range(n - 1, -1, -1)
            for k in rg:
                r = z3.If(z3.Extract(k, k, x) == 1, BVV(n - 1 - k if op == 'ctlz' else k, n), r)
            return r
        return vmap(ct, a[0])
    if op == 'vector' and p[2] == 'reduce':
        return vreduce(self, i, f, p[3], a)
    if op == 'masked':
        if p[2] == 'load':
            ptr, al, m, pt = a
            T = self.types[i[2]]
            z = self.types[T['e']]['s']
            return [self.ite(c, self.load(s, sym.ptradd(ptr, k * z), T['e']), y, self.types[T['e']]['n']) if not isinstance(c, int) else (self.load(s, sym.ptradd(ptr, k * z), T['e']) if c else y) for k, (c, y) in enumerate(zip(m, pt))]
        if p[2] == 'store':
            v, ptr, al, m = a
            raise Unsupported(name)
        if p[2] == 'gather':
            ptrs, al, m, pt = a
            T = self.types[i[2]]
            return [self.load(s, q, T['e']) if c == 1 else y for q, c, y in zip(ptrs, m, pt)]
    if op == 'eh' or op == 'va_start' or op == 'va_end': return 0 if op == 'eh' else None
    if op == 'canonicalize': return a[0]
    if op == 'is' and p[2] == 'fpclass': raise Unsupported(name)
    if op == 'ldexp': raise Unsupported(name)
    if op == 'x86': return x86(self, s, f, i, '.'.join(p[2:]), a)
    raise Unsupported('intrinsic ' + name)


def ew0(self, f, i):
    T = self.types[i[2]]
    return self.types[T['e'][0]]['n']


def copysign(self, n, x, y):
    if x is POISON or y is POISON: return POISON
    if isinstance(y, int):
        v = self.dom.abs(n, x)
        return self.dom.neg(n, v) if y >> (n - 1) else v
    return self.binop('or', n, self.binop('and', n, x, mask(n - 1), ''), self.binop('and', n, y, 1 << (n - 1), ''), '')


def vreduce(self, i, f, op, a):
    T = self.types[i[2]]
    n = T['n']
    v = a[-1]
    if op in ('add', 'mul', 'and', 'or', 'xor'):
        if any(x is POISON for x in v): return POISON
        r = v[0]
        for x in v[1:]: r = self.binop(op, n, r, x, '')
        return r
    if op in ('smax', 'smin', 'umax', 'umin'):
        pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[op]
        r = v[0]
        for x in v[1:]: r = pred_i(self, pr, n, r, x, r, x)
        return r
    if op in ('fadd', 'fmul'):
        r = a[0]
        for x in v: r = self.dom.op(op, n, r, x)
        return r
    if op in ('fmin', 'fmax'):
        r = v[0]
        for x in v[1:]: r = self.dom.minmax(n, op == 'fmax', r, x)
        return r
    raise Unsupported('vector.reduce ' + op)


def x86(self, s, f, i, nm, a):
    T = self.types[i[2]]
    isv = T['k'] == 'v'
    n = self.types[T['e']]['n'] if isv else T['n']
    k = nm.split('.')
    if 'pblendvb' in nm or 'blendvp' in nm or 'blendv.p' in nm:
        def bl(x, y, m):
            if m is POISON: return POISON
            c = signbit(self, m, n)
            return self.ite(c, y, x, n)
        return vmap(bl, *a)
    if k[-2:] in (['round', 'ps'], ['round', 'pd']) or 'round.ps' in nm or 'round.pd' in nm:
        im = a[1]
        return [self.dom.round(roundkind(im), n, x) for x in a[0]]
    if k[-2:] in (['round', 'ss'], ['round', 'sd']):
        im = a[2]
        return [self.dom.round(roundkind(im), n, a[1][0])] + list(a[0][1:])
    if 'rndscale' in nm:
        # avx512 mask.rndscale.{ps,pd}(src, imm, passthru, mask, [rounding])
        src, im, pt, m = a[0], a[1], a[2], a[3]
        if im >> 4: raise Unsupported('rndscale scale')
        r = [self.dom.round(roundkind(im & 15), n, x) for x in src]
        return [r[j] if (m >> j) & 1 else pt[j] for j in range(len(r))]
    if 'min.p' in nm or 'max.p' in nm:
        mx = 'max.p' in nm
        return [xmin(self, n, x, y, mx) for x, y in zip(a[0], a[1])]
    if k[-2:] in (['min', 'ss'], ['min', 'sd'], ['max', 'ss'], ['max', 'sd']):
        return [xmin(self, n, a[0][0], a[1][0], k[-2] == 'max')] + list(a[0][1:])
    if 'movmsk' in nm:
        v = a[0]
        w = self.valwidth(f.fn, i[3][0]) if type(i[3][0]) is int else {'ps': 32, 'pd': 64}.get(k[-1], 8)
        bits = [signbit(self, x, w) for x in v]
        if any(b is POISON for b in bits): bits = [z3.Bool('undefbit!%d' % (self.fresh_n + j)) if b is POISON else b for j, b in enumerate(bits)]
        self.fresh_n += len(bits)
        r = cat([(tobv(b, 1) if is_bool(b) else b, 1) for b in bits])
        return self.widen(r, len(bits), 32)
    if 'ptest' in nm or 'vtest' in nm:
        x, y = a
        w = 64
        if any(q is POISON for q in x + y): raise Unsupported('ptest of undef')
        if any(opaque(q) for q in x + y): raise Unsupported('ptest')
        w = self.valwidth(f.fn, i[3][0]) if type(i[3][0]) is int else self.valwidth(f.fn, i[3][1])
        if 'vtest' in nm:
            X = [signbit(self, q, w) for q in x]
            Y = [signbit(self, q, w) for q in y]
            zf = z3.And(*[z3.Not(z3.And(tobool(p), tobool(q))) for p, q in zip(X, Y)])
            cf = z3.And(*[z3.Not(z3.And(z3.Not(tobool(p)), tobool(q))) for p, q in zip(X, Y)])
        else:
            zf = z3.And(*[(tobv(p, w) & tobv(q, w)) == 0 for p, q in zip(x, y)])
            cf = z3.And(*[(~tobv(p, w) & tobv(q, w)) == 0 for p, q in zip(x, y)])
        t = 'testz' in nm or k[-1].startswith('ptestz') or 'ptestz' in nm
        if 'nzc' in nm: c = z3.And(z3.Not(zf), z3.Not(cf))
        elif 'testz' in nm: c = zf
        else: c = cf
        c = simplb(c)
        return self.widen(c if not isinstance(c, int) else c, 1, 32) if not isinstance(c, int) else c
    if 'pshuf.b' in nm:
        L = len(a[0])
        out = []
        for j in range(L):
            m = a[1][j]
            if m is POISON: out.append(POISON)
            elif isinstance(m, int): out.append(0 if m & 0x80 else a[0][(j // 16) * 16 + (m & 15)])
            else:
                r = a[0][(j // 16) * 16]
                for q in range(1, 16): r = self.ite((m & 15) == q, a[0][(j // 16) * 16 + q], r, 8)
                out.append(self.ite(z3.Extract(7, 7, m) == 1, 0, r, 8))
        return out
    if 'packs' in nm or 'packus' in nm:
        w = n * 2
        us = 'packus' in nm

        def pk(x):
            if x is POISON: return POISON
            lo, hi = (0, mask(n)) if us else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            if isinstance(x, int): return max(lo, min(hi, sgn(x, w))) & mask(n)
            L, H = BVV(lo, w), BVV(hi, w)
            return z3.Extract(n - 1, 0, z3.If(x < L, L, z3.If(x > H, H, x)))
        A, B = a
        per = 128 // w
        out = []
        for b in range(0, len(A), per):
            out += [pk(x) for x in A[b:b + per]] + [pk(x) for x in B[b:b + per]]
        return out
    if k[-1] in ('cvtps2dq',) or 'cvtpd2dq' in nm or 'cvtps2dq' in nm or 'cvtpd2dq' in nm:
        fw = 32 if 'cvtps' in nm else 64
        r = [self.dom.to_int(True, fw, 32, self.dom.round('rint', fw, x)) for x in a[0]]
        return r + [0] * (T['n'] - len(r))
    if 'cvttps2dq' in nm or 'cvttpd2dq' in nm:
        fw = 32 if 'cvttps' in nm else 64
        r = [self.dom.to_int(True, fw, 32, x) for x in a[0]]
        return r + [0] * (T['n'] - len(r))
    if k[-1] in ('cvttss2si', 'cvttss2si64', 'cvttsd2si', 'cvttsd2si64'):
        return self.dom.to_int(True, 32 if 'ss' in k[-1] else 64, n, a[0][0])
    if k[-1] in ('cvtss2si', 'cvtss2si64', 'cvtsd2si', 'cvtsd2si64'):
        fw = 32 if 'ss' in k[-1] else 64
        return self.dom.to_int(True, fw, n, self.dom.round('rint', fw, a[0][0]))
    if 'addsub' in nm:
        return [self.dom.op('fsub' if j % 2 == 0 else 'fadd', n, x, y) for j, (x, y) in enumerate(zip(a[0], a[1]))]
    if nm.startswith('sse2.cmp.') or nm.startswith('sse.cmp.') or 'avx.cmp' in nm:
        pr = CMPPS[a[2] & 15]
        return [self.ite(self.dom.cmp(pr, n, x, y), mask(n), 0, n) for x, y in zip(a[0], a[1])]
    if 'avx512' in nm and '.cmp.p' in nm:
        pr = CMPPS[a[2] & 15]
        w = self.valwidth(f.fn, i[3][0]) if type(i[3][0]) is int else self.valwidth(f.fn, i[3][1])
        r = [self.dom.cmp(pr, w, x, y) for x, y in zip(a[0], a[1])]
        m = a[3]
        if isinstance(m, list): return [self.binop('and', 1, x, y, '') for x, y in zip(r, m)]
        return r
    if 'permvar' in nm:
        v, ix = a
        L = len(v)
        if all(isinstance(q, int) for q in ix): return [v[q % L] for q in ix]
        raise Unsupported('x86 ' + nm)
    if 'hadd.p' in nm or 'hsub.p' in nm:
        o = 'fadd' if 'hadd' in nm else 'fsub'
        per = 128 // n
        out = []
        for b in range(0, len(a[0]), per):
            for v in (a[0], a[1]):
                for j in range(0, per, 2): out.append(self.dom.op(o, n, v[b + j], v[b + j + 1]))
        return out
    if 'pmadd.wd' in nm or 'pmadd.ub.sw' in nm or 'psad.bw' in nm:
        raise Unsupported('x86 ' + nm)
    if 'rsqrt' in nm or 'rcp' in nm:
        return [self.dom.libm(nm, n, x) for x in a[0]]
    if 'ldmxcsr' in nm or 'stmxcsr' in nm:
        if 'stmxcsr' in nm: self.write_scalar(s, a[0], 4, 0x1f80)
        return None
    if 'psrli' in nm or 'pslli' in nm or 'psrai' in nm:
        o = 'lshr' if 'psrli' in nm else 'shl' if 'pslli' in nm else 'ashr'
        c = a[1]
        return [self.binop(o, n, x, c if c < n else (n - 1 if o == 'ashr' else 0), '') if c < n or o == 'ashr' else 0 for x in a[0]]
    raise Unsupported('x86 intrinsic ' + nm)


# ---------------------------------------------------------------- C library
def c_malloc(self, s, a, i):
    n = a[0]
    if not isinstance(n, int):
        n2 = self.concretize(s, n)
        if n2 is None: raise Unsupported('allocation of symbolic size')
        n = n2
    return self.newobj(s, n, None, 1, 'heap')


def c_calloc(self, s, a, i):
    n = a[0] * a[1]
    return self.newobj(s, n, (lambda off, k: 0), 1, 'heap')


def c_free(self, s, a, i):
    p = a[0]
    if isinstance(p, int): p = self.int2ptr(p)
    if p.obj is None: return None
    m = s.mem.get(p.obj)
    self.obligate(s, int(m is not None and not m.freed and p.c == 0 and not p.t), 'memory-safety:free of invalid pointer')
    if m is not None:
        m = self.wmem(s, p.obj)
        m.freed = True
    return None


def c_noreturn(nm):
    def h(self, s, a, i):
        self.obligate(s, 0, 'noreturn function reached: ' + nm)
        return STOP
    return h


def c_libm(nm, n):
    def h(self, s, a, i):
        return self.dom.libm(nm, n, *a)
    return h


def c_memcpy(self, s, a, i):
    self.copy(s, a[0], a[1], a[2])
    return a[0]


def c_memset(self, s, a, i):
    b = a[1]
    self.memset(s, a[0], b & 255 if isinstance(b, int) else z3.Extract(7, 0, b), a[2])
    return a[0]


def c_memcmp(self, s, a, i):
    n = a[2] if isinstance(a[2], int) else self.concretize(s, a[2])
    if n is None: raise Unsupported('memcmp of symbolic length')
    r = 0
    for k in range(n - 1, -1, -1):
        x = self.read_scalar(s, sym.ptradd(a[0], k), 1)
        y = self.read_scalar(s, sym.ptradd(a[1], k), 1)
        c = self.icmp('eq', 8, x, y)
        lt = self.icmp('ult', 8, x, y)
        r = self.ite(c, r, self.ite(lt, mask(32), 1, 32), 32)
    return r


def c_strlen(self, s, a, i):
    k = 0
    while True:
        c = self.read_scalar(s, sym.ptradd(a[0], k), 1)
        if not isinstance(c, int): raise Unsupported('strlen of symbolic string')
        if c == 0: return k
        k += 1


def c_zero(self, s, a, i): return 0


def c_none(self, s, a, i): return None


def c_memchr(self, s, a, i):
    n = self.concretize(s, a[2])
    if n is None: raise Unsupported('memchr')
    b = a[1] & 255 if isinstance(a[1], int) else None
    for k in range(n):
        c = self.read_scalar(s, sym.ptradd(a[0], k), 1)
        if not isinstance(c, int) or b is None: raise Unsupported('memchr symbolic')
        if c == b: return sym.ptradd(a[0], k)
    return NULL


LIBC = {'malloc': c_malloc, '_Znwm': c_malloc, '_Znam': c_malloc, '_ZnwmSt11align_val_t': c_malloc, '_ZnamSt11align_val_t': c_malloc, 'calloc': c_calloc,
        'free': c_free, '_ZdlPv': c_free, '_ZdlPvm': c_free, '_ZdaPv': c_free, '_ZdaPvm': c_free, '_ZdlPvmSt11align_val_t': c_free, '_ZdlPvSt11align_val_t': c_free,
        'memcpy': c_memcpy, 'memmove': c_memcpy, 'memset': c_memset, 'memcmp': c_memcmp, 'bcmp': c_memcmp, 'strlen': c_strlen, 'memchr': c_memchr,
        'sin': c_libm('sin', 64), 'cos': c_libm('cos', 64), 'exp': c_libm('exp', 64), 'log': c_libm('log', 64), 'pow': c_libm('pow', 64), 'sqrt': c_libm('sqrt', 64), 'tan': c_libm('tan', 64), 'log2': c_libm('log2', 64), 'log10': c_libm('log10', 64), 'exp2': c_libm('exp2', 64),
        'fmod': c_libm('fmod', 64), 'atan2': c_libm('arctan2', 64), 'sinh': c_libm('sinh', 64),
        'sinf': c_libm('sin', 32), 'cosf': c_libm('cos', 32), 'expf': c_libm('exp', 32), 'logf': c_libm('log', 32), 'powf': c_libm('pow', 32), 'fmodf': c_libm('fmod', 32),
        '__cxa_guard_acquire': (lambda self, s, a, i: 1), '__cxa_guard_release': c_none, '__cxa_atexit': c_zero, '__cxa_thread_atexit': c_zero,
        '__cxa_begin_catch': c_none, '__cxa_end_catch': c_none}
for _n in ('abort', '_ZSt9terminatev', '_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc', '_ZSt24__throw_out_of_range_fmtPKcz', '__assert_fail', '_ZSt28__throw_bad_array_new_lengthv', '_ZSt25__throw_bad_function_callv', '_ZSt19__throw_logic_errorPKc', '__cxa_throw', 'exit', '_ZSt20__throw_out_of_rangePKc', '__cxa_pure_virtual', '_ZSt16__throw_bad_castv'):
    LIBC[_n] = c_noreturn(_n)
