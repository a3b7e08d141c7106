"""Value domains of the verifier: machine integers / IEEE bit patterns, exact real polynomials, linear forms."""
import z3, struct, numpy as np
from fractions import Fraction


class _Poison:
    __slots__ = ()

    def __repr__(self): return 'POISON'


POISON = _Poison()
BV = z3.BitVec
BVV = z3.BitVecVal


class Unsupported(Exception):
    pass


def is_bv(x): return isinstance(x, z3.BitVecRef)


def is_bool(x): return isinstance(x, z3.BoolRef)


def mask(n): return (1 << n) - 1


def tobv(x, n):
    if isinstance(x, int): return BVV(x, n)
    if is_bool(x): return z3.If(x, BVV(1, 1), BVV(0, 1)) if n == 1 else z3.If(x, BVV(1, n), BVV(0, n))
    return x


def tobool(x):
    if isinstance(x, int): return z3.BoolVal(bool(x & 1))
    if is_bool(x): return x
    return x == BVV(1, 1)


def simp(x):
    """fold z3 constants back to python ints"""
    if is_bv(x):
        if z3.is_bv_value(x): return x.as_long()
    elif is_bool(x):
        if z3.is_true(x): return 1
        if z3.is_false(x): return 0
    return x


def simpl(x):
    if is_bv(x) or is_bool(x):
        return simp(z3.simplify(x))
    return x


def sgn(x, n): return x - (1 << n) if x >> (n - 1) else x


# ---------------------------------------------------------------- floats as bits
FMT = {16: (5, 10), 32: (8, 23), 64: (11, 52), 80: (15, 64)}
_S = {32: ('<I', '<f', np.float32), 64: ('<Q', '<d', np.float64)}


def bits2f(b, n):
    if n == 16: return np.float16(np.frombuffer(struct.pack('<H', b), np.float16)[0])
    s = _S[n]
    return s[2](struct.unpack(s[1], struct.pack(s[0], b))[0]) if n == 64 else np.frombuffer(struct.pack('<I', b), np.float32)[0]


def f2bits(f, n):
    if n == 64: return struct.unpack('<Q', struct.pack('<d', float(f)))[0]
    if n == 32: return int(np.frombuffer(np.float32(f).tobytes(), np.uint32)[0])
    if n == 16: return int(np.frombuffer(np.float16(f).tobytes(), np.uint16)[0])
    raise Unsupported('f2bits %d' % n)


def bits2frac(b, n):
    if n == 80:
        s = b >> 79
        e = (b >> 64) & 0x7fff
        m = b & mask(64)
        if e == 0x7fff: raise Unsupported('non-finite real constant')
        v = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
        return -v if s else v
    f = float(bits2f(b, n))
    if f != f or f in (float('inf'), float('-inf')): raise Unsupported('non-finite real constant')
    return Fraction(f)


def fsort(n):
    e, m = FMT[n]
    return z3.FPSort(e, m + 1)


def tofp(x, n):
    return z3.fpBVToFP(tobv(x, n), fsort(n))


def isnan_bits(x, n):
    e, m = FMT[n]
    inf = ((1 << e) - 1) << m
    return z3.UGT(tobv(x, n) & mask(n - 1), BVV(inf, n))


def iszero_bits(x, n):
    return (tobv(x, n) & mask(n - 1)) == 0


def flt_bits(a, b, n):
    """a < b for non-NaN"""
    a, b = tobv(a, n), tobv(b, n)
    sa = z3.Extract(n - 1, n - 1, a) == 1
    sb = z3.Extract(n - 1, n - 1, b) == 1
    bothzero = z3.And(iszero_bits(a, n), iszero_bits(b, n))
    return z3.And(z3.Not(bothzero), z3.If(sa, z3.If(sb, z3.ULT(b, a), z3.BoolVal(True)), z3.If(sb, z3.BoolVal(False), z3.ULT(a, b))))


def feq_bits(a, b, n):
    a, b = tobv(a, n), tobv(b, n)
    return z3.Or(a == b, z3.And(iszero_bits(a, n), iszero_bits(b, n)))


def fcmp_bits(p, a, b, n):
    if p == 'true': return 1
    if p == 'false': return 0
    un = z3.Or(isnan_bits(a, n), isnan_bits(b, n))
    if p == 'uno': return un
    if p == 'ord': return z3.Not(un)
    q = p[1:]
    lt = flt_bits(a, b, n)
    eq = feq_bits(a, b, n)
    r = {'eq': lambda: eq, 'lt': lambda: lt, 'le': lambda: z3.Or(lt, eq), 'gt': lambda: z3.And(z3.Not(lt), z3.Not(eq)),
         'ge': lambda: z3.Not(lt), 'ne': lambda: z3.Not(eq)}[q]()
    return z3.And(z3.Not(un), r) if p[0] == 'o' else z3.Or(un, r)


def fcmp_conc(p, a, b):
    un = a != a or b != b
    if p == 'true': return 1
    if p == 'false': return 0
    if p == 'uno': return int(un)
    if p == 'ord': return int(not un)
    q = p[1:]
    if un: return int(p[0] == 'u')
    return int({'eq': a == b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b, 'ne': a != b}[q])


_ufs = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _ufs: _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]


class Cat:
    """opaque concatenation, little endian: tuple of (value, nbits)"""
    __slots__ = ('parts',)

    def __init__(self, parts): self.parts = tuple(parts)

    def __repr__(self): return 'Cat%r' % (self.parts,)


def parts_of(v, n):
    return list(v.parts) if isinstance(v, Cat) else [(v, n)]


def cat(parts):
    """combine little-endian (value,nbits)"""
    if len(parts) == 1: return parts[0][0]
    if all(isinstance(v, int) for v, _ in parts):
        r = sh = 0
        for v, n in parts:
            r |= v << sh
            sh += n
        return r
    if any(v is POISON for v, _ in parts):
        return POISON
    if all(isinstance(v, int) or is_bv(v) or is_bool(v) for v, _ in parts):
        return z3.Concat(*[tobv(v, n) for v, n in reversed(parts)])
    out = []
    for v, n in parts:
        out += parts_of(v, n)
    return Cat(out)


def slice_(v, n, lo, cnt):
    """bits [lo,lo+cnt) of an n-bit value"""
    if lo == 0 and cnt == n: return v
    if v is POISON: return POISON
    if isinstance(v, int): return (v >> lo) & mask(cnt)
    if is_bool(v): v = tobv(v, n)
    if is_bv(v):
        # extract from concat quickly
        if z3.is_app_of(v, z3.Z3_OP_CONCAT):
            pos = n
            for ch in v.children():
                w = ch.size()
                if lo >= pos - w and lo + cnt <= pos:
                    if w == cnt: return simp(ch)
                    return slice_(simp(ch), w, lo - (pos - w), cnt)
                pos -= w
        return simp(z3.Extract(lo + cnt - 1, lo, v))
    if isinstance(v, Cat):
        pos = 0
        out = []
        for p, w in v.parts:
            a, b = max(lo, pos), min(lo + cnt, pos + w)
            if a < b:
                out.append((slice_(p, w, a - pos, b - a), b - a))
            pos += w
        return cat(out)
    raise Unsupported('slice of opaque value %r' % (v,))


# ---------------------------------------------------------------- polynomials over the reals
class Poly:
    """exact polynomial with rational coefficients over named atoms; key: sorted tuple of atoms"""
    __slots__ = ('t',)

    def __init__(self, t): self.t = t

    @staticmethod
    def const(c): return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def var(name): return Poly({(name,): Fraction(1)})

    def is_const(self): return all(k == () for k in self.t)

    def const_value(self): return self.t.get((), Fraction(0))

    def __add__(self, o):
        o = topoly(o)
        if len(o.t) > len(self.t): self, o = o, self
        r = dict(self.t)
        for k, v in o.t.items():
            s = r.get(k, 0) + v
            if s: r[k] = s
            else: r.pop(k, None)
        return Poly(r)

    __radd__ = __add__

    def __neg__(self): return Poly({k: -v for k, v in self.t.items()})

    def __sub__(self, o): return self + (-topoly(o))

    def __rsub__(self, o): return topoly(o) - self

    def __mul__(self, o):
        o = topoly(o)
        r = {}
        for k1, v1 in self.t.items():
            for k2, v2 in o.t.items():
                k = tuple(sorted(k1 + k2))
                s = r.get(k, 0) + v1 * v2
                if s: r[k] = s
                else: r.pop(k, None)
        return Poly(r)

    __rmul__ = __mul__

    def __eq__(self, o): return self.t == topoly(o).t

    def __hash__(self): return hash(frozenset(self.t.items()))

    def key(self): return tuple(sorted((k, v) for k, v in self.t.items()))

    def eval(self, env):
        s = Fraction(0)
        for k, v in self.t.items():
            for a in k: v = v * env[a]
            s += v
        return s

    def __repr__(self):
        return ' + '.join('%s*%s' % (v, '*'.join(map(str, k))) for k, v in sorted(self.t.items())[:8]) or '0'


def topoly(x):
    if isinstance(x, Poly): return x
    return Poly.const(Fraction(x))


def swapped(a, b):
    """canonical operand order of a commutative operation: constants last"""
    ca, cb = z3.is_bv_value(a), z3.is_bv_value(b)
    return ca and not cb if ca != cb else a.get_id() > b.get_id()


class BitsDomain:
    """floats are IEEE bit patterns; mode 'uf': arithmetic is an uninterpreted function of the operand bits
    (commutative operations canonicalised); mode 'ieee': SMT floating-point theory"""

    def __init__(self, mode='uf'):
        self.mode = mode
        self.reps = {}  # integer terms converted to floating point, by width
        self.prov = {}  # term -> (operation, operands) that produced it

    def conc(self, op, n, *a):
        f = [bits2f(x, n) for x in a]
        with np.errstate(all='ignore'):
            if op == 'fadd': r = f[0] + f[1]
            elif op == 'fsub': r = f[0] - f[1]
            elif op == 'fmul': r = f[0] * f[1]
            elif op == 'fdiv': r = f[0] / f[1]
            elif op == 'frem': r = np.fmod(f[0], f[1])
            elif op == 'sqrt': r = np.sqrt(f[0])
            elif op == 'fma':
                if any(not np.isfinite(x) for x in f): r = f[0] * f[1] + f[2]
                else:
                    v = Fraction(float(f[0])) * Fraction(float(f[1])) + Fraction(float(f[2]))
                    r = float(v) if n == 64 else frac2f32(v)
            elif op == 'fmuladd': r = f[0] * f[1] + f[2]
            else: raise Unsupported('conc ' + op)
        return f2bits(r, n)

    def op(self, op, n, *a):
        if any(x is POISON for x in a): return POISON
        if n in (32, 64) and all(isinstance(x, int) for x in a):
            return self.conc(op, n, *a)
        a = [tobv(x, n) for x in a]
        if self.mode == 'ieee' and n in (32, 64):
            fa = [tofp(x, n) for x in a]
            rm = z3.RNE()
            if op == 'fadd': r = z3.fpAdd(rm, fa[0], fa[1])
            elif op == 'fsub': r = z3.fpSub(rm, fa[0], fa[1])
            elif op == 'fmul': r = z3.fpMul(rm, fa[0], fa[1])
            elif op == 'fdiv': r = z3.fpDiv(rm, fa[0], fa[1])
            elif op == 'sqrt': r = z3.fpSqrt(rm, fa[0])
            elif op == 'fma': r = z3.fpFMA(rm, *fa)
            elif op == 'fmuladd': r = z3.fpAdd(rm, z3.fpMul(rm, fa[0], fa[1]), fa[2])
            else: raise Unsupported('ieee ' + op)
            r = z3.fpToIEEEBV(r)
            self.prov[r.get_id()] = (op, a, r)
            return r
        if op in ('fadd', 'fmul') and swapped(a[0], a[1]): a = [a[1], a[0]]
        if op in ('fma', 'fmuladd'):
            op = 'fma'
            if swapped(a[0], a[1]): a = [a[1], a[0], a[2]]
        s = z3.BitVecSort(n)
        return uf('%s%d' % (op, n), *([s] * (len(a) + 1)))(*a)

    def neg(self, n, a):
        if a is POISON: return POISON
        if isinstance(a, int): return a ^ (1 << (n - 1))
        return a ^ BVV(1 << (n - 1), n)

    def abs(self, n, a):
        if a is POISON: return POISON
        if isinstance(a, int): return a & mask(n - 1)
        return a & BVV(mask(n - 1), n)

    def cmp(self, p, n, a, b):
        if a is POISON or b is POISON: return POISON
        if isinstance(a, int) and isinstance(b, int) and n in (32, 64):
            return fcmp_conc(p, float(bits2f(a, n)), float(bits2f(b, n)))
        if n == 80: raise Unsupported('fcmp fp80')
        return simp(fcmp_bits(p, a, b, n))

    def canonical(self, x):
        """an earlier integer operand proved equal to this one, so that conversions of equal integers are the same term"""
        reps = self.reps.setdefault(x.size(), [])
        for r in reps:
            if r.get_id() == x.get_id(): return r
        if len(x.sexpr()) < 2000:
            for r in reps[:6]:
                sv = z3.Solver()
                sv.set('timeout', 200)
                sv.add(r != x)
                if sv.check() == z3.unsat: return r
        reps.append(x)
        return x

    def from_int(self, signed, ni, nf, x):
        if x is POISON: return POISON
        if isinstance(x, int):
            v = sgn(x, ni) if signed else x
            return f2bits(float(v) if nf == 64 else frac2f32(Fraction(v)), nf)
        if is_bool(x): x = tobv(x, 1)
        x = self.canonical(x)
        pv = self.prov.get(x.get_id())
        if self.mode == 'ieee' and pv and pv[0] == 'to_int' and signed and pv[3:] == (nf, ni):
            # sitofp(fptosi(y)): the truncated value is exactly representable in the format y came from
            y = pv[1][0]
            fy = tofp(y, nf)
            r = z3.fpToIEEEBV(z3.fpRoundToIntegral(z3.RTZ(), fy))
            return z3.If(pv[2].arg(0), z3.If(iszero_bits(r, nf), BVV(0, nf), r), BVV(f2bits(float(-(1 << (ni - 1))), nf), nf))
        if self.mode == 'ieee':
            f = z3.fpSignedToFP if signed else z3.fpUnsignedToFP
            return z3.fpToIEEEBV(f(z3.RNE(), x, fsort(nf)))
        return uf('%stofp%d_%d' % ('s' if signed else 'u', ni, nf), z3.BitVecSort(ni), z3.BitVecSort(nf))(x)

    def to_int(self, signed, nf, ni, x, x86=True):
        if x is POISON: return POISON
        if isinstance(x, int):
            f = float(bits2f(x, nf))
            if f != f or abs(f) == float('inf'): return 1 << (ni - 1)
            v = int(f)
            lo, hi = (-(1 << (ni - 1)), (1 << (ni - 1)) - 1) if signed else (0, mask(ni))
            if not lo <= v <= hi: return 1 << (ni - 1) if signed else POISON
            return v & mask(ni)
        if self.mode == 'ieee':
            fx = tofp(x, nf)
            if signed:
                # x86 cvtt semantics: out of range gives the integer indefinite value (assumption: LLVM lowers fptosi to cvtt*)
                w = ni + 2 if ni < 62 else ni
                lo = z3.fpBVToFP(BVV(f2bits(float(-(1 << (ni - 1))), nf), nf), fsort(nf))
                hi = z3.fpBVToFP(BVV(f2bits(float(1 << (ni - 1)), nf), nf), fsort(nf))
                ok = z3.And(z3.Not(z3.fpIsNaN(fx)), z3.fpGEQ(z3.fpRoundToIntegral(z3.RTZ(), fx), lo), z3.fpLT(fx, hi))
                r = z3.If(ok, z3.fpToSBV(z3.RTZ(), fx, z3.BitVecSort(ni)), BVV(1 << (ni - 1), ni))
                self.prov[r.get_id()] = ('to_int', [x], r, nf, ni)
                return r
            return z3.fpToUBV(z3.RTZ(), fx, z3.BitVecSort(ni))
        return uf('fpto%si%d_%d' % ('s' if signed else 'u', nf, ni), z3.BitVecSort(nf), z3.BitVecSort(ni))(x)

    def conv(self, n1, n2, x):
        if x is POISON or n1 == n2: return x
        if isinstance(x, int) and n1 in (16, 32, 64) and n2 in (16, 32, 64):
            return f2bits(bits2f(x, n1), n2)
        if self.mode == 'ieee' and n1 != 80 and n2 != 80:
            return z3.fpToIEEEBV(z3.fpFPToFP(z3.RNE(), tofp(x, n1), fsort(n2)))
        return uf('fpconv%d_%d' % (n1, n2), z3.BitVecSort(n1), z3.BitVecSort(n2))(tobv(x, n1))

    def minmax(self, n, ismax, a, b):
        """llvm.minnum/maxnum"""
        if a is POISON or b is POISON: return POISON
        c = self.cmp('olt', n, b, a) if not ismax else self.cmp('olt', n, a, b)
        an, bn = isnan_bits(a, n), isnan_bits(b, n)
        return z3.If(an, tobv(b, n), z3.If(bn, tobv(a, n), z3.If(tobool(c), tobv(b, n), tobv(a, n))))

    def libm(self, name, n, *a):
        if any(x is POISON for x in a): return POISON
        if all(isinstance(x, int) for x in a) and n in (32, 64):
            r = libm_conc(name, n, [bits2f(x, n) for x in a])
            if r is not None: return f2bits(r, n)
        s = z3.BitVecSort(n)
        return uf('%s%d' % (name, n), *([s] * (len(a) + 1)))(*[tobv(x, n) for x in a])

    def round(self, kind, n, a):
        if a is POISON: return POISON
        if isinstance(a, int):
            return f2bits(round_conc(kind, bits2f(a, n)), n)
        if self.mode == 'ieee':
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'round': z3.RNA()}[kind]
            return z3.fpToIEEEBV(z3.fpRoundToIntegral(rm, tofp(a, n)))
        return uf('r%s%d' % (kind, n), z3.BitVecSort(n), z3.BitVecSort(n))(a)


def round_conc(kind, f):
    f = float(f)
    if f != f or abs(f) == float('inf'): return f
    import math
    if kind == 'floor': r = np.floor(f)
    elif kind == 'ceil': r = np.ceil(f)
    elif kind == 'trunc': r = np.trunc(f)
    elif kind == 'rint': r = np.rint(f)
    else: r = np.copysign(np.floor(abs(f) + 0.5) if abs(f) < 2**52 and abs(f) != 0.49999999999999994 else abs(np.rint(f)), f)
    return float(np.copysign(r, f))


def libm_conc(name, n, a):
    import math
    nm = name[:-1] if name.endswith('f') and name[:-1] in ('sin', 'cos', 'exp', 'log', 'pow', 'sqrt', 'tan', 'log2', 'exp2', 'log10') else name
    f = getattr(np, {'pow': 'power'}.get(nm, nm), None)
    if f is None: return None
    with np.errstate(all='ignore'):
        return f(*a)


def frac2f32(v):
    """correctly rounded Fraction -> float32"""
    if v == 0: return np.float32(0)
    d = float(v)  # correctly rounded to double
    f = np.float32(d)
    if Fraction(d) == v: return f
    # fix double rounding
    a = np.nextafter(f, np.float32(-np.inf), dtype=np.float32)
    b = np.nextafter(f, np.float32(np.inf), dtype=np.float32)
    best = None
    for c in (a, f, b):
        if not np.isfinite(c): continue
        e = abs(Fraction(float(c)) - v)
        ev = int(np.frombuffer(np.float32(c).tobytes(), np.uint32)[0]) & 1
        if best is None or (e, ev) < best[:2]: best = (e, ev, c)
    return best[2]


class RealDomain(BitsDomain):
    """concrete floats stay IEEE bit patterns; symbolic floats are exact real polynomials (rounding not modelled)"""

    def __init__(self, maxterms=200000):
        self.prov = {}
        BitsDomain.__init__(self, 'uf')
        self.atoms = {}

    def lift(self, x, n):
        if isinstance(x, Poly): return x
        if isinstance(x, int): return Poly.const(bits2frac(x, n))
        if is_bv(x):
            return self.atom('bits', (x.get_id(),), x)
        raise Unsupported('real lift %r' % (x,))

    def atom(self, f, args, keep=None):
        k = (f,) + tuple(args)
        if k not in self.atoms: self.atoms[k] = ('%s#%d' % (f, len(self.atoms)), keep)
        return Poly.var(self.atoms[k][0])

    def op(self, op, n, *a):
        if any(x is POISON for x in a): return POISON
        if all(isinstance(x, int) for x in a):
            if n == 80: 
                f = [bits2frac(x, 80) for x in a]
                r = {'fadd': lambda: f[0] + f[1], 'fsub': lambda: f[0] - f[1], 'fmul': lambda: f[0] * f[1], 'fdiv': lambda: f[0] / f[1]}[op]()
                return Poly.const(r)
            return self.conc(op, n, *a)
        p = [self.lift(x, n) for x in a]
        if op == 'fadd': return p[0] + p[1]
        if op == 'fsub': return p[0] - p[1]
        if op == 'fmul': return p[0] * p[1]
        if op in ('fma', 'fmuladd'): return p[0] * p[1] + p[2]
        if op == 'fdiv':
            if p[1].is_const() and p[1].const_value() != 0: return p[0] * (1 / p[1].const_value())
            return p[0] * self.atom('inv', (p[1].key(),), p[1])
        return self.atom(op, tuple(q.key() for q in p), p)

    def neg(self, n, a):
        if isinstance(a, Poly): return -a
        return BitsDomain.neg(self, n, a)

    def abs(self, n, a):
        if isinstance(a, Poly): return self.atom('abs', (max(a.key(), (-a).key()),), a)
        return BitsDomain.abs(self, n, a)

    def cmp(self, p, n, a, b):
        if isinstance(a, Poly) or isinstance(b, Poly):
            d = self.lift(a, n) - self.lift(b, n)
            if d.is_const():
                c = d.const_value()
                q = p[1:]
                return int({'eq': c == 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'ne': c != 0, 'rd': True, 'no': False}[q])
            if p in ('ord',): return 1
            if p in ('uno',): return 0
            return self.cmp_sym(p, d)
        return BitsDomain.cmp(self, p, n, a, b)

    def cmp_sym(self, p, d):
        raise Unsupported('comparison of symbolic reals')

    def from_int(self, signed, ni, nf, x):
        if nf == 80 and isinstance(x, int):
            return Poly.const(Fraction(sgn(x, ni) if signed else x))
        return BitsDomain.from_int(self, signed, ni, nf, x)

    def conv(self, n1, n2, x):
        if isinstance(x, Poly):
            if n1 == 80 and x.is_const():
                v = x.const_value()
                return f2bits(float(v) if n2 == 64 else frac2f32(v), n2)
            return x
        if n1 == 80 and isinstance(x, int):
            v = bits2frac(x, 80)
            return f2bits(float(v) if n2 == 64 else frac2f32(v), n2)
        if n2 == 80 and isinstance(x, int):
            return Poly.const(bits2frac(x, n1))
        return BitsDomain.conv(self, n1, n2, x)

    def to_int(self, signed, nf, ni, x, x86=True):
        if isinstance(x, Poly):
            if x.is_const():
                v = x.const_value()
                return int(v) & mask(ni)
            raise Unsupported('float->int of symbolic real')
        return BitsDomain.to_int(self, signed, nf, ni, x, x86)

    def minmax(self, n, ismax, a, b):
        if isinstance(a, int) and isinstance(b, int): 
            return simpl(BitsDomain.minmax(self, n, ismax, a, b))
        if isinstance(a, Poly) or isinstance(b, Poly):
            pa, pb = self.lift(a, n), self.lift(b, n)
            if pa == pb: return a
            return self.atom('max' if ismax else 'min', tuple(sorted((pa.key(), pb.key()))), (pa, pb))
        return BitsDomain.minmax(self, n, ismax, a, b)

    def libm(self, name, n, *a):
        if any(isinstance(x, Poly) for x in a):
            p = [self.lift(x, n) for x in a]
            if all(q.is_const() for q in p):
                return BitsDomain.libm(self, name, 64, *[f2bits(float(q.const_value()), 64) for q in p]) if n == 64 else BitsDomain.libm(self, name, n, *[f2bits(float(q.const_value()), n) for q in p])
            return self.atom(name, tuple(q.key() for q in p), p)
        return BitsDomain.libm(self, name, n, *a)

    def round(self, kind, n, a):
        if isinstance(a, Poly): return self.atom('r' + kind, (a.key(),), a)
        return BitsDomain.round(self, kind, n, a)


class Lin:
    """linear form over the input samples: numpy coefficient vector (last entry: constant)"""
    __slots__ = ('v',)

    def __init__(self, v): self.v = v


class LinDomain(RealDomain):
    def __init__(self, nvars):
        RealDomain.__init__(self)
        self.nv = nvars

    def var(self, i):
        v = np.zeros(self.nv + 1)
        v[i] = 1
        return Lin(v)

    def num(self, x, n):
        if n == 80: return float(bits2frac(x, 80))
        return float(bits2f(x, n))

    def op(self, op, n, *a):
        if any(x is POISON for x in a): return POISON
        li = [isinstance(x, Lin) for x in a]
        if not any(li): return RealDomain.op(self, op, n, *a)
        if op == 'fadd':
            if li[0] and li[1]: return Lin(a[0].v + a[1].v)
            x, c = (a[0], a[1]) if li[0] else (a[1], a[0])
            c = self.num(c, n)
            if c == 0: return x
            v = x.v.copy()
            v[-1] += c
            return Lin(v)
        if op == 'fsub':
            return self.op('fadd', n, a[0], self.neg(n, a[1]))
        if op == 'fmul':
            if li[0] and li[1]: raise Unsupported('product of two inputs (not linear)')
            x, c = (a[0], a[1]) if li[0] else (a[1], a[0])
            return Lin(x.v * self.num(c, n))
        if op in ('fma', 'fmuladd'):
            return self.op('fadd', n, self.op('fmul', n, a[0], a[1]), a[2])
        if op == 'fdiv':
            if li[1]: raise Unsupported('division by input (not linear)')
            return Lin(a[0].v / self.num(a[1], n))
        raise Unsupported('non-linear operation ' + op)

    def neg(self, n, a):
        if isinstance(a, Lin): return Lin(-a.v)
        return RealDomain.neg(self, n, a)

    def cmp(self, p, n, a, b):
        if isinstance(a, Lin) or isinstance(b, Lin): raise Unsupported('branch on input data')
        return RealDomain.cmp(self, p, n, a, b)

    def conv(self, n1, n2, x):
        if isinstance(x, Lin): return x
        return RealDomain.conv(self, n1, n2, x)

    def abs(self, n, a):
        if isinstance(a, Lin): raise Unsupported('abs of input (not linear)')
        return RealDomain.abs(self, n, a)

    def to_int(self, signed, nf, ni, x, x86=True):
        if isinstance(x, Lin): raise Unsupported('float->int of input')
        return RealDomain.to_int(self, signed, nf, ni, x, x86)

    def minmax(self, n, ismax, a, b):
        if isinstance(a, Lin) or isinstance(b, Lin): raise Unsupported('min/max of input')
        return RealDomain.minmax(self, n, ismax, a, b)

    def libm(self, name, n, *a):
        if any(isinstance(x, Lin) for x in a): raise Unsupported('%s of input' % name)
        return RealDomain.libm(self, name, n, *a)


def opaque(v): return isinstance(v, (Poly, Lin, Cat))
