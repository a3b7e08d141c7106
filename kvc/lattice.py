"""Order-theoretic normal form: terms built from min/max of the inputs of a total order."""
import z3, random, os, hashlib, fcntl, subprocess
from .dom import *


class Lat:
    """hash-consed lattice terms; node = ('v', i) | ('min', a, b) | ('max', a, b) with node ids"""

    def __init__(self):
        self.nodes = []
        self.ix = {}

    def mk(self, *n):
        if n[0] in ('min', 'max'):
            if n[1] == n[2]: return n[1]
            if n[1] > n[2]: n = (n[0], n[2], n[1])
        k = self.ix.get(n)
        if k is None:
            k = self.ix[n] = len(self.nodes)
            self.nodes.append(n)
        return k

    def var(self, i): return self.mk('v', i)


class Abstraction:
    """installs itself in an executor: every value that is provably min(x, y) or max(x, y) of two lattice atoms is replaced by a
    fresh atom denoting that lattice term (decided by Z3, once per shape of the expression)"""

    def __init__(self, X, inputs, order, n, absnodes=False):
        self.X, self.order, self.n, self.absnodes = X, order, n, absnodes
        self.L = Lat()
        self.node = {}
        self.keep = []
        self.cache = {}
        for i, v in enumerate(inputs): self.reg(v, self.L.var(i))
        self.P, self.Q = BV('lat_p', n), BV('lat_q', n)
        ite, binop = X.ite, X.binop
        X.ite = lambda c, a, b, w: self.abstract(ite(c, a, b, w))
        X.binop = lambda op, w, a, b, fl: self.abstract(binop(op, w, a, b, fl)) if op in ('or', 'xor', 'and', 'sub') else binop(op, w, a, b, fl)
        self.names = {}
        bc = X.bitcast

        def bitcast(v, tf, tt):
            r = bc(v, tf, tt)
            return [self.abstract(x) for x in r] if isinstance(r, list) else self.abstract(r)
        X.bitcast = bitcast

        def post(v):
            if is_bv(v) and v.size() == n: return self.abstract(v)
            if not isinstance(v, list) or not v: return v
            if any(is_bv(x) and x.size() == n for x in v): return [self.abstract(x) for x in v]
            w = next((x.size() for x in v if is_bv(x)), None)
            if w is None or w >= n or n % w: return v
            g = n // w
            if len(v) % g: return v
            out = []
            for k in range(0, len(v), g):
                ch = v[k:k + g]
                if all(is_bv(x) for x in ch):
                    a = self.abstract(cat([(x, w) for x in ch]))
                    if is_bv(a) and a.get_id() in self.node: ch = [slice_(a, n, j * w, w) for j in range(g)]
                out += ch
            return out
        X.posthook = post
        if absnodes:
            dabs = X.dom.abs
            X.dom.abs = lambda w, a: self.abstract(dabs(w, a))

    def reg(self, v, k):
        self.node[v.get_id()] = k
        self.keep.append(v)
        return v

    def atoms(self, t, seen, out):
        i = t.get_id()
        if i in seen or len(out) > 2: return
        seen.add(i)
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[i] = t
            return
        for c in t.children(): self.atoms(c, seen, out)

    def abstract(self, v):
        if not is_bv(v) or v.size() != self.n or z3.is_const(v): return v
        out = {}
        self.atoms(v, set(), out)
        if len(out) == 1:
            v2 = z3.simplify(v)
            if v2.get_id() in self.node: return v2
            (i, x), = out.items()
            if i not in self.node: return v
            c = z3.substitute(v, (x, self.P))
            k = self.cache.get(c.get_id())
            if k is None: k = self.cache[c.get_id()] = (c, self.classify1(c))
            if k[1] == 'id': return x
            if k[1] == 'abs':
                nd = self.absnode(self.node[i])
                if nd not in self.names: self.names[nd] = BV('lat!%d' % nd, self.n)
                return self.reg(self.names[nd], nd)
            return v
        if self.absnodes and len(out) == 3 and all(i in self.node for i in out):
            # an absolute value next to other uses of its operand: unfold it
            for i, x in out.items():
                d = self.L.nodes[self.node[i]]
                if d[0] == 'abs':
                    o = next((y for j, y in out.items() if self.node[j] == d[1]), None)
                    if o is not None:
                        v = z3.simplify(z3.substitute(v, (x, self.absval(o))))
                        break
            out = {}
            self.atoms(v, set(), out)
        if len(out) != 2 or any(i not in self.node for i in out): return v
        (i, x), (j, y) = out.items()
        c = z3.substitute(v, (x, self.P), (y, self.Q))
        fl = (self.isabs(self.node[i]), self.isabs(self.node[j])) if self.absnodes else (False, False)
        k = self.cache.get((c.get_id(), fl))
        if k is None:
            k = (c, self.classify(c, fl))
            self.cache[(c.get_id(), fl)] = k
        if k[1] is None: return v
        u, w = self.node[i], self.node[j]
        if self.absnodes and k[1][1]: u = self.absnode(u)
        if self.absnodes and k[1][2]: w = self.absnode(w)
        nd = self.L.mk(k[1][0], u, w)
        if nd not in self.names: self.names[nd] = BV('lat!%d' % nd, self.n)
        return self.reg(self.names[nd], nd)

    def deep(self, v):
        """abstracts every subterm of the element width, innermost first (for values that travelled through wider registers)"""
        if not is_bv(v) or v.get_id() in self.node: return v
        v = z3.simplify(v)
        memo = {}
        stack = [(v, False)]
        while stack:
            t, done = stack.pop()
            i = t.get_id()
            if i in memo: continue
            ch = t.children()
            if not ch:
                memo[i] = t
                continue
            if not done:
                stack.append((t, True))
                stack += [(c, False) for c in ch if c.get_id() not in memo]
                continue
            nc = [memo[c.get_id()] for c in ch]
            if any(a.get_id() != b.get_id() for a, b in zip(nc, ch)): r = z3.simplify(t.decl()(*nc) if t.num_args() == len(nc) else t)
            else: r = t
            if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_EXTRACT and r.arg(0).decl().kind() in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
                h, l = r.params()
                q = r.arg(0)
                r = z3.simplify(q.decl()(*[z3.simplify(z3.Extract(h, l, c)) for c in q.children()]) if q.num_args() != 2 else {z3.Z3_OP_BAND: lambda a, b: a & b, z3.Z3_OP_BOR: lambda a, b: a | b, z3.Z3_OP_BXOR: lambda a, b: a ^ b}[q.decl().kind()](*[z3.simplify(z3.Extract(h, l, c)) for c in q.children()]))
            if is_bv(r) and r.size() == self.n: r = self.abstract(r)
            self.keep.append(t)
            memo[i] = r
        return memo[v.get_id()]

    def isabs(self, k):
        nd = self.L.nodes[k]
        return nd[0] == 'abs' or nd[0] in ('min', 'max') and self.isabs(nd[1]) and self.isabs(nd[2])

    def absnode(self, k): return k if self.isabs(k) else self.L.mk('abs', k)

    def classify1(self, r):
        """a value computed from one atom: the atom itself (identity element combined) or its absolute value"""
        p, n = self.P, self.n
        pre = [z3.Not(isnan_bits(p, n))] if self.order == 'f' else []
        if not self.absnodes:
            same = z3.Or(r == p, z3.And(iszero_bits(r, n), iszero_bits(p, n))) if self.order == 'f' else r == p
            return 'id' if self.X.check(pre, z3.Not(same))[0] == z3.unsat else None
        ab = p & mask(n - 1) if self.order == 'f' else z3.If(p < 0, -p, p) if self.order == 's' else p
        if self.X.check(pre, z3.Not(r == ab))[0] == z3.unsat: return 'abs'
        return None

    def absval(self, p): return p & mask(self.n - 1) if self.order == 'f' else z3.If(p < 0, -p, p) if self.order == 's' else p

    def classify(self, r, known=(False, False)):
        P, Q, n = self.P, self.Q, self.n
        if self.order == 'f':
            pre = [z3.Not(isnan_bits(P, n)), z3.Not(isnan_bits(Q, n))]
            lt = lambda a, b: flt_bits(a, b, n)
        else:
            pre = []
            lt = (lambda a, b: a < b) if self.order == 's' else z3.ULT
        for k, x in zip(known, (P, Q)):
            if k: pre.append(self.absval(x) == x)
        for ap, aq in ([(0, 0), (1, 0), (0, 1), (1, 1)] if self.absnodes else [(0, 0)]):
            if ap and known[0] or aq and known[1]: continue
            p, q = self.absval(P) if ap else P, self.absval(Q) if aq else Q
            sel = z3.Or(r == p, r == q)
            for nm, c in (('min', z3.And(sel, z3.Not(lt(p, r)), z3.Not(lt(q, r)))), ('max', z3.And(sel, z3.Not(lt(r, p)), z3.Not(lt(r, q))))):
                if self.X.check(pre, z3.Not(c))[0] == z3.unsat: return nm, ap, aq
        return None


def oddeven(L, ins, desc):
    """odd-even transposition sort in len(ins) rounds: the textbook network, known to sort"""
    v = list(ins)
    lo, hi = ('max', 'min') if desc else ('min', 'max')
    for r in range(len(v)):
        for i in range(r % 2, len(v) - 1, 2):
            v[i], v[i + 1] = L.mk(lo, v[i], v[i + 1]), L.mk(hi, v[i], v[i + 1])
    return v


def decide_sort(L, outs, N, desc, z3timeout=60000):
    """(verdict, method, 0-1 counterexample). zero-one principle: lattice terms commute with monotone maps, so the
    outputs are the order statistics of every input iff they are on every 0-1 input"""
    ins = [L.var(i) for i in range(N)]
    H = N // 2
    for perm in (range(N), [i // 2 + (i % 2) * H for i in range(N)], [(i % H) * 2 + i // H for i in range(N)]):
        ref = oddeven(L, [ins[i] for i in perm], desc)
        if ref == outs: return True, 'normal form (odd-even transposition network)', None
    if N <= 16:
        # all 2^N 0-1 inputs at once, as bit vectors of length 2^N
        M = 1 << N
        ones = (1 << M) - 1
        val = {}
        for k, nd in enumerate(L.nodes):
            if nd[0] == 'v':
                i = nd[1]
                blk = ((1 << (1 << i)) - 1) << (1 << i)
                w = 1 << (i + 1)
                while w < M:
                    blk |= blk << w
                    w *= 2
                val[k] = blk & ones
            elif nd[0] == 'min': val[k] = val[nd[1]] & val[nd[2]]
            else: val[k] = val[nd[1]] | val[nd[2]]
        # threshold functions by counting (bit-sliced)
        refv = [val[x] for x in ref]
        for j, o in enumerate(outs):
            d = val[o] ^ refv[j]
            if d:
                b = (d & -d).bit_length() - 1
                return False, '0-1 principle', ([(b >> i) & 1 for i in range(N)], j)
        return True, '0-1 principle over all 2^%d Boolean inputs' % N, None
    r = exhaustive32(L, outs, N, desc) if N <= 32 else None
    if r is not None: return r
    # larger networks: random 0-1 search, then SAT
    rnd = random.Random(7)
    for _ in range(200):
        # 64 random 0-1 inputs at a time
        W = 256
        iv = []
        for i in range(N):
            iv.append(rnd.getrandbits(W) if rnd.random() < 0.5 else (rnd.getrandbits(W) & rnd.getrandbits(W)))
        val = {}
        for k, nd in enumerate(L.nodes):
            val[k] = iv[nd[1]] if nd[0] == 'v' else (val[nd[1]] & val[nd[2]] if nd[0] == 'min' else val[nd[1]] | val[nd[2]])
        for j, o in enumerate(outs):
            d = val[o] ^ val[ref[j]]
            if d:
                b = (d & -d).bit_length() - 1
                return False, '0-1 principle', ([(iv[i] >> b) & 1 for i in range(N)], j)
    # every 0-1 input with at most two transitions (sorted blocks), then SAT
    bs = [z3.Bool('b%d' % i) for i in range(N)]
    val = {}
    for k, nd in enumerate(L.nodes):
        val[k] = bs[nd[1]] if nd[0] == 'v' else (z3.And(val[nd[1]], val[nd[2]]) if nd[0] == 'min' else z3.Or(val[nd[1]], val[nd[2]]))
    sv = z3.Solver()
    sv.set('timeout', z3timeout)
    sv.add(z3.Or([val[outs[j]] != val[ref[j]] for j in range(N)]))
    r = sv.check()
    if r == z3.unsat: return True, 'SAT', None
    if r == z3.sat:
        m = sv.model()
        return False, 'SAT', ([int(z3.is_true(m.eval(b, model_completion=True))) for b in bs], -1)
    return None, 'SAT timeout', None


def exhaustive32(L, outs, N, desc):
    """all 2^N 0-1 inputs (N <= 32), 512 at a time, by a generated C program; results shared between workers"""
    from . import ir
    live, st = set(), list(outs)
    while st:
        k = st.pop()
        if k in live: continue
        live.add(k)
        if L.nodes[k][0] != 'v': st += L.nodes[k][1:]
    order = sorted(live)
    ren = {k: i for i, k in enumerate(order)}
    prog = [(L.nodes[k][0],) + (tuple(ren[x] for x in L.nodes[k][1:]) if L.nodes[k][0] != 'v' else (L.nodes[k][1],)) for k in order]
    key = hashlib.sha1(repr((prog, [ren[o] for o in outs], N, desc)).encode()).hexdigest()
    base = os.path.join(ir.workdir(), 'net_' + key)
    with open(base + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(base + '.res'):
            C = ['#include <stdint.h>', '#include <stdio.h>', 'typedef uint64_t V __attribute__((vector_size(32)));',
                 '#define R(x) {x,x,x,x}', 'int main(){', 'static const V lo[8]={' + ','.join('{%s}' % ','.join('0x%xull' % sum(((b + 64 * w) >> i & 1) << b for b in range(64)) for w in range(4)) for i in range(8)) + '};',
                 'for(uint64_t blk=0; blk<(1ull<<%d); blk++){' % (N - 8), 'V bad=R(0);']
            for k, nd in enumerate(prog):
                if nd[0] == 'v':
                    if nd[1] < 8: C.append('V n%d=lo[%d];' % (k, nd[1]))
                    else: C.append('uint64_t s%d=-((blk>>%d)&1); V n%d=R(s%d);' % (k, nd[1] - 8, k, k))
                else: C.append('V n%d=n%d%sn%d;' % (k, nd[1], '&' if nd[0] == 'min' else '|', nd[2]))
            oo = [ren[o] for o in outs]
            for a, b in zip(oo, oo[1:]): C.append('bad|=n%d&~n%d;' % ((b, a) if desc else (a, b)))
            C.append('if(bad[0]|bad[1]|bad[2]|bad[3]){ for(int w=0;w<4;w++) if(bad[w]){ printf("%llu\\n",(unsigned long long)(blk*256+w*64+__builtin_ctzll(bad[w]))); return 0; } } }')
            C.append('puts("ok"); return 0; }')
            with open(base + '.c', 'w') as f: f.write('\n'.join(C))
            subprocess.run(['clang-18', '-O2', '-mavx2', '-w', base + '.c', '-o', base + '.exe'], check=True)
            r = subprocess.run([base + '.exe'], stdout=subprocess.PIPE, text=True, timeout=400).stdout.strip()
            with open(base + '.res', 'w') as f: f.write(r)
        r = open(base + '.res').read()
    if r == 'ok':
        # monotone outputs; as a set of comparators permutes its inputs it suffices that the number of ones is preserved
        if not comparator_network(L, live, outs): return None
        return True, '0-1 principle over all 2^%d Boolean inputs' % N, None
    b = int(r)
    return False, '0-1 principle', ([(b >> i) & 1 for i in range(N)], -1)


def comparator_network(L, live, outs):
    """every value is consumed exactly once, by a min and the max of the same pair (comparators), and every output is used once"""
    pairs, uses = {}, {}
    for k in live:
        nd = L.nodes[k]
        if nd[0] != 'v': pairs.setdefault((nd[1], nd[2]), set()).add(nd[0])
    for p, ops in pairs.items():
        if len(ops) != 2: return False
        for x in p: uses[x] = uses.get(x, 0) + 1
    for o in outs: uses[o] = uses.get(o, 0) + 1
    return all(uses.get(k) == 1 for k in live) and len(outs) == len([k for k in live if L.nodes[k][0] == 'v'])
