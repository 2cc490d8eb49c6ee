"""Back ends: (1) rational-function normal form, (2) z3, (3) cvc5 (through SMT-LIB)."""
import os
import random
import subprocess
import tempfile
import time
import math
from fractions import Fraction
import z3
from terms import *

STATS = {'z3_s': 0.0, 'cvc5_s': 0.0, 'nf_s': 0.0, 'z3_n': 0, 'cvc5_n': 0, 'nf_n': 0}

# =================================================================== z3 translation
class ZT:
    """translator; nl=False abstracts nonlinear integer monomials"""

    def __init__(self, nl=False):
        self.nl = nl
        self.facts = []
        self.memo = {}
        self.inputs = {}
        self._dim = {}

    def atom(self, i):
        k = ('a', i)
        if k in self.memo:
            return self.memo[k]
        a = ATOMS[i]
        z = z3.Int('a%d' % i)
        self.memo[k] = z
        if a.lo is not None:
            self.facts.append(z >= a.lo)
        if a.hi is not None:
            self.facts.append(z <= a.hi)
        if a.kind == 'ite':
            c = self.b(a.args[0])
            self.facts.append(z == z3.If(c, self.p(a.args[1]), self.p(a.args[2])))
        elif a.kind in ('udiv', 'urem', 'sdiv', 'srem'):
            x, y = a.args
            cy = y.const()
            zx = self.p(x)
            if a.kind in ('udiv', 'urem'):
                q = self.atom(atom('udiv', (x, y), 0, x.bounds()[1]).id) if a.kind == 'urem' else z
                r = self.atom(atom('urem', (x, y), 0, cy - 1 if cy else None).id) if a.kind == 'udiv' else z
                if cy:
                    self.facts.append(zx == cy * q + r)
                    self.facts.append(z3.And(r >= 0, r < cy))
                else:
                    zy = self.p(y)
                    self.facts.append(z3.Implies(zy > 0, z3.And(r >= 0, r < zy)))
                    # x == y*q + r as a fact on polynomials
                    qa = A(ATOMS[atom('udiv', (x, y), 0, x.bounds()[1]).id])
                    self.facts.append(z3.Implies(zy > 0, zx == self.p(y * qa) + r))
            else:
                if cy:
                    q = self.atom(atom('sdiv', (x, y)).id) if a.kind == 'srem' else z
                    r = self.atom(atom('srem', (x, y)).id) if a.kind == 'sdiv' else z
                    self.facts.append(zx == cy * q + r)
                    self.facts.append(z3.If(zx >= 0, z3.And(r >= 0, r < abs(cy)), z3.And(r <= 0, r > -abs(cy))))
                else:
                    q = self.atom(atom('sdiv', (x, y)).id) if a.kind == 'srem' else z
                    r = self.atom(atom('srem', (x, y)).id) if a.kind == 'sdiv' else z
                    zy = self.p(y)
                    qa = A(ATOMS[atom('sdiv', (x, y)).id])
                    self.facts.append(z3.Implies(zy > 0, z3.And(zx == self.p(y * qa) + r,
                                                                z3.If(zx >= 0, z3.And(r >= 0, r < zy), z3.And(r <= 0, r > -zy)))))
        elif a.kind == 'zext':
            x, w = a.args
            zx = self.p(x)
            self.facts.append(z3.Implies(zx >= 0, z == zx))
            self.facts.append(z3.Implies(zx < 0, z == zx + (1 << w)))
        elif a.kind == 'isel':
            nm, key = a.args
            f = z3.Function('I' + nm + '_%d' % len(key), *([z3.IntSort()] * (len(key) + 1)))
            self.facts.append(z == f(*[self.p(x) for x in key]))
        elif a.kind == 'f2i':
            x = self.r(a.args[0])
            # truncation toward zero
            self.facts.append(z3.If(x >= 0, z3.And(z3.ToReal(z) <= x, x < z3.ToReal(z) + 1),
                                    z3.And(z3.ToReal(z) >= x, x > z3.ToReal(z) - 1)))
        elif a.kind == 'iapp':
            nm, args = a.args
            f = z3.Function('IA_' + nm + '_%d' % len(args), *([z3.IntSort()] * (len(args) + 1)))
            self.facts.append(z == f(*[self.p(x) for x in args]))
        return z

    def p(self, p):
        k = ('p', p)
        z = self.memo.get(k)
        if z is not None:
            return z
        ts = []
        for m, c in p.t.items():
            if not m:
                ts.append(z3.IntVal(c))
            else:
                if len(m) == 1:
                    x = self.atom(m[0])
                elif self.nl:
                    x = self.atom(m[0])
                    for i in m[1:]:
                        x = x * self.atom(i)
                else:
                    x = self.mono(m)
                ts.append(x if c == 1 else c * x)
        z = ts[0] if len(ts) == 1 else (z3.Sum(ts) if ts else z3.IntVal(0))
        self.memo[k] = z
        return z

    def mono(self, m):
        k = ('m', m)
        z = self.memo.get(k)
        if z is None:
            z = z3.Int('m' + '_'.join(map(str, m)))
            self.memo[k] = z
            zs = [self.atom(i) for i in m]
            los = [ATOMS[i].lo for i in m]
            if all(l is not None and l >= 0 for l in los):
                self.facts.append(z >= 0)
            # x*y >= y when x>=1, y>=0 (sub-monomials)
            for j in range(len(m)):
                rest = m[:j] + m[j + 1:]
                zr = self.atom(rest[0]) if len(rest) == 1 else self.mono(rest)
                self.facts.append(z3.Implies(z3.And(zs[j] >= 1, zr >= 0), z >= zr))
                self.facts.append(z3.Implies(zs[j] == 0, z == 0))
                self.facts.append(z3.Implies(zs[j] == 1, z == zr))
                self.facts.append(z3.Implies(z3.And(zs[j] >= 2, zr >= 0), z >= 2 * zr))
                self.facts.append(z3.Implies(z3.And(zs[j] >= 0, zr >= 0), z >= 0))
                if len(m) == 2:
                    self.facts.append(z3.Implies(z3.And(zs[j] <= -1, zr >= 0), z <= -zr))
        return z

    def b(self, b):
        k = ('b', b)
        z = self.memo.get(k)
        if z is None:
            z = self._b(b)
            self.memo[k] = z
        return z

    def _b(self, b):
        o = b.op
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'ge0':
            return self.p(b.a[0]) >= 0
        if o == 'eq0':
            return self.p(b.a[0]) == 0
        if o == 'not':
            return z3.Not(self.b(b.a[0]))
        if o == 'and':
            return z3.And([self.b(x) for x in b.a])
        if o == 'or':
            return z3.Or([self.b(x) for x in b.a])
        if o == 'rlt':
            return self.r(b.a[0]) < self.r(b.a[1])
        if o == 'rle':
            return self.r(b.a[0]) <= self.r(b.a[1])
        if o == 'req':
            return self.r(b.a[0]) == self.r(b.a[1])
        if o == 'bsym':
            nm, idx = b.a
            if not idx:
                return z3.Bool('b_' + nm)
            f = z3.Function('B_' + nm, *([z3.IntSort()] * len(idx) + [z3.BoolSort()]))
            return f(*[self.p(x) for x in idx])
        raise Exception('zb ' + o)

    def r(self, r):
        k = ('r', r)
        z = self.memo.get(k)
        if z is None:
            z = self._r(r)
            self.memo[k] = z
        return z

    def _r(self, r):
        o = r.op
        if o == 'c':
            return z3.RealVal(str(r.a[0]))
        if o == 'v':
            nm, idx = r.a
            if not idx:
                return z3.Real('v_' + nm)
            f = z3.Function('v_' + nm, *([z3.IntSort()] * len(idx) + [z3.RealSort()]))
            return f(*[self.p(x) for x in idx])
        if o == 'add':
            return self.r(r.a[0]) + self.r(r.a[1])
        if o == 'mul':
            return self.r(r.a[0]) * self.r(r.a[1])
        if o == 'div':
            # q with q*d == n when d != 0 (unconstrained otherwise)
            n, d = self.r(r.a[0]), self.r(r.a[1])
            q = z3.Real('q%d' % len(self.memo))
            self.facts.append(z3.Implies(d != 0, q * d == n))
            return q
        if o == 'sqrt':
            x = self.r(r.a[0])
            s = z3.Real('s%d' % len(self.memo))
            self.facts.append(z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)))
            return s
        if o == 'ite':
            return z3.If(self.b(r.a[0]), self.r(r.a[1]), self.r(r.a[2]))
        if o == 'i2r':
            return z3.ToReal(self.p(r.a[0]))
        if o == 'sel':
            nm, key = r.a
            f = z3.Function('A_%s_%d' % (nm, len(key)), *([z3.IntSort()] * len(key) + [z3.RealSort()]))
            return f(*[self.p(x) for x in key])
        if o == 'app':
            nm, args = r.a
            zs = [self.r(x) if isinstance(x, R) else self.p(x) for x in args]
            f = z3.Function('F_%s_%d' % (nm, len(args)), *([x.sort() for x in zs] + [z3.RealSort()]))
            z = f(*zs)
            self.app_axioms(nm, args, zs, z)
            return z
        if o == 'red':
            return z3.Real('red%d' % id(r))
        raise Exception('zr ' + o)

    def app_axioms(self, nm, args, zs, z):
        apps = self.memo.setdefault(('apps', nm), [])
        if nm == 'log':
            x = zs[0]
            self.facts.append(z3.Implies(x == 1, z == 0))
            self.facts.append(z3.Implies(z3.And(x > 0, x < 1), z < 0))
            self.facts.append(z3.Implies(x > 1, z > 0))
            for (y, w) in apps:
                self.facts.append(z3.Implies(z3.And(x > 0, y > 0), z3.And((x < y) == (z < w), (x == y) == (z == w))))
            apps.append((x, z))
        elif nm == 'exp':
            x = zs[0]
            self.facts.append(z > 0)
            self.facts.append(z3.Implies(x == 0, z == 1))
            for (y, w) in apps:
                self.facts.append(z3.And((x < y) == (z < w), (x == y) == (z == w)))
            apps.append((x, z))
        elif nm == 'pow':
            x, y = zs
            self.facts.append(z3.Implies(x > 0, z > 0))
            self.facts.append(z3.Implies(z3.And(x == 0, y > 0), z == 0))
            self.facts.append(z3.Implies(x >= 0, z >= 0))
            self.facts.append(z3.Implies(y == 0, z == 1))
            self.facts.append(z3.Implies(y == 1, z == x))
            self.facts.append(z3.Implies(x == 1, z == 1))
        elif nm in ('sin', 'cos'):
            self.facts.append(z3.And(z >= -1, z <= 1))
        elif nm in ('floor', 'ceil', 'round', 'trunc'):
            x = zs[0]
            if nm == 'floor':
                self.facts.append(z == z3.ToReal(z3.ToInt(x)))
            elif nm == 'ceil':
                self.facts.append(z == -z3.ToReal(z3.ToInt(-x)))


class LRA(ZT):
    """abstraction to linear real arithmetic: everything else becomes an unknown (sound for proving)"""
    def __init__(self):
        ZT.__init__(self, False)
        self.n = 0

    def fresh(self, sort):
        self.n += 1
        return sort('t%d' % self.n)

    def _b(self, b):
        o = b.op
        if b.op in ('and', 'or', 'not', 'true', 'false', 'rlt', 'rle', 'req'):
            return ZT._b(self, b)
        nb = bnot(b)
        z = self.memo.get(('b', nb))
        if z is not None:
            return z3.Not(z)
        return self.fresh(z3.Bool)

    def _r(self, r):
        o = r.op
        if o == 'c':
            return z3.RealVal(str(r.a[0]))
        if o == 'add' or o == 'ite' or (o == 'mul' and (r.a[0].op == 'c' or r.a[1].op == 'c')):
            return ZT._r(self, r)
        return self.fresh(z3.Real)


def lra_proves(pc, goal, timeout=8000):
    t0 = time.time()
    zt = LRA()
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', timeout)
    s.add(z3.Not(zt.b(goal)))
    s.add(*[zt.b(b) for b in pc if b.real])
    r = str(s.check())
    STATS['z3_s'] += time.time() - t0
    STATS['z3_n'] += 1
    return r == 'unsat'


_sat_cache = {}


def check(bs, timeout=1500, nl=False, want_model=False):
    """satisfiability of a conjunction: 'sat' 'unsat' 'unknown' """
    key = (frozenset(bs), nl)
    if not want_model:
        r = _sat_cache.get(key)
        if r is not None and (r != 'unknown'):
            return r
    for b in bs:
        if b is FALSE:
            return ('unsat', None) if want_model else 'unsat'
    t0 = time.time()
    zt = ZT(nl)
    s = z3.Solver()
    s.set('timeout', timeout)
    zs = [zt.b(b) for b in bs]
    s.add(*zs)
    s.add(*zt.facts)
    r = str(s.check())
    STATS['z3_s'] += time.time() - t0
    STATS['z3_n'] += 1
    _sat_cache[key] = r
    if want_model:
        return r, (zt, s.model() if r == 'sat' else None)
    return r


def int_only(bs):
    return [b for b in bs if not b.real]


def relevant(bs, goal_fv):
    """cone of influence over integer atoms"""
    fv = set(goal_fv)
    todo = list(bs)
    out = []
    changed = True
    while changed:
        changed = False
        rest = []
        for b in todo:
            if b.fv & fv:
                out.append(b)
                if not b.fv <= fv:
                    fv |= b.fv
                    changed = True
            else:
                rest.append(b)
        todo = rest
    return out


_ent = {}


def entails_int(pc, goal, timeout=1500):
    """pc |= goal for an integer goal: True / False (=not shown)"""
    if goal is TRUE:
        return True
    if goal in pc:
        return True
    ng = bnot(goal)
    if goal is FALSE:
        ic = int_only(pc)
    else:
        ic = relevant(int_only(pc), goal.fv)
    key = (frozenset(ic), goal)
    r = _ent.get(key)
    if r is not None:
        return r
    q = ic + [ng]
    r = check(q, timeout) == 'unsat'
    if not r and any(any(len(m) > 1 for m in p.t) for b in q for p in polys_of(b)):
        r = check(q, min(timeout, 700), nl=True) == 'unsat'
    _ent[key] = r
    return r


def polys_of(b):
    if b.op in ('ge0', 'eq0'):
        yield b.a[0]
    elif b.op in ('and', 'or', 'not'):
        for x in b.a:
            yield from polys_of(x)


# =================================================================== rational normal form
# polynomial over real atoms: dict {((id,exp),...): int}
class NF:
    """one normalisation context"""
    MAXTERMS = 400000

    def __init__(self):
        self.ids = {}
        self.nodes = []
        self.memo = {}
        self.t0 = time.time()
        self.limit = 60.0
        self.dens = []

    def aid(self, node):
        i = self.ids.get(node)
        if i is None:
            i = len(self.nodes)
            self.ids[node] = i
            self.nodes.append(node)
        return i

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 4000000 or time.time() - self.t0 > self.limit:
            raise TooBig()
        out = {}
        for m1, c1 in a.items():
            if not m1:
                for m2, c2 in b.items():
                    v = out.get(m2, 0) + c1 * c2
                    if v:
                        out[m2] = v
                    else:
                        out.pop(m2, None)
                continue
            for m2, c2 in b.items():
                m = mmul(m1, m2)
                v = out.get(m, 0) + c1 * c2
                if v:
                    out[m] = v
                else:
                    out.pop(m, None)
        if len(out) > self.MAXTERMS:
            raise TooBig()
        return out

    def padd(self, a, b, kb=1):
        out = dict(a)
        for m, c in b.items():
            v = out.get(m, 0) + c * kb
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    # a fraction: (num poly, den: dict{frozenset(poly.items()): exp}, kden int)
    def fden(self, den):
        return den

    def fadd(self, x, y):
        n1, d1, k1 = x
        n2, d2, k2 = y
        if not n1:
            return y
        if not n2:
            return x
        if d1 != d2:
            l = dict(d1)
            for f, e in d2.items():
                if l.get(f, 0) < e:
                    l[f] = e
            for f, e in l.items():
                for _ in range(e - d1.get(f, 0)):
                    n1 = self.pmul(n1, dict(f))
                for _ in range(e - d2.get(f, 0)):
                    n2 = self.pmul(n2, dict(f))
        else:
            l = d1
        if k1 != k2:
            from math import gcd
            g = gcd(k1, k2)
            a, b = k2 // g, k1 // g
            n1 = {m: c * a for m, c in n1.items()}
            k = k1 * a
            n = self.padd(n1, n2, b)
        else:
            k = k1
            n = self.padd(n1, n2)
        return self.fcancel((n, l, k))

    def fcancel(self, x):
        n, d, k = x
        if not n:
            return ({}, {}, 1)
        # cancel monomial denominators
        nd = None
        for f, e in list(d.items()):
            if len(f) == 1:
                (m, c), = f
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    i = m[0][0]
                    mn = min(dict(mm).get(i, 0) for mm in n)
                    mn = min(mn, e)
                    if mn:
                        n = {mdiv(mm, i, mn): c2 for mm, c2 in n.items()}
                        nd = nd or dict(d)
                        nd[f] -= mn
                        if nd[f] == 0:
                            del nd[f]
        if nd is not None:
            d = nd
        if k != 1:
            from math import gcd
            g = k
            for c in n.values():
                g = gcd(g, c)
                if g == 1:
                    break
            if g > 1:
                n = {m: c // g for m, c in n.items()}
                k //= g
        for f, e in list(d.items()):
            if len(f) == len(n) and len(f) > 1:
                # num == const * factor ?
                fd = dict(f)
                it = next(iter(n.items()))
                fc = fd.get(it[0])
                if fc and it[1] % fc == 0:
                    q = it[1] // fc
                    if all(fd.get(m, None) is not None and fd[m] * q == c for m, c in n.items()):
                        d = dict(d)
                        d[f] -= 1
                        if d[f] == 0:
                            del d[f]
                        n = {(): q}
                        break
        return (n, d, k)

    def fmul(self, x, y):
        n1, d1, k1 = x
        n2, d2, k2 = y
        # cross-cancel whole factors
        d1 = dict(d1)
        d2 = dict(d2)
        n1, d2 = self.xcancel(n1, d2)
        n2, d1 = self.xcancel(n2, d1)
        n = self.pmul(n1, n2)
        d = dict(d1)
        for f, e in d2.items():
            d[f] = d.get(f, 0) + e
        return self.fcancel((n, d, k1 * k2))

    def xcancel(self, n, d):
        if len(n) <= 1:
            return n, d
        fs = self.primitive(n)
        if fs is None:
            return n, d
        prim, content = fs
        key = frozenset(prim.items())
        if d.get(key):
            d = dict(d)
            d[key] -= 1
            if d[key] == 0:
                del d[key]
            return {(): content}, d
        return n, d

    def primitive(self, n):
        from math import gcd
        g = 0
        for c in n.values():
            g = gcd(g, abs(c))
        lead = max(n)
        s = 1 if n[lead] > 0 else -1
        g *= s
        return {m: c // g for m, c in n.items()}, g

    def finv(self, x):
        n, d, k = x
        if not n:
            raise DivZero()
        num = {(): k}
        for f, e in d.items():
            for _ in range(e):
                num = self.pmul(num, dict(f))
        # denominators: monomial content + primitive part
        den = {}
        prim, g = self.primitive(n)
        # common monomial
        ids = None
        for m in prim:
            dm = dict(m)
            ids = dm if ids is None else {i: min(e, dm[i]) for i, e in ids.items() if i in dm}
            if not ids:
                break
        if ids:
            for i, e in ids.items():
                prim = {mdiv(mm, i, e): c for mm, c in prim.items()}
                den[frozenset({((i, 1),): 1}.items())] = e
        if not (len(prim) == 1 and () in prim):
            den[frozenset(prim.items())] = den.get(frozenset(prim.items()), 0) + 1
            kk = g
        else:
            kk = g * prim[()]
        if kk < 0:
            num = {m: -c for m, c in num.items()}
            kk = -kk
        return self.fcancel((num, den, kk))

    def nf(self, r):
        x = self.memo.get(r)
        if x is not None:
            return x
        o = r.op
        if o == 'c':
            f = r.a[0]
            x = ({(): f.numerator} if f else {}, {}, f.denominator)
        elif o == 'add':
            x = self.fadd(self.nf(r.a[0]), self.nf(r.a[1]))
        elif o == 'mul':
            x = self.fmul(self.nf(r.a[0]), self.nf(r.a[1]))
        elif o == 'div':
            x = self.fmul(self.nf(r.a[0]), self.finv(self.nf(r.a[1])))
            self.dens.append(r.a[1])
        elif o == 'i2r':
            n = {}
            for m, c in r.a[0].t.items():
                mm = ()
                for i in m:
                    mm = mmul(mm, ((self.aid(('int', i)), 1),))
                n[mm] = n.get(mm, 0) + c
            x = (n, {}, 1)
        elif o == 'sqrt':
            a = self.nf(r.a[0])
            x = ({((self.aid(self.canon('sqrt', a, r)), 1),): 1}, {}, 1)
        elif o == 'app':
            nm, args = r.a
            key = (nm, tuple(self.key(self.nf(y)) if isinstance(y, R) else y for y in args))
            if nm == 'pow':
                x = self.npow(r, args)
            else:
                x = ({((self.aid(self.canon2('app', key, r)), 1),): 1}, {}, 1)
        else:
            x = ({((self.aid(r), 1),): 1}, {}, 1)
        self.memo[r] = x
        return x

    def npow(self, r, args):
        b, e = args
        en = self.nf(e)
        # integer constant exponent
        if not en[1] and len(en[0]) <= 1 and (not en[0] or () in en[0]):
            c = Fraction(en[0].get((), 0), en[2])
            if c.denominator == 1 and abs(c) <= 8:
                bn = self.nf(b)
                x = ({(): 1}, {}, 1)
                for _ in range(abs(int(c))):
                    x = self.fmul(x, bn)
                if c < 0:
                    x = self.finv(x)
                return x
        key = ('pow', self.key(self.nf(b)), self.key(en))
        return ({((self.aid(self.canon2('app', key, r)), 1),): 1}, {}, 1)

    def key(self, x):
        return (frozenset(x[0].items()), frozenset(x[1].items()), x[2])

    def canon(self, tag, a, r):
        return self.canon2(tag, self.key(a), r)

    def canon2(self, tag, key, r):
        """same function applied to equal (normal form) arguments -> same atom"""
        k = ('canon', tag, key)
        x = self.memo.get(k)
        if x is None:
            self.memo[k] = r
            x = r
        return x

    def is_zero(self, r):
        n, d, k = self.nf(r)
        if not n:
            return True
        return self.reduce_sqrt(n)

    def reduce_sqrt(self, n):
        """eliminate even powers of sqrt atoms; True iff provably 0"""
        if not n:
            return True
        # pick the sqrt atom with the deepest nesting (largest id is created after its argument)
        best = None
        for m in n:
            for i, e in m:
                nd = self.nodes[i]
                if isinstance(nd, R) and nd.op == 'sqrt' and (best is None or i > best):
                    best = i
        if best is None:
            return False
        an, ad, ak = self.nf(self.nodes[best].a[0])
        adp = {(): ak}
        for f, e in ad.items():
            for _ in range(e):
                adp = self.pmul(adp, dict(f))
        # s^2 = an/adp
        parts = {}
        for m, c in n.items():
            e = 0
            rest = []
            for (i, ex) in m:
                if i == best:
                    e = ex
                else:
                    rest.append((i, ex))
            parts.setdefault(e, {})[tuple(rest)] = c
        mx = max(parts)
        for par in (0, 1):
            es = [e for e in parts if e % 2 == par]
            if not es:
                continue
            top = max(e // 2 for e in es)
            tot = {}
            for e in es:
                q = parts[e]
                for _ in range(e // 2):
                    q = self.pmul(q, an)
                for _ in range(top - e // 2):
                    q = self.pmul(q, adp)
                tot = self.padd(tot, q)
            if not self.reduce_sqrt(tot):
                return False
        return True


class TooBig(Exception):
    pass


class DivZero(Exception):
    pass


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        d[i] = d.get(i, 0) + e
    return tuple(sorted(d.items()))


def mdiv(m, i, e):
    out = []
    for (j, ex) in m:
        if j == i:
            if ex > e:
                out.append((j, ex - e))
        else:
            out.append((j, ex))
    return tuple(out)


# =================================================================== numeric evaluation
class Eval:
    """pseudo random evaluation; env overrides by node"""

    def __init__(self, seed=0, env=None, ints=None):
        self.rng = seed
        self.env = env or {}
        self.ints = ints or {}
        self.memo = {}

    def rnd(self, key):
        return random.Random(hash((self.rng, key)) & 0xffffffff).choice([i / 8.0 for i in range(1, 40)])

    def p(self, p):
        s = 0
        for m, c in p.t.items():
            v = c
            for i in m:
                v *= self.a(i)
            s += v
        return s

    def a(self, i):
        k = ('a', i)
        if k in self.memo:
            return self.memo[k]
        a = ATOMS[i]
        if i in self.ints:
            v = self.ints[i]
        elif a.kind == 'ite':
            v = self.p(a.args[1]) if self.b(a.args[0]) else self.p(a.args[2])
        elif a.kind in ('udiv', 'sdiv'):
            x, y = self.p(a.args[0]), self.p(a.args[1])
            v = int(x / y) if y else 0
        elif a.kind in ('urem', 'srem'):
            x, y = self.p(a.args[0]), self.p(a.args[1])
            v = x - y * int(x / y) if y else 0
        elif a.kind == 'zext':
            x = self.p(a.args[0])
            v = x if x >= 0 else x + (1 << a.args[1])
        elif a.kind == 'f2i':
            v = int(self.r(a.args[0]))
        else:
            lo = a.lo if a.lo is not None else -5
            hi = a.hi if a.hi is not None else lo + 10
            v = random.Random(hash((self.rng, 'i', a.kind, str(a.args))) & 0xffffffff).randint(lo, min(hi, lo + 10))
        self.memo[k] = v
        return v

    def b(self, b):
        o = b.op
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'ge0':
            return self.p(b.a[0]) >= 0
        if o == 'eq0':
            return self.p(b.a[0]) == 0
        if o == 'not':
            return not self.b(b.a[0])
        if o == 'and':
            return all(self.b(x) for x in b.a)
        if o == 'or':
            return any(self.b(x) for x in b.a)
        if o == 'rlt':
            return self.r(b.a[0]) < self.r(b.a[1])
        if o == 'rle':
            return self.r(b.a[0]) <= self.r(b.a[1])
        if o == 'req':
            return self.r(b.a[0]) == self.r(b.a[1])
        if o == 'bsym':
            return bool(hash((self.rng, str(b))) & 1)
        raise Exception(o)

    def r(self, r):
        if r in self.memo:
            return self.memo[r]
        v = self._r(r)
        self.memo[r] = v
        return v

    def _r(self, r):
        if r in self.env:
            return self.env[r]
        o = r.op
        if o == 'c':
            return float(r.a[0])
        if o == 'v':
            return self.rnd(('v', r.a[0], tuple(self.p(x) for x in r.a[1])))
        if o == 'sel':
            return self.rnd(('s', r.a[0], tuple(self.p(x) for x in r.a[1])))
        if o == 'add':
            return self.r(r.a[0]) + self.r(r.a[1])
        if o == 'mul':
            return self.r(r.a[0]) * self.r(r.a[1])
        if o == 'div':
            d = self.r(r.a[1])
            return self.r(r.a[0]) / d if d else float('nan')
        if o == 'sqrt':
            x = self.r(r.a[0])
            return math.sqrt(x) if x >= 0 else float('nan')
        if o == 'ite':
            return self.r(r.a[1]) if self.b(r.a[0]) else self.r(r.a[2])
        if o == 'i2r':
            return float(self.p(r.a[0]))
        if o == 'app':
            nm, args = r.a
            vs = tuple(self.r(x) if isinstance(x, R) else self.p(x) for x in args)
            try:
                if nm == 'log':
                    return math.log(vs[0])
                if nm == 'exp':
                    return math.exp(vs[0])
                if nm == 'pow':
                    return math.pow(vs[0], vs[1])
                if nm in ('sin', 'cos', 'floor', 'ceil'):
                    return float(getattr(math, nm)(vs[0]))
            except (ValueError, OverflowError):
                return float('nan')
            return self.rnd(('f', nm, tuple(round(x, 9) for x in vs)))
        if o == 'red':
            kind, bv, n, cond, body, init = r.a
            v = self.r(init)
            for k in range(max(0, min(self.p(n), 50))):
                m = {bv: K(k)}
                if self.b(subst(cond, m)):
                    x = self.r(subst(body, m))
                    v = v + x if kind == 'sum' else (max(v, x) if kind == 'max' else min(v, x))
            return v
        raise Exception(o)


# =================================================================== equivalent subterms
MOD = (1 << 61) - 1


class Finger:
    """evaluation at a random point of a prime field (candidates for equal subterms)"""
    def __init__(self):
        self.memo = {}
        self.atoms = {}

    def rnd(self, key):
        x = self.atoms.get(key)
        if x is None:
            x = self.atoms[key] = random.Random('%d' % len(self.atoms)).randrange(1, MOD)
        return x

    def r(self, r):
        x = self.memo.get(r)
        if x is None:
            x = self.memo[r] = self._r(r)
        return x

    def _r(self, r):
        o = r.op
        if o == 'c':
            return r.a[0].numerator * pow(r.a[0].denominator, MOD - 2, MOD) % MOD
        if o == 'add':
            return (self.r(r.a[0]) + self.r(r.a[1])) % MOD
        if o == 'mul':
            return self.r(r.a[0]) * self.r(r.a[1]) % MOD
        if o == 'div':
            d = self.r(r.a[1])
            return self.r(r.a[0]) * pow(d, MOD - 2, MOD) % MOD if d else self.rnd(r)
        if o == 'sqrt':
            return self.rnd(('sqrt', self.r(r.a[0])))
        if o == 'app':
            nm, args = r.a
            if nm == 'pow' and args[1].op == 'c' and args[1].a[0].denominator == 1 and 0 <= args[1].a[0] <= 8:
                return pow(self.r(args[0]), int(args[1].a[0]), MOD)
            return self.rnd((nm,) + tuple(self.r(y) if isinstance(y, R) else y for y in args))
        if o == 'i2r':
            v = 0
            for m, c in r.a[0].t.items():
                t = c
                for i in m:
                    t = t * self.rnd(('int', i)) % MOD
                v += t
            return v % MOD
        if o == 'ite':
            c, x, y = r.a
            k = minmax(r)
            if k:
                return self.rnd((k[0],) + tuple(sorted((self.r(k[1]), self.r(k[2])))))
            if c.op == 'rle':
                c, x, y = bnot(c), y, x
            return self.rnd(('ite', self.b(c), self.r(x), self.r(y)))
        return self.rnd(r)

    def b(self, b):
        if b.op == 'rlt':
            return ('rlt', (self.r(b.a[0]) - self.r(b.a[1])) % MOD)
        if b.op == 'rle':
            return ('rle', (self.r(b.a[0]) - self.r(b.a[1])) % MOD)
        if b.op == 'req':
            d = (self.r(b.a[0]) - self.r(b.a[1])) % MOD
            return ('req', min(d, MOD - d))
        if b.op in ('and', 'or', 'not') and b.real:
            return (b.op,) + tuple(sorted((self.b(y) for y in b.a), key=repr))
        return b


def minmax(r):
    """('max'|'min', p, q) for the two forms of a maximum / minimum (ties give the same value)"""
    c, x, y = r.a
    if c.op in ('rlt', 'rle'):
        p, q = c.a
        if x is q and y is p:
            return ('max', p, q)
        if x is p and y is q:
            return ('min', p, q)
    return None


def merged(a, b, deadline, cut_sums, limit=12.0):
    """(a', b'): a, b with provably equal subterms replaced by one representative, looking through if-then-else and
    conditions; equality of a', b' after replacing merged subterms by unknowns is tried as well (returns True then)"""
    fp = Finger()
    order, seen = [], set()
    st = [(b, False), (a, False)]
    while st:
        x, done = st.pop()
        if done:
            order.append(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        st.append((x, True))
        if x.op == 'red' or (isinstance(x, R) and x.op in ('sel', 'i2r')):
            continue
        for y in x.a:
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, R) or (isinstance(z, B) and z.real):
                    st.append((z, False))
    if len(order) > 8000:
        return a, b
    cnt = {}
    for x in order:
        if isinstance(x, R):
            f = fp.r(x)
            cnt[f] = cnt.get(f, 0) + 1
    m, cut = {}, {}         # equal representative; the same with merged classes as unknowns
    rep, conds = {}, {}
    nf = NF()
    nf.limit = limit

    def through(x, m):
        if x.op == 'red' or (isinstance(x, R) and x.op in ('sel', 'i2r', 'c', 'v')):
            return x
        args = [m.get(z, z) if isinstance(z, (R, B)) else tuple(m.get(w, w) if isinstance(w, R) else w for w in z) if isinstance(z, tuple) else z for z in x.a]
        if isinstance(x, B):
            return rebuild_b(x, args)
        if x.op == 'ite':
            y = rite(*args)
            if y.op == 'ite':
                k = minmax(y)
                if k:
                    p, q = sorted(k[1:], key=lambda t: rank.setdefault(t, len(rank)))
                    return rmax(p, q) if k[0] == 'max' else rmin(p, q)
                if y.a[0].op == 'rle':
                    return rite(bnot(y.a[0]), y.a[2], y.a[1])
            return y
        return rebuild_r(x, args)
    rank = {}
    for x in order:
        if time.time() > deadline:
            return a, b
        y, z = through(x, m), through(x, cut)
        m[x], cut[x] = y, z
        if isinstance(x, B):
            if x.op in ('rlt', 'rle'):
                f = fp.b(x)
                k = conds.get(f)
                if k is None:
                    conds[f] = (y, z)
                elif z is not k[1]:
                    try:
                        if nf.is_zero(rsub(rsub(z.a[0], z.a[1]), rsub(k[1].a[0], k[1].a[1]))) if z.op == k[1].op and z.op in ('rlt', 'rle') else False:
                            m[x], cut[x] = k
                    except (TooBig, DivZero):
                        pass
            continue
        f = fp.r(x)
        if y.op in ('c', 'v', 'sel', 'i2r'):
            rep[f] = (y, y, y)
            continue
        if cnt[f] < 2:
            if z.op == 'ite':
                cut[x] = rvar('mcut!%d' % len(rep))
                rep[('ite', x)] = None
            continue
        k = rep.get(f)
        if k is None:
            c = z
            if z.op not in ('c', 'v', 'sel', 'i2r'):
                small = z.op in ('add', 'mul') and not cut_sums
                if z.op in ('add', 'mul') and not small:
                    try:
                        n, d, _ = nf.nf(z)
                        small = len(n) + len(d) <= 2
                    except (TooBig, DivZero):
                        pass
                if not small:
                    c = rvar('mcut!%d' % len(rep))
            rep[f] = (y, c, z)
            cut[x] = c
            continue
        try:
            same = z is k[2] or y is k[0] or z is k[1] or (z.op != 'ite' and ((k[2].op != 'ite' and nf.is_zero(rsub(z, k[2]))) or
                                                                         (k[1] is not k[2] and nf.is_zero(rsub(z, k[1])))))
        except (TooBig, DivZero):
            same = False
        if same:
            m[x], cut[x] = k[0], k[1]
        elif z.op == 'ite':
            cut[x] = rvar('mcut!%d' % len(rep))
            rep[('ite', x)] = None
    if m[a] is m[b] or cut[a] is cut[b]:
        return True
    try:
        if fp.r(a) == fp.r(b) and nf.is_zero(rsub(cut[a], cut[b])):
            return True
    except (TooBig, DivZero):
        pass
    return m[a], m[b]


def sweep(a, b, cut_sums, deadline):
    """a == b by merging equal subterms bottom up; a merged subterm becomes an unknown (sound: it is proved equal first)"""
    fp = Finger()
    order = []
    seen = set()
    divisors = set()

    def visit(r):
        st = [(r, False)]
        while st:
            x, done = st.pop()
            if done:
                order.append(x)
                continue
            if x in seen:
                continue
            seen.add(x)
            st.append((x, True))
            if x.op == 'div':
                divisors.add(x.a[1])
            if x.op in ('add', 'mul', 'div', 'sqrt', 'app'):
                for y in x.a:
                    for z in (y if isinstance(y, tuple) else (y,)):
                        if isinstance(z, R):
                            st.append((z, False))
    visit(a)
    visit(b)
    if len(order) > 6000:
        return False
    cls = {}
    for x in order:
        cls.setdefault(fp.r(x), []).append(x)
    m = {}
    rep = {}
    nf = NF()
    nf.limit = 20.0
    for x in order:
        if time.time() > deadline:
            return False
        if x.op in ('add', 'mul', 'div', 'sqrt', 'app'):
            y = rebuild_r(x, [m.get(z, z) if isinstance(z, R) else tuple(m.get(w, w) if isinstance(w, R) else w for w in z) if isinstance(z, tuple) else z for z in x.a])
        else:
            y = x
        m[x] = y
        f = fp.r(x)
        if len(cls[f]) < 2 or y.op in ('c', 'v', 'sel', 'i2r'):
            continue
        k = rep.get(f)
        if k is None:
            rep[f] = [y, None]
            if cut_sums or y.op in ('div', 'sqrt', 'app') or x in divisors:
                # other members that turn out to be equal share this unknown
                try:
                    n, d, _ = nf.nf(y)
                except (TooBig, DivZero):
                    continue
                if len(n) + len(d) > 2:
                    c = rvar('cut!%d' % len(rep))
                    rep[f][1] = c
                    m[x] = c
            continue
        try:
            same = y is k[0] or nf.is_zero(rsub(y, k[0])) or (k[1] is not None and nf.is_zero(rsub(y, k[1])))
        except (TooBig, DivZero):
            same = False
        if same:
            m[x] = k[1] if k[1] is not None else k[0]
    if m[a] is m[b]:
        return True
    try:
        return nf.is_zero(rsub(m[a], m[b]))
    except (TooBig, DivZero):
        return False


def real_conds(r, out, seen):
    """ite-free comparisons inside r"""
    if isinstance(r, tuple):
        for y in r:
            real_conds(y, out, seen)
        return
    if not isinstance(r, (R, B)) or r in seen or (isinstance(r, R) and not r.hasite):
        return
    seen.add(r)
    if isinstance(r, R) and r.op == 'red':
        return
    if isinstance(r, B) and r.op in ('rlt', 'rle') and not any(y.hasite for y in r.a):
        out.append(r)
        return
    for y in r.a:
        real_conds(y, out, seen)


def same_value(x, y, st, deadline):
    k = (x, y)
    d = st.setdefault('same', {})
    r = d.get(k)
    if r is None:
        nf = NF()
        nf.limit = 1.0
        try:
            r = nf.is_zero(rsub(x, y))
        except TooBig:
            r = sweep(x, y, True, deadline) or sweep(x, y, False, deadline)
        except DivZero:
            r = False
        d[k] = r
    return r


def tie(pc, a, b, st, deadline):
    """the path says u <= v and v <= u: a == b with u replaced by v (or the other way round)"""
    fp = st.setdefault('fp', Finger())
    les = [c for c in pc if c.op == 'rle' and not any(y.hasite for y in c.a)]
    by = {}
    for c in les:
        by.setdefault((fp.r(c.a[0]) - fp.r(c.a[1])) % MOD, c)
    for c in les:
        k = by.get((fp.r(c.a[1]) - fp.r(c.a[0])) % MOD)
        if k is None or not same_value(rsub(k.a[0], k.a[1]), rsub(c.a[1], c.a[0]), st, deadline):
            continue
        for u, v in (c.a, c.a[::-1]):
            if u.op == 'c':
                continue
            d = {u: v}
            seen, todo = set(), [a, b]
            while todo:
                x = todo.pop()
                if isinstance(x, tuple):
                    todo.extend(x)
                    continue
                if not isinstance(x, R) or x in seen or x.op == 'red':
                    continue
                seen.add(x)
                if x is not u and x is not v and x.op != 'c':
                    f = fp.r(x)
                    if f == fp.r(u) and same_value(x, u, st, deadline):
                        d[x] = v
                    elif (f + fp.r(u)) % MOD == 0 and same_value(x, rneg(u), st, deadline):
                        d[x] = rneg(v)
                todo.extend(x.a)
            a2, b2 = subst_real(a, d), subst_real(b, d)
            if (a2 is not a or b2 is not b) and fp.r(a2) == fp.r(b2) and same_value(a2, b2, st, deadline):
                return True
    return False


def implied_conds(c, val, a, b, st, deadline):
    """the other comparisons in a, b which the (ite-free) comparison c decides because both compare the same difference"""
    if c.op not in ('rlt', 'rle'):
        return {}
    fp = st.setdefault('fp', Finger())
    d = (fp.r(c.a[0]) - fp.r(c.a[1])) % MOD
    out, seen = [], set()
    real_conds(a, out, seen)
    real_conds(b, out, seen)
    res = {}
    # with x = p - q:  rlt true: x < 0, false: x >= 0;  rle true: x <= 0, false: x > 0
    strict = (c.op == 'rlt') == val
    neg = val
    for k in out:
        if k is c or k is bnot(c) or k in res:
            continue
        e = (fp.r(k.a[0]) - fp.r(k.a[1])) % MOD
        if e == d and same_value(rsub(k.a[0], k.a[1]), rsub(c.a[0], c.a[1]), st, deadline):
            if strict or (k.op == 'rle') == neg:
                res[k] = TRUE if neg else FALSE
        elif (e + d) % MOD == 0 and same_value(rsub(k.a[0], k.a[1]), rsub(c.a[1], c.a[0]), st, deadline):
            if strict or (k.op == 'rle') != neg:
                res[k] = FALSE if neg else TRUE
    return res


# =================================================================== goals
class Result:
    def __init__(self, status, backend='', model=None, note=''):
        self.status = status      # proved / failed / unknown
        self.backend = backend
        self.model = model
        self.note = note

    def __repr__(self):
        return 'Result(%s,%s,%s)' % (self.status, self.backend, self.note)


def find_ite(r, seen=None):
    """some ite node whose condition has no ite itself (innermost first)"""
    if seen is None:
        seen = set()
    if isinstance(r, (R,)):
        if r in seen or not r.hasite:
            return None
        seen.add(r)
        if r.op == 'ite':
            x = find_ite_b(r.a[0], seen)
            if x is not None:
                return x
            return r.a[0]
        if r.op == 'red':
            return find_ite(r.a[5], seen)
        for y in r.a:
            x = find_ite(y, seen)
            if x is not None:
                return x
        return None
    if isinstance(r, tuple):
        for y in r:
            x = find_ite(y, seen)
            if x is not None:
                return x
    return None


def find_ite_b(b, seen):
    for y in b.a:
        if isinstance(y, B):
            x = find_ite_b(y, seen)
        else:
            x = find_ite(y, seen)
        if x is not None:
            return x
    return None


def find_int_ite(p):
    for m in p.t:
        for i in m:
            a = ATOMS[i]
            if a.kind == 'ite':
                return a
    return None


def assume_b(r, c, val, memo):
    """replace condition c by val inside r"""
    if isinstance(r, tuple):
        return tuple(assume_b(y, c, val, memo) for y in r)
    if isinstance(r, R):
        if not r.hasite:
            return r
        x = memo.get(r)
        if x is not None:
            return x
        if r.op == 'red':
            x = mkr('red', r.a[:5] + (assume_b(r.a[5], c, val, memo),))
        elif r.op == 'ite':
            cc = assume_b(r.a[0], c, val, memo)
            if cc is TRUE:
                x = assume_b(r.a[1], c, val, memo)
            elif cc is FALSE:
                x = assume_b(r.a[2], c, val, memo)
            else:
                x = rite(cc, assume_b(r.a[1], c, val, memo), assume_b(r.a[2], c, val, memo))
        else:
            x = rebuild_r(r, [assume_b(y, c, val, memo) for y in r.a])
        memo[r] = x
        return x
    if isinstance(r, B):
        if r is c:
            return TRUE if val else FALSE
        if r is bnot(c):
            return FALSE if val else TRUE
        x = memo.get(r)
        if x is None:
            x = rebuild_b(r, [assume_b(y, c, val, memo) for y in r.a]) if (r.real or r.op in ('and', 'or', 'not')) else r
            memo[r] = x
        return x
    return r


def int_guards(r, out, seen):
    """integer-only conditions of the ite nodes in r"""
    if isinstance(r, tuple):
        for y in r:
            int_guards(y, out, seen)
        return
    if not isinstance(r, (R, B)) or r in seen or (isinstance(r, R) and not r.hasite):
        return
    seen.add(r)
    if isinstance(r, B):
        if not r.real:
            out[r] = None
            return
        for y in r.a:
            int_guards(y, out, seen)
        return
    if r.op == 'red':
        return
    for y in r.a:
        int_guards(y, out, seen)


def assume_many(r, d, memo):
    """replace the conditions in d (B -> TRUE / FALSE) inside r (not inside reductions)"""
    if isinstance(r, tuple):
        return tuple(assume_many(y, d, memo) for y in r)
    if isinstance(r, R):
        if not r.hasite or r.op == 'red':
            return r
        x = memo.get(r)
        if x is not None:
            return x
        if r.op == 'ite':
            cc = assume_many(r.a[0], d, memo)
            if cc is TRUE:
                x = assume_many(r.a[1], d, memo)
            elif cc is FALSE:
                x = assume_many(r.a[2], d, memo)
            else:
                x = rite(cc, assume_many(r.a[1], d, memo), assume_many(r.a[2], d, memo))
        else:
            x = rebuild_r(r, [assume_many(y, d, memo) for y in r.a])
        memo[r] = x
        return x
    if isinstance(r, B):
        v = d.get(r)
        if v is not None:
            return v
        if r.op not in ('and', 'or', 'not') and not r.real:
            return r
        x = memo.get(r)
        if x is None:
            x = rebuild_b(r, [assume_many(y, d, memo) for y in r.a])
            memo[r] = x
        return x
    return r


def decide_guards(pc, *rs):
    """resolve the integer guards in rs which the path condition decides"""
    for _ in range(4):
        gs = {}
        seen = set()
        for r in rs:
            int_guards(r, gs, seen)
        d = {}
        for g in gs:
            if g is TRUE or g is FALSE:
                continue
            if entails_int(pc, g):
                d[g] = TRUE
            elif entails_int(pc, bnot(g)):
                d[g] = FALSE
        if not d:
            return rs
        memo = {}
        rs2 = tuple(assume_many(r, d, memo) for r in rs)
        if all(x is y for x, y in zip(rs, rs2)):
            return rs
        rs = rs2
    return rs


def some_int_ite(fv):
    for i in sorted(fv):
        if ATOMS[i].kind == 'ite':
            return ATOMS[i]
    return None


def lift_ints(r, memo):
    """integer case distinctions inside indices become case distinctions of the value"""
    if isinstance(r, tuple):
        return tuple(lift_ints(y, memo) for y in r)
    if not isinstance(r, (R, B)) or some_int_ite(r.fv) is None:
        return r
    x = memo.get(r)
    if x is not None:
        return x
    if isinstance(r, R) and r.op == 'red':
        return r
    if isinstance(r, R) and r.op in ('sel', 'v', 'i2r', 'app') or isinstance(r, B) and not r.real and r.op not in ('and', 'or', 'not'):
        own = set()

        def polys(y):
            if isinstance(y, tuple):
                for z in y:
                    polys(z)
            elif isinstance(y, Poly):
                for m in y.t:
                    own.update(i for i in m if ATOMS[i].kind == 'ite')
        polys(r.a)
        if own:
            a = ATOMS[max(own)]
            c = lift_ints(a.args[0], memo)
            u, v = (lift_ints(subst(r, {a.id: b}), memo) for b in a.args[1:])
            x = rite(c, u, v) if isinstance(r, R) else bite(c, u, v)
            memo[r] = x
            return x
    if isinstance(r, B):
        x = rebuild_b(r, [lift_ints(y, memo) for y in r.a])
    else:
        x = rebuild_r(r, [lift_ints(y, memo) for y in r.a])
    memo[r] = x
    return x


def sat_quick(pc, timeout=400):
    """feasibility of mixed path conditions; unknown counts as feasible"""
    return check(pc, timeout) != 'unsat'


MAXSPLIT = 4096


# =================================================================== sums
def has_sum(r, seen):
    if isinstance(r, tuple):
        return any(has_sum(y, seen) for y in r)
    if not isinstance(r, R) or r in seen:
        return False
    seen.add(r)
    if r.op == 'red':
        return r.a[0] == 'sum' or has_sum(r.a[4], seen) or has_sum(r.a[5], seen)
    return any(has_sum(y, seen) for y in r.a)


def linear(x, bv):
    """x as a list of (factor independent of bv, rest)"""
    if bv not in x.fv:
        return [(x, R1)]
    if x.op == 'add':
        return [t for y in x.a for t in linear(y, bv)]
    if x.op == 'mul':
        ts = [(R1, R1)]
        for y in x.a:
            ls = linear(y, bv)
            if len(ls) * len(ts) > 16:
                return [(R1, x)]
            ts = [(rmul(c, d), rmul(k, e)) for c, k in ts for d, e in ls]
        return ts
    if x.op == 'div':
        if bv not in x.a[1].fv:
            return [(rdiv(c, x.a[1]), k) for c, k in linear(x.a[0], bv)]
        return [(c, rdiv(k, x.a[1])) for c, k in linear(x.a[0], bv)]
    return [(R1, x)]


def conjuncts(b):
    if b is TRUE:
        return []
    return [c for y in b.a for c in conjuncts(y)] if b.op == 'and' else [b]


def pinned(conds, bv):
    """the value which the conditions force on bv"""
    for c in conds:
        if c.op == 'eq0':
            k = c.a[0].t.get((bv,))
            if k in (1, -1):
                rest = c.a[0] - A(ATOMS[bv]) * K(k)
                if bv not in rest.fv:
                    return rest * K(-k)
    return None


def sum_normal(x, facts, memo):
    """reductions of kind sum with the conditions their range implies dropped, the initial value and the factors
    independent of the index taken out, terms which one index alone contributes evaluated"""
    if isinstance(x, tuple):
        return tuple(sum_normal(y, facts, memo) for y in x)
    if not isinstance(x, R) or not has_sum(x, set()):
        return x
    key = (x, tuple(facts))
    r = memo.get(key)
    if r is not None:
        return r
    if x.op != 'red':
        r = rebuild_r(x, [sum_normal(y, facts, memo) for y in x.a])
    elif x.a[0] != 'sum':
        r = x
    else:
        _, bv, n, cond, body, init = x.a
        s = atom('sym', (fresh_name('sm'), ()), 0, None)
        cond, body = subst(cond, {bv: A(s)}), subst(body, {bv: A(s)})
        fs = facts + [ge0(A(s)), lt(A(s), n)]
        r = sum_normal(init, facts, memo)
        groups = {}
        def add(c, conds, k):
            groups.setdefault((c, tuple(conds)), []).append(k)
        def piece(coef, conds, k):
            if k is R0:
                return
            cs = []
            for c in conds:
                if not c.real and entails_int(fs + cs, c):
                    continue
                if not c.real and entails_int(fs + cs, bnot(c)):
                    return
                cs.append(c)
            if k.op == 'ite' and not k.a[0].real:
                if k.a[2] is R0:
                    return parts(coef, cs + conjuncts(k.a[0]), k.a[1])
                if k.a[1] is R0:
                    return parts(coef, cs + conjuncts(bnot(k.a[0])), k.a[2])
                if entails_int(fs + cs, k.a[0]):
                    return parts(coef, cs, k.a[1])
                if entails_int(fs + cs, bnot(k.a[0])):
                    return parts(coef, cs, k.a[2])
            t = pinned(cs, s.id)
            if t is not None:
                m = {s.id: t}
                v = rite(band(ge0(t), lt(t, n), *[subst(c, m) for c in cs]), subst(k, m), R0)
                groups.setdefault(None, []).append(rmul(coef, v))
                return
            add(coef, cs, k)
        def parts(coef, conds, y):
            for c, k in linear(y, s.id):
                piece(rmul(coef, c), conds, k)
        conds = conjuncts(cond)
        parts(R1, conds, sum_normal(body, fs + [c for c in conds if not c.real], memo))
        for g, ks in groups.items():
            t = R0
            for k in ks:
                t = radd(t, k)
            if g is None:
                r = radd(r, t)
                continue
            coef, cs = g
            # terms which do not depend on the index
            if not cs and s.id not in t.fv and entails_int(facts, ge0(n)):
                r = radd(r, rmul(coef, rmul(i2r(n), t)))
            else:
                r = radd(r, rmul(coef, mkred('sum', s.id, n, band(*cs), t, R0)))
    memo[key] = r
    return r


def prove_eq(pc, a, b, budget=None, deadline=None):
    """pc |= a == b"""
    if a is b:
        return Result('proved', 'syntactic')
    t0 = time.time()
    deadline = deadline or (t0 + 120)
    if has_sum((a, b), set()):
        memo = {}
        facts = [c for c in pc if not c.real]
        a2, b2 = sum_normal(a, facts, memo), sum_normal(b, facts, memo)
        if a2 is b2:
            return Result('proved', 'syntactic')
        if a2 is not a or b2 is not b:
            r = _prove_eq(list(pc), a2, b2, {'n': 0, 'backend': set()}, t0 + (deadline - t0) / 2)
            if r.status == 'proved':
                return r
        r = _prove_eq(list(pc), a, b, {'n': 0, 'backend': set()}, deadline)
        if r.status == 'failed':        # the model says nothing about sums
            return Result('unknown', note='sums')
        return r
    st = {'n': 0, 'backend': set()}
    r = _prove_eq(list(pc), a, b, st, deadline)
    return r


def pc_equalities(pc):
    out = {}
    for b in pc:
        if b.op == 'req':
            x, y = b.a
            for u, v in ((x, y), (y, x)):
                if u.op in ('v', 'sel') and u not in out and not occurs(u, v):
                    out[u] = v
                    break
    return out


def occurs(u, v):
    if u is v:
        return True
    if isinstance(v, R):
        return any(occurs(u, y) for y in v.a if isinstance(y, (R, tuple)))
    if isinstance(v, tuple):
        return any(occurs(u, y) for y in v if isinstance(y, R))
    return False


def _prove_eq(pc, a, b, st, deadline, depth=0):
    st['n'] += 1
    if st['n'] > MAXSPLIT or time.time() > deadline:
        return Result('unknown', note='case split / time limit')
    if a is b:
        return Result('proved', 'syntactic')
    # equalities on the path
    eqs = pc_equalities(pc)
    if eqs:
        for _ in range(4):
            a2, b2 = subst_real(a, eqs), subst_real(b, eqs)
            if a2 is a and b2 is b:
                break
            a, b = a2, b2
        if a is b:
            return Result('proved', 'syntactic')
    c = find_ite(a)
    if c is None:
        c = find_ite(b)
    if st['n'] == 1 and some_int_ite(a.fv | b.fv) is not None:
        memo = {}
        a, b = lift_ints(a, memo), lift_ints(b, memo)
        if a is b:
            return Result('proved', 'syntactic')
        c = find_ite(a) or find_ite(b)
    if c is not None and st['n'] == 1:
        a, b = decide_guards(pc, a, b)
        if a is b:
            return Result('proved', 'syntactic')
        c = find_ite(a)
        if c is None:
            c = find_ite(b)
    if c is not None and st['n'] == 1:
        for cuts in (False, True):
            z = merged(a, b, min(deadline, time.time() + 150), cuts)
            if z is True:
                return Result('proved', 'nf')
            a, b = z
        c = find_ite(a)
        if c is None:
            c = find_ite(b)
    if c is not None:
        if depth in (0, 3, 5, 7) and st.get('lost', 0) < 4:
            # many cases: the solver may do them all at once
            if lra_proves(pc, req(a, b)):
                return Result('proved', 'z3')
            st['lost'] = st.get('lost', 0) + 1
        results = []
        for val in (True, False):
            cc = c if val else bnot(c)
            if bnot(cc) in pc:
                continue
            pc2 = pc if cc in pc else pc + [cc]
            if cc not in pc and not sat_quick(pc2):
                continue
            memo = {}
            a2, b2 = assume_b(a, c, val, memo), assume_b(b, c, val, memo)
            if a2.hasite or b2.hasite:
                d = implied_conds(c, val, a2, b2, st, deadline)
                if d:
                    memo = {}
                    a2, b2 = assume_many(a2, d, memo), assume_many(b2, d, memo)
            r = _prove_eq(pc2, a2, b2, st, deadline, depth + 1)
            if r.status != 'proved':
                return r
            results.append(r.backend)
        return Result('proved', 'nf+split' if 'nf' in ''.join(results) else 'split')
    # ite-free leaf
    t0 = time.time()
    diff = rsub(a, b)
    STATS['nf_n'] += 1
    note = ''
    for step in range(4):
        try:
            if step in (1, 2):
                z = sweep(a, b, step == 1, deadline)
                if not z and step == 2:
                    z = tie(pc, a, b, st, deadline)
            else:
                nf = NF()
                nf.limit = 60.0 if step == 3 else 4.0
                z = nf.is_zero(diff)
            if z or (step == 0 and tie(pc, a, b, st, deadline)):
                STATS['nf_s'] += time.time() - t0
                return Result('proved', 'nf')
            if step in (0, 3):
                break
        except TooBig:
            note = 'normal form too large'
        except DivZero:
            note = 'division by zero'
            break
    STATS['nf_s'] += time.time() - t0
    # reductions on both sides: pointwise
    r = prove_red(pc, a, b, st, deadline)
    if r is not None:
        return r
    # infeasible path?
    g = req(a, b)
    return smt(pc, g, deadline, note)


def reds_in(r, out, seen):
    if isinstance(r, tuple):
        for y in r:
            reds_in(y, out, seen)
        return
    if not isinstance(r, R) or r in seen:
        return
    seen.add(r)
    if r.op == 'red':
        out.append(r)
        reds_in(r.a[5], out, seen)
        return
    for y in r.a:
        reds_in(y, out, seen)


def prove_red(pc, a, b, st, deadline):
    """match reduction terms of a against those of b (pointwise equality of the bodies)"""
    ra, rb = [], []
    reds_in(a, ra, set())
    reds_in(b, rb, set())
    ra = [x for x in ra if x not in rb]
    rb = [x for x in rb if x not in ra]
    if not ra or not rb:
        return None
    m = {}
    for x in ra:
        for y in rb:
            if same_red(pc, x, y, st, deadline):
                m[x] = y
                break
    if not m:
        return None
    a2 = subst_real(a, m)
    if a2 is a:
        return None
    return _prove_eq(pc, a2, b, st, deadline)


def same_red(pc, x, y, st, deadline):
    k1, v1, n1, c1, b1, i1 = x.a
    k2, v2, n2, c2, b2, i2 = y.a
    if k1 != k2:
        return False
    if n1 is not n2 and not entails_int(pc, eq(n1, n2)):
        # equal also when both ranges are empty
        return False
    s = atom('sym', (fresh_name('pt'), ()), 0, None)
    c1, b1 = subst(c1, {v1: A(s)}), subst(b1, {v1: A(s)})
    c2, b2 = subst(c2, {v2: A(s)}), subst(b2, {v2: A(s)})
    base = list(pc) + [ge0(A(s)), lt(A(s), n1)]
    if c1 is not c2:
        for p, q in ((c1, c2), (c2, c1)):
            if check(base + [p, bnot(q)], 1000) != 'unsat':
                return False
    if _prove_eq(list(pc), i1, i2, st, deadline).status != 'proved':
        return False
    return _prove_eq(base + ([c1] if c1 is not TRUE else []), b1, b2, st, deadline).status == 'proved'


def used_pc(pc, goal):
    return list(pc)


def smt(pc, goal, deadline=None, note='', timeouts=(5000, 20000)):
    """z3, then cvc5"""
    left = 60 if deadline is None else max(1.0, deadline - time.time())
    if goal is FALSE:
        neg = TRUE
    else:
        neg = bnot(goal)
    bs = [b for b in pc] + [neg]
    last = None
    for nl in ((False, True) if not goal.real else (True,)):
        t0 = time.time()
        r, m = check(bs, int(min(timeouts[0], left * 1000)), nl=nl, want_model=True)
        if r == 'unsat':
            return Result('proved', 'z3')
        if r == 'sat':
            last = m
            if nl or goal.real:
                return Result('failed', 'z3', m, note)
    r = cvc5_check(bs, min(timeouts[1] / 1000.0, left))
    if r == 'unsat':
        return Result('proved', 'cvc5')
    if last is not None:
        return Result('failed', 'z3', last, note)
    if r == 'sat':
        return Result('failed', 'cvc5', None, note)
    return Result('unknown', 'z3+cvc5', None, note)


def cvc5_check(bs, timeout):
    t0 = time.time()
    zt = ZT(True)
    s = z3.Solver()
    s.add(*[zt.b(b) for b in bs])
    s.add(*zt.facts)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), '--nl-ext-tplanes', f.name], capture_output=True, text=True,
                           timeout=timeout + 10)
        r = o.stdout.strip().split('\n')[-1]
    except subprocess.TimeoutExpired:
        r = 'unknown'
    os.unlink(f.name)
    STATS['cvc5_s'] += time.time() - t0
    STATS['cvc5_n'] += 1
    return r if r in ('sat', 'unsat') else 'unknown'


def prove(pc, goal, deadline=None):
    """generic goal"""
    if goal is TRUE:
        return Result('proved', 'syntactic')
    deadline = deadline or time.time() + 120
    if goal.op == 'and':
        bk = set()
        for g in goal.a:
            r = prove(pc, g, deadline)
            if r.status != 'proved':
                return r
            bk.add(r.backend)
        return Result('proved', '+'.join(sorted(bk)))
    if goal.op == 'req':
        return prove_eq(pc, goal.a[0], goal.a[1], deadline=deadline)
    if not goal.real:
        if entails_int(pc, goal):
            return Result('proved', 'z3')
        return smt(pc, goal, deadline)
    if goal.op in ('rlt', 'rle'):
        return prove_ineq(list(pc), goal, deadline)
    if goal.op == 'or':
        # (A & not B) | B is A | B
        neg = {bnot(d) for d in goal.a}
        goal = bor(*[band(*[c for c in d.a if c not in neg]) if d.op == 'and' else d for d in goal.a])
        if goal.op != 'or':
            return prove(pc, goal, deadline)
    pc = list(pc) + [f for f in red_facts(pc, goal) if f not in pc]
    return smt(pc, goal, deadline)


# ------------------------------------------------------------------ instances of max / min reductions
def walk_terms(x, f, seen, inred=False):
    if isinstance(x, tuple):
        for y in x:
            walk_terms(y, f, seen, inred)
        return
    if isinstance(x, B):
        if x in seen:
            return
        seen.add(x)
        if x.real:
            for y in x.a:
                walk_terms(y, f, seen, inred)
        return
    if not isinstance(x, R) or x in seen:
        return
    seen.add(x)
    f(x)
    if x.op == 'red':
        walk_terms(x.a[5], f, seen)
        return
    for y in x.a:
        walk_terms(y, f, seen)


def walk_all(x, f, seen):
    """all real subterms, conditions and arguments included"""
    if isinstance(x, tuple):
        for y in x:
            walk_all(y, f, seen)
        return
    if isinstance(x, (B, R)) and x not in seen:
        seen.add(x)
        if isinstance(x, R):
            f(x)
        for y in x.a:
            walk_all(y, f, seen)


def unify(p, t, bvs, eqs):
    """structural match of the pattern p against t, collecting integer equations"""
    if p is t:
        return True
    if isinstance(p, tuple):
        return isinstance(t, tuple) and len(p) == len(t) and all(unify(x, y, bvs, eqs) for x, y in zip(p, t))
    if isinstance(p, Poly):
        if not isinstance(t, Poly):
            return False
        if p.fv & bvs:
            eqs.append((p, t))
            return True
        return True      # compared after the substitution
    if isinstance(p, R):
        if not isinstance(t, R) or p.op != t.op or len(p.a) != len(t.a):
            return False
        if not (p.fv & bvs):
            return True
        n = len(eqs)
        if all(unify(x, y, bvs, eqs) for x, y in zip(p.a, t.a)):
            return True
        if p.op in ('add', 'mul') and len(p.a) == 2:
            del eqs[n:]
            if unify(p.a[0], t.a[1], bvs, eqs) and unify(p.a[1], t.a[0], bvs, eqs):
                return True
        return False
    if isinstance(p, B):
        if not isinstance(t, B) or p.op != t.op or len(p.a) != len(t.a):
            return False
        return all(unify(x, y, bvs, eqs) for x, y in zip(p.a, t.a))
    return p == t


def solve_index(eqs, bvs):
    """binders from one index equation that is linear in them, by division by their coefficients (the largest first)"""
    for p, t in eqs:
        coef = []
        for v in bvs:
            l = p.linear_in(v) if v in p.fv else None
            if v in p.fv and l is None:
                # symbolic coefficient: collect the monomials with v
                ms = {}
                for m, c in p.t.items():
                    if v in m:
                        mm = list(m)
                        mm.remove(v)
                        if v in mm:
                            ms = None
                            break
                        ms[tuple(mm)] = c
                if not ms:
                    break
                lead = max(ms, key=lambda m: (len(m), len(set(m)), [str(ATOMS[i].args) for i in m]))
                coef.append((v, lead, ms[lead], mkpoly(ms)))
            elif l is not None:
                coef.append((v, (), l[0], None))
        else:
            if len(coef) != len(bvs):
                continue
            coef.sort(key=lambda q: -len(q[1]))
            rest = t - p
            for v in bvs:
                pass
            d = t - subst(p, {v: ZERO for v in bvs})
            sol = {}
            ok = True
            for v, mono, c, whole in coef:
                q, r = {}, {}
                for m, k in d.t.items():
                    mm = list(m)
                    hit = k % c == 0
                    if hit:
                        for a in mono:
                            if a in mm:
                                mm.remove(a)
                            else:
                                hit = False
                                break
                    if hit:
                        q[tuple(mm)] = q.get(tuple(mm), 0) + k // c
                    else:
                        r[m] = k
                sol[v] = mkpoly({m: k for m, k in q.items() if k})
                d = mkpoly(r) if whole is None else d - sol[v] * whole
            if d is ZERO or d == ZERO:
                return sol
    return None


def red_facts(pc, goal):
    tops, terms = [], []
    seen = set()

    def f(x):
        if x.op == 'red':
            if x.a[0] in ('max', 'min'):
                tops.append(x)
        else:
            terms.append(x)
    walk_terms(goal, f, seen)
    for b in pc:
        if b.real:
            walk_terms(b, f, seen)
    out = []
    for M in tops:
        kind = M.a[0]
        binders = []
        x = M
        while True:
            _, bv, n, cond, body, init = x.a
            binders.append((bv, n, cond))
            if init.op != 'ninf' and init.op != 'pinf' and not (init.op == 'app' and init.a[0] in ('ninf', 'pinf')):
                if x is M:
                    out.append(rle(init, M) if kind == 'max' else rle(M, init))
            if isinstance(body, R) and body.op == 'red' and body.a[0] == kind:
                x = body
                continue
            break
        bvs = frozenset(b[0] for b in binders)
        cnt = 0
        if True:
            # at the cells that are read elsewhere
            reads = []
            walk_all(body, lambda y: reads.append(y) if y.op == 'sel' and y.fv & bvs else None, set())
            sols = []
            for t in terms:
                if t.op != 'sel':
                    continue
                for y in reads:
                    eqs = []
                    if y.a[0] == t.a[0] and unify(y, t, bvs, eqs) and eqs:
                        sol = solve_index(eqs, [b[0] for b in binders])
                        if sol is not None and sol not in sols:
                            sols.append(sol)
            for sol in sols[:12]:
                g = []
                for bv, n, cond in binders:
                    g += [ge0(sol[bv]), lt(sol[bv], subst(n, sol)), subst(cond, sol)]
                t = subst(body, sol)
                new = bor(bnot(band(*g)), rle(t, M) if kind == 'max' else rle(M, t))
                if new not in out:
                    out.append(new)
        for t in terms:
            if t.op != body.op:
                continue
            eqs = []
            if not unify(body, t, bvs, eqs) or not eqs:
                continue
            sol = solve_index(eqs, [b[0] for b in binders])
            if sol is None:
                continue
            t = subst(body, sol)     # up to the order of sums and products
            g = []
            for bv, n, cond in binders:
                e = sol[bv]
                g += [ge0(e), lt(e, subst(n, sol)), subst(cond, sol)]
            new = bor(bnot(band(*g)), rle(t, M) if kind == 'max' else rle(M, t))
            if new in out:
                continue
            out.append(new)
            cnt += 1
            if cnt > 40:
                break
    return out


def has_extremum(bs):
    """is there a maximum or minimum over a range, of which the solvers know instances only?"""
    hit = []
    seen = set()
    for b in bs:
        walk_terms(b, lambda x: hit.append(x) if x.op == 'red' and x.a[0] in ('max', 'min') else None, seen)
        if hit:
            return True
    return False


def prove_ineq(pc, goal, deadline):
    a, b = goal.a
    fs = red_facts(pc, goal)
    keep = []
    if fs:
        fs = [f_ for f_ in fs if f_ not in pc]
        if fs:
            for f_ in fs:
                if f_.op == 'or':
                    # discharge the integer guard now
                    gs = [x for x in f_.a if not x.real]
                    rs = [x for x in f_.a if x.real]
                    if rs and all(entails_int(pc, bnot(x)) for x in gs):
                        keep.append(bor(*rs))
                        continue
                keep.append(f_)
            pc = pc + keep
    eqs = pc_equalities(pc)
    if eqs:
        a, b = subst_real(a, eqs), subst_real(b, eqs)
        goal = rlt(a, b) if goal.op == 'rlt' else rle(a, b)
        if goal is TRUE:
            return Result('proved', 'syntactic')
    if fs and goal.op == 'rle':
        # the goal may be one of the instances, written in another way
        for f_ in keep:
            if f_.op == 'rle' and f_.a[1] is b and f_.a[0].op != 'c':
                x, y = a, f_.a[0]
            elif f_.op == 'rle' and f_.a[0] is a and f_.a[1].op != 'c':
                x, y = f_.a[1], b
            else:
                continue
            q = prove_eq(pc, x, y, deadline=min(deadline, time.time() + 10))
            if q.status == 'proved':
                return Result('proved', q.backend)
    r = smt(pc, goal, deadline, timeouts=(4000, 8000))
    if r.status != 'unknown':
        return r
    c = find_ite(a) or find_ite(b)
    if c is None:
        return r
    for val in (True, False):
        cc = c if val else bnot(c)
        pc2 = pc + [cc]
        if not sat_quick(pc2):
            continue
        memo = {}
        a2, b2 = assume_b(a, c, val, memo), assume_b(b, c, val, memo)
        g = rlt(a2, b2) if goal.op == 'rlt' else rle(a2, b2)
        if g is TRUE:
            continue
        if g is FALSE:
            return smt(pc2, FALSE, deadline)
        if time.time() > deadline:
            return Result('unknown', note='time')
        r = prove_ineq(pc2, g, deadline)
        if r.status != 'proved':
            return r
    return Result('proved', 'z3+split')
