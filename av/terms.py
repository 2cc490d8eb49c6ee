"""Hash-consed terms: integer polynomials (Poly), booleans (B), reals (R)."""
from fractions import Fraction

# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ('id', 'kind', 'args', 'lo', 'hi', 'fv')

    def __repr__(self):
        return atom_str(self)


ATOMS = []
_atom_tab = {}


def atom(kind, args, lo=None, hi=None):
    key = (kind, args)
    a = _atom_tab.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.args = args
        a.lo = lo
        a.hi = hi
        fv = {a.id}
        for x in args:
            f = getattr(x, 'fv', None)
            if f:
                fv |= f
            elif isinstance(x, tuple):
                for y in x:
                    f = getattr(y, 'fv', None)
                    if f:
                        fv |= f
        a.fv = frozenset(fv)
        ATOMS.append(a)
        _atom_tab[key] = a
    return a


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return '%s!%d' % (base, _fresh[0])


def atom_str(a):
    if a.kind == 'sym':
        nm, idx = a.args
        return nm + ('[' + ','.join(map(str, idx)) + ']' if idx else '')
    return a.kind + '(' + ','.join(str(x) for x in a.args) + ')'


# ------------------------------------------------------------------ Poly
class Poly:
    __slots__ = ('t', 'fv', '_h', '_bnd')

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: (len(x[0]), x[0])):
            s = '*'.join(atom_str(ATOMS[i]) for i in m)
            if not s:
                out.append('%+d' % c)
            elif c == 1:
                out.append('+' + s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append('%+d*%s' % (c, s))
        r = ''.join(out)
        return r[1:] if r[0] == '+' else r

    def const(self):
        """int value or None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        if not o.t:
            return self
        if not self.t:
            return o
        d = dict(self.t)
        for m, c in o.t.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                del d[m]
        return mkpoly(d)

    def __neg__(self):
        return mkpoly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return mkpoly({m: c * k for m, c in self.t.items()})

    def __mul__(self, o):
        k = o.const()
        if k is not None:
            return self.scale(k)
        k = self.const()
        if k is not None:
            return o.scale(k)
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = tuple(sorted(m1 + m2))
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return mkpoly(d)

    def divexact(self, k):
        """poly / int k if all coefficients divisible else None"""
        if any(c % k for c in self.t.values()):
            return None
        return mkpoly({m: c // k for m, c in self.t.items()})

    def bounds(self):
        b = self._bnd
        if b is None:
            lo = hi = 0
            for m, c in self.t.items():
                l, h = 1, 1
                for i in m:
                    a = ATOMS[i]
                    al, ah = a.lo, a.hi
                    # product of intervals (None = infinite)
                    if al is not None and ah is not None and l is not None and h is not None:
                        cs = (l * al, l * ah, h * al, h * ah)
                        l, h = min(cs), max(cs)
                    elif l is not None and l >= 0 and al is not None and al >= 0:
                        l = l * al
                        h = h * ah if (h is not None and ah is not None) else None
                    else:
                        l = h = None
                        break
                if c < 0:
                    l, h = (None if h is None else c * h), (None if l is None else c * l)
                else:
                    l, h = (None if l is None else c * l), (None if h is None else c * h)
                lo = None if (lo is None or l is None) else lo + l
                hi = None if (hi is None or h is None) else hi + h
            b = self._bnd = (lo, hi)
        return b

    def linear_in(self, aid):
        """(coef int, rest) if p = coef*a + rest with int coef and rest free of a, else None"""
        co = 0
        rest = {}
        for m, c in self.t.items():
            if aid in m:
                if len(m) == 1:
                    co = c
                else:
                    return None
            else:
                for i in m:
                    if aid in ATOMS[i].fv:
                        return None
                rest[m] = c
        return co, mkpoly(rest)


_poly_tab = {}


def mkpoly(d):
    key = frozenset(d.items())
    p = _poly_tab.get(key)
    if p is None:
        p = Poly()
        p.t = d
        p._bnd = None
        fv = frozenset()
        for m in d:
            for i in m:
                fv |= ATOMS[i].fv
        p.fv = fv
        _poly_tab[key] = p
    return p


ZERO = mkpoly({})
ONE = mkpoly({(): 1})


def K(n):
    return mkpoly({(): n}) if n else ZERO


def A(a):
    return mkpoly({(a.id,): 1})


def isym(name, lo=None, hi=None, idx=()):
    return A(atom('sym', (name, tuple(idx)), lo, hi))


def iite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    la, ha = a.bounds()
    lb, hb = b.bounds()
    lo = None if la is None or lb is None else min(la, lb)
    hi = None if ha is None or hb is None else max(ha, hb)
    return A(atom('ite', (c, a, b), lo, hi))


def single_atom(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1:
            return ATOMS[m[0]]
    return None


# ------------------------------------------------------------------ B
class B:
    __slots__ = ('op', 'a', 'fv', 'real')

    def __repr__(self):
        o = self.op
        if o == 'true' or o == 'false':
            return o
        if o == 'ge0':
            return '(%s>=0)' % self.a[0]
        if o == 'eq0':
            return '(%s==0)' % self.a[0]
        if o == 'not':
            return '!' + repr(self.a[0])
        if o in ('and', 'or'):
            return '(' + (' & ' if o == 'and' else ' | ').join(map(repr, self.a)) + ')'
        if o == 'rlt':
            return '(%s < %s)' % self.a
        if o == 'rle':
            return '(%s <= %s)' % self.a
        if o == 'req':
            return '(%s == %s)' % self.a
        return '%s%r' % (o, self.a)


_b_tab = {}


def mkb(op, a=()):
    key = (op, a)
    b = _b_tab.get(key)
    if b is None:
        b = B()
        b.op = op
        b.a = a
        fv = frozenset()
        real = op in ('rlt', 'rle', 'req')
        for x in a:
            f = getattr(x, 'fv', None)
            if f:
                fv |= f
            if isinstance(x, B) and x.real:
                real = True
            elif isinstance(x, tuple):
                for y in x:
                    f = getattr(y, 'fv', None)
                    if f:
                        fv |= f
        b.fv = fv
        b.real = real
        _b_tab[key] = b
    return b


TRUE = mkb('true')
FALSE = mkb('false')


def _norm_sign(p):
    """normalise p==0 : gcd & sign"""
    from math import gcd
    g = 0
    for c in p.t.values():
        g = gcd(g, abs(c))
    cst = p.t.get((), 0)
    if g > 1:
        p = mkpoly({m: c // g for m, c in p.t.items()})
    # sign: leading (max monomial) coefficient positive
    m = max(p.t, key=lambda x: (len(x), x))
    if p.t[m] < 0:
        p = -p
    return p


def ge0(p):
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    lo, hi = p.bounds()
    if lo is not None and lo >= 0:
        return TRUE
    if hi is not None and hi < 0:
        return FALSE
    # divide by gcd of non constant coefs (floor const)
    from math import gcd
    g = 0
    for m, k in p.t.items():
        if m:
            g = gcd(g, abs(k))
    if g > 1:
        d = {m: (k // g) for m, k in p.t.items()}   # floor for the constant term
        d = {m: k for m, k in d.items() if k}
        p = mkpoly(d)
    # an unsigned value is positive iff it is not zero
    if len(p.t) == 2 and p.t.get(()) == -1:
        for m, k in p.t.items():
            if len(m) == 1 and k == 1 and ATOMS[m[0]].kind == 'zext':
                return bnot(eq0(ATOMS[m[0]].args[0]))
    return mkb('ge0', (p,))


def ge(a, b):
    return ge0(a - b)


def lt(a, b):
    return ge0(b - a - ONE)


def le(a, b):
    return ge0(b - a)


def eq0(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    lo, hi = p.bounds()
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    from math import gcd
    g = 0
    for m, k in p.t.items():
        if m:
            g = gcd(g, abs(k))
    if g > 1 and p.t.get((), 0) % g:
        return FALSE
    # ite atom compared with constant
    if len(p.t) <= 2:
        ms = [m for m in p.t if m]
        if len(ms) == 1 and len(ms[0]) == 1:
            a = ATOMS[ms[0][0]]
            if a.kind == 'ite':
                k = p.t[ms[0]]
                c0 = p.t.get((), 0)
                x = a.args[1].scale(k) + K(c0)
                y = a.args[2].scale(k) + K(c0)
                return bite(a.args[0], eq0(x), eq0(y))
    return mkb('eq0', (_norm_sign(p),))


def eq(a, b):
    return eq0(a - b)


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    if b.op == 'ge0':
        return ge0(-b.a[0] - ONE)
    if b.op == 'rlt':
        return mkb('rle', (b.a[1], b.a[0]))
    if b.op == 'rle':
        return mkb('rlt', (b.a[1], b.a[0]))
    if b.op == 'and':
        return bor(*[bnot(x) for x in b.a])
    if b.op == 'or':
        return band(*[bnot(x) for x in b.a])
    return mkb('not', (b,))


def band(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE:
            continue
        if b.op == 'and':
            for x in b.a:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    for b in out:
        if bnot(b) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mkb('and', tuple(out))


def bor(*bs):
    out = []
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE:
            continue
        if b.op == 'or':
            for x in b.a:
                if x not in out:
                    out.append(x)
        elif b not in out:
            out.append(b)
    for b in out:
        if bnot(b) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mkb('or', tuple(out))


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return bor(band(c, a), band(bnot(c), b))


def bsym(name, idx=()):
    return mkb('bsym', (name, tuple(idx)))


# ------------------------------------------------------------------ R
class R:
    __slots__ = ('op', 'a', 'fv', 'rv', 'hasite', 'depth')
    # rv: frozenset of real 'v' nodes names (free real symbols, for dependency checks)

    def __repr__(self):
        return rstr(self)


def rstr(r, d=0):
    o = r.op
    if d > 12:
        return '...'
    if o == 'c':
        return str(r.a[0])
    if o == 'v':
        return r.a[0] + ('[' + ','.join(map(str, r.a[1])) + ']' if r.a[1] else '')
    if o == 'add':
        return '(' + ' + '.join(rstr(x, d + 1) for x in r.a) + ')'
    if o == 'mul':
        return '(' + '*'.join(rstr(x, d + 1) for x in r.a) + ')'
    if o == 'div':
        return '(%s / %s)' % (rstr(r.a[0], d + 1), rstr(r.a[1], d + 1))
    if o == 'sel':
        return '%s[%s]' % (r.a[0], ','.join(map(str, r.a[1])))
    if o == 'app':
        return '%s(%s)' % (r.a[0], ','.join(rstr(x, d + 1) if isinstance(x, R) else str(x) for x in r.a[1]))
    if o == 'ite':
        return '(%s ? %s : %s)' % (r.a[0], rstr(r.a[1], d + 1), rstr(r.a[2], d + 1))
    if o == 'i2r':
        return 'R(%s)' % (r.a[0],)
    if o == 'red':
        return '%s{%s<%s; %s; %s}(init %s)' % (r.a[0], atom_str(ATOMS[r.a[1]]), r.a[2], r.a[3], rstr(r.a[4], d + 1), rstr(r.a[5], d + 1))
    return '%s(%s)' % (o, ','.join(rstr(x, d + 1) if isinstance(x, R) else str(x) for x in r.a))


_r_tab = {}


def mkr(op, a):
    key = (op, a)
    r = _r_tab.get(key)
    if r is None:
        r = R()
        r.op = op
        r.a = a
        fv = set()
        rv = set()
        hasite = op == 'ite'
        depth = 0

        def visit(x):
            nonlocal hasite, depth
            if isinstance(x, (Poly, B)):
                fv.update(x.fv)
                if isinstance(x, B):
                    rv.update(brv(x))
            elif isinstance(x, R):
                fv.update(x.fv)
                rv.update(x.rv)
                hasite = hasite or x.hasite
                depth = max(depth, x.depth)
            elif isinstance(x, tuple):
                for y in x:
                    visit(y)
        for x in a:
            visit(x)
        if op == 'red':
            fv.discard(a[1])
            hasite = a[5].hasite
            depth += 1
        if op == 'v':
            rv.add(a[0])
        r.fv = frozenset(fv)
        r.rv = frozenset(rv)
        r.hasite = hasite
        r.depth = depth
        _r_tab[key] = r
    return r


def brv(b):
    out = set()
    for x in b.a:
        if isinstance(x, B):
            out |= brv(x)
        elif isinstance(x, R):
            out |= x.rv
    return out


def rc(x):
    return mkr('c', (Fraction(x),))


R0 = rc(0)
R1 = rc(1)
RM1 = rc(-1)


def rvar(name, idx=()):
    return mkr('v', (name, tuple(idx)))


def radd(a, b):
    if a.op == 'c' and b.op == 'c':
        return rc(a.a[0] + b.a[0])
    if a is R0:
        return b
    if b is R0:
        return a
    if b.op == 'mul' and b.a[0] is RM1 and b.a[1] is a:
        return R0
    if a.op == 'mul' and a.a[0] is RM1 and a.a[1] is b:
        return R0
    return mkr('add', (a, b))


def rmul(a, b):
    if a.op == 'c' and b.op == 'c':
        return rc(a.a[0] * b.a[0])
    if a is R0 or b is R0:
        return R0
    if a is R1:
        return b
    if b is R1:
        return a
    if b.op == 'c':
        a, b = b, a
    if a.op == 'c' and b.op == 'mul' and b.a[0].op == 'c':
        return rmul(rc(a.a[0] * b.a[0].a[0]), b.a[1])
    return mkr('mul', (a, b))


def rneg(a):
    return rmul(RM1, a)


def rsub(a, b):
    if a is b:
        return R0
    return radd(a, rneg(b))


def rdiv(a, b):
    if b.op == 'c' and b.a[0] != 0:
        return rmul(rc(1 / b.a[0]), a)
    if a is R0:
        return R0
    return mkr('div', (a, b))


def rite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mkr('ite', (c, a, b))


def rsqrt(a):
    if a.op == 'c' and a.a[0] >= 0:
        from math import isqrt
        n, d = a.a[0].numerator, a.a[0].denominator
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return rc(Fraction(isqrt(n), isqrt(d)))
    return mkr('sqrt', (a,))


def rlt(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.a[0] < b.a[0] else FALSE
    if a.op == 'i2r' and b.op == 'i2r':
        return lt(a.a[0], b.a[0])
    return mkb('rlt', (a, b))


def rle(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.a[0] <= b.a[0] else FALSE
    if a.op == 'i2r' and b.op == 'i2r':
        return le(a.a[0], b.a[0])
    return mkb('rle', (a, b))


def req(a, b):
    if a is b:
        return TRUE
    if a.op == 'c' and b.op == 'c':
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == 'i2r' and b.op == 'i2r':
        return eq(a.a[0], b.a[0])
    return mkb('req', (a, b))


def rabs(a):
    if a.op == 'c':
        return rc(abs(a.a[0]))
    return rite(rlt(a, R0), rneg(a), a)


def rmax(a, b):
    return rite(rlt(a, b), b, a)


def rmin(a, b):
    return rite(rlt(b, a), b, a)


def i2r(p):
    c = p.const()
    if c is not None:
        return rc(c)
    return mkr('i2r', (p,))


def rapp(f, args):
    return mkr('app', (f, tuple(args)))


def rsel(name, key):
    return mkr('sel', (name, tuple(key)))


def mkred(kind, bv, n, cond, body, init):
    """kind in sum/max/min ; index bv (atom id) ranges over 0<=bv<n with cond.  The bound
    variable is renamed canonically so that alpha-equivalent terms are identical."""
    d = max(body.depth, 0)
    canon = atom('bvc', (d, kind))
    if canon.id in body.fv or canon.id in cond.fv:
        d = body.depth + 1
        while True:
            canon = atom('bvc', (d, kind))
            if canon.id not in body.fv and canon.id not in cond.fv:
                break
            d += 1
    m = {bv: A(canon)}
    body = subst(body, m)
    cond = subst(cond, m)
    if kind == 'sum' and body is R0:
        return init
    if kind in ('max', 'min') and body is init:
        return init
    return mkr('red', (kind, canon.id, n, cond, body, init))


# ------------------------------------------------------------------ substitution
def subst(x, m, memo=None):
    """substitute integer atoms (dict id->Poly) in Poly/B/R"""
    if not m:
        return x
    ks = frozenset(m)
    return _subst(x, m, ks, {} if memo is None else memo)


def _subst(x, m, ks, memo):
    if isinstance(x, tuple):
        return tuple(_subst(y, m, ks, memo) for y in x)
    if not isinstance(x, (Poly, B, R)):
        return x
    if not (x.fv & ks):
        return x
    r = memo.get(x)
    if r is not None:
        return r
    if isinstance(x, Poly):
        r = ZERO
        for mo, c in x.t.items():
            t = K(c)
            for i in mo:
                t = t * _subst_atom(i, m, ks, memo)
            r = r + t
    elif isinstance(x, B):
        r = rebuild_b(x, [_subst(y, m, ks, memo) for y in x.a])
    else:
        if x.op == 'red':
            kind, bv, n, cond, body, init = x.a
            # avoid capture
            m2 = {k: v for k, v in m.items() if k != bv}
            for v in m2.values():
                if bv in v.fv:
                    nb = atom('sym', (fresh_name('bvr'), ()))
                    cond = subst(cond, {bv: A(nb)})
                    body = subst(body, {bv: A(nb)})
                    bv = nb.id
                    break
            r = mkred(kind, bv, subst(n, m), subst(cond, m2), subst(body, m2), subst(init, m))
        else:
            r = rebuild_r(x, [_subst(y, m, ks, memo) for y in x.a])
    memo[x] = r
    return r


def _subst_atom(i, m, ks, memo):
    v = m.get(i)
    if v is not None:
        return v
    a = ATOMS[i]
    if not (a.fv & ks):
        return A(a)
    return rebuild_atom(a, [_subst(y, m, ks, memo) for y in a.args])


def rebuild_atom(a, args):
    k = a.kind
    if k == 'sym':
        return A(atom('sym', (args[0], args[1]), a.lo, a.hi))
    if k == 'ite':
        return iite(*args)
    if k in ('udiv', 'urem', 'sdiv', 'srem'):
        return intdiv(k, args[0], args[1])
    if k == 'zext':
        return zext(args[0], args[1])
    return A(atom(k, tuple(args), a.lo, a.hi))


def rebuild_b(x, a):
    o = x.op
    if o == 'ge0':
        return ge0(a[0])
    if o == 'eq0':
        return eq0(a[0])
    if o == 'not':
        return bnot(a[0])
    if o == 'and':
        return band(*a)
    if o == 'or':
        return bor(*a)
    if o == 'rlt':
        return rlt(*a)
    if o == 'rle':
        return rle(*a)
    if o == 'req':
        return req(*a)
    return mkb(o, tuple(a))


def rebuild_r(x, a):
    o = x.op
    if o == 'add':
        return radd(*a)
    if o == 'mul':
        return rmul(*a)
    if o == 'div':
        return rdiv(*a)
    if o == 'ite':
        return rite(*a)
    if o == 'sqrt':
        return rsqrt(a[0])
    if o == 'i2r':
        return i2r(a[0])
    return mkr(o, tuple(a))


def subst_real(x, m, memo=None):
    """substitute real nodes (dict R->R), also inside conditions"""
    if memo is None:
        memo = {}
    if isinstance(x, tuple):
        return tuple(subst_real(y, m, memo) for y in x)
    if isinstance(x, R):
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        if x.op in ('c', 'v', 'i2r'):
            r = x
        elif x.op == 'red':
            r = mkr('red', tuple(subst_real(y, m, memo) for y in x.a))
        else:
            r = rebuild_r(x, [subst_real(y, m, memo) for y in x.a])
        memo[x] = r
        return r
    if isinstance(x, B):
        r = memo.get(x)
        if r is not None:
            return r
        if x.real or x.op in ('and', 'or', 'not'):
            r = rebuild_b(x, [subst_real(y, m, memo) for y in x.a])
        else:
            r = x
        memo[x] = r
        return r
    return x


# ------------------------------------------------------------------ integer ops
def intdiv(kind, a, b):
    ca, cb = a.const(), b.const()
    if cb is not None and cb != 0:
        if ca is not None:
            if kind in ('udiv', 'urem') and (ca < 0 or cb < 0):
                pass
            else:
                q = abs(ca) // abs(cb)
                if (ca < 0) != (cb < 0):
                    q = -q
                r = ca - q * cb
                return K(q) if kind in ('udiv', 'sdiv') else K(r)
        if cb == 1:
            return a if kind in ('udiv', 'sdiv') else ZERO
        if cb > 0:
            lo, hi = a.bounds()
            if lo is not None and lo >= 0:
                if hi is not None and hi < cb:
                    return ZERO if kind in ('udiv', 'sdiv') else a
                d = a.divexact(cb)
                if d is not None:
                    return d if kind in ('udiv', 'sdiv') else ZERO
                kind = 'u' + kind[1:]
                return A(atom(kind, (a, b), 0, (hi // cb if hi is not None else None) if kind == 'udiv' else cb - 1))
            if kind == 'sdiv':
                d = a.divexact(cb)
                if d is not None:
                    return d
            if kind == 'srem' and a.divexact(cb) is not None:
                return ZERO
    # symbolic exact cases
    if a is b:
        return ONE if kind in ('udiv', 'sdiv') else ZERO
    if a is ZERO:
        return ZERO
    lo, hi = a.bounds()
    if kind in ('udiv', 'urem'):
        return A(atom(kind, (a, b), 0, hi if kind == 'udiv' else None))
    return A(atom(kind, (a, b), 0 if (lo is not None and lo >= 0 and kind == 'srem') else None, None))


def zext(p, w):
    lo, hi = p.bounds()
    if lo is not None and lo >= 0:
        return p
    if hi is not None and hi < 0 and lo is not None and lo >= -(1 << w):
        return p + K(1 << w)
    return A(atom('zext', (p, w), 0, (1 << w) - 1))


def size_term(x, seen=None):
    """dag size"""
    if seen is None:
        seen = set()
    if x in seen:
        return 0
    seen.add(x)
    n = 1
    for y in x.a if hasattr(x, 'a') else ():
        if isinstance(y, (R, B)):
            n += size_term(y, seen)
    return n
