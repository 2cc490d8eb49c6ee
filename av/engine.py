"""Symbolic executor / verification-condition generator over LLVM IR.

* functions are executed symbolically for all inputs; calls without a contract are inlined,
  calls with a contract (av_* specification functions, OVERRIDES) use the contract;
* loops with a symbolic trip count are summarised by an invariant that is *inferred and then
  checked inductively* (every obligation of that check is discharged by the solver);
* doubles are mathematical reals, integers mathematical integers.
"""
import itertools
import math
import re
import sys
import time
from fractions import Fraction
from terms import *
import prove as PV
from prove import entails_int, check
import ir as IR

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class NeedSummary(Exception):
    def __init__(self, loop):
        self.loop = loop


class Ptr:
    __slots__ = ('b', 'o')

    def __init__(self, b, o):
        self.b = b     # block id or None
        self.o = o     # Poly byte offset

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.b, self.o)

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.b == x.b and self.o is x.o

    def __hash__(self):
        return hash((self.b, self.o))


NULL = Ptr(None, ZERO)


class Fn:
    __slots__ = ('name', 'mod')

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod

    def __repr__(self):
        return 'Fn(%s)' % self.name

    def __eq__(self, x):
        return isinstance(x, Fn) and self.name == x.name

    def __hash__(self):
        return hash(self.name)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Junk:
    """dead temporary carried around a summarised loop; any use is refused"""

    def __repr__(self):
        return 'junk'


JUNK = Junk()


class Agg:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return 'Agg%r' % (self.v,)

    def __eq__(self, o):
        return isinstance(o, Agg) and self.v == o.v

    def __hash__(self):
        return hash(self.v)


class Packed:
    """bytes assembled from several cells: ((off,size,val),...)"""
    __slots__ = ('parts', 'size')

    def __init__(self, parts, size):
        self.parts = tuple(parts)
        self.size = size

    def __repr__(self):
        return 'Packed%r' % (self.parts,)

    def __eq__(self, o):
        return isinstance(o, Packed) and self.parts == o.parts

    def __hash__(self):
        return hash(self.parts)


class Arr:
    """symbolic array storage.  base: ('sym',name) | ('const',val) | ('undef',name)
    ups: linked list (entry, rest) or None"""
    __slots__ = ('es', 'ty', 'dims', 'base', 'ups')

    def __init__(self, es, ty, dims, base, ups):
        self.es = es
        self.ty = ty
        self.dims = dims
        self.base = base
        self.ups = ups

    def with_ups(self, u):
        return Arr(self.es, self.ty, self.dims, self.base, u)


class Blk:
    __slots__ = ('id', 'name', 'size', 'cells', 'zero', 'arr', 'kind', 'alive', 'const', 'dims', 'adj')

    def __init__(self, id, name, size, kind):
        self.id = id
        self.name = name
        self.size = size          # Poly bytes
        self.cells = {}
        self.zero = ()            # ((lo,hi,byte),...)
        self.arr = None
        self.kind = kind
        self.alive = True
        self.dims = None

    def copy(self):
        b = Blk(self.id, self.name, self.size, self.kind)
        b.cells = dict(self.cells)
        b.zero = self.zero
        b.arr = self.arr
        b.alive = self.alive
        b.dims = self.dims
        return b


class State:
    __slots__ = ('mem', 'pc', 'statics', 'events')

    def __init__(self):
        self.mem = {}
        self.pc = []
        self.statics = {}
        self.events = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.statics = dict(self.statics)
        s.events = self.events
        return s

    def assume(self, b):
        """returns False if trivially contradictory"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b.op == 'and':
            return all(self.assume(x) for x in b.a)
        if b not in self.pc:
            if bnot(b) in self.pc:
                return False
            self.pc.append(b)
        return True


class Loop:
    def __init__(self, header, blocks):
        self.header = header
        self.blocks = blocks


class Region:
    __slots__ = ('header', 'blocks', 'mode', 'exits', 'ka')

    def __init__(self, header, blocks, mode):
        self.header = header
        self.blocks = blocks
        self.mode = mode       # 'unroll' 'sum' 'exit'
        self.exits = []
        self.ka = None


class Obligation:
    __slots__ = ('label', 'pc', 'goal', 'where', 'kind', 'result', 'time', 'count')

    def __init__(self, label, pc, goal, where, kind):
        self.label = label
        self.pc = pc
        self.goal = goal
        self.where = where
        self.kind = kind
        self.result = None
        self.time = 0.0


OVERRIDES = {}      # mangled-name regex -> python handler


class Recorder:
    def __init__(self, start):
        self.start = start
        self.reads = []


def real_of_double(d):
    """the real number a floating-point constant stands for: the simplest fraction (or short decimal)
    that rounds to it, so that 1.0 / 3.0 folded by the compiler is one third"""
    f = Fraction(d)
    if f.denominator <= 1 << 20:
        return f
    s = f.limit_denominator(100000)
    if s and float(s) == d:
        return s
    t = repr(d)
    if len(t.split('e')[0].replace('.', '').replace('-', '').strip('0')) <= 14:
        return Fraction(t)
    return f


# std::max / std::min of reals without splitting the path (option maxfn): the result refers to a temporary with the value,
# which is what any caller reads as long as it does not change an operand while it keeps the reference
STDMAX = {'_ZSt3%sI%sERKT_S2_S2_' % (f, c): t for f in ('max', 'min') for c, t in (('d', ('double',)), ('i', ('i', 32)))}


class Engine:
    def __init__(self, modules, resolver=None, opts=None):
        self.modules = list(modules)
        self.resolver = resolver       # name -> Module (compiles more sources) or None
        self.opts = opts or {}
        self.nblk = 0
        self.globals = {}              # (name) -> block id, shared prototypes
        self.gproto = {}
        self.obligations = []
        self.covers = {}
        self.functions = {}            # executed function -> count
        self.assumptions = set()
        self.recs = []
        self.loopks = []               # stack of loop index Polys
        self.loopcache = {}
        self.defs = set()
        self.callstack = []
        self.nsteps = 0
        self.maxsteps = self.opts.get('maxsteps', 30000000)
        self.loops_summarised = 0
        self.inputs = {}
        self.throws = []
        self.quick_oblig = True
        self.contract = ''
        self.deadline = None
        self.frameid = 0
        self.shapes = {}               # element count -> logical dimensions
        self.symtab = {}
        self.positive = set()          # inputs assumed positive
        self.abstract = re.compile(self.opts['abstract']) if self.opts.get('abstract') else None
        self.abstracted = {}           # term -> symbol standing for it
        for m in self.modules:
            self._addmod(m)

    def _addmod(self, m):
        for n, f in m.funcs.items():
            if ' internal ' in f.header or ' private ' in f.header:
                continue
            self.symtab.setdefault(n, f)

    def add_module(self, m):
        self.modules.append(m)
        self._addmod(m)

    # ---------------------------------------------------------------- misc
    def note(self, s):
        self.assumptions.add(s)

    def fresh_int(self, base, lo=None, hi=None):
        return A(atom('sym', (fresh_name(base), tuple(self.loopks)), lo, hi))

    def fresh_real(self, base):
        return rvar(fresh_name(base), tuple(self.loopks))

    def fresh_bool(self, base):
        return bsym(fresh_name(base), tuple(self.loopks))

    def fresh_of(self, ty, base='u'):
        if ty[0] in ('double', 'float', 'x86_fp80'):
            return self.fresh_real(base)
        if ty[0] == 'i':
            if ty[1] == 1:
                return self.fresh_bool(base)
            w = ty[1]
            return self.fresh_int(base, -(1 << (w - 1)), (1 << w) - 1)
        return UNDEF

    # ---------------------------------------------------------------- decisions
    def entails(self, pc, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in pc:
            return True
        if b.real:
            return check(pc + [bnot(b)], 300) == 'unsat'
        return entails_int(pc, b, 1000)

    def decide(self, st, b):
        """True / False / None"""
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        if b in st.pc:
            return True
        nb = bnot(b)
        if nb in st.pc:
            return False
        if b.real:
            if b.op in ('rlt', 'rle', 'req') and self.opts.get('real_decide', True):
                if check(st.pc + [b], 150) == 'unsat':
                    return False
                if check(st.pc + [nb], 150) == 'unsat':
                    return True
            return None
        if entails_int(st.pc, b):
            return True
        if entails_int(st.pc, nb):
            return False
        return None

    def feasible(self, st):
        ic = PV.int_only(st.pc)
        return check(ic, 500) != 'unsat'

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, label, goal, kind='assert'):
        where = ' <- '.join(self.callstack[-3:][::-1])
        self.obligations.append(Obligation(label, list(st.pc), goal, where, kind))

    # ---------------------------------------------------------------- memory
    def alloc(self, st, size, kind, name=''):
        self.nblk += 1
        b = Blk(self.nblk, name, size, kind)
        st.mem[b.id] = b
        return Ptr(b.id, ZERO)

    def blk(self, st, ptr, w=False):
        if not isinstance(ptr, Ptr):
            raise Unsupported('dereference of %r' % (ptr,))
        if ptr.b is None:
            raise Unsupported('null/int dereference %r' % (ptr,))
        b = st.mem.get(ptr.b)
        if b is None:
            g = self.gproto.get(ptr.b)
            if g is None:
                raise Unsupported('dangling block %r' % ptr.b)
            b = g
            st.mem[ptr.b] = b
        if w:
            b = b.copy()
            st.mem[ptr.b] = b
        return b

    def global_ptr(self, name, mod):
        # functions
        f = self.find_func(name, mod, parse=False)
        if f is not None:
            return Fn(name, mod)
        if name in mod.aliases:
            return self.global_ptr(mod.aliases[name], mod)
        internal = name in mod.globals and re.match(r'\s*(private|internal)\b', mod.globals[name])
        key = (name, mod.path) if internal else name
        p = self.globals.get(key)
        if p is not None:
            return p
        m = mod
        if not internal:
            # a definition may live in another module
            if name not in mod.globals or mod.global_init(name)[1] is None:
                for m2 in self.modules:
                    if name in m2.globals and m2.global_init(name)[1] is not None:
                        m = m2
                        break
                else:
                    m2 = None
                    if self.resolver and name in mod.globals and not name.startswith('_ZT') and self.wanted(name):
                        m2 = self.resolver(name, 'global')
                        if m2:
                            if m2 not in self.modules:
                                self.add_module(m2)
                            m = m2
                    elif self.resolver and name.startswith(('_ZTV', '_ZTI')) and self.wanted(name):
                        m2 = self.resolver(name, 'global')
                        if m2:
                            if m2 not in self.modules:
                                self.add_module(m2)
                            m = m2
        self.nblk += 1
        if name not in m.globals:
            if name in mod.decls or name.startswith('_Z') or True:
                # unknown function symbol: external
                if name in m.decls or any(name in mm.decls for mm in self.modules):
                    return Fn(name, mod)
            raise Unsupported('global ' + name)
        t, init = m.global_init(name)
        sz = 8
        try:
            sz = m.size(t)
        except Exception:
            pass
        b = Blk(self.nblk, name, K(sz), 'global')
        p = Ptr(b.id, ZERO)
        self.globals[key] = p
        self.gproto[b.id] = b
        if init is not None:
            self.init_global(b, m, t, init, 0)
            if init[0] == 'zero':
                self.dynamic_init(b, m, name)
        return p

    def dynamic_init(self, b, m, name):
        """runs the dynamic initialiser of a namespace-scope object when the object is first used"""
        inits = getattr(m, 'av_inits', None)
        if inits is None:
            inits = m.av_inits = {}
            for fn, f in m.funcs.items():
                if not fn.startswith('__cxx_global_var_init'):
                    continue
                for ln in f.lines:
                    g = re.search(r'(?:call|invoke) [^@]*@[^(]*\((?:[^@,]*)@("[^"]*"|[\w.$]+)', ln) or re.search(r'store [^,]*, ptr @("[^"]*"|[\w.$]+)', ln)
                    if g and '__cxa_atexit' not in ln:
                        inits.setdefault(g.group(1).strip('"'), f)
        f = inits.get(name)
        if f is None:
            return
        st = State()
        keep, self.loopks = self.loopks, []
        try:
            outs = self.call_func(st, f, [])
        finally:
            self.loopks = keep
        if len(outs) != 1:
            raise Unsupported('dynamic initialiser of ' + name)
        for i, blk in outs[0][0].mem.items():
            self.gproto[i] = blk

    def wanted(self, name):
        return bool(re.search(r'alsfvm|alsuq|alsutils', name))

    def init_global(self, b, m, t, v, off):
        t = m.resolve(t)
        k = v[0]
        if k == 'zero':
            b.zero = b.zero + ((off, off + m.size(t), 0),)
        elif k == 'str':
            for i, c in enumerate(v[1]):
                b.cells[off + i] = (1, K(c))
        elif k == 'agg':
            if t[0] in ('arr', 'vec'):
                es = m.size(t[2])
                for i, (tt, x) in enumerate(v[1]):
                    self.init_global(b, m, tt, x, off + i * es)
            else:
                offs, _ = m.offsets(t)
                for o, (tt, x) in zip(offs, v[1]):
                    self.init_global(b, m, tt, x, off + o)
        elif k == 'undef':
            pass
        else:
            val = self.const_val(v, t, m)
            b.cells[off] = (m.size(t), val)

    def read_cells(self, st, b, off, size, ty):
        c = b.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        # gather
        parts = []
        pos = off
        while pos < off + size:
            c = b.cells.get(pos)
            if c is not None and pos + c[0] <= off + size:
                parts.append((pos - off, c[0], c[1]))
                pos += c[0]
                continue
            if c is not None:
                # larger cell: take a piece
                x = self.piece(c[1], c[0], 0, off + size - pos)
                parts.append((pos - off, off + size - pos, x))
                pos = off + size
                continue
            # inside a larger earlier cell?
            hit = None
            for o, (s, v) in b.cells.items():
                if o < pos < o + s:
                    hit = (o, s, v)
                    break
            if hit:
                o, s, v = hit
                n = min(o + s, off + size) - pos
                parts.append((pos - off, n, self.piece(v, s, pos - o, n)))
                pos += n
                continue
            # zero fill?
            nxt = min([o for o in b.cells if o > pos] + [off + size])
            z = None
            for (lo, hi, byte) in reversed(b.zero):
                if lo <= pos < hi:
                    z = byte
                    nxt = min(nxt, hi)
                    break
                if lo > pos:
                    nxt = min(nxt, lo)
            n = nxt - pos
            parts.append((pos - off, n, UNDEF if z is None else ('fill', z)))
            pos = nxt
        if len(parts) == 1:
            v = parts[0][2]
            if v is UNDEF:
                return UNDEF
            if isinstance(v, tuple) and v[0] == 'fill':
                return self.fill_val(v[1], size, ty)
            return v
        if all(x[2] is UNDEF for x in parts):
            return UNDEF
        out = []
        for (o, n, v) in parts:
            if isinstance(v, tuple) and v[0] == 'fill':
                v = self.fill_val(v[1], n, ('i', 8 * n))
            out.append((o, n, v))
        # all constant ints -> combine
        if all(isinstance(v, Poly) and v.const() is not None for (_, _, v) in out):
            t = 0
            for (o, n, v) in out:
                t += (v.const() & ((1 << (8 * n)) - 1)) << (8 * o)
            return self.wrapc(t, 8 * size)
        return Packed(out, size)

    def fill_val(self, byte, size, ty):
        if ty[0] in ('double', 'float'):
            if byte == 0:
                return R0
            return UNDEF
        if ty[0] == 'ptr':
            if byte == 0:
                return NULL
            return UNDEF
        t = 0
        for i in range(size):
            t |= byte << (8 * i)
        if ty == ('i', 1):
            return TRUE if t else FALSE
        return self.wrapc(t, 8 * size)

    def wrapc(self, c, w):
        c &= (1 << w) - 1
        if c >= 1 << (w - 1):
            c -= 1 << w
        return K(c)

    def piece(self, v, size, off, n):
        if off == 0 and n == size:
            return v
        if isinstance(v, Packed):
            ps = [(o - off, s, x) for (o, s, x) in v.parts if o >= off and o + s <= off + n]
            if sum(p[1] for p in ps) == n:
                if len(ps) == 1:
                    return ps[0][2]
                return Packed(ps, n)
        if isinstance(v, Poly):
            c = v.const()
            if c is not None:
                return self.wrapc(c >> (8 * off), 8 * n)
            if off == 0:
                return self.trunc(v, 8 * n)
            return intdiv('udiv', v, K(1 << (8 * off)))
        if v is UNDEF:
            return UNDEF
        raise Unsupported('piece of %r' % (v,))

    def clear_range(self, b, off, size):
        for o in list(b.cells):
            s, v = b.cells[o]
            if o < off + size and off < o + s:
                if o >= off and o + s <= off + size:
                    del b.cells[o]
                else:
                    # partial overlap: split
                    del b.cells[o]
                    if o < off:
                        b.cells[o] = (off - o, self.piece(v, s, 0, off - o))
                    if o + s > off + size:
                        b.cells[off + size] = (o + s - off - size, self.piece(v, s, off + size - o, o + s - off - size))

    def typed(self, v, ty):
        """coerce a stored value to the type it is loaded with"""
        if v is UNDEF or v is JUNK:
            return v
        k = ty[0]
        if k in ('double', 'float'):
            if isinstance(v, R):
                return v
            if isinstance(v, Poly) and v.const() == 0:
                return R0
            if isinstance(v, Poly) and v.const() is not None and k == 'double':
                import struct
                d = struct.unpack('<d', struct.pack('<q', v.const()))[0]
                return self.fconst(d)
            if isinstance(v, Packed):
                return v
            raise Unsupported('load %s from %r' % (ty, v))
        if k == 'i':
            if ty[1] == 1:
                if isinstance(v, Poly):
                    return self.trunc1(v)
                return v
            if isinstance(v, B):
                return iite(v, ONE, ZERO)
            return v
        if k == 'ptr':
            if isinstance(v, Poly):
                if v is ZERO:
                    return NULL
                return Ptr(None, v)
            return v
        return v

    def elem_off(self, p, es):
        return p.divexact(es)

    def ensure_arr(self, st, ptr, es, ty):
        """switch a block to array storage"""
        b = self.blk(st, ptr)
        if b.arr is not None:
            if b.arr.es != es:
                raise Unsupported('element size %d vs %d in %s' % (es, b.arr.es, b.name))
            return b
        b = self.blk(st, ptr, True)
        if b.dims is None:
            n = b.size.divexact(es)
            b.dims = self.shapes.get(n) if n is not None else None
        ups = None
        base = ('undef', 'U%d' % b.id)
        if b.zero:
            if len(b.zero) == 1 and b.zero[0][0] == 0 and b.size.const() is not None and b.zero[0][1] >= b.size.const() \
                    and b.zero[0][2] == 0:
                base = ('const', self.fill_val(0, es, ty))
            else:
                n = b.size.const()
                if n is None:
                    raise Unsupported('zero ranges in array block')
                for i in range(0, n, es):
                    v = self.read_cells(st, b, i, es, ty)
                    if v is not UNDEF:
                        b.cells[i] = (es, v)
        for o in sorted(b.cells):
            s, v = b.cells[o]
            if s != es or o % es:
                raise Unsupported('mixed cells in array block ' + b.name)
            ups = (('pt', (K(o // es),), self.typed(v, ty), b.id), ups)
        b.cells = {}
        b.zero = ()
        b.arr = Arr(es, ty, b.dims, base, ups)
        return b

    # --- array keys
    def arr_key(self, st, b, idx, write=False, check_bounds=True):
        """canonical key for a flat element index"""
        dims = b.dims
        if dims is not None:
            ds = [d for d in dims if d.const() != 1]
            if len(ds) > 1:
                k = self.delinearise(st, ds, idx)
                if k is not None:
                    return k
        return (idx,)

    def delinearise(self, st, ds, idx):
        ck = (tuple(ds), idx)
        # basis change so that each dim (but the last) is a single atom
        back = {}
        p = idx
        atoms = []
        ds2 = list(ds)
        factors = {}
        for j in range(len(ds) - 1):
            d = ds2[j]
            a = single_atom(d)
            if a is None:
                if d.const() is not None:
                    atoms.append(d.const())
                    continue
                if len(d.t) == 1:
                    (m, c), = d.t.items()
                    if len(m) == 1 and c > 1:
                        # a constant multiple of an atom (an array of small structures)
                        atoms.append(m[0])
                        factors[j] = c
                        continue
                lead = None
                for m, c in d.t.items():
                    if len(m) == 1 and abs(c) == 1 and d.linear_in(m[0]) is not None:
                        if m[0] not in [x for x in atoms if not isinstance(x, tuple)]:
                            lead = (m[0], c)
                            break
                if lead is None:
                    return None
                na = atom('sym', ('dim~%s' % (d,), ()), 1, None)
                # d = c*lead + rest  => lead = (na - rest)*c
                rest = d - A(ATOMS[lead[0]]).scale(lead[1])
                sol = (A(na) - rest).scale(lead[1])
                sm = {lead[0]: sol}
                p = subst(p, sm)
                ds2 = [subst(x, sm) for x in ds2]
                back[na.id] = d
                atoms.append(na.id)
            else:
                atoms.append(a.id)
        comps = self._split(st, p, atoms, ds, back, factors)
        return comps

    def _split(self, st, p, atoms, ds, back, factors):
        # peel from the last dimension: coefficient of the product of all dims
        n = len(ds)
        prods = []
        cur = ()
        cc = 1
        for a in atoms:
            if isinstance(a, int) and a in ATOM_IDS(a):
                pass
            cur = cur + (a,)
            prods.append(cur)
        rest = p
        comps = [None] * n
        consts = [isinstance(d.const(), int) for d in ds[:-1]]
        if any(consts):
            return self._split_const(st, p, ds)
        for j in range(n - 1, 0, -1):
            pm = tuple(sorted(prods[j - 1]))
            f = 1
            for i in range(j):
                f *= factors.get(i, 1)
            q = {}
            r = {}
            for m, c in rest.t.items():
                mm = list(m)
                ok = True
                for a in pm:
                    if a in mm:
                        mm.remove(a)
                    else:
                        ok = False
                        break
                if ok:
                    q[tuple(mm)] = q.get(tuple(mm), 0) + c // f
                    if c % f:
                        r[m] = c % f
                else:
                    r[m] = c
            comps[j] = mkpoly({m: c for m, c in q.items() if c})
            rest = mkpoly(r)
        comps[0] = rest
        # candidates: a constant multiple c0 of the last product may belong to the lower component
        cands = [comps]
        for j in range(1, n):
            c0 = comps[j].t.get((), 0)
            if c0:
                for delta in ((c0,) if abs(c0) > 3 else (c0, 1, -1)):
                    alt = list(comps)
                    alt[j] = comps[j] - K(delta)
                    low = K(delta)
                    # product of dims j-1 relative to lower products moves into comp j-1
                    alt[j - 1] = alt[j - 1] + A(ATOMS[atoms[j - 1]]).scale(delta * factors.get(j - 1, 1))
                    cands.append(alt)
        for cs in cands:
            cs = [subst(c, back) for c in cs]
            ok = True
            for c, d in zip(cs[:-1], ds[:-1]):
                if not (entails_int(st.pc, ge0(c)) and entails_int(st.pc, lt(c, d))):
                    ok = False
                    break
            if ok:
                return tuple(cs)
        return None

    def _split_const(self, st, p, ds):
        return None

    def flat(self, b, key):
        dims = b.dims
        if len(key) == 1:
            return key[0]
        ds = [d for d in dims if d.const() != 1]
        t = ZERO
        mul = ONE
        for k, d in zip(key, ds):
            t = t + k * mul
            mul = mul * d
        return t

    def bounds_ob(self, st, b, key, write):
        if b.dims is not None and len(key) > 1:
            ds = [d for d in b.dims if d.const() != 1]
            g = band(*[band(ge0(k), lt(k, d)) for k, d in zip(key, ds)])
        else:
            n = b.size.divexact(b.arr.es)
            if n is None:
                return
            k = key[0]
            g = band(ge0(k), lt(k, n))
        # fast path
        if g is TRUE or self.entails(st.pc, g):
            self.bounds_ok = getattr(self, 'bounds_ok', 0) + 1
            return
        if self.opts.get('bounds', True):
            self.oblige(st, 'memory-safety: %s inside %s' % ('write' if write else 'read', b.name or 'array'), g, 'bounds')

    def key_cmp(self, st, b, k1, k2):
        """TRUE/FALSE/B for equality of two keys"""
        if len(k1) != len(k2):
            k1, k2 = (self.flat(b, k1),), (self.flat(b, k2),)
        c = band(*[eq(x, y) for x, y in zip(k1, k2)])
        return c

    def read_arr(self, st, b, key):
        arr = b.arr
        ck = None
        node = arr.ups
        res = self._walk(st, b, arr, node, key, list(st.pc), 0)
        return res

    def _record(self, b, node, key, pc):
        for r in self.recs:
            sb = r.start.get(b.id)
            if sb is not None and sb.arr is not None and sb.arr.ups is node:
                r.reads.append((b.id, key, list(pc)))

    def _walk(self, st, b, arr, node, key, pc, depth):
        while True:
            if self.recs:
                self._record(b, node, key, pc)
            if node is None:
                return self.base_val(b, arr, key)
            e, node2 = node
            if e[0] == 'pt':
                c = self.key_cmp(st, b, e[1], key)
                if c is TRUE:
                    return e[2]
                if c is FALSE:
                    node = node2
                    continue
                if self.entails(pc, c):
                    return e[2]
                if self.entails(pc, bnot(c)):
                    node = node2
                    continue
                v2 = self._walk(st, b, arr, node2, key, pc + [bnot(c)], depth + 1)
                return self.vite(c, e[2], v2)
            elif e[0] == 'bulk':
                r = self.solve_bulk(st, b, e, key, pc)
                if r is None:
                    node = node2
                    continue
                c, val, facts = r
                if facts:
                    pc = pc + facts
                    for f in facts:
                        self.defs.add(f)
                        st.assume(f)
                if c is FALSE:
                    node = node2
                    continue
                if c is TRUE:
                    return val()
                d = self.split_entails(pc, c)
                if d is True:
                    return val()
                if d is False:
                    node = node2
                    continue
                if self.opts.get('debug'):
                    print('ite on', c)
                v1 = val()
                v2 = self._walk(st, b, arr, node2, key, pc + [bnot(d)], depth + 1)
                return self.vite(d, v1, v2)
            else:
                raise Unsupported('entry ' + e[0])

    def split_entails(self, pc, c):
        """simplify a conjunction c under pc: True, False, or remaining B"""
        if c.op == 'and':
            rem = []
            for x in c.a:
                if self.entails(pc, x):
                    continue
                if self.entails(pc, bnot(x)):
                    return False
                rem.append(x)
            if not rem:
                return True
            cc = band(*rem)
            if len(rem) > 1 and not cc.real and self.entails(pc, bnot(cc)):
                return False
            return cc
        if self.entails(pc, c):
            return True
        if self.entails(pc, bnot(c)):
            return False
        return c

    def vite(self, c, a, b):
        if a is b or a == b:
            return a
        if isinstance(a, R) and isinstance(b, R):
            return rite(c, a, b)
        if a is UNDEF and isinstance(b, R):
            return rite(c, self.fresh_real('undef'), b)
        if b is UNDEF and isinstance(a, R):
            return rite(c, a, self.fresh_real('undef'))
        if isinstance(a, Poly) and isinstance(b, Poly):
            return iite(c, a, b)
        if isinstance(a, B) and isinstance(b, B):
            return bite(c, a, b)
        raise Unsupported('ite of %r / %r' % (a, b))

    def base_val(self, b, arr, key):
        k = arr.base
        if k[0] == 'const':
            return k[1]
        if len(key) > 1:
            key = (self.flat(b, key),)
        nm = k[1]
        if k[0] == 'acc' and arr.ty[0] != 'i':
            return rvar(nm, key)
        if arr.ty[0] in ('double', 'float'):
            return rsel(nm, key)
        if arr.ty[0] == 'i':
            w = arr.ty[1]
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if len(k) > 2:
                lo, hi = k[2], k[3]
            return A(atom('isel', (nm, tuple(key)), lo, hi))
        raise Unsupported('array of ' + str(arr.ty))

    def solve_bulk(self, st, b, e, key, pc):
        """-> (hit condition, thunk value, facts)"""
        _, bvs, dom, ekey, val, facts0, _bid = e
        if len(ekey) != len(key):
            if len(key) > 1:
                key = (self.flat(b, key),)
            else:
                # flat query against a multi-dimensional entry
                ds = [d for d in b.dims if d.const() != 1]
                comps = []
                fs = []
                for j, d in enumerate(ds):
                    a = self.fresh_int('dec', 0, None)
                    comps.append(a)
                    fs.append(lt(a, d))
                fs.append(eq(self.flat(b, tuple(comps)), key[0]))
                r = self.solve_bulk(st, b, e, tuple(comps), pc + fs)
                if r is None:
                    return None
                return r[0], r[1], fs + r[2]
        eqs = [(x, y) for x, y in zip(ekey, key)]
        sol = {}
        todo = list(bvs)
        rest = []
        facts = []
        progress = True
        while todo and progress:
            progress = False
            for i, (x, y) in enumerate(eqs):
                x = subst(x, sol)
                here = [v for v in todo if v in x.fv]
                if len(here) == 1:
                    l = x.linear_in(here[0])
                    if l is None or l[0] == 0:
                        continue
                    c, r = l
                    t = y - r
                    if abs(c) == 1:
                        sol[here[0]] = t.scale(c)
                    else:
                        d = t.divexact(c)
                        if d is None:
                            q = intdiv('udiv', t, K(c)) if (c > 0 and (t.bounds()[0] or -1) >= 0) else None
                            if q is None:
                                a = self.fresh_int('quo')
                                rm = self.fresh_int('rem', 0, abs(c) - 1)
                                facts.append(eq(t, a.scale(c) + rm))
                                q = a
                            d = q
                        sol[here[0]] = d
                    todo.remove(here[0])
                    eqs[i] = (x, y)
                    progress = True
        if todo:
            # index not determined by the key: only if the key does not depend on it at all
            raise Unsupported('cannot invert array index %s for %s' % (ekey, key))
        conds = []
        for x, y in eqs:
            conds.append(eq(subst(x, sol), y))
        conds.append(subst(dom, sol))
        for v in bvs:
            a = ATOMS[v]
            if a.lo is not None:
                conds.append(le(K(a.lo), sol[v]))
            if a.hi is not None:
                conds.append(le(sol[v], K(a.hi)))
        c = band(*conds)
        facts += [subst(f, sol) for f in facts0]
        return c, (lambda: subst_val(val, sol)), facts

    def write_arr(self, st, ptr_b, key, val):
        b = st.mem[ptr_b].copy()
        st.mem[ptr_b] = b
        arr = b.arr
        ups = arr.ups
        if isinstance(val, Undef) and arr.ty[0] in ('double', 'float'):
            val = self.fresh_real('undef')
        # drop an overwritten top entry with the identical key
        if ups is not None and ups[0][0] == 'pt' and ups[0][1] == key and not any(
                (r.start.get(b.id) is not None and r.start[b.id].arr is not None and r.start[b.id].arr.ups is ups) for r in self.recs):
            ups = ups[1]
        b.arr = arr.with_ups((('pt', key, val, b.id), ups))

    def set_dims(self, st, ptr, dims):
        b = self.blk(st, ptr, True)
        b.dims = tuple(dims)
        if b.arr is not None:
            b.arr = Arr(b.arr.es, b.arr.ty, b.dims, b.arr.base, b.arr.ups)

    # --- load/store
    def load(self, st, ptr, ty, m):
        t = m.resolve(ty)
        if t[0] == 'st':
            offs, _ = m.offsets(t)
            return Agg([self.load(st, Ptr(ptr.b, ptr.o + K(o)), x, m) for o, x in zip(offs, t[2])])
        if t[0] in ('arr', 'vec'):
            es = m.size(t[2])
            return Agg([self.load(st, Ptr(ptr.b, ptr.o + K(i * es)), t[2], m) for i in range(t[1])])
        if isinstance(ptr, Ptr) and ptr.b is None:
            self.null_deref(st, ptr)
        b = self.blk(st, ptr)
        self.check_alive(st, b)
        size = m.size(t)
        o = ptr.o.const()
        if b.arr is None:
            if o is not None:
                n = b.size.const()
                if n is not None and (o < 0 or o + size > n):
                    self.oob(st, b, o)
                if n is not None or b.cells or b.zero:
                    if n is None and o not in b.cells:
                        b = self.ensure_arr(st, ptr, size, t)
                    else:
                        v = self.read_cells(st, b, o, size, t)
                        if v is UNDEF:
                            return UNDEF
                        return self.typed(v, t)
            if b.arr is None:
                n = b.size.const()
                if o is None and n is not None and n // size <= 64 and b.cells and any(
                        isinstance(v[1], (Ptr, Fn)) for v in b.cells.values()):
                    raise Unsupported('symbolic index into pointer array')
                b = self.ensure_arr(st, ptr, size, t)
        arr = b.arr
        if arr.es != size:
            if o is not None and arr.es % size == 0 and arr.ty[0] == 'i':
                pass
            raise Unsupported('load of %d bytes from array of %d (%s)' % (size, arr.es, b.name))
        idx = ptr.o.divexact(size)
        if idx is None:
            raise Unsupported('misaligned array access %s' % ptr.o)
        key = self.arr_key(st, b, idx)
        self.bounds_ob(st, b, key, False)
        return self.typed(self.read_arr(st, b, key), t)

    def null_deref(self, st, ptr):
        if st is not None and self.feasible(st):
            self.oblige(st, 'memory-safety: null or invalid pointer dereference', FALSE, 'bounds')
        raise PathEnd()

    def check_alive(self, st, b):
        if not b.alive:
            self.oblige(st, 'memory-safety: use after free of ' + b.name, FALSE, 'bounds')

    def oob(self, st, b, o):
        self.oblige(st, 'memory-safety: access at byte %d outside object %s of %s bytes' % (o, b.name, b.size), FALSE, 'bounds')
        raise PathEnd()

    def store(self, st, ptr, ty, val, m):
        t = m.resolve(ty)
        if t[0] == 'st':
            offs, _ = m.offsets(t)
            for i, (o, x) in enumerate(zip(offs, t[2])):
                self.store(st, Ptr(ptr.b, ptr.o + K(o)), x, val.v[i] if isinstance(val, Agg) else val, m)
            return
        if t[0] in ('arr', 'vec'):
            es = m.size(t[2])
            for i in range(t[1]):
                self.store(st, Ptr(ptr.b, ptr.o + K(i * es)), t[2], val.v[i] if isinstance(val, Agg) else val, m)
            return
        if isinstance(ptr, Ptr) and ptr.b is None:
            self.null_deref(st, ptr)
        b = self.blk(st, ptr, True)
        self.check_alive(st, b)
        size = m.size(t)
        o = ptr.o.const()
        if b.arr is None:
            n = b.size.const()
            if o is not None and n is not None:
                if o < 0 or o + size > n:
                    self.oob(st, b, o)
                if isinstance(val, Packed):
                    self.clear_range(b, o, size)
                    for (po, ps, pv) in val.parts:
                        b.cells[o + po] = (ps, pv)
                    return
                c = b.cells.get(o)
                if c is None or c[0] != size or True:
                    self.clear_range(b, o, size)
                b.cells[o] = (size, val)
                return
            b = self.ensure_arr(st, ptr, size, t)
        arr = b.arr
        if arr.es != size:
            raise Unsupported('store of %d bytes into array of %d (%s)' % (size, arr.es, b.name))
        if arr.ups is None and arr.base[0] == 'undef' and arr.ty != t:
            b = st.mem[ptr.b] = b.copy()
            b.arr = arr = Arr(arr.es, t, arr.dims, arr.base, None)
        idx = ptr.o.divexact(size)
        if idx is None:
            raise Unsupported('misaligned array store %s into %s (elements of %d bytes)' % (ptr.o, b.name, size))
        key = self.arr_key(st, b, idx, True)
        self.bounds_ob(st, b, key, True)
        self.write_arr(st, ptr.b, key, val)

    def memcpy(self, st, dst, src, n):
        c = n.const()
        if c == 0:
            return
        sb = self.blk(st, src)
        db = self.blk(st, dst, True)
        so, do = src.o.const(), dst.o.const()
        if c is not None and so is not None and do is not None and sb.arr is None and db.arr is None:
            cells = []
            for o, (s, v) in sb.cells.items():
                if o >= so and o + s <= so + c:
                    cells.append((o - so, s, v))
                elif o < so + c and so < o + s:
                    lo, hi = max(o, so), min(o + s, so + c)
                    cells.append((lo - so, hi - lo, self.piece(v, s, lo - o, hi - lo)))
            zs = [(max(lo, so) - so, min(hi, so + c) - so, by) for (lo, hi, by) in sb.zero if lo < so + c and hi > so]
            n2 = db.size.const()
            if n2 is not None and do + c > n2:
                self.oob(st, db, do + c)
            self.clear_range(db, do, c)
            db.zero = tuple(self.cut_zero(db.zero, do, do + c)) + tuple((do + lo, do + hi, by) for lo, hi, by in zs)
            for (o, s, v) in cells:
                db.cells[do + o] = (s, v)
            return
        # array copy
        if c is not None and c <= 128 and so is not None and sb.arr is None:
            # a small structure into an array: element by element
            es, ty = (db.arr.es, db.arr.ty) if db.arr is not None else (8, ('double',))
            vals = [sb.cells.get(so + i) for i in range(0, c, es)]
            if all(v is not None and v[0] == es for v in vals):
                db = self.ensure_arr(st, dst, es, ty)
                di = dst.o.divexact(es)
                if di is not None:
                    for i, v in enumerate(vals):
                        key = self.arr_key(st, st.mem[dst.b], di + K(i), True)
                        self.bounds_ob(st, st.mem[dst.b], key, True)
                        self.write_arr(st, dst.b, key, v[1])
                    return
        if sb.arr is None and db.arr is None:
            # both fresh: assume doubles
            sb = self.ensure_arr(st, src, 8, ('double',))
        if sb.arr is None:
            sb = self.ensure_arr(st, src, db.arr.es, db.arr.ty)
        es = sb.arr.es
        if db.arr is None:
            db = self.ensure_arr(st, dst, es, sb.arr.ty)
        ne = n.divexact(es)
        si, di = src.o.divexact(es), dst.o.divexact(es)
        if ne is None or si is None or di is None:
            raise Unsupported('memcpy of partial elements')
        if self.entails(st.pc, eq0(n)):
            return
        # bounds
        db = st.mem[dst.b]
        for bb, ii, w in ((sb, si, False), (db, di, True)):
            tot = bb.size.divexact(es)
            if tot is not None:
                g = bor(le(ne, ZERO), band(ge0(ii), le(ii + ne, tot)))
                if not self.entails(st.pc, g):
                    self.oblige(st, 'memory-safety: block copy inside ' + bb.name, g, 'bounds')
        if si is ZERO and di is ZERO and self.recs == [] and self.entails(st.pc, eq(n, sb.size)) and self.entails(st.pc, eq(n, db.size)):
            db = st.mem[dst.b] = db.copy()
            if db.dims is None:
                db.dims = sb.dims
            if db.dims == sb.dims:
                db.arr = Arr(es, sb.arr.ty, db.dims, sb.arr.base, rebid(sb.arr.ups, db.id))
                return
        if ne.const() is not None and ne.const() <= 16:
            # a small structure: element by element
            vals = []
            for i in range(ne.const()):
                key = self.arr_key(st, sb, si + K(i))
                vals.append(self.read_arr(st, sb, key))
            for i, v in enumerate(vals):
                db = st.mem[dst.b]
                key = self.arr_key(st, db, di + K(i), True)
                self.write_arr(st, dst.b, key, v)
            return
        # general: bulk with a flat key
        bv = atom('sym', (fresh_name('cp'), ()), 0, None)
        st2 = State()
        st2.mem = st.mem
        st2.pc = st.pc + [ge0(A(bv)), lt(A(bv), ne)]
        key = self.arr_key(st2, sb, si + A(bv))
        v = self.read_arr(st2, sb, key)
        extra = [f for f in st2.pc if f not in st.pc and bv.id in f.fv and f in self.defs]
        db = st.mem[dst.b] = st.mem[dst.b].copy()
        dom = band(ge0(A(bv)), lt(A(bv), ne))
        db.arr = db.arr.with_ups((('bulk', (bv.id,), dom, (di + A(bv),), v, tuple(extra), db.id), db.arr.ups))

    def cut_zero(self, zs, lo, hi):
        out = []
        for (a, b2, by) in zs:
            if b2 <= lo or a >= hi:
                out.append((a, b2, by))
            else:
                if a < lo:
                    out.append((a, lo, by))
                if b2 > hi:
                    out.append((hi, b2, by))
        return out

    def memset(self, st, dst, byte, n):
        c = n.const()
        if c == 0:
            return
        b = self.blk(st, dst, True)
        o = dst.o.const()
        by = byte.const()
        if by is None:
            raise Unsupported('memset symbolic byte')
        if c is not None and o is not None and b.arr is None:
            self.clear_range(b, o, c)
            b.zero = tuple(self.cut_zero(b.zero, o, o + c)) + ((o, o + c, by),)
            return
        if by != 0:
            raise Unsupported('memset array')
        if b.arr is None:
            if self.entails(st.pc, eq(n, b.size)) and o == 0 and not b.cells:
                b.arr = None
                # element type unknown: assume 8 byte doubles
                if b.dims is None and b.size.divexact(8) is not None:
                    b.dims = self.shapes.get(b.size.divexact(8))
                b.arr = Arr(8, ('double',), b.dims, ('const', R0), None)
                return
            b = self.ensure_arr(st, dst, 8, ('double',))
        es = b.arr.es
        ne = n.divexact(es)
        di = dst.o.divexact(es)
        if ne is None or di is None:
            raise Unsupported('memset partial')
        bv = atom('sym', (fresh_name('ms'), ()), 0, None)
        dom = band(ge0(A(bv)), lt(A(bv), ne))
        b = st.mem[dst.b] = st.mem[dst.b].copy()
        b.arr = b.arr.with_ups((('bulk', (bv.id,), dom, (di + A(bv),), self.fill_val(0, es, b.arr.ty), (), b.id), b.arr.ups))

    # ---------------------------------------------------------------- values
    def fconst(self, d):
        if d is None:
            raise Unsupported('x87 constant')
        if d != d:
            return NAN
        if d in (math.inf, -math.inf):
            return PINF if d > 0 else NINF
        return rc(real_of_double(d))

    def const_val(self, v, ty, m):
        k = v[0]
        if k == 'c':
            if ty == ('i', 1):
                return TRUE if v[1] else FALSE
            return K(v[1])
        if k == 'f':
            return self.fconst(v[1])
        if k == 'g':
            return self.global_ptr(v[1], m)
        if k == 'null':
            return NULL
        if k == 'undef':
            t = m.resolve(ty)
            if t[0] == 'st':
                return Agg([UNDEF] * len(t[2]))
            if t[0] in ('arr', 'vec'):
                return Agg([UNDEF] * t[1])
            return UNDEF
        if k == 'zero':
            return self.zero_val(ty, m)
        if k == 'agg':
            return Agg([self.const_val(x, t, m) for t, x in v[1]])
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                base = self.const_val(v[3], ('ptr',), m)
                return self.gep(base, v[2], [(t, self.const_val(x, t, m)) for t, x in v[4]], m)
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.const_val(v[3], v[2], m)
            if op in ('add', 'sub'):
                a = self.const_val(v[3], v[2], m)
                b = self.const_val(v[4], v[2], m)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.b == b.b:
                    return a.o - b.o
                if isinstance(a, Poly) and isinstance(b, Poly):
                    return a + b if op == 'add' else a - b
            if op in ('trunc',):
                return self.const_val(v[3], v[2], m)
        raise Unsupported('constant %r' % (v,))

    def zero_val(self, ty, m):
        t = m.resolve(ty)
        if t[0] in ('double', 'float'):
            return R0
        if t[0] == 'i':
            return FALSE if t[1] == 1 else ZERO
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'st':
            return Agg([self.zero_val(x, m) for x in t[2]])
        if t[0] in ('arr', 'vec'):
            return Agg([self.zero_val(t[2], m) for _ in range(t[1])])
        raise Unsupported('zero ' + str(t))

    def gep(self, base, ty, idx, m):
        if isinstance(base, Fn) or base is UNDEF or base is JUNK:
            if all(isinstance(x, Poly) and x.const() == 0 for _, x in idx):
                return base
            raise Unsupported('gep on %r' % (base,))
        if not isinstance(base, Ptr):
            raise Unsupported('gep on %r' % (base,))
        off = base.o
        first = True
        cur = ty
        for it, x in idx:
            if not isinstance(x, Poly):
                raise Unsupported('gep index %r' % (x,))
            if first:
                off = off + x.scale(m.size(cur))
                first = False
                continue
            cur = m.resolve(cur)
            if cur[0] == 'st':
                i = x.const()
                offs, _ = m.offsets(cur)
                off = off + K(offs[i])
                cur = cur[2][i]
            elif cur[0] in ('arr', 'vec'):
                cur = cur[2]
                off = off + x.scale(m.size(cur))
            else:
                raise Unsupported('gep into %r' % (cur,))
        return Ptr(base.b, off)

    # integer width handling
    def uns(self, st, p, w):
        """unsigned canonical representative"""
        if isinstance(p, Poly):
            c = p.const()
            if c is not None:
                return K(c & ((1 << w) - 1))
            lo, hi = p.bounds()
            if lo is not None and lo >= 0:
                return p
            if entails_int(st.pc, ge0(p)):
                return p
            if entails_int(st.pc, lt(p, ZERO)):
                return p + K(1 << w)
            return zext(p, w)
        return p

    def trunc(self, p, w):
        if isinstance(p, Packed):
            return self.piece(p, p.size, 0, w // 8)
        if isinstance(p, Ptr):
            raise Unsupported('trunc ptr')
        c = p.const()
        if c is not None:
            return self.wrapc(c, w)
        a = single_atom(p)
        if a is not None and a.kind == 'zext' and a.args[1] == w:
            return a.args[0]
        lo, hi = p.bounds()
        mod = 1 << w
        if any(abs(cc) >= mod for cc in p.t.values()):
            d = {}
            for m, cc in p.t.items():
                r = cc % mod
                if r >= mod // 2:
                    r -= mod
                if r:
                    d[m] = r
            p = mkpoly(d)
            a = single_atom(p)
            if a is not None and a.kind == 'zext' and a.args[1] == w:
                return a.args[0]
            # zext atoms inside: drop the zext (congruent)
        d = p
        for m in list(p.t):
            if len(m) == 1 and ATOMS[m[0]].kind == 'zext' and ATOMS[m[0]].args[1] == w:
                d = d - mkpoly({m: p.t[m]}) + ATOMS[m[0]].args[0].scale(p.t[m])
        p = d
        if lo is None or hi is None or lo < -(mod // 2) or hi >= mod:
            self.note('integer narrowing to %d bits does not lose information (sizes below 2^31)' % w)
        return p

    def trunc1(self, p):
        c = p.const()
        if c is not None:
            return TRUE if c & 1 else FALSE
        a = single_atom(p)
        if a is not None and a.kind == 'ite' and a.args[1] is ONE and a.args[2] is ZERO:
            return a.args[0]
        lo, hi = p.bounds()
        if lo is not None and hi is not None and lo >= 0 and hi <= 1:
            return bnot(eq0(p))
        return bnot(eq0(intdiv('urem', p, K(2))))

    def binop(self, st, op, a, b, ty, fl=()):
        if a is JUNK or b is JUNK:
            return JUNK
        if isinstance(a, Agg) or isinstance(b, Agg):
            return Agg([self.binop(st, op, x, y, ty[2] if ty[0] == 'vec' else ty, fl) for x, y in zip(a.v, b.v)])
        if op[0] == 'f':
            if a is UNDEF:
                a = self.fresh_real('undef')
            if b is UNDEF:
                b = self.fresh_real('undef')
            if not isinstance(a, R) or not isinstance(b, R):
                raise Unsupported('float op on %r %r' % (a, b))
            if a in (PINF, NINF) or b in (PINF, NINF):
                raise Unsupported('arithmetic on infinity')
            if op == 'fadd':
                return radd(a, b)
            if op == 'fsub':
                return rsub(a, b)
            if op == 'fmul':
                return rmul(a, b)
            if op == 'fdiv':
                return rdiv(a, b)
            raise Unsupported(op)
        if ty == ('i', 1):
            if a is UNDEF:
                a = self.fresh_bool('undef')
            if b is UNDEF:
                b = self.fresh_bool('undef')
            if op == 'and' or op == 'mul':
                return band(a, b)
            if op == 'or':
                return bor(a, b)
            if op in ('xor', 'add', 'sub'):
                if b is TRUE:
                    return bnot(a)
                if a is TRUE:
                    return bnot(b)
                return bite(a, bnot(b), b)
            raise Unsupported('i1 ' + op)
        w = ty[1]
        if a is UNDEF:
            a = self.fresh_of(ty, 'undef')
        if b is UNDEF:
            b = self.fresh_of(ty, 'undef')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.b == b.b:
                    return a.o - b.o
                raise Unsupported('difference of unrelated pointers')
            if op in ('add', 'sub') and isinstance(a, Ptr) and isinstance(b, Poly):
                return Ptr(a.b, a.o + b if op == 'add' else a.o - b)
            if op == 'add' and isinstance(b, Ptr):
                return Ptr(b.b, b.o + a)
            if op == 'and' and isinstance(b, Poly) and b.const() is not None and b.const() in (1, 3, 7, 15):
                return ZERO if a.o.const() is not None and a.o.const() % (b.const() + 1) == 0 else self.fresh_of(ty)
            raise Unsupported('ptr arithmetic ' + op)
        if isinstance(a, Packed) or isinstance(b, Packed):
            if isinstance(a, Packed) and op == 'lshr' and b.const() is not None and b.const() % 8 == 0:
                k = b.const() // 8
                ps = [(o - k, s, x) for (o, s, x) in a.parts if o >= k]
                if len(ps) == 1 and ps[0][0] == 0:
                    return self.uns(st, ps[0][2], 8 * ps[0][1]) if isinstance(ps[0][2], Poly) else ps[0][2]
            raise Unsupported('packed op ' + op)
        if isinstance(a, Fn) or isinstance(b, Fn) or isinstance(a, R) or isinstance(b, R):
            raise Unsupported('int op %s on %r %r' % (op, a, b))
        if isinstance(a, B):
            a = iite(a, ONE, ZERO)
        if isinstance(b, B):
            b = iite(b, ONE, ZERO)
        ca, cb = a.const(), b.const()
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else (a - b if op == 'sub' else a * b)
            c = r.const()
            if c is not None:
                return self.wrapc(c, w)
            return r
        if ca is not None and cb is not None:
            M = (1 << w) - 1
            ua, ub = ca & M, cb & M
            if op == 'and':
                return self.wrapc(ua & ub, w)
            if op == 'or':
                return self.wrapc(ua | ub, w)
            if op == 'xor':
                return self.wrapc(ua ^ ub, w)
            if op == 'shl':
                return self.wrapc(ua << ub, w)
            if op == 'lshr':
                return self.wrapc(ua >> ub, w)
            if op == 'ashr':
                sa = ca if ca < (1 << (w - 1)) else ca - (1 << w)
                return self.wrapc(sa >> ub, w)
            if op in ('udiv', 'urem'):
                if ub == 0:
                    raise Unsupported('division by zero')
                return self.wrapc(ua // ub if op == 'udiv' else ua % ub, w)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 'u':
                a = self.uns(st, a, w)
                b = self.uns(st, b, w)
            if op[0] == 's' and (a.bounds()[0] is None or a.bounds()[0] < 0) and 'exact' not in fl:
                if entails_int(st.pc, ge0(a)):
                    op = 'u' + op[1:]
                    if cb is not None and cb > 0:
                        d = a.divexact(cb)
                        if d is not None:
                            return d if op == 'udiv' else ZERO
                        return A(atom(op, (a, b), 0, None if op == 'udiv' else cb - 1))
            if cb is None:
                ob = bnot(eq0(b))
                if not self.entails(st.pc, ob):
                    self.oblige(st, 'no integer division by zero', ob, 'bounds')
            # symbolic exact quotient: a = q*b
            if cb is None and len(b.t) == 1:
                q = poly_div_mono(a, b)
                if q is not None:
                    return q if op in ('udiv', 'sdiv') else ZERO
            if cb is None and len(b.t) == 1:
                q = self.floor_div(st, a, b)
                if q is not None:
                    return q if op in ('udiv', 'sdiv') else a - b * q
            if op in ('urem', 'udiv') and cb is None:
                if entails_int(st.pc, band(ge0(a), lt(a, b))):
                    return ZERO if op == 'udiv' else a
            if op in ('srem', 'sdiv') and cb is None:
                if entails_int(st.pc, band(ge0(a), lt(a, b))):
                    return ZERO if op == 'sdiv' else a
            return intdiv(op, a, b)
        if op == 'shl' and cb is not None:
            return a.scale(1 << cb)
        if op == 'lshr' and cb is not None:
            a = self.uns(st, a, w)
            if cb >= 32 and any(abs(c) >= (1 << cb) for c in a.t.values()):
                hi = mkpoly({m: c // (1 << cb) for m, c in a.t.items() if c % (1 << cb) == 0})
                lo = mkpoly({m: c for m, c in a.t.items() if c % (1 << cb)})
                l, h = lo.bounds()
                if l is not None and l >= 0 and h is not None and h < (1 << cb):
                    return hi
            return intdiv('udiv', a, K(1 << cb))
        if op == 'ashr' and cb is not None:
            d = a.divexact(1 << cb)
            if d is not None:
                return d
            if entails_int(st.pc, ge0(a)):
                return intdiv('udiv', a, K(1 << cb))
            raise Unsupported('ashr')
        if op == 'and' and cb is not None:
            if cb == (1 << w) - 1 or cb == -1:
                return a
            if cb > 0 and (cb & (cb + 1)) == 0:
                return intdiv('urem', self.uns(st, a, w), K(cb + 1))
            if cb == 0:
                return ZERO
        if op == 'or':
            if cb == 0:
                return a
            if ca == 0:
                return b
            if 'disjoint' in fl:
                return a + b
            for x, y in ((a, b), (b, a)):
                # (hi<<32) | zext(lo)
                if x.t and all(c % (1 << 32) == 0 for c in x.t.values()):
                    l, h = y.bounds()
                    if l is not None and l >= 0 and h is not None and h < (1 << 32):
                        return x + y
        if op == 'xor' and cb == -1:
            return -a - ONE
        if op == 'xor' and cb == 0:
            return a
        # bitwise ops on 0/1 values
        la, ha = a.bounds()
        lb, hb = b.bounds()
        if la is not None and la >= 0 and ha is not None and ha <= 1 and lb is not None and lb >= 0 and hb is not None and hb <= 1:
            x, y = bnot(eq0(a)), bnot(eq0(b))
            r = band(x, y) if op == 'and' else (bor(x, y) if op == 'or' else bite(x, bnot(y), y))
            return iite(r, ONE, ZERO)
        raise Unsupported('int op %s %s %s' % (op, a, b))

    def floor_div(self, st, a, b):
        """a / b for a product b of positive variables and a = b q + r with 0 <= r < b visible from the form of a >= 0;
        a division by a product is a sequence of divisions"""
        (mono, c), = b.t.items()
        if c != 1 or not mono:
            return None
        for order in itertools.permutations(mono) if len(mono) < 4 else ():
            q = a
            for i in order:
                x = A(ATOMS[i])
                t1 = mkpoly({tuple(j for n, j in enumerate(m) if n != m.index(i)): v for m, v in q.t.items() if i in m})
                r = mkpoly({m: v for m, v in q.t.items() if i not in m})
                if not entails_int(st.pc, band(ge0(x - ONE), ge0(t1), ge0(r), lt(r, x))):
                    q = None
                    break
                q = t1
            if q is not None:
                return q
        return None

    def icmp(self, st, pred, a, b, ty):
        if a is JUNK or b is JUNK:
            raise Unsupported('comparison of dead value')
        t = ty
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)) or t[0] == 'ptr':
            return self.pcmp(st, pred, a, b)
        if t == ('i', 1):
            if a is UNDEF:
                a = self.fresh_bool('undef')
            if b is UNDEF:
                b = self.fresh_bool('undef')
            if isinstance(a, Poly):
                a = self.trunc1(a)
            if isinstance(b, Poly):
                b = self.trunc1(b)
            x = bite(a, b, bnot(b))
            if pred == 'eq':
                return x
            if pred == 'ne':
                return bnot(x)
            if pred == 'ult' or pred == 'sgt':
                return band(bnot(a), b)
            if pred == 'ugt' or pred == 'slt':
                return band(a, bnot(b))
            raise Unsupported('i1 icmp')
        if a is UNDEF:
            a = self.fresh_of(t, 'undef')
        if b is UNDEF:
            b = self.fresh_of(t, 'undef')
        if isinstance(a, B):
            a = iite(a, ONE, ZERO)
        if isinstance(b, B):
            b = iite(b, ONE, ZERO)
        if isinstance(a, Packed) or isinstance(b, Packed):
            if isinstance(a, Packed) and isinstance(b, Packed) and pred in ('eq', 'ne') and len(a.parts) == len(b.parts):
                c = band(*[self.icmp(st, 'eq', x[2], y[2], ('i', 8 * x[1])) for x, y in zip(a.parts, b.parts)])
                return c if pred == 'eq' else bnot(c)
            raise Unsupported('icmp packed')
        w = t[1]
        if pred in ('eq', 'ne'):
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                r = TRUE if (ca - cb) % (1 << w) == 0 else FALSE
            else:
                if (ca is not None and ca < 0) or (cb is not None and cb < 0):
                    # the other side may be in unsigned form
                    x, c = (b, ca) if ca is not None else (a, cb)
                    lo, hi = x.bounds()
                    if hi is None or hi >= (1 << (w - 1)):
                        r = bor(eq(x, K(c)), eq(x, K(c + (1 << w))))
                    else:
                        r = eq(x, K(c))
                else:
                    r = eq(a, b)
            return r if pred == 'eq' else bnot(r)
        if pred[0] == 'u':
            a = self.uns(st, a, w)
            b = self.uns(st, b, w)
        else:
            ca, cb = a.const(), b.const()
            if ca is not None:
                a = self.wrapc(ca, w)
            if cb is not None:
                b = self.wrapc(cb, w)
        o = pred[1:]
        if o == 'lt':
            return lt(a, b)
        if o == 'le':
            return le(a, b)
        if o == 'gt':
            return lt(b, a)
        if o == 'ge':
            return le(b, a)
        raise Unsupported(pred)

    def pcmp(self, st, pred, a, b):
        for x in (a, b):
            if x is UNDEF or x is JUNK:
                raise Unsupported('compare undef pointer')
        if isinstance(a, Poly):
            a = Ptr(None, a)
        if isinstance(b, Poly):
            b = Ptr(None, b)
        if isinstance(a, Fn) or isinstance(b, Fn):
            r = TRUE if a == b else FALSE
        elif a.b == b.b:
            d = a.o - b.o
            if pred in ('eq', 'ne'):
                r = eq0(d)
            else:
                o = pred[1:]
                return {'lt': lt, 'le': le, 'gt': lambda x, y: lt(y, x), 'ge': lambda x, y: le(y, x)}[o](a.o, b.o)
        else:
            r = FALSE
            if pred not in ('eq', 'ne'):
                # unrelated objects (e.g. overlap tests): order by block id
                if pred in ('ult', 'ule'):
                    return TRUE if (a.b or 0) < (b.b or 0) else FALSE
                return TRUE if (a.b or 0) > (b.b or 0) else FALSE
        return r if pred == 'eq' else bnot(r)

    def fcmp(self, pred, a, b):
        if a is UNDEF:
            a = self.fresh_real('undef')
        if b is UNDEF:
            b = self.fresh_real('undef')
        if not isinstance(a, R) or not isinstance(b, R):
            raise Unsupported('fcmp %r %r' % (a, b))
        if pred in ('ord', 'uno'):
            return TRUE if (pred == 'uno') == (a is NAN or b is NAN) else FALSE
        if (a is NAN or b is NAN) and pred not in ('true', 'false'):
            return TRUE if pred[0] == 'u' else FALSE
        if pred == 'true':
            return TRUE
        if pred == 'false':
            return FALSE
        o = pred[1:]
        for x, y, fl in ((a, b, False), (b, a, True)):
            if y in (PINF, NINF):
                if x in (PINF, NINF):
                    sx, sy = (1 if x is PINF else -1), (1 if y is PINF else -1)
                    if fl:
                        sx, sy = sy, sx
                    return TRUE if {'eq': sx == sy, 'ne': sx != sy, 'lt': sx < sy, 'le': sx <= sy, 'gt': sx > sy, 'ge': sx >= sy}[o] else FALSE
                lessthan = (y is PINF) != fl     # a < b ?
                return TRUE if {'eq': False, 'ne': True, 'lt': lessthan, 'le': lessthan, 'gt': not lessthan, 'ge': not lessthan}[o] else FALSE
        if o == 'eq':
            return req(a, b)
        if o == 'ne':
            return bnot(req(a, b))
        if o == 'lt':
            return rlt(a, b)
        if o == 'le':
            return rle(a, b)
        if o == 'gt':
            return rlt(b, a)
        if o == 'ge':
            return rle(b, a)
        raise Unsupported(pred)

    def cast(self, st, op, t1, t2, v):
        if v is JUNK:
            return JUNK
        if isinstance(v, Agg):
            raise Unsupported('vector cast')
        if op in ('bitcast', 'addrspacecast'):
            if t1[0] == 'i' and t2[0] in ('double', 'float') and isinstance(v, (Poly, R)):
                return self.typed(v, t2)
            return v
        if op in ('ptrtoint', 'inttoptr'):
            if op == 'inttoptr' and isinstance(v, Poly):
                return NULL if v is ZERO else Ptr(None, v)
            return v
        if op in ('fpext', 'fptrunc'):
            # rounding to single precision is a function nothing is known about
            if op == 'fptrunc' and isinstance(v, R) and v.op != 'c':
                return rapp('tofloat', [v])
            return v
        if v is UNDEF:
            return self.fresh_of(t2, 'undef')
        if op == 'trunc':
            if t2[1] == 1:
                if isinstance(v, B):
                    return v
                return self.trunc1(v)
            if isinstance(v, B):
                return iite(v, ONE, ZERO)
            return self.trunc(v, t2[1])
        if op == 'zext':
            if isinstance(v, B):
                return iite(v, ONE, ZERO)
            if isinstance(v, Packed):
                return v
            return self.uns(st, v, t1[1])
        if op == 'sext':
            if isinstance(v, B):
                return iite(v, K(-1), ZERO)
            if isinstance(v, Packed):
                raise Unsupported('sext packed')
            c = v.const()
            if c is not None:
                return self.wrapc(c, t1[1])
            lo, hi = v.bounds()
            if lo is None or hi is None or lo < -(1 << (t1[1] - 1)) or hi >= (1 << (t1[1] - 1)):
                self.note('no signed %d-bit overflow (sizes below 2^31)' % t1[1])
            return v
        if op in ('sitofp', 'uitofp'):
            if isinstance(v, B):
                v = iite(v, ONE if op == 'uitofp' else K(-1), ZERO)
            if op == 'uitofp':
                v = self.uns(st, v, t1[1])
            elif v.const() is not None:
                v = self.wrapc(v.const(), t1[1])
            a = single_atom(v)
            if a is not None and a.kind == 'ite':
                return rite(a.args[0], i2r(a.args[1]), i2r(a.args[2]))
            return i2r(v)
        if op in ('fptosi', 'fptoui'):
            if v.op == 'c':
                return K(int(v.a[0]))
            if v.op == 'i2r':
                return v.a[0]
            w = t2[1]
            self.note('floating point to integer conversions are in range')
            return A(atom('f2i', (v,), -(1 << (w - 1)) if op == 'fptosi' else 0, (1 << w) - 1))
        raise Unsupported('cast ' + op)

    # ---------------------------------------------------------------- execution
    def val(self, regs, v, ty, m):
        k = v[0]
        if k == 'r':
            return regs[v[1]]
        return self.const_val(v, ty, m)

    def find_func(self, name, mod=None, parse=True):
        if mod is not None:
            f = mod.funcs.get(name)
            if f is not None:
                return f
            if name in mod.aliases:
                return self.find_func(mod.aliases[name], mod)
        f = self.symtab.get(name)
        if f is not None:
            return f
        for m in self.modules:
            if name in m.aliases and m.aliases[name] in m.funcs:
                return m.funcs[m.aliases[name]]
        return None

    def call_name(self, st, name, args, mod, rt=None):
        """-> list of (state, value) ; throw outcomes are recorded and dropped"""
        h = self.intrinsic(name)
        if h is not None:
            return h(self, st, args, mod, rt)
        if name in STDMAX and self.opts.get('maxfn'):
            ty = STDMAX[name]
            a, b = (self.load(st, v, ty, mod) for v in args[:2])
            v = None
            if isinstance(a, R) and isinstance(b, R) and a not in (PINF, NINF) and b not in (PINF, NINF):
                v = (rmax if 'max' in name else rmin)(a, b)
            elif isinstance(a, Poly) and isinstance(b, Poly):
                for x, y in ((a, b), (b, a)):
                    if self.entails(st.pc, ge(x, y)):
                        v = x if 'max' in name else y
                if v is None:
                    v = iite(lt(a, b), b, a) if 'max' in name else iite(lt(a, b), a, b)
            if v is not None:
                p = self.alloc(st, K(8), 'stack', 'max')
                self.store(st, p, ty, v, mod)
                return [(st, p)]
        f = self.find_func(name, mod)
        if f is None and self.resolver is not None and self.wanted(name):
            m2 = self.resolver(name, 'func')
            if m2 is not None:
                if m2 not in self.modules:
                    self.add_module(m2)
                f = self.find_func(name, m2)
        if f is None:
            return self.external(st, name, args, mod, rt)
        return self.call_func(st, f, args)

    def call_func(self, st, f, args):
        f.parse()
        self.functions[f.name] = self.functions.get(f.name, 0) + 1
        if len(self.callstack) > 120:
            raise Unsupported('call depth')
        regs = {}
        m = f.module
        self.frameid += 1
        regs['%%frame'] = self.frameid
        if len(args) < len(f.params):
            raise Unsupported('argument count for ' + f.name)
        for (nm, t, at), v in zip(f.params, args):
            if 'byval' in at:
                n = m.size(at['byval'])
                p = self.alloc(st, K(n), 'stack', 'byval')
                self.memcpy(st, p, v, K(n))
                v = p
            regs[nm] = v
        if f.vararg:
            regs['%%va'] = args[len(f.params):]
        ab = self.abstract is not None and self.abstract.search(f.name)
        before = {v.b: dict(st.mem[v.b].cells) for v in args if isinstance(v, Ptr) and v.b in st.mem} if ab else None
        self.callstack.append(f.name)
        try:
            outs = self.run(f, [(st, regs, f.entry, None)], None)
        except NeedSummary:
            raise
        except Exception as e:
            if getattr(e, 'av_stack', None) is None:
                try:
                    e.av_stack = list(self.callstack)
                except Exception:
                    pass
            raise
        finally:
            self.callstack.pop()
        res = []
        for o in outs:
            if o[0] == 'ret':
                res.append(self.abstract_result(o[1], o[2], before, f) if ab else (o[1], o[2]))
            else:
                raise Unsupported('outcome ' + o[0])
        return res

    def abstract_result(self, st, val, before, f):
        """modular verification: the caller sees a result of f only as an unknown value (equal calls give
        equal values); what it may use about that value is what the contract assumes, i.e. f's own contract"""
        self.note('results of %s are known to callers only through its contract' % f.name)

        def sym(t):
            if t.op in ('c', 'var', 'nan', 'pinf', 'ninf'):
                return t
            if t not in self.abstracted:
                self.abstracted[t] = rvar(fresh_name('abs'))
            return self.abstracted[t]
        for b, cells in before.items():
            if b not in st.mem:
                continue
            for o, c in list(st.mem[b].cells.items()):
                if cells.get(o) != c and isinstance(c[1], R):
                    n = sym(c[1])
                    if n is not c[1]:
                        self.blk(st, Ptr(b, K(0)), True).cells[o] = (c[0], n)
        return st, sym(val) if isinstance(val, R) else val

    def run(self, f, work, region):
        """work: list of (st, regs, block, prev).  returns outcomes:
        ('ret',st,val) ('back',st,regs,from) ('exit',st,regs,from,target)"""
        outs = []
        m = f.module
        loops = f.loops()
        work = [(st, regs, blk, prev, 0) for (st, regs, blk, prev) in work]
        while work:
            st, regs, bname, prev, ip = work.pop()
            blk = f.blocks[bname]
            if ip == 0 and blk.phis:
                if prev is not None:
                    vals = []
                    for ph in blk.phis:
                        for v, src in ph.a:
                            if src == prev:
                                vals.append((ph.res, self.val(regs, v, ph.ty, m)))
                                break
                        else:
                            raise Unsupported('phi without edge')
                    for r, v in vals:
                        regs[r] = v
            ins = blk.ins
            n = len(ins)
            i = ip
            try:
                while i < n:
                    x = ins[i]
                    op = x.op
                    self.nsteps += 1
                    if self.nsteps & 1023 == 0:
                        if self.nsteps > self.maxsteps:
                            raise Unsupported('step limit')
                        if self.deadline and time.time() > self.deadline:
                            raise Unsupported('time limit')
                    if op == 'call' or op == 'invoke':
                        res = self.do_call(st, regs, x, m)
                        if op == 'invoke':
                            nxt = x.a[2]
                            for (s2, v) in res:
                                r2 = regs if len(res) == 1 else dict(regs)
                                if x.res:
                                    r2[x.res] = v
                                self.goto(f, s2, r2, bname, nxt, region, loops, work, outs)
                            break
                        if len(res) == 1:
                            st, v = res[0]
                            if x.res:
                                regs[x.res] = v
                            i += 1
                            continue
                        for (s2, v) in res:
                            r2 = dict(regs)
                            if x.res:
                                r2[x.res] = v
                            work.append((s2, r2, bname, prev, i + 1)) if i + 1 > 0 else None
                        break
                    elif op == 'br':
                        c = x.a[0]
                        if c is None:
                            self.goto(f, st, regs, bname, x.a[1], region, loops, work, outs)
                            break
                        cv = self.val(regs, c, ('i', 1), m)
                        self.branch(f, st, regs, bname, cv, x.a[1], x.a[2], region, loops, work, outs)
                        break
                    elif op == 'ret':
                        v = None if x.a is None else self.val(regs, x.a, x.ty, m)
                        if region is not None and region.mode in ('sum', 'unroll') and False:
                            raise Unsupported('return inside loop')
                        outs.append(('ret', st, v))
                        break
                    elif op == 'switch':
                        cv = self.val(regs, x.a[0], x.ty, m)
                        cc = cv.const() if isinstance(cv, Poly) else None
                        if cc is not None:
                            tgt = x.a[1]
                            for k, t in x.a[2]:
                                if (k - cc) % (1 << x.ty[1]) == 0:
                                    tgt = t
                                    break
                            self.goto(f, st, regs, bname, tgt, region, loops, work, outs)
                        else:
                            rest = []
                            for k, t in x.a[2]:
                                s2 = st.copy()
                                b = eq(cv, K(k))
                                rest.append(bnot(b))
                                if s2.assume(b) and self.decide(st, b) is not False:
                                    self.goto(f, s2, dict(regs), bname, t, region, loops, work, outs)
                            if all(st.assume(b) for b in rest) and self.feasible(st):
                                self.goto(f, st, dict(regs), bname, x.a[1], region, loops, work, outs)
                        break
                    elif op == 'unreachable':
                        break
                    elif op == 'resume':
                        break
                    elif op == 'select':
                        r = self.do_select(st, regs, x, m)
                        if r is not None:
                            c, a, b = r
                            s2 = st.copy()
                            ok1 = st.assume(c)
                            ok2 = s2.assume(bnot(c))
                            if ok2:
                                r2 = dict(regs)
                                r2[x.res] = b
                                if ok1:
                                    work.append((s2, r2, bname, None, i + 1))
                                else:
                                    st, regs = s2, r2
                                    i += 1
                                    continue
                            if not ok1:
                                break
                            regs[x.res] = a
                        i += 1
                        continue
                    else:
                        self.simple(st, regs, x, m)
                        i += 1
                        continue
            except PathEnd:
                continue
        return outs

    def simple(self, st, regs, x, m):
        op = x.op
        V = self.val
        if op == 'load':
            p = V(regs, x.a, ('ptr',), m)
            if isinstance(p, Fn):
                raise Unsupported('load from function')
            regs[x.res] = self.load(st, p, x.ty, m)
        elif op == 'store':
            v = V(regs, x.a[0], x.ty, m)
            p = V(regs, x.a[1], ('ptr',), m)
            self.store(st, p, x.ty, v, m)
        elif op == 'gep':
            base = V(regs, x.a[0], ('ptr',), m)
            idx = []
            for t, y in x.a[1]:
                v = V(regs, y, t, m)
                idx.append((t, v))
            regs[x.res] = self.gep(base, x.ty, idx, m)
        elif op == 'bin':
            a = V(regs, x.a[1], x.ty, m)
            b = V(regs, x.a[2], x.ty, m)
            regs[x.res] = self.binop(st, x.a[0], a, b, x.ty, x.flags)
        elif op == 'fneg':
            a = V(regs, x.a, x.ty, m)
            if a is UNDEF:
                a = self.fresh_real('undef')
            regs[x.res] = rneg(a) if isinstance(a, R) and a not in (PINF, NINF) else (NINF if a is PINF else PINF)
        elif op == 'icmp':
            a = V(regs, x.a[1], x.ty, m)
            b = V(regs, x.a[2], x.ty, m)
            regs[x.res] = self.icmp(st, x.a[0], a, b, x.ty)
        elif op == 'fcmp':
            a = V(regs, x.a[1], x.ty, m)
            b = V(regs, x.a[2], x.ty, m)
            regs[x.res] = self.fcmp(x.a[0], a, b)
        elif op == 'cast':
            o, t1, a = x.a
            regs[x.res] = self.cast(st, o, t1, x.ty, V(regs, a, t1, m))
        elif op == 'alloca':
            n = V(regs, x.a, ('i', 64), m)
            regs[x.res] = self.alloc(st, n.scale(m.size(x.ty)), 'stack', (self.callstack[-1][:40] if self.callstack else '') + x.res)
        elif op == 'extractvalue':
            a = V(regs, x.a[0], x.ty, m)
            for i in x.a[1]:
                if a is UNDEF:
                    break
                a = a.v[i]
            regs[x.res] = a
        elif op == 'insertvalue':
            a = V(regs, x.a[0], x.ty, m)
            v = V(regs, x.a[1], x.a[3], m)
            regs[x.res] = self.insval(a, v, x.a[2], m.resolve(x.ty), m)
        elif op == 'freeze':
            regs[x.res] = V(regs, x.a, x.ty, m)
        elif op == 'landingpad':
            regs[x.res] = Agg([UNDEF, UNDEF])
        elif op == 'nop':
            pass
        elif op == 'atomicrmw':
            o, p, v = x.a
            p = V(regs, p, ('ptr',), m)
            v = V(regs, v, x.ty, m)
            old = self.load(st, p, x.ty, m)
            new = v if o == 'xchg' else self.binop(st, o, old, v, x.ty)
            self.store(st, p, x.ty, new, m)
            regs[x.res] = old
        elif op == 'cmpxchg':
            p, a, b = x.a
            p = V(regs, p, ('ptr',), m)
            a = V(regs, a, x.ty, m)
            b = V(regs, b, x.ty, m)
            old = self.load(st, p, x.ty, m)
            c = self.decide(st, self.icmp(st, 'eq', old, a, x.ty))
            if c is None:
                raise Unsupported('cmpxchg')
            if c:
                self.store(st, p, x.ty, b, m)
            regs[x.res] = Agg([old, TRUE if c else FALSE])
        elif op == 'extractelement':
            a = V(regs, x.a[0], x.ty, m)
            i = V(regs, x.a[1], ('i', 64), m).const()
            regs[x.res] = UNDEF if a is UNDEF else a.v[i]
        elif op == 'insertelement':
            a = V(regs, x.a[0], x.ty, m)
            if a is UNDEF:
                a = Agg([UNDEF] * x.ty[1])
            v = V(regs, x.a[1], x.ty[2], m)
            i = V(regs, x.a[2], ('i', 64), m).const()
            l = list(a.v)
            l[i] = v
            regs[x.res] = Agg(l)
        elif op == 'shufflevector':
            a = V(regs, x.a[0], x.ty, m)
            b = V(regs, x.a[1], x.ty, m)
            n = x.ty[1]
            l = list(a.v if isinstance(a, Agg) else [UNDEF] * n) + list(b.v if isinstance(b, Agg) else [UNDEF] * n)
            mk = V(regs, x.a[3], x.a[2], m)
            regs[x.res] = Agg([l[i.const()] if isinstance(i, Poly) else UNDEF for i in mk.v])
        else:
            raise Unsupported('instruction ' + op)

    def insval(self, a, v, idx, t, m):
        if a is UNDEF:
            n = len(t[2]) if t[0] == 'st' else t[1]
            a = Agg([UNDEF] * n)
        l = list(a.v)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            sub = m.resolve(t[2][idx[0]] if t[0] == 'st' else t[2])
            l[idx[0]] = self.insval(l[idx[0]], v, idx[1:], sub, m)
        return Agg(l)

    def do_select(self, st, regs, x, m):
        c = self.val(regs, x.a[0], ('i', 1), m)
        a = self.val(regs, x.a[1], x.ty, m)
        b = self.val(regs, x.a[2], x.ty, m)
        if isinstance(c, Agg):
            raise Unsupported('vector select')
        if c is UNDEF:
            c = self.fresh_bool('undef')
        if c is TRUE:
            regs[x.res] = a
            return None
        if c is FALSE:
            regs[x.res] = b
            return None
        if a is b or (type(a) == type(b) and not isinstance(a, (R, Poly, B)) and a == b):
            regs[x.res] = a
            return None
        if isinstance(a, R) and isinstance(b, R):
            if not c.real:
                d = self.decide(st, c)
                if d is not None:
                    regs[x.res] = a if d else b
                    return None
            if a not in (PINF, NINF) and b not in (PINF, NINF):
                regs[x.res] = rite(c, a, b)
                return None
        if isinstance(a, B) and isinstance(b, B):
            regs[x.res] = bite(c, a, b)
            return None
        d = self.decide(st, c)
        if d is not None:
            regs[x.res] = a if d else b
            return None
        if isinstance(a, Poly) and isinstance(b, Poly) and (c.real or self.opts.get('int_ite')):
            regs[x.res] = iite(c, a, b)
            return None
        return (c, a, b)

    def branch(self, f, st, regs, bname, c, t1, t2, region, loops, work, outs):
        if isinstance(c, Poly):
            c = self.trunc1(c)
        if c is UNDEF:
            c = self.fresh_bool('undef')
        if c is JUNK:
            raise Unsupported('branch on dead value')
        if t1 == t2:
            return self.goto(f, st, regs, bname, t1, region, loops, work, outs)
        if region is not None:
            in1, in2 = t1 in region.blocks, t2 in region.blocks
            if in1 != in2:
                cont = c if in1 else bnot(c)
                tin, tout = (t1, t2) if in1 else (t2, t1)
                if region.mode == 'unroll':
                    if cont is TRUE:
                        return self.goto(f, st, regs, bname, tin, region, loops, work, outs)
                    if cont is FALSE:
                        return self.goto(f, st, regs, bname, tout, region, loops, work, outs)
                    if not self.endless_exit(f, tout):
                        raise NeedSummary(region)
                elif region.mode == 'sum':
                    d = cont if cont in (TRUE, FALSE) else None
                    if self.endless_exit(f, tout):
                        # leads only to a throw / unreachable
                        pass
                    else:
                        region.exits.append((bname, cont, len(st.pc)))
                        if not st.assume(cont):
                            return
                        if region.ka is not None and cont.op == 'not' and cont.a[0].op == 'eq0':
                            # the loop runs until an equality holds: iteration k is reached only if k < N
                            l = cont.a[0].a[0].linear_in(region.ka.id)
                            if l is not None and l[0]:
                                n = l[1].scale(-l[0]) if abs(l[0]) == 1 else (-l[1]).divexact(l[0])
                                if n is not None and not st.assume(lt(A(region.ka), n)):
                                    return
                        return self.goto(f, st, regs, bname, tin, region, loops, work, outs)
                elif region.mode == 'exit':
                    if not self.endless_exit(f, tout):
                        if not st.assume(bnot(cont)):
                            return
                        return self.goto(f, st, regs, bname, tout, region, loops, work, outs)
        d = self.decide(st, c)
        if d is True:
            return self.goto(f, st, regs, bname, t1, region, loops, work, outs)
        if d is False:
            return self.goto(f, st, regs, bname, t2, region, loops, work, outs)
        s2 = st.copy()
        r2 = dict(regs)
        if s2.assume(bnot(c)):
            self.goto(f, s2, r2, bname, t2, region, loops, work, outs)
        if st.assume(c):
            self.goto(f, st, regs, bname, t1, region, loops, work, outs)

    def endless_exit(self, f, b):
        """does block b lead only to unreachable (throw paths)?"""
        cache = f.__dict__.setdefault('_dead', {})
        if b in cache:
            return cache[b]
        seen = set()
        st = [b]
        ok = True
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            t = f.blocks[x].ins[-1]
            if t.op == 'ret':
                ok = False
                break
            if t.op == 'invoke':
                st.append(t.a[2])
            else:
                st.extend(f.blocks[x].succ)
        if ok:
            # an endless loop without return is not a throw: require an unreachable block
            ok = any(f.blocks[x].ins[-1].op in ('unreachable', 'resume') for x in seen)
        cache[b] = ok
        return ok

    def goto(self, f, st, regs, frm, tgt, region, loops, work, outs):
        if region is not None:
            if tgt == region.header:
                outs.append(('back', st, regs, frm))
                return
            if tgt not in region.blocks:
                outs.append(('exit', st, regs, frm, tgt))
                return
        if tgt in loops and frm not in loops[tgt]:
            for o in self.loop(f, tgt, loops[tgt], st, regs, frm):
                if o[0] == 'exit':
                    self.goto(f, o[1], o[2], o[3], o[4], region, loops, work, outs)
                else:
                    outs.append(o)
            return
        work.append((st, regs, tgt, frm, 0))

    # ---------------------------------------------------------------- loops
    def loop(self, f, header, blocks, st, regs, prev):
        snap = (len(self.obligations), [len(r.reads) for r in self.recs], st.copy(), dict(regs), dict(self.covers), len(self.throws))
        forced = (f.name, header) in self.loopcache
        try:
            if forced:
                # summarised before: try again only if the trip count is not concrete now
                pass
            return self.unroll(f, header, blocks, st, regs, prev)
        except NeedSummary as e:
            if e.loop.header != header or e.loop.blocks is not blocks:
                raise
            del self.obligations[snap[0]:]
            for r, n in zip(self.recs, snap[1]):
                del r.reads[n:]
            self.covers = snap[4]
            del self.throws[snap[5]:]
            return self.summarise(f, header, blocks, snap[2], snap[3], prev)

    def unroll(self, f, header, blocks, st, regs, prev):
        outs = []
        cur = [(st, regs, prev)]
        it = 0
        while cur:
            it += 1
            if it > self.opts.get('unroll', 2000):
                raise Unsupported('unroll limit in ' + f.name)
            nxt = []
            for (s, r, p) in cur:
                reg = Region(header, blocks, 'unroll')
                try:
                    res = self.run(f, [(s, r, header, p)], reg)
                except NeedSummary as e:
                    if e.loop is reg:
                        e.loop = Region(header, blocks, 'unroll')
                        raise NeedSummary(e.loop)
                    raise
                for o in res:
                    if o[0] == 'back':
                        nxt.append((o[1], o[2], o[3]))
                    else:
                        outs.append(o)
            cur = nxt
        return outs

    def carried_symbol(self, v0, v1, nm, st=None):
        """fresh opaque symbol standing for a loop-carried value"""
        v = v0 if v0 is not UNDEF and v0 is not JUNK else v1
        if isinstance(v, R):
            return rvar(fresh_name('lc_' + nm), ())
        if isinstance(v, Poly):
            return A(atom('sym', (fresh_name('lc_' + nm), ()), None, None))
        if isinstance(v, B):
            return bsym(fresh_name('lc_' + nm), ())
        if isinstance(v, Ptr) and v.b is not None and (v1 is None or not isinstance(v1, Ptr) or v1.b == v.b):
            b = st.mem.get(v.b) or self.gproto.get(v.b) if st is not None else None
            es = 8
            if b is not None:
                if b.arr is not None:
                    es = b.arr.es
                elif b.cells:
                    es = min(c[0] for c in b.cells.values())
            return Ptr(v.b, v.o + A(atom('sym', (fresh_name('lc_' + nm), ()), None, None)).scale(es))
        return JUNK

    def changed_cells(self, st, outs):
        """cells of pre-existing blocks whose content changed on some back path"""
        ch = {}
        for o in outs:
            if o[0] != 'back':
                continue
            s2 = o[1]
            for bid, b0 in st.mem.items():
                b1 = s2.mem.get(bid)
                if b1 is b0 or b1 is None:
                    continue
                if (b0.arr is None) != (b1.arr is None):
                    raise RestartArr(bid, b1.arr)
                if b1.arr is not None:
                    continue
                if b0.zero != b1.zero:
                    ch[(bid, None, None)] = True
                for off in set(b0.cells) | set(b1.cells):
                    c0, c1 = b0.cells.get(off), b1.cells.get(off)
                    if c0 is None and c1 is None:
                        continue
                    if c0 is not None and c1 is not None and c0[0] == c1[0] and (c0[1] is c1[1] or (type(c0[1]) == type(c1[1]) and not isinstance(c0[1], (R, Poly, B)) and c0[1] == c1[1])):
                        continue
                    sz = (c1 or c0)[0]
                    ch[(bid, off, sz)] = (c0[1] if c0 and c0[0] == sz else None, c1[1] if c1 else None)
        return ch

    def summarise(self, f, header, blocks, st0, regs0, prev):
        m = f.module
        self.loops_summarised += 1
        blk = f.blocks[header]
        phis = blk.phis
        init = {}
        for ph in phis:
            for v, src in ph.a:
                if src == prev:
                    init[ph.res] = self.val(regs0, v, ph.ty, m)
                    break
        cells = {}        # (bid,off,size) -> initial value
        ckey = (f.name, header, regs0.get('%%frame'))
        cached = self.loopcache.get(ckey)
        if cached:
            for c in cached[0]:
                cells[c] = None
        marks = (len(self.obligations), len(self.throws), [len(r.reads) for r in self.recs])
        guessed = False
        accs = set()
        for attempt in range(40):
            del self.obligations[marks[0]:]
            del self.throws[marks[1]:]
            for r, n in zip(self.recs, marks[2]):
                del r.reads[n:]
            try:
                return self._summarise(f, header, blocks, st0, regs0, prev, phis, init, cells, ckey, accs)
            except Dependence as e:
                # iterations share elements of an array: sums accumulated in its elements?
                b = st0.mem.get(e.bid) if e.bid is not None and e.bid not in accs else None
                if b is None or b.arr is None or not (b.arr.ty[0] == 'double' or b.arr.ty[0] == 'i' and b.arr.ty[1] > 1):
                    raise
                accs.add(e.bid)
            except MoreCells as e:
                ptr = any(isinstance(self.get_cell(st0, c), Ptr) for c in e.cells if c[1] is not None and c[0] in st0.mem)
                for c in e.cells:
                    cells[c] = None
                if ptr and not guessed:
                    # a growing container: guess the induction from the first iteration; the guess is confirmed or refused
                    guessed = True
                    del self.obligations[marks[0]:]
                    del self.throws[marks[1]:]
                    try:
                        cls = self.guess(f, header, blocks, st0, regs0, prev, phis, init, dict(cells))
                        if cls is not None:
                            self.loopcache[ckey] = cls
                            return self._summarise(f, header, blocks, st0, regs0, prev, phis, init, {c: None for c in cls[0]}, ckey)
                    except (Unsupported, MoreCells, RestartArr) as ex:
                        if self.opts.get('debug'):
                            print('guess refused', f.name, header, ex)
                    self.loopcache.pop(ckey, None)
            except RestartArr as e:
                # convert the block to array storage up front
                st0 = st0.copy()
                self.ensure_arr(st0, Ptr(e.bid, ZERO), e.arr.es, e.arr.ty)
        raise Unsupported('loop summarisation did not stabilise in %s' % f.name)

    def guess(self, f, header, blocks, st0, regs0, prev, phis, init, cells):
        """classification of the carried values by one iteration from the initial values (unconfirmed)"""
        st = st0.copy()
        regs = dict(regs0)
        for ph in phis:
            regs[ph.res] = init[ph.res]
        outs, exits, rec = self.iterate(f, header, blocks, st, regs)
        backs = [o for o in outs if o[0] == 'back']
        if len(backs) != 1:
            return None
        for c in self.changed_cells(st0, backs):
            cells[c] = None
        cls = {}
        m = f.module
        for key in [ph.res for ph in phis] + list(cells):
            if isinstance(key, tuple):
                if key[1] is None:
                    return None
                v0, v1 = self.get_cell(st0, key), self.get_cell(backs[0][1], key)
            else:
                v0, v1 = init[key], self.next_of(f, header, backs[0], key, m)
            if v0 is v1:
                cls[key] = ('inv',)
            elif isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.b == v1.b:
                d = v1.o - v0.o
                cls[key] = ('ind', d) if d is not ZERO else ('inv',)
            elif isinstance(v0, Poly) and isinstance(v1, Poly):
                d = v1 - v0
                cls[key] = ('ind', d) if d is not ZERO else ('inv',)
            else:
                cls[key] = ('junk', v1)
        return list(cells), cls

    def iterate(self, f, header, blocks, st, regs, ka=None):
        """run one iteration from the header (phis already set).  returns outcomes + exits"""
        reg = Region(header, blocks, 'sum')
        reg.ka = ka
        rec = Recorder(st.mem.copy())
        self.recs.append(rec)
        try:
            outs = self.run(f, [(st, regs, header, None)], reg)
        finally:
            self.recs.pop()
        return outs, reg.exits, rec

    def set_cells(self, st, vals):
        for (bid, off, sz), v in vals.items():
            b = self.blk(st, Ptr(bid, ZERO), True)
            if off is None:
                continue
            self.clear_range(b, off, sz)
            b.cells[off] = (sz, v)

    def get_cell(self, st, c):
        bid, off, sz = c
        b = st.mem[bid]
        v = b.cells.get(off)
        if v is not None and v[0] == sz:
            return v[1]
        return None

    def _summarise(self, f, header, blocks, st0, regs0, prev, phis, init, cells, ckey, accs=()):
        m = f.module
        nob = len(self.obligations)
        nth = len(self.throws)
        nrec = [len(r.reads) for r in self.recs]

        def rollback():
            del self.obligations[nob:]
            del self.throws[nth:]
            for r, n in zip(self.recs, nrec):
                del r.reads[n:]
        cell_init = {}
        for c in cells:
            bid, off, sz = c
            if off is None:
                raise Unsupported('memset of loop-carried object')
            b = self.blk(st0, Ptr(bid, ZERO))
            if b.arr is not None:
                raise Unsupported('cell/array mix in loop')
            v = b.cells.get(off)
            if v is not None and v[0] == sz:
                cell_init[c] = v[1]
            else:
                try:
                    cell_init[c] = self.read_cells(st0, b, off, sz, ('i', 8 * sz))
                except Unsupported:
                    cell_init[c] = JUNK
        cached = self.loopcache.get(ckey)
        cls = None
        if cached and set(cached[0]) == set(cells):
            cls = cached[1]
        if cls is None:
            # ---- stage A: opaque carried values
            for upwards in (False, True):
                st = st0.copy()
                regs = dict(regs0)
                sym = {}
                for ph in phis:
                    s = self.carried_symbol(init[ph.res], None, ph.res.strip('%'), st)
                    sym[ph.res] = s
                    regs[ph.res] = s
                for c in cells:
                    s = self.carried_symbol(cell_init[c], cells[c], 'cell', st)
                    sym[c] = s
                self.set_cells(st, {c: sym[c] for c in cells})
                if upwards:
                    # only to classify (stage B confirms): counters count up
                    for c, s in sym.items():
                        i0 = init[c] if c in init else cell_init[c]
                        if isinstance(s, Poly) and isinstance(i0, Poly):
                            st.assume(ge(s, i0))
                npc_a = len(st.pc)
                try:
                    outs, exits, rec = self.iterate(f, header, blocks, st, regs)
                    break
                except Unsupported:
                    rollback()      # what fails for an arbitrary carried value need not fail
                    if upwards:
                        raise
            st_ref = st0.copy()
            self.set_cells(st_ref, {c: sym[c] for c in cells})
            ch = self.changed_cells(st_ref, outs)
            new = [c for c in ch if c not in cells]
            rollback()
            if new:
                raise MoreCells(new)
            backs = [o for o in outs if o[0] == 'back']
            if any(o[0] == 'exit' or o[0] == 'ret' for o in outs):
                raise Unsupported('loop in %s leaves from inside its body' % f.name)
            backs = self.merge_backs(f, header, backs, npc_a, sym, m, st_ref)
            cls = {}
            allsyms = []
            for k, s in sym.items():
                nexts = [self.next_of(f, header, o, k, m) for o in backs]
                cls[k] = self.classify(k, s, nexts, sym, f)
            if self.opts.get('debug'):
                print('loop', f.name, header, {str(k): v for k, v in cls.items()})
            self.loopcache[ckey] = (list(cells), cls)
        # ---- stage B
        ka = atom('sym', (fresh_name('k'), ()), 0, None)
        k = A(ka)
        st = st0.copy()
        regs = dict(regs0)
        sym = {}
        junk_i, junk_r, junk_b = set(), set(), set()
        red = {}
        for key in [ph.res for ph in phis] + list(cells):
            i0 = init[key] if key in init else cell_init[key]
            c = cls[key]
            if c[0] == 'ind':
                step = c[1]
                if isinstance(i0, Ptr):
                    s = Ptr(i0.b, i0.o + step * k)
                else:
                    s = i0 + step * k
            elif c[0] == 'inv':
                s = i0
            elif c[0] in ('sum', 'max', 'min'):
                s = rvar(fresh_name('acc'), ())
                junk_r.add(s.a[0])
                red[key] = (c[0], s)
            else:
                s = self.carried_symbol(i0, c[1] if len(c) > 1 else None, 'junk')
                if isinstance(s, Poly):
                    junk_i |= {single_atom(s).id}
                elif isinstance(s, Ptr):
                    s = JUNK
                elif isinstance(s, R):
                    junk_r.add(s.a[0])
                elif isinstance(s, B):
                    junk_b.add(s)
            sym[key] = s
            if not isinstance(key, tuple):
                regs[key] = s
        self.set_cells(st, {c: sym[c] for c in cells})
        accarr = {}
        junk_a = set()
        for bid in accs:
            b = st.mem[bid] = st.mem[bid].copy()
            name = fresh_name('acc')
            (junk_a if b.arr.ty[0] == 'i' else junk_r).add(name)
            b.arr = Arr(b.arr.es, b.arr.ty, b.arr.dims, ('acc', name), None)
            accarr[bid] = b
        npc = len(st.pc)
        st.assume(ge0(k))
        self.loopks.append(k)
        try:
            outs, exits, rec = self.iterate(f, header, blocks, st, regs, ka)
        except Unsupported:
            rollback()
            raise
        finally:
            self.loopks.pop()
        st_ref = st0.copy()
        self.set_cells(st_ref, {c: sym[c] for c in cells})
        for bid, b in accarr.items():
            st_ref.mem[bid] = b
        ch = self.changed_cells(st_ref, outs)
        new = [c for c in ch if c not in cells]
        if new:
            rollback()
            self.loopcache.pop(ckey, None)
            raise MoreCells(new)
        backs = [o for o in outs if o[0] == 'back']
        if any(o[0] in ('exit', 'ret') for o in outs):
            raise Unsupported('loop in %s leaves from inside its body' % f.name)
        if not exits:
            raise Unsupported('loop without exit in ' + f.name)
        if len({e[0] for e in exits}) > 1:
            raise Unsupported('loop with several exits in ' + f.name)
        conts = {e[1] for e in exits}
        if len(conts) > 1:
            raise Unsupported('loop exit condition depends on path')
        cont = exits[0][1]
        # junk must not influence anything
        def dirty(x):
            if junk_a and isinstance(x, (Poly, B, R)) and any(ATOMS[i].kind == 'isel' and ATOMS[i].args[0] in junk_a for i in x.fv):
                return True
            if isinstance(x, (Poly,)):
                return bool(x.fv & junk_i)
            if isinstance(x, B):
                return bool(x.fv & junk_i) or bool(brv(x) & junk_r) or any(y in junk_b for y in bsubs(x))
            if isinstance(x, R):
                return bool(x.fv & junk_i) or bool(x.rv & junk_r)
            if isinstance(x, Ptr):
                return bool(x.o.fv & junk_i)
            if isinstance(x, Agg):
                return any(dirty(y) for y in x.v)
            if isinstance(x, Packed):
                return any(dirty(y[2]) for y in x.parts)
            return False
        backs = self.merge_backs(f, header, backs, npc, sym, m, st_ref, lambda b: dirty(b))
        # verify the classification (inductive step)
        redval = {}
        for key, s in sym.items():
            c = cls[key]
            nexts = [(o, self.next_of(f, header, o, key, m)) for o in backs]
            if c[0] == 'ind':
                for o, nv in nexts:
                    want = Ptr(s.b, s.o + c[1]) if isinstance(s, Ptr) else s + c[1]
                    if isinstance(want, Ptr):
                        ok = isinstance(nv, Ptr) and nv.b == want.b and (nv.o is want.o or entails_int(o[1].pc, eq(nv.o, want.o)))
                    else:
                        ok = nv is want or (isinstance(nv, Poly) and entails_int(o[1].pc, eq(nv, want)))
                    if not ok:
                        self.loopcache.pop(ckey, None)
                        raise Unsupported('induction variable %s not confirmed in %s' % (key, f.name))
            elif c[0] == 'inv':
                for o, nv in nexts:
                    if not (nv is s or nv == s):
                        self.loopcache.pop(ckey, None)
                        raise Unsupported('invariant %s not confirmed in %s' % (key, f.name))
            elif c[0] in ('sum', 'max', 'min'):
                redval[key] = self.red_contrib(c[0], s, nexts, npc, st)
            elif c[0] == 'flag':
                body = None
                for o, nv in nexts:
                    vals = set()
                    e = flag_next(nv, s, vals) if isinstance(nv, Poly) else None
                    if e is None or not vals <= {c[1]}:
                        raise Unsupported('flag %s not confirmed in %s' % (key, f.name))
                    if dirty(e):
                        raise Unsupported('flag %s depends on itself in %s' % (key, f.name))
                    conds = band(*[b for b in o[1].pc[npc:] if b not in self.defs])
                    body = e if body is None else rite(conds, e, body)
                redval[key] = body
        for key, (kind, s) in red.items():
            for k2, c2 in cls.items():
                if k2 == key:
                    continue
                if c2[0] in ('ind', 'inv'):
                    continue
                for o in backs:
                    pass
        for o in backs:
            for b in o[1].pc[npc:]:
                if dirty(b):
                    raise Unsupported('loop-carried value used in a condition in %s (%s)' % (f.name, b))
        # ---- trip count
        if dirty(cont):
            raise Unsupported('loop condition depends on a carried value')
        hdr_first = exits[0][0]
        N, nfacts = self.trip(st0, cont, ka, header, hdr_first)
        # ---- collect writes
        writes = []   # (bid, path pc, entry)
        sums = []     # the same for array elements that accumulate a sum
        chains = {}   # integer arrays whose elements are computed from the preceding element
        for o in backs:
            s2 = o[1]
            local = [b for b in s2.pc[npc:]]
            for bid, b0 in st_ref.mem.items():
                b1 = s2.mem.get(bid)
                if b1 is b0 or b1 is None or b1.arr is None:
                    continue
                if b1.arr.base != b0.arr.base:
                    raise Unsupported('array base changes in loop')
                node = b1.arr.ups
                ents = []
                while node is not b0.arr.ups:
                    if node is None:
                        raise Unsupported('array history lost in loop')
                    ents.append(node[0])
                    node = node[1]
                ents = live_entries(ents)
                if bid in accarr and b1.arr.ty[0] == 'i':
                    chains.setdefault(bid, []).append((local, ents, s2))
                    continue
                if bid in accarr:
                    if len(ents) > 1:
                        raise Unsupported('several accumulations into an array in %s' % f.name)
                    for e in ents:
                        v = e[2] if e[0] == 'pt' else e[4]
                        ekey = e[1] if e[0] == 'pt' else e[3]
                        kk = (self.flat(b1, ekey),) if len(ekey) > 1 else ekey
                        name = accarr[bid].arr.base[1]
                        r = match_red(v, rvar(name, kk))
                        if r is None or r[0] not in ('id', 'sum'):
                            raise dependence(bid, 'array elements of %s are not sums over the iterations of a loop in %s' % (b1.name, f.name))
                        if r[0] == 'id':
                            continue
                        if dirty(r[1]) or any(dirty(x) for x in ekey) or any(ka.id in x.fv for x in ekey):
                            raise dependence(bid, 'sums in elements of %s depend on the loop in %s' % (b1.name, f.name))
                        sums.append((bid, local, e, r[1]))
                    continue
                for e in reversed(ents):
                    v = e[2] if e[0] == 'pt' else e[4]
                    if dirty(v) or any(dirty(x) for x in (e[1] if e[0] == 'pt' else e[3])):
                        raise Unsupported('loop-carried value stored to memory in %s' % f.name)
                    writes.append((bid, local, e))
        for bid, paths in chains.items():
            writes.append(self.chain(f, bid, paths, len(backs), accarr[bid].arr.base[1], k, ka, st0, dirty))
        if accarr:
            rec.reads = [r for r in rec.reads if r[0] not in accarr]
        scratch = self.check_independent(st0, f, ka, rec, writes, npc)
        # ---- post state
        post = st0.copy()
        for fct in nfacts:
            self.defs.add(fct)
            post.assume(fct)
        bybid = {}
        for bid in scratch:
            # working storage that every iteration fills again before reading it: contents unknown afterwards
            b = post.mem[bid] = post.mem[bid].copy()
            n = b.size.divexact(b.arr.es)
            bv = atom('sym', (fresh_name('sc'), ()), 0, None)
            idx = (A(bv),) + tuple(self.loopks)
            ty = b.arr.ty
            if ty[0] in ('double', 'float'):
                v = rvar(fresh_name('scratch'), idx)
            elif ty[0] == 'i' and ty[1] > 1:
                w = ty[1]
                v = A(atom('sym', (fresh_name('scratch'), idx), -(1 << (w - 1)), (1 << w) - 1))
            else:
                raise Unsupported('scratch array of ' + str(ty))
            if n is None or (b.dims is not None and sum(1 for d in b.dims if d.const() != 1) > 1):
                raise Unsupported('scratch array with several dimensions')
            b.arr = b.arr.with_ups((('bulk', (bv.id,), band(ge0(A(bv)), lt(A(bv), n)), (A(bv),), v, (), bid), b.arr.ups))
        for bid, local, e in writes:
            if bid in scratch:
                continue
            conds = [b for b in local if b not in self.defs]
            dfs = [b for b in local if b in self.defs]
            if e[0] == 'pt':
                bvs, dom, key, v, fc = (ka.id,), band(*conds), e[1], e[2], tuple(dfs)
            else:
                bvs = (ka.id,) + e[1]
                dom = band(*(conds + [e[2]]))
                key, v, fc = e[3], e[4], tuple(e[5]) + tuple(dfs)
            bybid.setdefault(bid, []).append(('bulk', bvs, dom, key, v, fc, bid))
        for bid, ents in bybid.items():
            b = post.mem[bid].copy()
            post.mem[bid] = b
            ups = b.arr.ups
            for e in ents:
                ups = (e, ups)
            b.arr = b.arr.with_ups(ups)
        for bid, local, e, c in sums:
            conds = band(*[b for b in local if b not in self.defs])
            dfs = [b for b in local if b in self.defs]
            key, bvs = (e[1], ()) if e[0] == 'pt' else (e[3], e[1])
            dom, fc = (TRUE, ()) if e[0] == 'pt' else (e[2], tuple(e[5]))
            if ka.id in dom.fv or any(ka.id in x.fv for x in fc):
                raise Unsupported('accumulation over a domain that depends on the loop in %s: %s %s' % (f.name, dom, [str(x) for x in fc]))
            st2 = State()
            st2.mem = post.mem
            st2.pc = post.pc + [dom] + list(fc)
            old = self.read_arr(st2, post.mem[bid], key)
            v = mkred('sum', ka.id, N, conds, c, old)
            b = post.mem[bid] = post.mem[bid].copy()
            if e[0] == 'pt':
                b.arr = b.arr.with_ups((('pt', key, v, bid), b.arr.ups))
            else:
                b.arr = b.arr.with_ups((('bulk', bvs, dom, key, v, fc, bid), b.arr.ups))
        regs2 = dict(regs0)
        Nf = N
        if not self.entails(post.pc, ge0(N)):
            x = self.fresh_int('trip', 0, None)
            fs = [bor(eq(x, N), band(eq0(x), lt(N, ZERO)))]
            for fct in fs:
                self.defs.add(fct)
                post.assume(fct)
            Nf = x
        newcells = {}
        for key, s in sym.items():
            c = cls[key]
            i0 = init[key] if key in init else cell_init[key]
            if c[0] == 'ind':
                v = Ptr(i0.b, i0.o + c[1] * Nf) if isinstance(i0, Ptr) else i0 + c[1] * Nf
            elif c[0] == 'inv':
                v = i0
            elif c[0] in ('sum', 'max', 'min'):
                v = mkred(c[0], ka.id, N, redval[key][1], redval[key][0], i0 if isinstance(i0, R) else self.fresh_real('undef'))
            elif c[0] == 'flag' and isinstance(i0, Poly):
                # a constant is stored in some iterations: 1 in the maximum if in any
                v = iite(rlt(R0, mkred('max', ka.id, N, TRUE, redval[key], R0)), K(c[1]), i0)
            else:
                v = self.carried_symbol(i0, c[1] if len(c) > 1 else None, 'after')
                if isinstance(v, Ptr):
                    v = JUNK
                elif isinstance(v, Poly):
                    v = self.fresh_int('after')
                elif isinstance(v, R):
                    v = self.fresh_real('after')
                elif isinstance(v, B):
                    v = self.fresh_bool('after')
            if isinstance(key, tuple):
                newcells[key] = v
            else:
                regs2[key] = v
        self.set_cells(post, newcells)
        reg = Region(header, blocks, 'exit')
        res = self.run(f, [(post, regs2, header, None)], reg)
        out = []
        for o in res:
            if o[0] == 'back':
                raise Unsupported('loop exit not taken')
            out.append(o)
        return out

    def chain(self, f, bid, paths, npaths, name, k, ka, st0, dirty):
        """an integer array filled by a[k] = a[k-1] + c, a[0] = v0: closed form v0 + k c, by induction on k"""
        b = st0.mem[bid]
        fail = dependence(None, 'elements of %s are not an arithmetic progression over the iterations of a loop in %s' % (b.name, f.name))
        if len(paths) != npaths:
            raise fail
        v0 = step = None
        for local, ents, s2 in paths:
            if len(ents) != 1 or ents[0][0] != 'pt' or len(ents[0][1]) != 1:
                raise fail
            key, v = ents[0][1][0], ents[0][2]
            if not isinstance(v, Poly) or not (key is k or entails_int(s2.pc, eq(key, k))):
                raise fail
            m = {}
            for i in v.fv:
                a = ATOMS[i]
                if a.kind == 'isel' and a.args[0] == name and len(a.args[1]) == 1:
                    if a.args[1][0] is k:
                        st = State()
                        st.mem = st0.mem
                        st.pc = list(s2.pc)
                        m[i] = self.read_arr(st, b, (k,))
            if m:
                v = subst(v, m)
            if entails_int(s2.pc, eq0(k)):
                v = subst(v, {ka.id: ZERO})
                if v0 is not None and v0 is not v:
                    raise fail
                v0 = v
                continue
            if not entails_int(s2.pc, ge0(k - ONE)):
                raise fail
            prev = [i for i in v.fv if ATOMS[i].kind == 'isel' and ATOMS[i].args[0] == name and ATOMS[i].args[1] == (k - ONE,)]
            if len(prev) != 1:
                raise fail
            c = v - A(ATOMS[prev[0]])
            if dirty(c) or ka.id in c.fv or (step is not None and step is not c):
                raise fail
            step = c
        if v0 is None or step is None or dirty(v0):
            raise fail
        common = [x for x in paths[0][0] if all(any(x is y for y in p[0]) for p in paths[1:])]
        return (bid, common, ('pt', (k,), v0 + k * step))

    def merge_backs(self, f, header, backs, npc, sym, m, st_ref, dirty=None):
        """joins iteration paths that differ only in a condition on a carried value: the carried
        values become conditional values"""
        if len(backs) < 2:
            return backs
        if dirty is None:
            ints, reals, bools = set(), set(), set()
            for v in sym.values():
                if isinstance(v, Poly):
                    ints |= v.fv
                elif isinstance(v, R):
                    reals |= v.rv
                elif isinstance(v, B):
                    bools.add(v)

            def dirty(b):
                return bool(b.fv & ints) or bool(brv(b) & reals) or any(y in bools for y in bsubs(b))
        backs = list(backs)
        again = True
        while again and len(backs) > 1:
            again = False
            for i in range(len(backs)):
                for j in range(i + 1, len(backs)):
                    p, q = backs[i][1].pc, backs[j][1].pc
                    if len(p) != len(q):
                        continue
                    d = [n for n in range(len(p)) if p[n] is not q[n] and p[n] != q[n]]
                    if len(d) != 1 or d[0] < npc:
                        continue
                    b, nb = p[d[0]], q[d[0]]
                    if not dirty(b) or bnot(b) != nb:
                        continue
                    o = self.join(f, header, backs[i], backs[j], b, d[0], sym, m, st_ref)
                    if o is None:
                        continue
                    backs[i] = o
                    del backs[j]
                    again = True
                    break
                if again:
                    break
        return backs

    def join(self, f, header, o1, o2, b, pos, sym, m, st_ref):
        s1, s2 = o1[1], o2[1]
        for bid in st_ref.mem:
            x, y = s1.mem.get(bid), s2.mem.get(bid)
            if x is y:
                continue
            if x is None or y is None or x.alive != y.alive:
                return None
            if (x.arr is None) != (y.arr is None):
                return None
            if x.arr is not None and (x.arr.ups is not y.arr.ups or x.arr.base != y.arr.base):
                return None
        vals = {}
        for key in sym:
            try:
                v1, v2 = self.next_of(f, header, o1, key, m), self.next_of(f, header, o2, key, m)
                if v1 is v2 or (v1 == v2 and type(v1) == type(v2)):
                    vals[key] = v1
                elif isinstance(v1, (R, Poly, B)) and isinstance(v2, (R, Poly, B)):
                    vals[key] = self.vite(b, v1, v2)
                else:
                    return None
            except Unsupported:
                return None
        st = s1.copy()
        st.pc = list(s1.pc[:pos]) + list(s1.pc[pos + 1:])
        return (o1[0], st, o1[2], o1[3], vals)

    def next_of(self, f, header, o, key, m):
        if len(o) > 4 and key in o[4]:
            return o[4][key]
        if isinstance(key, tuple):
            v = self.get_cell(o[1], key)
            return v
        for ph in f.blocks[header].phis:
            if ph.res == key:
                for v, src in ph.a:
                    if src == o[3]:
                        return self.val(o[2], v, ph.ty, m)
        raise Unsupported('phi')

    def classify(self, key, s, nexts, sym, f):
        if s is JUNK or not nexts:
            v1 = nexts[0] if nexts else None
            return ('junk', v1)
        if all(n is s or n == s for n in nexts):
            return ('inv',)
        if isinstance(s, Ptr):
            if all(isinstance(n, Ptr) and n.b == s.b for n in nexts):
                d = {n.o - s.o for n in nexts}
                if len(d) == 1:
                    d = d.pop()
                    if self.loop_inv(d, sym):
                        return ('ind', d)
            return ('junk', nexts[0])
        if isinstance(s, Poly):
            if all(isinstance(n, Poly) for n in nexts):
                d = {n - s for n in nexts}
                if len(d) == 1:
                    d = d.pop()
                    if self.loop_inv(d, sym):
                        return ('ind', d)
                vals = set()
                if all(flag_next(n, s, vals) is not None for n in nexts) and len(vals) == 1:
                    return ('flag', vals.pop())
            return ('junk', nexts[0])
        if isinstance(s, R):
            kinds = set()
            for n in nexts:
                if n is s:
                    continue
                r = match_red(n, s)
                if r is None:
                    return ('junk', n)
                kinds.add(r[0])
            if len(kinds) == 1:
                return (kinds.pop(),)
            return ('junk', nexts[0])
        return ('junk', nexts[0])

    def loop_inv(self, p, sym):
        ids = set()
        for s in sym.values():
            if isinstance(s, Poly):
                ids |= s.fv
            elif isinstance(s, Ptr):
                ids |= s.o.fv
        if p.fv & ids:
            return False
        # symbols created inside the body?
        for i in p.fv:
            a = ATOMS[i]
            if a.kind == 'sym' and '!' in a.args[0] and a.args[0].split('!')[0] in ('undef', 'trip'):
                return False
        return True

    def red_contrib(self, kind, s, nexts, npc, st):
        """contribution of one iteration: (body term, condition)"""
        body = None
        for o, n in nexts:
            conds = band(*[b for b in o[1].pc[npc:] if b not in self.defs])
            if n is s:
                e = IDENT[kind]
            else:
                r = match_red(n, s)
                if r is None or r[0] != kind:
                    raise Unsupported('reduction not confirmed')
                e = r[1]
            if s.a[0] in e.rv:
                raise Unsupported('reduction body uses the accumulator')
            body = e if body is None else (conds, e, body)
            if isinstance(body, tuple):
                body = rite(body[0], body[1], body[2])
        return body, TRUE

    def trip(self, st, cont, ka, header, where):
        """number of iterations N as Poly (<=0 means none) + facts"""
        if where != header:
            # the exit is taken after part of the body: allowed only if that part has no effect, which
            # holds when the header dominates it without memory writes -- refused for simplicity
            pass
        c = cont
        if c is FALSE:
            return ZERO, []
        if self.entails(st.pc, bnot(subst(c, {ka.id: ZERO}))):
            return ZERO, []
        parts = c.a if c.op == 'and' else (c,)
        invs = [x for x in parts if ka.id not in x.fv]
        vars_ = [x for x in parts if ka.id in x.fv]
        if len(vars_) == 1 and all(self.entails(st.pc, x) for x in invs):
            v = vars_[0]
            if v.op == 'ge0':
                l = v.a[0].linear_in(ka.id)
                if l is not None and l[0] < 0:
                    a, b = -l[0], l[1]
                    # a*k <= b  -> N = floor(b/a)+1
                    if a == 1:
                        return b + ONE, []
                    q = b.divexact(a)
                    if q is not None:
                        return q + ONE, []
                    N = self.fresh_int('N')
                    # a*(N-1) <= b < a*N
                    fs = [le((N - ONE).scale(a), b), lt(b, N.scale(a))]
                    return N, fs
                if l is not None and l[0] >= 0:
                    raise Unsupported('loop whose condition never fails')
                # coefficient symbolic: e.g. p + k*M < 0
                N = self.fresh_int('N', 0, None)
                f1 = bnot(subst(c, {ka.id: N}))
                f2 = bor(eq0(N), band(subst(c, {ka.id: N - ONE}), subst(c, {ka.id: ZERO})))
                self.note('loops with a symbolic stride terminate')
                return N, [f1, f2]
            if v.op == 'not' and v.a[0].op == 'eq0':
                l = v.a[0].a[0].linear_in(ka.id)
                if l is not None:
                    a, b = l
                    if abs(a) == 1:
                        N = b.scale(-a)
                    else:
                        N = (-b).divexact(a)
                        if N is None:
                            N = self.fresh_int('N', 0, None)
                            fct = [eq(N.scale(a) + b, ZERO)]
                            self.note('pointer ranges are whole multiples of the element size')
                            return N, fct
                    if not self.entails(st.pc, ge0(N)):
                        self.oblige(st, 'loop bound is reached (range is well formed)', ge0(N), 'bounds')
                        st.assume(ge0(N))
                    return N, []
        N = self.fresh_int('N', 0, None)
        f1 = bnot(subst(c, {ka.id: N}))
        f2 = bor(eq0(N), band(subst(c, {ka.id: N - ONE}), subst(c, {ka.id: ZERO})))
        self.note('loops with a general exit condition terminate')
        return N, [f1, f2]

    def check_independent(self, st0, f, ka, rec, writes, npc):
        """iterations are independent: no iteration touches a cell another one writes"""
        if not writes:
            return ()
        k = A(ka)
        k2a = atom('sym', (fresh_name("k'"), ()), 0, None)
        k2 = A(k2a)
        ren = []
        for (bid, local, e) in writes:
            m = {ka.id: k2}
            if e[0] == 'bulk':
                for v in e[1]:
                    m[v] = A(atom('sym', (fresh_name("b'"), ()), ATOMS[v].lo, ATOMS[v].hi))
                key = tuple(subst(x, m) for x in e[3])
                dom = [subst(e[2], m)] + [subst(x, m) for x in e[5]]
            else:
                key = tuple(subst(x, m) for x in e[1])
                dom = []
            dom += [subst(b, m) for b in local]
            ren.append((bid, key, dom, e, local))
        base = list(st0.pc)

        def disjoint(bid, key1, pc1, key2, dom2, order):
            b = st0.mem[bid] if bid in st0.mem else None
            c = self.key_cmp(st0, b, key1, key2)
            if c is FALSE:
                return True
            q = pc1 + [x for x in dom2 if x not in pc1] + [order, c]
            q = [x for x in q if not x.real]
            if FALSE in q:
                return True
            if check(q, 2000) == 'unsat':
                return True
            return check(q, 2000, nl=True) == 'unsat'
        seen = set()
        for (bid, key, pc) in rec.reads:
            for (wb, wkey, dom, e, _l) in ren:
                if wb != bid:
                    continue
                sig = (bid, key, id(e), frozenset(pc))
                if sig in seen:
                    continue
                seen.add(sig)
                for order in (lt(k2, k), lt(k, k2)):
                    if not disjoint(bid, key, list(pc), wkey, dom, order):
                        raise dependence(bid, 'iterations of a loop in %s are not independent: read %s vs write %s of %s' % (f.name, key, wkey, st0.mem[bid].name))
        scratch = set()

        def private(bid):
            """no iteration reads what was there before it"""
            for (rb, key, pc) in rec.reads:
                if rb == bid:
                    q = [x for x in pc if not x.real]
                    if FALSE not in q and check(q, 2000) != 'unsat':
                        return False
            return True
        for i, (bid, local, e) in enumerate(writes):
            if bid in scratch:
                continue
            key1 = e[1] if e[0] == 'pt' else e[3]
            pc1 = base + local + ([] if e[0] == 'pt' else [e[2]] + list(e[5]))
            for (wb, wkey, dom, e2, _l) in ren[i:]:
                if wb != bid:
                    continue
                for order in (lt(k2, k), lt(k, k2)):
                    if bid not in scratch and not disjoint(bid, key1, pc1, wkey, dom, order):
                        if private(bid):
                            scratch.add(bid)
                            continue
                        raise dependence(bid, 'iterations of a loop in %s write the same cell %s / %s of %s' % (f.name, key1, wkey, st0.mem[bid].name))

    # ---------------------------------------------------------------- calls
        return scratch

    def do_call(self, st, regs, x, m):
        callee, args = x.a[0], x.a[1]
        vals = []
        for t, a, at in args:
            v = self.val(regs, a, t, m)
            if 'byval' in at:
                pass
            vals.append(v)
        if callee[0] == 'g':
            name = callee[1]
        else:
            fv = self.val(regs, callee, ('ptr',), m)
            if isinstance(fv, Fn):
                return self.call_fn(st, fv, vals, x, m)
            raise Unsupported('indirect call through %r' % (fv,))
        if name.startswith('llvm.'):
            return self.llvm(st, name, vals, x, m, args)
        return self.call_name(st, name, vals, m, x.ty)

    def call_fn(self, st, fv, vals, x, m):
        return self.call_name(st, fv.name, vals, fv.mod, x.ty)

    def intrinsic(self, name):
        return INTRINSICS.get(name)

    def llvm(self, st, name, v, x, m, args):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            self.memcpy(st, v[0], v[1], v[2])
            return [(st, None)]
        if name.startswith('llvm.memset'):
            self.memset(st, v[0], v[1], v[2])
            return [(st, None)]
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.va_', 'llvm.stackrestore', 'llvm.prefetch')):
            return [(st, None)]
        if name.startswith('llvm.assume'):
            return [(st, None)]
        if name.startswith('llvm.stacksave'):
            return [(st, NULL)]
        if name.startswith('llvm.expect'):
            return [(st, v[0])]
        if name.startswith('llvm.trap'):
            raise PathEnd()
        base = name.split('.')[1]
        if base in ('fabs', 'sqrt', 'pow', 'exp', 'log', 'floor', 'ceil', 'sin', 'cos', 'round', 'trunc', 'rint', 'nearbyint', 'exp2', 'log2', 'log10'):
            return [(st, self.mathfn(base, v))]
        if base == 'powi':
            return [(st, self.mathfn('pow', [v[0], i2r(v[1])]))]
        if base in ('maxnum', 'maximum'):
            return [(st, rmaxi(*self.reals(v)))]
        if base in ('minnum', 'minimum'):
            return [(st, rmini(*self.reals(v)))]
        if base == 'copysign':
            a, b = self.reals(v)
            return [(st, rite(rlt(b, R0), rneg(rabs(a)), rabs(a)))]
        if base in ('fmuladd', 'fma'):
            a, b, c = self.reals(v)
            return [(st, radd(rmul(a, b), c))]
        if base in ('smax', 'smin', 'umax', 'umin'):
            a, b = v
            if base[0] == 'u':
                a, b = self.uns(st, a, x.ty[1]), self.uns(st, b, x.ty[1])
            c = lt(a, b)
            d = self.decide(st, c)
            if base.endswith('min'):
                a, b = b, a
            if d is not None:
                return [(st, b if d else a)]
            return [(st, iite(c, b, a))]
        if base == 'abs':
            c = lt(v[0], ZERO)
            d = self.decide(st, c)
            if d is not None:
                return [(st, -v[0] if d else v[0])]
            return [(st, iite(c, -v[0], v[0]))]
        if base in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub'):
            op = base[1:]
            r = self.binop(st, op, v[0], v[1], args[0][0])
            if base == 'usub':
                ov = lt(self.uns(st, v[0], 64), self.uns(st, v[1], 64))
            else:
                ov = FALSE
            return [(st, Agg([r, ov]))]
        if base == 'is' and 'constant' in name:
            return [(st, FALSE)]
        if base == 'objectsize':
            return [(st, K(-1))]
        if base == 'threadlocal':
            return [(st, v[0])]
        if base in ('ctpop', 'ctlz', 'cttz') and isinstance(v[0], Poly) and v[0].const() is not None:
            c = v[0].const() & ((1 << x.ty[1]) - 1)
            if base == 'ctpop':
                return [(st, K(bin(c).count('1')))]
            if base == 'ctlz':
                return [(st, K(x.ty[1] - c.bit_length()))]
            return [(st, K((c & -c).bit_length() - 1 if c else x.ty[1]))]
        if base == 'eh':
            return [(st, ONE)]
        if base == 'is' and 'fpclass' in name:
            k = v[1].const()
            a = v[0]
            if a is UNDEF:
                a = self.fresh_real('undef')
            if a is NAN:
                t = k & 3
            elif a is PINF:
                t = k & 512
            elif a is NINF:
                t = k & 4
            elif k & 504 == 504:
                t = True
            elif k & 504 == 0:
                t = False
            elif k & 504 == 264:
                return [(st, bnot(req(a, R0)))]
            else:
                raise Unsupported('fpclass %d' % k)
            return [(st, TRUE if t else FALSE)]
        raise Unsupported('intrinsic ' + name)

    def reals(self, vs):
        return [self.fresh_real('undef') if x is UNDEF else x for x in vs]

    def mathfn(self, nm, v):
        v = self.reals(v)
        if nm == 'fabs':
            return rabs(v[0])
        if nm == 'sqrt':
            return self.monomial_fn(v[0], 'sqrt') or rsqrt(v[0])
        if nm in ('round', 'rint', 'nearbyint', 'trunc', 'floor', 'ceil'):
            if v[0].op == 'i2r':
                return v[0]
            if v[0].op == 'c':
                q = v[0].a[0]
                if nm == 'floor':
                    return rc(math.floor(q))
                if nm == 'ceil':
                    return rc(math.ceil(q))
                if nm == 'trunc':
                    return rc(int(q))
                if nm == 'round':
                    return rc(int(abs(q) + Fraction(1, 2)) * (1 if q >= 0 else -1))
            return rapp(nm, v)
        if nm == 'pow':
            b, e = v
            if e.op == 'c':
                q = e.a[0]
                if q.denominator == 1 and abs(q) <= 8:
                    r = R1
                    for _ in range(abs(int(q))):
                        r = rmul(r, b)
                    return r if q >= 0 else rdiv(R1, r)
                if q == Fraction(1, 2):
                    return rsqrt(b)
            if b is R1:
                return R1
            return rapp('pow', [b, e])
        if nm == 'log' and v[0] is R1:
            return R0
        if nm == 'log' and v[0].op != 'var':
            x = self.monomial_fn(v[0], 'log')
            if x is not None:
                return x
        if nm == 'exp' and v[0] is R0:
            return R1
        return rapp(nm, v)

    def monomial_fn(self, a, fn):
        """sqrt / log of a product of powers of positive inputs: sqrt(x^2) = x, log(x^a y^b) = a log x + b log y"""
        if not self.positive or a.op not in ('mul', 'div') or size_term(a) > 400:
            return None
        import prove as PV
        ctx = PV.NF()
        try:
            n, d, k = ctx.nf(a)

            def positive(poly):
                return all(c > 0 and all(ctx.nodes[i] in self.positive for i, _ in m) for m, c in poly.items())
            if k != 1 or len(n) != 1 or not positive(n):
                return None
            for x in ctx.dens:
                dn, dd, dk = ctx.nf(x)
                if not positive(dn) or not all(positive(dict(f)) for f in dd):
                    return None
        except (PV.TooBig, PV.DivZero):
            return None
        (m, c), = n.items()
        if c != 1:
            return None
        es = [(ctx.nodes[i], e) for i, e in m]
        for f, e in d.items():
            if len(f) != 1:
                return None
            (fm, fc), = f
            if fc != 1 or not positive(dict(f)):
                return None
            es += [(ctx.nodes[i], -e * e2) for i, e2 in fm]
        if fn == 'sqrt':
            if any(e % 2 for _, e in es):
                return None
            num = den = R1
            for v, e in es:
                for _ in range(abs(e) // 2):
                    if e > 0:
                        num = rmul(num, v)
                    else:
                        den = rmul(den, v)
            return num if den is R1 else rdiv(num, den)
        r = R0
        for v, e in es:
            r = radd(r, rmul(rc(e), rapp('log', [v])))
        return r

    def external(self, st, name, args, mod, rt):
        for rx, h in EXTERNALS:
            if rx.match(name):
                return h(self, st, args, mod, rt, name)
        raise Unsupported('call to external function %s' % name)


class PathEnd(Exception):
    pass


class MoreCells(Exception):
    def __init__(self, cells):
        self.cells = cells


class RestartArr(Exception):
    def __init__(self, bid, arr):
        self.bid = bid
        self.arr = arr


class Dependence(Unsupported):
    bid = None


def dependence(bid, text):
    e = Dependence(text)
    e.bid = bid
    return e


NAN = mkr('nan', ())
PINF = mkr('pinf', ())
NINF = mkr('ninf', ())
IDENT = {'sum': R0, 'max': NINF, 'min': PINF}


def ATOM_IDS(a):
    return ()


def bsubs(b):
    yield b
    for x in b.a:
        if isinstance(x, B):
            yield from bsubs(x)


def subst_val(v, m):
    if isinstance(v, (Poly, B, R)):
        return subst(v, m)
    if isinstance(v, Ptr):
        return Ptr(v.b, subst(v.o, m))
    if isinstance(v, Agg):
        return Agg([subst_val(x, m) for x in v.v])
    return v


def rebid(ups, bid):
    return ups


def poly_div_mono(a, b):
    """a / b for a monomial b, exact, else None"""
    (m, c), = b.t.items()
    out = {}
    for mm, cc in a.t.items():
        if cc % c:
            return None
        l = list(mm)
        for i in m:
            if i in l:
                l.remove(i)
            else:
                return None
        out[tuple(l)] = cc // c
    return mkpoly(out)


def rmaxi(a, b):
    if a is NINF:
        return b
    if b is NINF:
        return a
    return rmax(a, b)


def rmini(a, b):
    if a is PINF:
        return b
    if b is PINF:
        return a
    return rmin(a, b)


def live_entries(ents):
    """the updates of an array (newest first) without those which a newer one overwrites altogether"""
    out, seen = [], set()
    for e in ents:
        if e[0] == 'pt':
            k = ('pt', e[1])
        else:
            m = {v: A(atom('bve', (i,))) for i, v in enumerate(e[1])}
            k = ('bulk', len(e[1]), subst(e[3], m), subst(e[2], m)) if not e[5] else None
        if k is not None and k in seen:
            continue
        seen.add(k)
        out.append(e)
    return out


def flag_next(n, s, vals):
    """n is s or a constant (collected in vals), decided by conditions: 1 where it is the constant, 0 where it is s"""
    if n is s or n == s:
        return R0
    c = n.const()
    if c is not None:
        vals.add(c)
        return R1
    a = single_atom(n)
    if a is None or a.kind != 'ite':
        return None
    b, x, y = a.args
    x, y = flag_next(x, s, vals), flag_next(y, s, vals)
    if x is None or y is None:
        return None
    if b.op == 'rlt' and b.a[0] is R0 and x is R1 and y is R0 and is_flag(b.a[1]):
        return b.a[1]
    return rite(b, x, y)


def is_flag(x):
    """a maximum of values 0 and 1"""
    if x.op == 'red':
        return x.a[0] == 'max' and x.a[5] is R0 and is_flag(x.a[4])
    if x.op == 'ite':
        return is_flag(x.a[1]) and is_flag(x.a[2])
    return x is R0 or x is R1


def match_red(n, s):
    """n as an update of accumulator s: (kind, contribution) or None"""
    if n is s:
        return ('id', None)
    o = n.op
    name = s.a[0]
    if name not in n.rv:
        return None
    if o == 'red':
        kind, bv, cnt, cond, body, init = n.a
        if name in body.rv:
            return None
        r = match_red(init, s)
        if r is None:
            return None
        inner = mkr('red', (kind, bv, cnt, cond, body, IDENT[kind]))
        if r[0] == 'id':
            return (kind, inner)
        if r[0] != kind:
            return None
        if kind == 'sum':
            return (kind, radd(r[1], inner))
        return (kind, (rmaxi if kind == 'max' else rmini)(r[1], inner))
    if o == 'add':
        a, b = n.a
        for x, y in ((a, b), (b, a)):
            if name in x.rv and name not in y.rv:
                r = match_red(x, s)
                if r is None:
                    continue
                if r[0] == 'id':
                    return ('sum', y)
                if r[0] == 'sum':
                    return ('sum', radd(r[1], y))
        return None
    if o == 'ite':
        c, a, b = n.a
        if c.op in ('rlt', 'rle'):
            x, y = c.a
            # (x<y) ? y : x = max ; (x<y) ? x : y = min
            if (a, b) == (y, x):
                kind = 'max'
            elif (a, b) == (x, y):
                kind = 'min'
            else:
                return None
            for u, v in ((x, y), (y, x)):
                if name in u.rv and name not in v.rv:
                    r = match_red(u, s)
                    if r is None:
                        return None
                    if r[0] == 'id':
                        return (kind, v)
                    if r[0] == kind:
                        return (kind, (rmaxi if kind == 'max' else rmini)(r[1], v))
    return None


# ======================================================================= specification functions
def cstr(E, st, p):
    b = E.blk(st, p)
    o = p.o.const()
    out = []
    while True:
        v = E.read_cells(st, b, o, 1, ('i', 8))
        c = v.const()
        if not c:
            break
        out.append(chr(c & 255))
        o += 1
    return ''.join(out)


def av_int(E, st, a, mod, rt):
    nm = cstr(E, st, a[0])
    lo, hi = a[1].const(), a[2].const()
    # symbolic bounds become assumptions
    v = isym(nm, lo, hi)
    E.inputs[nm] = v
    if lo is None:
        st.assume(le(a[1], v))
    if hi is None:
        st.assume(le(v, a[2]))
    return [(st, v)]


def av_real(E, st, a, mod, rt):
    nm = cstr(E, st, a[0])
    v = rvar(nm)
    E.inputs[nm] = v
    return [(st, v)]


def av_bool(E, st, a, mod, rt):
    nm = cstr(E, st, a[0])
    v = bsym(nm)
    E.inputs[nm] = v
    return [(st, iite(v, ONE, ZERO))]


def tobool(E, v):
    if isinstance(v, B):
        return v
    return bnot(eq0(v))


def av_assume(E, st, a, mod, rt):
    b = tobool(E, a[0])
    if not st.assume(b):
        return []
    return [(st, None)]


def av_assert(E, st, a, mod, rt):
    E.oblige(st, cstr(E, st, a[0]), tobool(E, a[1]))
    return [(st, None)]


def av_eq(E, st, a, mod, rt):
    x, y = E.reals(a[1:3])
    E.oblige(st, cstr(E, st, a[0]), req(x, y))
    return [(st, None)]


def av_le(E, st, a, mod, rt):
    x, y = E.reals(a[1:3])
    E.oblige(st, cstr(E, st, a[0]), rle(x, y))
    return [(st, None)]


def av_lt(E, st, a, mod, rt):
    x, y = E.reals(a[1:3])
    E.oblige(st, cstr(E, st, a[0]), rlt(x, y))
    return [(st, None)]


def av_cover(E, st, a, mod, rt):
    nm = cstr(E, st, a[0])
    E.covers.setdefault(nm, []).append(list(st.pc))
    return [(st, None)]


def av_array(E, st, a, mod, rt):
    """av_array(double* p, name, nx, ny, nz): arbitrary contents, logical shape nx*ny*nz"""
    p = a[0]
    nm = cstr(E, st, a[1])
    b = E.blk(st, p, True)
    if p.o is not ZERO:
        raise Unsupported('av_array inside a block')
    dims = (a[2], a[3], a[4])
    E.shapes[dims[0] * dims[1] * dims[2]] = dims
    b.dims = dims
    b.cells = {}
    b.zero = ()
    b.arr = Arr(8, ('double',), dims, ('sym', nm), None)
    b.name = nm
    E.inputs[nm] = 'array'
    return [(st, None)]


def av_iarray(E, st, a, mod, rt):
    """av_iarray(int* p, name, n, lo, hi): arbitrary ints"""
    p = a[0]
    nm = cstr(E, st, a[1])
    b = E.blk(st, p, True)
    b.dims = None
    b.cells = {}
    b.zero = ()
    b.arr = Arr(4, ('i', 32), None, ('sym', nm, a[3].const(), a[4].const()), None)
    b.name = nm
    return [(st, None)]


def av_dims(E, st, a, mod, rt):
    p = a[0]
    E.set_dims(st, p, (a[1], a[2], a[3]))
    return [(st, None)]


def av_fun(E, st, a, mod, rt):
    nm = cstr(E, st, a[0])
    return [(st, rapp('u_' + nm, E.reals(a[2:])))]


def av_shape(E, st, a, mod, rt):
    E.shapes[a[0] * a[1] * a[2]] = tuple(a[:3])
    return [(st, None)]


def av_clone(E, st, a, mod, rt):
    """snapshot of an array block"""
    b = E.blk(st, a[0])
    p = E.alloc(st, b.size, 'heap', 'old_' + b.name)
    nb = st.mem[p.b]
    nb.cells = dict(b.cells)
    nb.zero = b.zero
    nb.arr = b.arr
    nb.dims = b.dims
    return [(st, Ptr(p.b, ZERO))]


def av_range(E, st, a, mod, rt):
    [(st, v)] = av_real(E, st, a[:1], mod, rt)
    st.assume(rle(a[1], v))
    st.assume(rle(v, a[2]))
    return [(st, v)]


def av_pos(E, st, a, mod, rt):
    [(st, v)] = av_real(E, st, a[:1], mod, rt)
    st.assume(rlt(R0, v))
    E.positive.add(v)
    return [(st, v)]


def av_nothrow(E, st, a, mod, rt):
    E.oblige(st, cstr(E, st, a[0]), TRUE)
    st.statics['nothrow'] = cstr(E, st, a[0])
    return [(st, None)]


def av_maythrow(E, st, a, mod, rt):
    st.statics['nothrow'] = None
    return [(st, None)]


def av_throw(E, st, a, mod, rt):
    if st.statics.get('nothrow') and E.feasible(st):
        E.oblige(st, st.statics['nothrow'], FALSE)
    E.throws.append((list(st.pc), ' <- '.join(E.callstack[-3:][::-1])))
    return []


def av_stop(E, st, a, mod, rt):
    return []


def av_print(E, st, a, mod, rt):
    if E.opts.get('debug'):
        print('PRINT', cstr(E, st, a[0]), a[1:])
    return [(st, None)]


def av_is_const(E, st, a, mod, rt):
    return [(st, ONE)]


def to_string_double(E, st, a, mod, rt):
    """std::to_string of a known number, written as the short string it is"""
    if not isinstance(a[1], R) or a[1].op != 'c':
        raise Unsupported('to_string of an unknown number')
    t = ('%f' % float(a[1].a[0])).encode()
    if len(t) > 15:
        raise Unsupported('to_string of a long number')
    p = a[0]
    E.store(st, p, ('ptr',), Ptr(p.b, p.o + K(16)), mod)
    E.store(st, Ptr(p.b, p.o + K(8)), ('i', 64), K(len(t)), mod)
    for i, ch in enumerate(t + b'\0'):
        E.store(st, Ptr(p.b, p.o + K(16 + i)), ('i', 8), K(ch), mod)
    return [(st, None)]


INTRINSICS = {
    '_ZNSt7__cxx119to_stringEd': to_string_double,
    'av_int': av_int, 'av_real': av_real, 'av_bool': av_bool, 'av_assume': av_assume, 'av_assert': av_assert,
    'av_eq': av_eq, 'av_le': av_le, 'av_lt': av_lt, 'av_cover': av_cover, 'av_array': av_array, 'av_dims': av_dims,
    'av_fun': av_fun, 'av_clone': av_clone, 'av_throw': av_throw, 'av_stop': av_stop, 'av_print': av_print,
    'av_shape': av_shape, 'av_iarray': av_iarray, 'av_range': av_range, 'av_pos': av_pos, 'av_nothrow': av_nothrow, 'av_maythrow': av_maythrow,
}


# ======================================================================= external functions (assumed contracts)
def x_new(E, st, a, mod, rt, name):
    return [(st, E.alloc(st, a[0], 'heap', 'heap%d' % (E.nblk + 1)))]


def x_delete(E, st, a, mod, rt, name):
    p = a[0]
    if isinstance(p, Ptr) and p.b is not None:
        b = E.blk(st, p, True)
        b.alive = False
    return [(st, None)]


def x_nop(E, st, a, mod, rt, name):
    return [(st, None)]


def x_arg0(E, st, a, mod, rt, name):
    return [(st, a[0])]


def x_zero(E, st, a, mod, rt, name):
    return [(st, ZERO)]


def x_one(E, st, a, mod, rt, name):
    return [(st, ONE)]


def x_throw(E, st, a, mod, rt, name):
    return av_throw(E, st, a, mod, rt)


def x_end(E, st, a, mod, rt, name):
    return []


def x_math(E, st, a, mod, rt, name):
    nm = name.rstrip('f') if name in ('sqrtf', 'powf', 'fabsf', 'logf', 'expf') else name
    if nm == 'fmax':
        return [(st, rmax(*E.reals(a)))]
    if nm == 'fmin':
        return [(st, rmin(*E.reals(a)))]
    return [(st, E.mathfn(nm, a))]


def x_strlen(E, st, a, mod, rt, name):
    return [(st, K(len(cstr(E, st, a[0]))))]


def x_memcmp(E, st, a, mod, rt, name):
    n = a[2].const()
    if n is None:
        raise Unsupported('memcmp symbolic length')
    ba, bb = E.blk(st, a[0]), E.blk(st, a[1])
    oa, ob = a[0].o.const(), a[1].o.const()
    for i in range(n):
        x = E.read_cells(st, ba, oa + i, 1, ('i', 8))
        y = E.read_cells(st, bb, ob + i, 1, ('i', 8))
        x, y = x.const(), y.const()
        if x is None or y is None:
            raise Unsupported('memcmp symbolic')
        x &= 255
        y &= 255
        if x != y:
            return [(st, K(-1 if x < y else 1))]
    return [(st, ZERO)]


def x_memcpy(E, st, a, mod, rt, name):
    E.memcpy(st, a[0], a[1], a[2])
    return [(st, a[0])]


def x_memset(E, st, a, mod, rt, name):
    E.memset(st, a[0], a[1], a[2])
    return [(st, a[0])]


def x_guard_acquire(E, st, a, mod, rt, name):
    p = a[0]
    key = ('guard', p.b)
    if st.statics.get(key):
        return [(st, ZERO)]
    st.statics[key] = True
    b = E.blk(st, p, True)
    b.cells[0] = (1, ONE)
    return [(st, ONE)]


def x_strcmp(E, st, a, mod, rt, name):
    x, y = cstr(E, st, a[0]), cstr(E, st, a[1])
    return [(st, K(0 if x == y else (-1 if x < y else 1)))]


def rb_next(E, st, a, mod, rt, name):
    raise Unsupported(name)


def x_fresh(E, st, a, mod, rt, name):
    E.note('external function %s: arbitrary result' % name)
    return [(st, E.fresh_of(rt, 'ext') if rt and rt[0] != 'void' else None)]


def x_thread_start(E, st, a, mod, rt, name):
    """std::thread(f): the two extreme schedules - f runs before anything else, or only when it is joined"""
    th, up = a[0], a[1]
    state = E.load(st, up, ('ptr',), mod)
    E.store(st, up, ('ptr',), Ptr(None, ZERO), mod)
    vt = E.load(st, state, ('ptr',), mod)
    fn = E.load(st, Ptr(vt.b, vt.o + K(16)), ('ptr',), mod)
    E.store(st, th, ('i', 64), K(E.nblk + 1), mod)
    E.note('std::thread: schedules in which the thread runs entirely before its creator continues, or entirely at join')
    late = st.copy()
    c = E.fresh_bool('thread_first')
    out = []
    if st.assume(c):
        for s2, _ in E.call_name(st, fn.name, [state], fn.mod, ('void',)):
            s2.statics[('thread', th)] = None
            out.append((s2, None))
    if late.assume(bnot(c)):
        late.statics[('thread', th)] = (fn, state)
        out.append((late, None))
    return out


def x_dynamic_cast(E, st, a, mod, rt, name):
    """dynamic_cast by the run time type information of the Itanium ABI (public, non-virtual bases)"""
    p, dst = a[0], a[2]
    if p is NULL or (isinstance(p, Ptr) and p.b is None):
        return [(st, NULL)]
    vptr = E.load(st, p, ('ptr',), mod)
    ti = E.load(st, Ptr(vptr.b, vptr.o - K(8)), ('ptr',), mod)
    top = E.load(st, Ptr(vptr.b, vptr.o - K(16)), ('i', 64), mod)
    if isinstance(top, Ptr) and top.b is None:
        top = top.o
    if top is NULL or not isinstance(top, Poly) or top.const() is None:
        raise Unsupported('dynamic_cast %r' % (top,))
    want = E.blk(st, dst).name
    found = set()

    def walk(t, off):
        b = E.blk(st, t)
        if b.name == want:
            found.add(off)
            return
        kind = E.blk(st, E.load(st, t, ('ptr',), mod)).name
        if '__si_class' in kind:
            walk(E.load(st, Ptr(t.b, t.o + K(16)), ('ptr',), mod), off)
        elif '__vmi_class' in kind:
            n = E.load(st, Ptr(t.b, t.o + K(20)), ('i', 32), mod).const()
            for i in range(n):
                fl = E.load(st, Ptr(t.b, t.o + K(24 + 16 * i + 8)), ('i', 64), mod).const()
                if fl & 1:
                    raise Unsupported('dynamic_cast through a virtual base')
                if fl & 2:
                    walk(E.load(st, Ptr(t.b, t.o + K(24 + 16 * i)), ('ptr',), mod), off + (fl >> 8))
        elif '__class_type' not in kind:
            raise Unsupported('dynamic_cast: ' + kind)
    walk(ti, 0)
    if len(found) != 1:
        return [(st, NULL)]
    return [(st, Ptr(p.b, p.o + K(top.const() + found.pop())))]


def x_thread_join(E, st, a, mod, rt, name):
    th = a[0]
    p = st.statics.pop(('thread', th), None)
    E.store(st, th, ('i', 64), ZERO, mod)
    if p is None:
        return [(st, None)]
    fn, state = p
    return [(s2, None) for s2, _ in E.call_name(st, fn.name, [state], fn.mod, ('void',))]


EXTERNALS = [(re.compile(r + '$'), h) for r, h in [
    (r'_Znwm|_Znam|malloc|_ZnwmSt11align_val_t|_ZnwmRKSt9nothrow_t', x_new),
    (r'_ZdlPv|_ZdaPv|_ZdlPvm|_ZdaPvm|free|_ZdlPvmSt11align_val_t|_ZdlPvSt11align_val_t|_ZdlPvRKSt9nothrow_t', x_delete),
    (r'__cxa_throw|__cxa_rethrow|_ZSt\d+__throw_\w+', x_throw),
    (r'__cxa_allocate_exception', x_new),
    (r'__cxa_free_exception|__cxa_end_catch|__cxa_guard_release|__cxa_guard_abort', x_nop),
    (r'__cxa_atexit', x_zero),
    (r'__cxa_guard_acquire', x_guard_acquire),
    (r'_ZSt9terminatev|abort|exit|__assert_fail|__clang_call_terminate|__cxa_pure_virtual|__cxa_bad_cast|_ZSt21__glibcxx_assert_failPKciS0_S0_', x_throw),
    (r'sqrt|pow|fabs|log|exp|floor|ceil|fmax|fmin|sin|cos|round|trunc|log2|exp2|log10|tan|atan|tanh|cosh|sinh|sqrtf|powf|fabsf|logf|expf', x_math),
    (r'strlen', x_strlen), (r'memcmp|bcmp', x_memcmp), (r'memcpy|memmove', x_memcpy), (r'memset', x_memset),
    (r'strcmp', x_strcmp),
    (r'_ZNSt8ios_base4InitC[12]Ev|_ZNSt8ios_base4InitD[12]Ev', x_nop),
    (r'_ZNSo\w+|_ZStls\w+|_ZSt4endl\w*|_ZSt5flush\w*', x_arg0),
    (r'printf|puts|putchar|fprintf', x_zero),
    (r'omp_get_max_threads|omp_get_num_threads', x_one),
    (r'omp_get_thread_num', x_zero),
    (r'pthread_\w+|__pthread_key_create|__gthrw\w*', x_zero),
    (r'omp_get_wtime|time|clock', x_fresh),
    (r'__dynamic_cast', x_dynamic_cast),
    (r'_ZNSt6thread15_M_start_threadE\w+', x_thread_start), (r'_ZNSt6thread4joinEv', x_thread_join),
]]
