"""Lazy parser for the textual LLVM IR (clang-18, opaque pointers) that is the
verified text.  Only the functions that are reached get parsed."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"])*")
 | (?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)
 | (?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)
 | (?P<meta>![-a-zA-Z$._0-9]*|!"[^"]*")
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:[eE][-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<id>[a-zA-Z$._][-a-zA-Z$._0-9]*)
 | (?P<dots>\.\.\.)
 | (?P<p>[()\[\]{}<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('tokenize: ' + s[i:i + 80])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


# ---- types: tuples --------------------------------------------------------
# ('i',n) ('double',) ('float',) ('void',) ('ptr',) ('arr',n,T) ('st',packed,(T..))
# ('named',name) ('vec',n,T) ('label',) ('metadata',) ('fn',) ('opaque',)
class P:
    """token cursor"""
    __slots__ = ('t', 'i')

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %r got %r in %r' % (s, self.peek(), ' '.join(x[1] for x in self.t[:60])))


def unq(name):
    if name[1:2] == '"':
        return name[0] + name[2:-1]
    return name


def parse_type(p):
    k, v = p.t[p.i]
    if v == '[':
        p.next()
        n = int(p.next())
        p.expect('x')
        t = parse_type(p)
        p.expect(']')
        r = ('arr', n, t)
    elif v == '{':
        p.next()
        ts = []
        while not p.accept('}'):
            ts.append(parse_type(p))
            p.accept(',')
        r = ('st', False, tuple(ts))
    elif v == '<':
        p.next()
        if p.peek() == '{':
            p.next()
            ts = []
            while not p.accept('}'):
                ts.append(parse_type(p))
                p.accept(',')
            p.expect('>')
            r = ('st', True, tuple(ts))
        else:
            n = int(p.next())
            p.expect('x')
            t = parse_type(p)
            p.expect('>')
            r = ('vec', n, t)
    elif k == 'loc':
        p.next()
        r = ('named', unq(v))
    elif k == 'id':
        p.next()
        if re.fullmatch(r'i\d+', v):
            r = ('i', int(v[1:]))
        elif v in ('double', 'float', 'void', 'ptr', 'label', 'metadata', 'x86_fp80', 'token', 'opaque', 'half', 'fp128'):
            r = (v,)
        else:
            raise IRError('type? ' + v)
    else:
        raise IRError('type? ' + str(v))
    # function type:  T (args)
    if p.peek() == '(' and r[0] != 'label':
        # only in call position:  "call void (ptr, ...) @f(...)"
        depth = 0
        j = p.i
        while True:
            x = p.t[j][1]
            if x == '(':
                depth += 1
            elif x == ')':
                depth -= 1
                if depth == 0:
                    break
            j += 1
        # function type only if followed by a callee or '*' ; caller decides
        nxt = p.t[j + 1] if j + 1 < len(p.t) else (None, None)
        if nxt[0] in ('glob', 'loc'):
            p.i = j + 1
            return r
    return r


SKIP_ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'readnone',
             'returned', 'immarg', 'nofree', 'writeonly', 'noreturn', 'nounwind', 'swiftself', 'nest', 'allocptr',
             'allocalign', 'dead_on_unwind', 'writable', 'fastcc', 'ccc', 'coldcc', 'tail', 'musttail', 'notail',
             'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'dso_local', 'local_unnamed_addr',
             'unnamed_addr', 'inbounds', 'dso_preemptable', 'hidden', 'protected', 'default', 'nofpclass'}
SKIP_PAREN = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'inalloca',
              'preallocated', 'elementtype', 'memory', 'allockind', 'allocsize', 'nofpclass', 'captures', 'vscale_range'}


def skip_attrs(p):
    """skip parameter/return attributes; returns set of names (sret, byval flagged with their type)"""
    got = {}
    while True:
        v = p.peek()
        if v in SKIP_PAREN:
            p.next()
            if p.peek() == '(':
                p.next()
                if v in ('sret', 'byval'):
                    got[v] = parse_type(p)
                    p.expect(')')
                else:
                    d = 1
                    while d:
                        x = p.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
            elif v == 'align':
                p.next()
        elif v in SKIP_ATTR:
            p.next()
        else:
            return got


def parse_fp(v):
    if v.startswith('0x'):
        if v[2] in 'KLMHR':
            return None
        d = struct.unpack('>d', bytes.fromhex(v[2:].rjust(16, '0')))[0]
    else:
        d = float(v)
    return d


# ---- operands -------------------------------------------------------------
# ('r',name) ('c',int) ('f',float) ('g',name) ('null',) ('undef',) ('zero',)
# ('agg',[(T,op)..]) ('str',bytes) ('ce',opcode,...)
def parse_val(p, ty):
    k, v = p.t[p.i]
    if k == 'loc':
        p.next()
        return ('r', unq(v))
    if k == 'glob':
        p.next()
        return ('g', unq(v)[1:])
    if k == 'num':
        p.next()
        if ty[0] in ('double', 'float', 'x86_fp80'):
            return ('f', parse_fp(v))
        return ('c', int(v))
    if k == 'str':
        p.next()
        s = v[2:-1]
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return ('str', bytes(out))
    if v == 'true':
        p.next()
        return ('c', 1)
    if v == 'false':
        p.next()
        return ('c', 0)
    if v == 'null':
        p.next()
        return ('null',)
    if v in ('undef', 'poison'):
        p.next()
        return ('undef',)
    if v == 'zeroinitializer':
        p.next()
        return ('zero',)
    if v in ('[', '{', '<'):
        p.next()
        close = {'[': ']', '{': '}', '<': '>'}[v]
        if v == '<' and p.peek() == '{':
            p.next()
            items = []
            while not p.accept('}'):
                t = parse_type(p)
                items.append((t, parse_val(p, t)))
                p.accept(',')
            p.expect('>')
            return ('agg', items)
        items = []
        while not p.accept(close):
            t = parse_type(p)
            items.append((t, parse_val(p, t)))
            p.accept(',')
        return ('agg', items)
    if v == 'getelementptr':
        p.next()
        while p.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
            p.next()
        p.expect('(')
        t = parse_type(p)
        p.expect(',')
        parse_type(p)
        base = parse_val(p, ('ptr',))
        idx = []
        while p.accept(','):
            p.accept('inrange')
            it = parse_type(p)
            idx.append((it, parse_val(p, it)))
        p.expect(')')
        return ('ce', 'gep', t, base, idx)
    if v in ('bitcast', 'addrspacecast', 'inttoptr', 'ptrtoint', 'trunc', 'zext', 'sext'):
        p.next()
        p.expect('(')
        t = parse_type(p)
        x = parse_val(p, t)
        p.expect('to')
        t2 = parse_type(p)
        p.expect(')')
        return ('ce', v, t, x, t2)
    if v in ('sub', 'add', 'mul', 'and', 'or', 'xor'):
        p.next()
        while p.peek() in ('nsw', 'nuw'):
            p.next()
        p.expect('(')
        t = parse_type(p)
        a = parse_val(p, t)
        p.expect(',')
        parse_type(p)
        b = parse_val(p, t)
        p.expect(')')
        return ('ce', v, t, a, b)
    if v in ('dso_local_equivalent', 'no_cfi'):
        p.next()
        return parse_val(p, ty)
    raise IRError('value? %r (%s)' % (v, ' '.join(x[1] for x in p.t[:40])))


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text', 'flags')

    def __init__(self, op, res=None, ty=None, a=None, flags=()):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.flags = flags
        self.dbg = None

    def __repr__(self):
        return '%s %s %s' % (self.res, self.op, self.a)


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint',
         'inttoptr', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc',
         'nneg', 'disjoint', 'volatile', 'atomic', 'weak'}


def flags(p):
    f = []
    while p.peek() in FLAGS:
        f.append(p.next())
    return f


def typed(p):
    t = parse_type(p)
    skip_attrs(p)
    return t, parse_val(p, t)


def parse_instr(line):
    dbg = None
    m = re.search(r', !dbg !(\d+)', line)
    if m:
        dbg = int(m.group(1))
        line = line[:m.start()] + line[m.end():]
    line = re.sub(r'(, ![-a-zA-Z.]+ !\d+)+\s*$', '', line)
    p = P(tokenize(line))
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = unq(p.next())
        p.next()
    ins = _parse_body(p, res)
    ins.dbg = dbg
    return ins


def _parse_call(p, res, op):
    skip_attrs(p)
    flags(p)
    skip_attrs(p)
    while p.peek() in ('cc',):
        p.next()
        p.next()
    rt = parse_type(p)
    skip_attrs(p)
    if p.peek() == 'asm':
        return Instr('asm', res, rt, None)
    callee = parse_val(p, ('ptr',))
    p.expect('(')
    args = []
    while not p.accept(')'):
        if p.accept('...'):
            p.accept(',')
            continue
        t = parse_type(p)
        at = skip_attrs(p)
        if t == ('metadata',):
            # skip metadata operand
            d = 0
            while not (d == 0 and p.peek() in (',', ')')):
                x = p.next()
                if x in '([{':
                    d += 1
                elif x in ')]}':
                    d -= 1
            args.append((t, ('undef',), at))
        else:
            args.append((t, parse_val(p, t), at))
        p.accept(',')
    ins = Instr(op, res, rt, (callee, args))
    return ins


def _parse_body(p, res):
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        p.accept('inalloca')
        t = parse_type(p)
        cnt = ('c', 1)
        if p.accept(','):
            if p.peek() not in ('align',):
                ct, cnt = typed(p)
        return Instr('alloca', res, t, cnt)
    if op == 'load':
        flags(p)
        t = parse_type(p)
        p.expect(',')
        _, ptr = typed(p)
        return Instr('load', res, t, ptr)
    if op == 'store':
        flags(p)
        t, v = typed(p)
        p.expect(',')
        _, ptr = typed(p)
        return Instr('store', None, t, (v, ptr))
    if op == 'getelementptr':
        flags(p)
        t = parse_type(p)
        p.expect(',')
        _, base = typed(p)
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(typed(p))
        return Instr('gep', res, t, (base, idx))
    if op in BINOPS:
        f = flags(p)
        t = parse_type(p)
        a = parse_val(p, t)
        p.expect(',')
        b = parse_val(p, t)
        return Instr('bin', res, t, (op, a, b), f)
    if op == 'fneg':
        flags(p)
        t = parse_type(p)
        return Instr('fneg', res, t, parse_val(p, t))
    if op in ('icmp', 'fcmp'):
        flags(p)
        pred = p.next()
        t = parse_type(p)
        a = parse_val(p, t)
        p.expect(',')
        b = parse_val(p, t)
        return Instr(op, res, t, (pred, a, b))
    if op in CASTS:
        f = flags(p)
        t = parse_type(p)
        a = parse_val(p, t)
        p.expect('to')
        t2 = parse_type(p)
        return Instr('cast', res, t2, (op, t, a), f)
    if op == 'phi':
        flags(p)
        t = parse_type(p)
        inc = []
        while p.accept('['):
            v = parse_val(p, t)
            p.expect(',')
            inc.append((v, unq(p.next())[1:]))
            p.expect(']')
            p.accept(',')
        return Instr('phi', res, t, inc)
    if op == 'select':
        flags(p)
        ct, c = typed(p)
        p.expect(',')
        t, a = typed(p)
        p.expect(',')
        _, b = typed(p)
        return Instr('select', res, t, (c, a, b), (ct,))
    if op == 'br':
        if p.accept('label'):
            return Instr('br', None, None, (None, unq(p.next())[1:]))
        t, c = typed(p)
        p.expect(',')
        p.expect('label')
        a = unq(p.next())[1:]
        p.expect(',')
        p.expect('label')
        b = unq(p.next())[1:]
        return Instr('br', None, None, (c, a, b))
    if op == 'switch':
        t, c = typed(p)
        p.expect(',')
        p.expect('label')
        d = unq(p.next())[1:]
        p.expect('[')
        cases = []
        while not p.accept(']'):
            tt, v = typed(p)
            p.expect(',')
            p.expect('label')
            cases.append((v[1], unq(p.next())[1:]))
        return Instr('switch', None, t, (c, d, cases))
    if op == 'ret':
        t = parse_type(p)
        if t == ('void',):
            return Instr('ret', None, t, None)
        return Instr('ret', None, t, parse_val(p, t))
    if op == 'unreachable':
        return Instr('unreachable')
    if op in ('call', 'invoke'):
        ins = _parse_call(p, res, 'call')
        if op == 'invoke' and ins.op == 'call':
            while p.peek() != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            n = unq(p.next())[1:]
            p.expect('unwind')
            p.expect('label')
            u = unq(p.next())[1:]
            ins.op = 'invoke'
            ins.a = ins.a + (n, u)
        return ins
    if op == 'extractvalue':
        t, a = typed(p)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('extractvalue', res, t, (a, idx))
    if op == 'insertvalue':
        t, a = typed(p)
        p.expect(',')
        t2, v = typed(p)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return Instr('insertvalue', res, t, (a, v, idx, t2))
    if op == 'landingpad':
        return Instr('landingpad', res, None, ' '.join(x[1] for x in p.t))
    if op == 'resume':
        return Instr('resume')
    if op == 'freeze':
        t, a = typed(p)
        return Instr('freeze', res, t, a)
    if op == 'fence':
        return Instr('nop')
    if op == 'atomicrmw':
        flags(p)
        o = p.next()
        _, ptr = typed(p)
        p.expect(',')
        t, v = typed(p)
        return Instr('atomicrmw', res, t, (o, ptr, v))
    if op == 'cmpxchg':
        flags(p)
        _, ptr = typed(p)
        p.expect(',')
        t, a = typed(p)
        p.expect(',')
        _, b = typed(p)
        return Instr('cmpxchg', res, t, (ptr, a, b))
    if op in ('extractelement',):
        t, a = typed(p)
        p.expect(',')
        _, i = typed(p)
        return Instr(op, res, t, (a, i))
    if op == 'insertelement':
        t, a = typed(p)
        p.expect(',')
        _, v = typed(p)
        p.expect(',')
        _, i = typed(p)
        return Instr(op, res, t, (a, v, i))
    if op == 'shufflevector':
        t, a = typed(p)
        p.expect(',')
        _, b = typed(p)
        p.expect(',')
        tm, m = typed(p)
        return Instr(op, res, t, (a, b, tm, m))
    raise IRError('instr? ' + op + ' ' + ' '.join(x[1] for x in p.t[:20]))


class Block:
    __slots__ = ('name', 'phis', 'ins', 'succ')

    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.succ = []


class Func:
    def __init__(self, module, name, header, lines):
        self.module = module
        self.name = name
        self.header = header
        self.lines = lines
        self.parsed = False
        self._loops = None

    def parse(self):
        if self.parsed:
            return self
        h = self.header
        # return type & params
        i = h.index('@')
        rest = h[i:]
        p = P(tokenize(rest[:rest.rindex('{')] if '{' in rest else rest))
        p.next()
        p.expect('(')
        self.params = []
        n = 0
        self.vararg = False
        while not p.accept(')'):
            if p.accept('...'):
                self.vararg = True
                continue
            t = parse_type(p)
            at = skip_attrs(p)
            if p.kind() == 'loc':
                nm = unq(p.next())
            else:
                nm = '%' + str(n)
            n += 1
            self.params.append((nm, t, at))
            p.accept(',')
        # blocks
        self.blocks = {}
        cur = None
        order = []
        buf = None
        for ln in self.lines:
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            if buf is not None:
                buf += ' ' + s
                if s.startswith(']') or (buf.startswith('#LP') and False):
                    s = buf
                    buf = None
                else:
                    continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = Block(nm)
                self.blocks[nm] = cur
                order.append(nm)
                continue
            if cur is None:
                # unnamed entry block: numbered after the params
                nm = str(n)
                cur = Block(nm)
                self.blocks[nm] = cur
                order.append(nm)
            if s.startswith('switch ') and not s.rstrip().endswith(']') and '[' in s:
                buf = s
                continue
            cur.ins.append(s)
        self.entry = order[0]
        self.order = order
        for b in self.blocks.values():
            raw = b.ins
            b.ins = []
            j = 0
            while j < len(raw):
                s = raw[j]
                # invoke continues on next line; landingpad clauses follow
                if re.search(r'(^|= )invoke ', s) and ' unwind label ' not in s:
                    s = s + ' ' + raw[j + 1]
                    j += 1
                if '= landingpad' in s:
                    while j + 1 < len(raw) and re.match(r'^(cleanup|catch|filter)\b', raw[j + 1]):
                        s = s + ' ' + raw[j + 1]
                        j += 1
                ins = parse_instr(s)
                if ins.op == 'phi':
                    b.phis.append(ins)
                else:
                    b.ins.append(ins)
                j += 1
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = list(t.a[1:])
            elif t.op == 'switch':
                b.succ = [t.a[1]] + [c[1] for c in t.a[2]]
            elif t.op == 'invoke':
                b.succ = [t.a[2], t.a[3]]
        self.parsed = True
        return self

    # natural loops (header -> set of blocks)
    def loops(self):
        if self._loops is not None:
            return self._loops
        self.parse()
        # reachable, ignoring unwind edges to keep the CFG small
        succ = {}
        for n, b in self.blocks.items():
            t = b.ins[-1]
            if t.op == 'invoke':
                succ[n] = [t.a[2]]
            else:
                succ[n] = b.succ
        order = []
        seen = set()
        stack = [(self.entry, iter(succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        idx = {n: i for i, n in enumerate(rpo)}
        preds = {n: [] for n in rpo}
        for n in rpo:
            for s in succ[n]:
                preds[s].append(n)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for n in rpo[1:]:
                new = None
                for q in preds[n]:
                    if q in idom:
                        if new is None:
                            new = q
                        else:
                            a, b2 = q, new
                            while a != b2:
                                while idx[a] > idx[b2]:
                                    a = idom[a]
                                while idx[b2] > idx[a]:
                                    b2 = idom[b2]
                            new = a
                if idom.get(n) != new:
                    idom[n] = new
                    changed = True

        def dom(a, b2):
            while True:
                if a == b2:
                    return True
                if b2 == self.entry:
                    return False
                b2 = idom[b2]
        loops = {}
        for n in rpo:
            for s in succ[n]:
                if dom(s, n):
                    body = loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.globals = {}    # name -> (linkage text line)
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self.meta = {}
        self._load()

    def _load(self):
        with open(self.path) as f:
            it = iter(f)
            for ln in it:
                if ln.startswith('define '):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                    nm = m.group(1).strip('"')
                    lines = []
                    for l2 in it:
                        if l2.startswith('}'):
                            break
                        lines.append(l2)
                    self.funcs[nm] = Func(self, nm, ln.rstrip(), lines)
                elif ln.startswith('declare '):
                    m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                    self.decls.add(m.group(1).strip('"'))
                elif ln.startswith('@'):
                    m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)', ln)
                    nm = m.group(1).strip('"')
                    body = m.group(2)
                    if re.search(r'\balias\b', body.split('@')[0]):
                        t = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\s*(,|$)', body)
                        self.aliases[nm] = t.group(1).strip('"')
                    else:
                        self.globals[nm] = body
                elif ln.startswith('%'):
                    m = re.match(r'(%"[^"]*"|%[-a-zA-Z$._0-9]+) = type (.*)', ln)
                    if m:
                        self.types[unq(m.group(1))] = m.group(2)
                elif ln.startswith('!'):
                    m = re.match(r'!(\d+) = (.*)', ln)
                    if m:
                        self.meta[int(m.group(1))] = m.group(2)
        self._tcache = {}

    def named(self, name):
        r = self._tcache.get(name)
        if r is None:
            body = self.types[name]
            if body.strip() == 'opaque':
                r = ('st', False, ())
            else:
                r = parse_type(P(tokenize(body)))
            self._tcache[name] = r
        return r

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named(t[1])
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return max(1, min(16, (t[1] + 7) // 8))
        if k in ('double', 'ptr'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return min(16, self.size(t))
        if k == 'st':
            if t[1] or not t[2]:
                return 1
            return max(self.align(x) for x in t[2])
        raise IRError('align ' + str(t))

    def size(self, t):
        key = ('size', t)
        r = self._tcache.get(key)
        if r is not None:
            return r
        r = self._size(t)
        self._tcache[key] = r
        return r

    def _size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = 1
            while a < n:
                a *= 2
            return a
        if k in ('double', 'ptr'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        if k == 'st':
            return self.offsets(t)[1]
        if k == 'void':
            return 1
        raise IRError('size ' + str(t))

    def offsets(self, t):
        key = ('off', t)
        r = self._tcache.get(key)
        if r is not None:
            return r
        t2 = self.resolve(t)
        offs = []
        o = 0
        mx = 1
        for x in t2[2]:
            a = 1 if t2[1] else self.align(x)
            mx = max(mx, a)
            o = (o + a - 1) // a * a
            offs.append(o)
            o += self.size(x)
        o = (o + mx - 1) // mx * mx
        r = (offs, o)
        self._tcache[key] = r
        return r

    def global_init(self, name):
        """-> (type, init operand or None)"""
        body = self.globals[name]
        m = re.search(r'\b(global|constant)\b', body)
        external = re.match(r'\s*(external|extern_weak|available_externally)\b', body) is not None
        rest = body[m.end():]
        rest = re.sub(r'(, (comdat|align \d+|section "[^"]*"|![-a-zA-Z.]+ !\d+|comdat\([^)]*\)))+\s*$', '', rest)
        p = P(tokenize(rest))
        t = parse_type(p)
        if external or p.peek() is None or p.peek() == ',':
            return t, None
        return t, parse_val(p, t)

    def line_of(self, dbg):
        """debug line number of !dbg node"""
        s = self.meta.get(dbg)
        if not s:
            return None
        m = re.search(r'line: (\d+)', s)
        return int(m.group(1)) if m else None
