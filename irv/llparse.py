"""Parser for the subset of textual LLVM 18 IR that the verifier consumes.

The text comes straight from clang/opt run on /repo's current sources; nothing
is written by hand.
"""
import re
import struct

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<comment>;.*)
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[KLMHR]?[0-9a-fA-F]+)
 | (?P<float>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
 | (?P<int>-?[0-9]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<punct>\.\.\.|[=,(){}\[\]<>*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(line):
    out = []
    pos = 0
    n = len(line)
    while pos < n:
        m = TOK.match(line, pos)
        if not m:
            raise ParseError('tokenize: %r at %r' % (line, line[pos:pos + 20]))
        pos = m.end()
        k = m.lastgroup
        if k == 'comment':
            break
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


def unq(s):
    """Strip the sigil and the quotes of a name."""
    s = s[1:]
    if s.startswith('"'):
        s = s[1:-1]
    return s


class Ty:
    __slots__ = ('k', 'a', 'b')

    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.a
        if self.k == 'named':
            return '%' + self.a
        if self.k in ('array', 'vec'):
            return '[%d x %r]' % (self.a, self.b)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.a))
        return self.k


VOID, PTR, DOUBLE, FLOAT = Ty('void'), Ty('ptr'), Ty('double'), Ty('float')


class Const:
    """Constant operand: kind in int, fp, null, undef, zero, glob, agg, ce, str."""
    __slots__ = ('k', 'v', 'ty')

    def __init__(self, k, v=None, ty=None):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return 'C(%s,%r)' % (self.k, self.v)


class Local:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '%' + self.n


class Ins:
    __slots__ = ('op', 'res', 'ty', 'args', 'x')

    def __init__(self, op, res, ty, args, x=None):
        self.op, self.res, self.ty, self.args, self.x = op, res, ty, args, x

    def __repr__(self):
        return '%s = %s %r %r %r' % (self.res, self.op, self.ty, self.args, self.x)


class Func:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}     # label -> [Ins]
        self.order = []
        self.attrs = set()


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}    # name -> (ty, init Const or None, is_const)
        self.funcs = {}
        self.decls = {}      # name -> (ret, [tys], attrs)
        self.attr_groups = {}
        self.aliases = {}


class P:
    def __init__(self, toks, line=''):
        self.t = toks
        self.i = 0
        self.line = line

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ('eof', '')

    def next(self):
        r = self.peek()
        self.i += 1
        return r

    def at(self, s):
        return self.peek()[1] == s

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.eat(s):
            raise ParseError('expected %r got %r in: %s' % (s, self.peek(), self.line))

    # -- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = Ty('i', int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.at('addrspace'):
                    raise ParseError('addrspace')
            elif v == 'double':
                t = DOUBLE
            elif v == 'float':
                t = FLOAT
            elif v == 'void':
                t = VOID
            elif v in ('x86_fp80', 'fp128', 'half', 'label', 'metadata', 'token', 'opaque'):
                t = Ty(v)
            else:
                raise ParseError('type %r in %s' % (v, self.line))
        elif k == 'local':
            t = Ty('named', unq(v))
        elif v == '{':
            els = []
            if not self.eat('}'):
                while True:
                    els.append(self.type())
                    if self.eat('}'):
                        break
                    self.expect(',')
            t = Ty('struct', els, False)
        elif v == '<':
            if self.at('{'):
                self.next()
                els = []
                if not self.eat('}'):
                    while True:
                        els.append(self.type())
                        if self.eat('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = Ty('struct', els, True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = Ty('vec', n, e)
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('array', n, e)
        else:
            raise ParseError('type at %r in %s' % (v, self.line))
        while self.at('('):   # function type
            self.next()
            ps = []
            if not self.eat(')'):
                while True:
                    if self.eat('...'):
                        ps.append(Ty('...'))
                    else:
                        ps.append(self.type())
                    if self.eat(')'):
                        break
                    self.expect(',')
            t = Ty('func', t, ps)
        return t

    # -- values
    def value(self, ty):
        k, v = self.next()
        if k == 'local':
            return Local(unq(v))
        if k == 'glob':
            return Const('glob', unq(v), ty)
        if k == 'int':
            if ty.k in ('double', 'float'):
                return Const('fp', float(v), ty)
            return Const('int', int(v), ty)
        if k == 'float':
            return Const('fp', float(v), ty)
        if k == 'hex':
            if v[2] in 'KLMHR':
                return Const('fp80', v, ty)
            bits = int(v, 16)
            return Const('fp', struct.unpack('<d', struct.pack('<Q', bits))[0], ty)
        if k == 'str':
            if v.startswith('c'):
                return Const('str', unescape(v[2:-1]), ty)
        if k == 'word':
            if v == 'true':
                return Const('int', 1, ty)
            if v == 'false':
                return Const('int', 0, ty)
            if v == 'null':
                return Const('null', None, ty)
            if v in ('undef', 'poison'):
                return Const('undef', None, ty)
            if v == 'zeroinitializer':
                return Const('zero', None, ty)
            if v in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'sub', 'add', 'trunc',
                     'zext', 'sext', 'icmp', 'select', 'mul', 'xor', 'and'):
                return self.constexpr(v, ty)
            if v in ('dso_local_equivalent', 'no_cfi'):
                return self.value(ty)
            if v == 'blockaddress':
                raise ParseError('blockaddress')
            if v == 'splat':
                raise ParseError('splat')
        if v in '[{<':
            packed = False
            if v == '<' and self.at('{'):
                self.next()
                v = '{'
                packed = True
            close = {'[': ']', '{': '}', '<': '>'}[v]
            els = []
            if not self.eat(close):
                while True:
                    t = self.type()
                    els.append((t, self.value(t)))
                    if self.eat(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return Const('agg', els, ty)
        raise ParseError('value %r in %s' % (v, self.line))

    def constexpr(self, op, ty):
        flags = []
        while self.peek()[0] == 'word' and self.peek()[1] in (
                'inbounds', 'nuw', 'nsw', 'exact', 'inrange'):
            flags.append(self.next()[1])
        if op == 'icmp':
            flags.append(self.next()[1])
        self.expect('(')
        if op == 'getelementptr':
            bty = self.type()
            self.expect(',')
            args = []
            while True:
                self.eat('inrange')
                t = self.type()
                args.append((t, self.value(t)))
                if self.eat(')'):
                    break
                self.expect(',')
            return Const('ce', ('getelementptr', bty, args), ty)
        args = []
        while True:
            t = self.type()
            args.append((t, self.value(t)))
            if self.eat('to'):
                self.type()
            if self.eat(')'):
                break
            self.expect(',')
        return Const('ce', (op, flags, args), ty)

    def tv(self):
        t = self.type()
        return t, self.value(t)

    def param_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PATTRS:
                self.next()
                if self.at('('):
                    d = 0
                    while True:
                        v = self.next()[1]
                        if v == '(':
                            d += 1
                        elif v == ')':
                            d -= 1
                            if d == 0:
                                break
                elif v == 'align' and self.peek()[0] == 'int':
                    self.next()
            elif k == 'str':
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return


PATTRS = {
    'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'signext',
    'zeroext', 'inreg', 'byval', 'sret', 'align', 'dereferenceable', 'dereferenceable_or_null',
    'returned', 'immarg', 'nofree', 'nest', 'inalloca', 'preallocated', 'byref', 'noext',
    'writable', 'dead_on_unwind', 'allocptr', 'allocalign', 'nofpclass', 'range', 'captures',
    'swiftself', 'initializes',
}

FN_PRE = {
    'dso_local', 'internal', 'private', 'linkonce_odr', 'weak_odr', 'weak', 'available_externally',
    'linkonce', 'external', 'hidden', 'protected', 'default', 'fastcc', 'ccc', 'coldcc',
    'extern_weak', 'unnamed_addr', 'local_unnamed_addr', 'common', 'appending', 'comdat',
}


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or',
          'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'sext', 'zext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi',
         'fptoui', 'fpext', 'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nneg', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz',
         'arcp', 'contract', 'afn', 'reassoc', 'volatile', 'inrange', 'samesign', 'nusw'}


def parse_ins(p):
    res = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        res = unq(p.next()[1])
        p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    flags = set()

    def eatflags():
        while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
            flags.add(p.next()[1])

    if op in BINOPS:
        eatflags()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Ins(op, res, t, [a, b], flags)
    if op == 'fneg':
        eatflags()
        t, a = p.tv()
        return Ins(op, res, t, [a])
    if op in ('icmp', 'fcmp'):
        eatflags()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return Ins(op, res, t, [a, b], pred)
    if op in CASTS:
        eatflags()
        t, a = p.tv()
        p.expect('to')
        t2 = p.type()
        return Ins(op, res, t2, [a], (t, flags))
    if op == 'phi':
        eatflags()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            b = unq(p.next()[1])
            p.expect(']')
            inc.append((v, b))
            if not p.eat(','):
                break
            if p.peek()[0] == 'meta':
                break
        return Ins(op, res, t, inc)
    if op == 'select':
        eatflags()
        tc, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        t2, b = p.tv()
        return Ins(op, res, t, [c, a, b])
    if op == 'getelementptr':
        eatflags()
        bty = p.type()
        args = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            args.append(p.tv())
        return Ins(op, res, PTR, args, bty)
    if op == 'load':
        p.eat('volatile')
        p.eat('atomic')
        t = p.type()
        p.expect(',')
        _, a = p.tv()
        return Ins(op, res, t, [a])
    if op == 'store':
        p.eat('volatile')
        p.eat('atomic')
        t, v = p.tv()
        p.expect(',')
        _, a = p.tv()
        return Ins(op, None, t, [v, a])
    if op == 'br':
        if p.eat('label'):
            return Ins(op, None, None, [], [unq(p.next()[1])])
        _, c = p.tv()
        p.expect(',')
        p.expect('label')
        a = unq(p.next()[1])
        p.expect(',')
        p.expect('label')
        b = unq(p.next()[1])
        return Ins(op, None, None, [c], [a, b])
    if op == 'switch':
        t, c = p.tv()
        p.expect(',')
        p.expect('label')
        d = unq(p.next()[1])
        p.expect('[')
        cases = []
        while not p.eat(']'):
            _, v = p.tv()
            p.expect(',')
            p.expect('label')
            cases.append((v.v, unq(p.next()[1])))
        return Ins(op, None, t, [c], (d, cases))
    if op == 'ret':
        if p.eat('void'):
            return Ins(op, None, VOID, [])
        t, v = p.tv()
        return Ins(op, None, t, [v])
    if op == 'unreachable':
        return Ins(op, None, None, [])
    if op == 'alloca':
        p.eat('inalloca')
        t = p.type()
        n = None
        if p.eat(',') and p.peek()[0] != 'meta' and not p.at('align'):
            n = p.tv()
        return Ins(op, res, t, [], n)
    if op == 'extractvalue':
        t, a = p.tv()
        idx = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Ins(op, res, t, [a], idx)
    if op == 'insertvalue':
        t, a = p.tv()
        p.expect(',')
        t2, v = p.tv()
        idx = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            idx.append(int(p.next()[1]))
        return Ins(op, res, t, [a, v], idx)
    if op == 'freeze':
        t, a = p.tv()
        return Ins(op, res, t, [a])
    if op == 'call':
        eatflags()
        while p.peek()[0] == 'word' and p.peek()[1] in FN_PRE:
            p.next()
        p.param_attrs()
        t = p.type()
        if t.k == 'func':
            t = t.a
        if p.peek()[1] == 'asm':
            if 'asm sideeffect "#' in p.line and t.k == 'void':
                return Ins('fence', None, None, [])      # an assembler comment
            return Ins('unsupported', res, None, [], 'asm')
        callee = p.value(PTR)
        p.expect('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                p.param_attrs()
                if at.k == 'metadata':
                    # skip metadata operand
                    d = 0
                    while True:
                        s = p.peek()[1]
                        if d == 0 and s in (',', ')'):
                            break
                        if s in '({':
                            d += 1
                        if s in ')}':
                            d -= 1
                        p.next()
                    args.append((at, None))
                else:
                    args.append((at, p.value(at)))
                if p.eat(')'):
                    break
                p.expect(',')
        attrs = set()
        while p.peek()[0] in ('attr', 'word'):
            attrs.add(p.next()[1])
        return Ins(op, res, t, args, (callee, attrs))
    if op in ('fence',):
        return Ins(op, None, None, [])
    if op in ('cmpxchg', 'atomicrmw'):
        if op == 'atomicrmw':
            p.eat('volatile')
            aop = p.next()[1]
            _, a = p.tv()
            p.expect(',')
            t, v = p.tv()
            return Ins(op, res, t, [a, v], aop)
        return Ins('unsupported', res, None, [], op)
    if op in ('extractelement', 'insertelement', 'shufflevector', 'invoke', 'landingpad', 'resume',
              'indirectbr', 'va_arg'):
        return Ins('unsupported', res, None, [], op)
    raise ParseError('instruction %s in: %s' % (op, p.line))


def parse_fn_header(line):
    p = P(tokenize(line), line)
    p.next()  # define / declare
    while True:
        k, v = p.peek()
        if k == 'word' and v in FN_PRE:
            p.next()
            if v == 'comdat' and p.at('('):
                while p.next()[1] != ')':
                    pass
        else:
            break
    p.param_attrs()
    ret = p.type()
    if ret.k == 'func':
        raise ParseError('header ' + line)
    name = unq(p.next()[1])
    p.expect('(')
    params = []
    n = 0
    if not p.eat(')'):
        while True:
            if p.eat('...'):
                params.append((Ty('...'), None))
            else:
                t = p.type()
                p.param_attrs()
                if p.peek()[0] == 'local':
                    params.append((t, unq(p.next()[1])))
                else:
                    params.append((t, str(n)))
                n += 1
            if p.eat(')'):
                break
            p.expect(',')
    attrs = set()
    while p.peek()[0] != 'eof' and not p.at('{'):
        attrs.add(p.next()[1])
    return name, ret, params, attrs


LABEL = re.compile(r'^((?:"(?:[^"\\]|\\.)*")|[-a-zA-Z$._0-9]+):')


def parse(text, want=None):
    """want: set of function names whose bodies are needed (None = all, lazily
    parsed)."""
    m = Module()
    lines = text.split('\n')
    i = 0
    N = len(lines)
    m._bodies = {}
    while i < N:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            p = P(tokenize(ln), ln)
            nm = unq(p.next()[1])
            p.expect('=')
            p.expect('type')
            m.types[nm] = p.type()
        elif ln.startswith('@'):
            m.globals[unq(tokenize(ln)[0][1])] = ln   # parsed on demand
        elif ln.startswith('attributes #'):
            mm = re.match(r'attributes (#\d+) = \{(.*)\}', ln)
            m.attr_groups[mm.group(1)] = set(re.findall(r'[a-z_]+', re.sub(r'"[^"]*"(="[^"]*")?', '', mm.group(2))))
        elif ln.startswith('declare '):
            try:
                name, ret, params, attrs = parse_fn_header(ln)
                m.decls[name] = (ret, [t for t, _ in params], attrs)
            except ParseError:
                mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
                m.decls[mm.group(1).strip('"')] = (VOID, [], set(re.findall(r'#\d+', ln)))
        elif ln.startswith('define '):
            j = i
            while lines[j] != '}':
                j += 1
            mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
            m._bodies[mm.group(1).strip('"')] = (i, j)
            i = j
        i += 1
    m._lines = lines
    return m


def get_func(m, name):
    if name in m.funcs:
        return m.funcs[name]
    if name not in m._bodies:
        return None
    i, j = m._bodies[name]
    lines = m._lines
    nm, ret, params, attrs = parse_fn_header(lines[i])
    f = Func(nm, ret, params)
    f.attrs = attrs
    cur = None
    n_par = len(params)
    k = i + 1
    first = True
    while k < j:
        ln = lines[k]
        k += 1
        s = ln.strip()
        if not s or s.startswith(';'):
            continue
        mm = LABEL.match(ln)
        if mm:
            lab = mm.group(1)
            if lab.startswith('"'):
                lab = lab[1:-1]
            cur = []
            f.blocks[lab] = cur
            f.order.append(lab)
            first = False
            continue
        if first:
            lab = str(n_par)
            cur = []
            f.blocks[lab] = cur
            f.order.append(lab)
            first = False
        if s.startswith('switch') and s.endswith('['):
            while not lines[k].strip().startswith(']'):
                s += ' ' + lines[k].strip()
                k += 1
            s += ' ]'
            k += 1
        cur.append(parse_ins(P(tokenize(s), s)))
    m.funcs[name] = f
    return f


def get_global(m, name):
    g = m.globals.get(name)
    if g is None or not isinstance(g, str):
        return g
    p = P(tokenize(g), g)
    p.next()
    p.expect('=')
    isc = False
    ext = False
    while True:
        k, v = p.peek()
        if k == 'word' and (v in FN_PRE or v in ('thread_local', 'externally_initialized')):
            if v in ('external', 'extern_weak'):
                ext = True
            p.next()
        elif v in ('constant', 'global', 'alias'):
            p.next()
            isc = v
            break
        elif v == '(':
            while p.next()[1] != ')':
                pass
        else:
            raise ParseError('global ' + g)
    t = p.type()
    if isc == 'alias':
        p.expect(',')
        p.type()
        r = ('alias', p.value(PTR))
    else:
        init = None
        if not ext:
            init = p.value(t)
        r = (t, init, isc == 'constant')
    m.globals[name] = r
    return r


class Layout:
    """x86-64 data layout."""

    def __init__(self, m):
        self.m = m
        self.cache = {}

    def res(self, t):
        while t.k == 'named':
            t = self.m.types[t.a]
        return t

    def align(self, t):
        t = self.res(t)
        if t.k == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.a, 8)
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'x86_fp80':
            return 16
        if t.k == 'array':
            return self.align(t.b)
        if t.k == 'vec':
            return self.size(t)
        if t.k == 'struct':
            if t.b:
                return 1
            return max([self.align(e) for e in t.a] or [1])
        raise ParseError('align %r' % t)

    def size(self, t):
        t = self.res(t)
        if t.k == 'i':
            return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(t.a, (t.a + 7) // 8)
        if t.k in ('ptr', 'double'):
            return 8
        if t.k == 'float':
            return 4
        if t.k == 'x86_fp80':
            return 16
        if t.k in ('array', 'vec'):
            return t.a * self.size(t.b)
        if t.k == 'struct':
            return self.struct(t)[1]
        raise ParseError('size %r' % t)

    def struct(self, t):
        key = id(t)
        r = self.cache.get(key)
        if r is None:
            off = 0
            offs = []
            for e in t.a:
                al = 1 if t.b else self.align(e)
                off = (off + al - 1) // al * al
                offs.append(off)
                off += self.size(e)
            al = self.align(t)
            off = (off + al - 1) // al * al
            r = (offs, off, t)
            self.cache[key] = r
        return r[0], r[1]
