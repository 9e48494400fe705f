"""Canonical integer polynomials over z3 Int atoms (IP), used for every integer
and every address offset so that index reasoning stays syntactic where it can."""
import z3


class Atoms:
    """Interning table: z3 Int term <-> small id.  One per verification unit."""

    def __init__(self):
        self.by_ast = {}
        self.terms = []

    def id(self, t):
        k = t.get_id()
        i = self.by_ast.get(k)
        if i is None:
            i = len(self.terms)
            self.terms.append(t)      # keeps the ast alive, so ids stay unique
            self.by_ast[k] = i
        return i


ATOMS = Atoms()


def reset():
    global ATOMS
    ATOMS.by_ast.clear()
    ATOMS.terms.clear()


class IP:
    __slots__ = ('m', '_z', '_h')

    def __init__(self, m):
        self.m = m
        self._z = None
        self._h = None

    # -- construction
    @staticmethod
    def const(c):
        return IP({(): c} if c else {})

    @staticmethod
    def atom(t):
        return IP({(ATOMS.id(t),): 1})

    # -- queries
    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), 0)

    def key(self):
        if self._h is None:
            self._h = tuple(sorted(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, IP) and self.m == o.m

    def __hash__(self):
        return hash(self.key())

    def atoms(self):
        s = set()
        for k in self.m:
            s.update(k)
        return s

    # -- arithmetic
    def __add__(self, o):
        o = lift(o)
        m = dict(self.m)
        for k, c in o.m.items():
            c2 = m.get(k, 0) + c
            if c2:
                m[k] = c2
            else:
                m.pop(k, None)
        return IP(m)

    def __neg__(self):
        return IP({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __radd__(self, o):
        return self + o

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        m = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = tuple(sorted(k1 + k2))
                c = m.get(k, 0) + c1 * c2
                if c:
                    m[k] = c
                else:
                    m.pop(k, None)
        return IP(m)

    __rmul__ = __mul__

    def divisible(self, d):
        return all(c % d == 0 for c in self.m.values())

    def exact_div(self, d):
        return IP({k: c // d for k, c in self.m.items()})

    def split_by(self, aid):
        """Write self = q*atom + r, r free of the atom; None if degree > 1."""
        q, r = {}, {}
        for k, c in self.m.items():
            n = k.count(aid)
            if n == 0:
                r[k] = c
            elif n == 1:
                k2 = list(k)
                k2.remove(aid)
                q[tuple(k2)] = c
            else:
                return None
        return IP(q), IP(r)

    def subst(self, aid, e):
        e = lift(e)
        out = IP({})
        for k, c in self.m.items():
            n = k.count(aid)
            if n:
                rest = tuple(x for x in k if x != aid)
                t = IP({rest: c})
                for _ in range(n):
                    t = t * e
                out = out + t
            else:
                out = out + IP({k: c})
        return out

    def z(self):
        if self._z is None:
            ts = []
            for k, c in sorted(self.m.items()):
                if k == ():
                    ts.append(z3.IntVal(c))
                    continue
                fs = [ATOMS.terms[a] for a in k]
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                if c != 1:
                    t = z3.IntVal(c) * t
                ts.append(t)
            if not ts:
                self._z = z3.IntVal(0)
            elif len(ts) == 1:
                self._z = ts[0]
            else:
                self._z = z3.Sum(ts) if len(ts) > 2 else ts[0] + ts[1]
        return self._z

    def __repr__(self):
        return 'IP<%s>' % self.z()


def lift(x):
    if isinstance(x, IP):
        return x
    if isinstance(x, bool):
        return IP.const(int(x))
    if isinstance(x, int):
        return IP.const(x)
    if z3.is_int_value(x):
        return IP.const(x.as_long())
    return from_z(x)


def from_z(t):
    """Parse a z3 Int term into canonical form; non-arithmetic parts are atoms."""
    if z3.is_int_value(t):
        return IP.const(t.as_long())
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = IP({})
        for c in t.children():
            r = r + from_z(c)
        return r
    if k == z3.Z3_OP_SUB:
        cs = t.children()
        r = from_z(cs[0])
        for c in cs[1:]:
            r = r - from_z(c)
        return r
    if k == z3.Z3_OP_MUL:
        r = IP.const(1)
        for c in t.children():
            r = r * from_z(c)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -from_z(t.children()[0])
    if t.decl().arity() > 0 and k == z3.Z3_OP_UNINTERPRETED:
        args = [from_z(a).z() if z3.is_int(a) else a for a in t.children()]
        t = t.decl()(*args)
    elif k == z3.Z3_OP_IDIV:
        a, b = t.children()
        a, b = from_z(a), from_z(b)
        if a.is_const() and b.is_const() and b.cval() > 0:
            return IP.const(a.cval() // b.cval())
        if b.is_const() and b.cval() > 0 and a.divisible(b.cval()):
            return a.exact_div(b.cval())
        t = a.z() / b.z()
    elif k == z3.Z3_OP_MOD:
        a, b = t.children()
        a, b = from_z(a), from_z(b)
        if b.is_const() and b.cval() > 0:
            return a - floordiv(a, b.cval()) * b.cval()
        t = a.z() % b.z()
    return IP.atom(t)


def floordiv(a, d):
    """floor(a / d) for a positive constant d."""
    a = lift(a)
    if d == 1:
        return a
    if a.is_const():
        return IP.const(a.cval() // d)
    # pull out the divisible part
    q, r = {}, {}
    for k, c in a.m.items():
        if k == ():
            qq, rr = c // d, c % d
            if qq:
                q[k] = qq
            if rr:
                r[k] = rr
        elif c % d == 0:
            q[k] = c // d
        else:
            r[k] = c
    if not r:
        return IP(q)
    r = IP(r)
    if r.is_const():      # 0 <= const < d
        return IP(q)
    # nested division by constants: ((x div a) div b) = x div (a*b)
    if len(r.m) == 1:
        (k, c), = r.m.items()
        if c == 1 and len(k) == 1:
            t = ATOMS.terms[k[0]]
            if t.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(t.children()[1]):
                return IP(q) + floordiv(from_z(t.children()[0]), d * t.children()[1].as_long())
    return IP(q) + IP.atom(r.z() / z3.IntVal(d))
