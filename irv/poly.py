"""Rational-function normal form over the reals: the zero test that discharges
polynomial and trigonometric identities."""
import math
from fractions import Fraction
import z3


class TooBig(Exception):
    pass


LIMIT = 60000


class Poly:
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    @staticmethod
    def const(c):
        return Poly({(): Fraction(c)} if c else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})

    def __add__(self, o):
        if len(o.m) > len(self.m):
            self, o = o, self
        m = dict(self.m)
        for k, c in o.m.items():
            c2 = m.get(k)
            if c2 is None:
                m[k] = c
            else:
                c2 = c2 + c
                if c2:
                    m[k] = c2
                else:
                    del m[k]
        return Poly(m)

    def __neg__(self):
        return Poly({k: -c for k, c in self.m.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, c):
        return Poly({k: v * c for k, v in self.m.items()}) if c else Poly({})

    def __mul__(self, o):
        if len(self.m) * len(o.m) > LIMIT * 20:
            raise TooBig()
        m = {}
        for k1, c1 in self.m.items():
            for k2, c2 in o.m.items():
                k = mmul(k1, k2)
                c = m.get(k)
                m[k] = c1 * c2 if c is None else c + c1 * c2
        m = {k: c for k, c in m.items() if c}
        if len(m) > LIMIT:
            raise TooBig()
        return Poly(m)

    def pow(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def cval(self):
        return self.m.get((), Fraction(0))

    def is_zero(self):
        return not self.m

    def key(self):
        return tuple(sorted(self.m.items()))

    def atoms(self):
        return {a for k in self.m for a, _ in k}

    def degree_in(self, a):
        return max((e for k in self.m for x, e in k if x == a), default=0)


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    while i < len(a) and j < len(b):
        if a[i][0] == b[j][0]:
            out.append((a[i][0], a[i][1] + b[j][1]))
            i += 1
            j += 1
        elif a[i][0] < b[j][0]:
            out.append(a[i])
            i += 1
        else:
            out.append(b[j])
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class RF:
    """num / prod(den[key] ** e)"""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=None):
        self.n, self.d = n, d or {}


class Normalizer:
    """One instance per obligation: atoms, congruence classes of function
    applications, rewrite rules."""

    def __init__(self, rules=None):
        self.ids = {}
        self.terms = []
        self.dens = {}
        self.cache = {}
        self.apps = {}        # fname -> [(args RF, atom)]
        self.rules = {}       # atom -> (power, num Poly, den multiset)
        self.norule = set()
        self.used_rules = set()
        self.facts = []
        self.neg_exp = {}

    # atoms
    def aid(self, t):
        k = t.get_id()
        i = self.ids.get(k)
        if i is None:
            i = len(self.terms)
            self.ids[k] = i
            self.terms.append(t)
        return i

    # RF arithmetic
    def add(self, a, b):
        if not a.d and not b.d:
            return RF(a.n + b.n)
        if a.n.is_zero():
            return b
        if b.n.is_zero():
            return a
        d = dict(a.d)
        for k, e in b.d.items():
            d[k] = max(d.get(k, 0), e)
        na, nb = a.n, b.n
        for k, e in d.items():
            ea, eb = e - a.d.get(k, 0), e - b.d.get(k, 0)
            if ea:
                na = na * self.dens[k].pow(ea)
            if eb:
                nb = nb * self.dens[k].pow(eb)
        return RF(na + nb, d)

    def neg(self, a):
        return RF(-a.n, a.d)

    def mul(self, a, b):
        d = dict(a.d)
        for k, e in b.d.items():
            d[k] = d.get(k, 0) + e
        return self.cancel(RF(self.reduce(a.n * b.n, d), d))

    def den_of(self, p):
        """Factor a polynomial used as a divisor: constant * atoms * primitive rest."""
        c = Fraction(1)
        fs = {}
        if len(p.m) == 1:
            (k, cc), = p.m.items()
            for a, e in k:
                fs[self.dkey(Poly.atom(a))] = e
            return cc, fs
        # common monomial factor
        common = None
        for k in p.m:
            dk = dict(k)
            common = dk if common is None else {a: min(e, dk[a]) for a, e in common.items() if a in dk}
        if common:
            q = {}
            for k, c0 in p.m.items():
                dk = {a: e - common.get(a, 0) for a, e in k}
                q[tuple(sorted((a, e) for a, e in dk.items() if e))] = c0
            p = Poly(q)
            for a, e in common.items():
                fs[self.dkey(Poly.atom(a))] = e
        lead = p.m[max(p.m)]
        p = p.scale(1 / lead)
        fs[self.dkey(p)] = 1
        return lead, fs

    def dkey(self, p):
        k = p.key()
        if k not in self.dens:
            self.dens[k] = p
        return k

    def cancel(self, r):
        """Cancel single-atom denominators and exact whole-polynomial matches."""
        if not r.d or r.n.is_zero():
            return RF(r.n) if r.n.is_zero() else r
        d = dict(r.d)
        n = r.n
        for k in list(d):
            p = self.dens[k]
            if len(p.m) == 1:
                (mk, _), = p.m.items()
                a = mk[0][0]
                e = min(min((dict(x).get(a, 0) for x in n.m)), d[k])
                if e:
                    q = {}
                    for x, c in n.m.items():
                        dx = dict(x)
                        dx[a] -= e
                        q[tuple(sorted((y, z) for y, z in dx.items() if z))] = c
                    n = Poly(q)
                    d[k] -= e
                    if not d[k]:
                        del d[k]
            elif len(p.m) <= len(n.m) <= 4000:
                while k in d:
                    q = divide(n, p)
                    if q is None:
                        break
                    n = q
                    d[k] -= 1
                    if not d[k]:
                        del d[k]
        return RF(n, d)

    def div(self, a, b):
        b = RF(self.reduce(b.n, None), b.d)
        if b.n.is_zero():
            raise ZeroDivisionError
        c, fs = self.den_of(b.n)
        n = a.n.scale(1 / c)
        d = dict(a.d)
        # times b's denominator
        for k, e in b.d.items():
            x = d.get(k, 0)
            t = min(x, e)
            if t:
                d[k] = x - t
                if not d[k]:
                    del d[k]
            if e - t:
                n = n * self.dens[k].pow(e - t)
        for k, e in fs.items():
            d[k] = d.get(k, 0) + e
        return self.cancel(RF(n, d))

    # rewriting
    def reduce(self, p, d):
        """Apply a^k -> num/den rules.  Denominators introduced are added to d
        (when d is None only polynomial rules are applied)."""
        if not self.rules:
            return p
        for _ in range(400):
            hit = None
            for k in p.m:
                for a, e in k:
                    r = self.rules.get(a)
                    if r is not None and e >= r[0] and (d is not None or not r[2]):
                        hit = a
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            pw, rn, rd = self.rules[hit]
            # group by exponent of hit
            groups = {}
            for k, c in p.m.items():
                dk = dict(k)
                e = dk.pop(hit, 0)
                groups.setdefault(e, {})[tuple(sorted(dk.items()))] = c
            mx = max(e // pw for e in groups)
            dp = Poly.const(1)
            for kk, ee in rd.items():
                dp = dp * self.dens[kk].pow(ee)
            out = Poly({})
            for e, m in groups.items():
                q, rem = divmod(e, pw)
                t = Poly(m)
                if q:
                    t = t * rn.pow(q)
                if mx - q and rd:
                    t = t * dp.pow(mx - q)
                if rem:
                    t = t * Poly({((hit, rem),): Fraction(1)})
                out = out + t
            if rd and d is not None:
                for kk, ee in rd.items():
                    d[kk] = d.get(kk, 0) + ee * mx
            p = out
        raise TooBig()

    # terms
    def rf(self, t):
        k = t.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self._rf(t)
            self.cache[k] = r
        return r

    def _rf(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return RF(Poly.const(t.as_fraction() if z3.is_rational_value(t) else t.as_long()))
        kd = t.decl().kind()
        ch = t.children()
        if kd == z3.Z3_OP_ADD:
            r = self.rf(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.rf(c))
            return self.red(r)
        if kd == z3.Z3_OP_SUB:
            r = self.rf(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.neg(self.rf(c)))
            return self.red(r)
        if kd == z3.Z3_OP_UMINUS:
            return self.neg(self.rf(ch[0]))
        if kd == z3.Z3_OP_MUL:
            r = self.rf(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.rf(c))
            return r
        if kd == z3.Z3_OP_DIV:
            return self.div(self.rf(ch[0]), self.rf(ch[1]))
        if kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1:
            n = ch[1].as_fraction().numerator
            b = self.rf(ch[0])
            r = RF(Poly.const(1))
            for _ in range(abs(n)):
                r = self.mul(r, b)
            return r if n >= 0 else self.div(RF(Poly.const(1)), r)
        if kd == z3.Z3_OP_TO_REAL:
            c = ch[0]
            ck = c.decl().kind()
            if ck in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) or z3.is_int_value(c):
                return self.rf(c)
            if z3.is_int(c):
                return RF(Poly.atom(self.aid(c)))
        if kd == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_arith(c) for c in ch):
            return self.app(t, t.decl().name(), [self.rf(c) for c in ch])
        return RF(Poly.atom(self.aid(t)))

    def red(self, r):
        d = dict(r.d)
        n = self.reduce(r.n, d)
        return self.cancel(RF(n, d)) if d else RF(n)

    def app(self, t, name, args):
        """Function application, congruent up to provable equality of arguments."""
        if name == 'f_hypot':
            sq = self.add(self.mul(args[0], args[0]), self.mul(args[1], args[1]))
            return self.app(SQRT(t), 'f_sqrt', [self.red(sq)])
        if name in ('f_sin', 'f_cos') and not args[0].d and len(args[0].n.m) == 1:
            # sin / cos of +-atan2(y, x)
            (k, c), = args[0].n.m.items()
            if len(k) == 1 and k[0][1] == 1 and abs(c) == 1:
                for (y, x), bt in self.apps.get('f_atan2', []):
                    if bt != k[0][0]:
                        continue
                    s2 = self.red(self.add(self.mul(x, x), self.mul(y, y)))
                    h = self.app(HYP(t, bt), 'f_sqrt', [s2])
                    if self.is_zero(h):
                        break
                    r = self.div(y if name == 'f_sin' else x, h)
                    return self.neg(r) if name == 'f_sin' and c == -1 else r
        if name == 'f_sqrt':
            a0 = self.red(args[0])
            if a0.n.is_const() and not a0.d and a0.n.cval() >= 0:
                f = a0.n.cval()
                n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
                if n * n == f.numerator and d * d == f.denominator:
                    return RF(Poly.const(Fraction(n, d)))
            args = [a0]
        for a2, at in self.apps.setdefault(name, []):
            if all(self.is_zero(self.add(x, self.neg(y))) for x, y in zip(args, a2)):
                return RF(Poly.atom(at))
        # parity
        if name in ('f_sin', 'f_cos', 'f_tan', 'f_sinh', 'f_cosh', 'f_tanh', 'f_asin', 'f_atan', 'f_erf'):
            for a2, at in self.apps[name]:
                if self.is_zero(self.add(args[0], a2[0])):
                    if name in ('f_cos', 'f_cosh'):
                        return RF(Poly.atom(at))
                    return RF(-Poly.atom(at))
        if name == 'f_exp' and not args[0].n.is_zero():
            # exp(-x) = 1/exp(x) for a known x
            for a2, at in self.apps[name]:
                if self.is_zero(self.add(args[0], a2[0])):
                    return self.div(RF(Poly.const(1)), RF(Poly.atom(at)))
        if args and all(a.n.is_zero() for a in args):
            z = {'f_sin': 0, 'f_tan': 0, 'f_sinh': 0, 'f_tanh': 0, 'f_atan': 0, 'f_asin': 0, 'f_cos': 1,
                 'f_cosh': 1, 'f_exp': 1, 'f_sqrt': 0, 'f_exp2': 1, 'f_hypot': 0, 'f_log1p': 0, 'f_expm1': 0,
                 'f_erf': 0, 'f_asinh': 0, 'f_atanh': 0, 'f_cbrt': 0}.get(name)
            if z is not None:
                return RF(Poly.const(z))
        at = self.aid(t)
        self.apps[name].append((args, at))
        if name == 'f_sqrt':
            self.rules[at] = (2, args[0].n, dict(args[0].d))
            self.cache.clear()
        elif name in ('f_sin', 'f_cos'):
            # cos^2 = 1 - sin^2 for the same argument
            other = 'f_cos' if name == 'f_sin' else 'f_sin'
            for a2, bt in self.apps.get(other, []):
                if self.is_zero(self.add(args[0], self.neg(a2[0]))) or self.is_zero(self.add(args[0], a2[0])):
                    c, sn = (bt, at) if name == 'f_sin' else (at, bt)
                    self.rules[c] = (2, Poly.const(1) - Poly({((sn, 2),): Fraction(1)}), {})
                    self.cache.clear()
                    break
        elif name in ('f_sinh', 'f_cosh'):
            other = 'f_cosh' if name == 'f_sinh' else 'f_sinh'
            for a2, bt in self.apps.get(other, []):
                if self.is_zero(self.add(args[0], self.neg(a2[0]))):
                    c, sn = (bt, at) if name == 'f_sinh' else (at, bt)
                    self.rules[c] = (2, Poly.const(1) + Poly({((sn, 2),): Fraction(1)}), {})
                    self.cache.clear()
                    break
        return RF(Poly.atom(at))

    def is_zero(self, r):
        if r.n.is_zero():
            return True
        d = dict(r.d)
        return self.reduce(r.n, d).is_zero()

    def add_rule_from(self, eq):
        """Turn an equality hypothesis into a rewrite rule when it defines an atom
        power: a^k = rest with a not in rest."""
        r = self.rf(eq)
        n = self.reduce(r.n, {})
        if n.is_zero() or n.is_const():
            return False
        cands = []
        for k, c in n.m.items():
            if len(k) == 1 and k[0][1] <= 2:
                a, e = k[0]
                if a in self.rules and not (e == 1 and self.rules[a][0] == 2 and self.terms[a].num_args()):
                    continue
                if any(x == a for kk in n.m if kk != k for x, _ in kk):
                    continue
                cands.append(((e, len(n.m), self.prefer(a), a), a, e, k, c))
        for _, a, e, k, c in sorted(cands, key=lambda q: q[0]):
            rest = Poly({kk: -cc / c for kk, cc in n.m.items() if kk != k})
            # avoid cycles: no atom of rest may be rewritten to something containing a
            if any(b != a and a in rn.atoms() and b in rest.atoms() for b, (pw, rn, rd) in self.rules.items()):
                continue
            self.rules[a] = (e, rest, {})
            self.cache.clear()
            return True
        return False

    def prefer(self, a):
        t = self.terms[a]
        return 0 if t.num_args() == 0 else 1

    def vanishes_mod(self, n, eqs):
        """n is in the ideal of the given equations (each reduced by its leading monomial, one after the other)."""
        for e in eqs:
            g = self.reduce(self.rf(e).n, {})
            if g.is_zero():
                continue
            order = lambda k: sorted(k, key=lambda x: -x[0])
            lead = max(g.m, key=order)
            lc, ld = g.m[lead], dict(lead)
            rest = [(k, -c / lc) for k, c in g.m.items() if k != lead]
            m, out, steps = dict(n.m), {}, 0
            while m:
                k, c = m.popitem()
                kd = dict(k)
                if all(kd.get(a, 0) >= p for a, p in ld.items()):
                    steps += 1
                    if steps > 200000:
                        raise TooBig()
                    for a, p in ld.items():
                        kd[a] -= p
                    for rk, rcf in rest:
                        t = dict(kd)
                        for a, p in rk:
                            t[a] = t.get(a, 0) + p
                        t = tuple(sorted((a, p) for a, p in t.items() if p))
                        v = m.get(t, 0) + c * rcf
                        if v:
                            m[t] = v
                        else:
                            m.pop(t, None)
                else:
                    v = out.get(k, 0) + c
                    if v:
                        out[k] = v
                    else:
                        out.pop(k, None)
            n = Poly(out)
            if n.is_zero():
                return True
        return n.is_zero()

    def equal(self, a, b, ideal=()):
        d = self.add(self.rf(a), self.neg(self.rf(b)))
        if ideal and self.vanishes_mod(self.reduce(d.n, dict(d.d)), ideal):
            return True
        # converting may have added rules after pieces were built
        for _ in range(3):
            n = self.reduce(d.n, dict(d.d))
            if n.is_zero():
                return True
            d2 = self.add(self.rf(a), self.neg(self.rf(b)))
            if d2.n.m == d.n.m:
                break
            d = d2
        return self.reduce(d.n, dict(d.d)).is_zero()


def SQRT(t):
    return z3.Function('f_sqrt!h', z3.RealSort(), z3.RealSort())(t)


def HYP(t, b):
    return z3.Function('f_sqrt!a', z3.IntSort(), z3.RealSort())(z3.IntVal(b))


def divide(n, p):
    """Exact multivariate division, or None."""
    lead = max(p.m, key=lambda k: mkey(k))
    lc = p.m[lead]
    ld = dict(lead)
    rem = dict(n.m)
    q = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 3000:
            return None
        k = max(rem, key=lambda k: mkey(k))
        dk = dict(k)
        for a, e in ld.items():
            x = dk.get(a, 0) - e
            if x < 0:
                return None
            if x:
                dk[a] = x
            else:
                dk.pop(a, None)
        qk = tuple(sorted(dk.items()))
        c = rem[k] / lc
        q[qk] = q.get(qk, 0) + c
        for k2, c2 in p.m.items():
            kk = mmul(qk, k2)
            v = rem.get(kk, 0) - c * c2
            if v:
                rem[kk] = v
            else:
                rem.pop(kk, None)
    return Poly(q)


def mkey(k):
    # lexicographic order: smaller atom ids dominate
    return tuple((-a, e) for a, e in k)
