"""Numeric refutation of an undischarged obligation: sample real values for its
variables with the library functions interpreted, and look for a point where the
hypotheses hold clearly and the goal fails clearly."""
import math
import random
import z3

MATH = {
    'f_sin': math.sin, 'f_cos': math.cos, 'f_tan': math.tan, 'f_asin': math.asin, 'f_acos': math.acos,
    'f_atan': math.atan, 'f_sinh': math.sinh, 'f_cosh': math.cosh, 'f_tanh': math.tanh, 'f_exp': math.exp,
    'f_log': math.log, 'f_exp2': lambda x: 2.0 ** x, 'f_log2': math.log2, 'f_log10': math.log10,
    'f_log1p': math.log1p, 'f_expm1': math.expm1, 'f_sqrt': math.sqrt, 'f_hypot': math.hypot,
    'f_atan2': math.atan2, 'f_pow': math.pow, 'f_erf': math.erf, 'f_erfc': math.erfc,
    'f_cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'f_asinh': math.asinh, 'f_acosh': math.acosh,
    'f_atanh': math.atanh,
}


class Bad(Exception):
    pass


class Ev:
    def __init__(self, rng, given):
        self.rng, self.given = rng, given
        self.memo = {}
        self.vars = {}
        self.scale = rng.choice([1.0, 1.0, 3.0, 0.1, 30.0])

    def var(self, t):
        n = t.decl().name()
        if n in self.vars:
            return self.vars[n]
        g = self.given.get(n)
        if g is not None and self.rng.random() < 0.7:
            v = g
        elif z3.is_bool(t):
            v = self.rng.random() < 0.5
        elif z3.is_int(t):
            v = self.rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7])
        else:
            r = self.rng.random()
            if r < 0.1:
                v = float(self.rng.choice([0, 1, -1, 2, 0.5]))
            elif r < 0.5:
                v = abs(self.rng.gauss(0, self.scale))
            else:
                v = self.rng.gauss(0, self.scale)
        self.vars[n] = v
        return v

    def ev(self, t):
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self._ev(t)
        if isinstance(r, float) and not math.isfinite(r):
            raise Bad()
        self.memo[k] = r
        return r

    def _ev(self, t):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return float(f)
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return self.var(t)
            a = [self.ev(c) for c in ch]
            n = t.decl().name()
            f = MATH.get(n)
            if f is not None:
                try:
                    return f(*a)
                except (ValueError, OverflowError, ZeroDivisionError):
                    raise Bad()
            key = (n, tuple(round(x, 9) if isinstance(x, float) else x for x in a))
            if key not in self.vars:
                if z3.is_bool(t):
                    self.vars[key] = self.rng.random() < 0.5
                elif z3.is_int(t):
                    self.vars[key] = self.rng.choice([0, 1, 2, 3, 4, 5])
                else:
                    self.vars[key] = self.rng.gauss(0, self.scale)
            return self.vars[key]
        if k == z3.Z3_OP_ITE:
            return self.ev(ch[1]) if self.ev(ch[0]) else self.ev(ch[2])
        if k == z3.Z3_OP_AND:
            return all(self.ev(c) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self.ev(c) for c in ch)
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev(ch[0])) or self.ev(ch[1])
        if k == z3.Z3_OP_NOT:
            return not self.ev(ch[0])
        a = [self.ev(c) for c in ch]
        try:
            if k == z3.Z3_OP_ADD:
                return sum(a)
            if k == z3.Z3_OP_SUB:
                r = a[0]
                for x in a[1:]:
                    r -= x
                return r
            if k == z3.Z3_OP_MUL:
                r = a[0]
                for x in a[1:]:
                    r *= x
                return r
            if k == z3.Z3_OP_UMINUS:
                return -a[0]
            if k == z3.Z3_OP_DIV:
                if a[1] == 0:
                    raise Bad()
                return a[0] / a[1]
            if k == z3.Z3_OP_IDIV:
                if a[1] == 0:
                    raise Bad()
                return a[0] // a[1] if a[1] > 0 else -(a[0] // -a[1])
            if k in (z3.Z3_OP_MOD, z3.Z3_OP_REM):
                if a[1] == 0:
                    raise Bad()
                return a[0] % abs(a[1])
            if k == z3.Z3_OP_TO_REAL:
                return float(a[0])
            if k == z3.Z3_OP_TO_INT:
                return math.floor(a[0])
            if k == z3.Z3_OP_POWER:
                return float(a[0]) ** a[1]
            if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
                if isinstance(a[0], bool):
                    e = a[0] == a[1]
                    return e if k == z3.Z3_OP_EQ else not e
                return cmp(k, a[0], a[1])
            if k == z3.Z3_OP_XOR:
                return a[0] != a[1]
        except (OverflowError, ZeroDivisionError):
            raise Bad()
        raise Bad()


def cmp(k, x, y):
    if k == z3.Z3_OP_EQ:
        return close(x, y)
    if k == z3.Z3_OP_DISTINCT:
        return not close(x, y)
    if k == z3.Z3_OP_LE:
        return x <= y
    if k == z3.Z3_OP_GE:
        return x >= y
    if k == z3.Z3_OP_LT:
        return x < y
    return x > y


def close(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x == y
    return abs(x - y) <= 1e-7 * (1 + abs(x) + abs(y))


def strict_true(E, t):
    """Hypothesis holds with margin (equalities up to rounding)."""
    return E.ev(t)


def clearly_false(E, t):
    k = t.decl().kind()
    if k == z3.Z3_OP_NOT:
        c = t.arg(0)
        ck = c.decl().kind()
        if ck in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_real(c.arg(0)):
            if close(E.ev(c.arg(0)), E.ev(c.arg(1))):
                return False
        return not E.ev(t)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and z3.is_real(t.arg(0)):
        x, y = E.ev(t.arg(0)), E.ev(t.arg(1))
        if close(x, y):
            return False
        return not E.ev(t)
    if k == z3.Z3_OP_AND:
        return any(clearly_false(E, c) for c in t.children())
    if k == z3.Z3_OP_OR:
        return all(clearly_false(E, c) for c in t.children())
    if k == z3.Z3_OP_IMPLIES:
        return E.ev(t.arg(0)) and clearly_false(E, t.arg(1))
    return not E.ev(t)


def refute(hyps, goal, given=None, tries=1500, seed=1, seconds=6.0):
    import time
    rng = random.Random(seed)
    end = time.time() + seconds
    for _ in range(tries):
        if time.time() > end:
            return None
        E = Ev(rng, given or {})
        try:
            if not all(E.ev(h) for h in hyps):
                continue
            if clearly_false(E, goal):
                return {k: v for k, v in E.vars.items() if isinstance(k, str)}
        except (Bad, RecursionError, TypeError):
            continue
    return None
