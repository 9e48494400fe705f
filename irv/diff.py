"""Symbolic differentiation of z3 real terms (spec side)."""
import z3
from .exec import uf, R0, rc, realc


def diff(t, x, memo=None):
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k]
    r = _diff(t, x, memo)
    memo[k] = r
    return r


def _z(t):
    return z3.is_rational_value(t) and t.as_fraction() == 0


def add(a, b):
    return b if _z(a) else a if _z(b) else a + b


def mul(a, b):
    if _z(a) or _z(b):
        return R0
    if z3.is_rational_value(a) and a.as_fraction() == 1:
        return b
    if z3.is_rational_value(b) and b.as_fraction() == 1:
        return a
    return a * b


ONE = z3.RealVal(1)


def _diff(t, x, memo):
    if t.eq(x):
        return ONE
    ch = t.children()
    if not ch:
        return R0
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = R0
        for c in ch:
            r = add(r, diff(c, x, memo))
        return r
    if k == z3.Z3_OP_SUB:
        r = diff(ch[0], x, memo)
        for c in ch[1:]:
            d = diff(c, x, memo)
            if not _z(d):
                r = r - d
        return r
    if k == z3.Z3_OP_UMINUS:
        d = diff(ch[0], x, memo)
        return R0 if _z(d) else -d
    if k == z3.Z3_OP_MUL:
        r = R0
        for i, c in enumerate(ch):
            d = diff(c, x, memo)
            if _z(d):
                continue
            p = d
            for j, o in enumerate(ch):
                if j != i:
                    p = mul(p, o)
            r = add(r, p)
        return r
    if k == z3.Z3_OP_DIV:
        a, b = ch
        da, db = diff(a, x, memo), diff(b, x, memo)
        r = R0 if _z(da) else da / b
        if not _z(db):
            r = r - mul(a, db) / (b * b)
        return r
    if k == z3.Z3_OP_ITE:
        a, b = diff(ch[1], x, memo), diff(ch[2], x, memo)
        if a.eq(b):
            return a
        return z3.If(ch[0], a, b)
    if k == z3.Z3_OP_TO_REAL or k == z3.Z3_OP_TO_INT:
        return R0
    if k == z3.Z3_OP_UNINTERPRETED:
        n = t.decl().name()
        ds = [diff(c, x, memo) if z3.is_real(c) else R0 for c in ch]
        if all(_z(d) for d in ds):
            return R0
        ps = partials(n, t, ch)
        r = R0
        for p, d in zip(ps, ds):
            if not _z(d):
                r = add(r, mul(p, d))
        return r
    raise ValueError('diff of %s' % t.decl())


def partials(n, t, a):
    u = a[0]
    if n == 'f_sin':
        return [uf('f_cos')(u)]
    if n == 'f_cos':
        return [-uf('f_sin')(u)]
    if n == 'f_tan':
        return [1 + t * t]
    if n == 'f_asin':
        return [1 / uf('f_sqrt')(1 - u * u)]
    if n == 'f_acos':
        return [-1 / uf('f_sqrt')(1 - u * u)]
    if n == 'f_atan':
        return [1 / (1 + u * u)]
    if n == 'f_sinh':
        return [uf('f_cosh')(u)]
    if n == 'f_cosh':
        return [uf('f_sinh')(u)]
    if n == 'f_tanh':
        return [1 - t * t]
    if n == 'f_exp':
        return [t]
    if n == 'f_log':
        return [1 / u]
    if n == 'f_exp2':
        return [t * uf('f_log')(z3.RealVal(2))]
    if n == 'f_log2':
        return [1 / (u * uf('f_log')(z3.RealVal(2)))]
    if n == 'f_log10':
        return [1 / (u * uf('f_log')(z3.RealVal(10)))]
    if n == 'f_log1p':
        return [1 / (1 + u)]
    if n == 'f_expm1':
        return [t + 1]
    if n == 'f_sqrt':
        return [1 / (2 * t)]
    if n == 'f_cbrt':
        return [1 / (3 * t * t)]
    if n == 'f_hypot':
        return [a[0] / t, a[1] / t]
    if n == 'f_atan2':
        y, x = a
        h = x * x + y * y
        return [x / h, -y / h]
    if n == 'f_pow':
        b, e = a
        return [e * uf('f_pow', 2)(b, e - 1), t * uf('f_log')(b)]
    # an uninterpreted user function: named partial derivatives
    return [z3.Function('D%d_%s' % (i, n), *([c.sort() for c in a] + [z3.RealSort()]))(*a)
            for i in range(len(a))]
