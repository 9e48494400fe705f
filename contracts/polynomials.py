"""The polynomial toolkit used by the line search."""
import z3
from irv.contract import *
from irv.llparse import DOUBLE

U = Unit('poly.cc', ['w_eval', 'w_diff', 'w_roots', 'w_min'], keep=['FindPolynomialRoots', 'EvaluatePolynomial'])
sqrt = uf('f_sqrt')
TRUSTED = ['a polynomial attains its minimum over an interval at an end point or at a root of its derivative',
           'Eigen::EigenSolver returns the eigenvalues of the companion matrix (roots of degree 3 and more)',
           'Eigen::FullPivLU solves the interpolation system']
BOUNDED_ONLY = ['roots of degree 3 and more, interpolating polynomials: run-time checks']


def horner(p, x):
    r = realc(0.0)
    for a in p:
        r = r * x + a
    return r


def power(p, x):
    n = len(p)
    r = realc(0.0)
    for i, a in enumerate(p):
        t = a
        for _ in range(n - 1 - i):
            t = t * x
        r = r + t
    return r


@contract(U, 'EvaluatePolynomial')
def _(c):
    for n in range(0, 7):
        p, x = c.reals('p%d_' % n, n), c.real('x')
        for q in c.run('w_eval', c.cells('p', p), n, x):
            c.eq(q, 'value of a polynomial with %d coefficients' % n, q.ret, power(p, x))
            c.cover([q])


@contract(U, 'DifferentiatePolynomial', check='stop')
def _(c):
    for n in range(1, 7):
        p = c.reals('p%d_' % n, n)
        out = c.out('out', max(1, n - 1))
        for q in c.run('w_diff', c.cells('p', p), n, out):
            c.eq(q, 'size for %d coefficients' % n, q.ret, IP.const(max(1, n - 1)))
            if n == 1:
                c.eq(q, 'derivative of a constant', c.get(q, out, 0), realc(0.0))
            for i in range(n - 1):
                c.eq(q, 'coefficient %d of %d' % (i, n - 1), c.get(q, out, i), realc(float(n - 1 - i)) * p[i])
            c.cover([q])
    for q in c.run('w_diff', c.cells('p', []), 0, c.out('out', 1)):
        c.ensures(q, 'empty polynomial rejected', TRUE if q.status == 'check' else FALSE)


def run_roots(c, coef, want, re, im, pre=()):
    sz = c.out('sizes', 2, size=4)
    return [(p, p.ret, sz) for p in c.run('w_roots', c.cells('p', coef), len(coef), re, im, sz)]


for lead in range(0, 3):
    @contract(U, 'FindPolynomialRoots, constant and linear, %d leading zeros' % lead)
    def _(c, lead=lead):
        a, b = c.real('a'), c.real('b')
        re, im = c.out('re', 2), c.out('im', 2)
        z = [realc(0.0)] * lead
        for q, ok, sz in run_roots(c, z + [b], 0, re, im):
            c.eq(q, 'constant: succeeds without roots', ok, IP.const(1))
            for k in (0, 1):
                c.eq(q, 'constant: no roots (%d)' % k, c.get(q, sz, k, 4, 'i'), IP.const(0))
        c.requires(a != 0)
        ps = run_roots(c, z + [a, b], 1, re, im)
        for q, ok, sz in ps:
            c.eq(q, 'succeeds', ok, IP.const(1))
            for k in (0, 1):
                c.eq(q, 'one root (%d)' % k, c.get(q, sz, k, 4, 'i'), IP.const(1))
            c.eq(q, 'the root is a root', a * c.get(q, re, 0) + b, realc(0.0))
            c.eq(q, 'it is real', c.get(q, im, 0), realc(0.0))
        c.cover([q for q, _, _ in ps])


for lead in range(0, 3):
    for has_re, has_im in ((1, 1), (1, 0), (0, 1)):
        if lead and not (has_re and has_im):
            continue

        @contract(U, 'FindPolynomialRoots, quadratic, %d leading zeros%s' % (lead, '' if has_re and has_im else ', real only' if has_re else ', imaginary only'))
        def _(c, lead=lead, has_re=has_re, has_im=has_im):
            a, b, d = c.real('a'), c.real('b'), c.real('c')
            re, im = (c.out('re', 2) if has_re else None), (c.out('im', 2) if has_im else None)
            c.requires(a != 0)
            ps = run_roots(c, [realc(0.0)] * lead + [a, b, d], 2, re, im)
            D = b * b - 4 * a * d
            for q, ok, sz in ps:
                c.eq(q, 'succeeds', ok, IP.const(1))
                for k, h in ((0, has_re), (1, has_im)):
                    c.eq(q, 'two roots (%d)' % k, c.get(q, sz, k, 4, 'i'), IP.const(2 if h else 0))
                x = [c.get(q, re, k) for k in range(2)] if has_re else None
                y = [c.get(q, im, k) for k in range(2)] if has_im else None
                isreal = c.E.check(list(q.pc) + [D < 0], 3000) == z3.unsat
                if not isreal:
                    c.ensures(q, 'complex branch only for a negative discriminant', D < 0)
                S = sqrt(D) if isreal else sqrt(-D)
                rules = [S * S == (D if isreal else -D)]
                if x:
                    if isreal:
                        for k in range(2):
                            c.eq(q, 'real root %d is a root' % k, a * x[k] * x[k] + b * x[k] + d, realc(0.0), rules=rules)
                        c.eq(q, 'sum of the roots (Vieta)', a * (x[0] + x[1]), -b, rules=rules)
                    else:
                        for k in range(2):
                            c.eq(q, 'real part of root %d' % k, 2 * a * x[k], -b)
                if y:
                    if isreal:
                        for k in range(2):
                            c.eq(q, 'real roots have no imaginary part (%d)' % k, y[k], realc(0.0))
                    else:
                        c.eq(q, 'conjugate pair', y[0], -y[1])
                        if x:
                            c.eq(q, 'complex roots are roots', a * (x[0] * x[0] - y[0] * y[0]) + b * x[0] + d, realc(0.0), rules=rules)
                        c.eq(q, 'imaginary part', 4 * a * a * y[0] * y[0], -D, rules=rules)
            c.cover([q for q, _, _ in ps])


for n in range(1, 6):
    for m in range(0, max(1, n - 1)):
        @contract(U, 'MinimizePolynomial, %d coefficients, %d critical points' % (n, m), check='stop')
        def _(c, n=n, m=m):
            p = c.reals('p', n)
            lo, hi = c.real('lo'), c.real('hi')
            c.requires(lo <= hi)
            R = c.reals('root', m)
            okv = z3.Bool('roots_found')
            calls = []

            def find(E, st, a, ins):
                base = E.load(st, a[0], llparse.PTR)
                size = c.get(st, a[0], 1, 8, 'i')
                got = [c.get(st, base, i) for i in range(n - 1)] if size.is_const() and size.cval() == n - 1 else None
                calls.append((list(st.pc), got))
                oid = E.new_id('roots')
                o = CellObj(8 * max(1, m), 'roots')
                for i in range(m):
                    o.cells[8 * i] = (8, R[i])
                o.heap = True
                st.mem[oid] = o
                E.store(st, a[1], Ptr(oid, IP.const(0)), llparse.PTR)
                E.store(st, Ptr(a[1].obj, a[1].off + 8), IP.const(m), llparse.Ty('i', 64))
                return okv
            Pv = z3.Function('P', z3.RealSort(), z3.RealSort())

            def evalp(E, st, a, ins):       # callee contract, proved above: the value of the polynomial passed
                base = E.load(st, a[0], llparse.PTR)
                E.oblige(st, 'the polynomial itself is evaluated (size)', lift(c.get(st, a[0], 1, 8, 'i')).z() == n)
                for i in range(n):
                    E.oblige(st, 'the polynomial itself is evaluated (%d)' % i, c.get(st, base, i) == p[i])
                return Pv(a[1])
            for nm in c.mod._bodies:
                if 'EvaluatePolynomial' in nm:
                    c.E.models[nm] = evalp
                if 'FindPolynomialRoots' in nm:
                    c.E.models[nm] = find
            x, v = c.out('x', 1), c.out('v', 1)
            ps = c.run('w_min', c.cells('p', p), n, lo, hi, x, v)
            for q in ps:
                X, F = c.get(q, x, 0), c.get(q, v, 0)
                c.ensures(q, 'minimiser inside the interval', z3.And(lo <= X, X <= hi))
                cand = [lo, hi, (lo + hi) / 2] + R
                c.ensures(q, 'minimiser is an end point, the middle or a critical point', z3.Or([X == k for k in cand]))
                c.ensures(q, 'value is the polynomial at the minimiser', F == Pv(X))
                inn = [z3.BoolVal(True)] * 3 + [z3.And(r >= lo, r <= hi, okv) for r in R]
                for i, k in enumerate(cand):
                    c.ensures(q, 'not above the polynomial at candidate %d' % i, z3.Implies(inn[i], F <= Pv(k)))
            if n > 2:
                c.results.append(dict(name='critical points are looked up', ok=bool(calls), backend='simplification', time=0.0))
            for pc, got in calls:
                c.results.append(dict(name='roots of a polynomial of the right size are requested', ok=got is not None, backend='simplification', time=0.0))
                if got is not None:
                    for i in range(n - 1):
                        c.oblige('roots of the derivative are requested (%d)' % i, pc, zz(got[i]) == (n - 1 - i) * p[i])
            c.cover(ps)
