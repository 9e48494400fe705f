"""Numeric differentiation: cost functions and first order functions."""
import z3
from irv.contract import *
from irv.llparse import DOUBLE, PTR

ENT = ['w_%s_%s' % (m, k) for m in ('forward', 'central', 'ridders') for k in 'sdyfg']
U = Unit('numdiff.cc', ENT)
sqrt = uf('f_sqrt')
TRUSTED = ['user functors are uninterpreted: deterministic in their arguments, failing or not at an arbitrary call']
BOUNDED_ONLY = ['Ridders extrapolation beyond three steps, other block sizes', 'accuracy of the differences on smooth functions (run time)']
EPS = realc(2.0 ** -26)     # sqrt(epsilon)
NR, SIZES = 2, (2, 1)


def zmax(a, b):
    return z3.If(a > b, a, b)


def zabs(a):
    return z3.If(a >= 0, a, -a)


def acc(xs):
    t = realc(0.0)
    for x in xs:
        t = t + x
    return t


def setup(c, first, fail):
    nr = 1 if first else NR
    npar = 2 if first else 3
    S = [z3.RealSort()] * npar
    F = [z3.Function('F%d' % i, *S, z3.RealSort()) for i in range(nr)]

    def call(E, st, a, ins):
        k = st.ghost.get('n', 0)
        st.ghost = dict(st.ghost, n=k + 1)
        x = [E.load(st, Ptr(a[0].obj, a[0].off + 8 * i), DOUBLE) for i in range(2)]
        if not first:
            x.append(E.load(st, a[1], DOUBLE))
        x = [simp(v) for v in x]
        st.ghost = dict(st.ghost, args=st.ghost.get('args', ()) + (x,))
        if k == fail:
            return IP.const(0)
        r = a[-1]
        for i, f in enumerate(F):
            E.store(st, Ptr(r.obj, r.off + 8 * i), f(*x), DOUBLE)
        return IP.const(1)
    c.E.models['u_c' if first else 'u_f'] = call
    return F


def options(c):
    o = [c.real(n) for n in ('relative_step', 'ridders_step', 'ridders_epsilon', 'shrink')]
    c.requires(o[0] > 0, o[1] > 0, o[2] > 0, o[2] < 1, o[3] > 1)
    return o


def run(c, entry, o, n, x, want):
    """want: which jacobian blocks are requested (None: no jacobians at all)."""
    first = entry[-1] in 'fg'
    po = c.cells('o', o)
    if first:
        px, r = c.cells('x', x), c.out('r', 1)
        g = c.out('g', 2) if want else None
        return c.run(entry, po, n, px, r, g), r, [g]
    bx, by = c.cells('x', x[:2]), c.cells('y', x[2:])
    px = c.cells('p', [bx, by])
    r = c.out('r', NR)
    js = [c.out('J%d' % i, NR * SIZES[i]) if want and want[i] else None for i in range(2)]
    pj = None if want is None else c.cells('J', [q if q is not None else NULL for q in js])
    return c.run(entry, po, n, px, r, pj), r, js


for method in ('forward', 'central', 'ridders'):
    for kind in 'sdyfg':
        first = kind in 'fg'
        wants = ((False,), (True,)) if first else (None, (True, True), (False, True), (True, False), (False, False))
        ns = (1, 2) if method == 'ridders' else (1,)
        for n in ns:
            nm = {'s': 'NumericDiffCostFunction', 'd': 'NumericDiffCostFunction dynamic residuals', 'y': 'DynamicNumericDiffCostFunction',
                  'f': 'NumericDiffFirstOrderFunction', 'g': 'NumericDiffFirstOrderFunction dynamic'}[kind]

            @contract(U, '%s %s%s' % (nm, method, ' %d extrapolations' % n if n > 1 else ''), check='stop')
            def _(c, method=method, kind=kind, first=first, wants=wants, n=n):
                entry = 'w_%s_%s' % (method, kind)
                o = options(c)
                x = c.reals('x', 2 if first else 3)
                if n > 1:      # the point and the step constants are fixed; the functor stays arbitrary
                    x = [realc(2.0), realc(-3.0)] if first else x[:2] + [realc(-3.0)]
                    o = [realc(0.25), realc(0.5), o[2], realc(4.0)]
                nr = 1 if first else NR
                code = 4 if first else 4 + 40 + 200 + 1000
                for want in wants:
                    if n > 1 and want not in ((True,), (False, True)):
                        continue
                    F = setup(c, first, -1)
                    if first:
                        want = want[0]
                    ps, r, js = run(c, entry, o, n, x, want)
                    for p in ps:
                        c.eq(p, 'succeeds with the declared sizes', p.ret, IP.const(code + 1))
                        for i in range(nr):
                            c.eq(p, 'residual %d' % i, c.get(p, r, i), F[i](*x))
                        blocks = [(0, 2)] if first else [(0, 2), (2, 1)]
                        for b, (s0, size) in enumerate(blocks):
                            if js[b] is None:
                                continue
                            for j in range(size):
                                v = x[s0 + j]
                                rel = o[1] if method == 'ridders' else o[0]
                                lo = zmax(EPS, o[1]) if method == 'ridders' else EPS
                                h = zmax(lo, zabs(v) * rel)

                                def diff(h):
                                    up, dn = list(x), list(x)
                                    up[s0 + j], dn[s0 + j] = v + h, v - h
                                    if method == 'forward':
                                        dn = x
                                    k = 1 if method == 'forward' else 2
                                    return [(f(*up) - f(*dn)) / (k * h) for f in F]
                                got = [c.get(p, js[b], i * size + j) for i in range(nr)]
                                if n == 1:
                                    want1 = diff(h)
                                    for i in range(nr):
                                        c.eq(p, 'derivative (%d, %d)' % (i, s0 + j), got[i], want1[i], extra=[h > 0])
                                else:
                                    # two extrapolations: the first difference uses h * shrink, the second h; the result is the
                                    # first difference or its Richardson extrapolation with the second
                                    k = o[3]
                                    d0, d1 = diff(h * k), diff(h)
                                    ext = [(k * k * d1[i] - d0[i]) / (k * k - 1) for i in range(nr)]

                                    def norm(u, v):
                                        return sqrt(acc([(a - b) * (a - b) for a, b in zip(u, v)]))
                                    big = realc(1.7976931348623157e308)
                                    over = z3.Or(norm(ext, d1) > big, norm(ext, d0) > big)
                                    for i in range(nr):
                                        c.ensures(p, 'derivative (%d, %d) is the Richardson extrapolation' % (i, s0 + j), z3.Or(got[i] == ext[i], over), extra=[h > 0])
                    c.cover(ps)
                    # the evaluated points: x itself, then one coordinate changed at a time
                # a failing call fails the evaluation
                if n == 1:
                    for want in wants[-1:] if first else ((True, True), (False, True)):
                        for fail in range(1 + (2 if method != 'forward' else 1) * (2 if first else (3 if want[0] else 1))):
                            setup(c, first, fail)
                            ps, r, js = run(c, entry, o, n, x, want[0] if first else want)
                            for p in ps:
                                c.eq(p, 'a failing functor call %d fails the evaluation' % fail, p.ret, IP.const(code))
