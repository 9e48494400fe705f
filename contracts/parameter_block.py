"""Parameter blocks: state, manifold, bounds."""
import z3
from irv.contract import *
from rb_models import models, acc, IMPOSSIBLE, BIG, R

ENT = ['w_pb_plus', 'w_pb_state', 'w_pb_constant']
U = Unit('resblock.cc', ENT, keep=[r'Corrector', r'EvaluationToString'])
TRUSTED = ['manifolds are uninterpreted user code, failing or not']
BOUNDED_ONLY = ['other sizes; the Problem interface and Solve (run time)']


def zmax(a, b):
    return z3.If(a > b, a, b)


def zmin(a, b):
    return z3.If(a < b, a, b)


for man in (0, 1):
    @contract(U, 'ParameterBlock::Plus%s' % (' with manifold' if man else ''), check='stop')
    def _(c, man=man):
        lo, hi, x, at, d = c.reals('lo', 2), c.reals('hi', 2), c.reals('x', 2), c.reals('at', 2), c.reals('d', 2)
        for i in range(2):
            c.requires(lo[i] > -BIG, lo[i] <= hi[i], hi[i] < BIG)
        for bounds in range(16):
            for fail in ((None, 'plus') if man else (None,)):
                F, D, RHO, PJ, PL, good = models(c, fail)
                y, out = c.out('y', 2), c.out('out', 8)
                ps = c.run('w_pb_plus', man, bounds, c.cells('lo', lo), c.cells('hi', hi), c.cells('x', x), c.cells('at', at), c.cells('d', d), y, out)
                for p in ps:
                    if p.status == 'check':
                        c.ensures(p, 'stops only on an invalid plus Jacobian', z3.Or([v == IMPOSSIBLE for v in (PJ[0](x[0], x[1]), PJ[1](x[0], x[1]))]) if man else z3.BoolVal(False))
                        continue
                    c.eq(p, 'returns what the manifold returns', p.ret, IP.const(int(fail is None)))
                    for i in range(2):
                        L = lo[i] if bounds >> (2 * i) & 1 else -BIG
                        H = hi[i] if bounds >> (2 * i + 1) & 1 else BIG
                        for k, v in ((0, L), (1, H), (2, L), (3, H)):
                            c.eq(p, 'bound %d of coordinate %d' % (k, i), c.get(p, out, 4 * i + k), v)
                        if fail is None:
                            v = PL[i](at[0], at[1], d[0]) if man else at[i] + d[i]
                            got = c.get(p, y, i)
                            if bounds >> (2 * i) & 1:
                                c.ensures(p, 'result %d respects the lower bound' % i, got >= L)
                                v = zmax(v, L)
                            if bounds >> (2 * i + 1) & 1:
                                c.ensures(p, 'result %d respects the upper bound' % i, got <= H)
                                v = zmin(v, H)
                            c.eq(p, 'result %d is the projected sum' % i, got, v, extra=[v <= BIG, v >= -BIG])
                c.cover(ps)


@contract(U, 'ParameterBlock state and manifold', check='stop')
def _(c):
    x, z = c.reals('x', 2), c.reals('z', 2)
    F, D, RHO, PJ, PL, good = models(c, None)
    px, pz = c.cells('x', x), c.cells('z', z)
    out, j1, j2, j3 = c.out('out', 4), c.out('j1', 2), c.out('j2', 2), c.out('j3', 4)
    ps = c.run('w_pb_state', px, pz, out, j1, j2, j3)
    for p in ps:
        if p.status == 'check':
            c.ensures(p, 'stops only on an invalid plus Jacobian', z3.Or([f(*v) == IMPOSSIBLE for f in PJ for v in (x, z)]))
            continue
        if c.E.decide(p, zz(p.ret) == -1):
            c.ensures(p, 'SetState fails only on an invalid plus Jacobian', z3.Or([f(*z) == IMPOSSIBLE for f in PJ]))
            continue
        c.eq(p, 'sizes, pointers and removal of the manifold', p.ret, IP.const(1 + 20 + 200 + 2000 + 10000 + 20000 + 40000 + 80000))
        for i in range(2):
            c.eq(p, 'initial state', c.get(p, out, i), x[i])
            c.eq(p, 'new state', c.get(p, out, 2 + i), z[i])
            c.eq(p, 'plus Jacobian at the initial state', c.get(p, j1, i), PJ[i](*x))
            c.eq(p, 'plus Jacobian follows the state', c.get(p, j2, i), PJ[i](*z))
            c.eq(p, 'user state is not touched', c.get(p, px, i), x[i])
        for i in range(4):
            c.eq(p, 'plus Jacobian of the new manifold at the current state', c.get(p, j3, i), PJ[i](*z))
    c.cover(ps)


@contract(U, 'ParameterBlock constancy', check='stop')
def _(c):
    models(c, None)
    ps = c.run('w_pb_constant', c.cells('x', c.reals('x', 2)))
    for p in ps:
        c.eq(p, 'constant when set so or without tangent space', p.ret, IP.const(0 + 2 + 4 + 0 + 16))
    c.cover(ps)


