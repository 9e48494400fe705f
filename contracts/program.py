"""Programs: offsets, states, feasibility, reductions and orders of a list of parameter and residual blocks."""
import itertools
import z3
from irv.contract import *
from irv.llparse import DOUBLE
from irv import build
from rb_models import IMPOSSIBLE, BIG, R
from blockprob import ints, strings

ENT = ['w_plus', 'w_state', 'w_counts', 'w_valid', 'w_bounds', 'w_finite', 'w_reduce', 'w_sparsity', 'w_lex']
U = {e: Unit('prog.cc', [e], keep=[r'9StrFormat', 'AppendArrayToString', r'EvaluationToString', 'drop:Program8ToString'], flags=build.SEQ) for e in ENT}
TRUSTED = ['cost functions and manifolds are uninterpreted user code, failing or not', 'messages are opaque', 'parallel loops run one sequential schedule here (C16)']
BOUNDED_ONLY = ['other numbers of blocks than the listed ones', 'Problem (addition, removal, ownership, queries), fill reducing orders and independent sets: run time']
Z = realc(0.0)


class P:
    """Blocks: (size, tangent size or -1) each; residuals: (number of residuals, [blocks])."""

    def __init__(self, c, blocks, residuals, constant=None):
        self.c, self.blocks, self.residuals = c, blocks, residuals
        self.size = [s for s, _ in blocks]
        self.tan = [s if t < 0 else t for s, t in blocks]
        self.pos = [sum(self.size[:i]) for i in range(len(blocks) + 1)]
        self.tpos = [sum(self.tan[:i]) for i in range(len(blocks) + 1)]
        self.x = c.reals('x', self.pos[-1])
        self.px = c.cells('x', self.x)
        self.constant = constant
        k = NULL if constant is None else c.cells('const', constant, size=4)
        self.args = [len(blocks), ints(c, self.size), ints(c, [t for _, t in blocks]), k, len(residuals), ints(c, [r for r, _ in residuals]),
                     ints(c, [len(b) for _, b in residuals]), ints(c, [k for _, b in residuals for k in b]), self.px]
        self.user()

    def user(self):
        c = self.c
        self.PL = [[z3.Function('plus%d_%d' % (i, k), *([R] * (self.size[i] + self.tan[i] + 1))) for k in range(s)] for i, s in enumerate(self.size)]
        self.plus_ok = [c.int('plus_ok%d' % i, 0, 1) for i in range(len(self.blocks))]
        self.J_ok = c.int('plusj_ok', 0, 1)
        self.cost = [c.reals('r%d_' % i, n) for i, (n, _) in enumerate(self.residuals)]
        self.cost_ok = [c.int('cost_ok%d' % i, 0, 1) for i in range(len(self.residuals))]
        for r in self.cost:
            for v in r:
                c.requires(v != IMPOSSIBLE)
        self.calls = 0

        def ld(E, st, p, n):
            return [simp(E.load(st, Ptr(p.obj, p.off + 8 * i), DOUBLE)) for i in range(n)]

        def stv(E, st, p, xs):
            for i, v in enumerate(xs):
                E.store(st, Ptr(p.obj, p.off + 8 * i), v, DOUBLE)

        def plus(E, st, a, ins):
            i = a[0].cval()
            v = ld(E, st, a[1], self.size[i]) + ld(E, st, a[2], self.tan[i])
            stv(E, st, a[3], [f(*v) for f in self.PL[i]])
            return self.plus_ok[i]

        def plusj(E, st, a, ins):
            i = a[0].cval()
            stv(E, st, a[2], [realc(0.5)] * (self.size[i] * self.tan[i]))
            return IP.const(1)

        def cost(E, st, a, ins):
            i = a[0].cval()
            stv(E, st, a[1], self.cost[i])
            return self.cost_ok[i]
        M = c.E.models
        M['u_cost'], M['u_plus'], M['u_plusj'] = cost, plus, plusj
        M['u_prepare'] = lambda E, st, a, ins: None
        strings(c)


def conj(xs):
    xs = list(xs)
    return z3.And(xs) if xs else TRUE


def disj(xs):
    xs = list(xs)
    return z3.Or(xs) if xs else FALSE


def flags(c, name, n):
    v = [c.int('%s%d' % (name, i), 0, 1) for i in range(n)]
    return v, [zz(x) == 1 for x in v]


B = [(2, -1), (3, 2), (1, -1), (2, 0)]
RES = [(2, [0, 1]), (1, [2]), (3, [1, 0, 2]), (1, [3])]


for th in (1, 3):
    @contract(U['w_plus'], 'Program::Plus, %d threads' % th)
    def _(c, th=th):
        p = P(c, B, RES)
        d = c.reals('d', p.tpos[-1])
        s = c.reals('s', p.pos[-1])
        out = c.out('out', p.pos[-1] + 1)
        ps = c.run('w_plus', *p.args, c.raw('ctx', 8), th, c.cells('s', s), c.cells('d', d), out)
        man = [i for i, (_, t) in enumerate(B) if t >= 0]
        for q in ps:
            good = conj(zz(p.plus_ok[i]) == 1 for i in man)
            c.ensures(q, 'succeeds exactly when no manifold fails', (zz(q.ret) == 1) == good)
            if c.E.decide(q, zz(q.ret) == 1) is False:
                continue
            for i in range(len(B)):
                xs, ds = s[p.pos[i]:p.pos[i + 1]], d[p.tpos[i]:p.tpos[i + 1]]
                for k in range(p.size[i]):
                    c.eq(q, 'block %d, entry %d' % (i, k), c.get(q, out, p.pos[i] + k), p.PL[i][k](*(xs + ds)) if i in man else xs[k] + ds[k])
            c.eq(q, 'nothing past the end', c.get(q, out, p.pos[-1]), z3.Real('out_old%d' % p.pos[-1]))
            for k in range(p.pos[-1]):
                c.eq(q, 'the user state is not touched', c.get(q, p.px, k), p.x[k])
        c.cover(ps)


for copy, reset in ((0, 0), (1, 0), (0, 1), (1, 1)):
    @contract(U['w_state'], 'Program states%s%s' % (', copied to the user' if copy else '', ', reset' if reset else ''))
    def _(c, copy=copy, reset=reset):
        v, const = flags(c, 'const', 4)
        p = P(c, B, [], v)
        s = c.reals('s', p.pos[-1])
        out = c.out('out', p.pos[-1] + 1)
        ps = c.run('w_state', *p.args, c.cells('s', s), copy, reset, out)
        for q in ps:
            c.eq(q, 'succeeds', q.ret, IP.const(1 + 2 * reset))
            for i in range(4):
                fixed = z3.Or(const[i], TRUE if p.tan[i] == 0 else FALSE)
                for k in range(p.pos[i], p.pos[i + 1]):
                    w = z3.If(fixed, p.x[k], s[k])
                    user = w if copy else p.x[k]
                    c.eq(q, 'the state of block %d, constant or not' % i, c.get(q, out, k), user if reset else w)
                    c.eq(q, 'the user state of block %d' % i, c.get(q, p.px, k), user)
            c.eq(q, 'nothing past the end', c.get(q, out, p.pos[-1]), z3.Real('out_old%d' % p.pos[-1]))
        c.cover(ps)


SHAPES = [(B, RES), (B, []), (B[:1], [(4, [0])]), ([(2, 1), (1, -1)], [(0, [0]), (2, [1, 0])]), ([], [])]


@contract(U['w_counts'], 'Program counts and offsets')
def _(c):
    for bl, rs in SHAPES:
        p = P(c, bl, rs)
        out, ix = c.out('out', 11, size=4), c.out('ix', 3 * len(bl) + 1, size=4)
        ps = c.run('w_counts', *p.args, out, ix)
        der = [n * sum(p.tan[k] for k in b) for n, b in rs]
        scratch = [n * (1 + sum(p.size[k] for k in b if bl[k][1] >= 0)) for n, b in rs]
        want = [len(bl), sum(p.size), sum(p.tan), len(rs), sum(n for n, _ in rs), max(scratch + [0]), max(der + [0]), max([len(b) for _, b in rs] + [0]), max([n for n, _ in rs] + [0]), 1]
        for q in ps:
            for i, nm in enumerate(['parameter blocks', 'parameters', 'effective parameters', 'residual blocks', 'residuals', 'scratch', 'derivatives', 'blocks per residual', 'residuals per block', 'valid']):
                c.eq(q, 'number of %s' % nm, c.get(q, out, i, 4, 'i'), IP.const(want[i]))
            for i in range(len(bl)):
                for k, w in enumerate((i, p.pos[i], p.tpos[i])):
                    c.eq(q, ['index', 'state offset', 'delta offset'][k], c.get(q, ix, 3 * i + k, 4, 'i'), IP.const(w))
        c.cover(ps)


@contract(U['w_valid'], 'Program::IsValid')
def _(c):
    p = P(c, B, RES)
    v = c.int('v', -5, 100)
    for which in range(1, 5):
        for i in range(4):
            ps = c.run('w_valid', *p.args, which, i, v)
            w = {1: i, 2: i, 3: p.pos[i], 4: p.tpos[i]}[which]
            for q in ps:
                c.ensures(q, 'valid exactly when nothing is out of place', (zz(q.ret) == 1) == (zz(v) == w))
            c.cover(ps)


for bl in ([(2, -1)], [(1, -1), (1, -1)]):
    @contract(U['w_bounds'], 'Program::IsFeasible and IsBoundsConstrained, %d blocks' % len(bl), limit=300, maxsteps=20000000)
    def _(c, bl=bl):
        n = len(bl)
        v, const = flags(c, 'const', n)
        lf, lset = flags(c, 'lower_set', 2)
        uf_, uset = flags(c, 'upper_set', 2)
        p = P(c, bl, [], v)
        lo, hi = c.reals('lo', 2), c.reals('hi', 2)
        for k in range(2):
            c.requires(z3.And(p.x[k] <= BIG, p.x[k] >= -BIG))
            c.requires(z3.And(lo[k] <= BIG, lo[k] >= -BIG, hi[k] <= BIG, hi[k] >= -BIG))
        ps = c.run('w_bounds', *p.args, c.cells('lf', lf, size=4), c.cells('lo', lo), c.cells('uf', uf_, size=4), c.cells('hi', hi))
        L = [z3.If(lset[k], lo[k], -BIG) for k in range(2)]
        H = [z3.If(uset[k], hi[k], BIG) for k in range(2)]
        of = [0, n - 1]
        ok = conj(z3.If(const[of[k]], z3.And(p.x[k] >= L[k], p.x[k] <= H[k]), L[k] < H[k]) for k in range(2))
        bounded = disj(z3.And(z3.Not(const[of[k]]), z3.Or(L[k] > -BIG, H[k] < BIG)) for k in range(2))
        for q in ps:
            r = zz(q.ret)
            c.ensures(q, 'feasible: constant values within their bounds, other bounds nonempty', z3.Or(r == 1, r == 3) == ok)
            c.ensures(q, 'constrained exactly when a varying block has a bound', (r >= 2) == bounded)
        c.cover(ps)


@contract(U['w_finite'], 'Program::ParameterBlocksAreFinite')
def _(c):
    p = P(c, [(2, -1), (1, -1)], [])
    for q in c.run('w_finite', *p.args):
        c.ensures(q, 'no unset value', (zz(q.ret) == 1) == z3.Not(disj(v == IMPOSSIBLE for v in p.x)))


RED = [([(2, -1), (3, 2), (1, -1), (2, 0)], [(2, [0, 1]), (1, [2]), (1, [3]), (1, [3, 0])]),
       ([(1, -1), (2, 1), (1, -1)], [(1, [0]), (2, [1, 0]), (1, [1])]),
       ([(1, -1), (1, -1)], [])]
for n, (bl, rs) in enumerate(RED):
    @contract(U['w_reduce'], 'Program::CreateReducedProgram, structure %d' % n, limit=300)
    def _(c, bl=bl, rs=rs):
        v, const = flags(c, 'const', len(bl))
        p = P(c, bl, rs, v)
        fixed = [z3.Or(const[i], TRUE if p.tan[i] == 0 else FALSE) for i in range(len(bl))]
        gone = [conj(fixed[k] for k in b) for _, b in rs]
        cost, out = c.out('cost', 1), c.out('out', 40, size=4)
        ps = c.run('w_reduce', *p.args, cost, out)
        for q in ps:
            fails = disj(z3.And(gone[r], zz(p.cost_ok[r]) == 0) for r in range(len(rs)))
            c.ensures(q, 'fails exactly when a fixed residual block cannot be evaluated', zz(q.ret) == z3.If(fails, z3.IntVal(0), z3.IntVal(1)))
            if c.E.decide(q, zz(q.ret) == 1) is False:
                continue
            want = Z
            for r in range(len(rs)):
                t = Z
                for y in p.cost[r]:
                    t = t + y * y
                want = want + z3.If(gone[r], t / 2, Z)
            c.eq(q, 'the fixed cost is the cost of the removed residual blocks', c.get(q, cost, 0), want)
            # a path decides which blocks are constant
            def known(f):
                d = c.E.decide(q, simp(f))
                c.ensures(q, 'the path decides what is constant', TRUE if d is not None else FALSE)
                return bool(d)
            rest = [r for r in range(len(rs)) if not known(gone[r])]
            used = [i for i in range(len(bl)) if any(i in rs[r][1] for r in rest) and not known(fixed[i])]
            # a block that no remaining residual block needs as a variable is removed
            dead = [i for i in range(len(bl)) if i not in used]
            seq = [len(used), len(rest), len(dead)]
            so = do = 0
            for k, i in enumerate(used):
                seq += [p.pos[i], k, so, do]
                so, do = so + p.size[i], do + p.tan[i]
            seq += rest + [p.pos[i] for i in dead]
            for k, w in enumerate(seq):
                c.eq(q, 'blocks that stay, in order, with their offsets; removed blocks (entry %d)' % k, c.get(q, out, k, 4, 'i'), IP.const(w))
        c.cover(ps)


@contract(U['w_sparsity'], 'Program::CreateJacobianBlockSparsityTranspose')
def _(c):
    for bl, rs in ((B, RES), ([(1, -1)] * 3, [(1, [0, 1, 2])])):
        for start in range(len(rs) + 1):
            v, const = flags(c, 'const', len(bl))
            p = P(c, bl, rs, v)
            fixed = [z3.Or(const[i], TRUE if p.tan[i] == 0 else FALSE) for i in range(len(bl))]
            out = c.out('out', 60, size=4)
            ps = c.run('w_sparsity', *p.args, start, out)
            for q in ps:
                want = []
                for r in range(start, len(rs)):
                    for k in rs[r][1]:
                        d = c.E.decide(q, simp(fixed[k]))
                        if d is None:
                            c.ensures(q, 'the path decides what is constant', FALSE)
                        if d is False:
                            want += [k, r - start]
                c.eq(q, 'number of entries and sizes', q.ret, IP.const(len(want) // 2 + 100 * len(bl) + 1000 * (len(rs) - start)))
                for k, w in enumerate(want):
                    c.eq(q, 'entry', c.get(q, out, k, 4, 'i'), IP.const(w))
            c.cover(ps)


for n, (nb, ne, rs) in enumerate([(3, 2, [[1, 2], [0, 2], [2], [1], [0]]), (4, 2, [[2, 3], [1], [0, 3], [1, 2], [0]]), (2, 2, [[1, 0], [1], [0]])]):
    @contract(U['w_lex'], 'LexicographicallyOrderResidualBlocks, structure %d' % n, check='stop')
    def _(c, nb=nb, ne=ne, rs=rs):
        v, const = flags(c, 'const', nb)
        p = P(c, [(1, -1)] * nb, [(1, b) for b in rs], v)
        out = c.out('out', len(rs), size=4)
        ps = c.run('w_lex', *p.args, ne, out)
        for q in ps:
            cn = [c.E.decide(q, simp(const[i])) for i in range(nb)]
            def key(b):
                return min([ne] + [k for k in b if not cn[k] and k < ne])
            keys = [key(b) for b in rs]
            if any(cn[k] is None for b in rs for k in b):
                c.ensures(q, 'the path decides what is constant', FALSE)
                continue
            if q.status == 'check':
                c.ensures(q, 'stops only when an eliminated block has no residual block', TRUE if any(k not in keys for k in range(ne)) else FALSE)
                continue
            c.eq(q, 'succeeds', q.ret, IP.const(1 + 2 * len(rs)))
            got = [c.get(q, out, i, 4, 'i').cval() for i in range(len(rs))]
            c.ensures(q, 'a permutation', TRUE if sorted(got) == list(range(len(rs))) else FALSE)
            c.ensures(q, 'grouped by eliminated block, in the order of the blocks', TRUE if [keys[i] for i in got] == sorted(keys) else FALSE)
        c.cover(ps)
