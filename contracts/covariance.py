"""Covariance: which entries are computed, where a requested block lies, how it is lifted, and solves with R'R."""
import itertools
import z3
from irv.contract import *
from irv.llparse import DOUBLE
from irv import build
from blockprob import ints, strings

FL = build.SEQ + ['-I' + build.VERIF + '/tu/absl_seq']
ENT = ['w_rtr', 'w_cov_sparsity', 'w_cov_block', 'w_cov_matrix']
U = {e: Unit('cov.cc', [e], keep=[r'9StrFormat'], flags=FL) for e in ENT}
TRUSTED = ['event logging does nothing', 'Abseil containers (replaced by sorted vectors with the same meaning)', 'messages are opaque', 'manifolds are uninterpreted user code', 'parallel loops run one sequential schedule here (C16)']
BOUNDED_ONLY = ['the numerical factorisations (Eigen SparseQR, JacobiSVD), other problem structures and whole estimates: run time']
Z = realc(0.0)


def pattern(n, keep):
    return [[r for r in range(c) if keep(r, c)] + [c] for c in range(n)]


for n, keep, tag in ([(k, lambda r, c: True, 'full') for k in (1, 2, 3, 4)] + [(4, lambda r, c: c - r == 1, 'bidiagonal'), (5, lambda r, c: c == 4, 'arrow'), (5, lambda r, c: (r + c) % 2 == 0, 'interleaved')]):
    @contract(U['w_rtr'], 'SolveRTRWithSparseRHS, order %d, %s' % (n, tag))
    def _(c, n=n, keep=keep):
        P = pattern(n, keep)
        R = [[Z] * n for _ in range(n)]
        v = []
        for j in range(n):
            for r in P[j]:
                R[r][j] = c.real('r%d_%d' % (r, j))
                v.append(R[r][j])
        for j in range(n):
            c.requires(R[j][j] != 0)
        cols = [sum(len(p) for p in P[:j]) for j in range(n + 1)]
        for k in range(n):
            out = c.out('x', n)
            for q in c.run('w_rtr', n, ints(c, [r for p in P for r in p]), ints(c, cols), c.cells('v', v), k, out):
                x = c.vec(q, out, n)
                y = [sum((R[i][j] * x[j] for j in range(i, n)), Z) for i in range(n)]
                for j in range(n):
                    c.eq(q, "R'R x = e_%d, row %d" % (k, j), sum((R[i][j] * y[i] for i in range(j + 1)), Z), realc(1.0 if j == k else 0.0))


# (blocks: (size, tangent or -1), constant: 0 active, 1 constant, 2 unused), order in which they are added, requested pairs
CASES = [([(2, -1), (1, -1)], [0, 0], [0, 1], [(0, 0), (0, 1), (1, 1)]),
         ([(1, -1), (2, -1), (1, -1)], [0, 0, 0], [2, 0, 1], [(2, 0), (1, 1), (2, 1)]),
         ([(3, 2), (2, -1), (2, 1)], [0, 0, 0], [1, 2, 0], [(1, 0), (2, 2), (0, 2), (0, 0)]),
         ([(2, 1), (1, -1), (3, 2)], [0, 1, 0], [2, 1, 0], [(0, 0), (2, 0), (1, 2), (1, 1)]),
         ([(1, -1), (2, -1), (2, 0), (2, 1)], [2, 0, 0, 0], [3, 2, 1, 0], [(0, 3), (2, 3), (3, 1)]),
         ([(1, -1), (2, -1)], [1, 2], [0, 1], [(0, 0), (0, 1)]),
         ([(1, -1), (2, -1), (1, -1)], [1, 0, 0], [0, 1, 2], [(0, 0), (1, 0)])]


class S:
    def __init__(self, c, bl, const, order, pairs):
        self.c, self.bl, self.pairs = c, bl, pairs
        self.size = [s for s, _ in bl]
        self.tan = [s if t < 0 else t for s, t in bl]
        self.pos = [sum(self.size[:i]) for i in range(len(bl) + 1)]
        self.active = [i for i in range(len(bl)) if const[i] == 0 and self.tan[i] > 0]
        self.row, n = {}, 0
        for i in self.active:
            self.row[i] = n
            n += self.tan[i]
        self.n = n
        self.x = c.reals('x', self.pos[-1])
        self.px = c.cells('x', self.x)
        self.args = [len(bl), ints(c, self.size), ints(c, [t for _, t in bl]), ints(c, const), ints(c, order), self.px, len(pairs), ints(c, [i for p in pairs for i in p])]
        self.J = [[[c.real('J%d_%d_%d' % (i, a, b)) for b in range(self.tan[i])] for a in range(self.size[i])] for i in range(len(bl))]
        for b in self.J:
            for r in b:
                for v in r:
                    c.requires(v < 1e100, v > -1e100)       # a manifold has a finite Jacobian

        def plusj(E, st, a, ins):
            i = a[0].cval()
            off = a[1].off if isinstance(a[1].off, int) else a[1].off.cval()
            if a[1].obj != self.px.obj or off != 8 * self.pos[i]:
                c.oblige(st, 'PlusJacobian is asked for at the block of its manifold', FALSE)
            for k, v in enumerate(v for r in self.J[i] for v in r):
                E.store(st, Ptr(a[2].obj, a[2].off + 8 * k), v, DOUBLE)
            return IP.const(1)
        c.E.models['u_plusj'] = plusj
        strings(c)
        for f in list(c.mod.decls) + list(c.mod._bodies):
            if 'EventLogger' in f:
                c.E.models[f] = lambda E, st, a, ins: None
            elif 'ContextImpl20EnsureMinimumThreads' in f:
                c.E.models[f] = lambda E, st, a, ins: None
        self.C = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                self.C[i][j] = self.C[j][i] = c.real('c%d_%d' % (i, j))
        self.upper = {(min(a, b), max(a, b)) for a, b in pairs if a in self.row and b in self.row}

    def want(self, i, j, lift):
        def jac(k):
            return self.J[k] if lift and self.bl[k][1] >= 0 else [[realc(1.0 if a == b else 0.0) for b in range(self.tan[k])] for a in range(self.tan[k])]
        A, B = jac(i), jac(j)
        if i not in self.row or j not in self.row:
            return [[Z] * (self.size[j] if lift else self.tan[j]) for _ in range(self.size[i] if lift else self.tan[i])]
        c = [[self.C[self.row[i] + a][self.row[j] + b] for b in range(self.tan[j])] for a in range(self.tan[i])]
        return [[sum((A[a][p] * c[p][r] * B[b][r] for p in range(self.tan[i]) for r in range(self.tan[j])), Z) for b in range(len(B))] for a in range(len(A))]

    def known(self, i, j):
        return i not in self.row or j not in self.row or (min(i, j), max(i, j)) in self.upper


for n, (bl, const, order, pairs) in enumerate(CASES):
    @contract(U['w_cov_sparsity'], 'ComputeCovarianceSparsity, structure %d' % n)
    def _(c, bl=bl, const=const, order=order, pairs=pairs):
        s = S(c, bl, const, order, pairs)
        out = c.out('out', 80, size=4)
        for q in c.run('w_cov_sparsity', *s.args, out):
            c.eq(q, 'succeeds', q.ret, IP.const(1))
            rows, cols = [], []
            for i in s.active:
                for r in range(s.tan[i]):
                    rows.append(len(cols))
                    cols += [s.row[j] + k for j in s.active if (i, j) in s.upper for k in range(s.tan[j])]
            want = [s.n] + rows + [len(cols)] + cols if s.upper else [-1]
            for k, w in enumerate(want):
                c.eq(q, 'rows and columns of exactly the requested blocks (entry %d)' % k, c.get(q, out, k, 4, 'i'), IP.const(w))

    @contract(U['w_cov_block'], 'GetCovarianceBlock, structure %d' % n)
    def _(c, bl=bl, const=const, order=order, pairs=pairs):
        s = S(c, bl, const, order, pairs)
        for i, j, lift in itertools.product(range(len(bl)), range(len(bl)), (0, 1)):
            w = [v for r in s.want(i, j, lift) for v in r]
            out = c.out('out', len(w) or 1)
            full = c.cells('C', [s.C[a][b] for a in range(s.n) for b in range(s.n)] or [Z])
            for q in c.run('w_cov_block', *s.args, full, i, j, lift, out):
                ok = s.known(i, j)
                c.eq(q, 'available exactly if it was requested or is zero', q.ret, IP.const(1 if ok else 0))
                if ok:
                    for k, v in enumerate(w):
                        c.eq(q, 'block (%d, %d) %s' % (i, j, 'lifted' if lift else 'tangent'), c.get(q, out, k), v)

    @contract(U['w_cov_matrix'], 'GetCovarianceMatrix, structure %d' % n)
    def _(c, bl=bl, const=const, order=order, pairs=pairs):
        s = S(c, bl, const, order, pairs)
        for ids in ([len(bl) - 1, 0], list(range(len(bl))), [0]):
            for lift in (0, 1):
                sizes = [(s.size if lift else s.tan)[i] for i in ids]
                N = sum(sizes)
                out = c.out('out', N * N or 1)
                full = c.cells('C', [s.C[a][b] for a in range(s.n) for b in range(s.n)] or [Z])
                for q in c.run('w_cov_matrix', *s.args, full, len(ids), ints(c, ids), lift, out):
                    known = all(s.known(i, j) for i in ids for j in ids)
                    c.eq(q, 'available exactly if every block is', q.ret, IP.const(1 if known else 0))
                    if not known:
                        continue
                    a = 0
                    for i, si in zip(ids, sizes):
                        b = 0
                        for j, sj in zip(ids, sizes):
                            w = s.want(i, j, lift)
                            for x in range(si):
                                for y in range(sj):
                                    c.eq(q, 'block (%d, %d) at its place' % (i, j), c.get(q, out, (a + x) * N + b + y), w[x][y])
                            b += sj
                        a += si
