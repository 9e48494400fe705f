"""Small dense kernels: C op A B, C op A' B, c op A b, c op A' b, and nothing else changes."""
from irv.contract import *

U = Unit('sblas.cc', ['w_mm', 'w_mm_2x', 'w_mm_233', 'w_mm_s233', 'w_mm_t232', 'w_mv', 'w_mv_23', 'w_mv_39', 'w_mv_2x'])
TRUSTED = []
BOUNDED_ONLY = ['shapes other than the listed ones (all residues modulo the unrolling width 4 of every dimension are listed): run time']


def acc(xs):
    t = realc(0.0)
    for x in xs:
        t = t + x
    return t


def mm(fn, t, ra, ca, cb, pos=(0, 0, 0, 0)):
    rb = ra if t else ca
    rc_, cc = (ca if t else ra), cb
    r0, c0, er, ec = pos

    @contract(U, '%s %s%dx%d times %dx%d at (%d,%d)' % (fn, 'transposed ' if t else '', ra, ca, rb, cb, r0, c0))
    def _(c):
        A, B = c.reals('A', ra * ca), c.reals('B', rb * cb)
        rs, cs = r0 + rc_ + er, c0 + cc + ec
        for op in (1, 0, -1):
            C = c.reals('C%d_' % (op + 1), rs * cs)
            pA, pB, pC = c.cells('A', A), c.cells('B', B), c.cells('C', C)
            args = (op, pA, ra, ca, pB, rb, cb, pC, r0, c0, rs, cs)
            ps = c.run(fn, *(args if fn in ('w_mm_s233', 'w_mm_t232') else (t,) + args))
            for q in ps:
                for i in range(rs):
                    for j in range(cs):
                        v, want = c.get(q, pC, i * cs + j), C[i * cs + j]
                        if r0 <= i < r0 + rc_ and c0 <= j < c0 + cc:
                            a, b = i - r0, j - c0
                            s = acc([(A[k * ca + a] if t else A[a * ca + k]) * B[k * cb + b] for k in range(rb)])
                            want = want + s if op > 0 else want - s if op < 0 else s
                            c.eq(q, 'op %d product (%d,%d)' % (op, a, b), v, want)
                        else:
                            c.eq(q, 'op %d outside (%d,%d)' % (op, i, j), v, want)
            c.cover(ps)


def mv(fn, t, ra, ca):
    @contract(U, '%s %s%dx%d' % (fn, 'transposed ' if t else '', ra, ca))
    def _(c):
        nb, nc = (ra, ca) if t else (ca, ra)
        A, b = c.reals('A', ra * ca), c.reals('b', nb)
        for op in (1, 0, -1):
            x = c.reals('c%d_' % (op + 1), nc + 1)
            pA, pb, px = c.cells('A', A), c.cells('b', b), c.cells('c', x)
            ps = c.run(fn, t, op, pA, ra, ca, pb, px)
            for q in ps:
                for i in range(nc):
                    s = acc([(A[k * ca + i] if t else A[i * ca + k]) * b[k] for k in range(nb)])
                    c.eq(q, 'op %d product %d' % (op, i), c.get(q, px, i), x[i] + s if op > 0 else x[i] - s if op < 0 else s)
                c.eq(q, 'op %d outside' % op, c.get(q, px, nc), x[nc])
            c.cover(ps)


for t in (0, 1):
    for ra, ca, cb in ((1, 1, 1), (2, 3, 1), (3, 2, 2), (2, 4, 3), (3, 5, 4), (5, 3, 5), (2, 6, 6), (6, 2, 7), (1, 7, 8), (7, 1, 9), (4, 4, 4), (8, 9, 2), (9, 8, 3)):
        mm('w_mm', t, ra, ca, cb, (ra % 2, ca % 3, cb % 2, ra % 3))
    for ca, cb in ((1, 2), (3, 5), (6, 4)):
        mm('w_mm_2x', t, 2, ca, cb, (1, 0, 0, 2))
    mm('w_mm_233', t, 2, 3, 3, (0, 1, 1, 0))
    for ra in range(1, 10):
        for ca in (1, 2, 3, 4, 5, 6, 7, 8, 9):
            if (ra + ca + t) % 2 or ra == ca:
                mv('w_mv', t, ra, ca)
    mv('w_mv_23', t, 2, 3)
    mv('w_mv_39', t, 3, 9)
    for ca in (1, 2, 3, 5, 8):
        mv('w_mv_2x', t, 2, ca)
mm('w_mm_s233', 0, 2, 3, 4, (1, 2, 1, 1))
mm('w_mm_t232', 1, 2, 3, 4, (0, 1, 2, 1))
