"""Spec-side linear algebra on lists of z3 reals."""
import z3
from .exec import R0, realc, radd, rmul, rsub, rneg, rdiv


def dot(a, b):
    r = R0
    for x, y in zip(a, b):
        r = radd(r, rmul(x, y))
    return r


def matmul(A, B):
    return [[dot(A[i], [B[k][j] for k in range(len(B))]) for j in range(len(B[0]))] for i in range(len(A))]


def matvec(A, v):
    return [dot(r, v) for r in A]


def T(A):
    return [list(r) for r in zip(*A)]


def eye(n):
    return [[realc(1.0 if i == j else 0.0) for j in range(n)] for i in range(n)]


def cross(a, b):
    return [rsub(rmul(a[1], b[2]), rmul(a[2], b[1])), rsub(rmul(a[2], b[0]), rmul(a[0], b[2])),
            rsub(rmul(a[0], b[1]), rmul(a[1], b[0]))]


def hamilton(z, w):
    """(w,x,y,z) order quaternion product from the defining i^2=j^2=k^2=ijk=-1."""
    a1, v1, a2, v2 = z[0], z[1:], w[0], w[1:]
    c = cross(v1, v2)
    return [rsub(rmul(a1, a2), dot(v1, v2))] + [radd(radd(rmul(a1, v2[i]), rmul(a2, v1[i])), c[i]) for i in range(3)]


def conj(q):
    return [q[0]] + [rneg(x) for x in q[1:]]


def qrot(q, p):
    """vec(q p q*)"""
    return hamilton(hamilton(q, [R0] + list(p)), conj(q))[1:]


def qmat(q):
    cols = [qrot(q, [realc(1.0 if i == j else 0.0) for i in range(3)]) for j in range(3)]
    return T(cols)


def skew(w):
    return [[R0, rneg(w[2]), w[1]], [w[2], R0, rneg(w[0])], [rneg(w[1]), w[0], R0]]


def rodrigues(w, c, s):
    """c I + s [w]x + (1-c) w w^T for a unit axis w."""
    K = skew(w)
    return [[radd(radd(c if i == j else R0, rmul(s, K[i][j])), rmul(rsub(realc(1.0), c), rmul(w[i], w[j])))
             for j in range(3)] for i in range(3)]


def elemental(ax, c, s):
    w = [realc(1.0 if i == ax else 0.0) for i in range(3)]
    return rodrigues(w, c, s)
