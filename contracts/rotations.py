"""Rotation conversions agree with the quaternion algebra, for every input."""
import z3
from irv.contract import *
from irv.linspec import *

ORDERS = {'c': (0, 1, 2, 3), 'e': (3, 0, 1, 2)}     # positions of w,x,y,z
SYS = [f + s for f in ('Extrinsic', 'Intrinsic') for s in
       ('XYZ', 'XYX', 'XZY', 'XZX', 'YZX', 'YZY', 'YXZ', 'YXY', 'ZXY', 'ZXZ', 'ZYX', 'ZYZ')]
BASE = ['aa2q', 'q2aa', 'R2q', 'R2q_rm', 'q2sR', 'q2sR_cm', 'q2R', 'q2R_cm', 'uqrot', 'qrot', 'qprod', 'qconj']
ENTRIES = ['w_%s_%s' % (b, o) for b in BASE for o in ORDERS] + [
    'w_R2aa', 'w_R2aa_rm', 'w_aa2R', 'w_aa2R_rm', 'w_aarot', 'w_cross', 'w_dot', 'w_eulerdeg']
U = Unit('rotation.cc', ENTRIES, keep=['__hypot3'])
UE = Unit('rotation.cc', ['w_eu_' + s for s in SYS] + ['w_eucm_' + s for s in SYS] + ['w_ue_' + s for s in SYS],
          keep=['__hypot3'])
TRUSTED = ['libstdc++ std::hypot(x,y,z) = sqrt(x^2+y^2+z^2)', 'libm sin, cos, sqrt, hypot, atan2 satisfy their defining identities']
BOUNDED_ONLY = ['RotationMatrixToEulerAngles, proper Euler systems: range normalisation adds the double nearest to pi, so the '
                'identity is not exact over the reals; checked at run time only']
sqrt, sin, cos, atan2 = uf('f_sqrt'), uf('f_sin'), uf('f_cos'), uf('f_atan2', 2)


def prep(c):
    def h3(E, s, a, ins):
        x, y, z = a
        return uf('f_sqrt')(radd(radd(rmul(x, x), rmul(y, y)), rmul(z, z)))
    for n in list(c.mod._bodies) + list(c.mod.decls):
        if '__hypot3' in n:
            c.E.models[n] = h3


def nrm(v):
    return sqrt(dot(v, v))


def order(vals, o):
    """Store (w,x,y,z) in the memory order o."""
    r = [None] * 4
    for k, p in enumerate(ORDERS[o]):
        r[p] = vals[k]
    return r


def unorder(mem, o):
    return [mem[p] for p in ORDERS[o]]


def eqvec(c, p, nm, got, want, **kw):
    for i, (a, b) in enumerate(zip(got, want)):
        c.eq(p, '%s[%d]' % (nm, i), a, b, **kw)


def eqmat(c, p, nm, got, want, **kw):
    for i, (a, b) in enumerate(zip(got, want)):
        eqvec(c, p, '%s[%d]' % (nm, i), a, b, **kw)


def unit(q):
    return dot(q, q) == realc(1.0)


for o in ORDERS:
    @contract(U, 'QuaternionProduct/Conjugate<%s>' % o)
    def _(c, o=o):
        z, w = c.reals('z', 4), c.reals('w', 4)
        pz, pw, out = c.cells('z', order(z, o)), c.cells('w', order(w, o)), c.out('zw', 4)
        for p in c.run('w_qprod_' + o, pz, pw, out):
            eqvec(c, p, 'product is the Hamilton product', unorder(c.vec(p, out, 4), o), hamilton(z, w))
            c.cover([p])
        for p in c.run('w_qconj_' + o, pz, out):
            eqvec(c, p, 'conjugate', unorder(c.vec(p, out, 4), o), conj(z))

    @contract(U, 'QuaternionToScaledRotation/QuaternionToRotation<%s>' % o)
    def _(c, o=o):
        q = c.reals('q', 4)
        pq, R = c.cells('q', order(q, o)), c.out('R', 9)
        M = qmat(q)
        n = dot(q, q)
        for p in c.run('w_q2sR_' + o, pq, R):
            eqmat(c, p, 'row-major scaled rotation = matrix of q p q*', c.mat(p, R, 3, 3), M)
        for p in c.run('w_q2sR_cm_' + o, pq, R):
            eqmat(c, p, 'column-major adapter', T(c.mat(p, R, 3, 3)), M)
        c.requires(n != 0)
        for e, f in (('w_q2R_', lambda m: m), ('w_q2R_cm_', T)):
            for p in c.run(e + o, pq, R):
                got = f(c.mat(p, R, 3, 3))
                eqmat(c, p, e + ' rotation = matrix of q p q* / |q|^2', got, [[x / n for x in r] for r in M])
                eqmat(c, p, e + ' R R^T = I', matmul(got, T(got)), eye(3))
                c.cover([p])

    @contract(U, 'UnitQuaternionRotatePoint/QuaternionRotatePoint<%s>' % o)
    def _(c, o=o):
        q, x = c.reals('q', 4), c.reals('p', 3)
        pq, pp, out = c.cells('q', order(q, o)), c.cells('p', x), c.out('r', 3)
        n = dot(q, q)
        for p in c.run('w_uqrot_' + o, pq, pp, out):
            eqvec(c, p, 'unit q: result = q p q*', c.vec(p, out, 3), qrot(q, x), rules=[unit(q)], extra=[unit(q)])
        c.requires(n > 0)
        for p in c.run('w_qrot_' + o, pq, pp, out):
            eqvec(c, p, 'any q: result = q p q* / |q|^2', c.vec(p, out, 3), [y / n for y in qrot(q, x)])
            c.cover([p])

    @contract(U, 'AngleAxisToQuaternion<%s>' % o)
    def _(c, o=o):
        prep(c)
        a = c.reals('a', 3)
        pa, out = c.cells('a', a), c.out('q', 4)
        th = nrm(a)
        half = th * realc(0.5)
        ch, sh = cos(half), sin(half)
        paths = c.run('w_aa2q_' + o, pa, out)
        for p in paths:
            q = unorder(c.vec(p, out, 4), o)
            w = [x / th for x in a]
            c.eq(p, 'nonzero angle: w = cos(theta/2)', q[0], ch, extra=[th != 0])
            eqvec(c, p, 'nonzero angle: xyz = sin(theta/2) axis', q[1:], [sh * x for x in w], extra=[th != 0])
            c.eq(p, 'unit norm', dot(q, q), realc(1.0))
            eqmat(c, p, 'nonzero angle: R(q) is the Rodrigues matrix', qmat(q),
                  rodrigues(w, 1 - 2 * sh * sh, 2 * sh * ch), extra=[th != 0])
            zero = [x == 0 for x in a]
            eqvec(c, p, 'zero angle gives the identity', q, [realc(1.0), R0z, R0z, R0z], extra=zero)
        c.cover(paths)

    @contract(U, 'QuaternionToAngleAxis<%s>' % o)
    def _(c, o=o):
        prep(c)
        q = c.reals('q', 4)
        pq, out = c.cells('q', order(q, o)), c.out('a', 3)
        c.requires(unit(q))
        s = nrm(q[1:])
        paths = c.run('w_q2aa_' + o, pq, out)
        for p in paths:
            a = c.vec(p, out, 3)
            for sg, cond in ((1, q[0] >= 0), (-1, q[0] < 0)):
                g = z3.RealVal(sg)
                phi = atan2(g * s, g * q[0])
                # sin(phi) = g s, cos(phi) = g w, so (cos phi, sin(phi)/s xyz) = g q
                ex = [s != 0, cond]
                eqvec(c, p, 'w%s0: a = 2 phi / s * xyz with phi = atan2(%+d s, %+d w)' % ('>=' if sg > 0 else '<', sg, sg),
                      a, [2 * phi / s * x for x in q[1:]], extra=ex)
            eqvec(c, p, 'identity quaternion gives zero', a, [R0z] * 3, extra=[x == 0 for x in q[1:]])
        c.cover(paths)

    for rm in ('', '_rm'):
        @contract(U, 'RotationMatrixToQuaternion%s<%s>' % (rm, o))
        def _(c, o=o, rm=rm):
            q = c.reals('p', 4)
            M = qmat(q)
            c.requires(unit(q))
            c.hint(unit(q))
            pR = c.cells('R', [x for r in (M if rm else T(M)) for x in r])
            out = c.out('q', 4)
            paths = c.run('w_R2q%s_%s' % (rm, o), pR, out)
            for p in paths:
                g = unorder(c.vec(p, out, 4), o)
                for i in range(4):
                    for j in range(i, 4):
                        c.eq(p, 'result is +-q: component product %d%d' % (i, j), g[i] * g[j], q[i] * q[j])
            c.cover(paths)

R0z = realc(0.0)


@contract(U, 'AngleAxisToRotationMatrix')
def _(c):
    prep(c)
    a = c.reals('a', 3)
    pa, R = c.cells('a', a), c.out('R', 9)
    th = nrm(a)
    w = [x / th for x in a]
    for e, f in (('w_aa2R', T), ('w_aa2R_rm', lambda m: m)):
        paths = c.run(e, pa, R)
        for p in paths:
            got = f(c.mat(p, R, 3, 3))
            eqmat(c, p, e + ' nonzero angle: Rodrigues matrix', got, rodrigues(w, cos(th), sin(th)), extra=[th != 0])
            eqmat(c, p, e + ' nonzero angle: R R^T = I', matmul(got, T(got)), eye(3), extra=[th != 0])
            eqmat(c, p, e + ' zero angle: identity', got, eye(3), extra=[x == 0 for x in a])
        c.cover(paths)


@contract(U, 'AngleAxisRotatePoint')
def _(c):
    prep(c)
    a, x = c.reals('a', 3), c.reals('p', 3)
    pa, pp, out = c.cells('a', a), c.cells('p', x), c.out('r', 3)
    th = nrm(a)
    w = [y / th for y in a]
    paths = c.run('w_aarot', pa, pp, out)
    for p in paths:
        r = c.vec(p, out, 3)
        eqvec(c, p, 'nonzero angle: Rodrigues matrix times point', r, matvec(rodrigues(w, cos(th), sin(th)), x), extra=[th != 0])
        eqvec(c, p, 'zero angle: unchanged', r, x, extra=[y == 0 for y in a])
    c.cover(paths)
    # result may alias the point: same values
    paths = c.run('w_aarot', pa, pp, pp)
    for p in paths:
        eqvec(c, p, 'in place: Rodrigues matrix times point', c.vec(p, pp, 3), matvec(rodrigues(w, cos(th), sin(th)), x),
              extra=[th != 0])


@contract(U, 'RotationMatrixToAngleAxis')
def _(c):
    prep(c)
    q = c.reals('p', 4)
    M = qmat(q)
    c.requires(unit(q))
    c.hint(unit(q))
    for e, e2, m in (('w_R2aa', 'w_R2q_c', T(M)), ('w_R2aa_rm', 'w_R2q_rm_c', M)):
        pR = c.cells('R', [x for r in m for x in r])
        out, q2, out2 = c.out('a', 3), c.out('q', 4), c.out('b', 3)
        for p in c.run(e, pR, out):
            # the same rotation through the two-step route
            for p2 in c.run(e2, pR, q2, st=p):
                for p3 in c.run('w_q2aa_c', q2, out2, st=p2):
                    eqvec(c, p3, e + ' equals matrix -> quaternion -> angle-axis', c.vec(p3, out, 3), c.vec(p3, out2, 3))


@contract(U, 'CrossProduct/DotProduct')
def _(c):
    a, b = c.reals('a', 3), c.reals('b', 3)
    pa, pb, out = c.cells('a', a), c.cells('b', b), c.out('r', 3)
    for p in c.run('w_cross', pa, pb, out):
        eqvec(c, p, 'cross', c.vec(p, out, 3), cross(a, b))
    for p in c.run('w_dot', pa, pb):
        c.eq(p, 'dot', p.ret, dot(a, b))
        c.cover([p])


@contract(U, 'EulerAnglesToRotationMatrix (degrees)')
def _(c):
    e = c.reals('e', 3)
    pe, R = c.cells('e', e), c.out('R', 9)
    import math
    d = realc(math.pi / 180.0)
    m = [elemental(k, cos(e[k] * d), sin(e[k] * d)) for k in range(3)]
    want = matmul(m[2], matmul(m[1], m[0]))
    for p in c.run('w_eulerdeg', pe, R):
        eqmat(c, p, 'Rz Ry Rx', c.mat(p, R, 3, 3), want)
        c.cover([p])


def euler_axes(S):
    """Shoemake's (i, j, k): first axis of the static-frame sequence, then by parity."""
    n = ['XYZ'.index(x) for x in S[-3:]]
    if S.startswith('Int'):
        n = n[::-1]
    i = n[0]
    odd = (n[1] - n[0]) % 3 != 1
    j = n[1]
    return i, j, 3 - i - j


for S in SYS:
    @contract(UE, 'EulerAnglesToRotation<%s>' % S)
    def _(c, S=S):
        e = c.reals('e', 3)
        pe, R = c.cells('e', e), c.out('R', 9)
        ax = ['XYZ'.index(x) for x in S[-3:]]
        m = [elemental(ax[k], cos(e[k]), sin(e[k])) for k in range(3)]
        if S.startswith('Ext'):
            want = matmul(m[2], matmul(m[1], m[0]))
        else:
            want = matmul(m[0], matmul(m[1], m[2]))
        for p in c.run('w_eu_' + S, pe, R):
            eqmat(c, p, 'product of elemental rotations', c.mat(p, R, 3, 3), want)
        for p in c.run('w_eucm_' + S, pe, R):
            eqmat(c, p, 'column-major adapter', T(c.mat(p, R, 3, 3)), want)
            c.cover([p])

    if len(set(S[-3:])) == 3:
        @contract(UE, 'RotationMatrixToEulerAngles<%s>' % S)
        def _(c, S=S):
            q = c.reals('p', 4)
            c.requires(unit(q))
            c.hint(unit(q))
            M = qmat(q)
            pR = c.cells('R', [x for r in M for x in r])
            e, R2 = c.out('e', 3), c.out('R2', 9)
            i, j, k = euler_axes(S)
            cy2 = M[i][i] * M[i][i] + M[j][i] * M[j][i]
            for p in c.run('w_ue_' + S, pR, e):
                for p2 in c.run('w_eu_' + S, e, R2, st=p):
                    # gimbal lock (cos of the middle angle zero) is checked at run time only
                    if c.E.check(list(p2.pc) + math_facts(p2.pc) + [cy2 > 0], 5000) == z3.unsat:
                        continue
                    eqmat(c, p2, 'angles reproduce the matrix', c.mat(p2, R2, 3, 3), M)
                    c.cover([p2])
