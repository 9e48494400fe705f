"""The trust region minimizer: what Minimize does for every problem, strategy and callback."""
import re
import z3
from irv.contract import *
from irv.llparse import DOUBLE
from irv.exec import Agg

U = Unit('trmin.cc', ['w_trm'], keep=[r'9StrFormat'])
sqrt = uf('f_sqrt')
R, B = z3.RealSort(), z3.BoolSort()
MAX = realc(1.7976931348623157e308)
HUGE = realc(1e100)
TRUSTED = ['evaluator, strategy, inner minimizer and callbacks are uninterpreted; costs and times are below 1e100',
           'absl time and message formatting are opaque', 'CoordinateDescentMinimizer is replaced by an arbitrary point']
BOUNDED_ONLY = ['more than two trust region iterations, the projected line search, dumping of problems (run time)']
NO_CONV, CONV, FAIL, USER_OK, USER_FAIL = 1, 0, 2, 3, 4


def acc(xs):
    t = realc(0.0)
    for x in xs:
        t = t + x
    return t


def zabs(a):
    return z3.If(a >= 0, a, -a)


def zmax(xs):
    m = xs[0]
    for x in xs[1:]:
        m = z3.If(x > m, x, m)
    return m


def norm(xs):
    return sqrt(acc([v * v for v in xs]))


class Problem:
    """Uninterpreted problem of p ambient, e tangent parameters and r residuals."""

    def __init__(self, p, e, r):
        f = lambda n, k: z3.Function(n, *([R] * k), R)
        g = lambda n, k: z3.Function(n, *([R] * k), B)
        self.p, self.e, self.r = p, e, r
        self.cost, self.ok, self.jok = f('cost', p), g('evaluates', p), g('differentiates', p)
        self.res = [f('f%d' % i, p) for i in range(r)]
        self.grad = [f('g%d' % i, p) for i in range(e)]
        self.jac = [[f('J%d_%d' % (i, j), p) for j in range(e)] for i in range(r)]
        self.plus, self.pok = [f('plus%d' % i, p + e) for i in range(p)], g('plusses', p + e)
        self.inner = [f('inner%d' % i, p) for i in range(p)]
        self.step = lambda k: [z3.Real('step%d_%d' % (k, i)) for i in range(e)]
        self.status = lambda k: z3.Int('solver%d' % k)
        self.iters = lambda k: z3.Int('solver_iterations%d' % k)
        self.radius = lambda k: z3.Real('radius%d' % k)
        self.cb = lambda w, k: z3.Int('callback%d_%d' % (w, k))
        self.time = lambda k: z3.Real('time%d' % k)


def models(c, P):
    def log(st, *x):
        st.ghost = dict(st.ghost, log=st.ghost.get('log', ()) + (x,))

    def cnt(st, k):
        return sum(1 for x in st.ghost.get('log', ()) if x[0] == k)

    def ld(E, st, p, n):
        return [simp(E.load(st, Ptr(p.obj, p.off + 8 * i), DOUBLE)) for i in range(n)]

    def wr(E, st, p, xs):
        for i, v in enumerate(xs):
            E.store(st, Ptr(p.obj, p.off + 8 * i), v, DOUBLE)

    def null(q):
        return q is NULL or (isinstance(q, Ptr) and q.obj is None)

    def J(st):
        return st.ghost['J']

    def ev(E, st, a, ins):
        apply, fresh = a[0].cval(), a[1].cval()
        x = ld(E, st, a[2], P.p)
        want = a[6].cval()
        if P.sure:
            st.assume((P.jok if want else P.ok)(*x))
        good = E.need(st, (P.jok if want else P.ok)(*x))
        log(st, 'eval', x, apply, fresh, want)
        if not good:
            return IP.const(0)
        if not null(a[3]):
            t = P.cost(*x)
            st.assume(t >= 0)
            st.assume(t < HUGE)
            E.store(st, a[3], t, DOUBLE)
        if not null(a[4]):
            wr(E, st, a[4], [f(*x) for f in P.res])
        if not null(a[5]):
            wr(E, st, a[5], [f(*x) for f in P.grad])
        if want:
            st.ghost = dict(st.ghost, J=[[f(*x) for f in row] for row in P.jac])
        return IP.const(1)

    def plus(E, st, a, ins):
        x = ld(E, st, a[0], P.p) + ld(E, st, a[1], P.e)
        if P.sure:
            st.assume(P.pok(*x))
        if not E.need(st, P.pok(*x)):
            return IP.const(0)
        wr(E, st, a[2], [f(*x) for f in P.plus])
        return IP.const(1)

    def sqnorm(E, st, a, ins):
        wr(E, st, a[0], [acc([J(st)[i][j] * J(st)[i][j] for i in range(P.r)]) for j in range(P.e)])

    def scale(E, st, a, ins):
        s = ld(E, st, a[0], P.e)
        st.ghost = dict(st.ghost, J=[[row[j] * s[j] for j in range(P.e)] for row in J(st)])

    def rm(E, st, a, ins):
        x, y = ld(E, st, a[0], P.e), ld(E, st, a[1], P.r)
        wr(E, st, a[1], [y[i] + acc([J(st)[i][j] * x[j] for j in range(P.e)]) for i in range(P.r)])

    def step(E, st, a, ins):
        k = cnt(st, 'step')
        r = next((q for q in (0, 1, 2) if E.need(st, P.status(k) == q)), 3)
        log(st, 'step', a[0], ld(E, st, a[1], P.r), J(st))
        wr(E, st, a[2], P.step(k))
        E.store(st, a[3], IP.atom(P.iters(k)), INT)
        return IP.const(r)

    def action(E, st, a, ins):
        log(st, 'action', a[0].cval(), a[1])

    def radius(E, st, a, ins):
        return P.radius(cnt(st, 'action'))

    def callback(E, st, a, ins):
        w = a[0].cval()
        k = sum(1 for x in st.ghost.get('log', ()) if x[0] == 'callback' and x[1] == w)
        r = next((q for q in (0, 1) if E.need(st, P.cb(w, k) == q)), 2)
        log(st, 'callback', w, a[1], a[2], a[3], a[4], ld(E, st, st.ghost['px'], P.p))
        return IP.const(r)

    def inner(E, st, a, ins):
        x = ld(E, st, a[0], P.p)
        log(st, 'inner', x)
        wr(E, st, a[0], [f(*x) for f in P.inner])

    def seconds(E, st, a, ins):
        k = st.ghost.get('times', 0)
        t = P.time(k)
        st.ghost = dict(st.ghost, times=k + 1, read=st.ghost.get('read', ()) + ((cnt(st, 'step'), t),))
        st.assume(t >= 0)
        st.assume(t < HUGE)
        return t

    def now(E, st, a, ins):
        return Agg([IP.const(0), IP.const(0)])

    def first(E, st, a, ins):
        return a[0]

    def fmt(E, st, a, ins):
        E.store(st, a[0], Ptr(a[0].obj, a[0].off + 16), PTRTY)
        E.store(st, Ptr(a[0].obj, a[0].off + 8), IP.const(0), I64)
        E.store(st, Ptr(a[0].obj, a[0].off + 16), IP.const(0), I8)
    from irv import llparse
    INT, I64, I8, PTRTY = llparse.Ty('i', 32), llparse.Ty('i', 64), llparse.Ty('i', 8), llparse.PTR
    c.E.models.update(u_eval=ev, u_plus=plus, u_sqnorm=sqnorm, u_scale=scale, u_rm=rm, u_step=step, u_action=action, u_radius=radius,
                      u_callback=callback, u_inner=inner)
    for n in list(c.mod.decls) + list(c.mod._bodies):
        if '9StrFormat' in n:
            c.E.models[n] = fmt
        elif 'absl' in n and n.endswith('3NowEv'):
            c.E.models[n] = now
        elif 'absl' in n and 'DurationmI' in n:
            c.E.models[n] = first
        elif 'ToDoubleSeconds' in n:
            c.E.models[n] = seconds
        elif 'basic_string' in n and 'M_create' in n:
            c.E.models[n] = lambda E, st, a, ins: E.models['_Znwm'](E, st, [IP.const(64)], ins)
        elif 'basic_string' in n and ('M_assign' in n or 'M_replace' in n):
            c.E.models[n] = first


class Stop(Exception):
    pass


class Run:
    """Replays the documented algorithm along one path of the code."""

    def __init__(self, c, P, p, o, io, x0, px, out, st, it, iti):
        self.c, self.P, self.p, self.o, self.io = c, P, p, o, io
        self.px, self.out, self.st, self.it, self.iti = px, out, st, it, iti
        self.log = list(p.ghost.get('log', ()))
        self.x = list(x0)
        self.nrec = 0
        self.records = []
        self.nact = self.nstep = self.ntime = 0
        self.ncb = {}
        self.base = []

    def take(self, kind, what):
        for i, e in enumerate(self.log):
            if e[0] == kind:
                del self.log[i]
                return e
        self.ok(what, FALSE)
        raise Stop

    def ok(self, nm, g, **k):
        self.c.ensures(self.p, nm, g, extra=self.base, **k)

    def eq(self, nm, a, b):
        self.c.eq(self.p, nm, a, b, extra=self.base)

    def when(self, what, cond):
        """A branch of the algorithm: the code must have settled it."""
        d = self.c.E.decide(self.p, cond)
        if d is None:
            # by proof
            if self.c.E.proves(self.p, cond, 4000):
                return True
            if self.c.E.proves(self.p, z3.Not(cond), 4000):
                return False
            self.ok('decided: ' + what, FALSE)
            raise Stop
        return d

    def vec(self, nm, a, b):
        for i, (u, v) in enumerate(zip(a, b)):
            self.eq('%s (%d)' % (nm, i), u, v)

    def differentiate(self, fresh, where):
        """Evaluation with derivatives at x; False when the solver has to give up."""
        P, x = self.P, self.x
        e = self.take('eval', where + ': evaluates with derivatives')
        while not e[4]:
            self.ok(where + ': evaluates with derivatives', FALSE)
            raise Stop
        self.vec(where + ': derivatives at x', e[1], x)
        self.ok(where + ': the loss is applied', TRUE if e[2] == 1 else FALSE)
        if fresh is not None:
            self.ok(where + ': the evaluation point is flagged as new exactly when it is', TRUE if e[3] == int(fresh) else FALSE)
        if not self.when('derivatives', P.jok(*x)):
            return False
        self.f, g = [f(*x) for f in P.res], [f(*x) for f in P.grad]
        self.J = [[f(*x) for f in row] for row in P.jac]
        if self.nrec == 0:
            self.scale = [realc(1.0)] * P.e
            if self.io['jacobi']:
                self.scale = [1 / (1 + norm([self.J[i][j] for i in range(P.r)])) for j in range(P.e)]
                self.base += [norm([self.J[i][j] for i in range(P.r)]) >= 0 for j in range(P.e)]
        self.J = [[row[j] * self.scale[j] for j in range(P.e)] for row in self.J]
        d = x + [-v for v in g]
        if not self.when('Plus(x, -g)', P.pok(*d)):
            return False
        q = [x[i] - P.plus[i](*d) for i in range(P.p)]
        self.gmax, self.gnorm = zmax([zabs(v) for v in q]), norm(q)
        self.cost = P.cost(*x)
        return True

    def record(self, flags, cost, change, rel, stepnorm, solver_iterations, where):
        """End of an iteration; True when the solver goes on."""
        P, c, p = self.P, self.c, self.p
        if flags & 2:
            if self.nrec == 0 or self.when('best point', self.cost < self.best):
                self.best, self.bestx = self.cost, self.x
            else:
                flags |= 4
        k = self.nrec
        self.nrec += 1
        radius = P.radius(self.nact)
        w = lambda i: c.get(p, self.it, 10 * k + i)
        n = lambda i: c.get(p, self.iti, 3 * k + i, 4, 'i')
        self.eq('%s: iteration number' % where, n(0), IP.const(k))
        self.eq('%s: validity, success and monotonicity are reported' % where, n(1), IP.const(flags))
        self.eq('%s: cost' % where, w(0), cost)
        if change is not None:
            self.eq('%s: cost change' % where, w(1), change)
        self.eq('%s: gradient max norm' % where, w(2), self.gmax)
        self.eq('%s: gradient norm' % where, w(3), self.gnorm)
        if stepnorm is not None:
            self.eq('%s: step norm' % where, w(4), stepnorm)
        if rel is not None:
            self.eq('%s: relative decrease' % where, w(5), rel)
        self.eq('%s: trust region radius' % where, w(6), radius)
        if solver_iterations is not None:
            self.eq('%s: linear solver iterations' % where, n(2), IP.atom(solver_iterations))
        self.counts[0 if flags & 2 else 1] += 1
        if self.io['callbacks']:
            for b in (0, 1):
                q = self.take('callback', where + ': callbacks run')
                self.ok('%s: callbacks in order' % where, TRUE if q[1] == b else FALSE)
                self.eq('%s: callbacks see the iteration' % where, q[2], IP.const(k))
                self.eq('%s: callbacks see the flags' % where, q[3], IP.const(flags))
                self.eq('%s: callbacks see the cost' % where, q[4], cost)
                self.eq('%s: callbacks see the radius' % where, q[5], radius)
                self.vec('%s: callbacks find the best point in the parameters' % where, q[6], self.bestx)
                if self.when('callback continues', P.cb(b, k) == 0):
                    continue
                self.stop = USER_FAIL if self.when('callback aborts', P.cb(b, k) == 1) else USER_OK
                return False
        now = [t for n_, t in self.p.ghost.get('read', ()) if n_ == self.nstep]
        self.ok('%s: iteration time is measured' % where, z3.Or([zz(w(8)) == t for t in now]) if now else FALSE)
        self.ok('%s: cumulative time includes preprocessing' % where, z3.Or([zz(w(9)) == t + self.o['pre'] for t in now]) if now else FALSE)
        if self.io['timed']:
            if any(self.c.E.decide(self.p, t + self.o['pre'] >= self.o['time']) is True for t in now):
                self.stop = NO_CONV
                return False
            self.ok('%s: the time is checked' % where, z3.Or([t + self.o['pre'] < self.o['time'] for t in now]))
        if k >= self.io['iterations']:
            self.stop = NO_CONV
            return False
        if flags & 2 and self.when('gradient tolerance', self.gmax <= self.o['gt']):
            self.stop = CONV
            return False
        if self.when('minimum radius', radius <= self.o['rmin']):
            self.stop = CONV
            return False
        return True

    def go(self):
        P, o = self.P, self.o
        self.counts, self.best, self.bestx, self.stop = [0, 0], None, None, FAIL
        self.start, self.inners = list(self.x), 0
        if self.io['constrained']:
            d = self.x + [realc(0.0)] * P.e
            if not self.when('projection', P.pok(*d)):
                return
            self.x = [f(*d) for f in P.plus]
        if not self.differentiate(True, 'start'):
            return
        self.initial = self.cost + o['fixed']
        if not self.record(3, self.initial, realc(0.0), realc(0.0), realc(0.0), None, 'start'):
            return
        m = dict(minimum=self.cost, reference=self.cost, candidate=self.cost, acc_r=realc(0.0), acc_c=realc(0.0), n=0)
        invalid, moved, k, inner_on, progress = 0, False, 0, self.io['inner'], None
        while True:
            where = 'iteration %d' % (k + 1)
            e = self.take('step', where + ': asks the strategy for a step')
            self.eq(where + ': eta', e[1], o['eta'])
            self.vec(where + ': residuals for the strategy', e[2], self.f)
            for i in range(P.r):
                self.vec(where + ': scaled Jacobian for the strategy, row %d' % i, e[3][i], self.J[i])
            s, code, its = P.step(k), P.status(k), P.iters(k)
            k += 1
            self.nstep = k
            if self.when('fatal', code == 3):
                return
            valid = False
            if not self.when('failed solve', code == 2):
                Js = [acc([self.J[i][j] * s[j] for j in range(P.e)]) for i in range(P.r)]
                mc = -acc([Js[i] * (self.f[i] + Js[i] / 2) for i in range(P.r)])
                valid = self.when('model decreases', mc > 0)
            if not valid:
                invalid += 1
                if invalid >= self.io['invalid']:
                    return
                a = self.take('action', where + ': the strategy is told')
                self.ok(where + ': invalid steps are reported to the strategy', TRUE if a[1] == 3 else FALSE)
                self.nact += 1
                if not self.record(0, self.cost + o['fixed'], realc(0.0), realc(0.0), realc(0.0), its, where):
                    return
                continue
            invalid = 0
            d = self.x + [s[j] * self.scale[j] for j in range(P.e)]
            moved_to, cand = None, MAX
            if self.when('Plus(x, step)', P.pok(*d)):
                moved_to = [f(*d) for f in P.plus]
                ev = self.take('eval', where + ': evaluates the candidate')
                self.vec(where + ': candidate', ev[1], moved_to)
                self.ok(where + ': candidate evaluated without derivatives, as a new point', TRUE if not ev[4] and ev[3] == 1 and ev[2] == 1 else FALSE)
                if self.when('candidate evaluates', P.ok(*moved_to)):
                    cand = P.cost(*moved_to)
            useful = None
            fresh = False
            if progress is not None:
                inner_on, progress = self.when('inner progress', progress), None
            if inner_on and cand is not MAX:
                q = self.take('inner', where + ': inner iterations')
                self.vec(where + ': inner iterations start at the candidate', q[1], moved_to)
                self.inners += 1
                y = [f(*moved_to) for f in P.inner]
                ev = self.take('eval', where + ': evaluates the inner solution')
                self.vec(where + ': inner solution', ev[1], y)
                if self.when('inner evaluates', P.ok(*y)):
                    ci = P.cost(*y)
                    mc = mc + cand - ci
                    useful = z3.And(ci < cand, ci < self.cost)
                    progress = 1 - ci / cand > o['it']
                    moved_to, cand = y, ci
                else:
                    fresh = None
            step_norm = None
            if moved and moved_to is not None:
                xn = norm(self.x)
                step_norm = norm([self.x[i] - moved_to[i] for i in range(P.p)])
                if self.when('parameter tolerance', step_norm <= o['pt'] * (xn + o['pt'])):
                    self.stop = CONV
                    return
            if cand is not MAX and self.when('function tolerance', zabs(self.cost - cand) <= o['ft'] * self.cost):
                self.stop = CONV
                return
            quality = -MAX if cand is MAX else (self.cost - cand) / mc
            if self.io['window'] and cand is not MAX:
                h = (m['reference'] - cand) / (m['acc_r'] + mc)
                quality = z3.If(quality < h, h, quality)
            good = quality > o['mrd']
            good = self.when('step quality', good if useful is None else z3.Or(useful, good))
            if not good:
                a = self.take('action', where + ': the strategy is told')
                self.ok(where + ': rejected steps are reported to the strategy', TRUE if a[1] == 2 else FALSE)
                self.eq(where + ': with their quality', a[2], quality)
                self.nact += 1
                if not self.record(1, cand + o['fixed'], self.cost - cand, quality, step_norm, its, where):
                    return
                continue
            moved = True
            old = self.cost
            self.x = moved_to
            if not self.differentiate(fresh, where):
                return
            a = self.take('action', where + ': the strategy is told')
            self.ok(where + ': accepted steps are reported to the strategy', TRUE if a[1] == 1 else FALSE)
            self.eq(where + ': with their quality', a[2], quality)
            self.nact += 1
            if self.io['window']:
                # Conn, Gould and Toint, algorithm 10.1.2
                m['acc_r'], m['acc_c'] = m['acc_r'] + mc, m['acc_c'] + mc
                if self.when('new minimum', cand < m['minimum']):
                    m.update(minimum=cand, n=0, candidate=cand, acc_c=realc(0.0))
                else:
                    m['n'] += 1
                    if self.when('worse than the candidate', cand > m['candidate']):
                        m.update(candidate=cand, acc_c=realc(0.0))
                if m['n'] == self.io['window']:
                    m.update(reference=m['candidate'], acc_r=m['acc_c'])
            if not self.record(3, self.cost + o['fixed'], old - cand, quality, step_norm, its, where):
                return

    def finish(self, n):
        c, p = self.c, self.p
        try:
            self.go()
        except Stop:
            return
        self.ok('nothing else is evaluated or reported', TRUE if not self.log else FALSE)
        self.eq('number of iterations recorded', n, IP.const(self.nrec))
        self.vec('the best accepted point is returned', [c.get(p, self.px, i) for i in range(self.P.p)], self.bestx or self.start)
        self.eq('termination type', c.get(p, self.st, 0, 4, 'i'), IP.const(self.stop))
        self.eq('successful steps', c.get(p, self.st, 1, 4, 'i'), IP.const(self.counts[0]))
        self.eq('unsuccessful steps', c.get(p, self.st, 2, 4, 'i'), IP.const(self.counts[1]))
        self.eq('inner iteration steps', c.get(p, self.st, 3, 4, 'i'), IP.const(self.inners if self.io['inner'] else 0))
        if self.nrec:
            self.eq('initial cost', c.get(p, self.out, 0), self.initial)


def variant(nm, p=1, e=1, r=1, iterations=1, jacobi=1, invalid=5, constrained=0, inner=0, callbacks=0, timed=0, window=0, statuses=(), sure=0):
    @contract(U, 'TrustRegionMinimizer::Minimize, ' + nm, div=False, maxpaths=20000, maxsteps=4000000, limit=500)
    def _(c):
        P = Problem(p, e, r)
        P.sure = sure
        models(c, P)
        x0 = c.reals('x', p)
        o = {k: c.real(k) for k in ('gt', 'pt', 'ft', 'mrd', 'eta', 'rmin', 'time', 'it', 'pre', 'fixed')}
        c.requires(o['gt'] >= 0, o['pt'] >= 0, o['ft'] >= 0, o['ft'] < HUGE, o['mrd'] >= 0, o['rmin'] >= 0, o['pre'] >= 0, o['fixed'] >= 0, o['fixed'] < HUGE, o['it'] >= 0)
        for k in range(iterations + 1):
            c.requires(P.iters(k) >= 0, P.status(k) >= 0, P.status(k) <= 3)
            if k < len(statuses):
                c.requires(P.status(k) == statuses[k])
            for b in (0, 1):
                c.requires(P.cb(b, k) >= 0, P.cb(b, k) <= 2)
        if not timed:
            c.requires(o['time'] > HUGE * 4, o['pre'] < HUGE)
        px = c.cells('x', x0)
        c.st.ghost = dict(px=px)
        out, st = c.out('out', 2), c.out('st', 4, size=4)
        it, iti = c.out('it', 10 * (iterations + 1)), c.out('iti', 3 * (iterations + 1), size=4)
        io = dict(iterations=iterations, jacobi=jacobi, invalid=invalid, constrained=constrained, inner=inner, callbacks=callbacks, timed=timed, window=window)
        ps = c.run('w_trm', p, e, r, c.cells('o', list(o.values())), c.cells('io', [iterations, jacobi, invalid, constrained, window, inner, callbacks], size=4), px, out, st, it, iti)
        for q in ps:
            Run(c, P, q, o, io, x0, px, out, st, it, iti).finish(q.ret)
        c.cover(ps)


variant('no iterations', iterations=0)
variant('one iteration')
variant('two iterations', iterations=2, jacobi=0)
variant('no Jacobi scaling, sizes 2 1 2', p=2, e=1, r=2, jacobi=0)
variant('sizes 2 2 2', p=2, e=2, r=2)
variant('bounds', p=2, e=1, r=1, constrained=1)
variant('inner iterations', inner=1)
variant('callbacks', callbacks=1)
variant('invalid steps', iterations=2, jacobi=0, invalid=1)
variant('two invalid steps', iterations=2, jacobi=0, invalid=2)
variant('scattered invalid steps', iterations=3, jacobi=0, invalid=2, statuses=(2, 0, 2), sure=1)
variant('invalid step after two steps', iterations=3, jacobi=0, invalid=2, statuses=(0, 0, 2), sure=1)
variant('nonmonotonic steps', iterations=2, jacobi=0, window=1)
variant('time limit', iterations=1, jacobi=0, timed=1)
variant('three steps', iterations=3, jacobi=0, statuses=(0, 0, 0), sure=1)
variant('three nonmonotonic steps', iterations=3, jacobi=0, window=1, statuses=(0, 0, 0), sure=1)
variant('three nonmonotonic steps, longer window', iterations=3, jacobi=0, window=2, statuses=(0, 0, 0), sure=1)
