"""Discharging obligations: rational normal form, then z3, then cvc5."""
import time
import multiprocessing as mp
import z3
from .poly import Normalizer, RF, Poly, TooBig

UNSAT, SAT, UNK = 'unsat', 'sat', 'unknown'


class Result:
    def __init__(self, ok, backend, time_, why='', model=None):
        self.ok, self.backend, self.time, self.why, self.model = ok, backend, time_, why, model
        self.refuted = False
        self.point = None


def subterms(ts, seen=None):
    seen = {} if seen is None else seen
    st = list(ts)
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen[t.get_id()] = t
        st.extend(t.children())
    return seen


def math_facts(terms):
    """Ground instances of the defining facts of the library functions that occur."""
    seen = subterms(terms)
    out = []
    for t in list(seen.values()):
        if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED or t.num_args() == 0:
            continue
        n = t.decl().name()
        a = t.children()
        if n == 'f_sqrt':
            out += [t >= 0, z3.Implies(a[0] >= 0, t * t == a[0]), z3.Implies(a[0] > 0, t > 0)]
        elif n in ('f_sin', 'f_cos'):
            s = t.decl()(a[0]) if n == 'f_sin' else z3.Function('f_sin', z3.RealSort(), z3.RealSort())(a[0])
            c = z3.Function('f_cos', z3.RealSort(), z3.RealSort())(a[0])
            out += [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1,
                    z3.Implies(a[0] == 0, z3.And(s == 0, c == 1))]
        elif n == 'f_exp':
            out += [t > 0, z3.Implies(a[0] == 0, t == 1), t >= 1 + a[0],
                    z3.Implies(a[0] > 0, t > 1), z3.Implies(a[0] < 0, t < 1)]
        elif n == 'f_log':
            out += [z3.Implies(a[0] > 1, t > 0), z3.Implies(a[0] == 1, t == 0),
                    z3.Implies(z3.And(a[0] > 0, a[0] < 1), t < 0),
                    z3.Implies(a[0] > 0, t <= a[0] - 1)]
        elif n == 'f_hypot':
            out += [t >= 0, t * t == a[0] * a[0] + a[1] * a[1], z3.Implies(z3.Or(a[0] != 0, a[1] != 0), t > 0)]
        elif n == 'f_atan2':
            s = z3.Function('f_sin', z3.RealSort(), z3.RealSort())(t)
            c = z3.Function('f_cos', z3.RealSort(), z3.RealSort())(t)
            h = z3.Function('f_hypot', z3.RealSort(), z3.RealSort(), z3.RealSort())(a[0], a[1])
            out += [z3.Implies(z3.And(a[0] == 0, a[1] > 0), t == 0), h * s == a[0], h * c == a[1], h >= 0, h * h == a[0] * a[0] + a[1] * a[1], s * s + c * c == 1]
        elif n == 'f_cosh':
            out += [t >= 1]
        elif n == 'f_tanh':
            out += [t < 1, t > -1]
        elif n == 'f_atan':
            out += [z3.Implies(a[0] == 0, t == 0), z3.Implies(a[0] > 0, t > 0), z3.Implies(a[0] < 0, t < 0)]
    return out


def split_goal(hyps, goal):
    goal = z3.simplify(goal) if False else goal
    if z3.is_and(goal):
        for c in goal.children():
            yield from split_goal(hyps, c)
        return
    if z3.is_implies(goal):
        yield from split_goal(hyps + [goal.arg(0)], goal.arg(1))
        return
    if z3.is_eq(goal) and z3.is_bool(goal.arg(0)):
        a, b = goal.arg(0), goal.arg(1)
        yield from split_goal(hyps + [a], b)
        yield from split_goal(hyps + [b], a)
        return
    yield hyps, goal


def find_ite(t, seen):
    st = [t]
    best = None
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            # innermost condition first: conditions free of ites
            c = x.arg(0)
            sub = find_ite(c, set())
            return sub if sub is not None else c
        st.extend(x.children())
    return best


def atoms_of(t, cache):
    k = t.get_id()
    r = cache.get(k)
    if r is None:
        r = frozenset(x.decl().name() if x.num_args() == 0 else x.decl().name()
                      for x in subterms([t]).values()
                      if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED)
        cache[k] = r
    return r


def relevant(hyps, goal, rounds=8):
    cache = {}
    need = set(atoms_of(goal, cache))
    left = list(hyps)
    out = []
    for _ in range(rounds):
        nxt = []
        grew = False
        for h in left:
            s = atoms_of(h, cache)
            if s & need or not s:
                out.append(h)
                if not s <= need:
                    need |= s
                    grew = True
            else:
                nxt.append(h)
        left = nxt
        if not grew:
            break
    return out


def z3_check(asserts, timeout, tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout))
    s.add(asserts)
    try:
        r = s.check()
    except z3.Z3Exception as e:
        return UNK, None
    if r == z3.unsat:
        return UNSAT, None
    if r == z3.sat:
        return SAT, s.model()
    return UNK, None


def sum_of_squares(t):
    """Structurally nonnegative: sums and products of squares and nonnegative constants."""
    if z3.is_rational_value(t):
        return t.as_fraction() >= 0
    if z3.is_add(t):
        return all(sum_of_squares(x) for x in t.children())
    if z3.is_mul(t):
        left = []
        for x in t.children():
            if sum_of_squares(x):
                continue
            m = next((i for i, y in enumerate(left) if y.eq(x)), None)
            if m is None:
                left.append(x)
            else:
                del left[m]
        return not left
    return False


class Prover:
    def __init__(self, opts=None):
        self.opts = opts or {}
        self.timeout = self.opts.get('timeout', 8000)
        self.stats = {}
        self.memo = {}
        self.time = 0.0
        self.maxsplit = self.opts.get('maxsplit', 200)
        self.rules = []           # extra equalities offered as rewrite rules
        self.ideal = []           # hypotheses used by polynomial division, when they hold on the path
        self.lemmas = []          # extra facts (justified separately)

    def note(self, b):
        self.stats[b] = self.stats.get(b, 0) + 1

    def prove(self, hyps, goal, rules=()):
        t0 = time.time()
        r = self._prove(list(hyps), goal, list(rules) + self.rules)
        if not r.ok and not r.refuted:
            self.classify(r, hyps, goal)
        r.time = time.time() - t0
        self.time += r.time
        if r.ok:
            self.note(r.backend)
        return r

    def classify(self, r, hyps, goal):
        """A failure counts as refuted only with a genuine counter-model of the
        verification condition; anything else is undecided."""
        from .refute import refute
        given = {}
        if r.model is not None:
            for d in r.model.decls():
                if d.arity() == 0:
                    v = r.model[d]
                    try:
                        if z3.is_rational_value(v):
                            given[d.name()] = float(v.as_fraction())
                        elif z3.is_algebraic_value(v):
                            given[d.name()] = float(v.approx(12).as_fraction())
                        elif z3.is_int_value(v):
                            given[d.name()] = v.as_long()
                    except OverflowError:
                        pass
        pt = refute(hyps, goal, given)
        if pt is not None:
            r.refuted = True
            r.why = 'refuted at a numeric point'
            r.point = pt
            return
        mathf = any(z3.is_app(t) and t.num_args() and t.decl().name().startswith(('f_', 'PS_', 'bit_'))
                    for t in subterms(list(hyps) + [goal]).values())
        r.refuted = r.why == 'counter-model' and not mathf
        if not r.refuted and r.why == 'counter-model':
            r.why = 'unknown (model of an incomplete theory of the library functions)'

    def _prove(self, hyps, goal, rules):
        if self.opts.get('direct'):      # many linear facts: one query first
            s, _ = z3_check(hyps + [z3.Not(goal)], 2000)
            if s == UNSAT:
                return Result(True, 'z3', 0)
        backends = set()
        budget = [self.maxsplit]
        for hs, g in split_goal(hyps, goal):
            r = self.prove1(hs, g, rules, budget)
            if not r.ok:
                return r
            backends.add(r.backend)
        order = ['cvc5', 'z3-nra', 'z3', 'rational normal form', 'simplification']
        for b in order:
            if b in backends:
                return Result(True, b, 0)
        return Result(True, 'simplification', 0)

    def prove1(self, hyps, goal, rules, budget):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return Result(True, 'simplification', 0)
        if z3.is_ge(goal) and z3.is_rational_value(goal.arg(1)) and goal.arg(1).as_fraction() <= 0 and sum_of_squares(goal.arg(0)):
            return Result(True, 'simplification', 0)
        if z3.is_false(g):
            # only a contradictory path can discharge this
            return self.smt(hyps, z3.BoolVal(False))
        if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
            r = self.eq_by_cases(hyps, goal.arg(0), goal.arg(1), rules, budget)
            if r is not None:
                return r
        if self.opts.get('early_refute', True):
            from .refute import refute
            s, _ = z3_check(relevant(hyps, goal) + [z3.Not(goal)] + math_facts(hyps + [goal]), 700)
            if s == UNSAT:
                return Result(True, 'z3', 0)
            pt = refute(hyps, goal, {}, seconds=2.0, tries=600)
            if pt is not None:
                r = Result(False, 'numeric', 0, 'refuted at a numeric point')
                r.refuted, r.point = True, pt
                return r
        return self.smt(hyps, goal, rules)

    def eq_by_cases(self, hyps, a, b, rules, budget, depth=0):
        """Equality by case analysis on if-then-else conditions + normal form."""
        if budget[0] <= 0:
            return None
        d = z3.simplify(a - b, som=False) if False else None
        c = find_ite(a, set())
        if c is None:
            c = find_ite(b, set())
        if c is not None:
            sc = z3.simplify(c)
            outs = []
            for val in (True, False):
                h = sc if val else z3.Not(sc)
                budget[0] -= 1
                key = (tuple(sorted(x.get_id() for x in hyps)), h.get_id())
                if key in self.memo:
                    s = self.memo[key][0]
                else:
                    s, _ = z3_check(hyps + [h] + math_facts(hyps + [h]), 500)
                    self.memo[key] = (s, hyps, h)       # keeps the terms alive, so ids stay unique
                if s == UNSAT:
                    continue
                sub = (c, z3.BoolVal(val))
                a2 = simp_ite(z3.substitute(a, sub))
                b2 = simp_ite(z3.substitute(b, sub))
                r = self.eq_by_cases(hyps + [h], a2, b2, rules, budget, depth + 1)
                if r is None:
                    r = self.smt(hyps + [h], a2 == b2, rules)
                if not r.ok:
                    return r
                outs.append(r.backend)
            return Result(True, outs[0] if outs else 'z3', 0)
        if a.eq(b):
            return Result(True, 'simplification', 0)
        try:
            nz = Normalizer()
            for e in rules:
                nz.add_rule_from(e.arg(0) - e.arg(1) if z3.is_eq(e) else e)
            for h in hyps:
                if z3.is_eq(h) and z3.is_arith(h.arg(0)) and find_ite(h, set()) is None:
                    try:
                        nz.add_rule_from(h.arg(0) - h.arg(1))
                    except (TooBig, ZeroDivisionError):
                        pass
            ideal = [h.arg(0) - h.arg(1) for h in hyps if any(h.eq(i) for i in self.ideal)] if self.ideal else ()
            if nz.equal(a, b, ideal):
                return Result(True, 'rational normal form', 0)
        except (TooBig, ZeroDivisionError, RecursionError):
            pass
        return None

    def smt(self, hyps, goal, rules=()):
        hs = relevant(hyps, goal) if not z3.is_false(goal) else hyps
        neg = z3.Not(goal)
        base = hs + self.lemmas + [neg]
        facts = math_facts(base)
        model = None
        s, m = z3_check(base + facts, min(2500, self.timeout))
        if s == UNSAT:
            return Result(True, 'z3', 0)
        if s == SAT:
            model = m
            if len(hs) != len(hyps):
                s2, m2 = z3_check(hyps + self.lemmas + [neg] + facts, min(4000, self.timeout))
                if s2 == UNSAT:
                    return Result(True, 'z3', 0)
                if s2 == SAT:
                    model = m2
                    if not self.opts.get('try_all'):
                        return Result(False, 'z3', 0, 'counter-model', model)
            elif not self.opts.get('try_all'):
                return Result(False, 'z3', 0, 'counter-model', model)
        # nonlinear: eliminate functions by naming them
        pur = purify(base + facts)
        s, m = z3_check(pur, self.timeout, 'qfnra-nlsat') if pure_real(pur) else (UNK, None)
        if s == UNSAT:
            return Result(True, 'z3-nra', 0)
        s2, _ = z3_check(base + facts, self.timeout)
        if s2 == UNSAT:
            return Result(True, 'z3', 0)
        if not self.opts.get('nocvc5'):
            s3 = cvc5_check(base + facts, self.timeout)
            if s3 == UNSAT:
                return Result(True, 'cvc5', 0)
        why = 'counter-model' if SAT in (s, s2) or model is not None else 'unknown (timeout)'
        return Result(False, 'z3', 0, why, model or m)


def simp_ite(t):
    return z3.simplify(t, som=False, flat=False) if False else _fold_ite(t, {})


def _fold_ite(t, memo):
    k = t.get_id()
    if k in memo:
        return memo[k]
    ch = t.children()
    if not ch:
        r = t
    elif z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        sc = c if z3.is_true(c) or z3.is_false(c) else _fold_ite(c, memo)
        if not (z3.is_true(sc) or z3.is_false(sc)) and find_ite(c, set()) is None:
            sc2 = z3.simplify(sc)
            if z3.is_true(sc2) or z3.is_false(sc2):
                sc = sc2
        if z3.is_true(sc):
            r = _fold_ite(t.arg(1), memo)
        elif z3.is_false(sc):
            r = _fold_ite(t.arg(2), memo)
        else:
            r = z3.If(sc, _fold_ite(t.arg(1), memo), _fold_ite(t.arg(2), memo))
    else:
        n = [_fold_ite(c, memo) for c in ch]
        r = t if all(x.eq(y) for x, y in zip(n, ch)) else rebuild(t, n)
    memo[k] = r
    return r


def rebuild(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        return z3.Sum(ch) if len(ch) > 2 else ch[0] + ch[1]
    if k == z3.Z3_OP_MUL:
        r = ch[0]
        for c in ch[1:]:
            r = r * c
        return r
    if k == z3.Z3_OP_AND:
        return z3.And(ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(ch)
    return t.decl()(*ch)


def purify(asserts):
    """Replace function applications by variables (Ackermann on equal args only)."""
    memo = {}
    names = {}
    apps = {}

    def go(t):
        k = t.get_id()
        if k in memo:
            return memo[k]
        ch = t.children()
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and ch and z3.is_real(t):
            ch2 = [go(c) for c in ch]
            v = z3.Real('pur!%d' % len(names))
            names[k] = v
            apps.setdefault(t.decl().name(), []).append((ch2, v))
            r = v
        elif not ch:
            r = t
        else:
            n = [go(c) for c in ch]
            r = t if all(x.eq(y) for x, y in zip(n, ch)) else rebuild(t, n)
        memo[k] = r
        return r
    out = [go(a) for a in asserts]
    for f, l in apps.items():
        if len(l) > 12:
            continue
        for i in range(len(l)):
            for j in range(i):
                if all(z3.is_arith(x) for x in l[i][0]):
                    out.append(z3.Implies(z3.And([x == y for x, y in zip(l[i][0], l[j][0])]), l[i][1] == l[j][1]))
    return out


def pure_real(asserts):
    for t in subterms(asserts).values():
        if z3.is_app(t):
            k = t.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
                return False
            if z3.is_int(t) or k in (z3.Z3_OP_TO_REAL, z3.Z3_OP_TO_INT):
                return False
        else:
            return False
    return True


def _cvc5_worker(smt, timeout, q):
    try:
        import cvc5
        tm = cvc5.TermManager() if hasattr(cvc5, 'TermManager') else None
        slv = cvc5.Solver(tm) if tm else cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout)))
        slv.setLogic('ALL')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, 'q')
        sm = p.getSymbolManager()
        res = UNK
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = str(c.invoke(slv, sm)).strip()
            if out in ('sat', 'unsat', 'unknown'):
                res = out
        q.put(res)
    except Exception as e:
        q.put(UNK)


def cvc5_check(asserts, timeout):
    import subprocess
    s = z3.Solver()
    s.add(asserts)
    smt = '(set-logic ALL)\n' + s.to_smt2()
    smt = smt.replace('(set-info :status unknown)', '')
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout), '-'], input=smt, text=True,
                           capture_output=True, timeout=timeout / 1000 + 5)
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return UNK
    o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else UNK
    return o if o in (UNSAT, SAT) else UNK
