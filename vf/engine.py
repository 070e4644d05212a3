"""Symbolic run of one configuration of one property."""
import random
import time
import traceback
from fractions import Fraction

import z3

from . import sym as S
from . import arr as A
from .harness import SH, Stop, Captured
from .hooks import HOOKS, UnmodelledCall
from .sym import (Sym, EngineLimit, PathEnd, Degenerate, MemoryFault,
                  explore, const_of)

MAX_CAND = 2


def _num(v):
    """z3 model value -> Fraction / int / bool"""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return 0


def _ser(f):
    if isinstance(f, Fraction):
        return {'q': [str(f.numerator), str(f.denominator)]}
    return f


class Run(object):
    def __init__(self, fn, params, limits):
        self.fn = fn
        self.params = params
        self.limits = limits
        self.stats = {'queries': 0, 'solver_s': 0.0, 'forks': 0, 'paths': 0}
        self.labels = {}
        self.cands = []
        self.vals = []
        self.gaps = {}
        self.ended = {'normal': 0, 'cut': 0, 'limit': 0, 'exception': 0,
                      'degenerate': 0, 'fault': 0}
        self.inconclusive = 0
        self.max_val = limits.get('validate', 3)

    def label(self, l):
        return self.labels.setdefault(
            l, {'reached': 0, 'const': 0, 'unsat': 0, 'sat': 0, 'unknown': 0})

    # ---- satisfiability of pc and extra
    def decide(self, c, extra):
        r = c.check_sat(extra)
        if r != z3.unknown:
            return r, (c.solver.model() if r == z3.sat else None)
        t = self.limits.get('hard_ms', 8000)
        left = self._left()
        if left is not None and left <= 0:
            return z3.unknown, None
        for mk in (lambda: z3.Then('simplify', 'solve-eqs', 'smt').solver(),
                   lambda: z3.SolverFor('QF_NRA')):
            try:
                s = mk()
                s.set('timeout', t)
                s.add(*c.pc)
                s.add(extra)
                t0 = time.time()
                r = s.check()
                self.stats['queries'] += 1
                self.stats['solver_s'] += time.time() - t0
                if r != z3.unknown:
                    return r, (s.model() if r == z3.sat else None)
            except z3.Z3Exception:
                pass
        return self._cubes(c, extra)

    def _left(self):
        d = self.limits.get('deadline')
        return None if d is None else d - time.time()

    def _cubes(self, c, extra, fixed=(), depth=0):
        """split on the integer inputs"""
        ints = [(n, v) for n, (k, v) in c.inputs.items()
                if k == 'i' and n not in dict(fixed)]
        left = self._left()
        if not ints or depth > 5 or (left is not None and left <= 0):
            return z3.unknown, None
        n, v = ints[0]
        s0 = z3.Solver()
        s0.set('timeout', 2000)
        sub = [(c.inputs[m][1], z3.IntVal(x)) for m, x in fixed]
        # values allowed by the bounds
        lo = hi = None
        for p in c.pc:
            if z3.is_app(p) and p.num_args() == 2 and p.arg(0).eq(v) and \
                    const_of(p.arg(1)) is not None:
                if p.decl().kind() == z3.Z3_OP_GE:
                    lo = const_of(p.arg(1))
                elif p.decl().kind() == z3.Z3_OP_LE:
                    hi = const_of(p.arg(1))
        if lo is None or hi is None or hi - lo > 16:
            return z3.unknown, None
        res = z3.unsat
        for x in range(lo, hi + 1):
            fx = tuple(fixed) + ((n, x),)
            sub = [(c.inputs[m][1], z3.IntVal(y)) for m, y in fx]
            goals = [z3.simplify(z3.substitute(p, *sub))
                     for p in list(c.pc) + [extra]]
            if any(z3.is_false(g) for g in goals):
                continue
            s = z3.SolverFor('QF_NRA')
            s.set('timeout', 2500)
            s.add(*[g for g in goals if not z3.is_true(g)])
            t0 = time.time()
            r = s.check()
            self.stats['queries'] += 1
            self.stats['solver_s'] += time.time() - t0
            if r == z3.sat:
                # a full model including the fixed values
                s2 = z3.Solver()
                s2.set('timeout', 3000)
                s2.add(*c.pc)
                s2.add(extra)
                s2.add(*[c.inputs[m][1] == y for m, y in fx])
                m = s.model()
                for nm, (k, vv) in c.inputs.items():
                    if k == 'f':
                        mv = m.eval(vv, model_completion=True)
                        if z3.is_rational_value(mv):
                            s2.add(vv == mv)
                if s2.check() == z3.sat:
                    return z3.sat, s2.model()
                return z3.unknown, None
            if r == z3.unknown:
                r, m = self._cubes(c, extra, fx, depth + 1)
                if r == z3.sat:
                    return r, m
                if r == z3.unknown:
                    res = z3.unknown
        return res, None

    # ---- models with short binary expansions replay exactly
    def nice(self, c, goals):
        """list of z3 goals, strongest first; returns an assignment"""
        reals = [v for (k, v) in c.inputs.values() if k == 'f']
        t0 = time.time()
        best = None
        tries = []
        for g in goals:
            tries.append((g, True))
        for g in goals:
            tries.append((g, False))
        for g, nice in tries:
            left = self._left()
            if left is not None and left < -10:
                break
            s = z3.Solver()
            s.set('timeout', 2500)
            s.add(*c.pc)
            s.add(g)
            if nice:
                for i, v in enumerate(reals):
                    k = z3.Int('grid!%d' % i)
                    s.add(v * 4 == z3.ToReal(k), k >= -64, k <= 64)
            r = s.check()
            self.stats['queries'] += 1
            if r == z3.sat:
                best = s.model()
                if not nice and len(reals) <= 4:
                    best = self.inner(s, best, reals)
                break
        self.stats['solver_s'] += time.time() - t0
        return best

    def inner(self, s, m, reals):
        """move off the ends of ranges, where floats may round either way"""
        for v in reals:
            x = m.eval(v, model_completion=True)
            s.push()
            s.add(v != x)
            ok = s.check() == z3.sat
            y = s.model().eval(v, model_completion=True) if ok else None
            s.pop()
            self.stats['queries'] += 1
            if not ok:
                continue
            for a, b in ((1, 1), (9, 1), (1, 9)):
                s.push()
                s.add(v == (x * a + y * b) / (a + b))
                self.stats['queries'] += 1
                if s.check() == z3.sat:
                    m = s.model()
                    break
                s.pop()
        return m

    def assignment(self, c, m):
        out = {}
        for n, (k, v) in c.inputs.items():
            out[n] = _num(m.eval(v, model_completion=True))
        return out

    # ---- checks
    def check(self, h, label, cond, note):
        c = h.c
        st = self.label(label)
        if c.model is None:
            r = c.check_sat()
            if r == z3.unsat:
                raise PathEnd('infeasible')
        st['reached'] += 1
        ok = cond.ok
        if not S.is_z3(ok.v) and ok.v:
            st['const'] += 1
            return
        neg = z3.BoolVal(True) if not S.is_z3(ok.v) else z3.Not(ok.v)
        neg = z3.simplify(neg)
        if z3.is_false(neg):
            st['const'] += 1
            return
        r, m = self.decide(c, neg)
        if r == z3.unsat:
            st['unsat'] += 1
            return
        if r == z3.unknown:
            st['unknown'] += 1
            self.inconclusive += 1
            return
        st['sat'] += 1
        self.candidate(c, label, note, neg, cond.bad, m)
        if not S.is_z3(ok.v):
            raise PathEnd('check is false')
        c.add(ok.v)
        if c.model is None and c.check_sat() == z3.unsat:
            raise PathEnd('check is false')

    def candidate(self, c, label, note, neg, bad, m):
        n = sum(1 for x in self.cands if x['label'] == label)
        if n >= MAX_CAND:
            return
        goals = []
        if bad is not None and S.is_z3(bad.v):
            goals.append(bad.v)
        goals.append(neg)
        nm = self.nice(c, goals) or m
        if nm is None:
            return
        self.cands.append({
            'label': label, 'note': note,
            'assign': {k: _ser(v) for k, v in
                       self.assignment(c, nm).items()}})

    # ---- one path
    def on_path(self, c, fn):
        HOOKS.reset()
        from . import stubs
        stubs.VFS.clear()
        stubs.OPTIONS.clear()
        h = SH(c, self)
        kind = 'normal'
        try:
            fn(h, **self.params)
        except (Stop, Captured):
            pass
        except PathEnd:
            kind = 'cut'
        except (EngineLimit, UnmodelledCall) as e:
            kind = 'limit'
            self.gap('%s: %s' % (type(e).__name__, e), e)
        except Degenerate as e:
            kind = 'degenerate'
            self.gap('degenerate: %s' % e, e)
        except MemoryFault as e:
            kind = 'fault'
            self.exc(c, 'memory-fault', str(e))
        except RecursionError as e:
            kind = 'limit'
            self.gap('recursion', e)
        except Exception as e:
            kind = 'exception'
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if '/pystruct/' in f.filename]
            msg = '%s: %s' % (type(e).__name__, str(e)[:160])
            if where:
                msg += ' at %s:%d' % (where[-1].filename, where[-1].lineno)
            self.tb = traceback.format_exc()
            self.exc(c, 'exception', msg)
        finally:
            HOOKS.reset()
        self.ended[kind] += 1
        if kind in ('normal', 'limit', 'degenerate') and \
                len(self.vals) < self.max_val:
            n = self.ended['normal']
            if kind != 'normal' or n & (n - 1) == 0 or n % 16 == 0:
                self.validation(c, h, kind)

    def gap(self, msg, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/pystruct/' in f.filename]
        if where:
            msg += ' at %s:%d' % (where[-1].filename, where[-1].lineno)
        self.gaps[msg] = self.gaps.get(msg, 0) + 1

    def exc(self, c, label, msg):
        st = self.label(label)
        r = c.check_sat()
        if r == z3.unsat:
            return
        st['reached'] += 1
        st['sat'] += 1
        self.candidate(c, label, msg, z3.BoolVal(True), None,
                       c.solver.model() if r == z3.sat else None)

    def scattered(self, c):
        """a model of the path whose inputs are as spread out as it allows"""
        rnd = random.Random(len(self.vals) * 7919 + len(c.inputs))
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*c.pc)
        want = []
        for k, v in c.inputs.values():
            if k == 'f':
                want.append(v == z3.Q(rnd.randint(-12, 12), 4))
        t0 = time.time()
        try:
            for _ in range(12):
                r = s.check(*want)
                self.stats['queries'] += 1
                if r == z3.sat:
                    m = s.model()
                    reals = [v for k, v in c.inputs.values() if k == 'f']
                    if len(want) < len(reals) <= 4:
                        s.add(*want)
                        m = self.inner(s, m, reals)
                    return m
                if r == z3.unknown:
                    break
                core = {str(x) for x in s.unsat_core()}
                if not core:
                    return None
                want = [x for x in want if str(x) not in core]
        finally:
            self.stats['solver_s'] += time.time() - t0
        return self.nice(c, [z3.BoolVal(True)])

    def validation(self, c, h, kind):
        left = self._left()
        if left is not None and left < 0:
            return
        m = self.scattered(c)
        if m is None:
            return
        obs = []
        if kind == 'normal':
            for name, v in h.observed:
                obs.append((name, self.flat(m, v)))
        self.vals.append({
            'assign': {k: _ser(v) for k, v in
                       self.assignment(c, m).items()},
            'observed': obs, 'kind': kind})

    def flat(self, m, v):
        if v is None:
            return None
        if isinstance(v, (list, tuple)):
            return [self.flat(m, e) for e in v]
        if isinstance(v, dict):
            return {str(k): self.flat(m, e) for k, e in v.items()}
        if isinstance(v, str):
            return v
        a = A.asarray(v)
        if a.dt.kind == 'O':
            return [self.flat(m, e) for e in a.a.ravel()]
        out = []
        for s in a.a.ravel():
            x = s.v
            if S.is_z3(x):
                x = _num(m.eval(x, model_completion=True))
            out.append(float(x))
        return out


def run_config(mod, cfg, limits):
    t0 = time.time()
    fn = getattr(mod, cfg['fn'])
    params = {k: v for k, v in cfg.items()
              if k not in ('fn', 'name', 'budget', 'max_paths')}
    lim = dict(limits)
    lim['deadline'] = t0 + cfg.get('budget', limits.get('budget', 30))
    hard = limits.get('hard_deadline')
    if hard:
        lim['deadline'] = min(lim['deadline'], hard)
    r = Run(fn, params, lim)
    err = None
    complete = False
    try:
        complete = explore(fn, r.stats, cfg.get('max_paths', 20000), lim,
                           r.on_path)
    except Exception:
        err = traceback.format_exc()
    from . import loader
    return {'config': cfg['name'], 'complete': complete and not r.gaps,
            'labels': r.labels, 'stats': r.stats, 'cands': r.cands,
            'vals': r.vals, 'gaps': r.gaps, 'ended': r.ended,
            'inconclusive': r.inconclusive, 'error': err,
            'executed': sorted(loader.EXECUTED), 'wall': time.time() - t0,
            'tb': getattr(r, 'tb', None)}
