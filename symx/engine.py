"""Path exploration: re-execution with decision prefixes, z3 as the oracle."""
import time
from time import time as _now
import z3

INF = float('inf')


class SxAbort(BaseException):
    """Engine control flow; instrumented code re-raises it past bare excepts."""


class Infeasible(SxAbort):
    pass


class Unsupported(SxAbort):
    """The path needs something the encoding does not have."""


class PathLimit(SxAbort):
    pass


class Found(SxAbort):
    """A counterexample was found; stop the path."""


class Stats(object):
    def __init__(self):
        self.paths = 0
        self.unsupported = []
        self.queries = 0
        self.solver_s = 0.0
        self.checks = 0
        self.static_checks = 0
        self.discharged = 0
        self.unknown_branches = 0
        self.concretised = []
        self.functions = set()
        self.inconclusive = []
        self.witnesses = 0
        self.labels = {}
        self.cex = []
        self.truncated = False

    def as_dict(self):
        return dict(paths=self.paths, unsupported=self.unsupported[:20], n_unsupported=len(self.unsupported),
                    queries=self.queries, solver_s=round(self.solver_s, 3), checks=self.checks,
                    static_checks=self.static_checks, discharged=self.discharged,
                    unknown_branches=self.unknown_branches,
                    concretised=self.concretised[:20], n_concretised=len(self.concretised),
                    functions=sorted(self.functions), inconclusive=self.inconclusive[:20],
                    n_inconclusive=len(self.inconclusive), witnesses=self.witnesses,
                    labels=self.labels, truncated=self.truncated)


import os
SLOW = float(os.environ.get('SX_SLOW', '0'))
SLOW_DUMP = os.environ.get('SX_DUMP')
CUR = None   # the current Path (one per process)


def cur():
    return CUR


class Path(object):
    def __init__(self, prefix, stats, opts):
        self.prefix = prefix          # list of (bool)
        self.pos = 0
        self.trace = []               # list of [taken, other_feasible]
        self.stats = stats
        self.opts = opts
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('branch_ms', 20000))
        self.pc = []
        self.counter = 0
        self.inputs = {}              # name -> (kind, symbolic value)
        self.memo = {}
        self.hash_tab = {}
        self.notes = {}
        self.defs = {}
        self.active = {}
        self.seen = {}
        self.ranges = {}              # expr id -> (lo, hi, expr): bounds learnt from branches

    # -- naming --------------------------------------------------------
    def fresh(self, base):
        self.counter += 1
        return '%s!%d' % (base, self.counter)

    # -- solver --------------------------------------------------------
    def _check(self, *extra):
        for e in extra:
            self.activate(e)
        t = _now()
        self.stats.queries += 1
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            self._last_model = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            self._last_model = self.solver.model() if r == z3.sat else None
        dt = _now() - t
        self.stats.solver_s += dt
        if SLOW and dt > SLOW:
            import sys, traceback
            sys.stderr.write('SLOW %.2fs %s\n  extra=%s\n' % (dt, r, [str(z3.simplify(x))[:1500] for x in extra]))
            sys.stderr.write('  at ' + ' < '.join('%s:%d' % (f.filename.split('/')[-1], f.lineno) for f in traceback.extract_stack()[-2:-12:-1]) + '\n')
            if SLOW_DUMP:
                sys.stderr.write(self.solver.to_smt2()[:6000])
        return r

    def add(self, cond):
        self.activate(cond)
        self.pc.append(cond)
        self.solver.add(cond)
        self._learn(cond, True)

    # Definitions (quotients, byte decompositions, hash outputs, input ranges...) always have a
    # solution, so each is handed to the solver only once something mentions its symbol.
    def defsym(self, sym, *conds):
        i = sym.get_id()
        if i in self.active:
            for c in conds:
                if not z3.is_expr(c):
                    c = c()
                self.activate(c)
                self.pc.append(c)
                self.solver.add(c)
        else:
            self.defs.setdefault(i, [sym]).extend(conds)

    def activate(self, expr):
        stack = [expr]
        seen = self.seen
        while stack:
            e = stack.pop()
            i = e.get_id()
            if i in seen:
                continue
            seen[i] = e
            if z3.is_quantifier(e):
                stack.append(e.body())
                continue
            ch = e.children()
            if ch:
                stack.extend(ch)
                # fall through: a non-constant term (array select) may carry a definition too
            if i in self.active:
                continue
            if z3.is_app(e) and (not ch or i in self.defs):
                if not ch and e.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                    continue
                self.active[i] = e
                d = self.defs.pop(i, None)
                if d:
                    for c in d[1:]:
                        if not z3.is_expr(c):
                            c = c()          # built on demand
                        self.pc.append(c)
                        self.solver.add(c)
                        stack.append(c)

    def _learn(self, c, pos):
        """remember simple bounds  x <=> constant  (only ever narrows)"""
        k = c.decl().kind() if z3.is_app(c) else None
        if k == z3.Z3_OP_NOT:
            return self._learn(c.arg(0), not pos)
        if k == z3.Z3_OP_AND and pos:
            for a in c.children():
                self._learn(a, True)
            return
        if k == z3.Z3_OP_OR and not pos:
            for a in c.children():
                self._learn(a, False)
            return
        if k not in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            return
        a, b = c.arg(0), c.arg(1)
        if z3.is_int_value(a) and not z3.is_int_value(b):
            a, b = b, a
            k = {z3.Z3_OP_LE: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LE, z3.Z3_OP_LT: z3.Z3_OP_GT,
                 z3.Z3_OP_GT: z3.Z3_OP_LT, z3.Z3_OP_EQ: z3.Z3_OP_EQ}[k]
        if not z3.is_int_value(b) or not z3.is_int(a):
            return
        v = b.as_long()
        i = a.get_id()
        lo, hi, _ = self.ranges.get(i, (None, None, a))
        if not pos:
            if k == z3.Z3_OP_EQ:
                self.ranges.setdefault(i, (None, None, a))
                ne = self.notes.setdefault(('ne', i), set())
                ne.add(v)
                return
            k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GT: z3.Z3_OP_LE}[k]
        if k == z3.Z3_OP_EQ:
            lo = hi = v
        elif k == z3.Z3_OP_LE:
            hi = v if hi is None else min(hi, v)
        elif k == z3.Z3_OP_LT:
            hi = v - 1 if hi is None else min(hi, v - 1)
        elif k == z3.Z3_OP_GE:
            lo = v if lo is None else max(lo, v)
        elif k == z3.Z3_OP_GT:
            lo = v + 1 if lo is None else max(lo, v + 1)
        self.ranges[i] = (lo, hi, a)

    def refine(self, expr, lo, hi):
        i = expr.get_id()
        rt = self.memo.get(('root', i))
        if rt is not None:
            # floor(x/D): bounds learnt on x carry over
            xl, xh = rt[0].lo, rt[0].hi
            if xl is not None and (lo is None or xl // rt[1] > lo):
                lo = xl // rt[1]
            if xh is not None and (hi is None or xh // rt[1] < hi):
                hi = xh // rt[1]
        r = self.ranges.get(i)
        if r is None:
            return lo, hi
        if r[0] is not None and (lo is None or r[0] > lo):
            lo = r[0]
        if r[1] is not None and (hi is None or r[1] < hi):
            hi = r[1]
        ne = self.notes.get(('ne', i))
        if ne:
            while lo is not None and lo in ne:
                lo += 1
            while hi is not None and hi in ne:
                hi -= 1
        return lo, hi

    define = add

    def assume(self, cond):
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        self.add(cond)
        if self.pos >= len(self.prefix):
            if self._check() == z3.unsat:
                raise Infeasible()

    def branch(self, cond):
        """cond: python bool or z3 Bool. Returns the side this path takes."""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        m = self.memo.get(('br', key))
        if m is not None:
            return m[0]
        if self.pos < len(self.prefix):
            taken = self.prefix[self.pos]
            self.pos += 1
            self.trace.append([taken, False])
            self.add(cond if taken else z3.Not(cond))
            self.memo[('br', key)] = (taken, cond)
            return taken
        if len(self.trace) > self.opts.get('max_depth', 4000):
            raise PathLimit('depth')
        rt = self._check(cond)
        if rt == z3.unsat:
            rf = z3.sat
        else:
            rf = self._check(z3.Not(cond))
        if rt == z3.unknown or rf == z3.unknown:
            self.stats.unknown_branches += 1
        t_ok = rt != z3.unsat
        f_ok = rf != z3.unsat
        if t_ok and f_ok:
            taken, other = True, True
            if self.opts.get('prefer_false'):
                taken = False
        elif t_ok:
            taken, other = True, False
        elif f_ok:
            taken, other = False, False
        else:
            raise Infeasible()
        self.pos += 1
        self.trace.append([taken, other])
        self.add(cond if taken else z3.Not(cond))
        self.memo[('br', key)] = (taken, cond)
        return taken

    def must(self, cond):
        """Is cond entailed on this path? (no fork)"""
        if cond is True or cond is False:
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        m = self.memo.get(('must', cond.get_id()))
        if m is not None and (m[0] or m[2] == len(self.pc)):
            return m[0]
        r = self._check(z3.Not(cond)) == z3.unsat
        self.memo[('must', cond.get_id())] = (r, cond, len(self.pc))
        return r

    def may(self, cond):
        if cond is True or cond is False:
            return cond
        return self._check(cond) != z3.unsat

    def choose_value(self, expr):
        """Fix an Int term to one model value (an under-approximation, recorded by the caller)."""
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
        else:
            r = self._check()
            if r != z3.sat:
                raise Unsupported('no model (%s)' % r)
            val = self._last_model.eval(expr, model_completion=True).as_long()
        self.pos += 1
        self.trace.append([val, False])
        self.add(expr == val)
        return val

    def find_bound(self, expr, direction):
        for k in (0, 8, 16, 32, 64):
            if direction > 0 and self.must(expr < (1 << k)):
                return (1 << k) - 1
            if direction < 0 and self.must(expr >= (0 if k == 0 else -(1 << k))):
                return 0 if k == 0 else -(1 << k)
        return None

    def tight_bounds(self, expr, lo, hi):
        if lo is None or hi is None:
            return None, None
        l, h = lo, hi
        while l < h:              # smallest feasible value
            mid = (l + h) // 2
            if self.must(expr > mid):
                l = mid + 1
            else:
                h = mid
        nlo = l
        l, h = nlo, hi
        while l < h:
            mid = (l + h + 1) // 2
            if self.must(expr < mid):
                h = mid - 1
            else:
                l = mid
        return nlo, l

    def note_eq(self, expr, val):
        if self.opts.get('note_eq', True):
            self.add(expr == val)

    # -- obligations ---------------------------------------------------
    def check(self, cond, label, info=None):
        st = self.stats
        st.checks += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        if cond is True:
            # decided by term identity while executing symbolically, no query needed
            st.static_checks += 1
            st.discharged += 1
            return
        neg = z3.BoolVal(True) if cond is False else z3.simplify(z3.Not(cond))
        if z3.is_false(neg):
            st.static_checks += 1
            st.discharged += 1
            return
        r, model = self._decide(neg)
        if r == z3.unsat:
            st.discharged += 1
            return
        if r == z3.unknown:
            st.inconclusive.append('%s: solver unknown' % label)
            return
        st.cex.append(self.make_cex(label, model, info))
        raise Found()

    def full_model(self, model, ms=20000):
        """extend a model over the definitions the query did not need"""
        self.partial = False
        while True:
            lazy = [d for d in self.defs.values() if any(not z3.is_expr(c) for c in d[1:])]
            if not lazy:
                break
            for d in lazy:
                d[1:] = [c if z3.is_expr(c) else c() for c in d[1:]]
        pend = [d for d in self.defs.values()]
        if not pend:
            return model
        fixed = []
        for i, e in self.active.items():
            if z3.is_const(e):
                v = model.eval(e, model_completion=True)
                if z3.is_int_value(v) or z3.is_rational_value(v) or z3.is_true(v) or z3.is_false(v) or z3.is_bv_value(v):
                    fixed.append(e == v)
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(*self.pc)
        s.add(*fixed)
        for d in pend:
            s.add(*d[1:])
        self.stats.queries += 1
        t = _now()
        r = s.check()
        self.stats.solver_s += _now() - t
        self.partial = r != z3.sat
        return s.model() if r == z3.sat else model

    def _decide(self, neg):
        self.activate(neg)
        r = self._check(neg)
        model = self._last_model
        if r == z3.unknown:
            m = self._pinned(neg)
            if m is not None:
                return z3.sat, m
            for tac in self.opts.get('fallback', ('default', 'qfnia')):
                t = _now()
                s = z3.Solver() if tac == 'default' else z3.SolverFor('QF_NIA' if tac == 'qfnia' else tac)
                s.set('timeout', self.opts.get('check_ms', 60000))
                s.add(*self.pc)
                s.add(neg)
                self.stats.queries += 1
                r = s.check()
                self.stats.solver_s += _now() - t
                if r != z3.unknown:
                    model = s.model() if r == z3.sat else None
                    break
        return r, model

    def _pinned(self, neg):
        """a counterexample among a few fixed inputs, when the general query is too hard (never proves anything)"""
        from . import values, rope
        for variant in range(4):
            pins = []
            for idx, (name, (kind, v)) in enumerate(self.inputs.items()):
                if type(v) is values.SymInt and z3.is_expr(v.expr):
                    x = (3 + idx, 1000003 + 77 * idx, (1 << 200) + 9 * idx + 1, 2 + idx)[variant]
                    if v.lo is not None:
                        x = max(x, v.lo)
                    if v.hi is not None:
                        x = min(x, v.hi)
                    pins.append(v.expr == x)
                elif variant % 2 and type(v) is rope.Rope:
                    try:
                        cs = list(v.cells())
                    except Exception:
                        continue
                    for i, c in enumerate(cs):
                        if type(c) is values.SymInt:
                            pins.append(c.expr == min(max((7 * idx + 13 * i + variant) % 256, c.lo or 0), 255 if c.hi is None else c.hi))
            if not pins:
                return None
            for e in pins:
                self.activate(e)
            s = z3.Solver()
            s.set('timeout', min(2500, self.opts.get('check_ms', 60000)))
            s.add(*self.pc)
            s.add(*pins)
            s.add(neg)
            self.stats.queries += 1
            t = _now()
            r = s.check()
            self.stats.solver_s += _now() - t
            if r == z3.sat:
                return s.model()
        return None

    def make_cex(self, label, model, info=None):
        model = self.full_model(model)
        vals = {}
        for name, (kind, v) in self.inputs.items():
            vals[name] = eval_value(model, v)
        tab = []
        for key, entries in self.hash_tab.items():
            for (parts, out) in entries:
                tab.append([key, [eval_value(model, p) for p in parts], eval_value(model, out)])
        return dict(label=label, inputs=vals, hash_table=tab, info=info)


def eval_value(model, v):
    """Concrete Python value of a symbolic value under a model."""
    from . import values, rope
    if isinstance(v, (list,)):
        return [eval_value(model, x) for x in v]
    if type(v) is tuple:
        return tuple(eval_value(model, x) for x in v)
    if type(v) is values.SymInt:
        return model.eval(v.expr, model_completion=True).as_long()
    if type(v) is values.SymBool:
        return z3.is_true(model.eval(v.expr, model_completion=True))
    if type(v) is values.SymFloat:
        r = model.eval(v.expr, model_completion=True)
        return float(r.as_fraction()) if hasattr(r, 'as_fraction') else float(r.as_long())
    if type(v) is rope.Rope:
        return v.concrete(model)
    if hasattr(v, '__sx_eval__'):
        return v.__sx_eval__(model)
    return v


def explore(fn, opts=None, stats=None):
    """Run fn(path) over all feasible paths. Returns Stats."""
    global CUR
    opts = dict(opts or {})
    stats = stats or Stats()
    max_paths = opts.get('max_paths', 20000)
    deadline = _now() + opts.get('time_s', 600)
    work = [[]]
    tries = 0
    while work:
        if tries >= max_paths or _now() > deadline:
            stats.truncated = True
            stats.inconclusive.append('exploration stopped with %d prefixes left (%d paths)' % (len(work), tries))
            break
        prefix = work.pop()
        tries += 1
        p = Path(prefix, stats, opts)
        CUR = p
        ended = True
        try:
            fn(p)
            stats.paths += 1
            if stats.witnesses < opts.get('witnesses', 3):
                if p._check() == z3.sat:
                    stats.witnesses += 1
                    if opts.get('on_witness'):
                        fm = p.full_model(p._last_model, 4000)
                        if not p.partial:
                            opts['on_witness'](p, fm)
        except Infeasible:
            pass
        except Found:
            stats.paths += 1
            if len(stats.cex) >= opts.get('max_cex', 4):
                break
        except Unsupported as e:
            stats.unsupported.append(str(e)[:200])
        except PathLimit as e:
            stats.inconclusive.append('path limit: %s' % e)
        finally:
            CUR = None
        # queue the alternatives discovered beyond the prefix
        tr = p.trace
        for i in range(len(prefix), len(tr)):
            if tr[i][1]:
                work.append([t[0] for t in tr[:i]] + [not tr[i][0]])
        p.solver = None
    return stats
