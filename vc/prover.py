"""Obligation discharge: z3 (incremental, linearised) -> z3 (raw) -> cvc5."""
import re, subprocess, tempfile, time, os, itertools
import z3
from .values import *

_lin = {}
_mono = {}
_quant = {}
_keep = []
SCALE = float(os.environ.get('VC_SCALE', '1'))    # solver time limits are multiplied by this (second attempts, loaded machine)


def scaled(ms): return int(ms * SCALE)


NLMUL = z3.Function('nlmul', z3.IntSort(), z3.IntSort(), z3.IntSort())


def has_quant(t):
    k = t.get_id()
    if k in _quant: return _quant[k]
    stack = [t]; seen = set(); r = False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): r = True; break
        stack.extend(x.children())
    _quant[k] = r; _keep.append(t)
    return r


def _needs_lin(t):
    stack = [t]; seen = set()
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body()); continue
        if z3.is_mul(x) and z3.is_int(x):
            if sum(1 for c in x.children() if not z3.is_int_value(c)) > 1: return True
        stack.extend(x.children())
    return False


def lin(t):
    """replace nonlinear integer products by the symbol nlmul after normalising to sums of monomials;
    returns (term, [monomials])"""
    k = t.get_id()
    if k in _lin: return _lin[k]
    if not _needs_lin(t):
        r = (t, ())
        _lin[k] = r; _keep.append(t)
        return r
    if has_quant(t):
        s = t
    else:
        s = z3.simplify(t, som=True, arith_lhs=False)
    cache = {}; monos = {}

    def walk(x):
        i = x.get_id()
        if i in cache: return cache[i]
        if z3.is_quantifier(x):
            r = x            # products under binders stay interpreted
        elif z3.is_var(x) or x.num_args() == 0:
            r = x
        else:
            ch = [walk(c) for c in x.children()]
            if z3.is_mul(x) and z3.is_int(x):
                fs = [c for c in ch if not z3.is_int_value(c)]
                cs = [c for c in ch if z3.is_int_value(c)]
                if len(fs) > 1:
                    fs = sorted(fs, key=lambda c: c.sexpr())
                    m = fs[0]
                    for f in fs[1:]:
                        m2 = NLMUL(m, f); monos[m2.get_id()] = (m2, m, f); m = m2
                    r = m
                    for c in cs: r = c * r
                else:
                    r = x if all(a.eq(b) for a, b in zip(ch, x.children())) else x.decl()(*ch)
            else:
                if all(a.eq(b) for a, b in zip(ch, x.children())): r = x
                else:
                    d = x.decl()
                    kd = d.kind()
                    if kd == z3.Z3_OP_ADD: r = z3.Sum(ch) if len(ch) != 2 else ch[0] + ch[1]
                    elif kd == z3.Z3_OP_AND: r = z3.And(*ch)
                    elif kd == z3.Z3_OP_OR: r = z3.Or(*ch)
                    elif kd == z3.Z3_OP_DISTINCT: r = z3.Distinct(*ch)
                    else: r = d(*ch)
        cache[i] = r
        return r
    u = walk(s)
    r = (u, tuple(monos.values()))
    _lin[k] = r; _keep.extend([t, u, s])
    return r


def pair_lemmas(a, b):
    """monotonicity of products sharing a factor"""
    (ma, a1, a2), (mb, b1, b2) = a, b
    out = []
    for x, z in ((a1, a2), (a2, a1)):
        for y, w in ((b1, b2), (b2, b1)):
            if z.eq(w) and not x.eq(y):
                out.append(z3.Implies(z >= 0, z3.And(z3.Implies(x <= y, ma <= mb), z3.Implies(x < y, ma + z <= mb),
                                                     z3.Implies(y <= x, mb <= ma), z3.Implies(y < x, mb + z <= ma))))
    return out


def mono_lemmas(a):
    m, x, y = a
    return [z3.Implies(z3.And(x >= 0, y >= 0), m >= 0), z3.Implies(z3.And(x >= 1, y >= 0), m >= y),
            z3.Implies(z3.And(x >= 0, y >= 1), m >= x), z3.Implies(x == 0, m == 0), z3.Implies(y == 0, m == 0),
            z3.Implies(x == 1, m == y), z3.Implies(y == 1, m == x),
            z3.Implies(z3.And(x >= 2, y >= 0), m >= 2 * y), z3.Implies(z3.And(y >= 2, x >= 0), m >= 2 * x),
            z3.Implies(z3.And(x <= 0, y >= 0), m <= 0), z3.Implies(z3.And(x <= -1, y >= 0), m <= -y),
            z3.Implies(z3.And(x >= 0, y <= 0), m <= 0)]


class Result:
    __slots__ = ('status', 'model', 'backend', 'ms', 'reason')

    def __init__(self, status, backend='', ms=0, model=None, reason=''):
        self.status = status; self.backend = backend; self.ms = ms; self.model = model; self.reason = reason


class Prover:
    def __init__(self, timeout_ms=8000, feas_ms=250, use_cvc5=True):
        self.s = z3.Solver(); self.s.set('timeout', feas_ms)
        self.feas_ms = feas_ms
        self.stack = []        # list of (fact ids, facts, monos)
        self.timeout = timeout_ms
        self.use_cvc5 = use_cvc5
        self.nq = 0; self.t_solver = 0.0
        self.cache = {}
        self.deadline = None; self.light_qf = False

    # ---- incremental QF solver -------------------------------------------------
    def sync(self, pc):
        i = 0
        st = self.stack
        n = min(len(st), len(pc))
        while i < n and st[i][0] == pc[i].get_id(): i += 1
        if len(st) > i:
            self.s.pop(len(st) - i); del st[i:]
        while i < len(pc):
            f = pc[i]
            self.s.push()
            if has_quant(f):
                st.append((f.get_id(), f, ()))
            else:
                g, ms = lin(f)
                self.s.add(g)
                new = []
                seen = set()
                for e in st:
                    for m in e[2]: seen.add(m[0].get_id())
                allm = [m for e in st for m in e[2]]
                for m in ms:
                    if m[0].get_id() in seen: continue
                    for l in mono_lemmas(m): self.s.add(l)
                    for o in allm:
                        for l in pair_lemmas(m, o): self.s.add(l)
                    allm.append(m); new.append(m); seen.add(m[0].get_id())
                st.append((f.get_id(), f, tuple(new)))
            i += 1

    def _check_with(self, extra, ms):
        s = self.s
        s.push()
        try:
            g, mon = lin(extra)
            seen = {m[0].get_id() for e in self.stack for m in e[2]}
            allm = [m for e in self.stack for m in e[2]]
            for m in mon:
                if m[0].get_id() in seen: continue
                for l in mono_lemmas(m): s.add(l)
                for o in allm:
                    for l in pair_lemmas(m, o): s.add(l)
                allm.append(m); seen.add(m[0].get_id())
            s.add(g)
            s.set('timeout', scaled(ms))
            t = time.time()
            r = s.check()
            self.t_solver += time.time() - t; self.nq += 1
            mdl = s.model() if r == z3.sat else None
            return r, mdl
        finally:
            s.pop()

    def feasible(self, pc, cond):
        """False only if pc & cond is certainly unsatisfiable"""
        if isinstance(cond, bool): return cond
        if has_quant(cond): return True
        self.sync(pc)
        r, _ = self._check_with(cond, self.feas_ms)
        return r != z3.unsat

    def quick(self, pc, goal):
        """True iff quickly proved from the quantifier-free facts"""
        if isinstance(goal, bool): return goal
        if has_quant(goal): return False
        key = (len(pc), pc[-1].get_id() if pc else 0, goal.get_id())
        self.sync(pc)
        r, _ = self._check_with(z3.Not(goal), self.feas_ms)
        return r == z3.unsat

    # ---- full proof ---------------------------------------------------------------
    def prove(self, pc, goal, timeout=None, level=2):
        light = level == 0
        t0 = time.time()
        if isinstance(goal, bool):
            if goal: return Result('proved', 'trivial', 0)
            if not self.feasible(pc, True) : return Result('proved', 'z3', 0)
            goal = z3.BoolVal(False)
        if z3.is_and(goal) and not light:
            ms = 0; last = None
            for c in goal.children():
                r = self.prove(pc, c, timeout, level)
                if r.status != 'proved': return r
                ms += r.ms; last = r
            last.ms = ms
            return last
        timeout = timeout or self.timeout
        self.sync(pc)
        anyq = any(has_quant(e[1]) for e in self.stack) or has_quant(goal)
        mdl = None
        if not has_quant(goal):
            r, mdl = self._check_with(z3.Not(goal), 1000 if anyq else timeout)
            if r == z3.unsat: return Result('proved', 'z3', int(1000 * (time.time() - t0)))
            if r == z3.sat and not anyq and not any(e[2] for e in self.stack) and not lin(goal)[1]:
                return Result('failed', 'z3', int(1000 * (time.time() - t0)), mdl)
        if light and (not anyq or self.light_qf):
            return Result('failed', 'z3', 0, mdl)
        # full solver with the quantified facts, products linearised
        facts = [e[1] for e in self.stack]
        short = anyq and not light and self.use_cvc5
        r, m2 = self._full(facts, goal, True, min(timeout, 1500) if light or short else timeout)
        if r == z3.unsat: return Result('proved', 'z3', int(1000 * (time.time() - t0)))
        if short:
            if self._cvc5(facts, goal, min(timeout, 5000)) == 'unsat': return Result('proved', 'cvc5', int(1000 * (time.time() - t0)))
            if timeout > 1500:
                r, m2 = self._full(facts, goal, True, timeout)
                if r == z3.unsat: return Result('proved', 'z3', int(1000 * (time.time() - t0)))
        if light: return Result('failed', 'z3', 0, m2 or mdl)
        m2 = m2 or mdl
        nl = any(lin(f)[1] for f in facts + [goal])
        if nl:
            r, m3 = self._full(facts, goal, False, timeout if level == 2 else 1000)
            if r == z3.unsat: return Result('proved', 'z3-nl', int(1000 * (time.time() - t0)))
            m2 = m3 or m2
            if r == z3.sat and not anyq:
                return Result('failed', 'z3-nl', int(1000 * (time.time() - t0)), m3)
        if self.use_cvc5 and level == 2 and not short:
            r = self._cvc5(facts, goal, timeout)
            if r == 'unsat': return Result('proved', 'cvc5', int(1000 * (time.time() - t0)))
        return Result('failed', 'z3+cvc5', int(1000 * (time.time() - t0)), m2, 'not discharged')

    def _full(self, facts, goal, linear, ms):
        s = z3.SolverFor('AUFLIA') if False else z3.Solver()
        s.set('timeout', scaled(ms))
        anyq = False
        if linear:
            mon = []; seen = set()
            for f in facts + [z3.Not(goal)]:
                anyq = anyq or has_quant(f)
                g, m = lin(f)
                s.add(g)
                for x in m:
                    if x[0].get_id() not in seen:
                        seen.add(x[0].get_id()); mon.append(x)
            for i, m in enumerate(mon):
                for l in mono_lemmas(m): s.add(l)
                for o in mon[:i]:
                    for l in pair_lemmas(m, o): s.add(l)
        else:
            for f in facts + [z3.Not(goal)]:
                anyq = anyq or has_quant(f)
                s.add(f)
        if anyq:
            s.set('smt.mbqi', False)
        t = time.time()
        r = s.check()
        self.t_solver += time.time() - t; self.nq += 1
        m = None
        if r != z3.unsat:
            try: m = s.model()
            except z3.Z3Exception: m = None
        if r == z3.unknown and anyq and ms >= 4000 and not linear:
            s.set('smt.mbqi', True)
            r2 = s.check()
            if r2 != z3.unknown:
                r = r2
                if r == z3.sat: m = s.model()
        return r, m

    def dump(self, pc, goal, name):
        s = z3.Solver()
        for f in pc: s.add(f)
        s.add(z3.Not(goal))
        self.nd = getattr(self, 'nd', 0) + 1
        open('/tmp/vc_%s_%d.smt2' % (re.sub(r'\W', '_', name), self.nd), 'w').write(s.to_smt2())

    def _cvc5(self, facts, goal, ms):
        s = z3.Solver()
        for f in facts: s.add(f)
        s.add(z3.Not(goal))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
            fh.write(txt); p = fh.name
        t = time.time()
        try:
            o = subprocess.run(['cvc5', '--tlimit=%d' % scaled(ms), p], capture_output=True, text=True, timeout=scaled(ms) / 1000 + 5)
            return o.stdout.strip().split('\n')[0]
        except Exception:
            return 'unknown'
        finally:
            self.t_solver += time.time() - t; self.nq += 1
            os.unlink(p)
