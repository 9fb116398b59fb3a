"""Contract text: what a proof of one function looks like, and how it is run."""
import os, time, re, types, traceback
import z3
from . import build
from .values import *
from .llparse import T, INT, PTR, FLOAT, DOUBLE, Module
from .engine import *

I8, I16, I32, I64 = INT(8), INT(16), INT(32), INT(64)
INT_MAX = 2**31 - 1


class Arr:
    """array parameter: pointer, element type, contents on entry"""
    def __init__(self, p, name, ty, ptr, count):
        self.p = p; self.name = name; self.ty = ty; self.ptr = ptr; self.count = count
        self.old = p.ex.view(p.st, ptr, ty)
        self.old.st = p.st

    def now(self, s):
        """contents in state / loop environment s"""
        st = s._st if isinstance(s, LoopEnv) else s
        return self.p.ex.view(st, self.ptr, self.ty)

    def fact(self, fn):
        self.p.ex.array_fact(self.p.st, self.ptr, self.ty, fn)
        self.old = self.p.ex.view(self.p.st, self.ptr, self.ty)


class P:
    """one proof: symbolic inputs satisfying the precondition, the function, the postcondition"""
    def __init__(self, unit, fmode='real', extra=(), **opts):
        self.path = build.ir(unit, extra)
        self.mod = _module(self.path)
        self.ex = Ex(self.mod, fmode, opts)
        self.st = State()
        self.S = types.SimpleNamespace()
        self.ex.S = self.S
        self.rets = 0; self.covered = False
        self.assumed = []
        self.under = []

    # inputs
    def int(self, name, lo=None, hi=None, n=32):
        v = self.ex.fresh_int(self.st, n, name)
        if lo is not None: self.st.assume(Le(lo, v))
        if hi is not None: self.st.assume(Le(v, hi))
        return v

    def i64(self, name, lo=None, hi=None): return self.int(name, lo, hi, 64)

    def real(self, name): return self.ex.fresh(self.st, DOUBLE, name)

    def ghost(self, name, lo=None, hi=None): return self.int(name, lo, hi)

    def requires(self, c, note=None):
        self.st.assume(c)
        if note: self.assumed.append(note)

    def array(self, name, ty, count):
        if not isint(count):
            c = self.ex.fresh(self.st, I64, name + '.n'); self.st.assume(Eq(c, count)); count = c
        return Arr(self, name, ty, self.ex.new_array(self.st, name, ty, count), count)

    def vector(self, name, ty, size, cap=None):
        """a std::vector object holding an array of scalars; returns (pointer to the vector, Arr)"""
        a = self.array(name, ty, size if cap is None else cap)
        o = self.ex.new_obj(self.st, name + '.vec', 'heap', bytes=24)
        q = Ptr(o.id)
        self.ex.put(self.st, q, 0, PTR, a.ptr)
        self.ex.put(self.st, q, 8, PTR, Ptr(a.ptr.o, size))
        self.ex.put(self.st, q, 16, PTR, Ptr(a.ptr.o, a.count))
        a.size = size
        return q, a

    def struct(self, name, nbytes, zero=False):
        o = self.ex.new_obj(self.st, name, 'heap', bytes=nbytes)
        if zero: o.meta = dict(zero=True)
        return Ptr(o.id)

    def field(self, cls, name):
        m = self.mod.di_members(cls)
        if m is None or name not in m: raise Unsupported('no member %s in %s' % (name, cls))
        return m[name][0]

    def put(self, ptr, off, ty, v): self.ex.put(self.st, ptr, off, ty, v)
    def get(self, s, ptr, off, ty):
        st = s._st if isinstance(s, LoopEnv) else s
        return self.ex.cell(st, ptr, off, ty)

    def inv(self, name, fn, where=None): self.ex.invs.append((where, name, fn))
    def decreases(self, name, fn, where=None): self.ex.decs.append((where, name, fn))
    def model(self, rx, fn): self.ex.model(rx, fn)

    def fn(self, rx):
        l = self.ex.find(rx)
        if not l: raise Unsupported('no function matches ' + rx)
        return min(l, key=lambda n: len(self.ex.dem[n]))

    def call(self, rx, args, post):
        name = self.fn(rx)
        self.under.append(self.ex.dem[name])
        st = self.st.clone()
        args = [a.ptr if isinstance(a, Arr) else a for a in args]
        self.ex.call_frame(st, name, args, ret='BOTTOM')

        def on_ret(s, v):
            self.rets += 1
            if not self.covered:
                self.ex.pr.sync(s.pc)
                if self.ex.pr.s.check() != z3.unsat: self.covered = True
            if SMOKE:
                r = self.ex.pr.prove(s.pc, z3.BoolVal(False)); SMOKE_LOG.append(r.status)
            post(s, v)
        self.ex.run(st, on_ret)

    def ensure(self, s, goal, name):
        return self.ex.oblige(s, goal, name, 'post')


_mods = {}


def _module(path):
    if path not in _mods: _mods[path] = Module(path)
    return _mods[path]


SMOKE = bool(os.environ.get('VERIF_SMOKE')); SMOKE_LOG = []      # development aid: is False provable at the returns (contradictory assumptions)?


def model_ints(m, limit=60):
    out = {}
    if m is None: return out
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v): out[d.name()] = v.as_long()
                elif z3.is_rational_value(v): out[d.name()] = str(v)
            if len(out) > limit: break
    except z3.Z3Exception: pass
    return out


def run_proof(fn, tier='quick'):
    """execute one proof; a JSON-able verdict"""
    t0 = time.time()
    ps = []
    res = dict(name=fn.name, status='proved', obligations=0, discharged=0, trivial=0, failures=[], reason='', assumed=[], models=[],
               under=[], inlined=[], invariants={}, dropped=[], backends={}, kinds={}, solver_s=0.0, queries=0, wall_s=0.0)
    made = []

    class PP(P):
        def __init__(self, *a, **k):
            k.setdefault('max_time', fn.max_time)
            P.__init__(self, *a, **k); made.append(self)
    try:
        fn.fn(PP, *fn.args)
    except Unsupported as e:
        res['status'] = 'undecided'; res['reason'] = str(e)
    except build.BuildError as e:
        res['status'] = 'undecided'; res['reason'] = 'build: ' + str(e)[-600:]
    except z3.Z3Exception as e:
        res['status'] = 'undecided'; res['reason'] = 'z3: ' + str(e) + traceback.format_exc()[-2500:]
    except Exception as e:
        res['status'] = 'undecided'; res['reason'] = 'internal: ' + traceback.format_exc()[-1500:]
    for p in made:
        ex = p.ex
        for name, kind, be, ms in ex.obl:
            res['obligations'] += 1
            if be != 'FAILED':
                res['discharged'] += 1
            res['backends'][be] = res['backends'].get(be, 0) + 1
            res['kinds'][kind] = res['kinds'].get(kind, 0) + 1
        seen = set()
        for f in ex.failures:
            k = (f['name'], f['where'])
            if k in seen: continue
            seen.add(k)
            res['failures'].append(dict(name=f['name'], kind=f['kind'], goal=f['goal'], where=f['where'], reason=f['reason'], model=model_ints(f['model'])))
        res['assumed'] += p.assumed
        res['models'] += sorted(ex.used_models) + sorted(ex.notes)
        res['under'] += p.under
        res['inlined'] += sorted(re.sub(r'\(.*', '', d) for d in ex.inlined if not d.startswith(('std::', '__gnu', 'decltype', 'bool std', 'void std', 'bool __gnu', 'int const& std', '__gnu')))
        for k, v in ex.inv_stats.items():
            if k == 'dropped': res['dropped'] += sorted(v)
            else: res['invariants'][k] = sorted(v)
        res['solver_s'] += ex.pr.t_solver; res['queries'] += ex.pr.nq
        if res['status'] == 'proved' and not ex.failures and (p.rets == 0 or not p.covered):
            res['status'] = 'undecided'; res['reason'] = 'vacuous: no reachable return under the precondition'
    if res['failures'] and res['status'] == 'proved': res['status'] = 'failed'
    if res['failures'] and res['status'] == 'undecided': res['reason'] += ' (and %d obligations not discharged)' % len(res['failures'])
    if res['status'] == 'proved' and res['obligations'] == 0:
        res['status'] = 'undecided'; res['reason'] = 'no obligations generated'
    res['wall_s'] = round(time.time() - t0, 2); res['solver_s'] = round(res['solver_s'], 2)
    return res


class Proof:
    def __init__(self, name, fn, *args, max_time=400):
        self.name = name; self.fn = fn; self.args = args; self.max_time = max_time

