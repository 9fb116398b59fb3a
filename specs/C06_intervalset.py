"""C06 interval sets: canonical form and exact coverage."""
import ctypes, random
from vc.proof import *
from vc.native import load
from vc.ordmodel import *
from specs.C01_split import status_codes

U = 'units/p_interval.cpp'
UNITS = [U]
ASSUMPTIONS = ['std::set behaves as an ordered set under the comparator (vc/ordmodel.py)']
RULE = 'random histories of insert/erase/find/clear with overlapping, adjacent, enclosing and extreme intervals, compared with a set of integers after every step'
BOUNDED = 'histories of up to 40 operations'
INT_MIN = -2**31


def arg(lo, hi):
    """two ints passed in one register"""
    return Add(Mul(hi, 2**32), If(lo < 0, lo + 2**32, lo)) if z3.is_expr(lo) else Add(Mul(hi, 2**32), lo % 2**32)


def setup(PP):
    p = PP(U, 'uf', ptr_counters=True, max_counters=4)
    s = OrdSet(p, 8)
    st = p.st
    f1, f2 = s.wellformed(st, 1)
    st.assume(f1); st.assume(f2)
    this = p.struct('this', 56)
    x0 = p.int('x0')
    # p0: the last element with lower bound <= x0, or -1
    p0 = p.ex.fresh(st, I64, 'p0')
    st.assume(And(p0 >= -1, p0 < END, Implies(p0 >= 0, And(s.mem(st, p0), p0 - OFF <= x0))))
    st.assume(s.all(st, lambda x: Implies(And(p0 < x, x - OFF <= x0), Not(s.mem(st, x)))))
    st.assume(s.mem(st, -1) if False else True)
    cov0 = And(p0 >= 0, x0 <= s.up(st, p0))
    return p, s, this, x0, p0, cov0


def nodeptrs(L, s):
    out = []
    for oid in sorted(L._st.mem):
        o = L._st.mem[oid]
        for off in sorted(o.cells):
            v = o.cells[off][1]
            if isinstance(v, Ptr) and v.o == s.o and not isint(v.i): out.append(v.i)
    return out


def invariants(p, s, lb, ub):
    el = lambda L, i: Or(Eq(i, END), s.mem(L, i))
    p.inv('iterator is an element or end', lambda L, c_i: And(Le(0, c_i), Le(c_i, END), el(L, c_i)))
    p.inv('earlier elements end before ub', lambda L, c_i: s.all(L, lambda x: Implies(And(s.mem(L, x), x >= 0, x < c_i), s.up(L, x) < ub)))
    p.inv('order', lambda L, c_l, c_u: Le(c_l, c_u))
    p.inv('elements in between start after lb', lambda L, c_l, c_u: s.all(L, lambda x: Implies(And(s.mem(L, x), c_l < x, x <= c_u, x < END), x - OFF > lb)))
    p.inv('initial or starting at most at lb', lambda L, c_l: Or(Eq(c_l, L.entry().v('c_l')), And(Lt(c_l, END), c_l - OFF <= lb)))
    def removed(L, c_i):
        E = L.entry(); i0 = E.v('c_i')
        r = s.root(E)
        return s.all(L, lambda x: Eq(tz(s.mem(L, x)), tz(And(s.mem(E, x), Not(And(i0 <= x, x < c_i))))), [r])
    p.inv('elements from the start to the iterator are removed', removed)
    p.inv('iterator does not go back', lambda L, c_i: Le(L.entry().v('c_i'), c_i))
    for j in range(6):
        def below(L, c_i, j=j):
            q = nodeptrs(L.entry(), s); return Le(c_i, q[j]) if j < len(q) else True
        p.inv('iterator stays below %d' % j, below)


def canon(p, s, st, lo=INT_MIN, gap=1):
    """class invariant on return, at arbitrary slots"""
    a, b = p.ex.fresh(st, I64, 'ga'), p.ex.fresh(st, I64, 'gb')
    p.ensure(st, Implies(s.mem(st, a), And(a >= 0, a < END, a - OFF <= s.up(st, a))), 'intervals are not empty')
    p.ensure(st, Implies(And(s.mem(st, a), s.mem(st, b), a < b), s.up(st, a) + gap < b - OFF), 'intervals stay disjoint and non-adjacent')


def covers(p, s, st, x0, p0, want):
    l = p.ex.fresh(st, I64, 'gl')
    ks = [k for k in [p0] + s.keys(st)]
    p.ensure(st, Implies(want, Or(*[And(s.mem(st, k), k - OFF <= x0, x0 <= s.up(st, k)) for k in ks])), 'every wanted integer is in the set')
    p.ensure(st, Implies(And(s.mem(st, l), l >= 0, l - OFF <= x0, x0 <= s.up(st, l)), want), 'nothing else is in the set')


def change(PP, what):
    p, s, this, x0, p0, cov0 = setup(PP)
    ok, inval = 0, status_codes()['invalid_input']
    lb, ub = p.int('lb'), p.int('ub')
    mem0 = p.st.mem[s.o].arr[(GM, 'i8')]; up0 = p.st.mem[s.o].arr[(4, 'i32')]
    invariants(p, s, lb, ub)

    def post(st, r):
        same_ = st.mem[s.o].arr[(GM, 'i8')] is mem0 and st.mem[s.o].arr[(4, 'i32')] is up0
        p.ensure(st, Implies(lb > ub, And(Eq(r, inval), same_)), 'an empty interval is refused and changes nothing')
        p.ensure(st, Implies(lb <= ub, Eq(r, ok)), 'any other interval is accepted')
        st.assume(lb <= ub)
        canon(p, s, st)
        inside = And(lb <= x0, x0 <= ub)
        covers(p, s, st, x0, p0, Or(cov0, inside) if what == 'insert' else And(cov0, Not(inside)))
    p.call(r'interval_set::%s\(da_interval::interval\)' % what, [this, arg(lb, ub)], post)


def find(PP, kind):
    p, s, this, x0, p0, cov0 = setup(PP)
    mem0 = p.st.mem[s.o].arr[(GM, 'i8')]
    if kind == 'bool':
        inc = p.struct('inc', 8)

        def post(st, r):
            r = r if not isinstance(r, int) or isinstance(r, bool) else r != 0
            p.ensure(st, Eq(tz(r), tz(cov0)), 'found exactly when the integer is in the set')
            p.ensure(st, Implies(r, And(Eq(p.get(st, inc, 0, I32), p0 - OFF), Eq(p.get(st, inc, 4, I32), s.up(st, p0)))), 'the interval that contains it')
            p.ensure(st, st.mem[s.o].arr[(GM, 'i8')] is mem0, 'the set is unchanged')
        p.call(r'interval_set::find\(int, ', [this, x0, inc], post)
    else:
        def post(st, r):
            q = r if isinstance(r, Ptr) else r[0]
            p.ensure(st, And(q.o == s.o, Eq(q.i, If(cov0, p0, END))), 'iterator of the containing interval, else end')
            p.ensure(st, st.mem[s.o].arr[(GM, 'i8')] is mem0, 'the set is unchanged')
        p.call(r'interval_set::find\(int\)', [this, x0], post)


def walk(PP, what):
    """begin / ++ / * enumerate the elements in increasing order"""
    p, s, this, x0, p0, cov0 = setup(PP)
    if what == 'begin':
        def post(st, r):
            q = r if isinstance(r, Ptr) else r[0]
            p.ensure(st, Implies(p0 >= 0, And(q.i <= p0, s.mem(st, q.i))), 'begin is the first element')
        p.call(r'interval_set::begin\(\)', [this], post)
    elif what == 'next':
        it = p.struct('it', 8); i = p.ex.fresh(p.st, I64, 'i'); p.requires(And(i >= 0, i < END, s.mem(p.st, i)))
        p.put(it, 0, PTR, Ptr(s.o, i))

        def post(st, r):
            q = p.get(st, it, 0, PTR)
            p.ensure(st, And(q.i > i, Or(Eq(q.i, END), s.mem(st, q.i))), 'moves to a later element or end')
            p.ensure(st, Implies(And(p0 > i), q.i <= p0), 'skips no element')
        p.call(r'interval_set::iterator::operator\+\+\(\)', [it], post)
    elif what == 'empty':
        def post(st, r): p.ensure(st, Implies(p0 >= 0, Not(r)), 'not empty when it holds an element')
        p.call(r'interval_set::empty\(\)', [this], post)
    else:
        def post(st, r): p.ensure(st, Not(s.mem(st, p0)), 'no element is left')
        p.call(r'interval_set::clear\(\)', [this], post)


def comparator(PP):
    p = PP(U, 'uf')
    a, b = p.struct('a', 8), p.struct('b', 8); l1, u1, l2, u2 = p.int('l1'), p.int('u1'), p.int('l2'), p.int('u2')
    for q, l, u in ((a, l1, u1), (b, l2, u2)): p.put(q, 0, I32, l); p.put(q, 4, I32, u)
    t = p.struct('cmp', 1)
    p.call(r'comp_interval_set::operator\(\)', [t, a, b], lambda st, r: p.ensure(st, Eq(tz(r), tz(Or(l1 < l2, And(Eq(l1, l2), u1 < u2)))), 'lexicographic order of (lower, upper)'))


def proofs(tier):
    return [Proof('interval_set::insert', change, 'insert'), Proof('interval_set::erase', change, 'erase'), Proof('interval_set::find', find, 'bool'),
            Proof('interval_set::find iterator', find, 'it'), Proof('interval_set comparator', comparator)] + \
           [Proof('interval_set ' + w, walk, w) for w in ('begin', 'next', 'empty', 'clear')]


# ---------------------------------------------------------------- real code on concrete histories
def native_build(): build.so('iv', ['units/n_interval.cpp'], omp=False)
def native_load():
    l = load('iv')
    l.is_new.restype = l.im_new.restype = ctypes.c_void_p
    return l


def grid(rng):
    """where the bounds of one history come from"""
    k = rng.randrange(5)
    if k == 0: return lambda: rng.randrange(-6, 7)
    if k == 1: return lambda: rng.choice([INT_MIN, INT_MIN + 1, INT_MIN + 2, -1, 0, 1, 2**31 - 3, 2**31 - 2, 2**31 - 1])
    if k == 2: return lambda: rng.randrange(0, 40)
    if k == 3: return lambda: 2**31 - 1 - rng.randrange(0, 12)
    return lambda: INT_MIN + rng.randrange(0, 12)


def cases(rng, hints, tier, seed):
    while True:
        g = grid(rng); ops = []
        for _ in range(rng.randrange(2, 40)):
            a, b = g(), g()
            if a > b and rng.random() < .85: a, b = b, a
            if rng.random() < .25: b = a
            ops.append([rng.choice(['ins', 'ins', 'ins', 'era', 'era', 'clear'] if rng.random() < .2 else ['ins', 'era', 'ins']), a, b])
        yield dict(ops=ops)


def norm(l):
    out = []
    for a, b in sorted(l):
        if a > b: continue
        if out and a <= out[-1][1] + 1: out[-1][1] = max(out[-1][1], b)
        else: out.append([a, b])
    return out


def run_case(lib, c):
    c_p = ctypes.c_void_p; s = c_p(lib.is_new()); m = []; buf = (ctypes.c_int * 400)(); inval = status_codes()['invalid_input']
    for step, (o, a, b) in enumerate(c['ops']):
        if o == 'clear': lib.is_clear(s); m = []; r = 0
        else: r = (lib.is_insert if o == 'ins' else lib.is_erase)(s, a, b)
        if o != 'clear' and a > b:
            if r != inval: return 'step %d %s [%d,%d]: status %d, expected %d' % (step, o, a, b, r, inval)
        elif r != 0: return 'step %d %s [%d,%d]: status %d, expected success' % (step, o, a, b, r)
        elif o == 'ins': m = norm(m + [[a, b]])
        elif o == 'era': m = norm([[x, min(y, a - 1)] for x, y in m] + [[max(x, b + 1), y] for x, y in m])
        for f in (lib.is_list, lib.is_list2):
            n = f(s, buf, 200); got = [[buf[2 * i], buf[2 * i + 1]] for i in range(min(n, 200))]
            if got != m: return 'step %d %s [%d,%d]: the set holds %s, expected %s' % (step, o, a, b, got[:8], m[:8])
        if bool(lib.is_empty(s)) != (not m): return 'step %d: empty() is wrong' % step
        for k in sorted({x + d for iv in m + [[a, b]] for x in iv for d in (-1, 0, 1)} | {0}):
            if not INT_MIN <= k < 2**31: continue
            want = [iv for iv in m if iv[0] <= k <= iv[1]]
            for f, nm in ((lib.is_find, 'find'), (lib.is_findit, 'find iterator')):
                r = f(s, k, buf); got = [[buf[0], buf[1]]] if r else []
                if got != want: return 'step %d: %s(%d) gives %s, expected %s' % (step, nm, k, got, want)
    lib.is_del(s)
    return None
