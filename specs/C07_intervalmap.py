"""C07 interval maps: disjoint keys with their values, exact lookup."""
import ctypes, random
from vc.proof import *
from vc.native import load
from vc.ordmodel import *
from specs.C01_split import status_codes
from specs.C06_intervalset import arg, grid, INT_MIN, native_build, native_load

U = 'units/p_interval.cpp'
UNITS = [U]
ASSUMPTIONS = ['std::map behaves as an ordered map under the comparator (vc/ordmodel.py)']
RULE = 'random histories of insert/find/erase/closest_interval with overlapping, adjacent, enclosing, equal-start and extreme intervals, compared with a list of disjoint intervals after every step'
BOUNDED = 'histories of up to 40 operations'
CLS = {'int': (I32, 12), 'double': (DOUBLE, 16)}


def setup(PP, ty):
    p = PP(U, 'uf', ptr_counters=True, max_counters=4)
    vt, stride = CLS[ty]
    s = OrdSet(p, stride, vt, rev=True)
    st = p.st
    f1, f2 = s.wellformed(st, 0)
    st.assume(f1); st.assume(f2)
    this = p.struct('this', 56)
    x0 = p.int('x0')
    p0 = p.ex.fresh(st, I64, 'p0')
    st.assume(And(p0 >= -1, p0 < END, Implies(p0 >= 0, And(s.mem(st, p0), p0 - OFF <= x0))))
    st.assume(s.all(st, lambda x: Implies(And(p0 < x, x - OFF <= x0), Not(s.mem(st, x)))))
    return p, s, this, x0, p0, And(p0 >= 0, x0 <= s.up(st, p0))


def same_map(s, st, snap):
    o = st.mem[s.o].arr
    return all(o[k] is v for k, v in snap.items())


def snap(s, st): return dict(st.mem[s.o].arr)


def insert(PP, ty):
    p, s, this, x0, p0, cov0 = setup(PP, ty)
    lb, ub = p.int('lb'), p.int('ub'); v = p.int('val') if ty == 'int' else p.real('val')
    inval = status_codes()['invalid_input']
    # an element overlapping the new interval, if there is one (any will do): g
    g = p.ex.fresh(p.st, I64, 'g')
    some = And(g >= 0, g < END, s.mem(p.st, g), g - OFF <= ub, lb <= s.up(p.st, g))
    sn = snap(s, p.st); st0 = p.st
    val0, up0 = s.val(p.st, g), s.up(p.st, g); mem0 = s.mem(p.st, g)

    def post(st, r):
        p.ensure(st, Or(Eq(r, 0), And(Eq(r, inval), same_map(s, st, sn))), 'success, or refused and unchanged')
        p.ensure(st, Implies(Or(ub < lb, some), Eq(r, inval)), 'an empty or overlapping interval is refused')
        # refused only for a reason: if nothing overlaps it is accepted
        none = s.all(st0, lambda x: Implies(And(s.mem(st0, x), x >= 0, x < END), Or(x - OFF > ub, s.up(st0, x) < lb)))
        t = st.clone(); t.assume(none); t.assume(lb <= ub)
        p.ensure(t, Eq(r, 0), 'a non-empty interval overlapping nothing is accepted')
        st.assume(Eq(r, 0))
        a, b = p.ex.fresh(st, I64, 'ga'), p.ex.fresh(st, I64, 'gb')
        p.ensure(st, Implies(s.mem(st, a), And(a >= 0, a < END, a - OFF <= s.up(st, a))), 'intervals are not empty')
        p.ensure(st, Implies(And(s.mem(st, a), s.mem(st, b), a < b), s.up(st, a) < b - OFF), 'intervals stay disjoint')
        n = lb + OFF
        p.ensure(st, And(s.mem(st, n), Eq(s.up(st, n), ub), Eq(s.val(st, n), v)), 'the interval is stored with its value')
        p.ensure(st, Implies(g != n, And(Eq(tz(s.mem(st, g)), tz(mem0)), Eq(s.up(st, g), up0), Eq(s.val(st, g), val0))), 'every other entry is unchanged')
    p.call(r'interval_map<%s>::insert\(' % ty, [this, arg(lb, ub), v], post)


def lookup(PP, ty, kind):
    p, s, this, x0, p0, cov0 = setup(PP, ty)
    sn = snap(s, p.st)
    vt = CLS[ty][0]
    if kind == 'find':
        V, L, Uo = p.array('v', vt, 1), p.array('l', I32, 1), p.array('u', I32, 1)

        def post(st, r):
            r = r if not isinstance(r, int) or isinstance(r, bool) else r != 0
            p.ensure(st, Eq(tz(r), tz(cov0)), 'found exactly when some interval contains the key')
            p.ensure(st, Implies(r, And(Eq(L.now(st)[0], p0 - OFF), Eq(Uo.now(st)[0], s.up(st, p0)), Eq(V.now(st)[0], s.val(st, p0)))), 'bounds and value of that interval')
            p.ensure(st, same_map(s, st, sn), 'the map is unchanged')
        p.call(r'interval_map<%s>::find\(int, ' % ty, [this, x0, V, L, Uo], post)
    elif kind == 'find iterator':
        def post(st, r):
            q = r if isinstance(r, Ptr) else r[0]
            p.ensure(st, And(q.o == s.o, Eq(q.i, If(cov0, p0, END))), 'iterator of the containing interval, else end')
            p.ensure(st, same_map(s, st, sn), 'the map is unchanged')
        p.call(r'interval_map<%s>::find\(int\)' % ty, [this, x0], post)
    elif kind == 'closest_interval':
        def post(st, r):
            q = r if isinstance(r, Ptr) else r[0]
            p.ensure(st, Implies(p0 >= 0, Eq(q.i, p0)), 'the last interval starting at or before the key')
            p.ensure(st, Or(Eq(q.i, END), s.mem(st, q.i)), 'an element or end')
            a = p.ex.fresh(st, I64, 'ga')
            p.ensure(st, Implies(And(p0 < 0, s.mem(st, a), a >= 0), Le(q.i, a)), 'else the first interval')
            p.ensure(st, same_map(s, st, sn), 'the map is unchanged')
        p.call(r'interval_map<%s>::closest_interval\(' % ty, [this, x0], post)


def erase(PP, ty, kind):
    p, s, this, x0, p0, cov0 = setup(PP, ty)
    a = p.ex.fresh(p.st, I64, 'ga')
    mem0, up0, val0 = s.mem(p.st, a), s.up(p.st, a), s.val(p.st, a)
    if kind == 'key': gone = And(cov0, Eq(a, p0)); args = [x0]; rx = r'erase\(int\)'
    elif kind == 'position':
        i = p.ex.fresh(p.st, I64, 'i'); p.requires(And(i >= 0, Or(Eq(i, END), And(i < END, s.mem(p.st, i)))))
        gone = Eq(a, i); args = [Ptr(s.o, i)]; rx = r'erase\(da_interval::interval_map<%s>::iterator\)' % ty
    else:
        i, j = p.ex.fresh(p.st, I64, 'i'), p.ex.fresh(p.st, I64, 'j')
        p.requires(And(i >= 0, i <= j, *[Or(Eq(x, END), And(x < END, s.mem(p.st, x))) for x in (i, j)]))
        gone = And(i <= a, a < j); args = [Ptr(s.o, i), Ptr(s.o, j)]; rx = r'erase\(da_interval::interval_map<%s>::iterator, ' % ty

    def post(st, r):
        p.ensure(st, Eq(tz(s.mem(st, a)), tz(And(mem0, Not(gone)))), 'exactly the named entries are gone')
        p.ensure(st, And(Eq(s.up(st, a), up0), Eq(s.val(st, a), val0)), 'the others keep bounds and value')
    p.call(r'interval_map<%s>::' % ty + rx, [this] + args, post)


def comparator(PP, ty):
    p = PP(U, 'uf')
    a, b = p.struct('a', 8), p.struct('b', 8); l1, u1, l2, u2 = p.int('l1'), p.int('u1'), p.int('l2'), p.int('u2')
    for q, l, u in ((a, l1, u1), (b, l2, u2)): p.put(q, 0, I32, l); p.put(q, 4, I32, u)
    t = p.struct('cmp', 1)
    p.call(r'interval_map<%s>::comp_interval_map::operator\(\)' % ty, [t, a, b],
           lambda st, r: p.ensure(st, Eq(tz(r), tz(Or(l1 < l2, And(Eq(l1, l2), u1 > u2)))), 'order of (lower, -upper)'))


def plain(PP, what):
    """interval helpers"""
    p = PP(U, 'uf')
    a, b = p.struct('a', 8), p.struct('b', 8); l1, u1, l2, u2 = p.int('l1'), p.int('u1'), p.int('l2'), p.int('u2')
    for q, l, u in ((a, l1, u1), (b, l2, u2)): p.put(q, 0, I32, l); p.put(q, 4, I32, u)
    x = p.int('x')
    if what == 'intersect':
        def post(st, r):
            lo, hi = Mod(r, 2**32), Div(r, 2**32)
            lo = If(lo >= 2**31, lo - 2**32, lo)
            p.ensure(st, Eq(And(lo <= x, x <= hi), And(l1 <= x, x <= u1, l2 <= x, x <= u2)), 'exactly the common integers')
        p.call(r'interval::intersect\(', [a, b], post)
    elif what == 'contains':
        p.call(r'interval::contains\(', [a, x], lambda st, r: p.ensure(st, Eq(tz(r), tz(And(l1 <= x, x <= u1))), 'membership'))
    else:
        p.call(r'interval::is_valid_idx\(', [a, x], lambda st, r: p.ensure(st, Eq(tz(r), tz(And(l1 <= u1, l1 >= 0, u1 < x))), 'a non-empty range of indices below the limit'))


def proofs(tier):
    l = []
    for ty in CLS:
        l += [Proof('interval_map<%s>::insert' % ty, insert, ty), Proof('interval_map<%s> comparator' % ty, comparator, ty)]
        l += [Proof('interval_map<%s>::%s' % (ty, k), lookup, ty, k) for k in ('find', 'find iterator', 'closest_interval')]
        l += [Proof('interval_map<%s>::erase %s' % (ty, k), erase, ty, k) for k in ('key', 'position', 'range')]
    return l + [Proof('interval::' + w, plain, w) for w in ('intersect', 'contains', 'is_valid_idx')]


def cases(rng, hints, tier, seed):
    while True:
        g = grid(rng); ops = []
        for _ in range(rng.randrange(2, 40)):
            a, b = g(), g()
            if a > b and rng.random() < .9: a, b = b, a
            if rng.random() < .35: b = a
            elif rng.random() < .5: b = min(b, a + rng.randrange(4))
            ops.append([rng.choice(['ins', 'ins', 'ins', 'ins', 'era', 'pos', 'range', 'isec']), a, b, rng.randrange(100)])
        yield dict(ops=ops)


def run_case(lib, c):
    s = ctypes.c_void_p(lib.im_new()); m = []; buf = (ctypes.c_int * 600)(); inval = status_codes()['invalid_input']
    for step, (o, a, b, v) in enumerate(c['ops']):
        if o == 'ins':
            r = lib.im_insert(s, a, b, v)
            bad = a > b or any(x <= b and a <= y for x, y, _ in m)
            if r != (inval if bad else 0): return 'step %d: insert [%d,%d] into %s: status %d, expected %d' % (step, a, b, m, r, inval if bad else 0)
            if not bad: m = sorted(m + [[a, b, v]])
        elif o == 'isec':
            lib.iv_intersect(a, b, v, 2 * v, buf)
            if buf[0] != max(a, v) or buf[1] != min(b, 2 * v): return 'intersect of [%d,%d] and [%d,%d]: [%d,%d]' % (a, b, v, 2 * v, buf[0], buf[1])
            if bool(buf[4]) != (a <= b and a >= 0 and b < 2 * v): return 'is_valid_idx [%d,%d] below %d' % (a, b, 2 * v)
        else:
            if o == 'era':
                i = [k for k, e in enumerate(m) if e[0] <= a <= e[1]]; f = i[0] if i else len(m); l = f + 1
                r = lib.im_erase(s, a, buf)
            elif o == 'pos':
                f = v % (len(m) + 1); l = f + 1; r = lib.im_erasepos(s, f, buf)
            else:
                f = v % (len(m) + 1); l = f + (abs(a) % (len(m) - f + 1)); r = lib.im_eraserange(s, f, l, buf)
            want = m[l] if f < len(m) and l < len(m) else None
            m = m[:f] + m[l:]
            got = list(buf[:3]) if r else None
            if got != want: return 'step %d: %s returns the entry %s, expected %s' % (step, o, got, want)
        for f in (lib.im_list, lib.im_list2):
            n = f(s, buf, 200); got = [list(buf[3 * i:3 * i + 3]) for i in range(min(n, 200))]
            if got != m: return 'step %d %s [%d,%d]: the map holds %s, expected %s' % (step, o, a, b, got[:8], m[:8])
        if bool(lib.im_empty(s)) != (not m): return 'step %d: empty() is wrong' % step
        for k in sorted({x + d for iv in m + [[a, b]] for x in iv[:2] for d in (-1, 0, 1)} | {0}):
            if not INT_MIN <= k < 2**31: continue
            want = [iv for iv in m if iv[0] <= k <= iv[1]]
            for f, nm in ((lib.im_find, 'find'), (lib.im_findit, 'find iterator')):
                r = f(s, k, buf); got = [list(buf[:3])] if r else []
                if got != want: return 'step %d: %s(%d) gives %s, expected %s' % (step, nm, k, got, want)
            r = lib.im_closest(s, k, buf); got = list(buf[:3]) if r else None
            le = [iv for iv in m if iv[0] <= k]; want = le[-1] if le else (m[0] if m else None)
            if got != want: return 'step %d: closest_interval(%d) gives %s, expected %s' % (step, k, got, want)
    lib.im_del(s)
    return None
