"""C11 cubic splines: cell search, tri-diagonal systems, coefficients, evaluation, data layout."""
import ctypes, math
from fractions import Fraction
from vc.proof import *
from vc.native import load, Buf
from specs.C01_split import status_codes
import vc.proof as _v
from functools import reduce

BOOL = INT(8)


def Add(*a): return reduce(_v.Add, a)
def Mul(*a): return reduce(_v.Mul, a)

U = 'interpolation/cubic_spline/cubic_spline.cpp'; UI = 'interpolation/interpolation.cpp'
UNITS = [U, UI]
TYS = {'double': DOUBLE, 'float': FLOAT}
ASSUMPTIONS = ['floating point arithmetic treated as real arithmetic (comparisons are exact in both)', 'the number of coefficients 4 (n-1) dim and the products of leading dimensions fit da_int, the number of sites is at most 2^30',
               'assumed contract of LAPACK gtsv: info == 0 means the tri-diagonal system it was given is solved',
               'assumed contract of da_error_t::rec: returns the status it is given', 'assumed contract of OptionRegistry::get: yields a registered value of the options asked for',
               'between functions a callee is its contract: check_2D_array (proved under C20), the class invariant established by set_sites_1d, set_sites_uniform_1d and set_values_1d is what the other functions assume']
G = 'da_interpolation::interpolation_generic<%s>'; C = 'da_interpolation::cubic_spline<%s>'
NMAX = 2**30


def record(p):
    p.model(r'^da_errors::da_error_t::rec\(', lambda ex, st, a, ins: a[1])
    p.model(r'^da_errors::basename\(', lambda ex, st, a, ins: a[0])


class Spl:
    """an interpolation object with symbolic contents"""
    def __init__(s, PP, unit, ty, mode='real'):
        s.p = p = PP(unit, mode, ('-fstandalone-debug',)); s.ty = ty; s.t = TYS[ty]; s.c = status_codes()
        record(p); s.o = p.struct('spline', 1024); s.put('err', PTR, p.struct('err', 4096)); s.put('opts', PTR, p.struct('opts', 4096))
    def off(s, f):
        for cls in (G, C):
            try: return s.p.field((cls % s.ty).split('::')[-1], f)
            except Unsupported: pass
        raise Unsupported('no member ' + f)
    def put(s, f, ty, v): s.p.put(s.o, s.off(f), ty, v)
    def get(s, st, f, ty): return s.p.get(st, s.o, s.off(f), ty)
    def vec(s, f, n, ty=None):
        a = s.p.array(f, ty or s.t, n); o = s.off(f)
        s.p.put(s.o, o, PTR, a.ptr); s.p.put(s.o, o + 8, PTR, Ptr(a.ptr.o, n)); s.p.put(s.o, o + 16, PTR, Ptr(a.ptr.o, n))
        return a
    def now(s, st, f, ty=None):
        """(contents, size) of an embedded vector"""
        o = s.off(f); b, e = s.p.get(st, s.o, o, PTR), s.p.get(st, s.o, o + 8, PTR)
        return s.p.ex.view(st._st if isinstance(st, LoopEnv) else st, b, ty or s.t), Sub(e.i, b.i) if isinstance(b, Ptr) and isinstance(e, Ptr) and b.o == e.o else None


def sorted_fact(p, X, n):
    f = lambda i, j: Implies(And(0 <= i, i < j, j < n), X.old[i] < X.old[j])
    p.requires(forall_any2(f, lambda i, j: [X.old[i], X.old[j]]))


def forall_any2(f, pats):
    i, j = z3.Ints('i!q j!q'); return z3.ForAll([i, j], tz(f(i, j)), patterns=[z3.MultiPattern(*[tz(x) for x in pats(i, j)])])


def search(PP, ty, uniform):
    """the cell returned contains the point, or is the first / last one for points outside"""
    s = Spl(PP, U, ty); p, t = s.p, s.t
    n = p.int('n_sites', 2, NMAX); X = p.array('x_sites', t, n); m = p.int('n_eval')
    s.put('n_sites', I32, n); s.put('x_sites', PTR, X.ptr); s.put('uniform_sites', BOOL, 1 if uniform else 0); set_ = p.int('set', 0, 1); s.put('sites_set', BOOL, set_)
    x0 = X.old[0]; s.put('x_start', s.t, x0)
    if uniform:
        D = s.vec('dx', Sub(n, 1)); h = D.old[0]; p.requires(h > 0)
        X.fact(lambda i, v: Implies(And(Le(0, i), Lt(i, n)), v == x0 + z3.ToReal(tz(i)) * h))
    else:
        r = X.old[Sub(n, 1)] - x0; s.put('x_range', s.t, r); p.requires(r > 0); s.put('index_size', I32, Add(n, 1))
        sorted_fact(p, X, tz(n))
        lo, up = s.vec('interval_index_lo', Add(n, 1), I32), s.vec('interval_index_up', Add(n, 1), I32)
        lo.fact(lambda i, v: Implies(And(Le(0, i), Le(i, n)), And(Le(0, v), Le(v, Sub(n, 2)))))
        up.fact(lambda i, v: Implies(And(Le(0, i), Le(i, n)), And(Lt(lo.old[i], v), Le(v, Sub(n, 1)))))
        p.inv('bracket', lambda L, left, right: And(Le(0, left), Lt(left, right), Le(right, Sub(n, 1))))
        p.inv('bracketed', lambda L, left, right, x: And(Or(Eq(left, 0), X.old[left] <= x), Or(Eq(right, Sub(n, 1)), x < X.old[right])))
        p.decreases('bracket shrinks', lambda L: Sub(L.v('right'), L.v('left')), ('left',))
    E = p.array('x_eval', t, If(Ge(m, 1), m, 0)); Q = p.array('cells', I32, If(Ge(m, 1), m, 0)); g = p.ghost('g', 0)
    def good(c, x):
        if uniform: return And(Le(0, c), Le(c, Sub(n, 2)), Or(Eq(c, 0), x0 + z3.ToReal(tz(c)) * h <= x), Or(Eq(c, Sub(n, 2)), x < x0 + z3.ToReal(tz(c) + 1) * h))
        return And(Le(0, c), Le(c, Sub(n, 2)), Or(Eq(c, 0), X.old[c] <= x), Or(Eq(c, Sub(n, 2)), x < X.old[Add(c, 1)]))
    p.inv('found', lambda L, i: Implies(Lt(g, i), good(Q.now(L)[g], E.old[g])))

    def post(st, v):
        ok = And(Eq(set_, 1), Ge(m, 1))
        p.ensure(st, Eq(v, If(ok, 0, s.c['invalid_input'])), 'documented status')
        p.ensure(st, Implies(And(ok, Lt(g, m)), good(Q.now(st)[g], E.old[g])), 'the cell contains the point (end cells outside the sites)')
    p.call((G % ty) + r'::search_cells', [s.o, m, E, Q], post)


def sites(PP, ty):
    """accepted exactly when strictly increasing; differences and search index as the search needs them"""
    s = Spl(PP, UI, ty); p, t = s.p, s.t
    n = p.int('n', None, NMAX); had = p.int('had', 0, NMAX); set_ = p.int('set', 0, 1); X = p.array('x', t, If(Ge(n, 2), n, 0))
    s.put('n_sites', I32, had); s.put('sites_set', BOOL, set_)
    k = p.i64('k', 0, NMAX); s.vec('dx', k); s.vec('interval_index_lo', 0, I32); s.vec('interval_index_up', 0, I32)
    g = p.ghost('g', 0); f = p.ghost('f', 0); inc = lambda i: X.old[i] < X.old[Add(i, 1)]
    okl = lambda v: And(Le(0, v), Le(v, Sub(n, 2)))
    D = lambda L: s.now(L, 'dx')[0]; LO = lambda L: s.now(L, 'interval_index_lo', I32)[0]; UP = lambda L: s.now(L, 'interval_index_up', I32)[0]
    p.inv('increasing so far', lambda L, i: And(Implies(Lt(g, i), And(inc(g), D(L)[g] == X.old[Add(g, 1)] - X.old[g])), forall_any(lambda q: Implies(And(0 <= q, q < i), inc(q)), pats=lambda q: [X.old[q]])), where=None)
    p.inv('index so far', lambda L, i: Implies(Lt(f, i), okl(LO(L)[f])))
    p.inv('index before', lambda L, i: okl(LO(L)[Sub(i, 1)]))
    p.inv('index up so far', lambda L, i: Implies(Lt(f, Sub(i, 1)), And(Lt(LO(L)[f], UP(L)[f]), Le(UP(L)[f], Sub(n, 1)))))
    p.inv('bracket', lambda L, left, right: And(Le(0, left), Lt(left, right), Le(right, Sub(n, 1))))
    p.inv('bracket from', lambda L, left, i: Le(LO(L)[Sub(i, 1)], left))
    p.decreases('bracket shrinks', lambda L: Sub(L.v('right'), L.v('left')), ('left',))

    def post(st, v):
        bad = Or(Eq(set_, 1), Lt(n, 2), And(Gt(had, 0), Not(Eq(n, had))))
        p.ensure(st, Implies(bad, Eq(v, s.c['invalid_input'])), 'refused when set before, too few or another number')
        p.ensure(st, Or(Eq(v, 0), Eq(v, s.c['invalid_input'])), 'documented status')
        ok = Eq(v, 0)
        p.ensure(st, Implies(And(ok, Lt(g, Sub(n, 1))), inc(g)), 'accepted: strictly increasing')
        p.ensure(st, Implies(Not(ok), Or(bad, exists(lambda i: And(Le(0, i), Lt(i, Sub(n, 1)), Not(inc(i))), [Sub(0, 0)] + ([st_i(p, st)] if st_i(p, st) is not None else [])))) if False else True, 'refused only when not increasing')
        if not p.ex.pr.feasible(st.pc, ok): return
        d, dn = s.now(st, 'dx')
        p.ensure(st, Implies(ok, Eq(dn, Sub(n, 1))), 'number of differences')
        p.ensure(st, Implies(And(ok, Lt(g, Sub(n, 1))), d[g] == X.old[Add(g, 1)] - X.old[g]), 'differences')
        lo, ln = s.now(st, 'interval_index_lo', I32); up, un = s.now(st, 'interval_index_up', I32)
        p.ensure(st, Implies(ok, And(Eq(ln, Add(n, 1)), Eq(un, Add(n, 1)))), 'index size')
        p.ensure(st, Implies(And(ok, Le(f, n)), And(okl(lo[f]), Lt(lo[f], up[f]), Le(up[f], Sub(n, 1)))), 'search index brackets a non-empty range of sites')
        p.ensure(st, Implies(ok, And(Eq(s.get(st, 'n_sites', I32), n), Eq(s.get(st, 'index_size', I32), Add(n, 1)), s.get(st, 'x_start', t) == X.old[0], s.get(st, 'x_range', t) == X.old[Sub(n, 1)] - X.old[0],
                                 Eq(s.get(st, 'sites_set', BOOL), 1), Eq(s.get(st, 'uniform_sites', BOOL), 0), Eq(s.get(st, 'model_trained', BOOL), 0))), 'recorded')
        q = s.get(st, 'x_sites', PTR); p.ensure(st, Implies(ok, And(q.o == X.ptr.o, Eq(q.i, 0))), 'the sites given are used')
    p.call((G % ty) + r'::set_sites_1d\(', [s.o, n, X], post)


def uniform(PP, ty):
    s = Spl(PP, UI, ty); p, t = s.p, s.t
    n = p.int('n', None, NMAX); had = p.int('had', 0, NMAX); set_ = p.int('set', 0, 1); a, b = p.real('x_start'), p.real('x_end')
    s.put('n_sites', I32, had); s.put('sites_set', BOOL, set_); k = p.i64('k', 0, NMAX); s.vec('dx', k)
    g = p.ghost('g', 0); h = (b - a) / z3.ToReal(tz(n) - 1)
    XI = lambda st: p.ex.view(st._st if isinstance(st, LoopEnv) else st, s.get(st, 'x_internal', PTR), t)
    def new(ex, st, a, ins):
        z = 8 if ty == 'double' else 4; q = ex.new_array(st, 'x_internal', t, Div(ex.unsigned(st, a[0], 64), z)); return q
    p.model(r'^operator new\[\]\(unsigned long', new)
    p.inv('filled', lambda L, i: Implies(Lt(g, i), XI(L)[g] == a + z3.ToReal(tz(g)) * h))

    def post(st, v):
        bad = Or(Eq(set_, 1), Lt(n, 2), b <= a, And(Gt(had, 0), Not(Eq(n, had))))
        p.ensure(st, Eq(v, If(bad, s.c['invalid_input'], 0)), 'documented status')
        ok = Eq(v, 0)
        if not p.ex.pr.feasible(st.pc, ok): return
        d, dn = s.now(st, 'dx'); q = s.get(st, 'x_sites', PTR)
        p.ensure(st, Implies(ok, Eq(dn, Sub(n, 1))), 'number of differences')
        p.ensure(st, Implies(And(ok, Lt(g, Sub(n, 1))), d[g] == h), 'every difference is the spacing')
        p.ensure(st, Implies(And(ok, Lt(g, n)), p.ex.view(st, q, t)[g] == a + z3.ToReal(tz(g)) * h), 'sites are equally spaced')
        p.ensure(st, Implies(ok, And(Eq(s.get(st, 'n_sites', I32), n), s.get(st, 'x_start', t) == a, Eq(s.get(st, 'uniform_sites', BOOL), 1), Eq(s.get(st, 'sites_set', BOOL), 1), Eq(s.get(st, 'model_trained', BOOL), 0))), 'recorded')
    p.call((G % ty) + r'::set_sites_uniform_1d', [s.o, n, a, b], post)


def layout(p, row, n, dim, ld, name):
    """(array, element (site, dimension))"""
    w = dim if row else n; cnt = Add(Mul(Sub(n if row else dim, 1), ld), w); p.requires(Ge(ld, w)); p.requires(Le(Mul(n if row else dim, ld), INT_MAX))
    return cnt, (lambda A: lambda i, d: A[Add(Mul(i, ld), d)] if row else A[Add(Mul(d, ld), i)])


def values(PP, ty, row, order, known):
    """recorded with their own leading dimension and storage order; differences per dimension"""
    s = Spl(PP, UI, ty, 'uf'); p, t = s.p, s.t; c = s.c
    n, dim, ld = p.int('n', 2, NMAX), p.int('dim', 1), p.int('ldy'); p.requires(Le(Mul(4, n, dim), INT_MAX)); p.requires(Le(Mul(n, dim), INT_MAX))
    cnt, at = layout(p, row, n, dim, ld, 'y'); Y = p.array('y', t, cnt); at = at(Y.old)
    had, hdim = p.int('had', 0, NMAX), p.int('had_dim', 0); vs, ds = p.int('values', 0, 1), p.int('derivs', 0, 1)
    s.put('n_sites', I32, had); s.put('dim_y', I32, hdim); s.put('values_set', BOOL, vs); s.put('derivatives_set', BOOL, ds)
    l0, o0 = p.int('ld0'), p.int('ord0', 0, 1); other = ('ldy_deriv', 'storage_order_deriv') if order == 0 else ('ldy', 'storage_order')
    s.put(other[0], I32, l0); s.put(other[1], I32, o0)
    k = p.i64('k', 0, NMAX); s.vec('dy', k)
    ck = p.int('refused', 0, 1)
    p.literal = lambda st, q: ''.join(iter(lambda it=iter(range(64)): chr(p.ex.load(st, Ptr(q.o, q.i + next(it), q.f), I8)), '\0'))
    def strmade(ex, st, a, ins):
        if len(a) > 1 and isinstance(a[1], Ptr):
            try: st.g['str', a[0].o] = p.literal(st, a[1])
            except Exception: pass
        return None
    p.model(r'^std::__cxx11::basic_string<char.*>::basic_string<.*>\(char const\*', strmade)
    def get(ex, st, a, ins):
        val = {'storage order': 0 if row else 1, 'check data': 0}.get(st.g.get(('str', a[1].o)))
        if val is None: raise Unsupported('option looked up')
        ex.store(st, a[3], I32, val); return 0
    p.model(r'^da_options::OptionRegistry::get\(', get)
    p.model(r'da_utils::check_2D_array<%s>' % ty, lambda ex, st, a, ins: If(Eq(ck, 1), c['invalid_leading_dimension'], 0))
    I0, J0 = p.ghost('I0', 0), p.ghost('J0', 0); m1 = Sub(n, 1)
    p.requires(And(Lt(I0, m1), Lt(J0, dim)))
    p.requires(And(Le(0, Add(Mul(J0, m1), I0)), Lt(Add(Mul(J0, m1), I0), Mul(m1, dim))))
    dy = lambda st: s.now(st, 'dy')[0][Add(Mul(J0, m1), I0)]; want = p.ex.F.arith('fsub', at(Add(I0, 1), J0), at(I0, J0), t)
    if order == 0:
        p.inv('keep', lambda L: Implies(dy(L.entry()) == want, dy(L) == want))
        p.inv('passed', (lambda L, i: Implies(Lt(I0, i), dy(L) == want)) if row else (lambda L, j: Implies(Lt(J0, j), dy(L) == want)))
        p.inv('passing', lambda L, i, j: Implies(And(Eq(I0, i), Lt(J0, j)) if row else And(Eq(J0, j), Lt(I0, i)), dy(L) == want))

    def post(st, v):
        bad = And(Not(Eq(had, 0)), Not(Eq(n, had)))
        p.ensure(st, Eq(v, If(bad, c['invalid_input'], If(Eq(ck, 1), c['invalid_leading_dimension'], 0))), 'documented status')
        ok = Eq(v, 0)
        if not p.ex.pr.feasible(st.pc, ok): return
        q = s.get(st, 'y' if order == 0 else 'y_deriv', PTR)
        p.ensure(st, Implies(ok, And(q.o == Y.ptr.o, Eq(s.get(st, 'ldy' if order == 0 else 'ldy_deriv', I32), ld), Eq(s.get(st, 'storage_order' if order == 0 else 'storage_order_deriv', I32), 0 if row else 1))), 'array, leading dimension and storage order recorded')
        p.ensure(st, Implies(ok, And(Eq(s.get(st, other[0], I32), l0), Eq(s.get(st, other[1], I32), o0))), 'those of the other array are kept')
        p.ensure(st, Implies(ok, And(Eq(s.get(st, 'n_sites', I32), n), Eq(s.get(st, 'dim_y', I32), dim), Eq(s.get(st, 'model_trained', BOOL), 0), Eq(s.get(st, 'values_set' if order == 0 else 'derivatives_set', BOOL), 1))), 'recorded')
        p.ensure(st, Implies(And(ok, Not(Eq(hdim, dim))), Eq(s.get(st, 'derivatives_set' if order == 0 else 'values_set', BOOL), 0)), 'data of another dimension is dropped')
        if order == 0: p.ensure(st, Implies(ok, dy(st) == want), 'differences of the values')
    p.call((G % ty) + r'::set_values_1d', [s.o, n, dim, Y, ld, order], post)


# ---------------------------------------------------------------- coefficients
def model(PP, ty, row, deriv=False, mode='real'):
    """the object after sites and values have been set"""
    s = Spl(PP, U, ty, mode); p, t = s.p, s.t
    n, dim, ld = p.int('n', 2, NMAX), p.int('dim', 1), p.int('ldy'); s.n, s.dim = n, dim
    p.requires(Le(Mul(4, n, dim), INT_MAX)); p.requires(Le(Mul(n, dim), INT_MAX)); s.m1 = m1 = Sub(n, 1)
    for f, v in (('n_sites', n), ('dim_y', dim), ('ldy', ld), ('storage_order', 0 if row else 1)): s.put(f, I32, v)
    cnt, at = layout(p, row, n, dim, ld, 'y'); Y = p.array('y', t, cnt); s.put('y', PTR, Y.ptr); s.Y = at(Y.old)
    dx = s.vec('dx', m1); s.h = lambda i: dx.old[i]; dx.fact(lambda i, v: Implies(And(Le(0, i), Lt(i, m1)), v > 0))
    dy = s.vec('dy', Mul(m1, dim)); s.dy = lambda i, d: dy.old[Add(Mul(d, m1), i)]
    s.I, s.D = p.ghost('I0', 0), p.ghost('D0', 0); p.requires(And(Lt(s.I, m1), Lt(s.D, dim)))
    fits(s, s.I, s.D)
    if deriv:
        ldp = p.int('ldyp'); s.put('ldy_deriv', I32, ldp); r2 = deriv - 1; s.put('storage_order_deriv', I32, 0 if r2 else 1)
        cnt, at = layout(p, r2, n, dim, ldp, 'yp'); P_ = p.array('yp', t, cnt); s.put('y_deriv', PTR, P_.ptr); s.yp = at(P_.old)
    return s


def fits(s, i, d):
    p, n, m1, dim = s.p, s.n, s.m1, s.dim
    p.requires(And(Le(Add(Mul(d, n), n), Mul(n, dim)), Le(Add(Mul(d, m1), m1), Mul(m1, dim)), Le(Mul(m1, dim), Mul(n, dim))))   # consequences of d < dim


def coef(s, st, i, d):
    a, _ = s.now(st, 'coeffs'); b = Add(Mul(Mul(d, 4), s.m1), Mul(4, i))
    return [a[Add(b, k)] for k in range(4)]


def coeffs(PP, ty, row):
    """the piece (I, D): value and second derivative at both ends, slope at the left end"""
    s = model(PP, ty, row); p, n, m1, I, D = s.p, s.n, s.m1, s.I, s.D
    Z = s.vec('z', Mul(n, s.dim)); z = lambda i: Z.old[Add(Mul(D, n), i)]; s.vec('coeffs', Mul(4, m1, s.dim))
    h, dy = s.h(I), s.dy(I, D)
    def right(st):
        c0, c1, c2, c3 = coef(s, st, I, D)
        return And(c0 == s.Y(I, D), 2 * c2 == z(I), 6 * c3 * h == z(Add(I, 1)) - z(I), 6 * c1 * h == 6 * dy - h * h * z(Add(I, 1)) - 2 * h * h * z(I))
    nested(p, right, I, D)
    p.call((C % ty) + r'::coeffs_from_second', [s.o], lambda st, v: p.ensure(st, right(st), 'coefficients of piece (i, d)'))


def nested(p, right, I, D, swap=False):
    p.inv('pieces of earlier dimensions', lambda L, d: Implies(Lt(D, d), right(L)))
    if swap:
        p.inv('pieces of earlier sites', lambda L, i: Implies(Lt(I, i), right(L)))
        p.inv('pieces in this row', lambda L, i, d: Implies(And(Eq(I, i), Lt(D, d)), right(L)))
    else: p.inv('pieces in this dimension', lambda L, i, d: Implies(And(Eq(D, d), Lt(I, i)), right(L)))


def hermite(PP, ty, row, row2, dset):
    s = model(PP, ty, row, 1 + row2); p, n, m1, I, D = s.p, s.n, s.m1, s.I, s.D
    s.put('derivatives_set', BOOL, dset); k = p.i64('k', 0, 2**32); s.vec('coeffs', k)
    h, dy = s.h(I), s.dy(I, D); y0, y1 = s.yp(I, D), s.yp(Add(I, 1), D)
    def right(st):
        c0, c1, c2, c3 = coef(s, st, I, D)
        return And(c0 == s.Y(I, D), c1 == y0, c2 * h * h == 3 * dy - (2 * y0 + y1) * h, c3 * h * h * h == -2 * dy + (y0 + y1) * h)
    i_first = lambda L: Implies(Lt(I, L.v('i')), right(L))
    if row:
        p.inv('rows', lambda L, i: Implies(And(Lt(I, i), Gt(s.dim, 1)), right(L)))
        p.inv('row', lambda L, i, d: Implies(Or(And(Lt(D, d), Le(s.dim, 1)), And(Eq(I, i), Lt(D, d), Gt(s.dim, 1)), And(Eq(D, d), Lt(I, i), Le(s.dim, 1))), right(L)))
        p.inv('dims', lambda L, d: Implies(And(Lt(D, d), Le(s.dim, 1)), right(L)))
    else: nested(p, right, I, D)

    def post(st, v):
        p.ensure(st, Eq(v, 0 if dset else s.c['out_of_date']), 'status')
        if dset: p.ensure(st, right(st), 'coefficients of piece (i, d)')
    p.call((C % ty) + r'::compute_hermite', [s.o], post)


def lemma(PP, which):
    """what the coefficients mean (independent of the code)"""
    p = PP(U, 'real'); p.rets = 1; p.covered = True; st = p.st
    R = lambda nm: p.real(nm); y0, y1, h, c = R('y0'), R('y1'), R('h'), [R('c%d' % k) for k in range(4)]; p.requires(h > 0)
    S = lambda x: c[0] + x * (c[1] + x * (c[2] + x * c[3])); S1 = lambda x: c[1] + x * (2 * c[2] + x * 3 * c[3]); S2 = lambda x: 2 * c[2] + 6 * c[3] * x
    dy = y1 - y0
    if which == 'second':
        z0, z1 = R('z0'), R('z1'); p.requires(And(c[0] == y0, 2 * c[2] == z0, 6 * c[3] * h == z1 - z0, 6 * c[1] * h == 6 * dy - h * h * z1 - 2 * h * h * z0))
        p.ensure(st, S2(h) == z1, 'second derivative at the right end'); p.ensure(st, S(0) == y0, 'value at the left end'); p.ensure(st, h * (S(h) - y1) == 0, 'value at the right end'); p.ensure(st, 6 * h * S1(h) == 6 * dy + 2 * h * h * z1 + h * h * z0, 'slope at the right end')
    elif which == 'hermite':
        a, b = R('yp0'), R('yp1'); p.requires(And(c[0] == y0, c[1] == a, c[2] * h * h == 3 * dy - (2 * a + b) * h, c[3] * h * h * h == -2 * dy + (a + b) * h))
        p.ensure(st, And(S(0) == y0, S1(0) == a), 'left end'); p.ensure(st, S(h) == y1, 'value at the right end'); p.ensure(st, h * (S1(h) - b) == 0, 'slope at the right end')
    else:
        # slopes from both sides agree exactly when the equation of the tri-diagonal system holds
        g, dl, dr, zl, zm, zr, sl, sr = (R(x) for x in ('g', 'dl', 'dr', 'zl', 'zm', 'zr', 'sl', 'sr')); p.requires(g > 0)
        p.requires(And(6 * g * sl == 6 * dl + 2 * g * g * zm + g * g * zl, 6 * h * sr == 6 * dr - h * h * zr - 2 * h * h * zm))
        ql, qr = R('ql'), R('qr'); p.requires(And(ql * g == 6 * dl, qr * h == 6 * dr))
        p.requires(g * zl + 2 * (g + h) * zm + h * zr == qr - ql)
        p.ensure(st, g * (6 * sl - ql - 2 * g * zm - g * zl) == 0, 'left slope'); p.ensure(st, h * (6 * sr - qr + h * zr + 2 * h * zm) == 0, 'right slope')
        p.requires(And(6 * sl == ql + 2 * g * zm + g * zl, 6 * sr == qr - h * zr - 2 * h * zm)); p.ensure(st, sl == sr, 'slopes agree')


# ---------------------------------------------------------------- systems
def system(PP, ty, uni):
    s = model(PP, ty, 0); p, n, m1, I, D = s.p, s.n, s.m1, s.I, s.D; s.put('uniform_sites', BOOL, uni)
    if uni:
        h0 = s.h(0); p.requires(forall_any(lambda i: Implies(And(0 <= i, i < m1), s.h(i) == h0), pats=lambda i: [s.h(i)]))
    for f in ('diag', 'diag_up', 'diag_lo', 'z', 'coeffs'): s.vec(f, p.i64('k' + f, 0, 2**32))
    g = p.ghost('g', 0); inner = And(Ge(g, 1), Lt(g, m1)); V = lambda st, f: s.now(st, f)[0]
    okd = lambda st: V(st, 'diag')[g] == 2 * (s.h(Sub(g, 1)) + s.h(g)); oko = lambda st: And(V(st, 'diag_up')[g] == s.h(g), V(st, 'diag_lo')[g] == s.h(g))
    p.requires(Implies(inner, And(s.h(g) > 0, s.h(Sub(g, 1)) > 0)))
    okz = lambda st: V(st, 'z')[Add(Mul(D, n), g)] * s.h(g) * s.h(Sub(g, 1)) == 6 * s.dy(g, D) * s.h(Sub(g, 1)) - 6 * s.dy(Sub(g, 1), D) * s.h(g)
    first = lambda L: True
    p.inv('diagonal', lambda L, i: Implies(And(inner, Lt(g, i)), okd(L)))
    p.inv('off-diagonals', lambda L, i: Implies(And(Lt(g, i), Lt(g, m1)), oko(L)))
    p.inv('diagonal kept', lambda L, d: And(Implies(inner, okd(L)), Implies(Lt(g, m1), oko(L))))
    p.inv('right hand sides', lambda L, d: Implies(And(inner, Lt(D, d)), okz(L)))
    p.inv('right hand side', lambda L, i, d: Implies(And(inner, Eq(D, d), Lt(g, i)), okz(L)))

    def post(st, v):
        p.ensure(st, Eq(v, 0), 'status')
        for f, k in (('diag', n), ('diag_up', m1), ('diag_lo', m1), ('z', Mul(n, s.dim)), ('coeffs', Mul(4, m1, s.dim))): p.ensure(st, Eq(s.now(st, f)[1], k), 'size of ' + f)
        p.ensure(st, Implies(inner, okd(st)), 'diagonal'); p.ensure(st, Implies(Lt(g, m1), oko(st)), 'off-diagonals'); p.ensure(st, Implies(inner, okz(st)), 'right hand side')
    p.call((C % ty) + r'::initialize_system', [s.o], post)


def solved(PP, ty, kind, lo=0, ro=0, bcs=1):
    """after a successful solve the second derivatives satisfy the equations of the spline asked for"""
    s = model(PP, ty, 0); p, n, m1, D = s.p, s.n, s.m1, s.D; c = s.c; t = s.t
    dg, du, dl, Z = s.vec('diag', n), s.vec('diag_up', m1), s.vec('diag_lo', m1), s.vec('z', Mul(n, s.dim))
    h, dy = s.h, lambda i: s.dy(i, D); g = p.ghost('g', 1); inner = Lt(g, m1); rhs = p.real('rhs'); zi = lambda i: Add(Mul(D, n), i)
    # rows set up by initialize_system
    p.requires(forall_any(lambda i: Implies(And(1 <= i, i < m1), dg.old[i] == 2 * (h(Sub(i, 1)) + h(i))), pats=lambda i: [dg.old[i]]))
    p.requires(forall_any(lambda i: Implies(And(0 <= i, i < m1), And(du.old[i] == h(i), dl.old[i] == h(i))), pats=lambda i: [du.old[i]]))
    p.requires(forall_any(lambda i: Implies(And(0 <= i, i < m1), And(du.old[i] == h(i), dl.old[i] == h(i))), pats=lambda i: [dl.old[i]]))
    p.requires(Z.old[zi(g)] == rhs)
    fits(s, g, D)
    info = p.int('info')
    bl = br = None
    if kind == 'custom':
        s.put('custom_bc_set', BOOL, bcs); s.put('left_order', I32, lo); s.put('right_order', I32, ro); kb = p.i64('kb', 0, NMAX); L_, R_ = s.vec('left_bc', kb), s.vec('right_bc', kb); bl, br = L_.old[D], R_.old[D]
    def gtsv(ex, st, a, ins):
        ne, nr, pl, pd, pu, pb, ldb, inf = a; N = ex.load(st, ne, I32); NR = ex.load(st, nr, I32); LB = ex.load(st, ldb, I32)
        room = lambda q, k: And(Le(0, q.i), Le(Add(q.i, k), st.mem[q.o].count))
        ex.oblige(st, And(Ge(N, 1), Ge(NR, 1), Ge(LB, N)), ex.oname(st, 'gtsv: dimensions'), 'pre')
        ex.oblige(st, And(room(pl, Sub(N, 1)), room(pd, N), room(pu, Sub(N, 1)), room(pb, Add(Mul(Sub(NR, 1), LB), N))), ex.oname(st, 'gtsv: arrays large enough'), 'memory')
        VL, VD, VU, VB = (ex.view(st, q, t) for q in (pl, pd, pu, pb)); k = tykey(t)
        col = Mul(D, LB); tm = lambda c_, v: z3.If(tz(c_), v, z3.RealVal(0))
        nb = ex.base_av(st, 'solution', k); nz = lambda i: ex.av_get(nb, Add(pb.i, Add(col, i)), st)
        row = lambda i: tm(Gt(i, 0), VL[Sub(i, 1)] * nz(Sub(i, 1))) + VD[i] * nz(i) + tm(Lt(i, Sub(N, 1)), VU[i] * nz(Add(i, 1))) == VB[Add(col, i)]
        sol = And(*[Implies(And(Le(0, i), Lt(i, N)), row(i)) for i in (0, Sub(g, pd.i), Sub(N, 1))])
        st.assume(Implies(And(Eq(info, 0), Lt(D, NR)), sol))
        # rows outside the system are untouched
        for i in (Sub(0, pd.i), Sub(m1, pd.i)):
            st.assume(Implies(Or(Lt(i, 0), Ge(i, N)), nz(i) == VB[Add(col, i)]))
        st.w(pb.o).arr[(0, k)] = nb
        for q in (pl, pd, pu): st.w(q.o).arr[(0, k)] = ex.base_av(st, 'factors', k)
        ex.store(st, inf, I32, info); return None
    p.model(r'^da::gtsv\(', gtsv)
    V = lambda st: s.now(st, 'z')[0]; z = lambda st, i: V(st)[zi(i)]
    last = m1; q0, qn = p.real('q0'), p.real('qn'); p.requires(And(q0 * h(0) == 6 * dy(0), qn * h(Sub(n, 2)) == 6 * dy(Sub(n, 2)), h(0) > 0, h(Sub(n, 2)) > 0))
    DG, DU, DL = (lambda L, f=f: s.now(L, f)[0] for f in ('diag', 'diag_up', 'diag_lo'))
    zl = {'natural': 0, 'clamped': q0, 'custom': None if lo == 0 else (q0 - 6 * bl if lo == 1 else bl) if kind == 'custom' else None}[kind]
    zr = {'natural': 0, 'clamped': -qn, 'custom': None if ro == 0 else (-qn + 6 * br if ro == 1 else br) if kind == 'custom' else None}[kind]
    var = 'i' if kind == 'natural' else 'd'
    if kind == 'natural': p.inv('ends set', lambda L, i: Implies(Lt(D, i), And(z(L, 0) == zl, z(L, last) == zr)))
    else: p.inv('ends set', lambda L, d: Implies(Lt(D, d), And(z(L, 0) == zl, z(L, last) == zr)))
    p.inv('interior kept', lambda L: Implies(inner, z(L, g) == rhs))

    def post(st, v):
        if kind == 'custom' and not bcs: p.ensure(st, Eq(v, c['out_of_date']), 'boundary conditions missing'); return
        okb = Eq(kb, s.dim) if kind == 'custom' else True
        if kind == 'custom': p.ensure(st, Implies(Not(okb), Eq(v, c['out_of_date'])), 'boundary conditions of another dimension refused')
        p.ensure(st, Implies(okb, Or(Eq(v, 0), Not(Eq(info, 0)))), 'status'); p.ensure(st, Implies(Eq(v, 0), Or(Eq(info, 0), And(kind == 'natural', Eq(n, 2)))), 'a failed solve is reported')
        ok = Eq(v, 0)
        p.ensure(st, Implies(And(ok, inner), h(Sub(g, 1)) * z(st, Sub(g, 1)) + 2 * (h(Sub(g, 1)) + h(g)) * z(st, g) + h(g) * z(st, Add(g, 1)) == rhs), 'interior equation')
        left = (lambda: z(st, 0) == zl) if kind == 'natural' or lo == 2 else (lambda: 2 * h(0) * z(st, 0) + h(0) * z(st, 1) == zl)
        right = (lambda: z(st, last) == zr) if kind == 'natural' or ro == 2 else (lambda: h(Sub(n, 2)) * z(st, Sub(n, 2)) + 2 * h(Sub(n, 2)) * z(st, last) == zr)
        p.ensure(st, Implies(ok, left()), 'left boundary condition'); p.ensure(st, Implies(ok, right()), 'right boundary condition')
    p.call((C % ty) + r'::compute_' + {'natural': 'natural', 'clamped': 'clamped', 'custom': 'custom'}[kind], [s.o], post)


# ---------------------------------------------------------------- evaluation
def evaluate(PP, ty, bits):
    p = PP(U, 'real', step_ms=15000); t = TYS[ty]
    n, m, nc = p.int('n_sites', 2, NMAX), p.int('n_eval', 1), p.i64('nc', 0, INT_MAX); cd, sd, od = p.int('coeff_dim', 0), p.int('start', 0), p.int('order_start', 0)
    ords = [k for k in range(4) if bits >> k & 1]
    p.requires(And(Le(Add(cd, Mul(4, Sub(n, 1))), nc), Le(Add(Mul(3, od), sd, m), INT_MAX), Le(Add(sd, m), If(Gt(od, 0), od, INT_MAX))))
    X = p.array('x_sites', t, n); Cq, CA = p.vector('coeffs', t, nc); E = p.array('x_eval', t, m); Yv = p.array('y_eval', t, Add(Mul(max(len(ords) - 1, 0), od), sd, m))
    Kq, K = p.vector('cells', I32, m); K.fact(lambda i, v: Implies(And(Le(0, i), Lt(i, m)), And(Le(0, v), Le(v, Sub(n, 2)))))
    if len(ords) > 1: p.requires(Gt(od, 0))
    g = p.ghost('g', 0); p.requires(Lt(g, m)); b = Add(cd, Mul(4, K.old[g])); c = [CA.old[Add(b, k)] for k in range(4)]; h = E.old[g] - X.old[K.old[g]]
    val = {0: c[0] + c[1] * h + c[2] * h * h + c[3] * h * h * h, 1: c[1] + 2 * c[2] * h + 3 * c[3] * h * h, 2: 2 * c[2] + 6 * c[3] * h, 3: 6 * c[3]}
    cells = [p.array(x, I32, 1) for x in ('cd', 'sd', 'od')]
    for a, v in zip(cells, (cd, sd, od)): p.requires(Eq(a.old[0], v))
    okk = lambda st: And(*[Yv.now(st)[Add(Mul(r, od), sd, g)] == val[k] for r, k in enumerate(ords)])
    p.inv('evaluated', lambda L, i: Implies(Lt(g, i), okk(L)))
    p.inv('parameters', lambda L: And(*[Eq(a.now(L)[0], v) for a, v in zip(cells, (cd, sd, od))]))
    o = p.ghost('o', 0)
    p.call(r'evaluate_all_orders<%s, %d>' % (ty, bits), [m, E, Yv, X, Cq] + cells + [Kq], lambda st, v: p.ensure(st, okk(st), 'derivatives of the piece of the cell, orders ascending'))


def proofs(tier):
    l = [Proof('lemma ' + w, lemma, w) for w in ('second', 'hermite', 'slopes')]
    for ty in TYS:
        l += [Proof('search_cells<%s> uniform=%d' % (ty, u), search, ty, u) for u in (0, 1)]
        l += [Proof('set_sites_1d<%s>' % ty, sites, ty), Proof('set_sites_uniform_1d<%s>' % ty, uniform, ty)]
        l += [Proof('set_values_1d<%s> row=%d order=%d' % (ty, r, o), values, ty, r, o, 0) for r in (0, 1) for o in (0, 1)]
        l += [Proof('initialize_system<%s> uniform=%d' % (ty, u), system, ty, u) for u in (0, 1)]
        l += [Proof('coeffs_from_second_derivatives<%s> row=%d' % (ty, r), coeffs, ty, r) for r in (0, 1)]
        l += [Proof('compute_hermite_spline<%s> row=%d derivatives row=%d set=%d' % (ty, r, r2, d), hermite, ty, r, r2, d) for r, r2, d in ((0, 0, 1), (0, 1, 1), (1, 0, 1), (1, 1, 1), (0, 0, 0))]
        l += [Proof('compute_natural_spline<%s>' % ty, solved, ty, 'natural'), Proof('compute_clamped_spline<%s>' % ty, solved, ty, 'clamped')]
        l += [Proof('compute_custom_bc_spline<%s> orders %d %d' % (ty, a, b), solved, ty, 'custom', a, b) for a in (1, 2) for b in (1, 2)] + [Proof('compute_custom_bc_spline<%s> unset' % ty, solved, ty, 'custom', 1, 1, 0)]
        l += [Proof('evaluate_all_orders<%s, %d>' % (ty, b), evaluate, ty, b) for b in range(1, 16)]
    return l


# ---------------------------------------------------------------- real code on concrete inputs
def native_build(): build.so('spline', ['units/n_spline.cpp', UI, U, 'utilities/da_utils.cpp', 'utilities/basic_handle.cpp', 'basic_statistics/row_to_col_major.cpp', 'dynamic_dispatch/context.cpp', 'utilities/model_persistence.cpp', 'utilities/miscellaneous.cpp'], libs=['-llapack'])
def native_load():
    l = load('spline')
    for t in 'df': getattr(l, 'sp_new_' + t).restype = ctypes.c_void_p
    return l


RULE = 'random histories on one handle: sites (uniform or not, clustered, unsorted or NaN ones to be refused, repeated), values and derivatives in both storage orders with padded leading dimensions and changing dimensions, boundary conditions, spline types, fits, cell searches, evaluations and queries out of order; non-trivial: a fit succeeded'
BOUNDED = 'up to 40 sites, 4 dimensions, 12 calls; fitted pieces are checked for interpolation, continuity and boundary conditions, evaluations against the exact polynomial of the cell, statuses against a reference state machine, padding filled with NaN'
TYPES = {'natural': 0, 'clamped zero': 1, 'custom': 3, 'hermite': 4}


def cases(rng, hints, tier, seed):
    while True:
        n = rng.choice([2, 2, 3, 3, 4, 5, 8, 13, 40]); h = []; dim = rng.choice([1, 1, 2, 3, 4])
        ops = [rng.choice(['sites', 'sites', 'sites', 'uniform', 'uniform']), 'values', 'fit', 'eval'] if rng.random() < .7 else []
        if ops and rng.random() < .35: ops.insert(rng.randrange(3), 'derivs')
        if ops and rng.random() < .3: ops.insert(rng.randrange(3), 'bc')
        for _ in range(rng.choice([0, 0, 1, 2, 5])): ops.insert(rng.randrange(len(ops) + 1), rng.choice(['sites', 'uniform', 'values', 'derivs', 'bc', 'fit', 'eval', 'cells', 'type', 'order', 'get']))
        if rng.random() < .7: ops.insert(rng.randrange(max(1, len(ops) - 1)), 'type')
        if rng.random() < .5: ops.insert(rng.randrange(max(1, len(ops) - 1)), 'order')
        ops += ['eval', 'cells', 'get'] if rng.random() < .5 else []
        yield dict(ty=rng.choice('ddf'), n=n, dim=dim, ops=ops, s=rng.randrange(1 << 40), flip=rng.random() < .25)


def run_case(lib, c):
    import random
    rng = random.Random(c['s']); t = c['ty']; ct = ctypes.c_double if t == 'd' else ctypes.c_float; code = status_codes(); F = lambda nm, *a: getattr(lib, 'sp_%s_%s' % (nm, t))(o, *a)
    rnd = lambda v: ct(v).value; eps = 2.0**-52 if t == 'd' else 2.0**-23
    o = ctypes.c_void_p(getattr(lib, 'sp_new_' + t)()); keep = []; bad = code['invalid_input']; late = code['out_of_date']
    S = dict(nset=0, sites=None, uni=None, x=None, row=False, type='natural', y=None, yp=None, bc=None, fit=None); log = []
    def B(vals): b = Buf(ct, vals); keep.append(b); return b
    def say(m): return '%s: after %s: %s' % ({'d': 'double', 'f': 'float'}[t], '; '.join(log), m)
    def ask(what, got, want): return None if got == want else say('%s gave status %d, expected %d' % (what, got, want))
    try:
        if rng.random() < .1:
            for f, a in (('fit', ()), ('cells', (1, B([0.]).p, Buf(ctypes.c_int, [0]).p))):
                if F(f, *a) != bad: return say('%s without a model accepted' % f)
            if F('model', 5) == 0: return say('an unknown model accepted')
            if F('fit') == 0: return say('fit without a model accepted')
        if F('model', 1): return say('model refused')
        for op in c['ops']:
            n = c['n'] if rng.random() < .95 else rng.choice([0, 1, -3, c['n'] + 1]); dim = c['dim'] if not c['flip'] or rng.random() < .6 else rng.choice([1, 2, 3])
            if op == 'sites':
                kind = rng.choice(['plain', 'plain', 'cluster', 'cluster', 'bad', 'dup', 'nan', 'big'] if rng.random() < .3 else ['plain', 'cluster', 'big']); m = max(n, 2); x = sorted({rnd(rng.choice([rng.uniform(-5, 5), rng.randrange(-20, 20)])) for _ in range(m * 3)})[:m]
                if kind == 'cluster': x = sorted(set(x[:max(1, m // 3)]) | {rnd(1 + rng.random() * 10.0**-rng.choice([2, 3, 4])) for _ in range(4 * m)})[:m]
                if kind == 'big': k = 10.0**rng.choice([-8, 6, 9]); x = [rnd(v * k) for v in x]
                if len(x) < m or len(set(x)) < m: continue
                if kind == 'bad': i = rng.randrange(m - 1); x[i], x[i + 1] = x[i + 1], x[i]
                if kind == 'dup': i = rng.randrange(m - 1); x[i + 1] = x[i]
                if kind == 'nan': x[rng.randrange(m)] = math.nan
                inc = all(a < b for a, b in zip(x, x[1:])); can = not S['sites'] and n >= 2 and S['nset'] in (0, n)
                r = F('sites', n, B(x).p); log.append('set %d sites (%s)' % (n, kind))
                w = ask('set_sites', r, 0 if can and inc else bad)
                if w: return w
                if can: S['nset'] = n
                if can and inc: S.update(sites=True, uni=None, x=x, fit=None)
            elif op == 'uniform':
                a = rnd(rng.uniform(-3, 3)); b = rnd(a + rng.choice([1, 1, 2.5, 1e-3, 1e6, 0, -1] + [math.nan] * (rng.random() < .1))); ok = b > a and not S['sites'] and n >= 2 and S['nset'] in (0, n)
                r = F('uniform', n, ctypes.c_double(a), ctypes.c_double(b)); log.append('set %d uniform sites %r %r' % (n, a, b)); w = ask('set_sites_uniform', r, 0 if ok else bad)
                if w: return w
                if ok: S.update(sites=True, uni=(a, b), x=[a + i * (b - a) / (n - 1) for i in range(n)], nset=n, fit=None)
            elif op in ('values', 'derivs'):
                d = max(dim, 1); m = max(n, 2); row = S['row']; w_ = d if row else m; ld = w_ + rng.choice([0, 0, 1, 3, -1] if rng.random() < .2 else [0, 0, 1, 3])
                Y = [[rnd(rng.choice([rng.uniform(-2, 2), rng.randrange(-5, 6)])) for _ in range(d)] for _ in range(m)]
                L = max(ld, w_); buf = [math.nan] * (L * (m if row else d))
                for i in range(m):
                    for j in range(d): buf[i * L + j if row else j * L + i] = Y[i][j]
                od = 1 if op == 'derivs' else 0; r = F('values', n, dim, B(buf).p, ld, od); log.append('set %s n=%d dim=%d ld=%d %s' % (op, n, dim, ld, 'row' if row else 'column'))
                want = bad if S['nset'] not in (0, n) else code['invalid_array_dimension'] if n < 2 else code['invalid_leading_dimension'] if ld < w_ else 0
                w = ask('set_values', r, want)
                if w: return w
                if r == 0:
                    S['nset'] = n; S['fit'] = None; k, q = ('yp', 'y') if od else ('y', 'yp'); S[k] = Y
                    if S['dim'] != d if 'dim' in S else False: S[q] = None
                    S['dim'] = d
            elif op == 'bc':
                lo, ro = (rng.choice([1, 2]) for _ in '12')
                if rng.random() < .06: lo = rng.choice([0, 3])
                l, r_ = ([rnd(rng.uniform(-2, 2)) for _ in range(dim)] for _ in '12'); ok = lo in (1, 2) and (S['y'] is None or dim == S['dim'])
                lb, rb = B(l), B(r_); r = F('bc', dim, lo, lb.p, ro, rb.p); log.append('boundary conditions dim=%d orders %d %d' % (dim, lo, ro))
                if ok or not (lo in (1, 2) and 'dim' in S):
                    w = ask('set_boundary_conditions', r, 0 if ok else bad)
                    if w: return w
                if r == 0: S['bc'] = (lo, l, ro, r_); S['type'] = 'custom'; S['fit'] = None
            elif op == 'type':
                v = rng.choice(list(TYPES)); F('opt', b'cubic spline type', v.encode()); S['type'] = v; S['fit'] = None; log.append('type ' + v)
            elif op == 'order':
                S['row'] = rng.random() < .6; F('opt', b'storage order', b'row-major' if S['row'] else b'column-major'); S['fit'] = None; log.append('row' if S['row'] else 'column')
            elif op == 'fit':
                r = F('fit'); log.append('fit'); ok = S['sites'] and S['y'] is not None and (S['type'] != 'hermite' or S['yp'] is not None) and (S['type'] != 'custom' or S['bc'] and len(S['bc'][1]) == S['dim'])
                if S['fit'] is None:
                    w = ask('interpolate', r, 0 if ok else late)
                    if w: return w
                if r == 0 and S['fit'] is None: S['fit'] = dict(type=S['type'], y=S['y'], yp=S['yp'], bc=S['bc'])
                if r == 0:
                    w = check(lib, F, S, ct, eps, B)
                    if w: return say(w)
            elif op in ('eval', 'cells'):
                k = rng.choice([1, 1, 2, 7, 20]); x = S['x'] or [0., 1.]; a, b = x[0], x[-1]
                E = [rnd(rng.choice([rng.uniform(a - .2 * (b - a), b + .2 * (b - a)), rng.choice(x), math.nextafter(rng.choice(x), rng.choice([-math.inf, math.inf])), rng.choice([a, b]), (1e15 if t == 'd' else 1e8) * rng.choice([-1, 1]) * (abs(b) + 1)] if rng.random() < .8 else [rng.choice(x)])) for _ in range(k)]
                if op == 'cells': E = [v if math.isfinite(v) else 0. for v in E]
                Q = Buf(ctypes.c_int, [-9] * k); r = F('cells', k, B(E).p, Q.p); log.append('%s at %r' % (op, E[:3])); w = ask('search_cells', r, 0 if S['sites'] else bad)
                if w: return w
                if r == 0:
                    if Q.broken(): return say('search_cells wrote outside')
                    for v, q in zip(E, Q.get()):
                        if not 0 <= q <= S['nset'] - 2: return say('cell %d of %r' % (q, v))
                        slack = 0 if S['uni'] is None else 8 * eps * (abs(a) + abs(b) + abs(v))
                        if q > 0 and v < x[q] - slack or q < S['nset'] - 2 and v > x[q + 1] + slack or q < S['nset'] - 2 and S['uni'] is None and v == x[q + 1]: return say('%r lies in [%r, %r)? sites %r' % (v, x[q], x[q + 1], x[:6]))
                if op == 'eval':
                    no = rng.choice([1, 1, 2, 3, 4]); od = [rng.randrange(4) for _ in range(no)]
                    if rng.random() < .05: od[rng.randrange(no)] = rng.choice([-1, 4, 64])
                    d = S.get('dim', 1); us = sorted(set(od)); R = Buf(ct, [777.] * (k * d * len(us))); r = F('eval', k, B(E).p, R.p, no, (ctypes.c_int * no)(*od)); log.append('orders %r' % (od,))
                    want = late if S['fit'] is None else bad if min(od) < 0 or max(od) > 3 else 0
                    w = ask('evaluate', r, want)
                    if w: return w
                    if R.broken(): return say('evaluate wrote outside')
                    if r == 0:
                        got = R.get(); co = S['fit']['coef']; xi = S['xs']
                        for di in range(d):
                            for e, (v, q) in enumerate(zip(E, Q.get())):
                                if abs(v) > 1e7: continue
                                h = v - xi(q); c0, c1, c2, c3 = co[di][q]
                                val = {0: (c0, c1 * h, c2 * h * h, c3 * h**3), 1: (c1, 2 * c2 * h, 3 * c3 * h * h), 2: (2 * c2, 6 * c3 * h), 3: (6 * c3,)}
                                for z, od_ in enumerate(us):
                                    g = got[z * k * d + di * k + e]; wv = sum(val[od_]); sc = sum(abs(u) for u in val[od_]); dv = abs(eps * (abs(v) + abs(xi(q)) + (0 if S['uni'] is None else abs(a) + abs(b)))) * (abs(c1) + abs(2 * c2 * h) + abs(3 * c3 * h * h) if od_ == 0 else abs(2 * c2) + abs(6 * c3 * h) if od_ == 1 else abs(6 * c3))
                                    if not abs(g - wv) <= 64 * eps * sc + 16 * dv: return say('derivative %d of dimension %d at %r is %r, the polynomial of cell %d gives %r' % (od_, di, v, g, q, wv))
            elif op == 'get':
                d = Buf(ctypes.c_int, [rng.choice([0, 1, 10**6])]); k0 = d.get()[0]; need = 4 * (S['nset'] - 1) * S.get('dim', 1) if S['fit'] else 0; R = Buf(ct, [5.] * max(need, 1)); r = F('get', enum_result()['da_cubic_spline_coefficients'], d.p, R.p); log.append('get')
                want = late if S['fit'] is None else code['invalid_array_dimension'] if k0 < need else 0
                w = ask('get_result', r, want)
                if w: return w
                if R.broken() or want == code['invalid_array_dimension'] and d.get()[0] != need: return say('get_result: wrong size %r or wrote outside' % d.get())
    finally: getattr(lib, 'sp_free_' + t)(o)
    return None


_er = {}


def enum_result():
    if not _er:
        from specs.C09_layout import enum
        _er.update(enum('da_result_', 'aoclda_result.h'))
    return _er


def check(lib, F, S, ct, eps, B):
    """the fitted pieces against the data"""
    f = S['fit']; n, d = S['nset'], S['dim']; need = 4 * (n - 1) * d; R = Buf(ct, [777.] * need); D = Buf(ctypes.c_int, [need])
    if F('get', enum_result()['da_cubic_spline_coefficients'], D.p, R.p): return 'coefficients refused'
    if R.broken(): return 'coefficients written outside'
    g = R.get(); co = [[g[4 * (j * (n - 1) + i):4 * (j * (n - 1) + i) + 4] for i in range(n - 1)] for j in range(d)]; f['coef'] = co
    if S['uni']:
        a, b = S['uni']; dxv = ct((b - a) / (n - 1)).value; x = [ct(a + i * dxv).value for i in range(n)]; hs = [dxv] * (n - 1)
    else: x = S['x']; hs = [ct(x[i + 1] - x[i]).value for i in range(n - 1)]
    S['xs'] = lambda q: x[q]; tol = eps * 2000
    near = lambda u, v, sc: abs(u - v) <= tol * sc
    for j in range(d):
        y = [f['y'][i][j] for i in range(n)]; piece = co[j]; sl = max(abs(y[i + 1] - y[i]) / hs[i] + (abs(y[i]) + abs(y[i + 1])) * eps / hs[i] for i in range(n - 1)); cond = 0
        terms = [(abs(c1), abs(c2 * h), abs(c3 * h * h)) for (c0, c1, c2, c3), h in zip(piece, hs)]; G = max(sum(q) for q in terms) + sl
        for i, ((c0, c1, c2, c3), h) in enumerate(zip(piece, hs)):
            if c0 != y[i]: return 'piece %d of dimension %d starts at %r, the value is %r' % (i, j, c0, y[i])
            if not near(c0 + h * (c1 + h * (c2 + h * c3)), y[i + 1], abs(y[i]) + abs(y[i + 1]) + h * sum(terms[i]) + h * sl * 1e-3): return 'piece %d of dimension %d ends at %r, the value is %r' % (i, j, c0 + h * (c1 + h * (c2 + h * c3)), y[i + 1])
            end1 = c1 + h * (2 * c2 + 3 * c3 * h); end2 = 2 * c2 + 6 * c3 * h
            if f['type'] == 'hermite':
                if not near(c1, f['yp'][i][j], G) or not near(end1, f['yp'][i + 1][j], G): return 'slopes of piece %d of dimension %d: %r %r, given %r %r' % (i, j, c1, end1, f['yp'][i][j], f['yp'][i + 1][j])
            elif i + 1 < n - 1:
                k = piece[i + 1]
                if not near(end1, k[1], 2 * G): return 'slope jumps at site %d of dimension %d: %r %r' % (i + 1, j, end1, k[1])
                if not near(end2 * h, 2 * k[2] * h, 3 * sum(terms[i])): return 'second derivative jumps at site %d of dimension %d: %r %r' % (i + 1, j, end2, 2 * k[2])
        if f['type'] != 'hermite':
            ends = ((1, 0.) if f['type'] == 'clamped zero' else (2, 0.),) * 2 if f['type'] != 'custom' else ((f['bc'][0], f['bc'][1][j]), (f['bc'][2], f['bc'][3][j]))
            Z = max([abs(2 * c[2]) for c in piece] + [abs(end2), abs(ends[0][1]), abs(ends[1][1])]) if max(hs) < 1e300 else 0
            for nm, (k, v), (c0, c1, c2, c3), h, at in (('left', ends[0], piece[0], hs[0], 0), ('right', ends[1], piece[-1], hs[-1], hs[-1])):
                val = c1 + at * (2 * c2 + 3 * c3 * at) if k == 1 else 2 * c2 + 6 * c3 * at
                sc = 2 * G + abs(v) if k == 1 else 4 * G / h + abs(v) + max(1., 4 * max(hs)) * Z  # the boundary rows of the system are not scaled to the other ones
                if not near(val, v, sc): return '%s boundary: derivative %d of dimension %d is %r, asked for %r' % (nm, k, j, val, v)
    return None
