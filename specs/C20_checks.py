"""C20 input array checks: the documented refusals, NaN detection wherever it sits, no access outside the array."""
import ctypes, math, struct
from vc.proof import *
from vc.native import load, Buf
from specs.C01_split import status_codes
from specs import C09_layout as LAY

U = 'utilities/da_utils.cpp'; UH = 'utilities/basic_handle.cpp'
UNITS = [U, UH]
TYS = {'double': DOUBLE, 'float': FLOAT}
ASSUMPTIONS = ['array index products fit da_int (LP64 build), as for every array the library accepts',
               'assumed contract of da_error_t::rec: returns the status it is given (error action DA_RECORD, the one the library sets)',
               'assumed contract of OptionRegistry::get inside the handle: yields a registered value (0 or 1) of the two options it is asked for',
               'between translation units a callee is its contract: check_data and copy_transpose_2D_array_row_to_column_major (proved here and under C09) inside basic_handle.cpp',
               'std::string operations have no effect on numeric state']


def flag(v):
    """the code's own notion of an unusable element: NaN, or absorbed by adding one (see known_findings.json)"""
    s = v.sort()
    return z3.Or(z3.fpIsNaN(v), z3.fpEQ(v, z3.fpAdd(z3.RNE(), v, z3.FPVal(1.0, s))))


def record(p):
    p.model(r'^da_errors::da_error_t::rec\(', lambda ex, st, a, ins: a[1])
    p.model(r'^da_errors::basename\(', lambda ex, st, a, ins: a[0])


def err(p):
    record(p)
    return p.struct('err', 4096)


def scan_setup(p, t, order, fp=True):
    m, n, ld = p.int('n_rows'), p.int('n_cols'), p.int('ldx')
    row = order == 0
    good = And(Ge(m, 1), Ge(n, 1), Ge(ld, n if row else m))
    p.requires(Implies(And(Ge(m, 1), Ge(n, 1)), Le(Mul(m if row else n, ld), INT_MAX)))
    cnt = If(good, Add(Mul(Sub(m, 1), ld), n) if row else Add(Mul(Sub(n, 1), ld), m), 0)
    X = p.array('X', t, cnt)
    I0, J0 = p.ghost('I0', 0), p.ghost('J0', 0)
    p.requires(Implies(good, And(Lt(I0, m), Lt(J0, n))))
    pos = Add(Mul(I0, ld), J0) if row else Add(Mul(J0, ld), I0)
    return m, n, ld, good, X, I0, J0, pos


def scan_inv(p, X, pos, I0, J0):
    ok = lambda: Not(z3.fpIsNaN(X.old[pos]))
    for x, y, u, v, k in ((I0, J0, 'i', 'j', 0), (J0, I0, 'j', 'i', 1)):
        mk = lambda nm, ps, f: p.inv('%s%d' % (nm, k), eval('lambda L, %s, f=f: f(%s)' % (', '.join(ps), ', '.join(ps)), dict(f=f)))
        mk('passed', [u], lambda i, x=x: Implies(Lt(x, i), ok()))
        mk('passing', [u, v], lambda i, j, x=x, y=y: Implies(And(Eq(x, i), Lt(y, j)), ok()))


def usable(p, X, good=True):
    """every element is a number the check accepts"""
    X.fact(lambda i, v: Not(flag(v)))


def detects(PP, ty, order):
    """success means the (arbitrary) ghost element is no NaN; refusals as documented; nothing outside the array is read"""
    p = PP(U, 'fp'); t = TYS[ty]; c = status_codes()
    m, n, ld, good, X, I0, J0, pos = scan_setup(p, t, order)
    scan_inv(p, X, pos, I0, J0)
    k = p.ghost('k', 0)

    def post(s, v):
        bad = Or(Lt(m, 1), Lt(n, 1))
        p.ensure(s, Implies(bad, Eq(v, c['invalid_array_dimension'])), 'dimension refused')
        p.ensure(s, Implies(And(Not(bad), Not(good)), Eq(v, c['invalid_leading_dimension'])), 'leading dimension refused')
        p.ensure(s, Implies(good, Or(Eq(v, 0), Eq(v, c['invalid_input']))), 'otherwise only NaNs are reported')
        p.ensure(s, Implies(And(good, Eq(v, 0)), Not(z3.fpIsNaN(X.old[pos]))), 'success: element (i,j) is no NaN')
        p.ensure(s, Implies(Lt(k, X.count), X.now(s)[k] == X.old[k]), 'array unchanged')
    p.call(r'da_utils::check_data<%s>' % ty, [order, m, n, X, ld], post)


def accepts(PP, ty, order):
    p = PP(U, 'fp'); t = TYS[ty]
    m, n, ld, good, X, I0, J0, pos = scan_setup(p, t, order)
    p.requires(good); usable(p, X)
    p.call(r'da_utils::check_data<%s>' % ty, [order, m, n, X, ld], lambda s, v: p.ensure(s, Eq(v, 0), 'usable data accepted'))


def null_data(PP, ty, order):
    p = PP(U, 'fp'); c = status_codes(); m, n, ld = p.int('m'), p.int('n'), p.int('ld')
    p.call(r'da_utils::check_data<%s>' % ty, [order, m, n, NULL, ld], lambda s, v: p.ensure(s, Eq(v, If(Or(Lt(m, 1), Lt(n, 1)), c['invalid_array_dimension'], c['invalid_pointer'])), 'documented status'))


def ints(PP, order):
    p = PP(U, 'uf'); c = status_codes(); m, n, ld = p.int('m'), p.int('n'), p.int('ld'); X = p.array('X', I32, 0)
    p.call(r'da_utils::check_data<int>', [order, m, n, X, ld], lambda s, v: p.ensure(s, Eq(v, If(Or(Lt(m, 1), Lt(n, 1)), c['invalid_array_dimension'], If(Lt(ld, n if order == 0 else m), c['invalid_leading_dimension'], 0))), 'documented status'))


def one_d(PP, ty, check, null, clean):
    p = PP(U, 'fp'); c = status_codes(); t = TYS.get(ty, I32); e = err(p)
    n, nmin = p.int('n'), p.int('n_min')
    X = p.array('X', t, If(Ge(n, 1), n, 0)); g = p.ghost('g', 0); p.requires(Implies(Ge(n, 1), Lt(g, n)))
    if ty != 'int':
        if clean: usable(p, X)
        p.inv('passed', lambda L, i: Implies(Lt(g, i), Not(z3.fpIsNaN(X.old[g]))))
        p.inv('passed column', lambda L, j: Implies(Lt(0, j), Not(z3.fpIsNaN(X.old[g]))))
        p.inv('passing', lambda L, i, j: Implies(And(Lt(g, i), Eq(j, 0)), Not(z3.fpIsNaN(X.old[g]))))
    N = [p.struct(x, 32) for x in ('n_name', 'data_name')]

    def post(s, v):
        if null: p.ensure(s, Eq(v, c['invalid_pointer']), 'null refused'); return
        p.ensure(s, Implies(Lt(n, nmin), Eq(v, c['invalid_array_dimension'])), 'size refused')
        r = Ge(n, nmin)
        if ty == 'int' or not check or clean: p.ensure(s, Implies(r, Eq(v, 0)), 'accepted')
        else:
            p.ensure(s, Implies(r, Or(Eq(v, 0), Eq(v, c['invalid_input']))), 'only NaNs are reported')
            p.ensure(s, Implies(And(r, Ge(n, 1), Eq(v, 0)), Not(z3.fpIsNaN(X.old[g]))), 'success: element i is no NaN')
    p.call(r'da_utils::check_1D_array<%s>' % ty, [bool(check), e, n, NULL if null else X, N[0], N[1], nmin], post)


def two_d(PP, ty, order, check, null, clean):
    p = PP(U, 'fp'); c = status_codes(); t = TYS[ty]; e = err(p)
    m, n, ld, good, X, I0, J0, pos = scan_setup(p, t, order)
    rmin, cmin = p.int('rmin'), p.int('cmin')
    if clean: usable(p, X)
    scan_inv(p, X, pos, I0, J0)
    N = [p.struct(x, 32) for x in ('rn', 'cn', 'dn', 'ln')]

    def post(s, v):
        dim = Or(Lt(m, rmin), Lt(n, cmin)); ldbad = Lt(ld, n if order == 0 else m)
        p.ensure(s, Implies(dim, Eq(v, c['invalid_array_dimension'])), 'dimensions refused')
        if null: p.ensure(s, Implies(Not(dim), Eq(v, c['invalid_pointer'])), 'null refused'); return
        p.ensure(s, Implies(And(Not(dim), ldbad), Eq(v, c['invalid_leading_dimension'])), 'leading dimension refused')
        r = And(Not(dim), Not(ldbad))
        if not check or clean: p.ensure(s, Implies(r, Eq(v, 0)), 'accepted')
        else:
            p.ensure(s, Implies(r, Or(Eq(v, 0), Eq(v, c['invalid_input']))), 'only NaNs are reported')
            p.ensure(s, Implies(And(r, good, Eq(v, 0)), Not(z3.fpIsNaN(X.old[pos]))), 'success: element (i,j) is no NaN')
    p.call(r'da_utils::check_2D_array<%s>' % ty, [bool(check), order, e, m, n, NULL if null else X, ld] + N + [rmin, cmin], post)


# ---- handle level: option lookup, callees by contract
def handle(p, ty, order, check, aux=0):
    h = p.struct('handle', 8192)
    C = 'basic_handle<%s>' % ty
    p.put(h, p.field(C, 'err'), PTR, p.struct('err', 4096))
    p.put(h, p.field(C, 'order'), I32, 1 if not aux else order)
    record(p)

    def strmade(ex, st, a, ins):
        # which option name the string was built from (a literal)
        if len(a) > 1 and isinstance(a[1], Ptr):
            try: st.g['str', a[0].o] = p.literal(st, a[1])
            except Exception: pass
        return None
    p.literal = lambda st, q: ''.join(iter(lambda it=iter(range(64)): chr(p.ex.load(st, Ptr(q.o, q.i + next(it), q.f), I8)), '\0'))
    p.model(r'^std::__cxx11::basic_string<char.*>::basic_string<.*>\(char const\*', strmade)

    def get(ex, st, a, ins):
        nm = st.g.get(('str', a[1].o))
        out = a[3]
        val = {'storage order': order, 'check data': check}.get(nm)
        if val is None: raise Unsupported('option %r looked up' % (nm,))
        if aux: return 5
        ex.store(st, out, I32, val)
        return 0
    p.model(r'^da_options::OptionRegistry::get\(', get)
    return h


def contracts(p, ty, X, FL, c):
    ex = p.ex; t = TYS[ty]

    def cd(ex, st, a, ins):
        o, m, n, q, ld = a
        if q.o is None: raise Unsupported('null data')
        row = Eq(o, 0); w = If(row, n, m)
        good = And(Ge(m, 1), Ge(n, 1), Ge(ld, w))
        ext = Add(Mul(Sub(If(row, m, n), 1), ld), w)
        ex.oblige(st, Implies(good, Le(Add(q.i, ext), st.mem[q.o].count)), ex.oname(st, 'check_data: reads inside the array'), 'pre')
        return If(Or(Lt(m, 1), Lt(n, 1)), c['invalid_array_dimension'], If(Not(good), c['invalid_leading_dimension'], If(Eq(FL, 1), c['invalid_input'], 0)))
    p.model(r'da_utils::check_data<%s>' % ty, cd)

    def tr(ex, st, a, ins):
        m, n, A, la, B, lb = a
        if st.mem[B.o].stride is None: ex.set_stride(st, st.w(B.o), tsize(tykey(t)))
        ex.oblige(st, And(Ge(la, n), Ge(lb, m)), ex.oname(st, 'transposition: leading dimensions'), 'pre')
        ex.oblige(st, Implies(And(Ge(m, 1), Ge(n, 1)), And(Le(Add(A.i, Add(Mul(Sub(m, 1), la), n)), st.mem[A.o].count), Le(Add(B.i, Add(Mul(Sub(n, 1), lb), m)), st.mem[B.o].count))), ex.oname(st, 'transposition: inside the arrays'), 'memory')
        src = ex.view(st, A, t); k = tykey(t); old = ex.view(st, B, t); new = ex.base_av(st, 'transposed', k)
        I0, J0 = p.g0
        st.assume(Implies(And(Lt(I0, m), Lt(J0, n)), Eq(ex.av_get(new, Add(B.i, Add(I0, Mul(J0, lb))), st), src[Add(Mul(I0, la), J0)])))
        st.w(B.o).arr[(0, k)] = new
        return None
    p.model(r'da_utils::copy_transpose_2D_array_row_to_column_major<%s>' % ty, tr)


def stored(PP, ty, order, check, mode, null, aux):
    p = PP(UH, 'uf'); c = status_codes(); t = TYS[ty]
    m, n, ld, good, X, I0, J0, pos = scan_setup(p, t, order); p.g0 = (I0, J0)
    p.requires(Implies(And(Ge(m, 1), Ge(n, 1)), Le(Mul(m, n), INT_MAX)))
    rmin, cmin = p.int('rmin', 1), p.int('cmin', 1); FL = p.int('bad', 0, 1)
    h = handle(p, ty, order, check, aux); contracts(p, ty, X, FL, c)
    T1 = p.struct('temp', 8); T2 = p.struct('internal', 8); p.put(T1, 0, PTR, NULL); p.put(T2, 0, PTR, NULL); L_ = p.array('ld_int', I32, 1)
    N = [p.struct(x, 32) for x in ('rn', 'cn', 'dn', 'ln')]

    def post(s, v):
        if mode == 2:
            p.ensure(s, Eq(v, 0), 'mode 2: stored unchecked'); q = p.get(s, T2, 0, PTR)
            p.ensure(s, isinstance(q, Ptr) and q.o == (None if null else X.ptr.o), 'mode 2: the pointer is kept'); p.ensure(s, Eq(L_.now(s)[0], ld), 'mode 2: leading dimension kept'); return
        dim = Or(Lt(m, rmin), Lt(n, cmin)); ldbad = Lt(ld, n if order == 0 else m)
        p.ensure(s, Implies(dim, Eq(v, c['invalid_array_dimension'])), 'dimensions refused')
        if null: p.ensure(s, Implies(Not(dim), Eq(v, c['invalid_pointer'])), 'null refused'); return
        p.ensure(s, Implies(And(Not(dim), ldbad), Eq(v, c['invalid_leading_dimension'])), 'leading dimension refused')
        ck = check and mode in (0, 3) and not aux; r = And(Not(dim), Not(ldbad))
        p.ensure(s, Implies(r, Eq(v, If(Eq(FL, 1), c['invalid_input'], 0) if ck else 0)), 'NaNs reported when asked to look')
        if mode == 3: return
        ok = Eq(v, 0)
        if p.ex.pr.feasible(s.pc, ok):
            q = p.get(s, T2, 0, PTR); w = p.get(s, T1, 0, PTR)
            if not isinstance(q, Ptr) or q.o is None: p.ensure(s, Not(ok), 'a matrix is kept'); return
            if order == 1: p.ensure(s, Implies(ok, And(q.o == X.ptr.o, Eq(q.i, 0), Eq(L_.now(s)[0], ld))), 'column-major data kept in place')
            else:
                p.ensure(s, Implies(ok, And(isinstance(w, Ptr) and w.o == q.o and q.o != X.ptr.o, Eq(q.i, 0), Eq(L_.now(s)[0], m))), 'row-major data moved to a new array')
                p.ensure(s, Implies(ok, Ge(s.mem[q.o].count if s.mem[q.o].stride else Div(s.mem[q.o].bytes, 8 if ty == 'double' else 4), Mul(m, n))), 'the new array holds the matrix')
                if mode == 0: p.ensure(s, Implies(ok, Eq(p.ex.view(s, q, t)[Add(I0, Mul(J0, m))], X.old[pos])), 'stored(i,j) == data(i,j)')
    p.call(r'basic_handle<%s>::store_2D_array' % ty, [h, m, n, NULL if null else X, ld, T1, T2, L_] + N + [mode, rmin, cmin], post)


def proofs(tier):
    l = []
    for ty in TYS:
        for o in (0, 1):
            l += [Proof('check_data<%s> order=%d' % (ty, o), detects, ty, o), Proof('check_data<%s> order=%d accepts' % (ty, o), accepts, ty, o), Proof('check_data<%s> order=%d null' % (ty, o), null_data, ty, o)]
            l += [Proof('check_2D_array<%s> order=%d check=%d null=%d clean=%d' % (ty, o, ck, z, cl), two_d, ty, o, ck, z, cl) for ck, z, cl in ((0, 0, 0), (1, 0, 0), (1, 0, 1), (1, 1, 0))]
            l += [Proof('store_2D_array<%s> order=%d check=%d mode=%d null=%d aux=%d' % (ty, o, ck, md, z, ax), stored, ty, o, ck, md, z, ax)
                  for ck, md, z, ax in ((0, 0, 0, 0), (1, 0, 0, 0), (1, 1, 0, 0), (1, 3, 0, 0), (1, 2, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (1, 1, 0, 1))]
        l += [Proof('check_1D_array<%s> check=%d null=%d clean=%d' % (ty, ck, z, cl), one_d, ty, ck, z, cl) for ck, z, cl in ((0, 0, 0), (1, 0, 0), (1, 0, 1), (1, 1, 0))]
    l += [Proof('check_1D_array<int> check=%d' % ck, one_d, 'int', ck, 0, 0) for ck in (0, 1)] + [Proof('check_data<int> order=%d' % o, ints, o) for o in (0, 1)]
    return l


# ---------------------------------------------------------------- real code on concrete inputs
native_build, native_load = LAY.native_build, LAY.native_load
CT = {'d': ctypes.c_double, 'f': ctypes.c_float, 'i': ctypes.c_int}
RULE = 'random shapes, orders, leading dimensions, minima, options; NaN placed at corners, edges, random elements or only in the padding; huge, infinite and denormal elements; all refusals; non-trivial: any'
BOUNDED = 'status compared with the documented one, source array and surroundings compared bit for bit'
LEVEL_NOTE = 'every obligation of the listed functions is discharged for all inputs; one deviation is listed as a known finding (elements absorbed by +1 are reported as NaN)'
ABSORBED = 'elements with x == x + 1 (no NaN among them) reported as NaN'


def known(case, r): return 'absorbed' if r.startswith(ABSORBED) else None


def cases(rng, hints, tier, seed):
    sz = [1, 1, 2, 3, 4, 7, 8, 16, 33, 64, 65, 127, 130]
    while True:
        fn = rng.choice(['ckd', 'ck1', 'ck2', 'ck2', 'sto', 'sto'])
        m, n = rng.choice(sz), rng.choice(sz[:9])
        if rng.random() < .5: m, n = n, m
        if rng.random() < .12: m = rng.choice([0, -1, -5])
        if rng.random() < .12: n = rng.choice([0, -1, -5])
        yield dict(fn=fn, ty=rng.choice('dddffi') if fn in ('ck1', 'ckd') else rng.choice('df'), o=rng.randrange(2), m=m, n=n, pad=rng.choice([0, 0, 0, 1, 3, -1, -2]), ck=rng.choice([1, 1, 1, 0]), null=rng.random() < .08,
                   via=rng.randrange(2), mode=rng.choice([0, 0, 1, 3, 2]), rm=rng.choice([1, 1, 1, 2, 5]), cm=rng.choice([1, 1, 1, 2, 5]), what=rng.choice(['clean', 'clean', 'nan', 'nan', 'nan', 'padnan', 'odd', 'huge']),
                   where=rng.choice(['first', 'last', 'any', 'any', 'cornerA', 'cornerB', 'lastrow', 'lastcol']), s=rng.randrange(1 << 30))


def run_case(lib, c):
    import random
    c20 = status_codes(); rng = random.Random(c['s']); fn, ty, o, m, n = c['fn'], c['ty'], c['o'], c['m'], c['n']
    one = fn == 'ck1'
    if one: m, o = 1, 0
    w = n if o == 0 else m; ld = w if one else w + c['pad']
    size = max(0, ((m if o == 0 else n) * max(ld, w)) if m > 0 and n > 0 else 0)
    N = [rng.choice([0.0, -0.0, 1.5, -3.0, 5e-40 if ty == 'f' else 1e-310, 7.25]) if ty != 'i' else rng.randrange(-9, 9) for _ in range(size)]
    pos = lambda i, j: i * max(ld, w) + j if o == 0 else j * max(ld, w) + i
    inside = m > 0 and n > 0
    hasnan = hasabs = False
    if inside and ty != 'i':
        i, j = {'first': (0, 0), 'last': (m - 1, n - 1), 'any': (rng.randrange(m), rng.randrange(n)), 'cornerA': (0, n - 1), 'cornerB': (m - 1, 0), 'lastrow': (m - 1, rng.randrange(n)), 'lastcol': (rng.randrange(m), n - 1)}[c['where']]
        if c['what'] == 'nan': N[pos(i, j)] = math.nan; hasnan = True
        if c['what'] == 'huge': N[pos(i, j)] = rng.choice([math.inf, -math.inf, 3e30, -1e25, 2.0 ** 60]); hasabs = True
        if c['what'] == 'odd':      # large, yet not absorbed by adding one
            N[pos(i, j)] = rng.choice([1.0, -1.0]) * (2.0 ** 23 - 2 if ty == 'f' else rng.choice([2.0 ** 52 - 2, 2.0 ** 40, 2.0 ** 24 + 2]))
        if c['what'] == 'padnan':
            log = {pos(a, b) for a in range(m) for b in range(n)}
            for k in range(size):
                if k not in log: N[k] = math.nan
    B = Buf(CT[ty], N); raw0 = bytes(B.raw); P = None if c['null'] else B.p
    bn = c20['invalid_array_dimension']; bl = c20['invalid_leading_dimension']; bp = c20['invalid_pointer']; bi = c20['invalid_input']
    ldbad = ld < w; nan = bi if hasnan else 0
    if fn == 'ckd':
        s = getattr(lib, 'ckd_' + ty)(o, m, n, P, ld)
        exp = bn if m < 1 or n < 1 else bp if c['null'] else bl if ldbad else nan; looks = True
    elif one:
        s = getattr(lib, 'ck1_' + ty)(c['ck'], n, P, c['rm'], c['via'])
        exp = bp if c['null'] else bn if n < c['rm'] else nan if c['ck'] else 0; looks = c['ck']
    elif fn == 'ck2':
        s = getattr(lib, 'ck2_' + ty)(c['ck'], o, m, n, P, ld, c['rm'], c['cm'], c['via'])
        exp = bn if m < c['rm'] or n < c['cm'] else bp if c['null'] else bl if ldbad else nan if c['ck'] else 0; looks = c['ck']
    else:
        mode = c['mode']; out = Buf(CT[ty], [-77.0] * (max(m, 1) * max(n, 1))); l, mv = ctypes.c_int(-1), ctypes.c_int(-1)
        if mode == 2 and (ldbad or c['null']): return None
        s = getattr(lib, 'sto_' + ty)(o, c['ck'], m, n, P, ld, mode, c['rm'], c['cm'], out.p, ctypes.byref(l), ctypes.byref(mv))
        looks = c['ck'] and mode in (0, 3)
        exp = 0 if mode == 2 else bn if m < c['rm'] or n < c['cm'] else bp if c['null'] else bl if ldbad else nan if looks else 0
        if s == 0 and exp == 0:
            want = (1, ld) if mode == 2 else (0, -7) if mode == 3 else (1, ld) if o == 1 else (2, m)
            if (mv.value, l.value) != want: return 'store_2D_array: array kept %s, expected %s' % ((mv.value, l.value), want)
            if mode == 0:
                for i in range(m):
                    for j in range(n):
                        a, b = out.arr[i + j * m], N[pos(i, j)]; b = ctypes.c_float(b).value if ty == 'f' else b
                        if a != b and not (a != a and b != b): return 'store_2D_array: element (%d,%d) is %r, expected %r' % (i, j, a, b)
        if out.broken(): return 'store_2D_array: wrote outside the result'
    if bytes(B.raw) != raw0: return '%s: wrote to the array it checks' % fn
    if s != exp:
        if s == bi and exp == 0 and hasabs and looks: return ABSORBED + ' (%s)' % fn
        return '%s: status %d, expected %d' % (fn, s, exp)
    return None
