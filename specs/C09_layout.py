"""C09 layout conversions: every element moved once, padding and everything else untouched."""
import ctypes, re
from vc.proof import *
from vc.native import load, Buf
from specs.C01_split import status_codes

U = 'utilities/da_utils.cpp'; UH = 'utilities/basic_handle.cpp'; UR = 'basic_statistics/row_to_col_major.cpp'
UNITS = [U, UH, UR]
TYS = {'double': DOUBLE, 'float': FLOAT}
CH = {'double': 'd', 'float': 's'}
ASSUMPTIONS = ['array index products fit da_int (LP64 build), as for every array the library accepts',
               'OpenMP pragmas are read as their sequential meaning (iterations write disjoint elements: the postcondition names the one writer of each element)',
               'assumed contract of the external BLAS extension ?omatcopy/?imatcopy: B[j + i*ldb] = alpha*A[i + j*lda] for i < m, j < n, nothing else changes; its preconditions (lda >= m, ldb >= n, sizes) are obligations']


def increments(p, rx):
    """block sizes the code uses today: constants added to integers in the function and in what it calls"""
    out = set(); todo = [p.fn(rx)]; seen = set()
    while todo:
        n = todo.pop()
        if n in seen or n not in p.mod.functions or len(seen) > 12: continue
        seen.add(n); t = p.mod.functions[n].body
        out |= {int(x) for x in re.findall(r'= add [^\n]*?, (\d+)', t)}
        todo += re.findall(r'call [^\n]*?(@[\w.$]+)\(', t)
    return sorted(x for x in out if 1 < x <= 4096)[:3]


def blockinv(p, Q, K, a, b, steps, cells=False):
    """loop invariants for any nest of (tiled or plain) loops over the two index axes: the ghost element (a, b) is in place
    as soon as the loops have passed it, nothing undoes it, and the ghost padding position keeps its value (K)"""
    p.inv('keep', lambda L: Implies(Q(L.entry()), Q(L)))
    for n, k in enumerate(K): p.inv('pad%d' % n, lambda L, k=k: k(L))
    # names of the current source; where one of them is gone, any loop counter may take its place
    for x, u, U_, n in ((a, 'i', 'i_block', 0), (b, 'j', 'j_block', 1)):
        y, v, V_ = (b, 'j', 'j_block') if n == 0 else (a, 'i', 'i_block')
        add = lambda nm, ps, f: p.inv('%s%d' % (nm, n), eval('lambda L, %s, f=f: f(%s)' % (', '.join(ps), ', '.join(['L'] + ps)), dict(f=f)))
        add('done', [U_] if steps else [u], lambda L, i, x=x: Implies(Lt(x, i), Q(L)))
        if not steps:
            add('part', [u, v], lambda L, i, j, x=x, y=y: Implies(And(Eq(x, i), Lt(y, j)), Q(L)))
            continue
        for t in steps:
            add('band', [U_, V_], lambda L, ib, jb, x=x, y=y, t=t: Implies(And(Ge(x, ib), Lt(x, Add(ib, t)), Lt(y, jb)), Q(L)))
            add('tile', [u, U_, V_], lambda L, i, ib, jb, x=x, y=y, t=t: Implies(And(Ge(x, ib), Lt(x, i), Ge(y, jb), Lt(y, Add(jb, t))), Q(L)))
        add('line', [u, V_, v], lambda L, i, jb, j, x=x, y=y: Implies(And(Eq(x, i), Ge(y, jb), Lt(y, j)), Q(L)))


def positions(row):
    return (lambda i, j, ld: Add(Mul(i, ld), j)) if row else (lambda i, j, ld: Add(Mul(j, ld), i))


def setup(p, ta, tb, rowA, rowB):
    m, n, lda, ldb = p.int('n_rows', 0), p.int('n_cols', 0), p.int('lda', 0), p.int('ldb', 0)
    p.requires(And(Ge(lda, n if rowA else m), Ge(ldb, n if rowB else m)))
    ext = lambda row, ld: Mul(m, ld) if row else Mul(n, ld)
    p.requires(And(Le(ext(rowA, lda), INT_MAX), Le(ext(rowB, ldb), INT_MAX)))
    # blocked loops step past the end by less than a block
    p.requires(And(Le(m, INT_MAX - 4096), Le(n, INT_MAX - 4096)), 'dimensions leave room for one block below 2^31')
    cnt = lambda row, ld: If(And(Ge(m, 1), Ge(n, 1)), Add(Mul(Sub(m, 1), ld), n) if row else Add(Mul(Sub(n, 1), ld), m), 0)
    A = p.array('A', ta, cnt(rowA, lda)); B = p.array('B', tb, cnt(rowB, ldb))
    I0, J0 = p.ghost('I0', 0), p.ghost('J0', 0)
    p.requires(And(Lt(I0, m), Lt(J0, n)))
    pa, pb = p.ghost('pa', 0), p.ghost('pb', 0)
    inpad = And(Lt(pa, Sub(m if rowB else n, 1)), Ge(pb, n if rowB else m), Lt(pb, ldb))
    pad = Add(Mul(pa, ldb), pb)
    cv = lambda v: v if ta.k == tb.k else (p.ex.F.conv(v, ta, tb) if tb.k != 'int' else p.ex.F.to_int(v, tb))
    sA, dB = positions(rowA)(I0, J0, lda), positions(rowB)(I0, J0, ldb)
    Q = lambda s: Eq(B.now(s)[dB], cv(A.old[sA]))
    KP = lambda s: Implies(inpad, Eq(B.now(s)[pad], B.old[pad]))
    p.ghost_pad = (pa, pb)
    ak = p.ghost('ak', 0)
    KA = lambda s: Implies(Lt(ak, A.count), Eq(A.now(s)[ak], A.old[ak]))
    return m, n, lda, ldb, A, B, I0, J0, Q, KP, KA


def moves(PP, rx, ta, tb, rowA, rowB, order):
    p = PP(U, 'uf', max_counters=4, step_ms=8000)
    m, n, lda, ldb, A, B, I0, J0, Q, KP, KA = setup(p, ta, tb, rowA, rowB)
    blockinv(p, Q, [KP], I0, J0, increments(p, rx))

    def post(s, v):
        p.ensure(s, Q(s), 'B(i,j) == A(i,j) at every position'); p.ensure(s, KP(s), 'padding of B unchanged'); p.ensure(s, KA(s), 'A unchanged')
    p.call(rx, ([order] if order is not None else []) + [m, n, A, lda, B, ldb], post)




# ---- external BLAS transposition
def blas(p, ty, gi, gj):
    """contract of ?omatcopy / ?imatcopy with trans = 'T' (or 'N'), instantiated at the two ghost elements"""
    ex = p.ex; k = tykey(ty)

    def common(st, a):
        tr = ex.load(st, a[0], I8); m = ex.load(st, a[1], I32); n = ex.load(st, a[2], I32); al = ex.load(st, a[3], ty)
        if not isint(tr): raise Unsupported('symbolic transposition flag')
        ex.oblige(st, And(Ge(m, 0), Ge(n, 0)), ex.oname(st, 'blas: dimensions'), 'pre')
        ex.oblige(st, Eq(al, 1), ex.oname(st, 'blas: factor is one'), 'pre')
        return chr(tr).upper(), m, n

    def write(st, o, av, base, src, tr, m, n, ld_in, ld_out, keep):
        new = ex.base_av(st, 'matcopy', k)
        rows = m if tr == 'N' else n
        cols = n if tr == 'N' else m
        for i, j in ((gi, gj), (gj, gi)):       # column-major element (i, j) of the input
            d = Add(j if tr == 'T' else i, Mul(i if tr == 'T' else j, ld_out))
            st.assume(Implies(And(Ge(i, 0), Lt(i, m), Ge(j, 0), Lt(j, n)), Eq(ex.av_get(new, Add(base, d), st), src(Add(i, Mul(j, ld_in))))))
        for x in keep(rows, cols):
            st.assume(Implies(x[0], Eq(ex.av_get(new, x[1], st), ex.av_get(av, x[1], st))))
        return new

    def om(ex, st, a, ins):
        tr, m, n = common(st, a); A, lda, B, ldb = a[4], ex.load(st, a[5], I32), a[6], ex.load(st, a[7], I32)
        rows = m if tr == 'N' else n; cols = n if tr == 'N' else m
        ex.oblige(st, And(Ge(lda, m), Ge(ldb, rows)), ex.oname(st, 'blas: leading dimensions'), 'pre')
        oa, ob = st.mem[A.o], st.w(B.o)
        ne = And(Ge(m, 1), Ge(n, 1))
        ex.oblige(st, Implies(ne, Le(Add(A.i, Add(Mul(Sub(n, 1), lda), m)), oa.count)), ex.oname(st, 'blas: reads inside A'), 'memory')
        ex.oblige(st, Implies(ne, Le(Add(B.i, Add(Mul(Sub(cols, 1), ldb), rows)), ob.count)), ex.oname(st, 'blas: writes inside B'), 'memory')
        av = ex.view(st, A, ty); ob = st.w(B.o); old = ex.view(st, B, ty).av
        ob = st.w(B.o); ob.arr[(0, k)] = write(st, ob, old, B.i, lambda x: av[x], tr, m, n, lda, ldb,
                                               lambda r, c: [(And(Ge(a_, 0), Lt(a_, Sub(c, 1)), Ge(b_, r), Lt(b_, ldb)), Add(B.i, Add(Mul(a_, ldb), b_))) for a_, b_ in p.pads])
        return None

    def im(ex, st, a, ins):
        tr, m, n = common(st, a); A, l1, l2 = a[4], ex.load(st, a[5], I32), ex.load(st, a[6], I32)
        rows = m if tr == 'N' else n; cols = n if tr == 'N' else m
        ex.oblige(st, And(Ge(l1, m), Ge(l2, rows)), ex.oname(st, 'blas: leading dimensions'), 'pre')
        o = st.w(A.o); ne = And(Ge(m, 1), Ge(n, 1))
        ex.oblige(st, Implies(ne, And(Le(Add(A.i, Add(Mul(Sub(n, 1), l1), m)), o.count), Le(Add(A.i, Add(Mul(Sub(cols, 1), l2), rows)), o.count))), ex.oname(st, 'blas: stays inside A'), 'memory')
        old = ex.view(st, A, ty); o = st.w(A.o)
        o.arr[(0, k)] = write(st, o, old.av, A.i, lambda x: old[x], tr, m, n, l1, l2, lambda r, c: [])
        return None
    p.model('^%somatcopy_$' % CH[ty.k], om)
    p.model('^%simatcopy_$' % CH[ty.k], im)


def switched(PP, ty, order):
    p = PP(U, 'uf'); t = TYS[ty]; row = order == 0
    m, n, ldx, ldy, X, Y, I0, J0, Q, KP, KX = setup(p, t, t, row, not row)
    p.requires(And(Ge(m, 1), Ge(n, 1)))
    p.pads = [(p.ghost_pad[0], p.ghost_pad[1])]
    blas(p, t, I0, J0)

    def post(s, v):
        p.ensure(s, Eq(v, 0), 'status is success'); p.ensure(s, Q(s), 'Y(i,j) == X(i,j) at every position'); p.ensure(s, KP(s), 'padding of Y unchanged'); p.ensure(s, KX(s), 'X unchanged')
    p.call(r'da_utils::switch_order_copy<%s>' % ty, [order, m, n, X, ldx, Y, ldy], post)


def switched_in_place(PP, ty, order):
    p = PP(U, 'uf'); t = TYS[ty]; row = order == 0
    m, n, l1, l2 = p.int('n_rows', 1), p.int('n_cols', 1), p.int('ld_in'), p.int('ld_out')
    p.requires(And(Ge(l1, n if row else m), Ge(l2, m if row else n)))
    e1 = Mul(m, l1) if row else Mul(n, l1); e2 = Mul(n, l2) if row else Mul(m, l2)
    p.requires(And(Le(e1, INT_MAX), Le(e2, INT_MAX)))
    X = p.array('X', t, Max(e1, e2)); I0, J0 = p.ghost('I0', 0), p.ghost('J0', 0)
    p.requires(And(Lt(I0, m), Lt(J0, n))); p.pads = []
    blas(p, t, I0, J0)

    def post(s, v):
        p.ensure(s, Eq(v, 0), 'status is success')
        p.ensure(s, Eq(X.now(s)[positions(not row)(I0, J0, l2)], X.old[positions(row)(I0, J0, l1)]), 'X(i,j) kept at its new position')
    p.call(r'da_utils::switch_order_in_place<%s>' % ty, [order, m, n, X, l1, l2], post)


def refused(PP, ty, fn, order, null):
    p = PP(U, 'uf'); t = TYS[ty]; c = status_codes(); row = order == 0
    m, n, l1, l2 = p.int('n_rows'), p.int('n_cols'), p.int('ld_in'), p.int('ld_out')
    ld = And(Ge(l1, n if row else m), Ge(l2, m if row else n))
    X = p.array('X', t, 0); Y = p.array('Y', t, 0)
    if null is None: p.requires(Or(Lt(m, 1), Lt(n, 1), Not(ld)))
    code = If(Or(Lt(m, 1), Lt(n, 1)), c['invalid_array_dimension'], c['invalid_leading_dimension'] if null is None else c['invalid_pointer'])
    args = [order, m, n, NULL if null == 0 else X, l1] + ([NULL if null == 1 else Y] if fn == 'switch_order_copy' else []) + [l2]
    p.call(r'da_utils::%s<%s>' % (fn, ty), args, lambda s, v: p.ensure(s, Eq(v, code), 'documented status'))


def results(PP, ty, order):
    p = PP(UH, 'uf', max_counters=4, step_ms=8000); t = TYS[ty]; row = order == 0
    m, n, ld = p.int('n_rows', 0), p.int('n_cols', 0), p.int('lddata', 0)
    p.requires(And(Ge(ld, m), Le(Mul(n, ld), INT_MAX), Le(Mul(m, n), INT_MAX)))
    D = p.array('data', t, If(And(Ge(m, 1), Ge(n, 1)), Add(Mul(Sub(n, 1), ld), m), 0)); R = p.array('results', t, Mul(m, n))
    I0, J0, k = p.ghost('I0', 0), p.ghost('J0', 0), p.ghost('k', 0)
    p.requires(And(Lt(I0, m), Lt(J0, n)))
    h = p.struct('handle', 8192); p.put(h, p.field('basic_handle<%s>' % ty, 'order'), I32, order)
    Q = lambda s: Eq(R.now(s)[positions(row)(I0, J0, n if row else m)], D.old[Add(I0, Mul(ld, J0))])
    blockinv(p, Q, [], I0, J0, [])

    def post(s, v):
        p.ensure(s, Q(s), 'results(i,j) == data(i,j) at every position'); p.ensure(s, Implies(Lt(k, D.count), Eq(D.now(s)[k], D.old[k])), 'data unchanged')
    p.call(r'basic_handle<%s>::copy_2D_results_array' % ty, [h, m, n, D, ld, R], post)


def axes(PP, order):
    p = PP(UR, 'uf'); c = status_codes()
    n, q, ld, ax = p.int('n'), p.int('p'), p.int('ldx'), p.int('axis', 0, 2)
    A = [p.array(x, I32, 1) for x in ('axis_out', 'n_out', 'p_out')]
    bad = Or(Lt(n, 1), Lt(q, 1)); ldbad = Lt(ld, q if order == 0 else n)
    e = enum('da_axis_'); sw = If(Eq(ax, e['da_axis_col']), e['da_axis_row'], If(Eq(ax, e['da_axis_row']), e['da_axis_col'], ax))

    def post(s, v):
        p.ensure(s, Eq(v, If(bad, c['invalid_array_dimension'], If(ldbad, c['invalid_leading_dimension'], 0))), 'documented status')
        for a, w, nm in zip(A, (sw, q, n) if order == 0 else (ax, n, q), ('axis', 'n', 'p')):
            p.ensure(s, Implies(Eq(v, 0), Eq(a.now(s)[0], w)), nm + ' describes the same matrix read by columns')
    p.call(r'row_to_col_major', [order, ax, n, q, ld] + A, post)


def enum(pre, header='aoclda_basic_statistics.h'):
    t = open(build.REPO + '/source/include/' + header).read()
    t = re.sub(r'/\*.*?\*/|//[^\n]*', '', t, flags=re.S)
    m = re.search(r'enum %s?\s*\{(.*?)\}' % pre, t, re.S)
    d = {}; k = 0
    for ln in re.sub(r'/\*.*?\*/|//[^\n]*', '', m.group(1), flags=re.S).split(','):
        ln = ln.strip()
        if not ln: continue
        if '=' in ln: ln, v = [x.strip() for x in ln.split('=')]; k = int(v, 0)
        d[ln] = k; k += 1
    return d


def proofs(tier):
    l = []
    for ty in TYS:
        t = TYS[ty]
        l += [Proof('copy_transpose row to column<%s>' % ty, moves, r'da_utils::copy_transpose_2D_array_row_to_column_major<%s>' % ty, t, t, True, False, None),
              Proof('copy_transpose column to row<%s>' % ty, moves, r'da_utils::copy_transpose_2D_array_column_to_row_major<%s>' % ty, t, t, False, True, None)]
        for o in (0, 1):
            l.append(Proof('switch_order_copy<%s> order=%d' % (ty, o), switched, ty, o))
            l.append(Proof('switch_order_in_place<%s> order=%d' % (ty, o), switched_in_place, ty, o))
            l.append(Proof('copy_2D_results_array<%s> order=%d' % (ty, o), results, ty, o))
            for fn, ns in (('switch_order_copy', (None, 0, 1)), ('switch_order_in_place', (None, 0))):
                l += [Proof('%s<%s> refuses order=%d null=%s' % (fn, ty, o, z), refused, ty, fn, o, z) for z in ns]
    for a, b in (('double', 'float'), ('float', 'double'), ('float', 'float'), ('float', 'short')):
        for o in (0, 1):
            T_ = dict(TYS, short=I16)
            l.append(Proof('copy_array_convert_precision<%s,%s> order=%d' % (a, b, o), moves, r'da_utils::copy_array_convert_precision<%s, %s>' % (a, b), T_[a], T_[b], o == 0, o == 0, o))
    l += [Proof('row_to_col_major order=%d' % o, axes, o) for o in (0, 1)]
    return l


# ---------------------------------------------------------------- real code on concrete inputs
def native_build(): build.so('layout', ['units/n_layout.cpp', U, UH, UR, 'dynamic_dispatch/context.cpp', 'utilities/model_persistence.cpp'])
def native_load(): return load('layout')


CT = {'d': ctypes.c_double, 'f': ctypes.c_float, 's': ctypes.c_short}
RULE = 'random shapes around the block sizes (64, 512), orders, tight and padded leading dimensions, element types, 1 to 8 OpenMP threads; non-trivial: any'
BOUNDED = 'every case compares all elements of source and destination, padding and surroundings included'
FNS = ['r2c', 'c2r', 'cvt', 'swc', 'swi', 'res', 'sto', 'axis']


def cases(rng, hints, tier, seed):
    dims = [1, 2, 3, 5, 17, 31, 63, 64, 65, 66, 100, 127, 128, 129, 130, 191, 192, 193]
    while True:
        fn = rng.choice(FNS)
        m, n = rng.choice(dims), rng.choice(dims if rng.random() < .4 else dims[:10])
        if fn == 'cvt' and rng.random() < .35: m, n = rng.choice([(rng.choice([511, 512, 513, 1025]), rng.choice([1, 2, 3])), (rng.choice([1, 2, 3]), rng.choice([511, 512, 513, 1025])), (513, 514)])
        if rng.random() < .06: m = rng.choice([0, -1, m])
        if rng.random() < .06: n = rng.choice([0, -1, n])
        yield dict(fn=fn, ty=rng.choice(['df', 'fd', 'ff', 'fs']) if fn == 'cvt' else rng.choice('df'), o=rng.randrange(2), m=m, n=n, pa=rng.choice([0, 0, 1, 3]), pb=rng.choice([0, 0, 1, 5]),
                   dl=rng.choice([0, 0, 0, 0, 0, -1]) if fn in ('swc', 'swi') else 0, ax=rng.randrange(3), t=rng.choice([1, 2, 3, 8]))


def run_case(lib, c):
    fn, o, m, n = c['fn'], c['o'], c['m'], c['n']; code = status_codes(); lib.threads(c['t'])
    if fn == 'axis':
        ld = (n if o == 0 else m) + c['pa'] - c['pb']; out = (ctypes.c_int * 3)(-7, -7, -7)
        s = lib.r2cm(o, c['ax'], m, n, ld, out); e = enum('da_axis_')
        exp = code['invalid_array_dimension'] if m < 1 or n < 1 else code['invalid_leading_dimension'] if ld < (n if o == 0 else m) else 0
        if s != exp: return 'row_to_col_major: status %d, expected %d' % (s, exp)
        sw = {e['da_axis_col']: e['da_axis_row'], e['da_axis_row']: e['da_axis_col']}
        w = [c['ax'], m, n] if o == 1 else [sw.get(c['ax'], c['ax']), n, m]
        if s == 0 and list(out) != w: return 'row_to_col_major: axis, n, p = %s, expected %s' % (list(out), w)
        return None
    if fn not in ('swc', 'swi'): m, n = max(m, 0), max(n, 0)
    if fn in ('res', 'sto'): m, n = max(m, 1), max(n, 1)
    ra, rb = {'r2c': (1, 0), 'c2r': (0, 1), 'cvt': (o == 0, o == 0), 'swc': (o == 0, o == 1), 'swi': (o == 0, o == 1), 'res': (0, o == 0), 'sto': (o == 0, 0)}[fn]
    la, lb = (n if ra else m) + c['pa'], (n if rb else m) + c['pb'] + c['dl']
    if fn == 'swc' and c['pa'] == 3 and c['dl']: la, lb = la - 4, lb + 1
    if fn == 'res': lb = n if rb else m
    if fn == 'sto': lb = m
    bad = m < 1 or n < 1; badld = la < (n if ra else m) or lb < (n if rb else m)
    size = lambda row, ld: max(0, (m if row else n) * ld)
    ta, tb = (c['ty'] if fn == 'cvt' else c['ty'] * 2)
    tot = max(size(ra, la), size(rb, lb)) if fn == 'swi' else size(ra, la)
    A = Buf(CT[ta], [(k % 32003) - 16000 + (.25 if ta != 's' and k % 3 == 0 and tb != 's' else 0) for k in range(tot)])
    if fn == 'cvt' and c['ty'] == 'df': A.arr[:] = [x + 1e-9 * (x % 7) for x in A.get()]
    B = Buf(CT[tb], [-31000 - (k % 1000) for k in range(size(rb, lb))]); a0, b0 = A.get(), B.get()
    s = 0
    if fn in ('r2c', 'c2r'): getattr(lib, fn + '_' + c['ty'])(m, n, A.p, la, B.p, lb)
    elif fn == 'cvt': getattr(lib, 'cvt_' + c['ty'])(o, m, n, A.p, la, B.p, lb)
    elif fn == 'swc': s = getattr(lib, 'swc_' + c['ty'])(o, m, n, A.p, la, B.p, lb)
    elif fn == 'swi': s = getattr(lib, 'swi_' + c['ty'])(o, m, n, A.p, la, lb)
    elif fn == 'res': getattr(lib, 'res_' + c['ty'])(o, m, n, A.p, la, B.p)
    else:
        l, mv = ctypes.c_int(-1), ctypes.c_int(-1)
        s = getattr(lib, 'sto_' + c['ty'])(o, 0, m, n, A.p, la, 0, 1, 1, B.p, ctypes.byref(l), ctypes.byref(mv))
        if (mv.value, l.value) != ((2, m) if o == 0 else (1, la)): return 'store_2D_array: kept the wrong array'
    exp = 0 if fn not in ('swc', 'swi') else code['invalid_array_dimension'] if bad else code['invalid_leading_dimension'] if badld else 0
    if s != exp: return '%s: status %d, expected %d' % (fn, s, exp)
    pos = lambda row, i, j, ld: i * ld + j if row else j * ld + i
    if A.broken() or B.broken(): return fn + ': wrote outside the arrays'
    if exp: return None if repr(A.get()) == repr(a0) and B.get() == b0 else fn + ': refused, but changed the arrays'
    if fn == 'swi':
        g = A.get()
        for i in range(m):
            for j in range(n):
                if g[pos(rb, i, j, lb)] != a0[pos(ra, i, j, la)]: return 'switch_order_in_place: element (%d,%d) is %r, expected %r' % (i, j, g[pos(rb, i, j, lb)], a0[pos(ra, i, j, la)])
        return None
    if A.get() != a0: return fn + ': changed the source'
    e = list(b0); cv = (lambda v: ctypes.c_float(v).value) if tb == 'f' else int if tb == 's' else (lambda v: v)
    for i in range(m):
        for j in range(n): e[pos(rb, i, j, lb)] = cv(a0[pos(ra, i, j, la)])
    g = B.get()
    if g != e:
        k = next(k for k in range(len(g)) if g[k] != e[k]); q = divmod(k, lb)
        return '%s: destination position %d (%s) is %r, expected %r' % (fn, k, 'row, column %d, %d' % (q if rb else q[::-1]), g[k], e[k])
    return None
