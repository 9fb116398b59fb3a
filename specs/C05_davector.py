"""C05 growable numeric vector: the abstract sequence is kept by every operation, memory-safely."""
import ctypes
from vc.proof import *
from vc.native import load, Buf

U = 'units/p_davector.cpp'
UNITS = [U]
TYS = {'int': (I32, 4), 'double': (DOUBLE, 8), 'float': (FLOAT, 4)}
BIG = 2**40
ASSUMPTIONS = ['sizes and capacities stay below 2^40 elements', 'malloc may fail: std::bad_alloc leaves through an exception and is not a return']
RULE = 'random histories of operations (construct, push_back incl. of own elements, append incl. of itself, resize, reserve, copy, move, clear, element writes) on several vectors compared with a Python list after every step, sizes around the growth points'
BOUNDED = 'histories of up to 60 operations'


def vec(p, name, ty, moved=False):
    """an object satisfying the representation invariant: 0 <= size <= capacity = elements allocated (a moved-from one has no buffer)"""
    T_, z = TYS[ty]; cls = 'da_vector<%s>' % ty
    od, os_, oc = p.field(cls, '_data'), p.field(cls, '_size'), p.field(cls, '_capacity')
    q = p.struct(name, 24)
    size = p.i64(name + '.size', 0); cap = p.i64(name + '.cap', 0, BIG)
    p.requires(Le(size, cap))
    if moved:
        p.requires(And(Eq(size, 0), Eq(cap, 0))); a = None; ptr = NULL
    else:
        p.requires(Ge(cap, 1)); a = p.array(name + '.buf', T_, cap); ptr = a.ptr
        p.ex.obj_of(p.st, ptr).meta['malloc'] = True
    p.put(q, od, PTR, ptr); p.put(q, os_, I64, size); p.put(q, oc, I64, cap)
    return types.SimpleNamespace(q=q, a=a, size=size, cap=cap, ty=T_, od=od, os=os_, oc=oc, p=p)


import types


def size_of(v, s): return v.p.get(s, v.q, v.os, I64)
def cap_of(v, s): return v.p.get(s, v.q, v.oc, I64)
def elems(v, s):
    st = s._st if isinstance(s, LoopEnv) else s
    return v.p.ex.view(st, v.p.get(s, v.q, v.od, PTR), v.ty)


def elem_is(p, s, v, guard, i, x, name):
    """guard implies that element i exists and equals x"""
    ptr = p.get(s, v.q, v.od, PTR)
    p.ensure(s, Implies(guard, False if ptr.o is None else Eq(elems(v, s)[i], x)), name)


def wf(p, s, v):
    """representation invariant holds again"""
    sz, cp = size_of(v, s), cap_of(v, s)
    p.ensure(s, And(Le(0, sz), Le(sz, cp)), 'size <= capacity')
    ptr = p.get(s, v.q, v.od, PTR)
    if ptr.o is None:
        p.ensure(s, Eq(cp, 0), 'no buffer only when the capacity is 0')
    else:
        o = s.mem[ptr.o]
        z = TYS[v.ty.k if v.ty.k != 'int' else 'int'][1]
        have = Le(cp, o.count) if o.stride else Le(Mul(cp, z), o.bytes)
        p.ensure(s, And(o.alive, Eq(ptr.i, 0), have), 'the buffer is live and holds capacity elements')


def grows(p, v, need):
    # growth loops: the capacity stays positive and below twice what was asked for
    p.inv('growth', lambda L: And(Ge(cap_of(v, L), 1), Le(cap_of(v, L), 4 * BIG + 64)))
    p.inv('growth2', lambda L: Or(Eq(cap_of(v, L), cap_of(v, L.entry())), Le(cap_of(v, L), Mul(2, need))))


def op(PP, ty, what, moved):
    p = PP(U, 'uf')
    v = vec(p, 'v', ty, moved)
    T_ = v.ty
    n = v.size; old = (lambda i: v.a.old[i]) if v.a else None
    k = p.i64('k', 0)
    cls = 'da_vector::da_vector<%s>::' % ty

    def keep(s, upto): elem_is(p, s, v, Lt(k, upto), k, old(k), 'earlier elements unchanged') if old else None
    if what == 'push_back':
        val = p.array('val', T_, 1); x = val.old[0]

        def post(s, r):
            wf(p, s, v); p.ensure(s, Eq(size_of(v, s), Add(n, 1)), 'size grows by one')
            elem_is(p, s, v, True, n, x, 'last element is the value'); keep(s, n)
        p.call(cls + r'push_back\(', [v.q, val], post)
    elif what == 'push_back own element':
        j = p.i64('j', 0); p.requires(Lt(j, n)); x = old(j)

        def post(s, r):
            wf(p, s, v); p.ensure(s, Eq(size_of(v, s), Add(n, 1)), 'size grows by one')
            elem_is(p, s, v, True, n, x, 'last element is the value'); keep(s, n)
        p.call(cls + r'push_back\(', [v.q, Ptr(v.a.ptr.o, j)], post)
    elif what in ('append', 'append self', 'append std::vector'):
        if what == 'append':
            w = vec(p, 'w', ty); q, m, src = w.q, w.size, (lambda i: w.a.old[i]); rx = r'append\(da_vector'
        elif what == 'append self': q, m, src = v.q, n, old; rx = r'append\(da_vector'
        else:
            m = p.i64('m', 0, BIG); q, w = p.vector('w', T_, m); src = lambda i: w.old[i]; rx = r'append\(std::vector'

        def post(s, r):
            wf(p, s, v); p.ensure(s, Eq(size_of(v, s), Add(n, m)), 'sizes add up'); keep(s, n)
            elem_is(p, s, v, Lt(k, m), Add(n, k), src(k), 'appended elements in order')
            if what == 'append':
                p.ensure(s, Eq(size_of(w, s), m), 'the argument keeps its size')
                elem_is(p, s, w, Lt(k, m), k, src(k), 'the argument keeps its elements')
        grows(p, v, Add(n, m))
        p.call(cls + rx, [v.q, q], post)
    elif what in ('resize', 'reserve'):
        m = p.i64('m', 0, BIG)

        def post(s, r):
            wf(p, s, v)
            p.ensure(s, Eq(size_of(v, s), m if what == 'resize' else n), 'size')
            p.ensure(s, Ge(cap_of(v, s), m), 'capacity covers the request')
            keep(s, If(Le(n, m), n, m) if what == 'resize' else n)
        grows(p, v, m)
        p.call(cls + what + r'\(', [v.q, m], post)
    elif what == 'clear':
        def post(s, r):
            wf(p, s, v); p.ensure(s, Eq(size_of(v, s), 0), 'empty')
        p.call(cls + r'clear\(', [v.q], post)
    elif what in ('copy assign', 'move assign', 'self copy assign', 'self move assign'):
        me = 'self' in what
        w = v if me else vec(p, 'w', ty)
        m = w.size; src = (lambda i: w.a.old[i]) if w.a else None

        def post(s, r):
            wf(p, s, v); p.ensure(s, Eq(size_of(v, s), m), 'size of the source')
            if src: elem_is(p, s, v, Lt(k, m), k, src(k), 'elements of the source')
            if me: return
            wf(p, s, w)
            if what == 'copy assign':
                p.ensure(s, Eq(size_of(w, s), m), 'the source keeps its size')
                elem_is(p, s, w, Lt(k, m), k, src(k), 'the source keeps its elements')
                a, b = p.get(s, v.q, v.od, PTR), p.get(s, w.q, w.od, PTR)
                p.ensure(s, a.o != b.o, 'no shared buffer')
            else: p.ensure(s, Eq(size_of(w, s), 0), 'the source is left empty')
        p.call(cls + (r'operator=\(.*const&\)' if 'copy' in what else r'operator=\(.*&&\)'), [v.q, w.q], post)
    elif what == 'move construct':
        t = p.struct('t', 24)
        tv = types.SimpleNamespace(q=t, ty=T_, od=v.od, os=v.os, oc=v.oc, p=p)

        def post(s, r):
            wf(p, s, tv); wf(p, s, v); p.ensure(s, Eq(size_of(tv, s), n), 'size of the source')
            if old: elem_is(p, s, tv, Lt(k, n), k, old(k), 'elements of the source')
            p.ensure(s, Eq(size_of(v, s), 0), 'the source is left empty')
        p.call(cls + r'da_vector\(.*&&\)', [t, v.q], post)
    elif what in ('construct', 'construct n'):
        t = p.struct('t', 24); tv = types.SimpleNamespace(q=t, ty=T_, od=v.od, os=v.os, oc=v.oc, p=p)
        m = p.i64('m', 0, BIG)

        def post(s, r):
            wf(p, s, tv); p.ensure(s, Eq(size_of(tv, s), m if what == 'construct n' else 0), 'size')
        grows(p, tv, m)
        p.call(cls + (r'da_vector\(unsigned' if what == 'construct n' else r'da_vector\(\)'), [t] + ([m] if what == 'construct n' else []), post)
    elif what == 'element':
        i = p.i64('i', 0); p.requires(Lt(i, n))

        def post(s, r):
            p.ensure(s, And(r.o == v.a.ptr.o, Eq(r.i, i)), 'reference to element i')
        p.call(cls + r'operator\[\]\(unsigned long\)$', [v.q, i], post)


OPS = ['push_back', 'push_back own element', 'append', 'append self', 'append std::vector', 'resize', 'reserve', 'clear', 'copy assign', 'move assign',
       'self copy assign', 'self move assign', 'move construct', 'construct', 'construct n', 'element']


def proofs(tier):
    l = []
    for ty in TYS:
        for w in OPS:
            for moved in (False, True):
                if moved and w in ('push_back own element', 'element', 'construct', 'construct n', 'append self', 'self copy assign', 'self move assign'): continue
                l.append(Proof('da_vector<%s>::%s%s' % (ty, w, ' (moved-from)' if moved else ''), op, ty, w, moved))
    return l


# ---------------------------------------------------------------- real code on concrete histories
def native_build(): build.so('dv', ['units/n_davector.cpp'], omp=False)
def native_load():
    l = load('dv')
    for t in 'ifd':
        getattr(l, 'dv_new_' + t).restype = ctypes.c_void_p
        getattr(l, 'dv_data_' + t).restype = ctypes.c_void_p
        for f in ('size', 'cap'): getattr(l, 'dv_%s_%s' % (f, t)).restype = ctypes.c_size_t
    return l


CT = {'i': ctypes.c_int, 'f': ctypes.c_float, 'd': ctypes.c_double}
NAMES = ['push', 'push', 'push', 'push', 'pushself', 'append', 'append', 'appendstd', 'resize', 'reserve', 'clear', 'copy', 'move', 'movector', 'new', 'newn', 'set', 'fill', 'fill']


def cases(rng, hints, tier, seed):
    sizes = [0, 1, 2, 3, 63, 64, 65, 66, 127, 128, 129, 130, 200, 255, 256, 257, 1000]
    while True:
        ops = []
        for _ in range(rng.randrange(3, 60)):
            o = rng.choice(NAMES)
            ops.append([o, rng.randrange(3), rng.randrange(3), rng.choice(sizes) if o in ('resize', 'reserve', 'newn', 'appendstd', 'fill') else rng.randrange(1000)])
        yield dict(ty=rng.choice('ifd'), ops=ops)


def run_case(lib, c):
    t = c['ty']; ct = CT[t]
    f = lambda n: getattr(lib, 'dv_%s_%s' % (n, t))
    P_ = ctypes.c_void_p
    h = [f('new')(), f('new')(), f('new')()]; m = [[], [], []]; junk = [0, 0, 0]
    val = 1
    for step, (o, a, b, x) in enumerate(c['ops']):
        def elems_of(i):
            n = f('size')(P_(h[i])); return (ct * n).from_address(f('data')(P_(h[i]))) if n else []
        n = len(m[a])
        if o == 'push': f('push')(P_(h[a]), ct(val)); m[a].append(val); val += 1
        elif o == 'fill':
            for _ in range(x % 140): f('push')(P_(h[a]), ct(val)); m[a].append(val); val += 1
        elif o == 'pushself':
            if n: f('pushself')(P_(h[a]), ctypes.c_size_t(x % n)); m[a].append(m[a][x % n])
        elif o == 'append':
            if len(m[a]) + len(m[b]) < 5000: f('append')(P_(h[a]), P_(h[b])); m[a] = m[a] + m[b]
        elif o == 'appendstd':
            v = list(range(val, val + x)); val += x
            if len(m[a]) + x < 5000: f('appendstd')(P_(h[a]), (ct * max(1, x))(*v), ctypes.c_size_t(x)); m[a] = m[a] + v
        elif o == 'resize':
            f('resize')(P_(h[a]), ctypes.c_size_t(x))
            e = elems_of(a)
            if len(e) != x: return 'step %d %s: size %d, expected %d' % (step, o, len(e), x)
            for i in range(n, x): e[i] = val; val += 1     # new elements are uninitialised: give them a value
            m[a] = m[a][:x] + [e[i] for i in range(n, x)]
        elif o == 'reserve':
            f('reserve')(P_(h[a]), ctypes.c_size_t(x))
            if f('cap')(P_(h[a])) < x: return 'step %d reserve(%d): capacity %d' % (step, x, f('cap')(P_(h[a])))
        elif o == 'clear': f('clear')(P_(h[a])); m[a] = []
        elif o == 'copy': f('copy')(P_(h[a]), P_(h[b])); m[a] = list(m[b])
        elif o == 'move':
            f('move')(P_(h[a]), P_(h[b]))
            if a != b: m[a] = m[b]; m[b] = []
        elif o == 'movector':
            if a != b:
                f('del')(P_(h[a])); h[a] = f('new')(); f('movector')(P_(h[a]), P_(h[b])); m[a] = m[b]; m[b] = []
        elif o == 'new': f('del')(P_(h[a])); h[a] = f('new')(); m[a] = []
        elif o == 'newn':
            f('newn')(P_(h[a]), ctypes.c_size_t(x)); e = elems_of(a)
            if len(e) != x: return 'step %d construct(%d): size %d' % (step, x, len(e))
            for i in range(x): e[i] = val; val += 1
            m[a] = [e[i] for i in range(x)]
        elif o == 'set':
            if n: f('set')(P_(h[a]), ctypes.c_size_t(x % n), ct(val)); m[a][x % n] = val; val += 1
        for i in range(3):
            n = f('size')(P_(h[i])); cap = f('cap')(P_(h[i]))
            if n != len(m[i]): return 'step %d %s: vector %d has size %d, expected %d' % (step, o, i, n, len(m[i]))
            if cap < n: return 'step %d %s: capacity %d below size %d' % (step, o, cap, n)
            e = elems_of(i)
            for j in range(n):
                if e[j] != m[i][j]: return 'step %d %s: vector %d element %d is %r, expected %r' % (step, o, i, j, e[j], m[i][j])
        if lib.dv_guard(): return 'step %d %s: write outside an allocation, double free or use of a freed buffer' % (step, o)
    for x in h: f('del')(P_(x))
    if lib.dv_guard(): return 'destructor: write outside an allocation or double free'
    if lib.dv_live(): return 'buffers leaked: %d' % lib.dv_live_reset()
    return None
