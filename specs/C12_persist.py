"""C12 model persistence: what is written is read back, at the offsets the size computation reserved, and loading never reads outside the buffer."""
import ctypes, random, types
from vc import build
from vc.proof import *
from vc.native import load, Buf
from specs.C01_split import status_codes
from specs import C05_davector as V5

U = 'utilities/model_persistence.cpp'
UNITS = [U]
CLS = 'serialization_buffer'
# type of the program, how it is held in memory, how it is saved, bytes saved
SC = {'bool': (INT(8), INT(8), 1), 'int': (I32, I64, 8), 'char': (INT(8), INT(8), 1), 'float': (FLOAT, FLOAT, 4), 'double': (DOUBLE, DOUBLE, 8),
      'da_order_': (I32, I64, 8), 'da_metric_': (I32, I64, 8), 'da_svm_model_': (I32, I64, 8), 'da_handle_type_': (I32, I64, 8), 'da_linmod_types::linmod_model': None}
SC = {k: v for k, v in SC.items() if v}
STR = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >'
TOP = 2**62
ASSUMPTIONS = ['memory allocation succeeds (std::bad_alloc is turned into da_status_memory_error by the code, outside the proofs)', 'a buffer is smaller than 2^62 bytes',
               'contracts on std::vector and std::string (size, resize, element access; insert at the end appends the bytes given)', 'da_vector::resize as proved under C05',
               'the bytes of a value read back as the value written: the conversions between a type and the type it is saved as are exact within the range of the narrower one']


class Ser:
    def __init__(s, PP):
        s.p = p = PP(U, 'uf', ('-fstandalone-debug',)); s.c = status_codes(); s.o = p.struct('buffer', 88)
    def off(s, f): return s.p.field(CLS, f)
    def put(s, f, ty, v): s.p.put(s.o, s.off(f), ty, v)
    def get(s, st, f, ty): return s.p.get(st._st if isinstance(st, LoopEnv) else st, s.o, s.off(f), ty)
    def reader(s):
        """a buffer to load from: size bytes, position inside"""
        p = s.p; s.n = p.i64('size', 0, TOP); s.pos = p.i64('offset', 0); p.requires(Le(s.pos, s.n))
        s.bytes = p.array('bytes', INT(8), s.n); o = p.st.w(s.bytes.ptr.o); o.ro = True; o.meta['views'] = True
        s.put('read_ptr', PTR, s.bytes.ptr); s.put('size', I64, s.n); s.put('offset', I64, s.pos); s.put('mode', I32, 2); return s
    def seen(s, st, ty, i):
        """what the bytes at position i say as a saved value of type ty"""
        ex = s.p.ex; st = st._st if isinstance(st, LoopEnv) else st; o = st.mem[s.bytes.ptr.o]; k = (0, tykey(ty))
        return ex.av_get(o.arr.get(k) or ex.init_av(o, k), i, st)
    def at(s, st): return s.get(st, 'offset', I64)


def conv(ty, v):
    """the loaded value for a saved one"""
    if ty == 'bool': return If(Eq(v, 0), 0, 1)
    return v


def back(ty, got, v):
    g = Eq(got, conv(ty, v))
    return Implies(And(Le(-2**31, v), Lt(v, 2**31)), g) if SC[ty][1] is I64 else g


def read_scalar(PP, ty):
    s = Ser(PP).reader(); p = s.p; m, sv, k = SC[ty]; d = p.array('data', m, 1); v = s.seen(p.st, sv, s.pos); x = d.old[0]

    def post(st, r):
        ok = Le(Add(s.pos, k), s.n)
        p.ensure(st, Eq(r, If(ok, 0, s.c['invalid_file_data'])), 'accepted exactly when the bytes are there')
        p.ensure(st, Eq(s.at(st), If(ok, Add(s.pos, k), s.pos)), 'position moves past the value')
        p.ensure(st, Implies(ok, back(ty, d.now(st)[0], v)), 'the value saved'); p.ensure(st, Implies(Not(ok), Eq(d.now(st)[0], x)), 'nothing changed when refused')
    p.call(r'serialization_buffer::deserialize_data<%s ?>\(' % ty, [s.o, d], post)


def container(p, kind, ty):
    """a container argument of its kind: (pointer, element now(st, i), size now(st))"""
    m = SC[ty][0]
    if kind == 'std::vector':
        q, a = p.vector('data', m, p.i64('old size', 0, TOP))
        def size(st):
            st = st._st if isinstance(st, LoopEnv) else st
            b, e = p.get(st, q, 0, PTR), p.get(st, q, 8, PTR); return Sub(e.i, b.i)
        def el(st, i):
            st = st._st if isinstance(st, LoopEnv) else st
            return p.ex.view(st, p.get(st, q, 0, PTR), m)[i]
    else:
        v = V5.vec(p, 'data', ty); q = v.q
        def size(st): return V5.size_of(v, st._st if isinstance(st, LoopEnv) else st)
        def el(st, i): return V5.elems(v, st)[i]
        def resize(ex, st, a, ins):
            n = ex.unsigned(st, a[1], 64); b = ex.new_array(st, 'resized', v.ty, n)
            ex.put(st, a[0], v.od, PTR, b); ex.put(st, a[0], v.os, I64, n); ex.put(st, a[0], v.oc, I64, n); return None
        p.model(r'^da_vector::da_vector<%s>::resize\(' % ty, resize)
    return q, el, size


CT = {'std::vector': r'std::vector<%s, std::allocator<%s> >', 'da_vector': r'da_vector::da_vector<%s>'}


def cname(kind, ty): return CT[kind] % ((ty, ty) if kind == 'std::vector' else ty)


def read_container(PP, kind, ty):
    s = Ser(PP).reader(); p = s.p; m, sv, k = SC[ty]; q, el, size = container(p, kind, ty)
    cnt = s.seen(p.st, I64, s.pos); g = p.i64('g', 0)
    start = Add(s.pos, 8)
    val = lambda st, i: back(ty, el(st, i), s.seen(st, sv, Add(start, Mul(k, i))))
    p.inv('position', lambda L, i: And(Le(0, i), Eq(s.at(L), Add(start, Mul(k, i))), Le(s.at(L), s.n), Le(i, cnt)))
    p.inv('size', lambda L, i: Eq(size(L), cnt))
    p.inv('elements', lambda L, i: Implies(Lt(g, i), val(L, g)))
    p.inv('status', lambda L, status: Eq(status, 0))

    def post(st, r):
        have = And(Le(start, s.n), Le(0, cnt), Le(cnt, Sub(s.n, start)), Le(Mul(k, cnt), Sub(s.n, start)))
        p.ensure(st, Eq(r, If(have, 0, s.c['invalid_file_data'])), 'accepted exactly when every element is there')
        p.ensure(st, And(Le(s.pos, s.at(st)), Le(s.at(st), s.n)), 'position stays inside')
        p.ensure(st, Implies(have, Eq(s.at(st), Add(start, Mul(k, cnt)))), 'position moves past the container')
        p.ensure(st, Implies(have, Eq(size(st), cnt)), 'as many elements as saved'); p.ensure(st, Implies(And(have, Lt(g, cnt)), val(st, g)), 'every element is the one saved')
    p.call(r'serialization_buffer::deserialize_data<%s ?>\(%s' % ((cname(kind, ty),) * 2), [s.o, q], post)



# ---------------------------------------------------------------- containers without a layout of their own (strings, vectors of vectors)
def opaque(p, rx, stride, ty=None, n=None):
    """contract of a container by its members resize, size and operator[]"""
    q = p.struct('data', 64); new = lambda st, c: p.ex.new_array(st, 'elements', ty, c) if ty else Ptr(p.ex.new_obj(st, 'elements', 'heap', stride, c).id)
    n = p.i64('old size', 0, 2**48) if n is None else n; p.put(q, 0, PTR, new(p.st, n)); p.put(q, 8, I64, n)
    st_ = lambda st: st._st if isinstance(st, LoopEnv) else st
    def resize(ex, st, a, ins):
        c = ex.unsigned(st, a[1], 64); ex.put(st, a[0], 0, PTR, new(st, c)); ex.put(st, a[0], 8, I64, c); return None
    def index(ex, st, a, ins):
        i = ex.unsigned(st, a[1], 64); ex.oblige(st, And(Le(0, i), Lt(i, ex.cell(st, a[0], 8, I64))), ex.oname(st, 'element-in-range'), 'memory')
        b = ex.cell(st, a[0], 0, PTR); return Ptr(b.o, Add(b.i, i), b.f)
    p.model(rx + r'::resize\(unsigned long\)$', resize); p.model(rx + r'::operator\[\]\(unsigned long\)', index)
    p.model(rx + r'::size\(\) const$', lambda ex, st, a, ins: ex.cell(st, a[0], 8, I64)); p.model(rx + r'::length\(\) const$', lambda ex, st, a, ins: ex.cell(st, a[0], 8, I64))
    return q, (lambda st: p.get(st_(st), q, 8, I64)), (lambda st: p.get(st_(st), q, 0, PTR))


RS = r'^std::__cxx11::basic_string<char, [^(]*>'


def read_string(PP):
    s = Ser(PP).reader(); p = s.p; q, size, base = opaque(p, RS, 1, INT(8))
    cnt = s.seen(p.st, I64, s.pos); g = p.i64('g', 0); start = Add(s.pos, 8)
    val = lambda st, i: Eq(p.ex.view(st._st if isinstance(st, LoopEnv) else st, base(st), INT(8))[i], s.seen(st, INT(8), Add(start, i)))
    p.inv('position', lambda L, i: And(Le(0, i), Eq(s.at(L), Add(start, i)), Le(s.at(L), s.n), Le(i, cnt)))
    p.inv('size', lambda L, i: Eq(size(L), cnt)); p.inv('characters', lambda L, i: Implies(Lt(g, i), val(L, g))); p.inv('status', lambda L, status: Eq(status, 0))

    def post(st, r):
        have = And(Le(start, s.n), Le(0, cnt), Le(cnt, Sub(s.n, start)))
        p.ensure(st, Eq(r, If(have, 0, s.c['invalid_file_data'])), 'accepted exactly when every character is there')
        p.ensure(st, And(Le(s.pos, s.at(st)), Le(s.at(st), s.n)), 'position stays inside'); p.ensure(st, Implies(have, Eq(s.at(st), Add(start, cnt))), 'position moves past the string')
        p.ensure(st, Implies(have, Eq(size(st), cnt)), 'as many characters as saved'); p.ensure(st, Implies(And(have, Lt(g, cnt)), val(st, g)), 'every character is the one saved')
    p.call(r'serialization_buffer::deserialize_data<%s ?>\(' % re.escape(STR), [s.o, q], post)


NEST = lambda ty: r'^std::vector<da_vector::da_vector<%s>, std::allocator<da_vector::da_vector<%s> ?> ?>' % (ty, ty)


def read_nested(PP, ty):
    """every inner vector is loaded from where the one before it ended; inner loads are their contract (proved above)"""
    s = Ser(PP).reader(); p = s.p; q, size, base = opaque(p, NEST(ty), 24)
    cnt = s.seen(p.st, I64, s.pos); g = p.i64('g', 0); start = Add(s.pos, 8)
    okf = z3.Function('loads', z3.IntSort(), z3.BoolSort()); nxt = z3.Function('next', z3.IntSort(), z3.IntSort()); P = z3.Function('inner', z3.IntSort(), z3.IntSort())
    p.requires(Eq(P(0), start)); p.requires(forall_any(lambda i: P(i + 1) == nxt(P(i)), pats=lambda i: [okf(P(i))]))
    def inner(ex, st, a, ins):
        x = s.at(st); x = tz(x); o2 = ex.fresh(st, I64, 'after'); ex.oblige(st, And(Le(0, x), Le(x, s.n)), ex.oname(st, 'position inside'), 'precondition')
        st.assume(And(Le(x, o2), Le(o2, s.n))); st.assume(Implies(okf(x), And(Eq(o2, nxt(x)), Le(Add(x, 8), o2))))
        ex.put(st, s.o, s.off('offset'), I64, o2); ex.put(st, a[1], 8, I64, x)
        return If(okf(x), 0, s.c['invalid_file_data'])
    p.model(r'serialization_buffer::deserialize_data<da_vector::da_vector<%s> ?>\(' % ty, inner)
    al = p.int('all', 0, 1); p.requires(Implies(Eq(al, 1), forall_any(lambda i: z3.Implies(z3.And(0 <= i, i < tz(cnt)), okf(P(i))), pats=lambda i: [okf(P(i))])))
    mark = lambda st, i: p.ex.cell(st._st if isinstance(st, LoopEnv) else st, Ptr(base(st).o, Add(base(st).i, i), 0), 8, I64)
    p.inv('position', lambda L, i: And(Le(0, i), Eq(s.at(L), P(tz(i))), Le(Add(start, Mul(8, i)), s.at(L)), Le(s.at(L), s.n), Le(i, cnt)))
    p.inv('size', lambda L, i: Eq(size(L), cnt)); p.inv('inner vectors', lambda L, i: Implies(Lt(g, i), And(okf(P(tz(g))), Eq(mark(L, g), P(tz(g)))))); p.inv('status', lambda L, status: Eq(status, 0))

    def post(st, r):
        head = And(Le(start, s.n), Le(0, cnt), Le(cnt, Sub(s.n, start)))
        p.ensure(st, Or(Eq(r, 0), Eq(r, s.c['invalid_file_data'])), 'status'); p.ensure(st, Implies(Eq(r, 0), head), 'count within the buffer')
        p.ensure(st, And(Le(s.pos, s.at(st)), Le(s.at(st), s.n)), 'position stays inside'); p.ensure(st, Implies(And(head, Eq(al, 1)), Eq(r, 0)), 'accepted when every inner vector loads')
        p.ensure(st, Implies(Eq(r, 0), And(Eq(size(st), cnt), Eq(s.at(st), P(tz(cnt))))), 'as many inner vectors as saved, position after the last')
        p.ensure(st, Implies(And(Eq(r, 0), Lt(g, cnt)), And(okf(P(tz(g))), Eq(mark(st, g), P(tz(g))))), 'every inner vector is loaded from its own place')
    p.call(r'serialization_buffer::deserialize_data<%s ?>\(' % NEST(ty)[1:], [s.o, q], post)


# ---------------------------------------------------------------- saving
class Out(Ser):
    """a buffer to save to: `len` bytes written of `size` reserved; the ghost cells remember what is written at positions of interest"""
    def writer(s, reserve=False):
        p = s.p; s.n = p.i64('size', 0, TOP); s.len = p.i64('written', 0); p.requires(Le(s.len, s.n))
        s.w, s.buf = p.vector('out', INT(8), s.len, p.i64('capacity', 0, TOP)); p.requires(Le(s.len, s.buf.count))
        s.put('write_buf', PTR, s.w); s.put('size', I64, s.n); s.put('mode', I32, 1); s.ghost = p.struct('ghost', 256); s.watched = []
        p.model(r'std::vector<char, std::allocator<char> >::insert<char const\*, void>\(', s.insert); p.model(r'^std::vector<char, std::allocator<char> >::size\(\) const', lambda ex, st, a, ins: s.written(st)); return s
    def watch(s, ty, pos):
        j = 16 * len(s.watched); s.watched.append((tykey(ty), ty, pos, j)); s.p.put(s.ghost, j, ty, s.p.ex.fresh(s.p.st, ty, 'unwritten') if ty.k == 'int' else z3.Const('unwritten%d' % j, s.p.ex.F.sort(ty)))
        return lambda st: s.p.get(st._st if isinstance(st, LoopEnv) else st, s.ghost, j, ty)
    def written(s, st):
        st = st._st if isinstance(st, LoopEnv) else st; return Sub(s.p.get(st, s.w, 8, PTR).i, s.p.get(st, s.w, 0, PTR).i)
    def insert(s, ex, st, a, ins):
        """vector<char>::insert(pos, first, last)"""
        p = s.p; w, pos, b, e = a; L = s.written(st)
        end = ex.cell(st, w, 8, PTR); ex.oblige(st, And(pos.o == end.o, Eq(pos.i, end.i)) if isinstance(pos, Ptr) else False, ex.oname(st, 'appended at the end'), 'precondition')
        if b.o != e.o: raise Unsupported('bytes of two objects')
        o = st.mem[b.o]
        if o.stride is None:
            if b.f != 0: raise Unsupported('part of an object')
            k, v = o.cells[0]; nb = e.f; ex.oblige(st, nb == tsize(k), ex.oname(st, 'exactly the bytes of the value'), 'memory'); cnt = 1; at = lambda i: v
        else:
            if b.f or e.f: raise Unsupported('part of an element')
            cnt = Sub(e.i, b.i); k = [x for x in o.arr][0][1]; ex.oblige(st, And(Le(0, b.i), Le(0, cnt), Le(e.i, o.count)), ex.oname(st, 'reads inside the array'), 'memory'); nb = Mul(cnt, tsize(k)); at = lambda i: ex.view(st, Ptr(b.o), T_OF[k])[Add(b.i, i)]
        ex.oblige(st, Le(Add(L, nb), s.n), ex.oname(st, 'within the space reserved'), 'memory')
        for key, ty, P, j in s.watched:
            if key != k: continue
            z = tsize(k); old = p.get(st, s.ghost, j, ty); d = Sub(P, L)
            inside = And(Le(0, d), Lt(d, nb), Eq(tz(d) % z, 0)) if o.stride is not None else Eq(d, 0)
            ex.put(st, s.ghost, j, ty, If(inside, at(tz(d) / z) if o.stride is not None else at(0), old))
        ex.put(st, w, 8, PTR, Ptr(end.o, Add(end.i, nb))); return end


T_OF = {tykey(t): t for t in (INT(8), I32, I64, FLOAT, DOUBLE)}


def valid(ty, x): return {'bool': And(Le(0, x), Le(x, 1))}.get(ty, Ge(x, 0) if ty.endswith('_') else True)


def write_scalar(PP, ty):
    s = Out(PP).writer(); p = s.p; m, sv, k = SC[ty]; d = p.array('data', m, 1); x = d.old[0]; p.requires(valid(ty, x)); got = s.watch(sv, s.len)

    def post(st, r):
        ok = Le(Add(s.len, k), s.n)
        p.ensure(st, Eq(r, If(ok, 0, s.c['internal_error'])), 'written exactly when there is room'); p.ensure(st, Eq(s.written(st), If(ok, Add(s.len, k), s.len)), 'bytes written')
        p.ensure(st, Implies(ok, Eq(got(st), x)), 'the value')
    p.call(r'serialization_buffer::serialize_data<%s ?>\(' % ty, [s.o, d], post)


def write_container(PP, kind, ty):
    s = Out(PP).writer(); p = s.p; m, sv, k = SC[ty]
    if kind == 'string':
        n = p.i64('n', 0, 2**48); q, size, base = opaque(p, RS, 1, INT(8), n=n); el = lambda i: p.ex.view(p.st, base(p.st), INT(8))[i]; rx = re.escape(STR)
    else:
        q, e, size = container(p, kind, ty); n = size(p.st); el = lambda i: e(p.st, i); rx = cname(kind, ty)
    p.requires(Le(n, 2**48)); g = p.i64('g', 0); p.requires(Lt(g, n)); gz = p.int('count of none', 0, 0)
    got = s.watch(sv, Add(s.len, 8, ) if False else Add(Add(s.len, 8), Mul(k, g))); cnt = s.watch(I64, s.len); last = Add(Add(s.len, 8), Mul(k, n))
    p.requires(valid(ty, el(g)))
    p.inv('written', lambda L, i: And(Le(0, i), Le(i, n), Eq(s.written(L), Add(Add(s.len, 8), Mul(k, i))), Le(s.written(L), s.n)))
    p.inv('elements', lambda L, i: Implies(Lt(g, i), Eq(got(L), el(g)))); p.inv('count', lambda L, i: Eq(cnt(L), n)); p.inv('status', lambda L, status: Eq(status, 0))

    def post(st, r):
        ok = Le(last, s.n); p.ensure(st, Eq(r, If(ok, 0, s.c['internal_error'])), 'written exactly when there is room')
        p.ensure(st, Implies(ok, Eq(s.written(st), last)), 'bytes written'); p.ensure(st, Implies(ok, And(Eq(cnt(st), n), Eq(got(st), el(g)))), 'the count, then every element'); p.ensure(st, Le(s.written(st), s.n), 'never beyond the space reserved')
    p.call(r'serialization_buffer::serialize_data<%s ?>\(' % rx, [s.o, q], post)


def write_nested(PP, ty):
    s = Out(PP).writer(); p = s.p; n = p.i64('n', 0, 2**48); q, size, base = opaque(p, NEST(ty), 24, n=n); g = p.i64('g', 0); p.requires(Lt(g, n)); k = SC[ty][2]
    ln = z3.Function('length', z3.IntSort(), z3.IntSort()); S = z3.Function('before', z3.IntSort(), z3.IntSort()); e0 = p.ex.view(p.st, p.get(p.st, q, 0, PTR), I64) if False else None
    p.requires(Eq(S(0), 0)); p.requires(forall_any(lambda i: z3.Implies(i >= 0, z3.And(S(i + 1) == S(i) + 8 + k * ln(i), ln(i) >= 0, ln(i) < 2**40, S(i) >= 0)), pats=lambda i: [ln(i)]))
    where = p.struct('where', 16); p.put(where, 0, I64, p.i64('nowhere')); pos = lambda st: p.get(st._st if isinstance(st, LoopEnv) else st, where, 0, I64); cnt = s.watch(I64, s.len)
    def inner(ex, st, a, ins):
        i = a[1].i; L = s.written(st); nb = Add(8, Mul(k, ln(tz(i)))); room = Le(Add(L, nb), s.n)
        ex.put(st, where, 0, I64, If(Eq(i, g), L, pos(st))); end = ex.cell(st, s.w, 8, PTR); part = ex.fresh(st, I64, 'part'); st.assume(And(Le(0, part), Le(Add(L, part), s.n)))
        ex.put(st, s.w, 8, PTR, Ptr(end.o, Add(end.i, If(room, nb, part)))); return If(room, 0, s.c['internal_error'])
    p.model(r'serialization_buffer::serialize_data<da_vector::da_vector<%s> ?>\(' % ty, inner)
    start = Add(s.len, 8); last = Add(start, S(tz(n)))
    p.requires(forall_any(lambda i: z3.Implies(z3.And(0 <= i, i < tz(n)), S(i + 1) <= S(tz(n))), pats=lambda i: [ln(i)]))
    p.inv('written', lambda L, i: And(Le(0, i), Le(i, n), Eq(s.written(L), Add(start, S(tz(i)))), Le(s.written(L), s.n)))
    p.inv('inner', lambda L, i: Implies(Lt(g, i), Eq(pos(L), Add(start, S(tz(g)))))); p.inv('count', lambda L, i: Eq(cnt(L), n)); p.inv('status', lambda L, status: Eq(status, 0))

    def post(st, r):
        ok = Le(last, s.n); p.ensure(st, Eq(r, If(ok, 0, s.c['internal_error'])), 'written exactly when there is room'); p.ensure(st, Implies(ok, Eq(s.written(st), last)), 'bytes written')
        p.ensure(st, Implies(ok, And(Eq(cnt(st), n), Eq(pos(st), Add(start, S(tz(g)))))), 'every inner vector in its own place')
    p.call(r'serialization_buffer::serialize_data<%s ?>\(' % NEST(ty)[1:], [s.o, q], post)


def sizes(PP, kind, ty):
    s = Ser(PP); p = s.p
    if kind == 'scalar': d = p.array('data', SC[ty][0], 1); p.call(r'get_type_size<%s ?>\(' % ty, [d], lambda st, r: p.ensure(st, Eq(r, SC[ty][2]), 'bytes written')); return
    if kind == 'string': n = p.i64('n', 0, 2**48); q, size, base = opaque(p, RS, 1, INT(8), n=n); rx = re.escape(STR)
    else: q, e, size = container(p, kind, ty); n = size(p.st); rx = cname(kind, ty)
    p.requires(Le(n, 2**48)); p.call(r'get_type_size<%s ?>\(' % rx, [q], lambda st, r: p.ensure(st, Eq(r, Add(8, Mul(SC[ty][2], n))), 'bytes written'))


def sizes_nested(PP, ty):
    s = Ser(PP); p = s.p; n = p.i64('n', 0, 2**48); k = SC[ty][2]; q = p.struct('data', 24); o = p.ex.new_obj(p.st, 'elements', 'heap', 24, n)
    p.put(q, 0, PTR, Ptr(o.id)); p.put(q, 8, PTR, Ptr(o.id, n)); p.put(q, 16, PTR, Ptr(o.id, n))
    ln = z3.Function('length', z3.IntSort(), z3.IntSort()); S = z3.Function('before', z3.IntSort(), z3.IntSort())
    p.requires(Eq(S(0), 0)); p.requires(forall_any(lambda i: z3.Implies(i >= 0, z3.And(S(i + 1) == S(i) + 8 + k * ln(i), ln(i) >= 0, ln(i) < 2**40, S(i) >= 0)), pats=lambda i: [ln(i)])); p.requires(forall_any(lambda i: z3.Implies(z3.And(0 <= i, i <= tz(n)), z3.And(S(i) >= 0, S(i) < 2**61)), pats=lambda i: [S(i)]))
    p.model(r'get_type_size<da_vector::da_vector<%s> ?>\(' % ty, lambda ex, st, a, ins: Add(8, Mul(k, ln(tz(a[0].i)))))
    V = NEST(ty)
    p.model(V + r'::begin\(\) const', lambda ex, st, a, ins: ex.cell(st, a[0], 0, PTR)); p.model(V + r'::end\(\) const', lambda ex, st, a, ins: ex.cell(st, a[0], 8, PTR))
    def total(L, total_size):     # for the iterator of the range-based loop
        i = [v[1].i for j in L._st.mem if j != q.o for v in L._st.mem[j].cells.values() if isinstance(v[1], Ptr) and v[1].o == o.id and not Eq(v[1].i, n) is True and not (z3.is_expr(v[1].i) and v[1].i.eq(tz(n)))]
        if not i: raise KeyError('iterator')
        return And(Le(0, i[0]), Le(i[0], n), Eq(total_size, Add(8, S(tz(i[0])))))
    p.inv('total', total)
    def post(st, r): p.ensure(st, Eq(r, Add(8, S(tz(n)))), 'bytes written')
    p.call(r'get_type_size<%s ?>\(' % V[1:], [q], post)


def add_size(PP):
    s = Ser(PP); p = s.p; n = p.i64('size', 0, TOP); v = p.i64('value', 0, TOP); mode = p.int('mode', 0, 2); s.put('size', I64, n); s.put('mode', I32, mode)
    def post(st, r):
        ok = And(Eq(mode, 0), Le(Add(n, v), 2**31 - 1)); p.ensure(st, Eq(Eq(r, 0), ok) if False else And(Implies(ok, Eq(r, 0)), Implies(Not(ok), Ne(r, 0))), 'refused when not reserving or beyond the largest model')
        p.ensure(st, Eq(s.get(st, 'size', I64), If(ok, Add(n, v), n)), 'size reserved')
    p.call(r'serialization_buffer::add_size\(', [s.o, v], post)


def dispatch(PP, kind, ty, mode):
    """the three phases agree: what is reserved is what get_type_size says, writing writes, loading loads"""
    s = Ser(PP); p = s.p; rx = ty if kind == 'scalar' else re.escape(STR) if kind == 'string' else cname(kind, ty) if kind != 'nested' else NEST(ty)[1:]
    n = p.i64('size', 0, 2**31 - 1); s.put('size', I64, n); s.put('mode', I32, mode); d = p.struct('data', 64); z = p.i64('bytes', 0, 2**61); ret = p.int('callee'); lg = p.struct('log', 16); p.put(lg, 0, I32, 0)
    def note(k):
        def f(ex, st, a, ins):
            ex.oblige(st, And(a[0].o == s.o.o, a[1].o == d.o), ex.oname(st, 'the same buffer and data'), 'precondition'); ex.put(st, lg, 0, I32, Add(Mul(ex.cell(st, lg, 0, I32), 4), k)); return ret
        return f
    p.model(r'get_type_size<%s ?>\(' % rx, lambda ex, st, a, ins: z); p.model(r'serialization_buffer::serialize_data<%s ?>\(' % rx, note(1)); p.model(r'serialization_buffer::deserialize_data<%s ?>\(' % rx, note(2))
    def post(st, r):
        p.ensure(st, Eq(p.get(st, lg, 0, I32), mode), 'exactly one phase runs'); ok = Le(Add(n, z), 2**31 - 1)
        p.ensure(st, And(Implies(ok, Eq(r, 0)), Implies(Not(ok), Ne(r, 0)), Eq(s.get(st, 'size', I64), If(ok, Add(n, z), n))) if mode == 0 else Eq(r, ret), 'outcome')
    p.call(r'serialization_buffer::dispatch_buffer_io<%s ?>\(' % rx, [s.o, d], post)


def user(PP, ty, order, one):
    """m x n user data with padding: the logical elements, densely, in storage order"""
    s = Out(PP).writer(); p = s.p; m_, sv, k = SC[ty]; m, n, ld = p.int('m', 0), p.int('n', 0), p.int('ldx', 1)
    if one: p.requires(Eq(n, 1)); order = p.int('order', 0, 1); inner, outer = m, n
    else: p.requires(Ne(n, 1)); inner, outer = (m, n) if order == 1 else (n, m)
    p.requires(Le(inner, ld)); total = Mul(inner, outer); X = p.array('X', m_, Mul(outer, ld)); G, H = p.i64('G', 0), p.i64('H', 0); p.requires(And(Lt(G, outer), Lt(H, inner)))
    p.requires(And(Le(Add(Mul(G, ld), inner), Mul(outer, ld)), Le(Add(Mul(G, inner), inner), total), Le(0, Mul(G, inner)), Le(0, Mul(G, ld)), Le(0, total)))
    start = Add(s.len, 8); got = s.watch(sv, Add(start, Mul(k, Add(Mul(G, inner), H)))); cnt = s.watch(I64, s.len); x = X.old[Add(Mul(G, ld), H)]; last = Add(start, Mul(k, total))
    p.put(s.o, s.off('mode'), I32, 1)
    p.inv('written', lambda L, i: And(Le(0, i), Le(i, outer), Eq(s.written(L), Add(start, Mul(k, Mul(i, inner)))), Le(s.written(L), s.n)))
    p.inv('element', lambda L, i: Implies(Lt(G, i), Eq(got(L), x))); p.inv('count', lambda L, i: Eq(cnt(L), total)); p.inv('status', lambda L, status: Eq(status, 0))
    if ty == 'int':     # converted one by one: the contract of serialize_user_data_impl<int>, proved by itself
        def impl(ex, st, a, ins):
            b, c = a[1], a[2]; o = st.mem[b.o]; ex.oblige(st, And(Le(0, c), Le(0, b.i), Le(Add(b.i, c), o.count)), ex.oname(st, 'the elements exist'), 'precondition')
            L = s.written(st); nb = Mul(8, c); room = Le(Add(L, nb), s.n); P = s.watched[0][2]; d = Sub(P, L); part = ex.fresh(st, I64, 'part'); st.assume(And(Le(0, part), Le(Add(L, part), s.n)))
            old = got(st); junk = ex.fresh(st, I64, 'junk'); ex.put(st, s.ghost, 0, I64, If(room, If(And(Le(0, d), Lt(d, nb), Eq(tz(d) % 8, 0)), ex.view(st, Ptr(b.o), I32)[Add(b.i, tz(d) / 8)], old), junk))
            end = ex.cell(st, s.w, 8, PTR); ex.put(st, s.w, 8, PTR, Ptr(end.o, Add(end.i, If(room, nb, part)))); return If(room, 0, s.c['internal_error'])
        p.model(r'serialization_buffer::serialize_user_data_impl<int>\(', impl)
    def post(st, r):
        fits = Le(total, 2**31 - 1); ok = And(fits, Le(last, s.n))
        p.ensure(st, Implies(Not(fits), Ne(r, 0)), 'more elements than a model holds are refused'); p.ensure(st, Implies(fits, Eq(Eq(r, 0), ok) if False else And(Implies(ok, Eq(r, 0)), Implies(Not(ok), Ne(r, 0)))), 'written exactly when there is room')
        p.ensure(st, Implies(ok, Eq(s.written(st), last)), 'bytes written'); p.ensure(st, Implies(ok, And(Eq(cnt(st), total), Eq(got(st), x))), 'element (G, H)'); p.ensure(st, Le(s.written(st), s.n), 'never beyond the space reserved')
    p.call(r'serialization_buffer::serialize_user_data<%s ?>\(' % ty, [s.o, X, order, m, n, ld], post)


def user_impl(PP):
    s = Out(PP).writer(); p = s.p; c = p.int('inner_dim', 0); X = p.array('X', I32, c); g = p.i64('g', 0); p.requires(Lt(g, c)); got = s.watch(I64, Add(s.len, Mul(8, g)))
    p.inv('written', lambda L, j: And(Le(0, j), Le(j, c), Eq(s.written(L), Add(s.len, Mul(8, j))), Le(s.written(L), s.n))); p.inv('element', lambda L, j: Implies(Lt(g, j), Eq(got(L), X.old[g]))); p.inv('status', lambda L, status: Eq(status, 0))
    def post(st, r):
        ok = Le(Add(s.len, Mul(8, c)), s.n); p.ensure(st, Eq(r, If(ok, 0, s.c['internal_error'])), 'written exactly when there is room'); p.ensure(st, And(Le(s.len, s.written(st)), Le(s.written(st), s.n)), 'never beyond the space reserved')
        p.ensure(st, Implies(ok, And(Eq(s.written(st), Add(s.len, Mul(8, c))), Eq(got(st), X.old[g]))), 'every element')
    p.call(r'serialization_buffer::serialize_user_data_impl<int>\(', [s.o, X, c], post)


def proofs(tier):
    l = [Proof('load %s' % t, read_scalar, t) for t in SC]
    l += [Proof('load %s<%s>' % (k, t), read_container, k, t) for k in CT for t in ('int', 'float', 'double')]
    l += [Proof('load string', read_string)] + [Proof('load vector of da_vector<%s>' % t, read_nested, t) for t in ('int', 'float', 'double')]
    l += [Proof('save %s' % t, write_scalar, t) for t in SC] + [Proof('save %s<%s>' % (k, t), write_container, k, t) for k in CT for t in ('int', 'float', 'double')] + [Proof('save string', write_container, 'string', 'char')]
    l += [Proof('save vector of da_vector<%s>' % t, write_nested, t) for t in ('int', 'float', 'double')]
    l += [Proof('size of %s' % t, sizes, 'scalar', t) for t in ('bool', 'int', 'float', 'double', 'da_order_', 'da_metric_')] + [Proof('size of %s<%s>' % (k, t), sizes, k, t) for k in CT for t in ('int', 'float', 'double')] + [Proof('size of string', sizes, 'string', 'char')]
    l += [Proof('size of vector of da_vector<%s>' % t, sizes_nested, t) for t in ('int', 'float', 'double')]
    l += [Proof('add_size', add_size)]
    l += [Proof('dispatch %s %s phase %d' % (k, t, m), dispatch, k, t, m) for k, t in [('scalar', t) for t in ('bool', 'int', 'float', 'double', 'da_order_')] + [(k, t) for k in CT for t in ('int', 'float', 'double')] + [('string', 'char')] + [('nested', t) for t in ('int', 'float', 'double')] for m in (0, 1, 2)]
    l += [Proof('user data<%s> %s' % (t, o), user, t, i, o == 'one column') for t in ('int', 'float', 'double') for i, o in ((0, 'rows'), (1, 'columns'), (1, 'one column'))]
    l.append(Proof('user data row<int>', user_impl))
    return l


# ---------------------------------------------------------------- real code on concrete inputs
RULE = 'random sequences of values (scalars, enumerations, strings, vectors, vectors of vectors, padded user data), sizes 0 to 40, with and without the header: saved, loaded back, loaded from every (or random) prefix and with any 8 bytes overwritten by an extreme length'
BOUNDED = 'every saved item is loaded back equal bit for bit, the space reserved equals the bytes written, every strict prefix is refused, damaged buffers end in a status; the bytes to load end at an unmapped page'
KINDS = 20


def native_build(): build.so('persist', ['units/n_persist.cpp', U, 'utilities/miscellaneous.cpp', 'utilities/da_utils.cpp', 'dynamic_dispatch/context.cpp', 'basic_statistics/row_to_col_major.cpp'])


def native_load():
    l = load('persist'); l.ps_save.restype = ctypes.c_long; return l


def item(rng, kind):
    w = lambda: rng.choice([0., 1., -1., 2.**31 - 1, -2.**31, rng.uniform(-9, 9), float(rng.randrange(-99, 99))])
    iv = lambda: float(rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randrange(-99, 99)]))
    sz = lambda: rng.choice([0, 0, 1, 1, 2, 3, 7, rng.randrange(40)])
    val = iv if kind in (1, 6, 9, 12, 15) else w
    if kind == 0: return dict(k=kind, n=1, v=[float(rng.randrange(2))], l=[])
    if kind == 4: return dict(k=kind, n=1, v=[float(rng.randrange(2))], l=[])
    if kind in (18, 19): return dict(k=kind, n=1, v=[float(rng.randrange(3))], l=[])
    if kind < 5: return dict(k=kind, n=1, v=[val()], l=[])
    if kind == 5: n = sz(); return dict(k=kind, n=n, v=[float(rng.randrange(-128, 128)) for _ in range(n)], l=[])
    if kind < 12: n = sz(); return dict(k=kind, n=n, v=[val() for _ in range(n)], l=[])
    if kind < 15: l = [sz() for _ in range(rng.choice([0, 1, 2, 5]))]; return dict(k=kind, n=0, v=[val() for _ in range(sum(l))], l=l)
    m, n, o = rng.choice([1, 1, 2, 5, rng.randrange(1, 9)]), rng.choice([1, 1, 2, 3, rng.randrange(1, 9)]), rng.randrange(2)
    ld = (m if o or n == 1 else n) + rng.choice([0, 0, 1, 3]); cnt = ld * (n if o or n == 1 else m)
    return dict(k=kind, n=0, v=[val() for _ in range(cnt)], l=[m, n, ld, o, 1 if rng.random() < .1 else 0])


def cases(rng, hints, tier, seed):
    while True:
        k = rng.choice([1, 1, 2, 3, 5, 9]); yield dict(items=[item(rng, rng.randrange(KINDS)) for _ in range(k)], meta=rng.randrange(2), s=rng.randrange(2**30))


PAGE = 16384


def guarded():
    if not hasattr(guarded, 'a'):
        libc = ctypes.CDLL(None); libc.mmap.restype = ctypes.c_void_p; libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        a = libc.mmap(None, PAGE + 4096, 3, 0x22, -1, 0); libc.mprotect(ctypes.c_void_p(a + PAGE), 4096, 0); guarded.a = a
    return guarded.a


def run_case(lib, c):
    T = c['items']; L = lambda x: (ctypes.c_long * max(len(x), 1))(*x); D = lambda x: (ctypes.c_double * max(len(x), 1))(*x)
    vs = sum((t['v'] for t in T), []); ls = sum((t['l'] for t in T), [])
    args = [len(T), (ctypes.c_int * len(T))(*[t['k'] for t in T]), L([t['n'] for t in T]), L([len(t['v']) for t in T]), D(vs), L([len(t['l']) for t in T]), L(ls)]
    out = ctypes.create_string_buffer(PAGE); n = lib.ps_save(*args, out, ctypes.c_long(PAGE), c['meta'])
    if n == -1002: return None
    names = 'bool int float double enum string vector<int> vector<float> vector<double> da_vector<int> da_vector<float> da_vector<double> vectors<int> vectors<float> vectors<double> user<int> user<float> user<double> metric model'.split()
    what = '%s%s' % (', '.join('%s(%s)' % (names[t['k']], t['l'] or t['n']) for t in T), ' with header' if c['meta'] else '')
    if n < 0: return '%s: %s' % (what, {-1000: 'the space reserved is not what is written', -1001: 'the buffer moved while it was written', -1003: 'written beyond the space reserved'}.get(n, 'saving failed with status %d' % -n))
    raw = out.raw[:n]; a = guarded(); done = ctypes.c_int()
    def ld(b):
        p = a + PAGE - len(b); ctypes.memmove(p, b, len(b)); return lib.ps_load(*args, ctypes.c_void_p(p), ctypes.c_long(len(b)), c['meta'], ctypes.byref(done))
    if n == 0: return None
    r = ld(raw)
    if r: return '%s: loading what was saved gives %s (after %d items)' % (what, 'other values' if r == -1 else 'status %d' % r, done.value)
    rng = random.Random(c['s'])
    for q in (range(1, n) if n < 60 else sorted(rng.sample(range(1, n), 40))):
        r = ld(raw[:q])
        if r == 0: return '%s: the first %d of %d bytes load as if complete' % (what, q, n)
        if r == -1: return '%s: the first %d of %d bytes load as other values' % (what, q, n)
    for _ in range(20):
        if n < 8: break
        at = rng.randrange(n - 7); x = rng.choice([2**63 - 1, -1, -2**63, 2**61, 2**60 + 1, n - at - 7, n - at - 8, n, n + 1, 2**31, 2**32, 2**32 + 1, rng.randrange(2**20)])
        ld(raw[:at] + x.to_bytes(8, 'little', signed=True) + raw[at + 8:])     # any status; a read outside the buffer ends the process
    return None
