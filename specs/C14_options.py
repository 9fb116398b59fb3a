"""C14 options: an option only ever holds a value it may hold; names and labels match canonically."""
import ctypes, math, struct
from vc.proof import *
from vc import build
from vc.native import load, Buf
from specs.C01_split import status_codes

U = 'units/p_opt.cpp'
UNITS = [U]
SD = ('-fstandalone-debug',)
ASSUMPTIONS = ['the registry and label maps are their specification (find returns the entry of the key or end)', 'strings are abstract values: copies are equal, prep_str is a function of the text (its regular expressions are checked on concrete texts only)',
               'an option object satisfies its class invariant (type tag of its class; bounds not NaN) before the call, as its constructor establishes', 'error texts have no effect on option values']
NUM = {'int': I32, 'float': FLOAT, 'double': DOUBLE, 'bool': I8}
TAG = {'int': 1, 'float': 2, 'double': 3, 'string': 4, 'bool': 5}
F = FFP()


def opt(p, ty):
    """an option of the class with arbitrary (not NaN) bounds and bound kinds"""
    t = NUM[ty]; o = p.struct('option', 512); C = 'OptionNumeric<%s>' % ty; G = types.SimpleNamespace(o=o, ty=ty, t=t)
    G.off = {k: p.field(C, k) for k in ('value', 'vdefault', 'lower', 'lbound', 'upper', 'ubound')}; G.off['otype'] = p.field('OptionBase', 'otype'); G.off['setby'] = p.field('OptionBase', 'setby')
    for k in ('value', 'lower', 'upper'):
        v = p.int(k, 0, 1) if ty == 'bool' else p.int(k) if ty == 'int' else p.ex.fresh(p.st, t, k)
        if ty in ('float', 'double') and k != 'value': p.requires(Not(z3.fpIsNaN(v)))
        setattr(G, k, v); p.put(o, G.off[k], t, v)
    G.lb, G.ub, G.sb = p.int('lbound', 0, 2), p.int('ubound', 0, 2), p.int('setby', 0, 2)
    p.put(o, G.off['lbound'], I32, G.lb); p.put(o, G.off['ubound'], I32, G.ub); p.put(o, G.off['setby'], I32, G.sb)
    G.tag = TAG[ty]; p.put(o, G.off['otype'], I32, G.tag)
    return G


def new_value(p, ty): return p.int('new', 0, 1) if ty == 'bool' else p.int('new') if ty == 'int' else p.ex.fresh(p.st, NUM[ty], 'new')


def allowed(G, v):
    """the documented meaning of the bounds (booleans have none; NaN is within none)"""
    if G.ty == 'bool': return True
    c = (lambda op, a, b: F.cmp('o' + op, a, b)) if G.ty != 'int' else (lambda op, a, b: {'gt': Gt, 'ge': Ge, 'lt': Lt, 'le': Le}[op](a, b))
    r = And(Implies(Eq(G.lb, 1), c('gt', v, G.lower)), Implies(Eq(G.lb, 2), c('ge', v, G.lower)), Implies(Eq(G.ub, 1), c('lt', v, G.upper)), Implies(Eq(G.ub, 2), c('le', v, G.upper)))
    return r if G.ty == 'int' else And(r, Not(z3.fpIsNaN(v)))


def same(a, b): return tz(a) == tz(b)


def untouched(p, s, G, but=()):
    e = [Eq(p.get(s, G.o, G.off['otype'], I32), G.tag), Eq(p.get(s, G.o, G.off['lbound'], I32), G.lb), Eq(p.get(s, G.o, G.off['ubound'], I32), G.ub)]
    e += [same(p.get(s, G.o, G.off[k], G.t), getattr(G, k)) for k in ('lower', 'upper')]
    if 'value' not in but: e += [same(p.get(s, G.o, G.off['value'], G.t), G.value)]
    if 'setby' not in but: e += [Eq(p.get(s, G.o, G.off['setby'], I32), G.sb)]
    return And(*e)


def outcome(p, s, G, v, x, by, c):
    ok = allowed(G, x)
    p.ensure(s, Eq(v, If(ok, 0, c['option_invalid_value'])), 'accepted exactly when within the bounds')
    p.ensure(s, Implies(Eq(v, 0), And(same(p.get(s, G.o, G.off['value'], G.t), x), Eq(p.get(s, G.o, G.off['setby'], I32), by))), 'holds the value set')
    p.ensure(s, untouched(p, s, G, ('value', 'setby')), 'bounds and type unchanged')
    p.ensure(s, Implies(Not(Eq(v, 0)), untouched(p, s, G)), 'a refused value changes nothing')


def setter(PP, ty):
    p = PP(U, 'fp', SD); c = status_codes(); G = opt(p, ty); x, by = new_value(p, ty), p.int('by', 0, 2)
    p.call(r'OptionNumeric<%s>::set\(' % ty, [G.o, x if ty != 'bool' else tz(x) != 0, by], lambda s, v: outcome(p, s, G, v, x, by, c))


def getter(PP, ty):
    p = PP(U, 'fp', SD); G = opt(p, ty); out = p.array('out', NUM[ty], 1)
    def post(s, v): p.ensure(s, same(out.now(s)[0], G.value), 'reads the value'); p.ensure(s, untouched(p, s, G), 'changes nothing')
    p.call(r'OptionNumeric<%s>::get\(' % ty, [G.o, out], post)


def loaded(PP, ty):
    """loading from a file: the value is one that could have been set, or a status is returned and nothing changes"""
    p = PP(U, 'fp', SD); c = status_codes(); G = opt(p, ty); x = new_value(p, ty); rs = p.int('read status', 0, 200); buf = p.struct('buffer', 256)
    def read(ex, st, a, ins): ex.store(st, a[1], NUM[ty], x); return rs
    p.model(r'serialization_buffer::deserialize_data<%s>' % ty, read)
    def post(s, v):
        ok = allowed(G, x)
        p.ensure(s, Implies(Eq(v, 0), And(Eq(rs, 0), ok, same(p.get(s, G.o, G.off['value'], G.t), x))), 'a loaded value is within the bounds')
        p.ensure(s, Implies(And(Eq(rs, 0), ok), Eq(v, 0)), 'a valid value is loaded')
        p.ensure(s, Implies(Not(Eq(v, 0)), untouched(p, s, G)), 'a refused file changes nothing'); p.ensure(s, untouched(p, s, G, ('value',)), 'only the value changes')
    p.call(r'OptionNumeric<%s>::deserialize_option\(' % ty, [G.o, buf], post)


def constructor(PP, ty):
    """a constructed option holds its default, which is within its (sensible) bounds"""
    p = PP(U, 'fp', SD); c = status_codes(); G = opt(p, ty); x = new_value(p, ty); S = [p.struct(k, 32) for k in ('name', 'desc', 'vddesc')]; strict = p.int('strict', 0, 1); tokens(p)
    lo, up = (p.int('lo'), p.int('up')) if ty == 'int' else (p.ex.fresh(p.st, NUM[ty], k) for k in ('lo', 'up')) if ty != 'bool' else (0, 1)
    lb, ub = p.int('lb', 0, 2), p.int('ub', 0, 2); p.model(r'basic_string<.*>::(empty|size|length)', lambda ex, st, a, ins: ex.fresh(st, ins.ty, 'str') if ins.ty.n > 1 else Not(Eq(ex.fresh_int(st, 8, 'empty'), 0)))
    def post(s, v):
        g = lambda k, t: p.get(s, G.o, G.off[k], t)
        p.ensure(s, Eq(g('otype', I32), TAG[ty]), 'type tag'); p.ensure(s, And(same(g('value', G.t), x), same(g('vdefault', G.t), x), Eq(g('setby', I32), 0)), 'holds its default')
        if ty == 'bool': return
        H = types.SimpleNamespace(ty=ty, lower=lo, upper=up, lb=lb, ub=ub)
        p.ensure(s, And(same(g('lower', G.t), lo), same(g('upper', G.t), up), Eq(g('lbound', I32), lb), Eq(g('ubound', I32), ub)), 'bounds as given')
        p.ensure(s, allowed(H, x), 'the default is within the bounds')
        if ty != 'int': p.ensure(s, And(Not(z3.fpIsNaN(lo)), Not(z3.fpIsNaN(up))), 'bounds are numbers')
    b = tz(strict) != 0
    p.call(r'OptionNumeric<%s>::OptionNumeric\(' % ty, [G.o, S[0], S[1], tz(x) != 0, b] if ty == 'bool' else [G.o, S[0], S[1], lo, lb, up, ub, x, S[2], b], post)


# ---- strings as abstract values
def tokens(p):
    key = lambda q: ('tok', q.o, str(q.i), q.f)
    p.tok = lambda st, q: st.g.get(key(q))
    def settok(st, q, v): st.g[key(q)] = v
    p.settok = settok
    STR = r'^std::__cxx11::basic_string<char, [^()]*>::'
    def copy(ex, st, a, ins): settok(st, a[0], p.tok(st, a[1])); return a[0] if ins.ty.k == 'ptr' else None
    p.model(STR + r'(basic_string|operator=)\(std::__cxx11::basic_string<char, [^()]*> (const&|&&)\)', copy)
    p.model(STR + r'(basic_string|operator=)\(std::__cxx11::basic_string<char, [^()]*>(&&|&)\)', copy)
    def lit(ex, st, a, ins): settok(st, a[0], 'literal'); return a[0] if ins.ty.k == 'ptr' else None
    p.model(STR + r'operator=\(char const\*\)', lit)
    def ctor(ex, st, a, ins): settok(st, a[0], p.tok(st, a[1]) or 'literal'); return a[0] if ins.ty.k == 'ptr' else None
    p.model(STR + r'basic_string<.*>\(char const\*', ctor)
    def prep(ex, st, a, ins):
        t = p.tok(st, a[0]); settok(st, a[0], ('canonical', t) if not (isinstance(t, tuple) and t[0] == 'canonical') else t)
    p.model(r'OptionUtils::prep_str', prep)


def lookup(p, rx_map, rx_it, entry):
    """find in a map keyed by text: the entry if the text (or, looked up again, its canonical form) is a key"""
    F1, F2 = z3.Bool('is a key'), z3.Bool('canonical form is a key'); end = p.struct('end', 8)
    def find(ex, st, a, ins):
        t = p.tok(st, a[1]); f = F1 if t == 'name' else F2 if t == ('canonical', 'name') else None
        if f is None: raise Unsupported('looked up %r' % (t,))
        s2 = st.clone(); s2.assume(Not(f)); st.assume(f)
        return Alts([(st, entry), (s2, end)])
    p.model(rx_map + r'::find\(', find); p.model(rx_map + r'::c?end\(', lambda ex, st, a, ins: end)
    def eq(neg):
        def h(ex, st, a, ins):
            x, y = (ex.load(st, q, PTR) for q in a); return (x.o == y.o) != neg
        return h
    p.model(r'operator==\(' + rx_it, eq(False)); p.model(r'operator!=\(' + rx_it, eq(True))
    p.model(rx_it + r'[^(]*::operator==\(', eq(False)); p.model(rx_it + r'[^(]*::operator!=\(', eq(True))
    p.model(rx_it + r'[^(]*::operator->\(', lambda ex, st, a, ins: ex.load(st, a[0], PTR))
    p.model(rx_it + r'[^(]*::_Node_(const_)?iterator\(|' + rx_it + r'[^(]*::_Rb_tree_(const_)?iterator\(', lambda ex, st, a, ins: ex.store(st, a[0], PTR, ex.load(st, a[1], PTR)))
    return F1, F2


def registry(p, G):
    R = p.struct('registry', 256); ro = p.int('readonly', 0, 1); p.put(R, p.field('OptionRegistry', 'readonly'), I8, ro)
    entry = p.struct('pair', 48); F1, F2 = lookup(p, r'unordered_map<.*>', r'std::__detail::_Node_(const_)?iterator', entry)
    p.model(r'__shared_ptr_access<.*>::(operator->|operator\*|_M_get)', lambda ex, st, a, ins: G.o); p.model(r'^std::(__)?shared_ptr<.*>::~|^std::(__)?shared_ptr<.*>::(__)?shared_ptr', lambda ex, st, a, ins: None)
    p.model(r'static_pointer_cast|dynamic_pointer_cast', lambda ex, st, a, ins: None)
    name = p.struct('name', 32); tokens(p); p.settok(p.st, name, 'name')
    G.tag = p.int('type tag', 1, 5); p.put(G.o, G.off['otype'], I32, G.tag)
    return R, ro, name, Or(F1, F2)


def reg_set(PP, ty):
    p = PP(U, 'fp', SD); c = status_codes(); G = opt(p, ty); R, ro, name, found = registry(p, G); x, by = new_value(p, ty), p.int('by', 0, 2)
    def post(s, v):
        right = Eq(G.tag, TAG[ty])
        p.ensure(s, Implies(Eq(ro, 1), Eq(v, c['option_locked'])), 'locked registry'); p.ensure(s, Implies(And(Eq(ro, 0), Not(found)), Eq(v, c['option_not_found'])), 'unknown name')
        p.ensure(s, Implies(And(Eq(ro, 0), found, Not(right)), Eq(v, c['option_wrong_type'])), 'wrong type')
        p.ensure(s, Implies(And(Eq(ro, 0), found, right), Eq(v, If(allowed(G, x), 0, c['option_invalid_value']))), 'otherwise the bounds decide')
        p.ensure(s, Implies(Not(Eq(v, 0)), untouched(p, s, G)), 'a refusal changes nothing')
        p.ensure(s, Implies(Eq(v, 0), And(same(p.get(s, G.o, G.off['value'], G.t), x), Eq(p.get(s, G.o, G.off['setby'], I32), by), untouched(p, s, G, ('value', 'setby')))), 'the option holds the value set')
        p.ensure(s, Eq(p.get(s, R, p.field('OptionRegistry', 'readonly'), I8), ro), 'the lock is unchanged')
    p.call(r'OptionRegistry::set<%s>\(' % ty, [R, name, x if ty != 'bool' else tz(x) != 0, by], post)


def reg_get(PP, ty):
    p = PP(U, 'fp', SD); c = status_codes(); G = opt(p, ty); R, ro, name, found = registry(p, G); out = p.array('out', NUM[ty], 1)
    def post(s, v):
        right = Eq(G.tag, TAG[ty])
        p.ensure(s, Eq(v, If(Not(found), c['option_not_found'], If(right, 0, c['option_wrong_type']))), 'status')
        p.ensure(s, same(out.now(s)[0], out.old[0]) if False else Implies(Eq(v, 0), same(out.now(s)[0], G.value)), 'reads the value')
        p.ensure(s, Implies(Not(Eq(v, 0)), same(out.now(s)[0], out.old[0])), 'a refusal leaves the output alone'); p.ensure(s, untouched(p, s, G), 'changes nothing')
    p.call(r'OptionRegistry::get<%s>\(' % ty, [R, name, out], post)


def reg_register(PP):
    """nothing is registered in a locked registry"""
    p = PP(U, 'fp', SD); c = status_codes(); G = opt(p, 'int'); R, ro, name, found = registry(p, G); n = p.i64('size', 0, 1000); new = p.int('inserted', 0, 1); k = [0]
    def size(ex, st, a, ins): return Add(n, If(Eq(new, 1), st.g.get('in', 0), 0))
    p.model(r'unordered_map<.*>::size\(', size)
    def ins_(ex, st, a, ins): st.g['in'] = 1; return None if ins.ty.k == 'void' else ex.undef(ins.ty) if hasattr(ex, 'undef') else None
    p.model(r'unordered_map<.*>::(insert|emplace|try_emplace)', ins_); p.model(r'^std::pair<.*>::~?pair', lambda ex, st, a, ins: None); p.model(r'OptionBase::get_name', lambda ex, st, a, ins: p.settok(st, a[0], 'name'))
    def post(s, v):
        p.ensure(s, Implies(Eq(ro, 1), And(Eq(v, c['option_locked']), z3.BoolVal('in' not in s.g))), 'a locked registry stays as it is')
        p.ensure(s, Implies(Eq(ro, 0), Eq(v, If(Eq(new, 1), 0, c['invalid_input']))), 'registered exactly if it was not there'); p.ensure(s, untouched(p, s, G), 'the option is unchanged')
    p.call(r'OptionRegistry::register_opt\(', [R, p.struct('shared', 16), False], post)


def string_set(PP, free, strict):
    """a label option holds one of its labels; a free-form option the text"""
    p = PP(U, 'fp', SD); c = status_codes(); o = p.struct('option', 512); tokens(p); arg = p.struct('arg', 32); p.settok(p.st, arg, 'name')
    val = Ptr(o.o, o.i, o.f + p.field('OptionString', 'value')); p.settok(p.st, val, 'before'); by, sb, off = p.int('by', 0, 2), p.int('setby', 0, 2), p.field('OptionBase', 'setby')
    p.put(o, off, I32, sb); p.put(o, p.field('OptionBase', 'strict'), I8, strict); p.put(o, p.field('OptionBase', 'otype'), I32, 4); n = p.i64('labels', 1, 1000) if not free else 0
    F1, F2 = lookup(p, r'^std::map<.*>', r'std::_Rb_tree_(const_)?iterator', p.struct('label', 64)); p.model(r'^std::map<.*>::size\(', lambda ex, st, a, ins: n)
    def post(s, v):
        t = p.tok(s, val); ok = True if free else Or(F1, F2)
        p.ensure(s, Eq(v, If(ok, 0, c['option_invalid_value'])), 'accepted exactly if the text or its canonical form is a label')
        can = ('canonical', 'name')
        p.ensure(s, Implies(Eq(v, 0), z3.BoolVal(t == (can if strict else 'name')) if free else Or(And(F1, z3.BoolVal(t == 'name')), And(Not(F1), F2, z3.BoolVal(t == can)))), 'holds the label')
        p.ensure(s, Implies(Not(Eq(v, 0)), And(z3.BoolVal(t == 'before'), Eq(p.get(s, o, off, I32), sb))), 'a refused text changes nothing')
        p.ensure(s, Implies(Eq(v, 0), Eq(p.get(s, o, off, I32), by)), 'set by')
    p.call(r'OptionString::set\(', [o, arg, by], post)


def proofs(tier):
    l = []
    for ty in NUM: l += [Proof('%s<%s>' % (n, ty), f, ty) for n, f in (('set', setter), ('get', getter), ('load', loaded), ('constructor', constructor), ('registry set', reg_set), ('registry get', reg_get))]
    l += [Proof('register', reg_register)] + [Proof('string set free=%d strict=%d' % (a, b), string_set, a, b) for a in (0, 1) for b in (0, 1)]
    return l


# ---------------------------------------------------------------- real code on concrete histories
def native_build(): build.so('opt', ['units/n_opt.cpp', 'utilities/model_persistence.cpp', 'utilities/miscellaneous.cpp', 'dynamic_dispatch/context.cpp'])
def native_load(): return load('opt')


RULE = 'random registries of up to 6 options (all classes, all bound kinds, equal and infinite bounds) and histories of up to 14 set, get, lock, unlock, save and (possibly damaged) load calls with names and labels in any case and spacing, values at, next to and beyond the bounds, NaN, infinities and wrong types; non-trivial: any'
BOUNDED = 'every call of a history is compared with a reference registry: status, value read back, every other option unchanged; names are canonicalised by an independent trim/squeeze/lower'
INF, NAN = float('inf'), float('nan')


def canon(s): return ' '.join(s.split()).lower()
def f32(x): return ctypes.c_float(x).value
def up(x, ty): return math.nextafter(x, INF) if ty == 'd' else f32(x + max(abs(x), 1e-30) * 1.2e-7)


def cases(rng, hints, tier, seed):
    mess = lambda s: rng.choice(['', '', ' ', '\t ', '  ']) + ''.join(rng.choice([ch.upper(), ch, ch]) if ch != ' ' else rng.choice([' ', '  ', ' \t', '\n ']) for ch in s) + rng.choice(['', '', ' ', '\n'])
    while True:
        defs = []; names = rng.sample(['tol', 'max iter', 'a', 'print level', 'solver', 'x y z', 'lambda', 'check data'], rng.randrange(1, 7))
        for n in names:
            ty = rng.choice('iiddffbss'); d = dict(n=n, ty=ty)
            if ty in 'idf':
                num = (lambda: rng.choice([0, 1, -1, 5, 2**31 - 1, -2**31, rng.randrange(-100, 100)])) if ty == 'i' else (lambda: rng.choice([0., 1., -1., .5, 1e-7, 1e30, -1e30, rng.uniform(-10, 10)]))
                lo, hi = sorted([num(), num()])
                if ty != 'i' and rng.random() < .1: hi = INF
                if ty != 'i' and rng.random() < .04: lo = NAN
                if ty == 'f': lo, hi = f32(lo), f32(hi)
                if rng.random() < .08: lo, hi = hi, lo
                if rng.random() < .1: hi = lo
                d.update(lo=lo, hi=hi, lb=rng.randrange(3), ub=rng.randrange(3), d=rng.choice([lo, hi, num(), (lo + hi) / 2 if ty != 'i' and lo == lo and abs(hi - lo) < INF else lo]), strict=rng.randrange(2))
                if ty == 'f': d['d'] = f32(d['d'])
                if ty != 'i' and rng.random() < .03: d['d'] = NAN
            elif ty == 'b': d['d'] = rng.randrange(2)
            else:
                labs = rng.sample(['yes', 'no', 'auto', 'row-major', 'a b', 'lbfgs', 'brute force'], rng.randrange(0, 4)); d.update(labs=labs, ids=[rng.randrange(-3, 9) for _ in labs], d=rng.choice(labs) if labs else rng.choice(['', 'text', 'Some Text']), strict=0 if not labs else rng.randrange(2))
            defs.append(d)
        ops = []
        for _ in range(rng.randrange(1, 15)):
            k = rng.choice(['set'] * 6 + ['get'] * 3 + ['lock', 'unlock', 'save', 'load', 'map'])
            d = rng.choice(defs); n = d['n']; n = mess(n) if rng.random() < .5 else n
            if rng.random() < .06: n = rng.choice(['', 'unknown', n + 'x', n.replace(' ', '') + ' y'])
            ty = d['ty'] if rng.random() < .85 else rng.choice('idfbs'); v = None
            if k == 'set':
                if ty == 'i':
                    b = [d.get('lo', 0), d.get('hi', 1)]; b = [int(x) if x == x and abs(x) < 2**31 else 0 for x in b]; v = rng.choice([b[0], b[1], b[0] - 1, b[1] + 1, b[0] + 1, b[1] - 1, rng.randrange(-100, 100), 2**31 - 1, -2**31]); v = min(max(v, -2**31), 2**31 - 1)
                elif ty in 'df':
                    b = rng.choice([d.get('lo', 0), d.get('hi', 1)]); b = float(b) if not isinstance(b, str) else 0.
                    v = rng.choice([b, up(b, ty) if b == b and abs(b) < INF else b, -up(-b, ty) if b == b and abs(b) < INF else b, NAN, INF, -INF, 0., -0., rng.uniform(-10, 10), 1e-300, 5e-324]); v = f32(v) if ty == 'f' else v
                elif ty == 'b': v = rng.randrange(2)
                else: v = rng.choice(d.get('labs') or ['Text', 'a  B', '']) if rng.random() < .85 else rng.choice(['nope', '', 'ye', 'yess', 'a', 'ab']); v = mess(v) if rng.random() < .5 else v
            ops.append([k, n, ty, v, rng.randrange(1 << 20), rng.random()])
        yield dict(defs=defs, ops=ops)


def within(d, v):
    if d['ty'] in 'bs': return True
    if v != v: return False
    return not (d['lb'] == 1 and not v > d['lo'] or d['lb'] == 2 and not v >= d['lo'] or d['ub'] == 1 and not v < d['hi'] or d['ub'] == 2 and not v <= d['hi'])


def run_case(lib, c):
    code = status_codes(); B = lambda s: s.encode('latin1'); R = {}; D = {}; cd, cf = ctypes.c_double, ctypes.c_float
    lib.op_new(); locked = False
    eq = lambda a, b: a == b and (isinstance(a, str) or math.copysign(1, a) == math.copysign(1, b))
    def read(n, ty):
        if ty == 'i': b = Buf(ctypes.c_int, [-12345]); s = lib.op_get_i(B(n), b.p); return s, b.get()[0], -12345
        if ty == 'd': b = Buf(cd, [-1.25]); s = lib.op_get_d(B(n), b.p); return s, b.get()[0], -1.25
        if ty == 'f': b = Buf(cf, [-1.25]); s = lib.op_get_f(B(n), b.p); return s, b.get()[0], -1.25
        if ty == 'b': b = Buf(ctypes.c_ubyte, [0]); s = lib.op_get_b(B(n), b.p); return s, b.get()[0], 0
        b = ctypes.create_string_buffer(b'#before#', 4096); i = Buf(ctypes.c_int, [-777]); s = lib.op_get_s(B(n), b, i.p); return s, b.value.decode('latin1'), '#before#'
    def everything():
        for n, d in D.items():
            s, v, _ = read(n, d['ty'])
            if s or not eq(v, R[n]): return 'option %r holds %r (status %d), last set: %r' % (n, v, s, R[n])
            if not within(d, v): return 'option %r holds %r, outside its bounds %r' % (n, v, d)
            if d['ty'] == 's' and d['labs'] and v not in d['labs']: return 'option %r holds %r, not one of %r' % (n, v, d['labs'])
        return None
    for d in c['defs']:
        n, ty = d['n'], d['ty']
        if ty == 'i': r = lib.op_int(B(n), d['lo'], d['lb'], d['hi'], d['ub'], d['d'], d['strict'])
        elif ty == 'd': r = lib.op_dbl(B(n), cd(d['lo']), d['lb'], cd(d['hi']), d['ub'], cd(d['d']), d['strict'])
        elif ty == 'f': r = lib.op_flt(B(n), cf(d['lo']), d['lb'], cf(d['hi']), d['ub'], cf(d['d']), d['strict'])
        elif ty == 'b': r = lib.op_bool(B(n), d['d'])
        else: r = lib.op_str(B(n), (ctypes.c_char_p * (len(d['labs']) + 1))(*[B(x) for x in d['labs']]), (ctypes.c_int * (len(d['labs']) + 1))(*d['ids']), len(d['labs']), B(d['d']), d['strict'])
        nan = ty in 'df' and (d['lo'] != d['lo'] or d['hi'] != d['hi'])
        bad = ty in 'idf' and (nan or not within(d, d['d']) or (d['hi'] < d['lo'] and d['ub'] != 0) or (d['lo'] == d['hi'] and d['lb'] and d['ub'] and (d['lb'], d['ub']) != (2, 2)))
        if (r == -1) != bad: return 'registering %r: %s' % (d, 'refused' if r else 'accepted')
        if r not in (0, -1): return 'registering %r: status %d' % (d, r)
        if r == 0: R[n] = d['d']; D[n] = d
    e = everything()
    if e: return 'after registering: ' + e
    for step, (k, n, ty, v, rnd, fr) in enumerate(c['ops']):
        here = 'step %d %s(%r%s)' % (step, k, n, ', %r as %s' % (v, ty) if k == 'set' else '')
        d = D.get(n) or D.get(canon(n)); key = d and d['n']
        if k == 'lock': lib.op_lock(1); locked = True
        elif k == 'unlock': lib.op_lock(0); locked = False
        elif k == 'set':
            s = lib.op_set_i(B(n), v) if ty == 'i' else lib.op_set_d(B(n), cd(v)) if ty == 'd' else lib.op_set_f(B(n), cf(v)) if ty == 'f' else lib.op_set_b(B(n), v) if ty == 'b' else lib.op_set_s(B(n), B(v), rnd & 1)
            new = v
            if locked: exp = 'option_locked'
            elif d is None: exp = 'option_not_found'
            elif d['ty'] != ty: exp = 'option_wrong_type'
            elif ty == 's' and d['labs']:
                new = v if v in d['labs'] else canon(v); exp = None if new in d['labs'] else 'option_invalid_value'
            else: exp = None if within(d, v) else 'option_invalid_value'
            if s != (code[exp] if exp else 0): return '%s: status %d, expected %s' % (here, s, exp or 'success')
            if not exp: R[key] = new
        elif k == 'get':
            s, got, before = read(n, ty); exp = 'option_not_found' if d is None else 'option_wrong_type' if d['ty'] != ty else None
            if s != (code[exp] if exp else 0): return '%s: status %d, expected %s' % (here, s, exp or 'success')
            if not eq(got, before if exp else R[key]): return '%s: read %r, expected %r' % (here, got, before if exp else R[key])
        elif k == 'map' and d is not None and d['ty'] == 's' and d['labs']:
            j = rnd % len(d['labs']); b = ctypes.create_string_buffer(B(d['labs'][j]), 4096); i = Buf(ctypes.c_int, [-777])
            if lib.op_map(B(n), b, i.p, 1) or i.get()[0] != d['ids'][j]: return '%s: label %r has id %d, expected %d' % (here, d['labs'][j], i.get()[0], d['ids'][j])
        elif k in ('save', 'load'):
            out = (ctypes.c_ubyte * 65536)(); r = lib.op_save(out, 65536)
            if r < 0: return '%s: saving: %d' % (here, r)
            raw = bytearray(out[:r])
            if k == 'load' and raw:
                how = rnd % 5
                if how == 0: raw = raw[:int(len(raw) * fr)]
                elif how <= 3: raw[int(len(raw) * fr)] = (rnd >> 4) & 255
                for nn, dd in D.items():                   # what a set in between leaves is overwritten by the load
                    if how == 4 and dd['ty'] == 'b': lib.op_lock(0); lib.op_set_b(B(nn), 1 - R[nn]); lib.op_lock(int(locked))
                if not raw: continue
                s = lib.op_load(bytes(raw), len(raw))
                if how == 4 and s: return '%s: an undamaged registry is refused: %d' % (here, s)
                for nn, dd in D.items():
                    if how == 4: continue
                    _, R[nn], _ = read(nn, dd['ty'])       # a damaged file may change values, but only to valid ones
        e = everything()
        if e: return '%s: %s' % (here, e)
    return None
