"""Reader for the textual LLVM IR that clang-18/opt-18 emit (the subset C/C++ code here needs).

Functions are parsed lazily: a module is split into function bodies by text, and a body is
parsed only when the executor first enters it.
"""
import re, struct

TOK = re.compile(r'''
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[\w.$-]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[\w.$-]+))
 | (?P<meta>![\w.-]*)
 | (?P<attr>\#\d+)
 | (?P<num>0x[HKLMR]?[0-9A-Fa-f]+|[-+]?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)
 | (?P<word>[A-Za-z_$][\w.$-]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[(){}\[\]<>,=*:|])
 | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise ParseError("cannot tokenize at %r" % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        out.append((k, m.group()))
    return out


class ParseError(Exception):
    pass


# ---- types -----------------------------------------------------------------
class T:
    __slots__ = ('k', 'n', 'elts', 'name', 'packed')

    def __init__(self, k, n=0, elts=None, name=None, packed=False):
        self.k = k; self.n = n; self.elts = elts; self.name = name; self.packed = packed

    def __repr__(self):
        if self.k == 'int': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.elts)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.elts)
        if self.k == 'struct': return '{%s}' % ', '.join(map(repr, self.elts or []))
        if self.k == 'named': return self.name
        return self.k


VOID = T('void'); PTR = T('ptr'); FLOAT = T('float'); DOUBLE = T('double'); HALF = T('half')
LABEL = T('label'); META = T('metadata'); X86FP80 = T('x86_fp80'); TOKEN = T('token')
_ints = {}


def INT(n):
    if n not in _ints:
        _ints[n] = T('int', n)
    return _ints[n]


class Cur:
    def __init__(self, toks):
        self.t = toks; self.i = 0

    def peek(self, o=0):
        j = self.i + o
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        x = self.peek(); self.i += 1; return x

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1; return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise ParseError("expected %r got %r in %s" % (v, x, ' '.join(a[1] for a in self.t)[:300]))
        return x


SIMPLE = {'void': VOID, 'ptr': PTR, 'float': FLOAT, 'double': DOUBLE, 'half': HALF, 'label': LABEL,
          'metadata': META, 'x86_fp80': X86FP80, 'token': TOKEN, 'bfloat': HALF}


def parse_type(c):
    k, v = c.next()
    if k == 'word':
        if v in SIMPLE:
            t = SIMPLE[v]
        elif re.fullmatch(r'i\d+', v):
            t = INT(int(v[1:]))
        elif v == 'opaque':
            t = T('opaque')
        else:
            raise ParseError("type? %r" % v)
    elif k == 'loc':
        t = T('named', name=v)
    elif v == '[':
        n = int(c.next()[1]); c.expect('x'); e = parse_type(c); c.expect(']')
        t = T('arr', n, e)
    elif v == '<':
        if c.peek()[1] == '{':
            c.next(); el = []
            while not c.accept('}'):
                el.append(parse_type(c)); c.accept(',')
            c.expect('>')
            t = T('struct', elts=el, packed=True)
        else:
            n = int(c.next()[1]); c.expect('x'); e = parse_type(c); c.expect('>')
            t = T('vec', n, e)
    elif v == '{':
        el = []
        while not c.accept('}'):
            el.append(parse_type(c)); c.accept(',')
        t = T('struct', elts=el)
    else:
        raise ParseError("type? %r" % v)
    while c.peek()[1] == '*':
        c.next(); t = PTR
    if c.peek()[1] == 'addrspace':
        c.next(); c.expect('('); c.next(); c.expect(')')
    return t


PARAM_ATTRS = {'dead_on_unwind', 'writable', 'noundef', 'nonnull', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'zeroext',
               'signext', 'returned', 'immarg', 'inreg', 'nest', 'nofree', 'swiftself', 'noreturn', 'allocptr',
               'allocalign', 'writable', 'inrange'}


def skip_attrs(c):
    while True:
        k, v = c.peek()
        if k == 'word' and v in PARAM_ATTRS:
            c.next()
        elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval',
                                   'elementtype', 'nofpclass', 'inalloca', 'preallocated', 'byref',
                                   'vscale_range', 'memory', 'range'):
            c.next()
            if c.accept('('):
                d = 1
                while d:
                    x = c.next()[1]
                    if x == '(': d += 1
                    elif x == ')': d -= 1
            elif v == 'align':
                c.next()
        elif k == 'attr':
            c.next()
        elif k == 'str':
            c.next()
            if c.accept('='):
                c.next()
        else:
            return


def parse_fp(s, t):
    if s.startswith('0xK') or s.startswith('0xL'):
        raise ParseError('x86_fp80 constant')
    if s.startswith('0xH'):
        return struct.unpack('>e', int(s[3:], 16).to_bytes(2, 'big'))[0]
    if s.startswith('0x'):
        return struct.unpack('>d', int(s[2:], 16).to_bytes(8, 'big'))[0]
    return float(s)


# operand values: tuples
#  ('l',name) ('g',name) ('i',int) ('f',float) ('null',) ('undef',) ('zero',) ('agg',[(T,val)..])
#  ('str',bytes) ('ce',op,T,args) ('m',..)
def parse_value(c, t):
    k, v = c.next()
    if k == 'loc': return ('l', v)
    if k == 'glob': return ('g', v)
    if k == 'num':
        if t.k in ('float', 'double', 'half'):
            return ('f', parse_fp(v, t))
        if t.k == 'x86_fp80':
            return ('undef',)
        return ('i', int(v, 0))
    if k == 'str':
        return ('str', unescape(v[2:-1] if v[0] == 'c' else v[1:-1]))
    if k == 'meta':
        # metadata operand: !123, !DIExpression(...), !{...}
        if c.peek()[1] == '(':
            d = 0
            while True:
                x = c.next()[1]
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        elif c.peek()[1] == '{':
            while c.next()[1] != '}': pass
        return ('m', v)
    if k == 'word':
        if v == 'true': return ('i', 1)
        if v == 'false': return ('i', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'none': return ('undef',)
        if v in ('getelementptr',):
            inb = c.accept('inbounds')
            c.expect('(')
            st = parse_type(c); c.expect(',')
            args = []
            while True:
                c.accept('inrange')
                ty = parse_type(c); args.append((ty, parse_value(c, ty)))
                if not c.accept(','): break
            c.expect(')')
            return ('ce', 'gep', st, args)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            c.expect('('); ty = parse_type(c); a = parse_value(c, ty); c.expect('to'); to = parse_type(c); c.expect(')')
            return ('ce', v, to, [(ty, a)])
        if v in ('add', 'sub', 'mul', 'icmp', 'xor', 'and', 'or', 'shl'):
            while c.peek()[0] == 'word' and c.peek()[1] in ('nsw', 'nuw', 'eq', 'ne', 'ult', 'ugt', 'slt', 'sgt'): c.next()
            c.expect('('); ty = parse_type(c); a = parse_value(c, ty); c.expect(','); ty2 = parse_type(c); b = parse_value(c, ty2); c.expect(')')
            return ('ce', v, ty, [(ty, a), (ty2, b)])
        if v == 'blockaddress' or v == 'dso_local_equivalent':
            raise ParseError(v)
    if v in ('{', '[', '<'):
        if v == '<' and c.peek()[1] == '{':
            c.next(); close = '}'; packed = True
        else:
            close = {'{': '}', '[': ']', '<': '>'}[v]; packed = False
        el = []
        while not c.accept(close):
            ty = parse_type(c); el.append((ty, parse_value(c, ty))); c.accept(',')
        if packed: c.expect('>')
        return ('agg', el)
    raise ParseError("value? %r %r" % (k, v))


def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out += s[i].encode('latin1', 'replace'); i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'dbg', 'text')

    def __init__(self, op, res=None, ty=None, a=(), x=None, dbg=None, text=''):
        self.op = op; self.res = res; self.ty = ty; self.a = a; self.x = x; self.dbg = dbg; self.text = text

    def __repr__(self):
        return self.text


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
         'inttoptr', 'bitcast', 'addrspacecast'}
FLAGS = {'nsw', 'nuw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'inbounds',
         'disjoint', 'nneg'}
DBG_RE = re.compile(r', !dbg !(\d+)')
TAIL_RE = re.compile(r'(, ![\w.]+ !\d+)+\s*$')


def parse_instr(line):
    m = DBG_RE.search(line)
    dbg = int(m.group(1)) if m else None
    s = TAIL_RE.sub('', line)
    c = Cur(tokenize(s))
    res = None
    if c.peek()[0] == 'loc' and c.peek(1)[1] == '=':
        res = c.next()[1]; c.next()
    op = c.next()[1]
    I = Instr(op, res, dbg=dbg, text=line.strip())

    def tv():
        ty = parse_type(c); skip_attrs(c)
        return (ty, parse_value(c, ty))

    def flags():
        f = set()
        while c.peek()[0] == 'word' and c.peek()[1] in FLAGS:
            f.add(c.next()[1])
        return f
    if op in ('tail', 'musttail', 'notail'):
        op = I.op = c.next()[1]
    if op in BINOPS:
        I.x = flags(); ty = parse_type(c); a = parse_value(c, ty); c.expect(','); b = parse_value(c, ty)
        I.ty = ty; I.a = (a, b)
    elif op == 'fneg':
        flags(); ty = parse_type(c); I.ty = ty; I.a = (parse_value(c, ty),)
    elif op in CASTS:
        I.x = flags(); ty = parse_type(c); a = parse_value(c, ty); c.expect('to'); to = parse_type(c)
        I.ty = to; I.a = ((ty, a),)
    elif op in ('icmp', 'fcmp'):
        flags(); p = c.next()[1]; ty = parse_type(c); a = parse_value(c, ty); c.expect(','); b = parse_value(c, ty)
        I.ty = ty; I.x = p; I.a = (a, b)
    elif op == 'load':
        at = False
        while c.peek()[1] in ('volatile', 'atomic'): c.next()
        ty = parse_type(c); c.expect(','); I.ty = ty; I.a = (tv(),)
    elif op == 'store':
        while c.peek()[1] in ('volatile', 'atomic'): c.next()
        v = tv(); c.expect(','); p = tv(); I.ty = v[0]; I.a = (v, p)
    elif op == 'alloca':
        c.accept('inalloca'); ty = parse_type(c); I.ty = ty; I.x = None
        if c.accept(','):
            if c.peek()[1] != 'align' and c.peek()[1] != 'addrspace':
                I.x = tv()
    elif op == 'getelementptr':
        I.x = flags(); st = parse_type(c); c.expect(',')
        args = [tv()]
        while c.accept(','):
            args.append(tv())
        I.ty = st; I.a = tuple(args)
    elif op == 'phi':
        flags(); ty = parse_type(c); I.ty = ty; inc = []
        while True:
            c.expect('['); v = parse_value(c, ty); c.expect(','); b = c.next()[1]; c.expect(']'); inc.append((v, b))
            if not c.accept(','): break
        I.a = inc
    elif op == 'select':
        flags(); I.a = [tv()]
        c.expect(','); I.a.append(tv()); c.expect(','); I.a.append(tv()); I.ty = I.a[1][0]
    elif op == 'br':
        if c.accept('label'):
            I.a = (c.next()[1],)
        else:
            t = tv(); c.expect(','); c.expect('label'); x = c.next()[1]; c.expect(','); c.expect('label'); y = c.next()[1]
            I.a = (t, x, y)
    elif op == 'switch':
        t = tv(); c.expect(','); c.expect('label'); d = c.next()[1]; c.expect('['); cases = []
        while not c.accept(']'):
            v = tv(); c.expect(','); c.expect('label'); cases.append((v, c.next()[1]))
        I.a = (t, d, cases)
    elif op == 'ret':
        if c.peek()[1] == 'void': I.a = ()
        else: I.a = (tv(),)
    elif op in ('unreachable', 'fence', 'va_arg', 'resume', 'cleanupret', 'catchret'):
        pass
    elif op in ('call', 'invoke'):
        flags()
        while c.peek()[0] == 'word' and c.peek()[1] in ('fastcc', 'coldcc', 'ccc'): c.next()
        skip_attrs(c)
        rt = parse_type(c)
        if c.peek()[1] == '(':      # function type given
            d = 0
            while True:
                x = c.next()[1]
                if x == '(': d += 1
                elif x == ')':
                    d -= 1
                    if d == 0: break
        k, v = c.peek()
        if k == 'word' and v == 'asm':
            I.op = 'asm'; return I
        callee = parse_value(c, PTR)
        c.expect('('); args = []
        while not c.accept(')'):
            ty = parse_type(c); skip_attrs(c)
            if ty.k == 'metadata':
                # !123 / !DIExpression() / type value
                if c.peek()[0] == 'meta':
                    args.append((ty, parse_value(c, ty)))
                else:
                    t2 = parse_type(c); args.append((ty, ('mv', t2, parse_value(c, t2))))
            else:
                args.append((ty, parse_value(c, ty)))
            c.accept(',')
        I.ty = rt; I.a = (callee, args)
        if I.op == 'invoke':
            skip_attrs(c)
            while c.peek()[1] != 'to': c.next()
            c.expect('to'); c.expect('label'); n = c.next()[1]; c.expect('unwind'); c.expect('label'); u = c.next()[1]
            I.x = (n, u)
    elif op == 'landingpad':
        I.ty = parse_type(c)
    elif op == 'extractvalue':
        I.a = [tv()]; idx = []
        while c.accept(','): idx.append(int(c.next()[1]))
        I.x = idx
    elif op == 'insertvalue':
        a = tv(); c.expect(','); b = tv(); idx = []
        while c.accept(','): idx.append(int(c.next()[1]))
        I.a = [a, b]; I.x = idx; I.ty = a[0]
    elif op in ('extractelement',):
        a = tv(); c.expect(','); b = tv(); I.a = [a, b]; I.ty = a[0]
    elif op == 'insertelement':
        a = tv(); c.expect(','); b = tv(); c.expect(','); d = tv(); I.a = [a, b, d]; I.ty = a[0]
    elif op == 'shufflevector':
        a = tv(); c.expect(','); b = tv(); c.expect(','); d = tv(); I.a = [a, b, d]; I.ty = a[0]
    elif op == 'freeze':
        a = tv(); I.a = [a]; I.ty = a[0]
    elif op in ('atomicrmw',):
        c.accept('volatile'); I.x = c.next()[1]; p = tv(); c.expect(','); v = tv(); I.a = [p, v]; I.ty = v[0]
    elif op == 'cmpxchg':
        raise ParseError('cmpxchg')
    else:
        raise ParseError('opcode %s in %s' % (op, line))
    return I


class Block:
    __slots__ = ('name', 'ins', 'succ')

    def __init__(self, name):
        self.name = name; self.ins = []; self.succ = []


class Function:
    def __init__(self, mod, name, header, body):
        self.mod = mod; self.name = name; self.header = header; self.body = body
        self._parsed = False

    def parse(self):
        if self._parsed: return self
        self._parsed = True
        h = self.header
        m = re.search(r'!dbg !(\d+)', h)
        self.dbg = int(m.group(1)) if m else None
        # params
        i = h.index('@' + self.name[1:] + '(') + len(self.name)
        d = 0; j = i
        inq = False
        while True:
            ch = h[j]
            if ch == '"': inq = not inq
            if not inq:
                if ch == '(': d += 1
                elif ch == ')':
                    d -= 1
                    if d == 0: break
            j += 1
        c = Cur(tokenize(h[i + 1:j]))
        self.params = []
        n = 0
        while c.peek()[0] != 'eof':
            if c.accept('...'): break
            ty = parse_type(c); skip_attrs(c)
            if c.peek()[0] == 'loc': nm = c.next()[1]
            else: nm = '%%%d' % n
            n += 1
            self.params.append((ty, nm)); c.accept(',')
        # return type
        pre = h[:h.index(self.name + '(')]
        toks = tokenize(pre)
        # last type in prefix
        cc = Cur(toks)
        self.ret = None
        k = 0
        while k < len(toks):
            try:
                cc.i = k; t = parse_type(cc)
                if cc.i == len(toks):
                    self.ret = t; break
            except ParseError:
                pass
            k += 1
        self.blocks = {}
        self.order = []
        cur = None
        # entry label
        lines = self.body.split('\n')
        k = 0
        while k < len(lines):
            ln = lines[k]; k += 1
            st = ln.strip()
            if not st or st.startswith(';'): continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[\w.$-]+):', ln)
            if m:
                cur = Block('%' + m.group(1)); self.blocks[cur.name] = cur; self.order.append(cur.name); continue
            if cur is None:
                cur = Block('%__entry'); self.blocks[cur.name] = cur; self.order.append(cur.name)
            ln = re.sub(r'\s*; preds =.*$', '', ln)
            if st.startswith('switch') or ('= landingpad' in st) or st.startswith('invoke') or '= invoke' in st:
                if st.startswith('switch'):
                    while ']' not in ln:
                        ln += ' ' + lines[k]; k += 1
                elif 'landingpad' in st:
                    while k < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[k]): k += 1
                    ln = ln.split('landingpad')[0] + 'landingpad { ptr, i32 }'
                else:
                    while 'unwind label' not in ln:
                        ln += ' ' + lines[k]; k += 1
            cur.ins.append(parse_instr(ln))
        # the unnamed entry block is numbered after params
        if '%__entry' in self.blocks:
            self.entry_alias = '%%%d' % n
        for b in self.blocks.values():
            t = b.ins[-1]
            if t.op == 'br':
                b.succ = list(t.a[1:]) if len(t.a) == 3 else [t.a[0]]
            elif t.op == 'switch':
                b.succ = [t.a[1]] + [x[1] for x in t.a[2]]
            elif t.op == 'invoke':
                b.succ = [t.x[0]]
            else:
                b.succ = []
        if '%__entry' in self.blocks:
            e = self.blocks.pop('%__entry'); e.name = self.entry_alias
            self.blocks[e.name] = e
            self.order[0] = e.name
        self._loops()
        return self

    def _loops(self):
        # dominators (iterative) + natural loops
        entry = self.order[0]
        rpo = []; seen = set()
        stack = [(entry, iter(self.blocks[entry].succ))]; seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); stack.append((s, iter(self.blocks[s].succ))); break
            else:
                rpo.append(b); stack.pop()
        rpo.reverse()
        self.rpo = rpo
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.blocks[b].succ:
                preds[s].append(b)
        self.preds = preds
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]: x = idom[x]
                                while idx[y] > idx[x]: y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new; ch = True

        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.blocks[b].succ:
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(preds[x])
        self.loop_order = sorted(self.loops, key=lambda h: idx[h])


DEF_RE = re.compile(r'^define .*?(@(?:"(?:[^"\\]|\\.)*"|[\w.$-]+))\(', re.M)


class Module:
    def __init__(self, path):
        txt = open(path, encoding='latin1').read()
        self.path = path
        self.functions = {}
        self.types = {}
        self.globals = {}
        self.meta_txt = {}
        self.aliases = {}
        pos = 0
        for m in re.finditer(r'^define [^\n]*\{\n(.*?)^\}\n', txt, re.M | re.S):
            h = m.group(0).split('\n', 1)[0]
            name = DEF_RE.match(h).group(1)
            self.functions[name] = Function(self, name, h, m.group(1))
        for m in re.finditer(r'^(%(?:"(?:[^"\\]|\\.)*"|[\w.$-]+)) = type (.*)$', txt, re.M):
            self.types[m.group(1)] = m.group(2)
        for m in re.finditer(r'^(@(?:"(?:[^"\\]|\\.)*"|[\w.$-]+)) = (.*)$', txt, re.M):
            rest = m.group(2)
            if re.search(r'\balias\b', rest.split('"')[0]) :
                mm = re.findall(r'@(?:"(?:[^"\\]|\\.)*"|[\w.$-]+)', rest)
                if mm: self.aliases[m.group(1)] = mm[-1]
            else:
                self.globals[m.group(1)] = rest
        for m in re.finditer(r'^!(\d+) = (.*)$', txt, re.M):
            self.meta_txt[int(m.group(1))] = m.group(2)
        self._tcache = {}
        self._gcache = {}
        self._local = {}
        self._di = None

    # -- types
    def named(self, name):
        if name not in self._tcache:
            s = self.types[name]
            self._tcache[name] = parse_type(Cur(tokenize(s)))
        return self._tcache[name]

    def resolve(self, t):
        while t.k == 'named':
            t = self.named(t.name)
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t.k
        if k == 'int': return min(8 if t.n <= 64 else 16, max(1, 1 << (max(t.n, 8) - 1).bit_length() >> 3)) if t.n > 1 else 1
        if k == 'float': return 4
        if k == 'double' or k == 'ptr': return 8
        if k == 'half': return 2
        if k == 'x86_fp80': return 16
        if k == 'arr': return self.align(t.elts)
        if k == 'vec': return self.size(t)
        if k == 'struct':
            if t.packed or not t.elts: return 1
            return max(self.align(e) for e in t.elts)
        return 1

    def size(self, t):
        t = self.resolve(t)
        k = t.k
        if k == 'int': return max(1, (t.n + 7) // 8) if t.n <= 8 else 1 << ((t.n - 1).bit_length() - 3)
        if k == 'float': return 4
        if k in ('double', 'ptr'): return 8
        if k == 'half': return 2
        if k == 'x86_fp80': return 16
        if k == 'arr': return t.n * self.size(t.elts)
        if k == 'vec': return t.n * self.size(t.elts)
        if k == 'struct':
            off = 0
            for e in t.elts:
                if not t.packed:
                    a = self.align(e); off = (off + a - 1) // a * a
                off += self.size(e)
            if not t.packed:
                a = self.align(t); off = (off + a - 1) // a * a
            return off
        return 0

    def offset(self, t, i):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t.elts):
            if not t.packed:
                a = self.align(e); off = (off + a - 1) // a * a
            if j == i: return off
            off += self.size(e)
        raise IndexError

    # -- globals
    def global_init(self, name):
        """(type, value) of a constant global with an initializer, or None"""
        if name in self._gcache: return self._gcache[name]
        r = None
        if name in self.globals:
            s = self.globals[name]
            m = re.search(r'\b(constant|global) ', s)
            if m and 'external' not in s[:m.start()]:
                body = s[m.end():]
                body = re.sub(r'(, (comdat|align \d+|section "[^"]*"|comdat\([^)]*\)|!dbg !\d+|partition "[^"]*"))+\s*$', '', body)
                body = re.sub(r', comdat.*$', '', body) if ', comdat' in body else body
                try:
                    c = Cur(tokenize(body)); ty = parse_type(c)
                    r = (ty, parse_value(c, ty), m.group(1) == 'constant')
                except (ParseError, ValueError):
                    r = None
        self._gcache[name] = r
        return r

    # -- debug info
    def local_name(self, md):
        if md not in self._local:
            s = self.meta_txt.get(md, '')
            m = re.search(r'name: "([^"]*)"', s)
            self._local[md] = m.group(1) if m and 'DILocalVariable' in s else None
        return self._local[md]

    def line_of(self, dbg):
        s = self.meta_txt.get(dbg, '') if dbg is not None else ''
        m = re.search(r'line: (\d+)', s)
        return int(m.group(1)) if m else 0

    def di_members(self, name):
        """member name -> byte offset, for the class with this DWARF name or IR type name (template args included)"""
        if self._di is None:
            self._di = {}
            for k, s in self.meta_txt.items():
                if 'DICompositeType' in s and 'elements:' in s and 'flags: DIFlagFwdDecl' not in s:
                    m = re.search(r'[( ]name: "((?:[^"\\]|\\.)*)"', s)
                    if m: self._di.setdefault(m.group(1), k)
        k = self._di.get(name)
        if k is None: return None
        return self._members(k)

    def _members(self, k):
        s = self.meta_txt[k]
        m = re.search(r'elements: !(\d+)', s)
        out = {}
        if not m: return out
        for x in re.findall(r'!(\d+)', self.meta_txt[int(m.group(1))]):
            e = self.meta_txt.get(int(x), '')
            if 'DW_TAG_member' in e:
                nm = re.search(r'name: "([^"]*)"', e); off = re.search(r'offset: (\d+)', e)
                bt = re.search(r'baseType: !(\d+)', e)
                if 'DIFlagStaticMember' in e: continue
                if nm: out[nm.group(1)] = (int(off.group(1)) // 8 if off else 0, int(bt.group(1)) if bt else None)
            elif 'DW_TAG_inheritance' in e:
                off = re.search(r'offset: (\d+)', e); off = int(off.group(1)) // 8 if off else 0
                bt = int(re.search(r'baseType: !(\d+)', e).group(1))
                for a, (o, b) in self._members(self._strip(bt)).items():
                    out.setdefault(a, (o + off, b))
        return out

    def _strip(self, k):
        while 'DICompositeType' not in self.meta_txt[k]:
            m = re.search(r'baseType: !(\d+)', self.meta_txt[k])
            if not m: return k
            k = int(m.group(1))
        return k
