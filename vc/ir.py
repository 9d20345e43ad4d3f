"""Parser for the textual LLVM IR (clang 18, opaque pointers) subset emitted for the library.

The IR is produced mechanically from /repo's headers on every run; nothing is dropped here except
attributes, metadata, comdat and alignment annotations.
"""
import re, struct
from fractions import Fraction


class IRError(Exception):
    pass


TOK = re.compile(r'''\s+|;[^\n]*|(?P<str>c?"(?:[^"\\]|\\.)*")|(?P<loc>%"[^"]*"|%[-a-zA-Z$._0-9]+)|(?P<glob>@"[^"]*"|@[-a-zA-Z$._0-9]+)|(?P<md>![-a-zA-Z$._0-9]*)|(?P<attr>\#[0-9]+)|(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|(?P<num>-?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?|-?[0-9]+)|(?P<word>[a-zA-Z$._][-a-zA-Z$._0-9]*)|(?P<p>\.\.\.|[(){}\[\]<>,=*:|!])''')


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('token? ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


# types: ('i',n) ('f',32|64|80) ('ptr',) ('void',) ('struct',[types],packed) ('named',name) ('arr',n,t) ('vec',n,t) ('label',)
class Types:
    def __init__(self):
        self.named = {}

    def resolve(self, t):
        while t[0] == 'named':
            t = self.named[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return min(max(1, (t[1] + 7) // 8), 16) if t[1] in (8, 16, 32, 64, 128, 1) else 8
        if k == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'struct':
            if t[2] or not t[1]:
                return 1
            return max(self.align(x) for x in t[1])
        if k == 'arr':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        raise IRError('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            return max(1, (t[1] + 7) // 8)
        if k == 'f':
            return {32: 4, 64: 8, 80: 16}[t[1]]
        if k == 'ptr':
            return 8
        if k == 'struct':
            return self.layout(t)[1]
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        raise IRError('size %r' % (t,))

    def layout(self, t):
        off = 0
        offs = []
        for x in t[1]:
            if not t[2]:
                a = self.align(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(x)
        if not t[2] and t[1]:
            a = self.align(t)
            off = (off + a - 1) // a * a
        return offs, off


def f80_from_hex(h):
    v = int(h, 16)
    sign = v >> 79
    e = (v >> 64) & 0x7fff
    m = v & ((1 << 64) - 1)
    if e == 0x7fff:
        if m << 1 & ((1 << 64) - 1):
            return 'nan'
        return '-inf' if sign else 'inf'
    r = Fraction(m) * (Fraction(2) ** (max(e, 1) - 16383 - 63))
    if r == 0:
        return '-0' if sign else Fraction(0)
    return -r if sign else r


def f64_const(x):
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    if x == 0:
        return '-0' if struct.pack('>d', x)[0] & 0x80 else Fraction(0)
    return Fraction(x)


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'writeonly', 'readonly', 'immarg',
               'returned', 'inreg', 'nofree', 'nest', 'readnone', 'swiftself', 'writable', 'dead_on_unwind', 'nonlazybind'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'range', 'inalloca', 'preallocated', 'captures'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


class P:
    def __init__(self, toks, types):
        self.t = toks
        self.i = 0
        self.types = types

    def peek(self, o=0):
        j = self.i + o
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, o=0):
        j = self.i + o
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v[1]

    def accept(self, w):
        if self.peek() == w and self.kind() != 'str':
            self.i += 1
            return True
        return False

    def expect(self, w):
        if not self.accept(w):
            raise IRError('expected %s at %s' % (w, ' '.join(x[1] for x in self.t[max(0, self.i - 5):self.i + 8])))

    def done(self):
        return self.i >= len(self.t)

    def type(self):
        w = self.peek()
        k = self.kind()
        if k == 'loc':
            self.next()
            return ('named', w)
        if k == 'word':
            self.next()
            if re.fullmatch(r'i[0-9]+', w):
                return ('i', int(w[1:]))
            m = {'double': ('f', 64), 'float': ('f', 32), 'x86_fp80': ('f', 80), 'ptr': ('ptr',), 'void': ('void',),
                 'label': ('label',), 'metadata': ('md',), 'token': ('token',), 'opaque': ('opaque',)}
            if w in m:
                return m[w]
            raise IRError('type word ' + w)
        if w == '{':
            self.next()
            fs = []
            while not self.accept('}'):
                fs.append(self.type())
                self.accept(',')
            return ('struct', tuple(fs), False)
        if w == '<':
            self.next()
            if self.peek() == '{':
                t = self.type()
                self.expect('>')
                return ('struct', t[1], True)
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect('>')
            return ('vec', n, t)
        if w == '[':
            self.next()
            n = int(self.next())
            self.expect('x')
            t = self.type()
            self.expect(']')
            return ('arr', n, t)
        raise IRError('type? %s' % ' '.join(x[1] for x in self.t[self.i:self.i + 8]))

    def fntype_tail(self):
        # after a return type, optional "(params...)" giving a function type for varargs calls
        if self.peek() == '(':
            depth = 0
            while True:
                w = self.next()
                if w == '(':
                    depth += 1
                elif w == ')':
                    depth -= 1
                    if depth == 0:
                        return

    def attrs(self):
        byval = None
        while True:
            w = self.peek()
            k = self.kind()
            if k == 'word' and w in PARAM_ATTRS:
                self.next()
            elif k == 'word' and w in PARAM_ATTRS_ARG:
                self.next()
                if w == 'align' and self.kind() == 'num':
                    self.next()
                elif self.peek() == '(':
                    self.next()
                    depth = 1
                    save = self.i
                    if w == 'byval':
                        byval = self.type()
                        self.i = save
                    if w == 'sret':
                        self.sret = self.type()
                        self.i = save
                    while depth:
                        x = self.next()
                        if x == '(':
                            depth += 1
                        if x == ')':
                            depth -= 1
            else:
                return byval

    def value(self, ty):
        """value of given type -> operand tuple"""
        k = self.kind()
        w = self.peek()
        if k == 'loc':
            self.next()
            return ('l', w)
        if k == 'glob':
            self.next()
            return ('g', w)
        if k == 'num':
            self.next()
            rt = self.types.resolve(ty)
            if rt[0] == 'f':
                return ('c', ty, f64_const(float(w)))
            return ('c', ty, int(w))
        if k == 'hex':
            self.next()
            if w[2] == 'K':
                return ('c', ty, f80_from_hex(w[3:]))
            if w[2] in 'LMHR':
                raise IRError('fp const ' + w)
            return ('c', ty, f64_const(struct.unpack('>d', bytes.fromhex(w[2:].rjust(16, '0')))[0]))
        if k == 'str':
            self.next()
            return ('cstr', w)
        if k == 'word':
            if w in ('true', 'false'):
                self.next()
                return ('c', ty, 1 if w == 'true' else 0)
            if w == 'null':
                self.next()
                return ('null',)
            if w in ('undef', 'poison'):
                self.next()
                return ('undef', ty)
            if w == 'zeroinitializer':
                self.next()
                return ('zero', ty)
            if w == 'getelementptr':
                self.next()
                self.accept('inbounds')
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if not self.accept(','):
                        break
                self.expect(')')
                return ('cgep', bt, ops)
            if w in ('ptrtoint', 'inttoptr', 'bitcast', 'sub', 'add', 'trunc'):
                # generic constant expression, kept opaque
                self.next()
                depth = 0
                while True:
                    x = self.next()
                    if x == '(':
                        depth += 1
                    elif x == ')':
                        depth -= 1
                        if depth == 0:
                            break
                return ('opaque', w)
        if w in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[w]
            self.next()
            packed = False
            if w == '<' and self.peek() == '{':
                self.next()
                packed = True
                close = '}'
            vals = []
            while not self.accept(close):
                t = self.type()
                vals.append((t, self.value(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', ty, vals)
        raise IRError('value? %s' % ' '.join(x[1] for x in self.t[self.i:self.i + 8]))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Func:
    __slots__ = ('name', 'params', 'ret', 'blocks', 'entry', 'varargs', 'sret')


class Module:
    def __init__(self, text):
        self.types = Types()
        self.globals = {}
        self.gtype = {}
        self.gconst = {}
        self._ro = {}
        self.lines = {}
        self.decls = set()
        self.funcs = {}
        self._raw = {}
        self._split(text)

    def _split(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            s = lines[i]
            if s.startswith('define'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', s)
                name = '@' + m.group(1)
                body = [s]
                i += 1
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                self._raw[name] = body
            elif s.startswith('%') and ' = type ' in s:
                nm, rest = s.split(' = type ', 1)
                if rest.strip() != 'opaque':
                    p = P(tokenize(rest), self.types)
                    self.types.named[nm] = p.type()
            elif s.startswith('@'):
                self._global(s)
            elif s.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', s)
                if m:
                    self.decls.add('@' + m.group(1))
            i += 1

    def _global(self, s):
        nm, rest = s.split(' = ', 1)
        self.gtype[nm] = rest

    def global_init(self, nm):
        """parse lazily; returns (type, operand or None, constant?)"""
        if nm in self.globals:
            return self.globals[nm]
        rest = self.gtype[nm]
        p = P(tokenize(rest), self.types)
        const = False
        ext = False
        while True:
            w = p.peek()
            if w in ('global', 'constant'):
                const = w == 'constant'
                p.next()
                break
            if w in ('external', 'extern_weak', 'available_externally'):
                ext = True
            if w == 'alias':
                self.globals[nm] = (None, None, True)
                return self.globals[nm]
            p.next()
        t = p.type()
        v = None
        if not ext:
            v = p.value(t)
        self.globals[nm] = (t, v, const)
        return self.globals[nm]

    def has(self, name):
        return name in self._raw

    def tls(self, nm):
        return nm in self.gtype and 'thread_local' in self.gtype[nm].split(' global ')[0]

    def guarded(self, nm):
        """a function-local static whose initialisation is guarded"""
        return '@_ZGV' + nm[3:] in self.gtype

    def readonly(self, nm):
        """no function of the unit does anything but load from the object"""
        r = self._ro.get(nm)
        if r is None:
            pat = re.compile(re.escape(nm) + r'(?![-a-zA-Z$._0-9])')
            r = not any(pat.search(x) for g, x in self.gtype.items() if g != nm)
            if r:
                for body in self._raw.values():
                    for ln in body:
                        if nm in ln and pat.search(ln) and not re.match(r'\s*%\S+ = load (?:[^@]*, )?ptr ' + re.escape(nm) + r'(?:,|$)', ln):
                            r = False
            self._ro[nm] = r
        return r

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = self._parse_func(self._raw[name])
        return f

    def _parse_func(self, body):
        f = Func()
        p = P(tokenize(body[0]), self.types)
        p.expect('define')
        # skip linkage etc until type
        while True:
            w = p.peek()
            if p.kind() == 'word' and (w in PARAM_ATTRS or w in PARAM_ATTRS_ARG):
                p.attrs()
                continue
            if p.kind() == 'word' and w in ('linkonce_odr', 'dso_local', 'internal', 'private', 'weak_odr', 'weak', 'hidden', 'protected', 'available_externally', 'fastcc', 'ccc', 'unnamed_addr', 'local_unnamed_addr', 'external', 'dllexport'):
                p.next()
                continue
            break
        f.ret = p.type()
        f.name = p.next()
        p.expect('(')
        f.params = []
        f.varargs = False
        while not p.accept(')'):
            if p.accept('...'):
                f.varargs = True
                continue
            t = p.type()
            byval = p.attrs()
            nm = p.next() if p.kind() == 'loc' else '%' + str(len(f.params))
            f.params.append((t, nm, byval))
            p.accept(',')
        f.sret = getattr(p, 'sret', None)
        f.blocks = {}
        cur = None
        j = 1
        while j < len(body):
            s = body[j]
            j += 1
            st = s.strip()
            if not st or st.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m:
                cur = '%' + m.group(1)
                f.blocks[cur] = []
                if len(f.blocks) == 1:
                    f.entry = cur
                continue
            if cur is None:
                cur = '%0entry'
                f.entry = cur
                f.blocks[cur] = []
            # multi-line instructions: switch [...], invoke, landingpad
            if st.startswith('switch') and '[' in st and ']' not in st.split('[', 1)[1]:
                while ']' not in body[j]:
                    s += ' ' + body[j]
                    j += 1
                s += ' ' + body[j]
                j += 1
            elif re.match(r'(%\S+ = )?invoke\b', st) and ' unwind label ' not in st:
                s += ' ' + body[j]
                j += 1
            elif re.match(r'(%\S+ = )?landingpad\b', st):
                while j < len(body) and re.match(r'^\s+(cleanup|catch|filter)\b', body[j]):
                    s += ' ' + body[j]
                    j += 1
            f.blocks[cur].append(s)
        # parse instrs
        for b in f.blocks:
            f.blocks[b] = [self._parse_instr(s) for s in f.blocks[b]]
        return f

    def _parse_instr(self, s):
        # strip metadata
        s = re.sub(r',\s*!(\w+) !\d+', '', s)
        p = P(tokenize(s), self.types)
        dst = None
        if p.kind() == 'loc' and p.peek(1) == '=':
            dst = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op == 'ret':
            t = p.type()
            if t == ('void',):
                return ('ret', None, None, None)
            return ('ret', None, t, p.value(t))
        if op == 'br':
            if p.accept('label'):
                return ('br', None, p.next())
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.expect('label')
            a = p.next()
            p.expect(',')
            p.expect('label')
            b = p.next()
            return ('cbr', None, c, a, b)
        if op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[2], p.next()))
            return ('switch', None, t, v, d, cases)
        if op in ('call', 'invoke'):
            while p.kind() == 'word' and (p.peek() in FMF or p.peek() in PARAM_ATTRS or p.peek() in ('fastcc', 'ccc') or p.peek() in PARAM_ATTRS_ARG):
                if p.peek() in PARAM_ATTRS or p.peek() in PARAM_ATTRS_ARG:
                    p.attrs()
                else:
                    p.next()
            rt = p.type()
            if p.peek() == '(':
                p.fntype_tail()
            callee = p.value(('ptr',))
            p.expect('(')
            args = []
            while not p.accept(')'):
                t = p.type()
                if t == ('md',):
                    # skip metadata operand
                    while p.peek() not in (',', ')'):
                        if p.peek() == '(':
                            d = 0
                            while True:
                                x = p.next()
                                d += x == '('
                                d -= x == ')'
                                if d == 0:
                                    break
                        else:
                            p.next()
                    p.accept(',')
                    continue
                byval = p.attrs()
                v = p.value(t)
                args.append((t, v, byval))
                p.accept(',')
            norm = unw = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.expect('to')
                p.expect('label')
                norm = p.next()
                p.expect('unwind')
                p.expect('label')
                unw = p.next()
            return ('call', dst, rt, callee, args, norm, unw)
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'resume':
            t = p.type()
            return ('resume', None, p.value(t))
        if op == 'landingpad':
            t = p.type()
            cl = []
            while not p.done():
                w = p.next()
                if w == 'cleanup':
                    cl.append(('cleanup',))
                elif w == 'catch':
                    ct = p.type()
                    cl.append(('catch', p.value(ct)))
                elif w == 'filter':
                    ct = p.type()
                    cl.append(('filter', p.value(ct)))
            return ('landingpad', dst, t, cl)
        if op == 'alloca':
            t = p.type()
            n = None
            if p.accept(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = p.value(nt)
            return ('alloca', dst, t, n)
        if op == 'load':
            p.accept('volatile')
            p.accept('atomic')
            t = p.type()
            p.expect(',')
            p.type()
            return ('load', dst, t, p.value(('ptr',)))
        if op == 'store':
            p.accept('volatile')
            p.accept('atomic')
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            return ('store', None, t, v, p.value(('ptr',)))
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            bt = p.type()
            p.expect(',')
            ops = []
            while True:
                t = p.type()
                ops.append((t, p.value(t)))
                if not p.accept(','):
                    break
            return ('gep', dst, bt, ops)
        if op in ('fcmp', 'icmp'):
            while p.peek() in FMF or p.peek() == 'samesign':
                p.next()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return (op, dst, pred, t, a, b)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            flags = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in FMF:
                flags.add(p.next())
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            return ('bin', dst, op, t, a, b, flags)
        if op == 'fneg':
            while p.peek() in FMF:
                p.next()
            t = p.type()
            return ('fneg', dst, t, p.value(t))
        if op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'bitcast', 'ptrtoint', 'inttoptr'):
            while p.peek() in ('nneg', 'nuw', 'nsw') or p.peek() in FMF:
                p.next()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            return ('cast', dst, op, t, v, p.type())
        if op == 'freeze':
            t = p.type()
            return ('copy', dst, t, p.value(t))
        if op == 'select':
            while p.peek() in FMF:
                p.next()
            t0 = p.type()
            c = p.value(t0)
            p.expect(',')
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            b = p.value(t)
            return ('select', dst, c, t, a, b)
        if op == 'phi':
            while p.peek() in FMF:
                p.next()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                inc.append((v, p.next()))
                p.expect(']')
                if not p.accept(','):
                    break
            return ('phi', dst, t, inc)
        if op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('extractvalue', dst, t, v, idx)
        if op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            v2 = p.value(t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return ('insertvalue', dst, t, v, t2, v2, idx)
        if op == 'extractelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            it = p.type()
            return ('extractelement', dst, t, v, p.value(it))
        if op == 'insertelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            t2 = p.type()
            v2 = p.value(t2)
            p.expect(',')
            it = p.type()
            return ('insertelement', dst, t, v, v2, p.value(it))
        return ('unsupported', dst, s)
