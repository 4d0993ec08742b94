"""Reading LLVM IR: types with their layout, globals, functions, locations."""
import re
import subprocess


class IRError(Exception):
    pass


TOK = re.compile(r'''\s*(?:
    (?P<cstr>c"(?:[^"\\]|\\.)*") |
    (?P<var>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+)) |
    (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*)) |
    (?P<num>-?(?:0x[0-9A-Fa-fKLMHR]+|\d+\.\d*(?:e[-+]?\d+)?|\d+)) |
    (?P<word>\.\.\.|[a-zA-Z_][-a-zA-Z$._0-9]*) |
    (?P<attr>\#\d+) |
    (?P<str>"[^"]*") |
    (?P<p>[\[\]{}<>(),=*:|])
)''', re.X)


def tokens(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '' or s[i:].lstrip().startswith(';'):
                break
            raise IRError('cannot read: ' + s[i:i + 60])
        if m.lastgroup is None:
            break
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out


def unescape(t):
    """bytes of c"..." """
    t = t[2:-1]
    out, i = bytearray(), 0
    while i < len(t):
        if t[i] == '\\' and t[i + 1] == '\\':
            out.append(92)
            i += 2
        elif t[i] == '\\':
            out.append(int(t[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(t[i]))
            i += 1
    return bytes(out)


# types: ('i', bits) ('p',) ('void',) ('f', bits) ('arr', n, t) ('st', name)
# ('lit', (types), packed) ('fn',) ('other', word)
PARAM_ATTRS = {
    'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'byval', 'sret',
    'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'returned',
    'immarg', 'nest', 'swiftself', 'align', 'dereferenceable',
    'dereferenceable_or_null', 'allocptr', 'nofree', 'noreturn',
}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise IRError(f'expected {v}, have {self.t[self.i:self.i + 6]}')

    def type(self):
        v = self.next()
        if re.fullmatch(r'i\d+', v):
            t = ('i', int(v[1:]))
        elif v == 'ptr':
            t = ('p',)
        elif v == 'void':
            t = ('void',)
        elif v in ('float', 'double', 'half', 'x86_fp80'):
            t = ('f', {'half': 16, 'float': 32, 'double': 64}.get(v, 128))
        elif v == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            t = ('arr', n, e)
        elif v == '{':
            t = self.body(False)
        elif v == '<':
            if self.eat('{'):
                t = self.body(True)
                self.need('>')
            else:
                n = int(self.next())
                self.need('x')
                e = self.type()
                self.need('>')
                t = ('arr', n, e)
        elif v.startswith('%'):
            t = ('st', v)
        elif v in ('label', 'metadata', 'opaque', 'token'):
            t = ('other', v)
        else:
            raise IRError('type? ' + v)
        while True:
            if self.peek() == '(':      # function type
                self.skip_parens()
                t = ('fn', t)
            elif self.peek() == '*':
                self.next()
                t = ('p',)
            elif self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
            else:
                return t

    def body(self, packed):
        ts = []
        while not self.eat('}'):
            ts.append(self.type())
            self.eat(',')
        return ('lit', tuple(ts), packed)

    def skip_parens(self):
        self.need('(')
        d = 1
        while d:
            v = self.next()
            d += (v == '(') - (v == ')')

    def attrs(self):
        while self.peek() in PARAM_ATTRS:
            w = self.next()
            if self.peek() == '(':
                self.skip_parens()
            elif w == 'align' and self.kind() == 'num':
                self.next()

    def value(self, t):
        """an operand: ('c', int) ('null',) ('g', name) ('l', name)
        ('undef',) ('zero',) ('bytes', b) ('agg', [(t, v)...])
        ('gep', type, base, idx) ('cast', value) ('meta',) ('fp', text)"""
        k, v = self.kind(), self.next()
        if k == 'num':
            if t and t[0] == 'f':
                return ('fp', v)
            return ('c', int(v, 0) if not v.startswith('0x')
                    else ('fp', v))
        if v == 'true':
            return ('c', 1)
        if v == 'false':
            return ('c', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v in ('zeroinitializer', 'none'):
            return ('zero',)
        if k == 'var':
            return ('g' if v[0] == '@' else 'l', v[1:].strip('"'))
        if k == 'cstr':
            return ('bytes', unescape(v))
        if v in ('{', '['):
            end = {'{': '}', '[': ']'}[v]
            out = []
            while not self.eat(end):
                et = self.type()
                out.append((et, self.value(et)))
                self.eat(',')
            return ('agg', out)
        if v == '<':
            self.need('{')
            out = []
            while not self.eat('}'):
                et = self.type()
                out.append((et, self.value(et)))
                self.eat(',')
            self.need('>')
            return ('agg', out)
        if v == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                self.next()
            self.need('(')
            bt = self.type()
            self.need(',')
            self.type()
            base = self.value(None)
            idx = []
            while self.eat(','):
                it = self.type()
                idx.append(self.value(it))
            self.need(')')
            return ('gep', bt, base, idx)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext',
                 'addrspacecast'):
            self.need('(')
            ft = self.type()
            x = self.value(ft)
            self.need('to')
            self.type()
            self.need(')')
            return ('cast', v, x)
        if v in ('add', 'sub', 'or', 'and', 'xor', 'shl'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.need('(')
            at = self.type()
            a = self.value(at)
            self.need(',')
            bt = self.type()
            b = self.value(bt)
            self.need(')')
            return ('cbin', v, a, b)
        if v == 'metadata' or k == 'meta':
            return ('meta',)
        raise IRError(f'operand? {v}')


class Instr:
    __slots__ = ('op', 'res', 'a', 'line')

    def __init__(self, op, res, a, line):
        self.op, self.res, self.a, self.line = op, res, a, line


class Function:
    def __init__(self, name, ret, params, internal):
        self.name = name
        self.ret = ret
        self.params = params        # (type, name)
        self.blocks = {}
        self.order = []
        self.internal = internal
        self.line = 0
        self.file = None
        self.vararg = False


class Module:
    def __init__(self, text, path):
        self.path = path
        self.structs = {}
        self.globals = {}           # name -> (type, value or None, constant)
        self.functions = {}
        self.meta = {}
        self.parse(text)
        self.members = {}
        self.load_members()

    # ---- layout
    def align(self, t):
        k = t[0]
        if k == 'i':
            return max(1, min(8, (t[1] + 7) // 8)) if t[1] <= 64 else 16
        if k in ('p', 'fn'):
            return 8
        if k == 'f':
            return min(16, t[1] // 8)
        if k == 'arr':
            return self.align(t[2])
        if k == 'st':
            return self.align(self.struct(t[1]))
        if k == 'lit':
            return 1 if t[2] else max([self.align(x) for x in t[1]] or [1])
        raise IRError(f'no layout of {t}')

    def struct(self, name):
        t = self.structs.get(name)
        if t is None or t[0] == 'other':
            raise IRError('opaque type ' + name)
        return t

    def size(self, t):
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = self.align(t)
            return -(-n // a) * a
        if k in ('p', 'fn'):
            return 8
        if k == 'f':
            return t[1] // 8
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'st':
            return self.size(self.struct(t[1]))
        if k == 'lit':
            off = 0
            for x in t[1]:
                if not t[2]:
                    a = self.align(x)
                    off = -(-off // a) * a
                off += self.size(x)
            a = self.align(t)
            return -(-off // a) * a
        raise IRError(f'no size of {t}')

    def field(self, t, n):
        """(offset, type) of field n of a struct"""
        if t[0] == 'st':
            t = self.struct(t[1])
        off = 0
        for i, x in enumerate(t[1]):
            if not t[2]:
                a = self.align(x)
                off = -(-off // a) * a
            if i == n:
                return off, x
            off += self.size(x)
        raise IRError('no such field')

    # ---- debug information
    def load_members(self):
        """struct or typedef name -> {offset: member name}"""
        comp = {}
        for k, v in self.meta.items():
            if v.startswith(('!DICompositeType', 'distinct !DICompositeType')
                            ) and 'DW_TAG_structure_type' in v:
                m = re.search(r'elements: !(\d+)', v)
                if not m:
                    continue
                offs = {}
                for e in re.findall(r'!(\d+)', self.meta.get(m.group(1), '')):
                    d = self.meta.get(e, '')
                    if 'DW_TAG_member' not in d:
                        continue
                    nm = re.search(r'name: "([^"]*)"', d)
                    off = re.search(r'offset: (\d+)', d)
                    offs[int(off.group(1)) // 8 if off else 0] = \
                        nm.group(1) if nm else ''
                comp[k] = offs
                nm = re.search(r'name: "([^"]*)"', v)
                if nm:
                    self.members[nm.group(1)] = offs
        for k, v in self.meta.items():
            if 'DW_TAG_typedef' in v:
                nm = re.search(r'name: "([^"]*)"', v)
                bt = re.search(r'baseType: !(\d+)', v)
                if nm and bt and bt.group(1) in comp:
                    self.members.setdefault(nm.group(1), comp[bt.group(1)])

    def line(self, ref):
        v = self.meta.get(ref, '')
        m = re.search(r'DILocation\(line: (\d+)', v) or \
            re.search(r'\bline: (\d+)', v)
        return int(m.group(1)) if m else 0

    # ---- reading
    def parse(self, text):
        lines = text.split('\n')
        body = []
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith('!'):
                m = re.match(r'!(\d+) = (.*)', ln)
                if m:
                    self.meta[m.group(1)] = m.group(2)
            elif ln.startswith('%'):
                m = re.match(r'(%\S+) = type (.*)', ln)
                if m:
                    p = P(tokens(m.group(2)), self)
                    self.structs[m.group(1)] = p.type()
            elif ln.startswith('@'):
                body.append(ln)
            elif ln.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                body.append(lines[i:j])
                i = j
            i += 1
        for b in body:
            if isinstance(b, str):
                self.read_global(b)
            else:
                self.read_function(b)

    def read_global(self, ln):
        ln = re.sub(r', (align|section|comdat|!dbg).*$', '', ln)
        p = P(tokens(ln), self)
        name = p.next()[1:].strip('"')
        p.need('=')
        ext = False
        while True:
            w = p.peek()
            if w in ('global', 'constant'):
                const = p.next() == 'constant'
                break
            if w in ('external', 'extern_weak'):
                ext = True
            if w == 'alias':
                return
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        t = p.type()
        v = None if ext or p.i >= len(p.t) else p.value(t)
        self.globals[name] = (t, v, const)

    def read_function(self, lines):
        head = lines[0]
        m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', head)
        name = m.group(1).strip('"')
        pre = head[len('define'):m.start()]
        pp = P(tokens(pre), self)
        while pp.peek() is not None and not re.match(
                r'i\d+$|ptr$|void$|float$|double$|[%{\[<]', pp.peek()):
            pp.next()
            if pp.peek() == '(':
                pp.skip_parens()
        ret = pp.type()
        p = P(tokens(re.sub(r'!dbg.*$', '', head[m.end() - 1:]
                            .split(' #')[0].split(' !dbg')[0])), self)
        p.need('(')
        params = []
        f = Function(name, ret, params, 'internal' in pre)
        while not p.eat(')'):
            if p.eat('...'):
                f.vararg = True
                continue
            t = p.type()
            p.attrs()
            n = p.next()[1:] if p.kind() == 'var' else str(len(params))
            params.append((t, n))
            p.eat(',')
        m = re.search(r'!dbg !(\d+)', head)
        if m:
            d = self.meta_later(m.group(1))
            f.meta = m.group(1)
        else:
            f.meta = None
        blk = 'entry'
        cur = []
        f.blocks[blk] = cur
        f.order.append(blk)
        first = True
        k = 1
        while k < len(lines):
            ln = lines[k]
            k += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                blk = m.group(1).strip('"')
                if first and not cur:
                    del f.blocks['entry']
                    f.order.pop()
                cur = []
                f.blocks[blk] = cur
                f.order.append(blk)
                first = False
                continue
            first = False
            if s.startswith('switch') and ']' not in s:
                while ']' not in lines[k]:
                    s += ' ' + lines[k].strip()
                    k += 1
                s += ' ' + lines[k].strip()
                k += 1
            ins = self.read_instr(s)
            if ins is not None:
                cur.append(ins)
        self.functions[name] = f

    def meta_later(self, ref):
        return ref

    def read_instr(self, s):
        m = re.search(r', !dbg !(\d+)', s)
        line = m.group(1) if m else None
        if '@llvm.dbg.' in s:
            return None
        s = re.sub(r', ![a-zA-Z.]+ !\d+', '', s)
        s = re.sub(r' #\d+$', '', s)
        p = P(tokens(s), self)
        res = None
        if p.kind() == 'var' and p.peek(1) == '=':
            res = p.next()[1:]
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        a = getattr(self, 'i_' + op, self.i_other)(p, op)
        return Instr(op if a[:1] != ('other',) else 'other', res, a, line)

    def tv(self, p):
        t = p.type()
        p.attrs()
        return t, p.value(t)

    def i_other(self, p, op):
        return ('other', op)

    def i_alloca(self, p, op):
        t = p.type()
        n = None
        if p.eat(',') and p.peek() != 'align':
            n = self.tv(p)[1]
        return (t, n)

    def i_load(self, p, op):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t = p.type()
        p.need(',')
        return (t, self.tv(p)[1])

    def i_store(self, p, op):
        while p.peek() in ('volatile', 'atomic'):
            p.next()
        t, v = self.tv(p)
        p.need(',')
        return (t, v, self.tv(p)[1])

    def i_getelementptr(self, p, op):
        while p.peek() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type()
        p.need(',')
        base = self.tv(p)[1]
        idx = []
        while p.eat(','):
            idx.append(self.tv(p))
        return (bt, base, idx)

    def i_icmp(self, p, op):
        pred = p.next()
        if pred == 'samesign':
            pred = p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        return (pred, t, a, p.value(t))

    def i_fcmp(self, p, op):
        return ('other', op)

    def i_br(self, p, op):
        if p.peek() == 'label':
            p.next()
            return (p.next()[1:].strip('"'),)
        p.type()
        c = p.value(('i', 1))
        p.need(',')
        p.need('label')
        x = p.next()[1:].strip('"')
        p.need(',')
        p.need('label')
        return (c, x, p.next()[1:].strip('"'))

    def i_switch(self, p, op):
        t = p.type()
        v = p.value(t)
        p.need(',')
        p.need('label')
        d = p.next()[1:].strip('"')
        p.need('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            c = p.value(ct)
            p.need(',')
            p.need('label')
            cases.append((c, p.next()[1:].strip('"')))
        return (t, v, d, cases)

    def i_ret(self, p, op):
        t = p.type()
        return (t, None if t == ('void',) else p.value(t))

    def i_unreachable(self, p, op):
        return ()

    def i_phi(self, p, op):
        t = p.type()
        out = []
        while True:
            p.need('[')
            v = p.value(t)
            p.need(',')
            out.append((v, p.next()[1:].strip('"')))
            p.need(']')
            if not p.eat(','):
                break
        return (t, out)

    def i_select(self, p, op):
        t, c = self.tv(p)
        p.need(',')
        t, a = self.tv(p)
        p.need(',')
        return (c, t, a, self.tv(p)[1])

    def cast(self, p, op):
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.next()
        t, v = self.tv(p)
        p.need('to')
        return (t, v, p.type())
    i_zext = i_sext = i_trunc = i_bitcast = i_ptrtoint = i_inttoptr = \
        i_sitofp = i_uitofp = i_fptosi = i_fpext = i_fptrunc = cast

    def binary(self, p, op):
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        t = p.type()
        a = p.value(t)
        p.need(',')
        return (t, a, p.value(t))
    i_add = i_sub = i_mul = i_and = i_or = i_xor = i_shl = i_lshr = \
        i_ashr = i_sdiv = i_udiv = i_srem = i_urem = binary

    def i_freeze(self, p, op):
        return self.tv(p)

    def i_call(self, p, op):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
                           'fastcc', 'ccc') or p.peek() in PARAM_ATTRS:
            w = p.next()
            if p.peek() == '(':
                p.skip_parens()
        t = p.type()
        if t[0] == 'fn':
            t = t[1]
        f = p.value(None)
        p.need('(')
        args = []
        while not p.eat(')'):
            at = p.type()
            p.attrs()
            if at == ('other', 'metadata'):
                while p.peek() not in (',', ')'):
                    p.next()
                args.append((at, ('meta',)))
            else:
                args.append((at, p.value(at)))
            p.eat(',')
        return (t, f, args)


def compile_ir(path, flags):
    r = subprocess.run(
        ['clang', '-O0', '-g', '-w', '-Wno-error=int-conversion',
         '-Wno-error=incompatible-function-pointer-types',
         '-Wno-error=implicit-function-declaration',
         '-Wno-error=return-mismatch', '-Xclang', '-disable-O0-optnone',
         '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-S',
         '-emit-llvm', *flags, '-o', '-', path],
        capture_output=True, text=True)
    if r.returncode:
        raise IRError('does not compile: ' + r.stderr[-800:])
    return Module(r.stdout, path)
