"""Parser for the textual LLVM IR that rustc emits for the code under check.

Only the instruction set rustc produces for scalar Rust code is understood;
anything else raises ParseError, which the checks report as an error (never as
a verdict)."""
import re


class ParseError(Exception):
    pass


TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<cstr>c"(?:[^"])*")
 | (?P<gl>@"(?:[^"])*"|@[-a-zA-Z$._0-9]+)
 | (?P<lo>%"(?:[^"])*"|%[-a-zA-Z$._0-9]+)
 | (?P<meta>!(?:"(?:[^"])*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<str>"(?:[^"])*")
 | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-f]+)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<punct>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError('cannot tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
    return out


# types: ('i',w) ('ptr',) ('void',) ('arr',n,t) ('st',(t..),packed) ('nm',name) ('f',name)
PTR = ('ptr',)
VOID = ('void',)


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}   # name -> (type, init or None)
        self.funcs = {}     # name -> Func
        self.decls = set()
        self.library = None  # gives the texts of the standard library, parsed function by function on demand
        self.index = None

    def _scan(self):
        """where each function and global of the library texts is defined"""
        self.index = {}
        for k, path in enumerate(self.library() if self.library else []):
            with open(path) as fh:
                lines = fh.read().split('\n')
            local = set()
            defs = {}
            i = 0
            while i < len(lines):
                ln = lines[i]
                if ln.startswith('@'):
                    nm = ln.split(' = ', 1)[0]
                    defs[nm] = (ln, None)
                    if re.search(r' = (private|internal) ', ln):
                        local.add(nm)
                elif ln.startswith('define'):
                    j = i
                    while lines[j] != '}':
                        j += 1
                    nm = re.search(r'@"[^"]*"|@[-a-zA-Z$._0-9]+', ln).group()
                    defs[nm] = (ln, lines[i + 1:j])
                    if re.match(r'define (private|internal) ', ln):
                        local.add(nm)
                    i = j
                elif ln.startswith('%') and ' = type ' in ln:
                    nm, rest = ln.split(' = type ', 1)
                    p = P(self, tokenize(rest))
                    if p.peek()[1] != 'opaque' and nm not in self.types:
                        try:
                            self.types[nm] = p.type()
                        except ParseError:
                            pass
                i += 1
            # names local to one text are kept apart from those of the others
            ren = {nm: '@lib%d.%s' % (k, nm[1:].strip('"')) for nm in local}
            for nm, (hdr, body) in defs.items():
                self.index.setdefault(ren.get(nm, nm), (hdr, body, ren))

    def load(self, name):
        """make a function or global of the library known; returns whether it exists"""
        if name in self.funcs or name in self.globals:
            return True
        if self.index is None:
            self._scan()
        e = self.index.get(name)
        if e is None:
            return False
        hdr, body, ren = e

        def sub(s):
            return re.sub(r'@"[^"]*"|@[-a-zA-Z$._0-9]+', lambda m: ren.get(m.group(), m.group()), s) if '@' in s else s
        try:
            if body is None:
                parse_global(self, sub(hdr))
            else:
                f = parse_func(self, sub(hdr), [sub(b) for b in body])
                self.funcs[f.name] = f
        except ParseError:
            return False
        return name in self.funcs or name in self.globals

    def sizeof(self, t):
        k = t[0]
        if k == 'i':
            w = t[1]
            return 1 if w <= 8 else 2 if w <= 16 else 4 if w <= 32 else 8 if w <= 64 else 16
        if k == 'ptr':
            return 8
        if k == 'arr':
            return t[1] * self.sizeof(t[2])
        if k == 'st':
            off = 0
            for e in t[1]:
                if not t[2]:
                    a = self.alignof(e)
                    off = (off + a - 1) // a * a
                off += self.sizeof(e)
            if not t[2] and t[1]:
                a = self.alignof(t)
                off = (off + a - 1) // a * a
            return off
        if k == 'nm':
            return self.sizeof(self.types[t[1]])
        if k == 'f':
            return 4 if t[1] == 'float' else 8
        raise ParseError('sizeof %r' % (t,))

    def alignof(self, t):
        k = t[0]
        if k in ('i', 'ptr', 'f'):
            return self.sizeof(t)
        if k == 'arr':
            return self.alignof(t[2])
        if k == 'st':
            return 1 if t[2] or not t[1] else max(self.alignof(e) for e in t[1])
        if k == 'nm':
            return self.alignof(self.types[t[1]])
        raise ParseError('alignof %r' % (t,))

    def field(self, t, i):
        """offset and type of element i of aggregate type t"""
        if t[0] == 'nm':
            t = self.types[t[1]]
        if t[0] == 'arr':
            return i * self.sizeof(t[2]), t[2]
        off = 0
        for j, e in enumerate(t[1]):
            if not t[2]:
                a = self.alignof(e)
                off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += self.sizeof(e)
        raise ParseError('field')


class Func:
    __slots__ = ('name', 'params', 'blocks', 'nslots', 'ret', 'nbranch', 'text')


PARAM_ATTR_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range',
                  'captures', 'initializes', 'inalloca', 'byref', 'elementtype', 'memory', 'nofpclass',
                  'allocsize', 'preallocated', 'alignstack', 'dead_on_return'}
VALUE_WORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr',
               'inttoptr', 'ptrtoint', 'bitcast', 'splat'}


class P:
    """token cursor"""

    def __init__(self, mod, toks):
        self.m = mod
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, s):
        if self.peek()[1] == s:
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            raise ParseError('expected %s at %r' % (s, self.t[max(0, self.i - 6):self.i + 6]))

    def skip_parens(self):
        self.need('(')
        d = 1
        while d:
            x = self.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        k, s = self.next()
        if k == 'word':
            if s == 'ptr':
                if self.peek()[1] == 'addrspace':
                    self.next()
                    self.skip_parens()
                return PTR
            if s == 'void':
                return VOID
            if re.fullmatch(r'i\d+', s):
                return ('i', int(s[1:]))
            if s in ('float', 'double'):
                return ('f', s)
            raise ParseError('type %s' % s)
        if k == 'lo':
            return ('nm', s)
        if s == '[':
            n = int(self.next()[1])
            self.need('x')
            t = self.type()
            self.need(']')
            return ('arr', n, t)
        if s == '{':
            el = []
            while not self.eat('}'):
                el.append(self.type())
                self.eat(',')
            return ('st', tuple(el), False)
        if s == '<':
            if self.eat('{'):
                el = []
                while not self.eat('}'):
                    el.append(self.type())
                    self.eat(',')
                self.need('>')
                return ('st', tuple(el), True)
            raise ParseError('vector type')
        raise ParseError('type token %r' % s)

    def skip_attrs(self):
        while True:
            k, s = self.peek()
            if k == 'word' and s not in VALUE_WORDS:
                if s in ('align', 'alignstack') and self.peek(1)[0] == 'num':
                    self.i += 2
                    continue
                self.i += 1
                if self.peek()[1] == '(':
                    self.skip_parens()
                continue
            if k == 'str':
                self.i += 1
                if self.eat('='):
                    self.next()
                continue
            if k == 'attr':
                self.i += 1
                continue
            return

    def const(self, t):
        """constant of type t -> ('c',int) ('g',name) ('u',) ('z',) ('agg',[...]) ('b',bytes) ('gep',ty,base,idx)
        or ('r',name) for a register"""
        k, s = self.next()
        if k == 'num':
            return ('c', int(s, 0) if '.' not in s else s)
        if k == 'lo':
            return ('r', s)
        if k == 'gl':
            return ('g', s)
        if k == 'cstr':
            raw = s[2:-1]
            b = bytearray()
            i = 0
            while i < len(raw):
                if raw[i:i + 2] == '\\\\':
                    b.append(92)
                    i += 2
                elif raw[i] == '\\':
                    b.append(int(raw[i + 1:i + 3], 16))
                    i += 3
                else:
                    b += raw[i].encode('utf-8')
                    i += 1
            return ('b', bytes(b))
        if k == 'word':
            if s == 'true':
                return ('c', 1)
            if s == 'false':
                return ('c', 0)
            if s == 'null':
                return ('c', 0)
            if s in ('undef', 'poison'):
                return ('u',)
            if s == 'zeroinitializer':
                return ('z',)
            if s == 'getelementptr':
                while self.peek()[0] == 'word':
                    self.next()
                self.need('(')
                ty = self.type()
                self.need(',')
                pt = self.type()
                base = self.const(pt)
                idx = []
                while self.eat(','):
                    it = self.type()
                    idx.append((it, self.const(it)))
                self.need(')')
                return ('gep', ty, base, idx)
            if s in ('inttoptr', 'ptrtoint', 'bitcast'):
                self.need('(')
                ft = self.type()
                v = self.const(ft)
                self.need('to')
                self.type()
                self.need(')')
                return v
        if s == '<' and self.peek()[1] == '{':
            self.next()
            el = self._aggr('}')
            self.need('>')
            return ('agg', el)
        if s == '{':
            return ('agg', self._aggr('}'))
        if s == '[':
            return ('agg', self._aggr(']'))
        raise ParseError('const %r' % s)

    def _aggr(self, end):
        el = []
        while not self.eat(end):
            t = self.type()
            el.append((t, self.const(t)))
            self.eat(',')
        return el


LINKAGE = {'private', 'internal', 'external', 'unnamed_addr', 'local_unnamed_addr', 'constant', 'global',
           'dso_local', 'hidden', 'protected', 'default', 'linkonce_odr', 'weak_odr', 'weak', 'linkonce',
           'common', 'thread_local', 'available_externally', 'appending', 'extern_weak'}


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    pend = []
    while i < n:
        ln = lines[i]
        i += 1
        if not ln or ln[0] in ';!' or ln.startswith(('target', 'source_filename', 'attributes', '$')):
            continue
        if ln[0] == '%':
            name, rest = ln.split(' = type ', 1) if ' = type ' in ln else (None, None)
            p = P(mod, tokenize(rest))
            if p.peek()[1] == 'opaque':
                continue
            mod.types[name] = p.type()
        elif ln[0] == '@':
            parse_global(mod, ln)
        elif ln.startswith('declare'):
            p = P(mod, tokenize(ln[7:]))
            while p.peek()[0] != 'gl':
                p.next()
            mod.decls.add(p.next()[1])
        elif ln.startswith('define'):
            body = []
            hdr = ln
            while lines[i] != '}':
                body.append(lines[i])
                i += 1
            i += 1
            pend.append((hdr, body))
    for hdr, body in pend:
        try:
            f = parse_func(mod, hdr, body)
        except ParseError:
            # unknown signature: an error only when the function is called
            mod.decls.add(re.search(r'@"[^"]*"|@[-a-zA-Z$._0-9]+', hdr).group())
            continue
        mod.funcs[f.name] = f
    return mod


def parse_global(mod, ln):
    name, rest = ln.split(' = ', 1)
    ext = False
    try:
        p = P(mod, tokenize(rest))
        while True:
            k, s = p.peek()
            if s in LINKAGE:
                ext |= s in ('external', 'extern_weak')
                p.next()
                if s == 'thread_local' and p.peek()[1] == '(':
                    p.skip_parens()
            elif s == 'alias':
                p.next()
                p.type()
                p.need(',')
                p.type()
                mod.globals[name] = (PTR, ('alias', p.const(PTR)))
                return
            elif s == 'addrspace':
                p.next()
                p.skip_parens()
            else:
                break
        t = p.type()
        mod.globals[name] = (t, None if ext else p.const(t))
    except ParseError:
        # constants of unknown form: an error only when the code uses them
        mod.globals[name] = (PTR, None)


def parse_func(mod, hdr, body):
    p = P(mod, tokenize(hdr[6:].rstrip('{ ')))
    f = Func()
    f.text = hdr
    # skip linkage, attributes until the return type: find the function name token first
    gi = next(j for j, (k, s) in enumerate(p.t) if k == 'gl')
    f.name = p.t[gi][1]
    # return type: parse backwards is hard; try each start position
    f.ret = None
    for st in range(gi):
        p.i = st
        try:
            t = p.type()
            if p.i == gi:
                f.ret = t
                break
        except (ParseError, IndexError, ValueError):
            pass
    if f.ret is None:
        raise ParseError('ret type of ' + f.name)
    p.i = gi + 1
    p.need('(')
    slots = {}

    def slot(nm):
        s = slots.get(nm)
        if s is None:
            s = slots[nm] = len(slots)
        return s
    f.params = []
    while not p.eat(')'):
        if p.eat('...'):
            continue
        t = p.type()
        p.skip_attrs()
        nm = p.next()[1]
        f.params.append((slot(nm), t))
        p.eat(',')
    # blocks
    blocks = []
    names = {}
    cur = None
    joined = []
    j = 0
    while j < len(body):
        ln = body[j]
        j += 1
        s = ln.strip()
        if not s or s.startswith(';'):
            continue
        if s.startswith('switch') and s.endswith('['):
            while not body[j].strip().startswith(']'):
                s += ' ' + body[j].strip()
                j += 1
            s += ' ' + body[j].strip()
            j += 1
        if re.match(r'(%\S+ = )?invoke ', s):
            s += ' ' + body[j].strip()
            j += 1
        joined.append((ln, s))
    for ln, s in joined:
        if not ln.startswith(' '):
            m = re.match(r'^("(?:[^"])*"|[-a-zA-Z$._0-9]+):', s)
            if not m:
                raise ParseError('block label %r' % s)
            cur = []
            names['%' + m.group(1)] = len(blocks)
            blocks.append(cur)
        else:
            if cur is None:
                cur = []
                # an entry block without a label has the number after those of the parameters
                names['%' + str(sum(1 for q in slots if q[1:].isdigit()))] = 0
                blocks.append(cur)
            cur.append(s)
    out = []
    nbr = 0
    for b in blocks:
        ins = []
        for s in b:
            try:
                x = parse_instr(mod, s, slot, names)
            except (ParseError, KeyError) as e:
                x = ('unsupported', str(e), s)
            if x is not None:
                if x[0] == 'invoke':
                    # unwinding is not modelled: a panic ends the path
                    ins.append(x[1])
                    x = ('jmp', x[2])
                ins.append(x)
                if x[0] in ('br', 'switch', 'select'):
                    nbr += 1
        out.append(ins)
    f.blocks = out
    f.nslots = len(slots)
    f.nbranch = nbr
    return f


BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze'}


def parse_instr(mod, s, slot, names):
    toks = tokenize(s)
    p = P(mod, toks)
    dst = None
    if len(toks) > 1 and toks[0][0] == 'lo' and toks[1][1] == '=':
        dst = slot(toks[0][1])
        p.i = 2

    def val(t):
        c = p.const(t)
        if c[0] == 'r':
            return ('r', slot(c[1]))
        return ('k', (t, c))   # constant, lowered later

    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    invoke = op == 'invoke'
    if op == 'call' or invoke:
        while p.peek()[0] == 'word' and p.peek()[1] not in ('void', 'ptr', 'float', 'double') and \
                not re.fullmatch(r'i\d+', p.peek()[1]):
            w = p.next()[1]
            if w in ('align',) and p.peek()[0] == 'num':
                p.next()
            elif p.peek()[1] == '(':
                p.skip_parens()
        t = p.type()
        if p.peek()[1] == '(':      # explicit function type
            p.skip_parens()
        k, callee = p.next()
        if k == 'word' and callee == 'asm':
            return ('asm',)
        args = []
        p.need('(')
        while not p.eat(')'):
            if p.peek()[1] == 'metadata':
                # debug intrinsics
                return None
            at = p.type()
            p.skip_attrs()
            args.append((at, val(at)))
            p.eat(',')
        if k == 'gl':
            if callee.startswith(('@llvm.dbg.', '@llvm.lifetime.', '@llvm.experimental.noalias')):
                return None
            c = ('call', dst, t, callee, args)
        else:
            c = ('icall', dst, t, ('r', slot(callee)), args)
        if invoke:
            while p.next()[1] != 'label':
                pass
            return ('invoke', c, names[p.next()[1]])
        return c
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return ('ret', None, None)
        return ('ret', t, val(t))
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            return ('jmp', names[p.next()[1]])
        t = p.type()
        c = val(t)
        p.need(',')
        p.need('label')
        a = names[p.next()[1]]
        p.need(',')
        p.need('label')
        b = names[p.next()[1]]
        return ('br', c, a, b)
    if op == 'switch':
        t = p.type()
        c = val(t)
        p.need(',')
        p.need('label')
        d = names[p.next()[1]]
        p.need('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            cv = p.const(ct)[1] % (1 << ct[1])
            p.need(',')
            p.need('label')
            cases.append((cv, names[p.next()[1]]))
        return ('switch', c, t, d, cases)
    if op == 'unreachable':
        return ('unreachable',)
    if op == 'alloca':
        t = p.type()
        return ('alloca', dst, mod.sizeof(t))
    if op == 'load':
        if p.eat('volatile'):
            pass
        if p.eat('atomic'):
            pass
        t = p.type()
        p.need(',')
        p.type()
        a = val(PTR)
        return ('load', dst, t, a)
    if op == 'store':
        if p.eat('volatile'):
            pass
        if p.eat('atomic'):
            pass
        t = p.type()
        v = val(t)
        p.need(',')
        p.type()
        a = val(PTR)
        return ('store', t, v, a)
    if op == 'getelementptr':
        while p.peek()[0] == 'word' and p.peek()[1] in ('inbounds', 'nuw', 'nusw', 'inrange'):
            p.next()
            if p.peek()[1] == '(':
                p.skip_parens()
        t = p.type()
        p.need(',')
        p.type()
        base = val(PTR)
        idx = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            it = p.type()
            idx.append((it, val(it)))
        # compile into base + sum(scale*idx) + const
        const = 0
        terms = []
        cur = None
        for n_, (it, v) in enumerate(idx):
            if n_ == 0:
                sc = mod.sizeof(t)
                cur = t
            else:
                tt = mod.types[cur[1]] if cur[0] == 'nm' else cur
                if tt[0] == 'st':
                    off, cur = mod.field(tt, v[1][1][1])
                    const += off
                    continue
                sc = mod.sizeof(tt[2])
                cur = tt[2]
            if v[0] == 'k':
                const += sc * v[1][1][1]
            else:
                terms.append((sc, v, it[1]))
        return ('gep', dst, base, const, terms)
    if op == 'icmp':
        if p.peek()[1] == 'samesign':
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = val(t)
        p.need(',')
        b = val(t)
        return ('icmp', dst, pred, t, a, b)
    if op in BINOPS:
        while p.peek()[0] == 'word' and p.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        t = p.type()
        a = val(t)
        p.need(',')
        b = val(t)
        return ('bin', dst, op, t, a, b)
    if op in CASTS:
        while p.peek()[0] == 'word' and p.peek()[1] in ('nuw', 'nsw', 'nneg'):
            p.next()
        t = p.type()
        a = val(t)
        if op == 'freeze':
            return ('mov', dst, a)
        p.need('to')
        t2 = p.type()
        return ('cast', dst, op, t, a, t2)
    if op == 'select':
        while p.peek()[0] == 'word' and not re.fullmatch(r'i\d+', p.peek()[1]):
            p.next()
        ct = p.type()
        c = val(ct)
        p.need(',')
        t = p.type()
        a = val(t)
        p.need(',')
        t2 = p.type()
        b = val(t2)
        return ('select', dst, c, t, a, b)
    if op == 'extractvalue':
        t = p.type()
        a = val(t)
        ix = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            ix.append(int(p.next()[1]))
        return ('extract', dst, a, ix)
    if op == 'insertvalue':
        t = p.type()
        a = val(t)
        p.need(',')
        vt = p.type()
        v = val(vt)
        ix = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            ix.append(int(p.next()[1]))
        return ('insert', dst, t, a, v, ix)
    if op == 'phi':
        t = p.type()
        inc = []
        while p.eat('['):
            v = val(t)
            p.need(',')
            inc.append((names[p.next()[1]], v))
            p.need(']')
            p.eat(',')
        return ('phi', dst, inc)
    if op == 'fence':
        return None
    if op == 'atomicrmw':
        p.eat('volatile')
        how = p.next()[1]
        p.type()
        a = val(PTR)
        p.need(',')
        t = p.type()
        return ('rmw', dst, how, t, a, val(t))
    if op == 'cmpxchg':
        p.eat('weak')
        p.eat('volatile')
        p.type()
        a = val(PTR)
        p.need(',')
        t = p.type()
        c = val(t)
        p.need(',')
        p.type()
        return ('cas', dst, t, a, c, val(t))
    return ('unsupported', op, s)
