"""Parser for textual LLVM IR (clang/opt 18, opaque pointers).  Function bodies are parsed lazily."""
import re
import struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:(?P<cstr>c"(?:[^"])*")|(?P<name>[%@](?:"[^"]*"|[-\w.$]+))|(?P<str>"[^"]*")|(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)|(?P<flt>-?\d+\.\d*(?:[eE][-+]?\d+)?)|(?P<int>-?\d+)|(?P<word>[A-Za-z_$][\w.$]*)|(?P<dots>\.\.\.)|(?P<p>[(){}\[\]<>,=*!\#:|]))''')


class ParseError(Exception):
    pass


class T:
    """type: kind in int float ptr void array struct vector label metadata"""
    __slots__ = ('k', 'n', 'e', 'packed')

    def __init__(self, k, n=None, e=None, packed=False):
        self.k, self.n, self.e, self.packed = k, n, e, packed

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.n
        if self.k == 'float':
            return {32: 'float', 64: 'double', 80: 'x86_fp80'}[self.n]
        if self.k == 'array':
            return '[%d x %r]' % (self.n, self.e)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.e))
        return self.k

    def align(self):
        if self.k == 'int':
            return max(1, 1 << ((self.n + 7) // 8 - 1).bit_length()) if self.n > 8 else 1
        if self.k == 'float':
            return {32: 4, 64: 8, 80: 16}[self.n]
        if self.k == 'ptr':
            return 8
        if self.k == 'array':
            return self.e.align()
        if self.k == 'struct':
            return 1 if self.packed else max([x.align() for x in self.e], default=1)
        raise ParseError('align %r' % self)

    def size(self):
        if self.k == 'int':
            b = (self.n + 7) // 8
            a = self.align()
            return (b + a - 1) // a * a
        if self.k == 'float':
            return {32: 4, 64: 8, 80: 16}[self.n]
        if self.k == 'ptr':
            return 8
        if self.k == 'array':
            return self.n * self.e.size()
        if self.k == 'struct':
            o = self.offsets()
            a = self.align()
            end = o[-1] + self.e[-1].size() if self.e else 0
            return (end + a - 1) // a * a
        if self.k == 'void':
            return 0
        raise ParseError('size %r' % self)

    def offsets(self):
        out, off = [], 0
        for x in self.e:
            if not self.packed:
                a = x.align()
                off = (off + a - 1) // a * a
            out.append(off)
            off += x.size()
        return out


I1, I8, I32, I64 = T('int', 1), T('int', 8), T('int', 32), T('int', 64)
PTR, VOID, F64, F32 = T('ptr'), T('void'), T('float', 64), T('float', 32)

ATTRS = set('''dead_on_unwind writable dead_on_return noundef nonnull signext zeroext inreg nocapture readonly readnone writeonly noalias nofree returned immarg
 dead_on_unwind writable swiftself swiftasync nest local_unnamed_addr unnamed_addr dso_local linkonce_odr internal private weak_odr weak
 external available_externally hidden protected default constant global tail musttail notail fastcc ccc coldcc nuw nsw exact inbounds disjoint
 fast nnan ninf nsz arcp contract afn reassoc volatile nneg thread_local comdat allocptr allocalign preallocated inalloca'''.split())


class Lex:
    def __init__(self, s):
        self.toks = []
        pos = 0
        n = len(s)
        while pos < n:
            m = TOK.match(s, pos)
            if not m:
                if s[pos:].strip() == '' or s[pos:].lstrip().startswith(';'):
                    break
                raise ParseError('lex: ' + s[pos:pos + 60])
            pos = m.end()
            self.toks.append((m.lastgroup, m.group(m.lastgroup)))
        self.i = 0

    def peek(self, k=0):
        return self.toks[self.i + k][1] if self.i + k < len(self.toks) else None

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def next(self):
        if self.i >= len(self.toks):
            raise ParseError('eol')
        t = self.toks[self.i]
        self.i += 1
        return t[1]

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise ParseError('expected %s got %s in %s' % (v, self.peek(), ' '.join(t[1] for t in self.toks)))

    def skip_parens(self):
        d = 0
        while True:
            t = self.next()
            if t == '(':
                d += 1
            elif t == ')':
                d -= 1
                if d == 0:
                    return


class Module:
    def __init__(self, text):
        self.types_src = {}
        self.types = {}
        self.globals_src = {}
        self.funcs_src = {}
        self.funcs = {}
        self.decls = {}
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                n, d = l.split(' = type ', 1)
                self.types_src[unq(n[1:])] = d
            elif l.startswith('@'):
                n, d = l.split(' = ', 1)
                n = unq(n[1:])
                if re.search(r'\balias\b', d.split('@')[0]):
                    m = re.search(r'(@(?:"[^"]*"|[-\w.$]+))\s*(?:,|$)', d)
                    self.aliases[n] = unq(m.group(1)[1:])
                else:
                    self.globals_src[n] = d
            elif l.startswith('define'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\s*\(', l)
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs_src[unq(m.group(1))] = (l, lines[i + 1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\s*\(', l)
                self.decls[unq(m.group(1))] = l
            i += 1

    # ---- types
    def named(self, n):
        if n not in self.types:
            src = self.types_src.get(n)
            if src is None or src.strip() == 'opaque':
                self.types[n] = T('struct', None, [])
            else:
                self.types[n] = self.ptype(Lex(src))
        return self.types[n]

    def ptype(self, L):
        t = L.next()
        if t[0] == 'i' and t[1:].isdigit():
            r = T('int', int(t[1:]))
        elif t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif t == 'double':
            r = F64
        elif t == 'float':
            r = F32
        elif t == 'x86_fp80':
            r = T('float', 80)
        elif t in ('label', 'metadata', 'token', 'half'):
            r = T(t)
        elif t[0] == '%':
            r = self.named(unq(t[1:]))
        elif t == '[':
            n = int(L.next())
            L.expect('x')
            e = self.ptype(L)
            L.expect(']')
            r = T('array', n, e)
        elif t == '<' and L.peek() != '{':
            n = int(L.next())
            L.expect('x')
            e = self.ptype(L)
            L.expect('>')
            r = T('vector', n, e)
        elif t in ('{', '<'):
            packed = t == '<'
            if packed:
                L.expect('{')
            es = []
            if not L.accept('}'):
                while True:
                    es.append(self.ptype(L))
                    if L.accept('}'):
                        break
                    L.expect(',')
            if packed:
                L.expect('>')
            r = T('struct', None, es, packed)
        elif t == 'opaque':
            r = T('struct', None, [])
        else:
            raise ParseError('type? %s' % t)
        if L.peek() == '(':      # function type: keep return type only
            L.skip_parens()
        return r

    # ---- operands: ('reg',name) ('int',v) ('flt',Fraction|str) ('null',) ('undef',) ('zero',) ('glob',name) ('gep',...) ('agg',[...]) ('cast',..)
    def pval(self, L, ty):
        k = L.kind()
        t = L.next()
        if k == 'name':
            return ('reg', unq(t[1:])) if t[0] == '%' else ('glob', unq(t[1:]))
        if k == 'int':
            if ty.k == 'float':
                return ('flt', Fraction(int(t)))
            return ('int', int(t))
        if k == 'flt':
            v = Fraction(float(t))
            return ('flt', v)
        if k == 'hex':
            if t[2] in 'KLMHR':
                if t[2] == 'K':
                    b = int(t[3:], 16)
                    sign = b >> 79
                    e = (b >> 64) & 0x7fff
                    man = b & ((1 << 64) - 1)
                    v = Fraction(man) * Fraction(2) ** (e - 16383 - 63)
                    return ('flt', -v if sign else v)
                return ('undef',)
            d = struct.unpack('>d', bytes.fromhex(t[2:].zfill(16)))[0]
            if d != d:
                return ('fspecial', 'nan')
            if d in (float('inf'), float('-inf')):
                return ('fspecial', '+inf' if d > 0 else '-inf')
            return ('flt', Fraction(d))
        if k == 'cstr':
            return ('bytes', cunescape(t[2:-1]))
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t in ('{', '[', '<'):
            if t == '<' and L.peek() == '{':
                L.next()
                close = ['}', '>']
            else:
                close = [{'{': '}', '[': ']', '<': '>'}[t]]
            es = []
            if L.peek() != close[0]:
                while True:
                    et = self.ptype(L)
                    es.append((et, self.pval(L, et)))
                    if not L.accept(','):
                        break
            for c in close:
                L.expect(c)
            return ('agg', es)
        if t == 'getelementptr':
            while L.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                L.next()
            L.expect('(')
            et = self.ptype(L)
            L.expect(',')
            args = []
            while True:
                while L.peek() == 'inrange':
                    L.next()
                at = self.ptype(L)
                args.append((at, self.pval(L, at)))
                if not L.accept(','):
                    break
            L.expect(')')
            return ('gep', et, args)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'addrspacecast'):
            L.expect('(')
            ft = self.ptype(L)
            v = self.pval(L, ft)
            L.expect('to')
            tt = self.ptype(L)
            L.expect(')')
            return ('cast', t, ft, v, tt)
        if t in ('sub', 'add', 'mul'):
            while L.peek() in ('nuw', 'nsw'):
                L.next()
            L.expect('(')
            at = self.ptype(L)
            a = self.pval(L, at)
            L.expect(',')
            bt = self.ptype(L)
            b = self.pval(L, bt)
            L.expect(')')
            return ('cbin', t, at, a, b)
        if t == 'blockaddress':
            L.skip_parens()
            return ('undef',)
        if t in ('dso_local_equivalent', 'no_cfi'):
            return self.pval(L, ty)
        raise ParseError('value? %s' % t)

    def skip_attrs(self, L):
        """skip parameter / function attributes; returns dict of interesting ones"""
        info = {}
        while True:
            t = L.peek()
            if t is None:
                return info
            if t in ('byval', 'sret', 'elementtype', 'inalloca', 'preallocated', 'byref'):
                L.next()
                L.expect('(')
                ty = self.ptype(L)
                L.expect(')')
                info[t] = ty
            elif t in ('align', 'alignstack'):
                L.next()
                if L.peek() == '(':
                    L.skip_parens()
                else:
                    L.next()
            elif t in ('dereferenceable', 'dereferenceable_or_null', 'addrspace', 'memory', 'nofpclass', 'captures', 'range', 'initializes'):
                L.next()
                L.skip_parens()
            elif t in ATTRS or (t == 'ccc'):
                L.next()
                if L.peek() == '(' and t in ('comdat',):
                    L.skip_parens()
            else:
                return info

    # ---- functions
    def resolve(self, n):
        while n in self.aliases:
            n = self.aliases[n]
        return n

    def has(self, n):
        return self.resolve(n) in self.funcs_src

    def func(self, n):
        n = self.resolve(n)
        f = self.funcs.get(n)
        if f is None:
            f = self.funcs[n] = Func(self, n, *self.funcs_src[n])
        return f


class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text', 'flags')

    def __init__(self, op, dst, ty, a, text, flags=()):
        self.op, self.dst, self.ty, self.a, self.text, self.flags = op, dst, ty, a, text, flags


def cut_header(h):
    """the function header up to the parenthesis closing its parameter list"""
    m = re.search(r'@("[^"]*"|[-\w.$]+)\(', h)
    i = m.end()
    d, q = 1, False
    while d:
        ch = h[i]
        if ch == '"':
            q = not q
        elif not q and ch == '(':
            d += 1
        elif not q and ch == ')':
            d -= 1
        i += 1
    return h[:i]


class Func:
    def __init__(self, mod, name, header, lines):
        self.name = name
        self.mod = mod
        L = Lex(cut_header(header))
        L.expect('define')
        mod.skip_attrs(L)
        while L.peek() in ATTRS or L.peek() == 'range':
            mod.skip_attrs(L)
        self.ret = mod.ptype(L)
        L.next()  # name
        L.expect('(')
        self.params = []
        self.vararg = False
        if not L.accept(')'):
            while True:
                if L.peek() == '...':
                    L.next()
                    self.vararg = True
                else:
                    ty = mod.ptype(L)
                    info = mod.skip_attrs(L)
                    nm = L.next() if L.kind() == 'name' else None
                    self.params.append((ty, unq(nm[1:]) if nm else str(len(self.params)), info))
                if not L.accept(','):
                    break
        self.blocks = {}
        self.order = []
        cur = None
        i = 0
        # unnamed entry block takes next number after unnamed params
        while i < len(lines):
            l = lines[i]
            s = l.strip()
            if not s or s.startswith(';'):
                i += 1
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                cur = unq(m.group(1))
                self.blocks[cur] = []
                self.order.append(cur)
                i += 1
                continue
            if cur is None:
                cur = str(sum(1 for p in self.params if p[1].isdigit()))
                self.blocks[cur] = []
                self.order.append(cur)
            if re.match(r'(%[^=]*= )?(tail |notail |musttail )?invoke ', s):
                while ' unwind label ' not in s:
                    i += 1
                    s += ' ' + lines[i].strip()
            if s.startswith('switch'):
                while ']' not in s[s.index('['):]:
                    i += 1
                    s += ' ' + lines[i].strip()
            if '= landingpad' in s:
                while i + 1 < len(lines) and lines[i + 1].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                    i += 1
                    s += ' ' + lines[i].strip()
            self.blocks[cur].append(self.parse(s))
            i += 1
        self.entry = self.order[0]
        self._loops = None

    def parse(self, s):
        # strip metadata attachments
        s0 = s
        s = re.sub(r', ![\w.]+ ![\w.]+', '', s)
        s = re.sub(r', ![\w.]+ !\{[^}]*\}', '', s)
        m = self.mod
        dst = None
        mm = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = ', s)
        if mm:
            dst = unq(mm.group(1)[1:])
            s = s[mm.end():]
        L = Lex(s)
        op = L.next()
        while op in ('tail', 'notail', 'musttail'):
            op = L.next()
        if op == 'call' or op == 'invoke':
            info = None
            while L.peek() in ATTRS or L.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
                m.skip_attrs(L)
            ty = m.ptype(L)
            if L.kind() == 'word' and L.peek() == 'asm':
                return Ins('unsupported', dst, ty, None, s0)
            callee = m.pval(L, PTR)
            L.expect('(')
            args = []
            if not L.accept(')'):
                while True:
                    at = m.ptype(L)
                    ainfo = m.skip_attrs(L)
                    if at.k == 'metadata':
                        while L.peek() not in (',', ')'):
                            if L.peek() == '(':
                                L.skip_parens()
                            else:
                                L.next()
                        args.append((at, ('undef',), ainfo))
                    else:
                        args.append((at, m.pval(L, at), ainfo))
                    if L.accept(')'):
                        break
                    L.expect(',')
            a = dict(callee=callee, args=args)
            if op == 'invoke':
                rest = s[s.rindex(' to label'):]
                mm = re.match(r' to label (%(?:"[^"]*"|[-\w.$]+)) unwind label (%(?:"[^"]*"|[-\w.$]+))', rest)
                a['to'] = unq(mm.group(1)[1:])
                a['unwind'] = unq(mm.group(2)[1:])
            return Ins(op, dst, ty, a, s0)
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'ashr', 'lshr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = []
            while L.peek() in ATTRS:
                fl.append(L.next())
            ty = m.ptype(L)
            a = m.pval(L, ty)
            L.expect(',')
            b = m.pval(L, ty)
            return Ins(op, dst, ty, (a, b), s0, tuple(fl))
        if op == 'fneg':
            while L.peek() in ATTRS:
                L.next()
            ty = m.ptype(L)
            return Ins(op, dst, ty, (m.pval(L, ty),), s0)
        if op in ('icmp', 'fcmp'):
            while L.peek() in ATTRS:
                L.next()
            pred = L.next()
            ty = m.ptype(L)
            a = m.pval(L, ty)
            L.expect(',')
            b = m.pval(L, ty)
            return Ins(op, dst, I1, (pred, ty, a, b), s0)
        if op in ('sext', 'zext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            while L.peek() in ATTRS:
                L.next()
            ft = m.ptype(L)
            v = m.pval(L, ft)
            L.expect('to')
            tt = m.ptype(L)
            return Ins(op, dst, tt, (ft, v), s0)
        if op == 'alloca':
            while L.peek() in ATTRS:
                L.next()
            ty = m.ptype(L)
            n = ('int', 1)
            if L.accept(','):
                if L.peek() != 'align':
                    nt = m.ptype(L)
                    n = m.pval(L, nt)
            return Ins(op, dst, PTR, (ty, n), s0)
        if op == 'load':
            while L.peek() in ATTRS or L.peek() == 'atomic':
                L.next()
            ty = m.ptype(L)
            L.expect(',')
            pt = m.ptype(L)
            return Ins(op, dst, ty, (m.pval(L, pt),), s0)
        if op == 'store':
            while L.peek() in ATTRS or L.peek() == 'atomic':
                L.next()
            ty = m.ptype(L)
            v = m.pval(L, ty)
            L.expect(',')
            pt = m.ptype(L)
            return Ins(op, dst, ty, (v, m.pval(L, pt)), s0)
        if op == 'getelementptr':
            while L.peek() in ATTRS:
                L.next()
            et = m.ptype(L)
            args = []
            while L.accept(','):
                at = m.ptype(L)
                args.append((at, m.pval(L, at)))
            return Ins(op, dst, PTR, (et, args), s0)
        if op == 'br':
            t = m.ptype(L)
            if t.k == 'label':
                return Ins('jmp', None, None, unq(L.next()[1:]), s0)
            c = m.pval(L, I1)
            L.expect(',')
            L.expect('label')
            a = unq(L.next()[1:])
            L.expect(',')
            L.expect('label')
            b = unq(L.next()[1:])
            return Ins('br', None, None, (c, a, b), s0)
        if op == 'switch':
            ty = m.ptype(L)
            v = m.pval(L, ty)
            L.expect(',')
            L.expect('label')
            d = unq(L.next()[1:])
            L.expect('[')
            cs = []
            while not L.accept(']'):
                ct = m.ptype(L)
                cv = m.pval(L, ct)
                L.expect(',')
                L.expect('label')
                cs.append((cv[1], unq(L.next()[1:])))
            return Ins('switch', None, ty, (v, d, cs), s0)
        if op == 'ret':
            ty = m.ptype(L)
            return Ins('ret', None, ty, None if ty.k == 'void' else m.pval(L, ty), s0)
        if op == 'phi':
            while L.peek() in ATTRS:
                L.next()
            ty = m.ptype(L)
            inc = {}
            while True:
                L.expect('[')
                v = m.pval(L, ty)
                L.expect(',')
                inc[unq(L.next()[1:])] = v
                L.expect(']')
                if not L.accept(','):
                    break
            return Ins(op, dst, ty, inc, s0)
        if op == 'select':
            while L.peek() in ATTRS:
                L.next()
            ct = m.ptype(L)
            c = m.pval(L, ct)
            L.expect(',')
            ty = m.ptype(L)
            a = m.pval(L, ty)
            L.expect(',')
            ty2 = m.ptype(L)
            b = m.pval(L, ty2)
            return Ins(op, dst, ty, (c, a, b), s0)
        if op == 'extractvalue':
            ty = m.ptype(L)
            v = m.pval(L, ty)
            ix = []
            while L.accept(','):
                ix.append(int(L.next()))
            return Ins(op, dst, ty, (v, ix), s0)
        if op == 'insertvalue':
            ty = m.ptype(L)
            v = m.pval(L, ty)
            L.expect(',')
            et = m.ptype(L)
            e = m.pval(L, et)
            ix = []
            while L.accept(','):
                ix.append(int(L.next()))
            return Ins(op, dst, ty, (v, et, e, ix), s0)
        if op == 'freeze':
            ty = m.ptype(L)
            return Ins(op, dst, ty, (m.pval(L, ty),), s0)
        if op == 'cmpxchg':
            while L.peek() in ATTRS or L.peek() == 'weak':
                L.next()
            pt = m.ptype(L)
            p = m.pval(L, pt)
            L.expect(',')
            ty = m.ptype(L)
            a = m.pval(L, ty)
            L.expect(',')
            m.ptype(L)
            return Ins(op, dst, ty, (p, a, m.pval(L, ty)), s0)
        if op in ('unreachable', 'resume', 'landingpad', 'fence', 'atomicrmw', 'va_arg', 'indirectbr', 'extractelement', 'insertelement', 'shufflevector'):
            return Ins(op, dst, None, None, s0)
        raise ParseError('instruction? ' + s0)

    # ---- control flow
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'jmp':
            return [t.a]
        if t.op == 'br':
            return [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [x[1] for x in t.a[2]]
        if t.op == 'invoke':
            return [t.a['to']]        # exceptional edge: path ends as a throw
        return []

    def loops(self):
        """header -> set of blocks (natural loops; irreducible control flow raises)"""
        if self._loops is not None:
            return self._loops
        # reachable, rpo
        seen, order = set(), []
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += preds[x]
                elif idx[s] <= idx[b]:
                    raise ParseError('irreducible loop in ' + self.name)
        self._loops = loops
        return loops


def unq(n):
    if n.startswith('"'):
        n = n[1:-1]
        n = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), n)
    return n


def cunescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)
