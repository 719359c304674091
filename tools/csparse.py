"""A parser for the part of C# that generated clients and the client library use (and then some).

Nodes are tuples, the first item naming the kind:
types        ('T', name parts [(ident, [args])...], array rank, nullable) | ('TT', [(type, name)...])
expressions  ('lit', kind, value) ('id', name, targs) ('mem', e, name, targs, conditional) ('call', f, args) ('idx', e, args, cond)
             ('un', op, e) ('post', op, e) ('bin', op, a, b) ('assign', op, a, b) ('cond', c, a, b) ('cast', t, e)
             ('new', t, args, init) ('newarr', t, size, items) ('typeof', t) ('default', t) ('lambda', params, body)
             ('tuple', [(name, e)...]) ('is', e, pattern) ('as', e, t) ('this',) ('base',) ('throwx', e) ('swx', e, arms)
             ('type', t) ('interp', parts) ('nameof', s)
"""
import re


class ParseError(Exception):
    pass


KEYWORDS = set('''abstract as base bool break byte case catch char checked class const continue decimal default delegate do
double else enum event explicit extern false finally fixed float for foreach goto if implicit in int interface internal is
lock long namespace new null object operator out override params private protected public readonly ref return sbyte sealed
short sizeof stackalloc static string struct switch this throw true try typeof uint ulong unchecked unsafe ushort using
virtual void volatile while'''.split())
PREDEF = {'bool': 'Boolean', 'byte': 'Byte', 'sbyte': 'SByte', 'short': 'Int16', 'ushort': 'UInt16', 'int': 'Int32',
          'uint': 'UInt32', 'long': 'Int64', 'ulong': 'UInt64', 'string': 'String', 'object': 'Object', 'char': 'Char',
          'double': 'Double', 'float': 'Single', 'decimal': 'Decimal', 'void': 'Void'}
MODS = set('public private protected internal static readonly sealed abstract virtual override partial const new extern '
           'volatile unsafe async required'.split())
OPS = ['>>=', '<<=', '??=', '..', '=>', '??', '?.', '?[', '++', '--', '&&', '||', '==', '!=', '<=', '>=', '+=', '-=', '*=', '/=',
       '%=', '&=', '|=', '^=', '<<', '->', '::', '{', '}', '(', ')', '[', ']', ';', ',', '.', '<', '>', '=', '+', '-', '*',
       '/', '%', '&', '|', '^', '!', '~', '?', ':']
TOKEN = re.compile(r'''
 (?P<ws>\s+|//[^\n]*|/\*.*?\*/|\#[^\n]*)
|(?P<num>0[xX][0-9a-fA-F_]+[uUlL]*|0[bB][01_]+[uUlL]*|[0-9][0-9_]*(?:\.[0-9]+)?(?:[eE][+-]?[0-9]+)?[uUlLfFdDmM]*)
|(?P<vstr>@"(?:[^"]|"")*")
|(?P<str>"(?:\\.|[^"\\])*")
|(?P<chr>'(?:\\u[0-9a-fA-F]{4}|\\.|[^'\\])')
|(?P<id>@?[A-Za-z_][A-Za-z0-9_]*)
|(?P<op>%s)
''' % '|'.join(re.escape(o) for o in OPS), re.X | re.S | re.M)
ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'", 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v'}


def unescape(s):
    return re.sub(r'\\(u[0-9a-fA-F]{4}|x[0-9a-fA-F]{1,4}|.)',
                  lambda m: chr(int(m[1][1:], 16)) if m[1][0] in 'ux' and len(m[1]) > 1 else ESC.get(m[1], m[1]), s)


def istr(src, at):
    """Where the interpolated string that starts at `at` ends."""
    i = src.index('"', at)
    verbatim = '@' in src[at:i]
    i += 1
    while i < len(src):
        c = src[i]
        if c == '"':
            if verbatim and src[i + 1:i + 2] == '"':
                i += 2
                continue
            return i + 1
        if c == '\\' and not verbatim:
            i += 2
        elif c == '{' and src[i + 1:i + 2] == '{':
            i += 2
        elif c == '{':
            i = hole(src, i)
        else:
            i += 1
    raise ParseError('an interpolated string without end')


def hole(src, i):
    """Where the braces that open at `i` close."""
    d = 0
    while i < len(src):
        c = src[i]
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return i + 1
        elif c == '"' or c == "'":
            if c == '"' and src[i - 1] in '$@':
                i = istr(src, i - 1) if src[i - 1] == '$' else TOKEN.match(src, i - 1).end()
                continue
            m = TOKEN.match(src, i)
            if not m:
                break
            i = m.end()
            continue
        i += 1
    raise ParseError('an interpolated string without end')


def preprocess(src):
    """Blanks out what `#if` leaves out, with no symbol defined."""
    if '#if' not in src:
        return src
    out, on = [], []
    for line in src.split('\n'):
        x = line.strip()
        m = re.match(r'#\s*(if|elif|else|endif)\b(.*)', x)
        if m:
            k = m[1]
            if k in ('if', 'elif'):
                e = re.sub(r'//.*', '', m[2])
                e = re.sub(r'\w+', lambda y: 'True' if y[0] == 'true' else 'False', e).replace('!', ' not ').replace('&&', ' and ').replace('||', ' or ')
                v = bool(eval(e))
            if k == 'if':
                on.append([v, v])
            elif k == 'elif':
                on[-1] = [v and not on[-1][1], v or on[-1][1]]
            elif k == 'else':
                on[-1] = [not on[-1][1], True]
            else:
                on.pop()
            out.append('')
        else:
            out.append(line if all(a for a, _ in on) else '')
    return '\n'.join(out)


def lex(src, name):
    toks, at = [], 0
    if src.startswith('\ufeff'):
        at = 1
    while at < len(src):
        if src[at] in '$@' and (src[at:at + 2] == '$"' or src[at:at + 3] in ('$@"', '@$"')):
            end = istr(src, at)
            toks.append(('istr', src[at:end], at))
            at = end
            continue
        m = TOKEN.match(src, at)
        if not m:
            raise ParseError('%s: cannot read %r' % (name, src[at:at + 40]))
        at = m.end()
        k = m.lastgroup
        if k == 'ws':
            continue
        s = m.group()
        if k == 'id':
            if s[0] == '@':
                toks.append(('id', s[1:], m.start()))
            else:
                toks.append(('kw' if s in KEYWORDS else 'id', s, m.start()))
        else:
            toks.append((k, s, m.start()))
    toks.append(('eof', '', at))
    return toks


class Cls:
    """A class, struct, interface, enum or delegate declaration."""
    def __init__(self, kind, name, tparams, ns, usings, outer, mods):
        self.kind, self.name, self.tparams, self.ns, self.usings, self.outer, self.mods = kind, name, tparams, ns, usings, outer, mods
        self.bases, self.members, self.nested, self.values, self.file = [], [], [], [], None
        self.where = []

    def full(self):
        n = self.name + ('`%d' % len(self.tparams) if self.tparams else '')
        return (self.outer.full() + '+' + n) if self.outer else (self.ns + '.' + n if self.ns else n)


class Member:
    def __init__(self, kind, name, mods, **kw):
        self.kind, self.name, self.mods = kind, name, set(mods)
        self.type = self.params = self.body = self.init = self.get = self.set = self.tparams = self.chain = None
        self.__dict__.update(kw)


class Param:
    def __init__(self, type, name, default, mod):
        self.type, self.name, self.default, self.mod = type, name, default, mod


class Usings(list):
    """Imported namespaces, with the imported types and the other names of types."""
    def __init__(self):
        self.statics, self.alias = [], {}


class Parser:
    def __init__(self, src, name='?'):
        src = preprocess(src)
        self.t, self.i, self.name, self.src = lex(src, name), 0, name, src
        self.usings, self.ns, self.types = Usings(), '', []

    # ------------------------------------------------------------ tokens
    def fail(self, what):
        k, s, at = self.t[self.i]
        raise ParseError('%s:%d: expected %s, found %r' % (self.name, self.src.count('\n', 0, at) + 1, what, s))

    def peek(self, s, k=0):
        x = self.t[min(self.i + k, len(self.t) - 1)]
        return x[1] == s and x[0] in ('op', 'kw', 'id')

    def eat(self, s):
        if self.peek(s):
            self.i += 1
            return True
        return False

    def need(self, s):
        if not self.eat(s):
            self.fail(repr(s))

    def ident(self):
        if self.t[self.i][0] != 'id':
            self.fail('an identifier')
        self.i += 1
        return self.t[self.i - 1][1]

    def is_id(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][0] == 'id'

    def dotted(self):
        s = self.ident()
        while self.eat('.'):
            s += '.' + self.ident()
        return s

    # ------------------------------------------------------------ declarations
    def unit(self):
        while self.t[self.i][0] != 'eof':
            self.top()
        return self

    def top(self):
        if self.peek('using'):
            self.i += 1
            if self.eat('static'):
                self.usings.statics.append(self.type_())
                self.need(';')
                return
            n = self.dotted()
            if self.eat('='):
                self.usings.alias[n] = self.type_()
            else:
                self.usings.append(n)
            self.need(';')
        elif self.eat('namespace'):
            old = self.ns
            n = self.dotted()
            self.ns = old + '.' + n if old else n
            if self.eat(';'):
                return
            self.need('{')
            while not self.eat('}'):
                self.top()
            self.ns = old
        elif self.peek('['):
            self.attrs()
        else:
            self.types.append(self.type_decl(None, self.modifiers()))

    def attrs(self):
        while self.peek('['):
            d = 0
            while True:
                if self.peek('['):
                    d += 1
                elif self.peek(']'):
                    d -= 1
                self.i += 1
                if d == 0:
                    break

    def modifiers(self):
        m = []
        self.attrs()
        while self.t[self.i][1] in MODS and self.t[self.i][0] in ('kw', 'id'):
            # `new` and contextual words may also start other things.
            if self.t[self.i][1] in ('partial', 'async', 'required') and not (self.is_id(1) or self.t[self.i + 1][0] == 'kw'):
                break
            m.append(self.t[self.i][1])
            self.i += 1
            self.attrs()
        return m

    def tparams(self):
        out = []
        if self.eat('<'):
            while True:
                self.attrs()
                self.eat('in') or self.eat('out')
                out.append(self.ident())
                if not self.eat(','):
                    break
            self.need('>')
        return out

    def where(self):
        out = []
        while self.peek('where') and self.is_id(1):
            self.i += 1
            n = self.ident()
            self.need(':')
            while True:
                if self.eat('class') or self.eat('struct'):
                    self.eat('?')
                elif self.eat('new'):
                    self.need('(')
                    self.need(')')
                else:
                    out.append((n, self.type_()))
                if not self.eat(','):
                    break
        return out

    def type_decl(self, outer, mods):
        for kind in ('class', 'struct', 'interface', 'enum', 'delegate', 'record'):
            if self.eat(kind):
                break
        else:
            self.fail('a type declaration')
        if kind == 'delegate':
            self.type_()
            c = Cls(kind, self.ident(), self.tparams(), self.ns, self.usings, outer, mods)
            self.params('(', ')')
            c.where = self.where()
            self.need(';')
            c.file = self.name
            return c
        name = self.ident()
        c = Cls(kind, name, self.tparams(), self.ns, self.usings, outer, mods)
        c.file = self.name
        if self.eat(':'):
            while True:
                c.bases.append(self.type_())
                if not self.eat(','):
                    break
        c.where = self.where()
        self.need('{')
        if kind == 'enum':
            while not self.eat('}'):
                self.attrs()
                n = self.ident()
                c.values.append((n, self.expr() if self.eat('=') else None))
                if not self.eat(','):
                    self.need('}')
                    break
        else:
            while not self.eat('}'):
                self.member(c)
        self.eat(';')
        return c

    def params(self, a, b):
        self.need(a)
        out = []
        if self.eat(b):
            return out
        while True:
            self.attrs()
            mod = None
            while self.t[self.i][1] in ('ref', 'out', 'in', 'this', 'params'):
                mod = self.t[self.i][1]
                self.i += 1
            t = self.type_()
            n = self.ident()
            out.append(Param(t, n, self.expr() if self.eat('=') else None, mod))
            if not self.eat(','):
                break
        self.need(b)
        return out

    def body(self):
        """A block, an expression body or nothing."""
        if self.peek('{'):
            return self.block()
        if self.eat('=>'):
            e = self.expr()
            self.need(';')
            return ('ebody', e)
        self.need(';')
        return None

    def member(self, c):
        mods = self.modifiers()
        if self.t[self.i][1] in ('class', 'struct', 'interface', 'enum', 'delegate') and self.t[self.i][0] == 'kw':
            c.nested.append(self.type_decl(c, mods))
            return
        add = c.members.append
        if self.peek('event'):
            self.i += 1
            t = self.type_()
            while True:
                n = self.ident()
                init = self.expr() if self.eat('=') else None
                add(Member('event', n, mods, type=t, init=init))
                if not self.eat(','):
                    break
            self.need(';')
            return
        if self.is_id() and self.t[self.i][1] == c.name and self.peek('(', 1):
            self.i += 1
            ps = self.params('(', ')')
            chain = None
            if self.eat(':'):
                k = self.t[self.i][1]
                self.i += 1
                chain = (k, self.args())
            add(Member('ctor', c.name, mods, params=ps, chain=chain, body=self.body()))
            return
        if self.peek('~'):
            self.fail('a member')
        if self.peek('implicit') or self.peek('explicit'):
            self.i += 1
            self.need('operator')
            t = self.type_()
            ps = self.params('(', ')')
            add(Member('conversion', 'operator conversion', mods, type=t, params=ps, body=self.body()))
            return
        t = self.type_()
        if self.eat('operator'):
            op = self.t[self.i][1]
            self.i += 1
            ps = self.params('(', ')')
            add(Member('operator', 'operator ' + op, mods, type=t, params=ps, body=self.body()))
            return
        if self.eat('this'):
            ps = self.params('[', ']')
            m = Member('indexer', 'this[]', mods, type=t, params=ps)
            self.accessors(m)
            add(m)
            return
        n = self.ident()
        tps = []
        while self.peek('.') or self.peek('<'):
            # Explicit interface implementation or a generic method.
            save = self.i
            try:
                tps = self.tparams()
                if self.peek('('):
                    break
            except ParseError:
                pass
            self.i = save
            if self.peek('<'):
                self.targs()
            self.need('.')
            if self.eat('this'):
                ps = self.params('[', ']')
                self.accessors(Member('indexer', 'this[]', mods, type=t, params=ps))
                return
            n = self.ident()
            mods = list(mods) + ['explicit']
            tps = []
        if self.peek('('):
            ps = self.params('(', ')')
            w = self.where()
            add(Member('method', n, mods, type=t, tparams=tps, params=ps, body=self.body(), where=w))
        elif self.peek('{') or self.peek('=>'):
            m = Member('prop', n, mods, type=t)
            self.accessors(m)
            add(m)
        else:
            while True:
                init = self.init_of(t) if self.eat('=') else None
                add(Member('field', n, mods, type=t, init=init))
                if not self.eat(','):
                    break
                n = self.ident()
            self.need(';')

    def accessors(self, m):
        """Sets m.get and m.set to None (absent), 'auto' or a body."""
        if self.peek('=>'):
            m.get = self.body()
            return
        self.need('{')
        m.set_mods = set()
        while not self.eat('}'):
            am = self.modifiers()
            k = self.ident()
            b = 'auto' if self.eat(';') else self.body()
            if k == 'get':
                m.get = b
            elif k in ('set', 'init'):
                m.set = b
                m.set_mods = set(am)
            else:
                self.fail('an accessor')
        if self.eat('='):
            m.init = self.init_of(m.type)
            self.need(';')

    # ------------------------------------------------------------ types
    def targs(self):
        self.need('<')
        out = []
        if self.peek(',') or self.peek('>'):
            while self.eat(','):
                out.append(None)
            out.append(None)
        else:
            while True:
                out.append(self.type_())
                if not self.eat(','):
                    break
        self.need('>')
        return out

    def type_(self, nullable_ok=True):
        if self.peek('('):
            self.i += 1
            items = []
            while True:
                t = self.type_()
                items.append((t, self.ident() if self.is_id() else None))
                if not self.eat(','):
                    break
            self.need(')')
            if len(items) < 2:
                self.fail('a tuple type')
            r = ('TT', tuple(items))
            self.eat('?')
            return r
        k, s, _ = self.t[self.i]
        if k == 'kw' and s in PREDEF:
            self.i += 1
            parts = (('System', ()), (PREDEF[s], ()))
        elif k == 'id':
            parts = []
            while True:
                n = self.ident()
                a = ()
                if self.peek('<'):
                    a = tuple(self.targs())
                parts.append((n, a))
                if not ((self.peek('.') or self.peek('::')) and self.is_id(1)):
                    break
                self.i += 1
            parts = tuple(parts)
        else:
            self.fail('a type')
        nullable = False
        rank = 0
        if nullable_ok and self.peek('?'):
            # A nullable type, unless it is a conditional expression (the caller backtracks).
            self.i += 1
            nullable = True
        while self.peek('[') and (self.peek(']', 1) or self.peek(',', 1)):
            self.i += 2
            rank += 1
            self.eat('?')
        return ('T', parts, rank, nullable)

    def try_(self, f):
        save = self.i
        try:
            return f()
        except ParseError:
            self.i = save
            return None

    # ------------------------------------------------------------ statements
    def block(self):
        self.need('{')
        out = []
        while not self.eat('}'):
            x = self.stmt()
            if x[0] == 'usingdecl':
                rest = []
                while not self.eat('}'):
                    rest.append(self.stmt())
                out.append(('using', x[1], ('block', rest)))
                return ('block', out)
            out.append(x)
        return ('block', out)

    def deconstruction(self):
        """`(int a, var b, c) = x`."""
        self.need('(')
        items, typed = [], False
        while True:
            t = self.try_(self.typed_name)
            if t is not None:
                typed = True
                items.append((None, t))
            else:
                items.append((None, self.unary()))
            if not self.eat(','):
                break
        self.need(')')
        self.need('=')
        if not typed or len(items) < 2:
            self.fail('a deconstruction')
        return ('expr', ('assign', '=', ('tuple', items), self.expr()))

    def typed_names(self):
        self.need('(')
        self.names = []
        while True:
            self.names.append(self.typed_name()[2])
            if not self.eat(','):
                break
        self.need(')')
        if not self.peek('in'):
            self.fail('in')
        return self.names

    def typed_name(self):
        t = None
        if self.peek('var') and self.is_id(1):
            self.i += 1
        else:
            t = self.type_()
        n = self.ident()
        if not (self.peek(',') or self.peek(')')):
            self.fail('a name')
        return ('decl', t, n)

    def init_of(self, t):
        """An initial value: an expression or the bare elements of an array."""
        if self.peek('{') and t is not None and t[0] == 'T' and t[2]:
            return ('newarr', ('T', t[1], t[2] - 1, t[3]), None, self.items())
        return self.expr()

    def local_decl(self):
        """`Type a = x, b;` or `var (a, b) = x` without the semicolon, or a parse error."""
        if self.peek('var') and self.peek('(', 1):
            self.i += 2
            names = []
            while True:
                names.append(self.ident())
                if not self.eat(','):
                    break
            self.need(')')
            self.need('=')
            return ('decon', names, self.expr())
        if self.peek('('):
            x = self.try_(self.deconstruction)
            if x is not None:
                return x
        t = None
        if self.peek('var') and self.is_id(1):
            self.i += 1
        else:
            t = self.type_()
        out = []
        while True:
            n = self.ident()
            if not (self.peek('=') or self.peek(',') or self.peek(';') or self.peek('in')):
                self.fail('a declaration')
            out.append((n, self.init_of(t) if self.eat('=') else None))
            if not self.eat(','):
                break
        return ('local', t, out)

    def local_fn(self):
        self.attrs()
        self.eat('static')
        t = self.type_()
        n = self.ident()
        tps = self.tparams()
        ps = self.params('(', ')')
        self.where()
        if not (self.peek('{') or self.peek('=>')):
            self.fail('a body')
        return ('localfn', Member('method', n, ['static'], type=t, tparams=tps, params=ps, body=self.body()))

    def stmt(self):
        k, s, _ = self.t[self.i]
        if s == '{' and k == 'op':
            return self.block()
        if s == ';' and k == 'op':
            self.i += 1
            return ('block', [])
        if s == 'yield' and (self.peek('return', 1) or self.peek('break', 1)):
            self.i += 1
            if self.eat('break'):
                self.need(';')
                return ('yield', None)
            self.i += 1
            e = self.expr()
            self.need(';')
            return ('yield', e)
        if k == 'kw':
            if s == 'if':
                self.i += 1
                self.need('(')
                c = self.expr()
                self.need(')')
                a = self.stmt()
                return ('if', c, a, self.stmt() if self.eat('else') else None)
            if s == 'while':
                self.i += 1
                self.need('(')
                c = self.expr()
                self.need(')')
                return ('while', c, self.stmt())
            if s == 'do':
                self.i += 1
                b = self.stmt()
                self.need('while')
                self.need('(')
                c = self.expr()
                self.need(')')
                self.need(';')
                return ('do', b, c)
            if s == 'for':
                self.i += 1
                self.need('(')
                init = []
                if not self.eat(';'):
                    d = self.try_(self.local_decl)
                    if d is None or not self.peek(';'):
                        d = ('exprs', self.expr_list())
                    init = [d]
                    self.need(';')
                c = None if self.peek(';') else self.expr()
                self.need(';')
                step = [] if self.peek(')') else self.expr_list()
                self.need(')')
                return ('for', init, c, step, self.stmt())
            if s == 'foreach':
                self.i += 1
                self.need('(')
                if self.peek('var') and self.peek('(', 1):
                    self.i += 2
                    n = []
                    while True:
                        n.append(self.ident())
                        if not self.eat(','):
                            break
                    self.need(')')
                    t = None
                elif self.peek('(') and self.try_(self.typed_names) is not None:
                    n, t = self.names, None
                else:
                    t = None
                    if self.peek('var') and self.is_id(1):
                        self.i += 1
                    else:
                        t = self.type_()
                    n = self.ident()
                self.need('in')
                e = self.expr()
                self.need(')')
                return ('foreach', t, n, e, self.stmt())
            if s == 'switch':
                return self.switch()
            if s == 'return':
                self.i += 1
                e = None if self.peek(';') else self.expr()
                self.need(';')
                return ('return', e)
            if s == 'throw':
                self.i += 1
                e = None if self.peek(';') else self.expr()
                self.need(';')
                return ('throw', e)
            if s in ('break', 'continue'):
                self.i += 1
                self.need(';')
                return (s,)
            if s == 'goto':
                self.i += 1
                if self.eat('default'):
                    x = ('goto', None)
                else:
                    self.need('case')
                    x = ('goto', self.expr())
                self.need(';')
                return x
            if s == 'try':
                self.i += 1
                b = self.block()
                catches, fin = [], None
                while self.eat('catch'):
                    t = n = w = None
                    if self.eat('('):
                        t = self.type_()
                        if self.is_id():
                            n = self.ident()
                        self.need(')')
                    if self.peek('when'):
                        self.i += 1
                        self.need('(')
                        w = self.expr()
                        self.need(')')
                    catches.append((t, n, w, self.block()))
                if self.eat('finally'):
                    fin = self.block()
                return ('try', b, catches, fin)
            if s == 'lock':
                self.i += 1
                self.need('(')
                e = self.expr()
                self.need(')')
                return ('block', [('expr', e), self.stmt()])
            if s == 'using':
                self.i += 1
                if self.eat('('):
                    d = self.try_(self.local_decl) or ('expr', self.expr())
                    self.need(')')
                    return ('using', d, self.stmt())
                d = self.local_decl()
                self.need(';')
                return ('usingdecl', d)
            if s in ('checked', 'unchecked') and self.peek('{', 1):
                self.i += 1
                return ('checked', s == 'checked', self.block())
            if s == 'const':
                self.i += 1
                d = self.local_decl()
                self.need(';')
                return d
        f = self.try_(self.local_fn)
        if f is not None:
            return f

        def decl():
            d = self.local_decl()
            self.need(';')
            return d
        d = self.try_(decl)
        if d is not None:
            return d
        e = self.expr()
        self.need(';')
        return ('expr', e)

    def switch(self):
        self.need('switch')
        self.need('(')
        e = self.expr()
        self.need(')')
        self.need('{')
        sections = []
        while not self.eat('}'):
            labels = []
            while True:
                if self.eat('case'):
                    p = self.pattern()
                    w = None
                    if self.peek('when'):
                        self.i += 1
                        w = self.expr()
                    self.need(':')
                    labels.append((p, w))
                elif self.peek('default') and self.peek(':', 1):
                    self.i += 2
                    labels.append(None)
                else:
                    break
            if not labels:
                self.fail('a case')
            body = []
            while not (self.peek('case') or self.peek('}') or (self.peek('default') and self.peek(':', 1))):
                body.append(self.stmt())
            sections.append((labels, body))
        return ('switch', e, sections)

    def pattern(self):
        p = self.pand()
        while self.peek('or') and self.is_id():
            self.i += 1
            p = ('por', p, self.pand())
        return p

    def pand(self):
        p = self.pnot()
        while self.peek('and') and self.is_id():
            self.i += 1
            p = ('pand', p, self.pnot())
        return p

    def pnot(self):
        if self.peek('not') and not self.peek('.', 1):
            self.i += 1
            return ('pnot', self.pnot())
        return self.pattern1()

    def designation(self):
        return self.ident() if self.is_id() and self.t[self.i][1] not in ('when', 'or', 'and') else None

    def props(self):
        """`{ A: pattern, B.C: pattern }`."""
        self.need('{')
        out = []
        while not self.eat('}'):
            n = [self.ident()]
            while self.eat('.'):
                n.append(self.ident())
            self.need(':')
            out.append((n, self.pattern()))
            if not self.eat(','):
                self.need('}')
                break
        return out

    def pattern1(self):
        if self.peek('var') and self.peek('(', 1):
            self.i += 2
            names = []
            while True:
                names.append(('pvar', None, self.ident()))
                if not self.eat(','):
                    break
            self.need(')')
            return ('ptuple', names)
        if self.eat('var'):
            return ('pvar', None, self.ident())
        if self.peek('_') and self.t[self.i + 1][1] in ('=>', ')', ':', ',', '}', 'when', 'or', 'and'):
            self.i += 1
            return ('pany',)
        if self.peek('{'):
            ps = self.props()
            return ('pprops', None, ps, self.designation())
        if self.peek('('):
            x = self.try_(self.ptuple)
            if x is not None:
                return x
        save = self.i
        t = self.try_(lambda: self.type_(False))
        if t is not None and self.peek('{'):
            ps = self.try_(self.props)
            if ps is not None:
                return ('pprops', t, ps, self.designation())
        if t is not None and self.is_id() and self.t[self.i][1] not in ('when', 'or', 'and'):
            return ('pvar', t, self.ident())
        self.i = save
        # A constant or a type: told apart when it is resolved.
        for op in ('<=', '>=', '<', '>'):
            if self.eat(op):
                return ('prel', op, self.shift())
        save = self.i
        e = self.try_(self.shift)
        if e is not None:
            return ('pconst', e)
        self.i = save
        return ('pconst', ('type', self.type_(False)))

    def ptuple(self):
        self.need('(')
        ps = []
        while True:
            if self.is_id() and self.peek(':', 1):
                self.i += 2
            ps.append(self.pattern())
            if not self.eat(','):
                break
        self.need(')')
        k, x, _ = self.t[self.i]
        if x not in ('=>', ')', ':', ',', '}', 'when', 'or', 'and', '&&', '||', ';', '?', ''):
            self.fail('the end of a pattern')
        return ps[0] if len(ps) == 1 else ('ptuple', ps)

    # ------------------------------------------------------------ expressions
    def expr_list(self):
        out = [self.expr()]
        while self.eat(','):
            out.append(self.expr())
        return out

    def lambda_(self):
        ps = []
        self.eat('async')
        if self.is_id() and self.peek('=>', 1):
            ps = [(None, self.ident())]
        else:
            self.need('(')
            while not self.eat(')'):
                if self.is_id() and (self.peek(',', 1) or self.peek(')', 1)):
                    ps.append((None, self.ident()))
                else:
                    t = self.type_()
                    ps.append((t, self.ident()))
                if not self.eat(','):
                    self.need(')')
                    break
        self.need('=>')
        b = self.block() if self.peek('{') else ('ebody', self.expr())
        return ('lambda', ps, b)

    def expr(self):
        if (self.is_id() and self.peek('=>', 1)) or self.peek('('):
            x = self.try_(self.lambda_)
            if x is not None:
                return x
        if self.eat('throw'):
            return ('throwx', self.expr())
        if self.eat('ref'):
            return ('ref', self.expr())
        a = self.conditional()
        for op in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '??='):
            if self.eat(op):
                return ('assign', op, a, self.expr())
        return a

    def conditional(self):
        c = self.coalesce()
        if self.peek('?'):
            self.i += 1
            a = self.expr()
            self.need(':')
            return ('cond', c, a, self.expr())
        return c

    def coalesce(self):
        a = self.binary(0)
        if self.eat('??'):
            b = ('throwx', self.expr()) if self.eat('throw') else self.coalesce()
            return ('bin', '??', a, b)
        return a

    LEVELS = [('||',), ('&&',), ('|',), ('^',), ('&',), ('==', '!='), ('<', '>', '<=', '>='), ('<<', '>>'), ('+', '-'), ('*', '/', '%')]

    def op_at(self, ops):
        k, s, at = self.t[self.i]
        if k != 'op':
            return None
        if s == '>' and '>>' in ops and self.peek('>', 1) and self.t[self.i + 1][2] == at + 1:
            return '>>'
        if s == '>' and self.peek('>', 1) and self.t[self.i + 1][2] == at + 1:
            return None
        return s if s in ops else None

    def shift(self):
        return self.binary(7)

    def binary(self, lvl):
        if lvl == len(self.LEVELS):
            return self.unary()
        ops = self.LEVELS[lvl]
        a = self.binary(lvl + 1)
        while True:
            if lvl == 6 and self.eat('is'):
                a = ('is', a, self.pattern())
                continue
            if lvl == 6 and self.eat('as'):
                a = ('as', a, self.type_(False))
                continue
            op = self.op_at(ops)
            if op is None:
                return a
            if op == '>>':
                if self.peek('>=', 1):
                    return a
                self.i += 2
            else:
                self.i += 1
            a = ('bin', op, a, self.binary(lvl + 1))

    def unary(self):
        k, s, _ = self.t[self.i]
        if k == 'op' and s in ('-', '+', '!', '~', '++', '--', '^'):
            self.i += 1
            return ('un', s, self.unary())
        if s == '(' and k == 'op':
            c = self.try_(self.cast)
            if c is not None:
                return c
        return self.postfix(self.primary())

    def cast(self):
        self.need('(')
        t = self.type_()
        self.need(')')
        k, s, _ = self.t[self.i]
        predef = t[0] == 'T' and t[1][0][0] == 'System' and len(t[1]) == 2 and self.t[self.i - 2][0] == 'kw'
        ok = k in ('id', 'num', 'str', 'vstr', 'istr', 'chr') or s in ('(', '!', '~') or \
            (k == 'kw' and s not in ('as', 'is', 'in')) or (predef and s in ('-', '+'))
        if not ok or (k == 'id' and s in ('or', 'and', 'when')):
            self.fail('an operand')
        return ('cast', t, self.unary())

    def args(self, a='(', b=')'):
        self.need(a)
        out = []
        if self.eat(b):
            return out
        while True:
            name = mod = None
            if self.is_id() and self.peek(':', 1):
                name = self.ident()
                self.i += 1
            for m in ('ref', 'out', 'in'):
                if self.peek(m):
                    self.i += 1
                    mod = m
                    break
            d = self.try_(self.typed_name) if mod == 'out' else None
            if d is not None:
                out.append((name, 'outvar', ('id', d[2], (), d[1])))
            elif b == ']':
                lo = None if self.peek('..') else self.expr()
                if self.eat('..'):
                    out.append((name, None, ('range', lo, None if self.peek(b) or self.peek(',') else self.expr())))
                else:
                    out.append((name, mod, lo))
            else:
                out.append((name, None if mod == 'in' else mod, self.expr()))
            if not self.eat(','):
                break
        self.need(b)
        return out

    def generic_args(self):
        """Type arguments in an expression, if that is what follows."""
        if not self.peek('<'):
            return ()
        save = self.i
        a = self.try_(self.targs)
        if a is not None:
            k, s, _ = self.t[self.i]
            if (k == 'op' and s in ('(', ')', ']', '}', ':', ';', ',', '.', '?', '==', '!=', '?.')) or k == 'eof':
                return tuple(a)
        self.i = save
        return ()

    def postfix(self, e):
        while True:
            if self.eat('.'):
                n = self.ident()
                e = ('mem', e, n, self.generic_args(), False)
            elif self.eat('?.'):
                n = self.ident()
                e = ('mem', e, n, self.generic_args(), True)
            elif self.peek('('):
                e = ('call', e, self.args())
            elif self.peek('['):
                e = ('idx', e, self.args('[', ']'), False)
            elif self.peek('?['):
                self.i += 1
                # `?[` was one token: read the rest by hand.
                out = [(None, None, self.expr())]
                self.need(']')
                e = ('idx', e, out, True)
            elif self.peek('++') or self.peek('--'):
                e = ('post', self.t[self.i][1], e)
                self.i += 1
            elif self.peek('!') and self.t[self.i + 1][1] in (')', ';', ',', '.', '[', '?.', ']', '}', '=='):
                self.i += 1
            elif self.peek('switch') and self.peek('{', 1):
                self.i += 2
                arms = []
                while not self.eat('}'):
                    p = self.pattern()
                    w = None
                    if self.peek('when'):
                        self.i += 1
                        w = self.expr()
                    self.need('=>')
                    arms.append((p, w, self.expr()))
                    if not self.eat(','):
                        self.need('}')
                        break
                e = ('swx', e, arms)
            else:
                return e

    def number(self, s):
        u = s.lower()
        if u[:2] != '0x' and (re.search(r'[.fdm]', u) or ('e' in u)):
            return ('lit', 'Double', float(u.rstrip('fdm')))
        digits = u.rstrip('ul').replace('_', '')
        suf = u[len(u.rstrip('ul')):]
        v = int(digits, 0) if digits[:2] in ('0x', '0b') else int(digits)
        un, lo = 'u' in suf, 'l' in suf
        for k, top, a, b in (('Int32', 2**31, 0, 0), ('UInt32', 2**32, 1, 0), ('Int64', 2**63, 0, 1), ('UInt64', 2**64, 1, 1)):
            if v < top and (not un or a) and (not lo or b):
                return ('lit', k, v)
        self.fail('an integer')

    def primary(self):
        k, s, _ = self.t[self.i]
        if k == 'num':
            self.i += 1
            return self.number(s)
        if k == 'str':
            self.i += 1
            return ('lit', 'String', unescape(s[1:-1]))
        if k == 'vstr':
            self.i += 1
            return ('lit', 'String', s[2:-1].replace('""', '"'))
        if k == 'chr':
            self.i += 1
            return ('lit', 'Char', ord(unescape(s[1:-1])))
        if k == 'istr':
            self.i += 1
            return self.interpolated(s)
        if k == 'op' and s == '(':
            self.i += 1
            items = []
            while True:
                n = None
                if self.is_id() and self.peek(':', 1):
                    n = self.ident()
                    self.i += 1
                items.append((n, self.expr()))
                if not self.eat(','):
                    break
            self.need(')')
            return items[0][1] if len(items) == 1 else ('tuple', items)
        if k == 'id':
            self.i += 1
            if s == 'nameof' and self.peek('('):
                save = self.i
                self.i += 1
                e = self.try_(self.expr)
                if e is None or not self.eat(')') or e[0] not in ('mem', 'id'):
                    self.i = save + 1
                    t = self.type_()
                    self.need(')')
                    return ('lit', 'String', t[1][-1][0])
                return ('lit', 'String', e[2] if e[0] == 'mem' else e[1])
            return ('id', s, self.generic_args())
        if k == 'kw':
            self.i += 1
            if s == 'this':
                return ('this',)
            if s == 'base':
                return ('base',)
            if s == 'null':
                return ('lit', 'null', None)
            if s in ('true', 'false'):
                return ('lit', 'Boolean', s == 'true')
            if s == 'typeof':
                self.need('(')
                t = self.type_()
                self.need(')')
                return ('typeof', t)
            if s == 'sizeof':
                self.need('(')
                t = self.type_()
                self.need(')')
                return ('sizeof', t)
            if s == 'default':
                if self.eat('('):
                    t = self.type_()
                    self.need(')')
                    return ('default', t)
                return ('default', None)
            if s in ('checked', 'unchecked'):
                self.need('(')
                e = self.expr()
                self.need(')')
                return ('checked', s == 'checked', e)
            if s == 'delegate':
                ps = [(p.type, p.name) for p in self.params('(', ')')] if self.peek('(') else []
                return ('lambda', ps, self.block())
            if s == 'new':
                return self.new()
            if s in PREDEF:
                return ('type', ('T', (('System', ()), (PREDEF[s], ())), 0, False))
        self.i -= 0
        self.fail('an expression')

    def new(self):
        if self.eat('['):
            self.need(']')
            return ('newarr', None, None, self.items())
        if self.peek('('):
            args = self.args()
            return ('new', None, args, self.initializer() if self.peek('{') else None)
        if self.eat('{'):
            items = []
            while not self.eat('}'):
                n = None
                if self.is_id() and self.peek('=', 1):
                    n = self.ident()
                    self.i += 1
                e = self.expr()
                items.append((n or (e[2] if e[0] == 'mem' else e[1]), e))
                if not self.eat(','):
                    self.need('}')
                    break
            return ('tuple', items)
        # The type must not swallow the brackets of an array size.
        t = self.type_()
        if t[0] == 'T' and t[2] and self.peek('{'):
            return ('newarr', ('T', t[1], t[2] - 1, t[3]), None, self.items())
        if self.eat('['):
            n = self.expr()
            self.need(']')
            r = 0
            while self.peek('[') and self.peek(']', 1):
                self.i += 2
                r += 1
            el = ('T', t[1], t[2] + r, t[3]) if t[0] == 'T' else t
            return ('newarr', el, n, self.items() if self.peek('{') else None)
        args = self.args() if self.peek('(') else []
        return ('new', t, args, self.initializer() if self.peek('{') else None)

    def initializer(self):
        self.need('{')
        init = []
        while not self.eat('}'):
            if self.is_id() and self.peek('=', 1):
                n = self.ident()
                self.i += 1
                if self.peek('{'):
                    init.append(('into', n, self.initializer()))
                else:
                    init.append(('set', n, self.expr()))
            elif self.eat('['):
                x = self.expr()
                self.need(']')
                self.need('=')
                init.append(('put', x, self.expr()))
            elif self.eat('{'):
                xs = self.expr_list()
                self.need('}')
                init.append(('add', xs))
            else:
                init.append(('add', [self.expr()]))
            if not self.eat(','):
                self.need('}')
                break
        return init

    def items(self):
        self.need('{')
        out = []
        while not self.eat('}'):
            out.append(self.expr())
            if not self.eat(','):
                self.need('}')
                break
        return out

    def interpolated(self, s):
        at = s.index('"')
        verbatim = '@' in s[:at]
        s = s[at + 1:-1]
        plain = (lambda x: x.replace('""', '"')) if verbatim else unescape
        parts, cur, i = [], '', 0
        while i < len(s):
            if s[i:i + 2] in ('{{', '}}'):
                cur += s[i]
                i += 2
            elif s[i] == '{':
                j = hole(s, i)
                parts.append(plain(cur))
                cur = ''
                inner = s[i + 1:j - 1]
                # A format may not be made of tokens: it starts at the first colon outside of brackets.
                d, cut, k = 0, None, 0
                while k < len(inner):
                    c = inner[k]
                    if c in '"\'':
                        m = TOKEN.match(inner, k)
                        k = m.end()
                        continue
                    d += (c in '([{') - (c in ')]}')
                    if c == ':' and d == 0 and inner[k:k + 2] != '::' and inner[k - 1:k] != ':':
                        cut = k
                        break
                    k += 1
                p = Parser(inner[:cut] if cut is not None else inner, self.name)
                e = p.expr()
                align = p.expr() if p.eat(',') else None
                if p.t[p.i][0] != 'eof':
                    p.fail('the end of the hole')
                parts.append((e, align, inner[cut + 1:] if cut is not None else None))
                i = j
            elif s[i] == '\\' and not verbatim:
                cur += s[i:i + 2]
                i += 2
            else:
                cur += s[i]
                i += 1
        parts.append(plain(cur))
        return ('interp', parts)


def parse(src, name='?'):
    return Parser(src, name).unit()


if __name__ == '__main__':
    import sys
    for f in sys.argv[1:]:
        u = parse(open(f).read(), f)
        print(f, [(c.full(), len(c.members)) for c in u.types])
