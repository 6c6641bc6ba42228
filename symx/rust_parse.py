"""Parser for the Rust subset the kernels are written in. Produces nested tuples."""
import re


class Unsupported(Exception):
    pass


TOK = re.compile(r'''
 (?P<ws>\s+|//[^\n]*)
|(?P<str>b?"(?:[^"\\]|\\.)*"|r\#*"[^"]*"\#*)
|(?P<char>b?'(?:[^'\\\n]|\\.[^']*)'(?!\w))
|(?P<life>'[A-Za-z_]\w*)
|(?P<num>0x[0-9a-fA-F_]+\w*|0b[01_]+|\d[\d_]*(?:\.(?!\.|[A-Za-z_])[\d_]*)?(?:[eE][+-]?\d+)?(?:f64|f32|usize|isize|u8|u16|u32|u64|i8|i16|i32|i64|u128|i128)?)
|(?P<id>[A-Za-z_]\w*)
|(?P<p>\.\.=|\.\.\.|<<=|\.\.|::|->|=>|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
''', re.X | re.S)
KW = {'if', 'else', 'match', 'while', 'loop', 'for', 'in', 'let', 'mut', 'fn', 'struct', 'enum', 'impl', 'trait', 'const', 'static',
      'return', 'break', 'continue', 'as', 'ref', 'move', 'unsafe', 'pub', 'use', 'mod', 'where', 'true', 'false', 'dyn', 'type',
      'extern', 'async'}


class T:
    __slots__ = ('k', 'v', 'pos', 'end')

    def __init__(self, k, v, pos, end):
        self.k, self.v, self.pos, self.end = k, v, pos, end

    def __repr__(self):
        return '%s:%s' % (self.k, self.v)


def lex(src):
    # block comments
    src = re.sub(r'/\*.*?\*/', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), src, flags=re.S)
    out, i, n = [], 0, len(src)
    while i < n:
        m = TOK.match(src, i)
        if not m:
            raise Unsupported('lex error at %r' % src[i:i + 30])
        k = m.lastgroup
        if k != 'ws':
            out.append(T(k, m.group(0), i, m.end()))
        i = m.end()
    return out


EOF_T = T('eof', '', 0, 0)
BIN = {'||': 1, '&&': 2, '==': 3, '!=': 3, '<': 3, '>': 3, '<=': 3, '>=': 3, '|': 4, '^': 5, '&': 6, '<<': 7, '>>': 7, '+': 8, '-': 8,
       '*': 9, '/': 9, '%': 9}
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '<<=', '>>='}
BLOCKLIKE = {'if', 'match', 'loop', 'while', 'for', 'block', 'unsafe'}


class Parser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    # ---- tokens ----
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else EOF_T

    def at(self, v, k=0):
        x = self.peek(k)
        return x.v == v and x.k in ('p', 'id')

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            x = self.t[max(0, self.i - 6):self.i + 6]
            raise Unsupported('expected %s near %s' % (v, ' '.join(y.v for y in x)))

    def ident(self):
        x = self.peek()
        if x.k != 'id':
            raise Unsupported('identifier expected, got %r' % (x,))
        self.i += 1
        return x.v

    def split(self, ch):
        """the next token starts with ch: consume only that character"""
        x = self.peek()
        if x.k == 'p' and x.v.startswith(ch):
            if x.v == ch:
                self.i += 1
            else:
                self.t[self.i] = T('p', x.v[len(ch):], x.pos + len(ch), x.end)
            return True
        return False

    # ---- types ----
    def generics(self):
        """after '<': type arguments, consumes the closing '>'"""
        args = []
        while not (self.peek().k == 'p' and self.peek().v.startswith('>')):
            if self.peek().k == 'life':
                self.i += 1
                if self.eat(':'):
                    while self.peek().k == 'life' or self.at('+'):
                        self.i += 1
            elif self.peek().k == 'num':
                args.append(('num', self.peek().v))
                self.i += 1
            elif self.at('{'):
                args.append(('expr', self.block()))
            else:
                ty = self.type_()
                if self.eat('='):
                    ty = ('assoc', ty, self.type_())
                elif self.eat(':'):
                    self.bounds()
                    if self.eat('='):
                        self.type_()
                args.append(ty)
            if not self.eat(','):
                break
        if not self.split('>'):
            raise Unsupported('> expected near %s' % ' '.join(y.v for y in self.t[self.i - 5:self.i + 5]))
        return args

    def bounds(self):
        while True:
            if self.peek().k == 'life':
                self.i += 1
            elif self.eat('?') or True:
                if self.peek().k == 'id' or self.at('(') or self.at('<'):
                    self.type_()
                else:
                    break
            if not self.eat('+'):
                break

    def type_(self):
        if self.split('&'):
            if self.peek().k == 'life':
                self.i += 1
            self.eat('mut')
            return ('ref', self.type_())
        if self.eat('*'):
            if not self.eat('const'):
                self.expect('mut')
            return ('ptr', self.type_())
        if self.eat('('):
            xs = []
            while not self.at(')'):
                xs.append(self.type_())
                if not self.eat(','):
                    break
            self.expect(')')
            return ('tuple', xs)
        if self.eat('['):
            ty = self.type_()
            if self.eat(';'):
                n = self.expr()
                self.expect(']')
                return ('array', ty, n)
            self.expect(']')
            return ('slice', ty)
        if self.eat('!'):
            return ('never',)
        if self.at('impl') or self.at('dyn'):
            self.i += 1
            xs = [self.type_()]
            while self.eat('+'):
                if self.peek().k == 'life':
                    self.i += 1
                else:
                    xs.append(self.type_())
            return ('impl', xs)
        if self.at('for') and self.at('<', 1):
            self.i += 2
            self.generics()
            return self.type_()
        if self.at('unsafe') or self.at('extern'):
            self.i += 1
            return self.type_()
        if self.eat('fn'):
            self.expect('(')
            while not self.at(')'):
                self.type_()
                if not self.eat(','):
                    break
            self.expect(')')
            if self.eat('->'):
                self.type_()
            return ('fnptr',)
        if self.eat('_'):
            return ('infer',)
        if self.split('<'):
            ty = self.type_()
            if self.eat('as'):
                self.type_()
            self.split('>')
            names = []
            while self.eat('::'):
                names.append(self.ident())
            return ('path', names[-1] if names else '?', [ty])
        names, args = [], []
        self.eat('::')
        while True:
            names.append(self.ident())
            if self.at('::') and self.at('<', 1):
                self.i += 1
            if self.peek().k == 'p' and self.peek().v.startswith('<') and self.peek().v != '<=':
                self.split('<')
                args = self.generics()
            elif self.at('(') and names[-1] in ('Fn', 'FnMut', 'FnOnce'):
                self.i += 1
                while not self.at(')'):
                    self.type_()
                    if not self.eat(','):
                        break
                self.expect(')')
                if self.eat('->'):
                    self.type_()
            if not self.eat('::'):
                break
        return ('path', names[-1], args)

    # ---- patterns ----
    def pattern(self):
        self.eat('|')
        p = self.pattern1()
        if self.at('|'):
            ps = [p]
            while self.eat('|'):
                ps.append(self.pattern1())
            return ('por', ps)
        return p

    def lit(self):
        x = self.peek()
        if x.k == 'num':
            self.i += 1
            return number(x.v)
        if x.k == 'str':
            self.i += 1
            return unquote(x.v)
        if x.k == 'char':
            self.i += 1
            return unquote(x.v.lstrip('b').replace("'", '"'))
        if x.v in ('true', 'false'):
            self.i += 1
            return x.v == 'true'
        raise Unsupported('literal expected, got %r' % (x,))

    def pattern1(self):
        x = self.peek()
        if self.split('&'):
            self.eat('mut')
            return ('pref', self.pattern1())
        if self.eat('('):
            ps = []
            while not self.at(')'):
                ps.append(self.pattern())
                if not self.eat(','):
                    if len(ps) == 1 and self.at(')'):
                        self.i += 1
                        return ps[0]
                    break
            self.expect(')')
            return ('ptuple', ps)
        if self.eat('['):
            ps = []
            while not self.at(']'):
                ps.append(self.pattern())
                if not self.eat(','):
                    break
            self.expect(']')
            return ('pslice', ps)
        if self.at('_') or x.v == '_':
            self.i += 1
            return ('pwild',)
        if self.eat('..'):
            return ('prest',)
        neg = self.eat('-')
        if neg or x.k in ('num', 'str', 'char') or x.v in ('true', 'false'):
            v = self.lit()
            v = -v if neg else v
            if self.at('..=') or self.at('..'):
                op = self.peek().v
                self.i += 1
                if self.peek().k in ('num', 'char') or self.at('-'):
                    ng = self.eat('-')
                    w = self.lit()
                    return ('prange', v, -w if ng else w, op == '..=')
                return ('prange', v, None, False)
            return ('plit', v)
        if self.eat('ref'):
            self.eat('mut')
            return ('pbind', self.ident(), None, True)
        if self.eat('mut'):
            return ('pbind', self.ident(), None, False)
        # path
        path = [self.ident()]
        while self.eat('::'):
            if self.split('<'):
                self.generics()
                continue
            path.append(self.ident())
        if self.eat('('):
            ps = []
            while not self.at(')'):
                ps.append(self.pattern())
                if not self.eat(','):
                    break
            self.expect(')')
            return ('ptstruct', path, ps)
        if self.at('{'):
            self.i += 1
            fs = []
            while not self.at('}'):
                if self.eat('..'):
                    break
                isref = self.eat('ref')
                mut = self.eat('mut')
                nm = self.ident()
                if self.eat(':'):
                    fs.append((nm, self.pattern()))
                else:
                    fs.append((nm, ('pbind', nm, None, isref)))
                if not self.eat(','):
                    break
            self.expect('}')
            return ('pstruct', path, fs)
        if len(path) == 1 and self.eat('@'):
            return ('pbind', path[0], self.pattern1(), False)
        if len(path) == 1 and not path[0][0].isupper():
            return ('pbind', path[0], None, False)
        return ('ppath', path)

    # ---- expressions ----
    def expr(self, nostruct=False):
        return self.assign(nostruct)

    def assign(self, ns):
        x = self.peek()
        if x.v == 'return' and x.k == 'id':
            self.i += 1
            return ('return', None if self.ends() else self.expr(ns))
        if x.v == 'break' and x.k == 'id':
            self.i += 1
            lab = None
            if self.peek().k == 'life':
                lab = self.peek().v
                self.i += 1
            return ('break', lab, None if self.ends() else self.expr(ns))
        if x.v == 'continue' and x.k == 'id':
            self.i += 1
            lab = None
            if self.peek().k == 'life':
                lab = self.peek().v
                self.i += 1
            return ('continue', lab)
        if (x.k == 'p' and x.v in ('|', '||')) or (x.v == 'move' and x.k == 'id'):
            return self.closure()
        lhs = self.range_(ns)
        x = self.peek()
        if x.k == 'p' and x.v in ASSIGN:
            self.i += 1
            rhs = self.assign(ns)
            return ('assign', x.v, lhs, rhs)
        if x.k == 'p' and x.v == '>' and self.peek(1).v == '>=' and self.peek(1).pos == x.end:
            self.i += 2
            return ('assign', '>>=', lhs, self.assign(ns))
        return lhs

    def ends(self):
        x = self.peek()
        return x.k == 'eof' or (x.k == 'p' and x.v in (';', '}', ')', ',', ']', '=>'))

    def closure(self):
        self.eat('move')
        ps = []
        if self.eat('||'):
            pass
        else:
            self.expect('|')
            while not self.at('|'):
                p = self.pattern1()
                if self.eat(':'):
                    self.type_()
                ps.append(p)
                if not self.eat(','):
                    break
            self.expect('|')
        if self.eat('->'):
            self.type_()
            return ('closure', ps, self.block())
        return ('closure', ps, self.expr())

    def range_(self, ns):
        if self.at('..') or self.at('..='):
            op = self.peek().v
            self.i += 1
            hi = None if self.ends() or (ns and self.at('{')) else self.binary(1, ns)
            return ('range', None, hi, op == '..=')
        lo = self.binary(1, ns)
        if self.at('..') or self.at('..='):
            op = self.peek().v
            self.i += 1
            hi = None if self.ends() or (ns and self.at('{')) else self.binary(1, ns)
            return ('range', lo, hi, op == '..=')
        return lo

    def binop(self):
        x = self.peek()
        if x.k != 'p':
            return None, 0
        if x.v == '>' and self.peek(1).v == '>' and self.peek(1).pos == x.end:
            return '>>', 2
        if x.v in BIN:
            return x.v, 1
        return None, 0

    def binary(self, minp, ns):
        lhs = self.unary(ns)
        while True:
            if self.at('as'):
                self.i += 1
                lhs = ('as', lhs, self.type_())
                continue
            op, k = self.binop()
            if op is None or BIN[op] < minp:
                return lhs
            self.i += k
            rhs = self.binary(BIN[op] + 1, ns)
            lhs = ('bin', op, lhs, rhs)

    def unary(self, ns):
        x = self.peek()
        if x.k == 'p':
            if x.v in ('-', '!', '*'):
                self.i += 1
                e = self.unary(ns)
                return {'-': ('neg', e), '!': ('not', e), '*': ('deref', e)}[x.v]
            if x.v in ('&', '&&'):
                self.i += 1
                if self.at('mut'):
                    self.i += 1
                    return ('refmut', self.unary(ns))
                return ('ref', self.unary(ns))
        e = self.postfix(ns)
        while self.at('as'):
            self.i += 1
            e = ('as', e, self.type_())
        return e

    def args(self, close=')'):
        xs = []
        while not self.at(close):
            xs.append(self.expr())
            if not self.eat(','):
                break
        self.expect(close)
        return xs

    def postfix(self, ns):
        e = self.primary(ns)
        while True:
            if self.at('?'):
                self.i += 1
                e = ('try', e)
            elif self.at('('):
                self.i += 1
                e = ('call', e, self.args())
            elif self.at('['):
                self.i += 1
                ix = self.expr()
                self.expect(']')
                e = ('index', e, ix)
            elif self.at('.'):
                self.i += 1
                x = self.peek()
                if x.k == 'num':
                    self.i += 1
                    for part in x.v.split('.'):
                        e = ('tfield', e, int(part))
                    continue
                nm = self.ident()
                targs = None
                if self.at('::'):
                    self.i += 1
                    if not self.split('<'):
                        raise Unsupported('turbofish')
                    targs = self.generics()
                if self.at('('):
                    self.i += 1
                    e = ('method', e, nm, targs, self.args())
                else:
                    e = ('field', e, nm)
            else:
                return e

    def block(self):
        self.expect('{')
        stmts, tail = [], None
        while not self.at('}'):
            tail = None
            while self.at('#'):
                self.attr()
            if self.eat(';'):
                continue
            x = self.peek()
            if x.v == 'let' and x.k == 'id':
                self.i += 1
                p = self.pattern()
                ty = None
                if self.eat(':'):
                    ty = self.type_()
                e = els = None
                if self.eat('='):
                    e = self.expr()
                    if self.eat('else'):
                        els = self.block()
                self.expect(';')
                stmts.append(('let', p, ty, e, els))
                continue
            if x.k == 'id' and (x.v in ('fn', 'struct', 'enum', 'impl', 'use', 'static', 'trait', 'pub', 'type', 'mod') or
                                (x.v == 'const' and self.peek(1).k == 'id') or (x.v == 'unsafe' and self.at('fn', 1))):
                it = self.item([])
                if it is not None:
                    stmts.append(('item', it))
                continue
            e = self.expr_stmt()
            if self.eat(';'):
                stmts.append(('expr', e))
            elif self.at('}'):
                tail = e
            else:
                stmts.append(('expr', e))
        self.expect('}')
        return ('block', stmts, tail)

    def expr_stmt(self):
        """a statement: block-like expressions end it without ';'"""
        x = self.peek()
        if x.k == 'life' or (x.k == 'id' and x.v in ('if', 'match', 'loop', 'while', 'for', 'unsafe')) or self.at('{'):
            e = self.primary(False)
            if self.at('.') or self.at('?'):
                # method call on a block-like expression
                self.i0 = self.i
                e2 = e
                while self.at('.') or self.at('?'):
                    if self.eat('?'):
                        e2 = ('try', e2)
                        continue
                    self.i += 1
                    if self.peek().k == 'num':
                        e2 = ('tfield', e2, int(self.peek().v))
                        self.i += 1
                        continue
                    nm = self.ident()
                    targs = None
                    if self.eat('::'):
                        self.split('<')
                        targs = self.generics()
                    if self.eat('('):
                        e2 = ('method', e2, nm, targs, self.args())
                    else:
                        e2 = ('field', e2, nm)
                if self.at('}') or self.at(';'):
                    return e2
                op, k = self.binop()
                if op or self.peek().v in ASSIGN:
                    raise Unsupported('operator after a block statement')
                return e2
            if self.at('}') or self.at(';'):
                return e
            op, k = self.binop()
            if op and op not in ('*', '&', '-', '|', '||', '&&'):
                raise Unsupported('operator after a block statement')
            return e
        return self.expr()

    def cond(self):
        if self.eat('let'):
            p = self.pattern()
            self.expect('=')
            e = self.binary(3, True)
            c = ('iflet', p, e)
            while self.eat('&&'):
                if self.eat('let'):
                    p = self.pattern()
                    self.expect('=')
                    c = ('condand', c, ('iflet', p, self.binary(3, True)))
                else:
                    c = ('condand', c, self.binary(3, True))
            return c
        return self.expr(True)

    def primary(self, ns):
        x = self.peek()
        if x.k == 'life':
            self.i += 1
            self.expect(':')
            e = self.primary(ns)
            return ('label', x.v, e)
        if x.k == 'num':
            self.i += 1
            return ('lit', number(x.v))
        if x.k in ('str', 'char'):
            return ('lit', self.lit())
        if x.k == 'p':
            if x.v == '(':
                self.i += 1
                xs = []
                tup = False
                while not self.at(')'):
                    xs.append(self.expr())
                    if not self.eat(','):
                        break
                    tup = True
                self.expect(')')
                if len(xs) == 1 and not tup:
                    return ('paren', xs[0])
                return ('tuple', xs)
            if x.v == '[':
                self.i += 1
                if self.eat(']'):
                    return ('arr', [])
                e = self.expr()
                if self.eat(';'):
                    n = self.expr()
                    self.expect(']')
                    return ('arrn', e, n)
                xs = [e]
                while self.eat(','):
                    if self.at(']'):
                        break
                    xs.append(self.expr())
                self.expect(']')
                return ('arr', xs)
            if x.v == '{':
                return self.block()
            if x.v in ('|', '||'):
                return self.closure()
            if x.v == '<':
                self.i += 1
                ty = self.type_()
                if self.eat('as'):
                    self.type_()
                self.split('>')
                path = [ty[1] if ty[0] == 'path' else '?']
                while self.eat('::'):
                    path.append(self.ident())
                return ('path', path, None)
        if x.k != 'id':
            raise Unsupported('unexpected %r near %s' % (x.v, ' '.join(y.v for y in self.t[max(0, self.i - 8):self.i + 5])))
        v = x.v
        if v in ('true', 'false'):
            self.i += 1
            return ('lit', v == 'true')
        if v == 'if':
            self.i += 1
            c = self.cond()
            a = self.block()
            b = None
            if self.eat('else'):
                b = self.primary(False) if self.at('if') else self.block()
            return ('if', c, a, b)
        if v == 'match':
            self.i += 1
            e = self.expr(True)
            self.expect('{')
            arms = []
            while not self.at('}'):
                while self.at('#'):
                    self.attr()
                p = self.pattern()
                g = None
                if self.eat('if'):
                    g = self.expr()
                self.expect('=>')
                b = self.expr_arm()
                arms.append((p, g, b))
                self.eat(',')
            self.expect('}')
            return ('match', e, arms)
        if v == 'loop':
            self.i += 1
            return ('loop', self.block())
        if v == 'while':
            self.i += 1
            c = self.cond()
            return ('while', c, self.block())
        if v == 'for':
            self.i += 1
            p = self.pattern()
            self.expect('in')
            e = self.expr(True)
            return ('for', p, e, self.block())
        if v == 'unsafe':
            self.i += 1
            return self.block()
        if v == 'move':
            return self.closure()
        if v in ('return', 'break', 'continue'):
            return self.assign(ns)
        # path
        path, targs = [self.ident()], None
        while self.at('::'):
            self.i += 1
            if self.split('<'):
                targs = self.generics()
                continue
            path.append(self.ident())
        if self.at('!') and not self.at('=', 1) and self.peek(1).v in ('(', '[', '{'):
            self.i += 1
            return self.macro(path[-1])
        if self.at('{') and not ns and (path[-1][0].isupper()) and self.looks_struct():
            self.i += 1
            fs, base = [], None
            while not self.at('}'):
                if self.eat('..'):
                    base = self.expr()
                    break
                nm = self.ident()
                if self.eat(':'):
                    fs.append((nm, self.expr()))
                else:
                    fs.append((nm, ('path', [nm], None)))
                if not self.eat(','):
                    break
            self.expect('}')
            return ('struct', path, fs, base)
        return ('path', path, targs)

    def expr_arm(self):
        if self.at('{'):
            e = self.block()
            if self.at('.') or self.at('?'):
                raise Unsupported('match arm')
            return e
        return self.expr()

    def looks_struct(self):
        a, b = self.peek(1), self.peek(2)
        return a.v == '}' or a.v == '..' or (a.k == 'id' and b.v in (':', ',', '}'))

    def delimited(self):
        """token list of a balanced group, without the delimiters"""
        op = self.peek().v
        cl = {'(': ')', '[': ']', '{': '}'}[op]
        self.i += 1
        depth, out = 1, []
        while True:
            x = self.peek()
            if x.k == 'eof':
                raise Unsupported('unbalanced')
            self.i += 1
            if x.k == 'p' and x.v in '([{':
                depth += 1
            elif x.k == 'p' and x.v in ')]}':
                depth -= 1
                if depth == 0:
                    return out
            out.append(x)

    def macro(self, name):
        toks = self.delimited()
        p = Parser(list(toks))
        if name == 'vec':
            if not toks:
                return ('vec', [])
            e = p.expr()
            if p.eat(';'):
                return ('vecn', e, p.expr())
            xs = [e]
            while p.eat(','):
                if p.peek().k == 'eof':
                    break
                xs.append(p.expr())
            return ('vec', xs)
        if name == 'matches':
            e = p.expr()
            p.expect(',')
            pat = p.pattern()
            g = None
            if p.eat('if'):
                g = p.expr()
            return ('matches', e, pat, g)
        if name in ('assert', 'debug_assert'):
            return ('assertm', p.expr())
        if name in ('assert_eq', 'debug_assert_eq', 'assert_ne', 'debug_assert_ne'):
            a = p.expr()
            p.expect(',')
            return ('assertm', ('bin', '==' if name.endswith('eq') else '!=', a, p.expr()))
        if name in ('panic', 'unreachable', 'todo', 'unimplemented'):
            return ('panic', name)
        if name in ('format', 'concat', 'env', 'stringify'):
            return ('lit', unquote(toks[0].v) if toks and toks[0].k == 'str' else '')
        if name in ('println', 'eprintln', 'print'):
            return ('tuple', [])
        return ('macro', name, toks)

    # ---- items ----
    def attr(self):
        self.expect('#')
        self.eat('!')
        return self.delimited()

    def skip_vis(self):
        if self.eat('pub'):
            if self.at('('):
                self.delimited()

    def where(self):
        if self.eat('where'):
            while not self.at('{') and not self.at(';'):
                self.type_() if self.peek().k != 'life' else self.adv()
                self.expect(':')
                self.bounds()
                if not self.eat(','):
                    break

    def adv(self):
        self.i += 1

    def fn(self, attrs):
        name = self.ident()
        if self.split('<'):
            self.generics()
        self.expect('(')
        params = []
        while not self.at(')'):
            while self.at('#'):
                self.attr()
            # self
            j = self.i
            if self.split('&'):
                if self.peek().k == 'life':
                    self.i += 1
                self.eat('mut')
                if self.eat('self'):
                    params.append((('pbind', 'self', None, False), None))
                    self.eat(',')
                    continue
                raise Unsupported('parameter')
            if self.at('mut') and self.at('self', 1):
                self.i += 1
            if self.at('self') and not self.at(':', 1):
                self.i += 1
                params.append((('pbind', 'self', None, False), None))
                self.eat(',')
                continue
            p = self.pattern1()
            self.expect(':')
            params.append((p, self.type_()))
            if not self.eat(','):
                break
        self.expect(')')
        ret = None
        if self.eat('->'):
            ret = self.type_()
        self.where()
        body = None
        if self.at('{'):
            body = self.block()
        else:
            self.expect(';')
        return ('fn', name, params, ret, body, attrs)

    def item(self, attrs):
        self.skip_vis()
        while self.at('unsafe') or self.at('async') or (self.at('const') and self.at('fn', 1)) or (self.at('extern') and self.peek(1).k == 'str'):
            self.i += 1
            if self.peek().k == 'str':
                self.i += 1
        if self.eat('fn'):
            return self.fn(attrs)
        if self.eat('use') or self.eat('mod') or self.eat('extern'):
            while not self.eat(';'):
                if self.at('{'):
                    self.delimited()
                    if self.peek(-1).v == '}' and not self.at(';'):
                        return None
                else:
                    self.i += 1
            return None
        if self.eat('const') or self.eat('static'):
            self.eat('mut')
            name = self.ident()
            self.expect(':')
            ty = self.type_()
            self.expect('=')
            e = self.expr()
            self.expect(';')
            return ('const', name, ty, e)
        if self.eat('type'):
            while not self.eat(';'):
                self.i += 1
            return None
        if self.eat('struct'):
            name = self.ident()
            if self.split('<'):
                self.generics()
            self.where()
            fs = []
            if self.eat('{'):
                while not self.at('}'):
                    while self.at('#'):
                        self.attr()
                    self.skip_vis()
                    nm = self.ident()
                    self.expect(':')
                    fs.append((nm, self.type_()))
                    if not self.eat(','):
                        break
                self.expect('}')
            elif self.at('('):
                self.i += 1
                k = 0
                while not self.at(')'):
                    self.skip_vis()
                    fs.append((k, self.type_()))
                    k += 1
                    if not self.eat(','):
                        break
                self.expect(')')
                self.expect(';')
            else:
                self.expect(';')
            return ('structdef', name, fs, attrs)
        if self.eat('enum'):
            name = self.ident()
            if self.split('<'):
                self.generics()
            self.where()
            self.expect('{')
            vs = []
            while not self.at('}'):
                while self.at('#'):
                    self.attr()
                nm = self.ident()
                kind, fs = 'unit', []
                disc = None
                if self.at('('):
                    self.i += 1
                    kind = 'tuple'
                    while not self.at(')'):
                        fs.append(self.type_())
                        if not self.eat(','):
                            break
                    self.expect(')')
                elif self.eat('{'):
                    kind = 'struct'
                    while not self.at('}'):
                        f = self.ident()
                        self.expect(':')
                        fs.append((f, self.type_()))
                        if not self.eat(','):
                            break
                    self.expect('}')
                elif self.eat('='):
                    disc = self.expr()
                vs.append((nm, kind, fs, disc))
                if not self.eat(','):
                    break
            self.expect('}')
            return ('enumdef', name, vs, attrs)
        if self.eat('impl'):
            if self.split('<'):
                self.generics()
            ty = self.type_()
            trait = None
            if self.eat('for'):
                trait, ty = ty, self.type_()
            self.where()
            self.expect('{')
            fns, consts = [], []
            while not self.at('}'):
                at = []
                while self.at('#'):
                    at.append(self.attr())
                it = self.item(at)
                if it is None:
                    continue
                (fns if it[0] == 'fn' else consts).append(it)
            self.expect('}')
            return ('impl', ty, trait, fns, consts)
        if self.eat('trait'):
            name = self.ident()
            if self.split('<'):
                self.generics()
            if self.eat(':'):
                self.bounds()
            self.where()
            self.expect('{')
            fns = []
            while not self.at('}'):
                at = []
                while self.at('#'):
                    at.append(self.attr())
                it = self.item(at)
                if it is not None and it[0] == 'fn':
                    fns.append(it)
            self.expect('}')
            return ('trait', name, fns)
        if self.peek().k == 'id' and self.at('!', 1):
            name = self.ident()
            self.i += 1
            if name == 'macro_rules':
                mname = self.ident()
                body = self.delimited()
                self.eat(';')
                return ('macro_rules', mname, body)
            toks = self.delimited()
            self.eat(';')
            return ('macrocall', name, toks)
        raise Unsupported('item near %s' % ' '.join(y.v for y in self.t[self.i:self.i + 8]))

    def items(self):
        out = []
        while self.peek().k != 'eof':
            attrs = []
            while self.at('#'):
                attrs.append(self.attr())
            it = self.item(attrs)
            if it is not None:
                out.append(it)
        return out


def number(v):
    m = re.match(r'^(0x[0-9a-fA-F_]+?|0b[01_]+|[\d_]+(?:\.[\d_]*)?(?:[eE][+-]?\d+)?)(f64|f32|usize|isize|[ui](?:8|16|32|64|128))?$', v)
    if not m:
        raise Unsupported('number ' + v)
    s, suf = m.group(1).replace('_', ''), m.group(2)
    if s.startswith('0x') or s.startswith('0b'):
        return int(s, 0)
    if '.' in s or 'e' in s or 'E' in s or suf in ('f64', 'f32'):
        return float(s)
    return int(s)


def unquote(s):
    s = s.lstrip('br#').rstrip('#') if s[0] != '"' else s
    s = s.strip('#')
    return s[1:-1].replace('\\"', '"').replace('\\n', '\n').replace('\\\\', '\\')


# ---- macro_rules (single-level repetitions) ----
def expand(rules, toks):
    """rules: body tokens of macro_rules; toks: call arguments. Returns the tokens of the expansion."""
    p = Parser(list(rules))
    while p.peek().k != 'eof':
        pat = p.delimited()
        p.expect('=>')
        body = p.delimited()
        p.eat(';')
        b = match_macro(pat, list(toks))
        if b is not None:
            return substitute(body, b)
    raise Unsupported('no macro rule matches')


def pat_elems(pat):
    out, i = [], 0
    p = Parser(list(pat))
    while p.peek().k != 'eof':
        if p.at('$') and p.at('(', 1):
            p.i += 1
            inner = p.delimited()
            sep = None
            if not (p.at('*') or p.at('+') or p.at('?')):
                sep = p.peek().v
                p.i += 1
            op = p.peek().v
            p.i += 1
            out.append(('rep', pat_elems(inner), sep, op))
        elif p.at('$') and p.peek(1).k == 'id' and p.at(':', 2):
            nm = p.peek(1).v
            kind = p.peek(3).v
            p.i += 4
            out.append(('var', nm, kind))
        else:
            out.append(('tok', p.peek().v))
            p.i += 1
    return out


def take(p, kind):
    j = p.i
    if kind == 'ident':
        p.ident()
    elif kind == 'ty':
        p.type_()
    elif kind == 'expr':
        p.expr()
    elif kind == 'literal':
        p.eat('-')
        p.lit()
    elif kind == 'tt':
        if p.peek().v in ('(', '[', '{'):
            p.delimited()
        else:
            p.i += 1
    else:
        raise Unsupported('fragment ' + kind)
    return p.t[j:p.i]


def match_seq(elems, p, b):
    for e in elems:
        if e[0] == 'tok':
            if p.peek().v != e[1]:
                return False
            p.i += 1
        elif e[0] == 'var':
            try:
                b[e[1]] = take(p, e[2])
            except Unsupported:
                return False
        else:
            reps = []
            while p.peek().k != 'eof':
                j = p.i
                if reps and e[2] is not None:
                    if p.peek().v != e[2]:
                        break
                    p.i += 1
                bb = {}
                if not match_seq(e[1], p, bb):
                    p.i = j
                    break
                reps.append(bb)
            b.setdefault('__reps', []).append(({x[1] for x in e[1] if x[0] == 'var'}, reps))
    return True


def match_macro(pat, toks):
    b = {}
    p = Parser(toks)
    if match_seq(pat_elems(pat), p, b) and p.peek().k == 'eof':
        return b
    return None


def substitute(body, b):
    out = []
    p = Parser(list(body))
    while p.peek().k != 'eof':
        if p.at('$') and p.at('(', 1):
            p.i += 1
            inner = p.delimited()
            sep = None
            if not (p.at('*') or p.at('+') or p.at('?')):
                sep = p.peek()
                p.i += 1
            p.i += 1
            names = {inner[k + 1].v for k in range(len(inner) - 1) if inner[k].v == '$'}
            reps = next((r for ns, r in b.get('__reps', []) if ns & names), [])
            for k, bb in enumerate(reps):
                if k and sep is not None:
                    out.append(sep)
                out += substitute(inner, dict({x: y for x, y in b.items() if x != '__reps'}, **bb))
        elif p.at('$') and p.peek(1).k == 'id' and p.peek(1).v in b:
            out += b[p.peek(1).v]
            p.i += 2
        else:
            out.append(p.peek())
            p.i += 1
    return out


def parse_file(src):
    return Parser(lex(src)).items()
