"""Text written to a file or to standard output, as lines of tokens (library model, trusted).

Ghost state: TOK[line][i] and KND[line][i] are the value and the kind of token i of a line, LLEN[line] the number
of tokens of a finished line, LINE and POS where the writer stands, LAST the lexical state at the end of the text
(0 blank, 1 digits, 2 minus sign after a blank, 4 minus sign after something else, 3 other).  A token is a decimal
number or one other character or word; kinds: 0 number after a blank, 1 number right after another token, 2 other
after a blank, 3 other right after another token, 4 text whose tokens are not known.  Blank lines leave no trace."""
import re
from smt import *
from cxx import Untranslatable
from vc import V, INT, BOOL
import builtins_

ROOTS = ['TOK', 'KND', 'LLEN', 'LINE', 'POS', 'LAST']
SORTS = ['(Array Int (Array Int Int))', '(Array Int (Array Int Int))', '(Array Int Int)', 'Int', 'Int', 'Int']


def code(w):
    """the number that stands for a character or word in TOK"""
    r = 0
    for ch in w: r = r * 256 + ord(ch)
    return r


LEX = re.compile(r'[A-Za-z_]+|\d+|\n|[ \t\r\f\v]+|.', re.S)
FMT = re.compile(r'%(%|[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|z|j|t)?[a-zA-Z])')


class Tokens:
    def __init__(self, sink):
        self.sink = sink        # 'cout' or 'file' (every output file stream)

    # state
    def on(self, ctx): return 'ghost.TOK' in ctx.rootinfo

    def g(self, ctx, st, r): return ctx.get(st, 'ghost.' + r)

    def s(self, ctx, st, r, t): ctx.setc(st, 'ghost.' + r, t, named=len(t) > 40)

    def put(self, ctx, st, value, kind):
        line, pos = self.g(ctx, st, 'LINE'), self.g(ctx, st, 'POS')
        for r, v in (('TOK', value), ('KND', kind)):
            a = self.g(ctx, st, r)
            self.s(ctx, st, r, Sto(a, line, Sto(Sel(a, line), pos, v)))
        self.s(ctx, st, 'POS', Add(pos, '1'))

    def flush(self, ctx, st):
        """a minus sign not followed by a number is a character of its own"""
        last = self.g(ctx, st, 'LAST')
        c = Or(Eq(last, '2'), Eq(last, '4'))
        if c == 'false': return
        # a minus sign on its own never occurs in the texts of interest: its tokens are left unknown
        line, pos = self.g(ctx, st, 'LINE'), self.g(ctx, st, 'POS')
        for r, v in (('TOK', '45'), ('KND', '4')):
            a = self.g(ctx, st, r)
            self.s(ctx, st, r, Ite(c, Sto(a, line, Sto(Sel(a, line), pos, v)), a))
        self.s(ctx, st, 'POS', Ite(c, Add(pos, '1'), pos))

    def number(self, ctx, st, t, digits=False):
        last = self.g(ctx, st, 'LAST')
        neg = cmpop('<', t, '0')
        m = Or(Eq(last, '2'), Eq(last, '4'))
        kind = Ite(Eq(last, '1'), '4', Ite(And(m, neg), '4', Ite(Or(Eq(last, '0'), Eq(last, '2')), '0', '1')))
        self.put(ctx, st, Ite(m, Neg(t), t), ctx.name_term(st, 'kind', 'Int', kind))
        self.s(ctx, st, 'LAST', '1')

    def other(self, ctx, st, v, kind=None):
        self.flush(ctx, st)
        last = self.g(ctx, st, 'LAST')
        self.put(ctx, st, v, kind or Ite(Eq(last, '0'), '2', '3'))
        self.s(ctx, st, 'LAST', '3')

    def unknown(self, ctx, st): self.other(ctx, st, ctx.fresh('text', 'Int'), '4')

    def newline(self, ctx, st):
        self.flush(ctx, st)
        line, pos = self.g(ctx, st, 'LINE'), self.g(ctx, st, 'POS')
        some = cmpop('>', pos, '0')
        if re.match(r'\(\+ .* \d+\)$', pos): pass
        ll = self.g(ctx, st, 'LLEN')
        some = ctx.name_term(st, 'some', 'Bool', some)
        self.s(ctx, st, 'LLEN', Ite(some, Sto(ll, line, pos), ll))
        self.s(ctx, st, 'LINE', Ite(some, Add(line, '1'), line))
        self.s(ctx, st, 'POS', '0')
        self.s(ctx, st, 'LAST', '0')

    def text(self, ctx, st, s):
        for w in LEX.findall(s):
            if w == '\n': self.newline(ctx, st)
            elif w.isspace():
                self.flush(ctx, st); self.s(ctx, st, 'LAST', '0')
            elif w.isdigit(): self.number(ctx, st, str(int(w)))
            elif w == '\a' or w == '\0': pass
            elif w == '-':
                self.flush(ctx, st)
                last = self.g(ctx, st, 'LAST')
                self.s(ctx, st, 'LAST', Ite(Eq(last, '0'), '2', '4'))
            else: self.other(ctx, st, str(code(w)))

    # hooks
    def emit(self, ctx, st, stream, v, ty=None):
        if not self.on(ctx): return False
        if (stream == 'cout') != (self.sink == 'cout') or stream in ('cerr',): return False
        k = v.ty[0]
        if k == 'stream':
            if v.ty[1] == 'endl': self.newline(ctx, st)
            elif v.ty[1] != 'flush': self.unknown(ctx, st)
        elif k == 'cstr' and isinstance(v.data, str): self.text(ctx, st, v.data)
        elif k == 'cstr' and isinstance(v.data, tuple):
            c, a, b = v.data
            outs = []
            for x in (a, b):
                s = st.copy()
                if isinstance(x, str): self.text(ctx, s, x)
                elif isinstance(x, tuple): self.emit(ctx, s, stream, V('0', ('cstr',), data=x))
                else: self.unknown(ctx, s)
                outs.append(s)
            for s in outs:
                for f in s.facts[len(st.facts):]: pass
            n = len(st.facts)
            for s in outs: st.facts += s.facts[n:]
            for r in ROOTS:
                self.s(ctx, st, r, Ite(c, self.g(ctx, outs[0], r), self.g(ctx, outs[1], r)))
        elif k == 'int' and ty and 'char' in ty:
            if is_num(v.t): self.text(ctx, st, chr(val(v.t) % 256))
            else: self.unknown(ctx, st)
        elif k == 'int': self.number(ctx, st, v.t)
        elif k == 'bool': self.number(ctx, st, Ite(v.t, '1', '0'))
        else: self.unknown(ctx, st)
        return False

    def printf(self, ctx, st, vs):
        if not self.on(ctx) or self.sink != 'cout': return False
        if not vs or vs[0].ty[0] != 'cstr' or not isinstance(vs[0].data, str): self.unknown(ctx, st); return True
        s = vs[0].data; i = 0; rest = list(vs[1:])
        for m in FMT.finditer(s):
            self.text(ctx, st, s[i:m.start()]); i = m.end()
            if m.group(1) == '%': self.text(ctx, st, '%'); continue
            if not rest: raise Untranslatable('printf arguments')
            v = rest.pop(0)
            if re.match(r'(?:hh|h|ll|l|z)?[diu]$', m.group(1)) and v.ty[0] in ('int', 'bool'): self.emit(ctx, st, 'cout', v)
            elif m.group(1) == 's' and v.ty[0] == 'cstr': self.emit(ctx, st, 'cout', v)
            elif m.group(1) == 'c' and v.ty[0] == 'int': self.emit(ctx, st, 'cout', v, 'char')
            else: self.unknown(ctx, st)
        self.text(ctx, st, s[i:])
        return True

    def opened(self, ctx, st):
        for r, s in zip(ROOTS[3:], SORTS[3:]): self.s(ctx, st, r, '0')
        self.s(ctx, st, 'OPENED', ctx.fresh('opened', 'Bool'))

    def stream_method(self, ctx, base, name, args, n, st, fr):
        if self.sink != 'file' or base.ty[1] not in ('ofstream', 'ostream') or not self.on(ctx): return None
        if name == 'open':
            for a in args: ctx.eval(a, st, fr)
            if self.g(ctx, st, 'OPENED') != 'false' and not ctx.dry:
                ctx.check(st, 'requires', 'once', Not(self.g(ctx, st, 'OPENED')), desc='one output file is opened')
            self.opened(ctx, st)
            return V('0', ('void',))
        if name in ('operator bool', 'is_open', 'good'): return V(self.g(ctx, st, 'OPENED'), BOOL)
        if name in ('operator!', 'fail'): return V(Not(self.g(ctx, st, 'OPENED')), BOOL)
        if name == 'put':
            v = ctx.ev(args[0], st, fr); self.emit(ctx, st, 'file', v, 'char'); return base
        if name == 'write':
            for a in args: ctx.eval(a, st, fr)
            self.unknown(ctx, st); return base
        return None

    def stream_open(self, ctx, st, ty):
        """an output file stream constructed with a file name"""
        if self.sink == 'file' and ty[1] == 'ofstream' and self.on(ctx): self.opened(ctx, st)
