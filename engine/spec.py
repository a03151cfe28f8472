"""Contract language: parser for /verif/contracts/*.spec into an AST (tuples)."""
import re, os

TOK = re.compile(r'''\s*(?:(?P<num>\d+)|(?P<str>"(?:[^"\\]|\\.)*")|(?P<id>[A-Za-z_$][A-Za-z0-9_$]*)|(?P<raw>@[A-Za-z_][A-Za-z0-9_.:]*)|(?P<op><==>|==>|->|::|:=|==|!=|<=|>=|&&|\|\||[-+*/%<>!?:.,;(){}\[\]|&]))''')


class SpecError(Exception):
    pass


def tokenize(s):
    out = []; i = 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == '': break
            raise SpecError('bad token at %r' % s[i:i + 30])
        i = m.end()
        for k in ('num', 'str', 'id', 'raw', 'op'):
            if m.group(k) is not None:
                out.append((k, m.group(k))); break
    out.append(('eof', ''))
    return out


class P:
    def __init__(self, s):
        self.src = s
        self.t = tokenize(s); self.i = 0

    def peek(self, v=None):
        if v is None: return self.t[self.i]
        return self.t[self.i][1] == v and self.t[self.i][0] != 'str'

    def next(self):
        x = self.t[self.i]; self.i += 1; return x

    def eat(self, v):
        if not self.peek(v): raise SpecError('expected %r at %r in %s' % (v, self.t[self.i:self.i + 5], self.src[:200]))
        self.i += 1

    def expr(self): return self.iff()

    def iff(self):
        a = self.imp()
        while self.peek('<==>'):
            self.next(); b = self.imp(); a = ('bin', '<==>', a, b)
        return a

    def imp(self):
        a = self.cond()
        if self.peek('==>'):
            self.next(); b = self.imp(); return ('bin', '==>', a, b)
        return a

    def cond(self):
        a = self.orx()
        if self.peek('?'):
            self.next(); b = self.cond(); self.eat(':'); c = self.cond()
            return ('ite', a, b, c)
        return a

    def orx(self):
        a = self.andx()
        while self.peek('||'):
            self.next(); a = ('bin', '||', a, self.andx())
        return a

    def andx(self):
        a = self.cmp()
        while self.peek('&&'):
            self.next(); a = ('bin', '&&', a, self.cmp())
        return a

    def cmp(self):
        a = self.add()
        res = None
        while self.t[self.i][1] in ('==', '!=', '<', '<=', '>', '>=') and self.t[self.i][0] == 'op':
            op = self.next()[1]; b = self.add()
            c = ('bin', op, a, b)
            res = c if res is None else ('bin', '&&', res, c)
            a = b
        return res if res is not None else a

    def add(self):
        a = self.mul()
        while self.t[self.i][0] == 'op' and self.t[self.i][1] in ('+', '-'):
            op = self.next()[1]; a = ('bin', op, a, self.mul())
        return a

    def mul(self):
        a = self.un()
        while self.t[self.i][0] == 'op' and self.t[self.i][1] in ('*', '/', '%'):
            op = self.next()[1]; a = ('bin', op, a, self.un())
        return a

    def un(self):
        if self.peek('!'): self.next(); return ('not', self.un())
        if self.peek('-'): self.next(); return ('neg', self.un())
        return self.post()

    def post(self):
        a = self.prim()
        while True:
            if self.peek('['):
                self.next(); i = self.expr()
                if self.peek(':='):
                    self.next(); v = self.expr(); self.eat(']'); a = ('upd', a, i, v)
                else:
                    self.eat(']'); a = ('idx', a, i)
            elif self.peek('->') or self.peek('.'):
                self.next(); k, n = self.next()
                a = ('fld', a, n)
            else:
                return a

    def args(self):
        self.eat('(')
        r = []
        while not self.peek(')'):
            r.append(self.expr())
            if self.peek(','): self.next()
        self.eat(')')
        return r

    def prim(self):
        k, v = self.next()
        if k == 'num': return ('num', int(v))
        if k == 'str': return ('str', v[1:-1])
        if k == 'raw': return ('raw', v[1:])
        if v == '(':
            e = self.expr(); self.eat(')'); return e
        if v in ('forall', 'exists'):
            binders = []
            while not self.peek('::') and not self.peek('{'):
                names = [self.next()[1]]
                while self.peek(','):
                    self.next(); names.append(self.next()[1])
                ty = 'int'
                if self.peek(':'):
                    self.next(); ty = self.next()[1]
                    if self.peek('.'):
                        self.next(); ty = ty + '.' + self.next()[1]
                binders += [(n, ty) for n in names]
                if self.peek(';') or self.peek(','): self.next()
            trig = []
            while self.peek('{'):
                self.next(); ts = [self.expr()]
                while self.peek(','):
                    self.next(); ts.append(self.expr())
                self.eat('}'); trig.append(ts)
            self.eat('::')
            body = self.expr()
            return (v, binders, trig, body)
        if v == 'let':
            n = self.next()[1]; self.eat('=') if self.peek('=') else self.eat(':=')
            e = self.expr(); self.eat(';')
            return ('let', n, e, self.expr())
        if k == 'id':
            if self.peek('('):
                return ('call', v, self.args())
            return ('name', v)
        raise SpecError('unexpected %r in %s' % (v, self.src[:200]))


def parse_expr(s):
    p = P(s)
    e = p.expr()
    if p.t[p.i][0] != 'eof': raise SpecError('trailing %r in %s' % (p.t[p.i:p.i + 4], s[:300]))
    return e


class Clause:
    __slots__ = ('kind', 'label', 'layers', 'by', 'expr', 'text', 'loop', 'fn', 'split')

    def __init__(self, **kw):
        for k in self.__slots__: setattr(self, k, kw.get(k))


class FnSpec:
    def __init__(self, name):
        self.name = name; self.clauses = []; self.opts = {}

    def get(self, kind, layers, loop=None):
        return [c for c in self.clauses if c.kind == kind and (not c.layers or c.layers & layers)
                and (kind != 'inv' or c.loop is None or loop is None or c.loop == loop)]


class Spec:
    def __init__(self):
        self.defines = {}   # name -> (params, expr)
        self.functions = {}  # name -> (argsorts, ressort)
        self.axioms = []    # (label, layers, expr, text)
        self.lemmas = []
        self.fns = {}
        self.ghosts = {}    # name -> sort
        self.files = []
        self.groups = {}    # name -> list of clause texts

    def load(self, path):
        self.files.append(path)
        items = []
        cur = None
        for ln in open(path):
            ln = ln.rstrip('\n')
            st = ln.split('#', 1)[0].rstrip() if '#' in ln and '"#' not in ln else ln.rstrip()
            if not st.strip(): continue
            ind = len(st) - len(st.lstrip())
            if ind == 0:
                cur = [st.strip(), []]; items.append(cur)
            elif ind <= 2:
                cur[1].append(st.strip())
            else:
                if cur[1]: cur[1][-1] += ' ' + st.strip()
                else: cur[0] += ' ' + st.strip()
        for head, subs in items: self._item(head, subs)
        return self

    def _clause(self, text, fn):
        # requires|ensures|inv [n] *GROUP [-label ...]: all members of the group but those named
        m = re.match(r'(requires|ensures|inv|cut|note|site)\s+((?:\d+\s+|[A-Za-z_]\w*\s+)?)\*([A-Za-z0-9_]+)((?:\s+-\w+)*)(?:\s+@([a-z0-9_,]+))?(?:\s+by\s+([A-Za-z0-9_.,*]+))?\s*$', text)
        if m:
            skip = {x[1:] for x in m.group(4).split()}
            for t in self.groups[m.group(3)]:
                if re.match(r'[A-Za-z0-9_]+', t).group(0) in skip: continue
                if m.group(5): t = re.sub(r'^([A-Za-z0-9_]+)(?!@)(?=\s|:)', r'\1@' + m.group(5), t)
                if m.group(6): t = re.sub(r'^([A-Za-z0-9_]+(?:@[a-z0-9_,]+)?)(\s+by\s+[A-Za-z0-9_.,*]+)?', lambda x: x.group(1) + (x.group(2) or ' by ' + m.group(6)), t, count=1)
                self._clause('%s %s%s' % (m.group(1), m.group(2), t), fn)
            return
        m = re.match(r'(requires|ensures|inv|cut|note|site|set|step|opt)\b\s*(.*)$', text, re.S)
        if not m: raise SpecError('bad clause %r' % text)
        kind, rest = m.group(1), m.group(2)
        if kind == 'opt':
            k, _, v = rest.partition(' ')
            fn.opts[k] = v.strip() or True
            return
        loop = None
        m = re.match(r'(\d+)\s+(.*)$', rest, re.S)
        if m and kind in ('inv', 'set', 'step'): loop = int(m.group(1)); rest = m.group(2)
        if kind in ('cut', 'note', 'site'):       # cut CALLEE label: a fact checked just before the statement that calls it; then all that is known
            loop, _, rest = rest.partition(' '); rest = rest.strip()
        m = re.match(r'([A-Za-z0-9_.]+)(?:@([a-z0-9_,]+))?(?:\s+by\s+([A-Za-z0-9_.,*]+))?\s*:(?!:|=)\s*(.*)$', rest, re.S)
        if not m: raise SpecError('bad clause header %r' % text)
        label, layers, by, ex = m.groups()
        c = Clause(kind=kind, label=label, layers=frozenset(layers.split(',')) if layers else frozenset(),
                   by=by.split(',') if by else None, expr=parse_expr(ex), text=ex, loop=loop, fn=fn.name)
        fn.clauses.append(c)

    def _item(self, head, subs):
        kw, _, rest = head.partition(' ')
        rest = rest.strip()
        if kw == 'define':
            m = re.match(r'([A-Za-z_][A-Za-z0-9_]*)\s*(?:\(([^)]*)\))?\s*:=\s*(.*)$', rest, re.S)
            if not m: raise SpecError(head)
            ps = [x.strip() for x in (m.group(2) or '').split(',') if x.strip()]
            self.defines[m.group(1)] = (ps, parse_expr(m.group(3)))
        elif kw == 'function':
            m = re.match(r'([A-Za-z_][A-Za-z0-9_]*)\s*\(([^)]*)\)\s*:\s*(.*)$', rest, re.S)
            self.functions[m.group(1)] = ([x.strip() for x in split_sorts(m.group(2))], m.group(3).strip())
        elif kw == 'ghost':
            n, _, s = rest.partition(':')
            self.ghosts[n.strip()] = s.strip()
        elif kw == 'axiom' or kw == 'lemma':
            f = FnSpec('<axiom>')
            m = re.match(r'([A-Za-z0-9_.]+)(?:@([a-z0-9_,]+))?(?:\s+by\s+([A-Za-z0-9_.,*]+))?(?:\s+induct\s+(\w+))?\s*:(?!:)\s*(.*)$', rest, re.S)
            if not m: raise SpecError(head)
            (self.axioms if kw == 'axiom' else self.lemmas).append(
                dict(label=m.group(1), layers=frozenset(m.group(2).split(',')) if m.group(2) else frozenset(),
                     by=m.group(3).split(',') if m.group(3) else None, induct=m.group(4), expr=parse_expr(m.group(5)), text=m.group(5), kind=kw))
        elif kw == 'group':
            g = self.groups.setdefault(rest, [])
            for t in subs:
                m = re.match(r'\*([A-Za-z0-9_]+)((?:\s+-\w+)*)$', t)
                if m: g += [x for x in self.groups[m.group(1)] if re.match(r'[A-Za-z0-9_]+', x).group(0) not in {y[1:] for y in m.group(2).split()}]
                else: g.append(t)
        elif kw == 'fn':
            fn = self.fns.setdefault(rest.split('(')[0].strip(), FnSpec(rest.split('(')[0].strip()))
            m = re.search(r'\((.*)\)', rest)
            if m and m.group(1).strip():
                fn.params = [x.strip() for x in m.group(1).split(',')]
            for s in subs: self._clause(s, fn)
        else:
            raise SpecError('bad item %r' % head)


def split_sorts(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch == '(': d += 1
        if ch == ')': d -= 1
        if ch == ',' and d == 0:
            out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out
