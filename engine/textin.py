"""Text read from the input file, line by line (library model, trusted).

Ghost state: LC[l][i] is character i of line l of the input file, LN[l] its length, NL the number of lines, RD the
number of lines read so far.  A line ends in a NUL character (as std::string does) and holds no line break.
atoi and sscanf are functions of the text they are given; sscanf leaves an output alone when fewer conversions
succeed.  What these functions return for the words of a well-formed file is stated in contracts/text.spec."""
import re
from smt import *
from cxx import Untranslatable
from vc import V, LV, INT, BOOL, base_sort, const_arr
import builtins_


def buf(ctx, st, v):
    """characters behind a char pointer or string: (array term, offset)"""
    if isinstance(v, LV) and v.ty[0] == 'string': return ctx.agg_term(st, v, '.el'), '0'
    if isinstance(v, V) and v.base is not None and v.base.ty[0] in ('string', 'arr', 'vec', 'own'):
        return ctx.agg_term(st, v.base, '.el'), v.off
    return None, None


class Lines:
    def on(self, ctx): return 'ghost.LC' in ctx.rootinfo

    def emit(self, ctx, st, stream, v): return False

    def get(self, ctx, st, lv, c=None):
        lc, ln, rd, nl = [ctx.get(st, 'ghost.' + r) for r in ('LC', 'LN', 'RD', 'NL')]
        c = ctx.name_term(st, 'more', 'Bool', cmpop('<', rd, nl))
        el = ctx.fresh('line', '(Array Int Int)'); n = ctx.fresh('linelen', 'Int')
        ctx.assume(st, Implies(c, And(Eq(el, Sel(lc, rd)), Eq(n, Sel(ln, rd)))), '#line')
        ctx.assume(st, And(cmpop('>=', n, '0'), Eq(Sel(el, n), '0')), '#line')
        ctx.assume(st, '(forall ((k Int)) (! (=> (and (<= 0 k) (< k %s)) (not (= (select %s k) 10))) :pattern ((select %s k))))' % (n, el, el), '#line')
        for s, t in (('.el', el), ('.len', n)):
            ctx.setc(st, lv.root + s, ctx.sto_chain(ctx.get(st, lv.root + s), lv.idxs, t))
        ctx.setc(st, 'ghost.RD', Ite(c, Add(rd, '1'), rd))
        return V(c, BOOL)

    def span(self, ctx, st, a, o, cs, inside):
        """length of the longest start of the text with all (none) of its characters among cs"""
        r = ctx.fresh('span', 'Int')
        q = lambda k: '(select %s %s)' % (a, k)
        def isin(t): return Or(*[Eq(t, str(c)) for c in cs]) if cs else 'false'
        if inside: go = isin
        else: go = lambda t: And(Not(Eq(t, '0')), Not(isin(t)))
        x = ctx.name_term(st, 'at', 'Int', Add(o, r))
        ctx.assume(st, And(cmpop('>=', r, '0'), Not(go(q(x)))), '#span')
        ctx.assume(st, '(forall ((k Int)) (! (=> (and (<= %s k) (< k %s)) %s) :pattern (%s)))' % (o, x, go(q('k')), q('k')), '#span')
        return r

    def call(self, ctx, name, args, n, st, fr):
        if not self.on(ctx): return None
        if name == 'getline' and len(args) == 2:
            s = ctx.eval(args[0], st, fr)
            lv = ctx.eval(args[1], st, fr)
            if not isinstance(s, V) or s.ty[0] != 'stream' or s.ty[1] in ('cin', 'istringstream', 'stringstream') or not isinstance(lv, LV): raise Untranslatable('getline')
            return self.get(ctx, st, lv)
        if name == 'strlen':
            a, o = buf(ctx, st, ctx.eval(args[0], st, fr))
            if a is None: return None
            return V(self.span(ctx, st, a, o, [], False), ('int', 'u'))
        if name in ('strspn', 'strcspn'):
            a, o = buf(ctx, st, ctx.eval(args[0], st, fr)); s = ctx.ev(args[1], st, fr)
            if a is None or s.ty[0] != 'cstr' or not isinstance(s.data, str): return None
            return V(self.span(ctx, st, a, o, sorted({ord(c) for c in s.data}), name == 'strspn'), ('int', 'u'))
        if name in ('isspace', 'isdigit', 'isblank'):
            v = ctx.ev(args[0], st, fr)
            c = {'isspace': lambda t: Or(Eq(t, '32'), And(cmpop('<=', '9', t), cmpop('<=', t, '13'))), 'isblank': lambda t: Or(Eq(t, '32'), Eq(t, '9')), 'isdigit': lambda t: And(cmpop('<=', '48', t), cmpop('<=', t, '57'))}[name](v.t)
            return V(Ite(c, '1', '0'), INT)
        if name in ('atoi', 'atol'):
            a, o = buf(ctx, st, ctx.eval(args[0], st, fr))
            if a is None: return None
            return V('(ATOIS %s %s)' % (a, o), INT)
        if name == 'sscanf':
            a, o = buf(ctx, st, ctx.eval(args[0], st, fr)); f = ctx.ev(args[1], st, fr)
            if a is None or f.ty[0] != 'cstr' or not isinstance(f.data, str): raise Untranslatable('sscanf')
            convs = re.findall(r'%(\*?)(\d*)([a-z%])', f.data)
            outs = [c for s, w, c in convs if not s and c != '%']
            if len(outs) != len(args) - 2 or any(c not in 'dic' for c in outs): raise Untranslatable('sscanf outputs')
            ctx.strfmt = getattr(ctx, 'strfmt', set()) | {f.data}
            fid = str(builtins_.strnum(f.data))
            cnt = ctx.name_term(st, 'scanned', 'Int', '(SCANN %s %s %s)' % (fid, a, o))
            ctx.assume(st, And(cmpop('<=', '(- 1)', cnt), cmpop('<=', cnt, str(len(outs)))), '#scan')
            for j, x in enumerate(args[2:]):
                v = ctx.eval(x, st, fr)
                lv = v.base if isinstance(v, V) and v.ty[0] == 'addr' else None
                if lv is None and isinstance(v, V) and v.base is not None: lv = v.base.elem(v.off, v.base.ty[1] if v.base.ty[0] != 'string' else INT)
                if lv is None: raise Untranslatable('sscanf output')
                t = '(SCANI %s %d %s %s)' % (fid, j, a, o)
                if outs[j] == 'c': ctx.assume(st, And(cmpop('<=', '(- 128)', t), cmpop('<=', t, '127')), '#scan')
                ctx.write(st, lv, Ite(cmpop('>', cnt, str(j)), t, ctx.read(st, lv).t))
            return V(cnt, INT)
        return None

    def string_method(self, ctx, base, name, args, n, st, fr):
        if isinstance(base, V) or not self.on(ctx): return None
        args = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr']
        def put(el, ln):
            for s, t in (('.el', el), ('.len', ln)): ctx.setc(st, base.root + s, ctx.sto_chain(ctx.get(st, base.root + s), base.idxs, t))
        if name == 'assign' and len(args) == 2:
            a = ctx.ev(args[0], st, fr); b = ctx.ev(args[1], st, fr)
            if a.ty[0] != 'int' or b.ty[0] != 'int': return None
            el = ctx.name_term(st, 'filled', '(Array Int Int)', Sto(const_arr(1, 'Int', b.t), a.t, '0'))
            put(el, a.t); return V('0', ('void',))
        if name == 'clear': put(ctx.fresh('filled', '(Array Int Int)'), '0'); ctx.assume(st, Eq(Sel(ctx.agg_term(st, base, '.el'), '0'), '0')); return V('0', ('void',))
        if name in ('c_str', 'data') and not args: return V(None, ('ptr', INT), base, '0')
        if name == 'push_back':
            v = ctx.ev(args[0], st, fr); ln = ctx.agg_term(st, base, '.len')
            put(ctx.name_term(st, 'str', '(Array Int Int)', Sto(Sto(ctx.agg_term(st, base, '.el'), ln, v.t), Add(ln, '1'), '0')), Add(ln, '1')); return V('0', ('void',))
        return None
