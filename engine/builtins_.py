"""Meaning of the library operations the code uses (trusted: the C++ standard library
behaves as documented)."""
import re
from smt import *
from cxx import Untranslatable
import vc
from vc import V, LV, CLV, INT, BOOL, REAL, LIT, scal, arr_sort, base_sort, const_arr, LVn, strip, ctype

TRUSTED = {}


def t_gettime(ctx, vals, st, fr):
    ctx.trusted.add('GetTime (gettimeofday): returns some real number')
    # the clock at the k-th reading
    root = 'ghost.clock'
    if root in ctx.rootinfo:
        t = ctx.fresh('now', 'Real')
        ctx.setc(st, root, t, named=False)
        return V(t, REAL)
    return V(ctx.fresh('now', 'Real'), REAL)


TRUSTED['GetTime'] = t_gettime
TRUSTED['PrintHelp'] = lambda ctx, vals, st, fr: V('0', ('void',))


def said_root(ctx, s):
    r = 'said.' + re.sub(r'[^A-Za-z0-9]', '_', s.strip())
    ctx.rootinfo.setdefault(r, 'Bool')
    return r


def strconst(ctx, s):
    ctx.__dict__.setdefault('strlits', {})
    if s not in ctx.strlits: ctx.strlits[s] = 'str.' + re.sub(r'[^A-Za-z0-9_]', '_', s) + '.%d' % len(ctx.strlits)
    return ctx.strlits[s]


def streq(ctx, handle, s):
    """is the C string behind handle equal to the constant s?  STRID maps each handle to the
    identity of its contents; distinct constants have distinct identities"""
    ctx.__dict__.setdefault('strnum', {})
    if s not in ctx.strnum: ctx.strnum[s] = len(ctx.strnum) + 1
    return Eq('(STRID %s)' % handle, str(strnum(s)))


_SN = {}
PREFIXES = set()


def strfacts():
    """which of the known constants start with which compared prefix"""
    out = []
    for p in sorted(PREFIXES):
        for s in sorted(_SN): out.append('(assert (= (STRPRE %d %d) %s))' % (_SN[s], _SN[p], 'true' if s.startswith(p) else 'false'))
    return ''.join(out)


def strnum(s):
    if s not in _SN: _SN[s] = len(_SN) + 1
    return _SN[s]


def emit(ctx, st, stream, v, ty=None):
    """output of one item on a stream"""
    for p in ctx.plugins:
        if (p.emit(ctx, st, stream, v, ty) if hasattr(p, 'printf') else p.emit(ctx, st, stream, v)): return


class Words:
    """records which constant messages were written to standard output"""

    def __init__(self, words): self.words = words

    def emit(self, ctx, st, stream, v):
        if stream != 'cout': return False
        if v.ty[0] == 'cstr' and isinstance(v.data, str):
            for w in self.words:
                if w == v.data.strip(): ctx.setc(st, said_root(ctx, w), 'true')
        elif v.ty[0] == 'cstr' and isinstance(v.data, tuple):
            c, a, b = v.data
            for w in self.words:
                if isinstance(a, str) and w == a.strip(): ctx.setc(st, said_root(ctx, w), Ite(c, 'true', ctx.get(st, said_root(ctx, w))))
                if isinstance(b, str) and w == b.strip(): ctx.setc(st, said_root(ctx, w), Ite(c, ctx.get(st, said_root(ctx, w)), 'true'))
        return False


class AnyInput:
    """input may be any text at all: every read yields unknown values"""

    def emit(self, ctx, st, stream, v): return False

    def call(self, ctx, name, args, n, st, fr):
        if name == 'getline':
            for a in args[:1]: ctx.eval(a, st, fr)
            lv = ctx.eval(args[1], st, fr)
            havoc_string(ctx, st, lv)
            return V(ctx.fresh('line', 'Bool'), BOOL)
        if name in ('sscanf', 'fscanf', 'scanf'):
            for a in args:
                v = ctx.eval(a, st, fr)
                if isinstance(v, V) and v.ty[0] == 'addr': ctx.write(st, v.base, ctx.fresh('input', base_sort(v.base.ty)))
            return V(ctx.fresh('scanned', 'Int'), INT)
        if name in ('strlen', 'strspn', 'strcspn'):
            for a in args: ctx.eval(a, st, fr)
            t = ctx.fresh('len', 'Int'); ctx.assume(st, cmpop('>=', t, '0'))
            return V(t, INT)
        return None

    def string_method(self, ctx, base, name, args, n, st, fr):
        if isinstance(base, V): return None
        if name in ('assign', 'resize', 'clear', 'append', 'push_back', 'reserve'):
            for a in args:
                if a.get('kind') != 'CXXDefaultArgExpr': ctx.eval(a, st, fr)
            havoc_string(ctx, st, base); return V('0', ('void',))
        if name in ('size', 'length'): return V(ctx.agg_term(st, base, '.len'), ('int', 'u'))
        if name == 'empty': return V(Eq(ctx.agg_term(st, base, '.len'), '0'), BOOL)
        return None


def havoc_string(ctx, st, lv):
    for s, d, b in scal(('string',)):
        cur = ctx.get(st, lv.root + s)
        ctx.setc(st, lv.root + s, ctx.sto_chain(cur, lv.idxs, ctx.fresh('text', arr_sort(d, b))))
    ctx.assume(st, cmpop('>=', ctx.agg_term(st, lv, '.len'), '0'))


def stream_name(v):
    if v.ty[1] in ('cout', 'cerr', 'cin'): return v.ty[1]
    return v.data if isinstance(v.data, str) else v.ty[1]


# ---- free functions ---------------------------------------------------------
def call(ctx, name, args, n, st, fr):
    if name in ('exit', 'abort'):
        for a in args: ctx.ev(a, st, fr)
        h = ctx.opts.get('on_exit')
        st.alive = False
        return V('0', ('void',))
    if name in ('printf', 'puts', 'putchar', 'fprintf', 'fflush'):
        vs = [ctx.ev(a, st, fr) for a in args]
        for p in ctx.plugins:
            if hasattr(p, 'printf'):
                if name == 'printf': p.printf(ctx, st, vs)
                elif name == 'puts': p.emit(ctx, st, 'cout', vs[0]); p.emit(ctx, st, 'cout', V('true', ('stream', 'endl')))
                elif name == 'putchar': p.emit(ctx, st, 'cout', vs[0], 'char')
                elif name == 'fprintf' and p.sink == 'cout': raise Untranslatable('fprintf')
                continue
            if vs and vs[0].ty[0] == 'cstr': p.emit(ctx, st, 'cout', vs[0])
            for v in vs[1:]: p.emit(ctx, st, 'cout', v)
        return V(ctx.fresh('pr', 'Int'), INT)
    if name in ('getchar',): return V(ctx.fresh('ch', 'Int'), INT)
    if name in ('fabs',):
        v = ctx.ev(args[0], st, fr); t = ctx.asreal(v)
        return V('(ite (>= %s 0.0) %s (- %s))' % (t, t, t), REAL)
    if name == 'abs':
        v = ctx.ev(args[0], st, fr)
        return V('(ite (>= %s 0) %s (- %s))' % (v.t, v.t, v.t), INT)
    if name in ('max', 'min'):
        a = ctx.ev(args[0], st, fr); b = ctx.ev(args[1], st, fr)
        c = ctx.compare('<' if name == 'max' else '>', a, b, st).t
        return V(Ite(c, b.t, a.t), a.ty)
    if name == 'swap':
        a = ctx.eval(args[0], st, fr); b = ctx.eval(args[1], st, fr)
        if isinstance(a, V) or isinstance(b, V) or a.ty[0] in ('vec', 'list', 'own', 'set', 'string'): raise Untranslatable('swap of containers')
        x = ctx.read(st, a); y = ctx.read(st, b)
        xt = ctx.name_term(st, 'sw', base_sort(a.ty), x.t); yt = ctx.name_term(st, 'sw', base_sort(b.ty), y.t)
        ctx.write(st, a, yt); ctx.write(st, b, xt)
        return V('0', ('void',))
    if name in ('move', 'forward'):
        return ctx.eval(args[0], st, fr)
    if name in ('srand', 'gettimeofday'):
        for a in args: ctx.eval(a, st, fr)
        return V('0', INT)
    if name == 'time':
        return V(ctx.fresh('time', 'Int'), INT)
    if name == 'rand':
        t = ctx.fresh('rand', 'Int')
        ctx.assume(st, And(cmpop('>=', t, '0'), cmpop('<=', t, '2147483647')))
        ctx.trusted.add('rand: any value in 0..RAND_MAX')
        return V(t, INT)
    if name == 'strncmp':
        a = ctx.ev(args[0], st, fr); b = ctx.ev(args[1], st, fr); k = ctx.rv(st, args[2], fr) if False else ctx.ev(args[2], st, fr)
        if b.ty[0] != 'cstr': a, b = b, a
        kt = getattr(k, 't', None)
        if b.ty[0] == 'cstr' and isinstance(b.data, str) and a.ty[0] == 'cptr' and kt is not None and is_num(kt):
            s = b.data
            if val(kt) > len(s): return V(Ite(streq(ctx, a.t, s), '0', '1'), INT)
            PREFIXES.add(s[:val(kt)]); strnum(s[:val(kt)])
            return V(Ite('(STRPRE (STRID %s) %d)' % (a.t, strnum(s[:val(kt)])), '0', '1'), INT)
        raise Untranslatable('strncmp')
    if name == 'strcmp':
        a = ctx.ev(args[0], st, fr); b = ctx.ev(args[1], st, fr)
        if b.ty[0] == 'cstr' and isinstance(b.data, str) and a.ty[0] == 'cptr':
            return V(Ite(streq(ctx, a.t, b.data), '0', '1'), INT)
        if a.ty[0] == 'cstr' and isinstance(a.data, str) and b.ty[0] == 'cptr':
            return V(Ite(streq(ctx, b.t, a.data), '0', '1'), INT)
        raise Untranslatable('strcmp')
    if name == 'atoi':
        v = ctx.ev(args[0], st, fr)
        if v.ty[0] == 'cptr': return V('(ATOI %s)' % v.t, INT)
    for p in ctx.plugins:
        h = getattr(p, 'call', None)
        if h:
            r = h(ctx, name, args, n, st, fr)
            if r is not None: return r
    raise Untranslatable('library function %s at line %s' % (name, n.get('_line')))


# ---- methods ------------------------------------------------------------------
def vlen(ctx, st, b): return ctx.agg_term(st, b, '.len')


def push(ctx, st, b, v, front=False):
    """append to a vector"""
    ln = ctx.name_term(st, 'len', 'Int', vlen(ctx, st, b))
    et = b.ty[1]
    dst = b.elem(ln, et)
    if et[0] in ('vec', 'list', 'set', 'string', 'own', 'arr'):
        if isinstance(v, V): raise Untranslatable('push of aggregate')
        ctx.copy_agg(st, dst, v, et)
    else:
        t = ctx.coerce(ctx.rv(st, v), et)
        plain = not isinstance(dst, CLV)
        old = ctx.agg_term(st, b, '.el') if plain else None
        ctx.write(st, dst, t)
        if plain:
            # the new element as a term, and the elements that stay (consequences of the line above, stated for the solver)
            ctx.assume(st, Eq(ctx.read(st, dst).t, t), '#push')
            new = ctx.agg_term(st, b, '.el')
            ctx.assume(st, '(forall ((k Int)) (! (=> (not (= k %s)) (= (select %s k) (select %s k))) :pattern ((select %s k))))' % (ln, new, old, old), '#push')
    ctx.write(st, b.sub('.len', INT), Add(ln, '1'))


def listput(ctx, st, base, i, v):
    plain = not isinstance(base, CLV)
    old = ctx.agg_term(st, base, '.el') if plain else None
    i = ctx.name_term(st, 'at', 'Int', i)
    ctx.write(st, base.elem(i, base.ty[1]), v)
    if plain:
        # consequences of the write, stated for the solver
        ctx.assume(st, Eq(ctx.read(st, base.elem(i, base.ty[1])).t, v), '#push')
        new = ctx.agg_term(st, base, '.el')
        ctx.assume(st, '(forall ((k Int)) (! (=> (not (= k %s)) (= (select %s k) (select %s k))) :pattern ((select %s k))))' % (i, new, old, old), '#push')


def method(ctx, base, name, args, n, st, fr):
    if isinstance(base, V) and base.base is not None and base.ty[0] in ('iter',): pass
    k = base.ty[0]
    if k == 'bool' and name == 'operator bool': return base
    if k == 'bool' and name == 'operator!': return V(Not(base.t), BOOL)
    if isinstance(base, V) and k == 'stream': return stream_method(ctx, base, name, args, n, st, fr)
    if k == 'vec':
        if name == 'size': return V(vlen(ctx, st, base), ('int', 'u'))
        if name == 'empty': return V(Eq(vlen(ctx, st, base), '0'), BOOL)
        if name in ('reserve',):
            for a in args: ctx.eval(a, st, fr)
            return V('0', ('void',))
        if name == 'clear':
            ctx.write(st, base.sub('.len', INT), '0'); return V('0', ('void',))
        if name in ('push_back', 'emplace_back'):
            if name == 'emplace_back' and base.ty[1][0] == 'struct' and (len(args) != 1 or ctype(args[0])[0] != 'struct'):
                vals = [ctx.ev(a, st, fr) for a in args]
                f = None
                for c in ctx.prog.by_qname.get('%s::%s' % (base.ty[1][1],) * 2, []) if False else ctx.prog.by_qname.get(base.ty[1][1] + '::' + base.ty[1][1], []):
                    if len(c.params) == len(args):
                        if all(ctype(p)[0] == v.ty[0] or True for p, v in zip(c.params, vals)):
                            if [p['type']['qualType'] for p in c.params] == [re.sub(r' &$', '', a['type']['qualType']) for a in args] or f is None: f = c
                v = ctx.construct_struct(base.ty[1][1], f, vals, st, fr)
            else: v = ctx.eval(args[0], st, fr)
            push(ctx, st, base, v); return V('0', ('void',))
        if name == 'pop_back':
            ln = vlen(ctx, st, base)
            ctx.safe(st, 'pop_back of a non-empty vector', cmpop('>', ln, '0'))
            ctx.write(st, base.sub('.len', INT), Sub(ln, '1')); return V('0', ('void',))
        if name in ('begin', 'cbegin'): return V(None, ('iter',), base, '0')
        if name in ('end', 'cend'): return V(None, ('iter',), base, ctx.name_term(st, 'end', 'Int', vlen(ctx, st, base)))
        if name in ('front', 'back'):
            ln = vlen(ctx, st, base)
            ctx.safe(st, name + ' of a non-empty vector', cmpop('>', ln, '0'))
            return base.elem('0' if name == 'front' else Sub(ln, '1'), base.ty[1])
        if name == 'at':
            i = ctx.ev(args[0], st, fr)
            return ctx.deref_ptr(st, V(None, ('iter',), base, '0'), i.t)
        if name == 'data': return V(None, ('ptr', base.ty[1]), base, '0')
        if name == 'erase':
            it = ctx.ev(args[0], st, fr)
            if it.base.key() != base.key(): raise Untranslatable('erase: other container')
            ln = ctx.name_term(st, 'len', 'Int', vlen(ctx, st, base))
            if len(args) == 2:
                e = ctx.ev(args[1], st, fr)
                if e.off != ln and e.off != vlen(ctx, st, base): raise Untranslatable('erase of a range')
                ctx.safe(st, 'erase inside the vector', And(cmpop('<=', '0', it.off), cmpop('<=', it.off, ln)))
                ctx.write(st, base.sub('.len', INT), it.off)
                return V(None, ('iter',), base, it.off)
            ctx.safe(st, 'erase inside the vector', And(cmpop('<=', '0', it.off), cmpop('<', it.off, ln)))
            s = scal(base.ty[1])
            if len(s) != 1 or s[0][0]: raise Untranslatable('erase of nested container')
            oldel = ctx.name_term(st, 'el', '(Array Int %s)' % s[0][2], ctx.agg_term(st, base, '.el'))
            newel = ctx.fresh('erased', '(Array Int %s)' % s[0][2])
            off = ctx.name_term(st, 'off', 'Int', it.off)
            ctx.assume(st, '(forall ((k Int)) (! (= (select %s k) (ite (< k %s) (select %s k) (select %s (+ k 1)))) :pattern ((select %s k))))' % (newel, off, oldel, oldel, newel))
            ctx.assume(st, '(forall ((k Int)) (! (=> (< %s k) (= (select %s k) (select %s (- k 1)))) :pattern ((select %s k))))' % (off, oldel, newel, oldel))
            cur = ctx.get(st, base.root + '.el')
            ctx.setc(st, base.root + '.el', ctx.sto_chain(cur, base.idxs, newel))
            ctx.write(st, base.sub('.len', INT), Sub(ln, '1'))
            return V(None, ('iter',), base, it.off)
        if name == 'resize':
            i = ctx.ev(args[0], st, fr)
            if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr': raise Untranslatable('resize with value')
            ln = ctx.name_term(st, 'len', 'Int', vlen(ctx, st, base))
            if i.t == '0': ctx.write(st, base.sub('.len', INT), '0'); return V('0', ('void',))
            s = scal(base.ty[1])
            if len(s) != 1 or s[0][0]: raise Untranslatable('resize of nested')
            oldel = ctx.name_term(st, 'el', '(Array Int %s)' % s[0][2], ctx.agg_term(st, base, '.el'))
            newel = ctx.fresh('resized', '(Array Int %s)' % s[0][2])
            ctx.assume(st, '(forall ((k Int)) (! (=> (< k %s) (= (select %s k) (select %s k))) :pattern ((select %s k))))' % (ln, newel, oldel, newel))
            ctx.setc(st, base.root + '.el', ctx.sto_chain(ctx.get(st, base.root + '.el'), base.idxs, newel))
            ctx.write(st, base.sub('.len', INT), i.t)
            return V('0', ('void',))
    if k == 'list':
        lo, hi = ctx.agg_term(st, base, '.lo'), ctx.agg_term(st, base, '.hi')
        if name == 'empty': return V(cmpop('>=', lo, hi), BOOL)
        if name == 'size': return V(Sub(hi, lo), ('int', 'u'))
        if name == 'clear':
            ctx.write(st, base.sub('.lo', INT), '0'); ctx.write(st, base.sub('.hi', INT), '0'); return V('0', ('void',))
        if name in ('push_back', 'emplace_back'):
            v = ctx.ev(args[0], st, fr)
            listput(ctx, st, base, hi, ctx.coerce(v, base.ty[1]))
            ctx.write(st, base.sub('.hi', INT), Add(hi, '1')); return V('0', ('void',))
        if name in ('push_front', 'emplace_front'):
            v = ctx.ev(args[0], st, fr)
            listput(ctx, st, base, Sub(lo, '1'), ctx.coerce(v, base.ty[1]))
            ctx.write(st, base.sub('.lo', INT), Sub(lo, '1')); return V('0', ('void',))
        if name in ('front', 'back'):
            ctx.safe(st, name + ' of a non-empty list', cmpop('<', lo, hi))
            return base.elem(lo if name == 'front' else Sub(hi, '1'), base.ty[1])
        if name == 'pop_front':
            ctx.safe(st, 'pop_front of a non-empty list', cmpop('<', lo, hi))
            ctx.write(st, base.sub('.lo', INT), Add(lo, '1')); return V('0', ('void',))
        if name == 'pop_back':
            ctx.safe(st, 'pop_back of a non-empty list', cmpop('<', lo, hi))
            ctx.write(st, base.sub('.hi', INT), Sub(hi, '1')); return V('0', ('void',))
        if name == 'begin': return V(None, ('iter',), base, lo)
        if name == 'end': return V(None, ('iter',), base, hi)
    if k == 'set':
        mem = ctx.agg_term(st, base, '.mem')
        if name == 'insert':
            v = ctx.ev(args[0], st, fr)
            ctx.setc(st, base.root + '.mem', ctx.sto_chain(ctx.get(st, base.root + '.mem'), base.idxs, Sto(mem, v.t, 'true')))
            return V('0', ('void',))
        if name == 'empty':
            e = ctx.fresh('empty', 'Bool'); w = ctx.fresh('wit', 'Int')
            ctx.assume(st, '(forall ((k Int)) (! (=> %s (not (select %s k))) :pattern ((select %s k))))' % (e, mem, mem))
            ctx.assume(st, Or(e, Sel(mem, w)))
            return V(e, BOOL)
        if name in ('count',):
            v = ctx.ev(args[0], st, fr); return V(Ite(Sel(mem, v.t), '1', '0'), ('int', 'u'))
        if name in ('rbegin', 'begin'):
            m = ctx.fresh('setmax' if name == 'rbegin' else 'setmin', 'Int')
            w = ctx.fresh('wit', 'Int')
            # if the set is not empty: its greatest / least element
            ctx.assume(st, '(forall ((k Int)) (! (=> (select %s k) (and (select %s %s) (%s k %s))) :pattern ((select %s k))))' % (mem, mem, m, '<=' if name == 'rbegin' else '>=', m, mem))
            return V(m, ('setit',))
    if k == 'bitset':
        return bitset_method(ctx, base, name, args, n, st, fr)
    if k == 'string' or (isinstance(base, V) and k == 'cstr'):
        for p in ctx.plugins:
            h = getattr(p, 'string_method', None)
            if h:
                r = h(ctx, base, name, args, n, st, fr)
                if r is not None: return r
    raise Untranslatable('method %s of %s at line %s' % (name, base.ty, n.get('_line')))


def stream_method(ctx, base, name, args, n, st, fr):
    for p in ctx.plugins:
        h = getattr(p, 'stream_method', None)
        if h:
            r = h(ctx, base, name, args, n, st, fr)
            if r is not None: return r
    if name in ('open', 'close', 'flush', 'precision'):
        for a in args: ctx.eval(a, st, fr)
        return V('0', ('void',))
    if name == 'operator bool' or name == 'is_open' or name == 'good':
        return V(ctx.fresh('ok', 'Bool'), BOOL)
    if name in ('operator!', 'fail'): return V(ctx.fresh('bad', 'Bool'), BOOL)
    if name in ('write', 'put'):
        vs = [ctx.ev(a, st, fr) for a in args]
        return base
    raise Untranslatable('stream method %s' % name)


def operator(ctx, name, args, n, st, fr):
    op = name[len('operator'):]
    if op == '<<':
        b = ctx.eval(args[0], st, fr)
        if isinstance(b, V) and b.ty[0] == 'stream':
            v = ctx.eval(args[1], st, fr)
            if isinstance(v, (LV, CLV)) and v.ty[0] not in ('string',): v = ctx.rv(st, v)
            if isinstance(v, V): emit(ctx, st, stream_name(b), v, args[1].get('type', {}).get('qualType', ''))
            else: emit(ctx, st, stream_name(b), V('0', ('unknown',)))
            return b
        bv = ctx.rv(st, b)
        if bv.ty[0] == 'bitset':
            i = ctx.ev(args[1], st, fr); return V('(bshl %s %s)' % (bv.t, i.t), bv.ty)
        raise Untranslatable('operator<<')
    if op == '>>':
        b = ctx.eval(args[0], st, fr)
        if isinstance(b, V) and b.ty[0] == 'stream':
            lv = ctx.eval(args[1], st, fr)
            ctx.write(st, lv, ctx.fresh('input', base_sort(lv.ty))); return b
        bv = ctx.rv(st, b)
        if bv.ty[0] == 'bitset':
            i = ctx.ev(args[1], st, fr); return V('(bshr %s %s)' % (bv.t, i.t), bv.ty)
    if op == '[]':
        b = ctx.eval(args[0], st, fr); i = ctx.ev(args[1], st, fr)
        if b.ty[0] in ('vec', 'string'):
            return ctx.deref_ptr(st, V(None, ('iter',), b, '0'), i.t)
        if b.ty[0] == 'bitset':
            return BitRef(b, i.t, ctx, st)
    if op in ('==', '!=', '<', '>', '<=', '>='):
        a = ctx.ev(args[0], st, fr); b = ctx.ev(args[1], st, fr)
        if isinstance(a, V) and isinstance(b, V) and (a.base is not None or a.ty[0] in ('bitset', 'int', 'struct')): return ctx.compare(op, a, b, st)
        if op in ('==', '!=') and isinstance(a, V) and isinstance(b, V) and a.ty[0] == 'cstr' and b.ty[0] == 'cstr':
            if not isinstance(a.data, str) and isinstance(b.data, str) and a.t != '0': r = streq(ctx, a.t, b.data)
            elif isinstance(a.data, str) and not isinstance(b.data, str) and b.t != '0': r = streq(ctx, b.t, a.data)
            else: r = ctx.fresh('streq', 'Bool')
            return V(r if op == '==' else Not(r), BOOL)
        for p in ctx.plugins:
            h = getattr(p, 'string_compare', None)
            if h:
                r = h(ctx, op, a, b, st)
                if r is not None: return r
        raise Untranslatable('comparison')
    if op in ('++', '--'):
        return ctx.incdec(args[0], op, len(args) > 1, st, fr)
    if op in ('+', '-'):
        a = ctx.ev(args[0], st, fr); b = ctx.ev(args[1], st, fr)
        if a.base is not None and b.base is None: return V(None, a.ty, a.base, (Add if op == '+' else Sub)(a.off, b.t))
        if a.base is not None: return V(Sub(a.off, b.off), INT)
    if op == '*':
        a = ctx.ev(args[0], st, fr)
        if a.ty[0] == 'setit': return V(a.t, INT)
        return ctx.deref_ptr(st, a)
    if op == '->':
        a = ctx.ev(args[0], st, fr)
        lv = ctx.deref_ptr(st, a)
        return ctx.read(st, lv) if lv.ty[0] in ('ref',) else V(None, ('addr',), lv, '0')
    if op == '=':
        l = args[0]
        ln = strip(l)
        if ln['kind'] == 'DeclRefExpr' and ln['referencedDecl']['id'] in fr.env and fr.env[ln['referencedDecl']['id']][0] == 'ptr':
            v = ctx.ev(args[1], st, fr)
            st.ptrs[fr.env[ln['referencedDecl']['id']][1]] = V(v.t, v.ty, v.base, v.off)
            return v
        v = ctx.eval(args[1], st, fr)
        lv = ctx.eval(l, st, fr)
        if isinstance(lv, BitRef):
            lv.assign(ctx, st, ctx.truth(ctx.rv(st, v))); return lv
        ctx.store(st, lv, v)
        return lv
    if op == '!':
        b = ctx.eval(args[0], st, fr)
        if isinstance(b, V) and b.ty[0] == 'stream': return stream_method(ctx, b, 'operator!', [], n, st, fr)
    if op in ('&', '|', '^', '&=', '|=', '^=', '~'):
        a = ctx.eval(args[0], st, fr); av = ctx.rv(st, a)
        if av.ty[0] == 'bitset':
            if op == '~': return V('(bnot %s)' % av.t, av.ty)
            b = ctx.ev(args[1], st, fr)
            if b.ty[0] != 'bitset': raise Untranslatable('operator %s at line %s' % (name, n.get('_line')))
            t = '(%s %s %s)' % ({'&': 'band', '|': 'bor', '^': 'bxor'}[op[0]], av.t, b.t)
            if op.endswith('='):
                ctx.write(st, a, t); return a
            return V(t, av.ty)
    if op in ('>>=', '<<='):
        a = ctx.eval(args[0], st, fr); av = ctx.rv(st, a)
        if av.ty[0] == 'bitset':
            ctx.write(st, a, '(%s %s %s)' % ('bshr' if op[0] == '>' else 'bshl', av.t, ctx.ev(args[1], st, fr).t)); return a
    if op in ('+=', '-='):
        return ctx.e_CompoundAssignOperator({'opcode': op, 'inner': args}, st, fr)
    for p in ctx.plugins:
        h = getattr(p, 'operator', None)
        if h:
            r = h(ctx, op, args, n, st, fr)
            if r is not None: return r
    raise Untranslatable('operator %s at line %s' % (name, n.get('_line')))


class BitRef(V):
    __slots__ = ('lv', 'i')

    def __init__(self, lv, i, ctx, st):
        t = ctx.rv(st, lv).t
        ctx.safe(st, 'bit index below 64', And(cmpop('<=', '0', i), cmpop('<', i, '64')))
        V.__init__(self, '(bt %s %s)' % (t, i), BOOL)
        self.lv = lv; self.i = i

    def assign(self, ctx, st, b):
        t = ctx.rv(st, self.lv).t
        ctx.write(st, self.lv, Ite(b, '(bon %s %s)' % (t, self.i), '(boff %s %s)' % (t, self.i)))


def bitset_method(ctx, base, name, args, n, st, fr):
    bv = ctx.rv(st, base)
    z = 'bzero'; ones = 'bones'
    vals = [ctx.ev(a, st, fr) for a in args if a['kind'] != 'CXXDefaultArgExpr']
    if name == 'any': return V('(bany %s)' % bv.t, BOOL)
    if name == 'none': return V(Not('(bany %s)' % bv.t), BOOL)
    if name == 'all': return V(Not('(bany (bnot %s))' % bv.t), BOOL)
    if name == 'size': return V('64', ('int', 'u'))
    if name == 'count':
        return V('(bcount %s)' % bv.t, ('int', 'u'))
    if name == 'test':
        ctx.safe(st, 'bit index below 64', And(cmpop('<=', '0', vals[0].t), cmpop('<', vals[0].t, '64')))
        return V('(bt %s %s)' % (bv.t, vals[0].t), BOOL)
    if name in ('set', 'reset', 'flip'):
        if not vals: t = {'set': ones, 'reset': z, 'flip': '(bnot %s)' % bv.t}[name]
        else:
            i = vals[0].t
            ctx.safe(st, 'bit index below 64', And(cmpop('<=', '0', i), cmpop('<', i, '64')))
            on = '(bon %s %s)' % (bv.t, i); off = '(boff %s %s)' % (bv.t, i)
            if name == 'flip': t = Ite('(bt %s %s)' % (bv.t, i), off, on)
            elif name == 'reset': t = off
            else: t = on if len(vals) == 1 else Ite(ctx.truth(vals[1]), on, off)
        if isinstance(base, V): return V(t, bv.ty)
        ctx.write(st, base, t); return base
    if name == 'operator=':
        ctx.write(st, base, vals[0].t); return base
    if name in ('operator&=', 'operator|=', 'operator^='):
        ctx.write(st, base, '(%s %s %s)' % ({'&': 'band', '|': 'bor', '^': 'bxor'}[name[8]], bv.t, vals[0].t)); return base
    if name in ('operator>>=', 'operator<<='):
        ctx.write(st, base, '(%s %s %s)' % ('bshr' if name[8] == '>' else 'bshl', bv.t, vals[0].t)); return base
    if name in ('operator~',): return V('(bnot %s)' % bv.t, bv.ty)
    if name in ('operator>>', 'operator<<'): return V('(%s %s %s)' % ('bshr' if name[8] == '>' else 'bshl', bv.t, vals[0].t), bv.ty)
    raise Untranslatable('bitset method %s' % name)
