"""Evaluation of contract expressions in a state."""
from smt import *
from cxx import Untranslatable
import vc
from vc import V, LV, CLV, INT, BOOL, REAL, LIT, scal, arr_sort, base_sort, HEAP, SINGLE, VALUE_STRUCTS, const_arr


class Env:
    def __init__(self, st, old, env, ctx):
        self.st = st; self.old = old; self.env = env; self.ctx = ctx
        self.entry = None; self.entry_env = None; self.old_env = None; self.frame = None

    def with_(self, **kw):
        e = Env(self.st, self.old, self.env, self.ctx)
        e.entry = self.entry; e.entry_env = self.entry_env; e.old_env = self.old_env; e.frame = self.frame
        for k, v in kw.items(): setattr(e, k, v)
        return e


def boolx(ctx, ex, env):
    ctx.inspec = getattr(ctx, 'inspec', 0) + 1
    try:
        v = rv(env, ev(ex, env))
        return ctx.truth(v)
    finally: ctx.inspec -= 1


def rv(env, x):
    if isinstance(x, (LV, CLV)):
        if x.ty[0] in ('vec', 'list', 'own', 'arr', 'string', 'set', 'rawmap'): return x
        return env.ctx.read(env.st, x)
    return x


def term(env, x):
    v = rv(env, x)
    if isinstance(v, V):
        if v.base is not None: return v.off
        return v.t
    if v.ty[0] == 'set': return env.ctx.rd_scalar(env.st, v.root + '.mem', v.idxs)
    raise Untranslatable('spec: no term for %s' % (v,))


def bty(n, ctx):
    if n == 'int': return INT
    if n == 'bool': return BOOL
    if n == 'real': return REAL
    if n == 'lit': return LIT
    if n in HEAP: return ('ref', n)
    s = ctx.sort_alias(n)
    if s != n: return sty(s)
    raise Untranslatable('spec type %s' % n)


def sty(s):
    if s in VALUE_STRUCTS: return ('struct', s) if s != 'Literal' else LIT
    return {'Int': INT, 'Bool': BOOL, 'Real': REAL, 'Bits': ('bitset', 64)}.get(s, ('raw', s))


def peel(s):
    assert s.startswith('(Array ')
    k = 'Literal ' if s.startswith('(Array Literal ') else 'Int '
    s = s[len('(Array ' + k):-1]
    return sty(s)


def ev(ex, env):
    ctx = env.ctx
    k = ex[0]
    if k == 'num': return V(num(ex[1]), INT)
    if k == 'str': return V('0', ('cstr',), data=ex[1])
    if k == 'name':
        n = ex[1]
        if n in env.env: return env.env[n]
        if n == 'true' or n == 'false': return V(n, BOOL)
        if n == 'null': return V('0', ('null',))
        if n in ctx.spec.defines and not ctx.spec.defines[n][0]:
            return ev(ctx.spec.defines[n][1], env.with_(env=macro_env(env)))
        if n in ctx.spec.ghosts:
            so = ctx.sort_alias(ctx.spec.ghosts[n])
            ty = sty(so)
            return V(ctx.get(env.st, 'ghost.' + n), ty)
        if n in ctx.spec.functions and not ctx.spec.functions[n][0]:
            return funcall(ctx, n, [])
        if ('Formula', n) in ctx.fieldty: return ctx.member(None, V('1', ('single', 'Formula')), n)
        if n in ctx.globalty:
            ty = ctx.globalty[n]; ctx.declare_root('g.' + n, ty, 0)
            return LV('g.' + n, (), ty)
        for e in ctx.prog.enums.values():
            for c in e.get('inner', []):
                if c.get('name') == n and c.get('kind') == 'EnumConstantDecl': return V(num(c['_value']), INT)
        raise Untranslatable('spec: unknown name %s' % n)
    if k == 'raw':
        root = ex[1]
        if root not in ctx.rootinfo:
            cls, f = root.split('.')[0], root.split('.')[1]
            ctx.declare_root2('%s.%s' % (cls, f), ctx.fieldty[(cls, f)], 1 if cls in HEAP else 0)
        s = ctx.root_sort(root)
        return V(ctx.get(env.st, root), sty(s))
    if k == 'not': return V(Not(ctx.truth(rv(env, ev(ex[1], env)))), BOOL)
    if k == 'neg':
        v = rv(env, ev(ex[1], env))
        return V('(- %s)' % v.t, REAL) if v.ty[0] == 'real' else V(Neg(v.t), INT)
    if k == 'bin': return binop(ex, env)
    if k == 'ite':
        c = ctx.truth(rv(env, ev(ex[1], env)))
        a = ev(ex[2], env); b = ev(ex[3], env)
        if isinstance(a, (LV, CLV)) and isinstance(b, (LV, CLV)) and a.ty[0] in ('vec', 'own', 'list'): return CLV(c, a, b)
        a = rv(env, a); b = rv(env, b)
        if a.ty[0] == 'real' or b.ty[0] == 'real': return V(Ite(c, ctx.asreal(a), ctx.asreal(b)), REAL)
        return V(Ite(c, term(env, a), term(env, b)), a.ty)
    if k in ('forall', 'exists'):
        names = []; e2 = dict(env.env)
        for nm, ty in ex[1]:
            ctx.n += 1
            q = '%s?%d' % (nm, ctx.n)
            t = bty(ty, ctx)
            names.append('(%s %s)' % (q, base_sort(t)))
            e2[nm] = V(q, t)
        en = env.with_(env=e2)
        if env.entry_env is not None:
            x = dict(env.entry_env); x.update({nm: e2[nm] for nm, _ in ex[1]}); en.entry_env = x
        if env.old_env is not None:
            x = dict(env.old_env); x.update({nm: e2[nm] for nm, _ in ex[1]}); en.old_env = x
        body = ctx.truth(rv(en, ev(ex[3], en)))
        if body in ('true', 'false'): return V(body, BOOL)
        trig = ''
        for ts in ex[2]:
            tt = [term(en, ev(t, en)) for t in ts]
            if any('(ite ' in t or '(and ' in t for t in tt): raise Untranslatable('spec: bad trigger %s' % tt)
            trig += ' :pattern (%s)' % ' '.join(tt)
        if trig: body = '(! %s%s)' % (body, trig)
        return V('(%s (%s) %s)' % (k, ' '.join(names), body), BOOL)
    if k == 'let':
        v = ev(ex[2], env); e2 = dict(env.env); e2[ex[1]] = rv(env, v) if not isinstance(v, (LV, CLV)) or v.ty[0] not in ('vec', 'list', 'own') else v
        en = env.with_(env=e2)
        if env.entry_env is not None: en.entry_env = dict(env.entry_env, **{ex[1]: e2[ex[1]]})
        if env.old_env is not None: en.old_env = dict(env.old_env, **{ex[1]: e2[ex[1]]})
        return ev(ex[3], en)
    if k == 'upd':
        a = rv(env, ev(ex[1], env)); i = term(env, ev(ex[2], env)); v = term(env, ev(ex[3], env))
        return V(Sto(a.t, i, v), a.ty)
    if k == 'idx':
        a = ev(ex[1], env); i = ev(ex[2], env); it = term(env, i)
        if isinstance(a, V):
            if a.ty[0] == 'raw': return V(Sel(a.t, it), peel(a.ty[1]))
            if a.ty[0] == 'argv': return V(Sel(a.t, it), ('cptr',))
            if a.base is not None: return a.base.elem(Add(a.off, it), a.base.ty[1])
            raise Untranslatable('spec: index of %s' % (a,))
        if a.ty[0] == 'rawmap': pass
        et = a.ty[1] if a.ty[0] != 'string' else INT
        if a.ty[0] in ('set',): return V(Sel(ctx.rd_scalar(env.st, a.root + '.mem', a.idxs), it), BOOL)
        return a.elem(it, et)
    if k == 'fld': return field(ex, env)
    if k == 'call': return call(ex, env)
    raise Untranslatable('spec: %s' % (k,))


def macro_env(env):
    return {kk: vv for kk, vv in env.env.items() if kk == 'this' or kk == 'result'}


def field(ex, env):
    ctx = env.ctx
    n = ex[2]
    b = ev(ex[1], env)
    if n == 'len':
        if b.ty[0] in ('vec', 'string'):
            if isinstance(b, CLV): return V(ctx.agg_term(env.st, b, '.len'), INT)
            return V(ctx.rd_scalar(env.st, b.root + '.len', b.idxs), INT)
        if b.ty[0] == 'own': return V(ctx.agg_term(env.st, b, '.n'), INT)
        if b.ty[0] == 'list': return V(Sub(ctx.agg_term(env.st, b, '.hi'), ctx.agg_term(env.st, b, '.lo')), INT)
    if n in ('lo', 'hi') and b.ty[0] == 'list': return V(ctx.agg_term(env.st, b, '.' + n), INT)
    if n == 'el' and not isinstance(b, V) and b.ty[0] in ('vec', 'own', 'list', 'arr', 'string'):
        et = b.ty[1] if b.ty[0] != 'string' else INT
        s = scal(et)
        if len(s) != 1 or s[0][0]: raise Untranslatable('spec: .el of nested container')
        t = ctx.agg_term(env.st, b, '.el')
        return V(t, ('raw', '(Array Int %s)' % s[0][2]))
    if n == 'pos' and isinstance(b, V) and b.base is not None: return V(b.off, INT)
    if isinstance(b, (LV, CLV)) and b.ty[0] in ('ref', 'single'): b = ctx.read(env.st, b)
    if b.ty[0] == 'ref' or b.ty[0] == 'single':
        saved = ctx.layers
        ctx.layers = ctx.layers - {'safe'}
        try: return ctx.member(env.st, b, n)
        finally: ctx.layers = saved
    if b.ty[0] == 'struct': return ctx.member(env.st, b, n)
    raise Untranslatable('spec: field %s of %s' % (n, b))


def binop(ex, env):
    ctx = env.ctx; op = ex[1]
    if op in ('&&', '||', '==>', '<==>'):
        a = ctx.truth(rv(env, ev(ex[2], env)))
        if op == '&&' and a == 'false': return V('false', BOOL)
        if op == '==>' and a == 'false': return V('true', BOOL)
        if op == '||' and a == 'true': return V('true', BOOL)
        b = ctx.truth(rv(env, ev(ex[3], env)))
        return V({'&&': And, '||': Or, '==>': Implies, '<==>': Eq}[op](a, b), BOOL)
    a = rv(env, ev(ex[2], env)); b = rv(env, ev(ex[3], env))
    if op in ('==', '!='):
        if isinstance(a, V) and isinstance(b, V) and (a.ty[0] == 'null' or b.ty[0] == 'null'):
            t = Eq(a.t, b.t)
        elif isinstance(a, V) and isinstance(b, V) and (a.ty[0] == 'real' or b.ty[0] == 'real'): t = Eq(ctx.asreal(a), ctx.asreal(b))
        elif not isinstance(a, V) and not isinstance(b, V) and a.ty[0] in ('vec', 'list'):
            # whole-container equality
            t = And(*[Eq(ctx.agg_term(env.st, a, s), ctx.agg_term(env.st, b, s)) for s, _, _ in scal(a.ty)])
        else: t = Eq(term(env, a), term(env, b))
        return V(t if op == '==' else Not(t), BOOL)
    if a.ty[0] == 'real' or b.ty[0] == 'real':
        x, y = ctx.asreal(a), ctx.asreal(b)
        if op in ('<', '<=', '>', '>='): return V('(%s %s %s)' % (op, x, y), BOOL)
        return V('(%s %s %s)' % (op, x, y), REAL)
    x, y = term(env, a), term(env, b)
    if op in ('<', '<=', '>', '>='): return V(cmpop(op, x, y), BOOL)
    if op == '+': return V(Add(x, y), INT)
    if op == '-': return V(Sub(x, y), INT)
    if op == '*': return V('(* %s %s)' % (x, y), INT)
    if op == '/': return V('(cdiv %s %s)' % (x, y), INT)
    if op == '%': return V('(cmod %s %s)' % (x, y), INT)
    raise Untranslatable('spec op %s' % op)


def funcall(ctx, n, args):
    argsorts, res = ctx.spec.functions[n]
    rs = ctx.sort_alias(res)
    ty = sty(rs)
    return V('(%s %s)' % (n, ' '.join(args)) if args else n, ty)


def call(ex, env):
    ctx = env.ctx; n, args = ex[1], ex[2]
    if n == 'old':
        if env.old is None: raise Untranslatable('old() here')
        e = env.with_(st=env.old)
        e.env = frozen_locals(env, env.old_env or {})
        v = ev(args[0], e)
        return freeze(v, e)
    if n == 'entry':
        if env.entry is None: raise Untranslatable('entry() here')
        e = env.with_(st=env.entry)
        e.env = frozen_locals(env, env.entry_env or {})
        return freeze(ev(args[0], e), e)
    if n in ctx.spec.defines:
        ps, body = ctx.spec.defines[n]
        if len(ps) != len(args): raise Untranslatable('spec: %s takes %d arguments' % (n, len(ps)))
        e2 = macro_env(env)
        for p, a in zip(ps, args):
            v = ev(a, env)
            if isinstance(v, (LV, CLV)) and v.ty[0] not in ('vec', 'list', 'own', 'arr', 'string', 'set'): v = rv(env, v)
            e2[p] = v
        return ev(body, env.with_(env=e2, entry_env=(e2 if env.entry_env is not None else None), old_env=None))
    if n in ctx.spec.functions:
        sorts = ctx.spec.functions[n][0]
        ts = []
        for a in args:
            v = rv(env, ev(a, env))
            ts.append(term(env, v))
        return funcall(ctx, n, ts)
    if n == 'alloc':
        v = rv(env, ev(args[0], env))
        return V(Sel(ctx.get(env.st, 'alloc:' + v.ty[1]), v.t), BOOL)
    if n == 'Literal' or n == 'lit':
        ts = [rv(env, ev(a, env)) for a in args]
        return V('(mk.Literal %s)' % ' '.join(t.t for t in ts), LIT)
    if n == 'abs':
        t = term(env, ev(args[0], env)); return V('(ite (>= %s 0) %s (- %s))' % (t, t, t), INT)
    if n == 'const0': return V(const_arr(1, 'Int', '0'), ('raw', '(Array Int Int)'))
    if n == 'ref':   # ref(Class, term)
        return V(term(env, ev(args[1], env)), ('ref', args[0][1]))
    if n == 'store':
        a = rv(env, ev(args[0], env)); return V(Sto(a.t, term(env, ev(args[1], env)), term(env, ev(args[2], env))), a.ty)
    if n == 'bit':
        a = rv(env, ev(args[0], env)); i = term(env, ev(args[1], env))
        return V('(bt %s %s)' % (a.t, i), BOOL)
    if n in ('bany', 'bcount', 'band', 'bor', 'bnot', 'bon', 'boff', 'bwit'):
        ts = [term(env, rv(env, ev(a, env))) for a in args]
        return V('(%s %s)' % (n, ' '.join(ts)), {'bany': BOOL, 'bcount': INT, 'bwit': INT}.get(n, ('bitset', 64)))
    if n == 'STREQ':
        v = rv(env, ev(args[0], env)); import builtins_ as B
        if isinstance(v.data, str): return V('true' if v.data == ev(args[1], env).data else 'false', BOOL)
        return V(B.streq(ctx, v.t, ev(args[1], env).data), BOOL)
    if n == 'WORD':
        import tokens as T
        return V(str(T.code(ev(args[0], env).data)), INT)
    if n == 'STRNUM':
        import builtins_ as B
        return V(str(B.strnum(ev(args[0], env).data)), INT)
    if n == 'STRID':
        v = rv(env, ev(args[0], env)); return V('(STRID %s)' % v.t, INT)
    if n == 'ATOI':
        v = rv(env, ev(args[0], env)); return V('(ATOI %s)' % v.t, INT)
    if n == 'SAID':
        import builtins_ as B
        return V(ctx.get(env.st, B.said_root(ctx, ev(args[0], env).data)), BOOL)
    raise Untranslatable('spec: unknown function %s' % n)


def frozen_locals(env, other):
    """bindings for another state: names unknown there keep their present value"""
    r = {}
    for k, v in env.env.items():
        if k in other: continue
        if isinstance(v, (LV, CLV)) and v.ty[0] not in ('vec', 'list', 'own', 'arr', 'string', 'set'): v = env.ctx.read(env.st, v)
        r[k] = v
    r.update(other)
    return r


def freeze(v, e):
    """value in another state, usable in the current one"""
    ctx = e.ctx
    if isinstance(v, V): return v
    if v.ty[0] in ('vec', 'list', 'own', 'arr', 'string', 'set'): return Frozen(v, e.st)
    return ctx.read(e.st, v)


class Frozen(LV):
    """a container as it was in an earlier state (only .len/.el/[] of scalars are available)"""
    __slots__ = ('lv', 'st')

    def __init__(self, lv, st):
        self.lv = lv; self.st = st; self.ty = lv.ty; self.root = None; self.idxs = (); self.path = ()
