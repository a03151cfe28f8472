"""Loops: cut at their invariants; what a loop may change is found by running it on an unknown state."""
from smt import *
from cxx import Untranslatable, walk
from vc import V, LV, CLV, State, Fact, parse_type, strip
import specev


def loop_nodes(func):
    if not hasattr(func, '_loops'):
        func._loops = [x['id'] for x in walk(func.body) if x.get('kind') in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')]
    return func._loops


def ops_in(nodes):
    """how each local is modified in these AST nodes: decl id -> set of operations"""
    r = {}
    for n in nodes:
        if not n: continue
        for x in walk(n):
            k = x.get('kind')
            t = None
            if k == 'UnaryOperator' and x.get('opcode') in ('++', '--', '&'):
                t = strip(x['inner'][0]); op = x['opcode']
            elif k in ('BinaryOperator',) and x.get('opcode') == '=':
                t = strip(x['inner'][0]); op = '='
            elif k == 'CompoundAssignOperator':
                t = strip(x['inner'][0]); op = x['opcode']
            elif k == 'CXXOperatorCallExpr':
                d = strip(x['inner'][0]).get('referencedDecl', {}).get('name', '')
                if d in ('operator++', 'operator--'): t = strip(x['inner'][1]); op = d[8:]
                elif d == 'operator=': t = strip(x['inner'][1]); op = '='
                else: continue
            elif k in ('CallExpr', 'CXXMemberCallExpr'):
                for a in x['inner'][1:]:
                    if a.get('kind') == 'DeclRefExpr' and a.get('valueCategory') == 'lvalue':
                        r.setdefault(a['referencedDecl']['id'], set()).add('ref')
                continue
            else: continue
            if t.get('kind') == 'DeclRefExpr': r.setdefault(t['referencedDecl']['id'], set()).add(op)
    return r


def conjuncts(c):
    c0 = c
    while c.get('kind') in ('ParenExpr', 'ExprWithCleanups') or (c.get('kind') == 'ImplicitCastExpr' and c.get('castKind') in ('LValueToRValue', 'NoOp')): c = c['inner'][0]
    if c.get('kind') == 'BinaryOperator' and c.get('opcode') == '&&':
        return conjuncts(c['inner'][0]) + conjuncts(c['inner'][1])
    return [c]


def names_env(fr):
    env = {}
    chain = []
    f = fr
    while f is not None: chain.append(f); f = f.parent
    for f in reversed(chain):
        for k, b in f.names.items(): env[k] = b
        if f.this is not None: env['this'] = ('val', f.this)
    return env


def env_values(ctx, st, fr):
    env = {}
    for k, b in names_env(fr).items():
        try: env[k] = ctx.binding(b, st)
        except Untranslatable: pass
    return env


def iteration(ctx, s, fr, cond, inc, body, isdo):
    """one run of the loop from head state s: (states back at the head, exit states, returns)"""
    exits = []; back = []; rets = []
    if body is not None: body['_top'] = True
    if not isdo:
        if cond is not None:
            c = ctx.truth(ctx.ev(cond, s, fr))
            c = ctx.name_term(s, 'b', 'Bool', c)
            if s.alive and c != 'true':
                e = s.copy(); ctx.assume_pc(e, Not(c)); exits.append(e)
            if c == 'false' or not s.alive: return back, exits, rets
            a = s.copy(); ctx.assume_pc(a, c)
        else: a = s
        o = ctx.exec(body, [a], fr)
        exits += o['break']; rets += o['return']
        nx = [x for x in o['normal'] + o['continue'] if x.alive]
        for x in nx:
            if inc is not None: ctx.eval(inc, x, fr)
            if x.alive: back.append(x)
    else:
        o = ctx.exec(body, [s.copy()], fr)
        exits += o['break']; rets += o['return']
        for x in [x for x in o['normal'] + o['continue'] if x.alive]:
            c = ctx.truth(ctx.ev(cond, x, fr))
            c = ctx.name_term(x, 'b', 'Bool', c)
            if c != 'true':
                e = x.copy(); ctx.assume_pc(e, Not(c)); exits.append(e)
            if c != 'false':
                a = x.copy(); ctx.assume_pc(a, c); back.append(a)
    return back, [e for e in exits if e.alive], rets


def modifies(ctx, n, st, fr, cond, inc, body, isdo):
    mods = set(); pm = set()
    cache = ctx.__dict__.setdefault('loopmods', {})
    ck = (n['id'], tuple(sorted(k for k in st.comps if k.startswith('L.'))), tuple(sorted(st.ptrs)))
    if ck in cache: return cache[ck]
    ctx.dry += 1
    line = ctx.line
    savedenv = dict(fr.env), dict(fr.names)
    # the answer is kept for every later visit, so nothing known here may narrow it
    st = st.copy()
    for c in list(st.comps): ctx.havoc(st, c)
    try:
        while True:
            s = st.copy()
            havoc_state(ctx, s, mods, pm)
            pre = dict(s.comps); prep = dict(s.ptrs)
            back, exits, rets = iteration(ctx, s, fr, cond, inc, body, isdo)
            m2 = set(mods); p2 = set(pm)
            for x in back:      # what reaches the head of the loop again
                for c, t in x.comps.items():
                    if c in pre:
                        if t != pre[c]: m2.add(c)
                    elif not c.startswith('L.') and t != c.replace(':', '.') + '!0': m2.add(c)
                for c, v in x.ptrs.items():
                    if c in prep and prep[c] is not v and (v is None or prep[c] is None or v.off != prep[c].off or v.t != prep[c].t or (v.base is None) != (prep[c].base is None)): p2.add(c)
            if m2 == mods and p2 == pm: break
            mods, pm = m2, p2
    finally:
        ctx.dry -= 1; ctx.line = line
    cache[ck] = (mods, pm)
    return mods, pm


def havoc_state(ctx, s, mods, pm):
    for m in sorted(mods): ctx.havoc(s, m)
    for p in sorted(pm):
        v = s.ptrs.get(p)
        if v is None or v.base is None:
            # assigned inside the loop before it is used
            s.ptrs[p] = V('uninit', v.ty if v else ('ptr',))
            continue
        s.ptrs[p] = V(v.t, v.ty, v.base, ctx.fresh('pos', 'Int'))


def auto_invs(ctx, n, st, fr, cond, inc, body, mods, pm):
    """bounds of counters, proposed from the shape of the loop (checked like all invariants)"""
    ops = ops_in([cond, inc, body])
    dec = {}
    f = fr
    while f is not None:
        for did, b in f.env.items():
            if b[0] == 'lv' and isinstance(b[1], LV) and b[1].root in mods and not b[1].idxs and b[1].ty[0] == 'int': dec[did] = ('c', b[1].root)
            if b[0] == 'ptr' and b[1] in pm: dec[did] = ('p', b[1])
        f = f.parent
    res = []
    def cur(s, d):
        return ctx.get(s, d[1]) if d[0] == 'c' else s.ptrs[d[1]].off
    for did, d in dec.items():
        o = ops.get(did)
        if o is None: continue
        try: init = cur(st, d)
        except Exception: continue
        if init is None: continue
        if o == {'++'}: res.append(('lo', d, lambda s, d=d, init=init: cmpop('>=', cur(s, d), init)))
        elif o == {'--'}: res.append(('hi', d, lambda s, d=d, init=init: cmpop('<=', cur(s, d), init)))
        if cond is None: continue
        for c in conjuncts(cond):
            if c.get('kind') == 'BinaryOperator' and c.get('opcode') in ('<', '<=', '>', '>=', '!='):
                l, r = c['inner']; op = c['opcode']
            elif c.get('kind') == 'CXXOperatorCallExpr' and strip(c['inner'][0]).get('referencedDecl', {}).get('name') in ('operator!=', 'operator<'):
                l, r = c['inner'][1:]; op = strip(c['inner'][0])['referencedDecl']['name'][8:]
            else: continue
            def isvar(x):
                while x.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXStaticCastExpr'): x = x['inner'][0]
                return x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == did
            if isvar(r) and not isvar(l):
                l, r = r, l; op = {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '!=': '!='}[op]
            if not isvar(l): continue
            ctx.dry += 1
            try:
                s1 = st.copy(); b1 = ctx.ev(r, s1, fr)
                s2 = st.copy(); havoc_state(ctx, s2, mods, pm); b2 = ctx.ev(r, s2, fr)
                t1 = b1.off if b1.base is not None else b1.t
                t2 = b2.off if b2.base is not None else b2.t
            except Untranslatable:
                continue
            finally: ctx.dry -= 1
            if t1 != t2 or t1 is None: 
                continue
            B = t1
            if o == {'++'}:
                if op == '<': res.append(('up', d, lambda s, d=d, B=B, init=init: cmpop('<=', cur(s, d), Ite(cmpop('<', init, B), B, init))))
                if op == '<=': res.append(('up', d, lambda s, d=d, B=B, init=init: cmpop('<=', cur(s, d), Ite(cmpop('<=', init, B), Add(B, '1'), init))))
                if op == '!=': res.append(('up', d, lambda s, d=d, B=B, init=init: Implies(cmpop('<=', init, B), cmpop('<=', cur(s, d), B))))
            if o == {'--'}:
                if op == '>': res.append(('dn', d, lambda s, d=d, B=B, init=init: cmpop('>=', cur(s, d), Ite(cmpop('>', init, B), B, init))))
                if op == '>=': res.append(('dn', d, lambda s, d=d, B=B, init=init: cmpop('>=', cur(s, d), Ite(cmpop('>=', init, B), Sub(B, '1'), init))))
    return res


def run(ctx, n, st, fr, cond, inc, body, isdo):
    line = n.get('_line')
    out = {'normal': [], 'break': [], 'continue': [], 'return': []}
    mods, pm = modifies(ctx, n, st, fr, cond, inc, body, isdo)
    if ctx.dry:
        # effects only
        s = st.copy(); havoc_state(ctx, s, mods, pm)
        back, exits, rets = iteration(ctx, s, fr, cond, inc, body, isdo)
        out['return'] += rets
        if exits: out['normal'].append(ctx.merge(s, exits))
        return out
    invs = []
    ordn = loop_nodes(fr.func).index(n['id'])
    sp = ctx.find_spec(fr.func); inherited = False
    if sp is not None: invs = [c for c in sp.get('inv', ctx.layers) if c.loop is None or c.loop == ordn]
    else:
        f = fr.parent
        while f is not None and not invs:
            sp2 = ctx.find_spec(f.func) if f.func else None
            if sp2 is not None: invs = [c for c in sp2.get('inv', ctx.layers)]
            f = f.parent
        if invs: inherited = True
    entry = st.copy()
    autos = auto_invs(ctx, n, st, fr, cond, inc, body, mods, pm)
    tag = '%s#%d' % (fr.func.qname, ordn)
    def evalinv(c, s):
        env = env_values(ctx, s, fr)
        e = specev.Env(s, ctx.entry_state, env, ctx); e.entry = entry
        e.entry_env = env_values(ctx, entry, fr); e.old_env = getattr(ctx, 'entry_env', {})
        return specev.boolx(ctx, c.expr, e)
    if inherited:       # those that speak of what is in scope here
        def fits(c):
            try: evalinv(c, st.copy()); return True
            except Untranslatable: return False
        invs = [c for c in invs if fits(c)]
    ctx.cover(st, 'reach of loop %s' % tag)
    s = st.copy(); chain = bool(ctx.opts.get('chain'))
    ctx.line = line
    # with the option chain, what was checked before counts as known for the next one
    s0 = s.copy() if chain else s
    for c in invs:
        ctx.check(s0, 'inv', c.label, evalinv(c, s0), by=c.by, desc='loop %s invariant %s on entry' % (tag, c.label), assume=chain)
    # automatic bounds hold on entry by construction: checked all the same
    for kd, d, g in autos:
        ctx.check(s, 'inv', 'auto', g(s), by=[], desc='loop %s bound on entry' % tag, assume=False)
    # ghost assignments at the end of each round (step N GHOST)
    steps = sp.get('step', ctx.layers) if sp is not None else []
    mods = set(mods) | {'ghost.' + c.label for c in steps}
    havoc_state(ctx, s, mods, pm)
    for kd, d, g in autos: ctx.assume(s, g(s))
    for c in invs: ctx.assume(s, evalinv(c, s), c.label)
    ctx.cover(s, 'head of loop %s' % tag)
    head = s.copy()
    back, exits, rets = iteration(ctx, s, fr, cond, inc, body, isdo)
    for x in back:
        ctx.line = line
        for c in steps:
            if c.loop != ordn: continue
            e = specev.Env(x, ctx.entry_state, env_values(ctx, x, fr), ctx); e.old_env = getattr(ctx, 'entry_env', {})
            ctx.setc(x, 'ghost.' + c.label, specev.term(e, specev.ev(c.expr, e)))
        for kd, d, g in autos:
            ctx.check(x, 'inv', 'auto', g(x), by=[], desc='loop %s bound kept' % tag, assume=False)
        for c in invs:
            ctx.check(x, 'inv', c.label, evalinv(c, x), by=c.by, desc='loop %s invariant %s kept' % (tag, c.label), assume=chain)
    out['return'] += rets
    exits = [e for e in exits if e.alive]
    if exits:
        if len(exits) > 1 and any(ctx.heavy(head, x) for x in exits) and len(exits) <= 4 and not ctx.opts.get('nosplit'): out['normal'] += exits
        else: out['normal'].append(ctx.merge(head, exits))
    # ghost assignments after a loop (set N GHOST): the locals are in scope here
    for c in sp.get('set', ctx.layers) if sp is not None else []:
        if c.loop != ordn: continue
        for x in out['normal']:
            e = specev.Env(x, ctx.entry_state, env_values(ctx, x, fr), ctx); e.old_env = getattr(ctx, 'entry_env', {})
            ctx.setc(x, 'ghost.' + c.label, specev.term(e, specev.ev(c.expr, e)))
    return out
