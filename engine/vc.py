"""Verification-condition generator: symbolic execution of the clang AST of /repo's
functions against the contracts in /verif/contracts.  Loops are cut at invariants,
calls at contracts (or inlined when the callee has none)."""
import re, sys
from smt import *
from cxx import Untranslatable, walk
from spec import SpecError

sys.setrecursionlimit(20000)

LIT = ('struct', 'Literal')
INT = ('int',); BOOL = ('bool',); REAL = ('real',)
HEAP = {'Clause', 'Variable', 'VARRECORD'}
SINGLE = {'Formula', 'CommandLine'}
VALUE_STRUCTS = {}     # name -> [(field, ty)], filled from the program

INTNAMES = {'int', 'unsigned', 'unsigned int', 'long', 'unsigned long', 'size_t', 'long int', 'short', 'size_type', 'ssize_t', 'time_t',
            'ptrdiff_t', 'long long', 'unsigned long long', 'char', 'unsigned char', 'signed char', 'streamsize', 'std::streamsize'}
UNSIGNED = {'unsigned', 'unsigned int', 'unsigned long', 'size_t', 'size_type', 'unsigned long long'}


class V:
    """A value: SMT term and type; pointers/iterators carry (base LV, offset)."""
    __slots__ = ('t', 'ty', 'base', 'off', 'data')

    def __init__(self, t, ty, base=None, off=None, data=None):
        self.t = t; self.ty = ty; self.base = base; self.off = off; self.data = data

    def __repr__(self): return 'V(%s:%s)' % (self.t, self.ty)


class LV:
    __slots__ = ('root', 'idxs', 'ty', 'path')

    def __init__(self, root, idxs, ty, path=()):
        self.root = root; self.idxs = tuple(idxs); self.ty = ty; self.path = tuple(path)

    def key(self): return (self.root, self.idxs, self.path)

    def sub(self, suffix, ty): return LV(self.root + suffix, self.idxs, ty)

    def elem(self, i, ty): return LV(self.root + '.el', self.idxs + (i,), ty)

    def __repr__(self): return 'LV(%s%s:%s)' % (self.root, list(self.idxs), self.ty)


class CLV:
    """conditional lvalue"""
    __slots__ = ('c', 'a', 'b', 'ty')

    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b; self.ty = a.ty

    def key(self): return ('ite', self.c, self.a.key(), self.b.key())

    def sub(self, suffix, ty): return CLV(self.c, self.a.sub(suffix, ty), self.b.sub(suffix, ty))

    def elem(self, i, ty): return CLV(self.c, self.a.elem(i, ty), self.b.elem(i, ty))


def lv_field(lv, f, ty):
    if isinstance(lv, CLV): return CLV(lv.c, lv_field(lv.a, f, ty), lv_field(lv.b, f, ty))
    return LV(lv.root, lv.idxs, ty, lv.path + (f,))


class Fact:
    __slots__ = ('text', 'label', 'syms')

    def __init__(self, text, label=None):
        self.text = text; self.label = label; self.syms = None


class Def:
    __slots__ = ('name', 'sort', 'term', 'syms')

    def __init__(self, name, sort, term):
        self.name = name; self.sort = sort; self.term = term; self.syms = None


class State:
    def __init__(self):
        self.comps = {}; self.ptrs = {}; self.facts = []; self.pc = []; self.alive = True

    def copy(self):
        s = State()
        s.comps = dict(self.comps); s.ptrs = dict(self.ptrs); s.facts = list(self.facts); s.pc = list(self.pc); s.alive = self.alive
        return s


class Oblig:
    def __init__(self, **kw): self.__dict__.update(kw)


class Frame:
    def __init__(self, func, parent, this=None):
        self.func = func; self.parent = parent; self.this = this; self.env = {}; self.names = {}
        self.ownlocals = own_locals(func) if func else set()
        self.depth = parent.depth + 1 if parent else 0


def own_locals(func):
    """pointer locals that are assigned from new[]"""
    r = set()
    if not func.body: return r
    def strip(n):
        while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'CStyleCastExpr', 'CXXStaticCastExpr'): n = n['inner'][-1]
        return n
    for n in walk(func.body):
        if n.get('kind') == 'BinaryOperator' and n.get('opcode') == '=':
            l, rr = strip(n['inner'][0]), strip(n['inner'][1])
            if rr.get('kind') == 'CXXNewExpr' and rr.get('isArray') and l.get('kind') == 'DeclRefExpr':
                r.add(l['referencedDecl']['id'])
        if n.get('kind') == 'VarDecl' and n.get('inner'):
            rr = strip(n['inner'][-1])
            if rr.get('kind') == 'CXXNewExpr' and rr.get('isArray'): r.add(n['id'])
    return r


def parse_type(s):
    s = s.strip()
    s = re.sub(r'\b(const|struct|class|enum|volatile)\b', '', s).strip()
    s = s.replace('std::', '').strip()
    while s.endswith('&'): s = s[:-1].strip()
    s = re.sub(r'\s+', ' ', s)
    if s in INTNAMES:
        if s in UNSIGNED: return ('int', 'u')
        return INT
    if s == 'bool': return BOOL
    if s in ('double', 'float'): return REAL
    if s == 'void': return ('void',)
    if s.endswith('bitset<64>::reference') : return BOOL
    m = re.match(r'(vector|list|set)<(.*)>::(iterator|const_iterator|reverse_iterator)$', s)
    if m: return ('iter', m.group(1), parse_type(m.group(2)), m.group(3))
    m = re.match(r'(vector|list|set)<(.*)>$', s)
    if m: return ({'vector': 'vec'}.get(m.group(1), m.group(1)), parse_type(m.group(2)))
    m = re.match(r'bitset<(\d+)>$', s)
    if m: return ('bitset', int(m.group(1)))
    m = re.match(r'(.*)\[(\d+)\]$', s)
    if m: return ('arr', parse_type(m.group(1)), int(m.group(2)))
    if s.endswith('*'):
        t = s[:-1].strip()
        if t in HEAP: return ('ref', t)
        if t in SINGLE: return ('single', t)
        return ('ptr', parse_type(t))
    if s in ('string', 'basic_string<char>'): return ('string',)
    if s in ('ofstream', 'ifstream', 'ostream', 'istream', 'stringstream', 'istringstream'): return ('stream', s)
    if s in HEAP: return ('obj', s)
    if s in SINGLE: return ('single', s)
    if s in VALUE_STRUCTS: return ('struct', s)
    if s in ('Heuristic',): return INT
    if s in ENUMS: return INT
    return ('unknown', s)


ENUMS = set()


def ctype(n):
    t = n.get('type', {})
    q = t.get('desugaredQualType') or t.get('qualType') or ''
    ty = parse_type(q)
    if ty[0] == 'unknown' and t.get('qualType'):
        ty2 = parse_type(t['qualType'])
        if ty2[0] != 'unknown': return ty2
    return ty


def base_sort(ty):
    k = ty[0]
    if k in ('int', 'ref', 'ptr', 'single', 'cstr', 'stream'): return 'Int'
    if k == 'bool': return 'Bool'
    if k == 'real': return 'Real'
    if k == 'struct': return ty[1]
    if k == 'bitset': return 'Bits'
    if k == 'raw': return ty[1]
    raise Untranslatable('no sort for type %s' % (ty,))


def scal(ty):
    """scalar components of an aggregate type: (suffix, extra index dims, base sort)"""
    k = ty[0]
    if k in ('vec', 'list', 'own', 'arr', 'string'):
        et = ty[1] if k != 'string' else INT
        r = []
        if k in ('vec', 'string'): r.append(('.len', 0, 'Int'))
        if k == 'list': r += [('.lo', 0, 'Int'), ('.hi', 0, 'Int')]
        if k == 'own': r.append(('.n', 0, 'Int'))
        for s, d, b in scal(et): r.append(('.el' + s, d + 1, b))
        return r
    if k == 'set': return [('.mem', 1, 'Bool')]
    return [('', 0, base_sort(ty))]


def arr_sort(d, b):
    for _ in range(d): b = '(Array Int %s)' % b
    return b


DEFAULTS = {'Int': '0', 'Bool': 'false', 'Real': '0.0'}


class Ctx:
    """one verification run over a program with a set of contract layers"""

    def __init__(self, prog, spec, layers, opts=None):
        self.prog = prog; self.spec = spec; self.layers = frozenset(layers); self.opts = opts or {}
        self.decls = {}; self.n = 0; self.dry = 0; self.obs = []; self.rootinfo = {}
        self.modcache = {}; self.stackq = []; self.plugins = []
        self.inlined = set(); self.used_contracts = set(); self.trusted = set(); self.covers = []
        self.curfn = None; self.line = None; self.loopord = {}
        VALUE_STRUCTS.clear(); ENUMS.clear()
        ENUMS.update(prog.enums)
        # structs used by value: every class that is neither heap nor singleton
        for c in prog.classes:
            if c not in HEAP and c not in SINGLE: VALUE_STRUCTS[c] = []
        for c in list(VALUE_STRUCTS): VALUE_STRUCTS[c] = [(f, parse_type(t)) for f, t in prog.fields[c]]
        self.fieldty = {}
        for c in prog.classes:
            for f, t in prog.fields[c]:
                self.fieldty[(c, f)] = self.field_type(c, f, t)
        for c in HEAP:
            if c in prog.classes: self.rootinfo['alloc:' + c] = '(Array Int Bool)'
        self.globalty = {}
        for g, n in prog.globals.items():
            ty = ctype(n)
            if ty[0] == 'ptr': ty = self.own_of(ty)
            self.globalty[g] = ty
        for g, s in spec.ghosts.items(): self.rootinfo['ghost.' + g] = self.sort_alias(s)

    def own_of(self, ty):
        if ty[0] == 'ptr':
            return ('own', self.own_of(ty[1]))
        return ty

    def field_type(self, c, f, t):
        ty = parse_type(t)
        if ty == ('ptr', INT) and 'char' in t: return ('cptr',)
        if ty[0] == 'ptr': return self.own_of(ty)
        return ty

    def sort_alias(self, s):
        s = s.strip()
        m = {'int': 'Int', 'bool': 'Bool', 'real': 'Real', 'lit': 'Literal', 'iarr': '(Array Int Int)', 'barr': '(Array Int Bool)', 'larr': '(Array Int Literal)',
             'iarr2': '(Array Int (Array Int Int))', 'iarr3': '(Array Int (Array Int (Array Int Int)))', 'larr2': '(Array Int (Array Int Literal))', 'bits': 'Bits', 'narr': '(Array Int IGNode)', 'node': 'IGNode'}
        return m.get(s, s)

    # ---- declarations -------------------------------------------------
    def fresh(self, base, sort):
        self.n += 1
        nm = '%s!%d' % (re.sub(r'[^A-Za-z0-9_.:]', '_', base).replace(':', '.'), self.n)
        self.decls[nm] = sort
        return nm

    def root_sort(self, root):
        s = self.rootinfo.get(root)
        if s: return s
        raise Untranslatable('unknown component %s' % root)

    def declare_root(self, root, ty, dims):
        for s, d, b in scal(ty):
            self.rootinfo.setdefault(root + s, arr_sort(d + dims, b))

    def get(self, st, root):
        t = st.comps.get(root)
        if t is None:
            t = root.replace(':', '.') + '!0'
            self.decls.setdefault(t, self.root_sort(root))
        return t

    def setc(self, st, root, term, named=True):
        if named and len(term) > 24:
            nm = self.fresh(root, self.root_sort(root))
            st.facts.append(Def(nm, self.root_sort(root), term))
            term = nm
        st.comps[root] = term

    def name_term(self, st, base, sort, term):
        if len(term) <= 40: return term
        nm = self.fresh(base, sort)
        st.facts.append(Def(nm, sort, term))
        return nm

    def havoc(self, st, root):
        st.comps[root] = self.fresh(root, self.root_sort(root))

    # ---- lvalues ------------------------------------------------------
    def rd_scalar(self, st, root, idxs):
        t = self.get(st, root)
        for i in idxs: t = Sel(t, i)
        return t

    def read(self, st, lv):
        if isinstance(lv, CLV):
            a, b = self.read(st, lv.a), self.read(st, lv.b)
            return V(Ite(lv.c, a.t, b.t), lv.ty)
        if lv.ty[0] in ('vec', 'list', 'own', 'arr', 'string', 'set'):
            raise Untranslatable('aggregate read of %s' % (lv,))
        if not lv.path and lv.root not in self.rootinfo: self.declare_root(lv.root, lv.ty, len(lv.idxs))
        t = self.rd_scalar(st, lv.root, lv.idxs)
        for f in lv.path: t = '(%s %s)' % (self.acc_name(f), t)
        return V(t, lv.ty)

    def acc_name(self, f): return f[0] + '.' + f[1]

    def write(self, st, lv, term):
        if isinstance(lv, CLV):
            c = self.name_term(st, 'c', 'Bool', lv.c)
            ca = self.read(st, lv.a).t; cb = self.read(st, lv.b).t
            self.write(st, lv.a, Ite(c, term, ca))
            cb = self.read(st, lv.b).t
            self.write(st, lv.b, Ite(c, cb, term))
            return
        if lv.path:
            # functional update of a nested struct value
            whole = LV(lv.root, lv.idxs, ('struct', lv.path[0][0]))
            cur = self.rd_scalar(st, lv.root, lv.idxs)
            term = self.upd_struct(cur, lv.path, term)
            lv = whole
        cur = self.get(st, lv.root)
        self.setc(st, lv.root, self.sto_chain(cur, lv.idxs, term), named=True)

    def upd_struct(self, cur, path, term):
        sname, f = path[0]
        parts = []
        for g, _ in VALUE_STRUCTS[sname]:
            acc = '(%s.%s %s)' % (sname, g, cur)
            if g == f:
                parts.append(self.upd_struct(acc, path[1:], term) if len(path) > 1 else term)
            else: parts.append(acc)
        return '(mk.%s %s)' % (sname, ' '.join(parts))

    def sto_chain(self, arr, idxs, term):
        if not idxs: return term
        return Sto(arr, idxs[0], self.sto_chain(Sel(arr, idxs[0]), idxs[1:], term))

    def copy_agg(self, st, dst, src, ty):
        """aggregate copy component by component"""
        if isinstance(dst, CLV): raise Untranslatable('aggregate copy to a conditional location')
        for s, d, b in scal(ty):
            t = self.agg_term(st, src, s)
            self.rootinfo.setdefault(dst.root + s, arr_sort(d + len(dst.idxs), b))
            cur = self.get(st, dst.root + s)
            self.setc(st, dst.root + s, self.sto_chain(cur, dst.idxs, t))

    def agg_term(self, st, src, s):
        if isinstance(src, CLV): return Ite(src.c, self.agg_term(st, src.a, s), self.agg_term(st, src.b, s))
        return self.rd_scalar(st, src.root + s, src.idxs)

    def init_agg(self, st, lv, ty, zero=False):
        """default construction at a location"""
        for s, d, b in scal(ty):
            self.rootinfo.setdefault(lv.root + s, arr_sort(d + len(lv.idxs), b))
            if s.endswith('.len') or s.endswith('.lo') or s.endswith('.hi'):
                if d == 0: t = '0'
                else: t = const_arr(d, 'Int', '0')
            elif s.endswith('.mem'):
                t = const_arr(d, 'Bool', 'false')
            elif b == 'Bits':
                t = const_arr(d, b, 'bzero')
            elif b in VALUE_STRUCTS:
                ds = self.default_struct(b)
                t = const_arr(d, b, ds) if '!' not in ds or d == 0 else self.fresh('uninit', arr_sort(d, b))
            elif s.endswith('.n') and d == 0: t = '(- 1)'
            elif zero and b in DEFAULTS: t = const_arr(d, b, DEFAULTS[b])
            else: t = self.fresh('uninit', arr_sort(d, b))
            cur = self.get(st, lv.root + s)
            self.setc(st, lv.root + s, self.sto_chain(cur, lv.idxs, t))

    def default_struct(self, name):
        """value made by the zero-argument constructor"""
        f = self.ctor_of(name, 0)
        if f is None:
            return '(mk.%s %s)' % (name, ' '.join(self.default_scalar(t) for _, t in VALUE_STRUCTS[name]))
        st = State(); fr = Frame(f, None)
        v = self.construct_struct(name, f, [], st, None)
        t = v.t
        # substitute definitions
        for x in reversed(st.facts):
            if isinstance(x, Def): t = re.sub(r'(?<![^\s()])%s(?![^\s()])' % re.escape(x.name), lambda m: x.term, t)
        if '!' in t: t = self.fresh('dflt', name)
        return t

    def default_scalar(self, ty):
        if ty[0] == 'struct': return self.default_struct(ty[1])
        if ty[0] == 'bitset': return 'bzero'
        b = base_sort(ty)
        return self.fresh('uninit', b)

    # ---- obligations ----------------------------------------------------
    def oblige(self, st, kind, label, goal, by=None, desc=''):
        if self.dry or goal == 'true' or not st.alive: return
        self.obs.append(Oblig(kind=kind, label=label, goal=goal, hyps=list(st.facts), by=by, fn=self.curfn, line=self.line, desc=desc,
                              stack='/'.join(self.stackq)))

    def check(self, st, kind, label, goal, by=None, desc='', assume=True):
        self.oblige(st, kind, label, goal, by, desc)
        if assume and goal != 'true': st.facts.append(Fact(goal, label))

    def safe(self, st, what, goal):
        if getattr(self, 'inspec', 0): return
        if 'safe' in self.layers: self.check(st, 'safe', 'mem', goal, desc=what, assume=True)
        elif self.opts.get('assume_safe') and not self.dry:
            self.assumed_safe = getattr(self, 'assumed_safe', 0) + 1
            self.assume(st, goal, 'mem')

    def arith(self, st, what, goal):
        if 'arith' in self.layers: self.check(st, 'arith', 'arith', goal, desc=what)

    def assume(self, st, text, label=None):
        if text == 'true': return
        st.facts.append(Fact(text, label))

    def assume_pc(self, st, cond):
        if cond == 'true': return
        if cond == 'false': st.alive = False
        if len(cond) > 40:
            nm = self.fresh('b', 'Bool')
            st.facts.append(Def(nm, 'Bool', cond))
            cond = nm
        st.facts.append(Fact(cond, '#pc')); st.pc.append(cond)

    # ---- merging --------------------------------------------------------
    def merge(self, base, states):
        """merge states that forked from base (base is a prefix of each)"""
        states = [s for s in states if s.alive]
        if not states: 
            r = base.copy(); r.alive = False; return r
        if len(states) == 1: return states[0]
        nb = 0; s0 = states[0]
        m = min(len(s.facts) for s in states)
        while nb < m and all(s.facts[nb] is s0.facts[nb] for s in states): nb += 1
        npc = 0; m = min(len(s.pc) for s in states)
        while npc < m and all(s.pc[npc] is s0.pc[npc] for s in states): npc += 1
        r = base.copy()
        r.facts = s0.facts[:nb]; r.pc = s0.pc[:npc]
        conds = [And(*s.pc[npc:]) for s in states]
        same = all(s.comps == states[0].comps for s in states) and all(s.ptrs == states[0].ptrs for s in states)
        seen = set()
        for s, c in zip(states, conds):
            for f in s.facts[nb:]:
                if isinstance(f, Def):
                    if f.name not in seen:
                        seen.add(f.name); r.facts.append(f)
                elif f.label == '#pc': pass
                elif same and f.label in ('mem', 'arith'): pass
                else:
                    r.facts.append(Fact(Implies(c, f.text), f.label))
        if not self.complementary(conds): self.assume_pc(r, Or(*conds))
        self.last_conds = conds
        if same:
            r.comps = dict(states[0].comps); r.ptrs = dict(states[0].ptrs); return r
        keys = set()
        for s in states: keys |= set(s.comps)
        for k in sorted(keys):
            ts = [self.get(s, k) for s in states]
            if all(t == ts[0] for t in ts): r.comps[k] = ts[0]; continue
            t = ts[-1]
            for c, x in list(zip(conds, ts))[-2::-1]: t = Ite(c, x, t)
            self.setc(r, k, t)
        pk = set()
        for s in states: pk |= set(s.ptrs)
        for k in pk:
            vs = [s.ptrs.get(k) for s in states]
            if any(v is None for v in vs):
                vs2 = [v for v in vs if v is not None]
                r.ptrs[k] = vs2[0] if len(vs2) == 1 else None
                if len(vs2) > 1:
                    cs2 = [c for c, v in zip(conds, vs) if v is not None]
                    r.ptrs[k] = self.merge_ptr(r, cs2, vs2)
                continue
            r.ptrs[k] = self.merge_ptr(r, conds, vs)
        return r

    def complementary(self, conds):
        if len(conds) != 2: return False
        return conds[0] == Not(conds[1]) or conds[1] == Not(conds[0])

    def merge_ptr(self, st, conds, vs):
        v = vs[-1]
        for c, x in list(zip(conds, vs))[-2::-1]:
            v = self.ite_ptr(st, c, x, v)
        return v

    def ite_ptr(self, st, c, a, b):
        if a.base is None or b.base is None:
            if a.base is None and b.base is None: return V(Ite(c, a.t, b.t) if a.t and b.t else None, a.ty)
            # uninitialised on one side
            if a.t == 'uninit': return b
            if b.t == 'uninit': return a
            raise Untranslatable('pointer merges null and object')
        if a.base.key() == b.base.key(): base = a.base
        else: base = CLV(c, a.base, b.base)
        off = a.off if a.off == b.off else Ite(c, a.off, b.off)
        off = self.name_term(st, 'off', 'Int', off)
        return V(None, a.ty, base, off)

    # ---- expressions ------------------------------------------------------
    def truth(self, v):
        if v.ty[0] == 'bool': return v.t
        if v.ty[0] in ('int', 'ref', 'single', 'cptr'): return Not(Eq(v.t, '0'))
        if v.ty[0] == 'ptr' and v.base is not None: return 'true'
        if v.ty[0] == 'own': return Not(Eq(v.t, '(- 1)'))
        if v.ty[0] == 'stream': return v.t
        if v.ty[0] == 'real': return Not(Eq(v.t, '0.0'))
        raise Untranslatable('truth of %s' % (v,))

    def asint(self, v):
        if v.ty[0] == 'bool': return Ite(v.t, '1', '0')
        if v.ty[0] == 'real': raise Untranslatable('real to int')
        return v.t

    def asreal(self, v):
        if v.ty[0] == 'real': return v.t
        t = self.asint(v)
        if is_num(t): return str(val(t)) + '.0' if val(t) >= 0 else '(- %d.0)' % -val(t)
        return '(to_real %s)' % t

    def rv(self, st, x):
        if isinstance(x, (LV, CLV)):
            if x.ty[0] == 'own': return V(self.read(st, LVn(x)).t, x.ty, base=x, off='0')
            return self.read(st, x)
        return x

    def eval(self, n, st, fr):
        """rvalue of an expression (aggregates come back as LV)"""
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Untranslatable('expression %s at line %s' % (k, n.get('_line')))
        return m(n, st, fr)

    def ev(self, n, st, fr):
        return self.rv(st, self.eval(n, st, fr))

    # leaves
    def e_IntegerLiteral(self, n, st, fr): return V(num(int(n['value'])), INT)
    def e_CXXBoolLiteralExpr(self, n, st, fr): return V('true' if n['value'] else 'false', BOOL)
    def e_CharacterLiteral(self, n, st, fr): return V(num(n['value']), INT)
    def e_FloatingLiteral(self, n, st, fr):
        from fractions import Fraction
        f = Fraction(str(float(n['value'])))
        return V('(/ %d.0 %d.0)' % (f.numerator, f.denominator) if f.denominator != 1 else ('%d.0' % f.numerator), REAL)
    def e_GNUNullExpr(self, n, st, fr): return V('0', ('null',))
    def e_CXXNullPtrLiteralExpr(self, n, st, fr): return V('0', ('null',))
    def e_StringLiteral(self, n, st, fr):
        import ast as _a
        s = n['value']
        try: s = _a.literal_eval(s)
        except Exception: s = s[1:-1]
        return V('0', ('cstr',), data=s)

    def pass1(self, n, st, fr): return self.eval(n['inner'][-1], st, fr)
    e_ParenExpr = pass1
    e_ExprWithCleanups = pass1
    e_MaterializeTemporaryExpr = pass1
    e_CXXBindTemporaryExpr = pass1
    e_ConstantExpr = pass1
    e_CXXDefaultArgExpr = lambda self, n, st, fr: V('0', ('default',))
    def e_CXXDefaultInitExpr(self, n, st, fr): raise Untranslatable('default member initializer')

    def e_CXXThisExpr(self, n, st, fr):
        return fr.this

    def e_ImplicitCastExpr(self, n, st, fr):
        ck = n['castKind']
        x = n['inner'][0]
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'ConstructorConversion', 'BuiltinFnToFnPtr', 'UserDefinedConversion', 'ArrayToPointerDecay'):
            v = self.eval(x, st, fr)
            if ck == 'ArrayToPointerDecay' and isinstance(v, (LV, CLV)) and v.ty[0] == 'arr':
                return V(None, ('ptr', v.ty[1]), v, '0')
            return v
        if ck == 'LValueToRValue':
            v = self.eval(x, st, fr)
            return self.rv(st, v)
        v = self.rv(st, self.eval(x, st, fr))
        if ck == 'IntegralCast':
            to = ctype(n)
            if to == ('int', 'u') and v.ty[0] == 'int' and v.ty != ('int', 'u') and not (is_num(v.t) and val(v.t) >= 0):
                self.arith(st, 'conversion to unsigned of a non-negative value', cmpop('>=', v.t, '0'))
            if v.ty[0] == 'bool': return V(Ite(v.t, '1', '0'), to)
            return V(v.t, to if to[0] == 'int' else v.ty)
        if ck == 'IntegralToBoolean': return V(self.truth(v), BOOL)
        if ck == 'PointerToBoolean': return V(self.truth(v), BOOL)
        if ck == 'IntegralToFloating': return V(self.asreal(v), REAL)
        if ck == 'FloatingToBoolean': return V(self.truth(v), BOOL)
        if ck == 'FloatingCast': return v
        if ck == 'NullToPointer': return V('0', ('null',))
        if ck == 'FloatingToIntegral':
            return V('(ite (>= %s 0.0) (to_int %s) (- (to_int (- %s))))' % (v.t, v.t, v.t), INT)
        if ck == 'ToVoid': return v
        if ck == 'BitCast': return v
        raise Untranslatable('cast %s line %s' % (ck, n.get('_line')))
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr

    def e_DeclRefExpr(self, n, st, fr):
        d = n['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            for e in self.prog.enums.values():
                for c in e.get('inner', []):
                    if c.get('name') == d['name'] and c.get('kind') == 'EnumConstantDecl' : return V(num(c['_value']), INT)
            if d['name'] in ('in', 'out', 'trunc', 'app'): return V('0', INT)
            raise Untranslatable('enum constant %s' % d['name'])
        f = fr
        if d['id'] in fr.env:
            return self.binding(fr.env[d['id']], st)
        if d['name'] in ('cout', 'cerr', 'cin', 'endl', 'flush'): return V('true', ('stream', d['name']))
        if d['name'] in self.globalty:
            ty = self.globalty[d['name']]
            lv = LV('g.' + d['name'], (), ty)
            self.declare_root(lv.root, ty, 0)
            return lv
        raise Untranslatable('reference to %s' % d.get('name'))

    def binding(self, b, st):
        if b[0] == 'lv': return b[1]
        if b[0] == 'val': return b[1]
        if b[0] == 'ptr':
            v = st.ptrs.get(b[1])
            if v is None: raise Untranslatable('pointer %s used before it is set' % b[1])
            return V(v.t, v.ty, v.base, v.off, data=('ptrvar', b[1]))
        if b[0] == 'stream': return V('true', ('stream', b[1]), data=b[2])
        raise Untranslatable('binding')

    def e_MemberExpr(self, n, st, fr):
        name = n.get('name')
        base = self.eval(n['inner'][0], st, fr)
        return self.member(st, base, name, n)

    def member(self, st, base, name, n=None):
        ty = base.ty
        if isinstance(base, (LV, CLV)) and ty[0] in ('ref', 'single'):
            base = self.read(st, base); ty = base.ty
        if ty[0] == 'single':
            fty = self.fieldty.get((ty[1], name))
            if fty is None: raise Untranslatable('member %s.%s' % (ty[1], name))
            root = '%s.%s' % (ty[1], name)
            lv = LV(root, (), fty if fty[0] != 'cptr' else ('cptr',))
            self.declare_root2(root, fty, 0)
            return lv
        if ty[0] in ('ref', 'obj'):
            cls = ty[1]
            fty = self.fieldty.get((cls, name))
            if fty is None: raise Untranslatable('member %s.%s' % (cls, name))
            if ty[0] == 'ref':
                self.safe(st, 'access to a live %s' % cls, And(Not(Eq(base.t, '0')), Sel(self.get(st, 'alloc:' + cls), base.t)))
            root = '%s.%s' % (cls, name)
            self.declare_root2(root, fty, 1)
            return LV(root, (base.t,), fty)
        if ty[0] == 'struct':
            fty = dict(VALUE_STRUCTS[ty[1]]).get(name)
            if fty is None: raise Untranslatable('member %s.%s' % (ty[1], name))
            if isinstance(base, (LV, CLV)):
                return lv_field(base, (ty[1], name), fty)
            return V(self.acc(ty[1], name, base.t), fty)
        raise Untranslatable('member %s of %s' % (name, ty))

    def acc(self, s, f, t):
        if t.startswith('(mk.%s ' % s):
            parts = split_app(t)[1:]
            names = [x for x, _ in VALUE_STRUCTS[s]]
            return parts[names.index(f)]
        return '(%s.%s %s)' % (s, f, t)

    def declare_root2(self, root, fty, dims):
        if fty[0] == 'cptr': self.rootinfo.setdefault(root, arr_sort(dims, 'Int'))
        else: self.declare_root(root, fty, dims)

    def e_ArraySubscriptExpr(self, n, st, fr):
        b = self.eval(n['inner'][0], st, fr)
        i = self.ev(n['inner'][1], st, fr)
        return self.subscript(st, b, i)

    def subscript(self, st, b, i):
        if isinstance(b, V) and b.base is not None:
            return self.deref_ptr(st, b, i.t)
        if isinstance(b, (LV, CLV)) and b.ty[0] in ('own', 'arr'):
            return self.deref_ptr(st, V(None, ('ptr', b.ty[1]), b, '0'), i.t)
        if b.ty[0] == 'argv':
            return V(Sel(b.t, i.t), ('cptr',))
        raise Untranslatable('subscript of %s' % (b,))

    def bound(self, st, base):
        """number of elements of the container at base"""
        k = base.ty[0]
        if isinstance(base, CLV): return Ite(base.c, self.bound(st, base.a), self.bound(st, base.b))
        if k in ('vec', 'string'): return self.rd_scalar(st, base.root + '.len', base.idxs)
        if k == 'own': return self.rd_scalar(st, base.root + '.n', base.idxs)
        if k == 'arr': return num(base.ty[2])
        raise Untranslatable('bound of %s' % (base,))

    def deref_ptr(self, st, p, extra='0'):
        off = Add(p.off, extra)
        base = p.base
        if base is None: raise Untranslatable('dereference of an untracked pointer')
        ety = base.ty[1] if base.ty[0] != 'string' else INT
        if base.ty[0] == 'list': raise Untranslatable('list iterator')
        lim = self.bound(st, base)
        if base.ty[0] == 'string': lim = Add(lim, '1')
        self.safe(st, 'index inside its container', And(cmpop('<=', '0', off), cmpop('<', off, lim)))
        return base.elem(off, ety)

    def e_UnaryOperator(self, n, st, fr):
        op = n['opcode']; x = n['inner'][0]
        if op == '&':
            v = self.eval(x, st, fr)
            if isinstance(v, V) and v.ty[0] in ('single',): return v
            if isinstance(v, LV) and v.root.endswith('.el') and not v.path:
                # address of a container element
                base = LV(v.root[:-3], v.idxs[:-1], ('vec' if True else '', v.ty))
                return V(None, ('ptr', v.ty), getattr(v, 'cont', None) or self.container_of(v), v.idxs[-1])
            return V(None, ('addr',), v, '0')
        if op == '*':
            v = self.ev(x, st, fr)
            if v.ty[0] == 'addr': return v.base
            if v.base is None and v.ty[0] == 'ref': return V(v.t, ('obj', v.ty[1]))
            if v.base is None and v.ty[0] in ('single', 'struct'): return v
            return self.deref_ptr(st, v)
        if op in ('++', '--'):
            return self.incdec(x, op, n.get('isPostfix'), st, fr)
        v = self.ev(x, st, fr)
        if op == '!': return V(Not(self.truth(v)), BOOL)
        if op == '-':
            if v.ty[0] == 'real': return V('(- %s)' % v.t, REAL)
            return V(Neg(self.asint(v)), INT)
        if op == '+': return v
        raise Untranslatable('unary %s' % op)

    def container_of(self, v):
        root = v.root[:-3]
        for kind, chk in (('string', '.len'), ('vec', '.len'), ('own', '.n')):
            if (root + chk) in self.rootinfo:
                if kind == 'string' and root in getattr(self, 'stringroots', ()): return LV(root, v.idxs[:-1], ('string',))
                if kind != 'string': return LV(root, v.idxs[:-1], (kind, v.ty))
        raise Untranslatable('address of element')

    def incdec(self, x, op, post, st, fr):
        lv = self.eval(x, st, fr)
        if isinstance(lv, V):
            if lv.base is not None and lv.data and lv.data[0] == 'ptrvar':
                old = V(lv.t, lv.ty, lv.base, lv.off)
                new = V(lv.t, lv.ty, lv.base, Add(lv.off, '1') if op == '++' else Sub(lv.off, '1'))
                st.ptrs[lv.data[1]] = new
                return old if post else V(new.t, new.ty, new.base, new.off, data=lv.data)
            raise Untranslatable('increment of %s' % (lv,))
        old = self.read(st, lv)
        if lv.ty[0] == 'real': new = '(%s %s 1.0)' % ('+' if op == '++' else '-', old.t)
        else: new = (Add if op == '++' else Sub)(old.t, '1')
        old = V(self.name_term(st, 'o', base_sort(lv.ty), old.t), lv.ty) if post else old
        self.write(st, lv, new)
        return old if post else lv

    def arith_op(self, op, a, b, st):
        if a.ty[0] == 'real' or b.ty[0] == 'real':
            x, y = self.asreal(a), self.asreal(b)
            if op == '/':
                return V('(/ %s %s)' % (x, y), REAL)
            return V('(%s %s %s)' % (op, x, y), REAL)
        x, y = self.asint(a), self.asint(b)
        u = a.ty == ('int', 'u') or b.ty == ('int', 'u')
        ty = ('int', 'u') if u else INT
        if op == '+': return V(Add(x, y), ty)
        if op == '-':
            if u: self.arith(st, 'unsigned subtraction does not wrap', cmpop('>=', x, y))
            return V(Sub(x, y), ty)
        if op == '*':
            if is_num(x) and is_num(y): return V(num(val(x) * val(y)), ty)
            return V('(* %s %s)' % (x, y), ty)
        if op == '/':
            self.safe(st, 'division by a nonzero value', Not(Eq(y, '0')))
            return V('(cdiv %s %s)' % (x, y), ty)
        if op == '%':
            self.safe(st, 'remainder by a nonzero value', Not(Eq(y, '0')))
            if not is_num(y) and not self.dry and not getattr(self, 'inspec', 0):
                # what holds of a remainder by an unknown divisor, as far as the proofs need it
                r = self.fresh('rem', 'Int')
                self.assume(st, '(=> (and (>= %s 0) (> %s 0)) (and (<= 0 %s) (< %s %s) (<= %s %s)))' % (x, y, r, r, y, r, x), '#rem')
                return V(r, ty)
            return V('(cmod %s %s)' % (x, y), ty)
        raise Untranslatable('operator %s' % op)

    def compare(self, op, a, b, st):
        for p, q in ((a, b), (b, a)):
            if p.ty[0] == 'null':
                if q.ty[0] in ('ref', 'single', 'cptr', 'null'): t = Eq(q.t, '0')
                elif q.ty[0] == 'own': t = Eq(q.t, '(- 1)')
                elif q.base is not None: t = 'false'
                else: raise Untranslatable('null comparison')
                return V(t if op == '==' else Not(t), BOOL)
        if a.base is not None and b.base is not None:
            if op in ('==', '!='):
                if a.base.key() != b.base.key(): raise Untranslatable('comparison of iterators of different containers')
                t = Eq(a.off, b.off)
                return V(t if op == '==' else Not(t), BOOL)
            return V(cmpop(op, a.off, b.off), BOOL)
        if op in ('==', '!='):
            if a.ty[0] == 'real' or b.ty[0] == 'real': t = Eq(self.asreal(a), self.asreal(b))
            elif a.ty[0] == 'bool' and b.ty[0] == 'bool': t = Eq(a.t, b.t)
            elif a.ty[0] in ('struct', 'bitset'): t = Eq(a.t, b.t)
            else: t = Eq(self.asint(a), self.asint(b))
            return V(t if op == '==' else Not(t), BOOL)
        if a.ty[0] == 'real' or b.ty[0] == 'real': return V('(%s %s %s)' % (op, self.asreal(a), self.asreal(b)), BOOL)
        return V(cmpop(op, self.asint(a), self.asint(b)), BOOL)

    def e_BinaryOperator(self, n, st, fr):
        op = n['opcode']; l, r = n['inner']
        if op == '=': return self.assign(l, r, st, fr)
        if op == ',':
            self.eval(l, st, fr); return self.eval(r, st, fr)
        if op in ('&&', '||'):
            a = self.truth(self.ev(l, st, fr))
            a = self.name_term(st, 'b', 'Bool', a)
            s2 = st.copy()
            cond = a if op == '&&' else Not(a)
            if cond == 'false': return V(a, BOOL)
            self.assume_pc(s2, cond)
            b = self.truth(self.ev(r, s2, fr))
            s1 = st.copy(); self.assume_pc(s1, Not(cond))
            m = self.merge(st, [s1, s2]) if cond != 'true' else s2
            if s2.alive is False: m = s1
            self.become(st, m)
            return V(And(a, b) if op == '&&' else Or(a, b), BOOL)
        a = self.ev(l, st, fr); b = self.ev(r, st, fr)
        if op in ('==', '!=', '<', '<=', '>', '>='): return self.compare(op, a, b, st)
        # pointer arithmetic
        if a.base is not None and op in ('+', '-') and b.base is None:
            return V(None, a.ty, a.base, (Add if op == '+' else Sub)(a.off, b.t))
        if a.base is not None and b.base is not None and op == '-':
            return V(Sub(a.off, b.off), INT)
        if a.ty[0] == 'bool' and b.ty[0] == 'bool' and op in ('&', '|', '^'):
            return V({'&': And, '|': Or}[op](a.t, b.t) if op != '^' else Not(Eq(a.t, b.t)), BOOL)
        return self.arith_op(op, a, b, st)

    def become(self, st, m):
        st.comps = m.comps; st.ptrs = m.ptrs; st.facts = m.facts; st.pc = m.pc; st.alive = m.alive

    def e_ConditionalOperator(self, n, st, fr):
        c, a, b = n['inner']
        cv = self.truth(self.ev(c, st, fr))
        if cv == 'true': return self.eval(a, st, fr)
        if cv == 'false': return self.eval(b, st, fr)
        cv = self.name_term(st, 'b', 'Bool', cv)
        s1 = st.copy(); self.assume_pc(s1, cv); va = self.eval(a, s1, fr)
        s2 = st.copy(); self.assume_pc(s2, Not(cv)); vb = self.eval(b, s2, fr)
        m = self.merge(st, [s1, s2])
        self.become(st, m)
        if isinstance(va, (LV, CLV)) and isinstance(vb, (LV, CLV)) and va.ty[0] in ('vec', 'own', 'arr', 'list', 'string'):
            return CLV(cv, va, vb)
        if isinstance(va, (LV, CLV)) and isinstance(vb, (LV, CLV)) and n.get('valueCategory') == 'lvalue': return CLV(cv, va, vb)
        va = self.rv(st, va); vb = self.rv(st, vb)
        if va.base is not None: return self.ite_ptr(st, cv, va, vb)
        if va.ty[0] == 'cstr': return V('0', ('cstr',), data=(cv, va.data, vb.data))
        ty = va.ty if va.ty[0] != 'null' else vb.ty
        if va.ty[0] == 'real' or vb.ty[0] == 'real': return V(Ite(cv, self.asreal(va), self.asreal(vb)), REAL)
        return V(Ite(cv, va.t, vb.t), ty)

    def e_CompoundAssignOperator(self, n, st, fr):
        op = n['opcode'][:-1]; l, r = n['inner']
        lv = self.eval(l, st, fr); b = self.ev(r, st, fr)
        if isinstance(lv, V) and lv.base is not None and lv.data:
            st.ptrs[lv.data[1]] = V(lv.t, lv.ty, lv.base, (Add if op == '+' else Sub)(lv.off, b.t))
            return self.binding(('ptr', lv.data[1]), st)
        a = self.read(st, lv)
        if lv.ty[0] == 'bool' and op in ('&', '|'):
            bt = self.truth(b); self.write(st, lv, (And if op == '&' else Or)(a.t, bt)); return lv
        v = self.arith_op(op, a, b, st)
        self.store(st, lv, v)
        return lv

    def assign(self, l, r, st, fr):
        # assignments of pointer variables
        ln = l
        while ln['kind'] in ('ParenExpr',): ln = ln['inner'][0]
        rn = strip(r)
        if ln['kind'] == 'DeclRefExpr' and ln['referencedDecl']['id'] in fr.env and fr.env[ln['referencedDecl']['id']][0] == 'ptr':
            v = self.ev(r, st, fr)
            if v.ty[0] == 'null': raise Untranslatable('null in a tracked pointer')
            st.ptrs[fr.env[ln['referencedDecl']['id']][1]] = V(v.t, v.ty, v.base, v.off)
            return v
        if rn['kind'] == 'CXXNewExpr' and rn.get('isArray'):
            lv = self.eval(l, st, fr)
            self.new_array(rn, lv, st, fr)
            return lv
        rvv = self.eval(r, st, fr)
        lv = self.eval(l, st, fr)
        self.store(st, lv, rvv)
        return lv

    def store(self, st, lv, v):
        if isinstance(lv, V):
            raise Untranslatable('assignment to a temporary')
        k = lv.ty[0]
        if k in ('vec', 'list', 'string', 'set', 'arr'):
            if isinstance(v, V): raise Untranslatable('aggregate assignment')
            self.copy_agg(st, lv, v, lv.ty); return
        if k == 'own':
            v = v if isinstance(v, V) else self.rv(st, v)
            if v.ty[0] == 'null':
                self.write(st, LVn(lv), '(- 1)'); return
            raise Untranslatable('copy of an owning pointer')
        v = self.rv(st, v)
        self.write(st, lv, self.coerce(v, lv.ty))

    def coerce(self, v, ty):
        k = ty[0]
        if k == 'bool': return self.truth(v) if v.ty[0] != 'bool' else v.t
        if k == 'int': return self.asint(v) if v.ty[0] != 'real' else '(to_int %s)' % v.t
        if k == 'real': return self.asreal(v)
        if v.ty[0] == 'null': return '0'
        if v.t is None: raise Untranslatable('storing a pointer')
        return v.t

    # ---- allocation -----------------------------------------------------
    def e_CXXNewExpr(self, n, st, fr):
        if n.get('isArray'): raise Untranslatable('new[] not assigned to an owner')
        ty = ctype(n)
        ctor = n['inner'][-1] if n.get('inner') else None
        if ty[0] == 'single':
            if ctor is not None and ctor['kind'] == 'CXXConstructExpr':
                self.call_ctor(ctor, V('1', ty), ty[1], st, fr)
            return V('1', ty)
        if ty[0] != 'ref': raise Untranslatable('new of %s' % (ty,))
        cls = ty[1]
        r = self.fresh('new' + cls, 'Int')
        al = self.get(st, 'alloc:' + cls)
        self.assume(st, cmpop('>', r, '0'))
        self.assume(st, Not(Sel(al, r)))
        self.setc(st, 'alloc:' + cls, Sto(al, r, 'true'))
        if ctor is not None and ctor['kind'] == 'CXXConstructExpr':
            self.call_ctor(ctor, V(r, ty), cls, st, fr)
        return V(r, ty)

    def default_fields(self, st, cls, this):
        for f, _ in self.prog.fields[cls]:
            fty = self.fieldty[(cls, f)]
            root = '%s.%s' % (cls, f)
            dims = 1 if cls in HEAP else 0
            self.declare_root2(root, fty, dims)
            lv = LV(root, (this.t,) if dims else (), fty)
            if fty[0] in ('vec', 'list', 'string', 'set', 'arr', 'struct', 'bitset'):
                if fty[0] == 'struct':
                    self.write(st, lv, self.default_struct(fty[1]))
                else: self.init_agg(st, lv, fty)
            elif fty[0] == 'own':
                # uninitialised pointer: unknown
                self.write(st, LVn(lv), self.fresh('uninit', 'Int'))
            else:
                b = 'Int' if fty[0] == 'cptr' else base_sort(fty)
                self.write(st, lv, self.fresh('uninit', b))

    def find_ctor(self, n, cls):
        t = n.get('ctorType', {}).get('qualType')
        for f in self.prog.by_qname.get(cls + '::' + cls, []):
            if f.node['type']['qualType'] == t: return f
        nargs = len([a for a in n.get('inner', [])])
        return self.ctor_of(cls, nargs)

    def ctor_of(self, cls, nargs):
        for f in self.prog.by_qname.get(cls + '::' + cls, []):
            if len(f.params) == nargs: return f
        return None

    def call_ctor(self, n, this, cls, st, fr):
        f = self.find_ctor(n, cls)
        args = n.get('inner', [])
        self.default_fields(st, cls, this)
        if f is None:
            if args: raise Untranslatable('constructor of %s' % cls)
            return
        self.call_func(f, args, this, st, fr)

    def new_array(self, n, lv, st, fr):
        size = None
        for x in n['inner']:
            if ctype(x)[0] == 'int' and x['kind'] != 'CXXConstructExpr': size = x; break
        if size is None: raise Untranslatable('new[] size')
        sz = self.ev(size, st, fr)
        self.safe(st, 'array size is not negative', cmpop('>=', sz.t, '0'))
        if lv.ty[0] != 'own': raise Untranslatable('new[] into %s' % (lv.ty,))
        self.init_agg(st, lv, lv.ty)
        self.write(st, LVn(lv), sz.t)

    def e_CXXDeleteExpr(self, n, st, fr):
        v = self.ev(n['inner'][0], st, fr)
        if v.ty[0] == 'own':
            return V('0', ('void',))
        if v.ty[0] != 'ref':
            return V('0', ('void',))
        cls = v.ty[1]
        al = self.get(st, 'alloc:' + cls)
        self.safe(st, 'delete of a live %s' % cls, Or(Eq(v.t, '0'), Sel(al, v.t)))
        if 'safe' in self.layers or True:
            d = self.prog.func('%s::~%s' % (cls, cls))
            if d is not None and cls == 'Clause':
                self.call_func(d, [], V(v.t, ('ref', cls)), st, fr)
        al = self.get(st, 'alloc:' + cls)
        self.setc(st, 'alloc:' + cls, Sto(al, v.t, 'false'))
        return V('0', ('void',))

    # ---- construction of values -----------------------------------------
    def e_CXXConstructExpr(self, n, st, fr):
        ty = ctype(n); args = n.get('inner', [])
        if ty[0] == 'struct':
            ct = n.get('ctorType', {}).get('qualType', '')
            if len(args) == 1 and re.match(r'void \((const )?%s (&|&&)\)' % ty[1], ct):
                return self.rv(st, self.eval(args[0], st, fr))
            f = self.find_ctor(n, ty[1])
            if f is None:
                if args: raise Untranslatable('constructor of %s' % ty[1])
                return V(self.default_struct(ty[1]), ty)
            vals = [self.rv(st, self.eval(a, st, fr)) for a in args]
            return self.construct_struct(ty[1], f, vals, st, fr)
        if ty[0] in ('iter',):
            if not args: return V('uninit', ty)
            return self.ev(args[0], st, fr)
        if ty[0] in ('vec', 'list', 'string', 'set'):
            if args:
                a = self.eval(args[0], st, fr)
                if isinstance(a, (LV, CLV)) and a.ty[0] == ty[0]: return a
                if ty[0] == 'vec' and ctype(args[0])[0] == 'int':
                    tmp = self.new_local('tmpv', ty)
                    self.init_agg(st, tmp, ty, zero=True)
                    self.write(st, LV(tmp.root + '.len', (), INT), self.rv(st, a).t)
                    if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr':
                        x = self.ev(args[1], st, fr)
                        s = scal(ty[1])
                        if len(s) != 1: raise Untranslatable('vector fill')
                        self.setc(st, tmp.root + '.el', const_arr(1, s[0][2], self.coerce(x, ty[1])))
                    return tmp
                if ty[0] == 'string': return V('0', ('cstr',), data=getattr(a, 'data', None))
                raise Untranslatable('container constructor')
            tmp = self.new_local('tmp', ty)
            self.init_agg(st, tmp, ty)
            return tmp
        if ty[0] == 'bitset':
            if args:
                a = self.ev(args[0], st, fr)
                if a.ty[0] == 'bitset': return a
                if is_num(a.t):
                    t = 'bzero'
                    for i in range(64):
                        if val(a.t) >> i & 1: t = '(bon %s %d)' % (t, i)
                    return V(t, ty)
                raise Untranslatable('bitset made from a number')
            return V('bzero', ty)
        if ty[0] == 'stream':
            for a in args: self.eval(a, st, fr)
            return V('true', ty)
        if len(args) == 1: return self.eval(args[0], st, fr)
        raise Untranslatable('construction of %s line %s' % (ty, n.get('_line')))
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_InitListExpr(self, n, st, fr):
        ty = ctype(n)
        if ty[0] == 'struct' and len(n.get('inner', [])) == len(VALUE_STRUCTS[ty[1]]):
            vals = [self.ev(a, st, fr) for a in n['inner']]
            return V('(mk.%s %s)' % (ty[1], ' '.join(self.coerce(v, t) for v, (_, t) in zip(vals, VALUE_STRUCTS[ty[1]]))), ty)
        if len(n.get('inner', [])) == 1: return self.eval(n['inner'][0], st, fr)
        raise Untranslatable('initializer list')

    def construct_struct(self, name, f, vals, st, fr):
        tmp = self.new_local('obj' + name, ('struct', name))
        fs = VALUE_STRUCTS[name]
        self.setc(st, tmp.root, '(mk.%s %s)' % (name, ' '.join(self.default_scalar(t) for _, t in fs)), named=False)
        self.call_body(f, vals, tmp, st, fr)
        v = self.read(st, tmp)
        return V(self.expand_mk(st, v.t, name), v.ty)

    def expand_mk(self, st, t, name):
        # resolve a definition chain so that field accesses simplify
        if t.startswith('(mk.'): return t
        for f in reversed(st.facts):
            if isinstance(f, Def) and f.name == t:
                if f.term.startswith('(mk.') and len(f.term) < 400: return f.term
                break
        return t

    def new_local(self, base, ty):
        self.n += 1
        root = 'L.%s.%d' % (base, self.n)
        self.declare_root(root, ty, 0)
        if ty[0] == 'string':
            if not hasattr(self, 'stringroots'): self.stringroots = set()
            self.stringroots.add(root)
        return LV(root, (), ty)

    # ---- calls -------------------------------------------------------------
    def e_CallExpr(self, n, st, fr):
        callee = strip(n['inner'][0]); args = n['inner'][1:]
        if callee['kind'] != 'DeclRefExpr': raise Untranslatable('indirect call')
        d = callee['referencedDecl']
        decl = fr.func.tu.ids.get(d['id'], d) if fr.func else d
        f = self.resolve(decl, d)
        if f is not None:
            return self.call_func(f, args, None, st, fr)
        import builtins_ as B
        return B.call(self, d['name'], args, n, st, fr)

    def resolve(self, decl, d):
        mg = decl.get('mangledName')
        f = self.prog.by_key.get(mg) if mg else None
        if f is None and not mg:
            qs = self.prog.by_qname.get(decl.get('_qname') or decl.get('name'), [])
            if len(qs) == 1: f = qs[0]
        return f

    def e_CXXMemberCallExpr(self, n, st, fr):
        me = strip(n['inner'][0]); args = n['inner'][1:]
        if me['kind'] != 'MemberExpr': raise Untranslatable('member call')
        decl = fr.func.tu.ids.get(me.get('referencedMemberDecl'))
        base_n = me['inner'][0]
        if decl is not None:
            f = self.resolve(decl, decl)
            if f is not None:
                this = self.eval(base_n, st, fr)
                if isinstance(this, (LV, CLV)) and this.ty[0] in ('ref', 'single'): this = self.read(st, this)
                if isinstance(this, V) and this.ty[0] == 'obj': this = V(this.t, ('ref', this.ty[1]))
                if this.ty[0] == 'ref': self.safe(st, 'call on a live object', And(Not(Eq(this.t, '0')), Sel(self.get(st, 'alloc:' + this.ty[1]), this.t)))
                return self.call_func(f, args, this, st, fr)
        base = self.eval(base_n, st, fr)
        import builtins_ as B
        return B.method(self, base, me['name'], args, n, st, fr)

    def e_CXXOperatorCallExpr(self, n, st, fr):
        callee = strip(n['inner'][0]); args = n['inner'][1:]
        d = callee['referencedDecl']
        decl = fr.func.tu.ids.get(d['id'], d)
        f = self.resolve(decl, d)
        if f is not None:
            if f.cls and not f.static:
                this = self.eval(args[0], st, fr)
                return self.call_func(f, args[1:], this, st, fr)
            return self.call_func(f, args, None, st, fr)
        import builtins_ as B
        return B.operator(self, d['name'], args, n, st, fr)

    def find_spec(self, f):
        return self.spec.fns.get('%s/%d' % (f.qname, len(f.params))) or self.spec.fns.get(f.qname)

    def spec_for(self, f):
        s = self.find_spec(f)
        if s is None: return None
        if s.opts.get('inline'): return None
        if 'contract' in s.opts or s.get('requires', self.layers) or s.get('ensures', self.layers): return s
        return None

    def call_func(self, f, args, this, st, fr):
        """args: AST nodes"""
        vals = []
        for p, a in zip(f.params, args):
            pt = p['type']['qualType']
            v = self.eval(a, st, fr)
            isref = pt.strip().endswith('&')
            if isref and isinstance(v, (LV, CLV)): vals.append(v)
            elif isinstance(v, (LV, CLV)):
                if v.ty[0] in ('vec', 'list', 'string', 'set'):
                    if v.ty[0] == 'string': vals.append(v); continue
                    tmp = self.new_local(p.get('name', 'arg'), v.ty); self.copy_agg(st, tmp, v, v.ty); vals.append(tmp)
                else: vals.append(self.rv(st, v))
            else: vals.append(v)
        return self.call_vals(f, vals, this, st, fr)

    def call_vals(self, f, vals, this, st, fr):
        sp = self.spec_for(f)
        if sp is not None and not (self.opts.get('force_inline') and f.qname in self.opts['force_inline']):
            return self.call_contract(f, sp, vals, this, st, fr)
        if f.qname in self.trusted_fns():
            return self.trusted_fns()[f.qname](self, vals, st, fr)
        return self.call_body(f, vals, this, st, fr)

    def trusted_fns(self):
        import builtins_ as B
        return B.TRUSTED

    def call_body(self, f, vals, this, st, fr):
        depth = 0; x = fr
        while x is not None:
            if x.func is f: raise Untranslatable('recursive function %s has no contract' % f.qname)
            x = x.parent
        self.inlined.add(f.qname)
        nf = Frame(f, fr, this)
        self.bind_params(nf, f, vals, st)
        self.stackq.append(f.qname)
        saved = self.line
        try:
            for ini in f.inits: self.ctor_init(ini, nf, st)
            outs = self.run_body(f, nf, st)
        finally:
            self.stackq.pop(); self.line = saved
        return self.join_returns(f, st, outs)

    def ctor_init(self, ini, fr, st):
        m = ini.get('anyInit') or {}
        if not m or not ini.get('inner'): raise Untranslatable('constructor initializer')
        e = ini['inner'][0]
        if fr.this.ty[0] == 'struct': lv = self.member(st, fr.this, m['name'])
        else: lv = self.member(st, fr.this, m['name'])
        if e['kind'] == 'CXXConstructExpr' and lv.ty[0] in ('vec', 'list', 'string', 'set') and not e.get('inner'): return
        if e['kind'] == 'CXXConstructExpr' and lv.ty[0] == 'arr': return
        if e['kind'] in ('ImplicitValueInitExpr',): return
        ee = strip(e)
        if ee['kind'] == 'CXXNewExpr' and ee.get('isArray'):
            self.new_array(ee, lv, st, fr); return
        v = self.eval(e, st, fr)
        self.store(st, lv, v)

    def bind_params(self, nf, f, vals, st):
        for p, v in zip(f.params, vals):
            nm = p.get('name')
            pid = p['id']
            pty = ctype(p)
            isref = p['type']['qualType'].strip().endswith('&')
            if isinstance(v, (LV, CLV)):
                nf.env[pid] = ('lv', v)
            elif v.ty[0] in ('cstr', 'argv', 'stream') :
                nf.env[pid] = ('val', v)
            elif v.base is not None:
                self.n += 1
                key = 'P.%s.%d' % (nm, self.n)
                st.ptrs[key] = V(v.t, v.ty, v.base, v.off); nf.env[pid] = ('ptr', key)
            else:
                ty = pty if pty[0] not in ('unknown', 'ptr') else v.ty
                if ty[0] == 'ref' and v.ty[0] == 'obj': pass
                if pty[0] == 'ptr' and v.ty[0] == 'cptr': ty = ('cptr',)
                if ty[0] == 'obj': nf.env[pid] = ('val', V(v.t, ('ref', ty[1]))); 
                elif ty[0] == 'single': nf.env[pid] = ('val', v)
                elif ty[0] == 'cptr': nf.env[pid] = ('val', v)
                else:
                    lv = self.new_local(nm or 'arg', ty)
                    t = self.coerce(v, ty)
                    self.setc(st, lv.root, t)
                    nf.env[pid] = ('lv', lv)
            if nm: nf.names[nm] = nf.env[pid]

    def run_body(self, f, fr, st):
        """returns list of (state, value) at returns"""
        s = st.copy()
        if f.body is not None: f.body['_top'] = True
        outs = self.exec(f.body, [s], fr)
        rets = list(outs['return'])
        for x in outs['normal']: rets.append((x, None))
        return [(x, v) for x, v in rets if x.alive]

    def join_returns(self, f, st, rets):
        rt = parse_type(f.rettype)
        if not rets:
            st.alive = False
            return V(self.fresh('dead', base_sort(rt)) if rt[0] not in ('void', 'unknown') else '0', rt)
        if len(rets) == 1:
            self.become(st, rets[0][0])
            v = rets[0][1]
            if v is None and rt[0] != 'void' and not f.qname.split('::')[-1] == (f.cls or ''):
                v = V(self.fresh('noreturn', base_sort(rt)), rt) if rt[0] != 'unknown' else V('0', rt)
            return v if v is not None else V('0', ('void',))
        m = self.merge(st, [s for s, _ in rets])
        conds = self.last_conds
        vals = [v for _, v in rets]
        self.become(st, m)
        if rt[0] == 'void': return V('0', ('void',))
        if all(isinstance(v, (LV, CLV)) for v in vals) and len({v.key() for v in vals}) == 1: return vals[0]
        fixed = []
        for (s, _), v in zip(rets, vals):
            if v is None: v = V(self.fresh('noreturn', base_sort(rt)), rt)
            if isinstance(v, (LV, CLV)): v = self.rv(s, v)
            fixed.append(v)
        if any(v.base is not None for v in fixed): return self.merge_ptr(st, conds, fixed)
        t = self.coerce(fixed[-1], rt) if rt[0] != 'unknown' else fixed[-1].t
        for c, v in list(zip(conds, fixed))[-2::-1]: t = Ite(c, self.coerce(v, rt) if rt[0] != 'unknown' else v.t, t)
        t = self.name_term(st, 'ret', base_sort(rt), t)
        return V(t, rt if rt[0] != 'unknown' else fixed[-1].ty)

    # ---- contracts ---------------------------------------------------------
    def param_env(self, f, sp, vals, this):
        env = {}
        names = getattr(sp, 'params', None)
        if names is None: names = [p.get('name') for p in f.params]
        if len(names) != len(f.params): raise Untranslatable('parameters of %s changed' % f.qname)
        for nm, v in zip(names, vals): env[nm] = v
        if this is not None: env['this'] = this
        return env

    def modset(self, f):
        """components a call of f may change (by running its body on an unknown state)"""
        key = f.key
        if key in self.modcache: return self.modcache[key]
        self.modcache[key] = frozenset()
        saved = (self.stackq, self.line, self.curfn)
        self.stackq = [f.qname]
        self.dry += 1
        try:
            while True:
                st = State()
                fr = Frame(f, None, self.entry_this(f))
                vals = self.entry_args(f, st)
                self.bind_params(fr, f, vals, st)
                base = dict(st.comps)
                for ini in f.inits: self.ctor_init(ini, fr, st)
                outs = self.run_body(f, fr, st)
                mods = set()
                for s, _ in outs:
                    for c, t in s.comps.items():
                        if c.startswith('L.'): continue
                        if t != c.replace(':', '.') + '!0': mods.add(c)
                sp = self.find_spec(f)
                if sp: mods |= {'ghost.' + c.label for k in ('set', 'step') for c in sp.get(k, self.layers)}
                mods = frozenset(mods)
                if mods == self.modcache[key]: break
                self.modcache[key] = self.modcache[key] | mods
        finally:
            self.dry -= 1
            self.stackq, self.line, self.curfn = saved
        return self.modcache[key]

    def entry_this(self, f):
        if f.cls is None or f.static: return None
        if f.cls in SINGLE: return V('1', ('single', f.cls))
        if f.cls in HEAP:
            self.decls.setdefault('this!0', 'Int')
            return V('this!0', ('ref', f.cls))
        self.declare_root('L.this', ('struct', f.cls), 0)
        return LV('L.this', (), ('struct', f.cls))

    def entry_args(self, f, st):
        vals = []
        for p in f.params:
            ty = ctype(p); nm = p.get('name') or 'p'
            q = p['type']['qualType']
            if q.replace(' ', '') in ('char**', 'char*const*', 'char*[]'):
                t = self.fresh('argv', '(Array Int Int)'); vals.append(V(t, ('argv',))); continue
            if ty == ('ptr', INT) and 'char' in q:
                vals.append(V(self.fresh('p_' + nm, 'Int'), ('cptr',))); continue
            if ty[0] == 'single': vals.append(V('1', ty)); continue
            if ty[0] == 'string': vals.append(V(self.fresh('str', 'Int'), ('cstr',), data=None)); continue
            if q.strip().endswith('&') and 'const' not in q and ty[0] not in ('stream',):
                lv = LV('A.%s' % nm, (), ty); self.declare_root('A.%s' % nm, ty, 0); vals.append(lv); continue
            if ty[0] in ('vec', 'list', 'set'):
                lv = self.new_local(nm, ty); vals.append(lv); continue
            if ty[0] == 'stream': vals.append(V('true', ty, data='param')); continue
            if ty[0] == 'unknown' or ty[0] == 'ptr': raise Untranslatable('parameter %s of %s' % (nm, f.qname))
            vals.append(V(self.fresh('p_' + nm, base_sort(ty)), ty))
        return vals

    def call_contract(self, f, sp, vals, this, st, fr):
        import specev
        self.used_contracts.add(f.qname)
        vals2 = []
        for v in vals:
            if isinstance(v, LV) and v.root.startswith('L.') is False and not isinstance(v, V): vals2.append(v)
            elif isinstance(v, V) and v.t is not None and len(v.t) > 40 and v.ty[0] in ('int', 'bool', 'ref', 'struct', 'real'):
                vals2.append(V(self.name_term(st, 'arg', base_sort(v.ty), v.t), v.ty))
            else: vals2.append(v)
        vals = vals2
        # coerce to the parameter types
        cv = []
        for p, v in zip(f.params, vals):
            pt = ctype(p)
            if isinstance(v, V) and pt[0] in ('int', 'bool', 'real') : v = V(self.coerce(v, pt), pt)
            cv.append(v)
        vals = cv
        env = self.param_env(f, sp, vals, this)
        pre = st.copy()
        for c in sp.get('requires', self.layers):
            g = specev.boolx(self, c.expr, specev.Env(st, pre, env, self))
            self.check(st, 'pre', c.label, g, by=c.by, desc='%s requires %s' % (f.qname, c.label), assume=bool(self.opts.get('chain')))
        pre = st.copy()
        if sp.opts.get('opaque'):       # the body is not looked at: everything known so far is lost
            mods = {c for c in st.comps if not c.startswith('L.')} | {r for r in self.rootinfo if r.startswith('ghost.')}
            self.trusted.add(f.qname)
        else: mods = self.modset(f)
        for m in sorted(mods): self.havoc(st, m)
        rt = parse_type(f.rettype)
        res = None
        if rt[0] not in ('void', 'unknown'):
            if rt[0] == 'single': res = V('1', rt)
            else: res = V(self.fresh('res', base_sort(rt)), rt)
            env = dict(env); env['result'] = res
            if sp.opts.get('ret_ghost'): self.setc(st, 'ghost.' + sp.opts['ret_ghost'], res.t, named=False)
        for c in sp.get('ensures', self.layers):
            g = specev.boolx(self, c.expr, specev.Env(st, pre, env, self))
            self.assume(st, g, c.label)
        return res if res is not None else V('0', ('void',))

    def verify_function(self, f):
        import specev
        sp = self.find_spec(f)
        self.curfn = f.qname; self.stackq = [f.qname]; self.line = f.line
        self.loopcount = 0
        self.loopmap = {}
        st = State()
        this = self.entry_this(f)
        fr = Frame(f, None, this)
        vals = self.entry_args(f, st)
        penv = self.param_env(f, sp, vals, this)
        self.entry_env = penv
        self.bind_params(fr, f, vals, st)
        self.entry_state = State()
        for c in self.initial_facts(): st.facts.append(Fact(c))
        for c in sp.get('requires', self.layers):
            self.assume(st, specev.boolx(self, c.expr, specev.Env(st, st, penv, self)), c.label)
        if sp.opts.get('ctor'): self.default_fields(st, f.cls, this)
        self.cover(st, 'entry of ' + f.qname)
        self.base_state = st.copy()
        for ini in f.inits: self.ctor_init(ini, fr, st)
        rets = self.run_body(f, fr, st)
        rt = parse_type(f.rettype)
        k = 0
        ens = sp.get('ensures', self.layers)
        for s, v in rets:
            k += 1
            env = dict(penv)
            if rt[0] not in ('void', 'unknown'):
                if v is None: v = V(self.fresh('noreturn', base_sort(rt)), rt)
                v = self.rv(s, v)
                env['result'] = V(self.coerce(v, rt), rt) if rt[0] in ('int', 'bool', 'real', 'ref') else v
                if sp.opts.get('ret_ghost'): self.setc(s, 'ghost.' + sp.opts['ret_ghost'], env['result'].t, named=False)
            sets = []
            for c in sp.get('set', self.layers):        # ghost assignments at the end of the function
                if c.loop is not None: continue
                e = specev.Env(s, self.entry_state, env, self); e.frame = fr
                sets.append((c.label, specev.term(e, specev.ev(c.expr, e))))
            for g, t in sets: self.setc(s, 'ghost.' + g, t)
            if ens: self.cover(s, 'return %d of %s' % (k, f.qname))
            for c in ens:
                e = specev.Env(s, self.entry_state, env, self); e.frame = fr
                g = specev.boolx(self, c.expr, e)
                self.line = f.line
                self.check(s, 'post', c.label, g, by=c.by, desc='%s ensures %s (return %d)' % (f.qname, c.label, k), assume=bool(self.opts.get('chain')))
        return len(rets)

    def initial_facts(self):
        r = []
        for c in HEAP:
            if c in self.prog.classes and 'safe' in self.layers: r.append('(not (select alloc.%s!0 0))' % c); self.decls.setdefault('alloc.%s!0' % c, '(Array Int Bool)')
        return r

    def cover(self, st, desc):
        if self.dry or not st.alive: return
        self.covers.append(Oblig(kind='cover', label='cover', goal='false', hyps=list(st.facts), by=None, fn=self.curfn, line=self.line, desc=desc, stack=''))

    # ---- statements --------------------------------------------------------
    def exec(self, n, sts, fr):
        out = {'normal': [], 'break': [], 'continue': [], 'return': []}
        sts = [s for s in sts if s.alive]
        if n is None or not sts:
            out['normal'] = sts; return out
        k = n.get('kind')
        if n.get('_line'): self.line = n['_line']
        if k is None: out['normal'] = sts; return out
        m = getattr(self, 's_' + k, None)
        if m is not None: return m(n, sts, fr)
        for s in sts:
            if n.get('_line'): self.line = n['_line']
            self.eval(n, s, fr)
            if s.alive: out['normal'].append(s)
        return out

    def s_NullStmt(self, n, sts, fr): return {'normal': sts, 'break': [], 'continue': [], 'return': []}

    def s_CompoundStmt(self, n, sts, fr):
        out = {'normal': sts, 'break': [], 'continue': [], 'return': []}
        for c in n.get('inner', []):
            if not out['normal']: break
            if n.get('_top') and not self.dry and c.get('kind') not in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'): out['normal'] = self.cuts(c, out['normal'], fr)
            if not self.dry and c.get('kind') not in ('WhileStmt', 'ForStmt', 'DoStmt', 'CXXForRangeStmt'): self.sites(c, out['normal'], fr)
            o = self.exec(c, out['normal'], fr)
            out['normal'] = o['normal']
            for k in ('break', 'continue', 'return'): out[k] = out[k] + o[k]
        return out

    def own_callees(self, n):
        """names of the functions called in a statement, outside of blocks nested in it"""
        if '_own' not in n:
            r = set()
            def go(x):
                if x.get('kind') == 'CompoundStmt': return
                if x.get('kind') == 'MemberExpr' and x.get('name'): r.add(x['name'])
                elif x.get('kind') == 'DeclRefExpr': r.add((x.get('referencedDecl') or {}).get('name'))
                for y in x.get('inner', []): go(y)
            go(n); n['_own'] = r
        return n['_own']

    def sites(self, n, sts, fr):
        """site clauses of the contract: checked before the innermost statement that holds the call, and known from there on"""
        import specev, loops
        if not (fr.func and fr.func.qname == self.curfn): return
        sp = self.find_spec(fr.func)
        for c in (sp.get('site', self.layers) if sp else []):
            if c.loop not in self.own_callees(n): continue
            for s in sts:
                e = specev.Env(s, self.entry_state, loops.env_values(self, s, fr), self)
                e.entry = self.entry_state; e.entry_env = self.entry_env; e.old_env = self.entry_env
                try: v = specev.boolx(self, c.expr, e)
                except Untranslatable: continue
                self.check(s, 'cut', c.label, v, by=c.by, desc='before %s: %s' % (c.loop, c.label), assume=True)

    def callees(self, n):
        """names of the functions called inside a statement"""
        if '_callees' not in n:
            r = set()
            for x in walk(n):
                if x.get('kind') == 'MemberExpr' and x.get('name'): r.add(x['name'])
                elif x.get('kind') == 'DeclRefExpr': r.add((x.get('referencedDecl') or {}).get('name'))
            n['_callees'] = r
        return n['_callees']

    def cuts(self, n, sts, fr):
        """intermediate assertions of the contract: checked here, and nothing else is kept of what happened before"""
        import specev, loops
        sp = self.find_spec(fr.func) if fr.func and fr.func.qname == self.curfn else None
        cl = [c for c in sp.get('cut', self.layers)] if sp else []
        cl = [c for c in cl if c.loop in self.callees(n)]
        nl = [c for c in sp.get('note', self.layers) if c.loop in self.callees(n)] if sp else []
        if not cl and not nl: return sts
        if n.get('_line'): self.line = n['_line']
        def val(c, s):
            e = specev.Env(s, self.entry_state, loops.env_values(self, s, fr), self)
            e.entry = self.entry_state; e.entry_env = self.entry_env; e.old_env = self.entry_env
            return specev.boolx(self, c.expr, e)
        for c in nl:        # notes: checked here and known from here on, where their names mean something
            for s in sts:
                try: v = val(c, s)
                except Untranslatable: continue
                self.check(s, 'cut', c.label, v, by=c.by, desc='before %s: %s' % (c.loop, c.label), assume=True)
        if not cl: return sts
        for s in sts:
            x = s.copy()
            for c in cl: self.check(x, 'cut', c.label, val(c, x), by=c.by, desc='before %s: %s' % (c.loop, c.label), assume=True)
        if any(s.ptrs != sts[0].ptrs for s in sts):     # cannot be told apart by values: keep the paths
            for s in sts:
                for c in cl: self.assume(s, val(c, s), c.label)
            return sts
        s = sts[0].copy()
        seen = set()
        facts = list(self.base_state.facts); have = {id(f) for f in facts}
        for t in sts:
            for f in t.facts:
                if isinstance(f, Def) and f.name not in seen and id(f) not in have: seen.add(f.name); facts.append(f)
        s.facts = facts
        k = 0
        while all(len(t.pc) > k and t.pc[k] == sts[0].pc[k] for t in sts): k += 1
        s.pc = list(sts[0].pc[:k])
        comps = set()
        for t in sts: comps |= set(t.comps)
        for m in sorted(comps):
            ts = {t.comps.get(m) for t in sts}
            if m.startswith('L.'):
                if len(ts) > 1: self.havoc(s, m)
            elif ts != {self.base_state.comps.get(m)} and not (len(ts) == 1 and (self.base_state.comps.get(m) is None and list(ts)[0] == m.replace(':', '.') + '!0')): self.havoc(s, m)
        for c in cl: self.assume(s, val(c, s), c.label)
        self.cover(s, 'before %s' % cl[0].loop)
        return [s]

    def s_DeclStmt(self, n, sts, fr):
        for c in n.get('inner', []):
            if c['kind'] != 'VarDecl': continue
            for s in sts: self.declare_local(c, s, fr)
        return {'normal': [s for s in sts if s.alive], 'break': [], 'continue': [], 'return': []}

    def declare_local(self, d, st, fr):
        ty = ctype(d); q = d['type']['qualType'].strip()
        init = d['inner'][-1] if d.get('inner') and d['inner'][-1].get('kind') not in ('FullComment',) else None
        did = d['id']; nm = d['name']
        if d.get('storageClass') == 'static': raise Untranslatable('static local')
        if q.endswith('&') or q.endswith('&&'):
            v = self.eval(init, st, fr)
            if isinstance(v, V) and v.base is None and v.ty[0] not in ('stream', 'ref', 'obj', 'single'):
                lv = self.new_local(nm, v.ty); self.setc(st, lv.root, v.t); v = lv
            fr.env[did] = ('lv', v) if isinstance(v, (LV, CLV)) else ('val', v)
            if isinstance(v, LV) and any(not is_num(i) for i in v.idxs):
                pass
            fr.names[nm] = fr.env[did]; return
        if ty[0] == 'stream':
            if init is not None: self.eval(init, st, fr)
            if init is not None and strip(init).get('inner'):
                for p in self.plugins:
                    if hasattr(p, 'stream_open'): p.stream_open(self, st, ty)
            fr.env[did] = ('stream', ty[1], nm); fr.names[nm] = fr.env[did]; return
        if ty[0] == 'unknown' and ('lambda' in q or '(*)' in q): raise Untranslatable('lambda')
        tracked = ty[0] in ('iter', 'ptr')
        if did in fr.ownlocals:
            ty = self.own_of(ty); tracked = False
        if tracked:
            key = self.keyof(fr, did, 'P.' + nm)
            fr.env[did] = ('ptr', key); fr.names[nm] = fr.env[did]
            if init is not None:
                v = self.ev(init, st, fr)
                st.ptrs[key] = V(v.t, ty if v.ty[0] == 'null' else v.ty, v.base, v.off)
            else: st.ptrs[key] = V('uninit', ty)
            return
        if did in fr.env and fr.env[did][0] == 'lv' and getattr(fr, 'declared', {}).get(did): lv = fr.env[did][1]
        else:
            lv = self.new_local(nm, ty)
            if not hasattr(fr, 'declared'): fr.declared = {}
            fr.declared[did] = True
        fr.env[did] = ('lv', lv); fr.names[nm] = fr.env[did]
        if init is None:
            if ty[0] in ('struct',): self.setc(st, lv.root, self.default_struct(ty[1]))
            elif ty[0] in ('vec', 'list', 'set', 'string', 'own', 'arr'): self.init_agg(st, lv, ty)
            else: self.setc(st, lv.root, self.fresh(nm, base_sort(ty)))
            return
        sn = strip(init)
        if ty[0] == 'own' and sn['kind'] == 'CXXNewExpr':
            self.init_agg(st, lv, ty); self.new_array(sn, lv, st, fr); return
        if ty[0] == 'own':
            self.init_agg(st, lv, ty); return
        if ty[0] == 'arr' and sn['kind'] in ('InitListExpr', 'CXXConstructExpr', 'StringLiteral'):
            self.init_agg(st, lv, ty, zero=True)
            if sn['kind'] == 'InitListExpr':
                for i, x in enumerate(sn.get('inner', [])):
                    if x.get('kind'): self.store(st, lv.elem(num(i), ty[1]), self.eval(x, st, fr))
            return
        v = self.eval(init, st, fr)
        if ty[0] in ('vec', 'list', 'set', 'string'):
            if isinstance(v, V):
                self.init_agg(st, lv, ty); return
            self.copy_agg(st, lv, v, ty); return
        v = self.rv(st, v)
        self.setc(st, lv.root, self.coerce(v, ty))

    def keyof(self, fr, did, base):
        if not hasattr(fr, 'keys'): fr.keys = {}
        if did not in fr.keys:
            self.n += 1; fr.keys[did] = '%s.%d' % (base, self.n)
        return fr.keys[did]

    def s_ReturnStmt(self, n, sts, fr):
        out = {'normal': [], 'break': [], 'continue': [], 'return': []}
        for s in sts:
            v = None
            if n.get('inner'):
                v = self.eval(n['inner'][0], s, fr)
                if isinstance(v, (LV, CLV)) and not fr.func.rettype.endswith('&') and v.ty[0] not in ('vec', 'list', 'string', 'set'):
                    v = self.rv(s, v)
                if isinstance(v, V) and v.t is not None and len(v.t) > 60 and v.ty[0] in ('int', 'bool'):
                    v = V(self.name_term(s, 'rv', base_sort(v.ty), v.t), v.ty)
            if s.alive: out['return'].append((s, v))
        return out

    def s_BreakStmt(self, n, sts, fr): return {'normal': [], 'break': sts, 'continue': [], 'return': []}
    def s_ContinueStmt(self, n, sts, fr): return {'normal': [], 'break': [], 'continue': sts, 'return': []}

    def heavy(self, base, s):
        return any(isinstance(f, Fact) and 'forall' in f.text for f in s.facts[len(base.facts):])

    def s_IfStmt(self, n, sts, fr):
        out = {'normal': [], 'break': [], 'continue': [], 'return': []}
        inner = list(n['inner'])
        if n.get('hasInit'):
            o = self.exec(inner.pop(0), sts, fr); sts = o['normal']
        if n.get('hasVar'): raise Untranslatable('if with declaration')
        cond, then = inner[0], inner[1]
        els = inner[2] if len(inner) > 2 else None
        for s in sts:
            self.line = n.get('_line') or self.line
            c = self.truth(self.ev(cond, s, fr))
            if not s.alive: continue
            c = self.name_term(s, 'b', 'Bool', c)
            res = []
            if c != 'false':
                a = s.copy(); self.assume_pc(a, c)
                o = self.exec(then, [a], fr); self.collect(out, o); res.append(o['normal'])
            if c != 'true':
                b = s.copy(); self.assume_pc(b, Not(c))
                o = self.exec(els, [b], fr); self.collect(out, o); res.append(o['normal'])
            flat = [x for r in res for x in r if x.alive]
            if len(flat) <= 1: out['normal'] += flat; continue
            # purely local effects merge; heavy branches stay split up to a limit
            same = all(x.comps == flat[0].comps and x.ptrs == flat[0].ptrs for x in flat)
            if same or not any(self.heavy(s, x) for x in flat) or len(flat) + len(out['normal']) > self.opts.get('maxsplit', 6) or self.opts.get('nosplit'):
                out['normal'].append(self.merge(s, flat))
            else: out['normal'] += flat
        return out

    def collect(self, out, o):
        for k in ('break', 'continue', 'return'): out[k] += o[k]

    def s_SwitchStmt(self, n, sts, fr):
        out = {'normal': [], 'break': [], 'continue': [], 'return': []}
        cond, body = n['inner'][-2], n['inner'][-1]
        # flatten the cases
        items = []
        def flat(x):
            if x['kind'] in ('CaseStmt', 'DefaultStmt'):
                items.append(('label', None if x['kind'] == 'DefaultStmt' else x['inner'][0]))
                flat(x['inner'][-1])
            else: items.append(('stmt', x))
        for x in body.get('inner', []): flat(x)
        for s in sts:
            v = self.ev(cond, s, fr)
            labels = []
            for i, (k, x) in enumerate(items):
                if k == 'label' and x is not None: labels.append((i, Eq(v.t, self.ev(x, s, fr).t)))
            dflt = [i for i, (k, x) in enumerate(items) if k == 'label' and x is None]
            finals = []
            negs = []
            for i, c in labels:
                if c == 'false': continue
                a = s.copy()
                self.assume_pc(a, c)
                o = self.exec_items(items[i:], [a], fr)
                self.collect2(out, o); finals += o['normal'] + o['break']
                negs.append(Not(c))
                if c == 'true': break
            if 'false' not in negs:
                a = s.copy(); self.assume_pc(a, And(*negs))
                if dflt:
                    o = self.exec_items(items[dflt[0]:], [a], fr); self.collect2(out, o); finals += o['normal'] + o['break']
                else: finals.append(a)
            finals = [x for x in finals if x.alive]
            if not finals: continue
            if len(finals) > 1 and any(self.heavy(s, x) for x in finals) and len(finals) <= self.opts.get('maxsplit', 6) and not self.opts.get('nosplit'):
                out['normal'] += finals
            else: out['normal'].append(self.merge(s, finals))
        return out

    def collect2(self, out, o):
        for k in ('continue', 'return'): out[k] += o[k]

    def exec_items(self, items, sts, fr):
        out = {'normal': sts, 'break': [], 'continue': [], 'return': []}
        for k, x in items:
            if k == 'label': continue
            if not out['normal']: break
            o = self.exec(x, out['normal'], fr)
            out['normal'] = o['normal']
            for kk in ('break', 'continue', 'return'): out[kk] = out[kk] + o[kk]
        return out

    def s_CXXTryStmt(self, n, sts, fr): raise Untranslatable('try')

    def s_ForStmt(self, n, sts, fr):
        init, _, cond, inc, body = (n['inner'] + [None] * 5)[:5]
        out0 = {'normal': sts, 'break': [], 'continue': [], 'return': []}
        if init and init.get('kind'):
            o = self.exec(init, sts, fr); sts = o['normal']
        return self.loop(n, sts, fr, cond if cond and cond.get('kind') else None, inc if inc and inc.get('kind') else None, body, False)

    def s_WhileStmt(self, n, sts, fr):
        inner = n['inner']
        return self.loop(n, sts, fr, inner[-2], None, inner[-1], False)

    def s_DoStmt(self, n, sts, fr):
        return self.loop(n, sts, fr, n['inner'][1], None, n['inner'][0], True)

    def s_CXXForRangeStmt(self, n, sts, fr):
        parts = [x for x in n['inner']]
        body = parts[-1]; var = parts[-2]; inc = parts[-3]; cond = parts[-4]
        decls = [x for x in parts[:-4] if x and x.get('kind') == 'DeclStmt']
        for d in decls:
            o = self.exec(d, sts, fr); sts = o['normal']
        newbody = {'kind': 'CompoundStmt', 'inner': [var, body], '_line': n.get('_line')}
        return self.loop(n, sts, fr, cond, inc, newbody, False)

    # loops ------------------------------------------------------------------
    def loop(self, n, sts, fr, cond, inc, body, isdo):
        import loops
        out = {'normal': [], 'break': [], 'continue': [], 'return': []}
        if not sts: return out
        for s in sts:
            o = loops.run(self, n, s, fr, cond, inc, body, isdo)
            for k in out: out[k] += o[k]
        return out


def LVn(lv):
    """the length cell of an owning pointer"""
    if isinstance(lv, CLV): return CLV(lv.c, LVn(lv.a), LVn(lv.b))
    return LV(lv.root + '.n', lv.idxs, INT)


def const_arr(d, b, t):
    s = b
    for _ in range(d):
        s = '(Array Int %s)' % s
        t = '((as const %s) %s)' % (s, t)
    return t


def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr') and n.get('inner'):
        n = n['inner'][-1]
    return n


def split_app(t):
    """top-level arguments of an s-expression"""
    out = []; d = 0; cur = ''
    for ch in t[1:-1]:
        if ch == '(': d += 1
        if ch == ')': d -= 1
        if ch == ' ' and d == 0:
            if cur: out.append(cur); cur = ''
        else: cur += ch
    if cur: out.append(cur)
    return out
