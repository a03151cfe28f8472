"""Run all obligations of a set of functions for a set of contract layers."""
import os, sys, time, json, re, threading
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import smt
from smt import *
from cxx import Program, Untranslatable
import vc, spec as specmod, specev, builtins_, tokens, textin
from vc import Ctx, Fact, Def, VALUE_STRUCTS, base_sort

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def prelude(ctx):
    out = []
    if any(t[0] == 'bitset' for f in VALUE_STRUCTS.values() for _, t in f) or any(t[0] == 'bitset' for t in ctx.fieldty.values()): out.append(BVPRE)
    for s in VALUE_STRUCTS:
        fs = ' '.join('(%s.%s %s)' % (s, f, base_sort(t)) for f, t in VALUE_STRUCTS[s])
        out.append('(declare-datatypes ((%s 0)) (((mk.%s %s))))' % (s, s, fs))
    out.append('(define-fun cdiv ((a Int) (b Int)) Int (ite (>= a 0) (ite (> b 0) (div a b) (- (div a (- b)))) (ite (> b 0) (- (div (- a) b)) (div (- a) (- b)))))')
    out.append('(define-fun cmod ((a Int) (b Int)) Int (- a (* b (cdiv a b))))')
    out.append('(declare-fun STRID (Int) Int)(declare-fun ATOI (Int) Int)(declare-fun STRPRE (Int Int) Bool)' + builtins_.strfacts())
    for n, (a, r) in ctx.spec.functions.items():
        out.append('(declare-fun %s (%s) %s)' % (n, ' '.join(ctx.sort_alias(x) for x in a), ctx.sort_alias(r)))
    return '\n'.join(out) + '\n'


BVPRE = '''(declare-sort Bits 0)
(declare-fun bt (Bits Int) Bool)
(declare-fun band (Bits Bits) Bits)(declare-fun bor (Bits Bits) Bits)(declare-fun bxor (Bits Bits) Bits)(declare-fun bnot (Bits) Bits)
(declare-fun bon (Bits Int) Bits)(declare-fun boff (Bits Int) Bits)(declare-fun bzero () Bits)(declare-fun bones () Bits)
(declare-fun bshl (Bits Int) Bits)(declare-fun bshr (Bits Int) Bits)(declare-fun bany (Bits) Bool)(declare-fun bwit (Bits) Int)
(declare-fun bcount (Bits) Int)(declare-fun bone (Bits) Int)(declare-fun btwo (Bits) Int)
(assert (forall ((b Bits) (i Int)) (! (=> (bt b i) (and (<= 0 i) (< i 64))) :pattern ((bt b i)))))
(assert (forall ((a Bits) (b Bits) (i Int)) (! (= (bt (band a b) i) (and (bt a i) (bt b i))) :pattern ((bt (band a b) i)) :pattern ((band a b) (bt a i)) :pattern ((band a b) (bt b i)))))
(assert (forall ((a Bits) (b Bits) (i Int)) (! (= (bt (bor a b) i) (or (bt a i) (bt b i))) :pattern ((bt (bor a b) i)) :pattern ((bor a b) (bt a i)) :pattern ((bor a b) (bt b i)))))
(assert (forall ((a Bits) (b Bits) (i Int)) (! (= (bt (bxor a b) i) (xor (bt a i) (bt b i))) :pattern ((bt (bxor a b) i)))))
(assert (forall ((a Bits) (i Int)) (! (= (bt (bnot a) i) (and (<= 0 i) (< i 64) (not (bt a i)))) :pattern ((bt (bnot a) i)) :pattern ((bnot a) (bt a i)))))
(assert (forall ((a Bits) (j Int) (i Int)) (! (= (bt (bon a j) i) (or (bt a i) (and (= i j) (<= 0 i) (< i 64)))) :pattern ((bt (bon a j) i)))))
(assert (forall ((a Bits) (j Int)) (! (=> (and (<= 0 j) (< j 64)) (bt (bon a j) j)) :pattern ((bon a j)))))
(assert (forall ((a Bits) (j Int) (i Int)) (! (= (bt (boff a j) i) (and (bt a i) (not (= i j)))) :pattern ((bt (boff a j) i)))))
(assert (forall ((i Int)) (! (not (bt bzero i)) :pattern ((bt bzero i)))))
(assert (forall ((i Int)) (! (= (bt bones i) (and (<= 0 i) (< i 64))) :pattern ((bt bones i)))))
(assert (forall ((a Bits) (j Int) (i Int)) (! (= (bt (bshl a j) i) (and (<= 0 i) (< i 64) (bt a (- i j)))) :pattern ((bt (bshl a j) i)))))
(assert (forall ((a Bits) (j Int) (i Int)) (! (= (bt (bshr a j) i) (and (<= 0 i) (< i 64) (bt a (+ i j)))) :pattern ((bt (bshr a j) i)))))
(assert (forall ((a Bits)) (! (=> (bany a) (bt a (bwit a))) :pattern ((bany a)))))
(assert (forall ((a Bits) (i Int)) (! (=> (bt a i) (bany a)) :pattern ((bany a) (bt a i)))))
(assert (forall ((a Bits)) (! (and (>= (bcount a) 0) (=> (>= (bcount a) 1) (bt a (bone a))) (=> (>= (bcount a) 2) (and (bt a (btwo a)) (not (= (bone a) (btwo a)))))) :pattern ((bcount a)))))
(assert (forall ((a Bits) (i Int)) (! (=> (bt a i) (>= (bcount a) 1)) :pattern ((bcount a) (bt a i)))))
(assert (forall ((a Bits) (i Int) (j Int)) (! (=> (and (bt a i) (bt a j) (not (= i j))) (>= (bcount a) 2)) :pattern ((bcount a) (bt a i) (bt a j)))))
'''


def axioms(ctx, upto=None):
    """axiom and lemma formulas (label, text)"""
    out = []
    for a in ctx.spec.axioms + ctx.spec.lemmas:
        if upto is not None and a is upto: break
        if a['layers'] and not (a['layers'] & ctx.layers): continue
        if upto is None and a['label'].startswith('def.'): continue     # unfolding, for lemma proofs only
        st = vc.State()
        env = specev.Env(st, st, {}, ctx)
        out.append((a['label'], specev.boolx(ctx, a['expr'], env)))
    return out


SYMCACHE = {}


def syms(text):
    r = SYMCACHE.get(text)
    if r is None:
        r = SYMCACHE[text] = smt.symbols(text)
    return r


LENNAME = re.compile(r'\.len!\d+$')


def split3(t):
    """the three arguments of a top-level ite"""
    i = 5; parts = []
    while len(parts) < 3:
        while t[i] == ' ': i += 1
        j = i; d = 0
        while True:
            c = t[j]
            if c == '(': d += 1
            elif c == ')':
                if d == 0: break
                d -= 1
            elif c == ' ' and d == 0: break
            j += 1
        parts.append(t[i:j]); i = j
    return parts


def defeq(n, t):
    # a merged value is given by cases: equalities between arrays let the solver match triggers on either of them
    if t.startswith('(ite '):
        c, a, b = split3(t)
        return '(assert (=> %s (= %s %s)))\n(assert (=> (not %s) (= %s %s)))' % (c, n, a, c, n, b)
    return '(assert (= %s %s))' % (n, t)


def build(ctx, ob, axs, pre, by=None, core=None):
    """SMT-LIB text of an obligation; by: keep only these labelled facts"""
    facts = []; defs = {}
    named = {}
    for h in ob.hyps:
        if isinstance(h, Def): defs[h.name] = h
        else:
            named.setdefault(h.text, h.label)
            if by is not None and h.label and not h.label.startswith('#') and h.label not in by and '*' not in by: continue
            facts.append(h)
    use = []
    seen = set()
    work = []
    texts = []
    tset = set()
    for f in facts:
        if f.text in tset: continue
        tset.add(f.text); texts.append(f.text); work.append(f.text)
    work.append(ob.goal)
    axt = []
    for lab, t in axs:
        named[t] = lab
        if by is not None and lab not in by and '*' not in by: continue
        axt.append(t); work.append(t)
    order = []
    need = set()
    while work:
        t = work.pop()
        for s in syms(t):
            if s in need: continue
            d = defs.get(s)
            if d is not None or s in ctx.decls:
                need.add(s)
                if d is not None: work.append(d.term)
    out = [pre]
    for s in sorted(need):
        if s not in defs:
            out.append('(declare-const %s %s)' % (s, ctx.decls[s]))
            if LENNAME.search(s):       # sizes of containers are never negative
                if ctx.decls[s] == 'Int': out.append('(assert (>= %s 0))' % s)
                elif ctx.decls[s] == '(Array Int (Array Int Int))': out.append('(assert (forall ((r Int) (i Int)) (! (>= (select (select %s r) i) 0) :pattern ((select (select %s r) i)))))' % (s, s))
                elif ctx.decls[s] == '(Array Int Int)': out.append('(assert (forall ((r Int)) (! (>= (select %s r) 0) :pattern ((select %s r)))))' % (s, s))
    # definitions in creation order
    for h in ob.hyps:
        if isinstance(h, Def) and h.name in need and h.name not in seen:
            seen.add(h.name)
            out.append('(declare-const %s %s)\n%s' % (h.name, h.sort, defeq(h.name, h.term)))
    if core is not None: out.insert(0, '(set-option :produce-unsat-cores true)')
    for t in axt + texts:
        if core is not None and named.get(t) and not named[t].startswith('#'):
            core['f%d' % len(core)] = named[t]
            out.append('(assert (! %s :named f%d))' % (t, len(core) - 1))
        else: out.append('(assert %s)' % t)
    if ob.goal != 'false': out.append('(assert (not %s))' % ob.goal)
    out.append('(check-sat)')
    if core is not None: out.append('(get-unsat-core)')
    return '\n'.join(out) + '\n'


O1 = '(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.delay_units true)\n(set-option :type_check true)\n'
O2 = '(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 7)\n'
O3 = '(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.random_seed 99)\n(set-option :smt.arith.solver 2)\n'

O4 = '(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.relevancy 0)\n'

HINTFILE = os.path.join(VERIF, 'contracts', 'hints.json')
# which labelled facts sufficed last time, per obligation: tried first, as a subset of the facts (never more than them)
HINTS = json.load(open(HINTFILE)) if os.path.exists(HINTFILE) else {}
LEARN = {}


def _pool():
    p = {}
    for k, v in HINTS.items():
        _, fn, d = k.split('|', 2)
        for q in ((fn, gist(d)), ('', gist(d))): p.setdefault(q, set()).update(v)
    return p


def gist(d):
    """what an obligation says, without the number of its return or loop"""
    d = re.sub(r' \((?:return \d+|.*)\)$', '', d)
    d = re.sub(r'^loop \S+ invariant (\S+) .*$', r'inv \1', d)
    return re.sub(r'^.*? (requires|ensures) ', r'\1 ', d)


def hintkey(ctx, ob): return '%s|%s|%s' % (','.join(sorted(ctx.layers)), ob.fn, ob.desc)


POOL = _pool()


def learn(ctx, ob, axs, pre, budget, by, which, opt, took):
    core = {}
    txt = build(ctx, ob, axs, pre, by, core)
    if which == 'cvc5': txt = '(set-logic ALL)\n' + txt
    r, out, dt = run_solver(which, opt + txt, max(2 * took + 10, budget))
    if r != 'unsat': return
    labs = {core[x] for x in re.findall(r'\bf\d+\b', out) if x in core}
    best = None
    for w, o in (('z3-new', O1), ('z3', O2), ('z3-new', O4), ('z3-new', O3), ('cvc5', '')):
        t2 = ('(set-logic ALL)\n' if w == 'cvc5' else '') + build(ctx, ob, axs, pre, labs | {ob.label})
        r, out, dt = run_solver(w, o + t2, min(took, 20))
        if r == 'unsat' and dt < 0.7 * took and (best is None or dt < best[0]): best = (dt, w)
        if best and best[0] < 0.5: break
    if best:
        k = hintkey(ctx, ob)
        LEARN[k] = sorted(set(LEARN.get(k, [])) | labs)
        print('learned %s: %.1fs -> %.1fs %s %s' % (k, took, best[0], best[1], ','.join(sorted(labs))), flush=True)


def solve(ctx, ob, axs, pre, budget):
    """try the portfolio; returns (status, backend, seconds)"""
    t0 = time.time()
    plans = []
    hint = HINTS.get(hintkey(ctx, ob))
    if hint is not None:
        for w, o in (('z3-new', O1), ('z3', O2), ('cvc5', ''), ('z3-new', O4), ('z3-new', O3)):
            plans.append((set(hint) | {ob.label}, w, o, min(budget, 4)))
    else: plans.append(({ob.label}, 'z3-new', O1, min(budget, 1)))
    g = gist(ob.desc)
    pool = POOL.get((ob.fn, g)) or POOL.get(('', g))
    if pool and (hint is None or not pool <= set(hint)):
        for w, o in (('z3-new', O1), ('z3', O2)): plans.append((pool | {ob.label}, w, o, min(budget, 4)))
    if ob.by is not None:
        plans.append((set(ob.by) | {ob.label}, 'z3-new', O1, min(budget, 6)))
        plans.append((set(ob.by) | {ob.label}, 'z3', O2, min(budget, 6)))
        plans.append((set(ob.by) | {ob.label}, 'z3-new', O4, min(budget, 6)))
    plans.append((None, 'z3-new', O1, min(budget, 8)))
    plans.append((None, 'z3', O2, min(budget, 8)))
    plans.append((None, 'z3-new', O4, min(budget, 8)))
    if ob.by is not None: plans.append((set(ob.by) | {ob.label}, 'z3-new', O3, budget))
    plans.append((None, 'z3-new', O3, budget))
    plans.append((None, 'z3-new', O1.replace('case_split 3', 'case_split 1'), budget))
    plans.append((None, 'cvc5', '', budget))
    last = None
    for by, which, opt, to in plans:
        txt = build(ctx, ob, axs, pre, by)
        if which == 'cvc5':
            txt = '(set-logic ALL)\n' + txt
        r, out, dt = run_solver(which, opt + txt, to)
        if r == 'unsat':
            if os.environ.get('VLEARN') and time.time() - t0 > float(os.environ['VLEARN']): learn(ctx, ob, axs, pre, budget, by, which, opt, time.time() - t0)
            return 'proved', which, time.time() - t0, None
        if r == 'error': last = out[:400]
    return 'failed', None, time.time() - t0, last


class Run:
    """verification of a list of functions"""

    def __init__(self, src_dir, spec_files, layers, opts=None, plugins=None):
        self.prog = Program(src_dir) if isinstance(src_dir, str) else src_dir
        self.spec = specmod.Spec()
        for f in spec_files: self.spec.load(os.path.join(VERIF, 'contracts', f))
        self.layers = layers; self.opts = opts or {}
        self.ctx = Ctx(self.prog, self.spec, layers, self.opts)
        self.ctx.plugins = plugins or []
        self.errors = []

    def generate(self, fns):
        ctx = self.ctx
        self.fns = []
        for q in fns:
            f = self.prog.func(q)
            if f is None:
                raise Untranslatable('function %s no longer exists' % q)
            try:
                ctx.verify_function(f)
            except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError) as e:
                if os.environ.get('VDEBUG'): raise
                raise Untranslatable('%s: internal: %r' % (q, e))
            except Untranslatable as e:
                if os.environ.get('VDEBUG'): raise
                raise Untranslatable('%s: %s (near line %s)' % (q, e, ctx.line))
            self.fns.append(q)
        # lemmas
        for l in self.spec.lemmas:
            if l['layers'] and not (l['layers'] & ctx.layers): continue
            self.lemma(l)
        return ctx.obs

    def lemma(self, l):
        ctx = self.ctx
        st = vc.State()
        env = specev.Env(st, st, {}, ctx)
        ex = l['expr']
        ctx.curfn = 'lemma ' + l['label']; ctx.stackq = []; ctx.line = 0
        hyps = []
        if l['induct']:
            # induction on a nonnegative integer variable: strong hypothesis for smaller values
            v = l['induct']
            assert ex[0] == 'forall'
            n0 = ctx.fresh('ind', 'Int')
            others = [b for b in ex[1] if b[0] != v]
            guard = ('bin', '&&', ('bin', '<=', ('num', 0), ('name', v)), ('bin', '<', ('name', v), ('name', '$n0')))
            ih = ('forall', ex[1], ex[2], ('bin', '==>', guard, ex[3]))
            env2 = env.with_(env={'$n0': vc.V(n0, vc.INT)})
            hyps.append(Fact(specev.boolx(ctx, ih, env2), l['label']))
            hyps.append(Fact('(>= %s 0)' % n0))
            if 'UNF' in ctx.spec.functions: hyps.append(Fact('(UNF %s)' % n0))
            body = ('forall', others, [], ex[3]) if others else ex[3]
            goal = specev.boolx(ctx, body, env.with_(env={v: vc.V(n0, vc.INT)}))
            neg = ctx.fresh('ind', 'Int')
            h2 = [Fact('(< %s 0)' % neg)]
            g2 = specev.boolx(ctx, body, env.with_(env={v: vc.V(neg, vc.INT)}))
            ob = vc.Oblig(kind='lemma', label=l['label'], goal=g2, hyps=h2, by=l['by'], fn='lemma ' + l['label'], line=0, desc='lemma %s (below zero)' % l['label'], stack='')
            ob.lemma = l
            ctx.obs.append(ob)
            c = vc.Oblig(kind='cover', label='cover', goal='false', hyps=list(hyps), by=None, fn=ctx.curfn, line=0, desc='induction of lemma ' + l['label'], stack='')
            c.lemma = l
            ctx.covers.append(c)
        else: goal = specev.boolx(ctx, ex, env)
        ob = vc.Oblig(kind='lemma', label=l['label'], goal=goal, hyps=hyps, by=l['by'], fn='lemma ' + l['label'], line=0, desc='lemma ' + l['label'], stack='')
        ob.lemma = l
        ctx.obs.append(ob)

    def discharge(self, budget=20, verbose=False, workers=8, deadline=None, stop_on_fail=False):
        ctx = self.ctx
        pre = prelude(ctx)
        axs_all = axioms(ctx)
        pre = prelude(ctx)
        results = [None] * len(ctx.obs)
        fails = []
        lock = threading.Lock()

        def one(i):
            ob = ctx.obs[i]
            if os.environ.get('VONLY') and not re.search(os.environ['VONLY'], '%s:%s %s' % (ob.fn, ob.line, ob.desc)): return ('skipped', None, 0, None)
            if deadline and time.time() > deadline:
                return ('skipped', None, 0, None)
            axs = axs_all
            if getattr(ob, 'lemma', None) is not None: axs = axioms(ctx, ob.lemma)
            r = solve(ctx, ob, axs, pre, budget)
            if os.environ.get('VDUMP') and (r[0] != 'proved' or r[2] > verbose_slow):
                if ob.by is not None: open(os.path.join(os.environ['VDUMP'], 'ob%d.by.smt2' % i), 'w').write(O1 + build(ctx, ob, axs, pre, set(ob.by) | {ob.label}))
                open(os.path.join(os.environ['VDUMP'], 'ob%d.smt2' % i), 'w').write(O1 + build(ctx, ob, axs, pre))
            if verbose and (r[0] != 'proved' or r[2] > verbose_slow):
                with lock: print('#%d %-8s %6.1fs %-7s %s:%s %s [%s]' % (i, r[0], r[2], r[1], ob.fn, ob.line, ob.desc, ob.stack), r[3] or '', flush=True)
            return r
        verbose_slow = float(os.environ.get('VSLOW', '5'))
        with ThreadPoolExecutor(workers) as ex:
            results = list(ex.map(one, range(len(ctx.obs))))
        self.results = results
        return [(ctx.obs[i], r) for i, r in enumerate(results)]

    def vacuity(self, timeout=2, workers=8):
        """the hypotheses of each function, loop and return must not be contradictory"""
        ctx = self.ctx; pre = prelude(ctx); axs = axioms(ctx)
        def one(ob):
            a = axioms(ctx, ob.lemma) if getattr(ob, 'lemma', None) is not None else axs
            r, out, dt = run_solver('z3-new', O1 + build(ctx, ob, a, pre), timeout)
            return r
        with ThreadPoolExecutor(workers) as ex: rs = list(ex.map(one, ctx.covers))
        # a return closed off by the precondition is fine as long as another return of the function can be reached
        open_ = {(o.fn) for o, r in zip(ctx.covers, rs) if r != 'unsat' and o.desc.startswith('return ')}
        dead = {(o.fn, o.desc[len('reach of '):]) for o, r in zip(ctx.covers, rs) if r == 'unsat' and o.desc.startswith('reach of ')}    # so is a loop never reached
        off = lambda o: (o.desc.startswith(('return ', 'reach of ')) and o.fn in open_) or (o.desc.startswith('head of ') and o.fn in open_ and (o.fn, o.desc[len('head of '):]) in dead)
        return [(o, 'dead' if r == 'unsat' and off(o) else r) for o, r in zip(ctx.covers, rs)]


if __name__ == '__main__':
    # check.py SRC layers specs fn...
    src, layers, specs = sys.argv[1:4]
    t = time.time()
    import builtins_
    r = Run(src, specs.split(','), set(layers.split(',')), {k: True for k in os.environ.get('VOPTS', '').split(',') if k}, [builtins_.Words(os.environ.get('VWORDS', 'SAT,UNSAT,TIMEOUT,model is CORRECT,model is INCORRECT').split(',')), textin.Lines(), builtins_.AnyInput(), tokens.Tokens(os.environ.get('VTOK', 'file'))])
    obs = r.generate(sys.argv[4:])
    print('%d obligations generated in %.1fs' % (len(obs), time.time() - t))
    t = time.time()
    res = r.discharge(budget=float(os.environ.get('VBUDGET', '10')), verbose=True)
    ok = sum(1 for _, x in res if x[0] == 'proved')
    print('%d/%d proved in %.1fs' % (ok, len(res), time.time() - t))
    if LEARN:
        h = json.load(open(HINTFILE)) if os.path.exists(HINTFILE) else {}
        for k, v in LEARN.items(): h[k] = v
        json.dump(h, open(HINTFILE, 'w'), indent=0, sort_keys=True)
    if os.environ.get('VCOVER'):
        for o, x in r.vacuity():
            if x == 'unsat': print('VACUOUS', o.desc)
