#!/usr/bin/env python3
"""mutate.py N SEED [REGEX]: small random changes to functions under contract, in scratch copies under /tmp/mut.
For each: does some obligation of the function fail in some property?  If none does, the search driver of every
property that has the function under contract runs for a few seconds; a failing input then means that a contract
or the engine misses something ("GAP")."""
import sys, os, re, random, subprocess, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE + '/engine', HERE]
import check, builtins_, tokens, textin
from cxx import Program, Untranslatable
from props import PROPS
class R: SRC = '/repo/src'; WORDS = ['SAT', 'UNSAT', 'TIMEOUT', 'model is CORRECT', 'model is INCORRECT']
N, SEED = int(sys.argv[1]), int(sys.argv[2]); RX = sys.argv[3] if len(sys.argv) > 3 else '.'
SKIP = set((os.environ.get('SKIP') or '').split(','))
rnd = random.Random(SEED)
base = Program('/repo/src')
units = [(p, u) for p, c in PROPS.items() if p not in SKIP for u in c['units'] if u.get('src', '/repo/src') in ('/repo/src', R.SRC)]
fns = sorted({f for p, u in units for f in u['functions'] if re.search(RX, f)})
files = {f: open('/repo/src/' + f).read().split('\n') for f in os.listdir('/repo/src') if f.endswith('.cc')}
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<>=!])<(?![<=])', '<='), (r'(?<![<>=!-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r'\+ ?1\b', ''), (r'- ?1\b', ''), (r'\+\+', '--'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\bLEVEL\b', '(LEVEL-1)'), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), ('DEL', '')]


def body(q):
    f = base.func(q)
    name = f.qname.split('/')[0]
    fn = os.path.basename(getattr(f, 'file', '') or '')
    cand = [fn] if fn in files else [k for k in files if any(name in l for l in files[k])]
    for k in cand:
        L = files[k]; a = f.line - 1
        if not any(name.split('::')[-1] in x for x in L[max(0, a - 2):a + 3]): continue
        d = 0; seen = False
        for i in range(a, len(L)):
            d += L[i].count('{') - L[i].count('}')
            if '{' in L[i]: seen = True
            if seen and d == 0: return k, a, i
    return None


muts = []
for q in fns:
    b = body(q)
    if not b: continue
    k, a, z = b
    for i in range(a + 1, z):
        l = files[k][i].split('//')[0]
        if re.search(r'cout|printf|LOG|\bcerr\b', l) or not l.strip(): continue
        for rx, to in OPS:
            if rx == 'DEL':
                if l.strip().endswith(';') and not re.match(r'\s*(return|int|bool|double|Clause|Variable|Literal|for|VARRECORD|vector|list|break|delete)\b', l) and l.count(';') == 1: muts.append((q, k, i, ''))
                continue
            for m in re.finditer(rx, l): muts.append((q, k, i, l[:m.start()] + to + l[m.end():]))
rnd.shuffle(muts); muts = muts[:N]
print(len(muts), 'mutants', flush=True)


def proof(q, d):
    """first failed obligation of the function, or None"""
    prog = Program(d + '/src')
    n = 0
    for p, u in units:
        if q not in u['functions']: continue
        try:
            r = check.Run(prog, u['specs'], set(u['layer'].split(',')), {k: True for k in u.get('opts', [])}, [builtins_.Words(u.get('words', R.WORDS)), textin.Lines(), builtins_.AnyInput(), tokens.Tokens(u.get('tokens', 'file'))])
            r.generate([q])
        except (Untranslatable, Exception) as e: return 'untranslatable %s' % e
        axs = check.axioms(r.ctx); pre = check.prelude(r.ctx)
        bad = []
        def one(o):
            if bad or getattr(o, 'lemma', None) is not None: return
            x = check.solve(r.ctx, o, axs, pre, 8)
            if x[0] != 'proved': bad.append('%s %s %s' % (p, o.desc, x[0]))
        with ThreadPoolExecutor(2) as ex: list(ex.map(one, r.ctx.obs))
        n += len(r.ctx.obs)
        if bad: return bad[0]
    return None


def job(t):
    i, (q, k, ln, new) = t
    d = '/tmp/mut/%d' % i
    shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo/src', d + '/src')
    L = list(files[k]); old = L[ln]; L[ln] = new; open(d + '/src/' + k, 'w').write('\n'.join(L))
    tag = '%s %s:%d  %s  =>  %s' % (q, k, ln + 1, old.strip(), new.strip())
    if subprocess.run(['g++', '-w', '-fsyntax-only', d + '/src/' + k]).returncode: shutil.rmtree(d); return
    try: w = proof(q, d)
    except Exception as e: w = 'error %r' % e
    if w: print('killed   ', tag, '|', w, flush=True)
    else:
        hit = None
        for kind in ('plain', 'hooks'):
            ps = sorted({p for p, u in units if q in u['functions'] and PROPS[p].get('driver', 'plain') == kind})
            if not ps or hit: continue
            subprocess.run(['bash', HERE + '/replay/build.sh', d + '/src', d + '/b', kind], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for p in ps:
                if subprocess.run(['timeout', '60', d + '/b/driver', p, '1', '1', '6', d + '/o', d + '/w'] + (['crash'] if PROPS[p].get('crash') else []), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 1:
                    hit = p; break
        print('GAP      ' if hit else 'survivor ', tag, '|', hit or '', flush=True)
    shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get('JOBS', '2'))) as ex: list(ex.map(job, enumerate(muts)))
