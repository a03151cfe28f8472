"""SMT term helpers and the solver back end."""
import subprocess, os, re, time, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

def is_num(t):
    return re.fullmatch(r'\d+|\(- \d+\)', t) is not None
def num(n):
    return str(n) if n >= 0 else '(- %d)' % -n
def val(t):
    return int(t) if t[0] != '(' else -int(t[3:-1])

def And(*a):
    xs = []
    for x in a:
        if x == 'true': continue
        if x == 'false': return 'false'
        if x not in xs: xs.append(x)
    if not xs: return 'true'
    if len(xs) == 1: return xs[0]
    return '(and %s)' % ' '.join(xs)
def Or(*a):
    xs = []
    for x in a:
        if x == 'false': continue
        if x == 'true': return 'true'
        if x not in xs: xs.append(x)
    if not xs: return 'false'
    if len(xs) == 1: return xs[0]
    return '(or %s)' % ' '.join(xs)
def Not(x):
    if x == 'true': return 'false'
    if x == 'false': return 'true'
    if x.startswith('(not ') : return x[5:-1]
    return '(not %s)' % x
def Implies(a, b):
    if a == 'true': return b
    if a == 'false' or b == 'true': return 'true'
    if b == 'false': return Not(a)
    return '(=> %s %s)' % (a, b)
def Ite(c, a, b):
    if c == 'true': return a
    if c == 'false': return b
    if a == b: return a
    if a == 'true' and b == 'false': return c
    if a == 'false' and b == 'true': return Not(c)
    return '(ite %s %s %s)' % (c, a, b)
def Eq(a, b):
    if a == b: return 'true'
    if is_num(a) and is_num(b): return 'true' if val(a) == val(b) else 'false'
    if a == 'true': return b
    if b == 'true': return a
    if a == 'false': return Not(b)
    if b == 'false': return Not(a)
    return '(= %s %s)' % (a, b)
def Sel(a, i): return '(select %s %s)' % (a, i)
def Sto(a, i, v): return '(store %s %s %s)' % (a, i, v)
def Add(a, b):
    if is_num(a) and is_num(b): return num(val(a) + val(b))
    if is_num(a) and val(a) == 0: return b
    if is_num(b) and val(b) == 0: return a
    return '(+ %s %s)' % (a, b)
def Sub(a, b):
    if is_num(a) and is_num(b): return num(val(a) - val(b))
    if is_num(b) and val(b) == 0: return a
    return '(- %s %s)' % (a, b)
def Neg(a):
    if is_num(a): return num(-val(a))
    return '(- %s)' % a
def cmpop(op, a, b):
    if is_num(a) and is_num(b):
        x, y = val(a), val(b)
        r = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]
        return 'true' if r else 'false'
    return '(%s %s %s)' % (op, a, b)

TOKEN = re.compile(r'[A-Za-z_~!@$%^&*+=<>.?/\-#:\|][A-Za-z0-9_~!@$%^&*+=<>.?/\-#:\|]*')

def symbols(text):
    return set(TOKEN.findall(text))

OPTS = '(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.arith.solver 2)\n'
OPTS2 = '(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.random_seed 17)\n'

Z3NEW = '/usr/local/bin/z3-new'
def _find(n):
    for d in os.environ.get('PATH', '').split(':') + ['/usr/local/bin', '/usr/bin', '/opt/veriftools/bin']:
        p = os.path.join(d, n)
        if os.path.exists(p): return p
    return n
BIN = {'z3-new': _find('z3-new'), 'z3': _find('z3'), 'cvc5': _find('cvc5')}

def run_solver(which, text, timeout):
    if which == 'cvc5':
        cmd = [BIN['cvc5'], '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '-']
    else:
        cmd = [BIN[which], '-in', '-smt2', '-T:%d' % max(1, int(timeout + 0.999))]
    t = time.time()
    try:
        p = subprocess.run(cmd, input=text.encode(), capture_output=True, timeout=timeout + 5)
        out = p.stdout.decode()
    except subprocess.TimeoutExpired:
        return 'timeout', '', time.time() - t
    first = out.strip().split('\n')[0] if out.strip() else 'unknown'
    if first not in ('sat', 'unsat', 'unknown', 'timeout'):
        if 'timeout' in out: first = 'timeout'
        elif 'unsat' in out.split(): first = 'unsat' if '(error' not in out else 'error'
        else: first = 'error'
    return first, out, time.time() - t
