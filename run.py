#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough]: decide one property on /repo's current sources.

1. generate every proof obligation of the functions under contract from /repo/src (clang AST) and
   discharge each with an SMT solver; check that no contract is contradictory;
2. all discharged: the property held (plus a bounded search for the functions listed as bounded);
3. an obligation fails: search a failing input on the real code, report it, or report the obligation;
4. source outside the verifier's reach: bounded search only, labelled so."""
import os, sys, time, json, subprocess, tempfile, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
import check, builtins_, tokens, textin
from cxx import Program, Untranslatable
from props import PROPS, COMMON_TB, COMMON_AS

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
WORDS = ['SAT', 'UNSAT', 'TIMEOUT', 'model is CORRECT', 'model is INCORRECT']
T0 = time.time()


def log(*a): print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


class Search:
    """bounded search for a failing input on the real code (replay/driver.cc)"""

    def __init__(self, prop, cfg, tmp):
        self.prop = prop; self.kind = cfg.get('driver', 'plain'); self.src = os.path.join(REPO, cfg.get('driver_src', 'src')); self.crash = cfg.get('crash', False)
        self.tmp = tmp; self.out = os.path.join(tmp, 'drv')
        self.p = None if self.kind is None else subprocess.Popen(['bash', os.path.join(HERE, 'replay', cfg.get('driver_build', 'build.sh')), self.src, self.out, self.kind], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        self.cases = 0; self.over = 0; self.stopped = 0; self.secs = 0; self.ok = None

    def ready(self):
        if self.ok is None:
            if self.p is None: self.ok = False; return False
            _, err = self.p.communicate()
            self.ok = self.p.returncode == 0
            if not self.ok: log('search driver does not build:', err[-600:])
        return self.ok

    def run(self, seconds, seed, procs=8):
        """returns the text of a failing case or None"""
        if not self.ready() or seconds <= 0: return None
        t = time.time()
        ps = []
        for i in range(procs):
            res = os.path.join(self.tmp, 'found%d' % i)
            ps.append((res, subprocess.Popen([os.path.join(self.out, 'driver'), self.prop, str(seed * 1000003 + i), str(procs), str(seconds), res, os.path.join(self.tmp, 'work')] + (['crash'] if self.crash else []), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)))
        found = None
        live = list(ps)
        while live and time.time() - t < seconds + 30:
            for x in list(live):
                if x[1].poll() is not None:
                    live.remove(x)
                    if x[1].returncode == 1 and found is None and os.path.exists(x[0]): found = open(x[0], errors='replace').read()
            if found is not None: break
            time.sleep(0.05)
        for res, p in ps:
            if p.poll() is None:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
            out = p.communicate()[0] or ''
            w = out.split()
            if len(w) > 8:
                try: self.cases += int(w[0]); self.over += int(w[2]); self.stopped += int(w[8])
                except ValueError: pass
        self.secs += time.time() - t
        return found


def known(prop):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('known: property=%s ' % prop): out.append(l.strip().split(' ', 2)[2])
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[prop]
    thorough = tier == 'thorough'
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    rc = 2
    try: rc = decide(prop, cfg, tier, seed, thorough, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, cfg, tier, seed, thorough, tmp):
    search = Search(prop, cfg, tmp)
    TPROOF = 1500 if thorough else 360      # time for all obligations
    budget = 60 if thorough else 15
    obs = []; failed = []; vac = []; units = []; outside = []; backend = {}; solver_s = 0.0; under = []
    progs = {}; found = None
    for u in cfg['units']:
        src = os.path.join(REPO, u.get('src', 'src'))
        name = u.get('name', u['layer'])
        try:
            if src not in progs: progs[src] = Program(src)
            r = check.Run(progs[src], u['specs'], set(u['layer'].split(',')), {k: True for k in u.get('opts', [])}, [builtins_.Words(u.get('words', WORDS)), textin.Lines(), builtins_.AnyInput(), tokens.Tokens(u.get('tokens', 'file'))])
            r.generate(u['functions'])
        except Untranslatable as e:
            log('unit %s outside the verifier: %s' % (name, e)); outside.append('%s: %s' % (name, e)); continue
        res = r.discharge(budget=budget, deadline=T0 + TPROOF)
        bad = [i for i, (o, x) in enumerate(res) if x[0] != 'proved']
        if bad and found is None: found = search.run(20, seed)
        if bad and found is None and len(bad) <= 12:      # once more, alone and with more time: a slow machine is not a violation
            import concurrent.futures as cf
            axs = check.axioms(r.ctx); pre = check.prelude(r.ctx)
            def again(i):
                if time.time() > T0 + TPROOF: return i, res[i][1]
                o = res[i][0]
                return i, check.solve(r.ctx, o, check.axioms(r.ctx, o.lemma) if getattr(o, 'lemma', None) is not None else axs, pre, budget * 2)
            with cf.ThreadPoolExecutor(4) as ex:
                for i, x in ex.map(again, bad): res[i] = (res[i][0], x)
        cov = r.vacuity(timeout=3)
        v = [o.desc for o, x in cov if x == 'unsat']
        vac += ['%s: %s' % (name, d) for d in v]
        nb = 0
        for o, x in res:
            solver_s += x[2]
            obs.append((name, o, x))
            if x[0] == 'proved': backend[x[1]] = backend.get(x[1], 0) + 1
            else: failed.append((name, o, x)); nb += 1
        under += [f for f in u['functions'] if f not in under]
        units.append({'unit': name, 'contracts': u['specs'], 'functions': u['functions'], 'obligations': len(res), 'discharged': len(res) - nb, 'points_checked_for_contradiction': len(cov), 'contradictory': len(v)})
        log('unit %s: %d obligations, %d discharged, %d contradictory points of %d' % (name, len(res), len(res) - nb, len(v), len(cov)))
        if not res: outside.append(name + ': no obligations')
    tproof = time.time() - T0
    bounded = list(cfg.get('bounded', []))
    violations = 0; status = 'proved'
    if vac: log('contradictory contracts:', vac)
    if failed:
        status = 'failed'
        for n, o, x in failed[:10]: log('NOT DISCHARGED %s: %s:%s %s %s' % (n, o.fn, o.line, o.desc, o.stack))
        if found is None: found = search.run(270 if not thorough else 900, seed + 7)
    elif outside or vac:
        status = 'outside the verifier'
        found = search.run(200 if not thorough else 1200, seed)
    elif bounded:
        found = search.run(cfg.get('bounded_s', 60) if not thorough else 600, seed)
    elif thorough: found = search.run(300, seed)
    else:
        if search.p and search.p.poll() is None: search.p.kill()
        if search.p: search.p.wait()
    rc = 0
    kf = known(prop)
    if found is not None or failed:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', '%s-%s.txt' % (prop, tier))
        with open(path, 'w') as f:
            f.write('property %s\nsources %s\n' % (prop, search.src))
            for n, o, x in failed: f.write('FAILED OBLIGATION [%s] %s:%s %s %s\n  goal: %s\n  verifier: %s\n' % (n, o.fn, o.line, o.desc, o.stack, o.goal[:2000], x[3] or ('no back end proved it within its time (%.1fs)' % x[2])))
            if found is not None: f.write('\nFAILING INPUT ON THE REAL CODE (%s driver, replay with: bash /verif/replay/build.sh %s DIR %s; DIR/driver %s SEED 1 5 OUT WORKDIR)\n%s\n' % (search.kind, search.src, search.kind, prop, found))
            else: f.write('\nNo failing input was found on the real code in %d cases.\n' % search.cases)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found is not None else ' no-failing-input-found'), flush=True)
        rc = 1; violations = 1
    for k in kf: print('KNOWN-FINDING: property=%s %s' % (prop, k))
    cov = {
        'obligations': len(obs), 'discharged': len(obs) - len(failed),
        'checker_cmd': 'cd /verif && python3 run.py %s %s' % (prop, tier),
        'trusted_base': COMMON_TB + cfg.get('trusted', []),
        'functions_under_contract': under, 'units': units,
        'discharged_by_back_end': backend, 'solver_seconds': round(solver_s, 1), 'proof_wall_s': round(tproof, 1),
        'outside_the_verifier': outside, 'contradictory_points': vac,
        'status': status,
    }
    if cfg.get('notes'): cov['what_is_proved'] = cfg['notes']
    if bounded or search.secs:
        cov['bounded_search'] = {'label': 'bounded, not counted as proved', 'stands_in_for': bounded, 'cases_on_the_real_code': search.cases, 'over_time_per_case': search.over, 'seconds': round(search.secs, 1)}
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'proof' if status != 'outside the verifier' else 'other',
          'coverage': cov, 'assumptions': COMMON_AS + cfg.get('assumptions', []), 'wall_s': round(time.time() - T0, 1), 'violations': violations}
    if ev['level'] == 'other': cov['explanation'] = 'source outside the verifier this run: bounded search of the real code only'
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    log('%s %s: %d/%d obligations discharged, bounded cases %d, exit %d' % (prop, status, len(obs) - len(failed), len(obs), search.cases, rc))
    return rc


main()
