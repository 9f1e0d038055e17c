#!/usr/bin/env python3
"""Decides one property: proves its contracts over /repo's current source, and runs the same contracts concretely against
the real code. Usage: check.py ID [--tier quick|thorough] ; check.py --replay FILE"""
import sys, os, json, re, subprocess, tempfile, time, shutil, argparse, concurrent.futures as cf
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = 'python3-vt' if shutil.which('python3-vt') else '/opt/veriftools/pyvenv/bin/python3'
ENV = dict(os.environ, NODE_PATH=os.path.join(REPO, 'node_modules') + ':/repo/node_modules', VERIF_REPO=REPO)

def labels(contract, pid):
    src = open(contract).read()
    return re.findall(r"contract\(\s*'%s'\s*,\s*'([^']+)'" % pid, src)
def env_for(absent): return dict(ENV, VERIF_ABSENT=','.join(absent)) if absent else ENV
def run_symbolic(contract, pid, budget, ms, tmp, absent, only=None, par=6):
    """one verifier process per contract, in parallel"""
    ls = only or labels(contract, pid); res = []
    def one(l):
        out = os.path.join(tmp, 'sym-%d.json' % ls.index(l))
        t0 = time.time()
        try:
            p = subprocess.run([PY, os.path.join(VERIF, 'engine/verify.py'), contract, '--prop', pid, '--only', l, '--exact', '--budget', str(budget), '--ms', str(ms), '--json', out], capture_output=True, text=True, timeout=budget + (120 if not only else 60), env=env_for(absent.get(l)))
            r = json.load(open(out))
        except subprocess.TimeoutExpired: r = {'obligations': [], 'errors': [[l, 'time budget exceeded', None]], 'covers': {}, 'functions': [], 'assumptions': [], 'contracts': [], 'bounded': [], 'solver_time': 0}
        except Exception as e: r = {'obligations': [], 'errors': [[l, 'verifier failed: %s %s' % (e, p.stderr[-400:]), None]], 'covers': {}, 'functions': [], 'assumptions': [], 'contracts': [], 'bounded': [], 'solver_time': 0}
        r['label'] = l; return r
    with cf.ThreadPoolExecutor(par) as ex: res = list(ex.map(one, ls))
    return res
def dictionary(contract):
    src = open(contract).read(); d = set(); n = set()
    files = set()
    for m in re.findall(r"['\"]repo/([^'\"]+)['\"]", src) + re.findall(r"internal\(\s*'([^']+)'", src): files.add(os.path.join(REPO, 'packages', m))
    for f in re.findall(r"['\"]@api-ts/([\w-]+)['\"]", src):
        dd = os.path.join(REPO, 'packages', f, 'src'); files |= {os.path.join(dd, x) for x in os.listdir(dd)} if os.path.isdir(dd) else set()
    for f in files:
        try: t = open(f).read()
        except OSError: continue
        for a, b in re.findall(r"'((?:[^'\\\n]|\\.)*)'|\"((?:[^\"\\\n]|\\.)*)\"", t):
            x = a or b
            if 0 < len(x) <= 40 and '\\' not in x: d.add(x)
        for a in re.findall(r"`([^`$\\]{1,30})", t): d.add(a)
        for a in re.findall(r"[?.]?\.(\w+)\b|\b(\w+)\s*:", t):
            for y in a:
                if 1 < len(y) < 24 and len(d) < 900: d.add(y)
        for a in re.findall(r"(?<![\w.])(\d{1,6})(?![\w.])", t): n.add(int(a))
    return sorted(d), sorted(n)
def bundle(contract, tmp, absent=None):
    out = os.path.join(tmp, 'bundle-absent.cjs' if absent else 'bundle.cjs')
    p = subprocess.run(['node', os.path.join(VERIF, 'runtime/bundle.mjs'), contract, out], capture_output=True, text=True, env=env_for(absent))
    return (out, None) if p.returncode == 0 else (None, p.stderr[-1500:])
def run_concrete(b, opts, limit):
    """returns (dones, fails, problem)"""
    dones, fails, problem, at = [], [], None, None
    cmd = ['node', '--max-old-space-size=3000', '--stack-size=2000', b, json.dumps(opts)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=ENV, cwd=os.path.dirname(b))
    import threading
    def kill():
        nonlocal problem
        problem = 'did not terminate'; p.kill()
    tm = threading.Timer(limit, kill); tm.start()
    try:
        for line in p.stdout:
            try: o = json.loads(line)
            except ValueError: continue
            if 'at' in o or 'start' in o: at = o
            elif 'fail' in o: fails.append(o['fail'])
            elif 'done' in o: dones.append(o)
            elif 'crash' in o: problem = 'runner crashed: ' + o['crash']
        err = p.stderr.read(); rc = p.wait()
    finally: tm.cancel()
    if rc != 0 and problem is None: problem = 'runner ended with %s: %s' % (rc, err[-600:])
    return dones, fails, problem, at
def config(contract):
    m = re.search(r'//\s*@check\s+(\{.*\})', open(contract).read())
    return json.loads(m.group(1)) if m else {}
def known():
    f = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(f)) if os.path.exists(f) else {'findings': [], 'fixed': []}
def match_known(kf, pid, contract, label, fail=None):
    for k in kf['findings']:
        if k['property'] != pid or k.get('contract') not in (None, contract) or k.get('label') not in (None, label): continue
        if fail is not None and k.get('inputs_match') and not re.search(k['inputs_match'], json.dumps(fail.get('inputs'))): continue
        return k
    return None
def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay'); ap.add_argument('--no-symbolic', action='store_true'); ap.add_argument('--seconds', type=float); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tmp = tempfile.mkdtemp(prefix='verif-'); rc = 3
    try:
        if a.replay: rc = replay(a.replay, tmp)
        else: rc = check(a, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)
def replay(f, tmp):
    r = json.load(open(f)); contract = os.path.join(VERIF, 'contracts', r['property'] + '.ts')
    if 'iteration' not in r: print('the replay file names failed obligations only:'); print(json.dumps(r.get('obligations'), indent=1)[:4000]); return 1
    b, err = bundle(contract, tmp, config(contract).get('absent', {}).get(r['contract']))
    if not b: print(err); return 2
    d, n = dictionary(contract)
    dones, fails, problem, _ = run_concrete(b, {'property': r['property'], 'label': r['contract'], 'seed': r['seed'], 'first': r['iteration'], 'iterations': 1, 'seconds': 60, 'dict': r.get('dict', d), 'nums': r.get('nums', n)}, 90)
    if fails or problem: print('REPRODUCED', json.dumps(fails)[:3000], problem or ''); return 1
    print('not reproduced on the current tree'); return 0
def check(a, tmp):
    t0 = time.time(); pid = a.id; tier = 'thorough' if a.tier == 'thorough' else 'quick'; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    contract = os.path.join(VERIF, 'contracts', pid + '.ts')
    conf = config(contract); absent = conf.get('absent', {})
    secs = a.seconds or (conf.get('seconds', 15) if tier == 'quick' else 240)
    budget = conf.get('budget', 240) if tier == 'quick' else 500
    ms = 8000 if tier == 'quick' else 20000
    d, nums = dictionary(contract)
    b, berr = bundle(contract, tmp)
    ba, berr2 = bundle(contract, tmp, sorted({x for v in absent.values() for x in v})) if absent else (None, None)
    berr = berr or berr2
    def pick(l): return ba if absent.get(l) else b
    fails, problem, dones = [], None, []
    opts = {'property': pid, 'seed': seed, 'seconds': secs, 'dict': d, 'nums': nums}
    with cf.ThreadPoolExecutor(2) as ex:
        fs = ex.submit(run_symbolic, contract, pid, budget, ms, tmp, absent) if not a.no_symbolic else None
        fc = ex.submit(run_concrete, b, dict(opts, not_labels=list(absent)), secs * 2 + 60) if b else None
        sym = fs.result() if fs else []
        if fc: dones, fails, problem, at = fc.result()
        if fc and ba and not fails and not problem:
            d2, fails, problem, at = run_concrete(ba, dict(opts, labels=list(absent)), secs * 2 + 60); dones += d2
    if berr: problem = 'the contracts do not compile against the current tree: ' + berr
    kf = known(); bounded_ok = conf.get('bounded_contracts', [])
    obls = [o for r in sym for o in r['obligations']]
    bad = [o for o in obls if o['status'] != 'proved']
    errs = [e for r in sym for e in r['errors']]
    errs = [e for e in errs if not (e[0] in bounded_ok)]
    bad = [o for o in bad if o['contract'] not in bounded_ok]
    printed = {}
    def is_known(contract_, label, f=None):
        k = match_known(kf, pid, contract_, label, f)
        if k: printed[k['what']] = k
        return k is not None
    fails = [f for f in fails if not is_known(f['contract'], f['label'], f)]
    bad2 = [o for o in bad if not is_known(o['contract'], o['label'])]
    if (bad2 or errs) and not fails and b and not problem:
        # search longer for a failing input of the contracts whose proof broke
        for l in sorted({o['contract'] for o in bad2} | {e[0] for e in errs if e[0] in labels(contract, pid)})[:6]:
            dn, f2, p2, at2 = run_concrete(pick(l), dict(opts, label=l, seconds=45 if tier == 'quick' else 120, seed=seed + 1), 200)
            dones += dn; fails += [f for f in f2 if not is_known(f['contract'], f['label'], f)]; problem = problem or p2
            if p2: at = at2
            if fails or problem or time.time() - t0 > 600: break
    def broken(r): return any(o['status'] != 'proved' and not is_known(o['contract'], o['label']) for o in r['obligations']) or r['errors']
    again = [r['label'] for r in sym if broken(r) and r['label'] not in bounded_ok]
    if again and not fails and not problem and len(again) <= 4 and time.time() - t0 < 600:
        # solver time-outs depend on the load of the machine: one more attempt with longer limits and less parallelism
        left = max(60, 720 - (time.time() - t0))
        re2 = {r['label']: r for r in run_symbolic(contract, pid, left - 20, ms * 3, tmp, absent, only=again, par=4)}
        sym = [re2.get(r['label'], r) if r['label'] in again else r for r in sym]
        obls = [o for r in sym for o in r['obligations']]
        errs = [e for r in sym for e in r['errors'] if not (e[0] in bounded_ok)]
        bad2 = [o for o in obls if o['status'] != 'proved' and o['contract'] not in bounded_ok and not is_known(o['contract'], o['label'])]
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    lines = []; viol = []
    rp = os.path.join(VERIF, 'replays', pid + '.json')
    if fails:
        f = min(fails, key=lambda f: len(json.dumps(f['inputs'])))
        json.dump(dict(f, dict=d, nums=nums, obligations=bad2[:20], errors=errs[:10]), open(rp, 'w'), indent=1)
        viol.append({'contract': f['contract'], 'label': f['label'], 'replay': rp})
        print('failing input for contract "%s", obligation "%s": %s %s' % (f['contract'], f['label'], json.dumps(f['inputs'], ensure_ascii=False)[:1500], json.dumps(f.get('detail'), ensure_ascii=False)[:600]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
    elif problem == 'did not terminate' and at and 'at' in at:
        json.dump({'property': pid, 'contract': at['at'], 'label': 'terminates', 'seed': seed, 'note': 'the run did not terminate near seed %s' % at['seed'], 'obligations': bad2[:20]}, open(rp, 'w'), indent=1)
        viol.append({'contract': at['at'], 'label': 'terminates', 'replay': rp}); lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
    elif bad2 or errs or problem:
        json.dump({'property': pid, 'obligations': bad2[:60], 'errors': errs[:20], 'problem': problem}, open(rp, 'w'), indent=1)
        for o in bad2[:8]: print('obligation not discharged: contract "%s": %s (%s) %s' % (o['contract'], o['label'], o['status'], (o.get('exception') or '')[:200]))
        for e in errs[:8]: print('verifier: contract "%s": %s' % (e[0], e[1]))
        if problem: print('concrete leg:', problem[:800])
        viol.append({'obligations': [o['label'] for o in bad2[:20]], 'errors': errs[:5], 'replay': rp})
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    elif os.path.exists(rp): os.remove(rp)
    for w, k in printed.items(): print('KNOWN-FINDING: property=%s %s' % (pid, w))
    back = {}
    for o in obls:
        if o['status'] == 'proved': back[o['backend'] or 'generator'] = back.get(o['backend'] or 'generator', 0) + 1
    level = conf.get('level', 'proof')
    runs = sum(x['runs'] for x in dones); checks = sum(x['checks'] for x in dones)
    sized = set(conf.get('size_bounded', [])) | set(bounded_ok)  # never counted as proved
    full = [o for o in obls if o['contract'] not in sized]
    cov = {'obligations': len(full), 'discharged': len([o for o in full if o['status'] == 'proved']),
           'bounded_obligations': len(obls) - len(full), 'bounded_obligations_discharged': len([o for o in obls if o['contract'] in sized and o['status'] == 'proved']),
           'checker_cmd': 'python3-vt engine/verify.py contracts/%s.ts' % pid,
           'trusted_base': ['engine/dump.js (TypeScript compiler front end), engine/*.py (verification condition generator)', 'z3 %s (python3-vt), cvc5 as second solver' % '', 'models/*.ts: assumed contracts of external libraries'] + (['specification functions and assumed contracts named in contracts/%s.ts' % pid] if conf.get('assumed') else []),
           'discharged_by': back, 'functions_under_contract': sorted({f for r in sym for f in r['functions']}),
           'contracts': [c for r in sym for c in r['contracts']], 'solver_time_s': round(sum(r.get('solver_time', 0) for r in sym), 1),
           'vacuity_covers': {k: v for r in sym for k, v in r['covers'].items()},
           'bounded': sorted({x for r in sym for x in r.get('bounded', [])} | set('bounded contract: ' + x for x in sized)),
           'evaluations': max(runs, 1), 'distinct_nontrivial': sum(x['distinct'] for x in dones),
           'rule': 'concrete leg: the same contracts executed against the real code and real libraries on generated inputs; distinct = distinct generated inputs (hash) of runs that passed all assumptions',
           'samples': [s for x in dones for s in x['samples'][:1]][:6], 'concrete_checks': checks}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - t0, 1),
          'assumptions': sorted({x for r in sym for x in r['assumptions']} | set(conf.get('assumptions', [])) | {'numbers are mathematical integers in the symbolic leg', 'strings are sequences of code points in the symbolic leg', 'no getters, proxies or prototype pollution in inputs'}),
          'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d more on bounded sizes (%s), %d concrete runs, %d concrete checks, %.1fs' % (pid, cov['obligations'], cov['discharged'], cov['bounded_obligations_discharged'], back, runs, checks, time.time() - t0))
    for l in lines: print(l)
    return 1 if lines else 0
if __name__ == '__main__': main()
