"""Symbolic leg: run the contracts of one file and discharge every obligation."""
import os, sys, json, time, traceback
if os.environ.get('PYTHONHASHSEED') != '0': os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
from core import *
import execu, prove
from execu import Ex, Thr, Susp, Exit, Obl, ABR
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
PKGS = {}
for p in os.listdir(os.path.join(REPO, 'packages')): PKGS['@api-ts/' + p] = os.path.join(REPO, 'packages', p, 'src', 'index.ts')

def resolver(frompath, spec):
    if spec == 'ghost': return ('native', 'ghost')
    if spec.startswith('repo/'): return os.path.join(REPO, 'packages', spec[5:])
    if spec.startswith('.'):
        base = os.path.normpath(os.path.join(os.path.dirname(frompath), spec))
        for c in (base, base + '.ts', os.path.join(base, 'index.ts'), base[:-3] + '.ts' if base.endswith('.js') else base):
            if os.path.isfile(c): return c
        return None
    if spec in PKGS: return PKGS[spec]
    nm = spec[5:] if spec.startswith('node:') else spec
    f = os.path.join(VERIF, 'models', nm.replace('/', '__') + '.ts')
    if os.path.isfile(f): return f
    f = os.path.join(VERIF, 'models', nm.replace('/lib/', '__').replace('/', '__') + '.ts')
    if os.path.isfile(f): return f
    return None

def preload(ex, path):
    """parse everything reachable in one go"""
    todo = [path]; seen = set()
    while todo:
        batch = [p for p in todo if p not in seen]; seen |= set(batch); todo = []
        if not batch: break
        ex.load_asts(batch)
        for p in batch:
            for x in ex.asts[p]['body']:
                sp = x.get('from')
                if sp:
                    r = resolver(p, sp)
                    if isinstance(r, str) and r not in seen: todo.append(r)

def run(path, prop=None, budget=600, only=None, verbose=False, ms=8000, exact=False):
    t0 = time.time()
    res = {'obligations': [], 'errors': [], 'covers': {}, 'functions': [], 'assumptions': [], 'contracts': []}
    ex = Ex(resolver)
    ex.repo_path = lambda p: os.path.join(REPO, 'packages', p)
    ex.deadline = t0 + budget
    try:
        preload(ex, path)
        ex.curfile = path
        for p in sorted(ex.asts):
            if p.startswith(os.path.join(VERIF, 'models')): ex.module(p)  # facts about what models assume belong to the initial state
        ex.module(path)
    except (Unsupported, Budget) as e:
        res['errors'].append(('<module>', '%s: %s' % (type(e).__name__, e), getattr(e, 'line', None)))
        return ex, res
    for (cid, label, fn, opts) in ex.contracts:
        if prop and cid != prop: continue
        if only and (label != only if exact else only not in label): continue
        ex.unordered = False
        ex.current = label; nob = len(ex.obls); tc = time.time()
        err = None
        try:
            st = ex.st0.clone()
            outs = ex.call(st, fn, UNDEF, ())
            nc = 0
            for s1, v in outs:
                if isinstance(v, Thr): ex.obls.append(Obl('contract runs to completion (no unexpected exception)', s1, F, None)); s1.meta['exc'] = v.v
                elif isinstance(v, Susp): ex.obls.append(Obl('contract runs to completion (nothing awaited for ever)', s1, F, None))
                elif isinstance(v, Exit): ex.obls.append(Obl('contract runs to completion (no process exit)', s1, F, None))
                else:
                    # async contracts return a promise
                    for s2, l, k in ex.resolve_leaf(s1, v):
                        h = ex.hget(s2, l) if k == 'obj' else None
                        if h is not None and h.kind == 'promise' and h.data['state'] != 'fulfilled':
                            ex.obls.append(Obl('contract runs to completion (%s)' % h.data['state'], s2, F, None)); s2.meta['exc'] = h.data['val']
                        else: nc += 1
            if nc == 0 and not outs: err = 'vacuous: no path through the contract'
        except Unsupported as e: err = 'outside the fragment: %s (line %s)' % (e, e.line or ex.curline)
        except Budget as e: err = str(e)
        except RecursionError: err = 'outside the fragment: recursion too deep'
        except z3.Z3Exception as e: err = 'generator error: %s (line %s)' % (e, ex.curline)
        except (KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            err = 'generator error: %s %s (line %s)' % (type(e).__name__, e, ex.curline)
            if verbose: traceback.print_exc()
        mine = ex.obls[nob:]
        if not err:
            want = stated(ex, fn); got = {o.label for o in mine} | {('cover', l) for c, l in ex.covers if c == label}
            for w in sorted(want - got, key=str): res['errors'].append((label, 'vacuous: %s never reached' % (w if isinstance(w, str) else 'cover "%s"' % w[1]), None))
        if not err and not any(c == label for c, _ in ex.covers) and mine: ex.covers.setdefault((label, '<obligations>'), [o.st for o in mine[:4]])
        tx = time.time() - tc
        if verbose: print('  [%s] %s: %d obligations generated in %.1fs%s' % (cid, label, len(mine), tx, ' ERROR ' + err if err else ''), flush=True)
        for o in mine:
            try:
                if time.time() > t0 + budget: o.status = 'unknown'; o.note = 'time budget'
                else: prove.prove(ex, o, ms)
            except (Unsupported, Budget) as e: o.status = 'unknown'; o.note = str(e)
            except z3.Z3Exception as e: o.status = 'unknown'; o.note = 'z3: %s' % e
            d = {'contract': label, 'label': o.label, 'line': o.where, 'status': o.status, 'backend': o.backend, 'time': round(o.time, 3), 'note': o.note}
            if o.status != 'proved':
                d['model'] = model_text(ex, o)
                if o.st is not None and 'exc' in o.st.meta: d['exception'] = exc_text(ex, o.st, o.st.meta['exc'])
            res['obligations'].append(d)
            o.st = None
        if err: res['errors'].append((label, err, None))
        elif not mine: res['errors'].append((label, 'vacuous: no obligation generated', None))
        res['contracts'].append({'property': cid, 'label': label, 'obligations': len(mine), 'seconds': round(time.time() - tc, 2)})
    for (c, l), states in ex.covers.items():
        # a cover point is alive when "false" is not derivable there with all quantified facts instantiated
        v = False
        for st in states:
            try: dead = prove.refuted(ex, st)
            except (Unsupported, Budget, z3.Z3Exception): dead = False
            if not dead: v = True; break
        res['covers']['%s / %s' % (c, l)] = v
        if not v: res['errors'].append((c, 'vacuous: cover "%s" unreachable' % l, None))
    res['functions'] = sorted({'%s:%s (%s)' % (p.replace(REPO + '/', ''), l, n) for (p, n, l) in ex.touched if p.startswith(REPO)})
    res['assumptions'] = sorted(ex.assumptions); res['bounded'] = sorted(ex.bounded)
    res['solver_time'] = round(ex.solver_time + ex.prove_time, 2); res['solver_calls'] = ex.nchecks
    res['havoced'] = len(ex.havoced)
    res['wall'] = round(time.time() - t0, 2)
    return ex, res
def stated(ex, fn):
    """labels of the ensures/same/cover calls written in the text of a contract"""
    out = set()
    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'call' and x['f'].get('k') == 'id' and x['f']['n'] in ('ensures', 'same', 'cover') and x['a'] and x['a'][0].get('k') == 'str':
                out.add(x['a'][0]['v'] if x['f']['n'] != 'cover' else ('cover', x['a'][0]['v']))
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    h = ex.st0.heap[addr_of(fn)]
    walk(h.data['node'])
    return out
def exc_text(ex, st, v):
    try:
        a = addr_of(v)
        if a is not None:
            h = st.heap[a]
            for o in h.ops:
                if o[0] == 'set' and sconst(o[1]) == 'message': return str(o[2])[:300]
        return str(v)[:300]
    except Exception: return '?'
def model_text(ex, o):
    if o.model is None: return None
    out = []
    try:
        for n, t in ex.inputs[-60:]:
            v = o.model.eval(t)
            if v.get_id() != t.get_id(): out.append('%s = %s' % (n, str(v)[:200]))
    except Exception as e: out.append(str(e))
    return out
if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('file'); ap.add_argument('--only'); ap.add_argument('--prop'); ap.add_argument('-v', action='store_true'); ap.add_argument('--budget', type=int, default=600); ap.add_argument('--json'); ap.add_argument('--exact', action='store_true'); ap.add_argument('--ms', type=int, default=8000)
    a = ap.parse_args()
    ex, r = run(os.path.abspath(a.file), a.prop, a.budget, a.only, True, a.ms, a.exact)
    if a.json: json.dump(r, open(a.json, 'w'))
    bad = [o for o in r['obligations'] if o['status'] != 'proved']
    for o in bad[:40]: print('  NOT PROVED', json.dumps(o)[:1500])
    for e in r['errors']: print('  ERROR', e)
    print('%d obligations, %d proved, %d errors, covers %s, %.1fs (solver %.1fs, %d calls)' % (len(r['obligations']), len(r['obligations']) - len(bad), len(r['errors']), r['covers'], r.get('wall', 0), r.get('solver_time', 0), r.get('solver_calls', 0)))
    for f in r['functions']: print('   fn', f)
    if r.get('bounded'): print('   bounded', r['bounded'])
