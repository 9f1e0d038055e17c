"""Discharging obligations: quantifier instantiation, z3 then cvc5."""
import z3, time, os
from core import *
import strabs
from builtins_js import member

def inst_round(ex, st, done):
    new = False
    # index terms of instantiated iterations (witnesses found inside loop bodies)
    for k, xs in list(st.insts.items()):
        if isinstance(k, tuple) and k[0] == 'xi':
            for x in xs: st.add_idx(x)
    for f in list(st.foralls):
        k = f.kind; kw = f.kw
        if k in ('loop', 'ct', 'compempty', 'compfirst', 'cmem'):
            L = kw['loop']; dom = kw['dom']
            srt = L.dom.idx.sort()
            for a in list(st.idx):
                if a.sort() != srt: continue
                key = (id(f), a.get_id())
                if key in done: continue
                done[key] = (f, a); new = True
                n0 = len(st.pc)
                if k == 'loop':
                    ex.instantiate(st, L, a, dom)
                    if not z3.is_true(f.guard): st.fact(Implies(And(f.guard, dom.at(a)), T))
                elif k == 'ct':
                    sub = ex.instantiate(st, L, a, dom)
                    t, h, v = ex.touch(st, sub.ops(kw['ops']), kw['key'])
                    c = And(dom.at(a), t)
                    st.fact(Implies(c, kw['p'] if srt != Int else And(kw['p'], a <= kw['j'])))
                elif k == 'compempty':
                    sub = ex.instantiate(st, L, a, dom)
                    st.fact(Implies(And(kw['n'] == 0, dom.at(a)), ex.alen(st, sub.segs(kw['segs'])) == 0))
                elif k == 'compfirst':
                    sub = ex.instantiate(st, L, a, dom)
                    st.fact(Implies(And(kw['n'] > 0, dom.at(a), ex.alen(st, sub.segs(kw['segs'])) > 0), kw['w'] <= a))
                elif k == 'cmem':
                    sub = ex.instantiate(st, L, a, dom)
                    st.fact(Implies(And(dom.at(a), member(ex, st, sub.segs(kw['segs']), kw['v'])), kw['p']))
        elif k == 'keysempty':
            for a in list(st.idx):
                if a.sort() != Str: continue
                key = (id(f), a.get_id())
                if key in done: continue
                done[key] = (f, a); new = True
                h, _ = ex.rread(st, kw['rep'], a)
                st.fact(Implies(kw['n'] == 0, Not(h)))
        elif k == 'amem':
            for a in list(st.idx):
                if a.sort() != Int: continue
                key = (id(f), a.get_id())
                if key in done: continue
                done[key] = (f, a); new = True
                e = ex.aelem(st, kw['arr'], a)
                st.fact(Implies(And(a >= kw['lo'], a < kw['hi'], eqt(e, kw['v'])), kw['p']))
        elif k == 'setone':
            pass
    return new

def check(ex, st, cond, ms):
    t0 = time.time(); q = strabs.query([t for t, b in st.pc] + [Not(cond)], ms * RLPERMS, ms * 5); ex.prove_time += time.time() - t0
    if q == 'unsat': return z3.unsat, None
    sol = z3.Solver(); sol.set('rlimit', ms * RLPERMS); sol.set('timeout', ms * 5)
    for t, b in st.pc: sol.add(t)
    sol.add(Not(cond))
    t0 = time.time(); r = sol.check(); ex.prove_time += time.time() - t0
    return r, sol

def prove(ex, o, ms=8000, rounds=int(os.environ.get("ROUNDS", 3))):
    """sets o.status in proved|failed|unknown"""
    t0 = time.time()
    o.backend = 'z3'
    if z3.is_true(o.cond):
        o.status = 'proved'; o.backend = 'simplifier'; o.time = time.time() - t0; o.st = None; return
    st = o.st.clone()
    # index terms: everything known plus skolem keys
    r, sol = check(ex, st, o.cond, 1500)
    n = 0; done = {}
    while r != z3.unsat and n < rounds:
        if r == z3.unknown and cvc5_check(sol, 3000) == 'unsat':
            o.backend = 'cvc5'; o.status = 'proved'; o.note = '%d facts, %d rounds' % (len(st.pc), n); o.time = time.time() - t0; o.st = None; return
        if not inst_round(ex, st, done): break
        n += 1
        r, sol = check(ex, st, o.cond, ms if n == rounds else 3000)
        if len(st.pc) > 6000: break
    if r != z3.unsat and r != z3.sat: r, sol = check(ex, st, o.cond, ms)
    if r == z3.unsat: o.status = 'proved'
    elif r == z3.sat:
        o.status = 'failed'
        try: o.model = sol.model()
        except Exception: pass
    else:
        c = cvc5_check(sol, ms)
        o.backend = 'cvc5'
        o.status = 'proved' if c == 'unsat' else ('failed' if c == 'sat' else 'unknown')
    o.note = '%d facts, %d rounds' % (len(st.pc), n)
    o.time = time.time() - t0
    if o.status == 'proved': o.st = None

def refuted(ex, st0, rounds=3):
    """is the state contradictory? (for the vacuity check: all quantified facts instantiated, then one query)"""
    st = st0.clone(); done = {}
    for _ in range(rounds):
        if not inst_round(ex, st, done) or len(st.pc) > 4000: break
    q = strabs.query([t for t, b in st.pc], 3000 * RLPERMS, 15000)
    if q != 'unknown': return q == 'unsat'
    r, sol = check(ex, st, F, 1000)
    return r == z3.unsat
