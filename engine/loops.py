"""Loop rule: a loop over a collection becomes a comprehension over its index set.

The body is executed once at a symbolic index from an abstracted state (everything the body modifies is replaced by an
opaque prefix); the abstraction is a fixpoint over the set of modified locations, so no invariant has to be supplied.
What one iteration appends to each modified location becomes a `comp` over the whole index set; early exits become
states at a Skolem index with the comprehension restricted to earlier indices."""
import z3
from core import *
import execu
from execu import Thr, Susp, Exit, Ret, Brk, Cnt, ABR

class Mod:
    def __init__(s): s.cells = {}; s.heap = {}; s.trace = False; s.keys = {}; s.idxk = {}
    def size(s): return (len(s.cells), len(s.heap), s.trace)

def prefop(pid, ctx, keys=None, idxk=False): return ('pref', pid, ctx) if keys is None and not idxk else ('pref', pid, ctx, keys, idxk)

def touched(ops):
    """constant keys an operation list can write, None if it can write others"""
    out = set()
    for o in ops:
        if o[0] in ('set', 'del'):
            k = sconst(o[1])
            if k is None: return None
            out.add(k)
        elif o[0] == 'guard':
            ks = touched(o[2])
            if ks is None: return None
            out |= ks
        else: return None
    return out
def newkeys(h0, h):
    """constant keys written by h relative to h0, None when unknown"""
    if h.kind != 'object' or h0.kind != 'object' or not is_prefix_rep(h0, h):
        if h.kind == h0.kind == 'object' and h.base is None and h0.base is None and len(h0.ops) and len(h.ops) >= len(h0.ops) - 1 and all(x is y or x == y for x, y in zip(h0.ops[:-1], h.ops)): return touched(h.ops[len(h0.ops) - 1:])
        return None
    return touched(h.ops[len(h0.ops):])

def mkpref(ex, h, pid, ctx, keys=None, idxk=False):
    if h.kind in ('object', 'map', 'class', 'closure'):
        return h.with_(ops=h.ops + (prefop(pid, ctx, frozenset(keys) if keys is not None and h.kind == 'object' else None, bool(idxk)),))
    if h.kind in ('array', 'set'):
        return h.with_(segs=h.segs + (prefop(pid, ctx),), ops=h.ops)
    raise Unsupported('loop modifies a ' + h.kind)

def entry_obj(ex, st, k, hnew):
    """heap object before the loop for key k"""
    h = st.heap.get(k)
    if h is not None: return h
    if isinstance(k, tuple):
        t = hnew.data['term']
        return HObj(hnew.kind, base=t, segs=(('arr', t),) if hnew.kind == 'array' else (), data=dict(hnew.data))
    return None

def sym_loop(ex, st, dom, elem, body, line):
    if not ex.feasible(st, dom.cond, 300):
        # no iteration possible: skip the body (sound: condition unsatisfiable)
        return [(st, None)]
    mods = Mod(); pid = uid()
    nobl = len(ex.obls); covers0 = dict(ex.covers)
    for rounds in range(12):
        del ex.obls[nobl:]
        outs, info = run_once(ex, st, dom, elem, body, mods, pid, line)
        grew = False
        for o, c in outs:
            for k, v in o.cells.items():
                if k in st.cells:
                    if k in mods.cells:
                        continue
                    if not v.eq(st.cells[k]):
                        if k not in mods.cells: mods.cells[k] = None; grew = True
            for k, h in o.heap.items():
                h0 = st.heap.get(k)
                if h0 is None:
                    if isinstance(k, tuple) and k not in mods.heap and not involves(h.data.get('term'), dom.idx):
                        mods.heap[k] = h; grew = True
                    continue
                if k not in mods.heap:
                    if h is not h0: mods.heap[k] = h; mods.keys[k] = newkeys(h0, h); grew = True
                elif mods.keys.get(k) is not None and info['it_heap'][k] is not h:
                    nk = newkeys(info['it_heap'][k], h)
                    if nk is None: mods.keys[k] = None; grew = True
                    elif not nk <= mods.keys[k]: mods.keys[k] = mods.keys[k] | nk; grew = True
            if o.trace is not st.trace and not mods.trace: mods.trace = True; grew = True
        for k, (t, t2, kk) in info['abs'].items():
            if kk is None: continue
            for o, c in outs:
                if c is not None: continue
                v = o.cells[k]
                if not z3.is_true(simp(isk(kk, v))) and not ex.implied(o, isk(kk, v)):
                    mods.cells[k] = ('scalar', None); grew = True; break
        # objects written by each iteration at that iteration's own key only: earlier iterations wrote other keys
        if not grew and dom.idx.sort() == Str:
            for k in mods.heap:
                if mods.keys.get(k) is not None or mods.idxk.get(k) is False: continue
                ha = info['it_heap'][k]
                if ha.kind not in ('object', 'map'): continue
                ok = all(is_prefix_rep(ha, o.heap[k]) and ex.comp_solved(o.heap[k].ops[len(ha.ops):], dom.idx) for o, c in outs if c is None)
                if ok != bool(mods.idxk.get(k)): mods.idxk[k] = ok; grew = True
        if not grew: break
        # classify accumulators from this (unabstracted or partially abstracted) run
        for k in list(mods.cells):
            if mods.cells[k] is None: mods.cells[k] = classify(ex, st, k, outs)
    else: raise Unsupported('loop analysis does not converge', line)
    return finish(ex, st, dom, outs, info, mods, pid, line)

def involves(t, x):
    if t is None: return False
    seen = set(); todo = [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen: continue
        seen.add(u.get_id())
        if u.eq(x): return True
        todo += u.children()
    return False

def classify(ex, st, k, outs):
    """how the loop changes cell k: ('fun', addr) functional object accumulator, or ('scalar',)"""
    v0 = st.cells[k]
    a = addr_of(v0)
    if a is not None and st.heap.get(a) is not None:
        h0 = st.heap[a]
        if h0.kind in ('object', 'array'):
            ok = True
            for o, c in outs:
                if c is not None: continue
                v = o.cells.get(k)
                for cc, l in cases(v):
                    al = addr_of(l)
                    if al == a: continue
                    h = o.heap.get(al) if al is not None else None
                    if h is None or h.kind != h0.kind: ok = False; break
                    if h0.kind == 'object':
                        if not is_prefix_rep(h0, h): ok = False; break
                    elif tuple(h.segs[:len(h0.segs)]) != tuple(h0.segs): ok = False; break
            if ok: return ('fun', a)
    return ('scalar',)
def is_prefix_rep(h0, h):
    if h.base is None and h0.base is None: return len(h.ops) >= len(h0.ops) and all(x is y or x == y for x, y in zip(h0.ops, h.ops))
    return h.base is not None and h0.base is not None and h.base.eq(h0.base) and tuple(h.ops[:len(h0.ops)]) == tuple(h0.ops)

def run_once(ex, st, dom, elem, body, mods, pid, line):
    it = st.clone()
    serial0 = uid()
    it.ctx = st.ctx + (dom.idx,)
    info = {'serial0': serial0, 'base': len(st.pc), 'abs': {}, 'absobj': {}, 'fun': {}}
    ctx = it.ctx
    for k, hn in mods.heap.items():
        h0 = entry_obj(ex, st, k, hn)
        it.heap[k] = mkpref(ex, h0, (pid, str(k)), ctx, mods.keys.get(k), mods.idxk.get(k)); info['absobj'][k] = h0
    for k, cl in mods.cells.items():
        v0 = st.cells[k]
        if cl is not None and cl[0] == 'fun':
            a = -uid(); h0 = st.heap[cl[1]]
            if cl[1] in mods.heap: h0 = it.heap[cl[1]]
            it.heap[a] = mkpref(ex, h0, (pid, 'c%d' % k), ctx)
            it.cells[k] = V.obj(z3.IntVal(a)); info['fun'][k] = (a, it.heap[a], h0)
        else:
            kk = cell_kind(ex, st, v0, cl)
            t = fresh(it, V, 'acc')
            if kk: it.fact(getattr(V, 'is_' + kk)(t)); t2 = getattr(V, kk)(simp(acc(kk, t))) if kk in ('num', 'str', 'bool') else t
            else: t2 = t
            if kk is None: it.fact(Implies(V.is_obj(t), V.id(t) >= 0))
            it.cells[k] = t2; info['abs'][k] = (t, t2, kk)
    if mods.trace:
        it.trace = st.trace + (prefop((pid, 'trace'), ctx),)
    it.pc.append((dom.cond, True))
    it.add_idx(dom.idx)
    info['pcbase'] = len(st.pc); info['it_heap'] = dict(it.heap); info['it_trace'] = it.trace
    outs = []
    for st1, v in elem(it):
        if isinstance(v, ABR): outs.append((st1, v)); continue
        outs += body(st1, v)
    return ex.merge_completions(outs), info

def cell_kind(ex, st, v0, cl):
    c = cons(v0)
    if cl is not None and len(cl) > 1: return cl[1]
    if c in ('num', 'str', 'bool'): return c
    return None

def finish(ex, st, dom, outs, info, mods, pid, line):
    normal = [(o, c) for o, c in outs if c is None]
    exits = [(o, c) for o, c in outs if c is not None]
    if len(normal) > 1: normal = ex.merge_group(normal)
    if len(normal) > 1: raise Unsupported('loop iterations end in states that cannot be merged', line)
    L = None
    i2 = fresh(st, dom.idx.sort(), 'q')
    idx = dom.idx
    if normal:
        o = normal[0][0]
        L0 = Loop(dom)
        base = info['pcbase']
        # the pc suffix after the entry prefix
        n = 0
        m = min(len(st.pc), len(o.pc))
        while n < m and st.pc[n][0].eq(o.pc[n][0]): n += 1
        L0.norm = simp(And(*[t for t, b in o.pc[n:] if b]))
        L0.facts = [Implies(L0.norm, t) if b is None else t for t, b in o.pc[n:] if not b]
        L0.serial0 = info['serial0']
        L0.idxs = [x for x in o.idx if not x.eq(idx) and not any(x.eq(y) for y in st.idx)]
        s0 = info['serial0']
        old = {id(f) for f in st.foralls}
        L0.foralls = [f for f in o.foralls if id(f) not in old]
        L0.theap = {a: h for a, h in o.heap.items() if not isinstance(a, tuple) and -a > s0}
        # overlays on terms that depend on the index: writes through opaque inputs
        for a, h in o.heap.items():
            if isinstance(a, tuple) and a not in st.heap and a not in mods.heap: raise Unsupported('loop writes to elements of an input collection', line)
        L0.tcells = {c: v for c, v in o.cells.items() if c > s0}
        ren = Sub([(idx, i2)], None, None)
        L = ren.loop(L0); L.uid = L0.uid
        L.dom = ren.dom(dom)
        nst = o
    else:
        # no iteration completes normally: the loop ends normally only when it is empty
        ren = Sub([(idx, i2)], None, None)
        L = Loop(ren.dom(dom)); L.norm = F; nst = None
    def conv(base_st, target, d, exit_st):
        """replace abstract prefixes in target (a state) by comprehensions over domain d.
        exit_st: None for the state after all iterations"""
        pass
    res = []
    # ---- all iterations normal
    fin = st.clone()
    if not z3.is_true(L.norm):
        dn = fresh(st, Bool, 'done'); L.dom = Dom(L.dom.idx, L.dom.cond, dn); fin.branch(dn)
    apply_prefix(ex, fin, st, L, L.dom, mods, info, nst, ren, pid, None)
    if z3.is_false(L.norm):
        # empty
        w = None
    fin.foralls.append(Forall('loop', T, loop=L, dom=L.dom))
    for a in list(fin.idx):
        if a.sort() == idx.sort() and not involves(a, idx): ex.instantiate(fin, L, a, L.dom)
    if z3.is_false(L.norm):
        # need emptiness of the domain visible: instantiate at a fresh index via witnesses of lengths (handled by Forall at solve time)
        pass
    res.append((fin, None))
    # ---- early exits at Skolem index idx
    for o, c in exits:
        ost = o.clone()
        lt = before(L, i2, idx, dom)
        d = Dom(i2, And(L.dom.cond, lt))
        if not z3.is_true(L.norm):
            d.done = fresh(st, Bool, 'done'); ost.branch(d.done)
        subs = apply_prefix(ex, ost, st, L, d, mods, info, nst, ren, pid, o)
        ost.ctx = st.ctx
        ost.add_idx(idx)
        ost.foralls.append(Forall('loop', T, loop=L, dom=d))
        # replace accumulator symbols everywhere in the exit state
        if subs:
            sub = Sub(subs)
            ost.pc = [(sub.t(t), b) for t, b in ost.pc]
            ost.facts = {t.get_id() for t, _ in ost.pc}
            for k in list(ost.cells):
                v = ost.cells[k]
                if k not in st.cells or not v.eq(st.cells.get(k, v)) or k in mods.cells: ost.cells[k] = sub.t(v)
            for a in list(ost.heap):
                h = ost.heap[a]
                if st.heap.get(a) is not h: ost.heap[a] = sub.hobj(h)
            ost.trace = sub.segs(ost.trace)
            ost.foralls = [f if any(f is g for g in st.foralls) else f.subst(sub) for f in ost.foralls]
            if isinstance(c, (Ret, Thr, Exit)) and z3.is_expr(c.v): c = type(c)(sub.t(c.v))
        if isinstance(c, Brk) and c.l is None: pass
        res.append((ost, c))
    return res

def before(L, a, b, dom):
    if dom.idx.sort() == Int: return a < b
    return uf('before', Int, Str, Str, Bool)(z3.IntVal(L.uid if isinstance(L.uid, int) else 0), a, b)

def apply_prefix(ex, tgt, st, L, d, mods, info, nst, ren, pid, ost):
    """tgt: state being built. ost None: final state (starts as a clone of entry). Otherwise the exit state (clone of it)."""
    subs = []
    # heap objects
    for k in mods.heap:
        h0 = info['absobj'][k]
        delta_o, delta_s = (), ()
        if nst is not None:
            hn = nst.heap[k]; ha = info['it_heap'][k]
            delta_o, delta_s = delta(hn, ha, k)
        comp_o = (('comp', L, ren.ops(delta_o), d),) if delta_o else ()
        comp_s = (('comp', L, ren.segs(delta_s), d),) if delta_s else ()
        if ost is None:
            nh = h0.with_(ops=h0.ops + comp_o, segs=h0.segs + comp_s)
            tgt.heap[k] = nh
        else:
            he = ost.heap[k]; ha = info['it_heap'][k]
            eo, es = delta(he, ha, k)
            tgt.heap[k] = he.with_(ops=h0.ops + comp_o + tuple(eo), segs=h0.segs + comp_s + tuple(es))
    if mods.trace:
        dt = ()
        if nst is not None: dt = nst.trace[len(info['it_trace']):]; check_prefix(nst.trace, info['it_trace'])
        ct = (('comp', L, ren.segs(dt), d),) if dt else ()
        if ost is None: tgt.trace = st.trace + ct
        else:
            check_prefix(ost.trace, info['it_trace'])
            tgt.trace = st.trace + ct + ost.trace[len(info['it_trace']):]
    for k, cl in mods.cells.items():
        if k in info['fun']:
            a, ha, h0 = info['fun'][k]
            do, ds = (), ()
            if nst is not None:
                v = nst.cells[k]
                do, ds = fun_delta(ex, nst, v, ha, k)
            co = (('comp', L, ren.ops(do), d),) if do else ()
            cs = (('comp', L, ren.segs(ds), d),) if ds else ()
            # h0 may itself be abstract (also mutated in place): use its converted form
            h0c = h0
            src = mods.cells[k][1]
            if src in mods.heap: h0c = (tgt.heap[src])
            nh = h0c.with_(ops=h0c.ops + co, segs=h0c.segs + cs)
            if ost is None:
                b = -uid(); tgt.heap[b] = nh; tgt.cells[k] = V.obj(z3.IntVal(b))
            else:
                # accumulator object at the exit
                tgt.heap[a] = nh
                for ad, h in list(tgt.heap.items()):
                    if ad == a or isinstance(ad, tuple): continue
                    if h.kind == ha.kind and h is not ost.heap.get(a):
                        if ha.kind == 'object' and is_prefix_rep(ha, h) and (len(ha.ops) > 0):
                            tgt.heap[ad] = h.with_(ops=nh.ops + tuple(h.ops[len(ha.ops):]))
                        elif ha.kind == 'array' and len(ha.segs) and tuple(h.segs[:len(ha.segs)]) == tuple(ha.segs):
                            tgt.heap[ad] = h.with_(segs=nh.segs + tuple(h.segs[len(ha.segs):]))
        else:
            t, t2, kk = info['abs'][k]
            v0 = st.cells[k]
            val = v0
            if nst is not None:
                v = nst.cells[k]
                op = scalar_ops(ex, v, t, t2)
                if op is None:
                    # not expressible as "last write wins": opaque value (same kind)
                    val = fresh(tgt, V, 'out')
                    if kk:
                        tgt.fact(getattr(V, 'is_' + kk)(val)); val = getattr(V, kk)(simp(acc(kk, val))) if kk in ('num', 'str', 'bool') else val
                    else: tgt.fact(Implies(V.is_obj(val), V.id(val) >= 0))
                    ex.havoced.append((ex.curline, str(t)))
                elif op == (): val = v0
                else:
                    o = ('comp', L, ren.ops(op), d)
                    _keep_op.append(o)
                    tch, h, vv = ex.touch(tgt, (o,), sv(''))
                    val = If(tch, vv, v0)
            if ost is None: tgt.cells[k] = val
            else: subs.append((t, val))
    return subs
_keep_op = []

def check_prefix(tr, pre):
    if tuple(tr[:len(pre)]) != tuple(pre) and not all(x is y for x, y in zip(tr, pre)): raise Unsupported('trace rewritten in loop')

def delta(hn, ha, k):
    """what one iteration appended to object hn relative to the abstracted ha"""
    if hn is ha: return (), ()
    if tuple(hn.segs) != () or tuple(ha.segs) != ():
        n = len(ha.segs)
        if len(hn.segs) < n or not all(x is y or x == y for x, y in zip(ha.segs, hn.segs)): raise Unsupported('loop rewrites a collection it did not build')
        ds = tuple(hn.segs[n:])
    else: ds = ()
    n = len(ha.ops)
    if not is_prefix_rep(ha, hn): raise Unsupported('loop rewrites an object it did not build')
    return tuple(hn.ops[n:]), ds

def fun_delta(ex, nst, v, ha, k):
    """functional accumulator: value v after the iteration"""
    cs = cases(v)
    parts_o, parts_s = [], []
    for c, l in cs:
        h = nst.heap.get(addr_of(l)) if addr_of(l) is not None else None
        if h is None or h.kind != ha.kind: raise Unsupported('accumulator is replaced in a loop')
        do, ds = delta(h, ha, k)
        parts_o.append((c, do)); parts_s.append((c, ds))
    if len(cs) == 1: return parts_o[0][1], parts_s[0][1]
    o = tuple(('guard', c, do) for c, do in parts_o if do)
    sg = tuple(('guard', c, ds) for c, ds in parts_s if ds)
    return o, sg

def scalar_ops(ex, v, t, t2):
    """v (value after an iteration) as guarded writes, None if it depends on the previous value otherwise than by keeping it"""
    v = simp(v) if not is_ite(v) else v
    out = []
    # boolean accumulators: Or / And forms
    if cons(t2) == 'bool' and cons(v) == 'bool':
        a = t2.arg(0)
        v0 = simp(z3.substitute(v.arg(0), (a, F))); v1 = simp(z3.substitute(v.arg(0), (a, T)))
        if z3.is_true(v1) and not involves(v0, t): return (('guard', v0, (('set', sv(''), TRUE),)),)
        if z3.is_false(v0) and not involves(v1, t): return (('guard', Not(v1), (('set', sv(''), FALSE),)),)
    for c, l in cases(v):
        if l.eq(t) or l.eq(t2): 
            if involves(c, t): return None
            continue
        if involves(l, t) or involves(c, t): return None
        if z3.is_true(c): out.append(('set', sv(''), l))
        else: out.append(('guard', simp(c), (('set', sv(''), l),)))
    return tuple(out)

# ------------------------------------------------------------------------------------------------ while / for(;;)
def assigned_names(n, out):
    if isinstance(n, dict):
        if n.get('k') in ('assign', 'upd') and n['t'].get('k') == 'id': out.add(n['t']['n'])
        for x in n.values(): assigned_names(x, out)
    elif isinstance(n, list):
        for x in n: assigned_names(x, out)

UNROLL = 6
def while_loop(ex, st, env, c, b, u, n, first):
    # for (let i = A; i < E; i++) with i not assigned in the body
    if not first and c is not None and u is not None and c['k'] == 'bin' and c['op'] in ('<', '<=') and c['a']['k'] == 'id':
        nm = c['a']['n']; asg = set(); assigned_names(b, asg)
        inc = (u['k'] == 'upd' and u['op'] == '+' and u['t'].get('k') == 'id' and u['t']['n'] == nm) or \
              (u['k'] == 'assign' and u['op'] == '+' and u['t'].get('n') == nm and u['v'].get('k') == 'num' and u['v']['v'] == 1)
        if inc and nm not in asg and nm in env.vars:
            lo = st.cells[env.vars[nm]]
            if cons(lo) == 'num':
                outs = []
                for st1, e in ex.ev(c['b'], st, env):
                    if isinstance(e, ABR): outs.append((st1, e)); continue
                    if cons(e) != 'num': outs = None; break
                    hi = simp(e.arg(0) + (1 if c['op'] == '<=' else 0))
                    l0 = lo.arg(0)
                    if z3.is_int_value(hi) and z3.is_int_value(l0) and hi.as_long() - l0.as_long() <= 64:
                        outs = None; break
                    i = fresh(st1, Int, 'i')
                    dom = Dom(i, z3.And(i >= l0, i < hi))
                    cell = env.vars[nm]
                    def body(st2, v):
                        st2.cells[cell] = v
                        res = []
                        for st3, cc in ex.stmt(b, st2, Env(env)):
                            if isinstance(cc, Cnt) and cc.l is None: cc = None
                            if cc is None: st3.cells[cell] = lo
                            res.append((st3, cc))
                        return res
                    for st2, cc in ex.sym_loop(st1, dom, lambda s_: [(s_, V.num(i))], body, n.get('l')):
                        if isinstance(cc, Brk) and cc.l is None: cc = None
                        if cc is None: st2.cells[cell] = V.num(hi)
                        outs.append((st2, cc))
                if outs is not None: return ex.merge_completions(outs)
    # general loop: unroll while it terminates by itself on this path; otherwise a stated bound
    outs = []
    work = [st]
    lim = ex.unroll.get('*', UNROLL)
    k = 0
    while work:
        k += 1
        nxt = []
        for st1 in work:
            if first and k == 1: conds = [(st1, TRUE)]
            elif c is None: conds = [(st1, TRUE)]
            else: conds = ex.ev(c, st1, env)
            for st2, v in conds:
                if isinstance(v, ABR): outs.append((st2, v)); continue
                for st3, t in ex.split(st2, truthy(v)):
                    if not t: outs.append((st3, None)); continue
                    if k > lim and len(st3.pc) > len(st.pc):
                        ex.bounded.add('loop at %s:%s unrolled %d times' % (ex.curfile or '?', n.get('l'), lim)); continue
                    if k > 3000: raise Unsupported('loop does not terminate', n.get('l'))
                    for st4, cc in ex.stmt(b, st3, Env(env)):
                        if isinstance(cc, Cnt) and cc.l is None: cc = None
                        if isinstance(cc, Brk) and cc.l is None: outs.append((st4, None)); continue
                        if cc is not None: outs.append((st4, cc)); continue
                        if u is not None:
                            for st5, uv in ex.ev(u, st4, env):
                                if isinstance(uv, ABR): outs.append((st5, uv))
                                else: nxt.append(st5)
                        else: nxt.append(st4)
        m = ex.merge_group([(x, None) for x in nxt]) if len(nxt) > 1 else [(x, None) for x in nxt]
        work = [x for x, _ in m]
    return ex.merge_completions(outs)
