"""Symbolic executor: generates verification conditions from lowered TypeScript."""
import json, os, re, subprocess, sys, time
import z3
from core import *
from core import _keep
import strabs

class Shape:
    """Type-shaped precondition on an opaque value. kinds: any str num int bool big undef null lit obj record array fn union tagged promise ref"""
    _n = 0
    def __init__(s, kind, **kw):
        s.kind = kind; s.kw = kw; Shape._n += 1; s.id = Shape._n
ANY = Shape('any')
STR = Shape('str')
UNDEFSH = Shape('undef')
SHAPES = {}
def resolve_shape(s):
    n = 0
    while s.kind == 'ref':
        if s.kw['name'] not in SHAPES: raise Unsupported('unknown shape ' + s.kw['name'])
        s = SHAPES[s.kw['name']]; n += 1
        if n > 50: raise Unsupported('cyclic shape')
    if s.kind == 'opt':
        if 'u' not in s.kw: s.kw['u'] = Shape('union', alts=[s.kw['inner'], UNDEFSH])
        return s.kw['u']
    return s

class Thr:
    """completion: throw"""
    def __init__(s, v): s.v = v
class Susp:
    """completion: suspended for ever (awaiting a promise nobody settles)"""
FNK = ('closure', 'native', 'class', 'bound', 'bind')
class Exit:
    """completion: process.exit"""
    def __init__(s, v): s.v = v
ABR = (Thr, Susp, Exit)
_keep2 = []
class Ret:
    def __init__(s, v): s.v = v
class Brk:
    def __init__(s, l): s.l = l
class Cnt:
    def __init__(s, l): s.l = l

class Obl:
    __slots__ = ('label', 'st', 'cond', 'where', 'status', 'time', 'model', 'backend', 'note')
    def __init__(s, label, st, cond, where): s.label, s.st, s.cond, s.where = label, st, cond, where; s.status = None; s.time = 0; s.model = None; s.backend = None; s.note = ''

def dump_files(files):
    here = os.path.dirname(os.path.abspath(__file__))
    p = subprocess.run(['node', os.path.join(here, 'dump.js')], input=json.dumps(files), capture_output=True, text=True)
    if p.returncode != 0: raise Unsupported('parser failed: ' + p.stderr[:500])
    return json.loads(p.stdout)

class Module:
    def __init__(s, path): s.path = path; s.env = None; s.exports = {}; s.stars = []; s.native = None; s.loaded = False

class Ex:
    MAXDEPTH = 60
    def __init__(s, resolver, log=None):
        s.resolver = resolver          # (frompath, spec) -> path or None
        s.asts = {}                    # path -> lowered
        s.modules = {}
        s.g = Env(None)                # globals
        s.st0 = St()
        s.declshape = {}
        s.shape = {}                   # term id -> Shape (global: opaque terms are typed by access path)
        s.obls = []; s.unordered = False
        s.depth = 0
        s.touched = {}                 # functions of /repo executed: (path,name,line) -> count
        s.assumptions = set()
        s.covers = {}
        s.modular = {}                 # 'path#name' -> contract dict
        s.solver_time = 0.0; s.nchecks = 0
        s.prove_time = 0.0
        s.fnstack = []
        s.deadline = None
        s.feas_cache = {}
        s.bounded = set()
        s.havoced = []
        s.protos = {}
        s.prelude = {}
        s.curline = None; s.inc = None
        s.assume_mode = 0
        import builtins_js
        builtins_js.install(s)

    # ------------------------------------------------------------------ solver
    def z3solver(s, ms):
        # the limit is a resource limit, so that results do not depend on the load of the machine; the time limit is a backstop
        sol = z3.Solver(); sol.set('rlimit', int(ms * RLPERMS / 2)); sol.set('timeout', ms * 40); return sol
    def feasible(s, st, extra=T, ms=300):
        if z3.is_false(extra): return False
        e = simp(extra)
        if z3.is_false(e): return False
        for t, b in st.pc:
            if z3.is_false(t): return False
        t0 = time.time()
        if s.inc is None: s.inc = strabs.Inc()
        q = s.inc.query([t for t, b in st.pc], e, int(ms * RLPERMS * 4), ms * 40, [t for t, b in st.pc if b])
        if q != 'unknown':
            s.nchecks += 1; s.solver_time += time.time() - t0
            if os.environ.get('RLSTAT'): sys.stderr.write('RL abs-%s %.4f\n' % (q, time.time() - t0))
            if s.deadline and time.time() > s.deadline: raise Budget('time budget exceeded')
            return q != 'unsat'
        sol = s.z3solver(ms)
        for t, b in st.pc: sol.add(t)
        sol.add(e)
        r = sol.check(); s.nchecks += 1
        if r == z3.unknown:
            # second solver: strings that one procedure cannot settle the other usually can
            if cvc5_check(sol, 4000 if ms <= 300 else ms * 5) == 'unsat': r = z3.unsat
        if os.environ.get('RLDUMP') and r == z3.unknown: open('%s/q%d.smt2' % (os.environ['RLDUMP'], s.nchecks), 'w').write(sol.to_smt2())
        if os.environ.get('RLSTAT'): sys.stderr.write('RL %s %.4f\n' % (r, time.time() - t0))
        s.solver_time += time.time() - t0
        if s.deadline and time.time() > s.deadline: raise Budget('time budget exceeded')
        return r != z3.unsat
    def implied(s, st, c, ms=300):
        """pc entails c (quick)"""
        c = simp(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return not s.feasible(st, T, ms)
        return not s.feasible(st, Not(c), ms)
    def split(s, st, c):
        """[(st, bool)] : fork on condition c, pruning infeasible sides"""
        c = simp(c)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        a = s.feasible(st, c); b = s.feasible(st, Not(c))
        if a and b:
            st2 = st.clone(); st.branch(c); st2.branch(Not(c))
            return [(st, True), (st2, False)]
        if a: return [(st, True)]
        if b: return [(st, False)]
        return []   # path infeasible altogether
    # ------------------------------------------------------------------ shapes
    def setshape(s, t, sh):
        s.shape[t.get_id()] = (t, sh)
    def getshape(s, t):
        e = s.shape.get(t.get_id())
        if e is not None and e[0].eq(t): return resolve_shape(e[1])
        sh = s.derived(t)
        if sh is not None: s.setshape(t, sh); return resolve_shape(sh)
        return None
    def derived(s, t):
        """shape of a term that no execution step has read directly (an instance of a term of a loop body):
        it follows from the shape of the value it is read from, exactly as in oread/aelem/ocall"""
        if not z3.is_app(t) or t.num_args() == 0 or t.decl().kind() != z3.Z3_OP_UNINTERPRETED: return None
        nm = t.decl().name()
        if nm in s.declshape: return s.declshape[nm]
        if t.decl().eq(U_get):
            b, key = t.arg(0), t.arg(1); oa = s.objalts(b); ks = sconst(key)
            if oa is None: return None
            if len(oa) == 1 and oa[0].kind == 'json': return oa[0]
            if any(a.kind in ('any', 'json') for a in oa): return None
            shs = []
            def add(x):
                if not any(x is y for y in shs): shs.append(x)
            for a in oa:
                if a.kind == 'obj':
                    if ks is not None:
                        if ks in a.kw['props']: add(a.kw['props'][ks][0])
                        elif a.kw.get('open'): return None
                    else:
                        if a.kw.get('open'): return None
                        for p, (psh, opt) in a.kw['props'].items(): add(psh)
                elif a.kind == 'record': add(a.kw['inner'])
                elif a.kind == 'tagged':
                    if ks == a.kw['tag']: add(STR)
                    else:
                        for n, ps in a.kw['variants'].items():
                            for p, (psh, opt) in ps.items():
                                if ks is None or ks == p: add(psh)
                elif a.kind == 'array' and ks is not None and (ks.isdigit() or ks == 'length'): return None
        elif t.decl().eq(U_aelem):
            oa = s.objalts(t.arg(0))
            if not oa: return None
            if len(oa) == 1 and oa[0].kind == 'json': return oa[0]
            if any(a.kind in ('any', 'json') for a in oa): return None
            shs = []
            for a in oa:
                if a.kind == 'array' and not any(a.kw['inner'] is y for y in shs): shs.append(a.kw['inner'])
        elif re.fullmatch(r'call\d+', nm):
            fs = [a for a in s.objalts(t.arg(0)) or [] if a.kind == 'fn']
            shs = [fs[0].kw.get('result', ANY)] if len(fs) == 1 else []
        elif nm == 'pval':
            ps = [a for a in s.objalts(t.arg(0)) or [] if a.kind == 'promise']
            shs = [ps[0].kw.get('inner', ANY)] if len(ps) == 1 else []
        else: return None
        if not shs or any(resolve_shape(x).kind == 'any' for x in shs): return None
        return shs[0] if len(shs) == 1 else s.ushape(shs)
    def kindfact(s, t, sh):
        """Bool: t is (one level) of shape sh"""
        sh = resolve_shape(sh); k = sh.kind
        if k == 'any': return T
        if k == 'json': return And(Not(V.is_big(t)), Not(V.is_undef(t)), Not(V.is_symv(t)), Implies(V.is_obj(t), And(V.id(t) >= 0, Not(U_isfn(t)), Not(U_isprom(t)))))
        if k == 'str': return V.is_str(t)
        if k in ('num',): return V.is_num(t)
        if k == 'nat': return And(V.is_num(t), V.n(t) >= 0)
        if k == 'bool': return V.is_bool(t)
        if k == 'big': return V.is_big(t)
        if k == 'undef': return V.is_undef(t)
        if k == 'null': return V.is_null(t)
        if k == 'lit': return Or(*[t == s.lit(v) for v in sh.kw['values']])
        if k in ('obj', 'record'): return And(V.is_obj(t), V.id(t) >= 0, Not(U_isarr(t)), Not(U_isfn(t)), Not(U_isprom(t)))
        if k == 'tagged':
            tag = sh.kw['tag']; tt = U_get(t, sv(tag))
            return And(V.is_obj(t), V.id(t) >= 0, Not(U_isarr(t)), Not(U_isfn(t)), Not(U_isprom(t)), U_has(t, sv(tag)), Or(*[tt == string(n) for n in sh.kw['variants']]))
        if k == 'array': return And(V.is_obj(t), V.id(t) >= 0, U_isarr(t), Not(U_isfn(t)), Not(U_isprom(t)), U_alen(t) >= sh.kw.get('min', 0), *( [U_alen(t) <= sh.kw['max']] if sh.kw.get('max') is not None else []))
        if k == 'fn': return And(V.is_obj(t), V.id(t) >= 0, U_isfn(t), Not(U_isarr(t)), Not(U_isprom(t)))
        if k == 'promise': return And(V.is_obj(t), V.id(t) >= 0, U_isprom(t), Not(U_isfn(t)), Not(U_isarr(t)))
        if k == 'union':
            al = s.alts(sh)
            if not s.multi(al): return Or(*[s.kindfact(t, x) for x in al])
            return Or(*[And(s.altno(sh, t) == i, s.kindfact(t, x)) for i, x in enumerate(al)])
        raise Unsupported('shape kind ' + k)
    OBJK = ('obj', 'record', 'tagged', 'array', 'fn', 'promise', 'json')
    def multi(s, al): return sum(a.kind in s.OBJK for a in al) > 1
    def altno(s, sh, t):
        """which alternative of the union shape the value t belongs to"""
        return uf('alt%d' % sh.id, V, Int)(t)
    def ushape(s, shs):
        """the union of several shapes (one object per set of shapes)"""
        k = tuple(x.id for x in shs); c = s.__dict__.setdefault('_ushapes', {})
        if k not in c: c[k] = (Shape('union', alts=list(shs)), shs)
        return c[k][0]
    def underone(s, st, v, g, inner, shs):
        """v has, under condition g and the guard of each entry, the shape of that entry"""
        if len(shs) == 1:
            s.setshape(v, shs[0])
            gs = [] if any(z3.is_true(c) for c, _ in inner) else [Or(*[c for c, _ in inner])]
            st.fact(Implies(And(g, *gs), s.kindfact(v, shs[0]))); return
        u = s.ushape(shs); s.setshape(v, u)
        off = {}; n = 0; al = s.alts(u)
        for x in shs: m = len(s.alts(x)); off[x.id] = (n, n + m); n += m
        mu = s.multi(al)
        for c, x in inner:
            f = s.kindfact(v, x)
            if mu:
                lo, hi = off[x.id]; ax = s.alts(x); rx = resolve_shape(x)
                if rx.kind == 'union' and s.multi(ax): f = Or(*[And(s.altno(u, v) == lo + i, s.altno(rx, v) == i, s.kindfact(v, a)) for i, a in enumerate(ax)])
                else: f = Or(*[And(s.altno(u, v) == lo + i, s.kindfact(v, a)) for i, a in enumerate(ax)])
            st.fact(Implies(And(g, c), f))
    def lit(s, v):
        if v is None: return NULL
        if z3.is_expr(v): return v
        if isinstance(v, bool): return boolv(v)
        if isinstance(v, int): return num(v)
        return string(v)
    def typed(s, st, t, sh, guard=T):
        """declare that opaque term t has shape sh (under guard); adds one-level facts"""
        r = resolve_shape(sh)
        if cons(t) is None and not is_ite(t):
            s.setshape(t, sh)
            if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                if '!' in nm or nm.startswith('spec_'): s.declshape[nm] = sh
        st.fact(Implies(guard, s.kindfact(t, r)))
        if r.kind == 'any': st.fact(Implies(V.is_obj(t), V.id(t) >= 0))
        if r.kind == 'lit' or r.kind == 'tagged' or r.kind == 'union': pass
        return t
    def alts(s, sh):
        sh = resolve_shape(sh)
        if sh.kind == 'union':
            out = []
            for a in sh.kw['alts']: out += s.alts(a)
            return out
        return [sh]
    def objalts(s, t):
        sh = s.getshape(t)
        if sh is None: return None
        return [a for a in s.alts(sh) if a.kind in ('obj', 'record', 'tagged', 'array', 'fn', 'promise', 'any', 'json')]
    # ------------------------------------------------------------------ opaque reads
    def oread(s, st, t, key):
        """read property `key` (String term) of opaque object term t -> (has, val)"""
        h, v = U_has(t, key), U_get(t, key)
        st.fact(Implies(Not(h), V.is_undef(v)))
        st.fact(Implies(V.is_obj(v), V.id(v) >= 0))
        oa = s.objalts(t)
        ks = sconst(key)
        if oa is not None and len(oa) == 1 and oa[0].kind == 'json':
            if cons(v) is None: s.setshape(v, oa[0])
            st.fact(Implies(And(h, V.is_obj(t)), s.kindfact(v, oa[0])))
        if oa is None or any(a.kind in ('any', 'json') for a in oa): return h, v
        inner = []; present = []
        sh = s.getshape(t); al = s.alts(sh); mu = s.multi(al)
        for i, a in enumerate(al):
            if a.kind not in s.OBJK: continue
            ga = s.altno(sh, t) == i if mu else T
            here = And(V.is_obj(t), ga)
            if a.kind == 'obj':
                if ks is not None:
                    if ks in a.kw['props']:
                        psh, opt = a.kw['props'][ks]
                        inner.append((ga, psh))
                        if not opt: st.fact(Implies(here, h))
                        present.append('may' if opt else 'yes')
                    elif a.kw.get('open'): inner.append((ga, ANY)); present.append('may')
                    else: present.append('no'); st.fact(Implies(here, Not(h)))
                else:
                    opts = []
                    for p, (psh, opt) in a.kw['props'].items():
                        inner.append((And(ga, key == sv(p)), psh)); opts.append(key == sv(p))
                        if not opt: st.fact(Implies(And(here, key == sv(p)), h))
                    if a.kw.get('open'): inner.append((And(ga, *[Not(o) for o in opts]), ANY))
                    else: st.fact(Implies(And(here, h), Or(*opts)))
                    present.append('may')
            elif a.kind == 'record':
                inner.append((ga, a.kw['inner'])); present.append('may')
                if a.kw.get('key') is not None: st.fact(Implies(And(here, h), s.kindfact(V.str(key), a.kw['key'])))
            elif a.kind == 'tagged':
                tag = a.kw['tag']; tt = U_get(t, sv(tag))
                st.fact(Implies(here, Or(*[tt == string(n) for n in a.kw['variants']])))
                if ks == tag:
                    inner.append((ga, STR)); present.append('yes')
                    st.fact(Implies(here, h))
                else:
                    for n, ps in a.kw['variants'].items():
                        g = And(ga, tt == string(n)); hg = And(here, tt == string(n))
                        if ks is not None:
                            e = ps.get(ks)
                            if e is None: st.fact(Implies(hg, Not(h)))
                            else:
                                inner.append((g, e[0]))
                                if not e[1]: st.fact(Implies(hg, h))
                        else:
                            for p, (psh, opt) in ps.items():
                                inner.append((And(g, key == sv(p)), psh))
                                if not opt: st.fact(Implies(And(hg, key == sv(p)), h))
                            st.fact(Implies(And(hg, h), Or(key == sv(tag), *[key == sv(p) for p in ps])))
                    present.append('may')
            elif ks is not None and a.kind == 'array' and (ks.isdigit() or ks == 'length'): inner.append((ga, ANY)); present.append('may')
            else: present.append('no' if ks is None or not mu else 'may'); 
        if present and all(p == 'no' for p in present) and all(a.kind == 'obj' for a in oa): st.fact(Not(h)); return F, UNDEF
        if any(resolve_shape(x).kind == 'any' for _, x in inner): return h, v
        shs = []
        for g, psh in inner:
            if not any(psh is x for x in shs): shs.append(psh)
        if shs: s.underone(st, v, And(h, V.is_obj(t)), inner, shs)
        return h, v
    def aelem(s, st, t, i):
        e = U_aelem(t, i)
        oa = s.objalts(t)
        st.fact(Implies(V.is_obj(e), V.id(e) >= 0))
        if oa and len(oa) == 1 and oa[0].kind == 'json':
            s.setshape(e, oa[0]); st.fact(Implies(And(V.is_obj(t), i >= 0, i < U_alen(t)), s.kindfact(e, oa[0])))
        elif oa and not any(a.kind in ('any', 'json') for a in oa):
            sh = s.getshape(t); al = s.alts(sh); mu = s.multi(al)
            inner = [(s.altno(sh, t) == j if mu else T, a.kw['inner']) for j, a in enumerate(al) if a.kind == 'array']
            shs = []
            for g, x in inner:
                if not any(x is y for y in shs): shs.append(x)
            if shs and not any(resolve_shape(x).kind == 'any' for x in shs): s.underone(st, e, And(V.is_obj(t), i >= 0, i < U_alen(t)), inner, shs)
        return e
    # ------------------------------------------------------------------ heap
    def alloc(s, st, h):
        a = -uid(); st.heap[a] = h
        return V.obj(z3.IntVal(a))
    def hkey(s, v):
        a = addr_of(v)
        if a is not None: return a
        return ('t', v.get_id())
    def hget(s, st, v):
        """heap object of leaf value v or None if opaque without overlay"""
        a = addr_of(v)
        if a is not None:
            h = st.heap.get(a)
            if h is None and a < 0: raise Unsupported('dangling reference')
            return h
        e = st.heap.get(('t', v.get_id()))
        return e
    def overlays(s, st):
        return [(k, h) for k, h in st.heap.items() if isinstance(k, tuple)]
    def repof(s, st, v):
        """property representation of leaf object v"""
        h = s.hget(st, v)
        if h is not None: return h.rep()
        if addr_of(v) is None:
            # aliasing with overlays
            for k, oh in s.overlays(st):
                ot = oh.data['term']
                if s.may_alias(st, v, ot): raise Unsupported('possible aliasing between mutated and unmutated inputs')
        return (v, ())
    def may_alias(s, st, a, b):
        sa, sb = s.getshape(a), s.getshape(b)
        if sa is not None and sb is not None and sa is not sb:
            s.assumptions.add('inputs of different declared shapes are different objects (no aliasing between them)')
            return False
        return s.feasible(st, a == b)
    def hset(s, st, v, h):
        a = addr_of(v)
        if a is not None: st.heap[a] = h
        else:
            h.data['term'] = v
            st.heap[('t', v.get_id())] = h
    def own(s, st, v):
        """heap object for writing"""
        h = s.hget(st, v)
        if h is not None: return h
        oa = s.objalts(v)
        kind = 'array' if oa and len(oa) == 1 and oa[0].kind == 'array' else 'object'
        for k, oh in s.overlays(st):
            if s.may_alias(st, v, oh.data['term']): raise Unsupported('write to possibly aliased input')
        return HObj(kind, base=v, segs=(('arr', v),) if kind == 'array' else (), data={'term': v})
    # ---- representation reads
    def rread(s, st, rep, key):
        base, ops = rep
        return s.rd(st, base, ops, len(ops) - 1, key)
    def rd(s, st, base, ops, i, key):
        if i < 0:
            if base is None: return F, UNDEF
            return s.oread(st, base, key)
        o = ops[i]; k = o[0]
        if k == 'set':
            e = eqt(key, o[1])
            if z3.is_true(e): return T, o[2]
            if z3.is_false(e): return s.rd(st, base, ops, i - 1, key)
            h, v = s.rd(st, base, ops, i - 1, key)
            return If(e, T, h), If(e, o[2], v)
        if k == 'del':
            e = eqt(key, o[1])
            if z3.is_true(e): return F, UNDEF
            h, v = s.rd(st, base, ops, i - 1, key)
            return And(Not(e), h), If(e, UNDEF, v)
        if k == 'guard':
            t, h1, v1 = s.touch(st, o[2], key)
            h, v = s.rd(st, base, ops, i - 1, key)
            c = And(o[1], t)
            return If(c, h1, h), If(c, v1, v)
        if k == 'spread':
            h1, v1 = s.rread(st, o[1], key)
            if z3.is_true(h1): return T, v1
            h, v = s.rd(st, base, ops, i - 1, key)
            return Or(h1, h), If(h1, v1, v)
        if k in ('comp', 'pref'):
            t, h1, v1 = s.touch(st, (o,), key)
            h, v = s.rd(st, base, ops, i - 1, key)
            return If(t, h1, h), If(t, v1, v)
        raise Unsupported('op ' + k)
    def touch(s, st, ops, key):
        """(touched, has, val): effect of an op list on key"""
        t, h, v = F, F, UNDEF
        for o in ops:
            k = o[0]
            if k == 'set':
                e = eqt(key, o[1]); t, h, v = Or(t, e), If(e, T, h), If(e, o[2], v)
            elif k == 'del':
                e = eqt(key, o[1]); t, h, v = Or(t, e), If(e, F, h), If(e, UNDEF, v)
            elif k == 'guard':
                t1, h1, v1 = s.touch(st, o[2], key); c = And(o[1], t1)
                t, h, v = Or(t, c), If(c, h1, h), If(c, v1, v)
            elif k == 'spread':
                h1, v1 = s.rread(st, o[1], key)
                t, h, v = Or(t, h1), If(h1, T, h), If(h1, v1, v)
            elif k == 'pref':
                n = o[1]; ctx = o[2]
                so = [c.sort() for c in ctx]
                pt = uf('pref_t!%s' % (n,), *so, Str, Bool)(*ctx, key); ph = uf('pref_h!%s' % (n,), *so, Str, Bool)(*ctx, key)
                pv = uf('pref_v!%s' % (n,), *so, Str, V)(*ctx, key)
                st.fact(Implies(Not(ph), V.is_undef(pv)))
                if len(o) > 4 and o[4]: pt = And(pt, key != ctx[-1])
                if len(o) > 3 and o[3] is not None:
                    on = simp(Or(*[eqt(key, sv(c)) for c in sorted(o[3])]))
                    if z3.is_false(on): continue
                    if not z3.is_true(on): pt = And(on, pt)
                t, h, v = Or(t, pt), If(pt, ph, h), If(pt, pv, v)
            elif k == 'comp':
                t1, h1, v1 = s.comp_touch(st, o, key)
                t, h, v = Or(t, t1), If(t1, h1, h), If(t1, v1, v)
            else: raise Unsupported('op ' + k)
        return t, h, v
    def comp_solved(s, ops, idx):
        """all keys set are exactly the loop index"""
        for o in ops:
            if o[0] in ('set', 'del'):
                if not o[1].eq(idx): return False
            elif o[0] == 'guard':
                if not s.comp_solved(o[2], idx): return False
            else: return False
        return True
    def comp_touch(s, st, o, key):
        _, L, ops, dom = o
        if L.dom.idx.sort() == Str and s.comp_solved(ops, L.dom.idx):
            sub = s.instantiate(st, L, key, dom)
            t, h, v = s.touch(st, sub.ops(ops), key)
            c = dom.at(key)
            return And(c, t), h, v
        memo = ('ct', id(o), key.get_id())
        if memo in st.insts: return st.insts[memo]
        p = fresh(st, Bool, 'hit'); j = fresh(st, L.dom.idx.sort(), 'last')
        st.add_idx(j)
        sub = s.instantiate(st, L, j, dom, guard=p)
        t, h, v = s.touch(st, sub.ops(ops), key)
        st.fact(Implies(p, And(dom.at(j), t)))
        fa = Forall('ct', T, loop=L, ops=ops, dom=dom, key=key, p=p, j=j)
        st.foralls.append(fa)
        st.insts[memo] = (p, h, v); _keep.append(o)
        # instantiate right away on the known indices
        return p, h, v
    def instantiate(s, st, L, a, dom=None, guard=T):
        """facts of iteration a of loop L; returns the substitution for its templates"""
        dom = dom or L.dom
        memo = ('in', L.uid, a.get_id())
        if memo in st.insts: sub = st.insts[memo][0]
        else:
            pairs = [(L.dom.idx, a)] if not a.eq(L.dom.idx) else []
            cells = {}
            identity = not pairs
            if not identity:
                for ad in L.theap:
                    if isinstance(ad, tuple): continue
                    pairs.append((V.obj(z3.IntVal(ad)), V.obj(z3.IntVal(-uid()))))
                for c in L.tcells: cells[c] = uid()
            sub = Sub(pairs, cells, L.serial0 if cells or pairs else None)
            st.insts[memo] = (sub, L)
            amap = sub.amap
            if not identity:
                for ad, h in L.theap.items():
                    if isinstance(ad, tuple): continue
                    st.heap[amap[ad]] = sub.hobj(h)
                for c, v in L.tcells.items(): st.cells[cells[c]] = sub.t(v)
            else:
                for ad, h in L.theap.items():
                    if ad not in st.heap: st.heap[ad] = h
                for c, v in L.tcells.items():
                    if c not in st.cells: st.cells[c] = v
            for f in L.facts:
                ft = sub.t(f)
                st.fact(ft)
            for f in L.foralls: st.foralls.append(f.subst(sub))
            if L.idxs: st.insts[('xi', L.uid, a.get_id())] = [sub.t(x) for x in L.idxs]
        m2 = ('inn', L.uid, a.get_id(), dom.cond.get_id(), dom.done.get_id())
        if m2 not in st.insts:
            st.insts[m2] = True; _keep.append(dom.cond); _keep.append(dom.done)
            st.fact(Implies(And(dom.done, dom.at(a)), sub.t(L.norm)))
        return sub
    # ---- property access on arbitrary values -----------------------------------------------------------------
    def getkey(s, v):
        """property key (String term) of a JS value"""
        c = cons(v)
        if c == 'str': return v.arg(0)
        if c == 'num':
            if z3.is_int_value(v.arg(0)): return sv(str(v.arg(0).as_long()))
            return s.numstr(v.arg(0))
        if c == 'symv': return z3.simplify(z3.Concat(sv('@@'), v.arg(0)))
        if c in ('undef', 'null'): return sv('undefined' if c == 'undef' else 'null')
        if c == 'bool': return If(v.arg(0), sv('true'), sv('false'))
        if is_ite(v):
            a, b = s.getkey(v.arg(1)), s.getkey(v.arg(2))
            return None if a is None or b is None else If(v.arg(0), a, b)
        return None
    def numstr(s, n):
        if z3.is_int_value(n): return sv(str(n.as_long()))
        return U_numstr(n)
    def tokey(s, st, v):
        k = s.getkey(v)
        if k is not None:
            if cons(v) == 'num' and not z3.is_string_value(k): st.fact(U_strnum(k) == v.arg(0))
            return k
        if s.implied(st, V.is_str(v)): return V.s(v)
        if s.implied(st, V.is_num(v)):
            k = U_numstr(V.n(v)); st.fact(U_strnum(k) == V.n(v)); return k
        return s.tostr(st, v)
    def tostr(s, st, v):
        c = cons(v)
        if c == 'obj':
            h = s.hget(st, v)
            return U_tostr(v)
        k = s.getkey(v)
        if k is not None:
            if c == 'num' and not z3.is_string_value(k): st.fact(U_strnum(k) == v.arg(0))
            return k
        if c == 'big': return s.numstr(v.arg(0))
        if is_ite(v): return If(v.arg(0), s.tostr(st, v.arg(1)), s.tostr(st, v.arg(2)))
        r = U_tostr(v)
        st.fact(Implies(V.is_str(v), r == V.s(v)))
        st.fact(Implies(V.is_num(v), And(r == U_numstr(V.n(v)), U_strnum(r) == V.n(v))))
        st.fact(Implies(V.is_undef(v), r == sv('undefined')))
        if s.implied(st, V.is_str(v)): return V.s(v)
        if s.implied(st, V.is_num(v)): return U_numstr(V.n(v))
        return r
    def leafkind(s, st, v):
        """constructor kind of a leaf value if determined on this path"""
        c = cons(v)
        if c: return c
        sh = s.getshape(v)
        if sh is not None:
            m = dict(str='str', num='num', nat='num', bool='bool', undef='undef', null='null', obj='obj', record='obj', array='obj', fn='obj', tagged='obj', promise='obj', big='big')
            ks = set()
            for a in s.alts(sh):
                if a.kind == 'lit':
                    for x in a.kw['values']: ks.add(cons(s.lit(x)))
                else: ks.add(m.get(a.kind))
            if len(ks) == 1 and None not in ks:
                k = next(iter(ks))
                if s.implied(st, isk(k, v)): return k
                return None
        for k in ('obj', 'str', 'undef', 'num', 'bool', 'null', 'symv', 'big'):
            if s.implied(st, getattr(V, 'is_' + k)(v)): return k
        return None
    def resolve_leaf(s, st, v):
        """[(st, leaf, kind)] splitting If and unknown kinds"""
        out = []
        cs = cases(v)
        states = []
        if len(cs) == 1: states = [(st, cs[0][1])]
        else:
            # group by leaf
            groups = []
            for c, l in cs:
                for g in groups:
                    if g[1].eq(l): g[0] = Or(g[0], c); break
                else: groups.append([c, l])
            if len(groups) == 1: states = [(st, groups[0][1])]
            else:
                for i, (c, l) in enumerate(groups):
                    if s.feasible(st, c):
                        s2 = st.clone(); s2.branch(simp(c)); states.append((s2, l))
        for st1, l in states:
            k = s.leafkind(st1, l)
            if k is not None: out.append((st1, l, k)); continue
            rest = st1
            kinds = ('undef', 'null', 'obj', 'str', 'num', 'bool', 'big', 'symv')
            poss = [kk for kk in kinds if s.feasible(st1, getattr(V, 'is_' + kk)(l))]
            for kk in poss:
                s2 = st1.clone(); s2.branch(getattr(V, 'is_' + kk)(l)); out.append((s2, l, kk))
        return out
    def throw_type(s, st, msg):
        return (st, Thr(s.mkerror(st, 'TypeError', string(msg))))
    def mkerror(s, st, name, msg):
        ops = (('set', sv('message'), msg), ('set', sv('name'), string(name)), ('set', sv('stack'), V.str(fresh(st, Str, 'stack'))))
        return s.alloc(st, HObj('object', None, ops, data={'proto': 'Error', 'errname': name}))
    def get(s, st, o, key, optional=False):
        """o[key] for value o, String-term key -> outcomes"""
        # fast path: term-level distribution without forking when all leaves are objects
        cs = cases(o)
        if len(cs) > 1 and all(cons(l) == 'obj' for _, l in cs):
            groups = []
            hs = [(c, l, s.hget(st, l)) for c, l in cs]
            if all(h is None or h.kind in ('object',) for _, _, h in hs):
                val = None
                for c, l, h in hs:
                    _, v = s.rread(st, s.repof(st, l), key)
                    val = v if val is None else If(c, v, val)
                if all('cls' not in (h.data if h else {}) for _, _, h in hs): return [(st, val)]
        out = []
        for st1, l, k in s.resolve_leaf(st, o): out += s.get_leaf(st1, l, k, key)
        return s.merge_if(st, out)
    def get_leaf(s, st, l, k, key):
        ks = sconst(key)
        if k in ('undef', 'null'): return [s.throw_type(st, "Cannot read properties of %s (reading '%s')" % (k, ks))]
        if k == 'obj':
            h = s.hget(st, l)
            kind = h.kind if h is not None else s.okind(st, l)
            if kind == 'array':
                if ks == 'length': return [(st, V.num(s.alen(st, s.segsof(st, l))))]
                if ks is not None and ('Array_' + ks) in s.prelude: return [(st, s.method(st, l, ks, 'Array_'))]
                if ks is not None and ('Array_' + ks) in s.natives: return [(st, s.method(st, l, ks, 'Array_'))]
                if ks is not None and ks.lstrip('-').isdigit(): return [(st, s.aget(st, s.segsof(st, l), z3.IntVal(int(ks))))]
                if ks is None:
                    n = s.key_to_int(st, key)
                    if n is not None: return [(st, s.aget(st, s.segsof(st, l), n))]
                    if is_ite(key):
                        res = []
                        for c, kl in cases(key):
                            if not s.feasible(st, c): continue
                            s2 = st.clone(); s2.branch(simp(c)); res += s.get_leaf(s2, l, k, kl)
                        return res
                    raise Unsupported('array read with an unknown string key')
                hh, v = s.rread(st, s.repof(st, l), key)
                return [(st, v)]
            if kind in ('set', 'map', 'promise', 'regex'):
                pre = {'set': 'Set_', 'map': 'Map_', 'promise': 'Promise_', 'regex': 'Regex_'}[kind]
                if ks == 'size' and kind in ('set', 'map'): return [(st, V.num(s.set_size(st, l)))]
                if pre + str(ks) in s.natives or pre + str(ks) in s.prelude: return [(st, s.method(st, l, ks, pre))]
            hh, v = s.rread(st, s.repof(st, l), key)
            if z3.is_true(hh): return [(st, v)]
            # prototype chain
            proto = h.data.get('cls') if h is not None else None
            if proto is not None and ks is not None:
                m = s.find_method(st, proto, ks)
                if m is not None:
                    if z3.is_false(hh): return [(st, m)]
                    return [(st, If(hh, v, m))]
            if ks in s.objproto and ks is not None:
                pre = 'Fn_' if (h is not None and h.kind in FNK) or kind == 'fn' else 'Object_'
                nm = pre + ks if pre + ks in s.natives else 'Object_' + ks
                if nm in s.natives:
                    # inherited member (own property of that name assumed absent unless visible)
                    s.assumptions.add('no input object has an own property named like a member of Object.prototype')
                    return [(st, s.method(st, l, ks, nm[:-len(ks)]))]
            if h is not None and h.kind in FNK and ks is not None and ('Fn_' + ks) in s.natives:
                return [(st, s.method(st, l, ks, 'Fn_'))]
            if h is None and kind == 'fn' and ks is not None and ('Fn_' + ks) in s.natives: return [(st, s.method(st, l, ks, 'Fn_'))]
            return [(st, v)]
        if k == 'str':
            t = acc('str', l)
            if ks == 'length': return [(st, V.num(simp(z3.Length(t))))]
            if ks is not None and ('String_' + ks in s.natives or 'String_' + ks in s.prelude): return [(st, s.method(st, l, ks, 'String_'))]
            if ks is not None and ks.isdigit(): return [(st, If(simp(z3.Length(t) > int(ks)), V.str(z3.SubString(t, int(ks), 1)), UNDEF))]
            raise Unsupported("string property " + str(ks) + " of " + str(l)[:300])
        if k in ('num', 'bool', 'big', 'symv'):
            nm = {'num': 'Number_', 'bool': 'Boolean_', 'big': 'BigInt_', 'symv': 'Symbol_'}[k]
            if ks is not None and nm + ks in s.natives: return [(st, s.method(st, l, ks, nm))]
            return [(st, UNDEF)]
        raise Unsupported('get on ' + k)
    def okind(s, st, l):
        oa = s.objalts(l)
        if oa and not any(a.kind in ('any', 'json') for a in oa):
            ks = set(a.kind for a in oa)
            if len(ks) == 1:
                k = next(iter(ks))
                return {'array': 'array', 'promise': 'promise', 'fn': 'fn'}.get(k, 'object')
            if 'array' in ks and s.implied(st, U_isarr(l)): return 'array'
            if 'promise' in ks and s.implied(st, U_isprom(l)): return 'promise'
            if 'fn' in ks and s.implied(st, U_isfn(l)): return 'fn'
            return 'object'
        if s.implied(st, U_isarr(l)): return 'array'
        if s.implied(st, U_isprom(l)): return 'promise'
        return 'object'
    def key_to_int(s, st, key):
        if z3.is_app(key) and dname(key) == 'numstr': return key.arg(0)
        return None
    def method(s, st, recv, name, pre):
        return s.alloc(st, HObj('bound', data={'recv': recv, 'nm': pre + name}))
    def find_method(s, st, cls, name):
        while cls is not None:
            h = s.hget(st, cls)
            if h is None or h.kind != 'class': return None
            m = h.data['methods'].get(name)
            if m is not None: return m
            cls = h.data.get('super')
            if isinstance(cls, str): return None
        return None
    def put(s, st, o, key, val):
        out = []
        for st1, l, k in s.resolve_leaf(st, o):
            if k in ('undef', 'null'): out.append(s.throw_type(st1, "Cannot set properties of %s (setting '%s')" % (k, sconst(key)))); continue
            if k != 'obj': out.append((st1, val)); continue
            h = s.own(st1, l)
            ks = sconst(key)
            if h.kind == 'array' and (ks is None or ks.isdigit() or ks == 'length'):
                if ks is not None and ks.isdigit():
                    i = int(ks); segs = list(h.segs)
                    if all(x[0] == 'el' for x in segs):
                        if i < len(segs): segs[i] = ('el', val)
                        elif i == len(segs): segs.append(('el', val))
                        else: raise Unsupported('sparse array write')
                        s.hset(st1, l, h.with_(segs=tuple(segs))); out.append((st1, val)); continue
                raise Unsupported('array element write')
            ops = h.ops
            # overwrite of the last set on the same constant key
            if ops and ops[-1][0] == 'set' and ops[-1][1].eq(key): ops = ops[:-1]
            s.hset(st1, l, h.with_(ops=ops + (('set', key, val),)))
            out.append((st1, val))
        return s.merge_if(st, out)
    # ------------------------------------------------------------------ arrays
    def segsof(s, st, l):
        h = s.hget(st, l)
        if h is not None:
            if h.kind in ('array', 'set'): return h.segs
            raise Unsupported('not an array: ' + h.kind)
        return (('arr', l),)
    def dommemo(s, st, tag, seg, mk):
        k = (tag, id(seg))
        if k in st.insts: return st.insts[k]
        v = mk(); st.insts[k] = v; _keep.append(seg)
        return v
    def alen(s, st, segs):
        n = z3.IntVal(0)
        for g in segs: n = n + s.seglen(st, g)
        return simp(n)
    def seglen(s, st, g):
        k = g[0]
        if k in ('el', 'ev'): return z3.IntVal(1)
        if k == 'guard': return If(g[1], s.alen(st, g[2]), z3.IntVal(0))
        if k == 'arr':
            st.fact(U_alen(g[1]) >= 0); return U_alen(g[1])
        if k == 'slice': return If(g[3] > g[2], g[3] - g[2], z3.IntVal(0))
        if k in ('comp', 'keys', 'pref', 'dedup', 'perm'):
            memo = ('len', id(g))
            if memo in st.insts: return st.insts[memo]
            if k == 'comp' and len(g[2]) == 1 and g[2][0][0] == 'el':
                n = s.domlen(st, g)
                if n is not None:
                    st.insts[memo] = n; _keep.append(g); return n
            if k == 'perm': n = s.alen(st, g[1]); st.insts[memo] = n; _keep.append(g); return n
            n = fresh(st, Int, 'len'); _keep.append(g)
            st.insts[memo] = n
            st.fact(n >= 0)
            if k == 'pref': return n
            if k == 'dedup':
                m = s.alen(st, g[1]); st.fact(And(n <= m, (n == 0) == (m == 0))); return n
            # emptiness
            w = fresh(st, (g[1].dom.idx.sort() if k == 'comp' else Str), 'wit'); st.add_idx(w)
            if k == 'keys':
                h, _ = s.rread(st, g[1], w); st.fact(Implies(n > 0, h))
                st.foralls.append(Forall('keysempty', T, rep=g[1], n=n))
            else:
                sub = s.instantiate(st, g[1], w, g[3], guard=n > 0)
                st.fact(Implies(n > 0, And(g[3].at(w), s.alen(st, sub.segs(g[2])) > 0)))
                st.foralls.append(Forall('compempty', T, loop=g[1], segs=g[2], dom=g[3], n=n))
                # sums over the same indices that differ, differ at some index
                measured = st.insts.get(('measured',), ())
                for m, o in measured[-12:]:
                    if o[1].dom.idx.sort() != g[1].dom.idx.sort(): continue
                    x = fresh(st, g[1].dom.idx.sort(), 'dif')
                    if not simp(o[3].at(x)).eq(simp(g[3].at(x))): continue
                    st.add_idx(x)
                    c = [If(y[3].at(x), s.alen(st, s.instantiate(st, y[1], x, y[3], guard=And(n != m, y[3].at(x))).segs(y[2])), z3.IntVal(0)) for y in (g, o)]
                    st.fact(Implies(n != m, c[0] != c[1]))
                st.insts[('measured',)] = st.insts.get(('measured',), ()) + ((n, g),)
            return n
        raise Unsupported('length of ' + k)
    def domlen(s, st, g):
        """length of a map-like comprehension = size of its index range when that is syntactically 0..n"""
        L, dom = g[1], g[3]
        n = getattr(dom, 'cond', None)
        r = s.range_of(dom)
        if r is not None:
            st.fact(r >= 0); return r
        if L.dom.idx.sort() == Str and not dom.cond.eq(L.dom.cond): return None
        src = s.loop_src.get(L.uid if not isinstance(L.uid, tuple) else L.uid[0])
        return None
    loop_src = {}
    def range_of(s, dom):
        c = dom.cond
        # And(idx >= 0, idx < n)
        if z3.is_and(c) and c.num_args() == 2:
            a, b = c.arg(0), c.arg(1)
            if z3.is_ge(a) and a.arg(0).eq(dom.idx) and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() == 0 and z3.is_lt(b) and b.arg(0).eq(dom.idx): return b.arg(1)
        return None
    def aget(s, st, segs, i):
        """element at Int-term index"""
        ci = i.as_long() if z3.is_int_value(i) else None
        if ci is not None and ci < 0: return UNDEF
        if len(segs) == 1 and segs[0][0] == 'arr':
            t = segs[0][1]; e = s.aelem(st, t, i)
            st.fact(U_alen(t) >= 0)
            return If(simp(And(i >= 0, i < U_alen(t))), e, UNDEF)
        if not segs: return UNDEF
        g = segs[0]
        if g[0] == 'el':
            if ci is not None: return g[1] if ci == 0 else s.aget(st, segs[1:], z3.IntVal(ci - 1))
            return If(simp(i == 0), g[1], s.aget(st, segs[1:], simp(i - 1)))
        if g[0] == 'guard':
            a = s.aget(st, tuple(g[2]) + tuple(segs[1:]), i); b = s.aget(st, segs[1:], i)
            return If(g[1], a, b)
        if g[0] == 'arr':
            t = g[1]; n = U_alen(t); st.fact(n >= 0)
            e = s.aelem(st, t, i)
            return If(simp(And(i >= 0, i < n)), e, s.aget(st, segs[1:], simp(i - n)))
        if g[0] == 'slice':
            t, lo, hi = g[1:]
            n = s.seglen(st, g); e = s.aelem(st, t, simp(i + lo))
            return If(simp(And(i >= 0, i < n)), e, s.aget(st, segs[1:], simp(i - n)))
        if g[0] == 'comp' and len(g[2]) == 1 and g[2][0][0] == 'el' and s.range_of(g[3]) is not None:
            n = s.range_of(g[3])
            sub = s.instantiate(st, g[1], i, g[3]); st.add_idx(i)
            e = sub.t(g[2][0][1])
            return If(simp(And(i >= 0, i < n)), e, s.aget(st, segs[1:], simp(i - n)))
        if g[0] in ('comp', 'keys', 'perm', 'dedup'):
            # some member of the segment: position unknown -> witness member
            n = s.seglen(st, g)
            e = s.member_at(st, g, i)
            return If(simp(And(i >= 0, i < n)), e, s.aget(st, segs[1:], simp(i - n)))
        raise Unsupported('index into ' + g[0])
    def member_at(s, st, g, i):
        memo = ('mem', id(g), i.get_id())
        if memo in st.insts: return st.insts[memo]
        _keep.append(g); _keep.append(i)
        n = s.seglen(st, g)
        inr = And(i >= 0, i < n)
        k0 = len(st.idx)
        v = s.witness(st, g, inr)
        st.insts[memo] = v
        if z3.is_int_value(i) and i.as_long() == 0 and g[0] == 'comp' and g[1].dom.idx.sort() == Int and not s.unordered:
            # the first member belongs to the first index that contributes one
            st.foralls.append(Forall('compfirst', T, loop=g[1], segs=g[2], dom=g[3], n=n, w=st.idx[k0]))
        return v
    def witness(s, st, g, cond):
        """a term that (under cond) is some member of segment g"""
        k = g[0]
        if k == 'el': return g[1]
        if k == 'keys':
            w = fresh(st, Str, 'key'); st.add_idx(w)
            h, _ = s.rread(st, g[1], w); st.fact(Implies(cond, h)); return V.str(w)
        if k == 'arr':
            w = fresh(st, Int, 'ix'); st.add_idx(w)
            st.fact(Implies(cond, And(w >= 0, w < U_alen(g[1])))); return s.aelem(st, g[1], w)
        if k == 'guard':
            st.fact(Implies(cond, g[1])); return s.witness_segs(st, g[2], cond)
        if k == 'comp':
            w = fresh(st, g[1].dom.idx.sort(), 'ix'); st.add_idx(w)
            sub = s.instantiate(st, g[1], w, g[3], guard=cond)
            st.fact(Implies(cond, g[3].at(w)))
            return s.witness_segs(st, sub.segs(g[2]), cond)
        if k in ('perm', 'dedup'): return s.witness_segs(st, g[1], cond)
        raise Unsupported('witness of ' + k)
    def witness_segs(s, st, segs, cond):
        if not segs: st.fact(Not(cond)); return UNDEF
        if len(segs) == 1: return s.witness(st, segs[0], cond)
        c = fresh(st, Bool, 'pick')
        a = s.witness(st, segs[0], And(cond, c)); b = s.witness_segs(st, segs[1:], And(cond, Not(c)))
        return If(c, a, b)
    def set_size(s, st, l):
        h = s.hget(st, l)
        if h.kind == 'map':
            ks = s.keysegs(st, h.rep())
            return s.alen(st, ks)
        segs = h.segs
        if all(g[0] == 'el' for g in segs):
            n = z3.IntVal(0)
            for i, g in enumerate(segs):
                dup = Or(*[eqt(g[1], e[1]) for e in segs[:i]])
                n = n + If(dup, z3.IntVal(0), z3.IntVal(1))
            return simp(n)
        memo = ('ssz', id(segs))
        if memo in st.insts: return st.insts[memo]
        _keep.append(segs)
        n = fresh(st, Int, 'size'); st.insts[memo] = n
        m = s.alen(st, segs)
        st.fact(And(n >= 0, n <= m, (n == 0) == (m == 0)))
        w1 = s.witness_segs(st, segs, n >= 1); w2 = s.witness_segs(st, segs, n >= 2)
        st.fact(Implies(n >= 2, Not(w1 == w2)))
        st.foralls.append(Forall('setone', T, segs=segs, n=n, w=w1))
        return n
    # ------------------------------------------------------------------ keys
    def keysegs(s, st, rep):
        """segments of own enumerable string keys of a representation"""
        base, ops = rep
        flat = []   # (cond, key) in order
        def walk(ops, cond):
            for o in ops:
                if o[0] == 'set':
                    if sconst(o[1]) is None: return False
                    flat.append(sconst(o[1]))
                elif o[0] == 'del':
                    if sconst(o[1]) is None: return False
                elif o[0] == 'guard':
                    if not walk(o[2], cond): return False
                elif o[0] == 'spread':
                    b, oo = o[1]
                    if b is not None:
                        ks = s.finite_keys(b)
                        if ks is None: return False
                        flat.extend(ks)
                    if not walk(oo, cond): return False
                else: return False
            return True
        fin = True
        if base is not None:
            ks = s.finite_keys(base)
            if ks is None: fin = False
            else: flat.extend(ks)
        if fin and walk(ops, T):
            seen = []
            for k in flat:
                if k not in seen and not k.startswith('@@'): seen.append(k)
            # integer-like keys come first in ascending order
            ints = sorted([k for k in seen if k.isdigit() and str(int(k)) == k], key=int)
            seen = ints + [k for k in seen if k not in ints]
            out = []
            for k in seen:
                h, _ = s.rread(st, rep, sv(k))
                h = simp(h)
                if z3.is_false(h): continue
                e = ('el', string(k))
                out.append(e if z3.is_true(h) else ('guard', h, (e,)))
            return tuple(out)
        return (('keys', rep),)
    def finite_keys(s, t):
        oa = s.objalts(t)
        if not oa: return None
        out = []
        for a in oa:
            if a.kind == 'obj' and not a.kw.get('open'): ks = list(a.kw['props'])
            elif a.kind == 'tagged': ks = [a.kw['tag']] + [p for n, ps in a.kw['variants'].items() for p in ps]
            else: return None
            for k in ks:
                if k not in out: out.append(k)
        return out
    # ------------------------------------------------------------------ merging
    def pcsuffix(s, base, st):
        return st.pc[base:]
    def merge_if(s, base_st, outs):
        """merge outcomes of one kind (normal values / throws) when possible"""
        if len(outs) <= 1: return outs
        n = None
        groups = {}
        for st, v in outs:
            k = 'n' if not isinstance(v, ABR + (Ret, Brk, Cnt)) else (type(v).__name__, getattr(v, 'l', None))
            groups.setdefault(k, []).append((st, v))
        res = []
        for k, g in groups.items():
            res += s.merge_group(g)
        return res
    def merge_group(s, g):
        if len(g) == 1: return g
        out = [g[0]]
        for x in g[1:]:
            done = False
            for i in range(len(out)):
                m = s.merge2(out[i], x)
                if m is not None: out[i] = m; done = True; break
            if not done: out.append(x)
        return out
    def merge2(s, A, B):
        (sa, va), (sb, vb) = A, B
        # common pc prefix
        n = 0
        m = min(len(sa.pc), len(sb.pc))
        while n < m and sa.pc[n][0].eq(sb.pc[n][0]): n += 1
        ca = And(*[t for t, b in sa.pc[n:] if b]); cb = And(*[t for t, b in sb.pc[n:] if b])
        if sa.ctx != sb.ctx and not (len(sa.ctx) == len(sb.ctx) and all(x.eq(y) for x, y in zip(sa.ctx, sb.ctx))): return None
        if isinstance(va, (Thr, Ret, Exit)):
            vv = type(va)(If(ca, va.v, vb.v)) if z3.is_expr(va.v) and z3.is_expr(vb.v) else None
            if vv is None: return None
        elif isinstance(va, (Brk, Cnt, Susp)) or va is None: vv = va
        elif z3.is_expr(va) and z3.is_expr(vb): vv = If(ca, va, vb)
        elif va is vb: vv = va
        else: return None
        st = St()
        st.pc = list(sa.pc[:n]); st.facts = {t.get_id() for t, _ in st.pc}
        for side, g in ((sa, ca), (sb, cb)):
            for t, b in side.pc[n:]:
                if b is None: st.fact(Implies(g, t))
                elif not b: st.fact(t)
        disj = simp(Or(ca, cb))
        st.branch(disj)
        heap = dict(sa.heap)
        for k, hb in sb.heap.items():
            ha = heap.get(k)
            if ha is None:
                if isinstance(k, tuple):
                    ha = HObj(hb.kind, base=hb.data['term'], segs=(('arr', hb.data['term']),) if hb.kind == 'array' else (), data=dict(hb.data))
                    mh = s.merge_obj(ha, hb, ca, cb)
                    if mh is None: return None
                    heap[k] = mh; continue
                heap[k] = hb; continue
            if ha is hb: continue
            mh = s.merge_obj(ha, hb, ca, cb)
            if mh is None: return None
            heap[k] = mh
        for k, ha in sa.heap.items():
            if isinstance(k, tuple) and k not in sb.heap:
                hb = HObj(ha.kind, base=ha.data['term'], segs=(('arr', ha.data['term']),) if ha.kind == 'array' else (), data=dict(ha.data))
                mh = s.merge_obj(ha, hb, ca, cb)
                if mh is None: return None
                heap[k] = mh
        st.heap = heap
        cells = dict(sa.cells)
        for k, v in sb.cells.items():
            o = cells.get(k)
            if o is None: cells[k] = v
            elif not o.eq(v): cells[k] = If(ca, o, v)
        st.cells = cells
        st.trace = s.merge_segs(sa.trace, sb.trace, ca, cb)
        # foralls: common ones unguarded
        fb = {id(f) for f in sb.foralls}; fa_ = {id(f) for f in sa.foralls}
        for f in sa.foralls:
            if id(f) in fb: st.foralls.append(f)
            else: st.foralls.append(s.guard_forall(f, ca))
        for f in sb.foralls:
            if id(f) not in fa_: st.foralls.append(s.guard_forall(f, cb))
        st.idx = list(sa.idx)
        for t in sb.idx: st.add_idx(t)
        st.ctx = sa.ctx
        st.insts = dict(sb.insts); st.insts.update(sa.insts)
        ma, mb = sa.insts.get(('measured',), ()), sb.insts.get(('measured',), ())
        if ma is not mb: st.insts[('measured',)] = ma + tuple(x for x in mb if not any(x[1] is y[1] for y in ma))
        # memoised templates instantiated in only one branch stay valid (facts are guarded by their own conditions)
        st.meta = dict(sa.meta)
        for k, v in sb.meta.items():
            if k not in st.meta: st.meta[k] = v
            elif st.meta[k] is not v and st.meta[k] != v: return None
        return (st, vv)
    def guard_forall(s, f, c):
        if f.kind in ('ct', 'keysempty', 'compempty', 'compfirst', 'setone'): return f   # definitional
        return Forall(f.kind, And(c, f.guard), **f.kw)
    def merge_obj(s, a, b, ca, cb):
        if a.kind != b.kind: return None
        if a.data is not b.data:
            for k in set(a.data) | set(b.data):
                x, y = a.data.get(k), b.data.get(k)
                if x is y: continue
                if z3.is_expr(x) and z3.is_expr(y) and x.eq(y): continue
                if isinstance(x, (str, int, bool)) and x == y: continue
                if a.kind == 'promise' and k == 'val' and z3.is_expr(x) and z3.is_expr(y) and a.data.get('state') == b.data.get('state'): continue
                return None
        if (a.base is None) != (b.base is None) or (a.base is not None and not a.base.eq(b.base)): return None
        data = a.data
        if a.kind == 'promise' and z3.is_expr(a.data.get('val')) and not a.data['val'].eq(b.data['val']):
            data = dict(a.data); data['val'] = If(ca, a.data['val'], b.data['val'])
        ops = s.merge_ops(a.ops, b.ops, ca, cb); segs = s.merge_segs(a.segs, b.segs, ca, cb)
        return HObj(a.kind, a.base, ops, segs, data)
    def same_item(s, x, y):
        if x is y: return True
        if x[0] != y[0] or len(x) != len(y): return False
        for p, q in zip(x[1:], y[1:]):
            if p is q: continue
            if z3.is_expr(p) and z3.is_expr(q):
                if not p.eq(q): return False
            elif isinstance(p, tuple) and isinstance(q, tuple):
                if len(p) != len(q): return False
                for a, b in zip(p, q):
                    if a is b: continue
                    if z3.is_expr(a) and z3.is_expr(b):
                        if not a.eq(b): return False
                    elif isinstance(a, tuple) and isinstance(b, tuple):
                        if not s.same_item(a, b): return False
                    else: return False
            elif p != q: return False
        return True
    def merge_ops(s, a, b, ca, cb):
        if a is b: return a
        n = 0
        while n < min(len(a), len(b)) and s.same_item(a[n], b[n]): n += 1
        out = a[:n]
        if len(a) > n: out += (('guard', ca, a[n:]),)
        if len(b) > n: out += (('guard', cb if len(a) > n or True else T, b[n:]),)
        return out
    def merge_segs(s, a, b, ca, cb):
        if a is b: return a
        n = 0
        while n < min(len(a), len(b)) and s.same_item(a[n], b[n]): n += 1
        out = tuple(a[:n])
        if len(a) > n: out += (('guard', ca, tuple(a[n:])),)
        if len(b) > n: out += (('guard', cb, tuple(b[n:])),)
        return out

    # ------------------------------------------------------------------ environment
    def bind(s, st, env, name, v):
        c = env.vars.get(name)
        if c is None or isinstance(c, tuple): c = uid(); env.vars[name] = c
        st.cells[c] = v
        return c
    def lookup(s, st, env, name, line=None):
        c = env.lookup(name)
        if c is None: raise Unsupported('unbound identifier %s' % name, line)
        if isinstance(c, tuple):   # import alias (module, exported name)
            return s.import_value(st, c)
        v = st.cells.get(c)
        if v is None: v = s.st0.cells.get(c)
        if v is None: raise Unsupported('use of %s before initialisation' % name, line)
        return v
    # ------------------------------------------------------------------ monadic helper
    def then(s, outs, f):
        res = []
        for st, v in outs:
            if isinstance(v, ABR): res.append((st, v))
            else: res.extend(f(st, v))
        return res
    def evs(s, nodes, st, env):
        """evaluate list of expressions -> [(st, [v..] | abrupt)]"""
        outs = [(st, [])]
        for n in nodes:
            nxt = []
            for st1, vs in outs:
                if isinstance(vs, ABR): nxt.append((st1, vs)); continue
                for st2, v in s.ev(n, st1, env):
                    nxt.append((st2, v if isinstance(v, ABR) else vs + [v]))
            outs = nxt
        return outs
    # ------------------------------------------------------------------ expressions
    def ev(s, n, st, env):
        k = n['k']
        if 'l' in n: s.curline = n['l']
        return getattr(s, 'e_' + k, s.e_unknown)(n, st, env)
    def e_unknown(s, n, st, env): raise Unsupported('construct %s %s' % (n['k'], n.get('why', '')), n.get('l'))
    def e_str(s, n, st, env): return [(st, string(n['v']))]
    def e_num(s, n, st, env):
        v = n['v']
        if v != int(v): raise Unsupported('non-integer literal')
        return [(st, num(int(v)))]
    def e_big(s, n, st, env): return [(st, V.big(z3.IntVal(int(n['v'].rstrip('n')))))]
    def e_bool(s, n, st, env): return [(st, boolv(n['v']))]
    def e_null(s, n, st, env): return [(st, NULL)]
    def e_undef(s, n, st, env): return [(st, UNDEF)]
    def e_this(s, n, st, env): return [(st, s.lookup(st, env, 'this', None))]
    def e_regex(s, n, st, env): return [(st, s.alloc(st, HObj('regex', data={'src': n['src'], 'flags': n['flags']})))]
    def e_id(s, n, st, env): return [(st, s.lookup(st, env, n['n'], n.get('l')))]
    def e_voidx(s, n, st, env): return s.then(s.ev(n['e'], st, env), lambda st, v: [(st, UNDEF)])
    def e_seq(s, n, st, env): return s.then(s.ev(n['a'], st, env), lambda st, v: s.ev(n['b'], st, env))
    def e_arr(s, n, st, env):
        def go(i, st, segs):
            if i == len(n['el']): return [(st, s.alloc(st, HObj('array', segs=tuple(segs))))]
            e = n['el'][i]
            if e['k'] == 'spread':
                return s.then(s.ev(e['e'], st, env), lambda st, v: s.then(s.iter_segs(st, v), lambda st, sg: go(i + 1, st, segs + list(sg))))
            return s.then(s.ev(e, st, env), lambda st, v: go(i + 1, st, segs + [('el', v)]))
        return go(0, st, [])
    def iter_segs(s, st, v):
        """segments of an iterable value"""
        out = []
        for st1, l, k in s.resolve_leaf(st, v):
            if k == 'obj':
                h = s.hget(st1, l)
                if h is not None and h.kind == 'set': out.append((st1, (('dedup', h.segs, l),) if not all(x[0] == 'el' for x in h.segs) or len(h.segs) > 1 else h.segs)); continue
                if h is not None and h.kind == 'map':
                    raise Unsupported('iterating a Map')
                if (h is not None and h.kind == 'array') or (h is None and s.okind(st1, l) == 'array'):
                    out.append((st1, s.segsof(st1, l))); continue
                out.append(s.throw_type(st1, 'not iterable')); continue
            if k == 'str':
                t = acc('str', l); c = sconst(t)
                if c is not None: out.append((st1, tuple(('el', string(x)) for x in c))); continue
                raise Unsupported('iterating a symbolic string')
            out.append(s.throw_type(st1, 'not iterable'))
        return out
    def e_obj(s, n, st, env):
        def go(i, st, rep):
            if i == len(n['props']): return [(st, s.alloc(st, HObj('object', rep[0], rep[1])))]
            p = n['props'][i]
            if p['k'] == 'spread':
                return s.then(s.ev(p['e'], st, env), lambda st, v: go(i + 1, st, s.spread_rep(st, rep, v)))
            if p['k'] != 'kv': raise Unsupported('object member ' + str(p.get('why')), p.get('l'))
            def withkey(st, kv):
                key = s.tokey(st, kv)
                return s.then(s.ev(p['v'], st, env), lambda st, v: go(i + 1, st, (rep[0], rep[1] + (('set', key, v),))))
            return s.then(s.ev(p['key'], st, env), withkey)
        return go(0, st, (None, ()))
    def spread_rep(s, st, rep, v):
        """{...rep, ...v}"""
        for c, l in cases(v):
            k = cons(l)
            if k in ('undef', 'null', 'bool', 'num'): continue
            if k == 'str': raise Unsupported('spread of string')
            if k == 'obj':
                h = s.hget(st, l)
                if h is not None and h.kind in ('array',): raise Unsupported('object spread of array')
                r = s.repof(st, l)
                rep = s.spread_one(rep, r, c); continue
            # unknown leaf
            r = s.repof(st, l)
            rep = s.spread_one(rep, r, simp(And(c, V.is_obj(l))))
        return rep
    def spread_one(s, rep, r, c):
        if not r[1] and r[0] is None: return rep
        if z3.is_true(c):
            if rep[0] is None and not rep[1]: return r
            if r[0] is None and all(o[0] in ('set',) for o in r[1]): return (rep[0], rep[1] + r[1])
            return (rep[0], rep[1] + (('spread', r),))
        if r[0] is None and all(o[0] in ('set',) for o in r[1]): return (rep[0], rep[1] + (('guard', c, r[1]),))
        return (rep[0], rep[1] + (('guard', c, (('spread', r),)),))
    def e_fn(s, n, st, env):
        return [(st, s.mkclosure(st, n, env))]
    def mkclosure(s, st, n, env):
        if n.get('gen'): raise Unsupported('generator function', n.get('l'))
        d = {'node': n, 'env': env}
        if n['arrow']:
            c = env.lookup('this')
            d['arrow'] = True
        return s.alloc(st, HObj('closure', data=d))
    def e_class(s, n, st, env):
        return s.mkclass(st, n, env)
    def mkclass(s, st, n, env):
        def go(st, sup):
            methods = {}; ops = ()
            v = s.alloc(st, HObj('class', data={'node': n, 'env': env, 'methods': methods, 'super': sup, 'name': n['name']}))
            for m in n['members']:
                if m['k'] == 'method':
                    c = s.mkclosure(st, m['v'], env)
                    st.heap[addr_of(c)].data['home'] = v
                    if m['static']: ops += (('set', sv(m['key']['v']), c),)
                    else: methods[m['key']['v']] = c
                elif m['k'] == 'field' and m['static']: raise Unsupported('static field')
            if ops: st.heap[addr_of(v)] = st.heap[addr_of(v)].with_(ops=ops)
            return [(st, v)]
        if n['ext'] is not None: return s.then(s.ev(n['ext'], st, env), go)
        return go(st, None)
    def e_chain(s, n, st, env):
        return s.chain(n['e'], st, env)
    def e_prop(s, n, st, env):
        if n['o']['k'] == 'super': raise Unsupported('super property')
        def f(st, o):
            s.curline = n.get('l')
            return s.get(st, o, sv(n['n']))
        return s.then(s.ev(n['o'], st, env), f)
    def e_idx(s, n, st, env):
        return s.then(s.ev(n['o'], st, env), lambda st, o: s.then(s.ev(n['i'], st, env), lambda st, i: s.get_idx(st, o, i)))
    def get_idx(s, st, o, i):
        # numeric index into arrays kept as Int
        cs = [l for _, l in cases(o)]
        if cons(i) is None and is_ite(i) and all(cons(l) == 'num' for _, l in cases(i)): i = V.num(simp(V.n(i)))
        if all(cons(l) == 'obj' or cons(l) is None for l in cs) and cons(i) == 'num':
            outs = []
            for st1, l, k in s.resolve_leaf(st, o):
                if k == 'obj':
                    h = s.hget(st1, l)
                    if (h is not None and h.kind == 'array') or (h is None and s.okind(st1, l) == 'array'):
                        outs.append((st1, s.aget(st1, s.segsof(st1, l), i.arg(0)))); continue
                outs += s.get_leaf(st1, l, k, s.tokey(st1, i))
            return s.merge_if(st, outs)
        if is_ite(i) and any(cons(l) == 'num' for _, l in cases(i)) and any(cons(l) in ('obj', None) for l in cs):
            outs = []
            for st1, l, k in s.resolve_leaf(st, i): outs += s.get_idx(st1, o, l)
            return s.merge_if(st, outs)
        return s.get(st, o, s.tokey(st, i))
    # optional chains: value None marks short-circuit
    def chain(s, n, st, env):
        outs = []
        for st1, v in s.chainv(n, st, env):
            outs.append((st1, UNDEF if v is SHORT else v))
        return s.merge_if(st, outs)
    def chainv(s, n, st, env):
        k = n['k']
        if k in ('prop', 'idx'):
            inner = s.chainv(n['o'], st, env) if n['o']['k'] in ('prop', 'idx', 'call') else s.ev(n['o'], st, env)
            res = []
            for st1, o in inner:
                if o is SHORT or isinstance(o, ABR): res.append((st1, o)); continue
                def cont(st2, o):
                    if k == 'prop': return s.get(st2, o, sv(n['n']))
                    return s.then(s.ev(n['i'], st2, env), lambda st3, i: s.get_idx(st3, o, i))
                if n['opt']: res += s.shortc(st1, o, cont)
                else: res += cont(st1, o)
            return res
        if k == 'call':
            f = n['f']
            if f['k'] in ('prop', 'idx'):
                base = s.chainv(f['o'], st, env) if f['o']['k'] in ('prop', 'idx', 'call') else s.ev(f['o'], st, env)
                res = []
                for st1, o in base:
                    if o is SHORT or isinstance(o, ABR): res.append((st1, o)); continue
                    def cont(st2, o):
                        def gotf(st3, fv):
                            def docall(st4, fv): return s.then(s.evargs(n['a'], st4, env), lambda st5, a: s.call(st5, fv, o, a, n))
                            if n['opt']: return s.shortc(st3, fv, docall)
                            return docall(st3, fv)
                        g = s.get(st2, o, sv(f['n'])) if f['k'] == 'prop' else s.then(s.ev(f['i'], st2, env), lambda st3, i: s.get_idx(st3, o, i))
                        return s.then(g, gotf)
                    if f['opt']: res += s.shortc(st1, o, cont)
                    else: res += cont(st1, o)
                return res
            res = []
            for st1, fv in (s.chainv(f, st, env) if f['k'] == 'call' else s.ev(f, st, env)):
                if fv is SHORT or isinstance(fv, ABR): res.append((st1, fv)); continue
                def docall(st2, fv): return s.then(s.evargs(n['a'], st2, env), lambda st3, a: s.call(st3, fv, UNDEF, a, n))
                if n['opt']: res += s.shortc(st1, fv, docall)
                else: res += docall(st1, fv)
            return res
        return s.ev(n, st, env)
    def shortc(s, st, o, cont):
        c = simp(nullish(o))
        res = []
        for st1, b in s.split(st, c):
            if b: res.append((st1, SHORT))
            else: res += cont(st1, s.refine(o, st1, c))
        return res
    def refine(s, o, st, c):
        """drop nullish leaves of o after a null check"""
        if not is_ite(o): return o
        cs = [(cc, l) for cc, l in cases(o) if cons(l) not in ('undef', 'null')]
        if not cs: return o
        v = cs[-1][1]
        for cc, l in reversed(cs[:-1]): v = If(cc, l, v)
        return v
    def e_cond(s, n, st, env):
        def f(st, c): return s.branch2(st, truthy(c), lambda st: s.ev(n['t'], st, env), lambda st: s.ev(n['f'], st, env))
        return s.then(s.ev(n['c'], st, env), f)
    def branch2(s, st, c, ft, ff):
        outs = []
        for st1, b in s.split(st, c): outs += ft(st1) if b else ff(st1)
        return s.merge_if(st, outs)
    def e_logic(s, n, st, env):
        op = n['op']
        def f(st, a):
            if op == '&&': return s.branch2(st, truthy(a), lambda st: s.ev(n['b'], st, env), lambda st: [(st, s.refine_falsy(a))])
            if op == '||': return s.branch2(st, truthy(a), lambda st: [(st, s.refine_truthy(a))], lambda st: s.ev(n['b'], st, env))
            return s.branch2(st, simp(nullish(a)), lambda st: s.ev(n['b'], st, env), lambda st: [(st, s.refine(a, st, None))])
        return s.then(s.ev(n['a'], st, env), f)
    def refine_truthy(s, a):
        if not is_ite(a): return a
        cs = [(c, l) for c, l in cases(a) if not z3.is_false(truthy(l))]
        if not cs: return a
        v = cs[-1][1]
        for cc, l in reversed(cs[:-1]): v = If(cc, l, v)
        return v
    def refine_falsy(s, a):
        if not is_ite(a): return a
        cs = [(c, l) for c, l in cases(a) if not z3.is_true(truthy(l))]
        if not cs: return a
        v = cs[-1][1]
        for cc, l in reversed(cs[:-1]): v = If(cc, l, v)
        return v
    def e_tmpl(s, n, st, env):
        def f(st, vs):
            parts = [s.tostr(st, v) for v in vs]
            parts = [p for p in parts if not (z3.is_string_value(p) and p.as_string() == '')]
            if not parts: return [(st, string(''))]
            return [(st, V.str(simp(z3.Concat(*parts)) if len(parts) > 1 else parts[0]))]
        return s.then(s.evs(n['parts'], st, env), f)
    def e_un(s, n, st, env):
        op = n['op']
        def f(st, v):
            if op == '!': return [(st, V.bool(simp(Not(truthy(v)))))]
            if op == '-':
                if cons(v) == 'num': return [(st, V.num(simp(-v.arg(0))))]
            if op == '+': return [(st, s.tonum(st, v))]
            raise Unsupported('unary ' + op, n.get('l'))
        return s.then(s.ev(n['e'], st, env), f)
    def tonum(s, st, v):
        c = cons(v)
        if c == 'num': return v
        if c == 'str':
            k = sconst(v.arg(0))
            if k is not None and k.strip().lstrip('-').isdigit(): return num(int(k))
            return V.num(U_strnum(v.arg(0)))
        if c == 'bool': return V.num(If(v.arg(0), z3.IntVal(1), z3.IntVal(0)))
        if is_ite(v): return If(v.arg(0), s.tonum(st, v.arg(1)), s.tonum(st, v.arg(2)))
        r = U_tonum(v)
        st.fact(Implies(V.is_num(v), r == V.n(v))); st.fact(Implies(V.is_str(v), r == U_strnum(V.s(v))))
        return V.num(r)
    def e_typeof(s, n, st, env):
        if n['e']['k'] == 'id' and env.lookup(n['e']['n']) is None: return [(st, string('undefined'))]
        return s.then(s.ev(n['e'], st, env), lambda st, v: [(st, s.typeof(st, v))])
    def typeof(s, st, v):
        c = cons(v)
        m = dict(undef='undefined', null='object', bool='boolean', num='number', str='string', big='bigint', symv='symbol')
        if c in m: return string(m[c])
        if c == 'obj':
            h = s.hget(st, v)
            if h is not None and 'term' not in h.data: return string('function' if h.kind in FNK else 'object')
            return If(U_isfn(v), string('function'), string('object'))
        if is_ite(v): return If(v.arg(0), s.typeof(st, v.arg(1)), s.typeof(st, v.arg(2)))
        sh = s.getshape(v)
        if sh is not None:
            mm = dict(str='string', num='number', nat='number', bool='boolean', obj='object', record='object', array='object', tagged='object', fn='function', promise='object', undef='undefined', null='object')
            ks = {mm.get(a.kind) for a in s.alts(sh)}
            if len(ks) == 1 and None not in ks:
                if s.implied(st, s.kindfact(v, sh)): return string(next(iter(ks)))
        r = string('symbol')
        for k in ('str', 'num', 'bool', 'big', 'null', 'undef'): r = If(getattr(V, 'is_' + k)(v), string(m[k]), r)
        r = If(V.is_obj(v), If(U_isfn(v), string('function'), string('object')), r)
        return r
    def e_delete(s, n, st, env):
        t = n['t']
        if t['k'] not in ('prop', 'idx'): raise Unsupported('delete', n.get('l'))
        def f(st, o):
            def g(st, kv):
                key = s.tokey(st, kv); out = []
                for st1, l, k in s.resolve_leaf(st, o):
                    if k != 'obj': out.append((st1, TRUE)) if k not in ('undef', 'null') else out.append(s.throw_type(st1, 'delete')); continue
                    h = s.own(st1, l)
                    s.hset(st1, l, h.with_(ops=h.ops + (('del', key),))); out.append((st1, TRUE))
                return s.merge_if(st, out)
            if t['k'] == 'prop': return g(st, string(t['n']))
            return s.then(s.ev(t['i'], st, env), g)
        return s.then(s.ev(t['o'], st, env), f)
    def e_bin(s, n, st, env):
        op = n['op']
        def f(st, a):
            return s.then(s.ev(n['b'], st, env), lambda st, b: s.binop(st, op, a, b, n))
        return s.then(s.ev(n['a'], st, env), f)
    def binop(s, st, op, a, b, n=None):
        if op == '===': return [(st, V.bool(eqt(a, b)))]
        if op == '!==': return [(st, V.bool(Not(eqt(a, b))))]
        if op in ('==', '!='):
            if cons(b) in ('undef', 'null'): r = simp(nullish(a))
            elif cons(a) in ('undef', 'null'): r = simp(nullish(b))
            else: raise Unsupported('loose equality', n and n.get('l'))
            return [(st, V.bool(r if op == '==' else Not(r)))]
        if op in ('<', '>', '<=', '>='):
            if s.known(st, a, 'num') and s.known(st, b, 'num'):
                x, y = acc('num', a), acc('num', b)
                r = {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]
                return [(st, V.bool(simp(r)))]
            if s.known(st, a, 'str') and s.known(st, b, 'str'):
                x, y = acc('str', a), acc('str', b)
                r = {'<': x < y, '>': y < x, '<=': x <= y, '>=': y <= x}[op]
                return [(st, V.bool(simp(r)))]
            raise Unsupported('comparison of unknown kinds', n and n.get('l'))
        if op == '+':
            if s.known(st, a, 'num') and s.known(st, b, 'num'): return [(st, V.num(simp(acc('num', a) + acc('num', b))))]
            if s.known(st, a, 'str') or s.known(st, b, 'str'):
                return [(st, V.str(simp(z3.Concat(s.tostr(st, a), s.tostr(st, b)))))]
            raise Unsupported('+ on unknown kinds', n and n.get('l'))
        if op in ('-', '*', '%'):
            x, y = acc('num', s.tonum(st, a)), acc('num', s.tonum(st, b))
            r = {'-': x - y, '*': x * y, '%': x % y}[op]
            return [(st, V.num(simp(r)))]
        if op == 'in':
            key = s.tokey(st, a); outs = []
            for st1, l, k in s.resolve_leaf(st, b):
                if k != 'obj': outs.append(s.throw_type(st1, "Cannot use 'in' operator")); continue
                h = s.hget(st1, l)
                if h is not None and h.kind == 'array' and not h.ops and sconst(key) is None: raise Unsupported("'in' on array")
                hh, _ = s.rread(st1, s.repof(st1, l), key)
                if h is not None and 'cls' in h.data and sconst(key) is not None and s.find_method(st1, h.data['cls'], sconst(key)) is not None: hh = T
                outs.append((st1, V.bool(hh)))
            return s.merge_if(st, outs)
        if op == 'instanceof':
            return [(st, V.bool(s.instance(st, a, b)))]
        raise Unsupported('operator ' + op, n and n.get('l'))
    def instance(s, st, a, b):
        hb = s.hget(st, b) if cons(b) == 'obj' else None
        if hb is None: raise Unsupported('instanceof opaque')
        name = hb.data.get('name') or hb.data.get('nm')
        def one(l):
            if cons(l) is not None and cons(l) != 'obj': return F
            h = s.hget(st, l) if cons(l) == 'obj' else s.hget(st, l)
            if h is not None and 'term' not in h.data:
                if h.kind == 'set': return z3.BoolVal(name == 'Set')
                if h.kind == 'map': return z3.BoolVal(name == 'Map')
                if h.kind == 'array': return z3.BoolVal(name == 'Array')
                c = h.data.get('cls')
                while c is not None and not isinstance(c, str):
                    if c.eq(b): return T
                    c = s.hget(st, c).data.get('super')
                    if c is not None and not isinstance(c, str):
                        hh = s.hget(st, c)
                        if hh.kind == 'native': return z3.BoolVal(hh.data['nm'] == name)
                if h.data.get('proto') == name: return T
                if h.data.get('errname') == name: return T
                return F
            return And(isk('obj', l), U_instof(l, sv(str(name))))
        r = F
        for c, l in cases(a): r = Or(r, And(c, one(l)))
        return simp(r)
    def known(s, st, v, kind):
        c = isk(kind, v)
        if z3.is_true(simp(c)): return True
        return s.implied(st, c)
    def e_upd(s, n, st, env):
        def f(st, v):
            nv = V.num(simp(acc('num', s.tonum(st, v)) + (1 if n['op'] == '+' else -1)))
            return s.then(s.assign(n['t'], nv, st, env), lambda st, _: [(st, nv if n['pre'] else v)])
        return s.then(s.ev(n['t'], st, env), f)
    def e_assign(s, n, st, env):
        op = n['op']
        if op == '':
            return s.then(s.ev(n['v'], st, env), lambda st, v: s.assign(n['t'], v, st, env))
        if op in ('??', '&&', '||'):
            def f(st, a):
                c = {'??': Not(nullish(a)), '||': truthy(a), '&&': Not(truthy(a))}[op]
                return s.branch2(st, simp(c), lambda st: [(st, a)], lambda st: s.then(s.ev(n['v'], st, env), lambda st, v: s.assign(n['t'], v, st, env)))
            return s.then(s.ev(n['t'], st, env), f)
        return s.then(s.ev(n['t'], st, env), lambda st, a: s.then(s.ev(n['v'], st, env), lambda st, b: s.then(s.binop(st, op, a, b, n), lambda st, r: s.assign(n['t'], r, st, env))))
    def assign(s, t, v, st, env):
        k = t['k']
        if k == 'id':
            c = env.lookup(t['n'])
            if c is None: raise Unsupported('assignment to unbound ' + t['n'])
            if isinstance(c, tuple): raise Unsupported('assignment to import')
            st.cells[c] = v
            return [(st, v)]
        if k == 'prop': return s.then(s.ev(t['o'], st, env), lambda st, o: s.put(st, o, sv(t['n']), v))
        if k == 'idx': return s.then(s.ev(t['o'], st, env), lambda st, o: s.then(s.ev(t['i'], st, env), lambda st, i: s.put(st, o, s.tokey(st, i), v)))
        if k in ('arrpat', 'objpat'): return s.destruct(t, v, st, env, False)
        raise Unsupported('assignment target ' + k)
    def destruct(s, t, v, st, env, declare):
        """bind pattern -> [(st, v|abrupt)]"""
        k = t['k']
        if k == 'id':
            if declare:
                c = env.vars.get(t['n'])
                if c is None or isinstance(c, tuple): s.bind(st, env, t['n'], v)
                else: st.cells[c] = v
                return [(st, v)]
            return s.assign(t, v, st, env)
        if k in ('prop', 'idx'): return s.assign(t, v, st, env)
        def sub(e_target, e_def, pv, st):
            if e_def is not None:
                outs = s.branch2(st, simp(isk('undef', pv)), lambda st: s.ev(e_def, st, env), lambda st: [(st, s.drop_undef(pv))])
                return s.then(outs, lambda st, x: s.destruct(e_target, x, st, env, declare))
            return s.destruct(e_target, pv, st, env, declare)
        if k == 'objpat':
            def go(i, st, keys):
                if i == len(t['props']):
                    if t['rest'] is not None:
                        rep = s.spread_rep(st, (None, ()), v)
                        rep = (rep[0], rep[1] + tuple(('del', x) for x in keys))
                        o = s.alloc(st, HObj('object', rep[0], rep[1]))
                        return s.destruct(t['rest'], o, st, env, declare)
                    return [(st, v)]
                p = t['props'][i]
                def wk(st, kv):
                    key = s.tokey(st, kv)
                    return s.then(s.get(st, v, key), lambda st, pv: s.then(sub(p['target'], p['def'], pv, st), lambda st, _: go(i + 1, st, keys + [key])))
                return s.then(s.ev(p['key'], st, env), wk)
            c = simp(nullish(v))
            outs = []
            for st1, b in s.split(st, c):
                if b: outs.append(s.throw_type(st1, 'destructuring of nullish'))
                else: outs += go(0, st1, [])
            return outs
        if k == 'arrpat':
            def go(i, st, segs):
                if i == len(t['el']):
                    if t['rest'] is not None:
                        if any(x[0] != 'el' for x in segs[:i]) and i > 0: raise Unsupported('rest of symbolic array')
                        o = s.alloc(st, HObj('array', segs=tuple(segs[i:])))
                        return s.destruct(t['rest'], o, st, env, declare)
                    return [(st, v)]
                e = t['el'][i]
                if e is None: return go(i + 1, st, segs)
                pv = s.aget(st, segs, z3.IntVal(i))
                return s.then(sub(e['target'], e['def'], pv, st), lambda st, _: go(i + 1, st, segs))
            return s.then(s.iter_segs(st, v), lambda st, segs: go(0, st, segs))
        raise Unsupported('pattern ' + k)
    def drop_undef(s, v):
        if not is_ite(v): return v
        cs = [(c, l) for c, l in cases(v) if cons(l) != 'undef']
        if not cs: return v
        r = cs[-1][1]
        for cc, l in reversed(cs[:-1]): r = If(cc, l, r)
        return r
    # ------------------------------------------------------------------ calls
    def evargs(s, nodes, st, env):
        """-> [(st, segs)] argument segments"""
        outs = [(st, ())]
        for n in nodes:
            nxt = []
            for st1, a in outs:
                if isinstance(a, ABR): nxt.append((st1, a)); continue
                if n['k'] == 'spread':
                    for st2, v in s.ev(n['e'], st1, env):
                        if isinstance(v, ABR): nxt.append((st2, v)); continue
                        for st3, sg in s.iter_segs(st2, v): nxt.append((st3, sg if isinstance(sg, ABR) else a + tuple(sg)))
                else:
                    for st2, v in s.ev(n, st1, env): nxt.append((st2, v if isinstance(v, ABR) else a + (('el', v),)))
            outs = nxt
        return outs
    def e_call(s, n, st, env):
        f = n['f']
        if f['k'] == 'super':
            return s.super_call(n, st, env)
        if f['k'] in ('prop', 'idx'):
            def withobj(st, o):
                s.curline = n.get('l')
                # fast path for builtin methods: avoid allocating bound objects
                g = s.get(st, o, sv(f['n'])) if f['k'] == 'prop' else s.then(s.ev(f['i'], st, env), lambda st, i: s.get_idx(st, o, i))
                return s.then(g, lambda st, fv: s.then(s.evargs(n['a'], st, env), lambda st, a: s.call(st, fv, o, a, n)))
            return s.merge_if(st, s.then(s.ev(f['o'], st, env), withobj))
        return s.merge_if(st, s.then(s.ev(f, st, env), lambda st, fv: s.then(s.evargs(n['a'], st, env), lambda st, a: s.call(st, fv, UNDEF, a, n))))
    def arglist(s, st, segs, n=None):
        out = []
        for g in segs:
            if g[0] != 'el': raise Unsupported('spread of a symbolic array into a call', n and n.get('l'))
            out.append(g[1])
        return out
    def call(s, st, f, this, args, n=None):
        """args: segments. -> outcomes (values or abrupt)"""
        if n is not None: s.curline = n.get('l', s.curline)
        outs = []
        for st1, l, k in s.resolve_leaf(st, f):
            if k != 'obj': outs.append(s.throw_type(st1, 'not a function')); continue
            h = s.hget(st1, l)
            if h is None or ('term' in h.data and h.kind == 'object'): outs += s.ocall(st1, l, this, args, n); continue
            if h.kind == 'closure': outs += s.invoke(st1, l, h, this, args, n)
            elif h.kind == 'native': outs += h.data['fn'](s, st1, this, args, n)
            elif h.kind == 'bound':
                nm = h.data['nm']
                if nm in s.prelude: outs += s.call(st1, s.prelude[nm], UNDEF, (('el', h.data['recv']),) + tuple(args), n)
                else: outs += s.natives[nm](s, st1, h.data['recv'], args, n)
            elif h.kind == 'bind':
                outs += s.call(st1, h.data['target'], h.data['this'], tuple(('el', x) for x in h.data['args']) + tuple(args), n)
            elif h.kind == 'class': outs.append(s.throw_type(st1, 'class called without new'))
            else: outs.append(s.throw_type(st1, 'not a function'))
        return s.merge_if(st, outs)
    def invoke(s, st, fv, h, this, args, n=None):
        node = h.data['node']
        key = h.data.get('key')
        if key is not None and key in s.modular and not s.modular[key].get('active'):
            return s.modular_call(st, key, s.modular[key], args, n)
        if s.depth > s.MAXDEPTH: raise Unsupported('recursion without a contract in ' + (node.get('name') or '?'), node.get('l'))
        if s.deadline and time.time() > s.deadline: raise Budget('time budget exceeded')
        path = node.get('path')
        if path: s.touched[(path, node.get('name') or '<fn>', node.get('l'))] = s.touched.get((path, node.get('name') or '<fn>', node.get('l')), 0) + 1
        s.depth += 1
        try:
            env = Env(h.data['env'], fn=node)
            if not node['arrow']: s.bind(st, env, 'this', this)
            if 'home' in h.data: env.vars['%home'] = s.bind(st, env, '%home', h.data['home'])
            outs = s.bind_params(st, node, args, env)
            res = []
            for st1, v in outs:
                if isinstance(v, ABR): res.append((st1, v)); continue
                res += s.run_body(st1, node, env)
            if node['async']:
                r2 = []
                for st1, v in res:
                    if isinstance(v, Thr): r2.append((st1, s.mkpromise(st1, 'rejected', v.v)))
                    elif isinstance(v, Susp): r2.append((st1, s.mkpromise(st1, 'pending', UNDEF)))
                    elif isinstance(v, Exit): r2.append((st1, v))
                    else: r2.extend(s.resolve_promise(st1, v))
                res = r2
            return s.merge_if(st, res)
        finally:
            s.depth -= 1
    def bind_params(s, st, node, args, env):
        ps = node['params']
        def go(i, st):
            if i == len(ps): return [(st, UNDEF)]
            p = ps[i]
            if p['rest']:
                if any(g[0] != 'el' for g in args[:i]): raise Unsupported('rest parameter after symbolic arguments')
                v = s.alloc(st, HObj('array', segs=tuple(args[i:])))
                return s.then(s.destruct(p['target'], v, st, env, True), lambda st, _: go(i + 1, st))
            if i < len(args) and all(g[0] == 'el' for g in args[:i + 1]): v = args[i][1]
            else: v = s.aget(st, args, z3.IntVal(i)) if i < len(args) or any(g[0] != 'el' for g in args) else UNDEF
            if p['def'] is not None:
                o = s.branch2(st, simp(isk('undef', v)), lambda st: s.ev(p['def'], st, env), lambda st: [(st, s.drop_undef(v))])
                return s.then(o, lambda st, x: s.then(s.destruct(p['target'], x, st, env, True), lambda st, _: go(i + 1, st)))
            return s.then(s.destruct(p['target'], v, st, env, True), lambda st, _: go(i + 1, st))
        return go(0, st)
    def run_body(s, st, node, env):
        """-> [(st, value | abrupt)]"""
        b = node['body']
        outs = []
        if b['k'] == 'return' :
            return s.ev(b['e'], st, env)
        for st1, c in s.block(b['b'], st, Env(env)):
            if c is None: outs.append((st1, UNDEF))
            elif isinstance(c, Ret): outs.append((st1, c.v))
            elif isinstance(c, ABR): outs.append((st1, c))
            else: raise Unsupported('stray completion')
        return outs
    def e_new(s, n, st, env):
        return s.merge_if(st, s.then(s.ev(n['f'], st, env), lambda st, f: s.then(s.evargs(n['a'], st, env), lambda st, a: s.construct(st, f, a, n))))
    def construct(s, st, f, args, n=None):
        outs = []
        for st1, l, k in s.resolve_leaf(st, f):
            h = s.hget(st1, l) if k == 'obj' else None
            if h is None: raise Unsupported('new on opaque constructor', n and n.get('l'))
            if h.kind == 'native' and 'ctor' in h.data: outs += h.data['ctor'](s, st1, args, n)
            elif h.kind == 'class': outs += s.new_class(st1, l, h, args, n)
            else: raise Unsupported('new on function', n and n.get('l'))
        return s.merge_if(st, outs)
    def new_class(s, st, cv, h, args, n):
        o = s.alloc(st, HObj('object', data={'cls': cv}))
        return s.then(s.init_class(st, cv, h, o, args), lambda st, _: [(st, o)])
    def init_class(s, st, cv, h, o, args):
        node = h.data['node']
        if node['ctor'] is None:
            def fields(st, _):
                return s.init_fields(st, h, o)
            sup = h.data['super']
            if sup is not None: return s.then(s.super_init(st, sup, o, args), fields)
            return fields(st, None)
        ctor = node['ctor']
        env = Env(h.data['env'], fn=ctor)
        s.bind(st, env, 'this', o); s.bind(st, env, '%home', cv); s.bind(st, env, '%ctor', cv)
        if h.data['super'] is None: pre = s.init_fields(st, h, o)
        else: pre = [(st, UNDEF)]
        path = ctor.get('path')
        if path: s.touched[(path, h.data['name'] + '.constructor', ctor.get('l'))] = s.touched.get((path, h.data['name'] + '.constructor', ctor.get('l')), 0) + 1
        def f(st, _):
            def g(st, _):
                for pp in ctor.get('paramProps', []):
                    hh = s.hget(st, o); s.hset(st, o, hh.with_(ops=hh.ops + (('set', sv(pp), s.lookup(st, env, pp)),)))
                return s.run_body(st, ctor, env)
            return s.then(s.bind_params(st, ctor, args, env), g)
        return s.then(pre, f)
    def init_fields(s, st, h, o):
        node = h.data['node']
        outs = [(st, UNDEF)]
        for m in node['members']:
            if m['k'] != 'field' or m['static']: continue
            nxt = []
            for st1, v in outs:
                env = Env(h.data['env']); s.bind(st1, env, 'this', o)
                for st2, val in s.ev(m['v'], st1, env):
                    if isinstance(val, ABR): nxt.append((st2, val)); continue
                    hh = s.hget(st2, o); s.hset(st2, o, hh.with_(ops=hh.ops + (('set', sv(m['key']['v']), val),)))
                    nxt.append((st2, UNDEF))
            outs = nxt
        return outs
    def super_init(s, st, sup, o, args):
        hs = s.hget(st, sup)
        if hs is None: raise Unsupported('opaque superclass')
        if hs.kind == 'class': return s.init_class(st, sup, hs, o, args)
        if hs.kind == 'native' and hs.data['nm'] == 'Error':
            a = s.arglist(st, args); hh = s.hget(st, o)
            msg = V.str(s.tostr(st, a[0])) if a else string('')
            d = dict(hh.data); d['proto'] = 'Error'
            s.hset(st, o, hh.with_(ops=hh.ops + (('set', sv('message'), msg), ('set', sv('stack'), V.str(fresh(st, Str, 'stack')))), data=d))
            return [(st, UNDEF)]
        raise Unsupported('superclass ' + hs.kind)
    def super_call(s, n, st, env):
        cv = s.lookup(st, env, '%ctor'); o = s.lookup(st, env, 'this')
        h = s.hget(st, cv)
        return s.then(s.evargs(n['a'], st, env), lambda st, a: s.then(s.super_init(st, h.data['super'], o, a), lambda st, _: s.init_fields(st, h, o)))
    # ---- opaque calls
    def enc(s, st, v, depth=0):
        """value as a term for uninterpreted application: fresh plain objects become structural terms"""
        a = addr_of(v)
        if a is None:
            if is_ite(v): return If(v.arg(0), s.enc(st, v.arg(1), depth), s.enc(st, v.arg(2), depth))
            return v
        h = st.heap.get(a)
        if h is None or depth > 4: return v
        if h.kind == 'object' and h.base is None and all(o[0] == 'set' and sconst(o[1]) is not None for o in h.ops):
            m = {}
            for o in h.ops: m[sconst(o[1])] = o[2]
            ks = sorted(m)
            f = uf('mk{%s}' % ','.join(ks), *([V] * len(ks)), Int) if ks else None
            if f is None: return V.obj(z3.Int('mk{}'))
            return V.obj(f(*[s.enc(st, m[k], depth + 1) for k in ks]))
        if h.kind == 'array' and all(g[0] == 'el' for g in h.segs):
            n = len(h.segs)
            if n == 0: return V.obj(z3.Int('mk[]'))
            return V.obj(uf('mk[%d]' % n, *([V] * n), Int)(*[s.enc(st, g[1], depth + 1) for g in h.segs]))
        if h.kind == 'object' and len(h.ops) == 0 and h.base is not None: return h.base
        return v
    def fnshape(s, f):
        oa = s.objalts(f)
        if oa:
            fs = [a for a in oa if a.kind == 'fn']
            if len(fs) > 1: raise Unsupported('call of a value with several function shapes')
            if fs: return fs[0]
        return None
    def ocall(s, st, f, this, args, n=None):
        sh = s.fnshape(f)
        outs = []
        if sh is None:
            if not s.implied(st, U_isfn(f)):
                if s.feasible(st, Not(U_isfn(f))):
                    s2 = st.clone(); s2.branch(Not(U_isfn(f))); outs.append(s.throw_type(s2, 'not a function'))
                if not s.feasible(st, U_isfn(f)): return outs
                st.branch(U_isfn(f))
            sh = Shape('fn', pure=False, throws=True, result=ANY)
        if sh.kw.get('behaviour') is not None:
            return outs + s.call(st, sh.kw['behaviour'], UNDEF, (('el', f),) + tuple(args), n)
        a = []
        for g in args:
            if g[0] == 'el': a.append(g[1])
            else: raise Unsupported('spread into opaque call', n and n.get('l'))
        s.assumptions.add('functions supplied by the caller do not mutate the objects they are given, other than through the effects the contract models')
        ea = [s.enc(st, x) for x in a]
        if sh.kw.get("args") is not None: ea = ea[:sh.kw["args"]]
        if sh.kw.get('useThis'): ea = [s.enc(st, this)] + ea
        nm = 'call%d' % len(ea)
        if sh.kw.get('pure'):
            r = uf(nm, V, *([V] * len(ea)), V)(f, *ea); th = uf(nm + '_throws', V, *([V] * len(ea)), Bool)(f, *ea); ex = uf(nm + '_exc', V, *([V] * len(ea)), V)(f, *ea)
        else:
            r = fresh(st, V, 'ret'); th = fresh(st, Bool, 'throws'); ex = fresh(st, V, 'exc')
        if sh.kw.get('throws'):
            if s.feasible(st, th):
                s2 = st.clone(); s2.branch(th)
                s2.fact(Implies(V.is_obj(ex), V.id(ex) >= 0))
                if sh.kw.get('exc') is not None: s.typed(s2, ex, sh.kw['exc'])
                s2.trace = s2.trace + (('ev', f, this, tuple(a), ex),)
                outs.append((s2, Thr(ex)))
            if not s.feasible(st, Not(th)): return outs
            st.branch(Not(th))
        s.typed(st, r, sh.kw.get('result', ANY))
        st.trace = st.trace + (('ev', f, this, tuple(a), r),)
        outs.append((st, r))
        return outs
    # ---- promises
    def mkpromise(s, st, state, val):
        return s.alloc(st, HObj('promise', data={'state': state, 'val': val, 'reactions': ()}))
    def resolve_promise(s, st, v):
        """promise resolved with v (adopting promises)"""
        outs = []
        for st1, l, k in s.resolve_leaf(st, v) if s.maybe_promise(st, v) else [(st, v, None)]:
            if k == 'obj':
                h = s.hget(st1, l)
                if h is not None and h.kind == 'promise': outs.append((st1, l)); continue
                if h is None and s.okind(st1, l) == 'promise':
                    outs += s.settle_opaque(st1, l); continue
            outs.append((st1, s.mkpromise(st1, 'fulfilled', l)))
        return s.merge_if(st, outs)
    def maybe_promise(s, st, v):
        for c, l in cases(v):
            k = cons(l)
            if k == 'obj':
                h = s.hget(st, l)
                if h is not None and h.kind == 'promise': return True
                if h is None and addr_of(l) is None and s.opaque_maybe_promise(st, l): return True
            elif k is None and s.opaque_maybe_promise(st, l): return True
        return False
    def opaque_maybe_promise(s, st, l):
        oa = s.objalts(l)
        if oa is not None and not any(a.kind in ('promise',) for a in oa): return False
        if oa is None: return False   # untyped opaque values are not thenables (assumption)
        return True
    def settle_opaque(s, st, l):
        """opaque promise -> concrete-state promise objects"""
        rej = uf('rejected', V, Bool)(l); val = uf('pval', V, V)(l); err = uf('perr', V, V)(l)
        inner = ANY; canrej = True
        for a in s.objalts(l) or []:
            if a.kind == 'promise': inner = a.kw.get('inner', ANY); canrej = a.kw.get('rejects', True)
        outs = []
        if canrej and s.feasible(st, rej):
            s2 = st.clone(); s2.branch(rej); s2.fact(Implies(V.is_obj(err), V.id(err) >= 0))
            outs.append((s2, s.mkpromise(s2, 'rejected', err)))
        if not canrej: st.fact(Not(rej))
        if s.feasible(st, Not(rej)):
            st.branch(Not(rej)); s.typed(st, val, inner)
            outs.append((st, s.mkpromise(st, 'fulfilled', val)))
        return outs
    def settle(s, st, p, state, val):
        """settle pending promise p; runs reactions -> [(st, UNDEF|abrupt)]"""
        h = s.hget(st, p)
        if h.data['state'] != 'pending': return [(st, UNDEF)]
        d = dict(h.data); d['state'] = state; d['val'] = val; rs = d['reactions']; d['reactions'] = ()
        s.hset(st, p, h.with_(data=d))
        outs = [(st, UNDEF)]
        for r in rs:
            outs = s.then(outs, lambda st, _: s.react(st, r, state, val))
        return outs
    def react(s, st, r, state, val):
        onf, onr, q = r
        fn = onf if state == 'fulfilled' else onr
        if fn is None: return s.settle(st, q, state, val)
        outs = []
        for st1, v in s.call(st, fn, UNDEF, (('el', val),)):
            if isinstance(v, Thr): outs += s.settle(st1, q, 'rejected', v.v)
            elif isinstance(v, ABR): outs.append((st1, v))
            else: outs += s.settle_with(st1, q, v)
        return outs
    def settle_with(s, st, q, v):
        outs = []
        for st1, p in s.resolve_promise(st, v):
            for st2, l, k in s.resolve_leaf(st1, p):
                h = s.hget(st2, l)
                if h.data['state'] == 'pending':
                    d = dict(h.data); d['reactions'] = d['reactions'] + ((None, None, q),); s.hset(st2, l, h.with_(data=d)); outs.append((st2, UNDEF))
                else: outs += s.settle(st2, q, h.data['state'], h.data['val'])
        return outs
    def promise_then(s, st, p, onf, onr):
        """-> [(st, newpromise)]"""
        outs = []
        for st1, pv in s.resolve_promise(st, p):
            for st2, l, k in s.resolve_leaf(st1, pv):
                h = s.hget(st2, l)
                q = s.mkpromise(st2, 'pending', UNDEF)
                if h.data['state'] == 'pending':
                    d = dict(h.data); d['reactions'] = d['reactions'] + ((onf, onr, q),); s.hset(st2, l, h.with_(data=d)); outs.append((st2, q))
                else:
                    for st3, v in s.react(st2, (onf, onr, q), h.data['state'], h.data['val']): outs.append((st3, v if isinstance(v, ABR) else q))
        return outs
    def e_await(s, n, st, env):
        return s.merge_if(st, s.then(s.ev(n['e'], st, env), s.await_))
    def await_(s, st, v):
        outs = []
        if not s.maybe_promise(st, v): return [(st, v)]
        for st1, p in s.resolve_promise(st, v):
            for st2, l, k in s.resolve_leaf(st1, p):
                h = s.hget(st2, l)
                stt = h.data['state']
                if stt == 'fulfilled': outs.append((st2, h.data['val']))
                elif stt == 'rejected': outs.append((st2, Thr(h.data['val'])))
                else: outs.append((st2, Susp()))
        return s.merge_if(st, outs)
    def e_dynimport(s, n, st, env): raise Unsupported('dynamic import', n.get('l'))
    # ------------------------------------------------------------------ statements
    def block(s, stmts, st, env):
        """-> [(st, completion)]; completion None = normal"""
        for x in stmts:
            if x['k'] == 'fndecl': s.bind(st, env, x['name'], s.mkclosure(st, x['v'], env))
            elif x['k'] == 'classdecl': pass
        return s.stmts(stmts, 0, st, env)
    def stmts(s, L, i, st, env):
        outs = [(st, None)]
        for j in range(i, len(L)):
            x = L[j]
            nxt = []
            for st1, c in outs:
                if c is not None: nxt.append((st1, c))
                else: nxt += s.stmt(x, st1, env)
            # keep the number of live paths small
            live = [o for o in nxt if o[1] is None]
            if len(live) > 1:
                nxt = [o for o in nxt if o[1] is not None] + s.merge_group(live)
            outs = nxt
            if len(outs) > 3000: raise Unsupported('too many paths', x.get('l'))
        return outs
    def stmt(s, n, st, env):
        if 'l' in n: s.curline = n['l']
        return getattr(s, 's_' + n['k'], s.s_unknown)(n, st, env)
    def s_unknown(s, n, st, env): raise Unsupported('statement %s %s' % (n['k'], n.get('why', '')), n.get('l'))
    def s_expr(s, n, st, env): return [(st1, v if isinstance(v, ABR) else None) for st1, v in s.ev(n['e'], st, env)]
    def s_var(s, n, st, env):
        outs = [(st, None)]
        for d in n['d']:
            nxt = []
            for st1, c in outs:
                if c is not None: nxt.append((st1, c)); continue
                if d['init'] is None:
                    if d['t']['k'] == 'id': s.bind(st1, env, d['t']['n'], UNDEF)
                    nxt.append((st1, None)); continue
                # bind names first so that closures can capture them
                names = s.pat_names(d['t'])
                for nm in names:
                    if nm not in env.vars or isinstance(env.vars.get(nm), tuple): env.vars[nm] = uid()
                for st2, v in s.ev(d['init'], st1, env):
                    if isinstance(v, ABR): nxt.append((st2, v)); continue
                    for st3, r in s.destruct(d['t'], v, st2, env, True): nxt.append((st3, r if isinstance(r, ABR) else None))
            outs = nxt
        return outs
    def pat_names(s, t):
        k = t['k']
        if k == 'id': return [t['n']]
        out = []
        if k == 'objpat':
            for p in t['props']: out += s.pat_names(p['target'])
            if t['rest']: out += s.pat_names(t['rest'])
        elif k == 'arrpat':
            for e in t['el']:
                if e: out += s.pat_names(e['target'])
            if t['rest']: out += s.pat_names(t['rest'])
        return out
    def s_fndecl(s, n, st, env): return [(st, None)]
    def s_classdecl(s, n, st, env):
        outs = []
        for st1, v in s.mkclass(st, n['v'], env):
            if not isinstance(v, ABR): s.bind(st1, env, n['name'], v)
            outs.append((st1, v if isinstance(v, ABR) else None))
        return outs
    def s_block(s, n, st, env): return s.block(n['b'], st, Env(env))
    def s_return(s, n, st, env):
        if n['e'] is None: return [(st, Ret(UNDEF))]
        return [(st1, v if isinstance(v, ABR) else Ret(v)) for st1, v in s.ev(n['e'], st, env)]
    def s_throw(s, n, st, env): return [(st1, v if isinstance(v, ABR) else Thr(v)) for st1, v in s.ev(n['e'], st, env)]
    def s_break(s, n, st, env): return [(st, Brk(n['label']))]
    def s_continue(s, n, st, env): return [(st, Cnt(n['label']))]
    def s_label(s, n, st, env):
        outs = []
        for st1, c in s.stmt(n['s'], st, env):
            if isinstance(c, Brk) and c.l == n['name']: c = None
            outs.append((st1, c))
        return outs
    def s_if(s, n, st, env):
        outs = []
        for st1, c in s.ev(n['c'], st, env):
            if isinstance(c, ABR): outs.append((st1, c)); continue
            for st2, b in s.split(st1, truthy(c)):
                if b: outs += s.stmt(n['t'], st2, Env(env))
                elif n['f'] is not None: outs += s.stmt(n['f'], st2, Env(env))
                else: outs.append((st2, None))
        return s.merge_completions(outs)
    def merge_completions(s, outs):
        if len(outs) <= 1: return outs
        groups = {}
        for st, c in outs:
            k = (type(c).__name__, getattr(c, 'l', None) if isinstance(c, (Brk, Cnt)) else None)
            groups.setdefault(k, []).append((st, c))
        res = []
        for k, g in groups.items():
            res += s.merge_group(g) if k[0] in ('NoneType', 'Brk', 'Cnt', 'Ret') else g
        return res
    def s_try(s, n, st, env):
        outs = []
        for st1, c in s.stmt(n['b'], st, env):
            if isinstance(c, Thr) and n['h'] is not None:
                e2 = Env(env)
                if n['p'] is not None:
                    for st2, r in s.destruct(n['p'], c.v, st1, e2, True):
                        outs += [(st2, r)] if isinstance(r, ABR) else s.stmt(n['h'], st2, e2)
                else: outs += s.stmt(n['h'], st1, e2)
            else: outs.append((st1, c))
        if n['fin'] is not None:
            res = []
            for st1, c in outs:
                if isinstance(c, (Susp, Exit)): res.append((st1, c)); continue
                for st2, c2 in s.stmt(n['fin'], st1, env): res.append((st2, c if c2 is None else c2))
            outs = res
        return s.merge_completions(outs)
    def s_switch(s, n, st, env):
        outs = []
        for st1, v in s.ev(n['e'], st, env):
            if isinstance(v, ABR): outs.append((st1, v)); continue
            env2 = Env(env)
            # find entry clause for each case
            pend = [(st1, 0)]
            entries = []
            rest = [st1]
            dflt = None
            for i, c in enumerate(n['cs']):
                if c['c'] is None: dflt = i; continue
                nr = []
                for str_ in rest:
                    for st2, cv in s.ev(c['c'], str_, env2):
                        if isinstance(cv, ABR): outs.append((st2, cv)); continue
                        for st3, b in s.split(st2, eqt(v, cv)):
                            if b: entries.append((st3, i))
                            else: nr.append(st3)
                rest = nr
            for r in rest:
                if dflt is None: outs.append((r, None))
                else: entries.append((r, dflt))
            for st2, i in entries:
                env3 = Env(env)
                body = []
                for c in n['cs'][i:]: body += c['b']
                for c in n['cs'][:i]:      # hoisted declarations of earlier clauses
                    for x in c['b']:
                        if x['k'] == 'var':
                            for d in x['d']:
                                for nm in s.pat_names(d['t']): env3.vars[nm] = uid()
                for st3, c in s.block(body, st2, env3):
                    if isinstance(c, Brk) and c.l is None: c = None
                    outs.append((st3, c))
        return s.merge_completions(outs)
    # ------------------------------------------------------------------ loops
    def s_forof(s, n, st, env):
        outs = []
        for st1, v in s.ev(n['e'], st, env):
            if isinstance(v, ABR): outs.append((st1, v)); continue
            for st2, segs in s.iter_segs(st1, v):
                if isinstance(segs, ABR): outs.append((st2, segs)); continue
                outs += s.loop_stmt(n, st2, env, segs)
        return outs
    def s_forin(s, n, st, env):
        outs = []
        for st1, v in s.ev(n['e'], st, env):
            if isinstance(v, ABR): outs.append((st1, v)); continue
            for st2, l, k in s.resolve_leaf(st1, v):
                if k in ('undef', 'null'): outs.append((st2, None)); continue
                if k != 'obj': raise Unsupported('for-in over primitive', n.get('l'))
                outs += s.loop_stmt(n, st2, env, s.keysegs(st2, s.repof(st2, l)))
        return outs
    def loop_stmt(s, n, st, env, segs):
        def body(st, v):
            e2 = Env(env)
            res = []
            for st1, r in s.destruct(n['t'], v, st, e2, n['decl']):
                if isinstance(r, ABR): res.append((st1, r)); continue
                for st2, c in s.stmt(n['b'], st1, e2):
                    if isinstance(c, Cnt) and c.l is None: c = None
                    res.append((st2, c))
            return s.merge_completions(res)
        outs = s.loop_over(st, segs, body, n.get('l'))
        return s.merge_completions([(st1, None if isinstance(c, Brk) and c.l is None else c) for st1, c in outs])
    def loop_over(s, st, segs, body, line=None):
        """body(st, elem) -> [(st, completion)]; -> [(st, completion)]"""
        outs = [(st, None)]
        for g in segs:
            nxt = []
            for st1, c in outs:
                if c is not None: nxt.append((st1, c)); continue
                nxt += s.loop_seg(st1, g, body, line)
            live = [o for o in nxt if o[1] is None]
            outs = [o for o in nxt if o[1] is not None] + (s.merge_group(live) if len(live) > 1 else live)
            if len(outs) > 3000: raise Unsupported('too many paths in loop', line)
        return outs
    def loop_seg(s, st, g, body, line):
        k = g[0]
        if k == 'el': return body(st, g[1])
        if k == 'ev':
            rec = s.mkrecord(st, g); return body(st, rec)
        if k == 'guard':
            outs = []
            for st1, b in s.split(st, g[1]):
                if b: outs += s.loop_over(st1, g[2], body, line)
                else: outs.append((st1, None))
            return s.merge_completions(outs)
        if k == 'arr':
            t = g[1]
            i = fresh(st, Int, 'i')
            st.fact(U_alen(t) >= 0)
            dom = Dom(i, z3.And(i >= 0, i < U_alen(t)))
            return s.sym_loop(st, dom, lambda st: [(st, s.aelem(st, t, i))], body, line)
        if k == 'slice':
            t, lo, hi = g[1:]
            i = fresh(st, Int, 'i')
            dom = Dom(i, z3.And(i >= lo, i < hi))
            return s.sym_loop(st, dom, lambda st: [(st, s.aelem(st, t, i))], body, line)
        if k == 'keys':
            kk = fresh(st, Str, 'k')
            tmp = st.clone()
            h, _ = s.rread(tmp, g[1], kk)
            dom = Dom(kk, simp(h))
            def el(st):
                s.rread(st, g[1], kk)
                return [(st, V.str(kk))]
            # facts produced by the read belong to the iteration
            return s.sym_loop(st, dom, el, body, line)
        if k == 'comp':
            L, segs, d = g[1], g[2], g[3]
            i = fresh(st, L.dom.idx.sort(), 'c')
            dom = Dom(i, d.at(i))
            def inner(st):
                sub = s.instantiate(st, L, i, d)
                return [(st, sub.segs(segs))]
            def body2(st, sg): return s.loop_over(st, sg, body, line)
            return s.sym_loop(st, dom, inner, body2, line)
        if k == 'perm': return s.loop_perm(st, g, body, line)
        if k == 'dedup': return s.loop_perm(st, g, body, line)
        raise Unsupported('loop over ' + k, line)
    def loop_perm(s, st, g, body, line):
        """reordered / de-duplicated collection: the effects of the underlying collection, order (multiplicity) abstracted"""
        s.unordered = True
        s.assumptions.add('loops over sorted or de-duplicated collections are treated as loops over the underlying collection (order and multiplicity abstracted)')
        return s.loop_over(st, g[1], body, line)
    def mkrecord(s, st, g):
        _, f, this, args, res = g
        arr = s.alloc(st, HObj('array', segs=tuple(('el', a) for a in args)))
        return s.alloc(st, HObj('object', None, (('set', sv('fn'), f), ('set', sv('self'), this), ('set', sv('args'), arr), ('set', sv('result'), res))))
    def s_for(s, n, st, env):
        env2 = Env(env)
        outs = []
        init = s.stmt(n['init'], st, env2) if n['init'] else [(st, None)]
        for st1, c in init:
            if c is not None: outs.append((st1, c)); continue
            outs += s.while_loop(st1, env2, n['c'], n['b'], n['u'], n, False)
        return outs
    def s_while(s, n, st, env): return s.while_loop(st, env, n['c'], n['b'], None, n, False)
    def s_dowhile(s, n, st, env): return s.while_loop(st, env, n['c'], n['b'], None, n, True)
    def while_loop(s, st, env, c, b, u, n, first):
        import loops
        return loops.while_loop(s, st, env, c, b, u, n, first)
    def sym_loop(s, st, dom, elem, body, line):
        import loops
        return loops.sym_loop(s, st, dom, elem, body, line)
    # ------------------------------------------------------------------ modules
    def load_asts(s, paths):
        todo = [p for p in paths if p not in s.asts]
        if todo: s.asts.update(dump_files(todo))
    def module(s, path):
        if path in s.modules: return s.modules[path]
        try: return s.load_module(path)
        except (Unsupported, Budget):
            s.modules.pop(path, None); raise
    def load_module(s, path):
        m = Module(path); s.modules[path] = m
        if path not in s.asts: s.load_asts([path])
        ast = s.asts[path]
        if ast['errors']: raise Unsupported('syntax errors in %s: %s' % (path, ast['errors'][:3]))
        s.annotate(ast['body'], path)
        m.env = Env(s.g)
        st = s.st0
        for x in ast['body']:
            k = x['k']
            if k == 'import':
                for b in x['b']: m.env.vars[b['local']] = ('imp', path, x['from'], b['imported'])
            elif k == 'fndecl':
                c = s.mkclosure(st, x['v'], m.env)
                st.heap[addr_of(c)].data['key'] = s.relkey(path) + '#' + x['name']
                s.bind(st, m.env, x['name'], c)
                if x['exported']: m.exports['default' if x.get('isDefault') else x['name']] = ('local', x['name'])
            elif k == 'exportnamed':
                for b in x['b']: m.exports[b['exported']] = ('re', x['from'], b['local']) if x['from'] else ('local', b['local'])
            elif k == 'exportns': m.exports[x['name']] = ('re', x['from'], '*')
            elif k == 'exportstar': m.stars.append(x['from'])
            elif k == 'var' and x.get('exported'):
                for d in x['d']:
                    for nm in s.pat_names(d['t']): m.exports[nm] = ('local', nm)
            elif k == 'classdecl' and x.get('exported'): m.exports[x['name']] = ('local', x['name'])
        m.loaded = False
        # initialise imports that are evaluated at module level lazily: run the body now
        for x in ast['body']:
            if x['k'] in ('import', 'fndecl', 'exportnamed', 'exportstar', 'exportns'): continue
            if x['k'] == 'exportdefault':
                outs = s.ev(x['e'], st, m.env)
                if len(outs) != 1: raise Unsupported('module-level branching')
                st2, v = outs[0]; s.bind(st2, m.env, '%default', v); m.exports['default'] = ('local', '%default')
                continue
            outs = [o for o in s.stmt(x, st, m.env)]
            outs = [o for o in outs if o[1] is None] or outs
            if len(outs) != 1 or outs[0][1] is not None: raise Unsupported('module-level code of %s does not run to completion (line %s)' % (path, x.get('l')))
            if outs[0][0] is not st:
                o = outs[0][0]
                for a in St.__slots__: setattr(st, a, getattr(o, a))
            if x['k'] == 'var':
                for d in x['d']:
                    if d['t']['k'] == 'id':
                        v = st.cells.get(m.env.vars[d['t']['n']])
                        a = addr_of(v) if v is not None else None
                        if a is not None and st.heap[a].kind == 'closure' and 'key' not in st.heap[a].data:
                            st.heap[a].data['key'] = s.relkey(path) + '#' + d['t']['n']
        m.loaded = True
        return m
    def relkey(s, path):
        i = path.find('/packages/')
        return path[i + len('/packages/'):] if i >= 0 else path
    def annotate(s, n, path):
        if isinstance(n, dict):
            if n.get('k') == 'fn': n['path'] = path
            for v in n.values(): s.annotate(v, path)
        elif isinstance(n, list):
            for v in n: s.annotate(v, path)
    def import_value(s, st, c):
        _, frompath, spec, name = c
        return s.module_export(st, s.resolver(frompath, spec), name, spec)
    def ns_object(s, path):
        """namespace object of a module (allocated in the initial state)"""
        m = s.module(path)
        if getattr(m, 'ns', None) is None:
            m.ns = s.alloc(s.st0, HObj('object', data={'module': path}))
        return m.ns
    def module_export(s, st, path, name, spec):
        if path is None: raise Unsupported("import of '%s' from '%s' has no source and no model" % (name, spec))
        if isinstance(path, tuple) and path[0] == 'native':
            return s.native_module(st, path[1], name)
        m = s.module(path)
        if name == '*':
            v = s.ns_value(st, path)
            return v
        r = s.find_export(st, m, name)
        if r is None: raise Unsupported("module '%s' has no export '%s'" % (spec, name))
        return r
    def ns_value(s, st, path):
        m = s.modules[path] if path in s.modules else s.module(path)
        key = ('ns', path)
        if getattr(m, 'nsv', None) is None:
            v = V.obj(z3.IntVal(-uid())); m.nsv = v
            ops = []
            for nm in s.all_exports(m):
                x = s.find_export(s.st0, m, nm)
                if x is not None: ops.append(('set', sv(nm), x))
            s.st0.heap[addr_of(v)] = HObj('object', None, tuple(ops))
        a = addr_of(m.nsv)
        if a not in st.heap:
            st.heap[a] = s.st0.heap[a]
            s.sync(st)
        return m.nsv
    def sync(s, st):
        """bring module-level state created after st was forked into st"""
        if st is s.st0: return
        for a, h in s.st0.heap.items():
            if a not in st.heap: st.heap[a] = h
        for c, v in s.st0.cells.items():
            if c not in st.cells: st.cells[c] = v
    def all_exports(s, m):
        out = list(m.exports)
        for sp in m.stars:
            p = s.resolver(m.path, sp)
            if isinstance(p, str):
                for x in s.all_exports(s.module(p)):
                    if x not in out and x != 'default': out.append(x)
        return out
    def find_export(s, st, m, name):
        e = m.exports.get(name)
        if e is not None:
            if e[0] == 'local':
                c = m.env.lookup(e[1])
                if c is None: return None
                if isinstance(c, tuple): return s.import_value(st, c)
                v = st.cells.get(c)
                if v is None:
                    v = s.st0.cells.get(c)
                    if v is not None: s.sync(st)
                return v
            return s.module_export(st, s.resolver(m.path, e[1]), e[2], e[1])
        for sp in m.stars:
            p = s.resolver(m.path, sp)
            if isinstance(p, str):
                r = s.find_export(st, s.module(p), name)
                if r is not None: return r
        return None
    def internal(s, st, path, name):
        """module-level binding that need not be exported"""
        m = s.module(path)
        c = m.env.lookup(name)
        if c is None: return None
        if isinstance(c, tuple): return s.import_value(st, c)
        s.sync(st)
        return st.cells.get(c)
SHORT = object()
