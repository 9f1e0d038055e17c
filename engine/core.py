"""Core of the verifier: universal value sort, heap representation, states, loops (comprehensions), solver access."""
import z3, itertools, re, subprocess, tempfile, time, sys, os
RLPERMS = int(os.environ.get('RLPERMS', 10000))   # solver resource units allowed per nominal millisecond
z3.set_param('model.compact', False)
sys.setrecursionlimit(20000)

V = z3.Datatype('V')
V.declare('undef'); V.declare('null')
V.declare('bool', ('b', z3.BoolSort())); V.declare('num', ('n', z3.IntSort())); V.declare('str', ('s', z3.StringSort()))
V.declare('obj', ('id', z3.IntSort())); V.declare('big', ('bg', z3.IntSort())); V.declare('symv', ('sy', z3.StringSort()))
V = V.create()
Str, Int, Bool = z3.StringSort(), z3.IntSort(), z3.BoolSort()
UNDEF, NULL = V.undef, V.null
T, F = z3.BoolVal(True), z3.BoolVal(False)
TRUE, FALSE = V.bool(T), V.bool(F)
def num(n): return V.num(z3.IntVal(n) if isinstance(n, int) else n)
def sv(s): return z3.StringVal(esc(s)) if isinstance(s, str) else s
def string(s): return V.str(sv(s))
def boolv(b): return V.bool(z3.BoolVal(b) if isinstance(b, bool) else b)
def esc(s):
    # z3 string literals: escape backslash-u sequences and non-printables
    out = []
    for ch in s:
        o = ord(ch)
        if ch == '\\' or o < 32 or o > 126: out.append('\\u{%x}' % o)
        else: out.append(ch)
    return ''.join(out)
import re as _re
def unesc(s):
    return _re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
def sconst(t):
    """python string of a constant string term, else None"""
    if z3.is_string_value(t): return unesc(t.as_string())
    return None

U_has = z3.Function('has', V, Str, Bool)
U_get = z3.Function('get', V, Str, V)
U_alen = z3.Function('alen', V, Int)
U_aelem = z3.Function('aelem', V, Int, V)
U_isarr = z3.Function('isarr', V, Bool)
U_isfn = z3.Function('isfn', V, Bool)
U_isprom = z3.Function('isprom', V, Bool)
U_tostr = z3.Function('tostr', V, Str)
U_numstr = z3.Function('numstr', Int, Str)
U_strnum = z3.Function('strnum', Str, Int)
U_tonum = z3.Function('tonum', V, Int)
U_lower = z3.Function('lower', Str, Str)
U_upper = z3.Function('upper', Str, Str)
U_trim = z3.Function('trim', Str, Str)
U_json = z3.Function('jsonstr', V, V, Str)
U_jsonp = z3.Function('jsonparse', Str, V)
U_isjson = z3.Function('isjson', Str, Bool)
U_instof = z3.Function('instof', V, Str, Bool)
U_dollar = z3.Function('jsreplace_dollar', Str, Str, Str, Str)

class Unsupported(Exception):
    def __init__(s, msg, line=None): super().__init__(msg); s.line = line
class Budget(Exception): pass

_ctr = itertools.count(1)
def uid(): return next(_ctr)
_ufs = {}
def uf(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    if k not in _ufs: _ufs[k] = z3.Function(name, *sorts)
    return _ufs[k]

def dname(t): return t.decl().name()
def is_ite(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE
_CONS = {'undef', 'null', 'bool', 'num', 'str', 'obj', 'big', 'symv'}
def cons(t):
    """constructor name of a leaf V term or None"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DT_CONSTRUCTOR: return dname(t)
    return None
_simpc = {}
def simp(t):
    k = t.get_id()
    e = _simpc.get(k)
    if e is not None and e[0].eq(t): return e[1]
    r = z3.simplify(t)
    if len(_simpc) > 400000: _simpc.clear()
    _simpc[k] = (t, r)
    return r
def And(*xs):
    ys = []
    for x in xs:
        if z3.is_true(x): continue
        if z3.is_false(x): return F
        ys.append(x)
    if not ys: return T
    return ys[0] if len(ys) == 1 else z3.And(*ys)
def Or(*xs):
    ys = []
    for x in xs:
        if z3.is_false(x): continue
        if z3.is_true(x): return T
        ys.append(x)
    if not ys: return F
    return ys[0] if len(ys) == 1 else z3.Or(*ys)
def Not(x):
    if z3.is_true(x): return F
    if z3.is_false(x): return T
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def Implies(a, b):
    if z3.is_true(a): return b
    if z3.is_false(a) or z3.is_true(b): return T
    return z3.Implies(a, b)
def If(c, a, b):
    if z3.is_true(c): return a
    if z3.is_false(c): return b
    if a.eq(b): return a
    if a.sort() == Bool:
        if z3.is_true(a) and z3.is_false(b): return c
        if z3.is_false(a) and z3.is_true(b): return Not(c)
        if z3.is_true(a): return Or(c, b)
        if z3.is_false(b): return And(c, a)
        if z3.is_false(a): return And(Not(c), b)
        if z3.is_true(b): return Or(Not(c), a)
    return z3.If(c, a, b)
def cases(v, cond=T, lim=400):
    """[(cond, leaf)] distributing over If"""
    if is_ite(v):
        c = v.arg(0)
        return cases(v.arg(1), And(cond, c), lim) + cases(v.arg(2), And(cond, Not(c)), lim)
    return [(cond, v)]
def eqt(a, b):
    """equality of two terms of one sort, lightly simplified"""
    if a.eq(b): return T
    if a.sort() == V:
        ca, cb = cons(a), cons(b)
        if ca and cb:
            if ca != cb: return F
            if ca in ('undef', 'null'): return T
            return eqt(a.arg(0), b.arg(0))
        if is_ite(a): return If(a.arg(0), eqt(a.arg(1), b), eqt(a.arg(2), b))
        if is_ite(b): return If(b.arg(0), eqt(a, b.arg(1)), eqt(a, b.arg(2)))
        if ca or cb:
            c, o = (a, b) if ca else (b, a)
            k = cons(c)
            if k == 'undef': return V.is_undef(o)
            if k == 'null': return V.is_null(o)
            if k == 'str': return And(V.is_str(o), V.s(o) == c.arg(0))
            if k == 'num': return And(V.is_num(o), V.n(o) == c.arg(0))
            if k == 'bool': return And(V.is_bool(o), V.b(o) == c.arg(0))
    if z3.is_string_value(a) and z3.is_string_value(b): return z3.BoolVal(sconst(a) == sconst(b))
    if z3.is_int_value(a) and z3.is_int_value(b): return z3.BoolVal(a.as_long() == b.as_long())
    return simp(a == b)
def isk(kind, v):
    """Bool: v has constructor kind"""
    c = cons(v)
    if c: return z3.BoolVal(c == kind)
    if is_ite(v): return If(v.arg(0), isk(kind, v.arg(1)), isk(kind, v.arg(2)))
    return getattr(V, 'is_' + kind)(v)
def acc(kind, v):
    f = dict(bool=V.b, num=V.n, str=V.s, obj=V.id, big=V.bg, symv=V.sy)[kind]
    c = cons(v)
    if c == kind: return v.arg(0)
    if c: return f(v)
    if is_ite(v):
        # drop branches of other constructors only when harmless (term under a guard anyway)
        a, b = v.arg(1), v.arg(2)
        ca, cb = cons(a), cons(b)
        if ca and ca != kind: return acc(kind, b)
        if cb and cb != kind: return acc(kind, a)
        return If(v.arg(0), acc(kind, a), acc(kind, b))
    return f(v)
def truthy(v):
    c = cons(v)
    if c in ('undef', 'null'): return F
    if c == 'bool': return v.arg(0)
    if c == 'num': return simp(v.arg(0) != 0)
    if c == 'big': return simp(v.arg(0) != 0)
    if c == 'str': return simp(v.arg(0) != z3.StringVal(''))
    if c in ('obj', 'symv'): return T
    if is_ite(v): return If(v.arg(0), truthy(v.arg(1)), truthy(v.arg(2)))
    return Or(And(V.is_bool(v), V.b(v)), And(V.is_num(v), V.n(v) != 0), And(V.is_str(v), V.s(v) != z3.StringVal('')),
              V.is_obj(v), And(V.is_big(v), V.bg(v) != 0), V.is_symv(v))
def nullish(v): return Or(isk('undef', v), isk('null', v))
def addr_of(v):
    if cons(v) == 'obj' and z3.is_int_value(v.arg(0)): return v.arg(0).as_long()
    return None

class HObj:
    __slots__ = ('kind', 'base', 'ops', 'segs', 'data')
    def __init__(s, kind, base=None, ops=(), segs=(), data=None):
        s.kind, s.base, s.ops, s.segs, s.data = kind, base, ops, segs, data or {}
    def with_(s, **kw):
        o = HObj(s.kind, s.base, s.ops, s.segs, s.data)
        for k, v in kw.items(): setattr(o, k, v)
        return o
    def rep(s): return (s.base, s.ops)

class Env:
    __slots__ = ('vars', 'parent', 'serial', 'fn')
    def __init__(s, parent, fn=None):
        s.vars = {}; s.parent = parent; s.serial = uid(); s.fn = fn if fn is not None else (parent.fn if parent else None)
    def lookup(s, n):
        e = s
        while e is not None:
            c = e.vars.get(n)
            if c is not None: return c
            e = e.parent
        return None

class St:
    __slots__ = ('pc', 'cells', 'heap', 'trace', 'foralls', 'idx', 'ctx', 'insts', 'facts', 'meta')
    def __init__(s):
        s.pc = []        # list of (term, is_branch)
        s.cells = {}; s.heap = {}
        s.trace = ()
        s.foralls = []   # list of Forall
        s.idx = []       # known index terms
        s.ctx = ()       # loop index terms in scope
        s.insts = {}
        s.facts = set()
        s.meta = {}
    def clone(s):
        o = St.__new__(St)
        o.pc = list(s.pc); o.cells = dict(s.cells); o.heap = dict(s.heap); o.trace = s.trace
        o.foralls = list(s.foralls); o.idx = list(s.idx); o.ctx = s.ctx; o.insts = dict(s.insts); o.facts = set(s.facts); o.meta = dict(s.meta)
        return o
    def fact(s, t):
        t = t if z3.is_bool(t) else z3.BoolVal(t)
        if z3.is_true(t): return
        k = t.get_id()
        if k in s.facts and True:
            return
        s.facts.add(k); _keep.append(t)
        s.pc.append((t, False))
    def branch(s, t):
        if not z3.is_true(t): s.pc.append((t, True))
    def lemma(s, t):
        """a condition established on this path only (a proved obligation): kept out of the branch condition, guarded by it on merging"""
        if not z3.is_true(t): s.pc.append((t, None))
    def add_idx(s, t):
        for u in s.idx:
            if u.eq(t): return
        s.idx.append(t)
_keep = []
def fresh(st, sort, name):
    n = '%s!%d' % (name, uid())
    if st is not None and st.ctx:
        return z3.Function(n, *[c.sort() for c in st.ctx], sort)(*st.ctx)
    return z3.Const(n, sort)

class Dom:
    # done: ghost Boolean "the iterations of this domain all ran to their end on this path"; guards the facts they establish
    __slots__ = ('idx', 'cond', 'done')
    def __init__(s, idx, cond, done=None): s.idx, s.cond, s.done = idx, cond, T if done is None else done
    def at(s, a): return z3.substitute(s.cond, (s.idx, a)) if not a.eq(s.idx) else s.cond
    @property
    def ordered(s): return s.idx.sort() == Int

class Loop:
    """A completed iteration space: for every idx in dom, the body ran normally; `norm` is what holds of each iteration."""
    __slots__ = ('uid', 'dom', 'facts', 'norm', 'foralls', 'theap', 'tcells', 'serial0', 'idxs')
    def __init__(s, dom): s.uid = uid(); s.dom = dom; s.facts = []; s.norm = T; s.foralls = []; s.theap = {}; s.tcells = {}; s.serial0 = 0; s.idxs = []

# ---- substitution over everything -------------------------------------------------------------------------------
class Sub:
    """substitution of terms, template addresses, template cells/envs"""
    def __init__(s, pairs, cells=None, serial0=None):
        s.pairs = pairs; s.cells = cells or {}; s.serial0 = serial0; s.envs = {}; s.loops = {}
        s.amap = {}
        for a, b in pairs:
            x, y = addr_of(a) if a.sort() == V else None, addr_of(b) if b.sort() == V else None
            if x is not None and y is not None: s.amap[x] = y
    def t(s, t):
        if t is None: return None
        return z3.substitute(t, *s.pairs) if s.pairs else t
    def rep(s, r): return (s.t(r[0]), s.ops(r[1]))
    def ops(s, ops):
        out = []
        for o in ops:
            k = o[0]
            if k == 'set': out.append(('set', s.t(o[1]), s.t(o[2])))
            elif k == 'del': out.append(('del', s.t(o[1])))
            elif k == 'guard': out.append(('guard', s.t(o[1]), s.ops(o[2])))
            elif k == 'spread': out.append(('spread', s.rep(o[1])))
            elif k == 'comp': out.append(('comp', s.loop(o[1]), s.ops(o[2]), s.dom(o[3])))
            elif k == 'pref': out.append(('pref', o[1], tuple(s.t(x) for x in o[2])) + tuple(o[3:]))
            else: raise Unsupported('subst op ' + k)
        return tuple(out)
    def segs(s, segs):
        out = []
        for o in segs:
            k = o[0]
            if k == 'el': out.append(('el', s.t(o[1])))
            elif k == 'guard': out.append(('guard', s.t(o[1]), s.segs(o[2])))
            elif k == 'arr': out.append(('arr', s.t(o[1])))
            elif k == 'slice': out.append(('slice', s.t(o[1]), s.t(o[2]), s.t(o[3])))
            elif k == 'keys': out.append(('keys', s.rep(o[1])))
            elif k == 'comp': out.append(('comp', s.loop(o[1]), s.segs(o[2]), s.dom(o[3])))
            elif k == 'pref': out.append(('pref', o[1], tuple(s.t(x) for x in o[2])) + tuple(o[3:]))
            elif k == 'dedup': out.append(('dedup', s.segs(o[1]), o[2]))
            elif k == 'perm': out.append(('perm', s.segs(o[1]), o[2]))
            elif k == 'ev': out.append(('ev', s.t(o[1]), s.t(o[2]), tuple(s.t(x) for x in o[3]), s.t(o[4])))
            else: raise Unsupported('subst seg ' + k)
        return tuple(out)
    def dom(s, d): return Dom(s.t(d.idx), s.t(d.cond), s.t(d.done))
    def loop(s, L):
        if L.uid in s.loops: return s.loops[L.uid]
        n = Loop(s.dom(L.dom)); s.loops[L.uid] = n
        # identity of substituted loops must be stable: same loop, same substitution -> same uid
        n.uid = (L.uid, tuple((a.sexpr(), b.sexpr()) for a, b in s.pairs if a.sort() != V))
        n.facts = [s.t(x) for x in L.facts]; n.norm = s.t(L.norm)
        n.foralls = [f.subst(s) for f in L.foralls]
        n.theap = {a: s.hobj(o) for a, o in L.theap.items()}
        n.tcells = {c: s.t(v) for c, v in L.tcells.items()}
        n.serial0 = L.serial0; n.idxs = [s.t(x) for x in L.idxs]
        return n
    def env(s, e):
        if e is None or s.serial0 is None or e.serial < s.serial0: return e
        if e.serial in s.envs: return s.envs[e.serial]
        n = Env(None, e.fn); s.envs[e.serial] = n
        n.parent = s.env(e.parent)
        n.vars = {k: s.cells.get(c, c) for k, c in e.vars.items()}
        return n
    def hobj(s, h):
        d = {}
        for k, v in h.data.items():
            if z3.is_expr(v): d[k] = s.t(v)
            elif isinstance(v, Env): d[k] = s.env(v)
            elif k == 'args' : d[k] = tuple(s.t(x) for x in v)
            else: d[k] = v
        return HObj(h.kind, s.t(h.base), s.ops(h.ops), s.segs(h.segs), d)

class Forall:
    """universally quantified fact, instantiated on demand"""
    def __init__(s, kind, guard, **kw): s.kind, s.guard, s.kw = kind, guard, kw
    def subst(s, sub):
        kw = {}
        for k, v in s.kw.items():
            if z3.is_expr(v): kw[k] = sub.t(v)
            elif isinstance(v, Dom): kw[k] = sub.dom(v)
            elif isinstance(v, Loop): kw[k] = sub.loop(v)
            elif k in ('ops',): kw[k] = sub.ops(v)
            elif k in ('segs',): kw[k] = sub.segs(v)
            elif k in ('rep',): kw[k] = sub.rep(v)
            elif k == 'env': kw[k] = sub.env(v)
            else: kw[k] = v
        return Forall(s.kind, sub.t(s.guard), **kw)
    def sig(s):
        out = [s.kind, s.guard.get_id()]
        for k in sorted(s.kw):
            v = s.kw[k]
            if z3.is_expr(v): out.append(v.get_id())
            elif isinstance(v, Dom): out += [v.idx.get_id(), v.cond.get_id(), v.done.get_id()]
            elif isinstance(v, Loop): out.append(str(v.uid))
            else: out.append(id(v))
        return tuple(out)
def cvc5_check(sol, ms):
    txt = re.sub(r'"(?:[^"]|"")*"|\|[^|]*\|', lambda m: m.group(0) if m.group(0)[0] == '"' else m.group(0).replace('\\', '!'), sol.to_smt2())
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-logic'))); p = f.name
    try:
        r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % ms, p], capture_output=True, text=True, timeout=ms / 1000 + 5)
        return r.stdout.strip().split('\n')[0]
    except Exception: return 'unknown'
    finally: os.unlink(p)

