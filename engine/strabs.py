"""Queries in which strings are only compared: strings become integers (each literal its own number), which decides them
exactly and much faster. Other string operations become uninterpreted functions: then only 'unsat' is meaningful."""
import z3, os
from core import V, Str, Int, Bool
V2 = z3.Datatype('V2')
V2.declare('undef2'); V2.declare('null2')
V2.declare('bool2', ('b2', Bool)); V2.declare('num2', ('n2', Int)); V2.declare('str2', ('s2', Int))
V2.declare('obj2', ('id2', Int)); V2.declare('big2', ('bg2', Int)); V2.declare('symv2', ('sy2', Int))
V2 = V2.create()
names = ['undef', 'null', 'bool', 'num', 'str', 'obj', 'big', 'symv']
ctor = {n: V2.constructor(i) for i, n in enumerate(names)}
recog = {n: V2.recognizer(i) for i, n in enumerate(names)}
accs = {V.accessor(i, 0).name(): V2.accessor(i, 0) for i in range(2, 8)}
lits = {}; memo = {}; decls = {}
class NoAbs(Exception): pass
def srt(s):
    if s == Str: return Int
    if s == V: return V2
    if s == Int or s == Bool: return s
    raise NoAbs()
def uf(name, ar, rng):
    k = (name, tuple(a.name() for a in ar), rng.name())
    if k not in decls: decls[k] = z3.Function(name + '~', *ar, rng)
    return decls[k]
KEEP = {z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IDIV, z3.Z3_OP_MOD, z3.Z3_OP_REM, z3.Z3_OP_XOR}
def tr(t):
    """(abstract term, lossy)"""
    e = memo.get(t.get_id())
    if e is not None: return e[1], e[2]
    stack = [t]
    while stack:
        x = stack[-1]
        if x.get_id() in memo: stack.pop(); continue
        if not z3.is_app(x): raise NoAbs()
        ch = x.children()
        if x.num_args() and x.decl().kind() == z3.Z3_OP_SEQ_IN_RE: ch = ch[:1]
        todo = [c for c in ch if c.get_id() not in memo]
        if todo: stack += todo; continue
        cs = [memo[c.get_id()] for c in ch]
        a = [c[1] for c in cs]; lossy = any(c[2] for c in cs)
        d = x.decl(); k = d.kind()
        if z3.is_string_value(x):
            r = z3.IntVal(lits.setdefault(x.as_string(), len(lits)))
        elif z3.is_int_value(x) or k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE): r = x
        elif k == z3.Z3_OP_EQ: r = a[0] == a[1]
        elif k == z3.Z3_OP_DISTINCT: r = z3.Distinct(*a)
        elif k == z3.Z3_OP_ITE: r = z3.If(*a)
        elif k in KEEP:
            if k == z3.Z3_OP_AND: r = z3.And(*a)
            elif k == z3.Z3_OP_OR: r = z3.Or(*a)
            else: r = d(*a)
        elif k == z3.Z3_OP_UNINTERPRETED:
            r = uf(d.name(), [srt(c.sort()) for c in ch], srt(x.sort()))(*a)
        elif k == z3.Z3_OP_DT_CONSTRUCTOR: r = ctor[d.name()](*a)
        elif k in (z3.Z3_OP_DT_IS, z3.Z3_OP_DT_RECOGNISER):
            n = d.params()[0].name() if d.params() else d.name().replace('is-', '').replace('is_', '')
            r = recog[n](a[0])
        elif k == z3.Z3_OP_DT_ACCESSOR: r = accs[d.name()](a[0])
        else:
            lossy = True
            nm = 'op:' + d.name() + (':' + x.arg(1).sexpr() if k == z3.Z3_OP_SEQ_IN_RE else '')
            r = uf(nm, [y.sort() for y in a], srt(x.sort()))(*a)
        memo[x.get_id()] = (x, r, lossy); stack.pop()
    e = memo[t.get_id()]
    return e[1], e[2]
class Inc:
    """one solver kept across queries: only what differs from the previous query is retracted and asserted"""
    def __init__(s): s.sol = z3.Solver(); s.stack = []
    def query(s, terms, extra, rlimit, timeout, lossy_in):
        try:
            abs_ = [tr(t) for t in terms]; e, le = tr(extra)
            lossy = le or any(tr(t)[1] for t in lossy_in)
        except (NoAbs, KeyError, z3.Z3Exception): return 'unknown'
        n = 0; m = min(len(s.stack), len(abs_))
        while n < m and s.stack[n].eq(abs_[n][0]): n += 1
        if n < len(s.stack): s.sol.pop(len(s.stack) - n); del s.stack[n:]
        for a, _ in abs_[n:]: s.sol.push(); s.sol.add(a); s.stack.append(a)
        s.sol.set('rlimit', rlimit); s.sol.set('timeout', timeout)
        s.sol.push(); s.sol.add(e); r = s.sol.check(); s.sol.pop()
        if r == z3.unsat: return 'unsat'
        if r == z3.sat and not lossy: return 'sat'
        return 'unknown'
def query(terms, rlimit, timeout, lossy_in=None):
    """'unsat' | 'sat' | 'unknown' for the conjunction. With lossy_in (used for pruning paths only, where a wrong 'sat' costs
    precision but never soundness): 'sat' is also reported when only terms outside lossy_in use string operations"""
    sol = z3.Solver(); sol.set('rlimit', rlimit); sol.set('timeout', timeout)
    lossy = False
    try:
        for t in terms:
            r, l = tr(t)
            lossy = lossy or (l and lossy_in is None); sol.add(r)
        if lossy_in is not None: lossy = any(tr(t)[1] for t in lossy_in)
    except (NoAbs, KeyError, z3.Z3Exception): return 'unknown'
    r = sol.check()
    if r == z3.unsat: return 'unsat'
    if r == z3.sat and not lossy: return 'sat'
    return 'unknown'
