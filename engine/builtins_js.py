"""The fragment of the JavaScript standard library used by the code under contract, as contracts over the value sort."""
import hashlib, z3, json, re, os
from core import *
import execu
from execu import Thr, Susp, Exit, Ret, Brk, Cnt, ABR, Shape, ANY

N = {}
def native(name):
    def deco(f): N[name] = f; return f
    return deco
def arg(ex, st, args, i):
    if i < len(args) and all(g[0] == 'el' for g in args[:i + 1]): return args[i][1]
    if all(g[0] == 'el' for g in args): return UNDEF
    return ex.aget(st, args, z3.IntVal(i))
def ok(st, v): return [(st, v)]
def unsup(msg): raise Unsupported(msg)

# ------------------------------------------------------------------ membership
def member(ex, st, segs, v):
    """Bool: value v occurs in the segments (strict equality)"""
    r = F
    for g in segs: r = Or(r, member1(ex, st, g, v))
    return simp(r)
def member1(ex, st, g, v):
    k = g[0]
    if k == 'el': return eqt(g[1], v)
    if k == 'guard': return And(g[1], member(ex, st, g[2], v))
    if k in ('perm', 'dedup'): return member(ex, st, g[1], v)
    if k == 'keys':
        key = acc('str', v)
        h, _ = ex.rread(st, g[1], key)
        return And(isk('str', v), h)
    memo = ('member', id(g), v.get_id())
    if memo in st.insts: return st.insts[memo]
    execu._keep2.append((g, v))
    p = fresh(st, Bool, 'in')
    if k in ('arr', 'slice'):
        t = g[1]; lo, hi = (z3.IntVal(0), U_alen(t)) if k == 'arr' else (g[2], g[3])
        j = fresh(st, Int, 'at'); st.add_idx(j)
        st.fact(U_alen(t) >= 0)
        e = ex.aelem(st, t, j)
        st.fact(Implies(p, And(j >= lo, j < hi, eqt(e, v))))
        i = fresh(st, Int, 'b')
        st.foralls.append(Forall('amem', T, arr=t, v=v, p=p, lo=lo, hi=hi))
    elif k == 'comp':
        L, sg, dom = g[1], g[2], g[3]
        j = fresh(st, L.dom.idx.sort(), 'at'); st.add_idx(j)
        sub = ex.instantiate(st, L, j, dom, guard=p)
        st.fact(Implies(p, And(dom.at(j), member(ex, st, sub.segs(sg), v))))
        st.foralls.append(Forall('cmem', T, loop=L, segs=sg, dom=dom, v=v, p=p))
    elif k == 'pref':
        p = uf('pref_in!%s' % (g[1],), *[c.sort() for c in g[2]], V, Bool)(*g[2], v)
    else: raise Unsupported('membership in ' + k)
    st.insts[memo] = p
    return p

# ------------------------------------------------------------------ arrays
def arr_of(ex, st, recv): return ex.segsof(st, recv)
def newarr(ex, st, segs=()): return ex.alloc(st, HObj('array', segs=tuple(segs)))
def each_recv(ex, st, recv, f):
    outs = []
    for st1, l, k in ex.resolve_leaf(st, recv): outs += f(st1, l)
    return outs
def nparams(ex, st, f):
    a = addr_of(f)
    h = st.heap.get(a) if a is not None else None
    if h is not None and h.kind == 'closure': return len(h.data['node']['params'])
    return 1
def loop_indexed(ex, st, segs, body, line, want):
    """body(st, v, i)"""
    if not want: return ex.loop_over(st, segs, lambda st, v: body(st, v, None), line)
    if all(g[0] == 'el' for g in segs):
        outs = [(st, None)]
        for i, g in enumerate(segs):
            nxt = []
            for st1, c in outs: nxt += [(st1, c)] if c is not None else body(st1, g[1], num(i))
            outs = ex.merge_completions(nxt)
        return outs
    if len(segs) == 1 and segs[0][0] == 'arr':
        t = segs[0][1]; i = fresh(st, Int, 'i'); st.fact(U_alen(t) >= 0)
        return ex.sym_loop(st, Dom(i, z3.And(i >= 0, i < U_alen(t))), lambda s: [(s, ex.aelem(s, t, i))], lambda s, v: body(s, v, V.num(i)), line)
    # position unknown: an arbitrary natural number
    def b2(st, v):
        i = fresh(st, Int, 'pos'); st.fact(i >= 0)
        return body(st, v, V.num(i))
    return ex.loop_over(st, segs, b2, line)
def cbargs(v, i, recv):
    return (('el', v), ('el', i if i is not None else UNDEF), ('el', recv))
def push_to(ex, st, a, seg):
    h = st.heap[a]; st.heap[a] = h.with_(segs=h.segs + (seg,))
@native('Array_map')
def _(ex, st, recv, args, n):
    f = arg(ex, st, args, 0); out = newarr(ex, st); a = addr_of(out)
    def body(st, v, i):
        res = []
        for st1, r in ex.merge_if(st, ex.call(st, f, UNDEF, cbargs(v, i, recv))):
            if isinstance(r, ABR): res.append((st1, r)); continue
            push_to(ex, st1, a, ('el', r)); res.append((st1, None))
        return ex.merge_completions(res)
    return [(s, out if c is None else c) for s, c in loop_indexed(ex, st, arr_of(ex, st, recv), body, n and n.get('l'), nparams(ex, st, f) > 1)]
@native('Array_flatMap')
def _(ex, st, recv, args, n):
    f = arg(ex, st, args, 0); out = newarr(ex, st); a = addr_of(out)
    def body(st, v, i):
        res = []
        for st1, r in ex.call(st, f, UNDEF, cbargs(v, i, recv)):
            if isinstance(r, ABR): res.append((st1, r)); continue
            for st2, l, k in ex.resolve_leaf(st1, r):
                h = ex.hget(st2, l) if k == 'obj' else None
                if k == 'obj' and ((h is not None and h.kind == 'array') or (h is None and ex.okind(st2, l) == 'array')):
                    for g in ex.segsof(st2, l): push_to(ex, st2, a, g)
                else: push_to(ex, st2, a, ('el', l))
                res.append((st2, None))
        return ex.merge_completions(res)
    return [(s, out if c is None else c) for s, c in loop_indexed(ex, st, arr_of(ex, st, recv), body, n and n.get('l'), nparams(ex, st, f) > 1)]
@native('Array_filter')
def _(ex, st, recv, args, n):
    f = arg(ex, st, args, 0); out = newarr(ex, st); a = addr_of(out)
    def body(st, v, i):
        res = []
        for st1, r in ex.call(st, f, UNDEF, cbargs(v, i, recv)):
            if isinstance(r, ABR): res.append((st1, r)); continue
            for st2, b in ex.split(st1, truthy(r)):
                if b: push_to(ex, st2, a, ('el', v))
                res.append((st2, None))
        return ex.merge_completions(res)
    return [(s, out if c is None else c) for s, c in loop_indexed(ex, st, arr_of(ex, st, recv), body, n and n.get('l'), nparams(ex, st, f) > 1)]
@native('Array_forEach')
def _(ex, st, recv, args, n):
    f = arg(ex, st, args, 0)
    def body(st, v, i):
        return ex.merge_completions([(s, r if isinstance(r, ABR) else None) for s, r in ex.call(st, f, UNDEF, cbargs(v, i, recv))])
    return [(s, UNDEF if c is None else c) for s, c in loop_indexed(ex, st, arr_of(ex, st, recv), body, n and n.get('l'), nparams(ex, st, f) > 1)]
def quant(found, missing):
    def f(ex, st, recv, args, n):
        f = arg(ex, st, args, 0)
        def body(st, v, i):
            res = []
            for st1, r in ex.call(st, f, UNDEF, cbargs(v, i, recv)):
                if isinstance(r, ABR): res.append((st1, r)); continue
                for st2, b in ex.split(st1, truthy(r)):
                    x = found(b, v, i)
                    res.append((st2, None if x is None else Ret(x)))
            return ex.merge_completions(res)
        outs = loop_indexed(ex, st, arr_of(ex, st, recv), body, n and n.get('l'), nparams(ex, st, f) > 1 or missing is MINUS1)
        r = [(s, missing if c is None else (c.v if isinstance(c, Ret) else c)) for s, c in outs]
        return ex.merge_if(st, r)
    return f
MINUS1 = num(-1)
N['Array_some'] = quant(lambda b, v, i: TRUE if b else None, FALSE)
N['Array_every'] = quant(lambda b, v, i: None if b else FALSE, TRUE)
N['Array_find'] = quant(lambda b, v, i: v if b else None, UNDEF)
N['Array_findIndex'] = quant(lambda b, v, i: i if b else None, MINUS1)
@native('Array_reduce')
def _(ex, st, recv, args, n):
    f = arg(ex, st, args, 0); segs = arr_of(ex, st, recv)
    cell = uid()
    if len(args) > 1: st.cells[cell] = arg(ex, st, args, 1)
    else:
        if not segs or segs[0][0] != 'el': raise Unsupported('reduce without initial value')
        st.cells[cell] = segs[0][1]; segs = segs[1:]
    def body(st, v, i):
        res = []
        for st1, r in ex.merge_if(st, ex.call(st, f, UNDEF, (('el', st.cells[cell]),) + cbargs(v, i, recv))):
            if isinstance(r, ABR): res.append((st1, r)); continue
            st1.cells[cell] = r; res.append((st1, None))
        return ex.merge_completions(res)
    return [(s, s.cells[cell] if c is None else c) for s, c in loop_indexed(ex, st, segs, body, n and n.get('l'), nparams(ex, st, f) > 2)]
@native('Array_push')
def _(ex, st, recv, args, n):
    outs = []
    for st1, l, k in ex.resolve_leaf(st, recv):
        h = ex.own(st1, l)
        if h.kind != 'array': raise Unsupported('push on non-array')
        h2 = h.with_(segs=h.segs + tuple(args)); ex.hset(st1, l, h2)
        outs.append((st1, V.num(fresh(st1, Int, 'len')) if not all(g[0] == 'el' for g in h2.segs) else num(len(h2.segs))))
    return ex.merge_if(st, outs)
@native('Array_unshift')
def _(ex, st, recv, args, n):
    h = ex.own(st, recv); h2 = h.with_(segs=tuple(args) + h.segs); ex.hset(st, recv, h2)
    return ok(st, V.num(fresh(st, Int, 'len')))
@native('Array_pop')
def _(ex, st, recv, args, n):
    h = ex.own(st, recv)
    if not h.segs: return ok(st, UNDEF)
    if h.segs[-1][0] == 'el':
        ex.hset(st, recv, h.with_(segs=h.segs[:-1])); return ok(st, h.segs[-1][1])
    if h.segs[-1][0] == 'guard':
        g = h.segs[-1]; outs = []
        for st1, b in ex.split(st, g[1]):
            h1 = ex.own(st1, recv)
            ex.hset(st1, recv, h1.with_(segs=h1.segs[:-1] + (tuple(g[2]) if b else ())))
            outs += N['Array_pop'](ex, st1, recv, args, n)
        return outs
    if h.segs[-1][0] in ('arr', 'slice') and len(h.segs) == 1:
        g = h.segs[0]; t = g[1]; lo, hi = (z3.IntVal(0), U_alen(t)) if g[0] == 'arr' else (g[2], g[3])
        outs = []
        for st1, b in ex.split(st, simp(hi > lo)):
            if not b: outs.append((st1, UNDEF)); continue
            h1 = ex.own(st1, recv)
            ex.hset(st1, recv, h1.with_(segs=(('slice', t, lo, simp(hi - 1)),)))
            outs.append((st1, ex.aelem(st1, t, simp(hi - 1))))
        return outs
    raise Unsupported('pop of symbolic array')
@native('Array_shift')
def _(ex, st, recv, args, n):
    h = ex.own(st, recv)
    if not h.segs: return ok(st, UNDEF)
    if h.segs[0][0] == 'el':
        ex.hset(st, recv, h.with_(segs=h.segs[1:])); return ok(st, h.segs[0][1])
    raise Unsupported('shift of symbolic array')
@native('Array_includes')
def _(ex, st, recv, args, n): return ok(st, V.bool(member(ex, st, arr_of(ex, st, recv), arg(ex, st, args, 0))))
@native('Array_indexOf')
def _(ex, st, recv, args, n):
    segs = arr_of(ex, st, recv); v = arg(ex, st, args, 0)
    if all(g[0] == 'el' for g in segs):
        r = MINUS1
        for i in reversed(range(len(segs))): r = If(eqt(segs[i][1], v), num(i), r)
        return ok(st, r)
    m = member(ex, st, segs, v); i = fresh(st, Int, 'indexof')
    st.fact(And(i >= -1, (i >= 0) == m))
    return ok(st, V.num(i))
@native('Array_concat')
def _(ex, st, recv, args, n):
    segs = tuple(arr_of(ex, st, recv))
    outs = [(st, segs)]
    for g in args:
        nxt = []
        for st1, sg in outs:
            if g[0] != 'el': raise Unsupported('concat spread')
            for st2, l, k in ex.resolve_leaf(st1, g[1]):
                h = ex.hget(st2, l) if k == 'obj' else None
                if k == 'obj' and ((h is not None and h.kind == 'array') or (h is None and ex.okind(st2, l) == 'array')): nxt.append((st2, sg + tuple(ex.segsof(st2, l))))
                else: nxt.append((st2, sg + (('el', l),)))
        outs = nxt
    return [(s, newarr(ex, s, sg)) for s, sg in outs]
@native('Array_slice')
def _(ex, st, recv, args, n):
    segs = tuple(arr_of(ex, st, recv))
    a = arg(ex, st, args, 0); b = arg(ex, st, args, 1)
    ln = ex.alen(st, segs)
    def norm(x, d):
        if cons(x) == 'undef': return d
        t = acc('num', x)
        if z3.is_int_value(t):
            i = t.as_long()
            return z3.IntVal(i) if i >= 0 else simp(z3.If(ln + i < 0, z3.IntVal(0), ln + i))
        return z3.If(t < 0, z3.If(ln + t < 0, z3.IntVal(0), ln + t), t)
    lo = simp(norm(a, z3.IntVal(0))); hi = simp(norm(b, ln))
    if z3.is_int_value(lo) and lo.as_long() == 0 and hi.eq(ln): return ok(st, newarr(ex, st, segs))
    if all(g[0] == 'el' for g in segs) and z3.is_int_value(lo) and z3.is_int_value(hi): return ok(st, newarr(ex, st, segs[lo.as_long():hi.as_long()]))
    if z3.is_int_value(lo) and hi.eq(ln) and all(g[0] == 'el' for g in segs[:lo.as_long()]) and len(segs) >= lo.as_long(): return ok(st, newarr(ex, st, segs[lo.as_long():]))
    if len(segs) == 1 and segs[0][0] == 'arr':
        t = segs[0][1]
        hi2 = simp(z3.If(hi > ln, ln, hi)) if not hi.eq(ln) else hi
        return ok(st, newarr(ex, st, (('slice', t, lo, hi2),)))
    raise Unsupported('slice of a symbolic array')
@native('Array_join')
def _(ex, st, recv, args, n):
    segs = arr_of(ex, st, recv)
    sep = arg(ex, st, args, 0); sep = sv(',') if cons(sep) == 'undef' else ex.tostr(st, sep)
    if all(g[0] == 'el' for g in segs):
        parts = []
        for i, g in enumerate(segs):
            if i: parts.append(sep)
            parts.append(If(nullish(g[1]), sv(''), ex.tostr(st, g[1])) if not z3.is_false(simp(nullish(g[1]))) else ex.tostr(st, g[1]))
        parts = [p for p in parts if not (z3.is_string_value(p) and p.as_string() == '')]
        if not parts: return ok(st, string(''))
        return ok(st, V.str(simp(z3.Concat(*parts)) if len(parts) > 1 else parts[0]))
    s = arrterm(ex, st, recv)
    r = uf('join', V, Str, Str)(s, sep)
    ln = simp(ex.alen(st, segs))
    try:
        ex.witness_segs(st, segs, simp(ln > 0))
        e0 = ex.aget(st, segs, z3.IntVal(0)); st.fact(Implies(ln > 0, z3.PrefixOf(If(nullish(e0), sv(''), ex.tostr(st, e0)), r)))
    except Unsupported: pass
    return ok(st, V.str(r))
def arrterm(ex, st, recv):
    """a term standing for the contents of an array (congruent for equal segment lists)"""
    segs = ex.segsof(st, recv)
    if len(segs) == 1 and segs[0][0] == 'arr': return segs[0][1]
    return V.obj(z3.Int('content:' + hashlib.sha1(segsig(segs).encode()).hexdigest()))
def segsig(segs):
    out = []
    for g in segs:
        k = g[0]
        if k == 'comp': out.append('comp(%s,%s,%s)' % (g[1].uid, segsig(g[2]), g[3].cond.sexpr()))
        elif k == 'guard': out.append('guard(%s,%s)' % (g[1].sexpr(), segsig(g[2])))
        elif k in ('perm', 'dedup'): out.append('%s(%s)' % (k, segsig(g[1])))
        elif k == 'keys': out.append('keys(%s)' % (repsig(g[1]),))
        else: out.append('%s(%s)' % (k, ','.join(x.sexpr() if z3.is_expr(x) else str(x) for x in g[1:])))
    return ';'.join(out)
def repsig(rep):
    b, ops = rep
    out = [b.sexpr() if b is not None else '-']
    for o in ops:
        if o[0] == 'comp': out.append('comp(%s,%s)' % (o[1].uid, o[3].cond.sexpr()))
        elif o[0] == 'spread': out.append('sp(%s)' % repsig(o[1]))
        elif o[0] == 'guard': out.append('g(%s,%s)' % (o[1].sexpr(), repsig((None, o[2]))))
        else: out.append('%s(%s)' % (o[0], ','.join(x.sexpr() if z3.is_expr(x) else str(x) for x in o[1:])))
    return '|'.join(out)
@native('Array_sort')
def _(ex, st, recv, args, n):
    segs = arr_of(ex, st, recv)
    cs = [sconst(g[1].arg(0)) if g[0] == 'el' and cons(g[1]) == 'str' else None for g in segs]
    h = ex.own(st, recv)
    if len(segs) <= 1 and all(g[0] == 'el' for g in segs): return ok(st, recv)
    if all(c is not None for c in cs):
        if args and cons(arg(ex, st, args, 0)) != 'undef':
            r = const_sort(ex, st, segs, arg(ex, st, args, 0), n)
            if r is not None: ex.hset(st, recv, h.with_(segs=r)); return ok(st, recv)
        else:
            ex.hset(st, recv, h.with_(segs=tuple(('el', string(c)) for c in sorted(cs)))); return ok(st, recv)
    ex.hset(st, recv, h.with_(segs=(('perm', segs, 'sort'),)))
    return ok(st, recv)
@native('Array_reverse')
def _(ex, st, recv, args, n):
    segs = arr_of(ex, st, recv); h = ex.own(st, recv)
    if all(g[0] == 'el' for g in segs): ex.hset(st, recv, h.with_(segs=tuple(reversed(segs)))); return ok(st, recv)
    ex.hset(st, recv, h.with_(segs=(('perm', segs, 'reverse'),))); return ok(st, recv)
@native('Array_flat')
def _(ex, st, recv, args, n):
    out = newarr(ex, st); a = addr_of(out)
    def body(st, v):
        res = []
        for st2, l, k in ex.resolve_leaf(st, v):
            h = ex.hget(st2, l) if k == 'obj' else None
            if k == 'obj' and ((h is not None and h.kind == 'array') or (h is None and ex.okind(st2, l) == 'array')):
                for g in ex.segsof(st2, l): push_to(ex, st2, a, g)
            else: push_to(ex, st2, a, ('el', l))
            res.append((st2, None))
        return ex.merge_completions(res)
    return [(s, out if c is None else c) for s, c in ex.loop_over(st, arr_of(ex, st, recv), body)]
@native('Array_entries')
def _(ex, st, recv, args, n):
    out = newarr(ex, st); a = addr_of(out)
    def body(st, v, i):
        p = newarr(ex, st, (('el', i), ('el', v))); push_to(ex, st, a, ('el', p)); return [(st, None)]
    return [(s, out if c is None else c) for s, c in loop_indexed(ex, st, arr_of(ex, st, recv), body, None, True)]
@native('Array_keys')
def _(ex, st, recv, args, n): raise Unsupported('Array.prototype.keys')
@native('Array_toString')
def _(ex, st, recv, args, n): return N['Array_join'](ex, st, recv, (), n)

# ------------------------------------------------------------------ Object
def okeys(ex, st, v, f):
    outs = []
    for st1, l, k in ex.resolve_leaf(st, v):
        if k in ('undef', 'null'): outs.append(ex.throw_type(st1, 'Cannot convert undefined or null to object')); continue
        if k == 'str': raise Unsupported('Object.keys of a string')
        if k != 'obj': outs.append((st1, newarr(ex, st1))); continue
        h = ex.hget(st1, l)
        if (h is not None and h.kind == 'array') or (h is None and ex.okind(st1, l) == 'array'):
            segs = ex.segsof(st1, l)
            if all(g[0] == 'el' for g in segs) and h is not None and not h.ops: outs += f(st1, l, tuple(('el', string(str(i))) for i in range(len(segs)))); continue
            raise Unsupported('Object.keys of an array')
        outs += f(st1, l, ex.keysegs(st1, ex.repof(st1, l)))
    return ex.merge_if(st, outs)
@native('ObjectC_keys')
def _(ex, st, recv, args, n):
    return okeys(ex, st, arg(ex, st, args, 0), lambda st, l, ks: [(st, newarr(ex, st, ks))])
def mapkeys(ex, st, ks, f):
    out = newarr(ex, st); a = addr_of(out)
    def body(st, kv):
        res = []
        for st1, v in f(st, kv):
            if isinstance(v, ABR): res.append((st1, v)); continue
            push_to(ex, st1, a, ('el', v)); res.append((st1, None))
        return ex.merge_completions(res)
    return [(s, out if c is None else c) for s, c in ex.loop_over(st, ks, body)]
@native('ObjectC_values')
def _(ex, st, recv, args, n):
    return okeys(ex, st, arg(ex, st, args, 0), lambda st, l, ks: mapkeys(ex, st, ks, lambda st, kv: ex.get(st, l, acc('str', kv))))
@native('ObjectC_entries')
def _(ex, st, recv, args, n):
    def pair(l):
        return lambda st, kv: ex.then(ex.get(st, l, acc('str', kv)), lambda st, v: [(st, newarr(ex, st, (('el', kv), ('el', v))))])
    return okeys(ex, st, arg(ex, st, args, 0), lambda st, l, ks: mapkeys(ex, st, ks, pair(l)))
@native('ObjectC_assign')
def _(ex, st, recv, args, n):
    outs = []
    for st1, l, k in ex.resolve_leaf(st, arg(ex, st, args, 0)):
        if k != 'obj': raise Unsupported('Object.assign to a primitive')
        def spread_arg(st, g):
            """apply one source segment to the target"""
            if g[0] == 'el':
                h = ex.own(st, l)
                rep = ex.spread_rep(st, h.rep(), g[1])
                h2 = h.with_(ops=rep[1]); h2.base = rep[0]
                ex.hset(st, l, h2); return [(st, None)]
            return ex.loop_over(st, (g,), lambda st, v: spread_arg(st, ('el', v)))
        sts = [(st1, None)]
        for g in args[1:]:
            nxt = []
            for s2, c in sts: nxt += spread_arg(s2, g)
            sts = nxt
        outs += [(s2, l if c is None else c) for s2, c in sts]
    return outs
@native('ObjectC_fromEntries')
def _(ex, st, recv, args, n):
    out = ex.alloc(st, HObj('object')); a = addr_of(out)
    def body(st, p):
        res = []
        for st1, k in ex.get_idx(st, p, num(0)):
            if isinstance(k, ABR): res.append((st1, k)); continue
            for st2, v in ex.get_idx(st1, p, num(1)):
                if isinstance(v, ABR): res.append((st2, v)); continue
                h = st2.heap[a]; st2.heap[a] = h.with_(ops=h.ops + (('set', ex.tokey(st2, k), v),)); res.append((st2, None))
        return ex.merge_completions(res)
    outs = []
    for st1, segs in ex.iter_segs(st, arg(ex, st, args, 0)):
        if isinstance(segs, ABR): outs.append((st1, segs)); continue
        outs += [(s, out if c is None else c) for s, c in ex.loop_over(st1, segs, body)]
    return outs
@native('ObjectC_getPrototypeOf')
def _(ex, st, recv, args, n):
    v = arg(ex, st, args, 0)
    out = []
    for st1, l, k in ex.resolve_leaf(st, v):
        h = ex.hget(st1, l) if k == 'obj' else None
        if h is not None and h.data.get('cls') is not None: out.append((st1, V.obj(uf('proto', V, Int)(h.data['cls'])))); continue
        if h is not None and 'term' not in h.data: out.append((st1, V.obj(z3.Int('ObjectPrototype')))); continue
        out.append((st1, uf('protoOf', V, V)(l)))
    return out
@native('ObjectC_setPrototypeOf')
def _(ex, st, recv, args, n): return ok(st, arg(ex, st, args, 0))
@native('ObjectC_freeze')
def _(ex, st, recv, args, n): return ok(st, arg(ex, st, args, 0))
@native('ObjectC_create')
def _(ex, st, recv, args, n):
    p = arg(ex, st, args, 0)
    if cons(p) == 'null' or True: return ok(st, ex.alloc(st, HObj('object')))
@native('ObjectC_defineProperty')
def _(ex, st, recv, args, n):
    o, k, d = (arg(ex, st, args, i) for i in range(3))
    outs = []
    for st1, v in ex.get(st, d, sv('value')):
        if isinstance(v, ABR): outs.append((st1, v)); continue
        for st2, r in ex.put(st1, o, ex.tokey(st1, k), v): outs.append((st2, r if isinstance(r, ABR) else o))
    return outs
@native('ObjectC_is')
def _(ex, st, recv, args, n): return ok(st, V.bool(eqt(arg(ex, st, args, 0), arg(ex, st, args, 1))))
def has_own(ex, st, o, kv):
    outs = []
    key = ex.tokey(st, kv)
    for st1, l, k in ex.resolve_leaf(st, o):
        if k in ('undef', 'null'): outs.append(ex.throw_type(st1, 'hasOwnProperty on nullish')); continue
        if k != 'obj': outs.append((st1, FALSE)); continue
        h = ex.hget(st1, l)
        if h is not None and h.kind == 'array' and not h.ops and sconst(key) is None: raise Unsupported('hasOwnProperty on array')
        hh, _ = ex.rread(st1, ex.repof(st1, l), key); outs.append((st1, V.bool(hh)))
    return ex.merge_if(st, outs)
@native('Object_hasOwnProperty')
def _(ex, st, recv, args, n): return has_own(ex, st, recv, arg(ex, st, args, 0))
@native('ObjectC_hasOwn')
def _(ex, st, recv, args, n): return has_own(ex, st, arg(ex, st, args, 0), arg(ex, st, args, 1))
@native('Object_toString')
def _(ex, st, recv, args, n): return ok(st, V.str(ex.tostr(st, recv)))
@native('Object_valueOf')
def _(ex, st, recv, args, n): return ok(st, recv)
# ------------------------------------------------------------------ functions
@native('Fn_call')
def _(ex, st, recv, args, n):
    h = ex.hget(st, recv)
    if h is not None and h.kind == 'bound' : 
        nm = h.data['nm']
        return ex.natives[nm](ex, st, arg(ex, st, args, 0), args[1:], n)
    return ex.call(st, recv, arg(ex, st, args, 0), args[1:], n)
@native('Fn_apply')
def _(ex, st, recv, args, n):
    outs = []
    for st1, segs in ex.iter_segs(st, arg(ex, st, args, 1)):
        if isinstance(segs, ABR): outs.append((st1, segs)); continue
        h = ex.hget(st1, recv)
        outs += ex.call(st1, recv, arg(ex, st1, args, 0), segs, n)
    return outs
@native('Fn_bind')
def _(ex, st, recv, args, n):
    return ok(st, ex.alloc(st, HObj('bind', data={'target': recv, 'this': arg(ex, st, args, 0), 'args': tuple(g[1] for g in args[1:])})))
# ------------------------------------------------------------------ strings
def S(ex, recv): return acc('str', recv)
@native('String_toString')
def _(ex, st, recv, args, n): return ok(st, recv)
@native('String_startsWith')
def _(ex, st, recv, args, n): return ok(st, V.bool(simp(z3.PrefixOf(ex.tostr(st, arg(ex, st, args, 0)), S(ex, recv)))))
@native('String_endsWith')
def _(ex, st, recv, args, n): return ok(st, V.bool(simp(z3.SuffixOf(ex.tostr(st, arg(ex, st, args, 0)), S(ex, recv)))))
@native('String_includes')
def _(ex, st, recv, args, n): return ok(st, V.bool(simp(z3.Contains(S(ex, recv), ex.tostr(st, arg(ex, st, args, 0))))))
@native('String_indexOf')
def _(ex, st, recv, args, n):
    return ok(st, V.num(simp(z3.IndexOf(S(ex, recv), ex.tostr(st, arg(ex, st, args, 0)), acc('num', arg(ex, st, args, 1)) if len(args) > 1 else z3.IntVal(0)))))
@native('String_lastIndexOf')
def _(ex, st, recv, args, n):
    c = sconst(S(ex, recv)); a = sconst(ex.tostr(st, arg(ex, st, args, 0)))
    if c is not None and a is not None: return ok(st, num(c.rfind(a)))
    return ok(st, V.num(uf('lastindexof', Str, Str, Int)(S(ex, recv), ex.tostr(st, arg(ex, st, args, 0)))))
def strslice(ex, st, recv, args, clamp_swap):
    t = S(ex, recv); ln = z3.Length(t)
    a = arg(ex, st, args, 0); b = arg(ex, st, args, 1)
    def norm(x, d):
        if cons(x) == 'undef': return d
        y = acc('num', ex.tonum(st, x))
        if z3.is_int_value(y) and y.as_long() >= 0: return y
        if clamp_swap: return z3.If(y < 0, z3.IntVal(0), y)
        return z3.If(y < 0, z3.If(ln + y < 0, z3.IntVal(0), ln + y), y)
    lo, hi = norm(a, z3.IntVal(0)), norm(b, ln)
    c = sconst(t); cl, ch = simp(lo), simp(hi)
    if c is not None and z3.is_int_value(cl) and z3.is_int_value(ch):
        i, j = cl.as_long(), ch.as_long()
        if clamp_swap and i > j: i, j = j, i
        return ok(st, string(c[i:j]))
    if clamp_swap and not (cons(b) == 'undef'):
        l2 = z3.If(lo > hi, hi, lo); h2 = z3.If(lo > hi, lo, hi); lo, hi = l2, h2
    return ok(st, V.str(simp(z3.SubString(t, lo, hi - lo))))
N['String_slice'] = lambda ex, st, recv, args, n: strslice(ex, st, recv, args, False)
N['String_substring'] = lambda ex, st, recv, args, n: strslice(ex, st, recv, args, True)
@native('String_charAt')
def _(ex, st, recv, args, n): return ok(st, V.str(simp(z3.SubString(S(ex, recv), acc('num', arg(ex, st, args, 0)), 1))))
def ustr(name, f, pyf):
    def g(ex, st, recv, args, n):
        t = S(ex, recv); c = sconst(t)
        if c is not None: return ok(st, string(pyf(c)))
        return ok(st, V.str(f(t)))
    N['String_' + name] = g
def lower(t):
    return U_lower(t)
ustr('toUpperCase', U_upper, str.upper)
@native('String_toLowerCase')
def _(ex, st, recv, args, n):
    t = S(ex, recv); c = sconst(t)
    if c is not None: return ok(st, string(c.lower()))
    r = U_lower(t)
    st.fact(U_lower(r) == r)
    for m in ('GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'HEAD', 'get', 'post', 'put', 'delete', 'patch', 'options', 'head'): st.fact(Implies(t == sv(m), r == sv(m.lower())))
    return ok(st, V.str(r))
ustr('trim', U_trim, str.strip)
U_ltrim = z3.Function('ltrim', Str, Str); U_rtrim = z3.Function('rtrim', Str, Str)
ustr('trimStart', U_ltrim, str.lstrip); ustr('trimEnd', U_rtrim, str.rstrip)
@native('String_localeCompare')
def _(ex, st, recv, args, n):
    a, b = S(ex, recv), ex.tostr(st, arg(ex, st, args, 0))
    ca, cb = sconst(a), sconst(b)
    if ca is not None and cb is not None: return ok(st, num(locale_compare(ca, cb)))
    r = uf('localecompare', Str, Str, Int)(a, b)
    st.fact(Implies(a == b, r == 0))
    return ok(st, V.num(r))
_lc = {}
def locale_compare(a, b):
    """the collation of the real runtime"""
    if (a, b) not in _lc:
        import subprocess
        p = subprocess.run(['node', '-e', 'const [a, b] = JSON.parse(process.argv[1]); console.log(Math.sign(a.localeCompare(b)))', json.dumps([a, b])], capture_output=True, text=True, check=True)
        _lc[a, b] = int(p.stdout)
    return _lc[a, b]
def const_sort(ex, st, segs, cmp, n):
    """stable insertion sort of constant strings, every comparison decided; None when one is not"""
    out = []
    for g in segs:
        i = len(out)
        while i > 0:
            rs = ex.call(st, cmp, UNDEF, (('el', out[i - 1][1]), ('el', g[1])), n)
            if len(rs) != 1 or rs[0][0] is not st or cons(rs[0][1]) != 'num': return None
            v = simp(acc('num', rs[0][1]))
            if not (z3.is_int_value(v) or z3.is_rational_value(v)): return None
            if v.as_long() <= 0: break
            i -= 1
        out.insert(i, g)
    return tuple(out)
@native('String_concat')
def _(ex, st, recv, args, n): return ok(st, V.str(simp(z3.Concat(S(ex, recv), *[ex.tostr(st, g[1]) for g in args]))))
U_split = z3.Function('split', Str, Str, V)
@native('String_split')
def _(ex, st, recv, args, n):
    t = S(ex, recv); sep = arg(ex, st, args, 0); c = sconst(t)
    if cons(sep) == 'obj':
        h = ex.hget(st, sep)
        if h is None or h.kind != 'regex': raise Unsupported('split by object')
        if c is not None: return ok(st, newarr(ex, st, tuple(('el', string(x)) for x in re.split(pyre(h), c))))
        r = uf('split/%s/%s' % (h.data['src'], h.data['flags']), Str, V)(t)
        ex.typed(st, r, Shape('array', inner=Shape('str'), min=1)); return ok(st, r)
    sp = ex.tostr(st, sep); cs = sconst(sp)
    if c is not None and cs is not None:
        return ok(st, newarr(ex, st, tuple(('el', string(x)) for x in (c.split(cs) if cs != '' else list(c)))))
    r = U_split(t, sp)
    ex.typed(st, r, Shape('array', inner=Shape('str'), min=1 if cs != '' else 0))
    if cs != '':
        st.fact(Implies(Not(z3.Contains(t, sp)), And(U_alen(r) == 1, U_aelem(r, z3.IntVal(0)) == V.str(t))))
        st.fact(U_aelem(r, z3.IntVal(0)) == V.str(z3.If(z3.Contains(t, sp), z3.SubString(t, 0, z3.IndexOf(t, sp, 0)), t)))
        st.fact(Implies(z3.Contains(t, sp), U_alen(r) >= 2))
    return ok(st, r)
def pyre(h):
    fl = 0
    for f in h.data['flags']:
        if f == 'i': fl |= re.I
        elif f == 'm': fl |= re.M
        elif f == 's': fl |= re.S
    return re.compile(h.data['src'].replace('\\/', '/').replace('(?<', '(?P<') if '(?<=' not in h.data['src'] else h.data['src'], fl)
def concat_parts(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for x in t.children(): out += concat_parts(x)
        return out
    return [t]
BRACES = re.compile(r'^(\\?[^\w\\]|\\[^\w])\(\[\^((?:\\?[^\w\]])+)\](\*|\+)\)(\\?[^\w\\])$')
def delimited(src):
    """regex of the form OPEN([^..]*)CLOSE with single-character delimiters -> (open, excluded, min, close)"""
    un = lambda x: x[-1]
    m = re.match(r'^(\\?[^\w\\]|\\[^\w])\(\\w\+\)(\\?[^\w\\])$', src)
    if m: return un(m.group(1)), set(), 1, un(m.group(2)), 'word'
    m = BRACES.match(src)
    if not m: return None
    return un(m.group(1)), set(re.sub(r'\\(.)', r'\1', m.group(2))), 1 if m.group(3) == '+' else 0, un(m.group(4)), None
@native('String_replace')
def _(ex, st, recv, args, n): return do_replace(ex, st, recv, args, n, False)
@native('String_replaceAll')
def _(ex, st, recv, args, n): return do_replace(ex, st, recv, args, n, True)
def dollar(ex, st, rep, whole):
    """expansion of $-patterns in a replacement string"""
    c = sconst(rep)
    if c is not None and '$' not in c: return rep
    r = uf('expand$', Str, Str, Str)(rep, whole)
    st.fact(Implies(Not(z3.Contains(rep, sv('$'))), r == rep))
    return r
def do_replace(ex, st, recv, args, n, alls):
    t = S(ex, recv); pat = arg(ex, st, args, 0); rep = arg(ex, st, args, 1)
    if cons(pat) == 'str' or (cons(pat) is None and ex.known(st, pat, 'str')):
        p = acc('str', pat)
        if alls:
            parts = None
            r = uf('replaceAll', Str, Str, Str, Str)
            if cons(rep) == 'obj': raise Unsupported('replaceAll with a function')
            cp = sconst(p)
            return ok(st, V.str(r(t, p, dollar(ex, st, ex.tostr(st, rep), p))))
        if cons(rep) == 'obj':
            outs = []
            for st1, b in ex.split(st, simp(z3.Contains(t, p))):
                if not b: outs.append((st1, recv)); continue
                for st2, v in ex.call(st1, rep, UNDEF, (('el', V.str(p)),)):
                    outs.append((st2, v if isinstance(v, ABR) else V.str(simp(z3.Replace(t, p, ex.tostr(st2, v))))))
            return outs
        return ok(st, V.str(simp(z3.Replace(t, p, dollar(ex, st, ex.tostr(st, rep), p)))))
    h = ex.hget(st, pat) if cons(pat) == 'obj' else None
    if h is None or h.kind != 'regex': raise Unsupported('replace pattern')
    src, flags = h.data['src'], h.data['flags']
    c = sconst(t)
    d = delimited(src)
    if d is not None:
        r = structural_replace(ex, st, t, d, 'g' in flags, rep, n)
        if r is not None: return r
    if c is not None and cons(rep) == 'str' and sconst(rep.arg(0)) is not None:
        rp = re.sub(r'\$(\d)', r'\\\1', sconst(rep.arg(0)).replace('\\', '\\\\'))
        return ok(st, string(re.sub(pyre(h), rp, c, count=0 if 'g' in flags else 1)))
    if cons(rep) == 'obj': raise Unsupported('regex replace with a function on symbolic text')
    return ok(st, V.str(uf('replace/%s/%s' % (src, flags), Str, Str, Str)(t, ex.tostr(st, rep))))
def fun_signature(ex, st, f):
    """(name, captured values) identifying the function computed by a closure or a replacement string"""
    if cons(f) == 'str': return ('str', [f])
    h = ex.hget(st, f) if cons(f) == 'obj' else None
    if h is None or h.kind != 'closure': return None
    node, env = h.data['node'], h.data['env']
    names = set()
    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'id': names.add(x['n'])
            for y in x.values(): walk(y)
        elif isinstance(x, (list, tuple)):
            for y in x: walk(y)
    walk(node)
    vs = []
    for nm in sorted(names):
        c = env.lookup(nm)
        if c is None or isinstance(c, tuple): continue
        v = st.cells.get(c)
        if v is None: continue
        vs.append(ex.enc(st, v))
    return ('%s' % id(node), vs)
def isword(st, t):
    b = uf('test/^\\w+$/', Str, Bool)(t)
    st.fact(Implies(b, And(z3.Length(t) >= 1, *[Not(z3.Contains(t, sv(ch))) for ch in '{}/:.-$ '])))
    return b
def structural_replace(ex, st, t, d, glob, rep, n):
    """replace of OPEN([^..]*)CLOSE in a concatenation whose symbolic pieces are known not to contain the delimiters"""
    op, excl, mn, cl, cls = d
    pieces = []
    for p in concat_parts(simp(t)):
        c = sconst(p)
        if c is not None: pieces += [('c', ch) for ch in c]
        else:
            if all(ex.implied(st, Not(z3.Contains(p, sv(ch))), 2000) for ch in {op, cl} | excl): pieces.append(('s', p))
            elif glob: pieces.append(('o', p))   # opaque text: admissible only as the very last piece with no match pending
            else: return None
    # scan
    outs = [(st, [])]
    i = 0; L = len(pieces); done = False; lastm = 0
    def cat(ps): 
        ps = [x if not isinstance(x, str) else sv(x) for x in ps]
        if not ps: return sv('')
        return simp(z3.Concat(*ps)) if len(ps) > 1 else ps[0]
    if any(k == 'o' for k, _ in pieces[:-1]): return None
    while i < L:
        k, x = pieces[i]
        if k == 'o':
            # gsub is a homomorphism at this boundary: the rest of the text is replaced independently
            if any(q == ('c', op) for q in pieces[lastm:i]): return None
            sig = fun_signature(ex, st, rep)
            if sig is None: return None
            nm, vs = sig
            r = uf('gsub/%s%s%s/%s' % (op, ''.join(sorted(excl)), cl, nm), *([V] * len(vs)), Str, Str)(*vs, x)
            outs = [(s1, a if isinstance(a, ABR) else a + [r]) for s1, a in outs]
            i += 1; continue
        if k == 'c' and x == op and not (done and not glob):
            j = i + 1
            while j < L and not (pieces[j][0] == 'c' and pieces[j][1] in ({cl} | excl)): j += 1
            if j < L and pieces[j] == ('c', cl):
                inner = cat([q[1] for q in pieces[i + 1:j]])
                if cls == 'word':
                    # every piece of the group must be known to be a word; text known to hold a non-word character does not match
                    bad = any(isinstance(q[1], str) and not re.match(r'\w$', q[1], re.A) for q in pieces[i + 1:j])
                    if bad or j == i + 1: outs = [(s1, a if isinstance(a, ABR) else a + [x]) for s1, a in outs]; i += 1; continue
                    if not all(isinstance(q[1], str) or ex.implied(outs[0][0], isword(outs[0][0], q[1]), 2000) for q in pieces[i + 1:j]): return None
                if mn == 1 and not ex.implied(outs[0][0], simp(z3.Length(inner) >= 1)): return None
                whole = cat([op, inner, cl]); done = True
                nxt = []
                for s1, acc_ in outs:
                    if isinstance(acc_, ABR): nxt.append((s1, acc_)); continue
                    if cons(rep) == 'obj':
                        for s2, v in ex.call(s1, rep, UNDEF, (('el', V.str(whole)), ('el', V.str(inner)))):
                            nxt.append((s2, v if isinstance(v, ABR) else acc_ + [ex.tostr(s2, v)]))
                    else:
                        rs = ex.tostr(s1, rep); rc = sconst(rs)
                        if rc is None: return None
                        parts = re.split(r'(\$1|\$&|\$\$)', rc)
                        nxt.append((s1, acc_ + [inner if q == '$1' else whole if q == '$&' else '$' if q == '$$' else q for q in parts if q != '']))
                outs = nxt; i = j + 1; lastm = i; continue
        outs = [(s1, a if isinstance(a, ABR) else a + [x]) for s1, a in outs]
        i += 1
    return [(s1, a if isinstance(a, ABR) else V.str(cat(a))) for s1, a in outs]
@native('String_match')
def _(ex, st, recv, args, n):
    h = ex.hget(st, arg(ex, st, args, 0)); t = S(ex, recv); c = sconst(t)
    r = uf('match/%s/%s' % (h.data['src'], h.data['flags']), Str, V)(t)
    ex.typed(st, r, Shape('union', alts=[Shape('null'), Shape('array', inner=Shape('union', alts=[Shape('str'), Shape('undef')]), min=1)]))
    return ok(st, r)
@native('String_padStart')
def _(ex, st, recv, args, n): return ok(st, V.str(fresh(st, Str, 'pad')))
@native('Regex_test')
def _(ex, st, recv, args, n):
    h = ex.hget(st, recv); t = ex.tostr(st, arg(ex, st, args, 0)); c = sconst(t)
    if c is not None: return ok(st, boolv(pyre(h).search(c) is not None))
    if h.data['src'] == '^\\w+$' and not h.data['flags']: return ok(st, V.bool(isword(st, t)))
    return ok(st, V.bool(uf('test/%s/%s' % (h.data['src'], h.data['flags']), Str, Bool)(t)))
@native('Regex_exec')
def _(ex, st, recv, args, n): return N['String_match'](ex, st, V.str(ex.tostr(st, arg(ex, st, args, 0))), (('el', recv),), n)
@native('Number_toString')
def _(ex, st, recv, args, n): return ok(st, V.str(ex.tostr(st, recv)))
@native('Boolean_toString')
def _(ex, st, recv, args, n): return ok(st, V.str(ex.tostr(st, recv)))
@native('BigInt_toString')
def _(ex, st, recv, args, n): return ok(st, V.str(ex.numstr(acc('big', recv))))
@native('Symbol_toString')
def _(ex, st, recv, args, n): return ok(st, V.str(fresh(st, Str, 'symstr')))
# ------------------------------------------------------------------ Set / Map
@native('Set_add')
def _(ex, st, recv, args, n):
    h = ex.hget(st, recv); ex.hset(st, recv, h.with_(segs=h.segs + (('el', arg(ex, st, args, 0)),))); return ok(st, recv)
@native('Set_has')
def _(ex, st, recv, args, n): return ok(st, V.bool(member(ex, st, ex.hget(st, recv).segs, arg(ex, st, args, 0))))
@native('Set_delete')
def _(ex, st, recv, args, n):
    h = ex.hget(st, recv); v = arg(ex, st, args, 0)
    r = member(ex, st, h.segs, v)
    ns = []
    for g in h.segs:
        if g[0] == 'el': ns.append(('guard', Not(eqt(g[1], v)), (g,)))
        else: raise Unsupported('Set.delete on a symbolic set')
    ex.hset(st, recv, h.with_(segs=tuple(ns))); return ok(st, V.bool(r))
def setvals(ex, st, recv, args, n):
    h = ex.hget(st, recv)
    return ok(st, newarr(ex, st, h.segs if len(h.segs) <= 1 and all(g[0] == 'el' for g in h.segs) else (('dedup', h.segs, 0),)))
N['Set_values'] = setvals; N['Set_keys'] = setvals
@native('Set_forEach')
def _(ex, st, recv, args, n):
    f = arg(ex, st, args, 0)
    outs = []
    for st1, segs in ex.iter_segs(st, recv):
        outs += [(s, UNDEF if c is None else c) for s, c in ex.loop_over(st1, segs, lambda st, v: ex.merge_completions([(s, r if isinstance(r, ABR) else None) for s, r in ex.call(st, f, UNDEF, (('el', v),))]))]
    return outs
def mapkey(ex, st, v):
    if not ex.known(st, v, 'str'): raise Unsupported('Map with non-string keys')
    return acc('str', v)
@native('Map_get')
def _(ex, st, recv, args, n): return ok(st, ex.rread(st, ex.hget(st, recv).rep(), mapkey(ex, st, arg(ex, st, args, 0)))[1])
@native('Map_has')
def _(ex, st, recv, args, n): return ok(st, V.bool(ex.rread(st, ex.hget(st, recv).rep(), mapkey(ex, st, arg(ex, st, args, 0)))[0]))
@native('Map_set')
def _(ex, st, recv, args, n):
    h = ex.hget(st, recv); ex.hset(st, recv, h.with_(ops=h.ops + (('set', mapkey(ex, st, arg(ex, st, args, 0)), arg(ex, st, args, 1)),))); return ok(st, recv)
@native('Map_delete')
def _(ex, st, recv, args, n):
    h = ex.hget(st, recv); k = mapkey(ex, st, arg(ex, st, args, 0)); r = ex.rread(st, h.rep(), k)[0]
    ex.hset(st, recv, h.with_(ops=h.ops + (('del', k),))); return ok(st, V.bool(r))
def mread(ex, recv):
    return lambda st, kv: [(st, ex.rread(st, ex.hget(st, recv).rep(), acc('str', kv))[1])]
def mapsegs(ex, st, recv):
    """keys of a Map (insertion order: unlike those of an object, number-like keys are not moved to the front)"""
    ks = ex.keysegs(st, ex.hget(st, recv).rep())
    for g in ks:
        e = g if g[0] == 'el' else g[2][0] if g[0] == 'guard' else None
        if e is not None and (sconst(acc('str', e[1])) is None or sconst(acc('str', e[1])).isdigit()): raise Unsupported('order of Map keys')
    return ks
@native('Map_values')
def _(ex, st, recv, args, n): return mapkeys(ex, st, mapsegs(ex, st, recv), mread(ex, recv))
@native('Map_keys')
def _(ex, st, recv, args, n): return ok(st, newarr(ex, st, mapsegs(ex, st, recv)))
@native('Map_entries')
def _(ex, st, recv, args, n):
    return mapkeys(ex, st, mapsegs(ex, st, recv), lambda st, kv: [(st, newarr(ex, st, (('el', kv), ('el', mread(ex, recv)(st, kv)[0][1]))))])
@native('Map_forEach')
def _(ex, st, recv, args, n):
    f = arg(ex, st, args, 0)
    def body(st, kv):
        v = mread(ex, recv)(st, kv)[0][1]
        return ex.merge_completions([(s, r if isinstance(r, ABR) else None) for s, r in ex.call(st, f, UNDEF, (('el', v), ('el', kv), ('el', recv)))])
    return [(s, UNDEF if c is None else c) for s, c in ex.loop_over(st, mapsegs(ex, st, recv), body)]
# ------------------------------------------------------------------ promises
def fnarg(v): return None if cons(v) in ('undef', 'null') else v
@native('Promise_then')
def _(ex, st, recv, args, n): return ex.promise_then(st, recv, fnarg(arg(ex, st, args, 0)), fnarg(arg(ex, st, args, 1)))
@native('Promise_catch')
def _(ex, st, recv, args, n): return ex.promise_then(st, recv, None, fnarg(arg(ex, st, args, 0)))
@native('Promise_finally')
def _(ex, st, recv, args, n):
    f = arg(ex, st, args, 0); outs = []
    for st1, p in ex.resolve_promise(st, recv):
        for st2, l, k in ex.resolve_leaf(st1, p):
            h = ex.hget(st2, l)
            if h.data['state'] == 'pending': raise Unsupported('finally on a pending promise')
            for st3, v in ex.call(st2, f, UNDEF, ()):
                if isinstance(v, Thr): outs.append((st3, ex.mkpromise(st3, 'rejected', v.v)))
                else: outs.append((st3, v if isinstance(v, ABR) else l))
    return outs
def promise_ctor(ex, st, args, n):
    f = arg(ex, st, args, 0)
    p = ex.mkpromise(st, 'pending', UNDEF)
    def res(ex, st, recv, a, n): 
        h = ex.hget(st, p)
        if h.data['state'] != 'pending' or h.data.get('locked'): return ok(st, UNDEF)
        return [(s, v if isinstance(v, ABR) else UNDEF) for s, v in ex.settle_with(st, p, arg(ex, st, a, 0))]
    def rej(ex, st, recv, a, n): return [(s, v if isinstance(v, ABR) else UNDEF) for s, v in ex.settle(st, p, 'rejected', arg(ex, st, a, 0))]
    outs = []
    for st1, v in ex.call(st, f, UNDEF, (('el', mknative(ex, st, 'resolve', res)), ('el', mknative(ex, st, 'reject', rej)))):
        if isinstance(v, Thr):
            outs += [(s, r if isinstance(r, ABR) else p) for s, r in ex.settle(st1, p, 'rejected', v.v)]
        else: outs.append((st1, v if isinstance(v, ABR) else p))
    return ex.merge_if(st, outs)
@native('PromiseC_resolve')
def _(ex, st, recv, args, n): return ex.resolve_promise(st, arg(ex, st, args, 0))
@native('PromiseC_reject')
def _(ex, st, recv, args, n): return ok(st, ex.mkpromise(st, 'rejected', arg(ex, st, args, 0)))
@native('PromiseC_all')
def _(ex, st, recv, args, n):
    out = newarr(ex, st); a = addr_of(out)
    def body(st, v):
        res = []
        for s, r in ex.await_(st, v):
            if isinstance(r, ABR): res.append((s, r)); continue
            push_to(ex, s, a, ('el', r)); res.append((s, None))
        return ex.merge_completions(res)
    outs = []
    for st1, segs in ex.iter_segs(st, arg(ex, st, args, 0)):
        if isinstance(segs, ABR): outs.append((st1, segs)); continue
        for s, c in ex.loop_over(st1, segs, body):
            if isinstance(c, Thr): outs.append((s, ex.mkpromise(s, 'rejected', c.v)))
            elif c is None: outs.append((s, ex.mkpromise(s, 'fulfilled', out)))
            else: outs.append((s, c))
    return outs
# ------------------------------------------------------------------ JSON & misc
@native('JSON_stringify')
def _(ex, st, recv, args, n):
    v = arg(ex, st, args, 0); rp = arg(ex, st, args, 1)
    if cons(v) == 'str' and sconst(v.arg(0)) is not None and cons(rp) == 'undef': return ok(st, string(json.dumps(sconst(v.arg(0)), ensure_ascii=False)))
    if cons(rp) == 'obj' and cons(v) == 'big':
        outs = []
        for s1, r in ex.call(st, rp, UNDEF, (('el', string('')), ('el', v))):
            if isinstance(r, execu.ABR): outs.append((s1, r)); continue
            if cons(r) not in ('str', 'num', 'bool', 'null'): raise Unsupported('JSON.stringify of a bigint')
            outs += N['JSON_stringify'](ex, s1, recv, (('el', r),), n)
        return outs
    e = ex.enc(st, v, 0)
    tag = 'none'
    if cons(rp) == 'obj':
        h = ex.hget(st, rp)
        if h is not None and h.kind == 'closure' and isjson(ex, v) and json_identity(ex, st, rp): pass
        elif h is not None and h.kind == 'closure': tag = 'replacer@%s:%s' % (h.data['node'].get('path', '').split('/packages/')[-1], fnsig(h.data['node']))
    r = uf('jsonstr', V, Str, Str)(e, sv(tag))
    ex.assumptions.add('JSON.stringify is a function of the JSON content of its argument and of its replacer')
    return ok(st, If(isk('undef', v), UNDEF, V.str(r)))
def isjson(ex, v):
    for c, l in cases(v):
        if cons(l) in ('str', 'num', 'bool', 'null', 'undef'): continue
        sh = ex.getshape(l)
        if sh is None or not all(a.kind in ('json', 'str', 'num', 'nat', 'bool', 'null', 'undef') for a in ex.alts(sh)): return False
    return True
def json_identity(ex, st, f):
    """the replacer returns every JSON value unchanged (then, by induction over the value, it has no effect on JSON content)"""
    s1 = st.clone(); w = fresh(s1, V, 'json'); k = fresh(s1, Str, 'key'); ex.typed(s1, w, execu.Shape('json'))
    for s2, r in ex.call(s1, f, UNDEF, (('el', V.str(k)), ('el', w))):
        if isinstance(r, execu.ABR) or not ex.implied(s2, r == w): return False
    ex.assumptions.add('JSON.stringify with a replacer that returns every JSON value unchanged is JSON.stringify (induction over the value; the premise is checked)')
    return True
def fnsig(node):
    import hashlib
    def strip(x):
        if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k not in ('l', 'path')}
        if isinstance(x, list): return [strip(y) for y in x]
        return x
    return hashlib.sha1(json.dumps(strip(node), sort_keys=True).encode()).hexdigest()[:8]
@native('JSON_parse')
def _(ex, st, recv, args, n):
    t = ex.tostr(st, arg(ex, st, args, 0))
    outs = []
    for st1, b in ex.split(st, U_isjson(t)):
        if not b: outs.append((st1, Thr(ex.mkerror(st1, 'SyntaxError', string('JSON'))))); continue
        v = U_jsonp(t); st1.fact(Implies(V.is_obj(v), V.id(v) >= 0)); st1.fact(Not(V.is_undef(v)))
        outs.append((st1, v))
    return outs
@native('ArrayC_isArray')
def _(ex, st, recv, args, n):
    def one(l):
        if cons(l) not in (None, 'obj'): return F
        h = ex.hget(st, l)
        if h is not None: return z3.BoolVal(h.kind == 'array')
        return And(isk('obj', l), U_isarr(l))
    r = F
    for c, l in cases(arg(ex, st, args, 0)): r = Or(r, And(c, one(l)))
    return ok(st, V.bool(simp(r)))
@native('ArrayC_from')
def _(ex, st, recv, args, n):
    outs = []
    v = arg(ex, st, args, 0)
    a = addr_of(v); h = st.heap.get(a) if a is not None else None
    for st1, segs in ex.iter_segs(st, v):
        if isinstance(segs, ABR): outs.append((st1, segs)); continue
        r = newarr(ex, st1, segs)
        if len(args) > 1: outs += N['Array_map'](ex, st1, r, args[1:], n)
        else: outs.append((st1, r))
    return outs
@native('ArrayC_of')
def _(ex, st, recv, args, n): return ok(st, newarr(ex, st, args))
def mknative(ex, st, nm, fn, ctor=None, ops=()):
    d = {'nm': nm, 'fn': fn or (lambda ex, st, recv, a, n: unsup('call of ' + nm))}
    if ctor: d['ctor'] = ctor
    return ex.alloc(st, HObj('native', None, tuple(ops), data=d))
def error_ctor(nm):
    def f(ex, st, args, n):
        v = arg(ex, st, args, 0)
        return ok(st, ex.mkerror(st, nm, string('') if cons(v) == 'undef' else V.str(ex.tostr(st, v))))
    return f

def install(s):
    s.natives = N
    s.prelude = {}
    s.objproto = {'hasOwnProperty', 'toString', 'valueOf', 'constructor', 'isPrototypeOf', 'propertyIsEnumerable', 'toLocaleString', '__proto__', '__defineGetter__'} & {k[7:] for k in N if k.startswith('Object_')}
    st = s.st0
    def bindg(name, v): s.bind(st, s.g, name, v)
    def statics(pre): return tuple(('set', sv(k[len(pre):]), mknative(s, st, k, f)) for k, f in N.items() if k.startswith(pre))
    def simple(f): return lambda ex, st, recv, a, n: f(ex, st, recv, a, n)
    objproto = s.alloc(st, HObj('object', None, tuple(('set', sv(k[7:]), s.alloc(st, HObj('bound', data={'recv': UNDEF, 'nm': k}))) for k in N if k.startswith('Object_'))))
    bindg('Object', mknative(s, st, 'Object', lambda ex, st, r, a, n: ok(st, arg(ex, st, a, 0)), lambda ex, st, a, n: ok(st, ex.alloc(st, HObj('object'))), statics('ObjectC_') + (('set', sv('prototype'), objproto),)))
    bindg('Array', mknative(s, st, 'Array', None, lambda ex, st, a, n: ok(st, newarr(ex, st, a)), statics('ArrayC_')))
    bindg('JSON', s.alloc(st, HObj('object', None, statics('JSON_'))))
    bindg('Promise', mknative(s, st, 'Promise', None, promise_ctor, statics('PromiseC_')))
    for nm in ('Error', 'TypeError', 'RangeError', 'SyntaxError'):
        c = error_ctor(nm)
        bindg(nm, mknative(s, st, nm, (lambda c: lambda ex, st, r, a, n: c(ex, st, a, n))(c), c))
    bindg('String', mknative(s, st, 'String', lambda ex, st, r, a, n: ok(st, V.str(ex.tostr(st, arg(ex, st, a, 0))) if a else string(''))))
    bindg('Number', mknative(s, st, 'Number', lambda ex, st, r, a, n: ok(st, ex.tonum(st, arg(ex, st, a, 0))), None, (('set', sv('isInteger'), mknative(s, st, 'isInteger', lambda ex, st, r, a, n: ok(st, V.bool(isk('num', arg(ex, st, a, 0)))))), ('set', sv('MAX_SAFE_INTEGER'), num(9007199254740991)))))
    bindg('Boolean', mknative(s, st, 'Boolean', lambda ex, st, r, a, n: ok(st, V.bool(truthy(arg(ex, st, a, 0))))))
    bindg('BigInt', mknative(s, st, 'BigInt', lambda ex, st, r, a, n: ok(st, V.big(uf('tobig', V, Int)(arg(ex, st, a, 0))))))
    def symf(ex, st, r, a, n): return ok(st, V.symv(sv('sym%d' % uid())))
    bindg('Symbol', mknative(s, st, 'Symbol', symf, None, (('set', sv('for'), mknative(s, st, 'Symbol.for', lambda ex, st, r, a, n: ok(st, V.symv(z3.Concat(sv('for:'), acc('str', arg(ex, st, a, 0))))))), ('set', sv('iterator'), V.symv(sv('iterator'))))))
    def setctor(ex, st, a, n):
        v = arg(ex, st, a, 0)
        if cons(v) in ('undef', 'null'): return ok(st, ex.alloc(st, HObj('set')))
        return [(s1, g if isinstance(g, ABR) else ex.alloc(s1, HObj('set', segs=tuple(g)))) for s1, g in ex.iter_segs(st, v)]
    bindg('Set', mknative(s, st, 'Set', None, setctor))
    def mapctor(ex, st, a, n):
        v = arg(ex, st, a, 0)
        if cons(v) in ('undef', 'null'): return ok(st, ex.alloc(st, HObj('map')))
        outs = []
        for s1, o in N['ObjectC_fromEntries'](ex, st, UNDEF, a, n):
            if not isinstance(o, ABR): h = s1.heap[addr_of(o)]; s1.heap[addr_of(o)] = HObj('map', h.base, h.ops)
            outs.append((s1, o))
        return outs
    bindg('Map', mknative(s, st, 'Map', None, mapctor)); bindg('WeakMap', mknative(s, st, 'WeakMap', None, mapctor))
    quiet = lambda ex, st, r, a, n: ok(st, UNDEF)
    bindg('console', s.alloc(st, HObj('object', None, tuple(('set', sv(k), mknative(s, st, 'console.' + k, quiet)) for k in ('log', 'warn', 'error', 'info', 'debug')))))
    def pexit(ex, st, r, a, n): return [(st, Exit(arg(ex, st, a, 0)))]
    bindg('process', s.alloc(st, HObj('object', None, (('set', sv('exit'), mknative(s, st, 'process.exit', pexit)), ('set', sv('argv'), newarr(s, st, (('el', string('node')), ('el', string('cli'))))), ('set', sv('env'), s.alloc(st, HObj('object'))), ('set', sv('cwd'), mknative(s, st, 'cwd', lambda ex, st, r, a, n: ok(st, string('/cwd'))))))))
    def bytelen(ex, st, r, a, n):
        t = ex.tostr(st, arg(ex, st, a, 0)); c = sconst(t)
        if c is not None: return ok(st, num(len(c.encode('utf8'))))
        x = uf('utf8len', Str, Int)(t); st.fact(And(x >= 0, x <= 3 * z3.Length(t), x >= z3.Length(t))); return ok(st, V.num(x))
    bindg('Buffer', s.alloc(st, HObj('object', None, (('set', sv('byteLength'), mknative(s, st, 'byteLength', bytelen)),))))
    bindg('isNaN', mknative(s, st, 'isNaN', lambda ex, st, r, a, n: ok(st, V.bool(uf('isnan', V, Bool)(arg(ex, st, a, 0))))))
    bindg('parseInt', mknative(s, st, 'parseInt', lambda ex, st, r, a, n: ok(st, ex.tonum(st, arg(ex, st, a, 0)))))
    absent = [x for x in os.environ.get('VERIF_ABSENT', '').split(',') if x]
    def require(ex, st, r, a, n):
        sp = sconst(ex.tostr(st, arg(ex, st, a, 0)))
        if sp is None: raise Unsupported('require of a computed name')
        if sp in absent: return [(st, Thr(ex.mkerror(st, 'Error', string("Cannot find module '%s'" % sp))))]
        p = ex.resolver('', sp) if not sp.startswith('.') else None
        if not isinstance(p, str): raise Unsupported("require('%s') has no source and no model" % sp)
        return ok(st, ex.ns_value(st, p))
    bindg('require', mknative(s, st, 'require', require))
    bindg('undefined', UNDEF); bindg('this', UNDEF); bindg('NaN', V.symv(sv('NaN'))); bindg('Infinity', V.symv(sv('Infinity')))
    import ghost
    ghost.install(s)
