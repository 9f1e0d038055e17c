"""The specification vocabulary available to contract files (module 'ghost')."""
import z3
from core import *
from builtins_js import arg, ok, mknative, newarr, member, N
import execu
from execu import Thr, Susp, Exit, Ret, ABR, Shape, ANY, Obl

def cstr(v):
    c = sconst(v.arg(0)) if cons(v) == 'str' else None
    if c is None: raise Unsupported('ghost: constant string expected')
    return c
def plain(ex, st, v):
    """concrete python value of a ghost argument; shape handles stay Shape"""
    k = cons(v)
    if k == 'undef': return None
    if k == 'null': return None
    if k == 'bool': return z3.is_true(simp(v.arg(0)))
    if k == 'num': return simp(v.arg(0)).as_long()
    if k == 'str': return cstr(v)
    if k == 'obj':
        h = ex.hget(st, v)
        if 'shape' in h.data: return h.data['shape']
        if h.kind in ('closure', 'native'): return v
        if h.kind == 'array': return [plain(ex, st, g[1]) for g in h.segs]
        if h.kind == 'object':
            d = {}
            for o in h.ops: d[sconst(o[1])] = plain(ex, st, o[2])
            return d
        return v
    raise Unsupported('ghost: constant expected')
def shp(ex, st, v):
    p = plain(ex, st, v)
    if isinstance(p, Shape): return p
    raise Unsupported('ghost: shape expected')
def mkshape(ex, st, sh): return ex.alloc(st, HObj('object', data={'shape': sh}))

def props(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, Shape) and v.kind == 'opt': out[k] = (v.kw['inner'], True)
        else: out[k] = (v, False)
    return out

def install(s):
    st = s.st0
    G = {}
    s.contracts = []
    s.unroll = {}
    s.curfile = None
    s.current = None
    def reg(name):
        def deco(f): G[name] = mknative(s, st, 'ghost.' + name, f); return f
        return deco
    SH = {}
    for k in ('any', 'str', 'num', 'nat', 'bool', 'undef', 'null', 'big'): SH[k] = mkshape(s, st, Shape(k))
    SH['int'] = mkshape(s, st, Shape('num'))
    SH['json'] = mkshape(s, st, Shape('json'))
    def shf(name):
        def deco(f): SH[name] = mknative(s, st, 'S.' + name, lambda ex, st, r, a, n: ok(st, mkshape(ex, st, f(ex, st, [g[1] for g in a])))); return f
        return deco
    shf('lit')(lambda ex, st, a: Shape('lit', values=[x for x in a]))
    shf('opt')(lambda ex, st, a: Shape('opt', inner=shp(ex, st, a[0])))
    shf('obj')(lambda ex, st, a: Shape('obj', props=props(plain(ex, st, a[0])), open=len(a) > 1 and plain(ex, st, a[1])))
    shf('record')(lambda ex, st, a: Shape('record', inner=shp(ex, st, a[0]), key=shp(ex, st, a[1]) if len(a) > 1 and cons(a[1]) != 'undef' else None))
    shf('array')(lambda ex, st, a: Shape('array', inner=shp(ex, st, a[0]), min=plain(ex, st, a[1]) if len(a) > 1 else 0, max=plain(ex, st, a[2]) if len(a) > 2 else None))
    shf('union')(lambda ex, st, a: Shape('union', alts=[shp(ex, st, x) for x in a]))
    shf('tagged')(lambda ex, st, a: Shape('tagged', tag=cstr(a[0]), variants={k: props(v) for k, v in plain(ex, st, a[1]).items()}))
    shf('promise')(lambda ex, st, a: Shape('promise', inner=shp(ex, st, a[0]), rejects=plain(ex, st, a[1]) if len(a) > 1 else False))
    shf('ref')(lambda ex, st, a: Shape('ref', name=cstr(a[0])))
    def fnshape(ex, st, a):
        d = plain(ex, st, a[0]) if a else {}
        return Shape('fn', pure=d.get('pure', True), throws=d.get('throws', False), result=d.get('result', ANY), useThis=d.get('useThis', False), exc=d.get('exc'), args=d.get('args'))
    shf('fn')(fnshape)
    G['S'] = s.alloc(st, HObj('object', None, tuple(('set', sv(k), v) for k, v in SH.items())))
    @reg('defShape')
    def _(ex, st, r, a, n):
        execu.SHAPES[cstr(a[0][1])] = shp(ex, st, a[1][1]); return ok(st, UNDEF)
    @reg('contract')
    def _(ex, st, r, a, n):
        ex.contracts.append((cstr(a[0][1]), cstr(a[1][1]), a[2][1], plain(ex, st, a[3][1]) if len(a) > 3 else {})); return ok(st, UNDEF)
    def anyv(ex, st, name, sh):
        r = execu.resolve_shape(sh)
        base = {'str': Str, 'num': Int, 'nat': Int, 'bool': Bool, 'big': Int}.get(r.kind)
        if base is not None:
            t = fresh(st, base, name)
            if r.kind == 'nat': st.fact(t >= 0)
            ex.inputs.append((name, t))
            return {'big': V.big, 'str': V.str, 'num': V.num, 'nat': V.num, 'bool': V.bool}[r.kind](t)
        if r.kind == 'undef': return UNDEF
        if r.kind == 'null': return NULL
        t = fresh(st, V, name); ex.typed(st, t, sh)
        ex.inputs.append((name, t))
        return t
    def oneof(ex, st, name, opts):
        if not opts: raise Unsupported('oneOf nothing')
        v = opts[-1]
        i = fresh(st, Int, name); st.fact(And(i >= 0, i < len(opts)))
        for j in reversed(range(len(opts) - 1)): v = If(i == j, opts[j], v)
        return v
    s.inputs = []
    s.anyv = lambda st, name, sh: anyv(s, st, name, sh)
    @reg('any')
    def _(ex, st, r, a, n):
        sh = shp(ex, st, a[1][1]); r2 = execu.resolve_shape(sh)
        if r2.kind == 'lit': return ok(st, oneof(ex, st, cstr(a[0][1]), [ex.lit(v) for v in r2.kw['values']]))
        return ok(st, anyv(ex, st, cstr(a[0][1]), sh))
    @reg('choose')
    def _(ex, st, r, a, n):
        """demonic boolean choice"""
        return ok(st, V.bool(fresh(st, Bool, cstr(a[0][1]))))
    @reg('oneOf')
    def _(ex, st, r, a, n):
        h = ex.hget(st, a[1][1])
        i = fresh(st, Int, cstr(a[0][1])); outs = []
        opts = [g[1] for g in h.segs]
        if all(cons(o) in ('str', 'num', 'bool', 'undef', 'null') for o in opts): return ok(st, oneof(ex, st, cstr(a[0][1]), opts))
        for j, o in enumerate(opts):
            s2 = st.clone() if j < len(opts) - 1 else st
            s2.branch(i == j); outs.append((s2, o))
        return outs
    @reg('split')
    def _(ex, st, r, a, n):
        """case split on a boolean: proves each case separately"""
        outs = []
        for s2, b in ex.split(st, truthy(a[0][1])): outs.append((s2, boolv(b)))
        return outs
    @reg('fork')
    def _(ex, st, r, a, n):
        """proves each alternative of a merged value separately"""
        groups = []; outs = []
        for c, l in cases(a[0][1]):
            for g in groups:
                if g[1].eq(l): g[0] = Or(g[0], c); break
            else: groups.append([c, l])
        for c, l in groups:
            if len(groups) == 1: return [(st, l)]
            if ex.feasible(st, c):
                s2 = st.clone(); s2.branch(simp(c)); outs.append((s2, l))
        return outs
    @reg('anyKey')
    def _(ex, st, r, a, n):
        """an arbitrary own key of an object"""
        outs = []
        for st1, l, k in ex.resolve_leaf(st, a[1][1]):
            w = fresh(st1, Str, cstr(a[0][1])); st1.add_idx(w)
            h = ex.hget(st1, l)
            hh, _ = ex.rread(st1, ex.repof(st1, l), w)
            if ex.feasible(st1, hh):
                st1.branch(simp(hh)); ex.inputs.append((cstr(a[0][1]), w)); outs.append((st1, V.str(w)))
        return outs
    @reg('anyIndex')
    def _(ex, st, r, a, n):
        outs = []
        for st1, l, k in ex.resolve_leaf(st, a[1][1]):
            w = fresh(st1, Int, cstr(a[0][1])); st1.add_idx(w)
            ln = ex.alen(st1, ex.segsof(st1, l))
            st1.branch(simp(And(w >= 0, w < ln)))
            if ex.feasible(st1, T): ex.inputs.append((cstr(a[0][1]), w)); outs.append((st1, V.num(w)))
        return outs
    @reg('anyString')
    def _(ex, st, r, a, n):
        w = fresh(st, Str, cstr(a[0][1])); st.add_idx(w); ex.inputs.append((cstr(a[0][1]), w))
        return ok(st, V.str(w))
    @reg('assume')
    def _(ex, st, r, a, n):
        c = simp(truthy(a[0][1]))
        if z3.is_true(c): return ok(st, UNDEF)
        if not ex.feasible(st, c): return []
        st.branch(c); return ok(st, UNDEF)
    @reg('ensures')
    def _(ex, st, r, a, n):
        lab = cstr(a[0][1]); c = simp(truthy(a[1][1]))
        ex.obls.append(Obl(lab, st.clone(), c, n and n.get('l')))
        st.lemma(c)   # proved above (or reported): assumed from here on
        return ok(st, UNDEF)
    @reg('same')
    def _(ex, st, r, a, n):
        """obligation: two values are structurally equal"""
        lab = cstr(a[0][1])
        same(ex, st, lab, a[1][1], a[2][1], n and n.get('l'), 0)
        return ok(st, UNDEF)
    @reg('cover')
    def _(ex, st, r, a, n):
        lab = cstr(a[0][1]); k = (ex.current, lab)
        l = ex.covers.setdefault(k, [])
        if len(l) < 6: l.append(st.clone())
        return ok(st, UNDEF)
    @reg('isObject')
    def _(ex, st, r, a, n): return ok(st, V.bool(isk('obj', a[0][1])))
    @reg('specFn')
    def _(ex, st, r, a, n):
        """uninterpreted specification function (the implementation given is used in concrete runs only)"""
        nm = cstr(a[0][1])
        opts = plain(ex, st, a[2][1]) if len(a) > 2 else {}
        res = opts.get('result', ANY)
        if 'as' in opts:  # a definition for the prover (real runs use the implementation)
            g = opts['as']
            return ok(st, mknative(ex, st, 'spec_' + nm, lambda ex, st, r, args, n: ex.call(st, g, UNDEF, tuple(args), n)))
        def f(ex, st, r, args, n):
            e = [ex.enc(st, x[1]) for x in args]
            t = uf('spec_' + nm, *([V] * len(e)), V)(*e)
            if isinstance(res, Shape): ex.typed(st, t, res)
            return ok(st, t)
        return ok(st, mknative(ex, st, 'spec_' + nm, f))
    @reg('internal')
    def _(ex, st, r, a, n):
        v = ex.internal(st, ex.repo_path(cstr(a[0][1])), cstr(a[1][1]))
        return ok(st, UNDEF if v is None else v)
    @reg('useContract')
    def _(ex, st, r, a, n):
        """calls of the named function go to the given specification closure instead of the body"""
        key = cstr(a[0][1]); ex.modular[key] = {'f': a[1][1], 'active': False}; return ok(st, UNDEF)
    @reg('bodyOf')
    def _(ex, st, r, a, n):
        v = a[0][1]; h = ex.hget(st, v); d = dict(h.data); d.pop('key', None)
        return ok(st, ex.alloc(st, HObj('closure', h.base, h.ops, data=d)))
    @reg('settled')
    def _(ex, st, r, a, n):
        """run an async action to completion: {state:'fulfilled'|'rejected'|'pending', value}"""
        outs = []
        for st1, v in ex.call(st, a[0][1], UNDEF, ()):
            if isinstance(v, Thr): outs.append((st1, mk(ex, st1, 'rejected', v.v))); continue
            if isinstance(v, ABR): outs.append((st1, v if not isinstance(v, Susp) else mk(ex, st1, 'pending', UNDEF))); continue
            for st2, p in ex.resolve_promise(st1, v):
                if isinstance(p, ABR): outs.append((st2, p)); continue
                for st3, l, k in ex.resolve_leaf(st2, p):
                    h = ex.hget(st3, l); outs.append((st3, mk(ex, st3, h.data['state'], h.data['val'])))
        return ex.merge_if(st, outs)
    def mk(ex, st, state, v): return ex.alloc(st, HObj('object', None, (('set', sv('state'), string(state)), ('set', sv('value'), v))))
    @reg('attempt')
    def _(ex, st, r, a, n):
        """{threw, value}"""
        outs = []
        for st1, v in ex.call(st, a[0][1], UNDEF, ()):
            if isinstance(v, Exit): outs.append((st1, mk(ex, st1, 'exit', v.v)))
            elif isinstance(v, Thr): outs.append((st1, mk(ex, st1, 'threw', v.v)))
            elif isinstance(v, ABR): outs.append((st1, v))
            else: outs.append((st1, mk(ex, st1, 'returned', v)))
        return ex.merge_if(st, outs)
    @reg('arrayIncludes')
    def _(ex, st, r, a, n): return N['Array_includes'](ex, st, a[0][1], a[1:], n)
    def settle_nat(kind):
        def f(ex, st, r, a, n): return ok(st, ex.mkpromise(st, kind, arg(ex, st, a, 0)))
        return f
    s.ghost = G
    def native_module(st_, mod, name):
        if mod != 'ghost': raise Unsupported('native module ' + mod)
        if name not in G: raise Unsupported("ghost has no export '%s'" % name)
        return G[name]
    s.native_module = native_module
    s.modular_call = lambda st, key, c, args, n: s.call(st, c['f'], UNDEF, args, n)

def same(ex, st, lab, a, b, line, depth):
    if depth > 8: raise Unsupported('same: too deep')
    def ob(c): ex.obls.append(Obl(lab, st_.clone(), simp(c), line))
    for s1, la, ka in ex.resolve_leaf(st.clone(), a):
        for st_, lb, kb in ex.resolve_leaf(s1, b):
            if ka != kb: ex.obls.append(Obl(lab, st_.clone(), F, line)); continue
            if ka != 'obj': ob(eqt(la, lb)); continue
            if la.eq(lb): ob(T); continue
            ha, hb = ex.hget(st_, la), ex.hget(st_, lb)
            fa = ha is not None and 'term' not in ha.data; fb = hb is not None and 'term' not in hb.data
            if not fa and not fb: ob(eqt(la, lb)); continue
            kinda = ha.kind if ha is not None else ex.okind(st_, la); kindb = hb.kind if hb is not None else ex.okind(st_, lb)
            if kinda != kindb:
                if not (fa and fb) : pass
                ex.obls.append(Obl(lab, st_.clone(), F, line)); continue
            if kinda == 'array':
                same_segs(ex, st_, lab, ex.segsof(st_, la), ex.segsof(st_, lb), line, depth); continue
            if kinda == 'object':
                ra, rb = ex.repof(st_, la), ex.repof(st_, lb)
                ks = set(); fin = True
                for r in (ra, rb):
                    for g in ex.keysegs(st_, r):
                        if g[0] == 'el': ks.add(sconst(g[1].arg(0)))
                        elif g[0] == 'guard': ks.add(sconst(g[2][0][1].arg(0)))
                        else: fin = False
                keys = [sv(k) for k in sorted(ks)] if fin else []
                if not fin:
                    w = fresh(st_, Str, 'key'); st_.add_idx(w); keys = [w]
                if not keys: ob(T)
                for key in keys:
                    s2 = st_.clone()
                    h1, v1 = ex.rread(s2, ra, key); h2, v2 = ex.rread(s2, rb, key)
                    ex.obls.append(Obl(lab, s2.clone(), simp(h1 == h2), line))
                    c = simp(And(h1, h2))
                    if z3.is_false(c) or not ex.feasible(s2, c): continue
                    s2.branch(c)
                    same(ex, s2, lab, v1, v2, line, depth + 1)
                continue
            if kinda in ('closure', 'native', 'bound', 'fn', 'promise', 'class', 'set', 'map', 'regex'):
                ex.obls.append(Obl(lab, st_.clone(), F, line)); continue
            raise Unsupported('same on ' + kinda)
def same_segs(ex, st, lab, A, B, line, depth):
    def ob(c): ex.obls.append(Obl(lab, st.clone(), simp(c), line))
    A, B = list(A), list(B)
    while A and B and A[0][0] == 'el' and B[0][0] == 'el':
        same(ex, st, lab, A[0][1], B[0][1], line, depth + 1); A.pop(0); B.pop(0)
    if not A and not B: ob(T); return
    # equal lengths and equal elements at an arbitrary position
    # resolve leading guards by splitting
    for X, Y, fl in ((A, B, False), (B, A, True)):
        gi = [i for i, g in enumerate(X) if g[0] == 'guard']
        if gi:
            g = X[gi[0]]
            for s2, b in ex.split(st.clone(), g[1]):
                X2 = X[:gi[0]] + (list(g[2]) if b else []) + X[gi[0] + 1:]
                same_segs(ex, s2, lab, *((Y, X2) if fl else (X2, Y)), line, depth)
            return
    if A and B and A[0][0] == B[0][0] == 'comp' and len(A) == len(B) == 1:
        ga, gb = A[0], B[0]
        da, db = ga[3], gb[3]
        if da.idx.sort() == db.idx.sort():
            i = fresh(st, da.idx.sort(), 'pos'); s2 = st.clone(); s2.add_idx(i)
            ca, cb = da.at(i), db.at(i)
            ex.obls.append(Obl(lab, s2.clone(), simp(ca == cb), line))
            s2.branch(simp(And(ca, cb)))
            if not ex.feasible(s2, T): return
            sa = ex.instantiate(s2, ga[1], i, da); sb = ex.instantiate(s2, gb[1], i, db)
            same_segs(ex, s2, lab, sa.segs(ga[2]), sb.segs(gb[2]), line, depth + 1); return
    for X, Y, fl in ((A, B, False), (B, A, True)):
        if len(X) == 1 and len(Y) == 1 and X[0][0] == 'comp' and Y[0][0] in ('arr', 'slice') and X[0][3].idx.sort() == Int:
            g = X[0]; y = Y[0]; lo, hi = (z3.IntVal(0), U_alen(y[1])) if y[0] == 'arr' else (y[2], y[3])
            i = fresh(st, Int, 'pos'); s2 = st.clone(); s2.add_idx(i)
            ex.obls.append(Obl(lab, s2.clone(), simp(g[3].at(i) == And(i >= lo, i < hi)), line))
            s2.branch(simp(And(i >= lo, i < hi)))
            if not ex.feasible(s2, T): return
            sub = ex.instantiate(s2, g[1], i, g[3]); e = (('el', ex.aelem(s2, y[1], i)),)
            same_segs(ex, s2, lab, *((e, sub.segs(g[2])) if fl else (sub.segs(g[2]), e)), line, depth + 1); return
    if len(A) == len(B) == 1 and A[0][0] == B[0][0] == 'arr': ob(eqt(A[0][1], B[0][1])) if A[0][1].eq(B[0][1]) else pointwise(ex, st, lab, A, B, line, depth); return
    if len(A) == len(B) == 1 and A[0][0] == B[0][0] == 'keys' and ex.same_item(A[0], B[0]): ob(T); return
    if len(A) == len(B) == 1 and A[0][0] == B[0][0] and A[0][0] in ('perm', 'dedup') and A[0][2] == B[0][2]:
        same_segs(ex, st, lab, A[0][1], B[0][1], line, depth); return
    if len(A) == len(B) and all(ex.same_item(x, y) for x, y in zip(A, B)): ob(T); return
    if len(A) == len(B) and len(A) > 1 and all(x[0] == y[0] for x, y in zip(A, B)):
        for x, y in zip(A, B): same_segs(ex, st, lab, [x], [y], line, depth + 1)
        return
    pointwise(ex, st, lab, A, B, line, depth)
def pointwise(ex, st, lab, A, B, line, depth):
    s2 = st.clone()
    na, nb = ex.alen(s2, tuple(A)), ex.alen(s2, tuple(B))
    ex.obls.append(Obl(lab, s2.clone(), simp(na == nb), line))
    i = fresh(s2, Int, 'pos'); s2.add_idx(i)
    s2.branch(simp(And(i >= 0, i < na, na == nb)))
    if not ex.feasible(s2, T): return
    same(ex, s2, lab, ex.aget(s2, tuple(A), i), ex.aget(s2, tuple(B), i), line, depth + 1)
