"""Contracts of the Python builtins and of the external libraries other than numpy.

Everything in this file is part of the trusted base (assumed contracts on
dependencies); the evidence lists the names that a run really used.
"""
import ast
import math
from . import terms as tm
from .terms import *
from .prover import prove, simp
from .values import *
from .npmodel import NP
from . import npmodel as npm


def _ip():
    from . import interp
    return interp


# ------------------------------------------------------------ value helpers

def subst_value(v, m):
    """substitute variables inside a symbolic value (closures included)"""
    if isinstance(v, SV):
        return mkval(subst(v.t, m), v.ty)
    if isinstance(v, tuple):
        return tuple(subst_value(x, m) for x in v)
    if isinstance(v, list):
        r = _ip().PList(subst_value(x, m) for x in v)
        return r
    if isinstance(v, Arr):
        if v.gathered is not None:
            raise Unsupported('substitution in a gathered array')
        f = v.snap()
        nd = len(v.shape)
        hold = tuple(fresh('ix', 'I') for _ in range(nd))
        body = f(hold)
        m2 = dict(m)

        def fn(idx):
            mm = dict(m2)
            mm.update(zip(hold, idx))
            return subst(body, mm)
        return Arr(tuple(subst(s, m) for s in v.shape), v.dt, fn)
    if isinstance(v, SList):
        g = v.get
        h = fresh('ix', 'I')
        cell = []

        def get(k):
            if not cell:
                cell.append(g(h))
            mm = dict(m)
            mm[h] = lift(k)
            return subst_value(cell[0], mm)
        s = SList(subst(v.length, m), get, elty=v.elty)
        if v.memfn is not None:
            f0 = v.memfn
            hm = fresh('mx', 'I')
            mb = f0(hm)

            def memfn(x):
                mm = dict(m)
                mm[hm] = lift(x)
                return subst(mb, mm)
            s.memfn = memfn
        return s
    if v is None or isinstance(v, (bool, int, float, str, Opaque, TypeV, ClassV, ModV, FuncV, Builtin, ExcV)):
        return v
    if isinstance(v, Inst):
        return v
    raise Unsupported('substitution in %r' % (type(v).__name__,))


def same_value(a, b):
    if a is b:
        return True
    if is_scalar(a) and is_scalar(b) and not isinstance(a, Arr) and not isinstance(b, Arr):
        return ntype(a) == ntype(b) and term(a) is term(b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return all(same_value(x, y) for x, y in zip(a, b))
    return False


def merge2(I, c, a, b):
    """value equal to a when c else b"""
    if same_value(a, b):
        return a
    if is_scalar(a) and is_scalar(b):
        ta, tb = ntype(a), ntype(b)
        if (ta == 'str') != (tb == 'str'):
            raise Unsupported('merge of different types')
        x, y = term(a), term(b)
        if x.sort == 'B' and y.sort == 'B':
            return mkval(disj(conj(c, x), conj(no(c), y)), ta if ta == tb else 'bool')
        x, y = num01(x), num01(y)
        if ta != tb:
            ta = 'float' if (ta in FLT_T or tb in FLT_T) else 'int'
        if ta == 'str':
            return SV(ite_u(c, x, y), 'str')
        return mkval(ite(c, x, y) if not (has_special(x) or has_special(y)) else case(c, x, y), ta)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge2(I, c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return _ip().PList(merge2(I, c, x, y) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr) and len(a.shape) == len(b.shape) and \
            all(I.ctx.norm(x) is I.ctx.norm(y) for x, y in zip(a.shape, b.shape)):
        f, g = a.snap(), b.snap()
        dt = a.dt if a.dt == b.dt else 'f'

        def fn(i):
            x, y = f(i), g(i)
            if x.sort == 'B' and y.sort == 'B':
                return disj(conj(c, x), conj(no(c), y))
            x, y = num01(x), num01(y)
            return ite(c, x, y) if not (has_special(x) or has_special(y)) else case(c, x, y)
        return npm.arr(a.shape, dt, fn)
    raise Unsupported('merge of %s and %s' % (type(a).__name__, type(b).__name__))


def ite_u(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if x.sort != 'U':
        return ite(c, x, y)
    return app('ite_u', [app('b2i', [ivr(c)], 'I'), x, y], 'U')


def _ite_u_simp(args, sort):
    return None


def merge_paths(I, pv):
    """[(cond, value)] covering all cases -> one value"""
    if not pv:
        raise Unsupported('no feasible path')
    r = pv[-1][1]
    for c, v in reversed(pv[:-1]):
        r = merge2(I, c, v, r)
    return r


def subctx(I, k, it_len, fn, extra=()):
    """run fn() under a symbolic index 0<=k<len; merge the paths.
    returns [(cond, outcome)] with the facts assumed generalised over k"""
    rng = conj(le(ZERO, k), lt(k, it_len))
    saved = I.ctx
    I.ctx = saved.ext(rng, *extra)
    n0 = len(I.assumed)
    I.loopstack.append(('c%d' % len(I.loopstack) + tm.fresh_name('c'), k))
    outer = I.expl
    try:
        res = I.explore(fn)
    finally:
        I.loopstack.pop()
        I.ctx = saved
        I.sync()
    new = I.assumed[n0:]
    del I.assumed[n0:]
    out = []
    base = len(outer.conds)
    for conds, f in new:
        cc = [c for c in conds]
        g = implies(conj(rng, *cc), f)
        if f.op == 'forall' or k in f.fv or any(k in c.fv for c in cc):
            g = forall(k, g)
        if g is TRUE:
            continue
        I.ctx.assume(g)
        I.assumed.append((list(outer.conds), g))
    for ex, o, cx in res:
        out.append((conj(*ex.conds), o))
    return out


class SetLen:
    pass


def truth_term(I, v):
    t = I.truth(v)
    return t if isinstance(t, T) else (TRUE if t else FALSE)


# ------------------------------------------------------------ comprehensions

def bind_target(I, target, v, env):
    I.assign(target, v, env)


def comprehension(I, e, env, kind):
    elt = e.elt
    env2 = _ip().Env(env, env.module, env.func) if False else Env(env, env.module, env.func)
    r = comp_rec(I, e.generators, 0, env2, lambda ev: I.eval(elt, ev))
    if kind == 'set':
        if isinstance(r, list):
            return make_set(I, r)
        return to_set(I, r)
    return r


def comp_rec(I, gens, d, env, leaf):
    """list result of the nested comprehension"""
    PList = _ip().PList
    g = gens[d]
    last = d == len(gens) - 1
    itv = I.eval(g.iter, env)
    if isinstance(itv, npm.NdEnum):
        raise Unsupported('list comprehension over ndenumerate')
    c = I.concrete_items(itv)
    if c is not None:
        out = PList()
        for x in c:
            ev = Env(env, env.module, env.func)
            bind_target(I, g.target, x, ev)
            ok = True
            for cond in g.ifs:
                if not I.decide(I.truth(I.eval(cond, ev))):
                    ok = False
                    break
            if not ok:
                continue
            if last:
                out.append(leaf(ev))
            else:
                r = comp_rec(I, gens, d + 1, ev, leaf)
                if not isinstance(r, list):
                    raise Unsupported('nested symbolic comprehension')
                out.extend(r)
        return out
    it = I.iterate(itv)
    n = I.ctx.norm(it.length)
    if not last:
        return comp_two(I, it, n, gens, d, env, leaf)
    k = fresh('k', 'I')
    if not g.ifs:
        val = sym_elem(I, k, n, g, it, env, leaf)
        return slist_of(I, n, k, val, itv)
    # filter
    conds = sym_elem(I, k, n, g, it, env, lambda ev: mkval(conj(*[truth_term(I, I.eval(x, ev)) for x in g.ifs]), 'bool'),
                     noif=True)
    ct = term(conds)
    en = npm.enumerate_pred(I, n, lambda x: subst(ct, {k: x}))
    en_n = I.ctx.norm(en.shape[0])
    if en_n.op == 'num':
        idx = [en.get(num(j)) for j in range(int(en_n.args[0]))]
        out = PList()
        for t in idx:
            ev = Env(env, env.module, env.func)
            bind_target(I, g.target, it.get(t), ev)
            out.append(leaf(ev))
        return out
    val = sym_elem(I, k, n, g, it, env, leaf, extra=(ct,), noif=True)
    s = SList(en.shape[0], lambda t: subst_value(val, {k: en.get(t)}))
    if isinstance(val, SV) and val.t is k:
        s.memfn, s.wit, s.enum = en.memfn, en.wit, en.enum
        s.elty = 'int'
    s.from_enum = (en, k, val)
    return s


def slist_of(I, n, k, val, src=None):
    s = SList(n, lambda t: subst_value(val, {k: lift(t)}))
    if is_scalar(val):
        s.elty = ntype(val)
        if isinstance(val, SV) and val.t is k and isinstance(src, (SList, Iter)) is False:
            pass
    return s


def sym_elem(I, k, n, g, it, env, leaf, extra=(), noif=False):
    def fn():
        ev = Env(env, env.module, env.func)
        bind_target(I, g.target, it.get(k), ev)
        return leaf(ev)
    res = subctx(I, k, n, fn, extra)
    rng = conj(le(ZERO, k), lt(k, n), *extra)
    raises = [(c, o) for c, o in res if o[0] == 'raise']
    if raises:
        rc = disj(*[c for c, _ in raises])
        if I.decide(exists(k, conj(rng, rc))):
            raise PyRaise(raises[0][1][1])
    vals = [(c, o[1]) for c, o in res if o[0] == 'ok']
    return merge_paths(I, vals)


def comp_two(I, it, n, gens, d, env, leaf):
    raise Unsupported('nested comprehension over symbolic ranges')


def quant_gen(I, gen, kind):
    """any()/all() over a generator expression"""
    node, env = gen.node, gen.env
    if isinstance(node, (list,)):
        raise Unsupported('quantifier')
    return quant_rec(I, node.generators, 0, Env(env, env.module, env.func), lambda ev: I.eval(node.elt, ev), kind)


def quant_rec(I, gens, d, env, leaf, kind):
    g = gens[d]
    last = d == len(gens) - 1
    inner = (lambda ev: leaf(ev)) if last else (lambda ev: mkval(quant_rec(I, gens, d + 1, ev, leaf, kind), 'bool'))
    itv = I.eval(g.iter, env)
    isall = kind == 'all'
    if isinstance(itv, npm.NdEnum):
        a = itv.a
        ks = [fresh('k', 'I') for _ in a.shape]
        return quant_nd(I, a, ks, 0, g, env, inner, isall)
    c = I.concrete_items(itv)
    if c is not None:
        acc = TRUE if isall else FALSE
        for x in c:
            ev = Env(env, env.module, env.func)
            bind_target(I, g.target, x, ev)
            cond = TRUE
            for f in g.ifs:
                cond = conj(cond, truth_term(I, I.eval(f, ev)))
            if cond is FALSE:
                continue
            saved = I.ctx
            # short-circuit: later elements are evaluated knowing the earlier ones
            I.ctx = saved.ext(acc if isall else no(acc), cond)
            try:
                t = lift_truth(I, inner(ev))
            finally:
                I.ctx = saved
            acc = conj(acc, implies(cond, t)) if isall else disj(acc, conj(cond, t))
            if acc is (FALSE if isall else TRUE):
                return acc
        return acc
    it = I.iterate(itv)
    n = I.ctx.norm(it.length)
    k = fresh('k', 'I')
    rng = conj(le(ZERO, k), lt(k, n))

    def fn():
        ev = Env(env, env.module, env.func)
        bind_target(I, g.target, it.get(k), ev)
        cond = TRUE
        for f in g.ifs:
            cond = conj(cond, truth_term(I, I.eval(f, ev)))
        if cond is not TRUE:
            if not I.decide(cond):
                return isall
        return mkval(lift_truth(I, inner(ev)), 'bool')
    return fold_quant(I, k, rng, n, fn, isall)


def fold_quant(I, k, rng, n, fn, isall):
    res = subctx(I, k, n, fn)
    raises = [(c, o) for c, o in res if o[0] == 'raise']
    body = FALSE
    for c, o in res:
        if o[0] == 'ok':
            body = disj(body, conj(c, term(o[1])))
    if raises:
        rc = disj(*[c for c, _ in raises])
        if I.decide(exists(k, conj(rng, rc))):
            raise PyRaise(raises[0][1][1])
    body = I.ctx.norm(body) if False else body
    # cover: complementary path conditions
    if len(res) > 1:
        body = simplify_cover(I, res, body)
    if isall:
        return forall(k, implies(rng, body))
    return exists(k, conj(rng, body))


def simplify_cover(I, res, body):
    """disjunction of guarded booleans; when guards are complementary use implications"""
    trues = [c for c, o in res if o[0] == 'ok' and term(o[1]) is TRUE]
    if len(res) == 2 and len(trues) == 1:
        other = [(c, term(o[1])) for c, o in res if o[0] == 'ok' and term(o[1]) is not TRUE]
        if other:
            c, t = other[0]
            return disj(no(c), t)
        return body
    return body


def quant_nd(I, a, ks, d, g, env, inner, isall):
    k = ks[d]
    n = I.ctx.norm(a.shape[d])
    if n.op == 'num':
        acc = TRUE if isall else FALSE
        for j in range(int(n.args[0])):
            t = quant_nd_in(I, a, ks[:d] + [num(j)] + ks[d + 1:], d, g, env, inner, isall)
            acc = conj(acc, t) if isall else disj(acc, t)
        return acc
    rng = conj(le(ZERO, k), lt(k, n))

    def fn():
        return mkval(quant_nd_in(I, a, ks, d, g, env, inner, isall), 'bool')
    return fold_quant(I, k, rng, n, fn, isall)


def quant_nd_in(I, a, ks, d, g, env, inner, isall):
    if d + 1 < len(ks):
        return quant_nd(I, a, ks, d + 1, g, env, inner, isall)
    ev = Env(env, env.module, env.func)
    idx = tuple(mkval(x, 'int') for x in ks)
    bind_target(I, g.target, (idx, npm.scal(a.get(*ks), a.dt)), ev)
    return lift_truth(I, inner(ev))


def lift_truth(I, v):
    if isinstance(v, T):
        return v
    return truth_term(I, v)


def dict_comprehension(I, e, env):
    PDict = _ip().PDict
    d = PDict()
    if len(e.generators) != 1:
        raise Unsupported('dict comprehension')
    g = e.generators[0]
    c = I.concrete_items(I.eval(g.iter, env))
    if c is None:
        raise Unsupported('symbolic dict comprehension')
    for x in c:
        ev = Env(env, env.module, env.func)
        bind_target(I, g.target, x, ev)
        if all(I.decide(I.truth(I.eval(f, ev))) for f in g.ifs):
            dict_set(I, d, I.eval(e.key, ev), I.eval(e.value, ev))
    return d


# ------------------------------------------------------------ dictionaries

def dkey(I, k):
    if isinstance(k, SV):
        return k.t
    if isinstance(k, tuple):
        return tuple(dkey(I, x) for x in k)
    return k


def key_eq(I, a, b):
    """condition a == b for dictionary keys"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return FALSE
        return conj(*[key_eq(I, x, y) for x, y in zip(a, b)])
    if isinstance(a, tuple) or isinstance(b, tuple):
        return FALSE
    if not isinstance(a, T) and not isinstance(b, T):
        return TRUE if a == b else FALSE
    x = a if isinstance(a, T) else term(a)
    y = b if isinstance(b, T) else term(b)
    if (x.sort == 'U') != (y.sort == 'U'):
        return FALSE
    return eq(x, y)


def dict_find(I, d, k):
    """the stored key equal to k (forking when undetermined) or None"""
    kk = dkey(I, k)
    if not has_terms(kk):
        try:
            if kk in d:
                return kk
        except TypeError:
            raise PyRaise(ExcV('TypeError', ('unhashable',)))
        if not any(has_terms(x) for x in d):
            return None
    for x in list(d.keys()):
        c = key_eq(I, x, kk)
        if I.decide(c):
            return x
    return None


def has_terms(k):
    if isinstance(k, T):
        return True
    if isinstance(k, tuple):
        return any(has_terms(x) for x in k)
    return False


_MISSING = object()


def dict_set(I, d, k, v):
    x = dict_find(I, d, k)
    if x is None:
        d[dkey(I, k)] = v
    else:
        d[x] = v


def unkey(k):
    if isinstance(k, T):
        return SV(k, {'U': 'str', 'I': 'int', 'R': 'float', 'B': 'bool'}[k.sort])
    if isinstance(k, tuple):
        return tuple(unkey(x) for x in k)
    return k


# ------------------------------------------------------------ sets

class CSet:
    """finite set given by explicit elements (terms may coincide)"""

    def __init__(self, items):
        self.items = items

    def __deepcopy__(self, memo):
        return CSet(list(self.items))


def set_add(I, s, x):
    for y in s.items:
        c = val_eq(I, x, y)
        if I.decide(c):
            return
    s.items.append(x)


def make_set(I, items):
    if all(not isinstance(x, SV) and not isinstance(x, Arr) for x in items):
        try:
            return set(items)
        except TypeError:
            pass
    s = CSet([])
    for x in items:
        set_add(I, s, x)
    return s


def to_set(I, v):
    c = I.concrete_items(v)
    if c is not None:
        if len(c) > 6 and any(isinstance(x, SV) for x in c):
            return LazySet(v)
        return make_set(I, c)
    return LazySet(v)


class LazySet:
    """set(x) for a list x of symbolic length"""

    def __init__(self, src):
        self.src = src

    def __deepcopy__(self, memo):
        return self


def scalar_list_fn(I, v):
    """(length, index term -> element term) for a list/array of scalars"""
    if isinstance(v, Arr):
        f = v.snap()
        return v.shape[0], lambda k: f((k,))
    it = I.iterate(v)
    g = it.get
    return it.length, lambda k: term(g(k))


def lazyset_len(I, s):
    n, f = scalar_list_fn(I, s.src)
    c = I.fresh('card', 'I')
    i, j = fresh('i', 'I'), fresh('j', 'I')
    distinct = forall((i, j), implies(conj(le(ZERO, i), lt(i, j), lt(j, n)), ne(f(i), f(j))))
    I.assume(conj(le(ZERO, c), le(c, n)))
    I.assume(implies(distinct, eq(c, n)))
    wi, wj = I.fresh('dup', 'I'), I.fresh('dup', 'I')
    I.assume(disj(eq(c, n), conj(le(ZERO, wi), lt(wi, wj), lt(wj, n), eq(f(wi), f(wj)))))
    I.assume(implies(eq(c, n), distinct))
    I.assume(implies(lt(ZERO, n), lt(ZERO, c)))
    return mkval(c, 'int')


def lazy_inter(I, a, b):
    """set(x) & set(y) of two lists of symbolic length: a duplicate-free list in an unknown order"""
    (n, f), (m, g) = scalar_list_fn(I, a.src), scalar_list_fn(I, b.src)
    c = I.fresh('icard', 'I')
    e, wa, wb = tm.fresh_name('inter'), tm.fresh_name('wa'), tm.fresh_name('wb')
    i, j, k = fresh('i', 'I'), fresh('j', 'I'), fresh('k', 'I')
    srt = f(i).sort
    E, A, B = (lambda t: app(e, [t], srt)), (lambda t: app(wa, [t], 'I')), (lambda t: app(wb, [t], 'I'))
    I.assume(le(ZERO, c))
    elem = lambda k: implies(conj(le(ZERO, k), lt(k, c)), conj(le(ZERO, A(k)), lt(A(k), n), le(ZERO, B(k)), lt(B(k), m), eq(E(k), f(A(k))), eq(E(k), g(B(k)))))
    I.assume(forall(k, elem(k)))
    I.assume(elem(ZERO))
    I.assume(disj(lt(ZERO, c), forall((i, j), implies(conj(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, m)), ne(f(i), g(j))))))
    r = SList(c, lambda t: SV(E(t), 'str' if srt == 'U' else 'int'))
    r.enum_list = True
    return LazySet(r)


def set_binop(I, op, a, b):
    pa, pb = as_pred(I, a), as_pred(I, b)
    if op == 'Sub':
        return SSet(lambda x: conj(pa(x), no(pb(x))))
    if op == 'BitOr':
        return SSet(lambda x: disj(pa(x), pb(x)))
    if op == 'BitAnd':
        return SSet(lambda x: conj(pa(x), pb(x)))
    raise Unsupported('set op')


def as_pred(I, s):
    if isinstance(s, SSet):
        return s.mem
    if isinstance(s, LazySet):
        return npm.mem_of(I, s.src)[0]
    if isinstance(s, (set, frozenset, list, tuple)):
        ts = [term(x) for x in s]
        return lambda x: disj(*[eq(x, t) for t in ts])
    if isinstance(s, CSet):
        ts = [term(x) for x in s.items]
        return lambda x: disj(*[eq(x, t) for t in ts])
    if isinstance(s, (SList, Arr)):
        return npm.mem_of(I, s)[0]
    raise Unsupported('set predicate of %r' % (s,))


def enumerate_set(I, s):
    raise Unsupported('iteration over a symbolic set')


# ------------------------------------------------------------ lists

def val_eq(I, a, b):
    """python equality as a Bool term"""
    r = I.compare('Eq', a, b)
    return lift_truth(I, r)


def compare(I, op, a, b):
    if op in ('Eq', 'NotEq'):
        r = value_equal(I, a, b)
        if isinstance(r, bool):
            return r if op == 'Eq' else not r
        return mkval(r if op == 'Eq' else no(r), 'bool')
    if isinstance(a, tuple) and isinstance(b, tuple):
        # lexicographic
        c = FALSE
        pre = TRUE
        for x, y in zip(a, b):
            c = disj(c, conj(pre, lift_truth(I, I.compare('Lt', x, y))))
            pre = conj(pre, val_eq(I, x, y))
        if op == 'Lt':
            return mkval(disj(c, pre) if len(a) < len(b) else c, 'bool')
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return {'LtE': a <= b, 'Lt': a < b, 'GtE': a >= b, 'Gt': a > b}[op]
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        raise Unsupported('comparison with an opaque value')
    raise PyRaise(ExcV('TypeError', ('comparison %s of %r and %r' % (op, type(a).__name__, type(b).__name__),)))


def value_equal(I, a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        r = TRUE
        for x, y in zip(a, b):
            r = conj(r, val_eq(I, x, y))
        return bool(r is TRUE) if r in (TRUE, FALSE) else r
    if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
        ia, ib = I.iterate(a), I.iterate(b)
        k = fresh('k', 'I')
        if is_scalar(peek(I, ia, k)) and is_scalar(peek(I, ib, k)):
            return conj(eq(ia.length, ib.length),
                        forall(k, implies(conj(le(ZERO, k), lt(k, ia.length)), eq(term(ia.get(k)), term(ib.get(k))))))
        raise Unsupported('list equality')
    if isinstance(a, (set, frozenset)) and isinstance(b, (set, frozenset)):
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        r = TRUE
        for k, v in a.items():
            x = dict_find(I, b, unkey(k))
            if x is None:
                return False
            r = conj(r, val_eq(I, v, b[x]))
        return r
    if isinstance(a, BytesV_) and isinstance(b, BytesV_):
        return lift_truth(I, NP['array_equal'](I, a.o, b.o))
    if isinstance(a, Inst) and isinstance(b, Inst):
        m = a.cls.lookup('__eq__')
        if m is not None:
            return lift_truth(I, I.call_func(m, [a, b], {}))
        return False
    if isinstance(a, TypeV) and isinstance(b, TypeV):
        return a.name == b.name
    if type(a) != type(b):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Unsupported('equality with an opaque value')
        return False
    raise Unsupported('equality of %s' % type(a).__name__)


BytesV_ = npm.BytesV


def peek(I, it, k):
    return it.get(k)


def list_binop(I, op, a, b):
    PList = _ip().PList
    if op == 'Add':
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, list) and isinstance(b, list):
            return PList(list(a) + list(b))
        if isinstance(a, (SList, list)) and isinstance(b, (SList, list)):
            ia, ib = I.iterate(a), I.iterate(b)
            na = ia.length

            def get(t):
                c = lt(t, na)
                if I.ctx.entails(c):
                    return ia.get(t)
                if I.ctx.entails(no(c)):
                    return ib.get(sub(t, na))
                return merge2(I, c, ia.get(t), ib.get(sub(t, na)))
            s = SList(add(na, ib.length), get)
            la, lb = getattr(a, 'memfn', None), getattr(b, 'memfn', None)
            s.parts = (a, b)
            if la is not None and lb is not None:
                s.memfn = lambda x: disj(la(x), lb(x))
                if getattr(a, 'wit', None) and getattr(b, 'wit', None):
                    wa, wb = a.wit, b.wit
                    s.wit = lambda x: ite(lb(x), add(na, wb(x)), wa(x))
            return s
    if op == 'Mult':
        if isinstance(b, (list, SList)):
            a, b = b, a
        t = term(b)
        t = I.ctx.norm(t)
        if isinstance(a, list) and t.op == 'num':
            return PList(list(a) * int(t.args[0]))
        if isinstance(a, tuple) and t.op == 'num':
            return a * int(t.args[0])
        if isinstance(a, list) and len(a) == 1:
            v = a[0]
            if is_scalar(v) or v is None or isinstance(v, tuple):
                return SList(npm.tmax(I, t, ZERO), lambda k: v, elty=ntype(v))
        raise Unsupported('list multiplication')
    raise Unsupported('list %s' % op)


def contains(I, c, x):
    if isinstance(c, (set, frozenset)):
        if not isinstance(x, SV) and not isinstance(x, tuple):
            return x in c
        c = sorted(c, key=repr)
    if isinstance(c, CSet):
        c = c.items
    if isinstance(c, (list, tuple)):
        r = FALSE
        for y in c:
            r = disj(r, val_eq(I, x, y))
        return r
    if isinstance(c, dict):
        kk = dkey(I, x)
        if not has_terms(kk) and not any(has_terms(k) for k in c):
            return kk in c
        return disj(*[key_eq(I, k, kk) for k in c])
    if isinstance(c, SSet):
        return c.mem(term(x))
    if isinstance(c, LazySet):
        return contains(I, c.src, x)
    if isinstance(c, Iter):
        k = fresh('k', 'I')
        rg = getattr(c, 'rng', None)
        if rg is not None:
            lo, hi, st = rg
            if st == 1:
                return conj(le(lo, term(x)), lt(term(x), hi))
        return exists(k, conj(le(ZERO, k), lt(k, c.length), eq(term(c.get(k)), term(x))))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, (SList, Arr)):
        if isinstance(c, SList) and getattr(c, 'facts', None) and c.facts.get('index'):
            # injective list with an inverse
            return c.facts['index'][0](term(x))
        if getattr(c, 'memfn', None) is not None:
            return c.memfn(term(x))
        mem, _ = npm.mem_of(I, c)
        return mem(term(x))
    if isinstance(c, Inst):
        raise Unsupported('in instance')
    if isinstance(c, GraphV):
        return contains(I, c.nodes, x)
    raise Unsupported('in %r' % (c,))


def to_index(I, o_len, i):
    """normalise a possibly negative python index; raises IndexError"""
    t = term(i)
    if t.sort == 'B':
        t = ivr(t)
    if t.op == 'num' and t.args[0] < 0:
        t = add(o_len, t)
    elif t.op != 'num' and not I.ctx.entails(le(ZERO, t)):
        if I.decide(lt(t, ZERO)):
            t = add(o_len, t)
    ok = conj(le(ZERO, t), lt(t, o_len))
    if not I.ctx.entails(ok):
        if not I.decide(ok):
            raise PyRaise(ExcV('IndexError'))
    return t


def getitem(I, o, i):
    ip = _ip()
    if isinstance(o, (list, tuple, str)):
        if isinstance(i, ip.SliceV):
            lo, hi, st = (conc(I, x) for x in (i.lo, i.hi, i.step))
            r = o[slice(lo, hi, st)]
            return ip.PList(r) if isinstance(o, list) else r
        if isinstance(o, str) and not isinstance(i, int):
            raise Unsupported('string index')
        if isinstance(i, (int, bool)) or (isinstance(i, SV) and I.ctx.norm(i.t).op == 'num'):
            k = int(i) if not isinstance(i, SV) else int(I.ctx.norm(i.t).args[0])
            try:
                return o[k]
            except IndexError:
                raise PyRaise(ExcV('IndexError'))
        if isinstance(i, SV) and i.ty in INT_T + ('bool', 'npbool'):
            t = to_index(I, num(len(o)), i)
            return I.index_concrete(list(o), t)
        if isinstance(i, Arr) and i.shape == ():
            return getitem(I, o, SV(i.get(), 'npint'))
        raise PyRaise(ExcV('TypeError', ('indices',)))
    if isinstance(o, dict):
        x = dict_find(I, o, i)
        if x is None:
            if getattr(o, 'default', None) is not None:
                v = I.call(o.default, [])
                dict_set(I, o, i, v)
                return v
            raise PyRaise(ExcV('KeyError'))
        return dict.__getitem__(o, x)
    if isinstance(o, SList):
        if isinstance(i, ip.SliceV):
            st = conc(I, i.step)
            if st not in (None, 1, -1):
                raise Unsupported('list slice step')
            if st == -1 and i.lo is None and i.hi is None:
                n = o.length
                g = o.get
                s = SList(n, lambda k: g(sub(sub(n, ONE), k)), elty=o.elty)
                s.memfn = o.memfn
                return s
            lo, ln = npm.slice_bounds(I, i, o.length)[:2]
            g = o.get
            return SList(ln, lambda k: g(add(lo, k)), elty=o.elty)
        t = to_index(I, o.length, i)
        return o.get(t)
    if isinstance(o, Iter):
        t = to_index(I, o.length, i)
        return o.get(t)
    if isinstance(o, Opaque):
        return Opaque('item of ' + o.what)
    if isinstance(o, StackV):
        return o
    if isinstance(o, GraphV):
        raise Unsupported('graph item')
    if isinstance(o, TypeV) or isinstance(o, ModV):
        return Opaque('generic alias')
    raise Unsupported('getitem on %r' % (o,))


def conc(I, v):
    if v is None or isinstance(v, int):
        return v
    if isinstance(v, SV):
        t = I.ctx.norm(v.t)
        if t.op == 'num':
            return int(t.args[0])
        # small concrete lists: fork
    raise Unsupported('symbolic slice of a concrete list')


def setitem(I, o, i, v):
    ip = _ip()
    if isinstance(o, list):
        I.mutating(o)
        if isinstance(i, ip.SliceV):
            raise Unsupported('slice assignment')
        if isinstance(i, SV):
            t = I.ctx.norm(to_index(I, num(len(o)), i))
            if t.op != 'num':
                for j in range(len(o)):
                    o[j] = merge2(I, eq(t, num(j)), v, o[j])
                return
            i = int(t.args[0])
        try:
            o[i] = v
        except IndexError:
            raise PyRaise(ExcV('IndexError'))
        return
    if isinstance(o, dict):
        I.mutating(o)
        dict_set(I, o, i, v)
        return
    if isinstance(o, SList):
        I.mutating(o)
        t = to_index(I, o.length, i)
        g = o.get
        o.get = lambda k: merge2(I, eq(k, t), v, g(k)) if not I.ctx.entails(ne(k, t)) else g(k)
        o.memfn = o.wit = None
        o.facts = {}
        return
    raise Unsupported('setitem on %r' % (o,))


# ------------------------------------------------------------ attributes

def attr(I, o, name):
    if isinstance(o, Arr):
        return npm.attr(I, o, name)
    if isinstance(o, npm.Flags):
        return Opaque('flag')
    B = Builtin
    if isinstance(o, RngV):
        return o.attr(I, name)
    if isinstance(o, GraphV):
        return o.attr(I, name)
    if isinstance(o, EdgeView):
        raise Unsupported('edge view attr')
    if isinstance(o, DistV):
        return o.attr(I, name)
    if isinstance(o, list):
        return list_attr(I, o, name)
    if isinstance(o, tuple):
        if name == 'index':
            return B('index', lambda I, a, k: list_index(I, o, a[0]))
        if name == 'count':
            raise Unsupported('count')
    if isinstance(o, dict):
        return dict_attr(I, o, name)
    if isinstance(o, (set, frozenset)):
        return set_attr(I, o, name)
    if isinstance(o, CSet):
        return cset_attr(I, o, name)
    if isinstance(o, SList):
        return slist_attr(I, o, name)
    if isinstance(o, SV) and o.ty == 'str' or isinstance(o, str):
        return str_attr(I, o, name)
    if isinstance(o, (SV, int, float)) and not isinstance(o, bool):
        return num_attr(I, o, name)
    if isinstance(o, FuncV):
        if name == '__name__':
            return o.name
        if name == '__class__':
            return TypeV('function')
    if isinstance(o, TypeV):
        return type_attr(I, o, name)
    if isinstance(o, ExcV):
        if name == 'args':
            return tuple(o.args)
        return Opaque('exception attribute')
    if isinstance(o, Opaque):
        if o.what.startswith('module'):
            raise Unsupported(o.what)
        return Opaque(o.what + '.' + name)
    if isinstance(o, LazySet):
        raise Unsupported('lazy set attribute')
    if isinstance(o, SSet):
        if name == 'union':
            return B('union', lambda I, a, k: set_binop(I, 'BitOr', o, a[0]))
    if o is None:
        raise PyRaise(ExcV('AttributeError', (name,)))
    if isinstance(o, Bound):
        if name == '__name__':
            return o.fn.name
    if isinstance(o, Builtin):
        if o.name == 'chain' and name == 'from_iterable':
            return B('from_iterable', lambda I, a, k: chain_from(I, a[0]))
        if name == 'outer':
            return B('outer', lambda I, a, k: outer_ufunc(I, o.name, a[0], a[1]))
        if name == '__name__':
            return o.name
    raise Unsupported('attribute %s of %s' % (name, type(o).__name__))


def outer_ufunc(I, name, a, b):
    A, Bv = npm.asarr(I, a), npm.asarr(I, b)
    if len(A.shape) == 1 and len(Bv.shape) == 1:
        a2 = npm.getitem(I, A, (_ip().SliceV(None, None, None), None))
        return NP[name](I, a2, Bv)
    raise Unsupported('ufunc.outer')


def inst_attr(I, o, name):
    if name == '__eq__':
        return None
    return None


def num_attr(I, o, name):
    B = Builtin
    if name == 'item':
        return B('item', lambda I, a, k: npm.pyitem(I, o))
    if name == 'real':
        return o
    if name == 'imag':
        return 0.0
    if name == 'shape':
        return ()
    if name == 'ndim':
        return 0
    if name == 'size':
        return 1
    if name == 'dtype':
        return TypeV({'float': 'np.float64', 'npfloat': 'np.float64', 'int': 'np.int64', 'npint': 'np.int64',
                      'npbool': 'np.bool_', 'bool': 'np.bool_'}[ntype(o)])
    if name == 'astype':
        return B('astype', lambda I, a, k: cast_scalar(I, o, a[0]))
    if name == 'is_integer':
        return B('is_integer', lambda I, a, k: is_integer_term(o))
    if name in ('sum', 'max', 'min', 'copy', 'flatten', 'tolist', 'all', 'any') and ntype(o).startswith('np'):
        return B(name, lambda I, a, k: o)
    raise PyRaise(ExcV('AttributeError', (name,)))


def is_integer_term(o):
    t = term(o)
    if t.op == 'num':
        return t.args[0].denominator == 1
    return True if t.sort == 'I' else mkval(app('is_int', [t], 'B'), 'bool')


def cast_scalar(I, o, ty):
    n = ty.name if isinstance(ty, TypeV) else str(ty)
    if 'float' in n:
        return SV(num01(term(o)), 'npfloat')
    if 'int' in n:
        return call_type(I, 'int', [o], {})
    if 'bool' in n:
        return SV(lift_truth(I, I.truth(o)), 'npbool')
    raise Unsupported('astype')


def type_attr(I, o, name):
    if name == '__name__':
        return o.name.split('.')[-1]
    if o.name == 'dict' and name == 'fromkeys':
        raise Unsupported('fromkeys')
    if o.name == 'np.ndarray' and name == 'tolist':
        raise Unsupported('ndarray.tolist')
    raise Unsupported('type attribute %s.%s' % (o.name, name))


def list_index(I, o, x):
    conds = [val_eq(I, x, y) for y in o]
    for j, c in enumerate(conds):
        if c is TRUE:
            if all(cc is FALSE for cc in conds[:j]):
                return j
    for j, c in enumerate(conds):
        if I.decide(c):
            return j
    raise PyRaise(ExcV('ValueError', ('not in list',)))


def list_attr(I, o, name):
    B = Builtin
    ip = _ip()
    if name == 'append':
        def f(I, a, k):
            I.mutating(o)
            o.append(a[0])
        return B(name, f)
    if name == 'extend':
        def f(I, a, k):
            I.mutating(o)
            c = I.concrete_items(a[0])
            if c is None:
                raise Unsupported('extend by a symbolic list')
            o.extend(c)
        return B(name, f)
    if name == 'insert':
        def f(I, a, k):
            I.mutating(o)
            o.insert(conc(I, a[0]), a[1])
        return B(name, f)
    if name == 'pop':
        def f(I, a, k):
            I.mutating(o)
            if not o:
                raise PyRaise(ExcV('IndexError'))
            return o.pop(conc(I, a[0]) if a else -1)
        return B(name, f)
    if name == 'remove':
        def f(I, a, k):
            I.mutating(o)
            del o[list_index(I, o, a[0])]
        return B(name, f)
    if name == 'index':
        return B(name, lambda I, a, k: list_index(I, o, a[0]))
    if name == 'copy':
        return B(name, lambda I, a, k: ip.PList(o))
    if name == 'count':
        def f(I, a, k):
            r = ZERO
            for y in o:
                r = add(r, ivr(val_eq(I, a[0], y)))
            return mkval(r, 'int')
        return B(name, f)
    if name == 'sort':
        def f(I, a, k):
            I.mutating(o)
            r = py_sorted(I, o, k.get('key'), k.get('reverse', False))
            o[:] = list(r)
        return B(name, f)
    if name == 'reverse':
        def f(I, a, k):
            I.mutating(o)
            o.reverse()
        return B(name, f)
    if name == '__getitem__':
        return B(name, lambda I, a, k: I.getitem(o, a[0]))
    if name == '__len__':
        return B(name, lambda I, a, k: len(o))
    if name == '__class__':
        return TypeV('list')
    if name in ('dtype', 'shape', 'ndim', 'todense', '__module__'):
        raise PyRaise(ExcV('AttributeError', (name,)))
    raise Unsupported('list.%s' % name)


def slist_attr(I, o, name):
    B = Builtin
    if name == 'index':
        def f(I, a, k):
            x = term(a[0])
            if o.facts.get('index'):
                mem, ix = o.facts['index']
                if not I.decide(mem(x)):
                    raise PyRaise(ExcV('ValueError', ('not in list',)))
                return mkval(ix(x), 'int')
            n = o.length
            g = o.get
            t = fresh('t', 'I')
            if not I.decide(exists(t, conj(le(ZERO, t), lt(t, n), eq(term(g(t)), x)))):
                raise PyRaise(ExcV('ValueError', ('not in list',)))
            r = I.fresh('idx', 'I')
            I.assume(conj(le(ZERO, r), lt(r, n), eq(term(g(r)), x)))
            t2 = fresh('t', 'I')
            I.assume(forall(t2, implies(conj(le(ZERO, t2), lt(t2, r)), ne(term(g(t2)), x))))
            return mkval(r, 'int')
        return B(name, f)
    if name == 'copy':
        def f(I, a, k):
            s = SList(o.length, o.get, None, o.elty)
            s.memfn, s.wit, s.facts = o.memfn, o.wit, dict(o.facts)
            if hasattr(o, 'enum'):
                s.enum = o.enum
            return s
        return B(name, f)
    if name == 'append':
        def f(I, a, k):
            I.mutating(o)
            n, g, v = o.length, o.get, a[0]

            def get(t):
                if I.ctx.entails(lt(t, n)):
                    return g(t)
                if I.ctx.entails(eq(t, n)):
                    return v
                return merge2(I, eq(t, n), v, g(t))
            o.get = get
            o.length = add(n, ONE)
            o.memfn = o.wit = None
            o.facts = {}
        return B(name, f)
    if name == '__getitem__':
        return B(name, lambda I, a, k: I.getitem(o, a[0]))
    if name == '__class__':
        return TypeV('list')
    if name in ('dtype', 'shape', 'ndim', 'todense', '__module__'):
        raise PyRaise(ExcV('AttributeError', (name,)))
    raise Unsupported('list.%s on a symbolic list' % name)


def dict_attr(I, o, name):
    B = Builtin
    ip = _ip()
    if name == 'keys':
        return B(name, lambda I, a, k: [unkey(x) for x in o.keys()])
    if name == 'values':
        return B(name, lambda I, a, k: list(o.values()))
    if name == 'items':
        return B(name, lambda I, a, k: [(unkey(x), y) for x, y in o.items()])
    if name == 'get':
        def f(I, a, k):
            x = dict_find(I, o, a[0])
            return o[x] if x is not None else (a[1] if len(a) > 1 else None)
        return B(name, f)
    if name == 'pop':
        def f(I, a, k):
            I.mutating(o)
            x = dict_find(I, o, a[0])
            if x is None:
                if len(a) > 1:
                    return a[1]
                raise PyRaise(ExcV('KeyError'))
            return o.pop(x)
        return B(name, f)
    if name == 'copy':
        return B(name, lambda I, a, k: ip.PDict(o))
    if name == 'setdefault':
        def f(I, a, k):
            x = dict_find(I, o, a[0])
            if x is None:
                dict_set(I, o, a[0], a[1])
                return a[1]
            return o[x]
        return B(name, f)
    if name == 'update':
        def f(I, a, k):
            I.mutating(o)
            for x, y in a[0].items():
                dict_set(I, o, unkey(x), y)
        return B(name, f)
    if name == 'clear':
        def f(I, a, k):
            I.mutating(o)
            o.clear()
        return B(name, f)
    if name in ('dtype', 'shape', 'ndim', '__module__'):
        raise PyRaise(ExcV('AttributeError', (name,)))
    raise Unsupported('dict.%s' % name)


def set_attr(I, o, name):
    B = Builtin
    if name == 'add':
        def f(I, a, k):
            if isinstance(a[0], SV):
                raise Unsupported('set.add of a symbolic value to a concrete set')
            o.add(a[0])
        return B(name, f)
    if name == 'union':
        return B(name, lambda I, a, k: o.union(*[set(I.concrete_items(x)) for x in a]))
    if name in ('difference', 'intersection', 'symmetric_difference'):
        return B(name, lambda I, a, k: getattr(o, name)(*[set(I.concrete_items(x)) for x in a]))
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        return B(name, lambda I, a, k: getattr(o, name)(set(I.concrete_items(a[0]))))
    if name == 'update':
        return B(name, lambda I, a, k: o.update(I.concrete_items(a[0])))
    if name in ('remove', 'discard'):
        return B(name, lambda I, a, k: o.discard(a[0]))
    if name == 'pop':
        return B(name, lambda I, a, k: o.pop())
    if name == 'copy':
        return B(name, lambda I, a, k: set(o))
    raise Unsupported('set.%s' % name)


def cset_attr(I, o, name):
    B = Builtin
    if name == 'add':
        return B(name, lambda I, a, k: set_add(I, o, a[0]))
    if name == 'pop' and len(o.items) == 1:
        return B(name, lambda I, a, k: o.items.pop())
    raise Unsupported('symbolic set.%s' % name)


def str_attr(I, o, name):
    B = Builtin
    if name == 'strip':
        def f(I, a, k):
            if isinstance(o, str):
                return o.strip(*a)
            return SV(app('str_strip', [o.t], 'U'), 'str')
        return B(name, f)
    if name in ('upper', 'lower', 'startswith', 'endswith', 'split', 'replace', 'format', 'rstrip', 'lstrip', 'join', 'count', 'title',
                'find', 'zfill', 'isdigit', 'rjust', 'ljust', 'capitalize', 'splitlines'):
        def f(I, a, k):
            if name == 'join':
                c = I.concrete_items(a[0])
                if c is not None and all(isinstance(x, str) for x in c) and isinstance(o, str):
                    return o.join(c)
                return Opaque('str')
            if isinstance(o, str) and all(isinstance(x, (str, int, tuple)) for x in a):
                r = getattr(o, name)(*a, **k)
                return _ip().PList(r) if isinstance(r, list) else r
            if name == 'replace':
                return Opaque('str')
            raise Unsupported('str.%s on a symbolic string' % name)
        return B(name, f)
    if name == 'index':
        return B(name, lambda I, a, k: o.index(a[0]))
    if name == 'encode':
        return B(name, lambda I, a, k: Opaque('bytes'))
    if name in ('dtype', 'shape', 'ndim', '__module__', 'items', 'keys'):
        raise PyRaise(ExcV('AttributeError', (name,)))
    raise Unsupported('str.%s' % name)


# ------------------------------------------------------------ types and builtins

TYPES = ('int', 'float', 'str', 'bool', 'list', 'tuple', 'dict', 'set', 'frozenset', 'complex', 'object', 'bytes', 'type', 'property')


def type_names(I, v):
    if isinstance(v, (SV, bool, int, float, str)):
        ty = ntype(v)
        return {'int': {'int'}, 'float': {'float'}, 'bool': {'bool', 'int'}, 'str': {'str'},
                'npint': {'np.integer', 'np.number', 'np.int64', 'np.generic'},
                'npfloat': {'np.floating', 'np.number', 'np.float64', 'float', 'np.generic'},
                'npbool': {'np.bool_', 'np.generic'}}[ty] | {'object'}
    if isinstance(v, Arr):
        return {'np.ndarray', 'object'}
    if isinstance(v, (list, SList)):
        return {'list', 'object'}
    if isinstance(v, tuple):
        return {'tuple', 'object'}
    if isinstance(v, dict):
        return {'dict', 'object'}
    if isinstance(v, (set, CSet, SSet, LazySet)):
        return {'set', 'object'}
    if isinstance(v, frozenset):
        return {'frozenset', 'object'}
    if isinstance(v, GraphV):
        return {'nx.MultiDiGraph', 'nx.DiGraph'} if v.multi else {'nx.DiGraph'}
    if v is None:
        return {'NoneType', 'object'}
    if isinstance(v, ExcV):
        return {v.tname, 'Exception'}
    if isinstance(v, (FuncV, Builtin, Bound)):
        return {'function', 'object'}
    if isinstance(v, (Iter, Opaque, RngV, ModV, TypeV)):
        return {'object'}
    return {'object'}


def isinstance_(I, v, t):
    if isinstance(t, tuple):
        return any(isinstance_(I, v, x) for x in t)
    if isinstance(t, ClassV):
        return isinstance(v, Inst) and subclass(v.cls, t)
    if isinstance(t, TypeV):
        if isinstance(v, Opaque):
            if v.what == 'str':
                return t.name == 'str'
            raise Unsupported('isinstance of an opaque value')
        return t.name in type_names(I, v)
    if isinstance(t, _ip().ExcType):
        return isinstance(v, ExcV)
    if isinstance(t, Opaque):
        raise Unsupported('isinstance with %r' % t)
    raise Unsupported('isinstance')


def subclass(c, t):
    if c is t:
        return True
    return any(isinstance(b, ClassV) and subclass(b, t) for b in c.bases)


def length(I, v):
    if isinstance(v, (list, tuple, dict, set, frozenset, str)):
        return len(v)
    if isinstance(v, CSet):
        return len(v.items)
    if isinstance(v, (SList, Iter)):
        return mkval(I.ctx.norm(v.length), 'int')
    if isinstance(v, Arr):
        if not v.shape:
            raise PyRaise(ExcV('TypeError', ('len',)))
        return mkval(I.ctx.norm(v.shape[0]), 'int')
    if isinstance(v, LazySet):
        return lazyset_len(I, v)
    if isinstance(v, SV) and v.ty == 'str':
        t = v.t
        I.uses('len of a string is non-negative; 0 iff empty')
        l = app('str_len', [t], 'I')
        I.assume(le(ZERO, l))
        I.assume(implies(eq(l, ZERO), eq(t, strlit(''))))
        return SV(l, 'int')
    if isinstance(v, GraphV):
        return length(I, v.nodes)
    if isinstance(v, SSet):
        raise Unsupported('len of a symbolic set')
    if isinstance(v, Opaque):
        raise Unsupported('len of opaque')
    raise PyRaise(ExcV('TypeError', ('object has no len()',)))


def call_type(I, name, args, kw):
    ip = _ip()
    if name == 'int':
        if not args:
            return 0
        v = args[0]
        if isinstance(v, Arr):
            v = npm.scal(v.get(*[ZERO] * len(v.shape)), v.dt)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise PyRaise(ExcV('ValueError'))
        ty = ntype(v)
        t = term(v)
        if ty in INT_T:
            return mkval(t, 'int')
        if ty in ('bool', 'npbool'):
            return mkval(ivr(t), 'int')
        if ty in FLT_T:
            if t.op == 'num':
                return int(t.args[0])
            if t.sort == 'I':
                return mkval(t, 'int')
            r = I.fresh('trunc', 'I')
            I.assume(disj(conj(le(ZERO, t), le(r, t), lt(t, add(r, ONE))),
                          conj(lt(t, ZERO), le(t, r), lt(sub(r, ONE), t))))
            return SV(r, 'int')
        raise Unsupported('int()')
    if name == 'float':
        if not args:
            return 0.0
        v = args[0]
        if isinstance(v, Arr):
            v = npm.scal(v.get(*[ZERO] * len(v.shape)), v.dt)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                raise PyRaise(ExcV('ValueError'))
        if not is_scalar(v) or ntype(v) == 'str':
            if isinstance(v, SV):
                raise Unsupported('float of a symbolic string')
            raise PyRaise(ExcV('TypeError'))
        if not isinstance(v, SV):
            return float(v)
        return I.fl(num01(v.t), 'float')
    if name == 'bool':
        return mkval(lift_truth(I, I.truth(args[0])), 'bool') if args else False
    if name == 'str':
        if not args:
            return ''
        v = args[0]
        if isinstance(v, (int, str)) and not isinstance(v, bool):
            return str(v)
        if isinstance(v, SV) and v.ty == 'str':
            return v
        if isinstance(v, SV) and v.ty in INT_T:
            return SV(app('~fmt_d[|]', [v.t], 'U'), 'str')
        return Opaque('str')
    if name in ('list', 'tuple'):
        if not args:
            return ip.PList() if name == 'list' else ()
        v = args[0]
        if isinstance(v, EdgeView):
            v = v.items(I)
        c = I.concrete_items(v)
        if c is not None:
            return ip.PList(c) if name == 'list' else tuple(c)
        if isinstance(v, (SList, Arr)) and (isinstance(v, SList) or len(v.shape) == 1):
            if isinstance(v, SList):
                s = SList(v.length, v.get, None, v.elty)
                s.facts = dict(v.facts)
            else:
                it = I.iterate(v)
                s = SList(it.length, it.get)
            s.memfn, s.wit = getattr(v, 'memfn', None), getattr(v, 'wit', None)
            if hasattr(v, 'enum'):
                s.enum = v.enum
            return s
        if isinstance(v, LazySet) and getattr(v.src, 'enum_list', False):
            return v.src
        if isinstance(v, (SSet, LazySet)):
            return sorted_set(I, v, ordered=False)
        it = I.iterate(v)
        s = SList(it.length, it.get)
        rg = getattr(v, 'rng', None)
        if rg is not None and rg[2] == 1:
            lo, hi, _ = rg
            s.memfn = lambda x: conj(le(lo, x), lt(x, hi))
            s.wit = lambda x: sub(x, lo)
            s.elty = 'int'
            if lo is ZERO:
                s.enum = (hi, lambda x: TRUE)
        return s
    if name in ('set', 'frozenset'):
        if not args:
            return set()
        return to_set(I, args[0])
    if name == 'dict':
        d = ip.PDict()
        if args:
            if isinstance(args[0], dict):
                d.update(args[0])
            else:
                for x in I.concrete_items(args[0]):
                    a, b = I.unpack(x, 2)
                    dict_set(I, d, a, b)
        d.update(kw)
        return d
    if name.startswith('np.float'):
        return SV(num01(term(args[0])), 'npfloat')
    if name.startswith('np.int'):
        return SV(term(call_type(I, 'int', args, kw)), 'npint')
    if name == 'type':
        return type_of(I, args[0])
    if name == 'object':
        return Opaque('object')
    if name == 'nx.DiGraph':
        return digraph_new(I, args, kw)
    raise Unsupported('call of type %s' % name)


def type_of(I, v):
    if isinstance(v, Inst):
        return v.cls
    ty = ntype(v)
    if ty:
        return TypeV({'npfloat': 'np.float64', 'npint': 'np.int64', 'npbool': 'np.bool_'}.get(ty, ty))
    for k, c in (('list', (list, SList)), ('tuple', tuple), ('dict', dict)):
        if isinstance(v, c):
            return TypeV(k)
    raise Unsupported('type()')


def py_sorted(I, v, key=None, reverse=False):
    ip = _ip()
    c = I.concrete_items(v) if not isinstance(v, (LazySet, SSet, CSet)) else (list(v.items) if isinstance(v, CSet) else None)
    if isinstance(v, dict):
        c = [unkey(k) for k in v]
    if c is not None:
        if len(c) <= 1:
            return ip.PList(c)
        ks = [I.call(key, [x]) for x in c] if key is not None else list(c)
        if all(conc_key(k) for k in ks):
            idx = sorted(range(len(c)), key=lambda j: ks[j], reverse=bool(reverse))
            return ip.PList(c[j] for j in idx)
        if len(c) > 6:
            raise Unsupported('sort of many symbolic keys')
        # insertion sort by forking
        out = []
        for x, k in zip(c, ks):
            j = len(out)
            while j > 0:
                less = I.compare('Lt', k, out[j - 1][1]) if not reverse else I.compare('Lt', out[j - 1][1], k)
                if I.decide(I.truth(less)):
                    j -= 1
                else:
                    break
            out.insert(j, (x, k))
        return ip.PList(x for x, _ in out)
    if key is not None or reverse:
        raise Unsupported('sort of a symbolic list with a key')
    return sorted_set(I, v, ordered=True)


def conc_key(k):
    if isinstance(k, tuple):
        return all(conc_key(x) for x in k)
    return not isinstance(k, (SV, Arr, Opaque)) and k is not None


def sorted_set(I, v, ordered):
    """sorted list of the distinct elements of v (ints) / of an injective list"""
    src = v.src if isinstance(v, LazySet) else v
    en = getattr(src, 'enum', None)
    if en is not None:
        return src if isinstance(src, SList) else SList(src.shape[0], lambda k: SV(src.get(k), 'int'))
    if isinstance(v, (SSet, LazySet)):
        pred = as_pred(I, v)
        ub = npm.ub_of(I, v) if not isinstance(v, SSet) else v.hi
        if ub is None:
            raise Unsupported('enumeration of an unbounded set')
        a = npm.enumerate_pred(I, ub, pred)
    else:
        # sorted(list): permutation contract on an injective int list
        mem, wit = npm.mem_of(I, src)
        n = src.length if isinstance(src, SList) else src.shape[0]
        ub = npm.ub_of(I, src)
        if ub is None:
            raise Unsupported('sorted of an unbounded list')
        i, j = fresh('i', 'I'), fresh('j', 'I')
        get = scalar_list_fn(I, src)[1]
        inj = forall((i, j), implies(conj(le(ZERO, i), lt(i, j), lt(j, n)), ne(get(i), get(j))))
        if not prove(I.ctx, inj):
            raise Unsupported('sorted of a list not known to be duplicate-free')
        a = npm.enumerate_pred(I, ub, mem)
        I.assume(eq(a.shape[0], n))
    s = SList(a.shape[0], lambda k: SV(a.get(k), 'int'), elty='int')
    s.memfn, s.wit = a.memfn, getattr(a, 'wit', None)
    s.enum = a.enum
    return s


def py_range(I, args):
    ts = [term(a) for a in args]
    for a in args:
        if ntype(a) in FLT_T:
            raise PyRaise(ExcV('TypeError', ('range',)))
    if len(ts) == 1:
        lo, hi, st = ZERO, ts[0], ONE
    elif len(ts) == 2:
        lo, hi, st = ts[0], ts[1], ONE
    else:
        lo, hi, st = ts
    lo, hi, st = (I.ctx.norm(x) for x in (lo, hi, st))
    if st.op != 'num':
        raise Unsupported('range with a symbolic step')
    s = int(st.args[0])
    if s == 0:
        raise PyRaise(ExcV('ValueError'))
    if lo.op == 'num' and hi.op == 'num':
        xs = list(range(int(lo.args[0]), int(hi.args[0]), s))
        r = Iter(num(len(xs)), lambda k: (xs[int(k.args[0])] if k.op == 'num' else mkval(add(lo, mul(st, k)), 'int')), 'range')
    elif abs(s) == 1:
        d = sub(hi, lo) if s == 1 else sub(lo, hi)
        n = d if I.ctx.entails(le(ZERO, d)) else (ZERO if I.ctx.entails(le(d, ZERO)) else npm.tmax(I, d, ZERO))
        r = Iter(n, lambda k: mkval(add(lo, k) if s == 1 else sub(lo, k), 'int'), 'range')
    else:
        raise Unsupported('range with step %d' % s)
    r.rng = (lo, hi, s)
    return r


def py_zip(I, args):
    ip = _ip()
    if len(args) == 1 and isinstance(args[0], ip.StarArg):
        it = I.iterate(args[0].v)
        # zip(*pairs) for a list of tuples of fixed arity
        k = fresh('k', 'I')
        e = it.get(k)
        if not isinstance(e, tuple):
            raise Unsupported('zip(*) of non tuples')
        return [SList(it.length, (lambda t, j=j: it.get(t)[j])) for j in range(len(e))]
    its = [I.iterate(a) for a in args]
    n = its[0].length
    for x in its[1:]:
        n = npm.tmin(I, n, x.length)
    return Iter(n, lambda k: tuple(x.get(k) for x in its), 'zip')


def py_enumerate(I, args, kw):
    it = I.iterate(args[0])
    st = term(args[1] if len(args) > 1 else kw.get('start', 0))
    return Iter(it.length, lambda k: (mkval(add(st, k), 'int'), it.get(k)), 'enumerate')


def chain_from(I, v):
    c = I.concrete_items(v)
    if c is None:
        raise Unsupported('chain of a symbolic list of lists')
    return chain(I, c)


def chain(I, xs):
    ip = _ip()
    r = ip.PList()
    for x in xs:
        if isinstance(x, list) and isinstance(r, list):
            r = ip.PList(list(r) + list(x))
        else:
            cc = I.concrete_items(x)
            if cc is not None and isinstance(r, list):
                r = ip.PList(list(r) + cc)
            else:
                r = list_binop(I, 'Add', r, x if isinstance(x, (SList, list)) else SList(I.iterate(x).length, I.iterate(x).get)) \
                    if len_nonzero(r) else x
    return r


def len_nonzero(r):
    return not (isinstance(r, list) and len(r) == 0)


def py_minmax(I, args, kw, kind):
    if len(args) == 1:
        v = args[0]
        c = I.concrete_items(v)
        if c is None:
            if isinstance(v, (CSet,)):
                c = v.items
            else:
                n, f = scalar_list_fn(I, v)
                if 'default' in kw:
                    raise Unsupported('min/max default')
                if I.decide(le(n, ZERO)):
                    raise PyRaise(ExcV('ValueError'))
                return mkval(npm.extremum(I, f, n, kind)[0], 'float')
        if not c:
            if 'default' in kw:
                return kw['default']
            raise PyRaise(ExcV('ValueError', ('empty',)))
    else:
        c = args
    if kw.get('key') is not None:
        raise Unsupported('min/max with key')
    if all(isinstance(x, (int, float, bool)) for x in c):
        return max(c) if kind == 'max' else min(c)
    r = c[0]
    for x in c[1:]:
        # python keeps the first of equal elements
        better = lt_s(num01(term(r)), num01(term(x))) if kind == 'max' else lt_s(num01(term(x)), num01(term(r)))
        r = merge2(I, better, x, r)
    return r


def py_sum(I, v, start=0):
    if isinstance(v, Arr):
        if len(v.shape) == 1:
            s = NP['sum'](I, v)
            return s
        raise Unsupported('sum of a 2d array')
    if isinstance(v, LazyGen):
        r = comprehension_sum(I, v)
        if r is not None:
            return r
    if isinstance(v, LazyGen):
        v = comprehension(I, v.node, v.env, 'list')
    c = I.concrete_items(v)
    if c is not None:
        r = start
        for x in c:
            r = I.binop('Add', r, x)
        return r
    it = I.iterate(v)
    k = fresh('k', 'I')
    e = it.get(k)
    if not is_scalar(e):
        raise Unsupported('sum of non scalars')
    t = ssum(k, ZERO, it.length, num01(term(e)))
    return mkval(add(t, term(start)), ntype(e))


def comprehension_sum(I, v):
    """sum(expr for x in xs if cond) over a symbolic range"""
    g = v.node.generators
    if len(g) != 1:
        return None
    env = Env(v.env, v.env.module, v.env.func)
    itv = I.eval(g[0].iter, env)
    if I.concrete_items(itv) is not None:
        return None
    it = I.iterate(itv)
    n = I.ctx.norm(it.length)
    k = fresh('k', 'I')
    cond = TRUE
    if g[0].ifs:
        cond = term(sym_elem(I, k, n, g[0], it, env,
                             lambda ev: mkval(conj(*[truth_term(I, I.eval(x, ev)) for x in g[0].ifs]), 'bool')))
    val = sym_elem(I, k, n, g[0], it, env, lambda ev: I.eval(v.node.elt, ev), extra=(cond,) if cond is not TRUE else ())
    if not is_scalar(val):
        return None
    t = ssum(k, ZERO, n, mul(ivr(cond), num01(term(val))))
    return mkval(t, 'float' if ntype(val) in FLT_T else 'int')


def py_quant(I, v, kind):
    if isinstance(v, LazyGen):
        return mkval(quant_gen(I, v, kind), 'bool')
    if isinstance(v, Arr):
        if len(v.shape) == 1:
            return NP[kind](I, v)
        raise Unsupported('all/any of 2d array')
    c = I.concrete_items(v)
    if c is not None:
        r = TRUE if kind == 'all' else FALSE
        for x in c:
            t = truth_term(I, x)
            r = conj(r, t) if kind == 'all' else disj(r, t)
        return mkval(r, 'bool')
    it = I.iterate(v)
    k = fresh('k', 'I')
    t = truth_term(I, it.get(k))
    rng = conj(le(ZERO, k), lt(k, it.length))
    return mkval(forall(k, implies(rng, t)) if kind == 'all' else exists(k, conj(rng, t)), 'bool')


def py_map(I, f, xs):
    its = [I.iterate(x) for x in xs]
    c = I.concrete_items(xs[0]) if len(xs) == 1 else None
    if c is not None:
        return _ip().PList(I.call(f, [x]) for x in c)
    n = its[0].length
    k = fresh('k', 'I')
    res = subctx(I, k, n, lambda: I.call(f, [x.get(k) for x in its]))
    if any(o[0] == 'raise' for _, o in res):
        raise Unsupported('map with exceptions')
    val = merge_paths(I, [(c, o[1]) for c, o in res])
    return SList(n, lambda t: subst_value(val, {k: lift(t)}))


def py_abs(I, v):
    if isinstance(v, Arr):
        return NP['abs'](I, v)
    if not isinstance(v, SV):
        return abs(v)
    return mkval(npm.abs_t(I, v.t), v.ty)


def py_round(I, a, k):
    v = a[0]
    if not isinstance(v, SV) and not isinstance(v, Arr):
        return round(v, *a[1:])
    raise Unsupported('round')


def py_reversed(I, v):
    it = I.iterate(v)
    n = it.length
    return Iter(n, lambda k: it.get(sub(sub(n, ONE), k)), 'reversed')


def py_getattr(I, a):
    try:
        return I.getattr(a[0], a[1])
    except PyRaise as r:
        if len(a) > 2 and r.exc.tname == 'AttributeError':
            return a[2]
        raise


def py_hasattr(I, a):
    try:
        I.getattr(a[0], a[1])
        return True
    except PyRaise:
        return False


def py_hash(I, v):
    return SV(hash_term(I, v), 'int')


def hash_term(I, v):
    if isinstance(v, tuple):
        r = app('hash_tuple%d' % len(v), [hash_term(I, x) for x in v], 'I')
        return r
    if isinstance(v, npm.BytesV):
        return app('hash_bytes', [code(I, v.o.shape, v.o.fn)], 'I')
    if isinstance(v, SList):
        return app('hash_list', [code(I, (v.length,), lambda ix: term(v.get(ix[0])))], 'I')
    if is_scalar(v):
        t = term(v)
        return app('hash_' + t.sort, [t], 'I')
    raise Unsupported('hash of %s' % type(v).__name__)


def code(I, shape, f):
    """a number depending on the shape and on every cell with its position: equal for equal contents and, the cell codes being
    uninterpreted, provably equal only for equal contents"""
    vs = [fresh('c', 'I') for _ in shape]
    t = f(tuple(vs))
    c = app('hash_cell_' + t.sort, [*vs, t], 'R')
    for x, n in reversed(list(zip(vs, shape))):
        n = I.ctx.norm(n)
        c = addn([subst(c, {x: num(k)}) for k in range(int(n.args[0]))]) if n.op == 'num' else ssum(x, ZERO, n, c)
    return app('hash_code%d' % len(shape), [*shape, c], 'R')


def py_next(I, a):
    v = a[0]
    if isinstance(v, LazyGen):
        r = comprehension(I, v.node, v.env, 'list')
    else:
        r = v
    c = I.concrete_items(r)
    if c is not None:
        if c:
            return c[0]
        if len(a) > 1:
            return a[1]
        raise PyRaise(ExcV('StopIteration'))
    if I.decide(lt(ZERO, r.length)):
        return r.get(ZERO)
    if len(a) > 1:
        return a[1]
    raise PyRaise(ExcV('StopIteration'))


def divmod_(I, a):
    return (I.binop('FloorDiv', a[0], a[1]), I.binop('Mod', a[0], a[1]))


def builtin(I, name):
    B = Builtin
    if name in TYPES:
        return TypeV(name)
    if name in BUILTINS:
        return B(name, BUILTINS[name])
    if name in ('None', 'True', 'False'):
        return {'None': None, 'True': True, 'False': False}[name]
    if name in EXCS:
        return _ip().ExcType(name)
    raise Unsupported('builtin %s' % name)


EXCS = {'Exception', 'ValueError', 'TypeError', 'KeyError', 'IndexError', 'RuntimeError', 'NotImplementedError', 'OSError',
        'ZeroDivisionError', 'AttributeError', 'StopIteration', 'ArithmeticError', 'AssertionError', 'ImportError', 'LookupError',
        'OverflowError', 'FileNotFoundError', 'BaseException', 'KeyboardInterrupt', 'Warning'}

BUILTINS = {
    'len': lambda I, a, k: length(I, a[0]),
    'range': lambda I, a, k: py_range(I, a),
    'isinstance': lambda I, a, k: isinstance_(I, a[0], a[1]),
    'zip': lambda I, a, k: py_zip(I, a),
    'enumerate': lambda I, a, k: py_enumerate(I, a, k),
    'sorted': lambda I, a, k: py_sorted(I, a[0], k.get('key'), k.get('reverse', False)),
    'sum': lambda I, a, k: py_sum(I, a[0], *a[1:]),
    'min': lambda I, a, k: py_minmax(I, a, k, 'min'),
    'max': lambda I, a, k: py_minmax(I, a, k, 'max'),
    'any': lambda I, a, k: py_quant(I, a[0], 'any'),
    'all': lambda I, a, k: py_quant(I, a[0], 'all'),
    'abs': lambda I, a, k: py_abs(I, a[0]),
    'map': lambda I, a, k: py_map(I, a[0], a[1:]),
    'round': lambda I, a, k: py_round(I, a, k),
    'reversed': lambda I, a, k: py_reversed(I, a[0]),
    'getattr': lambda I, a, k: py_getattr(I, a),
    'hasattr': lambda I, a, k: py_hasattr(I, a),
    'callable': lambda I, a, k: isinstance(a[0], (FuncV, Builtin, Bound, ClassV, TypeV)),
    'hash': lambda I, a, k: py_hash(I, a[0]),
    'next': lambda I, a, k: py_next(I, a),
    'iter': lambda I, a, k: a[0],
    'divmod': lambda I, a, k: divmod_(I, a),
    'pow': lambda I, a, k: I.binop('Pow', a[0], a[1]),
    'id': lambda I, a, k: Opaque('id'),
    'repr': lambda I, a, k: Opaque('str'),
    'print': lambda I, a, k: None,
    'filter': lambda I, a, k: _unsup('filter'),
    'open': lambda I, a, k: _unsup('file access'),
    'dir': lambda I, a, k: _unsup('dir'),
    'setattr': lambda I, a, k: I.setattr(a[0], a[1], a[2]),
    'type': lambda I, a, k: type_of(I, a[0]),
    'super': lambda I, a, k: _unsup('super'),
    'slice': lambda I, a, k: _ip().SliceV(*( [None] + list(a) + [None] if len(a) == 1 else list(a) + [None] * (3 - len(a)))),
}


def _unsup(m):
    raise Unsupported(m)


# ------------------------------------------------------------ modules

NPTYPES = {'ndarray', 'integer', 'floating', 'number', 'float64', 'int64', 'bool_', 'generic', 'float32', 'int32', 'complexfloating'}


def np_builtin(name):
    def f(I, a, k):
        I.uses('numpy.%s' % name)
        return NP[name](I, *a, **k)
    return Builtin(name, f)


class StackV:
    """inspect.stack() as seen from the analysed callstack"""

    def __init__(self, names):
        self.names = names


def module_attr(I, mod, name):
    full = mod + '.' + name
    h = I.contracts.get('lib:' + full)
    if h is not None:
        return Builtin(full, h)
    if mod == 'numpy':
        if name in ('linalg', 'random'):
            return ModV('numpy.' + name)
        if name == 'newaxis':
            return None
        if name == 'inf':
            return float('inf')
        if name == 'nan':
            return float('nan')
        if name in ('pi', 'e'):
            return SV(var('const_' + name, 'R'), 'float')
        if name in NPTYPES:
            return TypeV('np.' + name)
        if name == 'math':
            return ModV('math')
        if name in NP:
            return np_builtin(name)
        raise Unsupported('numpy.%s' % name)
    if mod == 'numpy.linalg':
        if name == 'LinAlgError':
            return _ip().ExcType('LinAlgError')
        if name in NP:
            return np_builtin(name)
        raise Unsupported(full)
    if mod == 'scipy.optimize' and name in NP:
        return np_builtin(name)
    if mod == 'scipy.stats':
        raise Unsupported(full)
    if mod == 'networkx':
        if name in ('DiGraph', 'MultiDiGraph'):
            return TypeV('nx.' + name)
        if name in NX:
            def f(I, a, k):
                I.uses('networkx.' + name)
                return NX[name](I, *a, **k)
            return Builtin(name, f)
        raise Unsupported(full)
    if mod == 'pandas' and name in ('DataFrame', 'Series'):
        return TypeV('pd.' + name)
    if mod == 'scipy.sparse' and name == 'spmatrix':
        return TypeV('sp.spmatrix')
    if mod == 'pathlib' and name == 'Path':
        return TypeV('pathlib.Path')
    if mod == 'inspect':
        if name == 'stack':
            return Builtin('stack', lambda I, a, k: StackV([q for q, _ in I.callstack]))
        if name == 'trace':
            return Builtin('trace', lambda I, a, k: Opaque('trace'))
        if name == 'isclass':
            return Builtin('isclass', lambda I, a, k: isinstance(a[0], (ClassV, TypeV)))
        raise Unsupported(full)
    if mod == 'copy':
        if name in ('deepcopy', 'copy'):
            return Builtin(name, lambda I, a, k: deep_copy(I, a[0]))
    if mod == 'math':
        return math_attr(I, name)
    if mod == 'itertools':
        if name == 'chain':
            return Builtin('chain', lambda I, a, k: chain(I, a))
        if name == 'product':
            return Builtin('product', it_product)
        raise Unsupported(full)
    if mod in ('typing', 'abc', 'functools', 'threading', '__future__'):
        if name == 'ABC':
            return Opaque('ABC')
        return Opaque(full)
    if mod == 'numpy.random':
        if name == 'RandomState':
            return Builtin('RandomState', lambda I, a, k: RngV('seeded', (list(a) + list(k.values()) + [None])[0]))
        if name in ('seed', 'set_state', 'get_state') or hasattr(RngV, 'd_' + name) or name in DISTS:
            return global_random(full, name)
        return Opaque('numpy.random.' + name)
    if mod == 'numpy.random.mtrand':
        return RngV('global') if name == '_rand' else Opaque(full)
    if mod == 'random':
        return global_random(full, name)
    if mod == 'os.path' or mod == 'json' or mod == 'csv' or mod == 're':
        raise Unsupported(full)
    raise Unsupported('module attribute %s' % full)


def global_random(full, name):
    """functions of the random state shared by the whole process"""
    def f(I, a, k):
        I.draw_log.append(RngV('global'))
        if name in ('seed', 'set_state', 'get_state'):
            return None
        g = getattr(RngV('global'), 'd_' + name, None)
        if g is None:
            raise Unsupported(full)
        return g(I, *a, **k)
    return Builtin(full, f)


def deep_copy(I, v):
    ip = _ip()
    if isinstance(v, Arr):
        return NP['copy'](I, v)
    if isinstance(v, list):
        return ip.PList(deep_copy(I, x) for x in v)
    if isinstance(v, SList):
        s = SList(v.length, lambda k: deep_copy(I, v.get(k)) if not is_scalar(v.get(k)) else v.get(k), None, v.elty)
        s.memfn, s.wit, s.facts = v.memfn, v.wit, dict(v.facts)
        if hasattr(v, 'enum'):
            s.enum = v.enum
        return s
    if isinstance(v, dict):
        d = ip.PDict()
        for k, x in v.items():
            d[k] = deep_copy(I, x)
        return d
    if isinstance(v, tuple):
        return tuple(deep_copy(I, x) for x in v)
    if isinstance(v, GraphV):
        return v.copy()
    return v


def it_product(I, a, k):
    rep = k.get('repeat', 1)
    ls = []
    for _ in range(rep):
        for x in a:
            c = I.concrete_items(x) if not isinstance(x, CSet) else list(x.items)
            ls.append(c)
    if all(l is not None for l in ls):
        import itertools
        return _ip().PList(itertools.product(*ls))
    raise Unsupported('product of symbolic iterables')


def math_attr(I, name):
    B = Builtin
    if name in ('inf',):
        return float('inf')
    if name == 'nan':
        return float('nan')
    if name == 'gcd':
        def f(I, a, k):
            x, y = a
            if not isinstance(x, SV) and not isinstance(y, SV):
                return math.gcd(int(x), int(y))
            return SV(app('gcd', [term(x), term(y)], 'I'), 'int')
        return B('gcd', f)
    if name == 'isnan':
        return B('isnan', lambda I, a, k: mkval(is_nan(term(a[0])), 'bool'))
    if name == 'isinf':
        return B('isinf', lambda I, a, k: mkval(is_inf(term(a[0])), 'bool'))
    if name == 'isfinite':
        return B('isfinite', lambda I, a, k: mkval(is_finite(term(a[0])), 'bool'))
    if name in ('ceil', 'floor'):
        def f(I, a, k):
            t = term(a[0])
            if t.op == 'num':
                q = t.args[0]
                return math.ceil(q) if name == 'ceil' else math.floor(q)
            r = I.fresh(name, 'I')
            if name == 'floor':
                I.assume(conj(le(r, t), lt(t, add(r, ONE))))
            else:
                I.assume(conj(le(t, r), lt(sub(r, ONE), t)))
            return SV(r, 'int')
        return B(name, f)
    if name in ('log', 'exp', 'sqrt', 'log2', 'log10'):
        def f(I, a, k):
            if not isinstance(a[0], SV):
                return getattr(math, name)(*a)
            r = npm.math_fn(I, name, a[0])
            return SV(term(r), 'float')
        return B(name, f)
    if name == 'comb':
        def f(I, a, k):
            if not isinstance(a[0], SV) and not isinstance(a[1], SV):
                return math.comb(*a)
            return SV(app('comb', [term(a[0]), term(a[1])], 'I'), 'int')
        return B(name, f)
    if name == 'pi':
        return SV(var('const_pi', 'R'), 'float')
    raise Unsupported('math.%s' % name)


# ------------------------------------------------------------ random numbers

class RngV:
    """numpy RandomState: every draw is an arbitrary value allowed by its contract"""

    def __init__(self, name='rng', seed=None):
        self.name = name
        self.seed = seed
        self.draws = 0
        self.log = []

    def __deepcopy__(self, memo):
        return self

    def attr(self, I, name):
        f = getattr(self, 'd_' + name, None)
        if f is not None or name in DISTS:
            I.draw_log.append(self)
        if f is None:
            if name in DISTS:
                return Builtin('rng.' + name, lambda I, a, k: self.any_dist(I, name, a, k))
            raise Unsupported('rng.%s' % name)
        return Builtin('rng.' + name, lambda I, a, k: (I.uses('RandomState.' + name), f(I, *a, **k))[1])

    def d_rand(self, I, *shape):
        return self.unit(I, shape)

    def d_random(self, I, size=None):
        return self.unit(I, () if size is None else (size if isinstance(size, tuple) else (size,)))

    d_random_sample = d_random

    def unit(self, I, shape):
        if not shape:
            u = I.fresh('u', 'R')
            I.assume(conj(le(ZERO, u), lt(u, ONE)))
            return SV(u, 'float')
        f = I.fresh_fn('u', 'R')
        ks = [fresh('i', 'I') for _ in shape]
        I.assume(forall(ks, conj(le(ZERO, f(*ks)), lt(f(*ks), ONE))))
        return npm.arr(tuple(term(s) for s in shape), 'f', lambda i: f(*i))

    def d_randint(self, I, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        lo, hi = term(low), term(high)
        if I.decide(le(hi, lo)):
            raise PyRaise(ExcV('ValueError', ('low >= high',)))
        if size is None:
            r = I.fresh('ri', 'I')
            I.assume(conj(le(lo, r), lt(r, hi)))
            return SV(r, 'int')
        shape = size if isinstance(size, tuple) else (size,)
        f = I.fresh_fn('ri', 'I')
        ks = [fresh('i', 'I') for _ in shape]
        I.assume(forall(ks, conj(le(lo, f(*ks)), lt(f(*ks), hi))))
        return npm.arr(tuple(term(s) for s in shape), 'i', lambda i: f(*i))

    def d_uniform(self, I, low=0.0, high=1.0, size=None):
        if size is None:
            u = I.fresh('u', 'R')
            I.assume(conj(le(term(low), u), le(u, term(high))))
            return SV(u, 'float')
        raise Unsupported('uniform')

    def d_choice(self, I, a, size=None, replace=True, p=None):
        """element with positive probability; the caller must supply a distribution"""
        if is_scalar(a):
            n = term(a)
            get = lambda t: mkval(t, 'npint')
        else:
            it = I.iterate(a)
            n = it.length
            get = it.get
        if I.decide(le(n, ZERO)):
            raise PyRaise(ExcV('ValueError', ('a must be non-empty',)))
        pf = None
        if p is not None:
            P = npm.asarr(I, p)
            pf = P.snap()
            j = fresh('j', 'I')
            rng = conj(le(ZERO, j), lt(j, n))
            I.oblige('RandomState.choice: p has the size of the population', eq(P.shape[0], n), 'pre')
            I.oblige('RandomState.choice: p >= 0', forall(j, implies(rng, le(ZERO, pf((j,))))), 'pre')
            I.oblige('RandomState.choice: p sums to 1', eq(ssum(j, ZERO, n, pf((j,))), ONE), 'pre')
        if size is None:
            t = I.fresh('ch', 'I')
            I.assume(conj(le(ZERO, t), lt(t, n)))
            if pf is not None:
                I.assume(lt(ZERO, pf((t,))))
            tn = I.ctx.norm(n)
            if tn.op == 'num' and not is_scalar(a):
                return I.index_concrete(I.concrete_items(a), t)
            return get(t)
        m = term(size) if not isinstance(size, tuple) else None
        if m is None:
            raise Unsupported('choice size')
        f = I.fresh_fn('ch', 'I')
        s, s2 = fresh('s', 'I'), fresh('s', 'I')
        I.assume(forall(s, implies(conj(le(ZERO, s), lt(s, m)), conj(le(ZERO, f(s)), lt(f(s), n),
                                                                     lt(ZERO, pf((f(s),))) if pf else TRUE))))
        if replace is False:
            if I.decide(lt(n, m)):
                raise PyRaise(ExcV('ValueError', ('larger sample than population',)))
            I.assume(forall((s, s2), implies(conj(le(ZERO, s), lt(s, s2), lt(s2, m)), ne(f(s), f(s2)))))
        if not is_scalar(a):
            raise Unsupported('choice of several elements')
        return npm.arr((m,), 'i', lambda i: f(i[0]))

    def d_permutation(self, I, x):
        n = term(x) if is_scalar(x) else None
        if n is None:
            raise Unsupported('permutation')
        f, g = I.fresh_fn('perm', 'I'), I.fresh_fn('permi', 'I')
        s = fresh('s', 'I')
        rng = conj(le(ZERO, s), lt(s, n))
        I.assume(forall(s, implies(rng, conj(le(ZERO, f(s)), lt(f(s), n), eq(g(f(s)), s)))))
        I.assume(forall(s, implies(rng, conj(le(ZERO, g(s)), lt(g(s), n), eq(f(g(s)), s)))))
        return npm.arr((n,), 'i', lambda i: f(i[0]))

    def d_dirichlet(self, I, alpha, size=None):
        A = npm.asarr(I, alpha)
        n = A.shape[0]
        f = I.fresh_fn('dir', 'R')
        if size is None:
            j = fresh('j', 'I')
            I.assume(forall(j, implies(conj(le(ZERO, j), lt(j, n)), conj(le(ZERO, f(j)), le(f(j), ONE)))))
            I.assume(eq(ssum(j, ZERO, n, f(j)), ONE))
            return npm.arr((n,), 'f', lambda i: f(i[0]))
        raise Unsupported('dirichlet size')

    def any_dist(self, I, name, a, k):
        size = k.get('size')
        if size is None:
            u = I.fresh('draw', 'R')
            return SV(u, 'float')
        shape = size if isinstance(size, tuple) else (size,)
        f = I.fresh_fn('draw', 'R')
        return npm.arr(tuple(term(s) for s in shape), 'f', lambda i: f(*i))


DISTS = {'beta', 'gamma', 'exponential', 'normal', 'binomial', 'poisson'}


# ------------------------------------------------------------ graphs

class GraphV(Obj):
    """directed graph: list of node labels, edges between labels (concrete node count) """
    multi = False

    def __init__(self, nodes=None):
        self.nodes = _ip().PList(nodes or [])
        self.nattr = []
        self.edges = []           # [(u, v, {attr: value})]

    def copy(self):
        g = GraphV(list(self.nodes))
        g.nattr = [dict(x) for x in self.nattr]
        g.edges = [(u, v, dict(d)) for u, v, d in self.edges]
        return g

    def node_index(self, I, x):
        for j, y in enumerate(self.nodes):
            if I.decide(val_eq(I, x, y)):
                return j
        return None

    def add_node(self, I, x, attrs=None):
        j = self.node_index(I, x)
        if j is None:
            self.nodes.append(x)
            self.nattr.append(dict(attrs or {}))
        else:
            self.nattr[j].update(attrs or {})
        return j

    def add_edge(self, I, u, v, attrs):
        self.add_node(I, u)
        self.add_node(I, v)
        iu, iv = self.node_index(I, u), self.node_index(I, v)
        for (a, b, d) in self.edges:
            if a == iu and b == iv:
                d.update(attrs)
                return
        self.edges.append((iu, iv, dict(attrs)))

    def ordered_edges(self):
        # networkx: by source node in insertion order, then by edge insertion
        return sorted(self.edges, key=lambda e: e[0])

    def attr(self, I, name):
        B = Builtin
        g = self
        if name == 'add_nodes_from':
            def f(I, a, k):
                I.mutating(g)
                c = I.concrete_items(a[0])
                if c is None:
                    raise Unsupported('graph of symbolic size')
                for x in c:
                    g.add_node(I, x, k)
            return B(name, f)
        if name == 'add_node':
            return B(name, lambda I, a, k: (I.mutating(g), g.add_node(I, a[0], k), None)[2])
        if name == 'add_edge':
            return B(name, lambda I, a, k: (I.mutating(g), g.add_edge(I, a[0], a[1], k), None)[2])
        if name == 'add_weighted_edges_from':
            def f(I, a, k):
                for x in I.concrete_items(a[0]):
                    u, v, w = I.unpack(x, 3)
                    g.add_edge(I, u, v, {'weight': w})
            return B(name, f)
        if name == 'add_edges_from':
            def f(I, a, k):
                for x in I.concrete_items(a[0]):
                    g.add_edge(I, x[0], x[1], dict(x[2]) if len(x) > 2 else {})
            return B(name, f)
        if name == 'nodes':
            return NodeView(g)
        if name == 'edges':
            return EdgeView(g)
        if name == 'successors':
            def f(I, a, k):
                j = g.node_index(I, a[0])
                return _ip().PList(g.nodes[v] for u, v, d in g.edges if u == j)
            return B(name, f)
        if name == 'number_of_nodes':
            return B(name, lambda I, a, k: len(g.nodes))
        if name == 'copy':
            return B(name, lambda I, a, k: g.copy())
        if name in ('__module__', 'dtype'):
            raise PyRaise(ExcV('AttributeError', (name,)))
        raise Unsupported('graph.%s' % name)


class NodeView(list):
    def __init__(self, g):
        super().__init__(g.nodes)
        self.g = g


class EdgeView:
    def __init__(self, g):
        self.g = g

    def items(self, I):
        g = self.g
        return _ip().PList((g.nodes[u], g.nodes[v]) for u, v, d in g.ordered_edges())


def call_view(I, o, a, k):
    ip = _ip()
    if isinstance(o, NodeView):
        key = k.get('data', a[0] if a else False)
        if key is False:
            return ip.PList(o.g.nodes)
        if key is True:
            return ip.PList((n, ip.PDict(d)) for n, d in zip(o.g.nodes, o.g.nattr))
        return ip.PList((n, d.get(key, k.get('default'))) for n, d in zip(o.g.nodes, o.g.nattr))
    if isinstance(o, EdgeView):
        g = o.g
        key = k.get('data', False)
        if key is False:
            return o.items(I)
        if key is True:
            return ip.PList((g.nodes[u], g.nodes[v], ip.PDict(d)) for u, v, d in g.ordered_edges())
        return ip.PList((g.nodes[u], g.nodes[v], d.get(key, k.get('default'))) for u, v, d in g.ordered_edges())
    raise Unsupported('view call')


def digraph_new(I, args, kw):
    if not args or args[0] is None:
        return GraphV()
    v = args[0]
    if isinstance(v, GraphV):
        g = v.copy()
        return g
    if isinstance(v, Arr) and len(v.shape) == 2:
        n = I.ctx.norm(v.shape[0])
        if n.op != 'num':
            raise Unsupported('DiGraph of a symbolic size matrix')
        g = GraphV()
        m = int(n.args[0])
        for j in range(m):
            g.nodes.append(j)
            g.nattr.append({})
        for i in range(m):
            for j in range(m):
                t = v.get(num(i), num(j))
                if I.decide(ne(num01(t), ZERO)):
                    g.edges.append((i, j, {'weight': npm.scal(t, v.dt)}))
        return g
    raise Unsupported('DiGraph()')


def adj_of(g):
    n = len(g.nodes)
    return [[any(a == i and b == j for a, b, _ in g.edges) for j in range(n)] for i in range(n)]


def nx_real(g):
    import networkx as nx
    G = nx.DiGraph()
    G.add_nodes_from(range(len(g.nodes)))
    for u, v, d in g.ordered_edges():
        G.add_edge(u, v)
    return G


def nx_scc(I, g):
    import networkx as nx
    G = nx_real(g)
    out = _ip().PList()
    for c in nx.strongly_connected_components(G):
        out.append(_ip().PList(g.nodes[j] for j in sorted(c)))
    return out


class CondGraph(GraphV):
    pass


def nx_condensation(I, g):
    import networkx as nx
    G = nx_real(g)
    C = nx.condensation(G)
    r = GraphV(list(range(C.number_of_nodes())))
    r.nattr = [{} for _ in r.nodes]
    for u, v in C.edges:
        r.edges.append((u, v, {}))
    return r


def nx_aper(I, g):
    import networkx as nx
    return nx.is_aperiodic(nx_real(g))


def nx_spl(I, g, source=None, target=None, weight=None):
    import networkx as nx
    G = nx_real(g)
    if source is not None and target is None:
        s = g.node_index(I, source)
        d = nx.shortest_path_length(G, source=s)
        r = _ip().PDict()
        for k, v in d.items():
            r[dkey(I, g.nodes[k])] = v
        return r
    raise Unsupported('shortest_path_length')


NX = {
    'strongly_connected_components': nx_scc,
    'condensation': nx_condensation,
    'is_aperiodic': nx_aper,
    'is_strongly_connected': lambda I, g: len(nx_scc(I, g)) == 1,
    'shortest_path_length': nx_spl,
}


class DistV:
    pass
