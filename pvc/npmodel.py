"""Contracts for the numpy/scipy operations used by the package.

Arrays are total functions index -> term with a symbolic shape; every access is
checked against the shape through the callers' obligations.  Floats are reals
(nan/inf explicit), integers are mathematical integers.
"""
from .terms import *
from . import terms as tm
from .prover import prove, simp
from .values import *

FLT, INT, BOO, STR = 'f', 'i', 'b', 'u'


def _i():
    from . import interp
    return interp


def memo(f):
    cache = {}

    def g(idx):
        r = cache.get(idx)
        if r is None:
            r = f(idx)
            cache[idx] = r
        return r
    return g


def arr(shape, dt, fn):
    return Arr(shape, dt, memo(fn))


def dt_of(v):
    if v is None:
        return None
    n = v if isinstance(v, str) else getattr(v, 'name', None)
    if n is None:
        raise Unsupported('dtype %r' % (v,))
    n = n.split('.')[-1]
    if n.startswith('float'):
        return FLT
    if n.startswith('int') or n.startswith('uint'):
        return INT
    if n.startswith('bool'):
        return BOO
    raise Unsupported('dtype %s' % n)


def scal(t, dt):
    ty = {'f': 'npfloat', 'i': 'npint', 'b': 'npbool', 'u': 'str'}[dt]
    return mkval(t, ty) if dt != 'b' else SV(t, ty)


def conv(t, src, dst):
    if src == dst:
        return t
    if dst == FLT:
        return num01(t)
    if dst == INT:
        if t.sort == 'B':
            return ivr(t)
        if t.sort == 'I':
            return t
        return app('trunc', [t], 'I')
    if dst == BOO:
        return t if t.sort == 'B' else ne(t, ZERO)
    raise Unsupported('conversion %s -> %s' % (src, dst))


def size_of(I, v):
    """value -> dimension term"""
    t = term(v)
    if t.sort != 'I':
        raise Unsupported('non integer dimension')
    return t


def shape_of(I, s):
    if isinstance(s, (tuple, list)):
        return tuple(size_of(I, x) for x in s)
    return (size_of(I, s),)


def deq(I, a, b):
    if a is b:
        return True
    return I.ctx.norm(a) is I.ctx.norm(b) or I.ctx.entails(eq(a, b))


def is_one(I, a):
    return a is ONE or I.ctx.norm(a) is ONE


def pick(k, vals):
    """vals[k] for a symbolic k in a concrete list of terms"""
    if k.op == 'num':
        j = int(k.args[0])
        if 0 <= j < len(vals):
            return vals[j]
        return vals[-1]
    r = vals[-1]
    for j in range(len(vals) - 2, -1, -1):
        r = ite(eq(k, num(j)), vals[j], r)
    return r


def asarr(I, v, dt=None):
    a = _asarr(I, v)
    if dt is not None and a.dt != dt:
        f, s = a.snap(), a.dt
        a = arr(a.shape, dt, lambda i: conv(f(i), s, dt))
    return a


def merge_dt(dts):
    s = set(dts)
    if len(s) == 1:
        return dts[0]
    if STR in s:
        raise Unsupported('mixed string array')
    if FLT in s:
        return FLT
    return INT


def _asarr(I, v):
    if isinstance(v, Arr):
        return v
    nt = ntype(v)
    if nt is not None:
        t = term(v)
        dt = STR if nt == 'str' else BOO if nt in ('bool', 'npbool') else INT if nt in INT_T else FLT
        return Arr((), dt, lambda i: t)
    c = I.concrete_items(v)
    if c is not None:
        if not c:
            return Arr((ZERO,), FLT, lambda i: ZERO)
        els = [_asarr(I, x) for x in c]
        sh = els[0].shape
        for e in els[1:]:
            if len(e.shape) != len(sh) or not all(deq(I, a, b) for a, b in zip(e.shape, sh)):
                raise Unsupported('ragged array')
        dt = merge_dt([e.dt for e in els])
        fs = [(e.snap(), e.dt) for e in els]
        return arr((num(len(c)),) + sh, dt, lambda i: pick(i[0], [conv(f(i[1:]), d, dt) for f, d in fs]))
    if isinstance(v, (SList, Iter)):
        k = fresh('p', 'I')
        I.push_scope([le(ZERO, k), lt(k, v.length)])
        try:
            e = _asarr(I, v.get(k))
        finally:
            I.pop_scope()
        get = v.get
        if not e.shape:
            a = arr((v.length,), e.dt, lambda i: conv(num_or(term(get(i[0]))), None, e.dt) if False else _lterm(get(i[0]), e.dt))
            a.memfn = getattr(v, 'memfn', None)
            a.wit = getattr(v, 'wit', None)
            a.src = v
            return a
        return arr((v.length,) + e.shape, e.dt, lambda i: _asarr(I, get(i[0])).get(*i[1:]))
    raise Unsupported('array from %r' % (v,))


def num_or(t):
    return t


def _lterm(v, dt):
    t = term(v)
    return num01(t) if dt in (FLT, INT) else t


# ---------------------------------------------------------------- broadcasting

def bshape(I, shapes):
    n = max(len(s) for s in shapes)
    out = []
    for d in range(n):
        cur = ONE
        for s in shapes:
            k = d - (n - len(s))
            if k < 0:
                continue
            x = s[k]
            if is_one(I, x):
                continue
            if cur is ONE:
                cur = x
            elif not deq(I, cur, x):
                if not I.decide(eq(cur, x)):
                    # numpy raises unless one of them is 1
                    if I.decide(eq(cur, ONE)):
                        cur = x
                    elif I.decide(eq(x, ONE)):
                        pass
                    else:
                        raise _i().PyRaise(ExcV('ValueError', ('broadcast',)))
        out.append(cur)
    return tuple(out)


def bget(I, a, shape):
    """element function of a broadcast to shape"""
    f = a.snap()
    n, m = len(shape), len(a.shape)
    ones = [is_one(I, s) and not is_one(I, shape[n - m + k]) for k, s in enumerate(a.shape)]
    if n == m and not any(ones):
        return f

    def g(idx):
        return f(tuple(ZERO if o else x for o, x in zip(ones, idx[n - m:])))
    return g


def divide_terms(I, x, y):
    if has_special(x) or has_special(y):
        z = y
        if has_special(y):
            r = None
            out = None
            for c, v in reversed(case_leaves(y)):
                q = divide_terms(I, x, v) if not tm._special(v) else (
                    NAN if v is NAN else tm._map_case(lambda u: NAN if tm._special(u) else ZERO, x))
                out = q if out is None else case(c, q, out)
            return out
        return tm._map_case(lambda u: (divide_terms(I, u, y) if not tm._special(u) else
                                       NAN if u is NAN else case(lt(y, ZERO), neg(u), u)), x)
    if y.op == 'num' and y.args[0] != 0:
        return mul(x, inv(y))
    if I.ctx.entails(ne(y, ZERO)):
        return mul(x, inv(y))
    r = prove(I.ctx, ne(y, ZERO))
    if r:
        return mul(x, inv(y))
    return safe_div(x, y)


def safe_div(x, y):
    """numpy float division"""
    if y.op == 'num' and y.args[0] != 0:
        return mul(x, inv(y))
    if x.op == 'num':
        special = NAN if x is ZERO else (PINF if x.args[0] > 0 else NINF)
    else:
        special = case(eq(x, ZERO), NAN, case(lt(ZERO, x), PINF, NINF))
    return case(eq(y, ZERO), special, mul(x, inv(y)))


def divide_fn(I, f, g, shape):
    """elementwise f/g; division by zero is ruled out once for all indices if provable"""
    idx = tuple(fresh('d', 'I') for _ in shape)
    rng = []
    for v, n in zip(idx, shape):
        rng += [le(ZERO, v), lt(v, n)]
    y, x = g(idx), f(idx)
    if not has_special(y) and not has_special(x):
        c2 = I.ctx.ext(*rng)
        if c2.entails(ne(y, ZERO)) or prove(c2, ne(y, ZERO)):
            return lambda i: mul(f(i), inv(g(i)))
    saved = I.ctx

    def h(i):
        a, b = f(i), g(i)
        if has_special(a) or has_special(b):
            return divide_terms(I, a, b)
        return safe_div(a, b)
    return h


def power_terms(I, x, y):
    if y.op == 'num' and y.args[0].denominator == 1 and abs(y.args[0]) <= 8:
        k = int(y.args[0])
        if k >= 0:
            return tm.powi(x, k)
        return divide_terms(I, ONE, tm.powi(x, -k))
    if x is ONE:
        return ONE
    if x.op == 'num' and x.args[0] == 2 and y.sort == 'I':
        return app('pow2', [y], 'I')
    return app('pow', [x, y], 'R' if x.sort == 'R' or y.sort == 'R' else 'I')


def bitwise01(I, op, sh, f, g, ad, bd):
    """bitwise operations of integers which are provably 0 or 1"""
    if FLT in (ad, bd):
        raise _i().PyRaise(ExcV('TypeError', ('bitwise on floats',)))
    F, G = (lambda ix: num01(f(ix))), (lambda ix: num01(g(ix)))
    vs = tuple(tm.fresh('x', 'I') for _ in sh)
    rng = conj(*[conj(le(ZERO, x), lt(x, d)) for x, d in zip(vs, sh)])
    for h in (F, G):
        if not prove(I.ctx, forall(vs, implies(rng, disj(eq(h(vs), ZERO), eq(h(vs), ONE)))) if vs else disj(eq(h(vs), ZERO), eq(h(vs), ONE))):
            raise Unsupported('bitwise on ints')
    fn = {'BitAnd': lambda ix: F(ix) * G(ix), 'BitOr': lambda ix: F(ix) + G(ix) - F(ix) * G(ix), 'BitXor': lambda ix: F(ix) + G(ix) - num(2) * F(ix) * G(ix)}[op]
    return Arr(sh, INT, fn)


def binary(I, op, a, b):
    a0, b0 = a, b
    if a is None or b is None:
        raise _i().PyRaise(ExcV('TypeError', ('operand',)))
    a, b = asarr(I, a), asarr(I, b)
    sh = bshape(I, [a.shape, b.shape])
    f, g = bget(I, a, sh), bget(I, b, sh)
    ad, bd = a.dt, b.dt
    if ad == STR or bd == STR:
        raise Unsupported('string array arithmetic')
    bb = ad == BOO and bd == BOO
    N = num01
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        if not bb:
            return bitwise01(I, op, sh, f, g, ad, bd)
        h = {'BitAnd': lambda i: conj(f(i), g(i)), 'BitOr': lambda i: disj(f(i), g(i)),
             'BitXor': lambda i: no(iff(f(i), g(i)))}[op]
        dt = BOO
    elif op == 'Add':
        dt = BOO if bb else merge_dt([ad, bd])
        h = (lambda i: disj(f(i), g(i))) if bb else (lambda i: add(N(f(i)), N(g(i))))
    elif op == 'Sub':
        if bb:
            raise _i().PyRaise(ExcV('TypeError', ('boolean subtract',)))
        dt = merge_dt([ad, bd])
        h = lambda i: sub(N(f(i)), N(g(i)))
    elif op == 'Mult':
        dt = BOO if bb else merge_dt([ad, bd])
        h = (lambda i: conj(f(i), g(i))) if bb else (lambda i: mul(N(f(i)), N(g(i))))
    elif op == 'Div':
        dt = FLT
        h = divide_fn(I, lambda i: N(f(i)), lambda i: N(g(i)), sh)
    elif op == 'Pow':
        dt = merge_dt([ad, bd])
        h = lambda i: power_terms(I, N(f(i)), N(g(i)))
    elif op in ('Mod', 'FloorDiv'):
        dt = merge_dt([ad, bd])
        nm = 'mod' if op == 'Mod' else 'fdiv'
        h = lambda i: app(nm, [N(f(i)), N(g(i))], 'I' if dt == INT else 'R')
    else:
        raise Unsupported('array op ' + op)
    r = arr(sh, dt, h)
    if not sh:
        return scal(r.get(), dt)
    r.gathered = None
    for x, o in ((a, b), (b, a)):
        if x.gathered is not None and not o.shape:
            src, mask, msh = x.gathered
            ov = o.get()
            if op == 'Mult':
                r.gathered = (lambda i, s=src, ov=ov: mul(N(s(i)), N(ov)), mask, msh)
            elif op == 'Add':
                r.gathered = (lambda i, s=src, ov=ov: add(N(s(i)), N(ov)), mask, msh)
            elif op == 'Div' and x is a:
                if prove(I.ctx, ne(ov, ZERO)):
                    r.gathered = (lambda i, s=src, ov=ov: mul(N(s(i)), inv(ov)), mask, msh)
                else:
                    r.gathered = (lambda i, s=src, ov=ov: safe_div(N(s(i)), ov), mask, msh)
            elif op == 'Pow' and x is a:
                r.gathered = (lambda i, s=src, ov=ov: power_terms(I, N(s(i)), N(ov)), mask, msh)
            elif op == 'Sub' and x is a:
                r.gathered = (lambda i, s=src, ov=ov: sub(N(s(i)), N(ov)), mask, msh)
            elif op == 'Sub':
                r.gathered = (lambda i, s=src, ov=ov: sub(N(ov), N(s(i))), mask, msh)
    return r


def unary(I, op, a):
    f = a.snap()
    if op == 'USub':
        r = arr(a.shape, a.dt, lambda i: neg(f(i)))
    elif op == 'UAdd':
        r = arr(a.shape, a.dt, f)
    elif op == 'Invert' and a.dt == BOO:
        r = arr(a.shape, BOO, lambda i: no(f(i)))
    else:
        raise Unsupported('unary array ' + op)
    return r if a.shape else scal(r.get(), r.dt)


def compare(I, op, a, b):
    a, b = asarr(I, a), asarr(I, b)
    sh = bshape(I, [a.shape, b.shape])
    f, g = bget(I, a, sh), bget(I, b, sh)
    if a.dt == STR or b.dt == STR:
        h = {'Eq': lambda i: eq(f(i), g(i)), 'NotEq': lambda i: ne(f(i), g(i))}[op]
    else:
        h = lambda i: I.cmp_terms(op, num01(f(i)), num01(g(i)))
    r = arr(sh, BOO, h)
    return r if sh else scal(r.get(), BOO)


def elementwise(I, a, fn, dt=None):
    a = asarr(I, a)
    f = a.snap()
    r = arr(a.shape, dt or a.dt, lambda i: fn(num01(f(i))))
    return r if a.shape else scal(r.get(), r.dt)


# ---------------------------------------------------------------- products, sums

def axis_sum(I, f, shape, axis, pre=None):
    """element function of the sum over the given axes"""
    axes = tuple(sorted(axis))
    rest = [d for d in range(len(shape)) if d not in axes]

    def g(idx):
        vs = []
        full = [None] * len(shape)
        for d, x in zip(rest, idx):
            full[d] = x
        guard = ONE
        for d in axes:
            n = I.ctx.norm(shape[d])
            v = fresh('s', 'I')
            vs.append((v, n))
            full[d] = v
        return sum_over(I, vs, f, full)
    return g, tuple(shape[d] for d in rest)


def sum_over(I, vs, f, full):
    if not vs:
        t = num01(f(tuple(full)))
        return t
    v, n = vs[0]
    if n.op == 'num' and n.args[0] <= 12:
        out = []
        for k in range(int(n.args[0])):
            f2 = [num(k) if x is v else x for x in full]
            out.append(sum_over(I, vs[1:], f, f2))
        if any(has_special(o) for o in out):
            r = ZERO
            for o in out:
                r = add(r, o)
            return r
        return addn(out)
    body = sum_over(I, vs[1:], f, full)
    if has_special(body):
        c2 = I.ctx.ext(le(ZERO, v), lt(v, n))
        b2 = simp(c2, body)
        if has_special(b2):
            # sum of an array that may contain non-finite values
            fin = forall(v, implies(conj(le(ZERO, v), lt(v, n)), is_finite(body)))
            if prove(I.ctx, fin):
                b2 = finite_part(body)
            else:
                raise Unsupported('sum of possibly non-finite values')
        body = b2
    return ssum(v, ZERO, n, body)


def norm_axis(I, axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, tuple):
        return tuple(a % nd for a in axis)
    if not isinstance(axis, int):
        raise Unsupported('axis')
    if not -nd <= axis < nd:
        raise _i().PyRaise(ExcV('AxisError'))
    return (axis % nd,)


def np_sum(I, a, axis=None, dtype=None, keepdims=False, where=None, nan=False):
    a = asarr(I, a)
    out_dt = dt_of(dtype) if dtype is not None else (INT if a.dt in (BOO, INT) else FLT)
    if a.gathered is not None and (axis is None or axis == 0):
        src, mask, msh = a.gathered
        vs = [(fresh('s', 'I'), n) for n in msh]
        t = sum_over(I, vs, lambda i: mul(ivr(mask(i)), fin_under(I, mask(i), num01(src(i)))), [v for v, _ in vs])
        return scal(t, out_dt)
    f = a.snap()
    if nan:
        f0 = f
        f = lambda i: nan_to_zero(f0(i))
    ax = norm_axis(I, axis, len(a.shape))
    g, sh = axis_sum(I, f, a.shape, ax)
    if keepdims:
        sh2 = tuple(ONE if d in ax else n for d, n in enumerate(a.shape))
        rest = [d for d in range(len(a.shape)) if d not in ax]
        return arr(sh2, out_dt, lambda i: g(tuple(i[d] for d in rest)))
    if not sh:
        return scal(g(()), out_dt)
    return arr(sh, out_dt, g)


def fin_under(I, m, t):
    if not has_special(t):
        return t
    return simp(I.ctx.ext(m), t)


def nan_to_zero(t):
    return tm._map_case(lambda v: ZERO if v is NAN else v, t)


def matmul(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    if not a.shape or not b.shape:
        return binary(I, 'Mult', a, b)
    f, g = a.snap(), b.snap()
    la, lb = len(a.shape), len(b.shape)
    if la > 2 or lb > 2:
        raise Unsupported('matmul of >2d')
    n = a.shape[-1]
    m = b.shape[-2] if lb == 2 else b.shape[0]
    if not deq(I, n, m):
        if not I.decide(eq(n, m)):
            raise _i().PyRaise(ExcV('ValueError', ('shapes not aligned',)))
    dt = merge_dt([a.dt, b.dt])
    if a.dt == BOO and b.dt == BOO:
        n = I.ctx.norm(n)

        def hb(idx):
            v = fresh('s', 'I')
            F = lambda k: conj(f((idx[0], k[0]) if la == 2 else (k[0],)), g((k[0], idx[-1]) if lb == 2 else (k[0],)))
            return quant_over(I, [(v, n)], F, [v], 'any')
        sh = (a.shape[:-1]) + ((b.shape[-1],) if lb == 2 else ())
        r = arr(sh, BOO, (lambda i: name_bool(I, hb(i))) if sh else hb)
        return r if sh else scal(r.get(), BOO)
    if dt == INT and not I.quiet:
        I.uses('int64 matrix products do not overflow')
    n = I.ctx.norm(n)

    def h(idx):
        v = fresh('s', 'I')
        if la == 2 and lb == 2:
            F = lambda k: mul(num01(f((idx[0], k[0]))), num01(g((k[0], idx[1]))))
        elif la == 2:
            F = lambda k: mul(num01(f((idx[0], k[0]))), num01(g((k[0],))))
        elif lb == 2:
            F = lambda k: mul(num01(f((k[0],))), num01(g((k[0], idx[0]))))
        else:
            F = lambda k: mul(num01(f((k[0],))), num01(g((k[0],))))
        return sum_over(I, [(v, n)], F, [v])
    sh = (a.shape[:-1]) + ((b.shape[-1],) if lb == 2 else ())
    r = arr(sh, dt, h)
    return r if sh else scal(r.get(), dt)


def transpose(I, a):
    a = asarr(I, a)
    if len(a.shape) < 2:
        return view(a, a.shape, lambda i: i, lambda b: (TRUE, b))
    return view(a, a.shape[::-1], lambda i: i[::-1], lambda b: (TRUE, b[::-1]))


def view(a, shape, vmap, vinv):
    r = Arr(shape, a.dt, None, a, vmap, vinv)
    return r


# ---------------------------------------------------------------- indexing

def check_index(I, i, n, what='index in range'):
    """normalised index term for python index semantics; out of range raises IndexError"""
    if i.op == 'num' and i.args[0] < 0:
        i = add(n, i)
        if I.ctx.entails(le(ZERO, i)):
            return i
        I.oblige(what, le(ZERO, i))
        return i
    if i.sort != 'I':
        raise Unsupported('non-integer index')
    ok = conj(le(ZERO, i), lt(i, n))
    if I.ctx.entails(ok):
        if not I.quiet:
            I.oblige(what, ok)
        return i
    if I.ctx.entails(lt(i, ZERO)):
        j = add(n, i)
        I.oblige(what, conj(le(ZERO, j), lt(j, n)))
        return j
    if prove(I.ctx, ok):
        I.oblige(what, ok)
        return i
    # negative index possible?
    if not prove(I.ctx, le(ZERO, i)):
        if I.decide(lt(i, ZERO)):
            j = add(n, i)
            I.oblige(what, conj(le(ZERO, j), lt(j, n)))
            return j
    I.oblige(what, ok)
    return i


def tmin(I, a, b):
    if I.ctx.entails(le(a, b)):
        return a
    if I.ctx.entails(le(b, a)):
        return b
    return ite(le(a, b), a, b)


def tmax(I, a, b):
    if I.ctx.entails(le(b, a)):
        return a
    if I.ctx.entails(le(a, b)):
        return b
    return ite(le(b, a), a, b)


def slice_bounds(I, s, n):
    """(start, length, step) of a slice on a dimension of size n"""
    step = 1 if s.step is None else s.step
    if step not in (1, -1):
        raise Unsupported('slice step')

    def fix(b):
        t = term(b)
        if t.sort != 'I':
            raise _i().PyRaise(ExcV('TypeError', ('slice index',)))
        if t.op == 'num':
            if t.args[0] < 0:
                return tmax(I, add(n, t), ZERO)
            return t
        if I.ctx.entails(le(ZERO, t)):
            return t
        if I.ctx.entails(lt(t, ZERO)):
            return tmax(I, add(n, t), ZERO)
        return ite(le(ZERO, t), t, tmax(I, add(n, t), ZERO))
    if step == 1:
        lo = ZERO if s.lo is None else tmin(I, fix(s.lo), n)
        hi = n if s.hi is None else tmin(I, fix(s.hi), n)
        ln = sub(hi, lo)
        if not I.ctx.entails(le(ZERO, ln)):
            ln = ZERO if I.ctx.entails(le(ln, ZERO)) else ite(le(ZERO, ln), ln, ZERO)
        return lo, ln, 1
    st = sub(n, ONE) if s.lo is None else tmin(I, fix(s.lo), sub(n, ONE))
    en = num(-1) if s.hi is None else tmin(I, fix(s.hi), sub(n, ONE))
    ln = sub(st, en)
    if not I.ctx.entails(le(ZERO, ln)):
        ln = ite(le(ZERO, ln), ln, ZERO)
    return st, ln, -1


def is_adv(x):
    return (isinstance(x, Arr) and len(x.shape) > 0) or isinstance(x, (list, SList, SSet)) or \
        (isinstance(x, tuple))


def split_index(I, o, idx):
    items = list(idx) if isinstance(idx, tuple) else [idx]
    if any(x is Ellipsis for x in items):
        k = [j for j, x in enumerate(items) if x is Ellipsis][0]
        cnt = sum(1 for x in items if x is not None and x is not Ellipsis)
        items[k:k + 1] = [_i().SliceV(None, None, None)] * (len(o.shape) - cnt)
    used = 0
    for x in items:
        if x is None:
            continue
        if isinstance(x, Arr) and x.dt == BOO and x.shape:
            used += len(x.shape)
        else:
            used += 1
    if used > len(o.shape):
        raise _i().PyRaise(ExcV('IndexError', ('too many indices',)))
    items += [_i().SliceV(None, None, None)] * (len(o.shape) - used)
    return items


def basic_view(I, o, items):
    """view for ints, slices, None and ':' placeholders for advanced items"""
    shape, fw = [], []         # fw: per base axis: function idx -> base index
    axis = 0
    inv_parts = []
    out_axis = 0
    for x in items:
        if x is None:
            shape.append(ONE)
            out_axis += 1
            continue
        n = o.shape[axis]
        if isinstance(x, _i().SliceV):
            if x.lo is None and x.hi is None and x.step is None:
                fw.append(lambda i, k=out_axis: i[k])
                inv_parts.append((out_axis, lambda b: (TRUE, b)))
                shape.append(n)
            else:
                st, ln, step = slice_bounds(I, x, n)
                if step == 1:
                    fw.append(lambda i, k=out_axis, st=st: add(st, i[k]))
                    inv_parts.append((out_axis, lambda b, st=st, ln=ln: (conj(le(st, b), lt(b, add(st, ln))), sub(b, st))))
                else:
                    fw.append(lambda i, k=out_axis, st=st: sub(st, i[k]))
                    inv_parts.append((out_axis, lambda b, st=st, ln=ln: (conj(le(b, st), lt(sub(st, ln), b)), sub(st, b))))
                shape.append(ln)
            out_axis += 1
        else:
            t = term(x)
            if t.sort == 'B':
                raise Unsupported('boolean scalar index')
            t = check_index(I, t, n)
            fw.append(lambda i, t=t: t)
            inv_parts.append((None, lambda b, t=t: (eq(b, t), None)))
        axis += 1
    nd = len(shape)

    def vmap(i):
        return tuple(f(i) for f in fw)

    def vinv(b):
        c = TRUE
        out = [ZERO] * nd
        for bx, (k, g) in zip(b, inv_parts):
            cc, v = g(bx)
            c = conj(c, cc)
            if k is not None:
                out[k] = v
        return c, tuple(out)
    return view(o, tuple(shape), vmap, vinv)


def getitem(I, o, idx):
    if not o.shape:
        if idx == () or idx is Ellipsis:
            return o
        raise _i().PyRaise(ExcV('IndexError', ('0-d',)))
    items = split_index(I, o, idx)
    adv = [k for k, x in enumerate(items) if is_adv(x)]
    S = _i().SliceV
    if not adv:
        v = basic_view(I, o, items)
        if not v.shape:
            return scal(v.get(), o.dt)
        return v
    # full boolean mask
    if len(items) == 1 and isinstance(items[0], Arr) and items[0].dt == BOO and len(items[0].shape) == len(o.shape):
        return gather(I, o, items[0])
    w = basic_view(I, o, [S(None, None, None) if k in adv else x for k, x in enumerate(items)])
    # positions of the advanced axes in w
    pos = []
    ax = 0
    for k, x in enumerate(items):
        if k in adv:
            pos.append(ax)
            ax += 1
        elif x is None or isinstance(x, S):
            ax += 1
    if len(adv) == 1 and isinstance(items[adv[0]], Arr) and items[adv[0]].dt == BOO and len(items[adv[0]].shape) == 1 and len(w.shape) == 1:
        return gather(I, w, items[adv[0]])
    ixs = [index_array(I, items[k], w.shape[p]) for k, p in zip(adv, pos)]
    for ix, p in zip(ixs, pos):
        check_index_array(I, ix, w.shape[p])
    B = bshape(I, [x.shape for x in ixs])
    gs = [bget(I, x, B) for x in ixs]
    f = w.snap()
    d0, d1 = pos[0], pos[-1]
    if d1 - d0 + 1 != len(pos):
        raise Unsupported('separated advanced indices')
    nb = len(B)

    def h(i):
        b = i[d0:d0 + nb]
        return f(i[:d0] + tuple(g(b) for g in gs) + i[d0 + nb:])
    r = arr(w.shape[:d0] + B + w.shape[d1 + 1:], o.dt, h)
    return r


def index_array(I, x, n):
    if isinstance(x, tuple) and len(x) == 1 and isinstance(x[0], Arr):
        x = x[0]
    if isinstance(x, SSet):
        raise _i().PyRaise(ExcV('IndexError', ('set index',)))
    a = asarr(I, x)
    if a.dt == BOO:
        if len(a.shape) != 1:
            raise Unsupported('2d mask among indices')
        f = a.snap()
        return enumerate_pred(I, n, lambda k: f((k,)))
    if a.dt != INT and not (isinstance(x, (list, tuple)) and len(x) == 0):
        raise _i().PyRaise(ExcV('IndexError', ('arrays used as indices must be of integer type',)))
    return a


def check_index_array(I, ix, n):
    vs = [fresh('q', 'I') for _ in ix.shape]
    f = ix.snap()
    rng = TRUE
    for v, m in zip(vs, ix.shape):
        rng = conj(rng, le(ZERO, v), lt(v, m))
    t = f(tuple(vs))
    c = forall(vs, implies(rng, conj(le(ZERO, t), lt(t, n)))) if vs else conj(le(ZERO, t), lt(t, n))
    I.oblige('index array in range', c)


def gather(I, o, mask):
    sh = o.shape
    f, m = o.snap(), mask.snap()
    if len(sh) == 1:
        holder = []

        def fn(i):
            if not holder:
                holder.append(enumerate_pred(I, sh[0], lambda k: m((k,))))
            return f((holder[0].get(i[0]),))
        n = count_pred(I, sh[0], lambda k: m((k,)))
    else:
        def fn(i):
            raise Unsupported('element of a masked selection')
        vs = [(fresh('s', 'I'), d) for d in sh]
        n = sum_over(I, vs, lambda i: ivr(m(i)), [v for v, _ in vs])
    r = arr((n,), o.dt, fn)
    r.gathered = (f, m, sh)
    return r


def count_pred(I, n, pred):
    v = fresh('s', 'I')
    return sum_over(I, [(v, I.ctx.norm(n))], lambda i: ivr(pred(i[0])), [v])


# -------------------------------------------------------- definitional names

def lam_key(vs, body):
    m = {v: var('#arg%d%s' % (k, v.sort), v.sort) for k, v in enumerate(vs)}
    b = subst(body, m)
    free = sorted((v for v in body.fv if v not in vs), key=lambda v: v.args[0])
    # canonical names for the free variables too
    m2 = {v: var('#fv%d%s' % (k, v.sort), v.sort) for k, v in enumerate(free)}
    return subst(b, m2).key.hex(), free


def define(I, prefix, vs, body, extra=()):
    """names for an entity determined by lambda vs. body (and extra terms): returns (mkfun, free, new?)"""
    key, free = lam_key(vs, body)
    for e in extra:
        k2, f2 = lam_key(vs, e)
        key += k2
        for v in f2:
            if v not in free:
                free.append(v)
    import hashlib
    h = hashlib.blake2b(key.encode(), digest_size=6).hexdigest()
    deps = set(tm.func_names(body))
    for e in extra:
        deps |= tm.func_names(e)
    I.defdeps['_' + h] = deps
    # extra free variables may be ordered differently: make the order part of the identity
    order = '_'.join(v.sort for v in free)

    def mkf(tag, sort):
        return lambda *args: app('%s%s_%s' % (prefix, tag, h), list(free) + list(args), sort)
    return mkf, free


def qassume(I, free, fact):
    # dimensions are constants of the specification
    free = [v for v in free if v not in getattr(I, 'dim_terms', ())]
    f = forall(free, fact) if free else fact
    I.assume_def(f)


def name_bool(I, c):
    """an app predicate equivalent to the (possibly quantified) condition c"""
    c = I.ctx.norm(c)
    if c.op == 'exists':
        return no(name_bool(I, no(c)))
    if c.op != 'forall':
        if c.op in ('and', 'or') and any(x.op in ('forall', 'exists') for x in c.args):
            parts = [name_bool(I, x) for x in c.args]
            return conj(*parts) if c.op == 'and' else disj(*parts)
        return c
    vs, body = open_binder(c)
    mkf, free = define(I, 'all', vs, body)
    q = mkf('', 'B')()
    wits = [mkf('w%d' % k, v.sort)() for k, v in enumerate(vs)]
    qassume(I, free, implies(q, forall(vs, body)))
    qassume(I, free, disj(q, no(subst(body, dict(zip(vs, wits))))))
    return q


def enumerate_pred(I, n, pred, cond_name='enum'):
    """increasing enumeration of {x in [0,n): pred(x)} as an int array"""
    x = fresh('x', 'I')
    c = pred(x)
    c = I.ctx.norm(c)
    if n.op == 'num' and n.args[0] <= 6:
        sel = []
        for k in range(int(n.args[0])):
            if I.decide(pred(num(k))):
                sel.append(num(k))
        a = Arr((num(len(sel)),), INT, (lambda i: pick(i[0], sel)) if sel else (lambda i: ZERO))
        a.memfn = lambda t: disj(*[eq(t, s) for s in sel])
        a.enum = (n, pred)
        return a
    if any(s.op in ('forall', 'exists') for s in subterms(c)):
        p0 = pred
        pred = lambda k: name_bool(I, p0(k))
        c = I.ctx.norm(pred(x))
    mkf, free = define(I, 'en', [x], c, [n])
    cnt = mkf('n', 'I')()
    e = mkf('e', 'I')
    pos = mkf('p', 'I')
    t, t2 = fresh('t', 'I'), fresh('t', 'I')
    A = lambda f: qassume(I, free, f)
    A(conj(le(ZERO, cnt), le(cnt, tmax(I, n, ZERO) if not I.ctx.entails(le(ZERO, n)) else n)))
    et = e(t)
    A(forall(t, implies(conj(le(ZERO, t), lt(t, cnt)),
                        conj(le(ZERO, et), lt(et, n), subst(c, {x: et}), eq(pos(et), t)))))
    A(forall((t, t2), implies(conj(le(ZERO, t), lt(t, t2), lt(t2, cnt)), lt(et, e(t2)))))
    px = pos(x)
    A(forall(x, implies(conj(le(ZERO, x), lt(x, n), c), conj(le(ZERO, px), lt(px, cnt), eq(e(px), x)))))
    for w in subterms(c):
        # instance at the position of a maximum or minimum
        if w.op == 'app' and w.sort == 'I' and w.args[0].startswith(('maxa_', 'mina_')) and x not in w.fv:
            pw = pos(w)
            A(implies(conj(le(ZERO, w), lt(w, n), subst(c, {x: w})), conj(le(ZERO, pw), lt(pw, cnt), eq(e(pw), w))))
    a = arr((cnt,), INT, lambda i: e(i[0]))
    a.memfn = lambda y: conj(le(ZERO, y), lt(y, n), subst(c, {x: y}))
    a.wit = pos
    a.enum = (n, pred)
    I.register_enum(e(ZERO).args[0], cnt, n, x, c, free)
    return a


def mem_of(I, L):
    """(membership predicate, last-position witness) of a 1-d list/array of ints"""
    if isinstance(L, tuple) and len(L) == 1 and isinstance(L[0], Arr):
        L = L[0]
    if isinstance(L, SSet):
        return L.mem, None
    if isinstance(L, (SList, Arr)) and getattr(L, 'memfn', None) is not None and getattr(L, 'wit', None) is not None:
        return L.memfn, L.wit
    src = getattr(L, 'src', None)
    if src is not None and getattr(src, 'memfn', None) is not None and getattr(src, 'wit', None) is not None:
        return src.memfn, src.wit
    c = I.concrete_items(L)
    if c is not None:
        ts = [term(x) for x in c]
        mem = lambda y: disj(*[eq(y, t) for t in ts])

        def wit(y):
            r = ZERO
            for k, t in enumerate(ts):
                r = ite(eq(y, t), num(k), r)
            return r
        return mem, wit
    if isinstance(L, Arr):
        n = L.shape[0]
        f = L.snap()
        get = lambda k: f((k,))
    else:
        n = L.length
        g0 = L.get
        get = lambda k: term(g0(k))
    t = fresh('t', 'I')
    body = I.ctx.norm(get(t))
    if body.sort == 'B' or (has_special(body)):
        raise Unsupported('membership in non-integer list')
    mkf, free = define(I, 'mem', [t], body, [n])
    mem = mkf('m', 'B')
    wit = mkf('w', 'I')
    x = fresh('x', body.sort)
    qassume(I, free, forall(t, implies(conj(le(ZERO, t), lt(t, n)), conj(mem(body), le(t, wit(body))))))
    w = wit(x)
    qassume(I, free, forall(x, implies(mem(x), conj(le(ZERO, w), lt(w, n), eq(subst(body, {t: w}), x)))))
    if isinstance(L, (SList, Arr)):
        L.memfn, L.wit = mem, wit
    return mem, wit


# ---------------------------------------------------------------- assignment

def write(I, o, cond, val):
    """o[idx] = val(idx) wherever cond(idx)"""
    if o.base is not None:
        vinv = o.vinv
        if vinv is None:
            raise Unsupported('write through a non-invertible view')
        if getattr(o, 'owner', None) is not None:
            I.mutating(o)

        def c2(b):
            c, v = vinv(b)
            return conj(c, cond(v)) if c is not FALSE else FALSE

        def v2(b):
            return val(vinv(b)[1])
        write(I, o.base, c2, v2)
        return
    I.mutating(o)
    old = o.fn

    def new(i):
        c = cond(i)
        if c is FALSE:
            return old(i)
        if c is TRUE:
            return val(i)
        return ite(c, val(i), old(i))
    o.fn = memo(new)
    o.gathered = None


def cast_store(I, dt, v):
    """conversion of an assigned value to the array dtype"""
    if v.dt == dt:
        return v.snap()
    f = v.snap()
    s = v.dt
    if dt == INT and s == FLT:
        return lambda i: (f(i) if f(i).sort == 'I' else app('trunc', [f(i)], 'I'))
    return lambda i: conv(f(i), s, dt)


def setitem(I, o, idx, v):
    if isinstance(v, Opaque) or v is None:
        raise Unsupported('array assignment of %r' % (v,))
    items = split_index(I, o, idx)
    adv = [k for k, x in enumerate(items) if is_adv(x)]
    S = _i().SliceV
    if not adv:
        w = basic_view(I, o, items)
        a = asarr(I, v)
        if not w.shape:
            if a.shape:
                if not all(is_one(I, s) for s in a.shape):
                    raise _i().PyRaise(ExcV('ValueError', ('setting an array element with a sequence',)))
                t0 = a.get(*[ZERO] * len(a.shape))
                a = Arr((), a.dt, lambda i: t0)
            f = cast_store(I, o.dt, a)
            t = f(())
            write(I, w, lambda i: TRUE, lambda i: t)
            return
        g = assign_values(I, w.shape, a)
        g = cast_fn(g, a.dt, o.dt)
        write(I, w, lambda i: TRUE, g)
        return
    if len(items) == 1 and isinstance(items[0], Arr) and items[0].dt == BOO and len(items[0].shape) == len(o.shape):
        mask_assign(I, o, items[0], v)
        return
    w = basic_view(I, o, [S(None, None, None) if k in adv else x for k, x in enumerate(items)])
    pos = []
    ax = 0
    for k, x in enumerate(items):
        if k in adv:
            pos.append(ax)
            ax += 1
        elif x is None or isinstance(x, S):
            ax += 1
    if len(adv) == 1 and isinstance(items[adv[0]], Arr) and items[adv[0]].dt == BOO:
        mk_ = items[adv[0]]
        if len(mk_.shape) == 1 and len(w.shape) == 1:
            mask_assign(I, w, mk_, v)
            return
    raw = [items[k] for k in adv]
    ixs = [index_array(I, x, w.shape[p]) for x, p in zip(raw, pos)]
    for ix, p in zip(ixs, pos):
        check_index_array(I, ix, w.shape[p])
    a = asarr(I, v)
    if len(ixs) == 1:
        p = pos[0]
        L = ixs[0]
        if len(L.shape) != 1:
            raise Unsupported('2d index assignment')
        mem, wit = mem_of(I, L)
        tgt = w.shape[:p] + (L.shape[0],) + w.shape[p + 1:]
        if len(a.shape) == len(tgt) + 1 and is_one(I, a.shape[0]):
            a = getitem(I, a, 0)
        g = cast_fn(assign_values(I, tgt, a), a.dt, o.dt)
        nd = len(tgt)
        dep = len(a.shape) >= nd - p and not (len(a.shape) == nd - p and False)
        # does the value depend on the position in the list?
        kd = p - (nd - len(a.shape))
        uses = kd >= 0 and not is_one(I, a.shape[kd])
        if uses:
            write(I, w, lambda i: mem(i[p]), lambda i: g(i[:p] + (wit(i[p]),) + i[p + 1:]))
        else:
            write(I, w, lambda i: mem(i[p]), lambda i: g(i[:p] + (ZERO,) + i[p + 1:]))
        return
    if len(ixs) == 2 and len(w.shape) == 2:
        A, B = ixs
        if len(A.shape) == 1 and len(B.shape) == 1:
            same = deq(I, A.shape[0], B.shape[0])
            if not same:
                raise Unsupported('paired index assignment')
            t = fresh('t', 'I')
            if a.shape:
                if getattr(A, 'unr', None) is None:
                    raise Unsupported('paired index array assignment')
            ta, tb = I.ctx.norm(A.get(t)), I.ctx.norm(B.get(t))
            val = a.get() if not a.shape else None
            f = cast_store(I, o.dt, a)
            if ta is tb:
                mem, wit = mem_of(I, A)
                if a.shape:
                    raise Unsupported('paired values')
                write(I, w, lambda i: conj(eq(i[0], i[1]), mem(i[0])), lambda i: f(()))
                return
            if getattr(A, 'pairmem', None) is not None and getattr(B, 'pairmem', None) is A.pairmem:
                pm = A.pairmem
                write(I, w, lambda i: pm(i[0], i[1]), lambda i: f(()))
                return
            # general: a fresh pair predicate
            mkf, free = define(I, 'pm', [t], ta, [tb, A.shape[0]])
            pm = mkf('m', 'B')
            wt = mkf('w', 'I')
            x, y = fresh('x', 'I'), fresh('y', 'I')
            qassume(I, free, forall(t, implies(conj(le(ZERO, t), lt(t, A.shape[0])), pm(ta, tb))))
            qassume(I, free, forall((x, y), implies(pm(x, y), conj(
                le(ZERO, wt(x, y)), lt(wt(x, y), A.shape[0]), eq(subst(ta, {t: wt(x, y)}), x), eq(subst(tb, {t: wt(x, y)}), y)))))
            write(I, w, lambda i: pm(i[0], i[1]), lambda i: f(()))
            return
        # ix_-like
        if len(A.shape) == 2 and len(B.shape) == 2 and is_one(I, A.shape[1]) and is_one(I, B.shape[0]):
            A1, B1 = getitem(I, A, (S(None, None, None), 0)), getitem(I, B, (0, S(None, None, None)))
            ma, wa = mem_of(I, A1)
            mb, wb = mem_of(I, B1)
            g = cast_fn(assign_values(I, (A.shape[0], B.shape[1]), a), a.dt, o.dt)
            write(I, w, lambda i: conj(ma(i[0]), mb(i[1])), lambda i: g((wa(i[0]), wb(i[1]))))
            return
    raise Unsupported('advanced assignment')


def cast_fn(g, src, dst):
    if src == dst:
        return g
    if dst == INT and src == FLT:
        return lambda i: (g(i) if g(i).sort == 'I' else app('trunc', [g(i)], 'I'))
    return lambda i: conv(g(i), src, dst)


def assign_values(I, shape, a):
    # leading ones of the value are dropped
    while len(a.shape) > len(shape):
        if not is_one(I, a.shape[0]):
            raise _i().PyRaise(ExcV('ValueError', ('broadcast',)))
        a = getitem(I, a, 0)
        if not isinstance(a, Arr):
            a = asarr(I, a)
    n, m = len(shape), len(a.shape)
    for k in range(m):
        s = a.shape[k]
        if is_one(I, s):
            continue
        if not deq(I, s, shape[n - m + k]):
            if not I.decide(eq(s, shape[n - m + k])):
                raise _i().PyRaise(ExcV('ValueError', ('broadcast',)))
    return bget(I, a, shape)


def mask_assign(I, o, mask, v):
    m = mask.snap()
    a = asarr(I, v)
    if not a.shape or all(is_one(I, s) for s in a.shape):
        z = a.get(*[ZERO] * len(a.shape))
        z = cast_fn(lambda i: z0, a.dt, o.dt)(()) if False else cast_fn((lambda i, z0=z: z0), a.dt, o.dt)(())
        write(I, o, lambda i: m(i), lambda i: z)
        return
    if a.gathered is not None:
        src, mask2, msh = a.gathered
        vs = tuple(fresh('g', 'I') for _ in o.shape)
        if I.ctx.norm(m(vs)) is I.ctx.norm(mask2(vs)) or same_mask(I, vs, o.shape, m(vs), mask2(vs)):
            g = cast_fn(src, a.dt, o.dt)
            write(I, o, lambda i: m(i), lambda i: g(i))
            return
    # positions in scan order
    rank = I.fresh_fn('rank', 'I')
    vs = tuple(fresh('g', 'I') for _ in o.shape)
    inr = TRUE
    for x, n in zip(vs, o.shape):
        inr = conj(inr, le(ZERO, x), lt(x, n))
    r = rank(*vs)
    cvs = [(fresh('s', 'I'), d) for d in o.shape]
    cnt = sum_over(I, cvs, lambda i: ivr(m(i)), [x for x, _ in cvs])
    I.oblige('masked assignment lengths agree', eq(a.shape[0], cnt))
    I.assume(forall(vs, implies(conj(inr, m(vs)), conj(le(ZERO, r), lt(r, a.shape[0])))))
    g = cast_fn(a.snap(), a.dt, o.dt)
    write(I, o, lambda i: m(i), lambda i: g((rank(*i),)))


def same_mask(I, vs, shape, a, b):
    inr = [c for x, n in zip(vs, shape) for c in (le(ZERO, x), lt(x, n))]
    return bool(prove(I.ctx.ext(*inr), conj(implies(a, b), implies(b, a))))


def inplace(I, cur, r):
    r = asarr(I, r)
    if cur.dt == INT and r.dt == FLT:
        raise _i().PyRaise(ExcV('TypeError', ('ufunc casting float to int',)))
    if len(r.shape) != len(cur.shape):
        raise _i().PyRaise(ExcV('ValueError', ('broadcast',)))
    f = cast_fn(assign_values(I, cur.shape, r), r.dt, cur.dt)
    write(I, cur, lambda i: TRUE, f)


def cast_like(I, r, cur):
    r = asarr(I, r)
    if cur.dt == INT and r.dt == FLT:
        raise _i().PyRaise(ExcV('TypeError', ('ufunc casting float to int',)))
    return r


# ---------------------------------------------------------------- reductions

def reduce_bool(I, a, axis, kind, keepdims=False):
    a = asarr(I, a)
    f = a.snap()
    tb = lambda t: t if t.sort == 'B' else ne(t, ZERO)
    ax = norm_axis(I, axis, len(a.shape))
    rest = [d for d in range(len(a.shape)) if d not in ax]

    def g(idx):
        vs = [(fresh('r', 'I'), I.ctx.norm(a.shape[d])) for d in ax]
        full = [None] * len(a.shape)
        for d, x in zip(rest, idx):
            full[d] = x
        for d, (v, n) in zip(ax, vs):
            full[d] = v
        return quant_over(I, vs, lambda i: tb(f(i)), full, kind)
    sh = tuple(a.shape[d] for d in rest)
    if not sh:
        return SV(g(()), 'npbool')
    named = lambda i: name_bool(I, g(i))
    if keepdims:
        sh2 = tuple(ONE if d in ax else n for d, n in enumerate(a.shape))
        return arr(sh2, BOO, lambda i: named(tuple(i[d] for d in rest)))
    return arr(sh, BOO, named)


def over_members(I, v, n, body):
    """a range over the positions of an enumeration becomes the range over its members"""
    rng = conj(le(ZERO, v), lt(v, n))
    for s in all_subterms(body):
        if s.op == 'app' and s.args[0] in I.enums and s.args[-1] is v:
            cnt, m, x, cond, free = I.enums[s.args[0]]
            sub_ = dict(zip(free, s.args[1:-1]))
            if len(s.args) != len(free) + 2 or any(v in a.fv for a in s.args[1:-1]) or I.ctx.norm(subst(cnt, sub_)) is not n:
                continue
            y = fresh('y', 'I')
            b = tm.map_atoms(body, lambda t: y if t is s else None)
            if v in b.fv:
                b = subst(b, {v: app('enp_' + s.args[0][4:], list(s.args[1:-1]) + [y], 'I')})
            return y, conj(le(ZERO, y), lt(y, subst(m, sub_)), subst(subst(cond, sub_), {x: y})), b
    return v, rng, body


def quant_over(I, vs, f, full, kind):
    if not vs:
        return f(tuple(full))
    v, n = vs[0]
    if n.op == 'num' and n.args[0] <= 12:
        parts = []
        for k in range(int(n.args[0])):
            parts.append(quant_over(I, vs[1:], f, [num(k) if x is v else x for x in full], kind))
        return conj(*parts) if kind == 'all' else disj(*parts)
    body = quant_over(I, vs[1:], f, full, kind)
    v, rng, body = over_members(I, v, n, body)
    q = forall if kind == 'all' else exists
    if body.op == q.__name__:
        more, body = tm.open_binder(body)
    else:
        more = []
    return q((v, *more), implies(rng, body) if kind == 'all' else conj(rng, body))


def extremum(I, f, n, kind):
    """max/min of f over [0,n): term plus first index attaining it"""
    n = I.ctx.norm(n)
    if n.op == 'num' and n.args[0] <= 8:
        k = int(n.args[0])
        if k == 0:
            raise _i().PyRaise(ExcV('ValueError', ('empty',)))
        best, arg = f(ZERO), ZERO
        for j in range(1, k):
            x = f(num(j))
            c = lt_s(best, x) if kind == 'max' else lt_s(x, best)
            arg = ite(c, num(j), arg)
            best = ite(c, x, best)
        return best, arg
    I.oblige('non-empty reduction', lt(ZERO, n))
    v = fresh('x', 'I')
    body = I.ctx.norm(f(v))
    if has_special(body):
        body = simp(I.ctx.ext(le(ZERO, v), lt(v, n)), body)
        if has_special(body):
            raise Unsupported('extremum of non-finite values')
    mkf, free = define(I, kind, [v], body, [n])
    a = mkf('a', 'I')()
    m = subst(body, {v: a})
    top = lambda t: le(t, m) if kind == 'max' else le(m, t)
    strict = lambda t: lt(t, m) if kind == 'max' else lt(m, t)
    q = lambda c: qassume(I, free, implies(lt(ZERO, n), c))
    q(conj(le(ZERO, a), lt(a, n)))
    qassume(I, free, forall(v, implies(conj(le(ZERO, v), lt(v, n)), top(body))))
    qassume(I, free, forall(v, implies(conj(le(ZERO, v), lt(v, n), lt(v, a)), strict(body))))
    return m, a


def np_extremum(I, a, axis, kind, want='val', keepdims=False):
    a = asarr(I, a)
    f = a.snap()
    if axis is None:
        if len(a.shape) == 0:
            return scal(a.get(), a.dt)
        if len(a.shape) == 1:
            m, k = extremum(I, lambda i: num01(f((i,))), a.shape[0], kind)
        else:
            if want == 'arg':
                raise Unsupported('argmax of 2d')
            g = lambda i: extremum(I, lambda j: num01(f((i, j))), a.shape[1], kind)[0]
            m, k = extremum(I, g, a.shape[0], kind)
        return scal(m, a.dt) if want == 'val' else scal(k, INT)
    ax = norm_axis(I, axis, len(a.shape))
    if len(ax) != 1:
        raise Unsupported('axis')
    d = ax[0]
    if len(a.shape) == 1:
        m, k = extremum(I, lambda i: num01(f((i,))), a.shape[0], kind)
        return scal(m, a.dt) if want == 'val' else scal(k, INT)

    def g(idx):
        m, k = extremum(I, lambda j: num01(f(idx[:d] + (j,) + idx[d:])), a.shape[d], kind)
        return m if want == 'val' else k
    sh = a.shape[:d] + a.shape[d + 1:]
    dt = a.dt if want == 'val' else INT
    if keepdims:
        return arr(a.shape[:d] + (ONE,) + a.shape[d + 1:], dt, lambda i: g(i[:d] + i[d + 1:]))
    return arr(sh, dt, g)


def isclose_t(I, a, b, rtol=None, atol=None):
    rt = num(Fraction(1, 100000)) if rtol is None else rtol
    at = num(Fraction(1, 10 ** 8)) if atol is None else atol
    if has_special(a) or has_special(b):
        out = FALSE
        for c, v in case_leaves(a):
            for c2, w in case_leaves(b):
                if tm._special(v) or tm._special(w):
                    r = TRUE if (v is w and v is not NAN) else FALSE
                else:
                    r = isclose_t(I, v, w, rtol, atol)
                out = disj(out, conj(c, c2, r))
        return out
    if a is b:
        return TRUE
    if b.op == 'num':
        ab = num(abs(b.args[0]))
    elif I.ctx.entails(le(ZERO, b)):
        ab = b
    else:
        ab = ite(le(ZERO, b), b, neg(b))
    tol = add(at, mul(rt, ab))
    return conj(le(sub(a, b), tol), le(sub(b, a), tol))


def abs_t(I, t):
    def f(v):
        if v is NAN:
            return NAN
        if v in (PINF, NINF):
            return PINF
        if v.op == 'num':
            return num(abs(v.args[0]))
        if I.ctx.entails(le(ZERO, v)):
            return v
        return ite(le(ZERO, v), v, neg(v))
    return tm._map_case(f, t)


# ---------------------------------------------------------------- numpy namespace

NP = {}


def npf(*names):
    def deco(f):
        for n in names:
            NP[n] = f
        return f
    return deco


def _fill(I, shape, dt, t):
    sh = shape_of(I, shape)
    for s in sh:
        if s.op == 'num' and s.args[0] < 0:
            raise _i().PyRaise(ExcV('ValueError', ('negative dimensions',)))
    return Arr(sh, dt, lambda i: t)


@npf('zeros', 'empty')
def _zeros(I, shape, dtype=None, order=None):
    dt = dt_of(dtype) or FLT
    return _fill(I, shape, dt, FALSE if dt == BOO else ZERO)


@npf('ones')
def _ones(I, shape, dtype=None):
    dt = dt_of(dtype) or FLT
    return _fill(I, shape, dt, TRUE if dt == BOO else ONE)


@npf('full')
def _full(I, shape, fill_value, dtype=None):
    a = asarr(I, fill_value)
    dt = dt_of(dtype) or a.dt
    return _fill(I, shape, dt, conv(a.get(), a.dt, dt) if a.dt != dt else a.get())


@npf('zeros_like')
def _zeros_like(I, a, dtype=None):
    a = asarr(I, a)
    dt = dt_of(dtype) or a.dt
    return Arr(a.shape, dt, lambda i: FALSE if dt == BOO else ZERO)


@npf('ones_like')
def _ones_like(I, a, dtype=None):
    a = asarr(I, a)
    dt = dt_of(dtype) or a.dt
    return Arr(a.shape, dt, lambda i: TRUE if dt == BOO else ONE)


@npf('full_like')
def _full_like(I, a, fill_value, dtype=None):
    a = asarr(I, a)
    return _full(I, tuple(SV(s, 'int') for s in a.shape), fill_value, dtype or {'f': 'float', 'i': 'int', 'b': 'bool'}[a.dt])


@npf('eye', 'identity')
def _eye(I, n, M=None, k=0, dtype=None):
    n = size_of(I, n)
    m = n if M is None else size_of(I, M)
    dt = dt_of(dtype) or FLT
    kk = term(k)
    return arr((n, m), dt, lambda i: (ivr if dt != BOO else (lambda c: c))(eq(sub(i[1], i[0]), kk)))


@npf('copy', 'array', 'asarray', 'ascontiguousarray')
def _array(I, a, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(a, LazyGen):
        raise Unsupported('array of generator')
    x = asarr(I, a)
    f, s = x.snap(), x.dt
    dt = dt_of(dtype) or s
    r = arr(x.shape, dt, f if dt == s else (lambda i: conv(f(i), s, dt)))
    for at in ('memfn', 'wit', 'enum', 'src'):
        if getattr(x, at, None) is not None:
            setattr(r, at, getattr(x, at))
    if dt == s:
        r.gathered = x.gathered
    return r


@npf('arange')
def _arange(I, start, stop=None, step=None, dtype=None):
    if step is not None and step != 1:
        raise Unsupported('arange step')
    lo, hi = (ZERO, term(start)) if stop is None else (term(start), term(stop))
    if lo.sort != 'I' or hi.sort != 'I':
        raise Unsupported('float arange')
    n = sub(hi, lo)
    if not I.ctx.entails(le(ZERO, n)):
        n = ite(le(ZERO, n), n, ZERO)
    dt = dt_of(dtype) or INT
    a = arr((n,), dt, lambda i: add(lo, i[0]))
    a.memfn = lambda y: conj(le(lo, y), lt(y, hi))
    a.wit = lambda y: sub(y, lo)
    return a


@npf('diag')
def _diag(I, v, k=0):
    a = asarr(I, v)
    f = a.snap()
    kk = term(k)
    if len(a.shape) == 1:
        n = add(a.shape[0], num(abs(kk.args[0]))) if kk.op == 'num' else None
        if n is None:
            raise Unsupported('diag k')
        off = num(max(0, -int(kk.args[0])))
        z = FALSE if a.dt == BOO else ZERO
        return arr((n, n), a.dt, lambda i: ite(eq(sub(i[1], i[0]), kk), f((sub(i[0], off),)), z))
    if kk is not ZERO:
        raise Unsupported('diag of matrix with k')
    if not deq(I, a.shape[0], a.shape[1]):
        raise Unsupported('diag of rectangular matrix')
    return arr((a.shape[0],), a.dt, lambda i: f((i[0], i[0])))


@npf('diagflat')
def _diagflat(I, v, k=0):
    a = asarr(I, v)
    if len(a.shape) != 1:
        raise Unsupported('diagflat')
    return _diag(I, a, k)


@npf('fill_diagonal')
def _fill_diag(I, a, val, wrap=False):
    v = asarr(I, val)
    if v.shape:
        f = cast_store(I, a.dt, v)
        write(I, a, lambda i: eq(i[0], i[1]), lambda i: f((i[0],)))
    else:
        t = cast_store(I, a.dt, v)(())
        write(I, a, lambda i: eq(i[0], i[1]), lambda i: t)


@npf('diag_indices_from', 'diag_indices')
def _diag_idx(I, a, ndim=2):
    n = a.shape[0] if isinstance(a, Arr) else size_of(I, a)
    r = _arange(I, SV(n, 'int'))
    return (r, r)


@npf('dot')
def _dot(I, a, b):
    return matmul(I, a, b)


@npf('matmul')
def _matmul(I, a, b):
    return matmul(I, a, b)


@npf('inner')
def _inner(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    if len(b.shape) == 2:
        b = transpose(I, b)
    return matmul(I, a, b)


@npf('multi_dot')
def _multi(I, arrays):
    xs = I.concrete_items(arrays)
    r = xs[0]
    for x in xs[1:]:
        r = matmul(I, r, x)
    return r


@npf('vdot')
def _vdot(I, a, b):
    return matmul(I, a, b)


@npf('outer')
def _outer(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    f, g = a.snap(), b.snap()
    return arr((a.shape[0], b.shape[0]), merge_dt([a.dt, b.dt]), lambda i: mul(num01(f((i[0],))), num01(g((i[1],)))))


@npf('trace')
def _trace(I, a):
    return np_sum(I, _diag(I, a))


for _n, _o in (('add', 'Add'), ('subtract', 'Sub'), ('multiply', 'Mult'), ('divide', 'Div'), ('true_divide', 'Div'),
               ('power', 'Pow'), ('mod', 'Mod'), ('remainder', 'Mod'), ('floor_divide', 'FloorDiv')):
    NP[_n] = (lambda o: lambda I, a, b, **k: binary(I, o, a, b) if isinstance(a, (Arr, list, SList)) or isinstance(b, (Arr, list, SList))
              else I.binop(o, as_np(a), b))(_o)


def as_np(a):
    t = ntype(a)
    if t in ('int',):
        return SV(term(a), 'npint')
    if t in ('float',):
        return SV(term(a), 'npfloat')
    return a


for _n, _o in (('equal', 'Eq'), ('not_equal', 'NotEq'), ('less', 'Lt'), ('less_equal', 'LtE'), ('greater', 'Gt'), ('greater_equal', 'GtE')):
    NP[_n] = (lambda o: lambda I, a, b: compare(I, o, a, b))(_o)


@npf('negative')
def _neg(I, a):
    return unary(I, 'USub', asarr(I, a))


@npf('logical_and')
def _land(I, a, b):
    return binary(I, 'BitAnd', asarr(I, a, BOO), asarr(I, b, BOO))


@npf('logical_or')
def _lor(I, a, b):
    return binary(I, 'BitOr', asarr(I, a, BOO), asarr(I, b, BOO))


@npf('logical_not', 'invert')
def _lnot(I, a):
    a = asarr(I, a, BOO)
    return unary(I, 'Invert', a)


@npf('sum')
def _sum(I, a, axis=None, dtype=None, keepdims=False, out=None):
    if isinstance(a, LazyGen):
        return I.call(I.lib.builtin(I, 'sum'), [a])
    return np_sum(I, a, axis, dtype, keepdims)


@npf('nansum')
def _nansum(I, a, axis=None, dtype=None, keepdims=False):
    return np_sum(I, a, axis, dtype, keepdims, nan=True)


@npf('mean')
def _mean(I, a, axis=None):
    a = asarr(I, a)
    if len(a.shape) != 1:
        raise Unsupported('mean')
    s = term(np_sum(I, a))
    return scal(divide_terms(I, s, a.shape[0]), FLT)


@npf('transpose')
def _transpose(I, a, axes=None):
    return transpose(I, a)


@npf('conjugate', 'conj', 'real')
def _real(I, a):
    return a


@npf('imag')
def _imag(I, a):
    return elementwise(I, a, lambda t: ZERO)


@npf('tile')
def _tile(I, a, reps):
    a = asarr(I, a)
    f = a.snap()
    if isinstance(reps, tuple) and len(reps) == 2:
        r0, r1 = size_of(I, reps[0]), size_of(I, reps[1])
        if len(a.shape) == 1:
            if r1 is not ONE:
                raise Unsupported('tile')
            return arr((r0, a.shape[0]), a.dt, lambda i: f((i[1],)))
        if is_one(I, a.shape[0]) and r1 is ONE:
            return arr((r0, a.shape[1]), a.dt, lambda i: f((ZERO, i[1])))
        if is_one(I, a.shape[1]) and r0 is ONE:
            return arr((a.shape[0], r1), a.dt, lambda i: f((i[0], ZERO)))
        raise Unsupported('tile')
    r = size_of(I, reps[0] if isinstance(reps, tuple) else reps)
    if len(a.shape) == 1 and is_one(I, a.shape[0]):
        return arr((r,), a.dt, lambda i: f((ZERO,)))
    if len(a.shape) == 2 and is_one(I, a.shape[1]):
        return arr((a.shape[0], r), a.dt, lambda i: f((i[0], ZERO)))
    if len(a.shape) == 0:
        return arr((r,), a.dt, lambda i: f(()))
    if len(a.shape) == 1:
        n = a.shape[0]
        div_facts(I, r, n)
        return arr((mul(n, r),), a.dt, lambda i: f((fmod(i[0], n),)))
    raise Unsupported('tile')


def div_facts(I, n, m):
    """0 <= x < n m: the quotient by m lies in [0, n), the remainder in [0, m)"""
    if m.op == 'num' and n.op == 'num':
        return
    x = fresh('x', 'I')
    q, r = app('fdiv', [x, m], 'I'), app('mod', [x, m], 'I')
    I.assume(forall(x, implies(conj(lt(ZERO, m), le(ZERO, x), lt(x, mul(n, m))), conj(le(ZERO, q), lt(q, n), le(ZERO, r), lt(r, m)))))


def fdiv(x, m):
    if x.op == 'num' and m.op == 'num':
        return num(x.args[0] // m.args[0])
    return app('fdiv', [x, m], 'I')


def fmod(x, m):
    if x.op == 'num' and m.op == 'num':
        return num(x.args[0] % m.args[0])
    return app('mod', [x, m], 'I')


@npf('repeat')
def _repeat(I, a, repeats, axis=None):
    a = asarr(I, a)
    f = a.snap()
    r = size_of(I, repeats)
    if not a.shape:
        return arr((r,), a.dt, lambda i: f(()))
    if axis == 1 and is_one(I, a.shape[1]):
        return arr((a.shape[0], r), a.dt, lambda i: f((i[0], ZERO)))
    if axis == 0 and is_one(I, a.shape[0]):
        return arr((r,) + a.shape[1:], a.dt, lambda i: f((ZERO,) + i[1:]))
    if len(a.shape) == 1 and is_one(I, a.shape[0]):
        return arr((r,), a.dt, lambda i: f((ZERO,)))
    if len(a.shape) == 1 and axis in (None, 0):
        div_facts(I, a.shape[0], r)
        return arr((mul(a.shape[0], r),), a.dt, lambda i: f((fdiv(i[0], r),)))
    raise Unsupported('repeat')


def concat(I, xs, axis):
    xs = [asarr(I, x) for x in xs]
    nd = len(xs[0].shape)
    axis = axis % nd
    dt = merge_dt([x.dt for x in xs])
    offs, o = [], ZERO
    for x in xs:
        if len(x.shape) != nd:
            raise _i().PyRaise(ExcV('ValueError', ('dims',)))
        offs.append(o)
        o = add(o, x.shape[axis])
        for d in range(nd):
            if d != axis and not deq(I, x.shape[d], xs[0].shape[d]):
                raise _i().PyRaise(ExcV('ValueError', ('dims',)))
    fs = [cast_fn(x.snap(), x.dt, dt) for x in xs]

    def h(i):
        r = None
        for x, f, off in reversed(list(zip(xs, fs, offs))):
            v = f(i[:axis] + (sub(i[axis], off),) + i[axis + 1:])
            r = v if r is None else ite(lt(i[axis], add(off, x.shape[axis])), v, r)
        return r
    return arr(xs[0].shape[:axis] + (o,) + xs[0].shape[axis + 1:], dt, h)


@npf('concatenate')
def _concat(I, arrays, axis=0):
    return concat(I, I.concrete_items(arrays), axis)


@npf('hstack')
def _hstack(I, tup):
    xs = [asarr(I, x) for x in I.concrete_items(tup)]
    return concat(I, xs, 0 if len(xs[0].shape) == 1 else 1)


@npf('vstack')
def _vstack(I, tup):
    c = I.concrete_items(tup)
    if c is None:
        return asarr(I, tup)
    xs = []
    for x in c:
        x = asarr(I, x)
        if len(x.shape) == 1:
            x = getitem(I, x, (None, _i().SliceV(None, None, None)))
        xs.append(x)
    return concat(I, xs, 0)


@npf('stack')
def _stack(I, arrays, axis=0):
    if axis != 0:
        raise Unsupported('stack axis')
    return _array(I, arrays)


@npf('append')
def _append(I, a, values, axis=None):
    a, v = asarr(I, a), asarr(I, values)
    if axis is None:
        a, v = _ravel(I, a), _ravel(I, v)
        axis = 0
        if a.shape[0] is ZERO and a.dt == FLT and v.dt == INT and isinstance(a, Arr):
            pass
    return concat(I, [a, v], axis)


@npf('delete')
def _delete(I, a, obj, axis=None):
    a = asarr(I, a)
    if len(a.shape) != 1:
        raise Unsupported('delete')
    k = check_index(I, term(obj), a.shape[0])
    f = a.snap()
    return arr((sub(a.shape[0], ONE),), a.dt, lambda i: ite(lt(i[0], k), f(i), f((add(i[0], ONE),))))


@npf('isclose')
def _isclose(I, a, b, rtol=None, atol=None, equal_nan=False):
    a, b = asarr(I, a), asarr(I, b)
    sh = bshape(I, [a.shape, b.shape])
    f, g = bget(I, a, sh), bget(I, b, sh)
    rt = None if rtol is None else term(rtol)
    at = None if atol is None else term(atol)
    h = lambda i: isclose_t(I, num01(f(i)), num01(g(i)), rt, at)
    if not sh:
        return SV(h(()), 'npbool')
    return arr(sh, BOO, h)


@npf('allclose')
def _allclose(I, a, b, rtol=None, atol=None, equal_nan=False):
    r = _isclose(I, a, b, rtol, atol)
    if isinstance(r, Arr):
        r = reduce_bool(I, r, None, 'all')
    return mkval(r.t, 'bool')


@npf('array_equal')
def _array_equal(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    if len(a.shape) != len(b.shape):
        return False
    c = TRUE
    for x, y in zip(a.shape, b.shape):
        c = conj(c, eq(x, y))
    if not I.decide(c):
        return False
    r = reduce_bool(I, compare(I, 'Eq', a, b), None, 'all') if a.shape else compare(I, 'Eq', a, b)
    return mkval(r.t, 'bool')


for _n, _p in (('isnan', is_nan), ('isinf', is_inf), ('isfinite', is_finite), ('isreal', lambda t: TRUE), ('iscomplex', lambda t: FALSE)):
    NP[_n] = (lambda p: lambda I, a: elementwise_b(I, a, p))(_p)


def elementwise_b(I, a, p):
    if ntype(a) is None and not isinstance(a, (Arr, list, SList)):
        raise _i().PyRaise(ExcV('TypeError', ('ufunc',)))
    a = asarr(I, a)
    f = a.snap()
    r = arr(a.shape, BOO, lambda i: p(num01(f(i))))
    return r if a.shape else SV(r.get(), 'npbool')


@npf('any')
def _any(I, a, axis=None, keepdims=False):
    return reduce_bool(I, a, axis, 'any', keepdims)


@npf('all')
def _all(I, a, axis=None, keepdims=False):
    return reduce_bool(I, a, axis, 'all', keepdims)


@npf('count_nonzero')
def _cnz(I, a, axis=None):
    a = asarr(I, a, BOO)
    return np_sum(I, a, axis)


@npf('where')
def _where(I, c, x=None, y=None):
    c = asarr(I, c, BOO)
    if x is not None:
        x, y = asarr(I, x), asarr(I, y)
        sh = bshape(I, [c.shape, x.shape, y.shape])
        f, g, h = bget(I, c, sh), bget(I, x, sh), bget(I, y, sh)
        dt = merge_dt([x.dt, y.dt])
        return arr(sh, dt, lambda i: ite(f(i), conv(g(i), x.dt, dt), conv(h(i), y.dt, dt)))
    return _nonzero(I, c)


@npf('nonzero')
def _nonzero(I, c):
    c = asarr(I, c, BOO)
    f = c.snap()
    if len(c.shape) == 1:
        return (enumerate_pred(I, c.shape[0], lambda k: f((k,))),)
    if len(c.shape) == 2:
        r = I.fresh_fn('nzr', 'I')
        s = I.fresh_fn('nzc', 'I')
        n = I.fresh('nzn', 'I')
        t = fresh('t', 'I')
        x, y = fresh('x', 'I'), fresh('y', 'I')
        I.assume(le(ZERO, n))
        I.assume(forall(t, implies(conj(le(ZERO, t), lt(t, n)), conj(
            le(ZERO, r(t)), lt(r(t), c.shape[0]), le(ZERO, s(t)), lt(s(t), c.shape[1]), f((r(t), s(t)))))))
        w = I.fresh_fn('nzw', 'I')
        I.assume(forall((x, y), implies(conj(le(ZERO, x), lt(x, c.shape[0]), le(ZERO, y), lt(y, c.shape[1]), f((x, y))),
                                        conj(le(ZERO, w(x, y)), lt(w(x, y), n), eq(r(w(x, y)), x), eq(s(w(x, y)), y)))))
        a, b = arr((n,), INT, lambda i: r(i[0])), arr((n,), INT, lambda i: s(i[0]))
        pm = lambda i, j: conj(le(ZERO, i), lt(i, c.shape[0]), le(ZERO, j), lt(j, c.shape[1]), f((i, j)))
        a.pairmem = b.pairmem = pm
        return (a, b)
    raise Unsupported('nonzero')


@npf('flatnonzero')
def _flatnonzero(I, a):
    a = asarr(I, a, BOO)
    if len(a.shape) == 1:
        return _nonzero(I, a)[0]
    if len(a.shape) == 2:
        f = a.snap()
        n = mul(a.shape[0], a.shape[1])
        return enumerate_pred(I, n, lambda k: f((app('fdiv', [k, a.shape[1]], 'I'), app('mod', [k, a.shape[1]], 'I'))))
    raise Unsupported('flatnonzero')


@npf('argwhere')
def _argwhere(I, a):
    a = asarr(I, a, BOO)
    r = _nonzero(I, a)
    cols = [x.snap() for x in r]
    return arr((r[0].shape[0], num(len(r))), INT, lambda i: pick(i[1], [c((i[0],)) for c in cols]))


@npf('max', 'amax', 'nanmax')
def _max(I, a, axis=None, keepdims=False):
    return np_extremum(I, a, axis, 'max', 'val', keepdims)


@npf('min', 'amin', 'nanmin')
def _min(I, a, axis=None, keepdims=False):
    return np_extremum(I, a, axis, 'min', 'val', keepdims)


@npf('argmax')
def _argmax(I, a, axis=None):
    return np_extremum(I, a, axis, 'max', 'arg')


@npf('argmin')
def _argmin(I, a, axis=None):
    return np_extremum(I, a, axis, 'min', 'arg')


@npf('maximum')
def _maximum(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    sh = bshape(I, [a.shape, b.shape])
    f, g = bget(I, a, sh), bget(I, b, sh)
    r = arr(sh, merge_dt([a.dt, b.dt]), lambda i: ite(le(f(i), g(i)), g(i), f(i)))
    return r if sh else scal(r.get(), r.dt)


@npf('minimum')
def _minimum(I, a, b):
    a, b = asarr(I, a), asarr(I, b)
    sh = bshape(I, [a.shape, b.shape])
    f, g = bget(I, a, sh), bget(I, b, sh)
    r = arr(sh, merge_dt([a.dt, b.dt]), lambda i: ite(le(f(i), g(i)), f(i), g(i)))
    return r if sh else scal(r.get(), r.dt)


def ordered(I, a, b):
    """a <= b everywhere is known; only tried for symbolic dimensions"""
    if all(lift(d).op == 'num' for d in a.shape) or b.shape:
        return False
    ix = tuple(fresh('t', 'I') for _ in a.shape)
    from . import prover
    return bool(prover.prove(I.ctx.ext(*[conj(le(ZERO, i), lt(i, d)) for i, d in zip(ix, a.shape)]), le(a.fn(ix), b.get())))


@npf('clip')
def _clip(I, a, lo, hi):
    a, lo, hi = asarr(I, a), asarr(I, lo), asarr(I, hi)
    if a.shape and ordered(I, Arr(a.shape, a.dt, lambda i, f=a.snap(): neg(f(i))), Arr((), a.dt, lambda i: neg(lo.get()))) and ordered(I, a, hi):
        return arr(a.shape, a.dt, a.snap())
    return _minimum(I, _maximum(I, a, lo), hi)


@npf('cumsum')
def _cumsum(I, a, axis=None):
    a = asarr(I, a)
    f = a.snap()
    nd = len(a.shape)
    if axis is None and nd != 1:
        raise Unsupported('cumsum')
    d = (axis or 0) % nd

    def h(i):
        v = fresh('s', 'I')
        return ssum(v, ZERO, add(i[d], ONE), num01(f(i[:d] + (v,) + i[d + 1:])))
    return arr(a.shape, INT if a.dt in (INT, BOO) else a.dt, h)


@npf('cumprod')
def _cumprod(I, a, axis=None):
    a = asarr(I, a)
    f = a.snap()
    nd = len(a.shape)
    if axis is None and nd != 1:
        raise Unsupported('cumprod')
    d = (axis or 0) % nd
    m = I.ctx.norm(a.shape[d])
    if m.op == 'num' and m.args[0] <= 12:
        def h(i):
            r = ZERO
            for k in reversed(range(int(m.args[0]))):
                c = ONE
                for j in range(k + 1):
                    c = mul(c, num01(f(i[:d] + (num(j),) + i[d + 1:])))
                r = c if i[d] is num(k) else ite(eq(i[d], num(k)), c, r) if i[d].op != 'num' else r
            return r
        return arr(a.shape, FLT, h)
    # C(.., k) with C(.., 0) = f(.., 0), C(.., k+1) = C(.., k) * f(.., k+1)
    vs = [fresh('c', 'I') for _ in a.shape]
    body = I.ctx.norm(num01(f(tuple(vs))))
    mkf, free = define(I, 'cprod%d' % d, vs, body)
    C = mkf('', 'R')
    at = lambda k: vs[:d] + [k] + vs[d + 1:]
    rng = TRUE
    for x, n in zip(vs, a.shape):
        rng = conj(rng, le(ZERO, x), lt(x, n))
    qassume(I, free, forall(vs, implies(conj(rng, eq(vs[d], ZERO)), eq(C(*vs), body))))
    prev = C(*at(sub(vs[d], ONE)))
    qassume(I, free, forall(vs, implies(conj(rng, lt(ZERO, vs[d])), eq(C(*vs), mul(prev, body)))))
    I.cprods = getattr(I, 'cprods', [])
    I.cprods.append((C(*vs), vs, d, body))
    return arr(a.shape, FLT, lambda i: C(*i))


@npf('prod')
def _prod(I, a, axis=None):
    a = asarr(I, a)
    if len(a.shape) != 1:
        raise Unsupported('prod')
    n = I.ctx.norm(a.shape[0])
    if n.op == 'num':
        r = ONE
        for k in range(int(n.args[0])):
            r = mul(r, a.get(num(k)))
        return scal(r, a.dt)
    c = _cumprod(I, a)
    return scal(ite(lt(ZERO, n), c.get(sub(n, ONE)), ONE), a.dt)


@npf('take')
def _take(I, a, indices, axis=None):
    S = _i().SliceV
    if axis is None:
        a = _ravel(I, a)
        return getitem(I, a, indices)
    idx = [S(None, None, None)] * len(a.shape)
    ix = I.concrete_items(indices) if not is_scalar(indices) else None
    if ix is not None:
        n = a.shape[axis]
        ts = [check_index(I, term(x), n) for x in ix]
        indices = _i().PList([SV(t, 'int') for t in ts])
    idx[axis] = indices
    return getitem(I, a, tuple(idx))


@npf('ravel')
def _ravel(I, a, order=None):
    a = asarr(I, a)
    if len(a.shape) == 0:
        t = a.get()
        return Arr((ONE,), a.dt, lambda i: t)
    if len(a.shape) == 1:
        r = view(a, a.shape, lambda i: i, lambda b: (TRUE, b))
        for at in ('memfn', 'wit', 'enum', 'src'):
            if getattr(a, at, None) is not None:
                setattr(r, at, getattr(a, at))
        return r
    if len(a.shape) == 2:
        if is_one(I, a.shape[0]):
            return view(a, (a.shape[1],), lambda i: (ZERO, i[0]), lambda b: (eq(b[0], ZERO), (b[1],)))
        if is_one(I, a.shape[1]):
            return view(a, (a.shape[0],), lambda i: (i[0], ZERO), lambda b: (eq(b[1], ZERO), (b[0],)))
        m = a.shape[1]
        if m.op == 'num' and a.shape[0].op == 'num':
            mm = int(m.args[0])
            f = a.snap()
            vals = [f((num(i), num(j))) for i in range(int(a.shape[0].args[0])) for j in range(mm)]
            return arr((num(len(vals)),), a.dt, lambda i: pick(i[0], vals))
        f = a.snap()
        n = mul(a.shape[0], m)
        r = arr((n,), a.dt, lambda i: f((app('fdiv', [i[0], m], 'I'), app('mod', [i[0], m], 'I'))))
        return r
    if len(a.shape) == 3 and is_one(I, a.shape[0]) and is_one(I, a.shape[1]):
        return view(a, (a.shape[2],), lambda i: (ZERO, ZERO, i[0]), lambda b: (TRUE, (b[2],)))
    raise Unsupported('ravel')


@npf('squeeze')
def _squeeze(I, a, axis=None):
    a = asarr(I, a)
    if len(a.shape) == 2 and (is_one(I, a.shape[0]) or is_one(I, a.shape[1])):
        return _ravel(I, a)
    return a


@npf('reshape')
def _reshape(I, a, newshape, order=None):
    a = asarr(I, a)
    sh = newshape if isinstance(newshape, tuple) else (newshape,)
    if len(sh) == 1 and sh[0] == -1:
        return _ravel(I, a)
    raise Unsupported('reshape')


@npf('atleast_2d')
def _atleast2(I, a):
    a = asarr(I, a)
    if len(a.shape) == 1:
        return getitem(I, a, (None, _i().SliceV(None, None, None)))
    return a


@npf('expand_dims')
def _expand(I, a, axis):
    S = _i().SliceV(None, None, None)
    a = asarr(I, a)
    items = [S] * len(a.shape)
    items.insert(axis % (len(a.shape) + 1), None)
    return getitem(I, a, tuple(items))


@npf('ix_')
def _ix(I, a, b):
    a, b = index_array(I, a, None), index_array(I, b, None)
    f, g = a.snap(), b.snap()
    A = arr((a.shape[0], ONE), INT, lambda i: f((i[0],)))
    B = arr((ONE, b.shape[0]), INT, lambda i: g((i[1],)))
    A.flat1, B.flat1 = a, b
    return (A, B)


def to_pred(I, x):
    """membership predicate and bound of a set of ints given as list/array"""
    mem, _ = mem_of(I, x)
    return mem


def upper_bound(I, xs):
    for x in xs:
        e = getattr(x, 'enum', None)
        if e is not None:
            return e[0]
        b = getattr(x, 'ub', None)
        if b is not None:
            return b
    raise Unsupported('set operation without a known bound')


def ub_of(I, x):
    c = I.concrete_items(x) if isinstance(x, (list, Arr)) else None
    if c is not None:
        ts = [I.ctx.norm(lift(term(y))) for y in c]
        if all(t.op == 'num' and t.args[0] >= 0 for t in ts):
            return num(max([int(t.args[0]) + 1 for t in ts], default=0))
    e = getattr(x, 'enum', None)
    if e is not None:
        return e[0]
    u = getattr(x, 'ub', None)
    if u is not None:
        return u
    src = getattr(x, 'src', None)
    if src is not None:
        return ub_of(I, src)
    if isinstance(x, Arr) and x.shape and getattr(x, 'memfn', None) is not None:
        t = fresh('t', 'I')
        if x.get(t) is t:
            return x.shape[0]
    if isinstance(x, (SList, Iter)):
        t = fresh('t', 'I')
        if term(x.get(t)) is t:
            return x.length
    return None


@npf('setdiff1d')
def _setdiff(I, a, b, assume_unique=False):
    n = ub_of(I, a)
    if n is None:
        raise Unsupported('setdiff1d bound')
    ma, mb = to_pred(I, a), to_pred(I, asarr(I, b) if not isinstance(b, (SSet,)) else b)
    return enumerate_pred(I, n, lambda k: conj(ma(k), no(mb(k))))


@npf('union1d')
def _union(I, a, b):
    n, m = ub_of(I, a), ub_of(I, b)
    if n is None and m is None:
        raise Unsupported('union1d bound')
    ma, mb = to_pred(I, a), to_pred(I, asarr(I, b))
    if n is not None and m is not None and n.op == 'num' and m.op == 'num':
        bound = n if n.args[0] >= m.args[0] else m
    elif n is None or m is None or not deq(I, n, m):
        bound = n if n is not None else m
        for x, u in ((a, n), (b, m)):
            if u is None or u is not bound:
                t = fresh('t', 'I')
                xa = asarr(I, x)
                v = xa.get(t)
                I.oblige('set members below the bound', forall(t, implies(conj(le(ZERO, t), lt(t, xa.shape[0])), conj(le(ZERO, v), lt(v, bound)))))
    else:
        bound = n
    return enumerate_pred(I, bound, lambda k: disj(ma(k), mb(k)))


@npf('intersect1d')
def _intersect(I, a, b):
    n = ub_of(I, a) or ub_of(I, b)
    if n is None:
        raise Unsupported('intersect1d bound')
    ma, mb = to_pred(I, a), to_pred(I, asarr(I, b))
    return enumerate_pred(I, n, lambda k: conj(ma(k), mb(k)))


@npf('isin', 'in1d')
def _isin(I, a, b):
    mem = to_pred(I, b if isinstance(b, SSet) else asarr(I, b))
    a = asarr(I, a)
    f = a.snap()
    return arr(a.shape, BOO, lambda i: mem(f(i)))


@npf('fliplr')
def _fliplr(I, a):
    n = a.shape[1]
    return view(a, a.shape, lambda i: (i[0], sub(sub(n, ONE), i[1])), lambda b: (TRUE, (b[0], sub(sub(n, ONE), b[1]))))


@npf('flipud')
def _flipud(I, a):
    n = a.shape[0]
    return view(a, a.shape, lambda i: (sub(sub(n, ONE), i[0]),) + i[1:], lambda b: (TRUE, (sub(sub(n, ONE), b[0]),) + b[1:]))


@npf('flip')
def _flip(I, a, axis=None):
    a = asarr(I, a)
    if len(a.shape) == 1:
        return _flipud(I, a)
    if axis == 0:
        return _flipud(I, a)
    if axis == 1:
        return _fliplr(I, a)
    raise Unsupported('flip')


@npf('split')
def _split(I, a, sections, axis=0):
    n = size_of(I, sections)
    if not deq(I, n, a.shape[0]) or axis != 0:
        raise Unsupported('split')
    S = _i().SliceV
    return SList(n, lambda k: getitem(I, a, (S(SV(k, 'int'), SV(add(k, ONE), 'int'), None),)), elty='arr')


def _mono_fn(name, lo=None):
    def f(I, a, out=None, where=None):
        return elementwise(I, a, lambda t: tm._map_case(lambda v: math_fn(I, name, v), t), FLT)
    return f


def math_fn(I, name, v):
    if name == 'exp':
        if v is NINF:
            return ZERO
        if v in (PINF, NAN):
            return v
        if v is ZERO:
            return ONE
        return app('exp', [v], 'R')
    if name in ('log', 'log2', 'log10'):
        if v is PINF or v is NAN:
            return v
        if v is NINF:
            return NAN
        if v is ONE:
            return ZERO
        if v.op == 'num':
            if v.args[0] == 0:
                return NINF
            if v.args[0] < 0:
                return NAN
        if I.ctx.entails(lt(ZERO, v)):
            return app(name, [v], 'R')
        return case(lt(ZERO, v), app(name, [v], 'R'), case(eq(v, ZERO), NINF, NAN))
    if name == 'sqrt':
        if v is PINF or v is NAN:
            return v
        if v is NINF:
            return NAN
        if v.op == 'num' and v.args[0] in (0, 1):
            return v
        return app('sqrt', [v], 'R')
    raise Unsupported(name)


def _exp_simp(t):
    """exp(c log x + rest) = x^c exp(rest); log terms are only built where x > 0"""
    a = t.args[1]
    if a is ZERO:
        return ONE
    if tm._special(a):
        return t
    fac, rest = ONE, ZERO
    for c, m in tm.poly_items(a):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'app' and m[0][0].args[0] == 'log' and c > 0 and c == int(c):
            fac = mul(fac, tm.powi(m[0][0].args[1], int(c)))
        else:
            rest = add(rest, mul(num(c), tm.mono_term(m)))
    if fac is ONE:
        return t
    return fac if rest is ZERO else mul(fac, app('exp', [rest], 'R'))


tm.APP_SIMP['exp'] = _exp_simp

for _n in ('exp', 'log', 'log2', 'log10', 'sqrt'):
    NP[_n] = _mono_fn(_n)


@npf('abs', 'absolute', 'fabs')
def _abs(I, a):
    a = asarr(I, a)
    f = a.snap()
    r = arr(a.shape, a.dt, lambda i: abs_t(I, num01(f(i))))
    return r if a.shape else scal(r.get(), a.dt)


@npf('round', 'around')
def _round(I, a, decimals=0):
    return elementwise(I, a, lambda t: tm._map_case(lambda v: v if tm._special(v) else app('round%s' % (decimals,), [v], 'R'), t), FLT)


for _n in ('rint', 'fix', 'floor', 'ceil'):
    def _mk(nm):
        return lambda I, a: elementwise(I, a, lambda t: tm._map_case(lambda v: v if tm._special(v) else app('np_' + nm, [v], 'R'), t), FLT)
    NP[_n] = _mk(_n)


@npf('sign')
def _sign(I, a):
    return elementwise(I, a, lambda t: sub(ivr(lt(ZERO, t)), ivr(lt(t, ZERO))))


@npf('nan_to_num')
def _nan_to_num(I, a, copy=True, nan=None):
    return elementwise(I, a, lambda t: nan_to_zero(t))


@npf('ndenumerate')
def _ndenumerate(I, a):
    a = asarr(I, a)
    return NdEnum(a)


class NdEnum:
    def __init__(self, a):
        self.a = a

    def __deepcopy__(self, memo):
        return self


@npf('errstate')
def _errstate(I, **k):
    return None


@npf('shape')
def _shape(I, a):
    return tuple(mkval(s, 'int') for s in asarr(I, a).shape)


@npf('size')
def _size(I, a):
    r = ONE
    for s in asarr(I, a).shape:
        r = mul(r, s)
    return mkval(r, 'int')


@npf('ndim')
def _ndim(I, a):
    return len(asarr(I, a).shape)


@npf('isscalar')
def _isscalar(I, a):
    return is_scalar(a) and not isinstance(a, Arr)


@npf('unique')
def _unique(I, a):
    a = asarr(I, a)
    u = ub_of(I, a)
    if u is None:
        raise Unsupported('unique')
    mem = to_pred(I, a)
    return enumerate_pred(I, u, mem)


@npf('unravel_index')
def _unravel(I, idx, shape):
    a = asarr(I, idx)
    f = a.snap()
    n, m = term(shape[0]), term(shape[1])
    r = arr(a.shape, INT, lambda i: app('fdiv', [f(i), m], 'I'))
    c = arr(a.shape, INT, lambda i: app('mod', [f(i), m], 'I'))
    I.assume_divmod(m)
    I.oblige('unravel_index in range', forall_range(a, lambda t: conj(le(ZERO, t), lt(t, mul(n, m)))))
    return (r, c)


def forall_range(a, p):
    vs = [fresh('q', 'I') for _ in a.shape]
    rng = TRUE
    for v, n in zip(vs, a.shape):
        rng = conj(rng, le(ZERO, v), lt(v, n))
    return forall(vs, implies(rng, p(a.get(*vs)))) if vs else p(a.get())


@npf('linspace')
def _linspace(I, start, stop, num_=50, **k):
    n = size_of(I, k.get('num', num_))
    a, b = term(start), term(stop)
    if not I.ctx.entails(le(tm.num(2), n)):
        raise Unsupported('linspace of less than two points')
    step = mul(sub(b, a), tm.inv(sub(n, ONE)))
    return arr((n,), FLT, lambda i: add(a, mul(i[0], step)))


@npf('kron')
def _kron(I, x, y):
    x, y = asarr(I, x), asarr(I, y)
    if len(x.shape) != 1 or len(y.shape) != 1:
        raise Unsupported('kron')
    f, g, m = x.snap(), y.snap(), y.shape[0]
    div_facts(I, x.shape[0], m)

    def second(r):
        # the remainder is one of 0, ..., m - 1
        if m.op != 'num' or r.op == 'num':
            return g((r,))
        vs = [g((num(j),)) for j in range(int(m.args[0]))]
        t = vs[-1]
        for j, v in enumerate(vs[:-1]):
            t = add(t, mul(sub(v, vs[-1]), ivr(eq(r, num(j)))))
        return t
    return arr((mul(x.shape[0], m),), merge_dt([x.dt, y.dt]), lambda i: mul(f((fdiv(i[0], m),)), second(fmod(i[0], m))))


@npf('issubdtype')
def _issub(I, d, t):
    dn = getattr(d, 'name', d)
    tn = getattr(t, 'name', t).split('.')[-1]
    kind = dt_of(d) if dn not in ('str', 'object') else STR
    if tn == 'number':
        return kind in (FLT, INT)
    if tn == 'integer':
        return kind == INT
    if tn == 'floating':
        return kind == FLT
    if tn in ('bool_', 'bool'):
        return kind == BOO
    raise Unsupported('issubdtype')


@npf('vectorize', 'apply_along_axis', 'lstsq', 'eig', 'eigvals', 'argsort', 'sort', 'histogram', 'unpackbits')
def _uns(I, *a, **k):
    raise Unsupported('numpy function without contract')


# linear algebra ------------------------------------------------------------

def fresh_arr(I, prefix, shape, dt=FLT):
    f = I.fresh_fn(prefix, {'f': 'R', 'i': 'I', 'b': 'B'}[dt])
    return arr(shape, dt, lambda i: f(*i))


def assume_each(I, vs, dims, fact):
    """assume fact for all indices; index by index when the dimensions are numbers"""
    import itertools
    dims = [I.ctx.norm(lift(d)) for d in dims]
    if all(d.op == 'num' and d.args[0] <= 12 for d in dims):
        for ix in itertools.product(*[range(int(d.args[0])) for d in dims]):
            I.assume(subst(fact, dict(zip(vs, map(num, ix)))))
    else:
        I.assume(forall(tuple(vs), implies(conj(*[conj(le(ZERO, x), lt(x, d)) for x, d in zip(vs, dims)]), fact)))


@npf('solve')
def _solve(I, a, b):
    I.uses('numpy.linalg.solve: returns x with a x = b or raises LinAlgError')
    a, b = asarr(I, a), asarr(I, b)
    if len(a.shape) != 2 or not deq(I, a.shape[0], a.shape[1]) or not deq(I, a.shape[0], b.shape[0]):
        raise Unsupported('solve shapes')
    x = fresh_arr(I, 'solve', b.shape)
    n = a.shape[0]
    i = fresh('i', 'I')
    f, g = a.snap(), b.snap()
    if len(b.shape) == 1:
        lhs = sum_over(I, [(fresh('s', 'I'), I.ctx.norm(n))], None, None) if False else _dotrow(I, f, x, i, n)
        assume_each(I, [i], [n], eq(lhs, g((i,))))
    else:
        j = fresh('j', 'I')
        lhs = _dotrow(I, f, x, i, n, j)
        assume_each(I, [i, j], [n, b.shape[1]], eq(lhs, g((i, j))))
    I.solved = getattr(I, 'solved', [])
    I.solved.append((Arr(a.shape, 'f', f), Arr(b.shape, 'f', g), Arr(x.shape, 'f', x.fn)))
    if getattr(I, 'after_solve', None) is not None:
        I.after_solve(*I.solved[-1])
    return x


def _dotrow(I, f, x, i, n, j=None):
    v = fresh('s', 'I')
    return sum_over(I, [(v, I.ctx.norm(n))], lambda k: mul(num01(f((i, k[0]))), x.get(k[0]) if j is None else x.get(k[0], j)), [v])


def exact_inverse(m):
    n = len(m)
    m = [list(r) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(m)]
    for c in range(n):
        p = next((r for r in range(c, n) if m[r][c]), None)
        if p is None:
            return None
        m[c], m[p] = m[p], m[c]
        m[c] = [x / m[c][c] for x in m[c]]
        for r in range(n):
            if r != c and m[r][c]:
                m[r] = [x - m[r][c] * y for x, y in zip(m[r], m[c])]
    return [r[n:] for r in m]


@npf('inv')
def _inv(I, a):
    I.uses('numpy.linalg.inv: returns x with a x = x a = 1 or raises LinAlgError')
    a = asarr(I, a)
    n = a.shape[0]
    if n.op == 'num' and n.args[0] <= 12:
        k = int(n.args[0])
        rows = [[I.ctx.norm(num01(a.get(num(i), num(j)))) for j in range(k)] for i in range(k)]
        if all(t.op == 'num' for r in rows for t in r):
            r = exact_inverse([[t.args[0] for t in r] for r in rows])
            if r is None:
                raise PyRaise(ExcV('LinAlgError', ('singular',)))
            return arr((n, n), FLT, lambda ix: pick(ix[0], [pick(ix[1], [num(q) for q in row]) for row in r]))
    x = fresh_arr(I, 'inv', (n, n))
    f = a.snap()
    i, j = fresh('i', 'I'), fresh('j', 'I')
    assume_each(I, [i, j], [n, n], eq(_dotrow(I, f, x, i, n, j), ivr(eq(i, j))))
    v = fresh('s', 'I')
    lhs = sum_over(I, [(v, I.ctx.norm(n))], lambda k: mul(x.get(i, k[0]), num01(f((k[0], j)))), [v])
    assume_each(I, [i, j], [n, n], eq(lhs, ivr(eq(i, j))))
    return x


@npf('nnls')
def _nnls(I, a, b):
    I.uses('scipy.optimize.nnls: returns x >= 0 with a x = b when such an x exists (existence assumed)')
    a, b = asarr(I, a), asarr(I, b)
    m, n = a.shape
    x = fresh_arr(I, 'nnls', (n,))
    i = fresh('i', 'I')
    f, g = a.snap(), b.snap()
    I.assume(forall(i, implies(conj(le(ZERO, i), lt(i, m)), eq(_dotrow(I, f, x, i, n), g((i,))))))
    I.assume(forall(i, implies(conj(le(ZERO, i), lt(i, n)), le(ZERO, x.get(i)))))
    return (x, Opaque('residual'))


@npf('matrix_power')
def _mpow(I, a, n):
    a = asarr(I, a)
    k = term(n)
    if k.op == 'num' and 0 <= k.args[0] <= 4:
        c = int(k.args[0])
        if c == 0:
            return _eye(I, SV(a.shape[0], 'int'))
        r = a
        for _ in range(c - 1):
            r = matmul(I, r, a)
        return r
    # P(k,i,j): P(0) = 1, P(k+1) = P(k) a
    f = a.snap()
    i, j = fresh('i', 'I'), fresh('j', 'I')
    body = I.ctx.norm(num01(f((i, j))))
    m = a.shape[0]
    mkf, free = define(I, 'mpow', [i, j], body, [m])
    P = mkf('', 'R' if a.dt == FLT else 'I')
    t = fresh('t', 'I')
    rng = conj(le(ZERO, i), lt(i, m), le(ZERO, j), lt(j, m))
    qassume(I, free, forall((i, j), implies(rng, eq(P(ZERO, i, j), ivr(eq(i, j))))))
    v = fresh('s', 'I')
    step = ssum(v, ZERO, m, mul(P(t, i, v), subst(body, {i: v})))
    qassume(I, free, forall((t, i, j), implies(conj(rng, le(ZERO, t)), eq(P(add(t, ONE), i, j), step))))
    I.oblige('matrix_power exponent is non-negative', le(ZERO, k))
    if a.dt == INT:
        I.oblige_overflow(a, k)
    return arr(a.shape, a.dt, lambda q: P(k, *q))


# ---------------------------------------------------------------- array attributes

def attr(I, o, name):
    B = Builtin
    if name == 'shape':
        return tuple(mkval(s, 'int') for s in o.shape)
    if name == 'ndim':
        return len(o.shape)
    if name == 'size':
        return _size(I, o)
    if name == 'T':
        return transpose(I, o)
    if name == 'real':
        return o
    if name == 'dtype':
        return TypeV({'f': 'np.float64', 'i': 'np.int64', 'b': 'np.bool_', 'u': 'str'}[o.dt])
    if name == 'item':
        def item(I, a, k):
            if a:
                return pyitem(I, getitem(I, o, a[0]))
            if o.shape:
                c = TRUE
                for s in o.shape:
                    c = conj(c, eq(s, ONE))
                if not I.decide(c):
                    raise _i().PyRaise(ExcV('ValueError', ('item of a non-scalar',)))
            return pyitem(I, scal(o.get(*[ZERO] * len(o.shape)), o.dt))
        return B('item', item)
    if name == 'tolist':
        def tolist(I, a, k):
            ty = {'f': 'float', 'i': 'int', 'b': 'bool', 'u': 'str'}[o.dt]
            f = o.snap()
            if len(o.shape) == 1:
                n = I.ctx.norm(o.shape[0])
                if n.op == 'num':
                    return _i().PList([mkval(f((num(j),)), ty) for j in range(int(n.args[0]))])
                s = SList(n, lambda j: mkval(f((j,)), ty), elty=ty)
                s.memfn, s.wit = getattr(o, 'memfn', None), getattr(o, 'wit', None)
                if getattr(o, 'enum', None):
                    s.enum = o.enum
                return s
            raise Unsupported('tolist of 2d')
        return B('tolist', tolist)
    if name == 'astype':
        return B('astype', lambda I, a, k: _array(I, o, a[0]))
    if name == 'copy':
        return B('copy', lambda I, a, k: _array(I, o))
    if name == 'tobytes':
        def tb(I, a, k):
            return BytesV(o)
        return B('tobytes', tb)
    if name == 'fill':
        def fill(I, a, k):
            t = cast_store(I, o.dt, asarr(I, a[0]))(())
            write(I, o, lambda i: TRUE, lambda i: t)
        return B('fill', fill)
    if name in ('sum', 'any', 'all', 'max', 'min', 'dot', 'transpose', 'ravel', 'flatten', 'argmax', 'argmin', 'cumsum', 'mean', 'round',
                'take', 'repeat', 'squeeze', 'conj', 'cumprod', 'nonzero', 'reshape', 'prod', 'clip', 'trace'):
        fn = NP['ravel' if name == 'flatten' else name]
        if name == 'flatten':
            return B(name, lambda I, a, k: _array(I, fn(I, o, *a, **k)))
        if name == 'reshape':
            return B(name, lambda I, a, k: fn(I, o, a[0] if len(a) == 1 else tuple(a), **k))
        return B(name, lambda I, a, k: fn(I, o, *a, **k))
    if name == 'flags':
        return Flags(o)
    if name == 'setflags':
        return B(name, lambda I, a, k: None)
    raise Unsupported('array attribute %s' % name)


class Flags:
    def __init__(self, o):
        self.o = o


class BytesV:
    def __init__(self, o):
        self.o = o


def pyitem(I, v):
    if isinstance(v, Arr):
        raise Unsupported('item')
    t, ty = term(v), ntype(v)
    return mkval(t, {'npfloat': 'float', 'npint': 'int', 'npbool': 'bool'}.get(ty, ty)) if ty != 'npfloat' else SV(t, 'float')
