"""Hash-consed terms with a canonical normal form.

Numeric terms (sorts 'I' and 'R') are kept as polynomials with rational
coefficients over atoms.  Atoms are variables, applications of uninterpreted
functions, reciprocals inv(t), Iverson brackets ivr(c) (1 if c else 0) and sums
  sum(b1..bk, monomial)   meaning   sum over all integers b1..bk of monomial
whose monomial carries the range of every binder as Iverson factors.

A conditional value "a if c else b" is  [c]*a + (1-[c])*b.
Machine arithmetic is NOT modelled here: ints are mathematical integers and
floats are mathematical reals (listed as an assumption of every proof).
"""
from fractions import Fraction
from hashlib import blake2b
from itertools import permutations

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'key', 'fv', 'height', '_hash', '__weakref__')

    def __repr__(self):
        return show(self)

    # convenience operators (numeric)
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __neg__(self): return neg(self)
    def __truediv__(self, o): return mul(self, inv(lift(o)))
    def __rtruediv__(self, o): return mul(lift(o), inv(self))
    def __le__(self, o): return le(self, lift(o))
    def __lt__(self, o): return lt(self, lift(o))
    def __ge__(self, o): return le(lift(o), self)
    def __gt__(self, o): return lt(lift(o), self)
    def __and__(self, o): return conj(self, o)
    def __or__(self, o): return disj(self, o)
    def __invert__(self): return no(self)


def _keyof(op, args, sort):
    h = blake2b(digest_size=12)
    h.update(op.encode()); h.update(b'|'); h.update(sort.encode()); h.update(b'|')

    def go(a):
        if isinstance(a, T):
            h.update(b'T'); h.update(a.key)
        elif isinstance(a, tuple):
            h.update(b'(')
            for b in a:
                go(b)
            h.update(b')')
        else:
            h.update(repr(a).encode()); h.update(b',')
    go(args)
    return h.digest()


def _fvof(args):
    s = frozenset()
    for a in args:
        if isinstance(a, T):
            s = s | a.fv
        elif isinstance(a, tuple):
            s = s | _fvof(a)
    return s


def _hof(args):
    m = 0
    for a in args:
        if isinstance(a, T):
            m = max(m, a.height)
        elif isinstance(a, tuple):
            m = max(m, _hof(a))
    return m


def mk(op, args, sort):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op, t.args, t.sort = op, args, sort
        t.key = _keyof(op, args, sort)
        if op == 'var':
            t.fv = frozenset((t,))
            t.height = 0
        elif op in ('sum', 'forall', 'exists'):
            t.fv = _fvof(args[1:]) - frozenset(args[0])
            t.height = 1 + _hof(args)
        else:
            t.fv = _fvof(args)
            t.height = _hof(args)
        _tab[k] = t
    return t


# ---------------------------------------------------------------- leaves

def num(q):
    q = Fraction(q)
    return mk('num', (q,), 'I' if q.denominator == 1 else 'R')


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        return num(_fl(x))
    return num(x)


def _fl(x):
    # decimal literals are read as the rational they denote, e.g. 0.1 -> 1/10
    return Fraction(repr(x))


ZERO = num(0)
ONE = num(1)
TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
NAN = mk('nan', (), 'R')
PINF = mk('pinf', (), 'R')
NINF = mk('ninf', (), 'R')
SPECIAL = (NAN, PINF, NINF)


def var(name, sort):
    return mk('var', (name,), sort)


def fresh(prefix, sort):
    _cnt[0] += 1
    return var('%s!%d' % (prefix, _cnt[0]), sort)


def fresh_name(prefix):
    _cnt[0] += 1
    return '%s!%d' % (prefix, _cnt[0])


def app(f, args, sort):
    return mk('app', (f,) + tuple(lift(a) for a in args), sort)


# ---------------------------------------------------------------- polynomials
# internal: dict mono -> coeff;  mono = tuple of (atom, exp) sorted by atom key

def is_num(t):
    return t.op == 'num'


def to_poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] else {}
    if t.op == 'poly':
        return dict((m, c) for c, m in t.args)
    if t.sort not in 'IR':
        raise TypeError('not numeric: %r' % (t,))
    return {((t, 1),): Fraction(1)}


def _mono_key(m):
    return tuple((a.key, e) for a, e in m)


def from_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(((c, m) for m, c in d.items()), key=lambda x: _mono_key(x[1]))
    sort = 'I'
    for c, m in items:
        if c.denominator != 1:
            sort = 'R'
            break
        for a, e in m:
            if a.sort != 'I':
                sort = 'R'
                break
        if sort == 'R':
            break
    return mk('poly', tuple(items), sort)


def poly_items(t):
    """list of (coeff, mono)"""
    if t.op == 'poly':
        return list(t.args)
    if t.op == 'num':
        return [(t.args[0], ())] if t.args[0] else []
    return [(Fraction(1), ((t, 1),))]


def mono_mul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # x * inv(x) cancels: every division carries its own 'denominator != 0' obligation
    for a in list(d):
        if a.op == 'inv' and a in d:
            b = a.args[0]
            if b in d:
                k = min(d[a], d[b])
                d[a] -= k
                d[b] -= k
                if d[a] == 0:
                    del d[a]
                if d[b] == 0:
                    del d[b]
    for a in list(d):
        if a.op == 'ivr' and d[a] > 1:
            d[a] = 1
    return tuple(sorted(d.items(), key=lambda x: x[0].key))


def mono_term(m):
    return from_poly({m: Fraction(1)})


def _special(t):
    return t.op in ('nan', 'pinf', 'ninf')


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if has_special(a) or has_special(b):
        return _spec_binop('+', a, b)
    d = to_poly(a)
    for c, m in poly_items(b):
        v = d.get(m, 0) + c
        if v:
            d[m] = v
        else:
            d.pop(m, None)
    return from_poly(d)


def neg(a):
    if has_special(a):
        return _spec_un(neg, a, {NAN: NAN, PINF: NINF, NINF: PINF})
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if has_special(a) or has_special(b):
        return _spec_binop('*', a, b)
    if a is ZERO or b is ZERO:
        return ZERO
    pa, pb = poly_items(a), poly_items(b)
    d = {}
    redo = False
    for c1, m1 in pa:
        for c2, m2 in pb:
            m = mono_mul(m1, m2) if m1 and m2 else (m1 or m2)
            v = d.get(m, 0) + c1 * c2
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return from_poly(d)


def powi(a, k):
    r = ONE
    for _ in range(k):
        r = mul(r, a)
    return r


def addn(xs):
    d = {}
    for x in xs:
        for c, m in poly_items(x):
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return from_poly(d)


def inv(a):
    if has_special(a):
        return _spec_un(inv, a, {NAN: NAN, PINF: ZERO, NINF: ZERO})
    if a.op == 'num':
        if a.args[0] == 0:
            return NAN
        return num(1 / a.args[0])
    its = poly_items(a)
    if len(its) == 1:
        c, m = its[0]
        r = num(1 / c)
        for at, e in m:
            if at.op == 'inv':
                r = mul(r, powi(at.args[0], e))
            elif at.op == 'ivr':
                # only defined where the bracket is 1
                r = mul(r, at)
            else:
                r = mul(r, powi(mk('inv', (at,), 'R'), e))
        return r
    # make primitive: leading coefficient one
    c = its[0][0]
    b = from_poly({m: x / c for x, m in its})
    return mul(num(1 / c), mk('inv', (b,), 'R'))


# ------------------------------------------------ special values (nan, inf)
# a numeric value that may be non-finite is represented by op 'case':
#   args = ((cond, value), ..., (None, value))  first matching guard wins

def has_special(t):
    return t.op in ('nan', 'pinf', 'ninf', 'case')


def case(cond, a, b):
    if cond is TRUE:
        return a
    if cond is FALSE:
        return b
    if a is b:
        return a
    out = []
    if a.op == 'case':
        for c, v in a.args:
            out.append((cond if c is None else conj(cond, c), v))
    else:
        out.append((cond, a))
    if b.op == 'case':
        out.extend(b.args)
    else:
        out.append((None, b))
    # drop unreachable / duplicate tail
    res = []
    for c, v in out:
        if c is FALSE:
            continue
        if c is TRUE:
            c = None
        res.append((c, v))
        if c is None:
            break
    while len(res) >= 2 and res[-2][1] is res[-1][1]:
        res[-2:] = [(None, res[-1][1])]
    if len(res) == 1:
        return res[0][1]
    if not any(_special(v) for _, v in res):
        r = res[-1][1]
        for c, v in reversed(res[:-1]):
            r = ite(c, v, r)
        return r
    return mk('case', tuple(res), 'R')


def case_leaves(t):
    """list of (cond, value) with disjoint, exhaustive conditions"""
    if t.op != 'case':
        return [(TRUE, t)]
    out = []
    prev = TRUE
    for c, v in t.args:
        cc = prev if c is None else conj(prev, c)
        out.append((cc, v))
        if c is not None:
            prev = conj(prev, no(c))
    return out


def _spec_leaf(op, x, y):
    if not _special(x) and not _special(y):
        return add(x, y) if op == '+' else mul(x, y)
    if x is NAN or y is NAN:
        return NAN
    if op == '+':
        if _special(x) and _special(y):
            return x if x is y else NAN
        return x if _special(x) else y
    # product
    if _special(x) and _special(y):
        return PINF if x is y else NINF
    if _special(y):
        x, y = y, x
    # x infinite, y finite
    if y is ZERO:
        return NAN
    pos, negv = (PINF, NINF) if x is PINF else (NINF, PINF)
    return case(eq(y, ZERO), NAN, case(lt(ZERO, y), pos, negv))


def _map_case(f, t):
    if t.op != 'case':
        return f(t)
    r = f(t.args[-1][1])
    for c, v in reversed(t.args[:-1]):
        r = case(c, f(v), r)
    return r


def _spec_binop(op, a, b):
    return _map_case(lambda x: _map_case(lambda y: _spec_leaf(op, x, y), b), a)


def _spec_un(f, a, tab):
    return _map_case(lambda x: tab[x] if _special(x) else f(x), a)


def is_nan(t):
    return _bool_case(t, lambda v: TRUE if v is NAN else FALSE)


def is_inf(t):
    return _bool_case(t, lambda v: TRUE if v in (PINF, NINF) else FALSE)


def is_finite(t):
    return _bool_case(t, lambda v: FALSE if _special(v) else TRUE)


def _bool_case(t, f):
    r = FALSE
    for c, v in case_leaves(t):
        r = disj(r, conj(c, f(v)))
    return r


def finite_part(t):
    """the value with special leaves replaced by 0"""
    return _map_case(lambda v: ZERO if _special(v) else v, t)


# ---------------------------------------------------------------- booleans

def _orient(p):
    """p with leading coefficient made positive; returns (p, flipped)"""
    its = poly_items(p)
    nonconst = [x for x in its if x[1]]
    c = nonconst[0][0]
    if c < 0:
        return neg(p), True
    return p, False


def _scale(p):
    its = poly_items(p)
    c = [x for x in its if x[1]][0][0]
    return from_poly({m: x / abs(c) for x, m in its})


def _int_scale(p):
    from math import gcd
    its = poly_items(p)
    l = 1
    for c, m in its:
        l = l * c.denominator // gcd(l, c.denominator)
    g = 0
    for c, m in its:
        if m:
            g = gcd(g, int(c * l))
    return its, l, g


def le(a, b):
    """a <= b"""
    if has_special(a) or has_special(b):
        return _spec_cmp(a, b, 'le')
    p = sub(a, b)
    if p.op == 'num':
        return TRUE if p.args[0] <= 0 else FALSE
    if is_intpoly(p):
        its, l, g = _int_scale(p)
        # p <= 0 with integer coefficients / gcd, constant rounded
        d = {m: c * l / g for c, m in its}
        c0 = d.pop((), Fraction(0))
        # rest + c0 <= 0  <=> rest <= floor(-c0)
        k = (-c0).__floor__()
        q = add(from_poly(d), num(-k))
        return mk('le0', (q,), 'B')
    q = _scale(p)
    o, fl = _orient(q)
    if not fl:
        return mk('le0', (q,), 'B')
    return mk('ge0', (o,), 'B')


def lt(a, b):
    return no(le(b, a))


def is_intpoly(p):
    """all atoms are integers and coefficients rational"""
    for c, m in poly_items(p):
        for a, e in m:
            if a.sort != 'I':
                return False
    return True


def _spec_cmp(a, b, kind):
    def leaf(x, y):
        if x is NAN or y is NAN:
            return FALSE
        if kind == 'eq':
            if _special(x) or _special(y):
                return TRUE if x is y else FALSE
            return eq(x, y)
        if kind == 'lt':
            if x is y and _special(x):
                return FALSE
            if x is NINF or y is PINF:
                return TRUE
            if x is PINF or y is NINF:
                return FALSE
            return lt(x, y)
        if x is NINF or y is PINF:
            return TRUE
        if x is PINF or y is NINF:
            return FALSE
        return le(x, y)
    r = FALSE
    for c, v in case_leaves(a):
        for c2, w in case_leaves(b):
            r = disj(r, conj(c, c2, leaf(v, w)))
    return r


def lt_s(a, b):
    if has_special(a) or has_special(b):
        return _spec_cmp(a, b, 'lt')
    return lt(a, b)


def eq(a, b):
    if a is b:
        return FALSE if a is NAN else TRUE
    if a.sort == 'B':
        return iff(a, b)
    if a.sort not in 'IR':
        if a.sort != b.sort:
            return FALSE
        if a.op == 'strlit' and b.op == 'strlit':
            return FALSE
        if a.key > b.key:
            a, b = b, a
        return mk('equ', (a, b), 'B')
    if has_special(a) or has_special(b):
        return _spec_cmp(a, b, 'eq')
    p = sub(a, b)
    if p.op == 'num':
        return TRUE if p.args[0] == 0 else FALSE
    if is_intpoly(p):
        its, l, g = _int_scale(p)
        c0 = sum((c * l for c, m in its if not m), Fraction(0))
        if c0 % g != 0:
            return FALSE
        q = from_poly({m: c * l / g for c, m in its})
    else:
        q = _scale(p)
    o, _ = _orient(q)
    return mk('eq0', (o,), 'B')


def ne(a, b):
    return no(eq(a, b))


def no(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    if c.op == 'le0' and is_intpoly(c.args[0]):
        return le(sub(ONE, c.args[0]), ZERO)
    if c.op == 'and':
        return disj(*[no(x) for x in c.args])
    if c.op == 'or':
        return conj(*[no(x) for x in c.args])
    if c.op == 'forall':
        return mk_quant('exists', c.args[0], no(c.args[1]))
    if c.op == 'exists':
        return mk_quant('forall', c.args[0], no(c.args[1]))
    return mk('not', (c,), 'B')


def conj(*cs):
    out = []
    seen = set()
    for c in cs:
        for x in (c.args if c.op == 'and' else (c,)):
            if x is TRUE or x in seen:
                continue
            if x is FALSE or no(x) in seen:
                return FALSE
            seen.add(x)
            out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', tuple(sorted(out, key=lambda t: t.key)), 'B')


def disj(*cs):
    out = []
    seen = set()
    for c in cs:
        for x in (c.args if c.op == 'or' else (c,)):
            if x is FALSE or x in seen:
                continue
            if x is TRUE or no(x) in seen:
                return TRUE
            seen.add(x)
            out.append(x)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', tuple(sorted(out, key=lambda t: t.key)), 'B')


def implies(a, b):
    return disj(no(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return no(b)
    if b is FALSE:
        return no(a)
    return conj(disj(no(a), b), disj(no(b), a))


def mk_quant(q, vs, body):
    vs = tuple(v for v in vs if v in body.fv)
    if not vs:
        return body
    if body.op == q:
        inner, b2 = open_binder(body)
        vs, body = vs + tuple(inner), b2
    h = 1 + body.height
    sub_ = {v: var('#%d_%d' % (h, i), v.sort) for i, v in enumerate(vs)}
    return mk(q, (tuple(sub_[v] for v in vs), subst(body, sub_)), 'B')


def forall(vs, body):
    if isinstance(vs, T):
        vs = (vs,)
    return mk_quant('forall', tuple(vs), body)


def exists(vs, body):
    if isinstance(vs, T):
        vs = (vs,)
    return mk_quant('exists', tuple(vs), body)


def open_binder(t):
    """fresh variables for the binders of a sum/forall/exists; returns (vars, body)"""
    vs = [fresh('b', v.sort) for v in t.args[0]]
    return vs, subst(t.args[1], dict(zip(t.args[0], vs)))


def ivr(c):
    """Iverson bracket, expanded to polynomials over atomic conditions"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == 'not':
        return sub(ONE, ivr(c.args[0]))
    if c.op == 'and':
        r = ONE
        for x in c.args:
            r = mul(r, ivr(x))
        return r
    if c.op == 'or':
        r = ONE
        for x in c.args:
            r = mul(r, sub(ONE, ivr(x)))
        return sub(ONE, r)
    if c.op == 'exists':
        return sub(ONE, ivr(no(c)))
    return mk('ivr', (c,), 'I')


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B':
        return conj(disj(no(c), a), disj(c, b))
    if a.sort not in 'IR':
        return mk('iteu', (c, a, b), a.sort)
    if has_special(a) or has_special(b):
        return case(c, a, b)
    g = ivr(c)
    return add(mul(g, a), mul(sub(ONE, g), b))


# ---------------------------------------------------------------- substitution

def subst(t, m, _cache=None):
    """simultaneous substitution of variables (dict var -> term), renormalising"""
    if not m:
        return t
    if _cache is None:
        _cache = {}
    return _subst(t, m, frozenset(m), _cache)


def _subst(t, m, dom, cache):
    if not (t.fv & dom):
        return t
    r = cache.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'var':
        r = m[t]
    elif op == 'poly':
        acc = {}
        parts = []
        for c, mono in t.args:
            x = num(c)
            for a, e in mono:
                b = _subst(a, m, dom, cache)
                x = mul(x, b if e == 1 else powi(b, e))
            parts.append(x)
        r = parts[0]
        if any(has_special(p) for p in parts):
            for p in parts[1:]:
                r = add(r, p)
        else:
            r = addn(parts)
    elif op == 'app':
        r = app(t.args[0], [_subst(a, m, dom, cache) for a in t.args[1:]], t.sort)
        r = rebuild_app(r)
    elif op == 'inv':
        r = inv(_subst(t.args[0], m, dom, cache))
    elif op == 'ivr':
        r = ivr(_subst(t.args[0], m, dom, cache))
    elif op == 'le0':
        r = le(_subst(t.args[0], m, dom, cache), ZERO)
    elif op == 'ge0':
        r = le(ZERO, _subst(t.args[0], m, dom, cache))
    elif op == 'eq0':
        r = eq(_subst(t.args[0], m, dom, cache), ZERO)
    elif op == 'equ':
        r = eq(_subst(t.args[0], m, dom, cache), _subst(t.args[1], m, dom, cache))
    elif op == 'not':
        r = no(_subst(t.args[0], m, dom, cache))
    elif op == 'and':
        r = conj(*[_subst(a, m, dom, cache) for a in t.args])
    elif op == 'or':
        r = disj(*[_subst(a, m, dom, cache) for a in t.args])
    elif op == 'iteu':
        r = ite(*[_subst(a, m, dom, cache) for a in t.args])
    elif op == 'case':
        r = _subst(t.args[-1][1], m, dom, cache)
        for c, v in reversed(t.args[:-1]):
            r = case(_subst(c, m, dom, cache), _subst(v, m, dom, cache), r)
    elif op in ('sum', 'forall', 'exists'):
        # binders are '#..' variables; the range of m never contains free '#..' variables
        vs = [fresh('b', v.sort) for v in t.args[0]]
        m2 = {k: v for k, v in m.items() if k in t.fv}
        m2.update(zip(t.args[0], vs))
        body = subst(t.args[1], m2)
        r = mk_sum(vs, body) if op == 'sum' else mk_quant(op, vs, body)
    else:
        raise TypeError(op)
    cache[t] = r
    return r


def rebuild_app(t):
    f = t.args[0]
    h = APP_SIMP.get(f)
    if h is not None:
        return h(t)
    return t


APP_SIMP = {}


def map_atoms(t, f):
    """rebuild t replacing every maximal subterm for which f returns non-None"""
    cache = {}

    def go(t):
        r = cache.get(t)
        if r is not None:
            return r
        r = f(t)
        if r is None:
            op = t.op
            if op in ('num', 'var', 'true', 'false', 'nan', 'pinf', 'ninf', 'strlit'):
                r = t
            elif op == 'poly':
                parts = []
                for c, mono in t.args:
                    x = num(c)
                    for a, e in mono:
                        b = go(a)
                        x = mul(x, b if e == 1 else powi(b, e))
                    parts.append(x)
                r = parts[0]
                for p in parts[1:]:
                    r = add(r, p)
            elif op == 'app':
                r = rebuild_app(app(t.args[0], [go(a) for a in t.args[1:]], t.sort))
            elif op == 'inv':
                r = inv(go(t.args[0]))
            elif op == 'ivr':
                r = ivr(go(t.args[0]))
            elif op == 'le0':
                r = le(go(t.args[0]), ZERO)
            elif op == 'ge0':
                r = le(ZERO, go(t.args[0]))
            elif op == 'eq0':
                r = eq(go(t.args[0]), ZERO)
            elif op == 'equ':
                r = eq(go(t.args[0]), go(t.args[1]))
            elif op == 'not':
                r = no(go(t.args[0]))
            elif op == 'and':
                r = conj(*[go(a) for a in t.args])
            elif op == 'or':
                r = disj(*[go(a) for a in t.args])
            elif op == 'iteu':
                r = ite(*[go(a) for a in t.args])
            elif op == 'case':
                r = go(t.args[-1][1])
                for c, v in reversed(t.args[:-1]):
                    r = case(go(c), go(v), r)
            elif op in ('sum', 'forall', 'exists'):
                vs, body = open_binder(t)
                b2 = go(body)
                if b2 is body:
                    r = t
                else:
                    r = mk_sum(vs, b2) if op == 'sum' else mk_quant(op, vs, b2)
            else:
                raise TypeError(op)
        cache[t] = r
        return r
    return go(t)


# ---------------------------------------------------------------- sums

def lin_coeff(p, v):
    """if p = c*v + rest with c rational, v not in rest: (c, rest) else None"""
    c = Fraction(0)
    rest = {}
    for k, m in poly_items(p):
        if len(m) == 1 and m[0][0] is v and m[0][1] == 1:
            c += k
            continue
        for a, e in m:
            if v in a.fv:
                return None
        rest[m] = k
    if c == 0:
        return None
    return c, from_poly(rest)


def mk_sum(vs, body):
    """sum over all integers vs of body (body must carry range guards)"""
    vs = list(vs)
    if not vs:
        return body
    if has_special(body):
        raise ValueError('sum over non-finite value')
    out = []
    for c, m in poly_items(body):
        r = _sum_mono(vs, m)
        out.append(mul(num(c), r))
    return addn(out)


def _sum_mono(vs, mono):
    vs = list(vs)
    # 1. delta elimination
    for a, e in mono:
        if a.op == 'ivr' and a.args[0].op == 'eq0':
            p = a.args[0].args[0]
            for v in vs:
                if v in p.fv:
                    lc = lin_coeff(p, v)
                    if lc is not None and abs(lc[0]) == 1:
                        val = mul(num(-1 / lc[0]), lc[1])
                        rest = tuple((x, y) for x, y in mono if x is not a)
                        b = subst(mono_term(rest), {v: val})
                        vs2 = [w for w in vs if w is not v]
                        return mk_sum(vs2, b)
    # 1b. tightening: [v <= u][v >= u]  (upper and lower bound coincide)
    # 2. open inner sums depending on vs
    sv = frozenset(vs)
    for a, e in mono:
        if a.op == 'sum' and (a.fv & sv):
            ws, b = open_binder(a)
            rest = dict(mono)
            if e == 1:
                del rest[a]
            else:
                rest[a] = e - 1
            rm = tuple(sorted(rest.items(), key=lambda x: x[0].key))
            return mk_sum(vs + ws, mul(mono_term(rm), b))
    # 3. connected components
    dep = [(a, e, a.fv & sv) for a, e in mono]
    outside = tuple((a, e) for a, e, d in dep if not d)
    inside = [(a, e, d) for a, e, d in dep if d]
    comps = []
    for v in vs:
        comps.append(({v}, []))
    for a, e, d in inside:
        hit = [c for c in comps if c[0] & d]
        merged = (set().union(*[c[0] for c in hit]), sum([c[1] for c in hit], []) + [(a, e)])
        comps = [c for c in comps if not (c[0] & d)] + [merged]
    r = mono_term(outside)
    for cvs, fs in comps:
        r = mul(r, _sum_atom(sorted(cvs, key=lambda v: v.args[0]), fs))
    return r


def _interval(v, m):
    """if every factor of m is a range guard on v only: (lo, hi) bounds lists"""
    los, his = [], []
    for a, e in m:
        b = guard_bound(a, v)
        if b is None:
            return None
        (los if b[0] == 'lo' else his).append(b[1])
    return los, his


def guard_bound(a, v):
    """[v <= t] -> ('hi', t); [v >= t] as ... only le0 atoms exist positively.
    [c*v + r <= 0], |c| = 1."""
    if a.op != 'ivr' or a.args[0].op != 'le0':
        return None
    lc = lin_coeff(a.args[0].args[0], v)
    if lc is None or abs(lc[0]) != 1:
        return None
    c, r = lc
    if c == 1:
        return ('hi', neg(r))
    return ('lo', r)


def _sum_atom(vs, fs):
    mono = tuple(sorted(fs, key=lambda x: x[0].key))
    body = mono_term(mono)
    h = 1 + body.height
    names = ['#%d_%d' % (h, i) for i in range(len(vs))]
    best = None
    if len(vs) == 1:
        w = var(names[0], vs[0].sort)
        b = rename(body, {vs[0]: w})
        return mk('sum', ((w,), b), b.sort)
    if len(vs) > 5:
        perms = [tuple(vs)]
    else:
        perms = permutations(vs)
    for p in perms:
        ws = tuple(var(n, v.sort) for n, v in zip(names, p))
        b = rename(body, dict(zip(p, ws)))
        if best is None or b.key < best[1].key:
            best = (ws, b)
    return mk('sum', best, best[1].sort)


def rename(t, m):
    return subst(t, m)


def ssum(v, lo, hi, body):
    """sum_{v = lo}^{hi-1} body"""
    lo, hi = lift(lo), lift(hi)
    g = mul(ivr(le(lo, v)), ivr(lt(v, hi)))
    return mk_sum([v], mul(g, body))


# ---------------------------------------------------------------- traversal

def subterms(t, acc=None):
    """all subterms not under a binder"""
    if acc is None:
        acc = {}
    st = [t]
    while st:
        x = st.pop()
        if x in acc:
            continue
        acc[x] = True
        if x.op in ('sum', 'forall', 'exists'):
            continue
        _push(x.args, st)
    return acc


def all_subterms(t, acc=None):
    if acc is None:
        acc = {}
    st = [t]
    while st:
        x = st.pop()
        if x in acc:
            continue
        acc[x] = True
        _push(x.args, st)
    return acc


def _push(args, st):
    for a in args:
        if isinstance(a, T):
            st.append(a)
        elif isinstance(a, tuple):
            _push(a, st)


def func_names(t):
    return {x.args[0] for x in all_subterms(t) if x.op == 'app'}


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if depth > 40:
        return '...'
    op = t.op
    s = lambda x: show(x, depth + 1)
    if op == 'num':
        return str(t.args[0])
    if op == 'var':
        return t.args[0]
    if op == 'strlit':
        return repr(t.args[0])
    if op in ('true', 'false', 'nan', 'pinf', 'ninf'):
        return op
    if op == 'poly':
        ps = []
        for c, m in t.args:
            ms = '*'.join(s(a) + ('^%d' % e if e != 1 else '') for a, e in m)
            if not m:
                ps.append(str(c))
            elif c == 1:
                ps.append(ms)
            elif c == -1:
                ps.append('-' + ms)
            else:
                ps.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(ps) + ')'
    if op == 'app':
        return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if op == 'inv':
        return 'inv(%s)' % s(t.args[0])
    if op == 'ivr':
        return '[%s]' % s(t.args[0])
    if op == 'le0':
        return '%s <= 0' % s(t.args[0])
    if op == 'ge0':
        return '%s >= 0' % s(t.args[0])
    if op == 'eq0':
        return '%s = 0' % s(t.args[0])
    if op == 'equ':
        return '%s == %s' % (s(t.args[0]), s(t.args[1]))
    if op == 'not':
        return '~(%s)' % s(t.args[0])
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(s(a) for a in t.args) + ')'
    if op == 'iteu':
        return 'ite(%s)' % ', '.join(s(a) for a in t.args)
    if op == 'case':
        return 'case(' + '; '.join('%s: %s' % ('else' if c is None else s(c), s(v)) for c, v in t.args) + ')'
    if op in ('sum', 'forall', 'exists'):
        return '%s{%s}. %s' % (op, ','.join(v.args[0] for v in t.args[0]), s(t.args[1]))
    return op


def strlit(s):
    return mk('strlit', (s,), 'U')


# ---------------------------------------------------------------- evaluation
# used to cross-check the normaliser and symbolic summaries on concrete models

class Undefined(Exception):
    pass


def evaluate(t, env, funs, memo=None):
    """env: var -> Fraction/bool/str; funs: name -> python callable"""
    op = t.op
    if op == 'num':
        return t.args[0]
    if op == 'var':
        return env[t]
    if op == 'true':
        return True
    if op == 'false':
        return False
    if op == 'strlit':
        return t.args[0]
    if op in ('nan', 'pinf', 'ninf'):
        return float({'nan': 'nan', 'pinf': 'inf', 'ninf': '-inf'}[op])
    E = lambda x: evaluate(x, env, funs)
    if op == 'poly':
        r = Fraction(0)
        for c, m in t.args:
            x = c
            # Iverson factors first: guarded factors may be undefined where the guard is 0
            for a, e in m:
                if a.op == 'ivr':
                    if not E(a):
                        x = Fraction(0)
                        break
            if x:
                for a, e in m:
                    if a.op != 'ivr':
                        x = x * E(a) ** e
                        if x == 0:
                            break
            r = r + x
        return r
    if op == 'app':
        return funs[t.args[0]](*[E(a) for a in t.args[1:]])
    if op == 'inv':
        d = E(t.args[0])
        if d == 0:
            raise Undefined('1/0')
        return (Fraction(1) / d) if isinstance(d, Fraction) else 1.0 / d
    if op == 'ivr':
        return Fraction(1) if E(t.args[0]) else Fraction(0)
    if op == 'le0':
        return E(t.args[0]) <= 0
    if op == 'ge0':
        return E(t.args[0]) >= 0
    if op == 'eq0':
        return E(t.args[0]) == 0
    if op == 'equ':
        return E(t.args[0]) == E(t.args[1])
    if op == 'not':
        return not E(t.args[0])
    if op == 'and':
        return all(E(a) for a in t.args)
    if op == 'or':
        return any(E(a) for a in t.args)
    if op == 'iteu':
        return E(t.args[1]) if E(t.args[0]) else E(t.args[2])
    if op == 'case':
        for c, v in t.args:
            if c is None or E(c):
                return E(v)
    if op == 'sum':
        return _eval_sum(list(t.args[0]), t.args[1], dict(env), funs)
    if op in ('forall', 'exists'):
        R = env.get('__range__', range(-2, 8))
        vs = t.args[0]
        from itertools import product
        for xs in product(R, repeat=len(vs)):
            e2 = dict(env)
            e2.update(zip(vs, map(Fraction, xs)))
            try:
                b = evaluate(t.args[1], e2, funs)
            except Undefined:
                continue
            if op == 'forall' and not b:
                return False
            if op == 'exists' and b:
                return True
        return op == 'forall'
    raise TypeError(op)


def _eval_sum(vs, body, env, funs):
    if not vs:
        return evaluate(body, env, funs)
    items = poly_items(body)
    assert len(items) == 1
    m = items[0][1]
    # choose a binder whose bounds are determined
    for v in vs:
        lo, hi = None, None
        others = [w for w in vs if w is not v]
        for a, e in m:
            b = guard_bound(a, v)
            if b is not None and not any(w in b[1].fv for w in others):
                try:
                    x = evaluate(b[1], env, funs)
                except KeyError:
                    continue
                import math
                if b[0] == 'hi':
                    x = math.floor(x)
                    hi = x if hi is None else min(hi, x)
                else:
                    x = math.ceil(x)
                    lo = x if lo is None else max(lo, x)
        if lo is None or hi is None:
            # not determined: use the model's default range
            if v is vs[-1] and len(vs) == 1 and '__range__' in env:
                R = env['__range__']
            else:
                continue
        else:
            R = range(int(lo), int(hi) + 1)
        r = Fraction(0)
        for x in R:
            e2 = dict(env)
            e2[v] = Fraction(x)
            r += _eval_sum(others, body, e2, funs)
        return r
    # fall back: brute force
    R = env.get('__range__', range(-2, 8))
    v = vs[0]
    r = Fraction(0)
    for x in R:
        e2 = dict(env)
        e2[v] = Fraction(x)
        r += _eval_sum(vs[1:], body, e2, funs)
    return r
