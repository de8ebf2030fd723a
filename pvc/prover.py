"""Discharge engine: contextual simplification of sums, instantiation of
quantified hypotheses, sum lemmas, and z3 for the remaining arithmetic."""
import time
import z3
from .terms import *
from . import terms as tm

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'norm': 0, 'smt': 0, 'lemma': 0}
DEADLINE = [None]


class Timeout(Exception):
    pass


def check_deadline():
    if DEADLINE[0] is not None and time.time() > DEADLINE[0]:
        raise Timeout()


# ------------------------------------------------------------------ to z3

USort = z3.DeclareSort('U')


class Z:
    """term -> z3 translation; nonlinear monomials opaque unless nl=True"""

    def __init__(self, nl=False):
        self.cache = {}
        self.nl = nl
        self.side = []      # side facts (definitions)
        self.strs = {}

    def sort(self, s):
        return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}.get(s, USort)

    def real(self, t):
        e = self.tr(t)
        return z3.ToReal(e) if z3.is_int(e) else e

    def opaque(self, t):
        return z3.Const('o_' + t.key.hex(), self.sort(t.sort))

    def tr(self, t):
        r = self.cache.get(t)
        if r is None:
            r = self._tr(t)
            self.cache[t] = r
        return r

    def _tr(self, t):
        op = t.op
        if op == 'num':
            q = t.args[0]
            return z3.IntVal(q.numerator) if q.denominator == 1 else z3.RealVal(str(q))
        if op == 'var':
            return z3.Const(t.args[0] + '@' + t.sort, self.sort(t.sort))
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'strlit':
            c = z3.Const('str_' + t.key.hex(), USort)
            if t not in self.strs:
                for o, oc in self.strs.items():
                    self.side.append(c != oc)
                self.strs[t] = c
            return c
        if op == 'poly':
            isint = t.sort == 'I'
            xs = []
            for c, m in t.args:
                if not m:
                    xs.append(z3.IntVal(c.numerator) if isint else z3.RealVal(str(c)))
                    continue
                if len(m) == 1 and m[0][1] == 1:
                    e = self.tr(m[0][0])
                elif self.nl:
                    e = None
                    for a, k in m:
                        x = self.tr(a)
                        for _ in range(k):
                            if e is None:
                                e = x
                            else:
                                if z3.is_int(e) != z3.is_int(x):
                                    e = z3.ToReal(e) if z3.is_int(e) else e
                                    x = z3.ToReal(x) if z3.is_int(x) else x
                                e = e * x
                else:
                    e = self.mono(m)
                if not isint and z3.is_int(e):
                    e = z3.ToReal(e)
                if c == 1:
                    xs.append(e)
                elif isint:
                    xs.append(z3.IntVal(c.numerator) * e)
                else:
                    xs.append(z3.RealVal(str(c)) * e)
            return z3.Sum(*xs) if len(xs) > 1 else xs[0]
        if op == 'ivr':
            return z3.If(self.tr(t.args[0]), z3.IntVal(1), z3.IntVal(0))
        if op == 'app':
            args = [self.tr(a) for a in t.args[1:]]
            # argument sorts are part of the symbol
            f = z3.Function(t.args[0] + '/' + ''.join(a.sort().name()[0] for a in args),
                            *([a.sort() for a in args] + [self.sort(t.sort)]))
            return f(*args)
        if op == 'inv':
            o = self.opaque(t)
            if self.nl:
                x = self.real(t.args[0])
                self.side.append(z3.Implies(x != 0, o * x == 1))
            else:
                a = t.args[0]
                x = self.real(a)
                if a.op != 'poly':
                    self.side.append(z3.Implies(x > 0, o > 0))
                    self.side.append(z3.Implies(x < 0, o < 0))
                else:
                    self.side.append(z3.Implies(x > 0, o > 0))
                    self.side.append(z3.Implies(x < 0, o < 0))
                self.side.append(z3.Implies(x == 1, o == 1))
                self.side.append(z3.Implies(x > 1, o < 1))
                self.side.append(z3.Implies(z3.And(x > 0, x < 1), o > 1))
            return o
        if op == 'sum':
            return self.opaque(t)
        if op in ('le0', 'ge0', 'eq0'):
            x = self.tr(t.args[0])
            return x <= 0 if op == 'le0' else x >= 0 if op == 'ge0' else x == 0
        if op == 'equ':
            return self.tr(t.args[0]) == self.tr(t.args[1])
        if op == 'not':
            return z3.Not(self.tr(t.args[0]))
        if op == 'and':
            return z3.And(*[self.tr(a) for a in t.args])
        if op == 'or':
            return z3.Or(*[self.tr(a) for a in t.args])
        if op == 'iteu':
            return z3.If(*[self.tr(a) for a in t.args])
        if op in ('forall', 'exists'):
            return z3.Const('q_' + t.key.hex(), z3.BoolSort())
        raise TypeError('to z3: %s' % op)

    def mono(self, m):
        """opaque product, with Iverson factors kept as conditionals and sign facts"""
        iv = [a for a, k in m if a.op == 'ivr']
        rest = tuple((a, k) for a, k in m if a.op != 'ivr')
        if not rest:
            return z3.If(z3.And(*[self.tr(a.args[0]) for a in iv]), z3.IntVal(1), z3.IntVal(0))
        if len(rest) == 1 and rest[0][1] == 1:
            e = self.tr(rest[0][0])
        else:
            mt = mono_term(rest)
            e = z3.Const('m_' + mt.key.hex(), self.sort(mt.sort))
            if mt not in self.cache:
                self.cache[mt] = e
                xs = [self.tr(a) for a, k in rest]
                if len(rest) == 2 and rest[0][1] == 1 and rest[1][1] == 1:
                    x, y = xs
                    self.side += [z3.Implies(z3.And(x >= 0, y >= 0), e >= 0),
                                  z3.Implies(z3.And(x > 0, y > 0), e > 0),
                                  z3.Implies(z3.And(x >= 0, y <= 0), e <= 0),
                                  z3.Implies(z3.And(x <= 0, y >= 0), e <= 0),
                                  z3.Implies(z3.And(x <= 0, y <= 0), e >= 0),
                                  z3.Implies(z3.Or(x == 0, y == 0), e == 0),
                                  z3.Implies(e == 0, z3.Or(x == 0, y == 0))]
                    X = z3.ToReal(x) if z3.is_int(x) and not z3.is_int(e) else x
                    Y = z3.ToReal(y) if z3.is_int(y) and not z3.is_int(e) else y
                    self.side += [z3.Implies(z3.And(x >= 0, y >= 0, y <= 1), e <= X),
                                  z3.Implies(z3.And(y >= 0, x >= 0, x <= 1), e <= Y),
                                  z3.Implies(x == 1, e == Y), z3.Implies(y == 1, e == X)]
                elif len(rest) == 1 and rest[0][1] == 2:
                    self.side.append(e >= 0)
                    X = xs[0]
                    X = z3.ToReal(X) if z3.is_int(X) and not z3.is_int(e) else X
                    self.side.append(z3.Implies(z3.And(xs[0] >= 0, xs[0] <= 1), e <= X))
                    self.side.append(z3.Implies(e == 0, xs[0] == 0))
                else:
                    self.side.append(z3.Implies(z3.And(*[x >= 0 for x in xs]), e >= 0))
                    self.side.append(z3.Implies(z3.And(*[x > 0 for x in xs]), e > 0))
                    self.side.append(z3.Implies(z3.And(*[z3.And(x >= 0, x <= 1) for x in xs]), e <= 1))
                    self.side.append(z3.Implies(z3.Or(*[x == 0 for x in xs]), e == 0))
        if iv:
            zero = z3.IntVal(0) if z3.is_int(e) else z3.RealVal(0)
            return z3.If(z3.And(*[self.tr(a.args[0]) for a in iv]), e, zero)
        return e


def z3_check(assertions, timeout_ms=2000, nl=False, want_model=False):
    check_deadline()
    t0 = time.time()
    zt = Z(nl)
    s = z3.SolverFor('QF_UFNIRA') if False else z3.Solver()
    s.set('timeout', timeout_ms)
    for a in assertions:
        s.add(zt.tr(a))
    # side facts may grow while translating; all are ground
    for f in zt.side:
        s.add(f)
    r = s.check()
    STATS['z3_calls'] += 1
    STATS['z3_time'] += time.time() - t0
    if want_model:
        return r, (s.model() if r == z3.sat else None), zt
    return r


# ------------------------------------------------------------------ context

class Rules:
    """Rewriting facts about sums and spec functions."""

    def __init__(self):
        self.sums = []      # (fname, handler(ctx, binder, dep_factors) -> T or None)
        self.apps = {}      # fname -> handler(ctx, app) -> T or None
        self.lemmas = []    # handler(ctx, ground subterms) -> list of facts

    def copy(self):
        r = Rules()
        r.sums = list(self.sums)
        r.apps = dict(self.apps)
        r.lemmas = list(self.lemmas)
        return r


class Ctx:
    def __init__(self, facts=(), rules=None):
        self.facts = []
        self.fset = set()
        self.rules = rules if rules is not None else Rules()
        self.subs = {}
        self.ndefs = 0
        self._ent = {}
        self._simp = {}
        self._inc = None
        self._solver = None
        for f in facts:
            self.assume(f)

    def copy(self):
        c = Ctx.__new__(Ctx)
        c.facts = list(self.facts)
        c.fset = set(self.fset)
        c.rules = self.rules
        c.subs = dict(self.subs)
        c.ndefs = self.ndefs
        c._ent = {}
        c._simp = {}
        c._inc = None
        c._solver = None
        return c

    def ext(self, *fs):
        c = self.copy()
        for f in fs:
            c.assume(f)
        return c

    def assume(self, f):
        self._ent = {}
        self._simp = {}
        self._inc = None
        self._solver = None
        f = self.norm(f)
        if f.op == 'and':
            for x in f.args:
                self.assume(x)
            return
        if f.op == 'exists':
            vs = [fresh('sk', v.sort) for v in f.args[0]]
            self.assume(subst(f.args[1], dict(zip(f.args[0], vs))))
            return
        if f is TRUE or f in self.fset:
            return
        if f.op == 'forall':
            # prenex form: the instances of inner quantifiers are found by the same triggers
            b = f.args[1]
            if b.op == 'or' and any(x.op == 'forall' for x in b.args):
                self.fset.add(f)
                vs, b = open_binder(f)
                k = [x for x in b.args if x.op == 'forall'][0]
                ws, kb = open_binder(k)
                self.assume(forall(tuple(vs) + tuple(ws), disj(kb, *[x for x in b.args if x is not k])))
                return
            if b.op == 'or' and sum(x.op == 'and' for x in b.args) == 1 and any(x.op == 'forall' for a in b.args if a.op == 'and' for x in a.args):
                self.fset.add(f)
                vs, b = open_binder(f)
                k = [x for x in b.args if x.op == 'and'][0]
                for part in k.args:
                    self.assume(forall(vs, disj(part, *[x for x in b.args if x is not k])))
                return
        if f.op == 'eq0':
            s = self._solve_eq(f.args[0])
            if s is not None:
                v, val = s
                m = {v: val}
                self.subs = {k: subst(x, m) for k, x in self.subs.items()}
                self.subs[v] = val
                old = self.facts
                self.facts, self.fset = [], set()
                for x in old:
                    self.assume(subst(x, m) if v in x.fv else x)
                return
        self.facts.append(f)
        self.fset.add(f)

    def _solve_eq(self, p):
        best = None
        for c, m in poly_items(p):
            if len(m) == 1 and m[0][0].op == 'var' and m[0][1] == 1:
                v = m[0][0]
                if v.sort == 'I' and abs(c) != 1:
                    continue
                lc = lin_coeff(p, v)
                if lc is None:
                    continue
                val = mul(num(-1 / lc[0]), lc[1])
                if v.sort == 'I' and val.sort != 'I':
                    continue
                num_ = _serial(v)
                if best is None or num_ > best[0]:
                    best = (num_, v, val)
        return best and best[1:]

    def norm(self, t):
        if self.subs and (t.fv & self.subs.keys()):
            t = subst(t, self.subs)
        return t

    # ---- quick entailment (ground facts, linear abstraction)
    def solver(self):
        if self._solver is None:
            zt = Z(False)
            s = z3.Solver()
            s.set('timeout', 400)
            for f in self.facts:
                if f.op not in ('forall',) and _cheap(f):
                    s.add(zt.tr(f))
            n = len(zt.side)
            for x in zt.side:
                s.add(x)
            self._solver = (s, zt, [n])
        return self._solver

    def sat_with(self, *cs):
        """False only if the context and cs are contradictory (quick check)"""
        check_deadline()
        s, zt, n = self.solver()
        t0 = time.time()
        es = [zt.tr(c) for c in cs]
        s.push()
        for x in zt.side[n[0]:]:
            s.add(x)
        for e in es:
            s.add(e)
        r = s.check()
        s.pop()
        STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t0
        return r != z3.unsat

    def entails(self, c):
        c = self.norm(c)
        if c is TRUE or c in self.fset:
            return True
        if c is FALSE:
            return self.inconsistent()
        r = self._ent.get(c)
        if r is None:
            if c.op == 'and':
                r = all(self.entails(x) for x in c.args)
            elif c.op in ('forall', 'exists'):
                r = False
            else:
                r = not self.sat_with(no(c))
                if not r and c.op in ('app', 'not', 'equ', 'le0', 'ge0', 'eq0') and self._qrel(c):
                    r = self.entails_q(c)
            self._ent[c] = r
        return r

    def _qrel(self, c):
        """some quantified fact mentions a function symbol of c"""
        fs = func_names(c)
        if not fs:
            return False
        for f in self.facts:
            if f.op == 'forall' and (func_names(f) & fs):
                return True
        return False

    def entails_q(self, c):
        facts = instantiate(self, [no(c)], rounds=2, limit=150, deep=False)
        return z3_check(facts + [no(c)], 400) == z3.unsat

    def inconsistent(self):
        if self._inc is None:
            self._inc = not self.sat_with()
        return self._inc


def _serial(v):
    n = v.args[0]
    if '!' in n:
        try:
            return int(n.rsplit('!', 1)[1])
        except ValueError:
            return 0
    return 0


def _cheap(f):
    return True


# ------------------------------------------------------------------ simplify

def simp(ctx, t):
    t = ctx.norm(t)
    r = ctx._simp.get(t)
    if r is not None:
        return r
    cur = t
    for _ in range(6):
        nxt = _simp1(ctx, cur)
        if nxt is cur:
            break
        cur = nxt
    ctx._simp[t] = cur
    return cur


def _simp1(ctx, t):
    def f(x):
        if x.op == 'sum':
            return simp_sum(ctx, x)
        if x.op == 'ivr':
            c = simp(ctx, x.args[0]) if _has_struct(x.args[0]) else x.args[0]
            if c.op not in ('forall', 'exists'):
                if ctx.entails(c):
                    return ONE
                if ctx.entails(no(c)):
                    return ZERO
            return ivr(c)
        if x.op == 'app':
            h = ctx.rules.apps.get(x.args[0])
            if h is not None:
                y = rebuild_app(app(x.args[0], [simp(ctx, a) for a in x.args[1:]], x.sort))
                r = h(ctx, y)
                if r is not None and r is not x:
                    return simp(ctx, r)
                return y
        if x.op in ('forall', 'exists'):
            return simp_quant(ctx, x)
        if x.op == 'case':
            return simp_case(ctx, x)
        return None
    return map_atoms(t, f)


def simp_case(ctx, x):
    r = None
    out = []
    for c, v in x.args:
        if c is not None:
            if _has_struct(c):
                c = simp(ctx, c)
            if c is FALSE or ctx.entails(no(c)):
                continue
            if c is TRUE or ctx.entails(c):
                c = None
        if v.op not in ('nan', 'pinf', 'ninf'):
            v = simp(ctx, v)
        out.append((c, v))
        if c is None:
            break
    if len(out) == 1:
        return simp(ctx, out[0][1])
    r = out[-1][1]
    for c, v in reversed(out[:-1]):
        r = case(c, v, r)
    if r is x:
        return x
    return r if r.op == 'case' else simp(ctx, r)


def _has_struct(t):
    return any(s.op in ('sum', 'inv', 'app', 'ivr') for s in subterms(t))


def simp_quant(ctx, x):
    vs, body = open_binder(x)
    b = simp(ctx, body)
    return mk_quant(x.op, vs, b)


def simp_sum(ctx, s):
    """returns an equal term"""
    r = ctx._simp.get(s)
    if r is not None:
        return r
    check_deadline()
    vs, body = open_binder(s)
    its = poly_items(body)
    assert len(its) == 1
    mono = its[0][1]
    guards = [a.args[0] for a, e in mono if a.op == 'ivr']
    others = [(a, e) for a, e in mono if a.op != 'ivr']
    # inconsistent?
    c2 = ctx.ext(*guards)
    if c2.inconsistent() or FALSE in c2.fset:
        ctx._simp[s] = ZERO
        return ZERO
    changed = False
    # drop implied guards
    keep = list(guards)
    for g in sorted(guards, key=lambda g: g.key):
        rest = [h for h in keep if h is not g]
        # a range bound of a binder may only be dropped in favour of another bound
        if ctx.ext(*rest).entails(g):
            # keep range finite
            keep = rest
            changed = True
    # simplify the other factors under the guards
    new_others = []
    for a, e in others:
        b = simp(c2, a)
        if b is not a:
            changed = True
        new_others.append((b, e))
    # Subs introduced by guard equalities are absorbed by delta elimination already
    gpoly = ONE
    sv = frozenset(vs)
    for g in keep:
        gpoly = mul(gpoly, ivr(g))
    # canonical lower bounds: [t <= v] -> [0 <= v] - [0 <= v][v <= t-1]   when 0 <= t
    for v in vs:
        lows = []
        for g in keep:
            b = guard_bound(mk('ivr', (g,), 'I'), v) if g.op == 'le0' else None
            if b is not None and b[0] == 'lo':
                lows.append((g, b[1]))
        for g, t in lows:
            if t is ZERO:
                continue
            if (t.op == 'num' and t.args[0] > 0) or (t.op != 'num' and ctx.ext(*[h for h in keep if h is not g]).entails(le(ZERO, t))):
                others_g = ONE
                for h in keep:
                    if h is not g:
                        others_g = mul(others_g, ivr(h))
                gpoly = mul(others_g, sub(ivr(le(ZERO, v)), mul(ivr(le(ZERO, v)), ivr(le(v, sub(t, ONE))))))
                changed = True
                break
            elif t.op == 'num' and t.args[0] < 0:
                pass
        else:
            continue
        break
    if changed:
        b = gpoly
        for a, e in new_others:
            b = mul(b, powi(a, e))
        r = mk_sum(vs, b)
        if r is not s:
            r = simp(ctx, r) if r.op != 'sum' else simp_sum(ctx, r)
            ctx._simp[s] = r
            return r
    # try reducing one binder
    for v in vs:
        dep = [(a, e) for a, e in mono if v in a.fv]
        indep = [(a, e) for a, e in mono if v not in a.fv]
        ws = [w for w in vs if w is not v]
        cg = ctx.ext(*[a.args[0] for a, e in indep if a.op == 'ivr'])
        red = reduce_binder(cg, v, dep)
        if red is not None:
            b = red
            for a, e in indep:
                b = mul(b, powi(a, e))
            r = mk_sum(ws, b)
            r = simp(ctx, r)
            ctx._simp[s] = r
            return r
    ctx._simp[s] = s
    return s


def reduce_binder(ctx, v, dep):
    los, his, rest = [], [], []
    for a, e in dep:
        b = guard_bound(a, v)
        if b is None:
            rest.append((a, e))
        elif b[0] == 'lo':
            los.append(b[1])
        else:
            his.append(b[1])
    if not rest and len(los) == 1 and len(his) == 1:
        lo, hi = los[0], his[0]
        if ctx.entails(le(lo, add(hi, ONE))):
            return add(sub(hi, lo), ONE)
        if ctx.entails(le(hi, lo - ONE)):
            return ZERO
        return None
    if len(los) == 1 and len(his) == 1 and los[0] is his[0]:
        r = ONE
        for a, e in rest:
            r = mul(r, powi(subst(a, {v: los[0]}), e))
        return r
    for h in ctx.rules.sums:
        r = h(ctx, v, los, his, rest)
        if r is not None:
            return r
    return None


def align_bounds(ctx, t):
    """rewrite [v <= b+d] as [v <= b] + [v = b+1] + ... for sums in t whose
    upper bounds differ by small constants"""
    groups = {}

    def collect(x, depth=0):
        for s in all_subterms(x):
            if s.op == 'sum':
                for c, m in poly_items(s.args[1]):
                    for v in s.args[0]:
                        for a, e in m:
                            b = guard_bound(a, v)
                            if b is not None and b[0] == 'hi':
                                base, c0 = split_const(b[1])
                                if base is not ZERO:
                                    groups.setdefault(base, set()).add(c0)
    collect(t)
    targets = {}
    for base, cs in groups.items():
        lo = min(cs)
        for c in cs:
            if c > lo and c - lo <= 3:
                targets[(base, c)] = lo
    if not targets:
        return t

    def f(x):
        if x.op != 'sum':
            return None
        vs, body = open_binder(x)
        mono = poly_items(body)[0][1]
        b = ONE
        ch = False
        for a, e in mono:
            rep = None
            for v in vs:
                g = guard_bound(a, v)
                if g is not None and g[0] == 'hi':
                    base, c0 = split_const(g[1])
                    # bounds that mention other binders have '#'-free names after opening
                    lo = targets.get((base, c0))
                    if lo is not None:
                        rep = ivr(le(v, add(base, num(lo))))
                        k = lo + 1
                        while k <= c0:
                            rep = add(rep, ivr(eq(v, add(base, num(k)))))
                            k += 1
                        break
            if rep is not None:
                ch = True
                b = mul(b, rep)
            else:
                y = map_atoms(a, f) if a.op != 'sum' else a
                b = mul(b, powi(y, e))
        if not ch:
            r = mk_sum(vs, b)
            return r
        return map_atoms(mk_sum(vs, b), f)
    return map_atoms(t, f)


def split_const(p):
    d = to_poly(p)
    c = d.pop((), Fraction(0))
    return from_poly(d), c


# ------------------------------------------------------------------ matching

def match_arg(pat, t, vs, bind):
    """linear matching of an argument pattern"""
    pv = [v for v in vs if v in pat.fv]
    if not pv:
        return pat is t
    if pat.op == 'var':
        b = bind.get(pat)
        if b is None:
            if pat.sort != t.sort and not (pat.sort == 'R' and t.sort == 'I'):
                return False
            bind[pat] = t
            return True
        return b is t
    if pat.sort not in 'IR' or t.sort not in 'IR':
        if pat.op == t.op == 'app' and pat.args[0] == t.args[0] and len(pat.args) == len(t.args):
            return all(match_arg(p, q, vs, bind) for p, q in zip(pat.args[1:], t.args[1:]))
        return False
    if pat.op == 'app':
        return t.op == 'app' and pat.args[0] == t.args[0] and len(pat.args) == len(t.args) and \
            all(match_arg(p, q, vs, bind) for p, q in zip(pat.args[1:], t.args[1:]))
    un = [v for v in pv if v not in bind]
    if len(un) == 0:
        return subst(pat, {v: bind[v] for v in pv}) is t
    if len(un) == 1:
        v = un[0]
        q = subst(pat, {w: bind[w] for w in pv if w is not v})
        lc = lin_coeff(q, v)
        if lc is None:
            return False
        val = mul(num(1 / lc[0]), sub(t, lc[1]))
        if v.sort == 'I' and val.sort != 'I':
            return False
        bind[v] = val
        return True
    return False


_trig_cache = {}


def triggers(q):
    """list of alternative trigger sets (each a list of app patterns)"""
    r = _trig_cache.get(q)
    if r is not None:
        return r
    vs, body = q.args[0], q.args[1]
    vset = frozenset(vs)
    cands = []
    for s in subterms(body):
        if s.op == 'app' and (s.fv & vset) and not s.args[0].startswith('~'):
            if any(a.op == 'var' or lin_ok(a, vset) for a in s.args[1:] if a.fv & vset):
                cands.append(s)
    # also look one level inside sums for patterns (used only if nothing else)
    full = [c for c in cands if (c.fv & vset) == vset]
    res = []
    if full:
        # prefer smallest
        res = [[c] for c in full]
    else:
        # greedy cover
        def cover(first):
            cov = first.fv & vset
            ts = [first]
            while cov != vset:
                nx = None
                for c in cands:
                    g = (c.fv & vset) - cov
                    if g and (nx is None or len(g) > len((nx.fv & vset) - cov)):
                        nx = c
                if nx is None:
                    return None
                ts.append(nx)
                cov = cov | (nx.fv & vset)
            return ts
        for c in cands:
            ts = cover(c)
            if ts is not None and not any(set(ts) == set(x) for x in res):
                res.append(ts)
    _trig_cache[q] = res
    return res


def lin_ok(a, vset):
    for v in a.fv & vset:
        if lin_coeff(a, v) is None:
            return False
    return True


def ground_apps(terms):
    acc = {}
    for t in terms:
        subterms(t, acc)
    idx = {}
    for s in acc:
        if s.op == 'app':
            if not any(v.args[0].startswith('#') for v in s.fv):
                idx.setdefault((s.args[0], len(s.args)), []).append(s)
    return idx


def ground_ints(terms):
    """integer index terms occurring as arguments of applications"""
    out = {}
    for t in terms:
        for s in subterms(t):
            if s.op == 'app':
                for a in s.args[1:]:
                    if a.sort == 'I' and not any(v.args[0].startswith('#') for v in a.fv):
                        out[a] = True
    return list(out)


def match_q(q, idx, limit):
    vs, body = q.args[0], q.args[1]
    out = []
    seen = set()
    for ts in triggers(q):
        binds = [{}]
        for pat in ts:
            nb = []
            for b in binds:
                for g in idx.get((pat.args[0], len(pat.args)), ()):
                    b2 = dict(b)
                    if all(match_arg(p, a, vs, b2) for p, a in zip(pat.args[1:], g.args[1:])):
                        nb.append(b2)
                        if len(nb) > limit:
                            break
                if len(nb) > limit:
                    break
            binds = nb
        for b in binds:
            if len(b) == len(vs):
                k = tuple(b[v] for v in vs)
                if k not in seen:
                    seen.add(k)
                    out.append(b)
    return out


def skolem_binds(q, goals):
    """a fact whose variables occur only below sums is instantiated with the constants of the goal"""
    vs = q.args[0]
    if len(vs) > 2 or any(v.sort != 'I' for v in vs):
        return []
    if triggers(q):
        return []
    cs = {}
    for g in goals:
        for x in g.fv:
            if x.sort == 'I' and x.args[0].split('!')[0] in ('c', 'sk'):
                cs[x] = True
    cs = sorted(cs, key=lambda x: x.args[0])[:5]
    if len(vs) == 1:
        cs += [e for e in endpoints(q.args[1], vs[0]) if e not in cs]
    import itertools
    return [dict(zip(vs, t)) for t in itertools.product(cs, repeat=len(vs))][:25]


def endpoints(body, v):
    """first and last value of v in the range guards of a clause"""
    out = []
    for x in body.args if body.op == 'or' else ():
        if x.op not in ('le0', 'ge0') or v not in x.args[0].fv:
            continue
        p = x.args[0] if x.op == 'le0' else neg(x.args[0])
        c = lin_coeff(p, v)
        if c is None or c[0] not in (1, -1):
            continue
        # the clause is about the values with p >= 1
        e = sub(ONE, c[1]) if c[0] == 1 else sub(c[1], ONE)
        if e not in out and e.sort == 'I':
            out.append(e)
    return out[:4]


def instantiate(ctx, goals, rounds=3, limit=400, hints=(), deep=True):
    """ground facts of ctx plus instances of its quantified facts relevant to goals"""
    ground = [f for f in ctx.facts if f.op != 'forall']
    quants = [f for f in ctx.facts if f.op == 'forall']
    out = list(ground)
    seen = set(ground)
    work = list(goals)
    done = set()
    # facts about the rarest symbols of the goals first
    gs = set()
    for g in goals:
        gs |= func_names(g)
    cnt = {}
    for q in quants:
        for f in func_names(q) & gs:
            cnt[f] = cnt.get(f, 0) + 1
    nq = sorted(quants, key=lambda q: min([cnt[f] for f in func_names(q) & gs], default=10 ** 6))
    total = 0
    for rnd in range(rounds):
        idx = ground_apps(out + work + list(hints))
        new = []
        newq = []
        for q in nq:
            bs = match_q(q, idx, limit)
            scan = not bs and rnd == 0
            if scan:
                bs = skolem_binds(q, list(goals) + list(hints))
            for b in bs:
                k = (q, tuple(b[v] for v in q.args[0]))
                if k in done:
                    continue
                done.add(k)
                if rnd and any(_nested_enum(x) for x in k[1]):
                    continue
                inst = subst(q.args[1], b)
                inst = ctx.norm(inst)
                if scan and deep and any(x.op == 'sum' for x in all_subterms(inst)):
                    inst = simp(ctx, inst)
                if inst is TRUE or inst in seen:
                    continue
                seen.add(inst)
                total += 1
                if total > limit:
                    break
                for y in _flatten(inst):
                    if y.op == 'forall':
                        newq.append(y)
                    else:
                        new.append(y)
        if not new and not newq:
            break
        out += new
        nq += newq
        if total > limit:
            break
    return out


_NEST = {}


def _nested_enum(t):
    """position of an element of the same enumeration, or the like: instances there add nothing"""
    r = _NEST.get(t)
    if r is None:
        r = False
        if t.op == 'app' and t.args[0][:4] in ('ene_', 'enp_'):
            tag = t.args[0][4:]
            r = any(s.op == 'app' and s.args[0][:4] in ('ene_', 'enp_') and s.args[0][4:] == tag and s is not t for s in subterms(t)) and t.args[0][:4] == 'enp_'
        _NEST[t] = r
    return r


def _flatten(f):
    """split conjunctions; Skolemise existentials (positive position) and lift foralls
    out of implications"""
    if f.op == 'and':
        r = []
        for x in f.args:
            r += _flatten(x)
        return r
    if f.op == 'exists':
        vs = [fresh('sk', v.sort) for v in f.args[0]]
        return _flatten(subst(f.args[1], dict(zip(f.args[0], vs))))
    if f.op == 'or':
        xs = []
        for x in f.args:
            if x.op == 'exists':
                vs = [fresh('sk', v.sort) for v in x.args[0]]
                xs.append(subst(x.args[1], dict(zip(x.args[0], vs))))
            else:
                xs.append(x)
        fa = [x for x in xs if x.op == 'forall']
        if fa:
            vs, body = open_binder(fa[0])
            return [forall(vs, disj(body, *[x for x in xs if x is not fa[0]]))]
        return [disj(*xs)]
    return [f]


# ------------------------------------------------------------------ proving

class Res:
    def __init__(self, ok, by='', goal=None, why='', model=None):
        self.ok, self.by, self.goal, self.why, self.model = ok, by, goal, why, model

    def __bool__(self):
        return self.ok


def prove(ctx, goal, depth=0, hints=()):
    """Res"""
    check_deadline()
    goal = ctx.norm(goal)
    if goal is TRUE:
        return Res(True, 'norm')
    if goal in ctx.fset:
        return Res(True, 'assumed')
    if goal.op == 'and':
        by = []
        for g in goal.args:
            r = prove(ctx, g, depth, hints)
            if not r:
                return r
            by.append(r.by)
        return Res(True, _join(by))
    if goal.op == 'forall':
        vs = [fresh('c', v.sort) for v in goal.args[0]]
        return prove(ctx, subst(goal.args[1], dict(zip(goal.args[0], vs))), depth, hints)
    if goal.op == 'or':
        ds = list(goal.args)
        if all(d.op not in ('exists',) for d in ds) or any(d.op == 'forall' for d in ds):
            main = max(ds, key=_weight)
            rest = [d for d in ds if d is not main]
            c2 = ctx.copy()
            for d in rest:
                c2.assume(no(d))
            return prove(c2, main, depth, hints)
        # existential goal among disjuncts
        main = [d for d in ds if d.op == 'exists'][0]
        rest = [d for d in ds if d is not main]
        c2 = ctx.copy()
        for d in rest:
            c2.assume(no(d))
        return prove(c2, main, depth, hints)
    return prove_atom(ctx, goal, depth, hints)


def _join(by):
    s = sorted(set(b for x in by for b in x.split('+') if b))
    return '+'.join(s)


def _weight(d):
    w = {'forall': 50, 'eq0': 10, 'le0': 6, 'ge0': 6, 'and': 20, 'equ': 5}.get(d.op, 1)
    if d.op == 'not' and d.args[0].op in ('le0', 'ge0', 'eq0'):
        w = 5
    if any(s.op == 'sum' for s in subterms(d)):
        w += 60
    return w


def prove_atom(ctx, goal, depth, hints):
    if ctx.inconsistent() or FALSE in ctx.fset:
        return Res(True, 'z3')
    ng = no(goal)
    # 1 quick
    if ctx.entails(goal):
        STATS['smt'] += 1
        return Res(True, 'z3')
    # 2 simplification
    if any(s.op in ('sum', 'inv', 'ivr', 'case', 'app') for s in subterms(goal)):
        g2 = simp(ctx, goal)
        if g2 is not goal:
            if g2 is TRUE:
                STATS['norm'] += 1
                return Res(True, 'norm')
            if g2.op in ('and', 'or', 'forall'):
                return prove(ctx, g2, depth, hints)
            g3 = simp(ctx, align_bounds(ctx, g2))
            if g3 is TRUE:
                STATS['norm'] += 1
                return Res(True, 'norm')
            goal = g3
            ng = no(goal)
        else:
            g3 = align_bounds(ctx, goal)
            if g3 is not goal:
                g3 = simp(ctx, g3)
                if g3 is TRUE:
                    STATS['norm'] += 1
                    return Res(True, 'norm')
                goal = g3
                ng = no(goal)
    if goal.op in ('and', 'or', 'forall'):
        return prove(ctx, goal, depth, hints)
    # 3 instantiate + z3 linear
    neg_parts = _flatten(ng)
    c2 = ctx.copy()
    for x in neg_parts:
        c2.assume(x)
    gs = [x for x in c2.facts]
    ngs = [x for x in neg_parts if x.op != 'forall']
    ground = instantiate(c2, ngs, rounds=3, hints=hints)
    lem = []
    if depth < 3:
        lem = sum_lemmas(c2, ground, ngs, depth)
        for h in ctx.rules.lemmas:
            lem += h(c2, ground)
        if lem:
            c3 = c2.copy()
            for l in lem:
                c3.assume(l)
            ground = instantiate(c3, ngs + lem, rounds=3, hints=hints)
    ground = expand_ground(ctx, ground)
    r = z3_check(ground, 3000)
    if r == z3.unsat:
        STATS['smt'] += 1
        return Res(True, 'z3' + ('+sumlemma' if lem else ''))
    # 3b replace applications of the goal by their defining sums
    if depth < 3 and goal.op in ('eq0', 'le0', 'ge0'):
        g4 = unfold_sums(ctx, goal, ground)
        if g4 is not None:
            rr = prove(ctx, g4, depth + 1, hints)
            if rr:
                return rr
    # 3c rewriting with the (unit propagated) ground equations
    if goal.op in ('eq0', 'le0', 'ge0') and rewrite_eqs(c2, goal, ground):
        STATS['norm'] += 1
        return Res(True, 'rewriting')
    # 3d congruence under binders
    if depth < 3:
        g5, gr5 = congruence(ctx, c2, goal, ground)
        if g5 is not None:
            if g5 is TRUE:
                STATS['norm'] += 1
                return Res(True, 'rewriting')
            if z3_check(gr5 + [no(g5)], 3000) == z3.unsat:
                STATS['smt'] += 1
                return Res(True, 'z3')
            if g5.op in ('eq0', 'le0', 'ge0') and rewrite_eqs(c2, g5, gr5):
                STATS['norm'] += 1
                return Res(True, 'rewriting')
    # 4 pointwise comparison of sums
    if depth < 4:
        rr = pointwise(ctx, goal, depth, hints)
        if rr:
            return rr
    # 5 nonlinear
    r, model, zt = z3_check(ground, 4000, nl=True, want_model=True)
    if r == z3.unsat:
        STATS['smt'] += 1
        return Res(True, 'z3-nra')
    if depth == 0:
        # relevance filtered nonlinear attempt
        small = relevant(ground, ngs)
        if len(small) < len(ground):
            r2 = z3_check(small, 4000, nl=True)
            if r2 == z3.unsat:
                STATS['smt'] += 1
                return Res(True, 'z3-nra')
    # 6 case split on Iverson atoms that occur inside sums/with sums
    if depth < 2:
        rr = case_split(ctx, goal, depth, hints) or exit_split(ctx, goal, depth, hints)
        if rr:
            return rr
    return Res(False, '', goal, str(r), model)


def unfold_sums(ctx, goal, ground):
    atoms = {}
    for c, m in poly_items(goal.args[0]):
        for a, e in m:
            if a.op == 'app':
                atoms[a] = None
    if not atoms:
        return None
    for f in ground:
        guards = []
        if f.op == 'or':
            es = [x for x in f.args if x.op == 'eq0']
            if len(es) != 1:
                continue
            guards = [x for x in f.args if x is not es[0]]
            f = es[0]
        if f.op != 'eq0':
            continue
        items = poly_items(f.args[0])
        if not any(a.op == 'sum' for c, m in items for a, e in m) or not any(a in atoms for c, m in items for a, e in m):
            continue
        if not all(ctx.entails(no(g)) for g in guards):
            continue
        for c, m in items:
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in atoms and atoms[m[0][0]] is None:
                a = m[0][0]
                rest = from_poly({mm: -cc / c for cc, mm in items if mm is not m and mm != m})
                if a not in subterms(rest):
                    atoms[a] = rest
                    break
    sub_ = {a: t for a, t in atoms.items() if t is not None}
    if not sub_:
        return None
    r = ZERO
    for c, m in poly_items(goal.args[0]):
        t = num(c)
        for a, e in m:
            t = mul(t, powi(sub_.get(a, a), e))
        r = add(r, t)
    g = {'eq0': lambda x: eq(x, ZERO), 'le0': lambda x: le(x, ZERO), 'ge0': lambda x: le(ZERO, x)}[goal.op](r)
    return g if g is not goal else None


def rewrite_eqs(ctx, goal, ground):
    """the goal becomes trivial after eliminating applications by ground equations"""
    gp = goal.args[0]
    apps = {a for a in subterms(gp) if a.op == 'app' and a.sort in 'IR'}
    if not apps or len(poly_items(gp)) > 60:
        return False
    fs = {a.args[0] for a in apps}
    eqs = []
    for f in ground:
        if f.op == 'or' and len(f.args) <= 6:
            left = [x for x in f.args if not (x.op not in ('forall', 'exists') and ctx.entails(no(x)))] if any(x.op == 'eq0' for x in f.args) and (func_names(f) & fs) else []
            if len(left) == 1:
                f = left[0]
        if f.op == 'eq0' and (func_names(f) & fs):
            eqs.append(f.args[0])
    if not eqs or len(eqs) > 80:
        return False
    eqs = sorted(set(eqs), key=lambda p: (len(poly_items(p)), p.key))
    for _ in range(len(eqs)):
        live = {a for a in subterms(gp) if a.op == 'app'}
        best = None
        for p in eqs:
            for c, m in poly_items(p):
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in live:
                    a = m[0][0]
                    if sum(1 for _, k in poly_items(p) if any(x is a or a in subterms(x) for x, _e in k)) != 1:
                        continue
                    # prefer to remove the largest applications
                    w = (len(a.key) if isinstance(a.key, (str, tuple)) else 0, -len(poly_items(p)))
                    if best is None or w > best[0]:
                        best = (w, p, a, c)
        if best is None:
            return False
        _, p, a, c = best
        val = sub(a, mul(num(1 / c), p))
        m = {a: val}
        rw = lambda t: map_atoms(t, lambda x: val if x is a else None)
        gp = rw(gp)
        eqs = [q for q in (rw(q) for q in eqs if q is not p) if q is not ZERO]
        if gp is ZERO or (gp.op == 'num' and mk_cmp(goal.op, gp)):
            return True
        if len(poly_items(gp)) > 200:
            return False
    return False


def _positive(f):
    if f.op in ('or', 'and'):
        for x in f.args:
            yield from _positive(x)
    else:
        yield f


def congruence(ctx, c2, goal, ground):
    """replace integer applications below binders by the ground terms they are known to equal: (goal, ground facts) or (None, None)"""
    def below(t):
        out = set()
        for s in all_subterms(t):
            if s.op == 'sum':
                out |= {a for a in all_subterms(s.args[1]) if a.op == 'app' and a.sort == 'I' and not any(x.args[0].startswith('#') for x in a.fv)}
        return out
    inner = below(goal)
    for f in ground:
        inner |= below(f)
    if not inner:
        return None, None
    cand = {}
    for f in ground:
        for x in _positive(f):
            if x.op != 'eq0' or x.args[0].sort != 'I':
                continue
            for c, m in poly_items(x.args[0]):
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in inner and abs(c) == 1:
                    a = m[0][0]
                    val = sub(a, mul(num(1 / c), x.args[0]))
                    if a not in all_subterms(val):
                        cand.setdefault(a, set()).add((val, f is x))
    m = {}
    for a, vals in sorted(cand.items(), key=lambda x: str(x[0].key)):
        for val, sure in sorted(vals, key=lambda x: (len(str(x[0].key)), str(x[0].key))):
            if any(val in (k,) or k in all_subterms(val) for k in m):
                continue
            if sure or z3_check(ground + [no(eq(a, val))], 1000) == z3.unsat:
                m[a] = val
                break
    if not m:
        return None, None
    rw = lambda t: map_atoms(t, lambda x: m.get(x))
    g = simp(ctx, rw(goal))
    out = []
    for f in ground:
        f2 = rw(f)
        out.append(f2 if f2 is f else simp(ctx, f2))
    return g, [f for f in out if f is not TRUE]


def mk_cmp(op, x):
    q = x.args[0]
    return q == 0 if op == 'eq0' else q <= 0 if op == 'le0' else q >= 0


def expand_ground(ctx, fs):
    return [f for f in fs if f.op != 'forall']


def relevant(ground, goals):
    sy = set()
    for g in goals:
        sy |= _syms(g)
    out = []
    for f in ground:
        if _syms(f) <= sy or f in goals:
            out.append(f)
    return out


def _syms(t):
    r = set()
    for s in all_subterms(t):
        if s.op == 'app':
            r.add(s.args[0])
        elif s.op in ('sum', 'inv'):
            r.add(s.key)
        elif s.op == 'var' and not s.args[0].startswith('#'):
            r.add(s)
    return r


def case_split(ctx, goal, depth, hints):
    conds = []
    for s in subterms(goal):
        if s.op == 'ivr':
            conds.append(s.args[0])
    # conditions inside sums not depending on binders never survive mk_sum (they factor out)
    conds = [c for c in conds if c.op in ('le0', 'eq0', 'app', 'ge0', 'equ')][:3]
    for c in conds:
        a = ctx.ext(c)
        b = ctx.ext(no(c))
        ra = Res(True, 'z3') if a.inconsistent() else prove(a, goal, depth + 1, hints)
        if not ra:
            return None
        rb = Res(True, 'z3') if b.inconsistent() else prove(b, goal, depth + 1, hints)
        if not rb:
            return None
        return Res(True, _join([ra.by, rb.by, 'split']))
    return None


def exit_split(ctx, goal, depth, hints):
    """a loop left in its first iteration, or later"""
    for e in sorted((x for x in goal.fv if x.sort == 'I' and x.args[0].startswith('exit')), key=lambda x: x.args[0])[-2:]:
        if ctx.entails(lt(ZERO, e)) or ctx.entails(eq(e, ZERO)) or not ctx.entails(le(ZERO, e)):
            continue
        first = ctx.ext(eq(e, ZERO))
        if not (first.inconsistent() or prove(first, goal, depth + 1, hints)):
            return None
        later = ctx.ext(lt(ZERO, e))
        r = Res(True, 'z3') if later.inconsistent() else prove(later, goal, depth + 1, hints)
        if r:
            return r
    return None


def goal_poly(goal):
    """(kind, poly) for numeric atomic goals: kind in eq, le(<=0), lt(<0), ge, gt"""
    if goal.op == 'eq0':
        return 'eq', goal.args[0]
    if goal.op == 'le0':
        return 'le', goal.args[0]
    if goal.op == 'ge0':
        return 'ge', goal.args[0]
    if goal.op == 'not':
        g = goal.args[0]
        if g.op == 'le0':
            return 'gt', g.args[0]
        if g.op == 'ge0':
            return 'lt', g.args[0]
    return None


def pointwise(ctx, goal, depth, hints):
    """goal: linear combination of single-binder sums (plus nothing else) compared to 0:
    combine sums under one binder and prove the comparison pointwise."""
    gp = goal_poly(goal)
    if gp is None:
        return None
    kind, p = gp
    if kind in ('lt', 'gt'):
        return None
    k = fresh('k', 'I')
    terms_, extra = [], []
    for c, m in poly_items(p):
        sums = [(a, e) for a, e in m if a.op == 'sum']
        if len(sums) == 1 and sums[0][1] == 1:
            coef = num(c)
            for a, e in m:
                if a is not sums[0][0]:
                    coef = mul(coef, powi(a, e))
            terms_.append((coef, sums[0][0]))
        else:
            extra.append(mul(num(c), mono_term(m)))
    if not terms_:
        return None
    if extra and addn(extra) is not ZERO:
        return None
    # choose, for every sum, the binder whose range guards coincide
    def ranges(s):
        out = []
        for v in s.args[0]:
            m = poly_items(s.args[1])[0][1]
            los = [guard_bound(a, v)[1] for a, e in m if guard_bound(a, v) and guard_bound(a, v)[0] == 'lo']
            his = [guard_bound(a, v)[1] for a, e in m if guard_bound(a, v) and guard_bound(a, v)[0] == 'hi']
            for lo in los:
                for hi in his:
                    if not any(x.args[0].startswith('#') for x in lo.fv | hi.fv):
                        out.append((v, lo, hi))
        return out
    rs = [ranges(s) for _, s in terms_]
    if not all(rs):
        return None
    from itertools import product
    cand = []
    for v, lo, hi in rs[0]:
        if all(any(l is lo and h is hi for _, l, h in r) for r in rs):
            if (lo, hi) not in cand:
                cand.append((lo, hi))
    for lo, hi in cand:
        combos = []
        for r in rs:
            combos.append([v for v, l, h in r if l is lo and h is hi])
        n = 0
        for choice in product(*combos):
            n += 1
            if n > 6:
                break
            body = ZERO
            for (coef, s), v in zip(terms_, choice):
                ws = [fresh('b', w.sort) for w in s.args[0]]
                mp = dict(zip(s.args[0], ws))
                b = subst(s.args[1], mp)
                b = subst(b, {mp[v]: k})
                rest = [w for w in ws if w is not mp[v]]
                body = add(body, mul(coef, mk_sum(rest, b)))
            c2 = ctx.ext(le(lo, k), le(k, hi))
            g2 = {'eq': eq(body, ZERO), 'le': le(body, ZERO), 'ge': le(ZERO, body)}[kind]
            r = prove(c2, g2, depth + 1, hints)
            if r:
                STATS['lemma'] += 1
                return Res(True, _join([r.by, 'sumext']))
    return None


def sum_lemmas(ctx, ground, goals, depth):
    """nonnegativity and member-below-sum facts for sums occurring in the goal/facts"""
    out = []
    sums = {}
    for g in goals:
        for s in subterms(g):
            if s.op == 'sum':
                sums[s] = 2
    for g in ground:
        for s in subterms(g):
            if s.op == 'sum' and s not in sums:
                sums[s] = 1
    ints = None
    n = 0
    for s, lvl in sums.items():
        n += 1
        if n > 12:
            break
        sign = _sum_sign(ctx, s, depth)
        if sign > 0:
            out.append(le(ZERO, s))
            # members: body(k0) <= s
            if len(s.args[0]) == 1:
                if ints is None:
                    ints = _index_candidates(goals, ground)
                v = s.args[0][0]
                names = {(x.args[0], i): True for x in all_subterms(s.args[1]) if x.op == 'app'
                         for i, a in enumerate(x.args[1:]) if v in a.fv}
                cands = {}
                for (f, i), t in ints:
                    if (f, i) in names:
                        cands[t] = True
                for t in list(cands)[:6]:
                    inst = subst(s.args[1], {v: t})
                    out.append(le(inst, s))
        elif sign < 0:
            out.append(le(s, ZERO))
    out += prefix_lemmas(ctx, sums, goals)
    return [o for o in out if o is not TRUE]


def prefix_lemmas(ctx, sums, goals):
    """sum_{v <= b + 1} f = sum_{v <= b} f + f(b + 1) for the sums that occur"""
    groups = {}
    for s in sums:
        if len(s.args[0]) != 1:
            continue
        vs, body = open_binder(s)
        v = vs[0]
        mono = poly_items(body)
        if len(mono) != 1:
            continue
        rest, hi = ONE, None
        for a, e in mono[0][1]:
            b = guard_bound(a, v)
            if b is not None and b[0] == 'hi' and hi is None:
                hi = b[1]
            else:
                rest = mul(rest, powi(a, e))
        if hi is None:
            continue
        base, c = split_const(hi)
        x = tm.var('#p', 'I')
        groups.setdefault((subst(rest, {v: x}), base), []).append((c, s))
    out = []
    x = tm.var('#p', 'I')
    atoms = set()
    for g in goals:
        atoms |= {a for a in subterms(g) if a.op == 'app'}
    for (rest, base), ss in groups.items():
        for c, s in ss:
            if any(q == c + 1 for q, _ in ss):
                continue
            nxt = add(base, num(c + 1))
            last = subst(rest, {x: nxt})
            if any(a in atoms for a in subterms(last)):
                y = fresh('x', 'I')
                full = mk_sum([y], mul(subst(rest, {x: y}), ivr(le(y, nxt))))
                out.append(eq(simp(ctx, full), add(s, simp(ctx, last))))
        ss.sort(key=lambda q: q[0])
        for (c, s), (d, t) in zip(ss, ss[1:]):
            if 0 < d - c <= 2:
                k, add_ = c + 1, s
                while k <= d:
                    add_ = add(add_, simp(ctx, subst(rest, {x: add(base, num(k))})))
                    k += 1
                out.append(eq(t, add_))
    return out


def _index_candidates(goals, ground):
    acc = []
    seen = set()
    for t in list(goals) + list(ground):
        for s in subterms(t):
            if s.op == 'app':
                for i, a in enumerate(s.args[1:]):
                    if a.sort == 'I' and not any(v.args[0].startswith('#') for v in a.fv):
                        k = ((s.args[0], i), a)
                        if k not in seen:
                            seen.add(k)
                            acc.append(k)
    return acc


_sign_cache = {}


def _sum_sign(ctx, s, depth):
    k = (s, tuple(f for f in ctx.facts if f.op == 'forall'))
    # sign depends on ground facts too; only cache positives per ctx identity
    vs, body = open_binder(s)
    mono = poly_items(body)[0][1]
    guards = [a.args[0] for a, e in mono if a.op == 'ivr']
    rest = tuple((a, e) for a, e in mono if a.op != 'ivr')
    if not rest:
        return 1
    c2 = ctx.ext(*guards)
    # factor-wise signs first
    sign = 1
    for a, e in rest:
        if e % 2 == 0:
            continue
        x = a
        if x.op == 'inv':
            x = x.args[0]
        if _nonneg(c2, x, depth):
            continue
        if _nonneg(c2, neg(x), depth):
            sign = -sign
            continue
        return 0
    return sign


def _nonneg(ctx, x, depth):
    g = le(ZERO, x)
    if ctx.entails(g):
        return True
    if x.op == 'sum':
        return _sum_sign(ctx, x, depth) > 0
    if x.op == 'app' and x.args[0] in NONNEG_FUNS:
        return True
    facts = instantiate(ctx, [no(g)], rounds=2, limit=120)
    return z3_check(facts + [no(g)], 500) == z3.unsat


NONNEG_FUNS = {'exp', 'abs'}
