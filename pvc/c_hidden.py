"""C17: estimation, fitting and restriction; C15: decoding"""
import itertools
from fractions import Fraction
from .spec import *
import z3
from .prover import prove, simp, z3_check, func_names, subst
from .c_chain import every, length, tt
from .c_evolve import int_list


def transitions(v, s, L, i, j):
    """number of observed transitions i -> j"""
    return v.sum(sub(lift(L), ONE), lambda t: ivr(conj(eq(s(t), i), eq(s(add(t, ONE)), j))))


def emissions(v, s, y, L, i, j):
    return v.sum(L, lambda t: ivr(conj(eq(s(t), i), eq(y(t), j))))


def at(ctx, facts, consts, x=None):
    """instances of the facts at the constants, those variables that are determined by an occurrence of x matched first"""
    out = {}
    for f in facts:
        vs = f.args[0]
        binds = [{}]
        if x is not None:
            binds = []
            for y in tm.all_subterms(f.args[1]):
                if y.op == 'app' and y.args[0] == x.args[0]:
                    b = {}
                    if all(b.setdefault(s, t) is t if s in vs else s is t or s.op != 'var' for s, t in zip(y.args[1:], x.args[1:])):
                        binds.append(b)
        for b in binds:
            rest = [z for z in vs if z not in b]
            if len(rest) <= 2:
                for c in itertools.product(consts, repeat=len(rest)):
                    out[simp(ctx, subst(f.args[1], {**b, **dict(zip(rest, c))}))] = True
    return list(out)


def prenex(f):
    if f.op == 'or':
        q = [x for x in f.args if x.op == 'forall']
        if len(q) == 1:
            vs, body = tm.open_binder(q[0])
            return forall(tuple(vs), disj(*[body if x is q[0] else x for x in f.args]))
    return f


def settle(ctx, terms, consts):
    """decide the named conditions that occur in the terms from instances of their definitions at the constants"""
    done = set()
    for t in terms:
        for x in tm.all_subterms(t):
            if x.op != 'app' or x.sort != 'B' or x in done or any(y.args[0].startswith('#') for y in x.fv):
                continue
            done.add(x)
            facts = [prenex(f) for f in ctx.facts]
            inst = [f for f in facts if f.op != 'forall']
            defs = [f for f in facts if f.op == 'forall' and x.args[0] in func_names(f)]
            new = at(ctx, defs, consts, x)
            wit = [y for f in new for y in tm.all_subterms(f) if y.op == 'app' and y.sort == 'I' and y.args[0].startswith('allw') and not any(z.args[0].startswith('#') for z in y.fv)]
            inst += new + at(ctx, [f for f in facts if f.op == 'forall' and len(f.args[0]) == 1 and f not in defs], list(dict.fromkeys(wit)))
            if z3_check(inst + [x], 2000) == z3.unsat:
                ctx = ctx.ext(no(x))
            elif z3_check(inst + [no(x)], 2000) == z3.unsat:
                ctx = ctx.ext(x)
            elif z3_check(inst + [x], 4000, nl=True) == z3.unsat:
                ctx = ctx.ext(no(x))
            elif z3_check(inst + [no(x)], 4000, nl=True) == z3.unsat:
                ctx = ctx.ext(x)
    return ctx


def normalised(v, p, what, X, rows, cols, count, null='uniform'):
    """rows of X are the rows of the nonnegative matrix count divided by their sums; null rows are uniform or zero"""
    tot = lambda i: v.sum(cols, lambda j: count(i, j))
    none = (lambda i, j: eq(X.get(i, j) * lift(cols), ONE)) if null == 'uniform' else (lambda i, j: eq(X.get(i, j), ZERO))
    if v.bounded:
        seen = lambda i: lt(ZERO, tot(i))
        v.forall(p, what + ': observed rows', [rows, cols], lambda i, j: implies(seen(i), eq(X.get(i, j) * tot(i), count(i, j))))
        v.forall(p, what + ': unobserved rows', [rows, cols], lambda i, j: implies(no(seen(i)), none(i, j)))
        return
    i, j, w, x = (tm.fresh('c', 'I') for _ in range(4))
    ins = lambda k, m: conj(le(ZERO, k), lt(k, lift(m)))
    ctx = p.ctx
    p.ctx = ctx.ext(ins(i, rows), ins(j, cols))
    v.check(p, what + ': the counts are not negative', le(ZERO, count(i, j)))
    base = p.ctx = p.ctx.ext(forall(x, implies(ins(x, cols), le(ZERO, count(i, x)))))
    # an observed row: some count is positive
    p.ctx = settle(base.ext(ins(w, cols), lt(ZERO, count(i, w))), [X.get(i, j)], [i, w])
    rest = nonneg_sum(v, p, what + ': the other counts of an observed row', cols, lambda x: ivr(ne(x, w)) * count(i, x))
    v.check(p, what + ': an observed row has a positive sum', eq(tot(i), count(i, w) + rest))
    T = simp(p.ctx, tot(i))
    p.ctx = p.ctx.ext(le(count(i, w), tot(i)), simp(p.ctx, le(count(i, w), T)))
    v.check(p, what + ': observed rows', eq(simp(p.ctx, X.get(i, j)) * T, count(i, j)))
    # an unobserved row: all counts are zero
    p.ctx = settle(base.ext(forall(x, implies(ins(x, cols), eq(count(i, x), ZERO)))), [X.get(i, j)], [i, j])
    y = none(i, j)
    v.check(p, what + ': unobserved rows', simp(p.ctx, y))
    p.ctx = ctx


def nonneg_sum(v, p, what, n, f):
    """a sum of nonnegative terms is not negative"""
    x = tm.fresh('c', 'I')
    ctx = p.ctx
    p.ctx = ctx.ext(le(ZERO, x), lt(x, lift(n)))
    v.check(p, what, le(ZERO, f(x)))
    p.ctx = ctx.ext(le(ZERO, v.sum(n, f)))
    return v.sum(n, f)


def estimate_spec(v, nulls):
    n, k, L = v.dim('n', 2), v.dim('k', 2), v.dim('L', 2)

    def run():
        S, s = int_list(v, L, n)
        Y, y = int_list(v, L, k, 'y')
        out = v.func('generators', 'hmm_estimate')(v.val(n), v.val(k), S, Y, nulls)
        return out, s, y
    for p in v.only_ok(v.paths(run)):
        (P, E), s, y = p.value
        normalised(v, p, 'transitions', P, n, n, lambda i, j: transitions(v, s, L, i, j), 'uniform' if nulls else 'null')
        normalised(v, p, 'emissions', E, n, k, lambda i, j: emissions(v, s, y, L, i, j), 'uniform' if nulls else 'null')


@spec('C17', 'estimate', ['generators.hmm_estimate'], sizes=((2, 2, 3),))
def estimate(v):
    estimate_spec(v, True)


@spec('C17', 'estimate_nulls', ['generators.hmm_estimate'], sizes=((2, 2, 3),))
def estimate_nulls(v):
    estimate_spec(v, False)


@spec('C17', 'fit_mle', ['fitting.mc_fit_sequence'], sizes=((2, 3), (3, 3)))
def fit_mle(v):
    n, L = v.dim('n', 2), v.dim('L', 2)

    def run():
        S, s = int_list(v, L, n)
        return v.func('fitting', 'mc_fit_sequence')('mle', False, label_list(v.I, n, 'S'), S), s
    for p in v.only_ok(v.paths(run)):
        (P, msg), s = p.value
        normalised(v, p, 'transitions', P, n, n, lambda i, j: transitions(v, s, L, i, j))


@spec('C17', 'fit_mle_smoothed', ['fitting.mc_fit_sequence'], sizes=((2, 3), (3, 3)))
def fit_mle_smoothed(v):
    n, L = v.dim('n', 2), v.dim('L', 2)
    eps = num(Fraction(1, 1000))

    def run():
        S, s = int_list(v, L, n)
        return v.func('fitting', 'mc_fit_sequence')('mle', True, label_list(v.I, n, 'S'), S), s
    for p in v.only_ok(v.paths(run)):
        (P, msg), s = p.value
        normalised(v, p, 'transitions', P, n, n, lambda i, j: transitions(v, s, L, i, j) + eps)


@spec('C17', 'fit_map', ['fitting.mc_fit_sequence'], sizes=((2, 3), (3, 2)))
def fit_map(v):
    """rows are the posterior modes (counts + hyperparameters - 1), uniform when there is no information"""
    n, L = v.dim('n', 2), v.dim('L', 2)

    def one(seq):
        def run():
            if seq is None:
                S, s = int_list(v, L, n)
            else:
                S, s = PList(seq), lambda t: num(seq[int(lift(t).args[0])])
            h = real_matrix(v.I, n, 'h', 1)
            return v.func('fitting', 'mc_fit_sequence')('map', h, label_list(v.I, n, 'S'), S), s, h, h.fn
        for p in v.only_ok(v.paths(run)):
            (P, msg), s, h, fn = p.value
            v.frame(p, 'fit map', (h, fn))
            normalised(v, p, 'transitions', P, n, n, lambda i, j: transitions(v, s, L, i, j) + h.get(i, j) - ONE)
    for seq in itertools.product(range(int(n.args[0])), repeat=int(L.args[0])) if v.bounded else [None]:
        one(seq)


def k_(n):
    return int(lift(n).args[0])


def chosen_labels(v, p, what, out, labels, m, a):
    lab = lambda x: tt(labels[int(lift(x).args[0])] if isinstance(labels, list) else labels.get(lift(x)))
    at_ = lambda x: tt(out[int(lift(x).args[0])] if isinstance(out, list) else out.get(lift(x)))
    v.check(p, what + ': number of labels', eq(length(out), lift(m)))
    if v.bounded:
        n = len(labels)
        v.forall(p, what, [m], lambda i: conj(*[implies(eq(a(i), num(x)), eq(at_(i), lab(num(x)))) for x in range(n)]))
    else:
        v.forall(p, what, [m], lambda i: eq(at_(i), lab(a(i))))


def lists(v, m, n):
    """bounded: the increasing lists of m out of n indices; else one symbolic list"""
    return [list(c) for c in itertools.combinations(range(k_(n)), k_(m))] if v.bounded else [None]


def chosen(v, seq, m, n, name):
    if seq is None:
        return int_list(v, m, n, name)
    return PList(seq), lambda t: num(seq[k_(t)])


@spec('C17', 'restrict', ['generators.hmm_restrict'], sizes=((3, 3, 2, 2), (3, 2, 2, 2)), also=('C18',))
def restrict(v):
    """some states are dropped"""
    n, k, m, l = v.dim('n', 2), v.dim('k', 2), v.dim('m', 2), v.dim('l', 2)

    def one(sa, sb):
        def run():
            h, P, E, S, Y = v.bare_hmm(n, k)
            v.I.assume_def(lt(lift(m), lift(n)))
            v.I.assume_def(le(lift(l), lift(k)))
            A, a = chosen(v, sa, m, n, 'a')
            B, b = chosen(v, sb, l, k, 'b')
            return v.func('generators', 'hmm_restrict')(P, E, S, Y, A, B), a, b, P, E, S, Y, [(P, P.fn), (E, E.fn)]
        for p in v.only_ok(v.paths(run)):
            out, a, b, P, E, S, Y, keep = p.value
            v.frame(p, 'restrict', *keep)
            P2, E2, s2, y2 = out[0], out[1], out[2], out[3]
            normalised(v, p, 'transitions', P2, m, m, lambda i, j: P.get(a(i), a(j)))
            normalised(v, p, 'emissions', E2, m, l, lambda i, j: E.get(a(i), b(j)))
            chosen_labels(v, p, 'states', s2, S, m, a)
            chosen_labels(v, p, 'symbols', y2, Y, l, b)
    for sa in lists(v, m, n):
        for sb in lists(v, l, k):
            one(sa, sb)


@spec('C17', 'restrict_symbols', ['generators.hmm_restrict'], sizes=((2, 3, 2), (3, 3, 2)))
def restrict_symbols(v):
    """all the states are kept, some symbols are dropped"""
    n, k, l = v.dim('n', 2), v.dim('k', 2), v.dim('l', 2)

    def one(sb):
        def run():
            h, P, E, S, Y = v.bare_hmm(n, k)
            v.I.assume_def(lt(lift(l), lift(k)))
            B, b = chosen(v, sb, l, k, 'b')
            A = PList(range(k_(n))) if v.bounded else SList(lift(n), lambda t: SV(t, 'int'), elty='int')
            return v.func('generators', 'hmm_restrict')(P, E, S, Y, A, B), b, P, E, S, Y, [(P, P.fn), (E, E.fn)]
        for p in v.only_ok(v.paths(run)):
            out, b, P, E, S, Y, keep = p.value
            v.frame(p, 'restrict', *keep)
            v.forall(p, 'transitions are kept', [n, n], lambda i, j: eq(out[0].get(i, j), P.get(i, j)))
            normalised(v, p, 'emissions', out[1], n, l, lambda i, j: E.get(i, b(j)))
            chosen_labels(v, p, 'states', out[2], S, n, lambda i: i)
            chosen_labels(v, p, 'symbols', out[3], Y, l, b)
    for sb in lists(v, l, k):
        one(sb)
