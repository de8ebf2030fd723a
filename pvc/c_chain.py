"""C02, C04, C05: chains built from closed forms and from other chains"""
from fractions import Fraction
from .spec import *

IND = lambda c: ivr(c)


def every(dims, f):
    """universal statement over index ranges as a term"""
    if all(lift(d).op == 'num' for d in dims):
        import itertools
        return conj(*[f(*[num(i) for i in ix]) for ix in itertools.product(*[range(int(lift(d).args[0])) for d in dims])])
    vs = [tm.fresh('q', 'I') for _ in dims]
    return forall(tuple(vs), implies(conj(*[conj(le(ZERO, x), lt(x, lift(d))) for x, d in zip(vs, dims)]), f(*vs)))


def chain(v, res):
    return v.attr(res, 'p'), v.attr(res, 'states')


def same_labels(v, p, name, got, exp, n):
    """label lists agree position by position"""
    g = (lambda i: lift_u(got, i))
    v.check(p, name + ': count', eq(length(got), lift(n)))
    v.forall(p, name, [n], lambda i: eq(lift_u(got, i), exp(i)))


def tt(e):
    return e.t if isinstance(e, SV) else (strlit(e) if isinstance(e, str) else lift(e))


def length(x):
    return num(len(x)) if isinstance(x, (list, tuple)) else x.length


def lift_u(x, i):
    i = lift(i)
    if isinstance(x, (list, tuple)):
        if i.op != 'num':
            raise Unsupported('symbolic index of a concrete list')
        e = x[int(i.args[0])]
    else:
        e = x.get(i)
    return tt(e)


def made(v, paths):
    """the result is a MarkovChain"""
    for p in v.only_ok(paths):
        yield p


# ---------------------------------------------------------------- C02
@spec('C02', 'identity', ['MarkovChain.identity'], sizes=((2,), (3,)))
def identity(v):
    n = v.dim('n', 2)
    for p in made(v, v.paths(lambda: v.static('MarkovChain', 'identity')(v.val(n)))):
        P, L = chain(v, p.value)
        v.check(p, 'size', conj(eq(P.shape[0], n), eq(P.shape[1], n)))
        v.forall(p, 'identity matrix', [n, n], lambda i, j: eq(P.get(i, j), IND(eq(i, j))))


@spec('C02', 'gamblers_ruin', ['MarkovChain.gamblers_ruin', 'generators.mc_gamblers_ruin'], sizes=((3,), (4,)))
def gamblers(v):
    n = v.dim('n', 3)
    w = v.real('w', 0, 1)
    v.I.assume_def(conj(lt(ZERO, w.t), lt(w.t, ONE)))
    for p in made(v, v.paths(lambda: v.static('MarkovChain', 'gamblers_ruin')(v.val(n), w))):
        P, L = chain(v, p.value)
        v.check(p, 'size', conj(eq(P.shape[0], n), eq(P.shape[1], n)))
        ends = lambda i: disj(eq(i, ZERO), eq(i, sub(n, ONE)))
        v.forall(p, 'absorbing ends, up with w, down with 1-w', [n, n], lambda i, j: eq(P.get(i, j),
            IND(ends(i)) * IND(eq(i, j)) + IND(no(ends(i))) * (w.t * IND(eq(j, i + 1)) + (1 - w.t) * IND(eq(j, i - 1)))))


def urn(v, model, down, stay, up):
    n = v.dim('n', 1)
    for p in made(v, v.paths(lambda: v.static('MarkovChain', 'urn_model')(model, v.val(n)))):
        P, L = chain(v, p.value)
        dn = mul(num(2), n)
        size = add(dn, ONE)
        v.check(p, 'size', conj(eq(P.shape[0], size), eq(P.shape[1], size)))

        def row(i, j):
            x = i / dn
            inner = down(x) * IND(eq(j, i - 1)) + stay(x) * IND(eq(i, j)) + up(x) * IND(eq(j, i + 1))
            return IND(eq(i, ZERO)) * IND(eq(j, ONE)) + IND(eq(i, dn)) * IND(eq(j, dn - 1)) + IND(conj(lt(ZERO, i), lt(i, dn))) * inner
        v.forall(p, 'moves', [size, size], lambda i, j: eq(P.get(i, j), row(i, j)))


@spec('C02', 'urn_ehrenfest', ['MarkovChain.urn_model', 'generators.mc_urn_model'], sizes=((1,), (2,)))
def urn_e(v):
    urn(v, 'ehrenfest', lambda x: x, lambda x: ZERO, lambda x: sub(ONE, x))


@spec('C02', 'urn_bernoulli_laplace', ['MarkovChain.urn_model', 'generators.mc_urn_model'], sizes=((1,), (2,)))
def urn_b(v):
    urn(v, 'bernoulli-laplace', lambda x: mul(x, x), lambda x: 2 * x * (1 - x), lambda x: mul(sub(ONE, x), sub(ONE, x)))


# ---------------------------------------------------------------- C04
@spec('C04', 'to_lazy_chain', ['MarkovChain.to_lazy_chain', 'generators.mc_lazy'], sizes=((2,), (3,)))
def lazy(v):
    n = v.dim('n', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        w = vector(v.I, n, 'w', 0, 1)
        return v.call(mc, 'to_lazy_chain', w), P, w, L, [(P, P.fn), (w, w.fn)]
    for p in made(v, v.paths(run)):
        res, P, w, L, keep = p.value
        Q, M = chain(v, res)
        v.frame(p, 'to_lazy_chain', *keep)
        v.fresh_result(p, 'to_lazy_chain', Q, P)
        v.forall(p, 'w I + (1-w) P', [n, n], lambda i, j: eq(Q.get(i, j), add(mul(w.get(i), IND(eq(i, j))), mul(sub(ONE, w.get(i)), P.get(i, j)))))
        same_labels(v, p, 'labels', M, lambda i: lift_u(L, i), n)


@spec('C04', 'to_lazy_chain_scalar', ['MarkovChain.to_lazy_chain', 'generators.mc_lazy'], sizes=((2,), (3,)))
def lazy1(v):
    n = v.dim('n', 2)
    w = v.real('w', 0, 1)

    def run():
        mc, P, L = v.bare_mc(n)
        return v.call(mc, 'to_lazy_chain', w), P, L, [(P, P.fn)]
    for p in made(v, v.paths(run)):
        res, P, L, keep = p.value
        Q, M = chain(v, res)
        v.frame(p, 'to_lazy_chain', *keep)
        v.forall(p, 'w I + (1-w) P', [n, n], lambda i, j: eq(Q.get(i, j), add(mul(w.t, IND(eq(i, j))), mul(sub(ONE, w.t), P.get(i, j)))))
        same_labels(v, p, 'labels', M, lambda i: lift_u(L, i), n)


@spec('C04', 'merge_with', ['MarkovChain.merge_with'], sizes=((2,), (3,)))
def merge(v):
    n = v.dim('n', 2)
    g = v.real('g', 0, 1)
    v.I.assume_def(conj(lt(ZERO, g.t), lt(g.t, ONE)))

    def run():
        a, P, L = v.bare_mc(n, 'p', 'S')
        b, Q, M = v.bare_mc(n, 'q', 'T')
        return v.call(a, 'merge_with', b, g), P, Q, L, [(P, P.fn), (Q, Q.fn)]
    for p in made(v, v.paths(run)):
        res, P, Q, L, keep = p.value
        R, M = chain(v, res)
        v.frame(p, 'merge_with', *keep)
        v.fresh_result(p, 'merge_with', R, P, Q)
        v.forall(p, '(1-g) P + g Q', [n, n], lambda i, j: eq(R.get(i, j), add(mul(sub(ONE, g.t), P.get(i, j)), mul(g.t, Q.get(i, j)))))


@spec('C04', 'to_bounded_chain', ['MarkovChain.to_bounded_chain', 'generators.mc_bounded'], sizes=((3,), (4,)))
def bounded(v):
    n = v.dim('n', 3)
    for cond in ('absorbing', 'reflecting', 'semi'):
        w = v.real('w', 0, 1)

        def run():
            mc, P, L = v.bare_mc(n)
            return v.call(mc, 'to_bounded_chain', w if cond == 'semi' else cond), P, L, [(P, P.fn)]
        for p in made(v, v.paths(run)):
            res, P, L, keep = p.value
            Q, M = chain(v, res)
            v.frame(p, cond, *keep)
            a, b = {'absorbing': (ONE, ZERO), 'reflecting': (ZERO, ONE), 'semi': (sub(ONE, w.t), w.t)}[cond]
            c, d = {'absorbing': (ONE, ZERO), 'reflecting': (ZERO, ONE), 'semi': (w.t, sub(ONE, w.t))}[cond]
            last = sub(n, ONE)
            v.forall(p, cond, [n, n], lambda i, j: eq(Q.get(i, j),
                IND(eq(i, ZERO)) * (a * IND(eq(j, ZERO)) + b * IND(eq(j, ONE)))
                + IND(eq(i, last)) * (c * IND(eq(j, last)) + d * IND(eq(j, last - 1)))
                + IND(conj(lt(ZERO, i), lt(i, last))) * P.get(i, j)))
            same_labels(v, p, 'labels', M, lambda i: lift_u(L, i), n)


# ---------------------------------------------------------------- C05
@spec('C05', 'to_matrix', ['MarkovChain.to_matrix', 'MarkovChain.p', 'MarkovChain.transition_probability', 'MarkovChain.conditional_probabilities'], sizes=((2,), (3,)), also=('C18',))
def to_matrix(v):
    n = v.dim('n', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        i, j = v.int('i', 0, n), v.int('j', 0, n)
        keep = [(P, P.fn)]
        return v.call(mc, 'to_matrix'), v.I.getattr(mc, 'p'), v.call(mc, 'transition_probability', v.val(j), v.val(i)), v.call(mc, 'conditional_probabilities', v.val(i)), P, i, j, keep
    for p in v.only_ok(v.paths(run)):
        m, q, tp, cp, P, i, j, keep = p.value
        v.frame(p, 'the model', *keep)
        v.fresh_result(p, 'to_matrix', m, P)
        v.fresh_result(p, 'p', q, P)
        v.fresh_result(p, 'conditional_probabilities', cp, P)
        v.forall(p, 'to_matrix', [n, n], lambda x, y: conj(eq(m.get(x, y), P.get(x, y)), eq(q.get(x, y), P.get(x, y))))
        v.check(p, 'transition_probability', eq(tt(tp), P.get(i, j)))
        v.forall(p, 'conditional_probabilities', [n], lambda y: eq(cp.get(y), P.get(i, y)))


@spec('C05', 'from_matrix', ['MarkovChain.from_matrix', 'validation.validate_matrix'], sizes=((2,), (3,)))
def from_matrix(v):
    n = v.dim('n', 2)

    def run():
        i, j = tm.fresh('i', 'I'), tm.fresh('j', 'I')
        if v.bounded:
            k = int(n.args[0])
            rows = [[tm.var(f'm{a}{b}', 'R') for b in range(k)] for a in range(k)]
            for r in rows:
                for x in r:
                    v.I.ctx.assume(le(ZERO, x))
            m = Arr((n, n), 'f', lambda ix: npm.pick(ix[0], [npm.pick(ix[1], r) for r in rows]))
        else:
            f = lambda x, y: app('m', [x, y], 'R')
            v.I.assume_def(forall((i, j), implies(conj(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n)), le(ZERO, f(i, j)))))
            m = Arr((n, n), 'f', lambda ix: f(*ix))
        return v.static('MarkovChain', 'from_matrix')(m), m, [(m, m.fn)]
    for p in made(v, v.paths(run)):
        res, m, keep = p.value
        Q, L = chain(v, res)
        v.frame(p, 'from_matrix', *keep)
        v.fresh_result(p, 'from_matrix', Q, m)
        v.forall(p, 'rows divided by their sums', [n, n], lambda i, j: (lambda s: conj(implies(lt(num(Fraction(1, 10 ** 8)), s), eq(mul(Q.get(i, j), s), m.get(i, j))), implies(le(s, num(Fraction(1, 10 ** 8))), eq(mul(n, Q.get(i, j)), ONE))))(v.sum(n, lambda x: m.get(i, x))))


# ---------------------------------------------------------------- C02, continued
@spec('C02', 'birth_death', ['MarkovChain.birth_death', 'generators.mc_birth_death', 'validation.validate_vector'], sizes=((2,), (3,)), also=('C18',))
def birth_death(v):
    """probabilities are 0 or above the rounding threshold 1e-8 of the factory"""
    n = v.dim('n', 2)
    tiny = num(Fraction(1, 10 ** 8))

    def run():
        p, q = vector(v.I, n, 'up', 0, 1), vector(v.I, n, 'dn', 0, 1)
        last = n - 1
        ok = lambda x: disj(eq(x, ZERO), lt(tiny, x))
        cond = lambda i: conj(le(p.get(i) + q.get(i), ONE), ok(p.get(i)), ok(q.get(i)), ok(1 - p.get(i) - q.get(i)))
        if v.bounded:
            for k in range(int(n.args[0])):
                v.I.ctx.assume(cond(num(k)))
            v.I.ctx.assume(conj(eq(q.get(ZERO), ZERO), eq(p.get(last), ZERO)))
        else:
            i = tm.fresh('i', 'I')
            v.I.assume_def(forall(i, implies(conj(le(ZERO, i), lt(i, n)), cond(i))))
            v.I.assume_def(conj(eq(q.get(ZERO), ZERO), eq(p.get(last), ZERO)))
        return v.static('MarkovChain', 'birth_death')(p, q), p, q, [(p, p.fn), (q, q.fn)]
    for x in made(v, v.paths(run)):
        res, p, q, keep = x.value
        P, L = chain(v, res)
        v.frame(x, 'birth_death', *keep)
        v.check(x, 'size', conj(eq(P.shape[0], n), eq(P.shape[1], n)))
        v.forall(x, 'up p, down q, stay', [n, n], lambda i, j: eq(P.get(i, j),
                 IND(eq(j, i + 1)) * p.get(i) + IND(eq(j, i - 1)) * q.get(i) + IND(eq(i, j)) * (1 - p.get(i) - q.get(i))))


@spec('C02', 'moran', ['MarkovChain.population_genetics_model', 'generators.mc_population_genetics_model'], sizes=((2,), (3,)))
def moran(v):
    n = v.dim('n', 2)
    s, u, w = v.real('s', -1, 1), v.real('u', 0, 1), v.real('w', 0, 1)
    v.I.assume_def(lt(s.t, ONE))
    for x in made(v, v.paths(lambda: v.func('generators', 'mc_population_genetics_model')('moran', v.val(n), s, u, w))):
        P = x.value[0]
        v.check(x, 'size', conj(eq(P.shape[0], n + 1), eq(P.shape[1], n + 1)))

        def entry(i, j):
            den = (1 - s.t) * i + (n - i)
            dn = i / n * ((1 - s.t) * i * w.t + (n - i) * (1 - w.t)) / den
            up = (n - i) / n * ((1 - s.t) * i * (1 - u.t) + (n - i) * w.t) / den
            mid = IND(eq(j, i - 1)) * dn + IND(eq(j, i + 1)) * up + IND(eq(i, j)) * (1 - dn - up)
            return IND(disj(eq(i, ZERO), eq(i, n))) * IND(eq(i, j)) + IND(conj(lt(ZERO, i), lt(i, n))) * mid
        v.forall(x, 'at most one step, with selection and mutation', [n + 1, n + 1], lambda i, j: eq(P.get(i, j), entry(i, j)))


# ---------------------------------------------------------------- C04, continued
@spec('C04', 'to_nth_order', ['MarkovChain.to_nth_order'], sizes=((2, 2), (2, 3), (3, 2)))
def nth(v):
    n, k = v.dim('n', 2), v.dim('k', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        R = v.rec('R', 2, lambda i, j: IND(eq(i, j)), lambda R, t, i, j: v.sum(n, lambda x: R(t, i, x) * P.get(x, j)), n)
        return v.call(mc, 'to_nth_order', v.val(k)), P, L, R, [(P, P.fn)]
    for p in made(v, v.paths(run)):
        res, P, L, R, keep = p.value
        Q, M = chain(v, res)
        v.frame(p, 'to_nth_order', *keep)
        v.fresh_result(p, 'to_nth_order', Q, P)
        if not v.bounded:
            B = Q.snap()
            at = lambda t, i, j: subst(B((i, j)), {k: t})
            v.induct(p, 'matrix_power(P, t) = P^t', lambda t: every([n, n], lambda i, j: eq(at(t, i, j), R(t, i, j))))
        v.forall(p, 'P^k', [n, n], lambda i, j: eq(Q.get(i, j), R(k, i, j)))
        same_labels(v, p, 'labels', M, lambda i: lift_u(L, i), n)


@spec('C04', 'to_canonical_form', ['MarkovChain.to_canonical_form', 'generators.mc_canonical'], sizes=((2,), (3,), (4,)), unbounded=False)
def canonical(v):
    """every split of the states into transient and recurrent ones"""
    n = v.dim('n', 2)
    k = int(n.args[0])
    for m in range(2 ** k - 1):
        tr = [i for i in range(k) if m >> i & 1]
        rc = [i for i in range(k) if not m >> i & 1]
        v.contract_prop('__recurrent_states_indices', lambda I, o: PList(rc))
        v.contract_prop('__transient_states_indices', lambda I, o: PList(tr))

        def run():
            mc, P, L = v.bare_mc(n)
            return v.call(mc, 'to_canonical_form'), P, L, [(P, P.fn)]
        for p in made(v, v.paths(run)):
            res, P, L, keep = p.value
            Q, M = chain(v, res)
            v.frame(p, 'to_canonical_form', *keep)
            v.fresh_result(p, 'to_canonical_form', Q, P)
            ix = tr + rc
            v.forall(p, f'transient {tr} first', [n, n], lambda i, j: eq(Q.get(i, j), P.get(num(ix[int(i.args[0])]), num(ix[int(j.args[0])]))))
            same_labels(v, p, 'labels', M, lambda i: lift_u(L, ix[int(i.args[0])]), n)


def contiguous(k):
    for m in range(2 ** (k - 1)):
        r, cur = [], [0]
        for i in range(1, k):
            if m >> (i - 1) & 1:
                r.append(cur)
                cur = [i]
            else:
                cur.append(i)
        r.append(cur)
        if 1 < len(r) < k:
            yield r


@spec('C04', 'lump', ['MarkovChain.lump', 'generators.mc_lump', 'validation.validate_partitions'], sizes=((3,), (4,)), unbounded=False)
def lump(v):
    n = v.dim('n', 3)
    k = int(n.args[0])
    for part in contiguous(k):
        def run():
            mc, P, L = v.bare_mc(n)
            return v.call(mc, 'lump', PList(PList(x) for x in part)), P, L, [(P, P.fn)]
        P0 = None
        oks = 0
        for p in v.paths(run):
            P0 = P0 or [x for x in [p.value[1] if p.ok else None] if x]
            if not p.ok:
                v.check(p, 'refused with ValueError', p.exc() == 'ValueError')
                continue
            oks += 1
            res, P, L, keep = p.value
            Q, M = chain(v, res)
            v.frame(p, 'lump', *keep)
            for a, A in enumerate(part):
                v.check(p, f'label {a}', M[a] == ','.join(L[i] for i in A))
                for b, B in enumerate(part):
                    for i in A:
                        v.check(p, f'class {a} to class {b} from {i}', eq(Q.get(num(a), num(b)), addn([P.get(num(i), num(j)) for j in B])))
        if not oks:
            v.fails(None, 'lump', 'never returns')


@spec('C04', 'lump_complete', ['MarkovChain.lump', 'generators.mc_lump'], sizes=((3,), (4,)), unbounded=False)
def lump_complete(v):
    """a lumpable partition is not refused (exact real arithmetic)"""
    n = v.dim('n', 3)
    k = int(n.args[0])
    for part in contiguous(k):
        def run():
            mc, P, L = v.bare_mc(n)
            for A in part:
                for B in part:
                    for i in A[1:]:
                        v.I.ctx.assume(eq(addn([P.get(num(i), num(j)) for j in B]), addn([P.get(num(A[0]), num(j)) for j in B])))
            return v.call(mc, 'lump', PList(PList(x) for x in part))
        v.only_ok(v.paths(run))
