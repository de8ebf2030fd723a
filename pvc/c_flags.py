"""C23: structural flags and scalar descriptors"""
from fractions import Fraction
from .spec import *
from .c_chain import tt, lift_u, length, IND
from .c_valid import every

RTOL, ATOL = num(Fraction(1, 10 ** 5)), num(Fraction(1, 10 ** 8))


def close(v, a, b):
    """numpy.isclose(a, b) with the default tolerances, over the reals"""
    return npm.isclose_t(v.I, a, b)


def with_pi(v, n, count=1):
    """contract of MarkovChain.pi (C09): count distributions"""
    ds = [distribution(v.I, n, 'pi%d' % k) for k in range(count)]
    v.I.contracts['prop:MarkovChain.pi'] = lambda I, o: PList(ds)
    return ds


def prop_spec(name, n_lo=2, sizes=((2,), (3,)), covers=None, unbounded=True, also=('C18',)):
    """contract of a property of a chain: fn(v, n, P, path, value)"""
    def deco(fn):
        def run(v):
            n = v.dim('n', n_lo)
            setup = getattr(fn, 'setup', None)

            def go():
                mc, P, L = v.bare_mc(n)
                extra = setup(v, n, P) if setup else None
                return v.I.getattr(mc, name), P, L, extra, [(P, P.fn)]
            for p in v.only_ok(v.paths(go)):
                r, P, L, extra, keep = p.value
                v.frame(p, name, *keep)
                if isinstance(r, Arr):
                    v.fresh_result(p, name, r, P)
                fn(v, p, n, P, L, r, extra)
        spec('C23', name, covers or ['MarkovChain.' + name], sizes=sizes, unbounded=unbounded, also=also)(run)
        return fn
    return deco


def truth(v, r):
    """the python truth value of a result as a term"""
    t = v.I.truth(r)
    return TRUE if t is True else FALSE if t is False else t


@prop_spec('is_symmetric')
def symmetric(v, p, n, P, L, r, extra):
    v.check(p, 'P equals its transpose', iff(truth(v, r), every([n, n], lambda i, j: close(v, P.get(i, j), P.get(j, i)))))


@prop_spec('is_doubly_stochastic')
def doubly(v, p, n, P, L, r, extra):
    v.check(p, 'columns sum to 1', iff(truth(v, r), every([n], lambda j: close(v, v.sum(n, lambda i: P.get(i, j)), ONE))))


@prop_spec('adjacency_matrix')
def adjacency(v, p, n, P, L, r, extra):
    v.forall(p, 'positive entries', [n, n], lambda i, j: eq(r.get(i, j), IND(lt(ZERO, P.get(i, j)))))


@prop_spec('density')
def density(v, p, n, P, L, r, extra):
    edges = v.sum(n, lambda i: v.sum(n, lambda j: IND(conj(ne(i, j), lt(ZERO, P.get(i, j))))))
    v.check(p, 'share of off-diagonal edges', eq(tt(r) * n * (n - 1), edges))


def reversible_setup(v, n, P):
    return with_pi(v, n)


def reversible(v, p, n, P, L, r, extra):
    d = extra[0]
    flow = lambda i, j: d.get(i) * P.get(i, j)
    v.check(p, 'detailed balance', iff(truth(v, r), every([n, n], lambda i, j: close(v, flow(i, j), flow(j, i)))))


reversible.setup = reversible_setup
prop_spec('is_reversible')(reversible)


@spec('C23', 'is_reversible_several', ['MarkovChain.is_reversible'])
def reversible_many(v):
    n = v.dim('n', 2)

    def go():
        mc, P, L = v.bare_mc(n)
        with_pi(v, n, 2)
        return v.I.getattr(mc, 'is_reversible')
    for p in v.only_ok(v.paths(go)):
        v.check(p, 'never for several stationary distributions', no(truth(v, p.value)))


@prop_spec('is_stochastically_monotone', sizes=((2,), (3,)))
def monotone(v, p, n, P, L, r, extra):
    tail = lambda i, m: v.sum(n - m, lambda j: P.get(i, j + m))
    v.check(p, 'tails are ordered', iff(truth(v, r), every([n - 1, n - 1], lambda k, m: le(tail(k, m + 1), tail(k + 1, m + 1)))))


@prop_spec('incidence_matrix', sizes=((2,), (3,)))
def incidence(v, p, n, P, L, r, extra):
    v.forall(p, 'column u n + v marks u and v', [n, n * n], lambda i, c: (lambda u, w: eq(r.get(i, c), IND(ne(u, w)) * IND(disj(eq(i, u), eq(i, w)))))(npm.fdiv(c, n), npm.fmod(c, n)))


def entropy_setup(v, n, P):
    return with_pi(v, n)


def entropy(v, p, n, P, L, r, extra):
    d = extra[0]
    log = lambda x: app('log', [x], 'R')
    h = v.sum(n, lambda i: v.sum(n, lambda j: IND(lt(ZERO, P.get(i, j))) * d.get(i) * P.get(i, j) * log(P.get(i, j))))
    v.check(p, 'entropy rate', disj(eq(tt(r), -h), conj(eq(tt(r), h), le(npm.abs_t(v.I, h), ATOL))))


entropy.setup = entropy_setup
prop_spec('entropy_rate')(entropy)


@spec('C23', 'entropy_rate_several', ['MarkovChain.entropy_rate'])
def entropy_many(v):
    n = v.dim('n', 2)

    def go():
        mc, P, L = v.bare_mc(n)
        with_pi(v, n, 2)
        return v.I.getattr(mc, 'entropy_rate')
    for p in v.only_ok(v.paths(go)):
        v.check(p, 'None for several stationary distributions', p.value is None)
