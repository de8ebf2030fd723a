"""C21: correlations, relaxations and mixing times over the powers of P

Time points beyond the number of states go through a spectral decomposition (not modelled; KF-C21-1) and are left to
the runtime contracts."""
from .spec import *
from .prover import prove
from .c_chain import tt, IND
from .c_evolve import int_list, power_vec, expected_power_col
from .c_flags import with_pi
from .c_linear import one_pi, ergodic


def occurrences(v, s, k):
    """how often i occurs in the sequence"""
    return lambda i: v.sum(k, lambda t: IND(eq(s(t), i)))


def fixed(p, t):
    """0 or 1 where the path says so"""
    return next((num(k) for k in (0, 1) if prove(p.ctx, eq(t, num(k)))), t)


class Vec:
    def __init__(self, f):
        self.get = f


def time_points(v, kind, n):
    """(argument, the time points)"""
    t0 = v.dim('t', 0)
    v.I.assume_def(le(t0, n))
    if kind == 'one':
        return [v.val(t0)], [t0]
    d1 = v.dim('u', 1)
    v.I.assume_def(le(t0 + d1, n))
    return [PList([v.val(t0), v.val(t0 + d1)])], [t0, t0 + d1]


def correlations_spec(v, kind, second):
    n, k = v.dim('n', 2), v.dim('k', 2)
    arg, ts = time_points(v, kind, n)

    def run():
        mc, P, L = v.bare_mc(n)
        d = one_pi(v, n)
        s1, f1 = int_list(v, k, n)
        s2, f2 = int_list(v, k, n, 'z') if second else (None, f1)
        c1, c2 = occurrences(v, f1, k), occurrences(v, f2, k)
        R = expected_power_col(v, 'R', Vec(c2), P, n)
        if not v.bounded:
            R.offsets, R.unfold = [ts[0]], True
        return v.call(mc, 'time_correlations', s1, s2, *arg), P, d, c1, R, [(P, P.fn), (d, d.fn)]
    for p in v.only_ok(v.paths(run)):
        r, P, d, c1, R, keep = p.value
        v.frame(p, 'time_correlations', *keep)
        got = [r] if kind == 'one' else list(r)
        v.holds(p, 'one value per time point', len(got) == len(ts), 'another number of values')
        for x, t in zip(got, [fixed(p, t) for t in ts]):
            v.check(p, 'n1 . pi (P^t n2)', eq(tt(x), v.sum(n, lambda i: c1(i) * d.get(i) * R(t, i))))


@spec('C21', 'time_correlations', ['MarkovChain.time_correlations', 'measures.mc_time_correlations'], sizes=((2, 2, 1), (3, 1, 3)), also=('C18',))
def time_correlations(v):
    correlations_spec(v, 'one', False)


@spec('C21', 'time_cross_correlations', ['MarkovChain.time_correlations', 'measures.mc_time_correlations'], sizes=((2, 2, 2),), also=('C18',))
def time_cross_correlations(v):
    correlations_spec(v, 'one', True)


@spec('C21', 'time_correlations_list', ['MarkovChain.time_correlations', 'measures.mc_time_correlations'], sizes=((3, 1, 1, 2),), also=('C18',))
def time_correlations_list(v):
    correlations_spec(v, 'two', False)


def relaxations_spec(v, kind):
    n, k = v.dim('n', 2), v.dim('k', 2)
    arg, ts = time_points(v, kind, n)

    def run():
        mc, P, L = v.bare_mc(n)
        one_pi(v, n)
        s, f = int_list(v, k, n)
        d = distribution(v.I, n, 'd')
        R = power_vec(v, 'R', d, P, n)
        if not v.bounded:
            R.offsets, R.unfold = [ts[0]], True
        return v.call(mc, 'time_relaxations', s, d, *arg), P, d, occurrences(v, f, k), R, [(P, P.fn), (d, d.fn)]
    for p in v.only_ok(v.paths(run)):
        r, P, d, c, R, keep = p.value
        v.frame(p, 'time_relaxations', *keep)
        got = [r] if kind == 'one' else list(r)
        v.holds(p, 'one value per time point', len(got) == len(ts), 'another number of values')
        for x, t in zip(got, [fixed(p, t) for t in ts]):
            v.check(p, 'd P^t n', eq(tt(x), v.sum(n, lambda i: R(t, i) * c(i))))


@spec('C21', 'time_relaxations', ['MarkovChain.time_relaxations', 'measures.mc_time_relaxations'], sizes=((2, 2, 1), (3, 1, 3)), also=('C18',))
def time_relaxations(v):
    relaxations_spec(v, 'one')


@spec('C21', 'time_relaxations_list', ['MarkovChain.time_relaxations', 'measures.mc_time_relaxations'], sizes=((3, 1, 1, 2),), also=('C18',))
def time_relaxations_list(v):
    relaxations_spec(v, 'two')


@spec('C21', 'several_distributions', ['MarkovChain.time_correlations', 'MarkovChain.time_relaxations'], sizes=((2, 2),))
def several_distributions(v):
    n, k = v.dim('n', 2), v.dim('k', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        with_pi(v, n, 2)
        s, f = int_list(v, k, n)
        return v.call(mc, 'time_correlations', s, None, 1), v.call(mc, 'time_relaxations', s, None, 1)
    for p in v.only_ok(v.paths(run)):
        v.holds(p, 'None for several stationary distributions', p.value[0] is None and p.value[1] is None, 'not None')


def mixing_spec(v, kind, cutoff):
    n = v.dim('n', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        ergodic(v)
        q = one_pi(v, n)
        d = distribution(v.I, n, 'd')
        R = power_vec(v, 'R', d, P, n)
        gap = lambda t: app('gap', [lift(t)], 'R')

        def inv(iterations, tvd, d, mt):
            it, tv, m = tt(iterations), tt(tvd), tt(mt)
            s = tm.fresh('s', 'I')
            # definition of gap
            v.I.assume(eq(gap(it), v.sum(n, lambda i: npm.abs_t(v.I, R(it, i) - q.get(i)))))
            return [le(ZERO, it), le(it, num(100)), eq(m, it), implies(eq(it, ZERO), eq(tv, ONE)), implies(lt(ZERO, it), eq(tv, gap(it))),
                    forall(s, implies(conj(le(ONE, s), lt(s, it)), lt(cutoff(), gap(s)))), ('d', lambda i: R(it + 1, i))]
        v.loop_invariant(['iterations', 'tvd', 'd', 'mt'], inv, lambda iterations, tvd, d, mt: num(100) - tt(iterations))
        return v.call(mc, 'mixing_time', d, 1, kind), P, d, gap, [(P, P.fn), (d, d.fn)]
    for p in v.only_ok(v.paths(run)):
        r, P, d, gap, keep = p.value
        v.frame(p, 'mixing_time', *keep)
        if r is None:
            s = tm.fresh('s', 'I')
            v.check(p, 'None when the gap stays above the cutoff', forall(s, implies(conj(le(ONE, s), le(s, num(100))), lt(cutoff(), gap(s)))))
        else:
            t, s = tt(r), tm.fresh('s', 'I')
            v.check(p, 'within 100 steps', conj(le(ONE, t), le(t, num(100))))
            v.check(p, 'the gap is not above the cutoff', le(gap(t), cutoff()))
            v.check(p, 'nor before', forall(s, implies(conj(le(ONE, s), lt(s, t)), lt(cutoff(), gap(s)))))


@spec('C21', 'mixing_time', ['MarkovChain.mixing_time', 'measures.mc_mixing_time'], sizes=((2,),), also=('C18',))
def mixing_time(v):
    if v.bounded:
        raise Unsupported('100 iterations')
    mixing_spec(v, 'traditional', lambda: num(Fraction(1, 4)))


@spec('C21', 'mixing_time_natural', ['MarkovChain.mixing_time', 'measures.mc_mixing_time'], sizes=((2,),), also=('C18',))
def mixing_time_natural(v):
    if v.bounded:
        raise Unsupported('100 iterations')
    e = app('exp', [ONE], 'R')
    v.I.assume_def(conj(lt(num(2), e), lt(e, num(3))))
    v.trust('math: 2 < e < 3')
    mixing_spec(v, 'natural', lambda: ONE * tm.inv(2 * e))
