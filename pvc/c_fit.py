"""C03: chains fitted to a transition function"""
from fractions import Fraction
from .spec import *
from .c_hidden import normalised, k_


def fit_function_spec(v, kind, node, weight, lower=False):
    """rows are proportional to the nonnegative products f(i, x_i, j, x_j) w_j, uniform where all of them vanish"""
    n = v.dim('n', 2)

    def run():
        a, d = v.real('a'), v.real('d')
        v.I.assume_def(lt(ZERO, d.t))
        b = SV(add(a.t, d.t), 'float')
        if v.bounded:
            F = {(i, j): v.real('f%d%d' % (i, j), 0) for i in range(k_(n)) for j in range(k_(n))}
            val = lambda i, x, j, y: F[k_(i), k_(j)].t
            args = []
        else:
            val = lambda i, x, j, y: app('f', [lift(i), x, lift(j), y], 'R')
            i, x, j, y = tm.fresh('i', 'I'), tm.fresh('x', 'R'), tm.fresh('j', 'I'), tm.fresh('y', 'R')
            v.I.assume_def(forall((i, x, j, y), le(ZERO, val(i, x, j, y))))
        seen = []

        def f(I, args, kw):
            t = [lift(z.t if isinstance(z, SV) else z) for z in args]
            seen.append(t)
            return SV(val(*t), 'float')
        return v.func('fitting', 'mc_fit_function')(kind, (a, b), label_list(v.I, n, 'S'), f), a.t, d.t, val, seen
    for p in v.only_ok(v.paths(run)):
        (P, msg), a, d, val, seen = p.value
        x = lambda i: node(v, a, d, lift(n), lift(i))
        if v.bounded:
            for t in seen:
                v.check(p, 'the function is evaluated at the nodes', conj(eq(t[1], x(t[0])), eq(t[3], x(t[2]))))
        normalised(v, p, 'transitions', P, n, n, lambda i, j: val(i, x(i), j, x(j)) * weight(v, a, d, lift(n), lift(j)))


@spec('C03', 'fit_function_midpoint', ['fitting.mc_fit_function'], sizes=((2,), (3,)))
def midpoint(v):
    fit_function_spec(v, 'newton-cotes', lambda v, a, d, n, i: a + (i + num(Fraction(1, 2))) * d * tm.inv(n), lambda v, a, d, n, j: d * tm.inv(n))


@spec('C03', 'fit_function_niederreiter', ['fitting.mc_fit_function'], sizes=((2,), (3,)))
def niederreiter(v):
    def node(v, a, d, n, i):
        x = (i + ONE) * app('pow', [num(2), num(Fraction(1, 2))], 'R')
        return a + (x - app('np_fix', [x], 'R')) * d
    fit_function_spec(v, 'niederreiter', node, lambda v, a, d, n, j: d * tm.inv(n))


@spec('C03', 'fit_function_trapezoid', ['fitting.mc_fit_function'], sizes=((2,), (3,)))
def trapezoid(v):
    half = num(Fraction(1, 2))
    fit_function_spec(v, 'trapezoid-rule', lambda v, a, d, n, i: a + i * d * tm.inv(n - ONE), lambda v, a, d, n, j: d * tm.inv(n - ONE) * (ivr(conj(lt(ZERO, j), lt(j, n - ONE))) * half + half))


@spec('C03', 'fit_function_simpson', ['fitting.mc_fit_function'], sizes=((3,),))
def simpson(v):
    def weight(v, a, d, n, j):
        even = ivr(eq(app('mod', [j, num(2)], 'I'), ZERO)) if not v.bounded else num(1 - k_(j) % 2)
        return d * tm.inv(n - ONE) * num(Fraction(1, 3)) * (ivr(conj(lt(ZERO, j), lt(j, n - ONE))) * (num(3) - num(2) * even) + ONE)
    fit_function_spec(v, 'simpson-rule', lambda v, a, d, n, i: a + i * d * tm.inv(n - ONE), weight)
