"""C16: hidden path prediction"""
from .spec import *
from .c_chain import tt, lift_u, length
from .c_evolve import int_list
from .c_decode import observed, about
from .prover import prove


def same_arguments(v, args, mats, T, s):
    """the callee is given this model and these symbols"""
    for a, m in zip(args, mats):
        x = tuple(tm.fresh('x', 'I') for _ in m.shape)
        v.I.oblige('the model given to the decoder', conj(*[eq(c, e) for c, e in zip(a.shape, m.shape)], forall(x, implies(conj(*[conj(le(ZERO, c), lt(c, e)) for c, e in zip(x, m.shape)]), eq(a.get(*x), m.get(*x))))), 'call')
    t = tm.fresh('t', 'I')
    v.I.oblige('the symbols given to the decoder', conj(eq(length(args[3]), lift(T)), *[eq(lift_u(args[3], num(t)), s(num(t))) for t in range(int(lift(T).args[0]))]) if v.bounded else
               conj(eq(length(args[3]), lift(T)), forall(t, implies(conj(le(ZERO, t), lt(t, lift(T))), eq(lift_u(args[3], t), s(t))))), 'call')


@spec('C16', 'predict_map', ['HiddenMarkovModel.predict', 'simulations.hmm_predict'], sizes=((2, 2, 2), (3, 2, 2)), also=('C18',))
def predict_map(v):
    """the states maximise the decoded posterior"""
    n, k, T = v.dim('n', 2), v.dim('k', 2), v.dim('T', 2)

    def run():
        o, P, E, S, Y = v.bare_hmm(n, k)
        d = distribution(v.I, n, 'd')
        Z, s = observed(v, T, k)
        post = real_matrix(v.I, n, 'post', m=T)
        lp = v.real('lp')
        found = tm.fresh('found', 'B')

        def decode(I, a, kw):
            same_arguments(v, a, (P, E, d), T, s)
            if I.decide(found):
                return (lp, post, None, None, None)
            return None
        v.I.contracts['measures.hmm_decode'] = decode
        keep = [(P, P.fn), (E, E.fn), (d, d.fn)]
        r = v.call(o, 'predict', 'map', Z, d, True)
        t = tm.fresh('t', 'I')
        v.I.assume(conj(le(ZERO, t), lt(t, lift(T))))           # an arbitrary position
        at = range(int(lift(T).args[0])) if v.bounded else [t]
        return r, post, lp, found, keep, r and [(lift(t), lift_u(r[1], t)) for t in at]
    for p in v.only_ok(v.paths(run)):
        r, post, lp, found, keep, at = p.value
        v.frame(p, 'predict', *keep)
        if r is None:
            v.check(p, 'None only for impossible symbols', no(found))
            continue
        v.check(p, 'a prediction only for possible symbols', found)
        v.check(p, 'log-likelihood', eq(tt(r[0]), tt(lp)))
        v.check(p, 'length', eq(length(r[1]), lift(T)))
        for t, x in at:
            v.forall(p, 'the states are maximal', [n], lambda y: le(post.get(y, t), post.get(x, t)))
            v.check(p, 'the states are indices', conj(le(ZERO, x), lt(x, lift(n))))


DELTA = num(Fraction(1, 10 ** 12))


def log(x):
    return app('log', [x], 'R')


@spec('C16', 'predict_viterbi', ['HiddenMarkovModel.predict', 'simulations.hmm_predict'], sizes=((2, 2, 2),), also=('C18',))
def predict_viterbi(v):
    """a positive model: no hidden path is better than the one returned, up to the rounding to 12 digits in every step"""
    n, k, T = v.dim('n', 2), v.dim('k', 2), v.dim('T', 2)

    def run():
        I = v.I
        o, P, E, S, Y = v.bare_hmm(n, k)
        d = distribution(I, n, 'd')
        Z, s = observed(v, T, k)
        if v.bounded:
            N, K = int(lift(n).args[0]), int(lift(k).args[0])
            # fixed entries; the logarithms stay arbitrary
            for m, q in ((d.get(0), (1, 3)), (P.get(0, 0), (1, 5)), (P.get(1, 0), (3, 7)), (E.get(0, 0), (2, 11)), (E.get(1, 0), (6, 13))):
                I.assume(eq(m, num(Fraction(*q))))
        else:
            i, j = tm.fresh('i', 'I'), tm.fresh('j', 'I')
            I.assume(forall((i, j), lt(ZERO, P.get(i, j))))
            I.assume(forall((i, j), lt(ZERO, E.get(i, j))))
            I.assume(forall(i, lt(ZERO, d.get(i))))
        x = tm.fresh('x', 'R')
        rnd = app('round12', [x], 'R')
        I.assume(forall(x, conj(le(rnd, x + DELTA), le(x, rnd + DELTA))))
        v.trust('math: rounding to 12 digits moves a number by less than 1e-12')
        keep = [(P, P.fn), (E, E.fn), (d, d.fn)]
        return v.call(o, 'predict', 'viterbi', Z, d, True), keep, P, E, d, s, None if v.bounded else paths_of(v, P, E, d, s)
    for p in v.only_ok(v.paths(run)):
        r, keep, P, E, d, s, g = p.value
        v.frame(p, 'predict', *keep)
        if r is None:
            v.check(p, 'a path of a positive model', FALSE)
            continue
        v.check(p, 'length', eq(length(r[1]), lift(T)))
        if v.bounded:
            import itertools
            N, M = int(lift(n).args[0]), int(lift(T).args[0])
            score = lambda z: log(d.get(z[0]) * E.get(z[0], s(ZERO))) + sum((log(P.get(z[t], z[t + 1])) + log(E.get(z[t + 1], s(num(t)))) for t in range(M)), ZERO)
            best = tt(r[0])
            zs = [lift_u(r[1], num(t)) for t in range(M)]
            for z in itertools.product(range(N), repeat=M + 1):
                z = [num(x) for x in z]
                v.check(p, 'no path is better', le(score(z), best + num(M) * DELTA))
            v.check(p, 'the path attains the maximum', disj(*[conj(*[eq(zs[t], num(z[t + 1])) for t in range(M)], le(best - num(M) * DELTA, score([num(x) for x in z]))) for z in itertools.product(range(N), repeat=M + 1)]))
        else:
            viterbi_optimal(v, p, r, n, T, g)


def paths_of(v, P, E, d, s):
    """the score of an arbitrary hidden path Y and of a path starting in i0 and going on as Z"""
    first = lambda i: log(d.get(i) * E.get(i, s(ZERO)))
    move = lambda t, i, j: log(P.get(i, j)) + log(E.get(j, s(t)))
    Y, Z, i0 = (lambda t: app('path', [lift(t)], 'I')), (lambda t: app('returned', [lift(t)], 'I')), tm.fresh('start', 'I')
    S = v.rec('S', 0, lambda: first(Y(ZERO)), lambda S, t: S(t) + move(t, Y(t), Y(t + 1)))
    R = v.rec('R', 0, lambda: first(i0) + move(ZERO, i0, Z(ZERO)), lambda R, t: R(t) + move(t + 1, Z(t), Z(t + 1)))
    return first, move, Y, Z, i0, S, R


def viterbi_optimal(v, p, r, n, T, g):
    first, move, Y, Z, i0, S, R = g
    best, z = tt(r[0]), (lambda t: lift_u(r[1], t))
    W = lambda t, j: app(best.args[0], [lift(t), j], 'R')         # the table: best log-probability of reaching j in t transitions
    v.holds(p, 'the result is an entry of the table', best.op == 'app' and len(best.args) == 3 and best.args[1] is lift(T), show(best)[:200])
    t, i, j = (tm.fresh(x, 'I') for x in 'tij')
    inside = lambda *c: conj(*[conj(le(ZERO, x), lt(x, lift(n))) for x in c])
    during = conj(le(ZERO, t), lt(t, lift(T)))

    base = {best.args[0], 'round12', 'log', 'p', 'e', 'd', 's'}
    maxima = sorted({x for f in p.ctx.facts if f.op == 'forall' for y in tm.all_subterms(f) if y.op == 'eq0' and {best.args[0], 'round12'} <= tm.func_names(y) for x in tm.func_names(y) if x.startswith('maxa_')})

    def lemma(name, f, *names):
        q = next((q for q in (about(p, *base, *names, m) for m in maxima) if prove(q.ctx, f)), p) if names else p
        if v.check(q, name, f):
            p.ctx = p.ctx.ext(f)
    lemma('the table starts with the initial distribution', forall(j, implies(inside(j), eq(W(ZERO, j), first(j)))))
    lemma('no move is better', forall((t, i, j), implies(conj(during, inside(i, j)), le(W(t, i) + move(t, i, j), W(t + 1, j) + DELTA))), 'p')
    lemma('the final state is best', forall(j, implies(inside(j), le(W(lift(T), j), best))))
    # an arbitrary hidden path
    p.ctx = p.ctx.ext(forall(t, implies(conj(le(ZERO, t), le(t, lift(T))), inside(Y(t)))))
    v.induct(p, 'a path is at most as good as the table', lambda t: implies(le(t, lift(T)), le(S(t), W(t, Y(t)) + t * DELTA)))
    v.check(p, 'no path is better', le(S(lift(T)), best + lift(T) * DELTA))
    # the path returned
    lemma('the states are indices', forall(t, implies(during, inside(z(t)))))
    v.check(p, 'the first state is an index', inside(z(ZERO)))
    lemma('the path follows the table', forall(t, implies(conj(during, le(ONE, t)), le(W(t + 1, z(t)), W(t, z(t - 1)) + move(t, z(t - 1), z(t)) + DELTA))))
    p.ctx = p.ctx.ext(forall(t, implies(during, eq(Z(t), z(t)))))
    start = lambda i: le(W(ONE, z(ZERO)), first(i) + move(ZERO, i, z(ZERO)) + DELTA)
    # the start is where the maximum for the first state is attained
    begin = lambda m, j: implies(inside(j), conj(inside(app(m, [j, ZERO, lift(n)], 'I')), le(W(ONE, j), first(app(m, [j, ZERO, lift(n)], 'I')) + move(ZERO, app(m, [j, ZERO, lift(n)], 'I'), j) + DELTA)))
    m = next((m for m in maxima if prove(about(p, *base, m).ctx, forall(j, begin(m, j)))), None)
    v.holds(p, 'the path has a start', m is not None, 'no start')
    if m is not None:
        p.ctx = p.ctx.ext(begin(m, z(ZERO)), inside(z(ZERO)), eq(i0, app(m, [z(ZERO), ZERO, lift(n)], 'I')))
    v.induct(p, 'the path is as good as the table', lambda t: implies(lt(t, lift(T)), le(W(t + 1, z(t)), R(t) + (t + 1) * DELTA)))
    v.check(p, 'the path attains the maximum', le(best, R(T - 1) + lift(T) * DELTA))
