"""C15: forward-backward smoothing against the unscaled joint likelihoods; C16: prediction"""
from types import SimpleNamespace
from .spec import *
from .prover import Ctx
from .c_chain import tt, lift_u, length
from .c_evolve import int_list

from . import npmodel as npm

TINY = num(Fraction(1, 10 ** 300))


def observed(v, T, k):
    """the observed symbols (in bounded mode 0, 1, .. in turn)"""
    if not v.bounded:
        return int_list(v, T, k)
    z = [t % int(lift(k).args[0]) for t in range(int(lift(T).args[0]))]
    return PList(z), lambda t: num(z[int(lift(t).args[0])])


def settle(v, P, E, tiny=False):
    """bounded mode: fixed entries (tiny: a first symbol that is hardly ever emitted)"""
    if v.bounded:
        for M, xs in ((P, (Fraction(1, 3), Fraction(3, 4))), (E, (Fraction(1, 5), Fraction(1, 2)) if not tiny else (Fraction(1, 10 ** 100), Fraction(1, 10 ** 99)))):
            for i, x in enumerate(xs):
                v.I.ctx.assume(eq(M.get(i, 0), num(x)))


def likelihoods(v, n, k, T, d, P, E, s):
    """A(t, j): joint likelihood of the first t symbols and of being in j after t transitions; B(t, i): likelihood of the last t
    symbols from i; the likelihood of the first t symbols is L(t)"""
    A = v.rec('A', 1, lambda j: d.get(j), lambda R, t, j: E.get(j, s(t)) * v.sum(n, lambda x: R(t, x) * P.get(x, j)), n)
    B = v.rec('B', 1, lambda i: ONE, lambda R, t, i: v.sum(n, lambda x: P.get(i, x) * E.get(x, s(T - 1 - t)) * R(t, x)), n)
    L = lambda t: v.sum(n, lambda j: A(t, j))
    return A, B, L


def decode_spec(v, scaling):
    n, k, T = v.dim('n', 2), v.dim('k', 2), v.dim('T', 2)

    l = (lambda t: app('lik', [lift(t)], 'R')) if not v.bounded else None

    def run():
        o, P, E, S, Y = v.bare_hmm(n, k)
        d = distribution(v.I, n, 'd')
        Z, s = observed(v, T, k)
        settle(v, P, E, v.bounded and int(lift(T).args[0]) == 3)
        A, B, L = likelihoods(v, n, k, T, d, P, E, s)
        keep = [(P, P.fn), (E, E.fn), (d, d.fn)]
        if not v.bounded:
            I = v.I

            x, c = tm.fresh('x', 'I'), tm.fresh('c', 'I')
            I.assume(eq(l(ZERO), ONE))
            I.assume(forall((x, c), implies(eq(c, T), eq(B(T - c, x), ONE))))      # B(0, x) = 1

            def forward(m, scaling_factors, forward):
                t = tm.fresh('t', 'I')
                # definition of l
                I.assume(eq(l(m + 1), v.sum(n, lambda j: E.get(j, s(m)) * v.sum(n, lambda x: A(m, x) * P.get(x, j)))))
                return [forall(t, implies(conj(le(ZERO, t), le(t, m)), lt(ZERO, l(t)))), forall(t, implies(conj(le(ZERO, t), lt(t, m)), le(TINY * l(t), l(t + 1)))),
                        ('scaling_factors', lambda c: ite(eq(c, ZERO), ONE, ite(le(c, m), l(c) * tm.inv(l(c - 1)), ZERO)), lambda c: eq(c, m)),
                        ('forward', lambda x, c: ite(le(c, m), A(c, x) * tm.inv(l(c)), ZERO), lambda x, c: eq(c, m))]

            def backward(m, backward):
                return [('backward', lambda x, c: ite(le(T - m, c), B(T - c, x) * l(c) * tm.inv(l(T)), ONE), lambda x, c: eq(c, T - m))]
            v.loop_invariant(['scaling_factors', 'forward'], forward)
            v.loop_invariant(['backward'], backward)
        return v.call(o, 'decode', Z, d, scaling), A, B, l or L, keep, Z
    for p in v.only_ok(v.paths(run)):
        r, A, B, L, keep, Z = p.value
        v.frame(p, 'decode', *keep)
        t = tm.fresh('t', 'I')
        if r is None:
            v.check(p, 'None only where a likelihood vanishes', no(conj(*[le(TINY * L(num(t)), L(num(t + 1))) for t in range(int(lift(T).args[0]))]) if v.bounded else
                    forall(t, implies(conj(le(ZERO, t), lt(t, T)), le(TINY * L(t), L(t + 1))))))
            continue
        v.forall(p, 'the likelihoods are positive', [T], lambda t: lt(ZERO, L(t + 1)))
        lp, post, back, forw, sf = r
        log_likelihood(v, p, lp, T, L, l)
        v.forall(p, 'posterior', [n, T], lambda x, t: eq(post.get(x, t) * L(lift(T)), A(t + 1, x) * B(T - 1 - t, x)))
        if scaling:
            v.forall(p, 'forward', [n, T + 1], lambda x, t: eq(forw.get(x, t) * L(t), A(t, x)))
            v.forall(p, 'backward', [n, T + 1], lambda x, t: eq(back.get(x, t) * L(lift(T)), B(T - t, x) * L(t)))
            v.check(p, 'scaling factors', eq(sf.get(ZERO), ONE))
            v.forall(p, 'scaling factors', [T], lambda t: eq(sf.get(t + 1) * L(t), L(t + 1)))
        else:
            v.holds(p, 'no scaling factors', sf is None, 'not None')
            if not v.bounded:
                f = cumulative(v, p, forw, T, l, lambda m: ONE)
                b = cumulative(v, p, back, T, lambda m: l(T), lambda m: l(T - 1 - m), 1)
            else:
                f = b = p
            v.forall(f, 'forward', [n, T + 1], lambda x, t: eq(forw.get(x, t), A(t, x)))
            v.forall(p, 'backward at the end', [n], lambda x: eq(back.get(x, lift(T)), ONE))
            v.forall(b, 'backward', [n, T], lambda x, m: eq(back.get(x, T - 1 - m), B(m + 1, x)))


def about(p, *names):
    """the path with the facts about these functions only"""
    return SimpleNamespace(ctx=Ctx([f for f in p.ctx.facts if tm.func_names(f) <= set(names)], p.ctx.rules), conds=p.conds)


def cumulative(v, p, table, T, top, den, less=0):
    """the cumulative products in the table are top(m) / den(m); returns a path with the facts needed about the table"""
    x, y = tm.fresh('x', 'I'), tm.fresh('y', 'I')
    names = {q.args[0]: q for q in tm.all_subterms(table.get(x, y)) if q.op == 'app'}
    c = next((names[q] for q in names if q.startswith('cprod')), None)
    if c is None:
        return p
    q = about(p, 'lik', c.args[0])
    v.induct(q, 'cumulative products', lambda m: implies(le(m, T - less), eq(app(c.args[0], [*c.args[1:-1], m], 'R') * den(m), top(m))))
    return q


def log_likelihood(v, p, lp, T, L, l):
    log = lambda x: app('log', [x], 'R')
    v.trust('math: log 1 = 0, log(a / b) = log a - log b')
    saved = p.ctx
    if v.bounded:
        ts = range(int(lift(T).args[0]))
        p.ctx = p.ctx.ext(eq(log(ONE), ZERO), *[eq(log(L(num(t + 1)) * tm.inv(L(num(t)))), log(L(num(t + 1))) - log(L(num(t)))) for t in ts])
    else:
        j = tm.fresh('j', 'I')
        ratio = lambda t: l(t) * tm.inv(l(t - 1))
        p.ctx = p.ctx.ext(eq(log(ONE), ZERO), forall(j, implies(conj(le(ZERO, j), lt(ZERO, l(j)), lt(ZERO, l(j + 1))), eq(log(ratio(j + 1)), log(l(j + 1)) - log(l(j))))))
        t = tm.fresh('t', 'I')
        G = lambda m: ssum(t, ZERO, m + 1, log(ite(eq(t, ZERO), ONE, ratio(t))))
        v.induct(p, 'the logarithms telescope', lambda m: implies(le(m, lift(T)), eq(G(m), log(l(m)))))
    v.check(p, 'log-likelihood', eq(tt(lp), log(L(lift(T)))))
    p.ctx = saved


@spec('C15', 'decode_scaled', ['HiddenMarkovModel.decode', 'measures.hmm_decode'], sizes=((2, 2, 2), (2, 2, 3)), also=('C18',))
def decode_scaled(v):
    decode_spec(v, True)


@spec('C15', 'decode_unscaled', ['HiddenMarkovModel.decode', 'measures.hmm_decode'], sizes=((2, 2, 2), (2, 2, 3)), also=('C18',))
def decode_unscaled(v):
    decode_spec(v, False)
