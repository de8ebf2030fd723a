"""C11, C12, C21: evolution"""
from .spec import *
from .terms import T as T_
from .c_chain import every, length, IND


def mat(n, A):
    """term function of an array"""
    return lambda i, j: A.get(i, j)


def power_vec(v, name, d, P, n):
    """R(k, j) = (d P^k)_j"""
    return v.rec(name, 1, lambda j: d.get(j), lambda R, k, j: v.sum(n, lambda x: mul(R(k, x), P.get(x, j))), n, total=ONE, nonneg=True)


@spec('C11', 'redistribute', ['MarkovChain.redistribute', 'simulations.mc_redistribute', 'validation.validate_status'], sizes=((2, 3), (3, 2)))
def redistribute(v):
    n, T = v.dim('n', 2), v.dim('T', 1)

    def run():
        mc, P, L = v.bare_mc(n)
        d = distribution(v.I, n)
        R = power_vec(v, 'R', d, P, n)
        keep = [(P, P.fn), (d, d.fn)]
        return v.call(mc, 'redistribute', v.val(T), d, False), v.call(mc, 'redistribute', v.val(T), d, True), P, d, R, keep
    for p in v.only_ok(v.paths(run)):
        res, last, P, d, R, keep = p.value
        v.frame(p, 'redistribute', *keep)
        v.forall(p, 'the last distribution is d P^T', [n], lambda j: eq(last.get(j), R(T, j)))
        if isinstance(res, list):
            v.check(p, 'T+1 distributions', eq(num(len(res)), add(T, ONE)))
            for k, x in enumerate(res):
                v.forall(p, f'distribution {k} is d P^{k}', [n], lambda j: eq(x.get(j), R(num(k), j)))
        else:
            v.check(p, 'T+1 distributions', eq(res.length, add(T, ONE)))
            v.forall(p, 'distribution k is d P^k', [add(T, ONE), n], lambda k, j: eq(res.get(k).get(j), R(k, j)))


def expected_power_col(v, name, r, P, n):
    """R(k, i) = (P^k r)_i"""
    return v.rec(name, 1, lambda i: r.get(i), lambda R, k, i: v.sum(n, lambda x: mul(P.get(i, x), R(k, x))), n)


@spec('C11', 'expected_rewards', ['MarkovChain.expected_rewards', 'measures.mc_expected_rewards', 'validation.validate_rewards'], sizes=((2, 2), (3, 2)))
def expected_rewards(v):
    """E_0 = r, E_k = r + P E_(k-1): the sum of P^k r over k = 0..T in Horner form"""
    n, T = v.dim('n', 2), v.dim('T', 1)

    def run():
        mc, P, L = v.bare_mc(n)
        r = vector(v.I, n, 'r')
        R = v.rec('E', 1, lambda i: r.get(i), lambda R, k, i: add(r.get(i), v.sum(n, lambda x: mul(P.get(i, x), R(k, x)))), n)
        keep = [(P, P.fn), (r, r.fn)]
        return v.call(mc, 'expected_rewards', v.val(T), r), P, r, R, keep
    for p in v.only_ok(v.paths(run)):
        res, P, r, R, keep = p.value
        v.frame(p, 'expected_rewards', *keep)
        v.fresh_result(p, 'expected_rewards', res, r, P)
        v.forall(p, 'sum of P^k r', [n], lambda i: eq(res.get(i), R(T, i)))


@spec('C11', 'expected_transitions', ['MarkovChain.expected_transitions', 'measures.mc_expected_transitions'], sizes=((2, 2), (3, 3)))
def expected_transitions(v):
    """steps <= size: diag(d + .. + d P^(T-1)) P"""
    n, T = v.dim('n', 2), v.dim('T', 1)
    v.I.assume_def(le(T, n))

    def run():
        mc, P, L = v.bare_mc(n)
        d = distribution(v.I, n)
        R = power_vec(v, 'R', d, P, n)
        S = v.rec('S', 1, lambda j: d.get(j), lambda S, k, j: add(S(k, j), R(add(k, ONE), j)), n)
        keep = [(P, P.fn), (d, d.fn)]
        return v.call(mc, 'expected_transitions', v.val(T), d), P, d, S, keep
    for p in v.only_ok(v.paths(run)):
        res, P, d, S, keep = p.value
        v.frame(p, 'expected_transitions', *keep)
        v.fresh_result(p, 'expected_transitions', res, d, P)
        v.forall(p, 'diag(sum of d P^k) P', [n, n], lambda i, j: eq(res.get(i, j), mul(S(sub(T, ONE), i), P.get(i, j))))


def int_list(v, k, n, name='s'):
    """list of k state indices in [0, n)"""
    if v.bounded:
        r = PList()
        for j in range(int(lift(k).args[0])):
            r.append(v.val(v.int('%s%d' % (name, j), 0, n)))
        return r, lambda t: lift(r[int(lift(t).args[0])].t)
    f = lambda t: app(name, [lift(t)], 'I')
    t = tm.fresh('t', 'I')
    v.I.assume_def(forall(t, implies(conj(le(ZERO, t), lt(t, lift(k))), conj(le(ZERO, f(t)), lt(f(t), lift(n))))))
    return SList(lift(k), lambda t: SV(f(t), 'int'), elty='int'), f


@spec('C11', 'sequence_probability', ['MarkovChain.sequence_probability', 'simulations.mc_sequence_probability', 'validation.validate_sequence'], sizes=((2, 2), (2, 3)))
def sequence_probability(v):
    n, k = v.dim('n', 2), v.dim('k', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        S, s = int_list(v, k, n)
        pr = lambda t: P.get(s(t), s(t + 1))
        W = v.rec('W', 0, lambda: ONE, lambda W, t: W(t) * pr(t), n)
        LS = v.rec('LS', 0, lambda: ZERO, lambda LS, t: LS(t) + app('log', [pr(t)], 'R'), n)
        return v.call(mc, 'sequence_probability', S), pr, W, LS
    for p in v.only_ok(v.paths(run)):
        res, pr, W, LS = p.value
        if not v.bounded:
            last = k - 1
            x = tm.fresh('x', 'I')
            exp = lambda t: app('exp', [t], 'R')
            j = tm.fresh('j', 'I')
            # exp 0 = 1, exp(a + log x) = x exp a
            p.ctx = p.ctx.ext(eq(exp(LS(ZERO)), ONE), forall(j, implies(conj(le(ZERO, j), lt(ZERO, pr(j))), eq(exp(LS(j + 1)), exp(LS(j)) * pr(j)))))
            v.trust('math: exp(a + log x) = x exp(a)')
            v.attempt(p, 'exp of the sum', lambda j: implies(le(j, last), eq(app('exp', [LS(j)], 'R'), W(j))))
            zero = lambda t: implies(conj(le(ZERO, x), le(x + 1 + t, last), eq(pr(x), ZERO)), eq(W(x + 1 + t), ZERO))
            v.induct(p, 'a zero step', lambda t: forall(x, zero(t)))
            p.ctx = p.ctx.ext(forall(x, implies(le(ZERO, last - 1 - x), zero(last - 1 - x))))   # its instance t = last - 1 - x
        v.check(p, 'product of the probabilities of the steps', eq(tt(res), W(k - 1)))


def tt(e):
    return e.t if isinstance(e, SV) else lift(e)


@spec('C11', 'predict', ['MarkovChain.predict', 'simulations.mc_predict'], sizes=((2, 1), (2, 2), (3, 1), (3, 2)))
def predict(v):
    """the result is a path along strict row maxima; None is returned only at a tie"""
    n, T = v.dim('n', 2), v.dim('T', 1)

    def run():
        mc, P, L = v.bare_mc(n)
        i = v.int('i', 0, n)
        return v.call(mc, 'predict', v.val(T), v.val(i), True), P, i
    for p in v.only_ok(v.paths(run)):
        res, P, i = p.value
        strict = lambda a, b: every([n], lambda j: disj(eq(j, b), lt(P.get(a, j), P.get(a, b))))
        if res is None:
            if v.bounded:
                import itertools
                for s in itertools.product(range(int(n.args[0])), repeat=int(T.args[0])):
                    v.check(p, f'no path of strict maxima {s}', no(conj(*[strict(a if isinstance(a, T_) else num(a), num(b)) for a, b in zip((i,) + s, s)])))
            else:
                ex = sorted({x for c in p.conds for x in c.fv if x.args[0].startswith('exit!')}, key=lambda x: x.args[0])
                H = ([h for h in v.traces('I') if pv.prove(p.ctx, eq(h(ZERO), i))] + [lambda t: i])[0]
                x = ex[-1]
                v.check(p, 'the walk up to the tie', conj(le(ZERO, x), lt(x, T), eq(H(ZERO), i), every([x], lambda t: strict(H(t), H(t + 1)))))
                v.forall(p, 'no strict maximum there', [n], lambda b: no(strict(H(x), b)), hints=v.first_members(p, 2))
            continue
        v.check(p, 'T+1 states', eq(length(res), T + 1))
        at = lambda t: tt(res[int(lift(t).args[0])] if isinstance(res, list) else res.get(t))
        v.check(p, 'starts at the initial state', eq(at(ZERO), i))
        if not v.bounded:
            at = v.as_trace(p, 'the path', T + 1, at)
        v.forall(p, 'moves to the strict maximum of the row', [T, n], lambda t, j: disj(eq(j, at(t + 1)), lt(P.get(at(t), j), P.get(at(t), at(t + 1)))))


# ---------------------------------------------------------------- C12
def taboo(v, P, n):
    """G(t, i, j) = P(first visit to j from i takes t + 1 steps)"""
    return v.rec('G', 2, lambda i, j: P.get(i, j), lambda G, t, i, j: v.sum(n, lambda x: P.get(i, x) * G(t, x, j) * (1 - IND(eq(x, j)))), n)


@spec('C12', 'first_passage_probabilities', ['MarkovChain.first_passage_probabilities', 'measures.mc_first_passage_probabilities'], sizes=((2, 2), (3, 3)))
def first_passage_probabilities(v):
    n, T = v.dim('n', 2), v.dim('T', 1)

    def run():
        mc, P, L = v.bare_mc(n)
        G = taboo(v, P, n)
        i = v.int('i', 0, n)
        keep = [(P, P.fn)]
        return v.call(mc, 'first_passage_probabilities', v.val(T), v.val(i)), P, G, i, keep
    for p in v.only_ok(v.paths(run)):
        res, P, G, i, keep = p.value
        v.frame(p, 'first_passage_probabilities', *keep)
        v.fresh_result(p, 'first_passage_probabilities', res, P)
        if v.bounded:
            for k in range(int(n.args[0])):
                v.forall(p, f'taboo recursion from {k}', [T, n], lambda t, j: implies(eq(i, num(k)), eq(res.get(t, j), G(t, num(k), j))))
        else:
            v.forall(p, 'taboo recursion', [T, n], lambda t, j: eq(res.get(t, j), G(t, i, j)))


@spec('C12', 'first_passage_probability_of_one_state', ['MarkovChain.first_passage_probabilities', 'measures.mc_first_passage_probabilities'], sizes=((2, 2), (3, 3)))
def first_passage_one(v):
    n, T = v.dim('n', 2), v.dim('T', 1)

    def run():
        mc, P, L = v.bare_mc(n)
        G = taboo(v, P, n)
        i, a = v.int('i', 0, n), v.int('a', 0, n)
        return v.call(mc, 'first_passage_probabilities', v.val(T), v.val(i), v.val(a)), G, i, a
    for p in v.only_ok(v.paths(run)):
        res, G, i, a = p.value
        if v.bounded:
            for k in range(int(n.args[0])):
                for b in range(int(n.args[0])):
                    v.forall(p, f'taboo recursion from {k} to {b}', [T], lambda t: implies(conj(eq(i, num(k)), eq(a, num(b))), eq(res.get(t), G(t, num(k), num(b)))))
        else:
            v.forall(p, 'taboo recursion', [T], lambda t: eq(res.get(t), G(t, i, a)))


@spec('C12', 'first_passage_reward', ['MarkovChain.first_passage_reward', 'measures.mc_first_passage_reward', 'validation.validate_rewards'], sizes=((3, 1), (3, 3), (4, 2)), unbounded=False)
def first_passage_reward(v):
    """sum over 1 <= t <= T of the rewards of the states visited at t before the first passage"""
    n, T = v.dim('n', 2), v.dim('T', 1)
    k, t = int(n.args[0]), int(T.args[0])
    import itertools
    for m in range(1, k - 1):
        for A in itertools.combinations(range(k), m):
            B = [x for x in range(k) if x not in A]
            for i in B:
                def run():
                    mc, P, L = v.bare_mc(n)
                    r = vector(v.I, n, 'r')
                    return v.call(mc, 'first_passage_reward', t, i, PList(reversed(A)), r), P, r, [(P, P.fn), (r, r.fn)]
                for p in v.only_ok(v.paths(run)):
                    res, P, r, keep = p.value
                    v.frame(p, 'first_passage_reward', *keep)
                    x = {b: r.get(num(b)) for b in B}
                    tot = ZERO
                    for _ in range(t):
                        x = {b: addn([P.get(num(b), num(c)) * x[c] for c in B]) for b in B}
                        tot = tot + x[i]
                    v.check(p, f'from {i} to {A}', eq(tt(res), tot))
