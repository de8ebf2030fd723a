"""C07: classification of states against reachability along positive-probability transitions

walk(k, i, j) stands for: j can be reached from i in at most k steps.  Its facts used here (one step, doubling,
n - 1 steps suffice) are proved in lemmas/Walks.lean for every relation on a finite set."""
from .spec import *
from .c_chain import tt, IND
from .c_flags import truth
from .c_valid import every
from .c_hidden import nonneg_sum


def walks(v, n, P):
    """walk(k, i, j); bounded: expanded"""
    if v.bounded:
        N = int(lift(n).args[0])
        memo = {}

        def W(k, i, j):
            k, i, j = int(lift(k).args[0]), int(lift(i).args[0]), int(lift(j).args[0])
            if (k, i, j) not in memo:
                memo[k, i, j] = (TRUE if i == j else FALSE) if k == 0 else disj(W(num(k - 1), num(i), num(j)), *[conj(W(num(k - 1), num(i), num(l)), lt(ZERO, P.get(num(l), num(j)))) for l in range(N)])
            return memo[k, i, j]
        return W
    W = lambda k, i, j: app('walk', [lift(k), lift(i), lift(j)], 'B')
    v.trust('lemma (lemmas/Walks.lean): walks of one step, walks of twice the length, n - 1 steps suffice')
    each = lambda f: npm.assume_each(v.I, [i := tm.fresh('i', 'I'), j := tm.fresh('j', 'I')], [n, n], f(i, j))
    each(lambda i, j: iff(W(ONE, i, j), disj(eq(i, j), lt(ZERO, P.get(i, j)))))
    return W


def doubling(v, n, W, k):
    npm.assume_each(v.I, [i := tm.fresh('i', 'I'), j := tm.fresh('j', 'I')], [n, n], iff(W(2 * k, i, j), lt(ZERO, v.sum(n, lambda l: IND(conj(W(k, i, l), W(k, l, j)))))))


def enough(v, n, W, k):
    npm.assume_each(v.I, [i := tm.fresh('i', 'I'), j := tm.fresh('j', 'I')], [n, n], implies(le(n - 1, k), iff(W(k, i, j), W(n - 1, i, j))))


@spec('C07', 'accessibility_matrix', ['MarkovChain.accessibility_matrix', 'MarkovChain.adjacency_matrix'], sizes=((2,), (3,)), also=('C18',))
def accessibility_matrix(v):
    n = v.dim('n', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        W = walks(v, n, P)

        def inv(am, k):
            k = tt(k)
            doubling(v, n, W, k)
            enough(v, n, W, k)
            return [le(ONE, k), ('am', lambda i, j: IND(W(k, i, j)))]
        v.loop_invariant(['am', 'k'], inv, lambda am, k: n - tt(k))
        return v.I.getattr(mc, 'accessibility_matrix'), W, P, [(P, P.fn)]
    for p in v.only_ok(v.paths(run)):
        A, W, P, keep = p.value
        v.frame(p, 'accessibility_matrix', *keep)
        v.fresh_result(p, 'accessibility_matrix', A, P)
        v.forall(p, 'reachable', [n, n], lambda i, j: eq(A.get(i, j), IND(W(n - 1, i, j))))


def reach_contract(v, n):
    R = lambda i, j: app('reach', [lift(i), lift(j)], 'B')
    v.contract_prop('accessibility_matrix', lambda I, o: Arr((lift(n), lift(n)), 'i', lambda ix: ivr(R(*ix))))
    return R


@spec('C07', 'is_accessible', ['MarkovChain.is_accessible', 'MarkovChain.are_communicating'], sizes=((2,), (3,)))
def is_accessible(v):
    """method contracts over accessibility_matrix"""
    n = v.dim('n', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        R = reach_contract(v, n)
        i, j = v.int('i', 0, n), v.int('j', 0, n)
        return v.call(mc, 'is_accessible', SV(i, 'int'), SV(j, 'int')), v.call(mc, 'are_communicating', SV(i, 'int'), SV(j, 'int')), R, i, j
    for p in v.only_ok(v.paths(run)):
        a, c, R, i, j = p.value
        v.check(p, 'the target can be reached from the origin', iff(truth(v, a), R(j, i)))
        v.check(p, 'each can be reached from the other', iff(truth(v, c), conj(R(i, j), R(j, i))))


def step(v, p, what, fact):
    """an intermediate assertion"""
    if v.check(p, what, fact):
        p.ctx = p.ctx.ext(fact)


@spec('C07', 'absorbing_states', ['MarkovChain.absorbing_states', 'MarkovChain.is_absorbing_state'], sizes=((2,), (3,)), also=('C18',))
def absorbing_states(v):
    """the states that are never left"""
    n = v.dim('n', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        i = v.int('i', 0, n)
        return v.call(mc, 'is_absorbing_state', SV(i, 'int')), P, i, [(P, P.fn)]
    for p in v.only_ok(v.paths(run)):
        a, P, i, keep = p.value
        v.frame(p, 'is_absorbing_state', *keep)
        one = eq(P.get(i, i), ONE)
        if not v.bounded:
            ctx = p.ctx
            others = lambda j: conj(le(ZERO, j), lt(j, n), ne(j, i))
            j = tm.fresh('j', 'I')
            p.ctx = ctx.ext(truth(v, a))
            step(v, p, 'an absorbing state has no other successor', forall(j, implies(others(j), eq(P.get(i, j), ZERO))))
            v.induct(p, 'nothing else', lambda k: implies(le(k, n), eq(v.sum(k, lambda j: IND(ne(j, i)) * P.get(i, j)), ZERO)))
            step(v, p, 'nothing else', eq(v.sum(n, lambda j: IND(ne(j, i)) * P.get(i, j)), ZERO))
            v.check(p, 'stays with probability 1', one)
            p.ctx = ctx.ext(one)
            step(v, p, 'nothing else', eq(v.sum(n, lambda j: IND(ne(j, i)) * P.get(i, j)), ZERO))
            base = p.ctx
            c = tm.fresh('c', 'I')
            p.ctx = base.ext(others(c))
            nonneg_sum(v, p, 'the remaining successors', n, lambda l: IND(ne(l, i)) * IND(ne(l, c)) * P.get(i, l))
            ok = v.check(p, 'no other successor', eq(P.get(i, c), ZERO))
            p.ctx = base.ext(forall(j, implies(others(j), eq(P.get(i, j), ZERO)))) if ok else base
            for s in list(subterms(truth(v, a))):
                if s.op == 'app' and s.args[0].startswith('enn_'):
                    at = lambda k, s=s: app('ene_' + s.args[0][4:], list(s.args[1:]) + [lift(k)], 'I')
                    k = tm.fresh('k', 'I')
                    step(v, p, 'it is the only successor', forall(k, implies(conj(le(ZERO, k), lt(k, s)), eq(at(k), i))))
                    step(v, p, 'there is a successor', lt(ZERO, s))
                    base = p.ctx
                    p.ctx = base.ext(lt(ONE, s))
                    if all([v.check(p, 'its positions', eq(at(m), i)) for m in (ZERO, ONE)]) and v.check(p, 'there are no two', FALSE, [at(ZERO), at(ONE)]):
                        p.ctx = base.ext(le(s, ONE))
            v.check(p, 'is listed', truth(v, a))
            continue
        v.check(p, 'stays with probability 1', iff(truth(v, a), one))


@spec('C07', 'is_regular', ['MarkovChain.is_regular'], sizes=((2,),), also=('C18',))
def is_regular(v):
    """some power of P is strictly positive"""
    n = v.dim('n', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        if v.bounded:
            N = int(lift(n).args[0])
            K = N * N - 2 * N + 2
            E = [[lt(ZERO, P.get(num(a), num(b))) for b in range(N)] for a in range(N)]
            M = E
            for _ in range(K - 1):
                M = [[disj(*[conj(M[a][l], E[l][b]) for l in range(N)]) for b in range(N)] for a in range(N)]
            return v.I.getattr(mc, 'is_regular'), conj(*[x for r in M for x in r]), [(P, P.fn)], None
        W = lambda k, i, j: app('steps', [lift(k), lift(i), lift(j)], 'B')
        reg = tm.var('regular', 'B')
        at = []
        loops = v.sum(n, lambda i: IND(ne(P.get(i, i), ZERO)))
        v.trust('lemma (lemmas/Walks.lean): walks of exactly one step, of twice the length')
        v.trust('lemma: some power of P is positive iff P^k is, for any k >= n^2 - 2 n + 2 (Wielandt), or k >= 2 n - d - 1 with d > 0 positive diagonal entries (Holladay, Varga)')
        each = lambda f: npm.assume_each(v.I, [i := tm.fresh('i', 'I'), j := tm.fresh('j', 'I')], [n, n], f(i, j))
        each(lambda i, j: iff(W(ONE, i, j), lt(ZERO, P.get(i, j))))

        def inv(m, i):
            i = tt(i)
            each(lambda a, b: iff(W(2 * i, a, b), lt(ZERO, v.sum(n, lambda l: IND(conj(W(i, a, l), W(i, l, b)))))))
            big = disj(le(n * n - 2 * n + 2, i), conj(lt(ZERO, loops), le(2 * n - loops - 1, i)))
            at.append(every([n, n], lambda a, b: W(i, a, b)))
            each(lambda a, b: implies(conj(big, reg), W(i, a, b)))
            wa, wb = app('notfull_row', [i], 'I'), app('notfull_col', [i], 'I')
            v.I.assume(implies(conj(big, no(reg)), conj(le(ZERO, wa), lt(wa, n), le(ZERO, wb), lt(wb, n), no(W(i, wa, wb)))))
            return [le(ONE, i), ('m', lambda a, b: IND(W(i, a, b)))]
        v.loop_invariant(['m', 'i', 'k'], lambda m, i, k: inv(m, i), lambda m, i, k: tt(k) - tt(i))
        return v.I.getattr(mc, 'is_regular'), reg, [(P, P.fn)], at
    for p in v.only_ok(v.paths(run)):
        r, reg, keep, at = p.value
        v.frame(p, 'is_regular', *keep)
        if v.bounded:
            v.check(p, 'some power is positive', iff(truth(v, r), reg))
            continue
        ctx = p.ctx
        p.ctx = ctx.ext(truth(v, r))
        step(v, p, 'the last power is positive', at[-1])
        v.check(p, 'only if some power is positive', reg)
        p.ctx = ctx.ext(reg)
        step(v, p, 'the last power is positive', at[-1])
        v.check(p, 'if some power is positive', truth(v, r))


@spec('C07', 'is_absorbing', ['MarkovChain.is_absorbing'], sizes=((2,), (3,)), unbounded=False, also=('C18',))
def is_absorbing(v):
    """every state reaches an absorbing state, and there is one"""
    n = v.dim('n', 2)
    N = int(lift(n).args[0])

    def run():
        mc, P, L = v.bare_mc(n)
        W = walks(v, n, P)
        return v.I.getattr(mc, 'is_absorbing'), W, P, [(P, P.fn)]
    for p in v.only_ok(v.paths(run)):
        r, W, P, keep = p.value
        v.frame(p, 'is_absorbing', *keep)
        ab = [conj(*[eq(P.get(num(i), num(j)), ZERO) for j in range(N) if j != i]) for i in range(N)]
        v.check(p, 'every state reaches an absorbing state', iff(truth(v, r), conj(*[disj(*[conj(W(num(N - 1), num(i), num(j)), ab[j]) for j in range(N)]) for i in range(N)])))


@spec('C07', 'is_canonical', ['MarkovChain.is_canonical', 'MarkovChain.is_recurrent_state', 'MarkovChain.is_transient_state'], sizes=((2,), (3,)))
def is_canonical(v):
    """state-level predicates over the sorted lists of recurrent and transient states"""
    n = v.dim('n', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        A = lambda x: app('recurrent', [lift(x)], 'B')
        lists = []
        for f in (A, lambda x: no(A(x))):
            lists.append(v.I.call(npm.attr(v.I, npm.enumerate_pred(v.I, lift(n), f), 'tolist'), [], {}))
        v.contract_prop('__recurrent_states_indices', lambda I, o: lists[0])
        v.contract_prop('__transient_states_indices', lambda I, o: lists[1])
        i = v.int('i', 0, n)
        s = SV(i, 'int')
        return v.I.getattr(mc, 'is_canonical'), v.call(mc, 'is_recurrent_state', s), v.call(mc, 'is_transient_state', s), A, i
    for p in v.only_ok(v.paths(run)):
        c, r, t, A, i = p.value
        v.check(p, 'recurrent', iff(truth(v, r), A(i)))
        v.check(p, 'transient', iff(truth(v, t), no(A(i))))
        ctx = p.ctx
        p.ctx = ctx.ext(truth(v, c))
        a, b = tm.fresh('a', 'I'), tm.fresh('b', 'I')
        p.ctx = p.ctx.ext(le(ZERO, a), lt(a, n), le(ZERO, b), lt(b, n), no(A(a)), A(b))
        cnts = [s for q in p.conds for s in subterms(q) if s.op == 'app' and s.args[0].startswith('enn_')]
        hints = []
        for s in dict.fromkeys(cnts):
            for x in (a, b):
                en, ep = (lambda t, q=q, s=s: app(q + s.args[0][4:], list(s.args[1:]) + [t], 'I') for q in ('ene_', 'enp_'))
                f = conj(le(ZERO, ep(x)), lt(ep(x), s), eq(en(ep(x)), x))
                m = len(v.I.obligs)
                if v.check(p, 'position of the state', f):
                    gs = []
                    for w in dict.fromkeys(w for w in subterms(truth(v, c)) if w.op == 'app' and w.args[0][:5] in ('maxa_', 'mina_')):
                        u, k = tm.fresh('u', 'I'), len(v.I.obligs)
                        base = p.ctx
                        p.ctx = base.ext(le(ZERO, u), lt(u, s))
                        g = lambda t, e: le(e, en(w)) if w.args[0][:4] == 'maxa' else le(en(w), e)
                        if v.check(p, 'bounded by the extreme element', g(u, en(u)), [u]):
                            gs.append(g(ep(x), x))
                        else:
                            del v.I.obligs[k:]
                        p.ctx = base
                    p.ctx = p.ctx.ext(f, *gs)
                else:
                    del v.I.obligs[m:]
                hints.append(ep(x))
        v.check(p, 'transient states come first', lt(a, b), hints)
        p.ctx = ctx.ext(every([n, n], lambda a, b: implies(conj(no(A(a)), A(b)), lt(a, b))))
        v.check(p, 'where transient states come first', truth(v, c))
        p.ctx = ctx
