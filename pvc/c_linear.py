"""C13, C14: hitting, absorption, committor, passage times"""
import itertools
from .spec import *
from .c_chain import every, length, IND, tt


def ergodic(v):
    v.contract_prop('is_ergodic', lambda I, o: True)


def one_pi(v, n, positive=True):
    """contract of pi (C09) for an ergodic chain: one distribution; positive entries, pi P = pi are assumed where needed"""
    d = distribution(v.I, n, 'pi')
    if positive:
        fact = lambda i: lt(ZERO, d.get(i))
        if v.bounded:
            for k in range(int(n.args[0])):
                v.I.ctx.assume(fact(num(k)))
        else:
            i = tm.fresh('i', 'I')
            v.I.assume_def(forall(i, implies(conj(le(ZERO, i), lt(i, n)), fact(i))))
    v.I.contracts['prop:MarkovChain.pi'] = lambda I, o: PList([d])
    return d


def stationary(v, n, P, d):
    """assume d P = d"""
    fact = lambda j: eq(v.sum(n, lambda i: d.get(i) * P.get(i, j)), d.get(j))
    if v.bounded:
        for k in range(int(n.args[0])):
            v.I.ctx.assume(fact(num(k)))
    else:
        j = tm.fresh('j', 'I')
        v.I.assume_def(forall(j, implies(conj(le(ZERO, j), lt(j, n)), fact(j))))


def state_set(v, n, name='A', size=None):
    """a sorted list of distinct states (the contract of validate_labels_current) and its membership predicate; in bounded mode all subsets are tried by the caller"""
    A = lambda x: app(name, [lift(x)], 'B')
    arr = npm.enumerate_pred(v.I, n, A)
    L = npm.attr(v.I, arr, 'tolist')
    L = v.I.call(L, [], {})
    v.I.assume_def(lt(ZERO, length(L)))
    return L, A


def subsets(n, lo=1, hi=None):
    k = int(n.args[0])
    for m in range(lo, (hi or k) + 1):
        yield from itertools.combinations(range(k), m)


def mfpt_spec(v, n, targets_of):
    for targets, inA in targets_of():
        def run():
            ergodic(v)
            mc, P, L = v.bare_mc(n)
            d = one_pi(v, n)
            tg, A = targets(v) if callable(targets) else (targets, inA)
            return v.func('measures', 'mc_mean_first_passage_times_to')(mc, tg), P, A, [(P, P.fn)]
        for p in v.only_ok(v.paths(run)):
            m, P, A, keep = p.value
            v.frame(p, 'mean_first_passage_times_to', *keep)
            v.forall(p, 'zero on the targets', [n], lambda i: implies(A(i), eq(m.get(i), ZERO)))
            v.forall(p, 'm = 1 + P m off the targets', [n], lambda i: implies(no(A(i)), eq(m.get(i), ONE + v.sum(n, lambda j: P.get(i, j) * m.get(j)))))


@spec('C14', 'mean_first_passage_times_to', ['measures.mc_mean_first_passage_times_to'], sizes=((2,), (3,)), also=('C18',))
def mfpt_to(v):
    n = v.dim('n', 2)
    if v.bounded:
        mfpt_spec(v, n, lambda: [(PList(A), lambda i, A=A: TRUE if int(i.args[0]) in A else FALSE) for A in subsets(n)])
    else:
        mfpt_spec(v, n, lambda: [(lambda v: state_set(v, n), None)])


@spec('C14', 'mean_recurrence_times', ['MarkovChain.mean_recurrence_times', 'measures.mc_mean_recurrence_times'], sizes=((2,), (3,)), also=('C18',))
def mrt(v):
    n = v.dim('n', 2)

    def run():
        ergodic(v)
        mc, P, L = v.bare_mc(n)
        d = one_pi(v, n)
        return v.call(mc, 'mean_recurrence_times'), d, [(P, P.fn), (d, d.fn)]
    for p in v.only_ok(v.paths(run)):
        r, d, keep = p.value
        v.frame(p, 'mean_recurrence_times', *keep)
        v.forall(p, '1 / pi', [n], lambda i: eq(r.get(i) * d.get(i), ONE))


@spec('C14', 'mean_first_passage_times_between', ['measures.mc_mean_first_passage_times_between'], sizes=((2,), (3,)), also=('C18',))
def mfpt_between(v):
    """stationary average over the origins of the passage times to the targets"""
    n = v.dim('n', 2)

    def go(origins, inO, targets, inA):
        def run():
            ergodic(v)
            mc, P, L = v.bare_mc(n)
            d = one_pi(v, n)
            m = vector(v.I, n, 'm', 0)
            v.I.contracts['measures.mc_mean_first_passage_times_to'] = lambda I, a, k: m
            og, O = origins(v) if callable(origins) else (origins, inO)
            tg, A = targets(v) if callable(targets) else (targets, inA)
            return v.func('measures', 'mc_mean_first_passage_times_between')(mc, og, tg), d, m, O, [(P, P.fn), (d, d.fn), (m, m.fn)]
        for p in v.only_ok(v.paths(run)):
            r, d, m, O, keep = p.value
            v.frame(p, 'mean_first_passage_times_between', *keep)
            w = v.sum(n, lambda i: IND(O(i)) * d.get(i))
            v.check(p, 'weighted average', eq(tt(r) * w, v.sum(n, lambda i: IND(O(i)) * d.get(i) * m.get(i))))
    if v.bounded:
        for O in subsets(n):
            go(PList(O), lambda i, O=O: TRUE if int(i.args[0]) in O else FALSE, PList([0]), None)
    else:
        go(lambda v: state_set(v, n, 'O'), None, lambda v: state_set(v, n, 'A'), None)


@spec('C14', 'committor', ['measures.mc_committor_probabilities'], sizes=((3,), (4,)), unbounded=False)
def committor(v):
    """q = 1 on the second (first, backward) set, 0 on the other, harmonic elsewhere; values within 1e-8 of 0 are rounded"""
    n = v.dim('n', 2)
    k = int(n.args[0])
    for A in subsets(n, 1, 2):
        for B in subsets(n, 1, 1):
            if set(A) & set(B) or len(A) + len(B) >= k:
                continue
            for kind in ('forward', 'backward'):
                def run():
                    ergodic(v)
                    mc, P, L = v.bare_mc(n)
                    d = one_pi(v, n)
                    v.I.solved = []
                    r = v.func('measures', 'mc_committor_probabilities')(mc, kind, PList(A), PList(B))
                    return r, P, d, v.I.solved[-1][2], [(P, P.fn), (d, d.fn)]
                for p in v.only_ok(v.paths(run)):
                    q, P, d, x, keep = p.value
                    v.frame(p, 'committor', *keep)
                    one, zero = (B, A) if kind == 'forward' else (A, B)
                    for i in range(k):
                        X = lambda j: x.get(num(j))
                        if i in one or i in zero:
                            v.check(p, f'{kind} {A} {B}: boundary {i}', eq(q.get(num(i)), ONE if i in one else ZERO))
                        elif kind == 'forward':
                            v.check(p, f'{kind} {A} {B}: harmonic {i}', eq(X(i), addn([P.get(num(i), num(j)) * X(j) for j in range(k)])))
                        else:
                            v.check(p, f'{kind} {A} {B}: harmonic for the reversed chain {i}', eq(addn([d.get(num(j)) * (P.get(num(j), num(i)) - (1 if i == j else 0)) * X(j) for j in range(k)]), ZERO))
                        near0 = close0(v, X(i))
                        v.check(p, f'{kind} {A} {B}: rounding {i}', conj(implies(near0, eq(q.get(num(i)), ZERO)), implies(no(near0), eq(q.get(num(i)), X(i)))))


def close0(v, x):
    return npm.isclose_t(v.I, x, ZERO)


# ------------------------------------------------------------ absorbing chains
def absorbing(v, n, tr, ab):
    """contracts (C07) of an absorbing chain with transient states tr and absorbing states ab"""
    v.contract_prop('is_absorbing', lambda I, o: True)
    v.contract_prop('__transient_states_indices', lambda I, o: PList(tr))
    v.contract_prop('transient_states', lambda I, o: PList(v.attr(o, 'states')[i] for i in tr))
    v.contract_prop('absorbing_states', lambda I, o: PList(v.attr(o, 'states')[i] for i in ab))


def splits(n):
    k = int(n.args[0])
    for m in range(1, 2 ** k - 1):
        yield [i for i in range(k) if m >> i & 1], [i for i in range(k) if not m >> i & 1]


@spec('C14', 'fundamental_matrix', ['MarkovChain.fundamental_matrix', 'MarkovChain.kemeny_constant'], sizes=((2,), (3,)), unbounded=False, also=('C18',))
def fundamental(v):
    n = v.dim('n', 2)
    for tr, ab in splits(n):
        def run():
            absorbing(v, n, tr, ab)
            mc, P, L = v.bare_mc(n)
            N = v.I.getattr(mc, 'fundamental_matrix')
            v.contract_prop('fundamental_matrix', lambda I, o: N)
            return N, v.I.getattr(mc, 'kemeny_constant'), P, [(P, P.fn)]
        for p in v.only_ok(v.paths(run)):
            v.I.contracts.pop('prop:MarkovChain.fundamental_matrix', None)
            N, K, P, keep = p.value
            v.frame(p, 'fundamental_matrix', *keep)
            m = len(tr)
            E = lambda a, b: N.get(num(a), num(b))
            for a in range(m):
                for b in range(m):
                    v.check(p, f'(I - Q) N = I at {tr} {a},{b}', eq(E(a, b) - addn([P.get(num(tr[a]), num(tr[c])) * E(c, b) for c in range(m)]), ONE if a == b else ZERO))
            v.check(p, f'kemeny constant {tr}', eq(tt(K), addn([E(a, a) for a in range(m)])))
        v.I.contracts.pop('prop:MarkovChain.fundamental_matrix', None)


def with_fundamental(v, P, tr):
    """contract of fundamental_matrix: an inverse of I - Q"""
    m = len(tr)
    N = Arr((num(m), num(m)), 'f', lambda ix: npm.pick(ix[0], [npm.pick(ix[1], [tm.var(f'N{a}{b}', 'R') for b in range(m)]) for a in range(m)]))
    for a in range(m):
        for b in range(m):
            v.I.ctx.assume(eq(N.get(num(a), num(b)) - addn([P.get(num(tr[a]), num(tr[c])) * N.get(num(c), num(b)) for c in range(m)]), ONE if a == b else ZERO))
    v.contract_prop('fundamental_matrix', lambda I, o: N)
    return N


@spec('C14', 'mean_absorption_times', ['MarkovChain.mean_absorption_times', 'measures.mc_mean_absorption_times'], sizes=((2,), (3,), (4,)), unbounded=False)
def mat(v):
    n = v.dim('n', 2)
    for tr, ab in splits(n):
        if len(tr) > 2:
            continue
        def run():
            absorbing(v, n, tr, ab)
            mc, P, L = v.bare_mc(n)
            N = with_fundamental(v, P, tr)
            return v.call(mc, 'mean_absorption_times'), P, N
        for p in v.only_ok(v.paths(run)):
            t, P, N = p.value
            for a in range(len(tr)):
                v.check(p, f'row sums of N {tr} {a}', eq(t.get(num(a)), addn([N.get(num(a), num(b)) for b in range(len(tr))])))
                v.check(p, f't = 1 + Q t {tr} {a}', eq(t.get(num(a)), ONE + addn([P.get(num(tr[a]), num(tr[b])) * t.get(num(b)) for b in range(len(tr))])))


@spec('C14', 'absorption_probabilities', ['MarkovChain.absorption_probabilities', 'measures.mc_absorption_probabilities'], sizes=((2,), (3,), (4,)), unbounded=False)
def absorption(v):
    n = v.dim('n', 2)
    for tr, ab in splits(n):
        if len(tr) > 2:
            continue
        def run():
            absorbing(v, n, tr, ab)
            mc, P, L = v.bare_mc(n)
            N = with_fundamental(v, P, tr)
            return v.call(mc, 'absorption_probabilities'), P
        for p in v.only_ok(v.paths(run)):
            r, P = p.value
            for c in range(len(ab)):
                for a in range(len(tr)):
                    v.check(p, f'b = R + Q b {tr} {a} {c}', eq(r.get(num(c), num(a)), P.get(num(tr[a]), num(ab[c])) + addn([P.get(num(tr[a]), num(tr[b])) * r.get(num(c), num(b)) for b in range(len(tr))])))


@spec('C14', 'mean_first_passage_matrix', ['MarkovChain.mean_first_passage_times_to', 'measures.mc_mean_first_passage_times_to'], sizes=((2,),))
def mfpt_all(v):
    n = v.dim('n', 2)

    def run():
        ergodic(v)
        mc, P, L = v.bare_mc(n)
        d = one_pi(v, n)
        stationary(v, n, P, d)
        return v.call(mc, 'mean_first_passage_times_to'), P
    for p in v.only_ok(v.paths(run)):
        m, P = p.value
        v.forall(p, 'm_ij = 1 + sum over k != j of P_ik m_kj', [n, n], lambda i, j: implies(ne(i, j), eq(m.get(i, j), ONE + v.sum(n, lambda k: P.get(i, k) * m.get(k, j)))))
        v.forall(p, 'zero diagonal', [n], lambda i: eq(m.get(i, i), ZERO))


# ---------------------------------------------------------------- C13
def accessibility(v, n):
    """contract (C07) of accessibility_matrix: entry (i, j) is 1 iff j can be reached from i; reach is an arbitrary relation here"""
    R = lambda i, j: app('reach', [lift(i), lift(j)], 'B')
    A = Arr((lift(n), lift(n)), 'i', lambda ix: ivr(R(*ix)))
    v.contract_prop('accessibility_matrix', lambda I, o: A)
    return R


def first_step_lemma(v, a, b, x):
    """lemma (lemmas/FirstStep.lean: first_step_prob): the solution of x = b + Q x, with Q the non-target part of a stochastic matrix restricted to states that reach a target and b the mass to the targets, is a vector of probabilities"""
    v.trust('lemma (lemmas/FirstStep.lean): the first-step equations of the states that reach the targets are solved by probabilities')
    npm.assume_each(v.I, [t := tm.fresh('t', 'I')], [x.shape[0]], conj(le(ZERO, x.get(t)), le(x.get(t), ONE)))


@spec('C13', 'hitting_probabilities', ['measures.mc_hitting_probabilities'], sizes=((2,), (3,)), also=('C18',))
def hitting_probabilities(v):
    n = v.dim('n', 2)

    def go(targets, inA):
        def run():
            mc, P, L = v.bare_mc(n)
            R = accessibility(v, n)
            v.I.after_solve = lambda a, b, x: first_step_lemma(v, a, b, x)
            tg, A = targets(v) if callable(targets) else (targets, inA)
            h = v.func('measures', 'mc_hitting_probabilities')(mc, tg)
            return h, P, A, R, [(P, P.fn)]
        for p in v.only_ok(v.paths(run)):
            h, P, A, R, keep = p.value
            v.frame(p, 'hitting_probabilities', *keep)
            v.forall(p, 'one on the targets', [n], lambda i: implies(A(i), eq(h.get(i), ONE)))
            reach = lambda i: v.exists(n, lambda j: conj(A(j), R(i, j)))
            v.forall(p, 'zero where no target can be reached', [n], lambda i: implies(conj(no(A(i)), no(reach(i))), eq(h.get(i), ZERO)))
            v.forall(p, 'first step equation', [n], lambda i: implies(conj(no(A(i)), reach(i)), eq(h.get(i), v.sum(n, lambda j: P.get(i, j) * h.get(j)))))
    if v.bounded:
        for O in subsets(n):
            go(PList(O), lambda i, O=O: TRUE if int(i.args[0]) in O else FALSE)
    else:
        go(lambda v: state_set(v, n, 'A'), None)


@spec('C13', 'hitting_times', ['measures.mc_hitting_times'], sizes=((2,), (3,)), unbounded=False, also=('C18',))
def hitting_times(v):
    """infinite exactly where a state that cannot hit the targets is reachable without hitting them, the first step equations elsewhere; hitting_probabilities by contract"""
    n = v.dim('n', 2)
    k = int(n.args[0])
    for A in subsets(n):
        def run():
            mc, P, L = v.bare_mc(n)
            h = vector(v.I, n, 'h', 0, 1)
            for a in A:
                v.I.ctx.assume(eq(h.get(num(a)), ONE))
            v.I.contracts['measures.mc_hitting_probabilities'] = lambda I, a, kw: Arr((n,), 'f', h.fn)
            return v.func('measures', 'mc_hitting_times')(mc, PList(A)), P, h, [(P, P.fn)]
        for p in v.only_ok(v.paths(run)):
            t, P, h, keep = p.value
            v.frame(p, 'hitting_times', *keep)
            inf = [FALSE if i in A else close0(v, h.get(num(i))) for i in range(k)]
            for _ in range(k):
                inf = [FALSE if i in A else disj(inf[i], *[conj(inf[j], lt(ZERO, P.get(num(i), num(j)))) for j in range(k)]) for i in range(k)]
            for i in range(k):
                ti = t.get(num(i))
                if i in A:
                    v.check(p, f'{A} zero on the target {i}', eq(ti, ZERO))
                    continue
                v.check(p, f'{A} infinite exactly there {i}', inf[i] if ti.op == 'pinf' else no(inf[i]))
                if ti.op != 'pinf':
                    v.check(p, f'{A} first step equation {i}', eq(ti, ONE + addn([P.get(num(i), num(j)) * t.get(num(j)) for j in range(k) if j not in A and t.get(num(j)).op != 'pinf'])))


def partitions(k):
    """set partitions of range(k) as lists of sorted lists"""
    if k == 0:
        yield []
        return
    for q in partitions(k - 1):
        for i in range(len(q)):
            yield q[:i] + [q[i] + [k - 1]] + q[i + 1:]
        yield q + [[k - 1]]


@spec('C14', 'mean_number_visits', ['measures.mc_mean_number_visits'], sizes=((2,),), unbounded=False, also=('C18',))
def mean_number_visits(v):
    """0 where the state cannot be entered, infinite for the states of closed classes, f_ij / (1 - f_jj) elsewhere, f the return probabilities (first-step equations)"""
    n = v.dim('n', 2)
    k = int(n.args[0])
    for part in partitions(k):
        cls = {i: c for c in part for i in c}

        def run():
            mc, P, L = v.bare_mc(n)
            R = accessibility(v, n)
            v.contract_prop('communication_matrix', lambda I, o: Arr((n, n), 'i', lambda ix: npm.pick(ix[0], [npm.pick(ix[1], [ONE if cls[i] is cls[j] else ZERO for j in range(k)]) for i in range(k)])))
            v.contract_prop('communicating_classes', lambda I, o: PList(PList(v.attr(o, 'states')[i] for i in c) for c in part))
            v.I.solved = []
            v.I.after_solve = None
            return v.func('measures', 'mc_mean_number_visits')(mc), P, R, list(v.I.solved), [(P, P.fn)]
        for p in v.only_ok(v.paths(run)):
            m, P, R, sv, keep = p.value
            v.frame(p, 'mean_number_visits', *keep)
            p_ = lambda i, j: P.get(num(i), num(j))
            pos = lambda i, j: lt(ZERO, p_(i, j))
            closed = [conj(*[no(pos(a, j)) for a in cls[i] for j in range(k) if j not in cls[i]]) for i in range(k)]
            ok = len(sv) == k
            v.check(p, 'one system per state', TRUE if ok else FALSE)
            for j in range(k if ok else 0):
                x = lambda i: sv[j][2].get(num(i))
                for i in range(k):
                    one = ONE if cls[i] is cls[j] else ZERO
                    v.check(p, f'{part} f {i}{j} from a closed class', implies(closed[i], eq(x(i), one)))
                    v.check(p, f'{part} f {i}{j} first step', implies(no(closed[i]), eq(x(i), p_(i, j) + addn([p_(i, q) * x(q) for q in range(k) if q != j]))))
                    e = m.get(num(i), num(j))
                    reach = disj(*[conj(pos(i, q), R(q, j)) for q in range(k)])
                    if e.op == 'pinf':
                        v.check(p, f'{part} {i}{j} infinite', conj(reach, disj(closed[j], le(ONE, x(j)))))
                    elif e is ZERO:
                        v.check(p, f'{part} {i}{j} zero', disj(no(reach), conj(no(closed[j]), eq(x(i), ZERO))))
                    else:
                        v.check(p, f'{part} {i}{j} visits', conj(reach, no(closed[j]), eq(e * (ONE - x(j)), x(i))))


# ---------------------------------------------------------------- C09
def strongly_connected(v, P, k):
    """every state reaches every other one"""
    E = {(i, j): (TRUE if i == j else lt(ZERO, P.get(num(i), num(j)))) for i in range(k) for j in range(k)}
    for q in range(k):
        E = {(i, j): disj(E[i, j], conj(E[i, q], E[q, j])) for i in range(k) for j in range(k)}
    return conj(*[E[i, j] for i in range(k) for j in range(k) if i != j])


@spec('C09', 'gth_solve', ['computations.gth_solve'], sizes=((2,), (3,)), unbounded=False, also=('C18',))
def gth(v):
    """the stationary distribution of an irreducible stochastic matrix"""
    n = v.dim('n', 2)
    k = int(n.args[0])

    def run():
        P = stochastic(v.I, n, 'p')
        v.I.ctx.assume(strongly_connected(v, P, k))
        return v.func('computations', 'gth_solve')(P), P, [(P, P.fn)]
    for p in v.only_ok(v.paths(run)):
        x, P, keep = p.value
        v.frame(p, 'gth_solve', *keep)
        if not v.check(p, 'one entry per state', eq(x.shape[0], n)):
            continue
        v.forall(p, 'non-negative', [n], lambda i: le(ZERO, x.get(i)))
        v.check(p, 'sum one', eq(v.sum(n, lambda i: x.get(i)), ONE))
        v.forall(p, 'x P = x', [n], lambda j: eq(v.sum(n, lambda i: x.get(i) * P.get(i, j)), x.get(j)))
