"""C13, C14: linear-system measures against independent first-step analysis"""
from .core import *


LIM = 1e9   # conditioning beyond which two floating point solutions are not compared


WORST = [1.0]   # largest condition number met by the reference solutions of the current case


def cond(a):
    k = float(np.linalg.cond(a))
    WORST[0] = max(WORST[0], k)
    return k


def close(a, b, msg, rtol=1e-6, atol=1e-7):
    rtol = max(rtol, 1e-13 * WORST[0])
    x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    need(x.shape == y.shape, msg + ': shape', x.shape, y.shape)
    fin = np.isfinite(y)
    need(np.array_equal(np.isfinite(x), fin) and np.array_equal(np.isnan(x), np.isnan(y)), msg + ': infinite entries: got', a, 'expected', b)
    sc = np.abs(y[fin]).max() if fin.any() else 0.0
    need(np.allclose(x[fin], y[fin], rtol=rtol, atol=atol + 1e-9 * sc), msg + ': got', a, 'expected', b)


def missing(p, tgt, r):
    """the states that miss the targets with positive probability"""
    n = len(p)
    dead = np.array([not r[i, tgt].any() for i in range(n)])
    for _ in range(n):
        for i in range(n):
            if i not in tgt and (p[i][dead] > 0).any():
                dead[i] = True
    return dead


def hit(p, tgt):
    """minimal solution of the hitting problem, by elimination of states that cannot reach the targets"""
    p = np.asarray(p, dtype=float)
    n = len(p)
    r = reach(p)
    h = np.zeros(n)
    h[tgt] = 1.0
    sol = [i for i in range(n) if i not in tgt and r[i, tgt].any()]
    if sol:
        a = np.eye(len(sol)) - p[np.ix_(sol, sol)]
        if cond(a) > LIM:
            return None, None
        h[sol] = np.linalg.solve(a, p[np.ix_(sol, tgt)].sum(axis=1))
    # states missing the targets with positive probability: they reach, without crossing a target, a state that cannot reach one
    dead = {i for i in range(n) if not r[i, tgt].any()}
    grow = True
    while grow:
        grow = False
        for i in range(n):
            if i not in dead and i not in tgt and any(p[i, k] > 0 for k in dead):
                dead.add(i)
                grow = True
    t = np.zeros(n)
    t[sorted(dead)] = np.inf
    sol = [i for i in range(n) if i not in tgt and i not in dead]
    if sol:
        a = np.eye(len(sol)) - p[np.ix_(sol, sol)]
        if cond(a) > LIM:
            return None, None
        t[sol] = np.linalg.solve(a, np.ones(len(sol)))
    return h, t


def g13(rng, tier):
    for c in CLASSIC:
        n = len(c)
        for a in range(n):
            yield {'p': c, 'states': None, 'A': [a], 'form': 'index'}
    for k in range(count(tier)):
        d = chain(rng, tier, how=int([0, 1, 2, 4][rng.randint(4)]), big=rng.rand() < 0.1)
        if rng.rand() < 0.2:
            leak(rng, d)
        n = len(d['p'])
        m = int(rng.randint(1, min(n, 1 + max(1, n // 2)) + 1))
        d['A'] = sorted(int(x) for x in rng.permutation(n)[:m])
        d['form'] = ['index', 'label', 'single', 'reversed', 'none'][rng.randint(5)]
        yield d


@contract('C13', 'hitting probabilities and times', g13)
def c13(c):
    WORST[0] = 1.0
    mc = MC(c)
    p = np.array(c['p'])
    n, A, nm = len(p), list(c['A']), names(c)
    arg = list(A)
    if c['form'] == 'label':
        arg = [nm[a] for a in A]
    elif c['form'] == 'reversed':
        arg = arg[::-1]
    elif c['form'] == 'single' and len(A) == 1:
        arg = A[0]
    elif c['form'] == 'none':
        A, arg = list(range(n)), None
    h, t = hit(p, A)
    hp = mc.hitting_probabilities(arg)
    need(np.shape(hp) == (n,) and np.isfinite(hp).all() and (np.asarray(hp) >= 0).all() and (np.asarray(hp) <= 1 + 1e-9).all(), f'hitting_probabilities({arg}) are not probabilities', hp)
    r = reach(p)
    if h is not None:
        close(hp, h, f'hitting_probabilities({arg})', 1e-6, 1e-7)
        for i in range(n):
            if h[i] > 1e-200:
                need(hp[i] > 0, f'hitting probability of a reachable set from {i}', hp[i])
    for i in range(n):
        if not r[i, A].any():
            need(hp[i] <= 1e-12, f'hitting probability of an unreachable set from {i}', hp[i])
        if i in A:
            need(hp[i] == 1.0, f'hitting probability from the target {i}', hp[i])
    ht = mc.hitting_times(arg)
    if t is not None:
        close(ht, t, f'hitting_times({arg})', 1e-6, 1e-7)
    else:
        need(np.array_equal(np.isinf(ht), missing(p, A, r)), f'hitting_times({arg}): infinite entries', ht)
    for i in A:
        need(ht[i] == 0.0, f'hitting time from the target {i}', ht[i])


def g14a(rng, tier):
    for k in range(count(tier)):
        kinds = ['absorbing', 'absorbing', 'absorbing', 'blocks', 'identity', 'mid', 'dense', 'sparse', 'transient_periodic']
        d = chain(rng, tier, kinds, how=int([0, 1, 2, 4][rng.randint(4)]), big=rng.rand() < 0.1)
        if rng.rand() < 0.15:
            leak(rng, d)
        yield d


def is_absorbing(p):
    ab = [i for i in range(len(p)) if not any(p[i, j] > 0 for j in range(len(p)) if j != i)]
    r = reach(p)
    return bool(ab) and all(r[i, ab].any() for i in range(len(p))), ab


@contract('C14', 'absorption', g14a)
def c14a(c):
    WORST[0] = 1.0
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    cls, rec, r = classes(p)
    ok, ab = is_absorbing(p)
    tr = [i for i in range(n) if i not in ab]
    need(mc.is_absorbing == ok, 'is_absorbing', mc.is_absorbing)
    if not ok or not tr:
        need(mc.absorption_probabilities() is None, 'absorption_probabilities without absorption')
        need(mc.mean_absorption_times() is None, 'mean_absorption_times without absorption')
        need(mc.fundamental_matrix is None, 'fundamental_matrix without absorption')
        need(mc.kemeny_constant is None, 'kemeny_constant without absorption')
        return
    a = np.eye(len(tr)) - p[np.ix_(tr, tr)]
    nm = names(c)
    # the rows follow the order of transient_states / absorbing_states
    ts = [nm.index(s) for s in mc.transient_states]
    bs = [nm.index(s) for s in mc.absorbing_states]
    need(sorted(ts) == tr, 'transient_states', ts)
    need(sorted(bs) == ab, 'absorbing_states', bs)
    if cond(a) > LIM:
        return
    f = np.linalg.solve(np.eye(len(ts)) - p[np.ix_(ts, ts)], np.eye(len(ts)))
    close(mc.fundamental_matrix, f, 'fundamental_matrix')
    close(mc.kemeny_constant, np.trace(f), 'kemeny_constant')
    ap = mc.absorption_probabilities()
    need(ap.shape == (len(bs), len(ts)), 'absorption_probabilities shape', ap.shape)
    exp = np.array([[hit(p, [b])[0][s] for s in ts] for b in bs])
    close(ap, exp, 'absorption_probabilities')
    close(ap.sum(axis=0), np.ones(len(ts)), 'absorption probabilities of one state')
    tm = hit(p, ab)[1]
    close(mc.mean_absorption_times(), [tm[s] for s in ts], 'mean_absorption_times')


def g14b(rng, tier):
    for k in range(count(tier)):
        d = chain(rng, tier, ['dense', 'mid', 'birth', 'path', 'cycle', 'sparse', 'perm', 'blocks'], how=int([0, 1, 2, 4][rng.randint(4)]), big=rng.rand() < 0.1)
        n = len(d['p'])
        q = [int(x) for x in rng.permutation(n)]
        a = int(rng.randint(1, max(2, n // 2)))
        b = int(rng.randint(1, max(2, n - a)))
        b = min(b, n - a)
        d['s1'], d['s2'] = sorted(q[:a]), sorted(q[a:a + b])
        if rng.rand() < 0.15:
            leak(rng, d)
        d['state'] = int(rng.randint(n))
        d['labels'] = bool(rng.rand() < 0.5)
        yield d


@contract('C14', 'ergodic measures', g14b)
def c14b(c):
    WORST[0] = 1.0
    mc = MC(c)
    p = np.array(c['p'])
    n, nm = len(p), names(c)
    s1, s2, st = c['s1'], c['s2'], c['state']
    lab = (lambda q: [nm[i] for i in q]) if c['labels'] else list
    irr = bool(reach(p).all())
    erg = irr and class_period(p, list(range(n))) == 1
    if not irr:
        need(mc.sensitivity(st) is None, 'sensitivity of a reducible chain')
    if not erg:
        for w, v in (('committor', mc.committor_probabilities('forward', s1, s2)), ('mfpt_to', mc.mean_first_passage_times_to(lab(s1))), ('mfpt_to all', mc.mean_first_passage_times_to()),
                     ('mfpt_between', mc.mean_first_passage_times_between(lab(s1), lab(s2))), ('mrt', mc.mean_recurrence_times())):
            need(v is None, w + ' of a chain that is not ergodic', v)
    if not irr:
        return
    pi = stationary(p, list(range(n)))
    if erg:
        close(np.asarray(mc.mean_recurrence_times()) * pi, np.ones(n), 'mean_recurrence_times')
    if pi.min() < 1e-7:
        return
    i1 = np.eye(n)
    z = np.linalg.inv(i1 - p + np.outer(np.ones(n), pi))
    if cond(i1 - p + np.outer(np.ones(n), pi)) > 1e6:
        return
    # sensitivity: s[i,j]-s[i,k] is the derivative of pi[state] along e_i (e_j-e_k), and s[i].pi = 0
    dz = z - np.outer(np.ones(n), pi)   # group inverse of I-P
    s = mc.sensitivity(nm[st] if c['labels'] else st)
    exp = np.outer(pi, dz[:, st])
    exp = exp - np.outer(pi, np.ones(n)) * (dz[:, st] @ pi)
    close(s, exp, 'sensitivity')
    if not erg:
        return
    close(mc.mean_recurrence_times(), 1 / pi, 'mean_recurrence_times')
    tm = hit(p, s1)[1]
    if tm is None:
        return
    close(mc.mean_first_passage_times_to(lab(s1)), tm, 'mean_first_passage_times_to')
    allm = mc.mean_first_passage_times_to()
    each = [hit(p, [j])[1] for j in range(n)]
    if any(x is None for x in each):
        return   # too ill conditioned for a comparison
    close(allm, np.array(each).T, 'mean_first_passage_times_to()')
    tm2 = hit(p, s2)[1]
    if tm2 is None:
        return
    mu = pi[s1] / pi[s1].sum()
    close(mc.mean_first_passage_times_between(lab(s1), lab(s2)), float(mu @ tm2[s1]), 'mean_first_passage_times_between')
    for kind in ('forward', 'backward'):
        q = p if kind == 'forward' else (pi[:, None] * p).T / pi[:, None]
        one, zero = (s2, s1) if kind == 'forward' else (s1, s2)
        x = np.zeros(n)
        x[one] = 1
        free = [i for i in range(n) if i not in s1 and i not in s2]
        if free:
            x[free] = np.linalg.solve(np.eye(len(free)) - q[np.ix_(free, free)], q[np.ix_(free, one)].sum(axis=1))
        close(mc.committor_probabilities(kind, lab(s1), lab(s2)), x, f'committor_probabilities({kind})')


def g14c(rng, tier):
    for c in CLASSIC:
        yield {'p': c, 'states': None}
    for k in range(count(tier)):
        d = chain(rng, tier, how=int([0, 1, 2, 4][rng.randint(4)]), big=rng.rand() < 0.05)
        if rng.rand() < 0.2:
            leak(rng, d)
        yield d


@contract('C14', 'mean number of visits', g14c)
def c14c(c):
    WORST[0] = 1.0
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    cls, rec, r = classes(p)
    recs = sorted(i for q in rec for i in q)
    tr = [i for i in range(n) if i not in recs]
    e = np.zeros((n, n))
    # recurrent states are visited infinitely often from wherever they can be reached, unreachable ones never
    pos = (p > 0) @ r.astype(float) > 0
    mnv = np.asarray(mc.mean_number_visits())
    stiff = bool(tr) and np.linalg.cond(np.eye(len(tr)) - p[np.ix_(tr, tr)]) > 1e13   # return probabilities within rounding of one
    need(mnv.shape == (n, n), 'mean_number_visits: shape', mnv.shape)
    for j in range(n):
        for i in range(n):
            need(np.isposinf(mnv[i, j]) == bool(j in recs and r[i, j]) or (stiff and j in tr and pos[i, j]), f'mean_number_visits[{i},{j}]: infinite exactly for reachable recurrent states', mnv)
            need(bool(pos[i, j]) or mnv[i, j] == 0.0, f'mean_number_visits[{i},{j}] of an unreachable state', mnv)
            need(not (mnv[i, j] < -1e-9), f'mean_number_visits[{i},{j}] is negative', mnv)
    if tr:
        a = np.eye(len(tr)) - p[np.ix_(tr, tr)]
        if cond(a) > LIM:
            return
        f = np.linalg.solve(a, np.eye(len(tr)))
        v = f - np.eye(len(tr))
        v[~pos[np.ix_(tr, tr)]] = 0
        e[np.ix_(tr, tr)] = v
    for j in recs:
        for i in range(n):
            if r[i, j]:
                e[i, j] = np.inf
    close(mnv, e, 'mean_number_visits', 1e-6, 1e-7)
