"""C10 simulation, C11 evolution, C12 first passage, C20 seeds, C21 correlations and mixing"""
from .core import *
import random as _random


def VE():
    from pydtmc import ValidationError
    return ValidationError


# ------------------------------------------------------------------ C10
def g10(rng, tier):
    for k in range(count(tier)):
        n = sizes(rng, tier) if rng.rand() < 0.9 else 2
        d = chain(rng, tier, n=n, style=int(rng.randint(1, 7)))
        n = len(d['p'])
        d.update(steps=int([2, 3, 5, 20, 60][rng.randint(5)]), init=None if rng.rand() < 0.2 else int(rng.randint(n)), final=None if rng.rand() < 0.3 else int(rng.randint(n)), seed=int(rng.randint(10**6)))
        if d['init'] is not None and rng.rand() < 0.3:
            d['final'] = d['init']
        yield d


def check_stop(path, steps, hit, msg):
    L = len(path)
    hits = [t for t in range(1, L) if hit(t)]
    if hits:
        need(hits[0] == L - 1, msg + ': continues after the stop', path)
    else:
        need(L == steps + 1, msg + f': {L} entries instead of {steps + 1}', path)
    need(2 <= L <= steps + 1, msg + ': length', path)


@contract('C10', 'simulated chains', g10)
def c10(c):
    mc = MC(c)
    p, nm = np.array(c['p']), names(c)
    n = len(p)
    a = mc.simulate(c['steps'], c['init'], c['final'], output_indices=True, seed=c['seed'])
    need(isinstance(a, list) and all(0 <= x < n for x in a), 'indices', a)
    if c['init'] is not None:
        same(a[0], c['init'], 'initial state')
    for x, y in zip(a, a[1:]):
        need(p[x, y] > 0, 'impossible transition', (x, y), a)
    check_stop(a, c['steps'], lambda t: a[t] == c['final'], 'simulate')
    b = mc.simulate(c['steps'], None if c['init'] is None else nm[c['init']], None if c['final'] is None else nm[c['final']], seed=c['seed'])
    same(b, [nm[x] for x in a], 'labels and indices')
    i = int(c['seed'] % n)
    s = mc.next(i, output_index=True, seed=c['seed'])
    need(p[i, s] > 0, 'next: impossible transition', (i, s))
    same(mc.next(nm[i], seed=c['seed']), nm[s], 'next label')
    mc.simulate(3, c['init'])
    mc.next(i)


def g10h(rng, tier):
    for k in range(count(tier)):
        d = hmm_case(rng, tier, style=int(rng.randint(1, 7)))
        n, q = len(d['p']), len(d['e'][0])
        d.update(steps=int([2, 3, 5, 20, 60][rng.randint(5)]), init=None if rng.rand() < 0.2 else int(rng.randint(n)), final=None if rng.rand() < 0.5 else int(rng.randint(n)),
                 fsym=None if rng.rand() < 0.5 else int(rng.randint(q)), seed=int(rng.randint(10**6)))
        yield d


@contract('C10', 'simulated hidden models', g10h)
def c10h(c):
    hm = HMM(c)
    p, e = np.array(c['p']), np.array(c['e'])
    st, sy = hnames(c)
    a, b = hm.simulate(c['steps'], c['init'], c['final'], c['fsym'], output_indices=True, seed=c['seed'])
    need(len(a) == len(b), 'lengths', a, b)
    if c['init'] is not None:
        same(a[0], c['init'], 'initial state')
    for x, y in zip(a, a[1:]):
        need(p[x, y] > 0, 'impossible transition', (x, y), a)
    for x, y in zip(a, b):
        need(e[x, y] > 0, 'impossible emission', (x, y), a, b)
    check_stop(a, c['steps'], lambda t: a[t] == c['final'] or b[t] == c['fsym'], 'simulate')
    u, v = hm.simulate(c['steps'], None if c['init'] is None else st[c['init']], None if c['final'] is None else st[c['final']], None if c['fsym'] is None else sy[c['fsym']], seed=c['seed'])
    same((u, v), ([st[x] for x in a], [sy[x] for x in b]), 'labels and indices')
    i = int(c['seed'] % len(p))
    x, y = hm.next(i, 'both', output_index=True, seed=c['seed'])
    need(p[i, x] > 0 and e[x, y] > 0, 'next', i, x, y)
    same(hm.next(st[i], 'both', seed=c['seed']), (st[x], sy[y]), 'next labels')
    same(hm.next(i, 'state', seed=c['seed']), st[x], 'next state')
    same(hm.next(i, 'symbol', seed=c['seed']), sy[y], 'next symbol')
    same(hm.next(i, 'state', True, c['seed']), x, 'next state index')
    same(hm.next(i, 'symbol', True, c['seed']), y, 'next symbol index')


class Script:
    """a random source that returns prescribed numbers"""
    def __init__(self, u):
        self.u = list(u)
        self.rs = np.random.RandomState(0)

    def random(self, size=None):
        if size is None:
            return self.u.pop(0)
        k = int(np.prod(size))
        return np.array([self.u.pop(0) for _ in range(k)]).reshape(size)

    random_sample = random

    def rand(self, *s):
        return self.random(s if s else None)

    def choice(self, a, size=None, replace=True, p=None):
        # numpy's documented inversion of the cumulative distribution
        cdf = np.cumsum(np.asarray(p, dtype=float))
        cdf /= cdf[-1]
        k = 1 if size is None else int(np.prod(size))
        r = np.array([np.searchsorted(cdf, self.u.pop(0), side='right') for _ in range(k)])
        r = r if np.isscalar(a) else np.asarray(a)[r]
        return r if size is not None else r[0]

    def randint(self, *a, **k):
        return self.rs.randint(*a, **k)


def g10d(rng, tier):
    for k in range(count(tier)):
        d = hmm_case(rng, tier, style=0)
        d['seed'] = int(rng.randint(10**6))
        yield d


@contract('C10', 'every continuation is drawn with its exact probability', g10d, 0.6)
def c10d(c):
    """the map from the uniform draw to the outcome gives each outcome an interval of the exact length: checked at the
    boundaries of the intervals (just below, at, just above) when the model is driven by a scripted source"""
    from pydtmc import simulations as S
    hm = HMM(c)
    from pydtmc import MarkovChain
    p, e = np.array(c['p']), np.array(c['e'])
    n, k = e.shape
    mc = MarkovChain(p)
    rng = np.random.RandomState(c['seed'])
    i = int(rng.randint(n))
    us = []
    for row in (p[i],):
        cs = np.cumsum(row)
        us += [0.0, 1 - 1e-16, 0.9999999]
        us += [x + dlt for x in cs[:-1] for dlt in (-1e-9, 0.0, 1e-9)]
    us = [u for u in us if 0 <= u < 1]

    def outcome(row, u):
        cs = np.cumsum(row)
        cs = cs / cs[-1]
        return int(np.searchsorted(cs, u, side='right'))

    def fits(row, u, x):
        cs = np.concatenate(([0.0], np.cumsum(row)))
        return row[x] > 0 and cs[x] - 1e-12 <= u <= cs[x + 1] + 1e-12
    for u in us:
        try:
            r = S.mc_simulate(mc, 1, i, None, Script([u] + [0.5] * 8))
        except (AttributeError, TypeError, IndexError):
            break   # another source of randomness is in use: the frequency contract covers it
        need(r[0] == i and fits(p[i], u, r[1]), f'draw {u!r} from state {i} gives {r}', p[i])
    j = int(rng.randint(n))
    for u in us[:6]:
        x = outcome(p[i], u)
        for v in [0.0, 0.9999999, 0.5] + [q for q in np.cumsum(e[x])[:-1] if q < 1][:2]:
            try:
                a, b = S.hmm_simulate(hm, 1, i, None, None, Script([0.5, u, v] + [0.5] * 8))
            except (AttributeError, TypeError, IndexError):
                return
            need(fits(p[i], u, a[1]) and fits(e[a[1]], v, b[1]), f'draws {u!r}, {v!r} from state {i} give {a}, {b}', p[i], e[a[1]])


def g10f(rng, tier):
    for k in range(12 if tier == 'quick' else 60):
        d = hmm_case(rng, tier, int(rng.randint(2, 5)), int(rng.randint(2, 5)), style=0)
        d['p'] = fill(rng, np.array(d['p']) > 0, 1).tolist()
        d['e'] = fill(rng, np.array(d['e']) > 0, 1).tolist()
        d['seed'] = int(rng.randint(10**6))
        yield d


@contract('C10', 'frequencies of long simulations', g10f, 0.5)
def c10f(c):
    from pydtmc import MarkovChain
    hm = HMM(c)
    mc = MarkovChain(np.array(c['p']))
    p, e = np.array(c['p']), np.array(c['e'])
    n, k = e.shape
    N = 6000
    x = mc.simulate(N, 0, output_indices=True, seed=c['seed'])
    a, b = hm.simulate(N, 0, output_indices=True, seed=c['seed'])
    for path in (x, a):
        cnt = np.zeros((n, n))
        for u, v in zip(path, path[1:]):
            cnt[u, v] += 1
        tot = cnt.sum(1, keepdims=True)
        need((np.abs(cnt - tot * p) <= 7 * np.sqrt(tot * p * (1 - p)) + 3).all(), 'transition frequencies', cnt, p)
    cnt = np.zeros((n, k))
    for u, v in zip(a, b):
        cnt[u, v] += 1
    tot = cnt.sum(1, keepdims=True)
    need((np.abs(cnt - tot * e) <= 7 * np.sqrt(tot * e * (1 - e)) + 3).all(), 'emission frequencies', cnt, e)
    # the first symbol and the default initial state
    cnt = np.zeros(k)
    ini = np.zeros(n)
    R = 400
    for s in range(R):
        cnt[hm.simulate(2, 0, output_indices=True, seed=s)[1][0]] += 1
        ini[hm.simulate(2, output_indices=True, seed=s)[0][0]] += 1
    need((np.abs(cnt - R * e[0]) <= 7 * np.sqrt(R * e[0] * (1 - e[0])) + 3).all(), 'first symbol frequencies', cnt, e[0])
    need((np.abs(ini - R / n) <= 7 * np.sqrt(R / n) + 3).all(), 'default initial state frequencies', ini)


# ------------------------------------------------------------------ C11
def spectral(p):
    """(regular, faulty): regular if the spectrum is real with a well conditioned eigenbasis; faulty is the decomposition of
    the recorded findings KF-C11-1 and KF-C21-1 (real parts taken factor by factor), None if it does not exist"""
    ev, V = np.linalg.eig(p)
    cond = np.linalg.cond(V)
    regular = not np.iscomplexobj(ev) and cond < 1e4
    try:
        ix = np.argsort(np.abs(ev))[::-1]
        ev, r = ev[ix], V[:, ix].copy()
        l = np.linalg.solve(r.T, np.eye(len(p)))
        k = l[:, 0].sum()
        if not np.isclose(k, 0):
            r[:, 0] *= k
            l[:, 0] /= k
        return regular, (np.real(r), np.real(ev), np.real(l).T), cond
    except np.linalg.LinAlgError:
        return regular, None, cond


def near_ties(rng, d):
    """rows whose two largest entries differ by a tiny, exactly representable amount"""
    p = np.array(d['p'])
    n = len(p)
    for i in range(n):
        if rng.rand() < 0.6:
            a, b = rng.choice(n, 2, replace=False)
            e = 2.0**-int(rng.randint(12, 45))
            p[i] = 0.0
            p[i, a], p[i, b] = 0.5 + e, 0.5 - e
    d['p'] = p.tolist()
    d['kind'] = str(d.get('kind')) + '+near-ties'
    return d


def g11(rng, tier):
    for k in range(count(tier)):
        d = chain(rng, tier, style=int(rng.randint(1, 7)), big=rng.rand() < 0.1)
        n = len(d['p'])
        if n > 1 and rng.rand() < 0.15:
            d = near_ties(rng, d)
        d.update(T=int([1, 2, 3, 5, 9, n, n + 1, 17][rng.randint(8)]), d=dist(rng, n), r=rng.uniform(-3, 3, n).tolist(), seed=int(rng.randint(10**6)), none=bool(rng.rand() < 0.2))
        yield d


@contract('C11', 'evolution', g11)
def c11(c):
    mc = MC(c)
    p, nm = np.array(c['p']), names(c)
    n, T = len(p), c['T']
    rng = np.random.RandomState(c['seed'])
    d = np.array(c['d'])
    arg = None if c['none'] else d.copy()
    if c['none']:
        d = np.full(n, 1.0 / n)
    ds = [d]
    for _ in range(T):
        ds.append(ds[-1] @ p)
    v = mc.redistribute(T, arg, output_last=False)
    need(isinstance(v, list) and len(v) == T + 1, 'redistribute length', len(v), T)
    for t in range(T + 1):
        near(v[t], ds[t], f'redistribute step {t}', atol=1e-11)
    near(mc.redistribute(T, arg), ds[T], 'redistribute last', atol=1e-11)
    if arg is not None:
        need(np.array_equal(arg, d), 'redistribute altered its argument')
    i = int(rng.randint(n))
    near(mc.redistribute(T, nm[i]), np.linalg.matrix_power(p, T)[i], 'redistribute from a state', atol=1e-11)
    # sequences
    s = mc.simulate(max(2, min(T, 9)), i, output_indices=True, seed=c['seed'])
    if rng.rand() < 0.4:
        s = rng.randint(0, n, len(s)).tolist()
    e = 1.0
    for a, b in zip(s, s[1:]):
        e *= p[a, b]
    near(mc.sequence_probability(s if rng.rand() < 0.5 else [nm[x] for x in s]), e, f'sequence_probability({s})', rtol=1e-9, atol=0)
    # rewards
    r = np.array(c['r'])
    q, acc = r.copy(), r.copy()
    for _ in range(T):
        q = p @ q
        acc = acc + q
    arg_r = r.copy()
    near(mc.expected_rewards(T, arg_r), acc, f'expected_rewards({T})', atol=1e-9)
    need(np.array_equal(arg_r, r), 'expected_rewards altered its argument')
    # transitions
    if T <= n:
        near(mc.expected_transitions(T, arg), sum(ds[:T])[:, None] * p, f'expected_transitions({T})', atol=1e-10)
    else:
        exp = sum(ds[:T])[:, None] * p
        regular, dec, cond = spectral(p)
        try:
            got = mc.expected_transitions(T, arg)
        except np.linalg.LinAlgError:
            if regular:
                raise
            raise Known('KF-C11-1', f'expected_transitions({T}) fails for a chain of size {n} without an eigenbasis')
        if not (np.asarray(got).shape == exp.shape and np.allclose(got, exp, rtol=1e-6, atol=1e-7)):
            if not regular and dec is not None:
                r, q, l = dec
                with np.errstate(all='ignore'):
                    gs = np.where(q == 1.0, T, (1.0 - q**T) / (1.0 - np.where(q == 1.0, 0.0, q)))
                f = (d @ (r @ np.diag(gs) @ l))[:, None] * p
                if cond > 1e6 or np.allclose(got, f, rtol=1e-5, atol=1e-6, equal_nan=True):
                    raise Known('KF-C11-1', f'expected_transitions({T}) for a chain of size {n} whose spectrum is not real and simple')
            if regular and (np.abs(np.linalg.eigvals(p) - 1) < 1e-6).sum() > 1:
                return   # repeated unit eigenvalues: division by a rounding error
            raise Bad(f'expected_transitions({T}): {short(got)} expected {short(exp)}')
    # predict
    exp = [i]
    for _ in range(T):
        row = p[exp[-1]]
        m = np.flatnonzero(row == row.max())
        if len(m) > 1:
            exp = None
            break
        exp.append(int(m[0]))
    got = mc.predict(T, i, output_indices=True)
    need(got == exp, f'predict({T}, {i})', got, exp)
    got = mc.predict(T, nm[i])
    need(got == (None if exp is None else [nm[x] for x in exp]), f'predict labels', got, exp)


# ------------------------------------------------------------------ C12
def g12(rng, tier):
    for k in range(count(tier)):
        d = chain(rng, tier, style=int(rng.randint(0, 7)), big=False)
        n = len(d['p'])
        S = sorted(rng.permutation(n)[:int(rng.randint(1, n + 1))].tolist())
        d.update(T=int([1, 2, 3, 4, 7, 12][rng.randint(6)]), i=int(rng.randint(n)), S=S, r=rng.uniform(-2, 3, n).tolist(), seed=int(rng.randint(10**6)))
        yield d


def first_entry(p, i, j, T):
    """P_i(first entry into j at step t), t = 1..T, by propagating the mass that has avoided j"""
    m = np.zeros(len(p))
    m[i] = 1
    out = []
    for t in range(T):
        m = m @ p
        out.append(m[j])
        m[j] = 0
    return out


@contract('C12', 'first passage', g12)
def c12(c):
    mc = MC(c)
    p, nm = np.array(c['p']), names(c)
    n, T, i, S = len(p), c['T'], c['i'], c['S']
    f = np.array([first_entry(p, i, j, T) for j in range(n)]).T
    got = mc.first_passage_probabilities(T, i)
    near(got, f, f'first_passage_probabilities({T}, {i})', atol=1e-11)
    got = mc.first_passage_probabilities(T, nm[i], [nm[s] for s in S])
    near(np.ravel(got), f[:, S].sum(1), f'first_passage_probabilities({T}, {i}, {S})', atol=1e-11)
    if len(S) == 1:
        near(np.ravel(mc.first_passage_probabilities(T, i, S[0])), f[:, S[0]], 'first_passage_probabilities of one state', atol=1e-11)
    A = [s for s in S if s != i]
    r = np.array(c['r'])
    if n > 2 and A and len(A) < n - 1:
        m = np.zeros(n)
        m[i] = 1
        e = 0.0
        for t in range(T):
            m = m @ p
            m[A] = 0
            e += m @ r
        rr = r.copy()
        near(mc.first_passage_reward(T, i, list(A), rr), e, f'first_passage_reward({T}, {i}, {A})', atol=1e-10)
        need(np.array_equal(r, rr), 'first_passage_reward altered the rewards')
        near(mc.first_passage_reward(T, nm[i], [nm[a] for a in A[::-1]], r.tolist()), e, 'first_passage_reward by labels', atol=1e-10)
    if len(S) < n and n > 2 and i in S:
        raises(lambda: mc.first_passage_reward(T, i, S, r), VE(), 'first passage states including the initial one')


# ------------------------------------------------------------------ C20
def g20(rng, tier):
    for k in range(count(tier)):
        d = hmm_case(rng, tier, int(rng.randint(2, 6)), int(rng.randint(2, 5)), style=0)
        d['seed'] = int(rng.randint(10**6))
        d['s'] = [0, 1, 2**32 - 1, int(rng.randint(2**31 - 1))][rng.randint(4)]
        yield d


def strip(x):
    if hasattr(x, 'e') and hasattr(x, 'symbols'):
        return (x.p.tolist(), x.e.tolist(), x.states, x.symbols)
    if hasattr(x, 'p') and hasattr(x, 'states'):
        return (x.p.tolist(), x.states)
    return x


@contract('C20', 'seeded results', g20)
def c20(c):
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    hm = HMM(c)
    mc = M(np.array(c['p']))
    n, s = len(c['p']), c['s']
    rng = np.random.RandomState(c['seed'])
    k = len(c['e'][0])
    z = int(rng.randint(0, n * n - 2 * n + 1))
    mask = np.full((n, n), np.nan)
    mask[0, 1] = 0.5
    kw = lambda: mask.copy() if n > 2 else None
    calls = {
        'random': lambda s: M.random(n, zeros=z, seed=s),
        'random masked': lambda s: M.random(n, mask=kw(), seed=s),
        'random_distribution': lambda s: M.random_distribution(n, 'beta', seed=s, a=0.4, b=2.0),
        'random_distribution callable': lambda s: M.random_distribution(n, np.random.uniform, seed=s),
        'dirichlet_process': lambda s: M.dirichlet_process(n, 1 + z % n, seed=s, diagonal_bias_factor=1.2 if z % 2 else None),
        'simulate': lambda s: mc.simulate(12, seed=s),
        'simulate initial': lambda s: mc.simulate(12, 0, 1, seed=s),
        'next': lambda s: mc.next(0, seed=s),
        'hmm random': lambda s: H.random(n, k, p_zeros=z // 2, seed=s),
        'hmm simulate': lambda s: hm.simulate(12, seed=s),
        'hmm simulate initial': lambda s: hm.simulate(12, 0, seed=s),
        'hmm next': lambda s: hm.next(0, seed=s),
    }
    for nm, f in calls.items():
        np.random.seed(1)
        _random.seed(1)
        a0, b0 = np.random.get_state(), _random.getstate()
        r1 = strip(f(s))
        a1, b1 = np.random.get_state(), _random.getstate()
        need(b0 == b1, nm + ' alters the state of the random module')
        need(a0[0] == a1[0] and np.array_equal(a0[1], a1[1]) and a0[2:] == a1[2:], nm + ' alters the global numpy state')
        np.random.seed(987)
        np.random.rand(5)
        _random.seed(55)
        f(s + 1 if s < 2**32 - 1 else 3)
        mc.simulate(3, seed=4)
        r2 = strip(f(s))
        need(r1 == r2, nm + ': two calls with the same seed differ', r1, r2)
        need(strip(f(np.int64(s))) == r1, nm + ': numpy integer seed differs')
    bad = ['x', 1.5, [1], True, -1, 2**32, (1,)][rng.randint(7)]
    nm = list(calls)[rng.randint(len(calls))]
    raises(lambda: calls[nm](bad), VE(), f'{nm} with seed {bad!r}')


@contract('C20', 'different seeds give different results; no seed follows the global state', g20, 0.4)
def c20b(c):
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    rs = [strip(M.random(4, seed=s)) for s in range(5)]
    need(all(rs[i] != rs[j] for i in range(5) for j in range(i)), 'the seed is ignored by random')
    rs = [strip(H.random(3, 3, seed=s)) for s in range(5)]
    need(all(rs[i] != rs[j] for i in range(5) for j in range(i)), 'the seed is ignored by HiddenMarkovModel.random')
    mc = M(np.full((4, 4), 0.25))
    rs = [mc.simulate(40, 0, seed=s) for s in range(5)]
    need(all(rs[i] != rs[j] for i in range(5) for j in range(i)), 'the seed is ignored by simulate')
    hm = H(np.full((4, 4), 0.25), np.full((4, 4), 0.25))
    rs = [hm.simulate(40, 0, seed=s) for s in range(5)]
    need(all(rs[i] != rs[j] for i in range(5) for j in range(i)), 'the seed is ignored by hidden simulate')
    rs = [strip(M.dirichlet_process(4, 2, seed=s)) for s in range(5)]
    need(all(rs[i] != rs[j] for i in range(5) for j in range(i)), 'the seed is ignored by dirichlet_process')
    rs = [strip(M.random_distribution(4, 'uniform', seed=s)) for s in range(5)]
    need(all(rs[i] != rs[j] for i in range(5) for j in range(i)), 'the seed is ignored by random_distribution')
    need(len({mc.next(0, seed=s) for s in range(40)}) > 1, 'the seed is ignored by next')


# ------------------------------------------------------------------ C21
def g21(rng, tier):
    for k in range(count(tier)):
        d = chain(rng, tier, ['dense', 'mid', 'sparse', 'cycle', 'birth', 'path', 'transient_periodic', 'absorbing', 'blocks'], style=int(rng.randint(0, 7)), big=False)
        n = len(d['p'])
        if rng.rand() < 0.25:
            w = rng.rand(n, n) + 0.05
            d['p'] = norm_rows(w + w.T).tolist()
        tps = [int(rng.randint(0, n + 1)), sorted(rng.permutation(n + 1)[:int(rng.randint(1, n + 1))].tolist()), rng.permutation(n + 1)[:int(rng.randint(1, n + 1))].tolist(), int(rng.randint(0, 3 * n)), rng.permutation(3 * n)[:3].tolist()][rng.randint(5)]
        d.update(s1=rng.randint(0, n, int(rng.randint(2, 8))).tolist(), s2=None if rng.rand() < 0.3 else rng.randint(0, n, int(rng.randint(2, 8))).tolist(), d=None if rng.rand() < 0.3 else dist(rng, n), t=tps)
        yield d


@contract('C21', 'correlations, relaxations', g21)
def c21(c):
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    cls, rec, r = classes(p)
    t = c['t']
    regular, dec, cond = spectral(p)
    beyond = (t if isinstance(t, int) else max(t)) > n
    if len(rec) > 1:
        try:
            need(mc.time_correlations(c['s1'], c['s2'], t) is None, 'time_correlations with several stationary distributions')
            need(mc.time_relaxations(c['s1'], None if c['d'] is None else np.array(c['d']), t) is None, 'time_relaxations with several stationary distributions')
        except np.linalg.LinAlgError:
            if regular or not beyond:
                raise
            raise Known('KF-C21-1', 'correlations beyond the number of states for a chain without an eigenbasis')
        return
    pi = np.zeros(n)
    pi[rec[0]] = stationary(p, rec[0])
    n1 = np.bincount(c['s1'], minlength=n).astype(float)
    n2 = n1 if c['s2'] is None else np.bincount(c['s2'], minlength=n).astype(float)
    d = np.full(n, 1.0 / n) if c['d'] is None else np.array(c['d'])
    ts = [t] if isinstance(t, int) else sorted(t)
    pw = [np.linalg.matrix_power(p, k) for k in ts]
    e1 = [float((n1 * pi) @ (q @ n2)) for q in pw]
    e2 = [float(d @ q @ n1) for q in pw]
    arg = t if isinstance(t, int) else list(t)
    try:
        g1 = mc.time_correlations(list(c['s1']), None if c['s2'] is None else list(c['s2']), arg)
        g2 = mc.time_relaxations(list(c['s1']), None if c['d'] is None else d.copy(), arg)
    except np.linalg.LinAlgError:
        if regular or not beyond:
            raise
        raise Known('KF-C21-1', 'correlations beyond the number of states for a chain without an eigenbasis')
    same(arg, t, 'the time points were altered')
    for g, e, w in ((g1, e1, 'time_correlations'), (g2, e2, 'time_relaxations')):
        if isinstance(t, int):
            need(np.isscalar(g), w + ' for one time point', g)
            g = [g]
        need(isinstance(g, list) and len(g) == len(e), w + ' length', g)
        if not np.allclose(g, e, rtol=1e-7, atol=1e-8):
            if beyond and not regular and dec is not None:
                r, q, l = dec
                fs = [r @ np.diag(q**k) @ l for k in ts]
                f = [float((n1 * pi) @ (x @ n2)) for x in fs] if w == 'time_correlations' else [float(d @ x @ n1) for x in fs]
                if cond > 1e6 or np.allclose(g, f, rtol=1e-5, atol=1e-6):
                    raise Known('KF-C21-1', f'{w} beyond the number of states for a chain without a real simple spectrum')
            raise Bad(f'{w}({t}): {g} expected {e}')


def g21m(rng, tier):
    for k in range(count(tier)):
        d = chain(rng, tier, ['dense', 'mid', 'birth', 'cycle', 'path', 'sparse', 'absorbing'], style=0, big=False)
        n = len(d['p'])
        if rng.rand() < 0.4:
            l = [0.9, 0.98, 0.99, 0.97, 0.5][rng.randint(5)]
            d['p'] = (l * np.eye(n) + (1 - l) * np.array(d['p'])).tolist()
        d.update(d=None if rng.rand() < 0.2 else dist(rng, n), cut=['natural', 'traditional'][rng.randint(2)])
        yield d


@contract('C21', 'mixing time', g21m)
def c21m(c):
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    if not reach(p).all() or class_period(p, list(range(n))) != 1:
        need(mc.mixing_time(None, 1, c['cut']) is None, 'mixing_time of a chain that is not ergodic')
        return
    pi = stationary(p, list(range(n)))
    d = np.full(n, 1.0 / n) if c['d'] is None else np.array(c['d'])
    cut = 0.25 if c['cut'] == 'traditional' else 1.0 / (2.0 * math.e)
    x, exp, margin = d.copy(), None, 1.0
    for t in range(1, 101):
        x = x @ p
        v = np.abs(x - pi).sum()
        margin = min(margin, abs(v - cut))
        if v <= cut:
            exp = t
            break
    if margin < 1e-9:
        return
    arg = None if c['d'] is None else d.copy()
    got = mc.mixing_time(arg, 1, c['cut'])
    need(got == exp, 'mixing_time', got, exp)
    if c['cut'] == 'natural':
        need(mc.mixing_time(arg) == exp, 'mixing_time by default', exp)
    if arg is not None:
        need(np.array_equal(arg, d), 'mixing_time altered its argument')
