"""C01 construction validity, C02 closed-form factories, C03 randomised factories, C22 arguments"""
from .core import *
import itertools
import scipy.stats as sps


def VE():
    from pydtmc import ValidationError
    return ValidationError


# ------------------------------------------------------------------ C01
def ok_matrix(p):
    p = np.array(p, dtype=float)
    return np.isfinite(p).all() and (p >= 0).all() and (p <= 1).all() and np.allclose(p.sum(axis=1), 1.0)


CALLERS = ['plain', 'identity', 'from_matrix', 'random', 'fit', 'estimate', 'lump', 'restrict', 'next', 'to_nth_order', 'sneaky']


def call_from(caller, cls, args):
    """construct the model from a user function called as given"""
    ns = {'cls': cls, 'args': args}
    nm = caller if caller.isidentifier() else 'plain'
    exec(f'def {nm}():\n    return cls(*args)\nresult = {nm}()', ns)
    return ns['result']


BADP = ['none', 'neg', 'over', 'sum_low', 'sum_high', 'nan', 'inf', 'shape', 'one', 'vec', 'text', 'null']
BADL = ['none', 'dup', 'short', 'long', 'empty', 'blank', 'int', 'tuple', 'string']


def break_matrix(rng, p, how):
    p = np.array(p, dtype=float)
    n, m = p.shape
    i = int(rng.randint(n))
    r = p[i]
    if how == 'neg':
        j = int(rng.randint(m))
        k = (j + 1 + int(rng.randint(m - 1))) % m
        e = float([0.25, 1e-3, 2.0][rng.randint(3)])
        r[k] = r[k] + r[j] + e
        r[j] = -e
    elif how == 'over':
        j = int(rng.randint(m))
        r[:] = 0
        r[j] = 1.5
        r[(j + 1) % m] = -0.5
    elif how == 'sum_low':
        r *= [0.5, 0.99, 0.999][rng.randint(3)]
    elif how == 'sum_high':
        j = int(np.argmin(r))
        r[j] += [0.2, 0.01, 0.001][rng.randint(3)]
        if r.max() > 1:
            r[:] = r / 1.0
    elif how == 'nan':
        r[int(rng.randint(m))] = np.nan
    elif how == 'inf':
        r[int(rng.randint(m))] = np.inf
    elif how == 'shape':
        return p[:, :-1] if m > 2 else np.hstack((p, np.zeros((n, 1))))
    elif how == 'one':
        return np.ones((1, 1))
    elif how == 'vec':
        return r
    elif how == 'text':
        return [['a', 'b'], ['c', 'd']]
    elif how == 'null':
        return None
    return p


def break_labels(rng, l, how):
    l = list(l)
    if how == 'dup':
        l[-1] = l[0]
    elif how == 'short':
        l = l[:-1]
    elif how == 'long':
        l = l + ['zzz extra']
    elif how == 'empty':
        l[int(rng.randint(len(l)))] = ''
    elif how == 'blank':
        l[int(rng.randint(len(l)))] = '  '
    elif how == 'int':
        l[int(rng.randint(len(l)))] = 3
    elif how == 'tuple':
        return tuple(l)
    elif how == 'string':
        return ''.join(l)
    return l


def g01(rng, tier):
    for k in range(count(tier)):
        hm = bool(rng.rand() < 0.4)
        if hm:
            d = hmm_case(rng, tier, style=int(rng.randint(1, 7)))
        else:
            d = chain(rng, tier, n=int(rng.randint(2, 7)), style=int(rng.randint(1, 7)))
        d['hmm'] = hm
        d['caller'] = CALLERS[rng.randint(len(CALLERS))]
        d['bad'] = [None, 'p', 's', 'e', 'y', 'shared'][rng.randint(6) if hm else rng.randint(3)]
        d['how'] = BADP[1 + rng.randint(len(BADP) - 1)] if d['bad'] in ('p', 'e') else BADL[1 + rng.randint(len(BADL) - 1)]
        d['form'] = ['array', 'list', 'sparse', 'int', 'frame'][rng.randint(5)]
        d['seed'] = int(rng.randint(10**6))
        yield d


def as_form(p, form):
    if not isinstance(p, np.ndarray):
        return p
    if form == 'list':
        return p.tolist()
    if form == 'sparse' and p.ndim == 2:
        import scipy.sparse as sp
        return sp.csr_matrix(p)
    if form == 'frame' and p.ndim == 2:
        import pandas as pd
        return pd.DataFrame(p)
    return p


@contract('C01', 'constructors accept exactly the valid data and keep it', g01)
def c01(c):
    from pydtmc import MarkovChain, HiddenMarkovModel
    rng = np.random.RandomState(c['seed'])
    p, st = np.array(c['p']), list(c['states'])
    e = sy = None
    if c['hmm']:
        e, sy = np.array(c['e']), list(c['symbols'])
    bad = c['bad']
    bp, bs, be, by = p, st, e, sy
    if bad == 'p':
        bp = break_matrix(rng, p, c['how'])
    elif bad == 's':
        bs = break_labels(rng, st, c['how'])
    elif bad == 'e':
        be = break_matrix(rng, e, c['how'])
        if c['how'] in ('one', 'vec', 'text'):
            be = np.ones((len(p), 1))
        elif c['how'] == 'shape':
            be = e[:-1]
    elif bad == 'y':
        by = break_labels(rng, sy, c['how'])
    elif bad == 'shared':
        by = list(sy)
        by[rng.randint(len(by))] = st[rng.randint(len(st))]
        if len(set(by)) < len(by):
            return
    cls = HiddenMarkovModel if c['hmm'] else MarkovChain
    args = (as_form(bp, c['form']), as_form(be, c['form']), bs, by) if c['hmm'] else (as_form(bp, c['form']), bs)
    if bad is not None:
        m = None
        if isinstance(bp, np.ndarray) and bp.ndim == 2 and bad == 'p' and c['how'] in ('sum_high', 'sum_low') and ok_matrix(bp):
            return
        if bad in ('p', 'e') and c['how'] in ('sum_high', 'sum_low'):
            x = np.array(bp if bad == 'p' else be, dtype=float)
            if np.allclose(x.sum(axis=1), 1.0, atol=1e-6):
                return
        raises(lambda: call_from(c['caller'], cls, args), VE(), f'invalid input ({bad}: {c["how"]}) called from {c["caller"]}')
        return
    m = call_from(c['caller'], cls, args)
    need(m.p.dtype == float and np.array_equal(m.p, p), 'p', m.p, p)
    same(m.states, st, 'states')
    if c['hmm']:
        need(np.array_equal(m.e, e), 'e', m.e, e)
        same(m.symbols, sy, 'symbols')
        same(tuple(m.size), (len(p), e.shape[1]), 'size')
        same((m.n, m.k), (len(p), e.shape[1]), 'n, k')
        d = cls(p, e)
        same(d.states, ['P%d' % (i + 1) for i in range(len(p))], 'default states')
        same(d.symbols, ['E%d' % (i + 1) for i in range(e.shape[1])], 'default symbols')
    else:
        same((m.size, m.n), (len(p), len(p)), 'size')
        d = cls(p)
        same(d.states, [str(i + 1) for i in range(len(p))], 'default states')


def g01b(rng, tier):
    for k in range(count(tier)):
        yield {'seed': int(rng.randint(10**9))}


@contract('C01', 'every generator of instances yields a valid model', g01b)
def c01b(c):
    """whatever public generator is called with random admissible arguments, the result is a valid model"""
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    rng = np.random.RandomState(c['seed'])
    n = int(rng.randint(3, 8))
    d = chain(rng, 'quick', n=n)
    mc = MC(d)
    h = hmm_case(rng, 'quick', int(rng.randint(3, 6)), int(rng.randint(3, 6)))
    hm = HMM(h)
    hs, hy = hnames(h)
    k = int(rng.randint(0, 25))
    sd = int(rng.randint(10**6))
    seq = mc.simulate(max(2, int(rng.randint(2, 9))), seed=sd)
    lists = [
        lambda: mc.to_lazy_chain(float(rng.rand() * 0.98 + 0.01)),
        lambda: mc.to_nth_order(int(rng.randint(2, 5))),
        lambda: mc.to_bounded_chain(['absorbing', 'reflecting', 0.3][rng.randint(3)]),
        lambda: mc.to_canonical_form(),
        lambda: mc.merge_with(M.random(n, seed=sd), 0.25),
        lambda: M.random(n, zeros=int(rng.randint(0, n * n - 2 * n + 1)), seed=sd),
        lambda: M.identity(n),
        lambda: M.gamblers_ruin(n, 0.37),
        lambda: M.dirichlet_process(n, int(rng.randint(1, n + 1)), seed=sd, diagonal_bias_factor=[None, 1.5][rng.randint(2)], shift_concentration=bool(rng.randint(2))),
        lambda: M.approximation(n, ['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'][rng.randint(4)], float(rng.rand()), 0.5 + float(rng.rand()), float(rng.rand() * 0.8)),
        lambda: M.fit_sequence(['map', 'mle'][rng.randint(2)], mc.states, seq),
        lambda: M.from_matrix(rng.randint(0, 4, (n, n)).astype(float)),
        lambda: M.from_graph(mc.to_graph()),
        lambda: M.from_dictionary(mc.to_dictionary()),
        lambda: M.urn_model(['ehrenfest', 'bernoulli-laplace'][rng.randint(2)], int(rng.randint(1, 6))),
        lambda: M.population_genetics_model(['moran', 'wright-fisher'][rng.randint(2)], int(rng.randint(2, 9)), float(rng.rand() - 0.3), float(rng.rand() / 40), float(rng.rand() / 40)),
        lambda: M.random_distribution(n, ['uniform', 'beta', 'normal', 'poisson'][rng.randint(4)] if False else 'uniform', seed=sd),
        lambda: H.random(3, 4, p_zeros=int(rng.randint(0, 4)), e_zeros=int(rng.randint(0, 6)), seed=sd),
        lambda: H.from_matrices(rng.randint(0, 3, (3, 3)).astype(float), rng.randint(0, 3, (3, 2)).astype(float)),
        lambda: H.from_dictionary(hm.to_dictionary()),
        lambda: H.from_graph(hm.to_graph()),
        lambda: hm.restrict(sorted(rng.permutation(len(hs))[:2].tolist()), None),
        lambda: hm.restrict(None, sorted(rng.permutation(len(hy))[:2].tolist())),
        lambda: H.estimate(hs, hy, *hm.simulate(5, seed=sd)),
        lambda: hm.restrict(sorted(rng.permutation(len(hs))[:2].tolist()), sorted(rng.permutation(len(hy))[:2].tolist())),
    ]
    m = lists[k]()
    p = m.p
    need(p.ndim == 2 and p.shape[0] == p.shape[1] >= 2, f'generator {k}: shape', p.shape)
    need(np.isfinite(p).all() and (p >= 0).all() and (p <= 1 + 1e-12).all(), f'generator {k}: entries', p)
    near(p.sum(axis=1), np.ones(len(p)), f'generator {k}: row sums')
    need(len(set(m.states)) == len(m.states) == len(p) and all(isinstance(s, str) and s.strip() for s in m.states), f'generator {k}: labels', m.states)
    if hasattr(m, 'e'):
        e = m.e
        need(e.shape == (len(p), len(m.symbols)) and e.shape[1] >= 2, f'generator {k}: emission shape', e.shape)
        need(np.isfinite(e).all() and (e >= 0).all() and (e <= 1 + 1e-12).all(), f'generator {k}: emission entries', e)
        near(e.sum(axis=1), np.ones(len(p)), f'generator {k}: emission row sums')
        need(len(set(m.symbols)) == len(m.symbols) and not set(m.symbols) & set(m.states), f'generator {k}: symbols', m.symbols)


@contract('C01', 'extreme arguments never yield an invalid model', g01b, 0.4)
def c01d(c):
    """arguments that make a generator overflow, underflow or lose probability: an error or a valid model, never an invalid one"""
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    import networkx as nx
    rng = np.random.RandomState(c['seed'])
    n = int(rng.randint(2, 5))
    d = chain(rng, 'quick', n=n)
    mc = MC(d)
    sd = int(rng.randint(10**6))
    big = [float('inf'), 1.7e308, 1e300, 1e-300, 5e-324][rng.randint(5)]
    x = rng.randint(1, 4, (n, n)).astype(float)
    x[rng.randint(n), rng.randint(n)] = big
    if rng.rand() < 0.5:
        x[rng.randint(n), :] = big
    g = nx.DiGraph()
    g.add_nodes_from(mc.states)
    for i in range(n):
        for j in range(n):
            g.add_edge(mc.states[i], mc.states[j], weight=float(x[i, j]))
    y = rng.normal(size=(n, n)) if rng.rand() < 0.5 else x
    nan = float('nan')
    lists = [
        lambda: mc.to_bounded_chain([nan, big, -big, -1e-300][rng.randint(4)]),
        lambda: mc.to_lazy_chain([nan, big, [nan] * n][rng.randint(3)]),
        lambda: mc.merge_with(MarkovChain_identity(M, n), [nan, big][rng.randint(2)]),
        lambda: mc.to_nth_order(int([10**6, 10**12, 10**16, 10**40][rng.randint(4)])),
        lambda: M.from_graph(g),
        lambda: M.from_matrix(x),
        lambda: H.from_matrices(x, x),
        lambda: M.fit_function(['trapezoid-rule', 'gauss-chebyshev', 'gauss-legendre', 'niederreiter'][rng.randint(4)], mc.states, lambda x_index, x_value, y_index, y_value: float(y[x_index % n, y_index % n]), (0.0, 1.0)),
        lambda: M.random_distribution(n, ['lognormal', 'normal', 'uniform'][rng.randint(3)], seed=sd, **[{}, {'scale': 1e308}, {'sigma': 1e5}, {'low': -1.0, 'high': 1.0}][rng.randint(4)]),
        lambda: M.gamblers_ruin(n + 1, [nan, big, 5e-324][rng.randint(3)]),
        lambda: M.approximation(n, ['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'][rng.randint(4)], float([0, 1e10, -1e300][rng.randint(3)]), [1.0, 1e200, 1e-300, 1e-3][rng.randint(4)], [0.1, 1 - 1e-12, -0.99, nan][rng.randint(4)]),
        lambda: M.birth_death([nan if rng.rand() < 0.5 else 0.5] + [0.25] * (n - 2) + [0.0], [0.0] + [0.5] * (n - 1)),
        lambda: M.population_genetics_model('wright-fisher', n, [nan, big, -0.999999][rng.randint(3)]),
    ]
    k = int(rng.randint(len(lists)))
    try:
        m = lists[k]()
    except Exception:
        return
    for a, what in [(m.p, 'p')] + ([(m.e, 'e')] if hasattr(m, 'e') else []):
        need(np.isfinite(a).all() and (a > -1e-8).all(), f'extreme generator {k}: entries of {what}', a)
        near(a.sum(axis=1), np.ones(len(a)), f'extreme generator {k}: row sums of {what}', atol=2e-5)


def MarkovChain_identity(M, n):
    return M.identity(n)


@contract('C01', 'state and symbol names always differ', g01b, 0.3)
def c01c(c):
    from pydtmc import HiddenMarkovModel as H
    rng = np.random.RandomState(c['seed'])
    h = hmm_case(rng, 'quick', style=3)
    st, sy = list(h['states']), list(h['symbols'])
    sy[rng.randint(len(sy))] = st[rng.randint(len(st))]
    if len(set(sy)) < len(sy):
        return
    p, e = np.array(h['p']), np.array(h['e'])
    n, k = e.shape
    fs = [lambda: H(p, e, st, sy), lambda: H.from_matrices(p, e, st, sy), lambda: H.random(n, k, states=st, symbols=sy, seed=1),
          lambda: H.estimate(st, sy, [0, 1, 0], [0, 1, 0]), lambda: H.fit('baum-welch', st, sy, p, e, [0, 1, 0]),
          lambda: H.random(n, k, states=['E%d' % (i + 1) for i in range(n)], seed=1),
          lambda: H.random(n, k, symbols=['P%d' % (i + 1) for i in range(k)], seed=1),
          lambda: H.from_matrices(p, e, states=['E%d' % (i + 1) for i in range(n)]),
          lambda: H(p, e, symbols=['P%d' % (i + 1) for i in range(k)])]
    i = int(rng.randint(len(fs)))
    raises(fs[i], VE(), f'shared names, case {i}')


# ------------------------------------------------------------------ C02
def g02(rng, tier):
    fam = ['identity', 'ruin', 'ehrenfest', 'bernoulli', 'birth', 'wf', 'moran', 'moran', 'birth']
    for k in range(count(tier)):
        f = fam[k % len(fam)]
        d = {'f': f}
        if f == 'identity':
            d['n'] = int(rng.randint(2, 40))
        elif f == 'ruin':
            d['n'] = int(rng.randint(3, 40))
            d['w'] = [0.5, 0.25, 1e-9, 1 - 1e-9, float(rng.rand() * 0.98 + 0.01)][rng.randint(5)]
        elif f in ('ehrenfest', 'bernoulli'):
            d['n'] = int(rng.randint(1, 40))
        elif f == 'birth':
            n = int(rng.randint(2, 15))
            a = rng.rand(n)
            p, q = a * rng.rand(n), (1 - a) * rng.rand(n)
            m = rng.randint(0, 4)
            if m == 1:
                p = rng.randint(0, 5, n) / 8.0
                q = rng.randint(0, 5, n) / 8.0
            if m == 2:
                p, q = a.copy(), 1 - a
                p, q = np.round(p * 64) / 64, 1 - np.round(p * 64) / 64
            if m == 3:
                p, q = p * (rng.rand(n) < 0.6), q * (rng.rand(n) < 0.6)
            q[0] = 0
            p[-1] = 0
            d['p'], d['q'] = p.tolist(), q.tolist()
            if not (np.array(p) + np.array(q) <= 1).all():
                continue
        else:
            d['n'] = int(rng.choice([2, 3, 4, 5, 7, 10, 20, 50, 100]))
            d['s'] = [0.0, 0.5, -0.5, float(rng.uniform(-1, 1)), 1.0, -1.0][rng.randint(6)]
            if f == 'wf':
                d['s'] = [0.0, 0.5, -0.5, float(rng.uniform(-1, 3)), 4.0][rng.randint(5)]
                lim = 1 / (4.0 * d['n'])
                d['u'], d['v'] = float(rng.rand() * lim), float(rng.rand() * lim)
            else:
                d['u'] = [1e-9, 0.01, 0.3, 0.0, float(rng.rand())][rng.randint(5)]
                d['v'] = d['u'] if rng.rand() < 0.7 else float(rng.rand())
        d['labels'] = bool(rng.randint(2))
        yield d


@contract('C02', 'closed forms', g02)
def c02(c):
    from pydtmc import MarkovChain as M
    f = c['f']
    n = c.get('n')
    size = {'identity': n, 'ruin': n, 'ehrenfest': 2 * (n or 0) + 1, 'bernoulli': 2 * (n or 0) + 1, 'birth': len(c.get('p', [])), 'wf': (n or 0) + 1, 'moran': (n or 0) + 1}[f]
    st = ['s%d' % (size - i) for i in range(size)] if c['labels'] else None
    exp = np.zeros((size, size))
    exact = True
    if f == 'identity':
        mc = M.identity(n, st)
        exp = np.eye(n)
    elif f == 'ruin':
        w = c['w']
        mc = M.gamblers_ruin(n, w, st)
        exp[0, 0] = exp[-1, -1] = 1
        for i in range(1, n - 1):
            exp[i, i + 1] = w
            exp[i, i - 1] = 1 - w
    elif f in ('ehrenfest', 'bernoulli'):
        mc = M.urn_model('ehrenfest' if f == 'ehrenfest' else 'bernoulli-laplace', n, st)
        m = 2 * n
        for i in range(size):
            if f == 'ehrenfest':
                if i > 0:
                    exp[i, i - 1] = i / m
                if i < m:
                    exp[i, i + 1] = 1 - i / m
            else:
                if i > 0:
                    exp[i, i - 1] = (i / m)**2
                if i < m:
                    exp[i, i + 1] = (1 - i / m)**2
                exp[i, i] = 2 * (i / m) * (1 - i / m)
        exact = False
    elif f == 'birth':
        p, q = np.array(c['p']), np.array(c['q'])
        mc = M.birth_death(p, q, st)
        for i in range(size):
            exp[i, i] = 1 - p[i] - q[i]
            if i + 1 < size:
                exp[i, i + 1] = p[i]
            if i:
                exp[i, i - 1] = q[i]
        exact = False
    else:
        s, u, v = c['s'], c['u'], c['v']
        if f == 'moran' and s == 1.0:
            pass
        mc = M.population_genetics_model('moran' if f == 'moran' else 'wright-fisher', n, s, u, v, st)
        p = mc.p
        need((p >= 0).all() and (p <= 1 + 1e-12).all(), 'entries', p)
        near(p.sum(axis=1), np.ones(size), 'row sums')
        need(p[0, 0] == 1 and p[-1, -1] == 1, 'absorbing ends')
        exp[0, 0] = exp[-1, -1] = 1
        exact = False
        if f == 'wf':
            for i in range(1, n):
                k = i / n
                pm = k * (1 - u) + (1 - k) * v
                ps = pm * (1 + s) / (1 + pm * s)
                exp[i] = sps.binom.pmf(np.arange(size), n, ps)
        else:
            d = np.abs(np.subtract.outer(np.arange(size), np.arange(size)))
            need((p[d > 1] == 0).all(), 'moran moves by more than one state')
            for i in range(1, n):
                r = 1 - s
                den = r * i + (n - i)
                up = ((n - i) / n) * (r * i * (1 - u) + (n - i) * v) / den
                if abs(p[i, i + 1] - up) > 1e-9:
                    raise Bad(f'moran upward probability at {i}: {p[i, i + 1]} vs {up}')
                down = (i / n) * (r * i * u + (n - i) * (1 - v)) / den
                exp[i, i - 1], exp[i, i + 1], exp[i, i] = down, up, 1 - up - down
            if u != v:
                same(mc.states, st or [str(i + 1) for i in range(size)], 'states')
                return
    if exact:
        need(np.array_equal(mc.p, exp), f + ': matrix', mc.p, exp)
    else:
        near(mc.p, exp, f + ': matrix', atol=1e-10)
    same(mc.states, st or [str(i + 1) for i in range(size)], 'states')
    if f == 'identity' or f == 'ruin' or f == 'birth':
        z = np.isclose(exp, 0, atol=1e-12)
        need((mc.p[(exp == 0)] == 0).all(), f + ': transitions that must not exist', mc.p)


def g02r(rng, tier):
    for k in range(count(tier) // 4):
        yield {'seed': int(rng.randint(10**9))}


@contract('C02', 'inadmissible parameters are rejected', g02r, 0.3)
def c02r(c):
    from pydtmc import MarkovChain as M
    rng = np.random.RandomState(c['seed'])
    n = int(rng.randint(3, 9))
    fs = [
        lambda: M.gamblers_ruin(n, [0.0, 1.0, -0.1, 1.1, float('nan'), 'a', None][rng.randint(7)]),
        lambda: M.gamblers_ruin([2, 1, 0, -3, 2.5, '3'][rng.randint(6)], 0.5),
        lambda: M.identity([1, 0, -2, 2.0, None][rng.randint(5)]),
        lambda: M.urn_model('ehrenfest', [0, -1, 1.5][rng.randint(3)]),
        lambda: M.urn_model(['x', '', None, 'Ehrenfest'][rng.randint(4)], 3),
        lambda: M.birth_death(np.array([0.5, 0.5, 0.0]), np.array([0.0, 0.6, 0.5])),
        lambda: M.birth_death(np.array([0.5, 0.5, 0.0]), np.array([0.1, 0.4, 0.5])),
        lambda: M.birth_death(np.array([0.5, 0.5, 0.2]), np.array([0.0, 0.4, 0.5])),
        lambda: M.birth_death(np.array([0.5, 0.0]), np.array([0.0, 0.4, 0.5])),
        lambda: M.birth_death(np.array([0.5, -0.1, 0.0]), np.array([0.0, 0.4, 0.5])),
        lambda: M.population_genetics_model('moran', n, 1.0 + float(rng.rand() + 0.01), 0.1, 0.1),
        lambda: M.population_genetics_model('wright-fisher', n, 0.0, 1 / (4.0 * n) + 0.01, 0.0),
        lambda: M.population_genetics_model('wright-fisher', n, 0.0, 0.0, 1 / (4.0 * n) + 0.01),
        lambda: M.population_genetics_model('moran', n, -1.1, 0.1, 0.1),
        lambda: M.population_genetics_model('moran', n, 0.0, -0.1, 0.1),
        lambda: M.population_genetics_model('moran', n, 0.0, 0.1, 1.1),
        lambda: M.population_genetics_model('moran', [1, 501, 0][rng.randint(3)], 0.0, 0.1, 0.1),
        lambda: M.identity(n, ['a'] * n), lambda: M.identity(n, ['a', 'b']),
        lambda: M.urn_model('ehrenfest', 2, ['a', 'b', 'c']),
    ]
    i = int(rng.randint(len(fs)))
    raises(fs[i], VE(), f'inadmissible parameters, case {i}')


# ------------------------------------------------------------------ C03
def mask_for(rng, n, m, dens):
    mask = np.full((n, m), np.nan)
    for i in range(n):
        r = rng.rand()
        if r < 0.25:
            continue
        js = np.flatnonzero(rng.rand(m) < dens)
        if len(js) == 0:
            continue
        full = rng.rand() < 0.4
        if len(js) == m:
            full = True
        den = [16, 16, 10][rng.randint(3)]
        w = rng.multinomial(den, np.ones(len(js) + 1) / (len(js) + 1))[:len(js)] / float(den)
        if full:
            w = rng.multinomial(den, np.ones(len(js)) / len(js)) / float(den)
        elif rng.rand() < 0.35:
            # nearly complete, or hardly constrained, rows
            gap = [2.0 ** -4, 2.0 ** -10, 2.0 ** -12, 1e-4, 1 - 1e-6][rng.randint(5)]
            w = rng.dirichlet(np.ones(len(js))) * (1.0 - gap)
        mask[i, js] = w
        if np.nansum(mask[i]) > 1 or np.nansum(mask, axis=1)[i] > 1:
            mask[i] = np.nan
    return mask


def g03(rng, tier):
    for k in range(count(tier)):
        hm = bool(rng.randint(2))
        n = int(rng.randint(2, 7))
        kk = int(rng.randint(2, 6)) if hm else 0
        pm = mask_for(rng, n, n, [0.3, 0.6][rng.randint(2)]) if rng.rand() < 0.6 else None
        em = mask_for(rng, n, kk, 0.4) if hm and rng.rand() < 0.6 else None
        yield {'hmm': hm, 'n': n, 'k': kk, 'pm': None if pm is None else pm.tolist(), 'em': None if em is None else em.tolist(), 'z': float(rng.rand()), 'ze': float(rng.rand()), 'over': bool(rng.rand() < 0.15), 'seed': int(rng.randint(10**6))}


def free(mask, n, m):
    mask = np.full((n, m), np.nan) if mask is None else np.array(mask, dtype=float)
    full = np.isclose(np.nansum(mask, axis=1), 1.0)
    f = np.isnan(mask) & ~full[:, None]
    return mask, full, f


def check_random(x, mask, full, fr, zeros, what):
    need(np.isfinite(x).all() and (x >= 0).all() and (x <= 1 + 1e-9).all(), what + ' entries', x)
    near(x.sum(axis=1), np.ones(len(x)), what + ' row sums')
    fixed = ~np.isnan(mask)
    need(np.array_equal(x[fixed], mask[fixed]), what + ' masked entries', x, mask)
    need((x[np.isnan(mask) & full[:, None]] == 0).all(), what + ' unmasked entries of complete rows', x, mask)
    same(int((x[fr] == 0).sum()), zeros, what + ' number of zeros')


@contract('C03', 'random chains honour masks and zeros', g03)
def c03(c):
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    n, k = c['n'], c['k']
    pm, pf, pfr = free(c['pm'], n, n)
    pmax = int(pfr.sum() - (~pf).sum())
    if c['hmm']:
        em, ef, efr = free(c['em'], n, k)
        emax = int(efr.sum() - (~ef).sum())
        if min(pmax, emax) < 0:
            return
        z, ze = int(round(c['z'] * pmax)), int(round(c['ze'] * emax))
        arg = lambda z, ze: H.random(n, k, p_zeros=z, p_mask=None if c['pm'] is None else np.array(c['pm'], dtype=float), e_zeros=ze, e_mask=None if c['em'] is None else np.array(c['em'], dtype=float), seed=c['seed'])
        if c['over']:
            raises(lambda: arg(pmax + 1, ze), VE(), 'too many transition zeros')
            raises(lambda: arg(z, emax + 1), VE(), 'too many emission zeros')
            return
        h = arg(z, ze)
        check_random(h.p, pm, pf, pfr, z, 'transition')
        check_random(h.e, em, ef, efr, ze, 'emission')
        return
    if pmax < 0:
        return
    z = int(round(c['z'] * pmax))
    arg = lambda z: M.random(n, zeros=z, mask=None if c['pm'] is None else np.array(c['pm'], dtype=float), seed=c['seed'])
    if c['over']:
        raises(lambda: arg(pmax + 1), VE(), 'too many zeros')
        return
    check_random(arg(z).p, pm, pf, pfr, z, 'transition')


QUAD = ['gauss-chebyshev', 'gauss-legendre', 'niederreiter', 'newton-cotes', 'simpson-rule', 'trapezoid-rule']


def quad(kind, n, a, b):
    """nodes and weights of the documented quadratures, from their definitions"""
    if kind == 'gauss-legendre':
        x, w = np.polynomial.legendre.leggauss(n)
        return (a + b) / 2 + (b - a) / 2 * x, (b - a) / 2 * w
    if kind == 'gauss-chebyshev':
        t = (np.arange(n) + 0.5) * np.pi / n
        x = (a + b) / 2 - (b - a) / 2 * np.cos(t)
        # Fejer weights as defined by the Chebyshev expansion
        w = np.zeros(n)
        ev = [2.0 * j for j in range((n + 1) // 2)]
        for i in range(n):
            s = 0.0
            for j, e in enumerate(np.arange(0.0, n, 2.0)):
                cst = 1.0 if j == 0 else -2.0 / ((2 * j - 1) * (2 * j + 1))
                s += cst * np.cos(t[i] * e)
            w[i] = (b - a) / n * s
        return x, w
    if kind == 'niederreiter':
        x = np.arange(1, n + 1) * np.sqrt(2.0)
        return a + (b - a) * (x - np.floor(x)), np.full(n, (b - a) / n)
    if kind == 'newton-cotes':
        h = (b - a) / n
        return a + h * (np.arange(n) + 0.5), np.full(n, h)
    if kind == 'simpson-rule':
        x = np.linspace(a, b, n)
        h = (b - a) / (n - 1)
        w = np.array([1.0 if i in (0, n - 1) else (4.0 if i % 2 else 2.0) for i in range(n)])
        return x, w * h / 3
    x = np.linspace(a, b, n)
    w = np.full(n, (b - a) / (n - 1))
    w[0] = w[-1] = w[0] / 2
    return x, w


def fun(kind):
    if kind == 'gauss':
        return lambda x_index, x_value, y_index, y_value: math.exp(-(x_value - y_value)**2) + 0.01
    if kind == 'index':
        return lambda x_index, x_value, y_index, y_value: 1.0 + x_index + 2 * y_index
    if kind == 'zero':
        return lambda x_index, x_value, y_index, y_value: 0.0 if x_index == 1 else 1.0 + y_value
    if kind == 'step':
        return lambda x_index, x_value, y_index, y_value: 1.0 if y_value >= x_value else 0.0
    if kind == 'int':
        return lambda x_index, x_value, y_index, y_value: x_index + y_index
    return lambda x_index, x_value, y_index, y_value: x_value * 3 + y_value + 0.1


FUN = ['gauss', 'index', 'zero', 'step', 'lin', 'int']


def g03f(rng, tier):
    for k in range(count(tier)):
        n = int(rng.randint(2, 12))
        q = QUAD[k % 6]
        if q == 'simpson-rule':
            n = n | 1
        a = [0.0, 1.0, float(rng.rand() * 3), 0.5][rng.randint(4)]
        yield {'q': q, 'n': n, 'a': a, 'b': a + [1.0, 0.5, float(rng.rand() * 4 + 0.1), 2.0][rng.randint(4)], 'f': FUN[rng.randint(6)], 'default': bool(rng.rand() < 0.2)}


@contract('C03', 'fit_function', g03f)
def c03f(c):
    from pydtmc import MarkovChain as M
    n, a, b = c['n'], c['a'], c['b']
    if c['default']:
        a, b = 0.0, 1.0
    f = fun(c['f'])
    st = ['q%d' % i for i in range(n)]
    mc = M.fit_function(c['q'], st, f, None if c['default'] else (a, b))
    x, w = quad(c['q'], n, a, b)
    e = np.array([[float(f(i, x[i], j, x[j])) * w[j] for j in range(n)] for i in range(n)])
    if c['f'] == 'step' or (c['q'] == 'gauss-chebyshev' and n == 2):
        pass
    for i in range(n):
        if not e[i].any():
            e[i] = 1.0
    near(mc.p, e / e.sum(axis=1, keepdims=True), 'fit_function matrix', atol=1e-7)
    same(mc.states, st, 'states')


def g03d(rng, tier):
    for k in range(count(tier)):
        yield {'n': int(rng.randint(2, 12)), 'kind': int(rng.randint(0, 3)), 'seed': int(rng.randint(10**6)), 'x': float(rng.rand()), 'y': float(rng.rand()), 'z': float(rng.rand()), 't': int(rng.randint(0, 8))}


DISTS = [('uniform', {}), ('normal', {}), ('beta', {'a': 0.5, 'b': 2.0}), ('gamma', {'shape': 2.0}), ('poisson', {'lam': 0.7}), ('binomial', {'n': 3, 'p': 0.2}), ('exponential', {}), ('normal', {'loc': -3.0})]


@contract('C03', 'random_distribution, dirichlet_process and approximation are stochastic', g03d, 0.7)
def c03d(c):
    from pydtmc import MarkovChain as M
    n = c['n']
    if c['kind'] == 0:
        f, kw = DISTS[c['t']]
        mc = M.random_distribution(n, f, seed=c['seed'], **kw)
        x = getattr(np.random.RandomState(c['seed']), f)(size=(n, n), **kw).astype(float)
        x = np.clip(x, 0, None)
        for i in range(n):
            if not x[i].any():
                x[i] = 1
        near(mc.p, x / x.sum(axis=1, keepdims=True), 'random_distribution matrix')
    elif c['kind'] == 1:
        mc = M.dirichlet_process(n, 1 + int(c['x'] * (n - 1)), diagonal_bias_factor=None if c['y'] < 0.5 else 0.1 + 4 * c['y'], shift_concentration=c['z'] < 0.5, seed=c['seed'])
    else:
        t = ['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'][c['t'] % 4]
        mc = M.approximation(n, t, 2 * c['x'] - 1, 0.2 + c['y'], 0.9 * c['z'] - 0.2 if t != 'adda-cooper' else 0.05 + 0.8 * c['z'])
    p = mc.p
    need(np.isfinite(p).all() and (p >= 0).all() and (p <= 1 + 1e-9).all(), 'entries', p)
    near(p.sum(axis=1), np.ones(n), 'row sums', rtol=1e-5, atol=1e-6)


# ------------------------------------------------------------------ C22
def g22(rng, tier):
    for k in range(count(tier)):
        n = int(rng.randint(3, 8))
        d = chain(rng, tier, n=n, style=int(rng.randint(1, 7)))
        d['seed'] = int(rng.randint(10**6))
        yield d


def sub(rng, n, most):
    k = int(rng.randint(1, most + 1))
    return rng.permutation(n)[:k].tolist()


def eq(a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and any(isinstance(x, np.ndarray) or x is None for x in a):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if hasattr(a, 'to_matrix') and hasattr(b, 'to_matrix'):
        return a == b
    return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind == 'f')


def attempt(f):
    try:
        return ('v', f())
    except Exception as ex:
        return ('x', type(ex).__name__)


def agree(fs, msg):
    rs = [attempt(f) for f in fs]
    for r in rs[1:]:
        need(r[0] == rs[0][0] and (eq(r[1], rs[0][1]) if r[0] == 'v' else r[1] == rs[0][1]), msg, rs[0], r)
    return rs[0]


@contract('C22', 'labels, indices, lists and numpy integers denote the same states', g22)
def c22(c):
    mc = MC(c)
    nm = names(c)
    n = len(nm)
    rng = np.random.RandomState(c['seed'])
    i, j = int(rng.randint(n)), int(rng.randint(n))
    one = lambda i: [i, nm[i], np.int64(i), np.int32(i)]
    for meth in ('conditional_probabilities', 'is_absorbing_state', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state', 'sensitivity'):
        r = agree([lambda m=meth, x=x: getattr(mc, m)(x) for x in one(i)], meth)
        need(r[0] == 'v', meth + ' rejected a valid state', r)
    for meth in ('are_communicating', 'is_accessible', 'transition_probability'):
        r = agree([lambda x=x, y=y, m=meth: getattr(mc, m)(x, y) for x in one(i) for y in one(j)], meth)
        need(r[0] == 'v', meth + ' rejected valid states', r)
    A = sub(rng, n, n - 1)
    perm = [A[k] for k in rng.permutation(len(A))]
    forms = [A, [nm[a] for a in A], perm, [nm[a] for a in perm], [np.int64(a) for a in perm]]
    if len(A) == 1:
        forms += [A[0], nm[A[0]], np.int64(A[0])]
    for meth in ('hitting_probabilities', 'hitting_times', 'mean_first_passage_times_to', 'to_subchain'):
        agree([lambda x=x, m=meth: getattr(mc, m)(x if not isinstance(x, list) else list(x)) for x in forms], meth)
    agree([lambda x=x, y=y: mc.first_passage_probabilities(3, y, list(x) if isinstance(x, list) else x) for x in forms for y in one(i)], 'first_passage_probabilities')
    rw = rng.rand(n)
    agree([lambda x=x, y=y: mc.first_passage_reward(3, y, list(x) if isinstance(x, list) else x, rw) for x in forms for y in one(i)], 'first_passage_reward')
    B = [k for k in range(n) if k not in A][:2]
    for t in ('forward', 'backward'):
        agree([lambda x=x, y=y: mc.committor_probabilities(t, list(x) if isinstance(x, list) else x, y) for x in forms for y in (B, [nm[b] for b in B], B[::-1])], 'committor_probabilities ' + t)
    agree([lambda x=x, y=y: mc.mean_first_passage_times_between(list(x) if isinstance(x, list) else x, y) for x in forms for y in (B, [nm[b] for b in B], B[::-1])], 'mean_first_passage_times_between')
    # a status is a state or the corresponding distribution
    e = np.zeros(n)
    e[i] = 1.0
    st = one(i) + [e, e.tolist(), e.reshape(1, n)]
    agree([lambda x=x: mc.redistribute(3, x) for x in st], 'redistribute')
    agree([lambda: mc.redistribute(4), lambda: mc.redistribute(4, np.full(n, 1.0 / n))], 'redistribute default status')
    agree([lambda x=x: mc.predict(4, x, output_indices=True) for x in one(i)], 'predict')
    agree([lambda x=x: mc.simulate(4, x, seed=3) for x in one(i)], 'simulate')
    agree([lambda x=x: mc.simulate(6, i, x, seed=3) for x in one(j)], 'simulate final state')
    agree([lambda x=x: mc.next(x, seed=3) for x in one(i)], 'next')
    s = rng.randint(0, n, 5).tolist()
    agree([lambda: mc.sequence_probability(s), lambda: mc.sequence_probability([nm[a] for a in s])], 'sequence_probability')
    agree([lambda: mc.time_correlations(s, s, 2), lambda: mc.time_correlations([nm[a] for a in s], [nm[a] for a in s], 2), lambda: mc.time_correlations(s, None, 2)], 'time_correlations')
    agree([lambda: mc.time_relaxations(s, e, 2), lambda: mc.time_relaxations([nm[a] for a in s], e.tolist(), 2)], 'time_relaxations')
    agree([lambda: mc.time_relaxations(s, None, [2, 1, 3]), lambda: mc.time_relaxations(s, np.full(n, 1.0 / n), [1, 2, 3])], 'time points order')
    from pydtmc import MarkovChain
    agree([lambda: MarkovChain.fit_sequence('mle', nm, s), lambda: MarkovChain.fit_sequence('mle', nm, [nm[a] for a in s])], 'fit_sequence')
    cut = sorted(set(rng.randint(1, n, 2).tolist()))
    part = [x.tolist() for x in np.split(np.arange(n), cut)]
    agree([lambda: mc.lump(part), lambda: mc.lump([[nm[a] for a in b] for b in part])], 'lump')


@contract('C22', 'invalid states, sets, statuses and sequences are rejected', g22)
def c22r(c):
    mc = MC(c)
    nm = names(c)
    n = len(nm)
    rng = np.random.RandomState(c['seed'])
    bads = [n, -1, -n, 10**6, 'no such state', '', 1.0, None, True, nm[0] + ' ', [0], np.float64(1), nm[0].upper() + '!', n + 3, np.int64(-1), np.int64(n)]
    ok = int(rng.randint(n))
    ks = rng.permutation(len(bads))[:5]
    for b in [bads[k] for k in ks]:
        if isinstance(b, str) and b in nm:
            continue
        for meth in ('conditional_probabilities', 'is_absorbing_state', 'is_cyclic_state', 'is_recurrent_state', 'is_transient_state', 'sensitivity'):
            raises(lambda: getattr(mc, meth)(b), VE(), f'{meth}({b!r})')
        for meth in ('are_communicating', 'is_accessible', 'transition_probability'):
            raises(lambda: getattr(mc, meth)(b, ok), VE(), f'{meth}({b!r}, {ok})')
            raises(lambda: getattr(mc, meth)(ok, b), VE(), f'{meth}({ok}, {b!r})')
        raises(lambda: mc.next(b), VE(), f'next({b!r})')
        raises(lambda: mc.predict(2, b), VE(), f'predict(2, {b!r})')
        raises(lambda: mc.first_passage_probabilities(2, b), VE(), f'first_passage_probabilities initial {b!r}')
        if b is not None:
            raises(lambda: mc.simulate(3, b), VE(), f'simulate(3, {b!r})')
            raises(lambda: mc.simulate(3, 0, b), VE(), f'simulate final {b!r}')
    sets = [[], [0, 0], [n], [-1], ['no such state'], [0, nm[1]], [nm[0], nm[0]], [0.0], (0, 1), {0}, n, -1, 'nope', [True], 1.5, [0, 1, 1], [None], list(range(n)) + [0], [nm[0], 'zzz'], np.array([0, 1])]
    for b in [sets[k] for k in rng.permutation(len(sets))[:5]]:
        for f in (mc.hitting_probabilities, mc.hitting_times, mc.mean_first_passage_times_to, mc.to_subchain):
            raises(lambda: f(b), VE(), f'{f.__name__}({b!r})')
        raises(lambda: mc.committor_probabilities('forward', b, [ok]), VE(), f'committor states1 {b!r}')
        raises(lambda: mc.committor_probabilities('forward', [ok], b), VE(), f'committor states2 {b!r}')
        raises(lambda: mc.mean_first_passage_times_between(b, ok), VE(), f'mfpt between origins {b!r}')
        raises(lambda: mc.mean_first_passage_times_between(ok, b), VE(), f'mfpt between targets {b!r}')
        raises(lambda: mc.first_passage_probabilities(2, 0, b), VE(), f'first_passage_probabilities set {b!r}')
        raises(lambda: mc.first_passage_reward(2, 0, b, np.ones(n)), VE(), f'first_passage_reward set {b!r}')
    al = list(range(n))
    raises(lambda: mc.to_subchain(al), VE(), 'to_subchain of all the states')
    raises(lambda: mc.committor_probabilities('forward', al, [0]), VE(), 'committor with all the states')
    raises(lambda: mc.committor_probabilities('forward', [0, 1], [1]), VE(), 'committor with overlapping sets')
    raises(lambda: mc.committor_probabilities('sideways', [0], [1]), VE(), 'committor type')
    v = np.full(n, 1.0 / n)
    w1, w2, w3, w4 = v.copy(), v.copy(), v.copy(), v.copy()
    w1[0] += 0.01
    w2[0] += 0.5
    w2[1] -= 0.5
    w3[0] = np.nan
    w4[1] -= 0.001
    vecs = [v[:-1], np.append(v, 0.0), w1, w2, w3, w4, np.zeros(n), v * 2, np.ones((2, n)) / n, 'x y z', ['a'] * n, v.reshape(n, 1), -v, np.append(v[:-1], np.inf), [1.5, -0.5] + [0.0] * (n - 2)]
    for b in [vecs[k] for k in rng.permutation(len(vecs))[:5]]:
        raises(lambda: mc.redistribute(2, b), VE(), f'redistribute status {b!r}')
        if not isinstance(b, str):
            raises(lambda: mc.expected_transitions(2, b), VE(), f'expected_transitions {b!r}')
            raises(lambda: mc.mixing_time(b), VE(), f'mixing_time {b!r}')
            raises(lambda: mc.time_relaxations([0, 1], b, 1), VE(), f'time_relaxations {b!r}')
    rws = [np.ones(n - 1), np.ones(n + 1), np.full(n, np.nan), np.append(np.ones(n - 1), np.inf), 'abc', None, np.ones((2, n)), 3.0]
    for b in [rws[k] for k in rng.permutation(len(rws))[:3]]:
        raises(lambda: mc.expected_rewards(2, b), VE(), f'expected_rewards {b!r}')
    seqs = [[0], [], [0, n], [0, -1], ['zz', nm[0]], [nm[0], 0], (0, 1), nm[0], [0, 1.0], None, [0, True], [0, None]]
    for b in [seqs[k] for k in rng.permutation(len(seqs))[:4]]:
        raises(lambda: mc.sequence_probability(b), VE(), f'sequence_probability({b!r})')
        raises(lambda: mc.time_correlations(b), VE(), f'time_correlations({b!r})')
        raises(lambda: mc.time_relaxations(b), VE(), f'time_relaxations({b!r})')
        from pydtmc import MarkovChain as M
        raises(lambda: M.fit_sequence('mle', nm, b), VE(), f'fit_sequence({b!r})')
    ints = [0, -1, 1.0, None, '2', True, 2.5]
    for b in [ints[k] for k in rng.permutation(len(ints))[:3]]:
        raises(lambda: mc.redistribute(b), VE(), f'redistribute({b!r})')
        raises(lambda: mc.expected_rewards(b, np.ones(n)), VE(), f'expected_rewards({b!r})')
        raises(lambda: mc.expected_transitions(b), VE(), f'expected_transitions({b!r})')
        raises(lambda: mc.predict(b, 0), VE(), f'predict({b!r})')
        raises(lambda: mc.first_passage_probabilities(b, 0), VE(), f'first_passage_probabilities({b!r})')
        raises(lambda: mc.mixing_time(None, b), VE(), f'mixing_time jump {b!r}')
        raises(lambda: mc.simulate(b), VE(), f'simulate({b!r})')
        raises(lambda: mc.to_nth_order(b), VE(), f'to_nth_order({b!r})')
    raises(lambda: mc.simulate(1), VE(), 'simulate(1)')
    raises(lambda: mc.to_nth_order(1), VE(), 'to_nth_order(1)')
    for b in [[-1], -1, [0, 0], [], 1.5, 'a', [1, -1], [0.5], True]:
        raises(lambda: mc.time_correlations([0, 1], None, b), VE(), f'time points {b!r}')
    pts = rng.permutation(12)[:rng.randint(2, 7)].tolist()
    pts.insert(rng.randint(len(pts) + 1), pts[rng.randint(len(pts))])
    raises(lambda: mc.time_correlations([0, 1], None, pts), VE(), f'repeated time points {pts!r}')
    raises(lambda: mc.time_relaxations([0, 1], None, pts), VE(), f'repeated time points {pts!r}')
    many = rng.permutation(n)[:rng.randint(1, n)].tolist()
    many.insert(rng.randint(len(many) + 1), many[rng.randint(len(many))])
    for b in (many, [nm[a] for a in many]):
        for f in (mc.hitting_probabilities, mc.hitting_times, mc.mean_first_passage_times_to, mc.to_subchain):
            raises(lambda: f(b), VE(), f'{f.__name__}({b!r})')
    cut = [x.tolist() for x in np.split(rng.permutation(n), [1 + rng.randint(n - 1)])]
    a, b = (0, 1) if rng.rand() < 0.5 else (1, 0)
    more = [list(x) for x in cut]
    more[a].insert(rng.randint(len(more[a]) + 1), more[b][rng.randint(len(more[b]))])
    less = [list(x) for x in cut] + [[]]
    raises(lambda: mc.lump(more), VE(), f'lump({more!r})')
    raises(lambda: mc.lump(less), (VE(), ValueError), f'lump({less!r})')
    parts = [[list(range(n))], [[k] for k in range(n)], [[0], list(range(2, n))], [[0, 1], [1] + list(range(2, n))], [list(range(1, n)), [0]], 'a', [0, 1], [[0], list(range(1, n - 1)) + [n]], [[nm[0]], nm[2:]]]
    for b in [parts[k] for k in rng.permutation(len(parts))[:3]]:
        raises(lambda: mc.lump(b), VE(), f'lump({b!r})')


@contract('C22', 'hidden models: states and symbols', lambda rng, tier: (dict(hmm_case(rng, tier, int(rng.randint(3, 6)), int(rng.randint(3, 6)), style=int(rng.randint(1, 7))), seed=int(rng.randint(10**6))) for k in range(count(tier))))
def c22h(c):
    from pydtmc import HiddenMarkovModel as H
    hm = HMM(c)
    st, sy = hnames(c)
    n, k = len(st), len(sy)
    rng = np.random.RandomState(c['seed'])
    i, j, s = int(rng.randint(n)), int(rng.randint(n)), int(rng.randint(k))
    agree([lambda x=x, y=y: hm.emission_probability(x, y) for x in (s, sy[s], np.int64(s)) for y in (i, st[i], np.int64(i))], 'emission_probability')
    agree([lambda x=x, y=y: hm.transition_probability(x, y) for x in (j, st[j]) for y in (i, st[i])], 'transition_probability')
    q = rng.randint(0, k, 4).tolist()
    ql = [sy[a] for a in q]
    e = np.zeros(n)
    e[i] = 1
    stat = [i, st[i], np.int64(i), e, e.tolist()]
    agree([lambda x=x, y=y: hm.decode(list(y), x) for x in stat for y in (q, ql)], 'decode')
    agree([lambda: hm.decode(q), lambda: hm.decode(ql, np.full(n, 1.0 / n))], 'decode default status')
    for t in ('viterbi', 'map', 'mle'):
        r = agree([lambda x=x, y=y: (lambda z: None if z is None else [z[0]] + list(z[1]))(hm.predict(t, list(y), x, output_indices=True)) for x in stat for y in (q, ql)], 'predict ' + t)
        a, b = hm.predict(t, q, i, output_indices=True), hm.predict(t, q, i)
        need((a is None and b is None) or (a[0] == b[0] and [st[z] for z in a[1]] == list(b[1])), 'predict labels', a, b)
    agree([lambda x=x: hm.simulate(4, x, seed=5) for x in (i, st[i], np.int64(i))], 'simulate')
    agree([lambda x=x, y=y: hm.simulate(6, i, x, y, seed=5) for x in (j, st[j]) for y in (s, sy[s])], 'simulate finals')
    agree([lambda x=x: hm.next(x, seed=5) for x in (i, st[i])], 'next')
    R = sorted(rng.permutation(n)[:2].tolist())
    Y = sorted(rng.permutation(k)[:2].tolist())
    agree([lambda x=x, y=y: hm.restrict(list(x), list(y)) for x in (R, R[::-1], [st[a] for a in R]) for y in (Y, [sy[a] for a in Y[::-1]])], 'restrict')
    # symbols are not states
    raises(lambda: hm.emission_probability(st[0], st[0]), VE(), 'a state used as a symbol')
    raises(lambda: hm.emission_probability(sy[0], sy[0]), VE(), 'a symbol used as a state')
    raises(lambda: hm.emission_probability(k, 0), VE(), 'symbol out of range')
    raises(lambda: hm.emission_probability(0, n), VE(), 'state out of range')
    raises(lambda: hm.transition_probability(n, 0), VE(), 'target out of range')
    raises(lambda: hm.transition_probability(0, -1), VE(), 'origin out of range')
    for b in ([0], [0, k], [0, -1], [st[0], st[1]], 'x', (0, 1), [0, sy[1]]):
        raises(lambda: hm.decode(b), VE(), f'decode({b!r})')
        raises(lambda: hm.predict('viterbi', b), VE(), f'predict({b!r})')
    raises(lambda: hm.decode(q, np.full(n + 1, 1.0 / (n + 1))), VE(), 'decode with a status of wrong length')
    raises(lambda: hm.decode(q, np.full(n, 0.9 / n)), VE(), 'decode with a status not summing to 1')
    raises(lambda: hm.predict('viterbi', q, n), VE(), 'status out of range')
    raises(lambda: hm.predict('max', q), VE(), 'prediction type')
    raises(lambda: hm.simulate(4, n), VE(), 'initial state out of range')
    raises(lambda: hm.simulate(4, 0, n), VE(), 'final state out of range')
    raises(lambda: hm.simulate(4, 0, None, k), VE(), 'final symbol out of range')
    raises(lambda: hm.simulate(1), VE(), 'steps')
    raises(lambda: hm.next(0, 'other'), VE(), 'target')
    raises(lambda: hm.restrict(None, None), VE(), 'restrict nothing')
    raises(lambda: hm.restrict([0], None), VE(), 'restrict to one state')
    raises(lambda: hm.restrict(None, [0]), VE(), 'restrict to one symbol')
    raises(lambda: hm.restrict([0, 0], None), VE(), 'restrict repeated')
    raises(lambda: hm.restrict(list(range(n)), None), VE(), 'restrict to all states')
    raises(lambda: H.fit('baum-welch', st, sy, hm.p, hm.e, [0, k]), VE(), 'fit symbols')
    raises(lambda: H.fit('other', st, sy, hm.p, hm.e, q), VE(), 'fit type')
    raises(lambda: H.fit('baum-welch', st, sy, hm.p[:2, :2], hm.e, q), VE(), 'fit guess of wrong size')
    raises(lambda: H.fit('baum-welch', st, sy, hm.p, hm.e * 0.9, q), VE(), 'fit guess not stochastic')
    raises(lambda: H.estimate(st, sy, [0, 1], [0, k]), VE(), 'estimate symbols')
    raises(lambda: H.estimate(st, sy, [0, n], [0, 1]), VE(), 'estimate states')
    raises(lambda: H.estimate(st, sy, [0, 1, 1], [0, 1]), (VE(), ValueError), 'estimate lengths')
