"""C15, C16, C17: hidden Markov inference and estimation"""
import itertools
from .core import *


def g15(rng, tier):
    for k in range(count(tier)):
        d = hmm_case(rng, tier)
        n, m = len(d['p']), len(d['e'][0])
        f = int(rng.choice([2, 2, 3, 3, 4, 5, 6, 8, 12, 25, 120]))
        if rng.rand() < 0.8:
            # a feasible sequence most of the time
            p, e = np.array(d['p']), np.array(d['e'])
            x = rng.randint(n)
            sy = []
            for _ in range(f):
                x = rng.choice(n, p=p[x])
                sy.append(int(rng.choice(m, p=e[x])))
        else:
            sy = [int(x) for x in rng.randint(0, m, f)]
        d['symbols_seq'] = sy
        r = rng.randint(0, 4)
        d['init'] = None if r == 0 else (int(rng.randint(n)) if r == 1 else dist(rng, n))
        d['labels'] = bool(rng.rand() < 0.4)
        d['scale'] = bool(rng.rand() < 0.5)
        yield d


def setup(c):
    hmm = HMM(c)
    p, e = np.array(c['p']), np.array(c['e'])
    n = len(p)
    sn, yn = hnames(c)
    sy = c['symbols_seq']
    d = c['init']
    if d is None:
        d0 = np.full(n, 1.0 / n)
    elif isinstance(d, int):
        d0 = np.eye(n)[d]
    else:
        d0 = np.array(d)
    arg = [yn[s] for s in sy] if c['labels'] else list(sy)
    st = sn[d] if isinstance(d, int) and c['labels'] else d
    st = np.array(st) if isinstance(st, list) else st
    return hmm, p, e, n, sn, sy, d0, arg, st


def logtables(p, e, d0, sy):
    """log forward/backward tables by log-sum-exp; column t of lf is log P(s_1..s_t, x_t), of lb log P(s_{t+1}.. | x_t)"""
    with np.errstate(divide='ignore'):
        lp, le, ld = np.log(p), np.log(e), np.log(d0)
    lf = [ld]
    for s in sy:
        lf.append(np.logaddexp.reduce(lf[-1][:, None] + lp, axis=0) + le[:, s])
    lb = [np.zeros(len(d0))]
    for s in sy[::-1]:
        lb.append(np.logaddexp.reduce(lp + (le[:, s] + lb[-1])[None, :], axis=1))
    return np.array(lf).T, np.array(lb[::-1]).T


@contract('C15', 'decode', g15)
def c15(c):
    hmm, p, e, n, sn, sy, d0, arg, st = setup(c)
    f = len(sy)
    keep = list(arg)
    res = hmm.decode(arg, st, c['scale'])
    need(arg == keep, 'decode altered the symbols', arg)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        lf, lb = logtables(p, e, d0, sy)
    ll = np.logaddexp.reduce(lf[:, -1])
    if ll == -np.inf:
        need(res is None, 'decode of impossible symbols', res)
        return
    need(res is not None, 'decode of possible symbols returned None')
    lp, post, bw, fw, sc = res
    near(lp, ll, 'log probability', 1e-8, 1e-8)
    need(isinstance(lp, float), 'log probability type', type(lp))
    if (lb - (ll - np.logaddexp.reduce(lf, axis=0))).max() > 690:
        return   # the scaled backward table leaves the range of double precision
    near(post, np.exp((lf + lb)[:, 1:] - ll), 'posterior', 1e-7, 1e-9)
    tot = np.logaddexp.reduce(lf, axis=0)
    if n**(f + 1) <= 2000:
        pl, pp = 0.0, np.zeros((n, f))
        for x in itertools.product(range(n), repeat=f + 1):
            w = d0[x[0]]
            for t in range(f):
                w *= p[x[t], x[t + 1]] * e[x[t + 1], sy[t]]
            pl += w
            for t in range(f):
                pp[x[t + 1], t] += w
        near(lp, math.log(pl), 'log probability against enumeration', 1e-8, 1e-8)
        near(post, pp / pl, 'posterior against enumeration', 1e-7, 1e-9)
    if c['scale']:
        need(sc is not None and len(sc) == f + 1, 'scaling factors', sc)
        near(sc, np.exp(np.diff(np.concatenate(([0.0], tot)))), 'scaling factors', 1e-7)
        near(fw, np.exp(lf - tot), 'scaled forward table', 1e-7, 1e-10)
        near(bw, np.exp(lb - (ll - tot)), 'scaled backward table', 1e-7, 1e-10)
    else:
        need(sc is None, 'scaling factors without scaling', sc)
        if ll > -600:
            near(fw, np.exp(lf), 'forward table', 1e-7, 1e-285)
            near(bw, np.exp(lb), 'backward table', 1e-7, 1e-285)


@contract('C16', 'predict', g15)
def c16(c):
    hmm, p, e, n, sn, sy, d0, arg, st = setup(c)
    f = len(sy)
    kind = ['viterbi', 'mle', 'map'][(sum(sy) + f) % 3]
    if kind != 'map':
        with np.errstate(divide='ignore'):
            lp, le = np.log(p), np.log(e)
            w0 = np.log(d0) + le[:, sy[0]]
        w = w0
        for s in sy:
            w = (w[:, None] + lp).max(axis=0) + le[:, s]
        best = w.max()
        for idx in (True, False):
            res = hmm.predict(kind, list(arg), st, idx)
            if best == -np.inf:
                need(res is None, kind + ' prediction of impossible symbols', res)
                continue
            need(res is not None, kind + ' prediction of possible symbols returned None')
            v, path = res
            near(v, best, kind + ' log probability', 1e-9, 1e-9 * (f + 1))
            need(isinstance(path, list) and len(path) == f, kind + ' path length', path)
            x = [int(q) for q in path] if idx else [sn.index(q) for q in path]
            q = (w0 + lp[:, x[0]]).max() + le[x[0], sy[0]]
            for t in range(1, f):
                q += lp[x[t - 1], x[t]] + le[x[t], sy[t]]
            near(q, best, f'{kind} path {path} does not attain the maximum', 1e-9, 1e-9 * (f + 1))
        if n**(f + 1) <= 1500:
            bf = -np.inf
            for x in itertools.product(range(n), repeat=f + 1):
                q = w0[x[0]] + sum(lp[x[t], x[t + 1]] + le[x[t + 1], sy[t]] for t in range(f))
                bf = max(bf, q)
            near(bf if bf > -np.inf else -1e9, best if best > -np.inf else -1e9, 'oracle')
    else:
        lf, lb = logtables(p, e, d0, sy)
        ll = np.logaddexp.reduce(lf[:, -1])
        for idx in (True, False):
            res = hmm.predict('map', list(arg), st, idx)
            if ll == -np.inf:
                need(res is None, 'map prediction of impossible symbols', res)
                continue
            need(res is not None, 'map prediction of possible symbols returned None')
            v, path = res
            near(v, ll, 'map log probability', 1e-8, 1e-8)
            x = [int(q) for q in path] if idx else [sn.index(q) for q in path]
            need(len(x) == f, 'map path length', path)
            if (lb - (ll - np.logaddexp.reduce(lf, axis=0))).max() > 690:
                continue   # the scaled backward table leaves the range of double precision
            post = np.exp((lf + lb)[:, 1:] - ll)
            for t in range(f):
                need(post[x[t], t] >= post[:, t].max() - 1e-9, f'map state at position {t}', x[t], post[:, t])


def rel(counts, k=0.0):
    w = np.asarray(counts, dtype=float) + k
    w[w.sum(axis=1) == 0] = 1.0
    return w / w.sum(axis=1, keepdims=True)


def g17(rng, tier):
    for k in range(count(tier)):
        n, m = int(rng.randint(2, 7)), int(rng.randint(2, 6))
        T = int(rng.choice([2, 3, 4, 6, 10, 40]))
        hi = int(rng.randint(1, n + 1))
        hm = int(rng.randint(1, m + 1))
        yield {'n': n, 'm': m, 'states': labels(rng, n, int(rng.randint(1, 7))), 'symbols': ['#' + s for s in labels(rng, m, int(rng.randint(1, 7)))],
               'x': [int(q) for q in rng.randint(0, hi, T)], 'y': [int(q) for q in rng.randint(0, hm, T)], 'labels': bool(rng.rand() < 0.5),
               'prior': rng.choice(['none', 'ones', 'ints']), 'a': rng.randint(1, 6, (n, n)).tolist()}


@contract('C17', 'fit_sequence and estimate', g17)
def c17(c):
    from pydtmc import MarkovChain, HiddenMarkovModel
    n, m, S, Y = c['n'], c['m'], c['states'], c['symbols']
    x, y = c['x'], c['y']
    xs = [S[i] for i in x] if c['labels'] else list(x)
    ys = [Y[i] for i in y] if c['labels'] else list(y)
    f = np.zeros((n, n))
    for i, j in zip(x, x[1:]):
        f[i, j] += 1
    g = np.zeros((n, m))
    for i, j in zip(x, y):
        g[i, j] += 1
    for sm in (True, False):
        mc = MarkovChain.fit_sequence('mle', list(S), list(xs), sm)
        near(mc.p, rel(f, 0.001 if sm else 0.0), f'fit_sequence mle smoothing={sm}', 1e-12, 1e-12)
        need(mc.states == S, 'fit_sequence labels', mc.states)
    a = np.ones((n, n)) if c['prior'] != 'ints' else np.array(c['a'], dtype=float)
    mc = MarkovChain.fit_sequence('map', list(S), list(xs), None if c['prior'] == 'none' else a.copy())
    near(mc.p, rel(f + a - 1), 'fit_sequence map', 1e-12, 1e-12)
    need(mc.states == S, 'fit_sequence labels', mc.states)
    h = HiddenMarkovModel.estimate(list(S), list(Y), list(xs), list(ys))
    near(h.p, rel(f), 'estimate transition matrix', 1e-12, 1e-12)
    near(h.e, rel(g), 'estimate emission matrix', 1e-12, 1e-12)
    need(h.states == S and h.symbols == Y, 'estimate labels', h.states, h.symbols)


def g17r(rng, tier):
    for k in range(count(tier)):
        d = hmm_case(rng, tier)
        n, m = len(d['p']), len(d['e'][0])
        pick = lambda q: None if q < 3 or rng.rand() < 0.25 else sorted(int(v) for v in rng.permutation(q)[:rng.randint(2, q)])
        d['keep'], d['keepy'] = pick(n), pick(m)
        if d['keep'] is None and d['keepy'] is None:
            continue
        d['labels'] = bool(rng.rand() < 0.5)
        yield d


@contract('C17', 'restrict', g17r)
def c17r(c):
    hmm = HMM(c)
    sn, yn = hnames(c)
    n, m = len(sn), len(yn)
    ks, ky = c['keep'], c['keepy']
    arg = lambda k, nm: None if k is None else ([nm[i] for i in k] if c['labels'] else list(k))
    r = hmm.restrict(arg(ks, sn), arg(ky, yn))
    si, yi = (list(range(n)) if ks is None else ks), (list(range(m)) if ky is None else ky)
    need(r.states == [sn[i] for i in si] and r.symbols == [yn[i] for i in yi], 'restrict labels', r.states, r.symbols)
    near(r.p, rel(np.array(c['p'])[np.ix_(si, si)]), 'restrict transition matrix', 1e-12, 1e-12)
    near(r.e, rel(np.array(c['e'])[np.ix_(si, yi)]), 'restrict emission matrix', 1e-12, 1e-12)
    near(hmm.p, c['p'], 'restrict altered the model', 0, 0)


def g17f(rng, tier):
    for k in range(count(tier)):
        n, m = int(rng.randint(2, 4)), int(rng.randint(2, 4))
        p = fill(rng, pattern(rng, n, ['dense', 'mid'][rng.randint(2)]), 1)
        e = fill(rng, rng.rand(n, m) < (1.1 if rng.rand() < 0.6 else 0.8), 1) if True else None
        if not np.isfinite(e).all():
            continue
        q = int(rng.randint(1, 4))
        seqs = [[int(v) for v in rng.randint(0, m, rng.randint(4, 14))] for _ in range(q)]
        r = rng.randint(0, 3)
        yield {'p': p.tolist(), 'e': e.tolist(), 'seqs': seqs, 'init': None if r == 0 else (int(rng.randint(n)) if r == 1 else dist(rng, n)),
               'kind': ['baum-welch', 'baum-welch', 'viterbi', 'mle', 'map'][rng.randint(5)]}


@contract('C17', 'fit', g17f)
def c17f(c):
    from pydtmc import HiddenMarkovModel
    p, e = np.array(c['p']), np.array(c['e'])
    n, m = e.shape
    S, Y = ['s%d' % (n - i) for i in range(n)], ['y%d' % i for i in range(m)]
    seqs = c['seqs']
    d = c['init']
    st = np.array(d) if isinstance(d, list) else d
    try:
        h = HiddenMarkovModel.fit(c['kind'], list(S), list(Y), p.copy(), e.copy(), [list(q) for q in seqs] if len(seqs) > 1 else list(seqs[0]), st)
    except ValueError as ex:
        need('onverge' in str(ex) or 'null' in str(ex), 'fit raised', ex)
        return
    need(h.states == S and h.symbols == Y, 'fit labels', h.states, h.symbols)
    for w in (h.p, h.e):
        need((w >= 0).all() and np.allclose(w.sum(axis=1), 1, atol=1e-9), 'fit is not stochastic', w)
    if c['kind'] == 'baum-welch':
        d0 = np.full(n, 1.0 / n) if d is None else (np.eye(n)[d] if isinstance(d, int) else np.array(d))
        a = b = 0.0
        for q in seqs:
            l0 = np.logaddexp.reduce(logtables(p, e, d0, q)[0][:, -1])
            if l0 == -np.inf:
                continue
            a += l0
            b += np.logaddexp.reduce(logtables(h.p, h.e, d0, q)[0][:, -1])
        need(b >= a - 1e-6 * (1 + abs(a)), f'baum-welch lowered the log-likelihood from {a} to {b}')
