"""C07 classification, C08 periodicity, C09 stationary distributions, C23 structural flags"""
from .core import *


def idx(names_, lists):
    return [[names_.index(s) for s in l] for l in lists]


@contract('C07', 'classification equals reachability', chains(leaks=0.2))
def c07(c):
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    nm = names(c)
    cls, rec, r = classes(p)
    tra = [k for k in cls if k not in rec]
    # order of access must not matter
    which = int(p[0, 0] * 1000) % 3
    if which == 1:
        mc.is_canonical, mc.recurrent_states, mc.is_regular
    if which == 2:
        mc.transient_classes, mc.is_absorbing
    need(np.array_equal(np.asarray(mc.accessibility_matrix), r.astype(int)), 'accessibility_matrix', mc.accessibility_matrix, r.astype(int))
    comm = (r & r.T).astype(int)
    need(np.array_equal(np.asarray(mc.communication_matrix), comm), 'communication_matrix', mc.communication_matrix, comm)
    same(idx(nm, mc.communicating_classes), cls, 'communicating_classes')
    same(idx(nm, mc.recurrent_classes), rec, 'recurrent_classes')
    same(idx(nm, mc.transient_classes), tra, 'transient_classes')
    rs, ts = sorted(sum(rec, [])), sorted(sum(tra, []))
    same(idx(nm, [mc.recurrent_states])[0], rs, 'recurrent_states')
    same(idx(nm, [mc.transient_states])[0], ts, 'transient_states')
    ab = [i for i in range(n) if not any(p[i, j] > 0 for j in range(n) if j != i)]
    same(idx(nm, [mc.absorbing_states])[0], ab, 'absorbing_states')
    same(bool(mc.is_irreducible), len(cls) == 1, 'is_irreducible')
    same(bool(mc.is_absorbing), bool(ab) and all(any(r[i, a] for a in ab) for i in range(n)), 'is_absorbing')
    same(bool(mc.is_canonical), not rs or not ts or max(ts) < min(rs), 'is_canonical')
    # primitivity
    m = (p > 0)
    q = m.copy()
    for _ in range(int(np.ceil(np.log2(n * n + 2))) + 1):
        q = (q.astype(int) @ q.astype(int)) > 0
    same(bool(mc.is_regular), bool(q.all()), 'is_regular')
    rng = np.random.RandomState(n)
    for _ in range(6):
        i, j = int(rng.randint(n)), int(rng.randint(n))
        same(bool(mc.is_accessible(nm[i], j)), bool(r[j, i]), f'is_accessible(target {i}, origin {j})')
        same(bool(mc.are_communicating(i, nm[j])), bool(comm[i, j]), f'are_communicating({i},{j})')
        same(bool(mc.is_recurrent_state(i)), i in rs, f'is_recurrent_state({i})')
        same(bool(mc.is_transient_state(nm[i])), i in ts, f'is_transient_state({i})')
        same(bool(mc.is_absorbing_state(nm[i])), i in ab, f'is_absorbing_state({i})')


def irreducible(rng, tier):
    for k in range(count(tier)):
        n = sizes(rng, tier)
        d = chain(rng, tier, ['cycle', 'path', 'birth', 'dense', 'sparse'], n=n)
        if rng.rand() < 0.15:
            leak(rng, d)
        p = np.array(d['p'])
        if not reach(p).all():
            continue
        yield d


@contract('C08', 'irreducible chains: period, aperiodicity, cyclic classes', irreducible)
def c08(c):
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    g = class_period(p, list(range(n)))
    nm = names(c)
    if n % 2:
        mc.cyclic_classes
    same(int(mc.period), g, 'period')
    same(bool(mc.is_aperiodic), g == 1, 'is_aperiodic')
    same(bool(mc.is_ergodic), g == 1, 'is_ergodic')
    same([int(x) for x in mc.periods], [g], 'periods')
    cc = idx(nm, mc.cyclic_classes)
    same(len(cc), g, 'number of cyclic classes')
    same(sorted(sum(cc, [])), list(range(n)), 'cyclic classes cover the states')
    w = {s: k for k, cl in enumerate(cc) for s in cl}
    succ = {}
    for i in range(n):
        for j in range(n):
            if p[i, j] > 0:
                k = succ.setdefault(w[i], w[j])
                need(k == w[j], 'a cyclic class leads to two classes', cc, (i, j))
    need(len(set(succ.values())) == g, 'cyclic successor map is not a cycle', succ)
    x, k = 0, 0
    while k < g:
        x = succ[x]
        k += 1
        if x == 0:
            break
    need(x == 0 and k == g, 'cyclic successor map is not one cycle', succ)
    same(sorted(idx(nm, [mc.cyclic_states])[0]), sorted(sum(cc, [])), 'cyclic_states')
    for i in range(min(n, 4)):
        same(bool(mc.is_cyclic_state(i)), i in sum(cc, []), 'is_cyclic_state')


@contract('C08', 'periods of the recurrent classes', chains(leaks=0.2))
def c08b(c):
    mc = MC(c)
    p = np.array(c['p'])
    cls, rec, r = classes(p)
    nm = names(c)
    pers = [int(x) for x in mc.periods]
    same(len(pers), len(cls), 'number of periods')
    exp = {}
    for k, cl in enumerate(cls):
        if cl in rec:
            exp[k] = class_period(p, cl)
            same(pers[k], exp[k], f'period of class {[nm[i] for i in cl]}')
    if len(cls) > 1:
        same(bool(mc.is_ergodic), False, 'is_ergodic of a reducible chain')
        l = 1
        for v in exp.values():
            l = l * v // math.gcd(l, v)
        ap = bool(mc.is_aperiodic)
        if l == 1:
            need(ap and mc.period == 1, 'all recurrent classes are aperiodic but is_aperiodic/period say otherwise', ap, mc.period)
        elif ap or mc.period != l:
            # signature of the recorded finding: the gcd over the whole graph was used
            import networkx as nx
            gg = mc.to_graph()
            if ap and mc.period == 1 and bool(nx.is_aperiodic(gg)):
                raise Known('KF-C08-1', f'is_aperiodic is True for a reducible chain whose recurrent class periods are {sorted(exp.values())}')
            raise Bad(f'period of a reducible chain: {mc.period}, is_aperiodic {ap}, class periods {exp}')


@contract('C09', 'stationary distributions', chains(leaks=0.2))
def c09(c):
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    cls, rec, r = classes(p)
    pi = mc.pi
    need(len(pi) == len(rec), 'number of stationary distributions', len(pi), len(rec))
    for x, cl in zip(pi, rec):
        x = np.asarray(x)
        need(x.shape == (n,), 'shape', x.shape)
        need(np.isfinite(x).all() and (x >= 0).all(), 'non-negative', x)
        need(abs(x.sum() - 1) < 1e-9, 'sum', x.sum())
        out = [i for i in range(n) if i not in cl]
        need((x[out] == 0).all(), 'mass outside the class', x, cl)
        need((x[cl] > 0).all(), 'null mass inside the class', x, cl)
        near(x @ p, x, 'pi P = pi', rtol=1e-8, atol=1e-12)
        ref = np.zeros(n)
        ref[cl] = stationary(p, cl)
        near(x, ref, 'stationary law', rtol=1e-6, atol=1e-12)
    for al in ('stationary_distributions', 'steady_states'):
        need(all(np.array_equal(a, b) for a, b in zip(getattr(mc, al), pi)) and len(getattr(mc, al)) == len(pi), 'alias ' + al)


def stiff(rng, tier):
    for k in range(count(tier) // 8):
        n = int(rng.randint(2, 9))
        m = pattern(rng, n, ['dense', 'birth', 'path', 'sparse'][rng.randint(4)])
        p = norm_rows(np.where(m, 10.0**rng.uniform(-9, 0, m.shape), 0.0))
        yield {'p': p.tolist(), 'states': None}


@contract('C09', 'stationary distributions of stiff chains (componentwise)', stiff, 0.5)
def c09b(c):
    mc = MC(c)
    p = np.array(c['p'])
    cls, rec, r = classes(p)
    for x, cl in zip(mc.pi, rec):
        ref = stationary(p, cl)
        need(np.allclose(x[cl], ref, rtol=1e-6, atol=1e-300), 'componentwise accuracy', x[cl], ref)


def sym(rng, d):
    r = rng.randint(0, 5)
    p = np.array(d['p'])
    n = len(p)
    if r == 0:
        # symmetric doubly stochastic
        q = rng.permutation(n)
        k = np.zeros((n, n))
        k[np.arange(n), q] = 1
        s = (k + k.T) / 2
        d['p'] = ((s + np.eye(n)) / 2).tolist()
    elif r == 1:
        w = rng.randint(0, 5, (n, n)).astype(float)
        w = w + w.T + np.eye(n)
        d['p'] = norm_rows(w).tolist()
    elif r == 2:
        k = np.zeros((n, n))
        for t in range(3):
            k[np.arange(n), rng.permutation(n)] += [0.5, 0.25, 0.25][t]
        d['p'] = k.tolist()
    elif r == 3:
        # monotone
        x = np.sort(np.clip(rng.rand(n, n - 1).cumsum(axis=0) / n, 0, 1), axis=0)
        s = -np.sort(-np.sort(x, axis=0), axis=1)
        t = np.hstack((np.ones((n, 1)), s, np.zeros((n, 1))))
        d['p'] = np.abs(t[:, :-1] - t[:, 1:]).tolist()
        d['p'] = norm_rows(np.array(d['p'])).tolist()


def perturb(rng, d):
    sym(rng, d)
    p = np.array(d['p'])
    n = len(p)
    if rng.rand() < 0.35:
        # move some mass inside one row: breaks a property at a single place
        i = rng.randint(n)
        js = np.flatnonzero(p[i] > 0.05)
        if len(js):
            j, k = rng.choice(js), rng.randint(n)
            if j != k:
                e = min(p[i, j], [0.01, 0.05, p[i, j]][rng.randint(3)])
                p[i, j] -= e
                p[i, k] = min(1.0, p[i, k] + e)
                d['p'] = p.tolist()


def away(x, t):
    return abs(x - t) > 1e-4 * max(1.0, abs(t)) or abs(x - t) < 1e-10


@contract('C23', 'flags and descriptors', chains(extra=perturb))
def c23(c):
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    cls, rec, r = classes(p)
    d = np.abs(p - p.T).max()
    if away(d, 0):
        same(bool(mc.is_symmetric), d < 1e-9, 'is_symmetric')
    d = np.abs(p.sum(axis=0) - 1).max()
    if away(d, 0):
        same(bool(mc.is_doubly_stochastic), d < 1e-9, 'is_doubly_stochastic')
    if len(rec) > 1:
        same(bool(mc.is_reversible), False, 'is_reversible')
    else:
        pi = np.zeros(n)
        pi[rec[0]] = stationary(p, rec[0])
        x = pi[:, None] * p
        d = np.abs(x - x.T)
        lim = 1e-8 + 1e-5 * np.abs(x.T)
        if ((d > 3 * lim).any() or (d < lim / 3).all()):
            same(bool(mc.is_reversible), bool((d < lim).all()), 'is_reversible')
        # entropy rate
        h = -sum(pi[i] * p[i, j] * np.log(p[i, j]) for i in range(n) for j in range(n) if p[i, j] > 0)
        near(mc.entropy_rate, h, 'entropy_rate', atol=1e-7)
    if len(rec) > 1:
        need(mc.entropy_rate is None, 'entropy_rate with several stationary distributions')
        need(mc.entropy_rate_normalized is None, 'entropy_rate_normalized with several stationary distributions')
    t = np.cumsum(p[:, ::-1], axis=1)[:, ::-1]
    dm = (t[1:, 1:] - t[:-1, 1:])
    if dm.size and (dm.min() >= 0 or dm.min() < -1e-9) and (np.abs(dm[dm < 0]) > 1e-9).all():
        if not (dm < 0).any() and (dm.min() < 1e-13):
            pass   # ties are decided by rounding of the partial sums
        else:
            same(bool(mc.is_stochastically_monotone), bool(dm.min() >= 0), 'is_stochastically_monotone')
            same(bool(mc.is_monotone), bool(dm.min() >= 0), 'is_monotone')
    a = (p > 0).astype(int)
    need(np.array_equal(mc.adjacency_matrix, a), 'adjacency_matrix', mc.adjacency_matrix)
    off = a.sum() - np.trace(a)
    near(mc.density, off / (n * (n - 1.0)), 'density')
    im = np.asarray(mc.incidence_matrix)
    need(im.shape == (n, n * n), 'incidence shape', im.shape)
    for i in range(n):
        for j in range(n):
            col = im[:, i * n + j]
            e = np.zeros(n, dtype=int)
            if i != j:
                e[i] = e[j] = 1
            if not np.array_equal(col, e):
                raise Bad(f'incidence_matrix column of the pair ({i},{j}): {col.tolist()}')
    if n <= 10:
        near(mc.determinant, np.linalg.det(p), 'determinant', atol=1e-12)
        sv = np.linalg.svd(p, compute_uv=False)
        if not ((sv < 1e-9) & (sv > 1e-14)).any():
            same(int(mc.rank), int((sv > 1e-10).sum()), 'rank')
        rho = max(abs(np.linalg.eigvals(a)))
        near(mc.topological_entropy, np.log(rho), 'topological_entropy', atol=1e-3)
        if len(rec) == 1:
            te = mc.topological_entropy
            hn = mc.entropy_rate_normalized
            if mc.entropy_rate > 1e-6 and te > 1e-6:
                near(hn, min(1.0, max(0.0, mc.entropy_rate / te)), 'entropy_rate_normalized', atol=1e-7)
            elif mc.entropy_rate < 1e-9:
                near(hn, 0.0, 'entropy_rate_normalized', atol=1e-7)


def lumpable(rng, tier):
    for k in range(count(tier)):
        n = int(rng.randint(2, 7))
        m = rng.rand(n, n) < 0.8
        for i in range(n):
            m[i, rng.randint(n)] = True
        p = dyadic_rows(rng, m, 3)
        # make some contiguous partition lumpable
        cut = sorted(set(rng.randint(1, n, rng.randint(1, n)).tolist()))
        part = np.split(np.arange(n), cut)
        if rng.rand() < 0.8:
            g = len(part)
            q = dyadic_rows(rng, rng.rand(g, g) < 0.95, 3) if False else dyadic_rows(rng, np.ones((g, g), dtype=bool), 3)
            for a, A in enumerate(part):
                for i in A:
                    for b, B in enumerate(part):
                        w = dyadic_rows(rng, np.ones((1, len(B)), dtype=bool), 3)[0]
                        p[i, B] = q[a, b] * w
        if rng.rand() < 0.2:
            i = rng.randint(n)
            p[i] = p[i][rng.permutation(n)]
        yield {'p': p.tolist(), 'states': None}


@contract('C23', 'lumping_partitions', lumpable, 0.5)
def c23l(c):
    from fractions import Fraction
    mc = MC(c)
    n = len(c['p'])
    p = [[Fraction(x) for x in r] for r in c['p']]
    got = [[list(map(int, b)) for b in q] for q in mc.lumping_partitions]
    exp = []
    for bits in range(2**(n - 1)):
        part, cur = [], []
        for i in range(n):
            cur.append(i)
            if i == n - 1 or (bits >> i) & 1:
                part.append(cur)
                cur = []
        if 2 <= len(part) < n and all(len({sum(p[i][j] for j in B) for i in A}) == 1 for A in part for B in part):
            # averaging over blocks of size 3, 5, 6 is not exact in floating point
            exp.append((part, all(len(A) in (1, 2, 4) for A in part)))
    for part, sure in exp:
        if sure:
            need(part in got, 'a lumpable contiguous partition is missing', part, got)
    for g in got:
        need(any(g == part for part, _ in exp), 'a listed partition is not lumpable', g)
    need(len({json.dumps(g) for g in got}) == len(got), 'a partition is listed twice', got)
