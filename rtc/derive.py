"""C04 derived chains, C05 conversions, C06 files"""
from .core import *
import itertools, tempfile, shutil, csv as _csv
import networkx as nx


def VE():
    from pydtmc import ValidationError
    return ValidationError


# ------------------------------------------------------------------ C04
def g04(rng, tier):
    for k in range(count(tier)):
        d = chain(rng, tier, big=False)
        n = len(d['p'])
        d['seed'] = int(rng.randint(10**6))
        yield d


def unchanged(mc, p, nm, what):
    need(np.array_equal(mc.p, p) and mc.states == nm, what + ' altered the chain')


@contract('C04', 'lazy, merged, powered and bounded chains', g04)
def c04(c):
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    nm = names(c)
    rng = np.random.RandomState(c['seed'])
    w = float([0.5, 0.25, rng.rand() * 0.98 + 0.01][rng.randint(3)])
    m = mc.to_lazy_chain(w)
    near(m.p, w * np.eye(n) + (1 - w) * p, 'to_lazy_chain scalar', atol=1e-14)
    same(m.states, nm, 'lazy states')
    m = mc.to_lazy_chain()
    near(m.p, 0.5 * np.eye(n) + 0.5 * p, 'to_lazy_chain default', atol=1e-14)
    v = [rng.rand(n), np.append(rng.rand(n - 1), 1.0), np.append(0.0, rng.rand(n - 1)), rng.randint(0, 2, n).astype(float), rng.randint(0, 5, n) / 4.0][rng.randint(5)]
    m = mc.to_lazy_chain(v)
    near(m.p, np.diag(v) + (1 - v)[:, None] * p, 'to_lazy_chain vector', atol=1e-14)
    q = fill(rng, pattern(rng, n, KINDS[rng.randint(len(KINDS))]))
    from pydtmc import MarkovChain
    other = MarkovChain(q, ['o%d' % i for i in range(n)])
    g = float([0.5, 0.125, rng.rand() * 0.98 + 0.01][rng.randint(3)])
    m = mc.merge_with(other, g)
    near(m.p, (1 - g) * p + g * q, 'merge_with', atol=1e-14)
    same(m.states, ['M%d' % (i + 1) for i in range(n)], 'merge states')
    unchanged(other, q, ['o%d' % i for i in range(n)], 'merge_with (other)')
    k = int(rng.randint(2, 9))
    m = mc.to_nth_order(k)
    e = np.eye(n)
    for _ in range(k):
        e = e @ p
    near(m.p, e, f'to_nth_order({k})', atol=1e-12)
    same(m.states, nm, 'nth order states')
    b = ['absorbing', 'reflecting', 0.0, 1.0, 0.25, float(rng.rand())][rng.randint(6)]
    m = mc.to_bounded_chain(b)
    e = p.copy()
    e[0] = e[-1] = 0
    if b == 'absorbing':
        e[0, 0] = e[-1, -1] = 1
    elif b == 'reflecting':
        e[0, 1] = e[-1, -2] = 1
    else:
        e[0, 0], e[0, 1], e[-1, -1], e[-1, -2] = 1 - b, b, b, 1 - b
    need(np.array_equal(m.p, e), f'to_bounded_chain({b})', m.p, e)
    same(m.states, nm, 'bounded states')
    unchanged(mc, p, nm, 'lazy/merge/order/bounded')
    if n == 2:
        pass
    raises(lambda: mc.merge_with(MarkovChain(np.eye(n + 1)), 0.5), VE(), 'merge_with another size')
    raises(lambda: mc.to_lazy_chain(1.5), VE(), 'inertial weight above 1')
    raises(lambda: mc.to_bounded_chain(['x', 1.5, -0.1][rng.randint(3)]), VE(), 'boundary condition')


def gcan(rng, tier):
    for k in range(count(tier)):
        d = chain(rng, tier, ['blocks', 'absorbing', 'mid', 'sparse', 'transient_periodic', 'path', 'dense'], big=rng.rand() < 0.1)
        if rng.rand() < 0.1:
            leak(rng, d)
        d['seed'] = int(rng.randint(10**6))
        yield d


@contract('C04', 'canonical form and subchains', gcan)
def c04b(c):
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    nm = names(c)
    cls, rec, r = classes(p)
    rec = sorted(sum(rec, []))
    tra = [i for i in range(n) if i not in rec]
    m = mc.to_canonical_form()
    if not tra:
        order = list(range(n))
    else:
        order = [nm.index(s) for s in m.states]
    same(sorted(order), list(range(n)), 'canonical labels are a permutation')
    same([nm[i] for i in order], m.states, 'canonical labels')
    if tra:
        need(set(order[:len(tra)]) == set(tra), 'transient states do not come first', order, tra)
    need(np.array_equal(m.p, p[np.ix_(order, order)]), 'canonical matrix does not follow the labels', m.p, p, order)
    need(bool(m.is_canonical), 'the canonical form is not canonical')
    if not tra or max(tra) < min(rec):
        need(m == mc, 'the canonical form of a canonical chain differs')
    rng = np.random.RandomState(c['seed'])
    S = rng.permutation(n)[:int(rng.randint(1, n))].tolist()
    clo = sorted(j for j in range(n) if any(r[s, j] for s in S))
    given = S if rng.rand() < 0.5 else [nm[s] for s in S]
    keep = list(given)
    if len(clo) == 1:
        raises(lambda: mc.to_subchain(given), ValueError, 'subchain of a single absorbing state')
        return
    m = mc.to_subchain(given)
    same(given, keep, 'argument of to_subchain')
    same(m.states, [nm[i] for i in clo], 'subchain states')
    near(m.p, p[np.ix_(clo, clo)], 'subchain matrix', atol=1e-12)
    unchanged(mc, p, nm, 'to_subchain/to_canonical_form')


def glump(rng, tier):
    from .structure import lumpable
    for d in lumpable(rng, tier):
        n = len(d['p'])
        if n < 3:
            continue
        d['seed'] = int(rng.randint(10**6))
        d['states'] = labels(rng, n, int(rng.randint(0, 7)))
        yield d


@contract('C04', 'lumping', glump, 0.5)
def c04l(c):
    from fractions import Fraction
    mc = MC(c)
    p = np.array(c['p'])
    n = len(p)
    nm = names(c)
    P = [[Fraction(x) for x in r] for r in c['p']]
    for bits in range(1, 2**(n - 1) - 1):
        part, cur = [], []
        for i in range(n):
            cur.append(i)
            if i == n - 1 or (bits >> i) & 1:
                part.append(cur)
                cur = []
        if not 2 <= len(part) < n:
            continue
        rows = [[[sum(P[i][j] for j in B) for i in A] for B in part] for A in part]
        ok = all(len(set(x)) == 1 for row in rows for x in row)
        gap = max([float(max(x) - min(x)) for row in rows for x in row])
        if not ok:
            if gap > 1e-9:
                raises(lambda: mc.lump([list(b) for b in part]), ValueError, f'lump of a non lumpable partition {part}')
            continue
        r = None
        try:
            r = mc.lump([list(b) for b in part])
        except ValueError as ex:
            if all(len(A) in (1, 2, 4) for A in part):
                raise Bad(f'a lumpable partition is refused: {part}: {ex}')
            continue
        near(r.p, [[float(x[0]) for x in row] for row in rows], f'lump {part}', atol=1e-13)
        same(r.states, [','.join(nm[i] for i in b) for b in part], 'lump labels')
    unchanged(mc, p, nm, 'lump')


# ------------------------------------------------------------------ C05
def g05(rng, tier):
    for k in range(count(tier)):
        if rng.rand() < 0.5:
            d = chain(rng, tier, big=False)
            if rng.rand() < 0.2:
                leak(rng, d)
            d['hmm'] = False
        else:
            d = hmm_case(rng, tier)
            d['hmm'] = True
        d['seed'] = int(rng.randint(10**6))
        yield d


@contract('C05', 'conversions', g05)
def c05(c):
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    p = np.array(c['p'])
    n = len(p)
    rng = np.random.RandomState(c['seed'])
    if not c['hmm']:
        mc, nm = MC(c), names(c)
        d = mc.to_dictionary()
        need(d == {(nm[i], nm[j]): p[i, j] for i in range(n) for j in range(n)}, 'to_dictionary', d)
        m = M.from_dictionary(d)
        need(m.states == nm and np.array_equal(m.p, p), 'dictionary round trip', m.states, m.p)
        if c['seed'] % 3 == 0:
            # the order of the diagonal keys decides the order of the states
            it = list(d.items())
            it = [it[k] for k in rng.permutation(len(it))]
            m = M.from_dictionary(dict(it))
            nm2 = [a for (a, b), v in it if a == b]
            need(m.states == nm2 and all(m.p[nm2.index(a), nm2.index(b)] == v for (a, b), v in it), 'from_dictionary of a reordered dictionary', m.states)
        g = mc.to_graph()
        need(list(g.nodes) == nm, 'graph nodes', list(g.nodes))
        need({(a, b): w for a, b, w in g.edges(data='weight')} == {k: v for k, v in d.items() if v > 0}, 'graph edges')
        m = M.from_graph(g)
        need(m.states == nm, 'graph round trip states', m.states)
        near(m.p, p, 'graph round trip', rtol=1e-14, atol=1e-15)
        g2 = nx.MultiDiGraph(g)
        m = M.from_graph(g2)
        need(m.states == nm, 'multigraph states', m.states)
        near(m.p, p, 'multigraph', rtol=1e-14, atol=1e-15)
        need(np.array_equal(mc.to_matrix(), p), 'to_matrix')
        m = M.from_matrix(mc.to_matrix(), list(nm))
        need(m.states == nm, 'matrix round trip states')
        near(m.p, p, 'matrix round trip', rtol=1e-14, atol=1e-15)
        for _ in range(5):
            i, j = int(rng.randint(n)), int(rng.randint(n))
            need(mc.transition_probability(j, i) == p[i, j], f'transition_probability(target {j}, origin {i})', mc.transition_probability(j, i), p[i, j])
            need(np.array_equal(mc.conditional_probabilities(nm[i]), p[i]), 'conditional_probabilities')
    else:
        hm = HMM(c)
        st, sy = hnames(c)
        e = np.array(c['e'])
        k = e.shape[1]
        d = hm.to_dictionary()
        x = {('P', st[i], st[j]): p[i, j] for i in range(n) for j in range(n)}
        x.update({('E', st[i], sy[j]): e[i, j] for i in range(n) for j in range(k)})
        need(d == x, 'to_dictionary', d)
        m = H.from_dictionary(d)
        need(m.states == st and m.symbols == sy and np.array_equal(m.p, p) and np.array_equal(m.e, e), 'dictionary round trip', m.states, m.symbols)
        g = hm.to_graph()
        need([v for v, l in g.nodes(data='layer') if l == 1] == st and [v for v, l in g.nodes(data='layer') if l == 0] == sy, 'graph nodes', list(g.nodes(data=True)))
        need({(t, a, b): g[a][b]['weight'] for a, b, t in g.edges(data='type')} == {q: v for q, v in d.items() if v > 0}, 'graph edges')
        m = H.from_graph(g)
        need(m.states == st and m.symbols == sy, 'graph round trip labels', m.states, m.symbols)
        near(m.p, p, 'graph round trip', rtol=1e-14, atol=1e-15)
        near(m.e, e, 'graph round trip emissions', rtol=1e-14, atol=1e-15)
        a, b = hm.to_matrices()
        need(np.array_equal(a, p) and np.array_equal(b, e), 'to_matrices')
        m = H.from_matrices(a, b, list(st), list(sy))
        need(m.states == st and m.symbols == sy, 'matrices round trip labels')
        near(m.p, p, 'matrices round trip', rtol=1e-14, atol=1e-15)
        near(m.e, e, 'matrices round trip emissions', rtol=1e-14, atol=1e-15)
        for _ in range(5):
            i, j, s = int(rng.randint(n)), int(rng.randint(n)), int(rng.randint(k))
            need(hm.transition_probability(j, i) == p[i, j], f'transition_probability(target {j}, origin {i})')
            need(hm.emission_probability(s, i) == e[i, s], f'emission_probability(symbol {s}, state {i})')


def g05m(rng, tier):
    for k in range(count(tier)):
        n = int(rng.randint(2, 7))
        kk = int(rng.randint(2, 7))
        f = lambda r, q: ((rng.rand(r, q) * 10.0**rng.uniform(-2, 3)) * (rng.rand(r, q) < 0.6) if rng.rand() < 0.5 else rng.randint(0, 4, (r, q)).astype(float))
        w, e = f(n, n), f(n, kk)
        if rng.rand() < 0.4:
            w[rng.randint(n)] = 0
            e[rng.randint(n)] = 0
        yield {'w': w.tolist(), 'e': e.tolist(), 'form': ['array', 'list', 'sparse', 'frame', 'int'][rng.randint(5)]}


@contract('C05', 'rows are normalised and null rows become uniform', g05m)
def c05m(c):
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    from .construct import as_form
    w, e = np.array(c['w']), np.array(c['e'])
    n, k = e.shape
    nz = lambda a: np.array([r / r.sum() if r.sum() > 0 else np.full(len(r), 1.0 / len(r)) for r in a])
    if min([x for x in np.concatenate((w.sum(1), e.sum(1))) if x > 0], default=1) < 1e-6:
        return
    if c['form'] == 'int':
        w, e = np.floor(w).astype(int), np.floor(e).astype(int)
        m = M.from_matrix(w)
    else:
        m = M.from_matrix(as_form(w, c['form']))
    near(m.p, nz(w), 'from_matrix', rtol=1e-13, atol=1e-15)
    same(m.states, [str(i + 1) for i in range(n)], 'from_matrix states')
    h = H.from_matrices(w, e)
    near(h.p, nz(w), 'from_matrices p', rtol=1e-13, atol=1e-15)
    near(h.e, nz(e), 'from_matrices e', rtol=1e-13, atol=1e-15)
    same((h.states, h.symbols), (['P%d' % (i + 1) for i in range(n)], ['E%d' % (i + 1) for i in range(k)]), 'from_matrices labels')
    g = nx.DiGraph()
    nm = ['n%d' % (n - i) for i in range(n)]
    g.add_nodes_from(nm)
    for i in range(n):
        for j in range(n):
            if w[i, j] > 0:
                g.add_edge(nm[i], nm[j], weight=float(w[i, j]))
    m = M.from_graph(g)
    near(m.p, nz(w), 'from_graph', rtol=1e-13, atol=1e-15)
    same(m.states, nm, 'from_graph states')
    g = nx.DiGraph()
    sy = ['y%d' % (i * 7 % 11) for i in range(k)]
    order = [(s, 1) for s in nm] + [(s, 0) for s in sy]
    order = order if c['form'] == 'list' else order[::2] + order[1::2]
    for s, l in order:
        g.add_node(s, layer=l)
    for i in range(n):
        for j in range(n):
            if w[i, j] > 0:
                g.add_edge(nm[i], nm[j], type='P', weight=float(w[i, j]))
        for j in range(k):
            if e[i, j] > 0:
                g.add_edge(nm[i], sy[j], type='E', weight=float(e[i, j]))
    h = H.from_graph(g)
    for i, a in enumerate(h.states):
        for j, b in enumerate(h.states):
            need(abs(h.p[i, j] - nz(w)[nm.index(a), nm.index(b)]) < 1e-12, 'hmm from_graph transitions', a, b)
        for j, b in enumerate(h.symbols):
            need(abs(h.e[i, j] - nz(e)[nm.index(a), sy.index(b)]) < 1e-12, 'hmm from_graph emissions', a, b)
    same(sorted(h.states), sorted(nm), 'hmm from_graph states')
    same(sorted(h.symbols), sorted(sy), 'hmm from_graph symbols')


def g05r(rng, tier):
    for k in range(count(tier) // 4):
        d = chain(rng, tier, big=False, n=int(rng.randint(2, 6)), style=3)
        d['seed'] = int(rng.randint(10**6))
        yield d


@contract('C05', 'malformed dictionaries and graphs are rejected', g05r, 0.4)
def c05r(c):
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    rng = np.random.RandomState(c['seed'])
    mc = MC(c)
    nm = names(c)
    d = mc.to_dictionary()
    ks = list(d)
    k0 = ks[rng.randint(len(ks))]
    for how in range(6):
        b = dict(d)
        if how == 0:
            del b[k0]
        elif how == 1:
            b[k0] = -0.25
        elif how == 2:
            b[k0] = float('nan')
        elif how == 3:
            b[k0] = 'x'
        elif how == 4:
            b[k0] = b[k0] + 0.25 if b[k0] < 0.5 else b[k0] - 0.25
        else:
            b[(k0[0], 'other')] = 0.0
        raises(lambda: M.from_dictionary(b), (VE(), ValueError), f'dictionary defect {how}')
    for b in [None, {}, [], {'a': 1.0}, {('a', 'b', 'c'): 1.0}, {('a', 'a'): 1.0}]:
        raises(lambda: M.from_dictionary(b), (VE(), ValueError), f'dictionary {b!r}')
        raises(lambda: H.from_dictionary(b), (VE(), ValueError), f'dictionary {b!r}')
    raises(lambda: M.from_graph(nx.Graph(mc.to_graph())), VE(), 'undirected graph')
    raises(lambda: M.from_matrix(-np.array(c['p'])), VE(), 'negative matrix')
    raises(lambda: M.from_matrix(np.ones((2, 3))), VE(), 'non square matrix')
    raises(lambda: M.from_matrix([[np.nan, 1.0], [1.0, 0.0]]), VE(), 'nan matrix')
    raises(lambda: M.from_matrix(np.array(c['p']), nm[:-1]), VE(), 'wrong number of labels')
    g = mc.to_graph()
    a, b = list(g.edges)[0]
    g[a][b]['weight'] = -1.0
    raises(lambda: M.from_graph(g), VE(), 'negative weight')


# ------------------------------------------------------------------ C06
TMP = None


def scratch():
    global TMP
    if TMP is None:
        TMP = tempfile.mkdtemp(prefix='rtc_files_')
        import atexit
        atexit.register(shutil.rmtree, TMP, ignore_errors=True)
    return TMP


def flabels(rng, n, ext, hm, pre):
    st = rng.randint(0, 6)
    if ext == '.txt':
        return [pre + ['%d', 'a%d', 's,%d', '"%d"', "<&%d>", 'é%d'][st] % (n - i) for i in range(n)]
    if ext == '.xml' or (ext == '.csv' and hm):
        return [pre + ['%d', 'a b %d', 's,%d', '"q" %d', "<&%d> x", 'é%d;'][st] % (n - i) for i in range(n)]
    return [pre + ['%d', ' a b%d ', 's,%d', '"%d" \'x\'', "<&%d>;", 'é\t%d'][st] % (n - i) for i in range(n)]


def g06(rng, tier):
    for k in range(count(tier)):
        ext = ['.csv', '.json', '.txt', '.xml'][k % 4]
        hm = bool(rng.randint(2))
        if hm:
            d = hmm_case(rng, tier)
            d['states'] = flabels(rng, len(d['p']), ext, True, '')
            d['symbols'] = flabels(rng, len(d['e'][0]), ext, True, '#')
        else:
            d = chain(rng, tier, big=False)
            d['states'] = flabels(rng, len(d['p']), ext, False, '')
        d['hmm'], d['ext'] = hm, ext
        d['seed'] = int(rng.randint(10**6))
        yield d


@contract('C06', 'file round trip', g06)
def c06(c):
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    import pathlib
    m = HMM(c) if c['hmm'] else MC(c)
    path = os.path.join(scratch(), 'm' + c['ext'])
    m.to_file(path if c['seed'] % 2 else pathlib.Path(path))
    r = (H if c['hmm'] else M).from_file(pathlib.Path(path) if c['seed'] % 3 else path)
    same(r.states, c['states'], 'states')
    need(np.array_equal(r.p, np.array(c['p'])), 'probabilities', r.p, c['p'])
    if c['hmm']:
        same(r.symbols, c['symbols'], 'symbols')
        need(np.array_equal(r.e, np.array(c['e'])), 'emissions', r.e, c['e'])
    need(r == m, 'the model read back differs')
    # writing twice gives the same file content
    a = open(path, 'rb').read()
    m.to_file(path)
    need(open(path, 'rb').read() == a, 'second writing differs')


def g06r(rng, tier):
    for k in range(count(tier) // 2):
        ext = ['.csv', '.json', '.txt', '.xml'][k % 4]
        yield {'ext': ext, 'hmm': bool(rng.randint(2)), 'n': int(rng.randint(2, 5)), 'k': int(rng.randint(2, 5)), 'how': int(rng.randint(0, 12)), 'seed': int(rng.randint(10**6))}


@contract('C06', 'malformed files are rejected', g06r)
def c06r(c):
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    rng = np.random.RandomState(c['seed'])
    n, k = c['n'], c['k']
    p = dyadic_rows(rng, np.ones((n, n), dtype=bool))
    e = dyadic_rows(rng, np.ones((n, k), dtype=bool))
    st, sy = ['a%d' % i for i in range(n)], ['b%d' % i for i in range(k)]
    m = H(p, e, st, sy) if c['hmm'] else M(p, st)
    path = os.path.join(scratch(), 'x' + c['ext'])
    m.to_file(path)
    txt = open(path).read()
    vals = [repr(float(x)) for x in (list(p.ravel()) + (list(e.ravel()) if c['hmm'] else []))]
    v = vals[rng.randint(len(vals))]
    how = c['how']
    if v not in txt:
        return
    pos = [i for i in range(len(txt)) if txt.startswith(v, i) and not (txt[i - 1].isdigit() or txt[i - 1] == '.') and not txt[i + len(v):i + len(v) + 1].isdigit()]
    if not pos:
        return
    i = pos[rng.randint(len(pos))]
    sub = lambda s: txt[:i] + s + txt[i + len(v):]
    if how == 0:
        t = sub('-' + v)
    elif how == 1:
        t = sub('1.5')
    elif how == 2:
        t = sub('abc')
    elif how == 3:
        t = sub('nan')
    elif how == 4:
        t = sub(repr(float(v) * 0.5))
    elif how == 5:
        t = ''
    elif how == 6:
        t = txt[:len(txt) // 2]
    elif how == 7:
        t = sub('')
    elif how == 8:
        lines = txt.split('\n')
        t = '\n'.join(lines[:len(lines) // 2] + lines[len(lines) // 2 + 1:])
        if c['ext'] == '.json' and t == txt:
            return
    elif how == 9:
        t = 'garbage'
    elif how == 10:
        t = sub('inf')
    else:
        # -x in one entry and x added elsewhere keeps the row sum at 1
        row = None
        w = float(v)
        rows = [r for r in list(p) + (list(e) if c['hmm'] else []) if w in r.tolist()]
        q = rows[0].copy()
        j = q.tolist().index(w)
        o = (j + 1) % len(q)
        q[o] += w + 0.125
        q[j] = -0.125
        b = p.copy()
        b2 = e.copy()
        for r in range(n):
            if np.array_equal(p[r], rows[0]):
                b[r] = q
                break
        else:
            for r in range(n):
                if np.array_equal(e[r], rows[0]):
                    b2[r] = q
                    break
        d = {}
        t = txt
        write_raw(path, c['ext'], c['hmm'], st, sy, b, b2)
        t = None
    if t is not None:
        if t == txt:
            return
        open(path, 'w').write(t)
    cls = H if c['hmm'] else M
    try:
        r = cls.from_file(path)
    except Exception as ex:
        return
    # removing a whole line may leave a smaller description that is still complete
    ok = np.allclose(r.p.sum(1), 1) and (r.p >= 0).all() and (r.p <= 1).all() and (not c['hmm'] or (np.allclose(r.e.sum(1), 1) and (r.e >= 0).all() and (r.e <= 1).all()))
    if how in (6, 8) and ok and np.isfinite(r.p).all():
        return
    raise Bad(f'a malformed {c["ext"]} file (defect {how}) yields a model: {r.p.tolist()}')


def write_raw(path, ext, hm, st, sy, p, e):
    import json as _json
    ent = [('P', a, b, p[i, j]) for i, a in enumerate(st) for j, b in enumerate(st)]
    if hm:
        ent += [('E', a, b, e[i, j]) for i, a in enumerate(st) for j, b in enumerate(sy)]
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    # take a well formed file and substitute the numbers, in order of appearance
    n, k = e.shape
    P0 = np.full((n, n), 0.0)
    P0[:, 0] = 1
    uniq = {}
    txt = None
    base = H(np.full((n, n), 1.0 / n), np.full((n, k), 1.0 / k), st, sy) if hm else M(np.full((n, n), 1.0 / n), st)
    base.to_file(path)
    txt = open(path).read()
    seqs = [float(x) for x in list(p.ravel())] + ([float(x) for x in e.ravel()] if hm else [])
    rep = {repr(1.0 / n)} | ({repr(1.0 / k)} if hm else set())
    out, i, q = [], 0, 0
    if hm and ext == '.csv':
        # transition and emission entries are interleaved row by row
        seqs = [float(x) for r in range(n) for x in list(p[r]) + list(e[r])]
    elif hm:
        seqs = [float(x) for r in range(n) for x in list(p[r]) + list(e[r])]
    while i < len(txt):
        hit = [r for r in rep if txt.startswith(r, i)]
        if hit:
            h = max(hit, key=len)
            out.append(repr(seqs[q]) if q < len(seqs) else h)
            q += 1
            i += len(h)
        else:
            out.append(txt[i])
            i += 1
    open(path, 'w').write(''.join(out))
