"""C18 (no aliasing, no mutation), C19 (equality, hashing, caching, aliases)"""
import copy
from .core import *


def canon(x, depth=0):
    """comparable form of any result; model instances by their data"""
    import networkx as nx
    from pydtmc import MarkovChain, HiddenMarkovModel
    if isinstance(x, MarkovChain):
        return ('mc', canon(x.p), tuple(x.states))
    if isinstance(x, HiddenMarkovModel):
        return ('hmm', canon(x.p), canon(x.e), tuple(x.states), tuple(x.symbols))
    if isinstance(x, np.ndarray):
        return ('arr', x.shape, tuple(np.round(np.where(np.isnan(x.astype(float)), 1e99, x.astype(float)).ravel(), 9).tolist()))
    if isinstance(x, nx.Graph):
        return ('graph', tuple(sorted(map(str, x.nodes(data=True)))), tuple(sorted(map(str, x.edges(data=True)))))
    if isinstance(x, dict):
        return ('dict', tuple((str(k), canon(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(canon(v) for v in x)
    if isinstance(x, (float, np.floating)):
        return 'nan' if x != x else round(float(x), 9)
    if isinstance(x, (int, np.integer)):
        return int(x)
    return repr(x)


def exact(x):
    """bit-exact form of an argument"""
    import networkx as nx
    if isinstance(x, np.ndarray):
        return ('arr', x.dtype.str, x.shape, x.tobytes() if x.dtype != object else repr(x.tolist()), x.flags.writeable)
    if isinstance(x, nx.Graph):
        return ('graph', str(list(x.nodes(data=True))), str(list(x.edges(data=True))))
    if isinstance(x, dict):
        return ('dict', tuple((repr(k), exact(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(exact(v) for v in x)
    return (type(x).__name__, repr(x)) if not hasattr(x, 'p') else canon(x)


MCPROPS = ['absorbing_states', 'accessibility_matrix', 'adjacency_matrix', 'communicating_classes', 'communication_matrix', 'cyclic_classes', 'cyclic_states', 'density', 'determinant', 'entropy_rate',
           'entropy_rate_normalized', 'fundamental_matrix', 'implied_timescales', 'incidence_matrix', 'is_absorbing', 'is_aperiodic', 'is_canonical', 'is_doubly_stochastic', 'is_ergodic', 'is_irreducible',
           'is_regular', 'is_reversible', 'is_stochastically_monotone', 'is_symmetric', 'kemeny_constant', 'lumping_partitions', 'mixing_rate', 'n', 'p', 'period', 'periods', 'pi', 'rank', 'recurrent_classes',
           'recurrent_states', 'relaxation_rate', 'size', 'spectral_gap', 'states', 'topological_entropy', 'transient_classes', 'transient_states']
UNCACHED = ['n', 'p', 'size', 'states']
ALIASES = {'is_stochastically_monotone': ['is_monotone'], 'pi': ['stationary_distributions', 'steady_states'], 'committor_probabilities': ['crp'], 'conditional_probabilities': ['conditional_distribution', 'cd', 'cp'],
           'expected_rewards': ['er'], 'expected_transitions': ['et'], 'first_passage_probabilities': ['fpp'], 'first_passage_reward': ['fpr'], 'hitting_probabilities': ['hp'], 'hitting_times': ['ht'],
           'mean_absorption_times': ['mat'], 'mean_first_passage_times_between': ['mfpt_between', 'mfptb'], 'mean_first_passage_times_to': ['mfpt_to', 'mfptt'], 'mean_number_visits': ['mnv'],
           'mean_recurrence_times': ['mrt'], 'mixing_time': ['mt'], 'time_correlations': ['tc'], 'time_relaxations': ['tr'], 'to_bounded_chain': ['to_bounded'], 'to_canonical_form': ['to_canonical'],
           'to_lazy_chain': ['to_lazy'], 'to_nth_order': ['to_nth'], 'to_subchain': ['to_sub']}


def vec(rng, n):
    d = np.array(dist(rng, n))
    return d if rng.rand() < 0.6 else d.tolist()


def lab(rng, nm, k=None, ints=True):
    n = len(nm)
    k = k or int(rng.randint(1, n))
    q = rng.permutation(n)[:k]
    return [int(x) for x in q] if ints and rng.rand() < 0.5 else [nm[i] for i in q]


def mcops(rng, n, nm):
    """one random query: (member, args, kwargs)"""
    from pydtmc import MarkovChain
    st = lambda: int(rng.randint(n)) if rng.rand() < 0.5 else nm[rng.randint(n)]
    sd = int(rng.randint(10**6))
    T = int(rng.randint(1, n + 1))
    seq = lambda L=None: lab(rng, nm, n) if rng.rand() < 0.3 else [int(v) for v in rng.randint(0, n, rng.randint(2, 8))]

    def two():
        q = [int(x) for x in rng.permutation(n)]
        a = int(rng.randint(1, n))
        x, y = q[:a], q[a:]
        return (x, y) if rng.rand() < 0.5 else ([nm[i] for i in x], [nm[i] for i in y])

    def part():
        a, b = two()
        return [[nm[i] if not isinstance(i, str) else i for i in a], [nm[i] if not isinstance(i, str) else i for i in b]]
    t2 = two()
    ops = [(m, (), {}) for m in MCPROPS]
    ops += [
        ('absorption_probabilities', (), {}), ('mean_absorption_times', (), {}), ('mean_number_visits', (), {}), ('mean_recurrence_times', (), {}),
        ('are_communicating', (st(), st()), {}), ('is_accessible', (st(), st()), {}), ('is_absorbing_state', (st(),), {}), ('is_cyclic_state', (st(),), {}), ('is_recurrent_state', (st(),), {}),
        ('is_transient_state', (st(),), {}), ('transition_probability', (st(), st()), {}), ('conditional_probabilities', (st(),), {}), ('sensitivity', (st(),), {}),
        ('committor_probabilities', (['forward', 'backward'][rng.randint(2)],) + t2, {}),
        ('expected_rewards', (T, vec(rng, n)), {}), ('expected_transitions', (T, vec(rng, n)), {}), ('expected_transitions', (T,), {}),
        ('first_passage_probabilities', (T, st(), lab(rng, nm)), {}), ('first_passage_probabilities', (T, st()), {}),
        ('first_passage_reward', (T, t2[0][0], list(t2[1]), rng.rand(n)), {}),
        ('hitting_probabilities', (lab(rng, nm),), {}), ('hitting_times', (lab(rng, nm),), {}), ('hitting_probabilities', (), {}), ('hitting_times', (), {}),
        ('mean_first_passage_times_between',) + ((t2[0], t2[1]), {}), ('mean_first_passage_times_to', (lab(rng, nm),), {}), ('mean_first_passage_times_to', (), {}),
        ('mixing_time', (vec(rng, n), 1, 'natural'), {}), ('next', (st(),), {'seed': sd, 'output_index': bool(rng.rand() < 0.5)}), ('predict', (T, st()), {'output_indices': True}),
        ('redistribute', (T, vec(rng, n), bool(rng.rand() < 0.5)), {}), ('redistribute', (T, st(), False), {}), ('redistribute', (T,), {}), ('sequence_probability', (seq(),), {}),
        ('simulate', (T + 1, st()), {'seed': sd, 'output_indices': bool(rng.rand() < 0.5)}), ('simulate', (T + 1,), {'seed': sd}),
        ('time_correlations', (seq(), None if rng.rand() < 0.5 else seq(), sorted(int(v) for v in rng.permutation(n)[:2])), {}), ('time_relaxations', (seq(), vec(rng, n), [0, 1]), {}),
        ('to_bounded_chain', ([0.3, 'absorbing', 'reflecting'][rng.randint(3)],), {}), ('to_canonical_form', (), {}), ('to_lazy_chain', (rng.rand(n),), {}), ('to_lazy_chain', (0.25,), {}),
        ('to_nth_order', (2,), {}), ('to_subchain', (lab(rng, nm, int(rng.randint(min(2, n), n + 1))),), {}), ('to_dictionary', (), {}), ('to_graph', (), {}), ('to_matrix', (), {}),
        ('merge_with', (MarkovChain(norm_rows(rng.rand(n, n)), list(nm)), 0.3), {}), ('lump', (part(),), {}), ('__str__', (), {}), ('__hash__', (), {}), ('__eq__', (3,), {}),
    ]
    return ops[rng.randint(len(ops))]


def hmmops(rng, n, m, sn, yn):
    st = lambda: int(rng.randint(n)) if rng.rand() < 0.5 else sn[rng.randint(n)]
    sy = lambda: int(rng.randint(m)) if rng.rand() < 0.5 else yn[rng.randint(m)]
    sd = int(rng.randint(10**6))
    seq = lambda: [int(v) for v in rng.randint(0, m, rng.randint(2, 8))] if rng.rand() < 0.5 else [yn[v] for v in rng.randint(0, m, rng.randint(2, 8))]
    ini = lambda: [None, vec(rng, n), st()][rng.randint(3)]
    ops = [(q, (), {}) for q in ('e', 'is_ergodic', 'is_regular', 'k', 'n', 'p', 'size', 'states', 'symbols', 'to_dictionary', 'to_graph', 'to_matrices', '__str__', '__hash__')]
    ops += [('decode', (seq(), ini(), bool(rng.rand() < 0.5)), {}), ('predict', (['map', 'viterbi', 'mle'][rng.randint(3)], seq(), ini()), {}), ('emission_probability', (sy(), st()), {}),
            ('transition_probability', (st(), st()), {}), ('next', (st(), ['both', 'state', 'symbol'][rng.randint(3)]), {'seed': sd}), ('simulate', (3, st()), {'seed': sd}), ('simulate', (3,), {'seed': sd})]
    if n > 2:
        ops.append(('restrict', (lab(rng, sn, 2),), {}))
    if m > 2:
        ops.append(('restrict', (None, lab(rng, yn, 2)), {}))
    return ops[rng.randint(len(ops))]


def ask(model, op):
    name, a, k = op
    try:
        v = getattr(model, name)
        r = v(*a, **k) if callable(v) else v
        return canon(r), r
    except Exception as ex:
        return ('raised', type(ex).__name__, str(ex)[:200]), None


def scramble(x):
    """overwrite a returned object in place"""
    import networkx as nx
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 7.5
    elif isinstance(x, list):
        for i, v in enumerate(x):
            scramble(v)
        x.reverse()
        x.append('junk')
    elif isinstance(x, tuple):
        for v in x:
            scramble(v)
    elif isinstance(x, nx.Graph):
        for u, v, d in list(x.edges(data=True)):
            d['weight'] = 9.0
        x.remove_node(next(iter(x.nodes)))
    elif isinstance(x, dict):
        for k in list(x):
            x[k] = 9.0
        x['junk'] = 1


def g18(rng, tier):
    for k in range(count(tier)):
        d = chain(rng, tier, how=int([0, 1, 2, 4][rng.randint(4)]), n=int(rng.randint(2, 7)), style=int(rng.randint(1, 7)))
        d['seed'] = int(rng.randint(10**6))
        d['ops'] = int(rng.randint(4, 14))
        yield d


@contract('C18', 'queries of a chain leave the model and the arguments unchanged', g18)
def c18(c):
    rng = np.random.RandomState(c['seed'])
    n, nm = len(c['p']), names(c)
    mc = MC(c)
    start = canon(mc), hash(mc), canon(mc.to_graph())
    history = []
    for _ in range(c['ops']):
        op = mcops(rng, n, nm)
        before = exact(op[1]), exact(op[2])
        r1, raw = ask(mc, op)
        need((exact(op[1]), exact(op[2])) == before, f'{op[0]} altered an argument:', op[1])
        if op[0] in ('p', 'states', 'to_matrix', 'to_dictionary', 'to_graph', 'conditional_probabilities'):
            scramble(raw)
        r2, _ = ask(MC(c), op)
        need(r1 == r2, f'{op[0]}{op[1]} on a chain already queried {history} differs from the answer of a new chain:', r1, r2)
        need((canon(mc), hash(mc), canon(mc.to_graph())) == start, f'{op[0]} altered the chain')
        history.append(op)
    for op in history:
        r1, _ = ask(mc, op)
        r2, _ = ask(MC(c), op)
        need(r1 == r2, f'{op[0]} repeated after {[q[0] for q in history]} differs:', r1, r2)


def g18h(rng, tier):
    for k in range(count(tier)):
        d = hmm_case(rng, tier, style=int(rng.randint(1, 7)))
        d['seed'] = int(rng.randint(10**6))
        d['ops'] = int(rng.randint(4, 12))
        yield d


@contract('C18', 'queries of a hidden model leave the model and the arguments unchanged', g18h, 0.5)
def c18h(c):
    rng = np.random.RandomState(c['seed'])
    sn, yn = hnames(c)
    h = HMM(c)
    start = canon(h), hash(h), canon(h.to_graph())
    history = []
    for _ in range(c['ops']):
        op = hmmops(rng, len(sn), len(yn), sn, yn)
        before = exact(op[1]), exact(op[2])
        r1, raw = ask(h, op)
        need((exact(op[1]), exact(op[2])) == before, f'{op[0]} altered an argument:', op[1])
        if op[0] in ('p', 'e', 'states', 'symbols', 'to_matrices', 'to_dictionary', 'to_graph'):
            scramble(raw)
        r2, _ = ask(HMM(c), op)
        need(r1 == r2, f'{op[0]}{op[1]} on a model already queried {[q[0] for q in history]} differs from the answer of a new model:', r1, r2)
        need((canon(h), hash(h), canon(h.to_graph())) == start, f'{op[0]} altered the model')
        history.append(op)
    for op in history:
        need(ask(h, op)[0] == ask(HMM(c), op)[0], f'{op[0]} repeated after {[q[0] for q in history]} differs')


def builders(rng, c):
    """(name, function, arguments) of every constructor that takes lists, arrays, dictionaries or graphs"""
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    import networkx as nx
    p, nm = np.array(c['p']), list(c['states'])
    n = len(p)
    k = int(rng.randint(2, 5))
    e = norm_rows(rng.rand(n, k) + 0.01)
    yn = ['#%d' % i for i in range(k)]
    form = (lambda a: a.copy()) if rng.rand() < 0.5 else (lambda a: a.tolist())
    m0, h0 = M(p.copy(), list(nm)), H(p.copy(), e.copy(), list(nm), list(yn))
    mask = np.full((n, n), np.nan)
    mask[0, 0] = 0.25
    emask = np.full((n, k), np.nan)
    emask[n - 1, 0] = 0.5
    seq = [int(v) for v in rng.randint(0, n, 6)]
    seqs = [nm[i] for i in seq] if rng.rand() < 0.5 else seq
    sy = [int(v) for v in rng.randint(0, k, 6)]
    syms = [yn[i] for i in sy] if rng.rand() < 0.5 else sy
    d = {(a, b): p[i, j] for i, a in enumerate(nm) for j, b in enumerate(nm)}
    g = nx.DiGraph()
    g.add_nodes_from(nm)
    for i in range(n):
        for j in range(n):
            if p[i, j] > 0:
                g.add_edge(nm[i], nm[j], weight=float(p[i, j]))
    bp, bq = np.full(n, 0.25), np.full(n, 0.5)
    bp[-1] = bq[0] = 0.0
    out = [
        ('MarkovChain', M, (form(p), list(nm)), {}), ('from_matrix', M.from_matrix, (form(p * 2), list(nm)), {}), ('from_dictionary', M.from_dictionary, (dict(d),), {}), ('from_graph', M.from_graph, (g,), {}),
        ('identity', M.identity, (n, list(nm)), {}), ('birth_death', M.birth_death, (bp, bq, list(nm)), {}), ('random', M.random, (n, list(nm), 0, mask, 5), {}), ('fit_sequence', M.fit_sequence, ('mle', list(nm), list(seqs), True), {}),
        ('fit_sequence map', M.fit_sequence, ('map', list(nm), list(seqs), np.full((n, n), 2.0)), {}), ('fit_function', M.fit_function, ('newton-cotes', list(nm), lambda x_index, x_value, y_index, y_value: 1.0 + abs(x_value - y_value), (0.0, 1.0)), {}),
        ('dirichlet_process', M.dirichlet_process, (n, 2, list(nm)), {'seed': 3}), ('random_distribution', M.random_distribution, (n, 'uniform', list(nm)), {'seed': 3}),
        ('lump', m0.lump, ([list(nm[:1]), list(nm[1:])],), {}) if n > 2 else ('identity', M.identity, (n, list(nm)), {}), ('to_subchain', m0.to_subchain, (list(nm),), {}), ('merge_with', m0.merge_with, (M(norm_rows(rng.rand(n, n)), list(nm)), 0.5), {}),
        ('to_lazy_chain', m0.to_lazy_chain, (np.full(n, 0.5),), {}), ('to_nth_order', m0.to_nth_order, (2,), {}), ('to_bounded_chain', m0.to_bounded_chain, ('absorbing',), {}), ('to_canonical_form', m0.to_canonical_form, (), {}),
        ('HiddenMarkovModel', H, (form(p), form(e), list(nm), list(yn)), {}), ('from_matrices', H.from_matrices, (form(p), form(e * 3), list(nm), list(yn)), {}), ('HMM from_dictionary', H.from_dictionary, (h0.to_dictionary(),), {}),
        ('HMM from_graph', H.from_graph, (h0.to_graph(),), {}), ('estimate', H.estimate, (list(nm), list(yn), list(seqs), list(syms)), {}), ('HMM random', H.random, (n, k, list(nm), 0, mask, list(yn), 0, emask, 5), {}),
        ('fit', H.fit, ('baum-welch', list(nm), list(yn), form(norm_rows(p + 0.1)), form(norm_rows(e + 0.1)), [list(syms), list(syms)], np.full(n, 1.0 / n)), {}),
    ]
    if n > 2:
        out.append(('restrict', h0.restrict, (list(nm[:2]),), {}))
    return out, (m0, h0)


def g18c(rng, tier):
    for k in range(count(tier)):
        d = chain(rng, tier, ['dense', 'mid', 'birth', 'blocks'], n=int(rng.randint(2, 6)), style=int(rng.randint(1, 7)), how=1)
        d['seed'] = int(rng.randint(10**6))
        d['which'] = int(rng.randint(10**6))
        yield d


@contract('C18', 'constructors neither alter nor keep their arguments', g18c, 0.7)
def c18c(c):
    rng = np.random.RandomState(c['seed'])
    bs, src = builders(rng, c)
    name, f, a, k = bs[c['which'] % len(bs)]
    before = exact(a), exact(k), canon(src[0]), canon(src[1])
    try:
        m = f(*a, **k)
    except Exception as ex:
        if name in ('fit', 'lump', 'to_subchain'):
            need((exact(a), exact(k)) == before[:2], f'{name} altered an argument')
            return
        raise
    need((exact(a), exact(k)) == before[:2], f'{name} altered an argument:', a)
    need((canon(src[0]), canon(src[1])) == before[2:], f'{name} altered the model it was called on')
    w = canon(m), hash(m), canon(m.to_graph()), canon(m.to_dictionary())
    for x in a:
        if not isinstance(x, (tuple, str)) and not hasattr(x, 'to_graph') and not callable(x):
            scramble(x)
    for q in src:
        for r in (q.to_matrix(),) if hasattr(q, 'to_matrix') else q.to_matrices():
            scramble(r)
    need((canon(m), hash(m), canon(m.to_graph()), canon(m.to_dictionary())) == w, f'the model built by {name} changed with the objects given to it')
    # and the new model does not share its content with the one it came from
    for q in (m.p, m.states) + ((m.e, m.symbols) if hasattr(m, 'e') else ()):
        scramble(q)
    need(canon(m)[:2] == w[0][:2] and (canon(src[0]), canon(src[1])) == before[2:], f'the content of the model built by {name} is shared')


# ------------------------------------------------------------------ C19
def g19(rng, tier):
    for k in range(count(tier)):
        d = chain(rng, tier, n=int(rng.randint(2, 7)), style=int(rng.randint(1, 7)))
        d['seed'] = int(rng.randint(10**6))
        d['change'] = ['none', 'zero', 'label', 'order', 'ulp', 'cell', 'form', 'size'][rng.randint(8)]
        yield d


def foreign():
    import datetime
    return [None, 1, 'x', [], (), {}, 1.5, object(), np.nan, True, datetime.date(2020, 1, 1)]


@contract('C19', 'equality and hashing of chains', g19)
def c19(c):
    from pydtmc import MarkovChain as M, HiddenMarkovModel as H
    rng = np.random.RandomState(c['seed'])
    p, nm = np.array(c['p']), list(c['states'])
    n = len(p)
    a = M(p.copy(), list(nm))
    q, lb = p.copy(), list(nm)
    eq = True
    ch = c['change']
    if ch == 'zero':
        q[q == 0] *= -1.0
    elif ch == 'label':
        lb[rng.randint(n)] += '_'
        eq = False
    elif ch == 'order':
        lb = lb[1:] + lb[:1]
        eq = False
    elif ch in ('ulp', 'cell'):
        i = int(rng.randint(n))
        j = int(np.argmax(q[i]))
        if ch == 'ulp':
            q[i, j] = np.nextafter(q[i, j], 0)
        else:
            k = (j + 1) % n
            d = 0.125 * q[i, j]
            q[i, j] -= d
            q[i, k] += d
        eq = np.array_equal(p, q)
    elif ch == 'form':
        q = np.asfortranarray(q) if rng.rand() < 0.5 else q.tolist()
    elif ch == 'size':
        q = np.eye(n + 1)
        lb = ['z%d' % i for i in range(n + 1)]
        eq = False
    b = M(q, lb)
    need((a == b) is eq and (b == a) is eq, f'equality after change {ch}:', a == b, b == a, 'expected', eq)
    need((a != b) is (not eq), f'inequality after change {ch}')
    if eq:
        need(hash(a) == hash(b), f'equal chains hash differently (change {ch})')
        need(len({a, b}) == 1, 'equal chains are distinct set members')
    for o in foreign():
        need((a == o) is False and (a != o) is True, 'comparison with', o)
    e = np.eye(n)
    h = H(p.copy(), e, list(nm), ['#%d' % i for i in range(n)])
    need((a == h) is False and (h == a) is False, 'a chain equals a hidden model')
    need(a == a and hash(a) == hash(a), 'a chain equals itself')
    need(a != p.tolist(), 'a chain equals its matrix')


@contract('C19', 'equality and hashing of hidden models', lambda rng, tier: (dict(hmm_case(rng, tier, style=int(rng.randint(1, 7))), seed=int(rng.randint(10**6)), change=['none', 'zero', 'state', 'symbol', 'e', 'p', 'symorder'][rng.randint(7)]) for k in range(count(tier))), 0.6)
def c19h(c):
    rng = np.random.RandomState(c['seed'])
    a = HMM(c)
    d = copy.deepcopy(c)
    p, e = np.array(d['p']), np.array(d['e'])
    eq, ch = True, c['change']
    if ch == 'zero':
        e[e == 0] *= -1.0
        p[p == 0] *= -1.0
    elif ch == 'state':
        d['states'][rng.randint(len(p))] += '_'
        eq = False
    elif ch == 'symbol':
        d['symbols'][rng.randint(e.shape[1])] += '_'
        eq = False
    elif ch == 'symorder':
        d['symbols'] = d['symbols'][::-1]
        eq = False
    elif ch in ('e', 'p'):
        x = e if ch == 'e' else p
        i = int(rng.randint(len(x)))
        j = int(np.argmax(x[i]))
        x[i, (j + 1) % x.shape[1]] += 0.25 * x[i, j]
        x[i, j] -= 0.25 * x[i, j]
        eq = False
    d['p'], d['e'] = p.tolist(), e.tolist()
    b = HMM(d)
    need((a == b) is eq and (b == a) is eq and (a != b) is (not eq), f'equality after change {ch}')
    if eq:
        need(hash(a) == hash(b) and len({a, b}) == 1, f'equal models hash differently (change {ch})')
    for o in foreign():
        need((a == o) is False and (a != o) is True, 'comparison with', o)


@contract('C19', 'cached properties and aliases', g19)
def c19c(c):
    rng = np.random.RandomState(c['seed'])
    a, b = MC(c), MC(c)
    other = dict(c)
    other['p'] = norm_rows(np.array(c['p']) + 0.1).tolist()
    z = MC(other)
    n, nm = len(c['p']), names(c)
    for m in [MCPROPS[rng.randint(len(MCPROPS))] for _ in range(4)]:
        def get(x):
            try:
                return getattr(x, m)
            except Exception as ex:
                return ('raised', type(ex).__name__)
        vz = get(z)
        v = get(a)
        vb = get(b)
        need(canon(v) == canon(vb), f'{m} differs between equal chains')
        need(canon(vz) == canon(get(MC(other))), f'{m} is not computed per instance')
        if m not in UNCACHED:
            need(isinstance(v, tuple) or get(a) is v, f'{m} is computed again on the second access')
            if isinstance(v, (list, np.ndarray)):
                need(vb is not v and vz is not v, f'{m} is shared between instances')
        for act in (lambda: setattr(a, m, 1), lambda: delattr(a, m)):
            raises(act, AttributeError, f'setting or deleting {m}')
        need(canon(get(a)) == canon(v), f'{m} changed after a refused assignment')
    op = None
    for _ in range(200):
        op = mcops(rng, n, nm)
        if op[0] in ALIASES:
            break
    if op[0] in ALIASES:
        r = ask(a, op)[0]
        for al in ALIASES[op[0]]:
            need(hasattr(a, al), f'the alias {al} of {op[0]} does not exist')
            r2 = ask(a, (al,) + tuple(op[1:]))[0]
            if r[0] == 'raised' if isinstance(r, tuple) and r else False:
                need(isinstance(r2, tuple) and r2[0] == 'raised', f'the alias {al} accepts what {op[0]} refuses')
            else:
                need(r2 == r, f'the alias {al} of {op[0]} gives', r2, 'instead of', r)


def threads(rng, tier):
    for k in range(count(tier) // 20):
        d = chain(rng, tier, ['dense', 'mid', 'cycle'], n=int(rng.randint(3, 12)))
        d['m'] = ['pi', 'communicating_classes', 'accessibility_matrix', 'periods', 'lumping_partitions', 'cyclic_classes'][rng.randint(6)]
        yield d


@contract('C19', 'a cached property is computed once under concurrent access', threads, 0.2)
def c19t(c):
    import threading
    mc = MC(c)
    out = []
    bar = threading.Barrier(6)

    def go():
        bar.wait()
        out.append(getattr(mc, c['m']))
    ts = [threading.Thread(target=go) for _ in range(6)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    need(len(out) == 6 and all(o is out[0] for o in out), f'{c["m"]} computed more than once by concurrent threads')
