"""C20: with a seed every draw is taken from a generator created by the call from that seed, never from the shared random state

The draws of a RandomState are a function of its seed and of their order (library contract), so the outcome is a
function of the arguments and the seed."""
from .spec import *
from .c_chain import tt


def seeded(v, call, sizes=('n',)):
    def run():
        v.I.contracts.pop('utilities.create_rng', None)
        v.I.draw_log[:] = []
        s = v.int('seed', 0)
        r = call(SV(s, 'int'))
        return r, s, list(v.I.draw_log)
    for p in v.paths(run):
        if not p.ok or not v.reachable([p]):
            continue
        r, s, log = p.value
        seen = set()
        for g in log:
            if id(g) in seen:
                continue
            seen.add(id(g))
            v.holds(p, 'draws are not taken from the shared random state', g.name == 'seeded', 'the shared random state is used')
            if g.name == 'seeded':
                if isinstance(g.seed, SV) or isinstance(g.seed, int):
                    v.check(p, 'the generator is created from the seed', eq(tt(g.seed), s))
                else:
                    v.holds(p, 'the generator is created from the seed', False, 'the generator is created from %r' % (g.seed,))
        v.holds(p, 'the outcome is random', bool(log), 'no draw is taken')


def outs(v, i, k):
    # matrices first, then label lists
    return Opaque('out%d' % i) if 2 * i < k else PList(['x%d' % i, 'y%d' % i])


def name_of(x):
    return x.what if isinstance(x, Opaque) else 'out%s' % x[0][1:]


def receives(v, f, call, cls, k):
    """method contract: the generator function is called with the generator created from the seed, its output is what is built

    The constructor of the class (C01) and the generator function (whose draws all come from its first argument) are
    used by contract."""
    def run():
        v.I.contracts.pop('utilities.create_rng', None)
        s = v.int('seed', 0)
        got, made_with = [], []

        def handler(I, a, kw):
            got.append(a[0] if a else kw['rng'])
            return tuple([outs(v, i, k) for i in range(k)] + [None])

        def ctor(I, a, kw):
            made_with.append(list(a) + list(kw.values()))
            return Opaque('made')
        v.I.contracts['generators.' + f] = handler
        v.I.contracts['class:' + cls] = ctor
        try:
            r = call(SV(s, 'int'))
        finally:
            v.I.contracts.pop('generators.' + f, None)
            v.I.contracts.pop('class:' + cls, None)
        return r, s, got, made_with
    seen = False
    for p in v.paths(run):
        if not p.ok or not v.reachable([p]):
            continue
        seen = True
        r, s, got, made_with = p.value
        if len(got) != 1 or len(made_with) != 1 or not isinstance(r, Opaque):
            raise Unsupported('another structure')
        for g in got:
            ok = getattr(g, 'name', None) == 'seeded'
            v.holds(p, 'draws are not taken from the shared random state', ok, 'not a generator created by the call')
            if ok:
                v.check(p, 'the generator is created from the seed', eq(tt(g.seed), s))
        if [name_of(x) for x in made_with[0]] != ['out%d' % i for i in range(k)]:
            raise Unsupported('another structure')
        v.holds(p, 'it is built from the output in order', True)
    if not seen:
        raise Unsupported('no path')


@spec('C20', 'create_rng', ['utilities.create_rng'], sizes=((2,),))
def create_rng(v):
    """an integer seed gives a new generator with that seed, other types are rejected"""
    n = v.dim('n', 2)

    def run():
        v.I.contracts.pop('utilities.create_rng', None)
        s = v.int('seed', 0)
        f = v.func('utilities', 'create_rng')
        return f(SV(s, 'int')), f(SV(s, 'npint')), s
    for p in v.only_ok(v.paths(run)):
        a, b, s = p.value
        for g in (a, b):
            ok = getattr(g, 'name', None) == 'seeded'
            v.holds(p, 'a new generator', ok, 'not a new generator')
            if ok:
                v.check(p, 'created from the seed', eq(tt(g.seed), s))
        v.holds(p, 'not shared', a is not b, 'the same generator twice')
    for bad in (1.5, 'x', True, PList([1])):
        def run():
            v.I.contracts.pop('utilities.create_rng', None)
            return v.func('utilities', 'create_rng')(bad)
        for p in v.paths(run):
            v.holds(p, 'rejects %r' % (bad,), not p.ok, 'accepted')


@spec('C20', 'simulate', ['MarkovChain.simulate', 'simulations.mc_simulate'], sizes=((2, 3),))
def simulate(v):
    n, T = v.dim('n', 2), v.dim('T', 3)
    seeded(v, lambda s: v.call(v.bare_mc(n)[0], 'simulate', v.val(T), None, None, True, s))


@spec('C20', 'simulate_until', ['MarkovChain.simulate', 'simulations.mc_simulate'], sizes=((2, 3),))
def simulate_until(v):
    n, T = v.dim('n', 2), v.dim('T', 3)
    seeded(v, lambda s: v.call(v.bare_mc(n)[0], 'simulate', v.val(T), SV(v.int('i', 0, n), 'int'), SV(v.int('f', 0, n), 'int'), True, s))


@spec('C20', 'next', ['MarkovChain.next'], sizes=((2,), (3,)))
def next_state(v):
    n = v.dim('n', 2)
    seeded(v, lambda s: v.call(v.bare_mc(n)[0], 'next', SV(v.int('i', 0, n), 'int'), True, s))


@spec('C20', 'hmm_next', ['HiddenMarkovModel.next'], sizes=((2, 2),))
def hmm_next(v):
    n, k = v.dim('n', 2), v.dim('k', 2)
    for target in ('both', 'state', 'symbol'):
        seeded(v, lambda s: v.call(v.bare_hmm(n, k)[0], 'next', SV(v.int('i', 0, n), 'int'), target, True, s))


@spec('C20', 'hmm_simulate', ['HiddenMarkovModel.simulate', 'simulations.hmm_simulate'], sizes=((2, 2, 2),), unbounded=False)
def hmm_simulate(v):
    n, k, T = v.dim('n', 2), v.dim('k', 2), v.dim('T', 2)
    seeded(v, lambda s: v.call(v.bare_hmm(n, k)[0], 'simulate', v.val(T), None, None, None, True, s))


@spec('C20', 'random', ['MarkovChain.random'], sizes=((2,), (3,)))
def random(v):
    """the generator function receives the generator created from the seed"""
    n = v.dim('n', 2)
    receives(v, 'mc_random', lambda s: v.static('MarkovChain', 'random')(v.val(n), None, 0, None, s), 'MarkovChain', 2)


@spec('C20', 'hmm_random', ['HiddenMarkovModel.random'], sizes=((2, 2),))
def hmm_random(v):
    n, k = v.dim('n', 2), v.dim('k', 2)
    receives(v, 'hmm_random', lambda s: v.static('HiddenMarkovModel', 'random')(v.val(n), v.val(k), seed=s), 'HiddenMarkovModel', 4)


@spec('C20', 'dirichlet_process', ['MarkovChain.dirichlet_process'], sizes=((2,),))
def dirichlet_process(v):
    n = v.dim('n', 2)
    receives(v, 'mc_dirichlet_process', lambda s: v.static('MarkovChain', 'dirichlet_process')(v.val(n), v.val(num(2)), None, None, False, s), 'MarkovChain', 2)
