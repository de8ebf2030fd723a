"""C10: random walks; C17: estimation; C15: decoding"""
import itertools
from .spec import *
from .c_chain import every, length, IND, tt, made


def walk_spec(v, p, seq, T, n, i, P, final=None):
    m = length(seq)
    at = lambda t: tt(seq[int(lift(t).args[0])] if isinstance(seq, list) else seq.get(t))
    v.check(p, 'at most T + 1 states', conj(le(lift(2), m), le(m, T + 1)) if final is not None else eq(m, T + 1))
    v.check(p, 'starts at the initial state', eq(at(ZERO), i))
    if not v.bounded:
        at = v.as_trace(p, 'the walk', m, at)
    v.forall(p, 'states of the chain', [m], lambda t: conj(le(ZERO, at(t)), lt(at(t), n)))
    v.forall(p, 'moves have positive probability', [sub(m, ONE)], lambda t: lt(ZERO, P.get(at(t), at(t + 1))))
    if final is not None:
        v.check(p, 'stops early only at the final state', implies(lt(m, T + 1), eq(at(m - 1), final)))
        v.forall(p, 'no visit of the final state before the end', [sub(m, ONE)], lambda t: implies(lt(ZERO, t), ne(at(t), final)))


@spec('C10', 'simulate', ['MarkovChain.simulate', 'simulations.mc_simulate'], sizes=((2, 3), (3, 3)), also=('C18', 'C22'))
def simulate(v):
    n, T = v.dim('n', 2), v.dim('T', 3)

    def run():
        mc, P, L = v.bare_mc(n)
        i = v.int('i', 0, n)
        return v.call(mc, 'simulate', v.val(T), SV(i, 'int'), output_indices=True), P, i, [(P, P.fn)]
    for p in v.only_ok(v.paths(run)):
        seq, P, i, keep = p.value
        v.frame(p, 'simulate', *keep)
        walk_spec(v, p, seq, T, n, i, P)


@spec('C10', 'simulate_until', ['MarkovChain.simulate', 'simulations.mc_simulate'], sizes=((2, 3), (3, 3)))
def simulate_until(v):
    n, T = v.dim('n', 2), v.dim('T', 3)

    def run():
        mc, P, L = v.bare_mc(n)
        i, f = v.int('i', 0, n), v.int('f', 0, n)
        return v.call(mc, 'simulate', v.val(T), SV(i, 'int'), SV(f, 'int'), True), P, i, f
    for p in v.only_ok(v.paths(run)):
        seq, P, i, f = p.value
        walk_spec(v, p, seq, T, n, i, P, f)


@spec('C10', 'simulate_random_start', ['MarkovChain.simulate'], sizes=((2, 3), (3, 3)))
def simulate_random_start(v):
    n, T = v.dim('n', 2), v.dim('T', 3)

    def run():
        mc, P, L = v.bare_mc(n)
        return v.call(mc, 'simulate', v.val(T), None, output_indices=True), P
    for p in v.only_ok(v.paths(run)):
        seq, P = p.value
        first = tt(seq[0] if isinstance(seq, list) else seq.get(ZERO))
        v.check(p, 'the walk starts in the chain', conj(le(ZERO, first), lt(first, n)))
        walk_spec(v, p, seq, T, n, first, P)


@spec('C10', 'simulate_labels', ['MarkovChain.simulate'], sizes=((2, 3), (3, 3)))
def simulate_labels(v):
    """without output_indices the labels of a walk are returned"""
    n, T = v.dim('n', 2), v.dim('T', 3)

    def run():
        mc, P, L = v.bare_mc(n)
        i = v.int('i', 0, n)
        return v.call(mc, 'simulate', v.val(T), SV(i, 'int')), P, L, i
    for p in v.only_ok(v.paths(run)):
        seq, P, L, i = p.value
        m = length(seq)
        v.check(p, 'T + 1 labels', eq(m, T + 1))
        at = lambda t: tt(seq[int(lift(t).args[0])] if isinstance(seq, list) else seq.get(t))
        lab = lambda x: tt(L[int(x.args[0])] if isinstance(L, list) else L.get(x)) if not isinstance(L, list) or x.op == 'num' else None
        if v.bounded:
            pos = lambda t: v.exists(n, lambda x: eq(at(t), lab(x)))
            v.forall(p, 'labels of the chain', [m], pos)
            v.forall(p, 'moves have positive probability', [sub(m, ONE)], lambda t: v.exists(n, lambda x: v.exists(n, lambda y: conj(eq(at(t), lab(x)), eq(at(t + 1), lab(y)), lt(ZERO, P.get(x, y))))))
            v.check(p, 'starts at the initial state', conj(*[implies(eq(i, num(x)), eq(at(ZERO), lab(num(x)))) for x in range(int(n.args[0]))]))
        else:
            ok, ix = L.facts['index']
            v.forall(p, 'labels of the chain', [m], lambda t: ok(at(t)))
            v.forall(p, 'moves have positive probability', [sub(m, ONE)], lambda t: lt(ZERO, P.get(ix(at(t)), ix(at(t + 1)))))
            v.check(p, 'starts at the initial state', eq(ix(at(ZERO)), i))


@spec('C10', 'next', ['MarkovChain.next'], sizes=((2,), (3,)))
def next_state(v):
    n = v.dim('n', 2)

    def run():
        mc, P, L = v.bare_mc(n)
        i = v.int('i', 0, n)
        return v.call(mc, 'next', SV(i, 'int'), True), P, i, [(P, P.fn)]
    for p in v.only_ok(v.paths(run)):
        s, P, i, keep = p.value
        v.frame(p, 'next', *keep)
        s = tt(s)
        v.check(p, 'a state of the chain', conj(le(ZERO, s), lt(s, n)))
        v.check(p, 'the move has positive probability', lt(ZERO, P.get(i, s)))


def hidden_walk_spec(v, p, out, T, n, k, i, P, E, final=None, fsym=None):
    if not isinstance(out, tuple) or len(out) != 2:
        v.fails(p, 'a pair of sequences', type(out).__name__)
        return
    m, m2 = length(out[0]), length(out[1])
    get = lambda seq: lambda t: tt(seq[int(lift(t).args[0])] if isinstance(seq, list) else seq.get(t))
    st, sy = get(out[0]), get(out[1])
    v.check(p, 'as many symbols as states', eq(m, m2))
    stops = final is not None or fsym is not None
    v.check(p, 'number of states', conj(le(lift(2), m), le(m, T + 1)) if stops else eq(m, T + 1))
    v.check(p, 'starts at the initial state', eq(st(ZERO), i))
    v.forall(p, 'states of the model', [m], lambda t: conj(le(ZERO, st(t)), lt(st(t), n)))
    v.forall(p, 'symbols of the model', [m], lambda t: conj(le(ZERO, sy(t)), lt(sy(t), k)))
    v.forall(p, 'moves have positive probability', [sub(m, ONE)], lambda t: lt(ZERO, P.get(st(t), st(t + 1))))
    v.forall(p, 'symbols have positive probability', [m], lambda t: lt(ZERO, E.get(st(t), sy(t))))
    if stops:
        hit = lambda t: disj(eq(st(t), final) if final is not None else FALSE, eq(sy(t), fsym) if fsym is not None else FALSE)
        v.check(p, 'stops early only at a final state or symbol', implies(lt(m, T + 1), hit(m - 1)))
        v.forall(p, 'no stop condition met before the end', [sub(m, ONE)], lambda t: implies(lt(ZERO, t), no(hit(t))))


def hidden_walk(v, fs, fy, random_start=False):
    n, k, T = v.dim('n', 2), v.dim('k', 2), v.dim('T', 3)

    def run():
        h, P, E, S, Y = v.bare_hmm(n, k)
        i = None if random_start else v.int('i', 0, n)
        f = v.int('f', 0, n) if fs else None
        g = v.int('g', 0, k) if fy else None
        w = lambda x: None if x is None else SV(x, 'int')
        return v.call(h, 'simulate', v.val(T), w(i), w(f), w(g), True), P, E, i, f, g, [(P, P.fn), (E, E.fn)]
    for p in v.only_ok(v.paths(run)):
        out, P, E, i, f, g, keep = p.value
        v.frame(p, 'simulate', *keep)
        if i is None:
            i = tt(out[0][0] if isinstance(out[0], list) else out[0].get(ZERO))
        hidden_walk_spec(v, p, out, T, n, k, i, P, E, f, g)


@spec('C10', 'hmm_simulate', ['HiddenMarkovModel.simulate', 'simulations.hmm_simulate'], sizes=((2, 2, 3),), unbounded=False, also=('C18',))
def hmm_simulate(v):
    hidden_walk(v, False, False)


@spec('C10', 'hmm_simulate_until', ['HiddenMarkovModel.simulate', 'simulations.hmm_simulate'], sizes=((2, 2, 3),), unbounded=False)
def hmm_simulate_until(v):
    hidden_walk(v, True, True)


@spec('C10', 'hmm_next', ['HiddenMarkovModel.next'], sizes=((2, 2), (3, 2)))
def hmm_next(v):
    n, k = v.dim('n', 2), v.dim('k', 2)

    def run():
        h, P, E, S, Y = v.bare_hmm(n, k)
        i = v.int('i', 0, n)
        return v.call(h, 'next', SV(i, 'int'), 'both', True), P, E, i, [(P, P.fn), (E, E.fn)]
    for p in v.only_ok(v.paths(run)):
        out, P, E, i, keep = p.value
        v.frame(p, 'next', *keep)
        s, y = tt(out[0]), tt(out[1])
        v.check(p, 'a state and a symbol', conj(le(ZERO, s), lt(s, n), le(ZERO, y), lt(y, k)))
        v.check(p, 'the move has positive probability', lt(ZERO, P.get(i, s)))
        v.check(p, 'the symbol has positive probability', lt(ZERO, E.get(s, y)))
