"""C01, C22: constructors and argument interpretation"""
from fractions import Fraction
from .spec import *
from .c_chain import tt, lift_u, length, same_labels, IND

CLOSE = num(Fraction(1, 10 ** 8) + Fraction(1, 10 ** 5))


def anymatrix(v, n, m, name='m'):
    """an arbitrary real matrix given by the user"""
    nt, mt = lift(n), lift(m)
    if v.bounded:
        rows = [[tm.var(f'{name}{a}{b}', 'R') for b in range(int(mt.args[0]))] for a in range(int(nt.args[0]))]
        return Arr((nt, mt), 'f', lambda ix: npm.pick(ix[0], [npm.pick(ix[1], r) for r in rows]))
    return Arr((nt, mt), 'f', lambda ix: app(name, list(ix), 'R'))


def anyvector(v, n, name='x'):
    nt = lift(n)
    if v.bounded:
        xs = [tm.var(f'{name}{a}', 'R') for a in range(int(nt.args[0]))]
        return Arr((nt,), 'f', lambda ix: npm.pick(ix[0], xs))
    return Arr((nt,), 'f', lambda ix: app(name, list(ix), 'R'))


def every(dims, f):
    """universal statement over index ranges as a term"""
    if all(lift(d).op == 'num' for d in dims):
        import itertools
        return conj(*[f(*[num(i) for i in ix]) for ix in itertools.product(*[range(int(lift(d).args[0])) for d in dims])])
    vs = [tm.fresh('q', 'I') for _ in dims]
    return forall(tuple(vs), implies(conj(*[conj(le(ZERO, x), lt(x, lift(d))) for x, d in zip(vs, dims)]), f(*vs)))


def within(x, lo=ZERO, hi=ONE):
    return conj(le(lift(lo), x), le(x, lift(hi)))


def outcomes(v, paths, valid, post, name, exc='ValidationError'):
    """valid arguments are answered by post, invalid ones raise"""
    ok = False
    for p in paths:
        if p.ok:
            ok = True
            v.check(p, name + ': only valid arguments are answered', valid)
            post(p)
        else:
            v.check(p, f'{name}: the error is {exc}', p.exc() == exc)
            v.check(p, name + ': no valid argument is refused', no(valid))
    if not ok:
        v.fails(paths[0], name, 'never returns')


# ---------------------------------------------------------------- C01
@spec('C01', 'markov_chain_accepts', ['MarkovChain.__init__', 'validation.validate_transition_matrix', 'utilities.create_labels'], sizes=((2,), (3,)), also=('C18',))
def mc_accepts(v):
    """a stochastic matrix is accepted and kept; default labels"""
    n = v.dim('n', 2)

    def run():
        P = stochastic(v.I, n)
        f = P.fn
        return v.I.call(v.I.getclass('markov_chain', 'MarkovChain'), [P]), P, [(P, f)]
    for p in v.only_ok(v.paths(run)):
        mc, P, keep = p.value
        Q, L = v.attr(mc, 'p'), v.attr(mc, 'states')
        v.frame(p, 'the given matrix', *keep)
        v.fresh_result(p, 'the stored matrix', Q, P)
        v.check(p, 'size', conj(eq(Q.shape[0], n), eq(Q.shape[1], n), eq(tt(v.attr(mc, 'size')), n)))
        v.forall(p, 'the given matrix is stored', [n, n], lambda i, j: eq(Q.get(i, j), P.get(i, j)))
        v.check(p, 'one label per state', eq(length(L), n))


@spec('C01', 'markov_chain_rejects', ['MarkovChain.__init__', 'validation.validate_transition_matrix'], sizes=((2,),))
def mc_rejects(v):
    """whatever real square matrix is given: either the model is valid or an error is raised"""
    n = v.dim('n', 2)

    def run():
        m = anymatrix(v, n, n)
        return v.I.call(v.I.getclass('markov_chain', 'MarkovChain'), [m]), m
    for p in v.paths(run):
        if not p.ok:
            v.check(p, 'the error is ValidationError', p.exc() == 'ValidationError')
            continue
        mc, m = p.value
        Q = v.attr(mc, 'p')
        v.forall(p, 'entries in [0,1]', [n, n], lambda i, j: within(Q.get(i, j)))
        v.forall(p, 'rows sum to 1', [n], lambda i: within(v.sum(n, lambda j: Q.get(i, j)) - 1, -CLOSE, CLOSE))
        v.forall(p, 'the given matrix is stored', [n, n], lambda i, j: eq(Q.get(i, j), m.get(i, j)))


@spec('C01', 'markov_chain_labels', ['MarkovChain.__init__', 'validation.validate_labels_input'], sizes=((2,), (3,)), also=('C18',))
def mc_labels(v):
    n = v.dim('n', 2)

    def run():
        mc, P, L = v.mc(n)
        return mc, P, L
    for p in v.only_ok(v.paths(run)):
        mc, P, L = p.value
        M = v.attr(mc, 'states')
        v.check(p, 'the label list is a copy', M is not L)
        same_labels(v, p, 'labels', M, lambda i: lift_u(L, i), n)
        v.forall(p, 'matrix', [n, n], lambda i, j: eq(v.attr(mc, 'p').get(i, j), P.get(i, j)))


@spec('C01', 'markov_chain_shape', ['MarkovChain.__init__', 'validation.validate_transition_matrix'], sizes=((2, 3), (3, 2), (1, 1)))
def mc_shape(v):
    """only square matrices of size at least 2"""
    if v.bounded:
        a, b = num(v.sizes[0]), num(v.sizes[1])
    else:
        a, b = tm.var('a', 'I'), tm.var('b', 'I')
        v.I.assume_def(conj(le(ONE, a), le(ONE, b)))
    bad = disj(ne(a, b), lt(a, num(2)))

    def run():
        P = stochastic(v.I, a, 'p', b)
        return v.I.call(v.I.getclass('markov_chain', 'MarkovChain'), [P])
    outcomes(v, v.paths(run), no(bad), lambda p: None, 'shape')


@spec('C01', 'hidden_model_accepts', ['HiddenMarkovModel.__init__', 'validation.validate_transition_matrix', 'validation.validate_emission_matrix', 'validation.validate_labels_input'], sizes=((2, 2), (2, 3)), also=('C18',))
def hmm_accepts(v):
    n, m = v.dim('n', 2), v.dim('m', 2)

    def run():
        P, E = stochastic(v.I, n, 'p'), stochastic(v.I, n, 'e', m)
        keep = [(P, P.fn), (E, E.fn)]
        S, Y = label_list(v.I, n, 'S'), label_list(v.I, m, 'Y')
        if not v.bounded:
            i, j = tm.fresh('i', 'I'), tm.fresh('j', 'I')
            v.I.assume_def(forall((i, j), implies(conj(le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, m)), ne(lift_u(S, i), lift_u(Y, j)))))
        return v.I.call(v.I.getclass('hidden_markov_model', 'HiddenMarkovModel'), [P, E, S, Y]), P, E, S, Y, keep
    for p in v.only_ok(v.paths(run)):
        h, P, E, S, Y, keep = p.value
        Q, F = v.attr(h, 'p'), v.attr(h, 'e')
        v.frame(p, 'the given matrices', *keep)
        v.fresh_result(p, 'the stored transitions', Q, P)
        v.fresh_result(p, 'the stored emissions', F, E)
        v.forall(p, 'transitions', [n, n], lambda i, j: eq(Q.get(i, j), P.get(i, j)))
        v.forall(p, 'emissions', [n, m], lambda i, j: eq(F.get(i, j), E.get(i, j)))
        same_labels(v, p, 'states', v.attr(h, 'states'), lambda i: lift_u(S, i), n)
        same_labels(v, p, 'symbols', v.attr(h, 'symbols'), lambda i: lift_u(Y, i), m)
        v.check(p, 'the label lists are copies', v.attr(h, 'states') is not S and v.attr(h, 'symbols') is not Y)


@spec('C01', 'hidden_model_rejects', ['HiddenMarkovModel.__init__', 'validation.validate_emission_matrix'], sizes=((2, 2),))
def hmm_rejects(v):
    n, m = v.dim('n', 2), v.dim('m', 2)

    def run():
        P, E = stochastic(v.I, n, 'p'), anymatrix(v, n, m, 'e')
        return v.I.call(v.I.getclass('hidden_markov_model', 'HiddenMarkovModel'), [P, E]), E
    for p in v.paths(run):
        if not p.ok:
            v.check(p, 'the error is ValidationError', p.exc() == 'ValidationError')
            continue
        h, E = p.value
        F = v.attr(h, 'e')
        v.forall(p, 'entries in [0,1]', [n, m], lambda i, j: within(F.get(i, j)))
        v.forall(p, 'rows sum to 1', [n], lambda i: within(v.sum(m, lambda j: F.get(i, j)) - 1, -CLOSE, CLOSE))
        v.forall(p, 'the given matrix is stored', [n, m], lambda i, j: eq(F.get(i, j), E.get(i, j)))


# ---------------------------------------------------------------- C22
@spec('C22', 'label_by_index', ['validation.validate_label', 'MarkovChain.conditional_probabilities'], sizes=((2,), (3,)))
def label_index(v):
    n = v.dim('n', 2)
    i = v.int('i')

    def run():
        mc, P, L = v.bare_mc(n)
        return v.call(mc, 'conditional_probabilities', v.val(i)), P
    outcomes(v, v.paths(run), conj(le(ZERO, i), lt(i, n)), lambda p: v.forall(p, 'row of the state', [n], lambda y: eq(p.value[0].get(y), p.value[1].get(i, y))), 'index')


@spec('C22', 'label_by_name', ['validation.validate_label', 'MarkovChain.conditional_probabilities'], sizes=((2,), (3,)))
def label_name(v):
    n = v.dim('n', 2)
    i = v.int('i', 0, n)

    def run():
        mc, P, L = v.bare_mc(n)
        if v.bounded:
            k = v.I.concretize(i) if hasattr(v.I, 'concretize') else None
            lab = SV(npm.pick(i, [strlit(x) for x in L]), 'str')
        else:
            lab = L.get(i)
        return v.call(mc, 'conditional_probabilities', lab), P
    for p in v.only_ok(v.paths(run)):
        v.forall(p, 'the label means the state at its position', [n], lambda y: eq(p.value[0].get(y), p.value[1].get(i, y)))


@spec('C22', 'status_by_index', ['validation.validate_status'], sizes=((2,), (3,)))
def status_index(v):
    n = v.dim('n', 2)
    i = v.int('i')
    f = v.func('validation', 'validate_status')

    def run():
        return f(v.val(i), label_list(v.I, n, 'S'))
    outcomes(v, v.paths(run), conj(le(ZERO, i), lt(i, n)), lambda p: v.forall(p, 'unit vector', [n], lambda y: eq(p.value.get(y), IND(eq(y, i)))), 'state index', 'ValueError')


@spec('C22', 'status_by_distribution', ['validation.validate_status'], sizes=((2,), (3,)), also=('C18',))
def status_vec(v):
    n = v.dim('n', 2)
    f = v.func('validation', 'validate_status')

    def run():
        x = anyvector(v, n)
        return f(x, label_list(v.I, n, 'S')), x, [(x, x.fn)]
    for p in v.paths(run):
        if p.ok:
            r, x, keep = p.value
            v.frame(p, 'the given vector', *keep)
            v.fresh_result(p, 'the status', r, x)
            v.forall(p, 'kept', [n], lambda y: eq(r.get(y), x.get(y)))
            v.forall(p, 'entries in [0,1]', [n], lambda y: within(r.get(y)))
            v.check(p, 'sums to 1', within(v.sum(n, lambda y: r.get(y)) - 1, -CLOSE, CLOSE))
        else:
            v.check(p, 'the error is ValueError', p.exc() == 'ValueError')


@spec('C22', 'status_accepts', ['validation.validate_status'], sizes=((2,), (3,)))
def status_ok(v):
    n = v.dim('n', 2)
    f = v.func('validation', 'validate_status')

    def run():
        x = distribution(v.I, n)
        return f(x, label_list(v.I, n, 'S')), x
    for p in v.only_ok(v.paths(run)):
        r, x = p.value
        v.forall(p, 'kept', [n], lambda y: eq(r.get(y), x.get(y)))


@spec('C22', 'integer_limits', ['validation.validate_integer', 'validation._validate_limits'], sizes=((2,),))
def integer_limits(v):
    x = v.int('x')
    lo, hi = v.int('lo'), v.int('hi')
    f = v.func('validation', 'validate_integer')
    for sl in (False, True):
        for sh in (False, True):
            def run():
                return f(v.val(x), lower_limit=(v.val(lo), sl), upper_limit=(v.val(hi), sh))
            valid = conj(lt(lo, x) if sl else le(lo, x), lt(x, hi) if sh else le(x, hi))
            outcomes(v, v.paths(run), valid, lambda p: v.check(p, 'the value', eq(tt(p.value), x)), f'limits {sl} {sh}', 'ValueError')


@spec('C22', 'float_limits', ['validation.validate_float', 'validation._validate_limits'], sizes=((2,),))
def float_limits(v):
    x, lo, hi = v.real('x'), v.real('lo'), v.real('hi')
    f = v.func('validation', 'validate_float')
    for sl in (False, True):
        for sh in (False, True):
            def run():
                return f(x, lower_limit=(lo, sl), upper_limit=(hi, sh))
            valid = conj(lt(lo.t, x.t) if sl else le(lo.t, x.t), lt(x.t, hi.t) if sh else le(x.t, hi.t))
            outcomes(v, v.paths(run), valid, lambda p: v.check(p, 'the value', eq(tt(p.value), x.t)), f'limits {sl} {sh}', 'ValueError')
