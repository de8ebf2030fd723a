"""C19: equality, hashing, cached properties and aliases"""
from types import SimpleNamespace
from .spec import *
from .c_chain import tt, lift_u, length, same_labels
from .c_flags import truth, every
from . import libmodel as lib
from . import npmodel as npm


def agree(v, p, r, x, y):
    """the result is true exactly when sizes, matrices and labels agree;
    x, y = (sizes, [(Arr, rows, columns)], [(label function, count)])"""
    (n, As, Ls), (m, Bs, Ks) = x, y
    t = truth(v, r)
    sizes = conj(*[eq(lift(a), lift(b)) for a, b in zip(n, m)])
    v.check(p, 'equal models have one size', implies(t, sizes))
    if v.bounded and n != m:
        return
    v.check(p, 'models of different sizes differ', implies(no(sizes), no(t)))
    cs = []
    for (A, rows, cols), (B, _, _) in zip(As, Bs):
        v.forall(p, 'equal models have equal entries', [rows, cols], lambda i, j: implies(t, eq(A.get(i, j), B.get(i, j))))
        cs.append(every([rows, cols], lambda i, j: eq(A.get(i, j), B.get(i, j))))
    for (f, c), (g, _) in zip(Ls, Ks):
        v.forall(p, 'equal models have equal labels', [c], lambda i: implies(t, eq(f(i), g(i))))
        cs.append(every([c], lambda i: eq(f(i), g(i))))
    q = SimpleNamespace(ctx=p.ctx.ext(sizes, *cs), conds=p.conds)
    for c in t.args if t.op == 'and' else [t]:
        if not v.check(q, 'models that agree are equal', c):
            break


def chain(v, n, name, prefix):
    mc, P, L = v.bare_mc(n, name, prefix)
    f = lambda i: lift_u(L, i)
    return mc, ([n], [(P, n, n)], [(f, n)]), [(P, P.fn)]


@spec('C19', 'chain_equality', ['MarkovChain.__eq__', 'MarkovChain.p', 'MarkovChain.states'], sizes=((2, 2), (3, 2)), also=('C18',))
def chain_equality(v):
    n, m = v.dim('n', 2), v.dim('m', 2)

    def run():
        a, x, k1 = chain(v, n, 'p', 'S')
        b, y, k2 = chain(v, m, 'q', 'T')
        return v.call(a, '__eq__', b), x, y, k1 + k2
    for p in v.only_ok(v.paths(run)):
        r, x, y, keep = p.value
        v.frame(p, '__eq__', *keep)
        agree(v, p, r, x, y)


def hidden(v, n, k, names, prefixes):
    """a hidden Markov model with the fields established by __init__"""
    I = v.I
    P, E = stochastic(I, n, names[0]), stochastic(I, n, names[1], k)
    S, Y = label_list(I, n, prefixes[0]), label_list(I, k, prefixes[1])
    o, pre = Inst(I.getclass('hidden_markov_model', 'HiddenMarkovModel')), '_HiddenMarkovModel__'
    o.attrs.update({pre + 'cache': PDict(), pre + 'digraph': Opaque('graph'), pre + 'p': P, pre + 'e': E, pre + 'size': (v.val(lift(n)), v.val(lift(k))), pre + 'states': S, pre + 'symbols': Y})
    return o, ([n, k], [(P, n, n), (E, n, k)], [(lambda i: lift_u(S, i), n), (lambda i: lift_u(Y, i), k)]), [(P, P.fn), (E, E.fn)]


@spec('C19', 'hidden_equality', ['HiddenMarkovModel.__eq__', 'HiddenMarkovModel.p', 'HiddenMarkovModel.e', 'HiddenMarkovModel.states', 'HiddenMarkovModel.symbols'], sizes=((2, 2, 2, 2), (2, 2, 2, 3)), also=('C18',))
def hidden_equality(v):
    n, k, m, l = v.dim('n', 2), v.dim('k', 2), v.dim('m', 2), v.dim('l', 2)

    def run():
        a, x, k1 = hidden(v, n, k, 'pe', 'SY')
        b, y, k2 = hidden(v, m, l, 'qf', 'TZ')
        return v.call(a, '__eq__', b), x, y, k1 + k2
    for p in v.only_ok(v.paths(run)):
        r, x, y, keep = p.value
        v.frame(p, '__eq__', *keep)
        agree(v, p, r, x, y)


@spec('C19', 'other_kinds_differ', ['MarkovChain.__eq__', 'HiddenMarkovModel.__eq__'], sizes=((2, 2),))
def other_kinds_differ(v):
    n, k = v.dim('n', 2), v.dim('k', 2)

    def run():
        a, x, _ = chain(v, n, 'p', 'S')
        b, y, _ = hidden(v, n, k, 'pe', 'SY')
        others = [None, 1, 'S', (a.attrs['_MarkovChain__p'], x), PList([a]), a.attrs['_MarkovChain__p'], a.attrs['_MarkovChain__states']]
        return [v.call(a, '__eq__', o) for o in [b] + others] + [v.call(b, '__eq__', o) for o in [a] + others]
    for p in v.only_ok(v.paths(run)):
        v.holds(p, 'comparison with any other object is False', all(r is False for r in p.value), 'not False')


def hashes(v, make, *dims):
    """two models with equal sizes, entries and labels hash equally"""
    def run():
        # two objects with the same contents
        a, x, _ = make()
        b, _, _ = make()
        v.trust('hash: a function of the contents of the hashed bytes and tuples')
        return v.call(a, '__hash__'), v.call(b, '__hash__'), x
    for p in v.only_ok(v.paths(run)):
        h, g, x = p.value
        v.frame(p, '__hash__', *[(A, A.fn) for A, _, _ in x[1]])
        v.check(p, 'equal models hash equally', eq(tt(h), tt(g)))


@spec('C19', 'chain_hash', ['MarkovChain.__hash__'], sizes=((2,), (3,)), also=('C18',))
def chain_hash(v):
    n = v.dim('n', 2)
    hashes(v, lambda: chain(v, n, 'p', 'S'))


@spec('C19', 'hidden_hash', ['HiddenMarkovModel.__hash__'], sizes=((2, 2),), also=('C18',))
def hidden_hash(v):
    n, k = v.dim('n', 2), v.dim('k', 2)
    hashes(v, lambda: hidden(v, n, k, 'pe', 'SY'))


@spec('C19', 'cached_property', ['cached_property.__get__', 'cached_property.__set__', 'cached_property.__delete__', 'cached_property.__set_name__', 'cached_property.getter', 'cached_property.setter', 'cached_property.deleter'], sizes=((2,),))
def cached(v):
    """x and y are two instances, the fields of the descriptor are those set by __init__"""
    I = v.I
    cls = I.getclass('decorators', 'cached_property')
    calls, held = [], []

    def new():
        x = Inst(I.getclass('markov_chain', 'MarkovChain'))
        x.attrs['__dict__'] = PDict()
        return x

    def run():
        del calls[:]
        results, lock = {}, LockV()
        del held[:]

        def getter(I, a, k):
            calls.append(a[0])
            held.append(lock.depth > 0)
            return results.setdefault(id(a[0]), Opaque('result'))
        o = Inst(cls)
        o.attrs.update({'_func': Builtin('getter', getter), '_func_name': None, '_lock': lock})
        I.call_func(cls.lookup('__set_name__'), [o, cls, 'member'], {})
        get = lambda x: I.call_func(cls.lookup('__get__'), [o, x, cls], {})
        x, y = new(), new()
        got = [get(x), get(y), get(x), get(y), get(x)]
        refused = []
        for name, args in (('__set__', [x, 1]), ('__delete__', [x]), ('getter', [None]), ('setter', [None]), ('deleter', [None]), ('__set_name__', [cls, 'other'])):
            try:
                I.call_func(cls.lookup(name), [o, *args], {})
                refused.append(name)
            except PyRaise as ex:
                if ex.exc.tname != 'AttributeError':
                    refused.append(name)
        return got, (x, y), [results[id(x)], results[id(y)]], refused, list(calls), get(x), get(None) is o and all(held)
    for p in v.only_ok(v.paths(run)):
        got, xs, (a, b), refused, made, last, itself = p.value
        v.holds(p, 'computed once per instance', len(made) == 2 and made[0] is xs[0] and made[1] is xs[1], f'{len(made)} evaluations')
        v.holds(p, 'each instance gets its own value, always the same', got[0] is a and got[2] is a and got[4] is a and got[1] is b and got[3] is b and last is a, 'another value')
        v.holds(p, 'setting, deleting, sharing and rebinding raise AttributeError', not refused, ', '.join(refused))
        v.holds(p, 'the class attribute is the descriptor; values are computed holding the lock', itself, 'another object, or no lock')
