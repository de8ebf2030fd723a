"""Entry points: symbolic models built by the real constructors, obligations, results."""
import time
from .terms import *
from . import terms as tm
from .values import *
from .interp import *
from . import interp as ip
from . import npmodel as npm
from . import libmodel as lib
from . import prover as pv


def label_list(I, n, prefix='lab'):
    """n distinct non-empty string labels"""
    nt = lift(n)
    if nt.op == 'num':
        return PList('%s%d' % (prefix, k) for k in range(int(nt.args[0])))
    L = lambda k: app(prefix, [k], 'U')
    ix = lambda x: app(prefix + '_ix', [x], 'I')
    k = tm.fresh('k', 'I')
    I.assume_def(forall(k, implies(conj(le(ZERO, k), lt(k, nt)), conj(eq(ix(L(k)), k), ne(L(k), strlit('')), ne(app('str_strip', [L(k)], 'U'), strlit(''))))))
    s = SList(nt, lambda t: SV(L(t), 'str'), elty='str')
    s.facts['index'] = (lambda x: conj(le(ZERO, ix(x)), lt(ix(x), nt), eq(L(ix(x)), x)), ix)
    return s


def sum_rule(I, name, n, dims=2, axis=1, total=ONE, rows=None):
    """rewriting rule: sum over the last index of name(i, .) over [0,n) is total"""
    def rule(ctx, v, los, his, rest):
        if len(rest) != 1 or rest[0][1] != 1:
            return None
        a = rest[0][0]
        if a.op != 'app' or a.args[0] != name or a.args[1 + axis] is not v:
            return None
        others = [x for j, x in enumerate(a.args[1:]) if j != axis]
        if any(v in x.fv for x in others):
            return None
        if len(los) != 1 or len(his) != 1 or los[0] is not ZERO:
            return None
        if ctx.norm(sub(his[0], sub(n, ONE))) is not ZERO:
            return None
        cond = conj(*[conj(le(ZERO, x), lt(x, n if rows is None else rows)) for x in others])
        if not ctx.entails(cond):
            return None
        return total
    I.ctx.rules.sums.append(rule)


def stochastic(I, n, name='p', m=None, conc_sum='last'):
    """a symbolic stochastic matrix as an input array (exact rows, real arithmetic)"""
    nt, mt = lift(n), lift(m if m is not None else n)
    if nt.op == 'num':
        a, b = int(nt.args[0]), int(mt.args[0])
        ent = {}
        for i in range(a):
            tot = ZERO
            for j in range(b):
                v = tm.var('%s%d%d' % (name, i, j), 'R')
                if j == b - 1:
                    # the last entry is what is missing to 1
                    v = sub(ONE, tot)
                ent[i, j] = v
                tot = add(tot, v)
                I.ctx.assume(le(ZERO, v))
                I.ctx.assume(le(v, ONE))

        def fn(idx):
            ii, jj = idx
            if ii.op == 'num' and jj.op == 'num':
                return ent[int(ii.args[0]), int(jj.args[0])]
            r = ZERO
            for (x, y), v in ent.items():
                r = add(r, mul(ivr(conj(eq(ii, num(x)), eq(jj, num(y)))), v))
            return r
        return Arr((nt, mt), 'f', fn)
    i, j = tm.fresh('i', 'I'), tm.fresh('j', 'I')
    p = lambda x, y: app(name, [x, y], 'R')
    I.assume_def(forall((i, j), implies(conj(le(ZERO, i), lt(i, nt), le(ZERO, j), lt(j, mt)), conj(le(ZERO, p(i, j)), le(p(i, j), ONE)))))
    sum_rule(I, name, mt, rows=nt)
    return Arr((nt, mt), 'f', lambda idx: p(*idx))


def distribution(I, n, name='d'):
    nt = lift(n)
    if nt.op == 'num':
        a = int(nt.args[0])
        vs = [tm.var('%s%d' % (name, j), 'R') for j in range(a - 1)]
        vs.append(sub(ONE, addn(vs)))
        for v in vs:
            I.ctx.assume(le(ZERO, v))
            I.ctx.assume(le(v, ONE))
        return Arr((nt,), 'f', lambda ix: npm.pick(ix[0], vs))
    j = tm.fresh('j', 'I')
    d = lambda x: app(name, [x], 'R')
    I.assume_def(forall(j, implies(conj(le(ZERO, j), lt(j, nt)), conj(le(ZERO, d(j)), le(d(j), ONE)))))

    def rule(ctx, v, los, his, rest):
        if len(rest) == 1 and rest[0][1] == 1 and rest[0][0] is d(v) and los == [ZERO] and len(his) == 1 and \
                ctx.norm(sub(his[0], sub(nt, ONE))) is ZERO:
            return ONE
        return None
    I.ctx.rules.sums.append(rule)
    return Arr((nt,), 'f', lambda ix: d(ix[0]))


def vector(I, n, name, lo=None, hi=None):
    nt = lift(n)
    if nt.op == 'num':
        vs = [tm.var('%s%d' % (name, j), 'R') for j in range(int(nt.args[0]))]
        for v in vs:
            if lo is not None:
                I.ctx.assume(le(lift(lo), v))
            if hi is not None:
                I.ctx.assume(le(v, lift(hi)))
        return Arr((nt,), 'f', lambda ix: npm.pick(ix[0], vs))
    d = lambda x: app(name, [x], 'R')
    j = tm.fresh('j', 'I')
    cs = []
    if lo is not None:
        cs.append(le(lift(lo), d(j)))
    if hi is not None:
        cs.append(le(d(j), lift(hi)))
    if cs:
        I.assume_def(forall(j, implies(conj(le(ZERO, j), lt(j, nt)), conj(*cs))))
    return Arr((nt,), 'f', lambda ix: d(ix[0]))


def real_matrix(I, n, name, lo=None, m=None):
    """a matrix of reals, at least lo"""
    nt, mt = lift(n), lift(m if m is not None else n)
    if nt.op == 'num':
        a, b = int(nt.args[0]), int(mt.args[0])
        ent = {(i, j): tm.var('%s%d%d' % (name, i, j), 'R') for i in range(a) for j in range(b)}
        for x in ent.values():
            if lo is not None:
                I.ctx.assume(le(lift(lo), x))

        def fn(idx):
            ii, jj = idx
            if ii.op == 'num' and jj.op == 'num':
                return ent[int(ii.args[0]), int(jj.args[0])]
            r = ZERO
            for (x, y), t in ent.items():
                r = add(r, mul(ivr(conj(eq(ii, num(x)), eq(jj, num(y)))), t))
            return r
        return Arr((nt, mt), 'f', fn)
    i, j = tm.fresh('i', 'I'), tm.fresh('j', 'I')
    p = lambda x, y: app(name, [x, y], 'R')
    if lo is not None:
        I.assume_def(forall((i, j), implies(conj(le(ZERO, i), lt(i, nt), le(ZERO, j), lt(j, mt)), le(lift(lo), p(i, j)))))
    return Arr((nt, mt), 'f', lambda idx: p(*idx))


def new_interp():
    I = Interp()
    I.contracts['utilities.create_rng'] = lambda I, a, k: lib.RngV()
    I.contracts['utilities.get_instance_generators'] = instance_generators
    I.contracts['utilities.get_numpy_random_distributions'] = lambda I, a, k: PList()
    I.contracts['utilities.get_caller'] = get_caller
    I.contracts['utilities.create_validation_error'] = lambda I, a, k: ExcV('ValidationError', ())
    I.entry_caller = '<user code>'
    return I


def instance_generators(I, a, k):
    """names of the functions of the class carrying the instance_generator mark"""
    cls = a[0]
    out = []
    seen = set()
    for nm, m in sorted(cls.members.items()):
        f = m.fn if isinstance(m, StaticV) else (m if isinstance(m, FuncV) else None)
        if f is not None and not nm.startswith('_') and 'instance_generator' in (getattr(f, 'marks', None) or {}):
            out.append(nm)
    return PList(out)


def get_caller(I, a, k):
    st = a[0]
    if not isinstance(st, lib.StackV):
        raise Unsupported('get_caller')
    names = st.names
    # names[-1] is the function that called inspect.stack(); its caller is the frame before
    if len(names) >= 2:
        return names[-2].split('.')[-1]
    return I.entry_caller


def build_mc(I, n, name='p', prefix='S', p=None):
    cls = I.getclass('markov_chain', 'MarkovChain')
    P = p if p is not None else stochastic(I, n, name)
    L = label_list(I, n, prefix)
    mc = I.call(cls, [P, L])
    return mc, P, L


def build_hmm(I, n, m, names=('p', 'e')):
    cls = I.getclass('hidden_markov_model', 'HiddenMarkovModel')
    P = stochastic(I, n, names[0])
    E = stochastic(I, n, names[1], m)
    S, Y = label_list(I, n, 'S'), label_list(I, m, 'Y')
    return I.call(cls, [P, E, S, Y]), P, E, S, Y


def call_method(I, o, name, *args, **kw):
    return I.call(I.getattr(o, name), list(args), kw)
