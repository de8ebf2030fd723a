"""Registry of contracts and the runner that discharges their obligations.

A spec executes functions of the current source on symbolic inputs and states
postconditions on every path.  mode 'unbounded': dimensions are symbolic
integers.  mode 'bounded': dimensions are the given small numbers, entries stay symbolic."""
import json
import signal
import sys
import time
import traceback
import warnings
from .harness import *
from . import harness as hs
from . import symloops

SPECS = []


class SpecDef:
    def __init__(self, prop, name, covers, fn, sizes, unbounded, also):
        self.prop, self.name, self.covers, self.fn = prop, name, covers, fn
        self.sizes, self.unbounded, self.also = sizes, unbounded, also

    @property
    def id(self):
        return self.prop + '/' + self.name


def spec(prop, name, covers, sizes=((2,), (3,)), unbounded=True, also=()):
    """also: other properties for which the obligations of this spec count (frame obligations for C18, ...)"""
    def deco(f):
        SPECS.append(SpecDef(prop, name, covers, f, sizes, unbounded, tuple(also)))
        return f
    return deco


class Path:
    def __init__(self, ex, out, ctx):
        self.conds = ex.conds
        self.kind, self.value = out
        self.ctx = ctx

    @property
    def ok(self):
        return self.kind in ('ok', 'return')

    def exc(self):
        return self.value.tname if self.kind == 'raise' else None


class V:
    """verification session of one spec"""

    def __init__(self, sizes=None):
        self.sizes = sizes
        self.I = new_interp()
        self.I.dim_terms = []
        self.I.contracts['utilities.build_mc_graph'] = lambda I, a, k: Opaque('graph')
        self.I.contracts['utilities.build_hmm_graph'] = lambda I, a, k: Opaque('graph')
        self.k = 0
        self.results = []

    @property
    def bounded(self):
        return self.sizes is not None

    def dim(self, name, lo=1):
        """a dimension or step count: symbolic, or the next bounded size"""
        if self.bounded:
            v = self.sizes[min(self.k, len(self.sizes) - 1)]
            self.k += 1
            return num(max(v, lo))
        t = tm.var(name, 'I')
        self.I.assume_def(le(num(lo), t))
        self.I.dim_terms.append(t)
        return t

    def val(self, t):
        """python-level integer argument"""
        return int(t.args[0]) if t.op == 'num' else SV(t, 'int')

    def real(self, name, lo=None, hi=None, ty='float'):
        t = tm.var(name, 'R')
        if lo is not None:
            self.I.assume_def(le(lift(lo), t))
        if hi is not None:
            self.I.assume_def(le(t, lift(hi)))
        return SV(t, ty)

    def int(self, name, lo=None, hi=None):
        """symbolic integer lo <= x < hi"""
        t = tm.var(name, 'I')
        if lo is not None:
            self.I.assume_def(le(lift(lo), t))
        if hi is not None:
            self.I.assume_def(lt(t, lift(hi)))
        return t

    def paths(self, run):
        return [Path(*x) for x in self.I.explore(run)]

    def check(self, path, name, goal, hints=()):
        ctx = path.ctx if path is not None else self.I.ctx
        t = time.time()
        if goal is True:
            goal = TRUE
        if goal is False:
            goal = FALSE
        r = prove(ctx, goal, 0, hints)
        o = Oblig(name, bool(r), r.by, '', goal, r.why, 'post', list(path.conds) if path is not None else [], r.model)
        o.time = time.time() - t
        self.I.obligs.append(o)
        return bool(r)

    def forall(self, path, name, dims, f, hints=()):
        """f(indices) for all indices in range"""
        if all(lift(d).op == 'num' for d in dims):
            import itertools
            ok = True
            for ix in itertools.product(*[range(int(lift(d).args[0])) for d in dims]):
                ok = self.check(path, f'{name}{list(ix)}', f(*[num(i) for i in ix]), hints) and ok
            return ok
        vs = [tm.fresh('q', 'I') for _ in dims]
        rng = conj(*[conj(le(ZERO, v), lt(v, lift(d))) for v, d in zip(vs, dims)])
        return self.check(path, name, forall(vs, implies(rng, f(*vs))), hints)

    def fails(self, path, name, why):
        self.I.obligs.append(Oblig(name, False, '', '', FALSE, why, 'post', list(path.conds)))

    def holds(self, path, name, ok, why=''):
        """an obligation about the objects involved, decided by the execution itself"""
        self.I.obligs.append(Oblig(name, ok, 'frame', '', TRUE, '' if ok else why, 'frame', list(path.conds)))

    def frame(self, path, name, *arrs):
        """the arrays were not written"""
        ok = all(a.fn is f for a, f in arrs)
        self.I.obligs.append(Oblig('frame: ' + name, ok, 'frame', '', TRUE, '' if ok else 'an argument array is written', 'frame', list(path.conds)))

    def fresh_result(self, path, name, res, *others):
        ok = isinstance(res, Arr) and all(res.root() is not o.root() for o in others)
        self.I.obligs.append(Oblig('detached: ' + name, ok, 'frame', '', TRUE, '' if ok else 'the result shares memory', 'frame', list(path.conds)))

    def rec(self, name, nidx, init, step, n=None, total=None, nonneg=False, dom=None, sort='R'):
        """spec recurrence over indices in [0,n)"""
        if self.bounded:
            memo = {}

            def R(k, *ix):
                k = lift(k)
                ix = tuple(lift(q) for q in ix)
                if k.op != 'num':
                    raise Unsupported('symbolic step in bounded mode')
                key = (k, ix)
                if key not in memo:
                    if k is ZERO:
                        memo[key] = init(*ix)
                    else:
                        memo[key] = step(R, sub(k, ONE), *ix)
                return memo[key]
            return R
        d = dom or (lambda *ix: conj(*[conj(le(ZERO, q), lt(q, lift(n))) for q in ix]))
        return symloops.Rec(self.I, name, nidx, init, step, dom=d, sort=sort, total=(lift(n), total) if total is not None else None, nonneg=nonneg)

    def sum(self, n, f):
        n = lift(n)
        if n.op == 'num':
            return addn([f(num(i)) for i in range(int(n.args[0]))])
        x = tm.fresh('x', 'I')
        return ssum(x, ZERO, n, f(x))

    def exists(self, n, f):
        n = lift(n)
        if n.op == 'num':
            return disj(*[f(num(i)) for i in range(int(n.args[0]))])
        x = tm.fresh('x', 'I')
        return no(forall(x, implies(conj(le(ZERO, x), lt(x, n)), no(f(x)))))

    # ---- models
    def mc(self, n, name='p', prefix='S'):
        return build_mc(self.I, n, name, prefix)

    def bare_mc(self, n, name='p', prefix='S'):
        """an instance with the fields established by __init__ (its contract is C01)"""
        I = self.I
        cls = I.getclass('markov_chain', 'MarkovChain')
        P = stochastic(I, n, name)
        L = label_list(I, n, prefix)
        o = Inst(cls)
        nt = lift(n)
        o.attrs.update({'_MarkovChain__cache': PDict(), '_MarkovChain__digraph': Opaque('graph'), '_MarkovChain__p': P, '_MarkovChain__size': self.val(nt), '_MarkovChain__states': L})
        return o, P, L

    def bare_hmm(self, n, k):
        """a hidden Markov model with the fields established by __init__ (its contract is C01)"""
        I = self.I
        P = stochastic(I, n, 'p')
        E = stochastic(I, n, 'e', k)
        S, Y = label_list(I, n, 'S'), label_list(I, k, 'Y')
        o = Inst(I.getclass('hidden_markov_model', 'HiddenMarkovModel'))
        pre = '_HiddenMarkovModel__'
        o.attrs.update({pre + 'cache': PDict(), pre + 'digraph': Opaque('graph'), pre + 'p': P, pre + 'e': E, pre + 'size': (self.val(lift(n)), self.val(lift(k))), pre + 'states': S, pre + 'symbols': Y})
        return o, P, E, S, Y

    def attr(self, o, name):
        return o.attrs['_%s__%s' % (o.cls.name, name)]

    def call(self, o, name, *a, **k):
        return call_method(self.I, o, name, *a, **k)

    def func(self, module, name):
        f = self.I.getfunc(module, name)
        return lambda *a, **k: self.I.call(f, list(a), k)

    def static(self, cls, name):
        mod = {'MarkovChain': 'markov_chain', 'HiddenMarkovModel': 'hidden_markov_model'}[cls]
        c = self.I.getclass(mod, cls)
        return lambda *a, **k: self.I.call(self.I.getattr(c, name), list(a), k)

    def loop_invariant(self, names, inv, variant=None):
        """invariant (a list of facts) and variant of the while loop over these variables; both are proved"""
        if not self.bounded:
            self.I.while_invs[:] = [x for x in self.I.while_invs if x[0] != names] + [(names, inv, variant)]

    def trust(self, what):
        """record an assumption made by a specification"""
        self.I.used_contracts[what] = self.I.used_contracts.get(what, 0) + 1

    def contract_prop(self, name, make, cls='MarkovChain'):
        """assume a (cached) property: make(I, o) gives a value with its postcondition"""
        key = '_%s%s' % (cls, name) if name.startswith('__') else name
        self.I.contracts['prop:%s.%s' % (cls, key)] = make

    def traces(self, sort='I', nidx=0):
        """functions of the iteration number followed by loop variables (outermost loops)"""
        return [lambda t, *ix, h=e.H: app(h, [lift(t)] + [lift(x) for x in ix], sort) for e in self.I.traces if e.sort == sort and len(e.ix) == nidx]

    def first_members(self, path, m):
        """the first m elements of the enumerations (np.flatnonzero, ...) counted in the path condition, as hints"""
        out = []
        for c in path.conds:
            for s in subterms(c):
                if s.op == 'app' and s.args[0].startswith('enn_') and not any(x.args[0].startswith('#') for x in s.fv):
                    out += [app('ene_' + s.args[0][4:], list(s.args[1:]) + [num(j)], 'I') for j in range(m)]
        return out

    def as_trace(self, path, name, n, at, sort='I'):
        """a loop variable that equals at(t) for all 0 <= t < n (recorded as a lemma), else at itself"""
        for H in self.traces(sort):
            m = len(self.I.obligs)
            t = tm.fresh('t', 'I')
            fact = forall(t, implies(conj(le(ZERO, t), lt(t, lift(n))), eq(at(t), H(t))))
            if self.check(path, name + ' is the loop variable', fact):
                path.ctx = path.ctx.ext(fact)
                return H
            del self.I.obligs[m:]
        return at

    def attempt(self, path, name, f):
        """ghost lemma by induction where it holds; nothing is claimed where it does not"""
        m = len(self.I.obligs)
        self.induct(path, name, f)
        if not all(o.ok for o in self.I.obligs[m:]):
            del self.I.obligs[m:]

    def induct(self, path, name, f):
        """ghost lemma f(k) for every integer k >= 0, by induction; usable afterwards on this path"""
        r0 = self.check(path, name + ' (base)', f(ZERO))
        k = tm.fresh('c', 'I')
        saved = path.ctx
        path.ctx = saved.ext(le(ZERO, k), f(k))
        r1 = self.check(path, name + ' (step)', f(k + 1))
        path.ctx = saved
        if r0 and r1:
            k = tm.fresh('k', 'I')
            path.ctx = saved.ext(forall(k, implies(le(ZERO, k), f(k))))

    # ---- expectations
    def only_ok(self, paths, name='the call returns normally'):
        """no path raises"""
        paths = [p for p in paths if p.ok or not self.infeasible(p)]
        for p in paths:
            if not p.ok:
                self.fails(p, name, f'raises {p.exc()} when ' + ' and '.join(show(c)[:200] for c in p.conds))
        good = [p for p in paths if p.ok]
        if not good:
            self.I.obligs.append(Oblig(name, False, '', '', FALSE, 'no path returns', 'post', []))
        else:
            self.I.obligs.append(Oblig(name, all(p.ok for p in paths), 'paths', '', TRUE, '', 'post', []))
            if not self.reachable(good):
                self.I.obligs.append(Oblig(name + ': some path is reachable', False, '', '', FALSE, 'the assumptions are contradictory', 'post', []))
        return good

    def infeasible(self, p):
        return bool(prove(p.ctx, FALSE)) or any(prove(p.ctx, no(c)) for c in reversed(p.conds))

    def reachable(self, paths):
        """vacuity guard: the assumptions of some path are not refuted"""
        for p in paths:
            if FALSE not in p.ctx.fset and not p.ctx.inconsistent() and not prove(p.ctx, FALSE):
                return True
        return False


def load():
    import importlib
    import os
    here = os.path.dirname(__file__)
    for f in sorted(os.listdir(here)):
        if f.startswith('c_') and f.endswith('.py'):
            importlib.import_module('pvc.' + f[:-3])


class TimeLimit(BaseException):
    pass


def _alarm(*_):
    raise TimeLimit()


def run_one(sd, sizes, limit):
    """discharge the obligations of one spec; returns a JSON-able record"""
    warnings.simplefilter('ignore')
    t0 = time.time()
    v = V(sizes)
    st = {'smt': 0, 'norm': 0}
    err, status = '', 'proved'
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    try:
        if hasattr(pv, 'set_deadline'):
            pv.set_deadline(t0 + limit)
        sd.fn(v)
    except Unsupported as ex:
        status, err = 'unsupported', str(ex)[:500]
    except TimeLimit:
        status, err = 'timeout', f'{limit} s'
    except pv.Timeout:
        status, err = 'timeout', f'{limit} s'
    except RecursionError:
        status, err = 'unsupported', 'recursion'
    except PyRaise as ex:
        status, err = 'failed', f'raises {ex.exc.tname}'
    except Exception as ex:
        status, err = 'unsupported', f'{type(ex).__name__}: {ex} @ {[f"{q.filename.split("/")[-1]}:{q.lineno}" for q in traceback.extract_tb(ex.__traceback__)][-3:]}'
    finally:
        signal.alarm(0)
    obs = []
    seen = {}
    for o in v.I.obligs:
        key = (o.name, o.where, o.kind, bool(o.ok), tuple(o.path or ()) if not o.ok else ())
        if key in seen:
            seen[key]['count'] += 1
            continue
        d = {'name': o.name, 'where': o.where, 'kind': o.kind, 'ok': bool(o.ok), 'by': o.by, 'count': 1}
        if not o.ok:
            d['why'] = str(o.why)[:400]
            d['goal'] = show(o.goal)[:600] if o.goal is not None else ''
            d['path'] = [show(c)[:200] for c in (o.path or [])][:8]
            if o.model:
                d['model'] = {k: str(x) for k, x in list(o.model.items())[:40]} if isinstance(o.model, dict) else str(o.model)[:800]
        seen[key] = d
        obs.append(d)
    if status == 'proved' and any(not o['ok'] for o in obs):
        status = 'failed'
    if status == 'proved' and not any(o['kind'] != 'safety' for o in obs):
        status, err = 'unsupported', 'no obligation generated'
    return {'spec': sd.id, 'prop': sd.prop, 'name': sd.name, 'covers': sd.covers, 'also': sd.also, 'mode': 'unbounded' if sizes is None else 'bounded ' + ','.join(map(str, sizes)), 'status': status, 'error': err,
            'obligations': obs, 'functions': sorted(v.I.functions), 'library': sorted(v.I.used_contracts), 'loops': dict(v.I.loop_kinds), 'wall_s': round(time.time() - t0, 2)}


def run_spec(sd, limit=120, every=False):
    recs = []
    if sd.unbounded:
        r = run_one(sd, None, limit)
        recs.append(r)
        if r['status'] == 'proved' and not every:
            return recs
    for s in sd.sizes:
        recs.append(run_one(sd, s, limit))
    return recs


def main(a):
    load()
    if a[0] == '--list':
        for s in SPECS:
            print(s.id, ','.join((s.prop,) + s.also))
        return 0
    if a[0] == '--show':
        ok = True
        for s in SPECS:
            if any(s.id == x or s.prop == x for x in a[1:]):
                for r in run_spec(s, int(__import__("os").environ.get("PVC_LIMIT", 120))):
                    print(r['spec'], r['mode'], r['status'], r['error'], 'obligations', len(r['obligations']), 'loops', r['loops'], r['wall_s'], 's')
                    for o in r['obligations']:
                        if not o['ok']:
                            print('   NOT DISCHARGED', o['kind'], o['name'], o['where'], '|', o.get('why', '')[:300], '|', o.get('goal', '')[:500], '| path', o.get('path'), o.get('model', ''))
        return 0
    # one spec: ID OUT.json LIMIT [all]
    sd = [s for s in SPECS if s.id == a[0]][0]
    recs = run_spec(sd, float(a[2]), len(a) > 3)
    json.dump(recs, open(a[1], 'w'), default=str)
    return 0
