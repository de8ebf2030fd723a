"""Runtime evaluation of the contracts on the real code (counterexample search and replay).

A contract is a pair (generator of JSON-able cases, checker).  The checker calls the real code and
raises Bad when a postcondition fails.  Any exception that escapes is also a failure."""
import json, os, signal, sys, time, traceback, warnings, hashlib, math
import numpy as np

REPO = os.environ.get('PVC_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True


class Bad(Exception):
    pass


class Known(Exception):
    def __init__(self, kid, msg):
        super().__init__(msg)
        self.kid = kid


class Timeout(Exception):
    pass


CONTRACTS = {}


def contract(prop, name, gen, weight=1.0):
    def deco(f):
        CONTRACTS.setdefault(prop, []).append((name, gen, f, weight))
        return f
    return deco


def need(c, msg, *args):
    if not c:
        raise Bad(msg + (' ' + ' '.join(short(a) for a in args) if args else ''))


def short(a):
    s = repr(a).replace('\n', ' ')
    return s if len(s) < 400 else s[:400] + '...'


def near(a, b, msg, rtol=1e-7, atol=1e-9):
    if a is None or b is None:
        need(a is None and b is None, msg + ': got', a, 'expected', b)
        return
    x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    need(x.shape == y.shape, msg + ': shape', x.shape, y.shape)
    need(np.allclose(x, y, rtol=rtol, atol=atol, equal_nan=True), msg + ': got', a, 'expected', b)


def same(a, b, msg):
    need(a == b and type(a) is type(b) or (a == b), msg + ': got', a, 'expected', b)


def raises(f, kinds, msg):
    try:
        r = f()
    except kinds:
        return
    except Exception as ex:
        raise Bad(f'{msg}: raised {type(ex).__name__}: {ex}')
    raise Bad(f'{msg}: accepted, returned {short(r)}')


def _alarm(*_):
    raise Timeout('the call did not terminate within the time limit')


def lib_frames(tb):
    return [f for f in traceback.extract_tb(tb) if '/pydtmc/' in f.filename]


def run_case(f, case, limit=20):
    """None if fine, else (kind, message)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    np.random.seed(12345)
    try:
        f(case)
        return None
    except Bad as ex:
        return 'bad', str(ex)
    except Known as ex:
        return 'known:' + ex.kid, str(ex)
    except Timeout as ex:
        return 'bad', str(ex)
    except Exception as ex:
        return 'bad', f'unexpected {type(ex).__name__}: {ex} @ {[f"{os.path.basename(q.filename)}:{q.lineno}" for q in traceback.extract_tb(ex.__traceback__)][-3:]}'
    finally:
        signal.alarm(0)


def shrink(f, case, fails):
    return case


def run_property(prop, tier, seed, budget):
    """evaluate all contracts of a property within a time budget; returns a report"""
    t0 = time.time()
    cs = CONTRACTS.get(prop, [])
    tw = sum(w for *_, w in cs) or 1
    rep = {'contracts': {}, 'evaluations': 0, 'distinct': 0, 'samples': [], 'failures': [], 'known': {}}
    for ci, (name, gen, f, w) in enumerate(cs):
        rng = np.random.RandomState((seed * 1000003 + ci * 7919 + 17) % (2**31))
        end = time.time() + budget * w / tw
        seen = set()
        n = 0
        fails = 0
        for case in gen(rng, tier):
            n += 1
            key = hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()
            if key in seen:
                continue
            seen.add(key)
            r = run_case(f, case)
            if r is not None and r[1].startswith('the call did not terminate'):
                r = run_case(f, case, 90)
            if r is not None:
                kind, msg = r
                if kind.startswith('known:'):
                    rep['known'].setdefault(kind[6:], {'contract': name, 'message': msg, 'case': case})
                else:
                    fails += 1
                    rep['failures'].append({'property': prop, 'contract': name, 'message': msg, 'case': case})
                    if fails >= 3:
                        break
            if n <= 1 and len(rep['samples']) < 6:
                rep['samples'].append({'contract': name, 'case': trim(case)})
            if time.time() > end:
                break
        rep['contracts'][name] = {'evaluated': n, 'distinct': len(seen)}
        rep['evaluations'] += n
        rep['distinct'] += len(seen)
    rep['wall_s'] = time.time() - t0
    return rep


def trim(case):
    s = json.dumps(case, default=str)
    return json.loads(s) if len(s) < 3000 else s[:3000]


# ------------------------------------------------------------------ chains
def norm_rows(w):
    w = np.asarray(w, dtype=float)
    return w / w.sum(axis=1, keepdims=True)


def dyadic_rows(rng, mask, bits=6):
    """rows on the given support with dyadic probabilities summing to 1 exactly"""
    n, m = mask.shape
    p = np.zeros((n, m))
    for i in range(n):
        js = np.flatnonzero(mask[i])
        tot = 2**max(bits, int(np.ceil(np.log2(len(js) + 1))))
        cuts = np.sort(rng.choice(np.arange(1, tot), size=len(js) - 1, replace=False)) if len(js) > 1 else np.array([], dtype=int)
        parts = np.diff(np.concatenate(([0], cuts, [tot])))
        p[i, js] = parts / tot
    return p


def pattern(rng, n, kind):
    m = np.zeros((n, n), dtype=bool)
    if kind == 'dense':
        m[:] = True
    elif kind == 'sparse':
        m = rng.rand(n, n) < min(0.9, 1.8 / n)
    elif kind == 'mid':
        m = rng.rand(n, n) < 0.5
    elif kind == 'cycle':
        d = rng.randint(2, n + 1)
        cl = np.concatenate((np.arange(d), rng.randint(0, d, n - d)))
        rng.shuffle(cl)
        for i in range(n):
            for j in range(n):
                if cl[j] == (cl[i] + 1) % d:
                    m[i, j] = rng.rand() < 0.7
            if not m[i].any():
                m[i, rng.choice(np.flatnonzero(cl == (cl[i] + 1) % d))] = True
    elif kind == 'blocks':
        # several recurrent classes plus transient states, shuffled
        r = rng.randint(1, max(2, n // 2) + 1)
        lab = rng.randint(-1, r, n)
        lab[rng.permutation(n)[:r]] = np.arange(r)
        for i in range(n):
            if lab[i] < 0:
                m[i] = rng.rand(n) < 0.5
            else:
                js = np.flatnonzero(lab == lab[i])
                if len(js) == 1:
                    m[i, i] = True
                else:
                    k = list(js).index(i)
                    m[i, js[(k + 1) % len(js)]] = True
                    if rng.rand() < 0.4:
                        m[i, rng.choice(js)] = True
    elif kind == 'absorbing':
        a = rng.randint(1, max(2, n // 2) + 1)
        ab = set(rng.permutation(n)[:a].tolist())
        for i in range(n):
            if i in ab:
                m[i, i] = True
            else:
                m[i] = rng.rand(n) < 0.5
                if rng.rand() < 0.5:
                    m[i, rng.choice(sorted(ab))] = True
    elif kind == 'perm':
        q = rng.permutation(n)
        m[np.arange(n), q] = True
    elif kind == 'identity':
        m[np.arange(n), np.arange(n)] = True
    elif kind == 'path':
        for i in range(n):
            m[i, (i + 1) % n] = True
        m[n - 1, rng.randint(0, n)] = True
        m[rng.randint(0, n), rng.randint(0, n)] = True
    elif kind == 'birth':
        for i in range(n):
            for j in (i - 1, i, i + 1):
                if 0 <= j < n:
                    m[i, j] = j != i or rng.rand() < 0.5
    elif kind == 'transient_periodic':
        k = max(1, n // 3)
        q = list(range(k, n))
        for a, b in zip(q, q[1:] + q[:1]):
            m[a, b] = True
        for i in range(k):
            m[i] = rng.rand(n) < 0.4
    for i in range(n):
        if not m[i].any():
            m[i, rng.randint(0, n)] = True
    return m


KINDS = ['dense', 'mid', 'sparse', 'cycle', 'blocks', 'absorbing', 'perm', 'identity', 'path', 'birth', 'transient_periodic']


def labels(rng, n, style=None):
    style = style if style is not None else rng.randint(0, 7)
    if style == 0:
        return None
    if style == 1:
        return [str(n - i) for i in range(n)]
    if style == 2:
        return [str(i) for i in rng.permutation(n) + 5]
    if style == 3:
        q = rng.permutation(n)
        return ['%s%s' % (chr(97 + q[i] % 26), q[i]) for i in range(n)]
    if style == 4:
        q = rng.permutation(n)
        return ['S %d' % i if i % 2 else '\u03c9%d' % i for i in q]
    if style == 5:
        return ['x' * (i + 1) for i in range(n)] if n < 20 else ['L%d' % i for i in range(n)]
    return ['State,"%d"' % i for i in rng.permutation(n)]


def fill(rng, m, how=None):
    how = how if how is not None else rng.randint(0, 5)
    if how == 0:
        return dyadic_rows(rng, m)
    if how == 1:
        return norm_rows(np.where(m, rng.rand(*m.shape) + 0.05, 0.0))
    if how == 2:
        return norm_rows(m.astype(float))
    if how == 3:
        return norm_rows(np.where(m, 10.0**rng.uniform(-6, 0, m.shape), 0.0))
    return norm_rows(np.where(m, rng.randint(1, 10, m.shape), 0.0))


def sizes(rng, tier, big=True):
    r = rng.rand()
    if r < 0.55:
        return int(rng.randint(2, 6))
    if r < 0.9:
        return int(rng.randint(5, 11))
    if not big:
        return int(rng.randint(8, 13))
    return int(rng.choice([12, 15, 16, 17, 20, 24, 31, 33, 40, 64, 65, 70]))


def chain(rng, tier, kinds=None, n=None, how=None, style=None, big=True):
    n = n or sizes(rng, tier, big)
    kind = kinds[rng.randint(len(kinds))] if kinds else KINDS[rng.randint(len(KINDS))]
    p = fill(rng, pattern(rng, n, kind), how)
    return {'p': p.tolist(), 'states': labels(rng, n, style), 'kind': kind}


def leak(rng, d, times=None):
    """move a tiny (exactly representable) probability to transitions outside the support"""
    p = np.array(d['p'])
    n = len(p)
    for _ in range(times or int(rng.randint(1, 3))):
        z = np.argwhere(p == 0)
        if not len(z):
            break
        i, j = z[rng.randint(len(z))]
        e = 2.0**-int(rng.randint(14, 41))
        k = int(np.argmax(p[i]))
        p[i, k] -= e
        p[i, j] = e
    d['p'] = p.tolist()
    d['kind'] = str(d.get('kind')) + '+leak'
    return d


def count(tier):
    return 4000 if tier == 'quick' else 60000


def chains(kinds=None, extra=None, big=True, how=None, fixed=True, leaks=0.08):
    def gen(rng, tier):
        if fixed and not kinds:
            for c in CLASSIC:
                d = {'p': c, 'states': None, 'kind': 'classic'}
                if extra:
                    extra(rng, d)
                yield d
        for k in range(count(tier)):
            d = chain(rng, tier, kinds, big=big, how=how)
            if leaks and rng.rand() < leaks:
                leak(rng, d)
            if extra:
                extra(rng, d)
            yield d
    return gen


CLASSIC = [
    [[0.0, 1.0], [1.0, 0.0]],
    [[1.0, 0.0], [0.0, 1.0]],
    [[0.5, 0.5], [0.25, 0.75]],
    [[1.0, 0.0], [0.5, 0.5]],
    [[0.5, 0.5, -0.0], [0.0, 0.5, 0.5], [0.25, -0.0, 0.75]],
    [[0.0, 0.5, 0.5], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    [[0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 0.0, 0.0]],
    [[0.0, 0.5, 0.5, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 1.0], [0.0, 0.0, 1.0, 0.0]],
    [[0.2, 0.8, 0, 0, 0], [0, 0, 1, 0, 0], [0, 1, 0, 0, 0], [0, 0, 0, 0, 1], [0, 0.5, 0, 0.5, 0]],
    [[0.0, 0.0, 0.0, 1.0], [0.0, 0.0, 1.0, 0.0], [0.0, 1.0, 0.0, 0.0], [1.0, 0.0, 0.0, 0.0]],
]


def MC(case, arr=True):
    from pydtmc import MarkovChain
    return MarkovChain(np.array(case['p'], dtype=float), None if case.get('states') is None else list(case['states']))


def names(case):
    return case['states'] if case.get('states') is not None else [str(i + 1) for i in range(len(case['p']))]


def hmm_case(rng, tier, n=None, k=None, style=None):
    n = n or int(rng.randint(2, 6))
    k = k or int(rng.randint(2, 6))
    p = fill(rng, pattern(rng, n, KINDS[rng.randint(len(KINDS))]))
    m = rng.rand(n, k) < 0.7
    for i in range(n):
        if not m[i].any():
            m[i, rng.randint(k)] = True
    e = fill(rng, m)
    if rng.rand() < 0.1:
        for x in (p, e):
            d_ = {'p': x.tolist()}
            leak(rng, d_, 1)
            x[:] = d_['p']
    st = labels(rng, n, style)
    sy = None if st is None else ['#' + s for s in labels(rng, k, rng.randint(1, 7))]
    return {'p': p.tolist(), 'e': e.tolist(), 'states': st, 'symbols': sy}


def HMM(c):
    from pydtmc import HiddenMarkovModel
    return HiddenMarkovModel(np.array(c['p']), np.array(c['e']), None if c['states'] is None else list(c['states']), None if c['symbols'] is None else list(c['symbols']))


def hnames(c):
    n, k = len(c['p']), len(c['e'][0])
    return (c['states'] or ['P%d' % (i + 1) for i in range(n)]), (c['symbols'] or ['E%d' % (i + 1) for i in range(k)])


def dist(rng, n):
    r = rng.randint(0, 4)
    if r == 0:
        d = np.zeros(n)
        d[rng.randint(n)] = 1.0
    elif r == 1:
        d = np.full(n, 1.0 / n)
    else:
        d = rng.rand(n) * (rng.rand(n) < 0.8)
        if d.sum() == 0:
            d[0] = 1
        d = d / d.sum()
    return d.tolist()


# ------------------------------------------------------------------ graph oracles
def reach(p):
    a = np.asarray(p) > 0
    n = len(a)
    r = a | np.eye(n, dtype=bool)
    for k in range(n):
        r |= r[:, k:k + 1] & r[k:k + 1, :]
    return r


def classes(p):
    r = reach(p)
    n = len(r)
    out = []
    seen = set()
    for i in range(n):
        if i not in seen:
            c = [j for j in range(n) if r[i, j] and r[j, i]]
            seen |= set(c)
            out.append(c)
    out.sort(key=lambda c: (-len(c), c[0]))
    rec = [c for c in out if all(j in c for j in range(n) if r[c[0], j])]
    return out, rec, r


def class_period(p, c):
    p = np.asarray(p)
    lev = {c[0]: 0}
    fr = [c[0]]
    cs = set(c)
    while fr:
        nx = []
        for u in fr:
            for v in c:
                if p[u, v] > 0 and v not in lev:
                    lev[v] = lev[u] + 1
                    nx.append(v)
        fr = nx
    g = 0
    for u in c:
        for v in c:
            if p[u, v] > 0:
                g = math.gcd(g, abs(lev[u] + 1 - lev[v]))
    return g


def stationary(p, c):
    """high accuracy stationary law of the closed class c (subtraction free)"""
    a = np.array(p, dtype=float)[np.ix_(c, c)]
    n = len(c)
    for k in range(n - 1, 0, -1):
        s = a[k, :k].sum()
        a[:k, k] /= s
        a[:k, :k] += np.outer(a[:k, k], a[k, :k])
    x = np.zeros(n)
    x[0] = 1
    for k in range(1, n):
        x[k] = x[:k] @ a[:k, k]
    return x / x.sum()
